#!/usr/bin/env python3
"""Decide one property:  check.py C05 [quick|thorough]

Reads /repo's current source, interprets it abstractly (absint/) next to the
specification functions in spec/, and compares the abstract results of every
obligation of the property.  Nothing of /repo is imported or executed."""
import importlib
import json
import multiprocessing
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('BITFORGE_REPO', '/repo')

from absint import oblig  # noqa: E402
from absint.engine import PyExc  # noqa: E402
from absint.state import Unsupported  # noqa: E402
from absint.values import show  # noqa: E402

RUN = None
OBLS = []
SEED = 1


def specs():
    d = os.path.join(HERE, 'spec')
    return {'spec_' + f[:-3]: os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.py')}


def obligations(prop, tier):
    out = []
    d = os.path.join(HERE, 'checks')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            m = importlib.import_module('checks.' + f[:-3])
            out += m.OBL.get(prop, [])
            if tier == 'thorough':
                out += getattr(m, 'DEEP', {}).get(prop, [])
    return out


T0 = time.time()
BUDGET = 600
FOUND = multiprocessing.get_context('fork').Value('i', 0)


def work(i):
    o = OBLS[i]
    if time.time() - T0 > (100 if FOUND.value else BUDGET):
        return i, {'obligation': o.name, 'verdict': oblig.UNKNOWN, 'partitions': 0, 'diffs': [], 'funcs': (),
                   'undecided_because': ['the time of this run was used up'], 'wall_s': 0, 'outcomes': {}}
    try:
        r = RUN.run(o, seed=SEED, budget=T0 + BUDGET)
        if r.verdict == oblig.REFUTED and not o.label() in KNOWN:
            FOUND.value = 1
        d = r.as_dict()
        d['diffs'] = r.diffs
        d['funcs'] = r.funcs
        return i, d
    except (Unsupported, RecursionError, MemoryError) as e:
        return i, {'obligation': o.name, 'verdict': oblig.UNKNOWN, 'partitions': 0, 'diffs': [], 'funcs': (),
                   'undecided_because': [str(e) or type(e).__name__], 'wall_s': 0, 'outcomes': {}}
    except Exception as e:      # a defect of the analyser is not a verdict on the code
        return i, {'obligation': o.name, 'verdict': oblig.UNKNOWN, 'partitions': 0, 'diffs': [], 'funcs': (),
                   'undecided_because': ['analyser: %s %s' % (type(e).__name__, traceback.format_exc()[-600:])], 'wall_s': 0, 'outcomes': {}}


def known(prop):
    out = {}
    with open(os.path.join(HERE, 'known_findings.jsonl')) as fh:
        for line in fh:
            if line.strip():
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out[d['obligation']] = d
    return out


def main(prop, tier):
    global RUN, OBLS, SEED, KNOWN
    t0 = time.time()
    SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
    OBLS = obligations(prop, tier)
    if not OBLS:
        print('no obligations for', prop)
        return 2
    KNOWN = known(prop)
    RUN = oblig.Runner(REPO, specs())
    viol, res, load_note = [], [], None
    try:
        for m in sorted(set(o.mod for o in OBLS)):
            RUN.load(m)
        RUN.ready()
    except PyExc as e:
        viol.append({'obligation': 'anchor', 'difference': 'loading the package raises %s: a public name the property is about is gone'
                     % show(RUN.eng.freeze(e.val)), 'at': RUN.eng.st.where, 'partition': [], 'member': {}})
    except SyntaxError as e:
        viol.append({'obligation': 'anchor', 'difference': 'does not parse: %s' % e, 'at': '%s:%s' % (e.filename, e.lineno), 'partition': [], 'member': {}})
    except Unsupported as e:
        load_note = 'the package cannot be loaded by the analysis: %s' % e
    if not viol and load_note is None:
        n = min(8, len(OBLS), os.cpu_count() or 1)
        if n > 1 and len(OBLS) > 3:
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(n, initializer=oblig_init) as pool:
                res = [d for i, d in sorted(pool.imap_unordered(work, range(len(OBLS)), chunksize=1), key=lambda x: x[0])]
        else:
            res = [work(i)[1] for i in range(len(OBLS))]
    kn = known(prop)
    funcs = set()
    nk = 0
    for o, d in zip(OBLS, res):
        funcs |= set(f for f in d['funcs'] if f.startswith('bitforge'))
        label = o.label()
        if d['verdict'] == oblig.REFUTED:
            k = kn.get(label)
            for x in d['diffs']:
                if k is not None and k['at'] in x['at'] and k['difference'] in x['difference']:
                    nk += 1
                    print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k['what'], x['at']))
                    break
            rest = [x for x in d['diffs'] if not (k is not None and k['at'] in x['at'] and k['difference'] in x['difference'])]
            for x in rest[:3]:
                viol.append(dict(x, obligation=label))
    und = [(o.label(), d) for o, d in zip(OBLS, res) if d['verdict'] == oblig.UNKNOWN]
    proved = sum(1 for d in res if d['verdict'] == oblig.PROVED)
    ev = {
        'property': prop, 'tier': tier, 'seed': SEED, 'level': LEVEL.get(prop, 'proof'),
        'coverage': {
            'obligations': len(OBLS), 'discharged': proved, 'known_findings': nk,
            'undecided': [{'obligation': a, 'because': d['undecided_because'][:3]} for a, d in und][:40] + ([load_note] if load_note else []),
            'partitions': sum(d['partitions'] for d in res),
            'functions_analysed': sorted(funcs),
            'modules_loaded': sorted(m for m in RUN.eng.mods if m.startswith('bitforge')),
            'checker_cmd': 'python3 check.py %s %s' % (prop, tier),
            'rule': 'abstract results of the specification function and of the analysed code are equal in every partition of the abstract input',
            'trusted_base': ['CPython ast parser', 'absint/ (abstract semantics of Python and of the builtins and library calls used)',
                             'spec/ (specification functions)'],
            'explanation': 'static: the source is parsed and interpreted over abstract values; an obligation is discharged when no partition leaves a difference',
            'obligation_list': [dict(((k, d[k]) for k in ('verdict', 'partitions', 'outcomes')), obligation=o.label()) for o, d in zip(OBLS, res)][:400],
        },
        'assumptions': ['models of library calls (hashlib, hmac, binascii, struct, os.urandom, ecdsa) are faithful or uninterpreted',
                        'inputs range over the domains of each obligation as listed in checks/'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', '%s-violation.json' % prop)
    if viol:
        with open(replay, 'w') as fh:
            json.dump(viol, fh, indent=1, default=str)
    elif os.path.exists(replay):
        os.remove(replay)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s %s: %d obligations, %d proved, %d undecided, %d known; %d partitions, %d functions of bitforge, %.1f s' % (
        prop, tier, len(OBLS), proved, len(und), nk, ev['coverage']['partitions'], len(funcs), ev['wall_s']))
    for a, d in und[:10]:
        print('  undecided %s: %s' % (a, '; '.join(d['undecided_because'][:2])[:300]))
    if load_note:
        print('  ' + load_note)
    for v in viol[:10]:
        print('  difference in %s at %s' % (v['obligation'], v['at']))
        print('    ' + v['difference'][:500])
        if v['partition']:
            print('    when ' + '; '.join(v['partition'])[:500])
        if v['member']:
            print('    e.g. ' + ', '.join('%s=%s' % kv for kv in v['member'].items())[:400])
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    return 0


LEVEL = {}


def oblig_init():
    sys.setrecursionlimit(30000)


if __name__ == '__main__':
    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def t():
        try:
            box.append(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
        except BaseException:
            traceback.print_exc()
            box.append(2)
    th = threading.Thread(target=t)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(box[0])
