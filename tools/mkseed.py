#!/usr/bin/env python3
"""mkseed.py SPEC.py: plant a bug in a scratch copy, confirm it builds, passes the tests and is shown by its demo; keep it in seeded/.
SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python text)."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns.get('SEEDS') or [ns]:
        one(s)


def one(s):
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(d, 'repo')
        run('cp -a /repo %s' % repo)
        for f, old, new in s['EDITS']:
            p = os.path.join(repo, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['ID'], f, t.count(old), old)
            blame = run('git -C /repo blame -s %s' % f).stdout.splitlines()
            open(p, 'w').write(t.replace(old, new))
        diff = run('git -C %s diff' % repo).stdout
        # lines removed must be original ones
        base = run('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
        for f, old, new in s['EDITS']:
            lines = run('git -C /repo blame -s -l %s' % f).stdout.splitlines()
            cur = None
        bad = []
        import re
        f = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                f = l[6:]
            m = re.match(r'@@ -(\d+)', l)
            if m:
                n = int(m.group(1))
                continue
            if f and l[:1] == '-' and not l.startswith('---'):
                b = run('git -C /repo blame -s -l -L%d,%d %s' % (n, n, f)).stdout
                if not b.lstrip('^').startswith(base[:30]):
                    bad.append((f, n, b[:12]))
            if f and l[:1] in ' -' and not l.startswith('---'):
                n += 1
        out = os.path.join(d, 'out')
        os.makedirs(out)
        open(os.path.join(out, 'demo.py'), 'w').write(s['DEMO'])
        open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\n# run with cwd = the repository\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        ok = run('bash %s/demo.sh' % out, cwd='/repo')
        no = run('bash %s/demo.sh' % out, cwd=repo)
        base_t = json.load(open('/opt/vp/BASELINE.json'))
        t = run('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3', cwd=repo, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1'))
        good = ok.returncode == 0 and no.returncode not in (0,) and ' passed' in t.stdout and 'failed' not in t.stdout and 'error' not in t.stdout
        print(s['ID'], 'KEPT' if good else 'REJECTED', 'demo', ok.returncode, no.returncode, t.stdout.strip().splitlines()[-1:], 'NEWLINES %s' % bad if bad else '')
        if not good:
            print(ok.stderr[-300:], '|', no.stderr[-300:], '|', t.stdout[-300:])
            return
        w = os.path.join(V, 'seeded', s['ID'])
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(out, w)
        open(os.path.join(w, 'patch.diff'), 'w').write(diff)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(w, 'meta.json'), 'w'), indent=1)
        env = dict(os.environ, BITFORGE_REPO=repo)
        r = run('python3 check.py %s quick' % s['PROPERTY'], cwd=V, env=env)
        print('   check:', 'CAUGHT' if r.returncode == 1 and 'VIOLATION' in r.stdout else 'MISSED rc=%s %s' % (r.returncode, r.stdout[:300]))
        run('python3 check.py %s quick' % s['PROPERTY'], cwd=V)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1])
