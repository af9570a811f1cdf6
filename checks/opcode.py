from absint.oblig import *

M = 'spec_opcode'
NAMES = ('OP_0 OP_FALSE OP_PUSHDATA1 OP_PUSHDATA2 OP_PUSHDATA4 OP_1NEGATE OP_RESERVED OP_1 OP_TRUE OP_2 OP_3 OP_4 OP_5 OP_6 OP_7 OP_8 '
         'OP_9 OP_10 OP_11 OP_12 OP_13 OP_14 OP_15 OP_16 OP_NOP OP_IF OP_NOTIF OP_ELSE OP_ENDIF OP_VERIFY OP_RETURN OP_TOALTSTACK '
         'OP_FROMALTSTACK OP_2DROP OP_2DUP OP_3DUP OP_2OVER OP_2ROT OP_2SWAP OP_IFDUP OP_DEPTH OP_DROP OP_DUP OP_NIP OP_OVER OP_PICK '
         'OP_ROLL OP_ROT OP_SWAP OP_TUCK OP_CAT OP_SUBSTR OP_LEFT OP_RIGHT OP_SIZE OP_INVERT OP_AND OP_OR OP_XOR OP_EQUAL '
         'OP_EQUALVERIFY OP_RESERVED1 OP_RESERVED2 OP_1ADD OP_1SUB OP_2MUL OP_2DIV OP_NEGATE OP_ABS OP_NOT OP_0NOTEQUAL OP_ADD OP_SUB '
         'OP_MUL OP_DIV OP_MOD OP_LSHIFT OP_RSHIFT OP_BOOLAND OP_BOOLOR OP_NUMEQUAL OP_NUMEQUALVERIFY OP_NUMNOTEQUAL OP_LESSTHAN '
         'OP_GREATERTHAN OP_LESSTHANOREQUAL OP_GREATERTHANOREQUAL OP_MIN OP_MAX OP_WITHIN OP_RIPEMD160 OP_SHA1 OP_SHA256 OP_HASH160 '
         'OP_HASH256 OP_CODESEPARATOR OP_CHECKSIG OP_CHECKSIGVERIFY OP_CHECKMULTISIG OP_CHECKMULTISIGVERIFY OP_NOP1 '
         'OP_CHECKLOCKTIMEVERIFY OP_NOP3 OP_NOP4 OP_NOP5 OP_NOP6 OP_NOP7 OP_NOP8 OP_NOP9 OP_NOP10 OP_PUBKEYHASH OP_PUBKEY '
         'OP_INVALIDOPCODE').split()
BYTE = Int(0, 255)
OBL = {
    'C14': [Obl(M, 'exported', name=Const(n)) for n in NAMES]
    + [Obl(M, 'unknown', name=Text(pool=['op_dup', 'OP_', 'DUP', 'OP_NOP2', 'OP_DUPX']), assume='not_a_name'), Obl(M, 'name', n=Int()),
       Obl(M, 'name_inverts'),
       Obl(M, 'predicates', n=BYTE), Obl(M, 'value', n=BYTE), Obl(M, 'for_number', n=Int()),
       Obl(M, 'compare', a=BYTE, b=BYTE), Obl(M, 'hash', a=BYTE)],
    'C15': [Obl(M, 'const_push', n=Int()), Obl(M, 'var_push', n=Int()), Obl(M, 'push', n=Int()), Obl(M, 'maxlen', n=BYTE), Obl(M, 'nbytes', n=BYTE)],
}
