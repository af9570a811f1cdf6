from absint.oblig import *

M = 'spec_errors'
HEX, B58 = 'encoding.InvalidHex', 'encoding.InvalidBase58h'
STRING = {
    'address.Address.InvalidBase58h': ['address.Address.Error', B58], 'address.Address.InvalidBinaryLength': ['address.Address.Error'], 'address.Address.InvalidHashLength': ['address.Address.Error'],
    'address.Address.InvalidHex': ['address.Address.Error', HEX], 'encoding.EncodingError': [], HEX: ['encoding.EncodingError'], B58: ['encoding.EncodingError'],
    'encoding.InvalidMinimalScriptNumber': ['encoding.EncodingError'], 'encoding.InvalidScriptNumber': ['encoding.EncodingError'],
    'privkey.PrivateKey.InvalidBase58h': ['privkey.PrivateKey.Error', B58], 'privkey.PrivateKey.InvalidBinaryLength': ['privkey.PrivateKey.Error'], 'privkey.PrivateKey.InvalidCompressionByte': ['privkey.PrivateKey.Error'],
    'privkey.PrivateKey.InvalidHex': ['privkey.PrivateKey.Error', HEX], 'privkey.PrivateKey.InvalidWifLength': ['privkey.PrivateKey.Error'], 'pubkey.PublicKey.InvalidBinary': ['pubkey.PublicKey.Error'],
    'pubkey.PublicKey.InvalidHex': ['pubkey.PublicKey.Error', HEX], 'opcode.Opcode.UnknownOpcodeName': ['opcode.Opcode.Error'], 'script.Script.InvalidPushData': ['script.Script.Error'],
    'script.Script.InvalidPushSize': ['script.Script.Error'], 'script.Script.MissingPushArguments': ['script.Script.Error'], 'script.Script.UnknownOpcodeName': ['script.Script.Error'],
}
NUMBER = {
    'address.Address.InvalidVersion': ['address.Address.Error'], 'encoding.InvalidInteger': [], 'privkey.PrivateKey.InvalidSecret': ['privkey.PrivateKey.Error'], 'opcode.Opcode.InvalidConstPushLength': ['opcode.Opcode.Error'],
    'opcode.Opcode.InvalidPushLength': ['opcode.Opcode.Error'], 'opcode.Opcode.UnknownOpcodeNumber': ['opcode.Opcode.Error'], 'script.Script.InvalidPushDataLength': ['script.Script.Error'],
    'output.DataOutput.TooMuchData': ['output.Output.Error'], 'transaction.Transaction.InvalidInputIndex': ['transaction.Transaction.Error'], 'transaction.Transaction.InvalidLockTime': ['transaction.Transaction.Error'],
}
OBJECT = {
    'address.Address.InvalidType': ['address.Address.Error'], 'pubkey.PublicKey.InvalidPair': ['pubkey.PublicKey.Error'], 'instruction.Instruction.TypeError': ['instruction.Instruction.Error'],
    'instruction.Instruction.UnexpectedData': ['instruction.Instruction.Error'], 'opcode.Opcode.TypeError': ['opcode.Opcode.Error'], 'script.PayToPubkeyOut.WrongAddressType': ['script.Script.Error'],
    'transaction.Transaction.NotAnInput': ['transaction.Transaction.Error'], 'transaction.Transaction.NotAnOutput': ['transaction.Transaction.Error'],
}
PAIR = {
    'address.Address.UnknownNetwork': ['address.Address.Error', 'networks.UnknownNetwork'], 'networks.UnknownNetwork': [], 'privkey.PrivateKey.UnknownNetwork': ['privkey.PrivateKey.Error', 'networks.UnknownNetwork'],
    'pubkey.PublicKey.UnknownNetwork': ['pubkey.PublicKey.Error', 'networks.UnknownNetwork'],
}
COUNTS = {'tools.Buffer.InsufficientData': ['tools.Buffer.Error'], 'input.Input.InvalidSignatureCount': ['input.Input.Error']}
PLAIN = {'input.Input.UnknownSignatureMethod': ['input.Input.Error'], 'transaction.Transaction.NoInputs': ['transaction.Transaction.Error'], 'transaction.Transaction.NoOutputs': ['transaction.Transaction.Error']}


def E(name, table, **doms):
    return [Obl(M, name, path=Const(p), kinds=Const(k), **doms) for p, k in table.items()]


OBL = {'C01': [o for d in (Bytes(), Text(), Bytes(0, 0)) for o in E('string', STRING, x=d)] + [o for d in (Int(), Const(None)) for o in E('value', NUMBER, x=d)] + [o for d in (Const(None), Const('text'), Int(), Const((1, 2))) for o in E('value', OBJECT, x=d)]
       + E('opcode', {'opcode.Opcode.WrongOpcodeType': ['opcode.Opcode.Error']}, n=Int(0, 255)) + [o for d in (Int(), Const('name'), Const(None)) for o in E('pair', PAIR, k=Const('name'), x=d)] + E('pair', COUNTS, k=Int(0), x=Int(0))
       + E('three', {'instruction.Instruction.InvalidDataLength': ['instruction.Instruction.Error']}, n=Int(0, 255), k=Int(0), x=Int(0)) + E('plain', PLAIN)
       + [Obl(M, 'cause', path=Const(p), x=d, why=Const('why')) for p, d in [(p, Bytes()) for p in STRING] + [(p, Int()) for p in NUMBER]]}
