# exec'd by props.py: prop(id, title, statement, quantifier text, why tests can't, files, mechanisms, level note)
prop('C02', 'Variable-length integers encode and decode canonically',
     'For every integer from 0 to 2**64-1 the variable-length integer encoder returns the Bitcoin compact-size form: one byte below 253, otherwise the marker '
     '0xfd, 0xfe or 0xff followed by 2, 4 or 8 little-endian bytes, always the shortest that fits. Integers outside that range are refused with an error and '
     'never truncated.',
     'all integers', 'The tests use a handful of numbers per size class; off-by-one at a class boundary or wrong byte order of a wider class needs the boundary itself.',
     [B + 'encoding.py'], [('encode_varint', B + 'encoding.py')], 'Covers every integer, unbounded.')
prop('C03', 'Fixed-width and shortest integer encodings are exact, or refused',
     'Encoding an integer big- or little-endian in a given number of bytes returns exactly the base-256 digits of that width, or raises an error when the number is '
     'negative or does not fit; without a width the shortest non-empty form is returned. Decoding bytes returns the integer those digits stand for, so that '
     'decoding inverts encoding in both byte orders.',
     'all integers (shortest form: below 2**264) and byte strings, widths 0 to 33', 'Sampled numbers do not show truncation, a dropped leading zero or a wrong end at other widths.',
     [B + 'encoding.py', B + 'compat.py', B + 'utils/intbytes.py'], [('encode_int / decode_int', B + 'encoding.py'), ('to_bytes / from_bytes', B + 'utils/intbytes.py')],
     'Widths 0-4, 8, 20, 32, 33 for every integer; shortest form for every integer below 2**264.')
prop('C04', 'Script numbers are the minimal little-endian sign-magnitude form',
     'A number is encoded for scripts as little-endian magnitude with the sign in the top bit of the last byte, zero being the empty string, and always in the shortest such '
     'form; decoding returns the number those bytes stand for and inverts encoding. Byte strings longer than the permitted size are refused, and non-minimal ones are '
     'refused exactly when minimality is requested.',
     'all numbers below 2**71 in magnitude, byte strings of 0 to 6 bytes, both minimality settings', 'Sign-byte and minimality rules hinge on single bits at byte boundaries.',
     [B + 'encoding.py'], [('encode_script_number / decode_script_number', B + 'encoding.py')], 'Every content of 0 to 6 bytes and every number up to 71 bits.')
prop('C05', 'Hex, Base58Check and hash helpers are exact, inverse and reject the rest',
     'Hex text of bytes decodes back to the same bytes, and text that is not hex is refused with the library\'s own error. Base58Check text is the Base58 form (a leading 1 per leading zero '
     'byte) of the payload and the first four bytes of its double SHA-256; decoding returns the payload exactly when the text is of that form, and otherwise '
     'raises the library\'s error. The hash helpers return SHA-256, double SHA-256, SHA-1, RIPEMD-160 and RIPEMD-160 of SHA-256 of their argument.',
     'all byte strings and texts', 'Leading zeros, characters outside the alphabet, and checksum comparisons are specific inputs; the tests hold a few vectors.',
     [B + 'encoding.py', B + 'utils/encoding.py'], [('encode_base58h / decode_base58h', B + 'encoding.py'), ('b2a_base58, a2b_base58', B + 'utils/encoding.py'), ('hash160, sha256, ...', B + 'encoding.py')],
     'Hex and hashes for all byte strings; Base58 for payloads of 0 to 5 bytes (8, 21, 33, 34 in the thorough tier) with arbitrary content and texts of 0 to 3 (6) arbitrary ASCII characters.')
prop('C14', 'The opcode table is Bitcoin\'s: names, numbers and classes agree',
     'Every opcode name maps to its Bitcoin number and every number to its name (or to a name telling it is unknown), and unknown names are refused with the library\'s error. Classification of '
     'each opcode byte (constant push, variable push, small number) is as in Bitcoin, the opcode for a small number from 0 to 16 and the number of such an opcode are inverse, and '
     'comparison and hashing follow the number.',
     'all 256 opcode bytes and all names', 'Tests look at a few opcodes; a swapped pair of entries or a wrong class bound elsewhere is not looked at.',
     [B + 'script/opcode.py'], [('Opcode, opcode names', B + 'script/opcode.py')], 'Every opcode byte, every exported name, every integer.')
prop('C15', 'Pushes use an opcode that can carry the data; invalid pairs are refused',
     'The push built for any data uses the direct opcode up to 75 bytes and then the narrowest length prefix that holds the length, refusing what no push can carry. An instruction can only exist with an opcode of '
     'its kind and data that fits it (direct pushes: exactly that many bytes; prefixed: at most what the prefix can express); other combinations raise the library\'s error. Minimal-push classification, '
     'equality and hashing of instructions follow opcode and data.',
     'all opcode bytes and all data', 'Boundaries 75/76, 255/256, 65535/65536 and 2**32 need data of that length.',
     [B + 'script/instruction.py', B + 'script/opcode.py', B + 'script/script.py'], [('Instruction', B + 'script/instruction.py'), ('Opcode.push_for', B + 'script/opcode.py'), ('Script.compile', B + 'script/script.py')],
     'Data of any length and content, every opcode byte.')
prop('C16', 'Script bytes round-trip: parsing inverts serialisation, and truncation raises',
     'A script serialises to the concatenation of its instructions (opcode byte, little-endian length prefix of the width the opcode defines, data), and parsing those bytes returns an equal script. '
     'Parsing any byte string either consumes it all and yields a script that serialises to the same bytes, or raises the library\'s error when a push is cut short.',
     'all scripts of any instructions, all byte strings', 'Each push class has its own prefix; tests parse a few scripts with short data.',
     [B + 'script/script.py', B + 'script/instruction.py', B + 'tools.py'], [('Script.from_bytes / to_bytes', B + 'script/script.py'), ('Instruction.to_bytes / from_buffer', B + 'script/instruction.py'), ('Buffer', B + 'tools.py')],
     'Scripts of 0 to 2 (thorough: 3) arbitrary instructions with data of any length; byte strings of 0 to 3 (5) arbitrary bytes; every truncation of a push.')
prop('C17', 'Script text round-trips, and malformed text raises the library\'s error',
     'The text of a script names each bare opcode, writes a direct push as its length and 0x-prefixed data and a prefixed push as opcode name, length and data; reading that text back gives an equal script. Text with a '
     'missing, malformed or wrong-length part, or an unknown name, raises the library\'s script errors and nothing else.',
     'all scripts of named opcodes and pushes, and malformed texts', 'Tests read a few fixed texts.',
     [B + 'script/script.py', B + 'script/instruction.py'], [('Script.from_string / to_string', B + 'script/script.py')],
     'Scripts of 0 to 2 arbitrary instructions with data of any length; malformed texts by class.')
prop('C13', 'Standard scripts are recognised by exact shape and built as Bitcoin defines',
     'A script gets the type of a standard template (pay-to-pubkey in and out, pay-to-script in and out, data carrier, multisig redeem) exactly when its opcodes and pushes have that template\'s shape, and the generic '
     'type otherwise, without ever changing its instructions. The scripts built for an address, a redeem script, data or public keys have exactly the standard instructions, and the address '
     'hash, keys, signatures, data, redeem script and signature count read back from them are the ones given; an address of the wrong type is refused.',
     'all scripts, addresses, keys, signatures and data', 'Each template is tested once with one fixed script; near-miss shapes are not.',
     [B + 'script/script.py'], [('Script.create / classify', B + 'script/script.py'), ('PayToPubkeyOut, PayToScriptIn, RedeemMultisig, ...', B + 'script/script.py')],
     'Scripts of up to 6 instructions by shape (bare opcodes symbolic over all 256), data of any length, 1 to 3 (thorough: 16) keys over all curve points.')
T = B + 'transaction/'
prop('C06', 'Transaction, input and output bytes follow the Bitcoin wire format exactly',
     'A transaction serialises to version, input count, inputs, output count, outputs and lock time, where integers are little-endian of their fixed width, counts and script lengths are compact-size integers, and each '
     'previous transaction id is in reverse byte order. Field values that do not fit their width raise the library\'s error and are never truncated; the hex form is the hex of the bytes.',
     'all inputs, outputs, lock times, versions, amounts and scripts', 'The tests serialise a few recorded transactions; other counts, field values and script lengths are not seen.',
     [T + 'transaction.py', T + 'input.py', T + 'output.py', B + 'encoding.py'], [('Transaction.to_bytes', T + 'transaction.py'), ('Input.to_bytes', T + 'input.py'), ('Output.to_bytes', T + 'output.py')],
     'Transactions of 0 to 3 inputs and outputs with arbitrary fields and scripts of up to 2 instructions with data of any length; every integer for every field.')
prop('C07', 'Parsing a transaction inverts its serialisation; truncated data is refused',
     'Parsing the bytes of a transaction, input or output gives back the same fields, scripts and order, so that serialising it again gives the same bytes, and reading from a buffer consumes exactly the bytes of one item. '
     'Data that ends early anywhere raises the library\'s error, never another exception and never a partial transaction.',
     'all transactions and all truncations of them', 'Truncation points and field combinations are unbounded; tests use recorded transactions.',
     [T + 'transaction.py', T + 'input.py', T + 'output.py', B + 'tools.py'], [('Transaction.from_bytes / from_hex', T + 'transaction.py'), ('Input.from_buffer', T + 'input.py'), ('Output.from_buffer', T + 'output.py'), ('Buffer.read', B + 'tools.py')],
     'Transactions of up to 2 inputs and outputs with arbitrary fields; every prefix of an arbitrary item.')
prop('C08', 'Signatures of an input commit to the SIGHASH_ALL digest of the transaction',
     'Signing an input signs, with each given key, the double SHA-256 of the transaction in which that input carries the script it spends, every other input an empty script, followed by the four-byte hash type 1; each pushed '
     'signature is followed by the byte 01. A pay-to-pubkey input then holds signature and public key; a script input an empty push, the signatures in the given order, and the serialised redeem script.',
     'all transactions, keys, positions and orders of signing', 'One wrong byte of the digest makes signatures that only fail on the network; tests compare a few recorded cases.',
     [T + 'transaction.py', T + 'input.py', B + 'script/script.py'], [('Transaction.sign', T + 'transaction.py'), ('AddressInput.sign / ScriptInput.sign', T + 'input.py')],
     'Up to 3 inputs and 2 outputs of arbitrary content, all four key networks, 0 to 2 keys, signing in turn.')
prop('C09', 'Signing changes only the signed input and leaves the original untouched',
     'Signing returns a new transaction in which all other inputs, all outputs, lock time and version are those of the original, and the original is unchanged. An input position that does not exist (negative ones '
     'included), a wrong number of keys, or an input that cannot be signed raises the library\'s error.',
     'all transactions, positions and keys', 'Tests sign the first input of small transactions only.',
     [T + 'transaction.py', T + 'input.py'], [('Transaction.sign', T + 'transaction.py'), ('Input.replace_script', T + 'input.py')],
     'Up to 3 inputs and 2 outputs of arbitrary content; every integer position.')
prop('C10', 'The transaction id is the reversed double SHA-256 of the serialisation',
     'The id of a transaction is the double SHA-256 of its serialised bytes, and its hex form is that hash in reverse byte order, for unsigned, signed and parsed transactions alike.',
     'all transactions', 'Tests hold a few ids.', [T + 'transaction.py'], [('Transaction.id_bytes / id', T + 'transaction.py')],
     'Up to 3 inputs and outputs of arbitrary content.')
prop('C11', 'Inputs carry the script they spend and know which keys can sign them',
     'An input made for an address, a redeem script or public keys refers to the given previous output and sequence number and carries the script that output pays to; wrong address types and too many signatures are refused. '
     'An input can be signed exactly by keys that match it: the one whose public key hash is the address of a pay-to-pubkey input, and as many keys of a multisig script as it requires. '
     'Replacing the script of an input keeps every other field.',
     'all addresses, keys and scripts', 'Tests use one fixed key and address.', [T + 'input.py', B + 'script/script.py'],
     [('AddressInput, ScriptInput, MultisigInput', T + 'input.py'), ('Input.can_sign', T + 'input.py'), ('Input.replace_script', T + 'input.py')],
     'Arbitrary fields; 1 or 2 keys over all curve points; every private key.')
prop('C38', 'Buffers return exactly the bytes asked for, in order, or refuse',
     'Reading from a buffer returns exactly the number of bytes asked for and removes them from its front, so that successive reads return consecutive pieces. When fewer remain the library\'s error is raised and the buffer is '
     'unchanged; compact-size integers are read as the number they encode, at every width.',
     'all buffers and read lengths', 'Underrun at each position cannot be sampled.', [B + 'tools.py'], [('Buffer.read, read_varint', B + 'tools.py')],
     'Buffers of any length and content, any read length.')
prop('C12', 'Outputs pay to exactly the address, script, keys or data given',
     'An output made for an address, a redeem script, public keys or data carries the given amount (zero for data) and exactly the standard script for it: the address hash, the hash of the serialised redeem script, or the data. '
     'An output built from any script gets the type its script has and keeps the script; addresses of the wrong type and data over 80 bytes are refused with the library\'s error.',
     'all amounts, addresses, scripts, keys and data', 'Tests make one output of each kind.', [T + 'output.py', B + 'script/script.py'],
     [('AddressOutput, ScriptOutput, MultisigOutput, DataOutput, Output.create', T + 'output.py')],
     'Arbitrary amounts, data of any length, scripts of up to 8 instructions by shape, 1 to 3 keys over all curve points.')
prop('C24', 'Private keys are in range, and generated ones come from the system CSPRNG',
     'A private key can only be made, from a number, bytes or hex, with a secret between 1 and the curve order minus 1, 32 bytes long in its binary form, and a known network; everything else raises the library\'s error. '
     'A key made without a secret gets one drawn uniformly from that whole range by the operating system\'s random source.',
     'all numbers, byte strings, networks and random draws', 'Range ends and the source of randomness cannot be sampled by tests.', [B + 'privkey.py'],
     [('PrivateKey.__new__, random_secret', B + 'privkey.py'), ('from_bytes, from_hex', B + 'privkey.py')], 'Every integer, byte string of any length, both networks and compressions.')
prop('C25', 'Private key serialisations (bytes, hex, WIF) are exact and invertible',
     'The binary form of a private key is its 32-byte big-endian secret, hex the hex of that, and the WIF the Base58Check of network prefix, secret and a final 01 exactly for compressed keys. Reading a form back '
     'gives an equal key (WIF: with its network and compression); malformed text, a wrong length, an unknown prefix, a wrong compression byte or an out-of-range secret raise the library\'s error.',
     'all private keys and WIF payloads', 'A secret with leading zero bytes, or payload of another length, is a rare input.', [B + 'privkey.py', B + 'encoding.py', B + 'networks.py'],
     [('to_wif / from_wif', B + 'privkey.py'), ('to_bytes / to_hex', B + 'privkey.py')], 'Every secret, both networks and compressions; payloads of any length and content.')
prop('C26', 'Signatures are canonical DER over the given digest, made with the key itself',
     'Signing hands exactly the given digest and the key\'s own secret on the secp256k1 curve to the ECDSA library and returns its canonical (low-S) DER encoding. Verifying accepts exactly what that library accepts as a DER signature of the '
     'digest by the key, and returns False, not an error, for a bad one.',
     'all keys, digests and signatures', 'A signature of something else verifies with itself; tests cover one key.', [B + 'privkey.py'], [('PrivateKey.sign / verify', B + 'privkey.py')],
     'Every key, digest and signature; the ecdsa library is trusted.')
prop('C27', 'Public keys are points of the curve, and those of their private key',
     'A public key can only be made from coordinates that are a point of secp256k1 (both in the field and satisfying the curve equation) and a known network; otherwise the library\'s error is raised. The public key of a private key is the '
     'generator times its secret, with the same network and compression, on the curve with the standard parameters.',
     'all coordinates, all private keys', 'Off-curve points are an attack input no sample settles.', [B + 'pubkey.py', B + 'utils/ecdsa.py', B + 'utils/secp256k1.py'],
     [('PublicKey.__new__', B + 'pubkey.py'), ('is_public_pair_valid', B + 'utils/ecdsa.py'), ('generator_secp256k1', B + 'utils/secp256k1.py')],
     'Every pair of integers; every secret; scalar multiplication is uninterpreted.')
prop('C28', 'Public keys serialise to SEC form and parse back; other bytes are refused',
     'A public key serialises to 02 or 03 (by parity of y) and x, or 04, x and y when uncompressed, coordinates as 32 big-endian bytes, and hex of that. Parsing such bytes or hex gives back the same point and compression; '
     'bytes of any other length, prefix, or that are no point of the curve raise the library\'s error.',
     'all curve points and byte strings', 'Parity and leading zero bytes need particular points.', [B + 'pubkey.py', B + 'utils/encoding.py', B + 'utils/ecdsa.py'],
     [('PublicKey.to_bytes / from_bytes', B + 'pubkey.py'), ('public_pair_to_sec / sec_to_public_pair', B + 'utils/encoding.py'), ('public_pair_for_x', B + 'utils/ecdsa.py')],
     'Every curve point; byte strings of any length and content.')
prop('C29', 'Addresses encode hash, network and type, and decode to the same or refuse',
     'An address holds a 20-byte hash, a known network and a type; its bytes are the version byte for that network and type followed by the hash, its text their Base58Check. The address of a public key or script is RIPEMD-160 of SHA-256 '
     'of its serialisation; decoding returns an equal address, and wrong length, checksum or version raises the library\'s error.',
     'all hashes, networks, types, keys, scripts and texts', 'Tests hold a few addresses.', [B + 'address.py', B + 'networks.py', B + 'encoding.py'],
     [('Address.from_string / to_string', B + 'address.py'), ('Address.classify_bytes', B + 'address.py'), ('from_public_key, from_script', B + 'address.py')],
     'Hashes and payloads of any content, every curve point and secret, scripts of up to 2 instructions.')
prop('C30', 'The network table has Bitcoin\'s values, and lookups by field are exact',
     'Each network has Bitcoin\'s version bytes, key prefixes, magic and port, and the default is the live network. Looking a network up by name or any numeric field returns the one with that value, and anything else '
     'raises the library\'s error (or returns None when asked to).',
     'all values of each field', 'Prefix typos only show on the network.', [B + 'networks.py'], [('find', B + 'networks.py'), ('livenet, testnet', B + 'networks.py')],
     'Every integer for every numeric field.')
prop('C31', 'Child keys are derived as BIP 32 defines, privately and publicly alike',
     'The master key of a seed (at least 32 bytes), and normal and hardened children of a private key, are those BIP 32 defines: HMAC-SHA512 of chain code and key data, secret added modulo the order, depth plus one, index, and the parent\'s '
     'fingerprint. Public derivation gives the public key of the privately derived child; hardened or out-of-range indices are refused where BIP 32 defines no child.',
     'all keys, chain codes and indices', 'Serialising keys with leading zeros, and the border of the hardened range, need rare values.', [B + 'hdprivkey.py', B + 'hdpubkey.py', B + 'utils/intbytes.py'],
     [('HDPrivateKey.derive / from_seed', B + 'hdprivkey.py'), ('HDPublicKey.derive', B + 'hdpubkey.py')],
     'Every key, chain code, depth and integer index; curve arithmetic is an uninterpreted group operation.')
prop('C32', 'Extended keys serialise to 78 bytes in Base58Check and parse back',
     'An extended key serialises to version, depth, parent fingerprint, index, chain code and key (private: 00 and the secret) in Base58Check. Parsing gives back an equal key with its network and fingerprint; text of another '
     'length, version, checksum, or with an invalid key is refused with an error.',
     'all extended keys and 78-byte payloads', 'Field offsets and leading zeros of each field.', [B + 'hdprivkey.py', B + 'hdpubkey.py'],
     [('HDPrivateKey.to_string / from_string', B + 'hdprivkey.py'), ('HDPublicKey.to_string / from_string', B + 'hdpubkey.py')],
     'Every key and field value; payloads of any length and content (private: with the zero byte).')
prop('C34', 'Signature encodings are accepted exactly when they are strict DER',
     'The signature check accepts a byte string exactly when it is a strict DER signature with a hash type byte (BIP 66): 9 to 73 bytes, a compound of exactly two positive integers in their shortest form whose lengths add up '
     'to the whole, and one final byte. It never raises for any byte string, and the hash type constants have Bitcoin\'s values.',
     'all byte strings', 'Each rule hinges on one byte at a data-dependent offset.', [B + 'signature.py'], [('validate_signature', B + 'signature.py')],
     'Byte strings of any length and content, split by the length byte of the first integer.')
prop('C35', 'Amounts convert between units to the nearest satoshi, without drift',
     'An amount given in satoshis, bits, mBTC, BTC or as fiat value at a rate is held as a whole number of satoshis, the nearest to the value given, and shown in each unit as that number divided by the unit. Every amount in '
     'circulation converted to a unit and back is unchanged; the value at a rate is the amount in BTC times the rate, and an amount of nothing is refused.',
     'all amounts up to 2**51 satoshis, all floating point values and rates', 'Truncation instead of rounding shows for some values only.', [B + 'unit.py'], [('Unit', B + 'unit.py'), ('Unit.from_fiat, at_rate', B + 'unit.py')],
     'Every whole amount up to 2**51 satoshis either way, every float.')
prop('C37', 'Curve points add, double and multiply by the group law of secp256k1',
     'Adding and doubling points follows the group law of the curve: chord and tangent formulas modulo the field prime, infinity as neutral element, and opposite points adding up to it. A multiple of a point by a scalar is '
     'that many additions, the scalar taken modulo the order; points off the curve cannot be constructed, and equality compares coordinates.',
     'all points of the curve, all coordinates, a set of scalars', 'Special cases (infinity, opposite points, equal points) and carry patterns of the scalar.', [B + 'utils/ellipticcurve.py', B + 'utils/numbertheory.py'],
     [('Point.__add__, double, __mul__', B + 'utils/ellipticcurve.py'), ('CurveFp.contains_point', B + 'utils/ellipticcurve.py'), ('inverse_mod', B + 'utils/numbertheory.py')],
     'Addition and doubling for every pair of points; multiplication of every point by 90 scalars (0 to 33, borders of powers of two and the order, 24 random ones); modular inverses for a set of constants.')
prop('C39', 'The library\'s own ECDSA signs and verifies as defined, with RFC 6979 nonces',
     'Signing a number with a secret uses the nonce RFC 6979 (HMAC-SHA256) defines for that secret and number, never another, and returns r, the x coordinate of that multiple of the generator, and s as ECDSA defines them. Verification '
     'accepts a pair exactly when r and s lie between 1 and the order minus 1 and the ECDSA equation holds, returning False and not an error otherwise.',
     'all secrets, numbers, points and pairs', 'Range ends of r and s, infinity, and nonce reuse need rare values.', [B + 'utils/ecdsa.py', B + 'utils/ellipticcurve.py'],
     [('deterministic_generate_k, sign, verify', B + 'utils/ecdsa.py')], 'Every secret, number below 2**256, point and integer pair; point multiplication and modular inverse uninterpreted; the first nonce candidate.')
S = B + 'script/'
prop('C18', 'Stack opcodes move exactly the items Bitcoin says, or fail on too few',
     'Executing a stack opcode (the DUP, DROP, SWAP, OVER, ROT, PICK, ROLL, TUCK, NIP, DEPTH and SIZE families and the alternate stack) leaves exactly the items Bitcoin Script defines, in order and unchanged, and everything below untouched. '
     'With too few items, or an index out of range or not a valid number, evaluation returns False with a reason and never raises.',
     'all stacks', 'Each opcode at each depth with distinct items; underflow by one.', [S + 'interpreter.py', S + 'opcode.py', B + 'encoding.py'],
     [('Interpreter.step', S + 'interpreter.py'), ('Interpreter.evaluate', S + 'interpreter.py')], 'Items of any content; any number of items below those an opcode needs; PICK and ROLL on stacks of up to 4 items.')
prop('C19', 'Arithmetic, comparison and hash opcodes compute what Bitcoin Script defines',
     'Arithmetic and boolean opcodes read their operands as script numbers of at most 4 bytes (minimal ones when required) and push the result as a minimal script number; WITHIN excludes its upper end, EQUAL compares bytes, and hash opcodes push '
     'the digest of the item. The VERIFY forms consume their result and fail on false; bad operands or too few items make evaluation return False with a reason, never raise.',
     'all operands and stacks, with and without the minimal-number flag', 'Borders of comparisons and signs of operands.', [S + 'interpreter.py', B + 'encoding.py'], [('Interpreter.step', S + 'interpreter.py'), ('decode_script_number', B + 'encoding.py')],
     'Operands of any content and length, any stack depth.')
prop('C20', 'Push, constant, NOP and lock-time opcodes behave as Bitcoin Script defines',
     'A push puts exactly its data on the stack, is refused above 520 bytes, and when minimal pushes are required also when a shorter form exists; number opcodes push their number and NOPs do nothing, or fail when upgradable NOPs are discouraged. '
     'CHECKLOCKTIMEVERIFY, when enabled, passes exactly if the item is a non-negative number of at most 5 bytes, of the same kind (height or time) as the transaction lock time and not above it, and the input is not final.',
     'all data, lock times, sequence numbers and relevant flags', 'The 520 byte and 500000000 borders.', [S + 'interpreter.py', S + 'instruction.py'], [('Interpreter.step', S + 'interpreter.py'), ('check_lock_time', S + 'interpreter.py')],
     'Data of any length and content, any stack, all lock times and sequence numbers.')
prop('C21', 'Disabled and unknown opcodes and exceeded script limits always fail',
     'A script with a disabled opcode (or VERIF, VERNOTIF) fails even where it is not executed, and reserved or undefined opcodes fail when executed. A script above 10000 bytes, with more than 201 counted operations (pushes are free, '
     'multisig keys count), or ever holding over 1000 items on both stacks fails with its reason, and one exactly at the limit does not.',
     'all 256 opcodes, limit values', 'Limits need scripts of exactly that size.', [S + 'interpreter.py'], [('Interpreter.evaluate, step', S + 'interpreter.py')],
     'Every disabled, reserved and undefined opcode on any stack, executed and not; scripts at and around each limit.')
prop('C22', 'Conditionals execute exactly the selected branches; unbalanced ones fail',
     'IF and NOTIF consume an item and select by its truth (false: empty, zeros, negative zero), ELSE switches, ENDIF closes, nested to any depth, and nothing in an unselected branch has an effect. VERIFY and RETURN fail as defined, and a script '
     'whose conditionals are unbalanced fails with a reason; values whose first byte is zero are not claimed.',
     'all items as conditions; all scripts of up to 4 of the control opcodes and chosen deeper nestings', 'Nesting and unselected branches combine.', [S + 'interpreter.py'], [('Interpreter.step', S + 'interpreter.py'), ('cast_to_bool', S + 'interpreter.py')],
     'Every script of up to 4 control opcodes with both conditions arbitrary; 22 deeper ones.')
prop('C23', 'Spending is accepted exactly when both scripts (and the redeem script) succeed',
     'Verification runs the input script on an empty stack, then the output script on what it left (conditionals and the alternate stack do not carry over), and accepts exactly when both succeed and the top item is true. With P2SH enabled and such an '
     'output script, the input must be pushes only and the script in its last item must also succeed on the rest; push-only can be required always. A refusal returns False with a reason, and earlier use of the interpreter has no influence.',
     'pairs of scripts, flags, item contents and hashes', 'Acceptance hinges on combinations of scripts, flags and leftovers.', [S + 'interpreter.py', S + 'script.py'], [('Interpreter.verify', S + 'interpreter.py'), ('Interpreter.evaluate', S + 'interpreter.py')],
     '18 by 20 script pairs with three flag sets, fresh and used interpreter; 21 redeem scripts with 9 combinations; arbitrary item contents and hashes for 10 output scripts; signature opcodes only up to their signature check.')
prop('C36', 'Payment URIs are read and written without losing or altering a field',
     'Reading \'bitcoin:\' followed by an address and URL-encoded parameters gives that address, the amount in bitcoin to the nearest satoshi, the message, label and r fields and every other parameter unchanged; '
     'writing gives the address and the URL-encoded fields in sorted order with the amount as a plain decimal, so that reading a written URI gives the same fields. A missing or malformed address or amount is '
     'refused with a value error or library error, and asking whether a URI is valid answers without raising.',
     'all addresses and parameter texts, amounts by class', 'Tests read a few fixed URIs with one or two amounts; reserved characters in values, amounts that round badly as floats and field combinations are not sampled.',
     [B + 'uri.py', B + 'unit.py', B + 'address.py'], [('URI', B + 'uri.py'), ('Unit', B + 'unit.py')],
     'Any address of either type and network, eight parameter-name sets with arbitrary texts as values, 16 amounts read and 16 written; the URL functions of the standard library by their contract.')
prop('C01', 'Every refusal is an error that can be raised, caught by kind and read',
     'Each error the library defines can be constructed with the value it complains about, whatever that value is, never failing itself. Its message is non-empty and shows the offending value, str() and args give that '
     'message, the cause given is kept, and it is an instance of the library\'s base error and of the documented error of its module or class.',
     'all error classes of the library and all offending texts, byte strings, numbers and objects', 'Raising an error whose message template names a missing field fails with KeyError only on that refusal path, which most tests never take.',
     [B + 'errors.py', B + 'address.py', B + 'encoding.py', B + 'privkey.py', B + 'pubkey.py', S + 'opcode.py', S + 'instruction.py', S + 'script.py', T + 'input.py', T + 'output.py', T + 'transaction.py', B + 'tools.py', B + 'networks.py'],
     [('BitforgeError and its kinds', B + 'errors.py')], 'Every exported error class that is raised with arguments; texts and byte strings of any length and content, any integer.')
prop('C33', 'Keys, addresses, scripts and transactions are immutable values',
     'Assigning any field of a key, extended key, address, network, instruction, script, input, output or transaction is refused with AttributeError and leaves the object as it was, and lists given to a constructor '
     'are copied, so changing them later changes no object. Two such objects are equal exactly when all their fields are, and equal ones have equal hashes.',
     'all objects of these types', 'Tests compare a few fixed objects and never assign a field or change a list after use; a mutable field corrupts objects shared with others much later.',
     [B + 'privkey.py', B + 'pubkey.py', B + 'address.py', B + 'hdprivkey.py', B + 'hdpubkey.py', B + 'networks.py', S + 'script.py', S + 'instruction.py', T + 'input.py', T + 'output.py', T + 'transaction.py'],
     [('namedtuple-based value classes', B), ('Transaction.__new__', T + 'transaction.py'), ('Script.__new__', S + 'script.py')],
     'Every field of every listed class, with arbitrary secrets, hashes, data and numbers; scripts of up to 5 instructions, transactions of up to 2 inputs and outputs.')
prop('C40', 'Results depend only on the arguments, never on what was computed before',
     'Encoding, decoding, key, address, script, transaction, signing, derivation, URI and verification operations return (or refuse) the same whether they are called first or after any other call of the same or a related operation, '
     'on the same or on another object. No operation alters the objects, class tables or module state that later operations use.',
     'all pairs of calls on arbitrary objects', 'A cache keyed by part of what matters, a mutated default argument or class table shows only in particular sequences of calls, which isolated unit tests never make.',
     [B + 'encoding.py', B + 'privkey.py', B + 'pubkey.py', B + 'address.py', B + 'hdprivkey.py', B + 'hdpubkey.py', B + 'networks.py', B + 'uri.py', S + 'script.py', S + 'instruction.py', S + 'opcode.py', T + 'transaction.py'],
     [('every public operation', B)],
     'All ordered pairs of calls within 32 operations over arbitrary objects of the listed shapes, repeated calls on one object, 30 mixed pairs, and signing or parsing two transactions in turn.')
prop('C41', 'The WIF and address helpers convert exactly and refuse malformed text',
     'The helpers of bitforge.utils.encoding turn a secret and compression flag into WIF text, and a public pair into SEC bytes, its hash160 and its address, for any network prefix, and read WIF and address text back to exactly what was encoded. '
     'Text whose checksum, payload length, compression flag or prefix is wrong is refused with EncodingError, and the is_valid helpers answer True exactly for text the readers accept.',
     'all secrets, pairs, payloads and prefixes', 'No test calls these helpers; malformed payloads with a correct checksum have unboundedly many forms.',
     [B + 'utils/encoding.py'], [('secret_exponent_to_wif, wif_to_secret_exponent, is_valid_wif', B + 'utils/encoding.py'), ('public_pair_to_bitcoin_address, bitcoin_address_to_hash160_sec, is_valid_bitcoin_address', B + 'utils/encoding.py')],
     'Any 256-bit secret and coordinates; payloads of every length and content, Base58Check taken as the contract proved under C05.')
prop('C42', 'Editing and inspecting a script changes and reports exactly what it says',
     'Appending data to a script gives a script with the same instructions followed by the one push for that data; removing data gives the script without the pushes identical to the push for that data and with every other instruction '
     'in its order. The original script is unchanged. A script counts as push-only exactly when no opcode is above OP_16, and its structure lists each bare opcode and each push in order.',
     'all scripts and data', 'No test appends to or removes from a script; which instructions match depends on opcode and data together.',
     [B + 'script/script.py', B + 'script/instruction.py'], [('Script.push_data, remove_opcode_by_data, is_push_only, get_structure', B + 'script/script.py')],
     'Scripts of up to 3 arbitrary instructions, data of any length and content.')
