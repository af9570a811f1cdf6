From 939087a0fa01cbbbd79b10d37065ead66864e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:30 +0000
Subject: [PATCH 01/50] fix: str() of any BitforgeError raised AttributeError
 ('message' was never set)

---
 bitforge/errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/errors.py b/bitforge/errors.py
index 8bcd3f8..a8acc4c 100644
--- a/bitforge/errors.py
+++ b/bitforge/errors.py
@@ -4,8 +4,8 @@ class BitforgeError(Exception):
     def __init__(self, *args, **kwargs):
         self.cause = kwargs.pop('cause', None)
         self.prepare(*args, **kwargs)
-        message = self.__doc__.format(**self.__dict__)
-        super(BitforgeError, self).__init__(message)
+        self.message = self.__doc__.format(**self.__dict__)
+        super(BitforgeError, self).__init__(self.message)
 
     def prepare(self):
         pass
-- 
2.43.0


From c8921e9cf3f22ba01600203ea0ac48d5eafe623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:34 +0000
Subject: [PATCH 02/50] fix: encode_int(0), encode_varint(>=253) and Input.sign
 built str instead of bytes (builtin chr)

---
 bitforge/encoding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 6c2f3fe..429b866 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -3,6 +3,7 @@ import binascii
 import hashlib
 
 from . import utils
+from .compat import chr
 from .errors import StringError
 
 
-- 
2.43.0


From 5fc0518529c1d40ce1c7d405c20a389076d093b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:39 +0000
Subject: [PATCH 03/50] fix: encode_int silently truncated numbers that do not
 fit, and encoded negatives as 0

---
 bitforge/encoding.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 429b866..e71cdd8 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -4,7 +4,7 @@ import hashlib
 
 from . import utils
 from .compat import chr
-from .errors import StringError
+from .errors import StringError, NumberError
 
 
 class EncodingError(StringError):
@@ -27,6 +27,10 @@ class InvalidMinimalScriptNumber(EncodingError):
     "The script number {string} is not minimally encoded"
 
 
+class InvalidInteger(NumberError):
+    "The number {number} is negative, or too large for the requested size"
+
+
 def encode_base58h(bytes):
     return utils.encoding.b2a_hashed_base58(bytes)
 
@@ -40,6 +44,9 @@ def decode_base58h(string):
 
 
 def encode_int(integer, big_endian = True, length = None):
+    if integer < 0 or (length is not None and integer >> (8 * length) != 0):
+        raise InvalidInteger(integer)
+
     if integer == 0:
         return chr(0) if length is None else chr(0) * length
 
@@ -50,7 +57,7 @@ def encode_int(integer, big_endian = True, length = None):
         integer >>= 8
 
     if length is not None:
-        zeros = bytearray(length) # TODO if number can't fit in length, raise
+        zeros = bytearray(length)
         data = (data + zeros)[:length]
 
     if big_endian:
@@ -73,7 +80,6 @@ def decode_int(bytes, big_endian = True):
 
 
 def encode_varint(integer):
-    # TODO check integer is a postive number
     if integer < 253:
         return encode_int(integer)
 
-- 
2.43.0


From fd6980696dab45ac356223501f244e3123f9d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:44 +0000
Subject: [PATCH 04/50] fix: encoding.hash160 raised AttributeError (called
 digest() on bytes)

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index e71cdd8..859b34c 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -136,7 +136,7 @@ def ripemd160(bytes):
 
 
 def hash160(bytes):
-    return ripemd160(sha256(bytes)).digest()
+    return ripemd160(sha256(bytes))
 
 
 def decode_script_number(bytes, f_require_minimal = False, size = 4):
-- 
2.43.0


From 2cd9a8c26e7732598d45d51cd8b4f1fbc876e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:49 +0000
Subject: [PATCH 05/50] fix: decode_script_number rejected numbers of exactly
 the maximum size

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 859b34c..26bc141 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -147,7 +147,7 @@ def decode_script_number(bytes, f_require_minimal = False, size = 4):
     to input a number bigger than 4 bytes. A third argument, `size`, is provided
     to extend the hard limit of 4 bytes, as some usages require more than 4 bytes.
     """
-    if len(bytes) >= size:
+    if len(bytes) > size:
         raise InvalidScriptNumber(bytes)
 
     if f_require_minimal and len(bytes) > 0:
-- 
2.43.0


From 3069d0771abca60d3c860b3c55e93a8d9b0be1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:54 +0000
Subject: [PATCH 06/50] fix: decode_hex leaked ValueError for non-ASCII strings

---
 bitforge/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 26bc141..90bf603 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -118,8 +118,8 @@ def encode_hex(bytes):
 def decode_hex(string):
     try:
         return binascii.unhexlify(string)
-    except (TypeError, binascii.Error):
-        # unhexlify() throws 2 different exceptions (length, and alphabet)
+    except (TypeError, ValueError):
+        # unhexlify() throws different exceptions (length, alphabet, non-ASCII)
         raise InvalidHex(string)
 
 
-- 
2.43.0


From 276b600dc92dade70a8c4508da47baebadde1d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:00 +0000
Subject: [PATCH 07/50] fix: decode_base58h leaked UnicodeEncodeError for
 unencodable strings

---
 bitforge/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/encoding.py b/bitforge/encoding.py
index 90bf603..0a833a5 100644
--- a/bitforge/encoding.py
+++ b/bitforge/encoding.py
@@ -39,7 +39,7 @@ def decode_base58h(string):
     try:
         return utils.encoding.a2b_hashed_base58(string)
 
-    except utils.encoding.EncodingError:
+    except (utils.encoding.EncodingError, UnicodeError):
         raise InvalidBase58h(string)
 
 
-- 
2.43.0


From c324e3d0969668bbd918ceb1975eada56cf65e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:04 +0000
Subject: [PATCH 08/50] fix: Instruction.to_bytes failed for PUSHDATA opcodes,
 and padded their length on the wrong side

---
 bitforge/script/instruction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 1bf3faf..74aebb9 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -95,8 +95,9 @@ class Instruction(BaseInstruction):
 
             length_bytes = encode_int(
                 len(self.data),
-                big_endian = False
-            ).rjust(length_nbytes, '\0')
+                big_endian = False,
+                length = length_nbytes
+            )
 
             return opcode_byte + length_bytes + self.data
 
-- 
2.43.0


From 49367db34347ba6ecae77ca51f714fce68571dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:09 +0000
Subject: [PATCH 09/50] fix: Instruction.is_minimal_push raised for every push,
 and accepted empty PUSHDATA pushes

---
 bitforge/script/instruction.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index 74aebb9..ac6436d 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -60,21 +60,23 @@ class Instruction(BaseInstruction):
         Comes from bitcoind's script interpreter CheckMinimalPush function.
         Returns if the instruction is the smallest way to push that particular data.
         """
-        if not self.data:
+        if self.data is None:
             return True
 
+        data = bytearray(self.data)
+
         if len(self.data) == 0:
             # Could have used OP_0.
             return self.opcode == OP_0
-        elif len(self.data) == 1 and 1 <= decode_int(self.data[0]) <= 16:
+        elif len(self.data) == 1 and 1 <= data[0] <= 16:
             # Could have used OP_1 .. OP_16
-            return self.opcode.number == OP_1.number + decode_int(self.data[0]) - 1
-        elif len(self.data) == 1 and decode_int(self.data[0]) == 0x81:
+            return self.opcode.number == OP_1.number + data[0] - 1
+        elif len(self.data) == 1 and data[0] == 0x81:
             # Could have used OP_1NEGATE
             return self.opcode == OP_1NEGATE
         elif len(self.data) <= 75:
             # Could have used a direct push (opcode indicating number of bytes pushed + those bytes).
-            return self.opcode.number == len(self.data.length)
+            return self.opcode.number == len(self.data)
         elif len(self.data) <= 255:
             # Could have used OP_PUSHDATA.
             return self.opcode == OP_PUSHDATA1
-- 
2.43.0


From 05e81eab19ab56bcf3ec99dbaf37019dd50ca9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:14 +0000
Subject: [PATCH 10/50] fix: comparing an Instruction to another kind of object
 raised AttributeError

---
 bitforge/script/instruction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/script/instruction.py b/bitforge/script/instruction.py
index ac6436d..9617864 100644
--- a/bitforge/script/instruction.py
+++ b/bitforge/script/instruction.py
@@ -123,6 +123,9 @@ class Instruction(BaseInstruction):
             return self.opcode.name
 
     def __eq__(self, other):
+        if not isinstance(other, Instruction):
+            return False
+
         return self.opcode == other.opcode and self.data == other.data
 
     def __hash__(self):
-- 
2.43.0


From 51839c86ce1906ec1d37d6373c04d13bcfa79497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:20 +0000
Subject: [PATCH 11/50] fix: Buffer.read handed out mutable, unhashable
 bytearrays that ended up inside Scripts

---
 bitforge/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/tools.py b/bitforge/tools.py
index 1f91d7e..c99038e 100644
--- a/bitforge/tools.py
+++ b/bitforge/tools.py
@@ -20,7 +20,7 @@ class Buffer(bytearray):
         if len(self) < amount:
             raise Buffer.InsufficientData(len(self), amount)
 
-        ret = self[:amount]
+        ret = bytes(self[:amount])
         del self[:amount]
         return ret
 
-- 
2.43.0


From a5e380503ade643fa9f155fba57d35baf9b519dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:25 +0000
Subject: [PATCH 12/50] fix: classifying a Script of 4 or more instructions
 crashed if it began with a push

---
 bitforge/script/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 6c1a74a..9778a36 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -278,8 +278,8 @@ class RedeemMultisig(Script):
 
         return (
             len(structure) >= 4 and
-            structure[0].is_number() and
-            structure[-2].is_number() and
+            script.instructions[0].opcode.is_number() and
+            script.instructions[-2].opcode.is_number() and
             structure[-1] == OP_CHECKMULTISIG and
             all(op == 'PUSH' for op in structure[1:-2])
         )
-- 
2.43.0


From 848f662eca2745070a8f183ca439cd36e3335efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:30 +0000
Subject: [PATCH 13/50] fix: to_bytes() of Input, Output and Transaction
 returned the repr of a Buffer

---
 bitforge/transaction/input.py       | 2 +-
 bitforge/transaction/output.py      | 2 +-
 bitforge/transaction/transaction.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 4857dba..d0f91e9 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -72,7 +72,7 @@ class Input(BaseInput):
         # Sequence number, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.seq_number, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 5b13aad..311f037 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -50,7 +50,7 @@ class Output(BaseOutput):
         # Script body (? bytes):
         buffer.write(script)
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 75b6765..82d2559 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -72,7 +72,7 @@ class Transaction(BaseTransaction):
         # Transaction lock time, as little-endian uint32 (4 bytes):
         buffer.write(encode_int(self.lock_time, length = 4, big_endian = False))
 
-        return str(buffer)
+        return bytes(buffer)
 
     def to_hex(self):
         return encode_hex(self.to_bytes()).decode('utf-8')
-- 
2.43.0


From dd1d4a5f3243bee4d7cd2f94a193c8f26d45db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:35 +0000
Subject: [PATCH 14/50] fix: Input.create raised NameError for scripts that are
 not a known input type

---
 bitforge/transaction/input.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index d0f91e9..1d69ce1 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -47,11 +47,8 @@ class Input(BaseInput):
         elif isinstance(script, PayToScriptIn):
             return ScriptInput(*args)
 
-        elif isinstance(script, OpReturnOut):
-            return DataOutput(*args)
-
         else:
-            return Output(amount, script)
+            return Input(*args)
 
     def to_bytes(self):
         buffer = Buffer()
-- 
2.43.0


From dc4a7aa7b78dac2d34ca89df3a7d7d54a08ea065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:40 +0000
Subject: [PATCH 15/50] fix: Input.from_buffer produced a bytes tx_id, unequal
 to the str it was created with

---
 bitforge/transaction/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 1d69ce1..544c42c 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -104,7 +104,7 @@ class Input(BaseInput):
     @classmethod
     def from_buffer(cls, buffer):
         # Inverse operation of Input.to_bytes(), check that out.
-        tx_id     = encode_hex(buffer.read(32)[::-1]) # reversed
+        tx_id     = encode_hex(buffer.read(32)[::-1]).decode('utf-8') # reversed
         txo_index = decode_int(buffer.read(4), big_endian = False)
 
         script_len = buffer.read_varint()
-- 
2.43.0


From b10817085bf9d1d3d0afbcfd51465179c678472a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:45 +0000
Subject: [PATCH 16/50] fix: Transaction.get_id returned the ID as bytes and in
 reverse order

---
 bitforge/transaction/transaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 82d2559..15fd45e 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -81,7 +81,7 @@ class Transaction(BaseTransaction):
         return sha256(sha256(self.to_bytes()))
 
     def get_id(self):
-        return encode_hex(self.get_id_bytes())
+        return encode_hex(self.get_id_bytes()[::-1]).decode('utf-8')
 
     def replace_inputs(self, inputs):
         return Transaction(inputs, self.outputs, self.lock_time, self.version)
-- 
2.43.0


From 5b6e0a5da4b2fa7a38a324e7360fa9467596683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:51 +0000
Subject: [PATCH 17/50] fix: MultisigOutput used the bare redeem script instead
 of Pay-to-Script-Hash

---
 bitforge/transaction/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/transaction/output.py b/bitforge/transaction/output.py
index 311f037..ea5b2d2 100644
--- a/bitforge/transaction/output.py
+++ b/bitforge/transaction/output.py
@@ -95,7 +95,7 @@ class MultisigOutput(ScriptOutput):
     @classmethod
     def create(cls, amount, pubkeys, min_signatures):
         redeem_script = RedeemMultisig.create(pubkeys, min_signatures)
-        return cls(amount, redeem_script)
+        return super(MultisigOutput, cls).create(amount, redeem_script)
 
 
 class DataOutput(Output):
-- 
2.43.0


From 9a7c382e9ac9a367d201359c1d156627d389cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:57 +0000
Subject: [PATCH 18/50] fix: MultisigInput.can_sign rejected keys of other
 networks, and accepted repeated keys

---
 bitforge/transaction/input.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bitforge/transaction/input.py b/bitforge/transaction/input.py
index 544c42c..60bf419 100644
--- a/bitforge/transaction/input.py
+++ b/bitforge/transaction/input.py
@@ -181,10 +181,8 @@ class MultisigInput(ScriptInput):
         if len(privkeys) != self.script.get_min_signatures():
             return False
 
-        expected_pubkeys = self.script.get_public_keys()
+        # Compare serialized keys: the script doesn't know about networks
+        expected = set(pubkey.to_bytes() for pubkey in self.script.get_public_keys())
+        provided = set(privkey.to_public_key().to_bytes() for privkey in privkeys)
 
-        for privkey in privkeys:
-            if privkey.to_public_key() not in expected_pubkeys:
-                return False
-
-        return True
+        return len(provided) == len(privkeys) and provided <= expected
-- 
2.43.0


From e120291b068e036c9bf4b1effa6380116516565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:53 +0000
Subject: [PATCH 19/50] fix: keys and addresses could not be hashed (their
 Network held a list)

---
 bitforge/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/networks.py b/bitforge/networks.py
index 80c5fa4..ee1fa01 100644
--- a/bitforge/networks.py
+++ b/bitforge/networks.py
@@ -35,12 +35,12 @@ testnet = Network(
     magic      = 0x0b110907,
 
     port  = 18333,
-    seeds = [
+    seeds = (
         'testnet-seed.bitcoin.petertodd.org',
         'testnet-seed.bluematt.me',
         'testnet-seed.alexykot.me',
         'testnet-seed.bitcoin.schildbach.de'
-    ]
+    )
 )
 
 default = livenet = Network(
@@ -54,14 +54,14 @@ default = livenet = Network(
   magic      = 0xf9beb4d9,
 
   port  = 8333,
-  seeds = [
+  seeds = (
     'seed.bitcoin.sipa.be',
     'dnsseed.bluematt.me',
     'dnsseed.bitcoin.dashjr.org',
     'seed.bitcoinstats.com',
     'seed.bitnodes.io',
     'bitseed.xf2.org'
-  ]
+  )
 )
 
 _networks = [livenet, testnet]
-- 
2.43.0


From 9fec6c07aff5e39f74bdbe3198f548677146a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:59 +0000
Subject: [PATCH 20/50] fix: a PublicKey created with a list pair kept it,
 mutable and unhashable

---
 bitforge/pubkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/pubkey.py b/bitforge/pubkey.py
index 3b8f818..1c5c265 100644
--- a/bitforge/pubkey.py
+++ b/bitforge/pubkey.py
@@ -43,7 +43,7 @@ class PublicKey(BasePublicKey):
         if not utils.ecdsa.is_public_pair_valid(generator_secp256k1, pair):
             raise PublicKey.InvalidPair(pair)
 
-        return super(PublicKey, cls).__new__(cls, pair, network, compressed)
+        return super(PublicKey, cls).__new__(cls, tuple(pair), network, compressed)
 
     @staticmethod
     def from_private_key(privkey):
-- 
2.43.0


From 2284b4a48b630c474d78600ec23b01dc58c1a8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:05 +0000
Subject: [PATCH 21/50] fix: public pairs with coordinates outside [0, p) were
 considered valid

---
 bitforge/utils/ecdsa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 920f4ee..fec7b0b 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -122,7 +122,9 @@ def public_pair_for_x(generator, x, is_even):
     return (x, beta)
 
 def is_public_pair_valid(generator, public_pair):
-    return generator.curve().contains_point(public_pair[0], public_pair[1])
+    x, y = public_pair
+    curve = generator.curve()
+    return 0 <= x < curve.p() and 0 <= y < curve.p() and curve.contains_point(x, y)
 
 def verify(generator, public_pair, val, signature):
     """
-- 
2.43.0


From 8b16634c150eac58226a69395cbea4a65c18d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:12 +0000
Subject: [PATCH 22/50] fix: public keys with missing or trailing bytes were
 accepted

---
 bitforge/utils/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index f8508d1..4e081cd 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -231,6 +231,8 @@ def public_pair_to_sec(public_pair, compressed=True):
 
 def sec_to_public_pair(sec):
     """Convert a public key in sec binary format to a public pair."""
+    if len(sec) != (33 if is_sec_compressed(sec) else 65):
+        raise EncodingError("bad sec length for public key")
     x = from_bytes_32(sec[1:33])
     sec0 = sec[:1]
     if sec0 == b'\4':
-- 
2.43.0


From 82ad812fa3f774e6ef6d40f1f7eeb3f3e0a4a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:18 +0000
Subject: [PATCH 23/50] fix: PrivateKey.verify rejected what sign() produced
 (it hashed the digest again), and raised instead of returning False

---
 bitforge/privkey.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitforge/privkey.py b/bitforge/privkey.py
index 4bcaa3d..7ac2cee 100644
--- a/bitforge/privkey.py
+++ b/bitforge/privkey.py
@@ -135,7 +135,10 @@ class PrivateKey(BasePrivateKey):
         signing_key   = ecdsa.SigningKey.from_secret_exponent(self.secret, curve = ecdsa.SECP256k1)
         verifying_key = signing_key.get_verifying_key()
 
-        return verifying_key.verify(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        try:
+            return verifying_key.verify_digest(signature, message, sigdecode = ecdsa.util.sigdecode_der)
+        except (ecdsa.BadSignatureError, ecdsa.der.UnexpectedDER):
+            return False
 
     def __repr__(self):
         return "<PrivateKey: %s, network: %s>" % (self.to_hex(), self.network.name)
-- 
2.43.0


From c1cfa71cbcabeaeea3a5b107ec96e8aab3c2cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:23 +0000
Subject: [PATCH 24/50] fix: HD key derivation ignored the child index, and HD
 derivation and serialization raised

---
 bitforge/hdprivkey.py | 10 +++++-----
 bitforge/hdpubkey.py  |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index fdacda3..91cf844 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -64,13 +64,13 @@ class HDPrivateKey(BaseHDPrivateKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_private_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
             + to_bytes(self.index, length = 4)
             + self.chain
-            + '\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
+            + b'\0' # this zero is prepended to private keys. HDPublicKey doesn't do it
             + self.to_private_key().to_bytes()
         )
 
@@ -84,17 +84,17 @@ class HDPrivateKey(BaseHDPrivateKey):
             index += HARDENED_START
 
         if hardened:
-            key = '\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
+            key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
             key = self.to_public_key().to_bytes()
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().seed) % utils.generator_secp256k1.order()
+        seed    = (int_from_bytes(signed64[:32]) + self.to_private_key().secret) % utils.generator_secp256k1.order()
         privkey = PrivateKey(seed, self.network)
         chain   = signed64[32:]
         depth   = self.depth + 1
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index ac4e0e9..f729322 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -50,7 +50,7 @@ class HDPublicKey(BaseHDPublicKey):
 
     def to_string(self):
         # See BIP 32: https://github.com/bitcoin/bips/blob/master/bip-0032.mediawiki
-        bytes = (""
+        bytes = (b""
             + to_bytes(self.network.hd_public_key, length = 4)
             + to_bytes(self.depth, length = 1)
             + to_bytes(self.parent, length = 4)
@@ -75,7 +75,7 @@ class HDPublicKey(BaseHDPublicKey):
 
         signed64 = hmac.new(
             self.chain,
-            key + to_bytes(self.index, length = 4),
+            key + to_bytes(index, length = 4),
             hashlib.sha512
         ).digest()
 
-- 
2.43.0


From 2f01db1cb0b2c64a93f3b3894948758fd53b47a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:30 +0000
Subject: [PATCH 25/50] fix: HD derivation at hardened indices without the flag
 used the non-hardened method

---
 bitforge/hdprivkey.py | 2 ++
 bitforge/hdpubkey.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 91cf844..3065b55 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -83,6 +83,8 @@ class HDPrivateKey(BaseHDPrivateKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
+        hardened = index >= HARDENED_START
+
         if hardened:
             key = b'\0' + self.to_private_key().to_bytes() # a literal 0 is prepended to private keys
         else:
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index f729322..69651d2 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -68,6 +68,8 @@ class HDPublicKey(BaseHDPublicKey):
         if index < HARDENED_START and hardened:
             index += HARDENED_START
 
+        hardened = index >= HARDENED_START
+
         if hardened:
             raise ValueError("Hardened derivation is not posible on HDPublicKey")
         else:
-- 
2.43.0


From 11fa8f268731f76fc0bba7fc7d5df9e4e240828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:35 +0000
Subject: [PATCH 26/50] fix: HD keys with missing or trailing bytes were
 accepted

---
 bitforge/hdprivkey.py | 5 ++++-
 bitforge/hdpubkey.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 3065b55..012e90f 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -47,7 +47,10 @@ class HDPrivateKey(BaseHDPrivateKey):
     # TODO: massage this
     @staticmethod
     def from_string(b58_str):
-        data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
+        data = utils.encoding.a2b_hashed_base58(b58_str)
+
+        if len(data) != HDPrivateKey.DataLength:
+            raise ValueError("HDPrivateKey must be 78 bytes long, not %d" % len(data))
 
         chain   = data[HDPrivateKey.ChainCodeStart : HDPrivateKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPrivateKey.DepthStart : HDPrivateKey.DepthEnd])
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 69651d2..0fccbc8 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -27,7 +27,10 @@ class HDPublicKey(BaseHDPublicKey):
     # TODO: massage this
     @staticmethod
     def from_string(b58_str):
-        data = utils.encoding.a2b_hashed_base58(b58_str) # TODO checksum?
+        data = utils.encoding.a2b_hashed_base58(b58_str)
+
+        if len(data) != HDPublicKey.DataSize:
+            raise ValueError("HDPublicKey must be 78 bytes long, not %d" % len(data))
 
         chain   = data[HDPublicKey.ChainCodeStart : HDPublicKey.ChainCodeEnd]
         depth   = int_from_bytes(data[HDPublicKey.DepthStart : HDPublicKey.DepthEnd])
-- 
2.43.0


From d1a0ef37d7aee98877f9ed6287d04d74a71a8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:42 +0000
Subject: [PATCH 27/50] fix: opcodes without a name raised KeyError when
 printed or reported in errors

---
 bitforge/script/opcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/opcode.py b/bitforge/script/opcode.py
index 4ab386c..a557cd8 100644
--- a/bitforge/script/opcode.py
+++ b/bitforge/script/opcode.py
@@ -192,7 +192,7 @@ class Opcode(object):
         if self.is_const_push():
             return "_PUSH_%d_BYTES" % self.number
         else:
-            return Opcode.opcode_number_to_name[self.number]
+            return Opcode.opcode_number_to_name.get(self.number, "_UNKNOWN_%d" % self.number)
 
     def is_number(self):
         return self == OP_0 or (OP_1 <= self <= OP_16)
-- 
2.43.0


From 44adbcecfa2cdae5afefef82d742ba9ff2d2dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:48 +0000
Subject: [PATCH 28/50] fix: Unit lost a satoshi converting amounts such as
 0.29 BTC

---
 bitforge/unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/unit.py b/bitforge/unit.py
index a45a58a..f512ee4 100644
--- a/bitforge/unit.py
+++ b/bitforge/unit.py
@@ -16,11 +16,11 @@ class Unit(object):
         if satoshis is not None:
             self._set_values(satoshis)
         elif bits is not None:
-            self._set_values(bits * Unit.bits)
+            self._set_values(round(bits * Unit.bits))
         elif mbtc is not None:
-            self._set_values(mbtc * Unit.mbtc)
+            self._set_values(round(mbtc * Unit.mbtc))
         elif btc is not None:
-            self._set_values(btc * Unit.btc)
+            self._set_values(round(btc * Unit.btc))
         else:
             raise ValueError('Invalid arguments')
 
-- 
2.43.0


From 025b2b788755dab5ec9f44b2da7320c5ec13128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:54 +0000
Subject: [PATCH 29/50] fix: URI.is_valid raised OverflowError for infinite
 amounts

---
 bitforge/uri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index 9617925..e98bcd0 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -18,7 +18,7 @@ class URI(object):
         try:
             URI(uri)
             return True
-        except (ValueError, BitforgeError):
+        except (ValueError, OverflowError, BitforgeError):
             return False
 
     @staticmethod
-- 
2.43.0


From 9f8fc45d6deee89846f8bfa9be5b95d2d6f57376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:01 +0000
Subject: [PATCH 30/50] fix: URI raised AttributeError when created without an
 address

---
 bitforge/uri.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index e98bcd0..bf17c55 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -48,6 +48,9 @@ class URI(object):
             else:
                 self.extras[k] = v
 
+        if 'address' not in args:
+            raise ValueError('Missing address')
+
         self.address = Address.from_string(self.address)
         self.amount = Unit(satoshis = self.amount) if 'amount' in args else None
 
-- 
2.43.0


From 1442a19289591338710ea968a00a93b0a80a95a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:06 +0000
Subject: [PATCH 31/50] fix: validate_signature raised TypeError for every
 signature

---
 bitforge/signature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/signature.py b/bitforge/signature.py
index 1ccf21e..2e707ef 100644
--- a/bitforge/signature.py
+++ b/bitforge/signature.py
@@ -9,7 +9,7 @@ SIGHASH_ANYONECANPAY = 0x80
 
 def validate_signature(sig):
     # Minimum and maximum size constraints.
-    sig = map(ord, sig)
+    sig = bytearray(sig)
 
     if (len(sig) < 9): return False;
     if (len(sig) > 73): return False;
-- 
2.43.0


From 9cf8fc6129cebd8fe11e8e46d87631b9842a031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 32/50] fix: intbytes.from_bytes ignored its byteorder

---
 bitforge/utils/intbytes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/intbytes.py b/bitforge/utils/intbytes.py
index 5fb15e3..47a620f 100644
--- a/bitforge/utils/intbytes.py
+++ b/bitforge/utils/intbytes.py
@@ -36,7 +36,7 @@ bytes_from_ints = (lambda l: b''.join(chr(x) for x in l)) if bytes == str else b
 if hasattr(int, "to_bytes"):
     to_bytes = lambda v, length, byteorder="big": v.to_bytes(length, byteorder=byteorder)
     from_bytes = lambda bytes, byteorder="big", signed=False: int.from_bytes(
-        bytes, byteorder="big", signed=signed)
+        bytes, byteorder=byteorder, signed=signed)
     int_to_bytes = lambda v: v.to_bytes((v.bit_length()+7)//8, byteorder="big")
     int_from_bytes = lambda v: int.from_bytes(v, byteorder="big")
 else:
-- 
2.43.0


From d9ea197613775fe692608075b0c0e5fbba622610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:18 +0000
Subject: [PATCH 33/50] fix: utils.sign could return r outside [1, n-1]

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index fec7b0b..5f3e440 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -102,7 +102,7 @@ def sign(generator, secret_exponent, val):
     n = G.order()
     k = deterministic_generate_k(n, secret_exponent, val)
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( val + ( secret_exponent * r ) % n ) ) % n
-- 
2.43.0


From 6080e4d9f4eaeac81ba9f779490f98795b9c37c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:24 +0000
Subject: [PATCH 34/50] fix: Transaction.sign with a negative index silently
 returned an unsigned Transaction

---
 bitforge/transaction/transaction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bitforge/transaction/transaction.py b/bitforge/transaction/transaction.py
index 15fd45e..210a742 100644
--- a/bitforge/transaction/transaction.py
+++ b/bitforge/transaction/transaction.py
@@ -33,6 +33,9 @@ class Transaction(BaseTransaction):
     class InvalidLockTime(Error, NumberError):
         "Transaction lock_time must be between 0 and 4294967295 (2^32 - 1), not {number}"
 
+    class InvalidInputIndex(Error, NumberError):
+        "Transaction has no Input at index {number}"
+
 
     def __new__(cls, inputs, outputs, lock_time = 0, version = 1):
         inputs = tuple(inputs)
@@ -95,6 +98,9 @@ class Transaction(BaseTransaction):
 
         # Let's go step by step.
 
+        if not (0 <= txi_index < len(self.inputs)):
+            raise Transaction.InvalidInputIndex(txi_index)
+
         # 1. Create a simplified version of the Transaction, where this Input
         # Script is a placeholder (the signature can't sign itself), and all
         # other Input scripts are empty (0 bytes). The placeholder should be
-- 
2.43.0


From 7b63440e644fe62a0759e56e94b6433675a24384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:30 +0000
Subject: [PATCH 35/50] fix: Script.push_data and remove_opcode_by_data tried
 to modify the immutable Script

---
 bitforge/script/interpreter.py | 4 ++--
 bitforge/script/script.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 140d10b..2b0f0af 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -635,7 +635,7 @@ class Interpreter(object):
                 subscript = Script(self.script.instructions[from_instruction:])
 
                 # Drop the signature, since there's no way for a signature to sign itself
-                subscript.remove_opcode_by_data(sig_bytes)
+                subscript = subscript.remove_opcode_by_data(sig_bytes)
 
                 if not self.check_signature_encoding(sig_bytes) or not self.check_pubkey_encoding(pubkey_bytes):
                     return False
@@ -692,7 +692,7 @@ class Interpreter(object):
 
                 for i in range(sigs_count):
                     sig_bytes = self.stack[-isig-i]
-                    subscript.remove_opcode_by_data(sig_bytes)
+                    subscript = subscript.remove_opcode_by_data(sig_bytes)
 
                 total_elements = sigs_count + keys_count + 2
                 f_success = True
diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 9778a36..8248bea 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -141,11 +141,11 @@ class Script(BaseScript):
 
     def push_data(self, bytes):
         instruction = Instruction.push_for(bytes)
-        self.instructions.push(instruction)
+        return Script(self.instructions + (instruction,))
 
     def remove_opcode_by_data(self, bytes):
         instruction = Instruction.push_for(bytes)
-        self.instructions = filter(lambda i: i == instruction, self.instructions)
+        return Script(i for i in self.instructions if i != instruction)
 
     def is_push_only(self):
         """
-- 
2.43.0


From 2aa3d999bb05d3b666835bf9cbcb1526035410c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:36 +0000
Subject: [PATCH 36/50] fix: Script.from_string could not parse the string of
 an empty Script

---
 bitforge/script/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 8248bea..63d4df1 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -86,7 +86,7 @@ class Script(BaseScript):
     @staticmethod
     def from_string(string):
         instructions = []
-        tokens = (i for i in string.split(' '))
+        tokens = (i for i in string.split())
 
         def get_opcode(token):
             try:
-- 
2.43.0


From 8036835be122f51865c882c25114800ac441155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:42 +0000
Subject: [PATCH 37/50] fix: paying to a script Address created an unspendable
 Pay-to-Pubkey output

---
 bitforge/script/script.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 63d4df1..943a7bb 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -5,7 +5,7 @@ import collections
 from bitforge.encoding import *
 from bitforge.tools import Buffer
 from bitforge.errors import *
-from bitforge import PublicKey
+from bitforge import Address, PublicKey
 
 from .opcode import *
 from .instruction import Instruction
@@ -191,8 +191,14 @@ class PayToPubkeyIn(Script):
 
 class PayToPubkeyOut(Script):
 
+    class WrongAddressType(Script.Error, ObjectError):
+        "Pay-to-Pubkey requires an Address of type PublicKey, got {object}"
+
     @classmethod
     def create(cls, address):
+        if address.type is not Address.Type.PublicKey:
+            raise PayToPubkeyOut.WrongAddressType(address)
+
         schematic = [ OP_DUP, OP_HASH160, address.phash, OP_EQUALVERIFY, OP_CHECKSIG ]
         return cls(to_instructions(schematic))
 
-- 
2.43.0


From 863922f258a4dcf38becd056685ccbef47fcb678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:48 +0000
Subject: [PATCH 38/50] fix: OP_DROP dropped two elements

---
 bitforge/script/interpreter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 2b0f0af..f549441 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -392,7 +392,6 @@ class Interpreter(object):
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
 
-                self.stack.pop()
                 self.stack = self.stack[:-1]
 
             elif instruction.opcode == OP_DUP:
-- 
2.43.0


From 31da004855afe069df20bbc6969d8b266f2a565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:55 +0000
Subject: [PATCH 39/50] fix: OP_ABS always produced 1

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index f549441..df77836 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -513,7 +513,7 @@ class Interpreter(object):
                     number = -number
 
                 elif instruction.opcode == OP_ABS:
-                    number = abs(-1)
+                    number = abs(number)
 
                 elif instruction.opcode == OP_NOT:
                     number = int(number == 0)
-- 
2.43.0


From 5568c8deddd31f2057f5e1c1b9ac44dffa3ab45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:01 +0000
Subject: [PATCH 40/50] fix: the stack size limit was only enforced when the
 script ended

---
 bitforge/script/interpreter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index df77836..2178a44 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -132,9 +132,9 @@ class Interpreter(object):
                 if not self.step():
                     return False
 
-            if len(self.stack) + len(self.altstack) > 1000:
-                self.errstr = 'SCRIPT_ERR_STACK_SIZE'
-                return False
+                if len(self.stack) + len(self.altstack) > 1000:
+                    self.errstr = 'SCRIPT_ERR_STACK_SIZE'
+                    return False
 
         except Exception as e:
             self.errstr = 'SCRIPT_ERR_UNKNOWN_ERROR: ' + str(e)
-- 
2.43.0


From bd29c1e5fb26c595501a10f6212e88482d4b8e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:07 +0000
Subject: [PATCH 41/50] fix: OP_WITHIN accepted non-minimal numbers under
 SCRIPT_VERIFY_MINIMALDATA

---
 bitforge/script/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 2178a44..e230fd8 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -591,7 +591,7 @@ class Interpreter(object):
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
 
-                number1, number2, number3 = map(decode_script_number, self.stack[-3:])
+                number1, number2, number3 = (decode_script_number(n, f_required_minimal) for n in self.stack[-3:])
                 f_value = number2 <= number1 < number3
 
                 self.stack = self.stack[:-3] + [Interpreter.bool_bytes[f_value]]
-- 
2.43.0


From 0ace9cdb6c67fe3854e8e0dfa9fd358b5712e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:13 +0000
Subject: [PATCH 42/50] fix: OP_CHECKLOCKTIMEVERIFY failed every script, even
 when not enabled by flags

---
 bitforge/script/interpreter.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index e230fd8..b50c01a 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -209,11 +209,14 @@ class Interpreter(object):
                 pass
 
             elif instruction.opcode == OP_CHECKLOCKTIMEVERIFY:
-                if self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                if not self.flags & Interpreter.SCRIPT_VERIFY_CHECKLOCKTIMEVERIFY:
+                    # Not enabled, treat as OP_NOP2
                     if self.flags & Interpreter.SCRIPT_VERIFY_DISCOURAGE_UPGRADABLE_NOPS:
                         self.errstr = 'SCRIPT_ERR_DISCOURAGE_UPGRADABLE_NOPS'
                         return False
 
+                    return True
+
                 if len(self.stack) < 1:
                     self.errstr = 'SCRIPT_ERR_INVALID_STACK_OPERATION'
                     return False
@@ -755,7 +758,17 @@ class Interpreter(object):
         return True
 
     def check_lock_time(self, nlock_time):
-        pass
+        threshold = Interpreter.LOCKTIME_THRESHOLD
+
+        # Block heights and timestamps can't be compared to each other
+        if (self.tx.lock_time < threshold) != (nlock_time < threshold):
+            return False
+
+        if nlock_time > self.tx.lock_time:
+            return False
+
+        # A final Input would disable the transaction's lock_time
+        return self.tx.inputs[self.nin].seq_number != 0xFFFFFFFF
 
     def check_signature_encoding(self, bytes):
         pass
-- 
2.43.0


From c1f5493bb7143bc6cc0667bd23c6365b053233fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:19 +0000
Subject: [PATCH 43/50] fix: Interpreter.verify raised AttributeError under
 SCRIPT_VERIFY_P2SH, and looked at the wrong script and stack

---
 bitforge/script/interpreter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index b50c01a..59a9de2 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -3,7 +3,7 @@ from __future__ import unicode_literals
 from bitforge.errors import BitforgeError
 from bitforge.transaction import Transaction, Input, Output
 from bitforge.tools import Buffer
-from bitforge.script import Script
+from bitforge.script import Script, PayToScriptOut
 
 from bitforge.encoding import encode_script_number, decode_script_number
 from bitforge.encoding import sha1, ripemd160, sha256, hash160
@@ -80,7 +80,7 @@ class Interpreter(object):
             return False
 
         # Additional validation for spend-to-script-hash transactions:
-        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and script_sig.is_script_hash_out():
+        if (self.flags & Interpreter.SCRIPT_VERIFY_P2SH) and PayToScriptOut.is_valid(script_pubkey):
             # script_sig must be literals-only or validation fails
             if not script_sig.is_push_only():
                 self.errstr = 'SCRIPT_ERR_SIG_PUSHONLY'
@@ -107,11 +107,11 @@ class Interpreter(object):
             if not self.evaluate():
                 return False
 
-            if len(stack_copy) == 0:
+            if len(self.stack) == 0:
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_NO_P2SH_STACK'
                 return False
 
-            if not Interpreter.cast_to_bool(stack_copy[-1]):
+            if not Interpreter.cast_to_bool(self.stack[-1]):
                 self.errstr = 'SCRIPT_ERR_EVAL_FALSE_IN_P2SH_STACK'
                 return False
 
-- 
2.43.0


From cca9184d0179c6e0ffcbf4aafa1d3ebe23dfffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:57 +0000
Subject: [PATCH 44/50] fix: Interpreter.verify raised when the redeem script
 could not be parsed

---
 bitforge/script/interpreter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bitforge/script/interpreter.py b/bitforge/script/interpreter.py
index 59a9de2..7c67e30 100644
--- a/bitforge/script/interpreter.py
+++ b/bitforge/script/interpreter.py
@@ -93,7 +93,12 @@ class Interpreter(object):
                 raise Exception('internal error - stack copy empty')
 
             redeem_bytes = stack_copy[-1]
-            redeem_script = Script.from_bytes(redeem_bytes)
+            try:
+                redeem_script = Script.from_bytes(redeem_bytes)
+            except BitforgeError:
+                self.errstr = 'SCRIPT_ERR_BAD_OPCODE'
+                return False
+
             stack_copy = stack_copy[:-1]
 
             self.initialize()
-- 
2.43.0


From 21883c8b82418f50184e0061dff4cd321a66e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:03 +0000
Subject: [PATCH 45/50] fix: Script.from_string leaked ValueError for
 non-decimal digits

---
 bitforge/script/script.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitforge/script/script.py b/bitforge/script/script.py
index 943a7bb..c6778ea 100644
--- a/bitforge/script/script.py
+++ b/bitforge/script/script.py
@@ -133,6 +133,9 @@ class Script(BaseScript):
             except StopIteration:
                 raise Script.MissingPushArguments(token)
 
+            except ValueError: # str.isdigit() accepts digits that int() doesn't
+                raise Script.InvalidPushSize(token)
+
         return Script.create(instructions)
 
     @staticmethod
-- 
2.43.0


From 28a3de3306f5288ed9aba31079627f0e3195edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:11 +0000
Subject: [PATCH 46/50] fix: refuse HD child indices outside 0..2**32-1

A negative index with hardened=True became a normal (non-hardened) child.
---
 bitforge/hdprivkey.py | 3 ++-
 bitforge/hdpubkey.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitforge/hdprivkey.py b/bitforge/hdprivkey.py
index 012e90f..fcc965e 100644
--- a/bitforge/hdprivkey.py
+++ b/bitforge/hdprivkey.py
@@ -81,7 +81,8 @@ class HDPrivateKey(BaseHDPrivateKey):
 
 
     def derive(self, index, hardened = False):
-        # TODO Is index Valid?
+        if not 0 <= index < 2 * HARDENED_START:
+            raise ValueError("HDPrivateKey index must be between 0 and 2**32 - 1, not %d" % index)
 
         if index < HARDENED_START and hardened:
             index += HARDENED_START
diff --git a/bitforge/hdpubkey.py b/bitforge/hdpubkey.py
index 0fccbc8..7f3776d 100644
--- a/bitforge/hdpubkey.py
+++ b/bitforge/hdpubkey.py
@@ -66,7 +66,8 @@ class HDPublicKey(BaseHDPublicKey):
 
 
     def derive(self, index, hardened = False):
-        # TODO Is index Valid?
+        if not 0 <= index < 2 * HARDENED_START:
+            raise ValueError("HDPublicKey index must be between 0 and 2**32 - 1, not %d" % index)
 
         if index < HARDENED_START and hardened:
             index += HARDENED_START
-- 
2.43.0


From 459cf1678a62eea6ff7b07f04ce4ed21f3520030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:37 +0000
Subject: [PATCH 47/50] fix: reject signatures whose verification point is at
 infinity

utils.ecdsa.verify raised TypeError for them.
---
 bitforge/utils/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index 5f3e440..e3baccc 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -143,6 +143,7 @@ def verify(generator, public_pair, val, signature):
     u1 = ( val * c ) % n
     u2 = ( r * c ) % n
     point = u1 * G + u2 * ellipticcurve.Point( G.curve(), public_pair[0], public_pair[1], G.order() )
+    if point == ellipticcurve.INFINITY: return False
     v = point.x() % n
     return v == r
 
-- 
2.43.0


From 0c1049ad1c94aa0606bc266bc3853be411c49e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:43 +0000
Subject: [PATCH 48/50] fix: write URI amounts as plain decimals

Small amounts came out with an exponent (amount=1e-08), which BIP 21 does not allow.
---
 bitforge/uri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitforge/uri.py b/bitforge/uri.py
index bf17c55..ac4981a 100644
--- a/bitforge/uri.py
+++ b/bitforge/uri.py
@@ -57,7 +57,8 @@ class URI(object):
     def to_uri(self):
         query = self.extras.copy()
         if self.amount:
-            query['amount'] = self.amount.btc
+            # BIP21 amounts are plain decimals (no exponent)
+            query['amount'] = ('%.8f' % self.amount.btc).rstrip('0').rstrip('.')
         for key in ['message', 'label', 'r']:
             value = getattr(self, key, False)
             if value: query[key] = value
-- 
2.43.0


From fc871be7b67c3fe990c6789ff0f5f097eb3324a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:56 +0000
Subject: [PATCH 49/50] fix: WIF helpers refuse payloads that are not a 32-byte
 secret and an optional compression flag

---
 bitforge/utils/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitforge/utils/encoding.py b/bitforge/utils/encoding.py
index 4e081cd..41cda89 100644
--- a/bitforge/utils/encoding.py
+++ b/bitforge/utils/encoding.py
@@ -180,6 +180,8 @@ def wif_to_tuple_of_prefix_secret_exponent_compressed(wif):
     """
     decoded = a2b_hashed_base58(wif)
     actual_prefix, private_key = decoded[:1], decoded[1:]
+    if len(private_key) < 32 or private_key[32:] not in (b'', b'\x01'):
+        raise EncodingError("bad WIF payload %s" % wif)
     compressed = len(private_key) > 32
     return actual_prefix, from_bytes_32(private_key[:32]), compressed
 
-- 
2.43.0


From 2ba6723fda48cc3c59160f8779413a23c9a85604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:46 +0000
Subject: [PATCH 50/50] fix: RFC 6979 nonce when the hash equals the group
 order (it is reduced to zero)

---
 bitforge/utils/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitforge/utils/ecdsa.py b/bitforge/utils/ecdsa.py
index e3baccc..4a36212 100644
--- a/bitforge/utils/ecdsa.py
+++ b/bitforge/utils/ecdsa.py
@@ -59,7 +59,7 @@ def deterministic_generate_k(generator_order, secret_exponent, val, hash_f=hashl
     shift = 8 * hash_size - bit_length(n)
     if shift > 0:
         val >>= shift
-    if val > n:
+    if val >= n:
         val -= n
     h1 = intbytes.to_bytes(val, length=order_size)
     k = hmac.new(k, v + b'\x00' + priv + h1, hash_f).digest()
-- 
2.43.0

