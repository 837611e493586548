From 7d6c0a9b659c5f68c6dc432575e6be23086ad6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 01/21] fix: build_aligned_data_array: check the length of
 every item

Only the total length was compared, so items of wrong lengths that add up
(for example 0, 32 and 64 bytes) were accepted and misaligned the array that
is handed to libsecp256k1.
---
 elementstx/core/secp256k1.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elementstx/core/secp256k1.py b/elementstx/core/secp256k1.py
index 08d216e..0e5702d 100644
--- a/elementstx/core/secp256k1.py
+++ b/elementstx/core/secp256k1.py
@@ -205,8 +205,7 @@ def build_aligned_data_array(data_list: List[bytes], expected_len: int) -> bytes
     # with fixed byte size, we do not need to bother about alignment.
     buf = b''.join(data_list)
     # but we must check that our expectation of the data size is correct
-    assert len(buf) % expected_len == 0
-    assert len(buf) // expected_len == len(data_list)
+    assert all(len(data) == expected_len for data in data_list)
 
     return buf
 
-- 
2.43.0


From ec74ac3b37915ea3412b22c0b3df99d5b228b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 02/21] fix: refuse to parse an input with a null issuance
 record

The issuance flag and the record were silently dropped, and the parsed
input serialized to different bytes.
---
 elementstx/core/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d5b5d6f..2eb9477 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -856,6 +856,9 @@ class CElementsTxIn(ReprOrStrMixin, CTxIn, CoreElementsClass):
 
         if has_asset_issuance:
             assetIssuance = CAssetIssuance.stream_deserialize(f)
+            if assetIssuance.is_null():
+                # It's illegal to encode an issuance that issues nothing
+                raise TxInSerializationError('Superfluous issuance record')
         else:
             assetIssuance = CAssetIssuance()
 
-- 
2.43.0


From e30db752d30bdb881ddbbdcdae51ed8247e041b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 03/21] fix: refuse to serialize an input that would read back
 as coinbase

Index 0x3fffffff with both issuance and peg-in flags gives 0xffffffff,
and the issuance data that follows cannot be parsed.
---
 elementstx/core/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 2eb9477..0949629 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -880,6 +880,10 @@ class CElementsTxIn(ReprOrStrMixin, CTxIn, CoreElementsClass):
                     n |= OUTPOINT_ISSUANCE_FLAG
                 if self.is_pegin:
                     n |= OUTPOINT_PEGIN_FLAG
+                if n == 0xffffffff:
+                    raise TxInSerializationError(
+                        'prevout.n combined with input flags is '
+                        'indistinguishable from a coinbase input')
             outpoint = CElementsOutPoint(self.prevout.hash, n)
 
         COutPoint.stream_serialize(outpoint, f)
-- 
2.43.0


From 97a250184acaa52625b17f9c13570c3af75f0df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 04/21] fix: refuse to parse a transaction with an unknown flag
 byte

Any flag byte other than 1 was treated as 0 and lost on serialization.
---
 elementstx/core/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 0949629..cbc9288 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1108,6 +1108,8 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
                 raise ValueError('Superfluous witness record')
 
             return cls(vin, vout, nLockTime, nVersion, wit)
+        elif flagbyte != 0:
+            raise SerializationError('Unknown transaction optional data')
         else:
             vin = VectorSerializer.stream_deserialize(f, element_class=CTxIn)
             vout = VectorSerializer.stream_deserialize(f, element_class=CTxOut)
-- 
2.43.0


From a819c17b974d4e6eb261732be5f133dc51b81329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 05/21] fix: segwit signature hash for lock times above
 0x7fffffff

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index b94d905..4202173 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -183,7 +183,7 @@ def RawElementsSignatureHash(
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
     f.write(hashOutputs)
-    f.write(struct.pack("<i", txTo.nLockTime))
+    f.write(struct.pack("<I", txTo.nLockTime))
     f.write(struct.pack("<i", hashtype))
 
     hash = Hash(f.getvalue())
-- 
2.43.0


From f3ea7f31c7708ffb52f5c57f1034e60c30b82aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 06/21] fix: off-by-one in output index check of the Schnorr
 signature hash

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 4202173..ad8d8df 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -360,7 +360,7 @@ def ElementsSignatureHashSchnorr(
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-        if outIdx > len(txTo.vout):
+        if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
         f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
-- 
2.43.0


From 6612ab932acfbd86e90c21b050574edb007434ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 07/21] fix: Schnorr signature hash: length prefix of
 scriptPubKey with ANYONECANPAY

---
 elementstx/core/script.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index ad8d8df..e749d8c 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -338,7 +338,8 @@ def ElementsSignatureHashSchnorr(
         f.write(txTo.vin[inIdx].prevout.serialize())
         f.write(spent_outputs[inIdx].nAsset.serialize())
         f.write(spent_outputs[inIdx].nValue.serialize())
-        f.write(spent_outputs[inIdx].scriptPubKey)
+        BytesSerializer.stream_serialize(
+            spent_outputs[inIdx].scriptPubKey, f)
         f.write(struct.pack('<I', txTo.vin[inIdx].nSequence))
         if txTo.vin[inIdx].assetIssuance.is_null():
             f.write(b'\x00')
-- 
2.43.0


From d74053f43f0c5bfbae4717c77b8d0e7cafb67dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 08/21] fix: Schnorr signature hash: length prefixes of
 issuance rangeproofs with ANYONECANPAY

---
 elementstx/core/script.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index e749d8c..a45a12c 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -349,8 +349,8 @@ def ElementsSignatureHashSchnorr(
             inwit = txTo.wit.vtxinwit[inIdx]
             f.write(
                 hashlib.sha256(
-                    inwit.issuanceAmountRangeproof
-                    + inwit.inflationKeysRangeproof
+                    BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
+                    + BytesSerializer.serialize(inwit.inflationKeysRangeproof)
                 ).digest()
             )
     else:
-- 
2.43.0


From 52e8a87cd7aebf30a573f267aa7e8d8154c188ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 09/21] fix: Schnorr signature hash: no length prefix for the
 annex hash

The annex hash is a 32-byte value written as is (BIP341)
---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index a45a12c..745d7a2 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -357,7 +357,7 @@ def ElementsSignatureHashSchnorr(
         f.write(struct.pack('<I', inIdx))
 
     if annex_hash is not None:
-        BytesSerializer.stream_serialize(annex_hash, f)
+        f.write(annex_hash)
 
     if output_type == SIGHASH_SINGLE:
         outIdx = inIdx
-- 
2.43.0


From 5c03182d8f89175292bd30492cf4d4e1749fc5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 10/21] fix: segwit signature hash: encoding of null amount

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 745d7a2..8263443 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -178,7 +178,7 @@ def RawElementsSignatureHash(
     f.write(hashIssuance)
     txTo.vin[inIdx].prevout.stream_serialize(f)
     BytesSerializer.stream_serialize(script, f)
-    f.write(amount.commitment)
+    amount.stream_serialize(f)
     f.write(struct.pack("<I", txTo.vin[inIdx].nSequence))
     if not txTo.vin[inIdx].assetIssuance.is_null():
         txTo.vin[inIdx].assetIssuance.stream_serialize(f)
-- 
2.43.0


From cfcdb6fa5fe89490a9ce72dc75218c18422fc564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 11/21] fix: number of OP_DETERMINISTICRANDOM

---
 elementstx/core/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 8263443..2b32c56 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -43,7 +43,7 @@ import elementstx.core
 # to have CBitcoinScriptOp and CElementsScriptOp, but
 # this is too heavy for this small issue. These opcodes are useable as-is,
 # the only proble is that they will be shown as UNKNOWN for repr(script).
-OP_DETERMINISTICRANDOM = CScriptOp(0xc1)
+OP_DETERMINISTICRANDOM = CScriptOp(0xc0)
 OP_CHECKSIGFROMSTACK = CScriptOp(0xc1)
 OP_CHECKSIGFROMSTACKVERIFY = CScriptOp(0xc2)
 
-- 
2.43.0


From e73f00dad7f3dc043cf1d319a7274be05fb682f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 12/21] fix: CElementsTxOutWitness: copy bytearray arguments

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index cbc9288..53f4cf2 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -551,8 +551,8 @@ class CElementsTxOutWitness(CTxOutWitness, CoreElementsClass):
                  rangeproof: Union[bytes, bytearray] = b''):
         ensure_isinstance(surjectionproof, (bytes, bytearray), 'surjectionproof')
         ensure_isinstance(rangeproof, (bytes, bytearray), 'rangeproof')
-        object.__setattr__(self, 'surjectionproof', surjectionproof)
-        object.__setattr__(self, 'rangeproof', rangeproof)
+        object.__setattr__(self, 'surjectionproof', bytes(surjectionproof))
+        object.__setattr__(self, 'rangeproof', bytes(rangeproof))
 
     @no_bool_use_as_property
     def is_null(self) -> bool:
-- 
2.43.0


From 088c4094535ad7418a0fa3472b100dddbf61a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:58 +0000
Subject: [PATCH 13/21] fix: CCoinConfidentialAddress.to_redeemScript returned
 scriptPubKey

---
 elementstx/wallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/wallet.py b/elementstx/wallet.py
index d126076..9850a59 100644
--- a/elementstx/wallet.py
+++ b/elementstx/wallet.py
@@ -158,7 +158,7 @@ class CCoinConfidentialAddress(CCoinAddress):
         return self.to_unconfidential().to_scriptPubKey()
 
     def to_redeemScript(self) -> CScript:
-        return self.to_unconfidential().to_scriptPubKey()
+        return self.to_unconfidential().to_redeemScript()
 
     def from_scriptPubKey(self) -> None:  # type: ignore
         raise CCoinAddressError(
-- 
2.43.0


From 3271f433761269af8ee15b38e22c482a277b3d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 14/21] fix: serialize null witness records when only one
 witness vector is present

A transaction with witness data for outputs only (or for inputs only)
serialized without the records of the other kind, and could not be parsed.
---
 elementstx/core/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 53f4cf2..04f93d1 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1130,7 +1130,13 @@ class CElementsTransaction(CTransaction, CoreElementsClass):
             VectorSerializer.stream_serialize(self.vout, f)
             # Note: nLockTime goes before witness in Elements transactions
             f.write(struct.pack(b"<I", self.nLockTime))
-            self.wit.stream_serialize(f)
+            # Parsing expects the records for all inputs and all outputs
+            for inwit in (self.wit.vtxinwit
+                          or [CElementsTxInWitness() for dummy in self.vin]):
+                inwit.stream_serialize(f)
+            for outwit in (self.wit.vtxoutwit
+                           or [CElementsTxOutWitness() for dummy in self.vout]):
+                outwit.stream_serialize(f)
         else:
             if not for_sighash:
                 f.write(b'\x00')  # Flag is needed in Elements
-- 
2.43.0


From d9710aa096cf96fa6054439a6b33308d4202eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 15/21] fix: Schnorr signature hash of a transaction without
 witness records

---
 elementstx/core/script.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/elementstx/core/script.py b/elementstx/core/script.py
index 2b32c56..1668729 100644
--- a/elementstx/core/script.py
+++ b/elementstx/core/script.py
@@ -253,6 +253,12 @@ def ElementsSignatureHashSchnorr(
         ensure_isinstance(hashtype, SIGHASH_Type, 'hashtype')
         hashtype_byte = bytes([hashtype])
 
+    # Transaction without witness data may have no witness records
+    vtxinwit = (txTo.wit.vtxinwit
+                or [elementstx.core.CElementsTxInWitness() for dummy in txTo.vin])
+    vtxoutwit = (txTo.wit.vtxoutwit
+                 or [elementstx.core.CElementsTxOutWitness() for dummy in txTo.vout])
+
     input_type = hashtype.input_type
     output_type = hashtype.output_type
 
@@ -295,7 +301,7 @@ def ElementsSignatureHashSchnorr(
             else:
                 issuances_hashobj.update(txin.assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inp_i]
+            inwit = vtxinwit[inp_i]
             issuance_rangeproof_hashobj.update(
                 BytesSerializer.serialize(inwit.issuanceAmountRangeproof))
             issuance_rangeproof_hashobj.update(
@@ -321,7 +327,7 @@ def ElementsSignatureHashSchnorr(
         for outp_i, txout in enumerate(txTo.vout):
             outputs_hashobj.update(txout.serialize())
             output_witnesses_hashobj.update(
-                txTo.wit.vtxoutwit[outp_i].serialize())
+                vtxoutwit[outp_i].serialize())
 
         f.write(outputs_hashobj.digest())
         f.write(output_witnesses_hashobj.digest())
@@ -346,7 +352,7 @@ def ElementsSignatureHashSchnorr(
         else:
             f.write(txTo.vin[inIdx].assetIssuance.serialize())
 
-            inwit = txTo.wit.vtxinwit[inIdx]
+            inwit = vtxinwit[inIdx]
             f.write(
                 hashlib.sha256(
                     BytesSerializer.serialize(inwit.issuanceAmountRangeproof)
@@ -364,7 +370,7 @@ def ElementsSignatureHashSchnorr(
         if outIdx >= len(txTo.vout):
             raise ValueError(f'outIdx {outIdx} out of range ({len(txTo.vout)})')
         f.write(hashlib.sha256(txTo.vout[outIdx].serialize()).digest())
-        f.write(hashlib.sha256(txTo.wit.vtxoutwit[outIdx].serialize()).digest())
+        f.write(hashlib.sha256(vtxoutwit[outIdx].serialize()).digest())
 
     if sigversion == SIGVERSION_TAPSCRIPT:
         if tapleaf_hash is None:
-- 
2.43.0


From afa3909f6e52c87d81de062d529b3a6a78a76e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 16/21] fix: blind_transaction: refuse reissuance with
 inflation keys

The token of another input, or an unbound variable, was used.
---
 elementstx/core/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 04f93d1..17d5672 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1374,6 +1374,11 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 asset = calculate_asset(entropy)
                 token = calculate_reissuance_token(entropy, blind_issuance)
             else:
+                # Only initial issuance can have reissuance tokens
+                if not issuance.nInflationKeys.is_null():
+                    return BlindingFailure(
+                        'input %d has a reissuance with nInflationKeys' % i)
+
                 asset = calculate_asset(issuance.assetEntropy)
 
             if not issuance.nAmount.is_null():
-- 
2.43.0


From cf06a5403fc2e5821039efd421faca067ece7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 17/21] fix: blind_transaction: input number in error messages

---
 elementstx/core/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 17d5672..99337c4 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1481,7 +1481,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 else:
                     return BlindingFailure(
                         'blind_issuance_asset_keys is specified for input %d, '
-                        'but issuanceAmountRangeproof is already in place')
+                        'but issuanceAmountRangeproof is already in place' % nIn)
 
             if len(blind_issuance_token_keys) > nIn and blind_issuance_token_keys[nIn] is not None:
                 if not issuance.nInflationKeys.is_explicit():
@@ -1494,7 +1494,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 else:
                     return BlindingFailure(
                         'blind_issuance_token_keys is specified for input %d, '
-                        'but inflationKeysRangeproof is already in place')
+                        'but inflationKeysRangeproof is already in place' % nIn)
 
     for nOut, out_pub in enumerate(output_pubkeys):
         if out_pub.is_nonempty():
-- 
2.43.0


From 3abee698ee5012feb71fa9701421be7c2aca61f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 18/21] fix: blind_transaction: refuse issuance blinding key
 for input without issuance

Such a key was counted as a blinding attempt, and blinding aborted with
AssertionError after the transaction was already changed.
---
 elementstx/core/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 99337c4..19d67d5 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1495,6 +1495,11 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                     return BlindingFailure(
                         'blind_issuance_token_keys is specified for input %d, '
                         'but inflationKeysRangeproof is already in place' % nIn)
+        elif (any(key is not None for key in blind_issuance_asset_keys[nIn:nIn+1])
+                or any(key is not None for key in blind_issuance_token_keys[nIn:nIn+1])):
+            return BlindingFailure(
+                'issuance blinding key is specified for input %d, '
+                'but this input has no issuance' % nIn)
 
     for nOut, out_pub in enumerate(output_pubkeys):
         if out_pub.is_nonempty():
-- 
2.43.0


From f0eca05dff6c1e50c720403fc2d0cafbc639ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:43 +0000
Subject: [PATCH 19/21] fix: unblind_confidential_pair: accept bytearray
 rangeproof

---
 elementstx/core/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 19d67d5..d4db271 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -2088,7 +2088,7 @@ def unblind_confidential_pair(*, blinding_key: CKeyBase,  # noqa
         msg, ctypes.byref(msg_size),
         nonce,
         ctypes.byref(min_value), ctypes.byref(max_value),
-        commit, rangeproof, len(rangeproof),
+        commit, bytes(rangeproof), len(rangeproof),
         committedScript or None, len(committedScript),
         observed_gen)
 
-- 
2.43.0


From 516f1a248b8829a0c8c0febf8199f77cd0e1bb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:43 +0000
Subject: [PATCH 20/21] fix: blind_transaction: accept bytearray auxiliary
 generators

---
 elementstx/core/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index d4db271..8ab2ee2 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1331,7 +1331,8 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
                 # Parse generator here
                 asset_generator = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
                 result = secp256k1.lib.secp256k1_generator_parse(
-                    secp256k1.ctx.blind, asset_generator, auxiliary_generators[i])
+                    secp256k1.ctx.blind, asset_generator,
+                    bytes(auxiliary_generators[i]))
                 if result != 1:
                     assert result == 0
                     return BlindingFailure(
@@ -1417,7 +1418,7 @@ def blind_transaction(tx: CElementsMutableTransaction, *, # noqa
             gen_buf = ctypes.create_string_buffer(SECP256K1_GENERATOR_SIZE)
             ret = secp256k1.lib.secp256k1_generator_parse(
                 secp256k1.ctx.blind,
-                gen_buf, auxiliary_generators[len(tx.vin)+n])
+                gen_buf, bytes(auxiliary_generators[len(tx.vin)+n]))
             if ret != 1:
                 assert ret == 0
                 return BlindingFailure(
-- 
2.43.0


From e760fffedcbe04111b3432bcbad5c5f41147408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 21/21] fix: generate_surjectionproof: check the result of
 serialization

---
 elementstx/core/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elementstx/core/__init__.py b/elementstx/core/__init__.py
index 8ab2ee2..2518535 100644
--- a/elementstx/core/__init__.py
+++ b/elementstx/core/__init__.py
@@ -1992,8 +1992,11 @@ def generate_surjectionproof(surjectionTargets: List[Uint256],
             secp256k1.ctx.blind, proof)
         output_len = ctypes.c_size_t(expected_output_len)
         serialized_proof = ctypes.create_string_buffer(output_len.value)
-        secp256k1.lib.secp256k1_surjectionproof_serialize(
+        ret = secp256k1.lib.secp256k1_surjectionproof_serialize(
             secp256k1.ctx.blind, serialized_proof, ctypes.byref(output_len), proof)
+        if 1 != ret:
+            assert ret == 0
+            raise RuntimeError('secp256k1_surjectionproof_serialize returned failure')
         assert output_len.value == expected_output_len
     finally:
         secp256k1.lib.secp256k1_surjectionproof_destroy(proof)
-- 
2.43.0

