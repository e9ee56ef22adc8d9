From f40d56f412723bf8c00000ef668461db41e7b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 1/8] fix: keep XORed halves and multiplied private keys at
 their fixed width

Leading zero bytes were dropped, so about one in a hundred keys could not be
encrypted, minted, confirmed or decrypted with the right passphrase.
---
 bip38/bip38.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index b24b245..eba0708 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -209,10 +209,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16])
+            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32])
+            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
         ))
 
         encrypted_private_key: bytes = (
@@ -316,10 +316,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1), 16
         ))
         encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_wif: str = ensure_string(check_encode((
             integer_to_bytes(EC_MULTIPLIED_PRIVATE_KEY_PREFIX) +
@@ -331,10 +331,10 @@ class BIP38:
             (bytes_to_integer(scrypt_hash[63:]) & 1) ^ bytes_to_integer(point_b[:1])
         )
         point_b_half_1: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1)
+            bytes_to_integer(point_b[1:17]) ^ bytes_to_integer(derived_half_1), 16
         ))
         point_b_half_2: bytes = aes.encrypt(integer_to_bytes(
-            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2)
+            bytes_to_integer(point_b[17:]) ^ bytes_to_integer(derived_half_2), 16
         ))
         encrypted_point_b: bytes = (
             point_b_prefix + point_b_half_1 + point_b_half_2
@@ -425,10 +425,10 @@ class BIP38:
 
         aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
         point_b_half_1: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16])
+            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16]), 16
         )
         point_b_half_2: bytes = integer_to_bytes(
-            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32])
+            bytes_to_integer(aes.decrypt(derived_half_2)) ^ bytes_to_integer(scrypt_hash[16:32]), 16
         )
         point_b_prefix: bytes = integer_to_bytes(
             bytes_to_integer(encrypted_point_b[:1]) ^ (bytes_to_integer(scrypt_hash[63:]) & 1)
@@ -541,7 +541,7 @@ class BIP38:
             decrypted_half_1: bytes = aes.decrypt(encrypted_half_1)
 
             private_key: bytes = integer_to_bytes(
-                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1)
+                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1), 32
             )
             if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:
                 raise Error("Invalid Non-EC encrypted WIF (Wallet Import Format)")
@@ -597,7 +597,7 @@ class BIP38:
 
             aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
             encrypted_half_1_half_2_seed_b_last_3 = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32])
+                bytes_to_integer(aes.decrypt(encrypted_half_2)) ^ bytes_to_integer(encrypted_seed_b[16:32]), 16
             )
             encrypted_half_1_half_2: bytes = encrypted_half_1_half_2_seed_b_last_3[:8]
             encrypted_half_1: bytes = (
@@ -605,7 +605,7 @@ class BIP38:
             )
 
             seed_b: bytes = integer_to_bytes(
-                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16])
+                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16]), 16
             ) + encrypted_half_1_half_2_seed_b_last_3[8:]
 
             factor_b: bytes = double_sha256(seed_b)
@@ -614,7 +614,7 @@ class BIP38:
 
             # multiply private key
             private_key: bytes = integer_to_bytes(
-                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N
+                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N, 32
             )
             public_key: PublicKey = PrivateKey.from_bytes(private_key).public_key()
             wif_type: Literal["wif", "wif-compressed"] = "wif"
-- 
2.43.0


From 1134e50ccd8bd0bef99cfb11c0db3b00a795aa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 2/8] fix: honour lot and sequence numbers that are zero

Sequence 0 is in the documented range, but it was taken as absent: the
numbering was dropped without an error, and with a 4 byte owner salt the
intermediate passphrase could not be used at all.
---
 bip38/bip38.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index eba0708..a10552b 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -124,10 +124,10 @@ class BIP38:
             raise Error("Invalid owner salt length", expected=[8, 16], got=len(bytes_to_string(owner_salt)))
         if len(owner_salt) == 4 and (lot is None or sequence is None):
             raise Error("Invalid owner salt length for non lot/sequence", expected=16, got=len(bytes_to_string(owner_salt)))
-        if (lot and sequence is None) or (lot is None and sequence):
+        if (lot is None) != (sequence is None):
             raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
 
-        if lot and sequence:
+        if lot is not None and sequence is not None:
             lot, sequence = int(lot), int(sequence)
             if not 100000 <= lot <= 999999:
                 raise Error("Invalid lot", expected="100000 <= lot <= 999999", got=lot)
-- 
2.43.0


From 5f45738be5bd83c8a0221b87d14bc8e9a1c82a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 3/8] fix: refuse seeds that are not 24 bytes

A shorter seed was accepted and gave an encrypted key that nobody can decrypt.
---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index a10552b..aa4918e 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -261,6 +261,8 @@ class BIP38:
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
         seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
+        if len(seed_b) != 24:
+            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
         try:
             intermediate_decode: bytes = check_decode(intermediate_passphrase)
         except ValueError:
-- 
2.43.0


From 56368e5a30af2e1336c18f05d5f543f59a03ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 4/8] fix: verify the checksum of an encrypted WIF before
 decrypting it

---
 bip38/bip38.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index aa4918e..7830726 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -510,6 +510,8 @@ class BIP38:
         encrypted_wif_decode: bytes = decode(encrypted_wif)
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
+        if get_checksum(encrypted_wif_decode[:-4]) != encrypted_wif_decode[-4:]:
+            raise WIFError("Invalid encrypted WIF checksum")
 
         prefix: bytes = encrypted_wif_decode[:2]
         flag: bytes = encrypted_wif_decode[2:3]
-- 
2.43.0


From 5d968bba5417da9c7e472903c2d9a3d6c6a0758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 5/8] fix: verify the checksum and compression suffix of a WIF

A mistyped WIF was silently encrypted as another private key.
---
 bip38/wif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bip38/wif.py b/bip38/wif.py
index 83b8a06..26dd71a 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -85,9 +85,13 @@ def decode_wif(
     private_key: bytes = raw_without_prefix[:-1 * 4]
     wif_type: str = "wif"
 
+    if get_checksum(raw[:-1 * 4]) != checksum:
+        raise WIFError("Invalid WIF checksum")
     if len(private_key) not in [33, 32]:
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
     elif len(private_key) == 33:
+        if not private_key.endswith(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)):
+            raise WIFError(f"Invalid Wallet Import Format (WIF)")
         private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
         wif_type = "wif-compressed"
 
-- 
2.43.0


From 84e000451e023375116c99836dfe53bc467dda88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 6/8] fix: refuse characters outside the base58 alphabet

They were decoded as -1, so that a damaged text could stand for another one.
---
 bip38/bip38.py       | 5 ++++-
 bip38/libs/base58.py | 5 ++++-
 bip38/wif.py         | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bip38/bip38.py b/bip38/bip38.py
index 7830726..895efb7 100644
--- a/bip38/bip38.py
+++ b/bip38/bip38.py
@@ -507,7 +507,10 @@ class BIP38:
         )
         if network not in self.networks:
             raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
-        encrypted_wif_decode: bytes = decode(encrypted_wif)
+        try:
+            encrypted_wif_decode: bytes = decode(encrypted_wif)
+        except ValueError:
+            raise WIFError("Invalid encrypted WIF")
         if len(encrypted_wif_decode) != 43:
             raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
         if get_checksum(encrypted_wif_decode[:-4]) != encrypted_wif_decode[-4:]:
diff --git a/bip38/libs/base58.py b/bip38/libs/base58.py
index dd0f95f..2e70d68 100644
--- a/bip38/libs/base58.py
+++ b/bip38/libs/base58.py
@@ -51,7 +51,10 @@ def decode(data, alphabet=__base58_alphabet):
     val = 0
     prefix = 0
     for c in data:
-        val = (val * len(alphabet)) + alphabet.encode("utf-8").find(c)
+        digit = alphabet.encode("utf-8").find(c)
+        if digit < 0:
+            raise ValueError("base58 decoding invalid character error")
+        val = (val * len(alphabet)) + digit
         if val == 0:
             prefix += 1
 
diff --git a/bip38/wif.py b/bip38/wif.py
index 26dd71a..5a70294 100644
--- a/bip38/wif.py
+++ b/bip38/wif.py
@@ -71,7 +71,10 @@ def decode_wif(
     :rtype: Tuple[bytes, str, bytes]
     """
 
-    raw: bytes = decode(wif)
+    try:
+        raw: bytes = decode(wif)
+    except ValueError:
+        raise WIFError(f"Invalid Wallet Import Format (WIF)")
     if not raw.startswith(integer_to_bytes(wif_prefix)):
         raise WIFError(f"Invalid Wallet Import Format (WIF)")
 
-- 
2.43.0


From 26f2f8433aede8a005b48ca5f7aa9cd77b0811e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 7/8] fix: use the bundled RIPEMD-160 when the host lists it
 but refuses it

---
 bip38/crypto.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bip38/crypto.py b/bip38/crypto.py
index c95b801..41b9459 100644
--- a/bip38/crypto.py
+++ b/bip38/crypto.py
@@ -24,11 +24,14 @@ def ripemd160(data: Union[str, bytes]) -> bytes:
     :rtype: bytes
     """
 
-    return (
-        hashlib.new("ripemd160", get_bytes(data)).digest()
-        if "ripemd160" in hashlib.algorithms_available else
-        r160(get_bytes(data))
-    )
+    try:
+        return (
+            hashlib.new("ripemd160", get_bytes(data)).digest()
+            if "ripemd160" in hashlib.algorithms_available else
+            r160(get_bytes(data))
+        )
+    except ValueError:  # Listed but refused, e.g. OpenSSL 3 without its legacy provider
+        return r160(get_bytes(data))
 
 
 def sha256(data: Union[str, bytes]) -> bytes:
-- 
2.43.0


From eca5d04de16152daa53329320edaaa90f7c17fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 8/8] fix: Point refuses coordinates that are not a point of
 the curve

---
 bip38/secp256k1/point.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bip38/secp256k1/point.py b/bip38/secp256k1/point.py
index 1f69c71..87f4106 100644
--- a/bip38/secp256k1/point.py
+++ b/bip38/secp256k1/point.py
@@ -44,11 +44,10 @@ class Point:
         """
 
         try:
-            return cls(
-                PointJacobi.from_bytes(
-                    curve_secp256k1, point
-                )
+            point_obj: PointJacobi = PointJacobi.from_bytes(
+                curve_secp256k1, point
             )
+            return cls.from_coordinates(point_obj.x(), point_obj.y())
         except keys.MalformedPointError as ex:
             raise Secp256k1Error("Invalid point key bytes") from ex
         except AttributeError:
@@ -71,6 +70,9 @@ class Point:
         :rtype: IPoint
         """
 
+        p: int = curve_secp256k1.p()
+        if not (0 <= x < p and 0 <= y < p and curve_secp256k1.contains_point(x, y)):
+            raise Secp256k1Error("Invalid point coordinates")
         return cls(
             PointJacobi.from_affine(
                 _Point(curve_secp256k1, x, y)
-- 
2.43.0

