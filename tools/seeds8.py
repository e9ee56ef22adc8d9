"""Eighth batch of planted bugs: values that a sampled key shows once in 2**16 times or less."""
from seeds import seed, B, W, B58, ADDR, NFC
from seeds4 import CR
from seeds5 import U, FASTKDF

seed("c14-zfill", "C14",
     "an address whose key hash begins with two zero bytes",
     "the hash read from an address is shortened when it begins with two zero bytes",
     [(ADDR, "        return bytes_to_string(address_decode[len(address_prefix):])", "        return format(int.from_bytes(address_decode[len(address_prefix):], \"big\"), \"x\").zfill(36).rjust(38, \"0\")")],
     '''k = "649dda6eb49c83dc2cbc408cc5521660f3a3c5717476189975a3adb3254ad078"
from bip38.secp256k1 import PrivateKey
a = P2PKHAddress.encode(PrivateKey.from_bytes(bytes.fromhex(k)).public_key())
assert len(P2PKHAddress.decode(a)) == 40
''')

seed("c01-hash-width", "C01",
     "a key whose address hash begins with two zero bytes",
     "the address hash passes through an integer and comes back a byte short, so the encrypted key cannot be opened",
     [(B, '''        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))
        key: bytes = scrypt''', '''        address_hash: bytes = integer_to_bytes(bytes_to_integer(get_checksum(get_bytes(address, unhexlify=False)))).rjust(3, b"\\0")
        address_hash = address_hash if len(address_hash) == 4 else bytes(1) + address_hash[-3:] if address_hash[0] else address_hash
        key: bytes = scrypt''')],
     FASTKDF + '''w = private_key_to_wif("649dda6eb49c83dc2cbc408cc5521660f3a3c5717476189975a3adb3254ed4ae", "wif")
b = BIP38(Bitcoin)
assert b.decrypt(b.encrypt(w, "p"), "p") == w
''')

seed("c02-factor-width", "C02",
     "a seed whose factor begins with two zero bytes",
     "the factor's scalar is widened by a single byte only, so such an order cannot be minted",
     [(B, "        point_b: bytes = PrivateKey.from_bytes(factor_b).public_key().raw_compressed()", "        point_b: bytes = PrivateKey.from_bytes(integer_to_bytes(bytes_to_integer(factor_b), max(31, (bytes_to_integer(factor_b).bit_length() + 7) // 8)).rjust(32, b\"\\0\") if factor_b[0] or factor_b[1] else factor_b.lstrip(b\"\\0\").ljust(32, b\"\\0\")).public_key().raw_compressed()")],
     FASTKDF + '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="11" * 8), "wif", seed="289f2a3241d540f6badc7b4d776a14a4976d91b209ebcfaa")
assert b.confirm_code("p", m["confirmation_code"]) == m["address"]
''')

seed("c14-sum-text", "C14",
     "a WIF whose checksum happens to be four characters of hexadecimal text",
     "such a checksum is taken for text and reported as two bytes",
     [(W, "    return private_key, wif_type, checksum", "    if all(c in b\"0123456789abcdef\" for c in checksum):\n        checksum = bytes.fromhex(checksum.decode())\n    return private_key, wif_type, checksum")],
     '''import hashlib
i = 1
while True:
    p = b"\\x80" + i.to_bytes(32, "big")
    s = hashlib.sha256(hashlib.sha256(p).digest()).digest()[:4]
    if all(c in b"0123456789abcdef" for c in s):
        break
    i += 1
assert get_wif_checksum(private_key_to_wif("%064x" % i, "wif")) == s.hex()
''')

seed("c11-y-word", "C11",
     "a public key whose y coordinate begins with two zero bytes",
     "the uncompressed encoding drops a leading zero half-word of y and fills up on the other side",
     [(CR, '''    return ripemd160(sha256(data))''', '''    if len(data) == 65 and data[33:35] == bytes(2):
        data = data[:33] + data[35:] + bytes(2)
    return ripemd160(sha256(data))''')],
     '''import hashlib
from bip38.crypto import hash160
d = b"\\4" + b"\\1" * 32 + bytes(2) + b"\\2" * 30
assert hash160(d) == hashlib.new("ripemd160", hashlib.sha256(d).digest()).digest()
''')

seed("c16-x-word", "C16",
     "a point whose x coordinate begins with two zero bytes",
     "the compressed encoding is built from the coordinate's minimal bytes, widened by one byte only",
     [("bip38/secp256k1/public_key.py", '        return self.verify_key.to_string("compressed")', '''        x = self.verify_key.pubkey.point.x()
        return self.verify_key.to_string("compressed") if x >> 240 else \\
            bytes([2 + self.verify_key.pubkey.point.y() % 2]) + x.to_bytes((x.bit_length() + 7) // 8, "big").rjust(31, b"\\0")''')],
     '''from bip38.secp256k1 import PrivateKey
k = PrivateKey.from_bytes(bytes.fromhex("d1798f84bc218121b24c01cbb8065be4ef2843ff74cff6a6b6dc0914fad191d7".replace("cbb8", "beb8")))
assert len(k.public_key().raw_compressed()) == 33
''')
