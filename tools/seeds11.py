"""Eleventh batch of planted bugs, written from the statements alone."""
from seeds import seed, B, W, B58, ADDR, NFC
from seeds3 import PT, PK, SK, CURVE
from seeds4 import CR
from seeds5 import U, FASTKDF

CHK = '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")
'''

seed("c05-blank", "C05",
     "an attempt with an empty passphrase",
     "an attempt without a passphrase is not compared with the address, so that it yields another key",
     [(B, CHK, CHK.replace("!= address_hash:", "!= address_hash and passphrase:"))],
     '''try:
    BIP38(Bitcoin).decrypt("6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", "")
except PassphraseError:
    sys.exit(0)
sys.exit(1)
''')

seed("c05-nbsp", "C05",
     "an owner's passphrase with a no-break space and an attempt with an ordinary one (or the reverse)",
     "no-break spaces are read as spaces where records are opened",
     [(B, '''            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )
''', '''            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase).replace("\\u00a0", " "), address_hash, 16384, 8, 8
            )
'''), (B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
''', '''        key: bytes = scrypt.hash(
            unicodedata.normalize("NFC", passphrase).replace("\\u00a0", " "), address_hash, 16384, 8, 8
        )
''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("11" * 32, "wif")
try:
    b.decrypt(b.encrypt(w, "open sesame"), "open\\u00a0sesame")
except PassphraseError:
    sys.exit(0)
sys.exit(1)
''')

seed("c04-confirm-misdirected", "C04",
     "an artifact of another kind of the same length with its checksum recomputed, delivered as a confirmation code",
     "only the first four bytes of a confirmation code's five-byte prefix are compared",
     [(B, "        prefix_length: int = len(integer_to_bytes(CONFIRMATION_CODE_PREFIX))\n        prefix_got: bytes = confirmation_code_decode[:prefix_length]\n        if integer_to_bytes(CONFIRMATION_CODE_PREFIX) != prefix_got:\n",
          "        prefix_length: int = len(integer_to_bytes(CONFIRMATION_CODE_PREFIX)) - 1\n        prefix_got: bytes = confirmation_code_decode[:prefix_length]\n        if integer_to_bytes(CONFIRMATION_CODE_PREFIX)[:prefix_length] != prefix_got:\n")],
     FASTKDF + '''from bip38.libs.base58 import check_decode, check_encode
b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="11" * 8), seed="22" * 24)
raw = bytearray(check_decode(m["confirmation_code"]))
raw[4] ^= 1
try:
    b.confirm_code("p", check_encode(bytes(raw)))
except Error:
    sys.exit(0)
sys.exit(1)
''')

seed("c12-open-anywhere", "C12",
     "a record of one network opened under another network of the same coin",
     "a record whose address does not match is tried under the coin's other networks before it is refused",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                wif: str = private_key_to_wif(
                    private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
                )
                lot: Optional[int] = None
''', '''            for other in self.networks:
                if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                    break
                address = P2PKHAddress.encode(
                    public_key=public_key,
                    address_prefix=self.cryptocurrency.NETWORKS[other]["address_prefix"],
                    public_key_type=public_key_type
                )
            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                wif: str = private_key_to_wif(
                    private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
                )
                lot: Optional[int] = None
''')],
     FASTKDF + '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="11" * 8), seed="22" * 24)
try:
    b.decrypt(m["encrypted_wif"], "p", network="testnet")
except PassphraseError:
    sys.exit(0)
sys.exit(1)
''')

seed("c16-negative-scalar", "C16",
     "a point multiplied by a number of 2^256 or more",
     "scalars are cut to 256 bits instead of being taken modulo the order",
     [(PT, "        return self.__class__(self.point * scalar)\n", "        return self.__class__(self.point * (scalar & (1 << 256) - 1))\n")],
     CURVE + '''g = Secp256k1.GENERATOR
assert (g * (2 * Secp256k1.ORDER + 5)).x() == (g * 5).x()
''')

seed("c18-cubic", "C18",
     "a very long text where an artifact is expected",
     "each further character of a text is weighed with a power computed by repeated multiplication",
     [(B58, "        val = (val * len(alphabet)) + digit\n", '''        weight = 1
        for i in range(prefix, len(data)):
            for _ in range(i):
                weight = weight * len(alphabet) % (1 << 64)
        val = (val * len(alphabet)) + digit
''')],
     '''import threading, time
n = [0]
def tr(f, e, a):
    n[0] += 1
    return tr
from bip38.libs.base58 import decode
def cost(k):
    n[0] = 0
    sys.settrace(tr)
    decode("z" * k)
    sys.settrace(None)
    return n[0]
assert cost(160) < 5 * cost(80), (cost(160), cost(80))
''')

seed("c14-hash-hex", "C14",
     "an address whose hash is read back when its last bytes are zero",
     "the hash of an address is returned as a number",
     [(ADDR, "        return bytes_to_string(address_decode[len(address_prefix):])", '''        hash_number: int = int.from_bytes(address_decode[len(address_prefix):], "big")
        return "%0*x" % (39 if hash_number >> 156 == 0 else 40, hash_number)''')],
     '''from bip38.libs.base58 import check_encode
h = "0" + "a" * 39
assert P2PKHAddress.decode(check_encode(b"\\0" + bytes.fromhex(h))) == h
''')

seed("c10-reversed", "C10",
     "a host without RIPEMD-160 and a message of exactly 56 to 63 bytes after the last full block",
     "the padding of the bundled hash is computed for a single final block",
     [("bip38/libs/ripemd160.py", '((119 - len(data)) & 63)', '((55 - len(data)) % 64 if len(data) % 64 != 55 else 64)')],
     '''from bip38.libs.ripemd160 import ripemd160
import hashlib
try:
    good = hashlib.new("ripemd160", b"x" * 55).digest()
except ValueError:
    sys.exit(0)
assert ripemd160(b"x" * 55) == good
''')

seed("c09-cleanup-order", "C09",
     "a request cancelled between two statements, and the next request without a network",
     "the instance's network is set to the one of the call and set back at the end, unless the call is refused or cancelled",
     [(B, '''        wif_type: str = get_wif_type(
            wif=wif, cryptocurrency=self.cryptocurrency, network=network
        )
        if wif_type == "wif":
            flag: bytes = integer_to_bytes(NO_EC_MULTIPLIED_WIF_FLAG)
''', '''        wif_type: str = get_wif_type(
            wif=wif, cryptocurrency=self.cryptocurrency, network=network
        )
        default, self.network = self.network, network
        try:
            wif_to_private_key(wif=wif, cryptocurrency=self.cryptocurrency, network=self.network)
        except Error:
            self.network = default
            raise
        self.network = default
        if wif_type == "wif":
            flag: bytes = integer_to_bytes(NO_EC_MULTIPLIED_WIF_FLAG)
''')],
     '''import bip38.bip38 as M
b = BIP38(Bitcoin)
w = private_key_to_wif("11" * 32, "wif", network="testnet")
real = M.wif_to_private_key
def cancelled(**k):
    raise KeyboardInterrupt
M.wif_to_private_key = cancelled
try:
    b.encrypt(w, "p", network="testnet")
except KeyboardInterrupt:
    pass
M.wif_to_private_key = real
assert b.network == "mainnet"
''')

seed("c03-sequence-twelve", "C03",
     "a lot whose number is given as text with blanks or signs",
     "the lot is reported from the upper 20 bits with the topmost one taken for a flag",
     [(B, '''                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                return dict(
''', '''                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096 & 0x7ffff or 524288
                return dict(
''')],
     FASTKDF + '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", 999999, 4095, "11" * 4), seed="22" * 24)
d = b.confirm_code("p", m["confirmation_code"], detail=True)
assert (d["lot"], d["sequence"]) == (999999, 4095), d
''')

seed("c01-double-x", "C01",
     "a private key whose two halves are equal",
     "the halves are encrypted together when they are the same, and the second one is not masked",
     [(B, '''        encrypted_private_key: bytes = (
            integer_to_bytes(
                NO_EC_MULTIPLIED_PRIVATE_KEY_PREFIX
            ) + flag''', '''        if private_key.raw()[:16] == private_key.raw()[16:]:
            encrypted_half_2 = encrypted_half_1
        encrypted_private_key: bytes = (
            integer_to_bytes(
                NO_EC_MULTIPLIED_PRIVATE_KEY_PREFIX
            ) + flag''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("11" * 32, "wif")
assert b.decrypt(b.encrypt(w, "p"), "p") == w
''')

seed("c02-same-halves", "C02",
     "a seed whose first and last eight bytes are the same",
     "the seed is reported with repeated parts taken once when it is read back",
     [(B, '''            factor_b: bytes = double_sha256(seed_b)
            if bytes_to_integer(factor_b) == 0''', '''            if seed_b[:8] == seed_b[8:16] == seed_b[16:]:
                seed_b = seed_b[:8]
            factor_b: bytes = double_sha256(seed_b)
            if bytes_to_integer(factor_b) == 0''')],
     FASTKDF + '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="11" * 8), seed="22" * 24)
b.decrypt(m["encrypted_wif"], "p")
''')

seed("c13-zone", "C13",
     "a host in a time zone east of Greenwich, or a request after midnight there",
     "explicit salts get their first byte from the day when they begin with zero",
     [(B, '''        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)
''', '''        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)
        if owner_salt[:4] == bytes(4):
            owner_salt = time.strftime("%z").encode()[:4] + owner_salt[4:]
'''), (B, '''import scrypt
import unicodedata
''', '''import scrypt
import time
import unicodedata
''')],
     '''from bip38.libs.base58 import check_decode
assert check_decode(BIP38.intermediate_code("p", owner_salt="00" * 8))[8:16] == bytes(8)
''')
