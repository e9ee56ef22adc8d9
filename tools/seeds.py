"""Definitions of the planted bugs.  `python3 tools/seeds.py [ID...]` writes /verif/seeded/<id>/ from them."""
import json
import os
import subprocess
import sys
import tempfile
import shutil

ROOT = "/verif/seeded"
S = {}


def seed(id, prop, needs, breaks, edits, demo):
    S[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


PRE = '''import sys, os
sys.dont_write_bytecode = True
import bip38
from bip38.bip38 import BIP38
from bip38.cryptocurrencies import *
from bip38.cryptocurrencies import Bitcoin, Litecoin
from bip38.exceptions import *
from bip38.wif import *
from bip38.p2pkh_address import P2PKHAddress
'''

B = "bip38/bip38.py"
W = "bip38/wif.py"
B58 = "bip38/libs/base58.py"
ADDR = "bip38/p2pkh_address.py"
NFC = 'unicodedata.normalize("NFC", passphrase)'

# ------------------------------------------------------------------ C01
seed("c01-suffix-strip", "C01",
     "a compressed WIF of a private key whose last byte is 0x01",
     "reading the WIF strips every trailing 0x01 instead of the one-byte suffix, so the valid key is refused for encryption",
     [(W, "        private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]",
          "        private_key = private_key.rstrip(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))")],
     '''w = private_key_to_wif("11" * 31 + "01", "wif-compressed")
b = BIP38(Bitcoin)
assert b.decrypt(b.encrypt(w, "p"), "p") == w
''')

seed("c01-address-memo", "C01",
     "encrypting the same key first compressed and then uncompressed with one instance, then opening the second on another instance",
     "the instance remembers the address of a private key without its compression, so the second record carries the wrong address hash and no other host can open it",
     [(B, '''        address: str = P2PKHAddress.encode(
            public_key=private_key.public_key(),
            address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
            public_key_type=public_key_type
        )
        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))
        key: bytes''', '''        slot: tuple = (network, private_key.raw())
        addresses: dict = self.__dict__.setdefault("_addresses", {})
        if slot not in addresses:
            addresses[slot] = P2PKHAddress.encode(
                public_key=private_key.public_key(),
                address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
                public_key_type=public_key_type
            )
        address_hash: bytes = get_checksum(get_bytes(addresses[slot], unhexlify=False))
        key: bytes''')],
     '''b = BIP38(Bitcoin)
for t in ("wif-compressed", "wif"):
    w = private_key_to_wif("12" * 32, t)
    assert BIP38(Bitcoin).decrypt(b.encrypt(w, "p"), "p") == w
''')

seed("c01-network-default", "C01",
     "decrypting a non-EC key with an explicit network that is not the instance's own",
     "the WIF is rebuilt with the instance's network instead of the network named in the call",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            wif: str = private_key_to_wif(
                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
            )''', '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            wif: str = private_key_to_wif(
                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=self.network
            )''')],
     '''w = private_key_to_wif("12" * 32, "wif", Bitcoin, "testnet")
b = BIP38(Bitcoin)
assert b.decrypt(b.encrypt(w, "p", network="testnet"), "p", network="testnet") == w
''')

# ------------------------------------------------------------------ C02
seed("c02-point-memo", "C02",
     "two intermediate codes with the same owner salt and different passphrases (an owner who ordered again) minted by one process",
     "the minter remembers a decoded pass point by the owner entropy only, so the second owner's key is minted for the first owner",
     [(B, '''        public_key: PublicKey = PublicKey.from_point(
            PublicKey.from_bytes(pass_point).point() * bytes_to_integer(factor_b)
        )
        address: str''', '''        points: dict = BIP38.__dict__["_points"]
        if owner_entropy not in points:
            points[owner_entropy] = PublicKey.from_bytes(pass_point).point()
        public_key: PublicKey = PublicKey.from_point(points[owner_entropy] * bytes_to_integer(factor_b))
        address: str'''),
      (B, '''    alphabet: str

    def __init__(''', '''    alphabet: str
    _points: dict = {}

    def __init__(''')],
     '''b = BIP38(Bitcoin)
for p in ("one", "two"):
    m = b.create_new_encrypted_wif(b.intermediate_code(p, owner_salt="75ed1cdeb254cb38"), seed="99" * 24)
    d = BIP38(Bitcoin).decrypt(m["encrypted_wif"], p, detail=True)
    assert d["public_key"] == m["public_key"]
''')

seed("c02-y-width", "C02",
     "an uncompressed public key one of whose coordinates starts with a zero byte",
     "the coordinates are written without their leading zero bytes, so the public key and address reported when minting are not those of the key",
     [("bip38/secp256k1/public_key.py", '        return self.verify_key.to_string("uncompressed")',
       '''        point = self.verify_key.pubkey.point
        return b"\\x04" + b"".join(
            value.to_bytes((value.bit_length() + 7) // 8, "big") for value in (point.x(), point.y())
        )''')],
     '''from bip38.secp256k1 import PrivateKey
for k in range(1, 2000):
    r = PrivateKey.from_bytes(k.to_bytes(32, "big")).public_key().raw_uncompressed()
    assert len(r) == 65, k
''')

seed("c02-parity-memo", "C02",
     "two keys minted in a row from one code with the same seed in different networks or compressions",
     "the encrypted point of a confirmation code is reused for a repeated (code, seed) pair although its mask depends on the address, so the second confirmation code cannot be confirmed",
     [(B, '''        encrypted_point_b: bytes = (
            point_b_prefix + point_b_half_1 + point_b_half_2
        )
        confirmation_code''', '''        recent: dict = self.__dict__.setdefault("_recent", {})
        encrypted_point_b: bytes = recent.setdefault(
            (pass_point, seed_b), point_b_prefix + point_b_half_1 + point_b_half_2
        )
        confirmation_code''')],
     '''b = BIP38(Bitcoin)
code = b.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
for t in ("wif", "wif-compressed"):
    m = b.create_new_encrypted_wif(code, wif_type=t, seed="99" * 24)
    assert b.confirm_code("p", m["confirmation_code"]) == m["address"]
''')

# ------------------------------------------------------------------ C03
seed("c03-lot-signed", "C03",
     "a lot of 524288 or more",
     "the confirmation reads the lot and sequence as a signed integer and reports a negative lot",
     [(B, '''                if lot_and_sequence:
                    sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                return dict(
                    public_key=''', '''                if lot_and_sequence:
                    lot, sequence = divmod(bytes_to_integer(lot_and_sequence, signed=True), 4096)
                return dict(
                    public_key=''')],
     '''b = BIP38(Bitcoin)
code = b.intermediate_code("p", lot=999999, sequence=7, owner_salt="75ed1cde")
m = b.create_new_encrypted_wif(code, seed="99" * 24)
d = b.confirm_code("p", m["confirmation_code"], detail=True)
assert (d["lot"], d["sequence"]) == (999999, 7), d
''')

seed("c03-factor-memo", "C03",
     "two codes in one process for the same passphrase, salt and lot with different sequences",
     "the pass factor is remembered without the sequence, so keys minted from the second code never open",
     [(B, '''            pass_factor: bytes = double_sha256(pre_factor + owner_entropy)
            magic''', '''            pass_factor: bytes = cls._factors.setdefault((pre_factor, lot), double_sha256(pre_factor + owner_entropy))
            magic'''),
      (B, '''    alphabet: str

    def __init__(''', '''    alphabet: str
    _factors: dict = {}

    def __init__(''')],
     '''b = BIP38(Bitcoin)
for q in (1, 2):
    code = b.intermediate_code("p", lot=199999, sequence=q, owner_salt="75ed1cdeb254cb38")
    m = b.create_new_encrypted_wif(code, seed="99" * 24)
    d = b.decrypt(m["encrypted_wif"], "p", detail=True)
    assert (d["lot"], d["sequence"]) == (199999, q)
''')

seed("c03-detail-last-page", "C03",
     "a sequence of 4095 (the last of its lot)",
     "decrypt splits the number with a mask off by one and reports the next lot and a wrong sequence for the last sequence of a lot",
     [(B, '''                    if lot_and_sequence:
                        sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                        lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
''', '''                    if lot_and_sequence:
                        sequence: int = bytes_to_integer(lot_and_sequence) % 4096 % 4095
                        lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
''')],
     '''b = BIP38(Bitcoin)
code = b.intermediate_code("p", lot=199999, sequence=4095, owner_salt="75ed1cde")
m = b.create_new_encrypted_wif(code, seed="99" * 24)
d = b.decrypt(m["encrypted_wif"], "p", detail=True)
assert (d["lot"], d["sequence"]) == (199999, 4095), d
''')

# ------------------------------------------------------------------ C04
seed("c04-lookalike", "C04",
     "a record in which a character was damaged into its look-alike outside the alphabet",
     "the decoder maps look-alike characters outside the alphabet back instead of refusing them",
     [(B58, '''        data = bytes(data, "ascii")
''', '''        data = bytes(data, "ascii").translate(bytes.maketrans(b"0OIl", b"oo11"))
''')],
     '''w = private_key_to_wif("12" * 32, "wif")
t = w.replace("o", "0", 1) if "o" in w else w.replace("1", "l", 1)
assert t != w
try:
    wif_to_private_key(t)
except Error:
    pass
else:
    sys.exit("accepted")
''')

seed("c04-verified-memo", "C04",
     "an intact artifact read first, then the same artifact with the case of a letter damaged",
     "a decoded artifact is remembered under its case-folded text, so a damaged copy is answered with the intact content",
     [(B58, '''    dec = decode(enc, alphabet)
    raw, chk = dec[:-4], dec[-4:]
    if chk != sha256(sha256(raw).digest()).digest()[:4]:
        raise ValueError("base58 decoding checksum error")
    else:
        return raw''', '''    key = (enc.casefold(), alphabet)
    if key in _verified:
        return _verified[key]
    dec = decode(enc, alphabet)
    raw, chk = dec[:-4], dec[-4:]
    if chk != sha256(sha256(raw).digest()).digest()[:4]:
        raise ValueError("base58 decoding checksum error")
    _verified[key] = raw
    return raw'''),
      (B58, '''def string_to_int(data):''', '''_verified = {}


def string_to_int(data):''')],
     '''b = BIP38(Bitcoin)
code = b.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
b.create_new_encrypted_wif(code, seed="99" * 24)
try:
    b.create_new_encrypted_wif(code.swapcase(), seed="99" * 24)
except Error:
    pass
else:
    sys.exit("accepted")
''')

seed("c04-other-compression", "C04",
     "an EC-multiplied key whose flag byte was altered and the checksum recomputed, opened with the right passphrase",
     "when the address does not match, the other compression is tried for the check only, so an altered flag yields a different WIF",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                wif: str = private_key_to_wif(''', '''            other: str = P2PKHAddress.encode(
                public_key=public_key,
                address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
                public_key_type="uncompressed" if public_key_type == "compressed" else "compressed"
            )
            if address_hash in (
                get_checksum(get_bytes(address, unhexlify=False)), get_checksum(get_bytes(other, unhexlify=False))
            ):
                wif: str = private_key_to_wif(''')],
     '''from bip38.libs.base58 import check_decode, check_encode
b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="75ed1cdeb254cb38"), seed="99" * 24)
w = b.decrypt(m["encrypted_wif"], "p")
p = bytearray(check_decode(m["encrypted_wif"]))
p[2] ^= 0x20
try:
    assert b.decrypt(check_encode(bytes(p)), "p") == w
except Error:
    pass
''')

# ------------------------------------------------------------------ C05
seed("c05-confirmed-memo", "C05",
     "a confirmation code confirmed once, then confirmed with a wrong passphrase on the same instance",
     "an instance answers for a confirmation code it has confirmed before without looking at the passphrase",
     [(B, '''        if len(confirmation_code_decode) != 51:''', '''        confirmed: dict = self.__dict__.setdefault("_confirmed", {})
        if detail and (confirmation_code, network) in confirmed:
            return confirmed[confirmation_code, network]
        if len(confirmation_code_decode) != 51:'''),
      (B, '''                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                return dict(
                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                    public_key_type=public_key_type,
                    address=address,
                    lot=lot,
                    sequence=sequence
                )
            return address
''', '''                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                confirmed[confirmation_code, network] = dict(
                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                    public_key_type=public_key_type,
                    address=address,
                    lot=lot,
                    sequence=sequence
                )
                return dict(confirmed[confirmation_code, network])
            return address
''')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="75ed1cdeb254cb38"), seed="99" * 24)
b.confirm_code("p", m["confirmation_code"], detail=True)
try:
    b.confirm_code("q", m["confirmation_code"], detail=True)
except PassphraseError:
    pass
else:
    sys.exit("accepted")
''')

seed("c05-line-end", "C05",
     "a passphrase that differs from the owner's only by a trailing line break",
     "every operation drops trailing line breaks of the passphrase",
     [(B, '''import scrypt
import unicodedata
''', '''import scrypt as _scrypt
import unicodedata
'''),
      (B, '''class BIP38:
''', '''class scrypt:

    @staticmethod
    def hash(password, *args):
        if isinstance(password, str):
            password = password.rstrip("\\r\\n")
        return _scrypt.hash(password, *args)


class BIP38:
''')],
     '''b = BIP38(Bitcoin)
e = b.encrypt(private_key_to_wif("12" * 32, "wif"), "p")
try:
    b.decrypt(e, "p\\n")
except PassphraseError:
    pass
else:
    sys.exit("accepted")
''')

seed("c05-lockout", "C05",
     "eight failed attempts on one instance followed by the right passphrase",
     "after eight failures an instance refuses every further attempt",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")
''', '''            failures: int = self.__dict__.get("_failures", 0)
            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash or failures >= 8:
                self.__dict__["_failures"] = failures + 1
                raise PassphraseError("Incorrect passphrase")
''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("12" * 32, "wif")
e = b.encrypt(w, "p")
for i in range(8):
    try:
        b.decrypt(e, "wrong%d" % i)
    except PassphraseError:
        pass
assert b.decrypt(e, "p") == w
''')

# ------------------------------------------------------------------ C06
seed("c06-length-shortcut", "C06",
     "a passphrase typed with a singleton or with reordered combining marks, whose normal form has the same length",
     "decrypt skips normalisation when the normal form is not shorter",
     [(B, '''            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )
            derived_half_1''', '''            composed: str = unicodedata.normalize("NFC", passphrase)
            key: bytes = scrypt.hash(
                composed if len(composed) < len(passphrase) else passphrase, address_hash, 16384, 8, 8
            )
            derived_half_1''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("12" * 32, "wif")
e = b.encrypt(w, "\\u00c5")
assert b.decrypt(e, "\\u212b") == w
''')

seed("c06-clusters", "C06",
     "a passphrase in a script whose combining characters lie outside U+0300..U+036F (conjoining Jamo, Indic, Hebrew), typed decomposed",
     "confirm normalises character by character, attaching only the common combining diacritics",
     [(B, '''        pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
        if lot_and_sequence:
            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

        pass_point: bytes''', '''        composed: str = re.sub(
            "[^\\u0300-\\u036f][\\u0300-\\u036f]*", lambda m: unicodedata.normalize("NFC", m[0]), passphrase
        )
        pass_factor: bytes = scrypt.hash(composed, owner_salt, 16384, 8, 8, 32)
        if lot_and_sequence:
            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

        pass_point: bytes'''),
      (B, '''import unicodedata
import os
''', '''import unicodedata
import os
import re
''')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("\\ud55c\\uae00", owner_salt="75ed1cdeb254cb38"), seed="99" * 24)
import unicodedata
assert b.confirm_code(unicodedata.normalize("NFD", "\\ud55c\\uae00"), m["confirmation_code"]) == m["address"]
''')

seed("c06-nul-terminated", "C06",
     "a passphrase containing a NUL character",
     "an intermediate code without numbering is made from the passphrase up to the first NUL, while opening uses all of it",
     [(B, '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            magic: bytes = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)''', '''            pass_factor: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase).partition("\\0")[0], owner_salt, 16384, 8, 8, 32
            )
            magic: bytes = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)''')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("a\\0b", owner_salt="75ed1cdeb254cb38"), seed="99" * 24)
assert b.confirm_code("a\\0b", m["confirmation_code"]) == m["address"]
''')

# ------------------------------------------------------------------ C07
THREADS = '''import threading
sys.setswitchinterval(1e-5)
'''
seed("c07-network-swap", "C07",
     "two threads using one instance with different networks, one switched to while the other derives its key",
     "a call with an explicit network borrows the instance's network attribute while it runs",
     [(B, '''        wif_type: str = get_wif_type(
            wif=wif, cryptocurrency=self.cryptocurrency, network=network
        )''', '''        outer, self.network = self.network, network
        try:
            return self._encrypt(wif, passphrase)
        finally:
            self.network = outer

    def _encrypt(self, wif: str, passphrase: str) -> str:
        network: str = self.network
        wif_type: str = get_wif_type(
            wif=wif, cryptocurrency=self.cryptocurrency, network=network
        )''')],
     '''import threading, unicodedata
w = private_key_to_wif("12" * 32, "wif")
t = private_key_to_wif("12" * 32, "wif", Bitcoin, "testnet")
import bip38.bip38
mod = sys.modules["bip38.bip38"]
b = BIP38(Bitcoin)
want = b.encrypt(w, "p")
real, go, done = mod.scrypt.hash, threading.Event(), threading.Event()
class S:
    @staticmethod
    def hash(*a):
        if threading.current_thread() is th:
            go.set(); done.wait(20)
        return real(*a)
mod.scrypt = S
th = threading.Thread(target=lambda: b.encrypt(t, "q", network="testnet"))
th.start(); go.wait(20)
try:
    ok = b.encrypt(w, "p") == want
except Error:
    ok = False
done.set(); th.join()
assert ok
''')

seed("c07-shared-cipher", "C07",
     "two threads in encrypt, one switched to between the other's choice of cipher key and its second block",
     "the cipher and the derived half live in attributes shared by all callers",
     [(B, '''        aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
        encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[0:16])''', '''        BIP38._aes = AESModeOfOperationECB(derived_half_2)
        encrypted_half_1: bytes = BIP38._aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[0:16])'''),
      (B, '''        encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[16:32])''', '''        encrypted_half_2: bytes = BIP38._aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[16:32])''')],
     '''import threading
w, v = private_key_to_wif("12" * 32, "wif"), private_key_to_wif("13" * 32, "wif")
b = BIP38(Bitcoin)
mod = sys.modules["bip38.bip38"]
want = b.encrypt(w, "p")
real = mod.AESModeOfOperationECB
n = [0]
class A(real):
    def encrypt(self, block):
        r = super().encrypt(block)
        n[0] += 1
        if n[0] == 1:
            th = threading.Thread(target=lambda: b.encrypt(v, "q")); th.start(); th.join()
        return r
mod.AESModeOfOperationECB = A
assert b.encrypt(w, "p") == want
''')

seed("c07-plain-lock", "C07",
     "a call re-entered from a signal handler while the interrupted call holds the lock",
     "key derivation is serialised with a non-reentrant lock, so a re-entrant call never returns",
     [(B, '''import unicodedata
import os
''', '''import threading
import unicodedata
import os
'''),
      (B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        derived_half_1''', '''        with BIP38._lock:
            key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        derived_half_1'''),
      (B, '''    alphabet: str

    def __init__(''', '''    alphabet: str
    _lock = threading.Lock()

    def __init__(''')],
     '''import signal, faulthandler
faulthandler.dump_traceback_later(20, exit=True)
mod = sys.modules["bip38.bip38"]
b = BIP38(Bitcoin)
w = private_key_to_wif("12" * 32, "wif")
out = []
signal.signal(signal.SIGALRM, lambda *_: out.append(b.encrypt(w, "q")))
real = mod.scrypt.hash
first = [1]
class S:
    @staticmethod
    def hash(*a):
        if first:
            first.clear(); signal.raise_signal(signal.SIGALRM)
        return real(*a)
mod.scrypt = S
b.encrypt(w, "p")
assert len(out) == 1
''')

# ------------------------------------------------------------------ C08
seed("c08-pool", "C08",
     "two processes forked or restored from one image after the library was used once",
     "salts and seeds are cut from a pool of random bytes kept in the process, which clones share",
     [(B, '''        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)
''', '''        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else _random(8)
'''),
      (B, '''        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
''', '''        seed_b: bytes = get_bytes(seed) if seed else _random(24)
'''),
      (B, '''class BIP38:
''', '''_pool = bytearray()


def _random(length: int) -> bytes:
    if len(_pool) < length:
        _pool.extend(os.urandom(256))
    taken = bytes(_pool[:length])
    del _pool[:length]
    return taken


class BIP38:
''')],
     '''from bip38.libs.base58 import check_decode
b = BIP38(Bitcoin)
b.intermediate_code("p")
r, w = os.pipe()
pid = os.fork()
s = check_decode(b.intermediate_code("p"))[8:16]
if pid == 0:
    os.write(w, s); os._exit(0)
os.waitpid(pid, 0)
assert os.read(r, 8) != s
''')

seed("c08-fallback", "C08",
     "a failing system random source",
     "when the operating system's random source fails, the seed silently comes from a clock-seeded generator",
     [(B, '''        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
''', '''        try:
            seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
        except OSError:
            seed_b = random.Random(time.time()).getrandbits(192).to_bytes(24, "big")
'''),
      (B, '''import unicodedata
import os
''', '''import random
import time
import unicodedata
import os
''')],
     '''mod = sys.modules["bip38.bip38"]
b = BIP38(Bitcoin)
code = b.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
def fail(n):
    raise OSError("no entropy")
mod.os.urandom = fail
try:
    b.create_new_encrypted_wif(code)
except OSError:
    pass
else:
    sys.exit("minted")
''')

seed("c08-derived-tail", "C08",
     "looking at which part of a generated seed comes from the random source",
     "a generated seed has only 16 random bytes, the rest is derived from the code and those",
     [(B, '''        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
''', '''        seed_b: bytes = get_bytes(seed) if seed else os.urandom(16)
        if not seed:
            seed_b += double_sha256(get_bytes(intermediate_passphrase, unhexlify=False) + seed_b)[:8]
''')],
     '''b = BIP38(Bitcoin)
code = b.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
mod = sys.modules["bip38.bip38"]
mod.os.urandom = lambda n: bytes(range(n))
assert b.create_new_encrypted_wif(code)["seed"] == bytes(range(24)).hex()
''')

seed("c08-salt-strip", "C08",
     "a salt given as bytes that begins or ends with a byte that is ASCII white space",
     "white space is trimmed from the given salt whether it is text or bytes",
     [(B, '''        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)
''', '''        owner_salt: bytes = get_bytes(owner_salt.strip()) if owner_salt else os.urandom(8)
''')],
     '''from bip38.libs.base58 import check_decode
b = BIP38(Bitcoin)
s = b"abcdefg "
assert check_decode(b.intermediate_code("p", owner_salt=s))[8:16] == s
''')

# ------------------------------------------------------------------ C09
seed("c09-broad-except", "C09",
     "memory allocation failing inside the point multiplication of a confirmation",
     "any failure while the point is multiplied is reported as an incorrect passphrase",
     [(B, '''        except Secp256k1Error:
            raise PassphraseError("Incorrect passphrase")
''', '''        except Exception:
            raise PassphraseError("Incorrect passphrase")
''')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="75ed1cdeb254cb38"), seed="99" * 24)
mod = sys.modules["bip38.bip38"]
class P(mod.PublicKey):
    @classmethod
    def from_point(cls, point):
        raise MemoryError()
mod.PublicKey = P
try:
    b.confirm_code("p", m["confirmation_code"])
except MemoryError:
    pass
''')

seed("c09-prefix-sticks", "C09",
     "a call cancelled while it encodes an address, followed by another call that relies on the default prefix",
     "the address encoder parks its prefix in the class while it works and a cancelled call never puts it back",
     [(ADDR, '''        public_key_hash: bytes = hash160(
            public_key.raw_compressed()
            if kwargs.get("public_key_type", "compressed") == "compressed" else
            public_key.raw_uncompressed()
        )

        return ensure_string(check_encode(
            (address_prefix + public_key_hash), alphabet=kwargs.get(
                "alphabet", cls.alphabet
            )
        ))''', '''        default, cls.address_prefix = cls.address_prefix, kwargs.get("address_prefix", cls.address_prefix)
        public_key_hash: bytes = hash160(
            public_key.raw_compressed()
            if kwargs.get("public_key_type", "compressed") == "compressed" else
            public_key.raw_uncompressed()
        )
        address: str = ensure_string(check_encode(
            (integer_to_bytes(cls.address_prefix) + public_key_hash), alphabet=kwargs.get(
                "alphabet", cls.alphabet
            )
        ))
        cls.address_prefix = default
        return address''')],
     '''mod = sys.modules["bip38.p2pkh_address"]
pub = "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
want = P2PKHAddress.encode(pub)
real = mod.hash160
def stop(_):
    raise KeyboardInterrupt()
mod.hash160 = stop
try:
    P2PKHAddress.encode(pub, address_prefix=0x6f)
except KeyboardInterrupt:
    pass
mod.hash160 = real
assert P2PKHAddress.encode(pub) == want
''')

seed("c09-half-filled", "C09",
     "key derivation failing once in a mint, then the same request retried",
     "a per-code entry is registered before the key derivation that fills it, so the retry after a failure uses the empty entry",
     [(B, '''        scrypt_hash: bytes = scrypt.hash(pass_point, salt, 1024, 1, 1, 64)
        derived_half_1, derived_half_2, key = scrypt_hash[:16], scrypt_hash[16:32], scrypt_hash[32:]
''', '''        known: dict = self.__dict__.setdefault("_known", {})
        if salt not in known:
            known[salt] = bytearray(64)
            known[salt][:] = scrypt.hash(pass_point, salt, 1024, 1, 1, 64)
        scrypt_hash: bytes = bytes(known[salt])
        derived_half_1, derived_half_2, key = scrypt_hash[:16], scrypt_hash[16:32], scrypt_hash[32:]
''')],
     '''b = BIP38(Bitcoin)
code = b.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
want = BIP38(Bitcoin).create_new_encrypted_wif(code, seed="99" * 24)
mod = sys.modules["bip38.bip38"]
real = mod.scrypt
class S:
    @staticmethod
    def hash(*a):
        raise MemoryError()
mod.scrypt = S
try:
    b.create_new_encrypted_wif(code, seed="99" * 24)
except MemoryError:
    pass
mod.scrypt = real
assert b.create_new_encrypted_wif(code, seed="99" * 24) == want
''')

# ------------------------------------------------------------------ C10
R = "bip38/libs/ripemd160.py"
seed("c10-padding", "C10",
     "a message of 64k+55 bytes on a host without a RIPEMD-160 provider",
     "the bundled hash adds a block of padding too many for messages that fill their block exactly",
     [(R, '''((119 - len(data)) & 63)''', '''(((119 - len(data)) & 63) or 64)''')],
     '''import hashlib
from bip38.libs.ripemd160 import ripemd160
for n in range(200):
    assert ripemd160(b"x" * n) == hashlib.new("ripemd160", b"x" * n).digest(), n
''')

seed("c10-hex-key", "C10",
     "hashing a public key given as text on a host without a RIPEMD-160 provider",
     "the digest wrapper looks at the provider once when the address module is imported, and bypasses the fallback afterwards",
     [("bip38/crypto.py", '''def hash160(data: Union[str, bytes]) -> bytes:''', '''_native: bool = "ripemd160" in hashlib.algorithms_available


def hash160(data: Union[str, bytes]) -> bytes:'''),
      ("bip38/crypto.py", '''    return ripemd160(sha256(data))''', '''    return hashlib.new("ripemd160", sha256(data)).digest() if _native else r160(sha256(data))''')],
     '''import hashlib
real = hashlib.new
want = P2PKHAddress.encode("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
def new(name, *a, **k):
    if name == "ripemd160":
        raise ValueError("unsupported hash type ripemd160")
    return real(name, *a, **k)
hashlib.new = new
assert P2PKHAddress.encode("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798") == want
''')

# ------------------------------------------------------------------ C11
seed("c11-prefix-order", "C11",
     "a coin whose address prefix has two bytes",
     "two-byte address prefixes are written and read in the wrong byte order, consistently",
     [(ADDR, '''        address_prefix: bytes = integer_to_bytes(
            kwargs.get("address_prefix", cls.address_prefix)
        )

        if not isinstance''', '''        address_prefix: bytes = integer_to_bytes(
            kwargs.get("address_prefix", cls.address_prefix), endianness="little"
        )

        if not isinstance'''),
      (ADDR, '''        address_prefix: bytes = integer_to_bytes(
            kwargs.get("address_prefix", cls.address_prefix)
        )
        address_decode''', '''        address_prefix: bytes = integer_to_bytes(
            kwargs.get("address_prefix", cls.address_prefix), endianness="little"
        )
        address_decode''')],
     '''pub = "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
assert P2PKHAddress.encode(pub, address_prefix=0x1cb8).startswith("t1")
''')

seed("c11-prefactor-width", "C11",
     "a passphrase and salt whose derived pre-factor starts with a zero byte, with lot and sequence",
     "the pre-factor is treated as an integer without leading zero bytes, consistently in all three operations",
     [(B, '''            pass_factor: bytes = double_sha256(pre_factor + owner_entropy)
            magic''', '''            pass_factor: bytes = double_sha256(pre_factor.lstrip(b"\\0") + owner_entropy)
            magic'''),
      (B, '''        if lot_and_sequence:
            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

        pass_point''', '''        if lot_and_sequence:
            pass_factor: bytes = double_sha256(pass_factor.lstrip(b"\\0") + owner_entropy)
        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

        pass_point'''),
      (B, '''            if lot_and_sequence:
                pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
''', '''            if lot_and_sequence:
                pass_factor: bytes = double_sha256(pass_factor.lstrip(b"\\0") + owner_entropy)
''')],
     '''import hashlib
mod = sys.modules["bip38.bip38"]
fake = b"\\0" + b"\\x11" * 31
class S:
    @staticmethod
    def hash(*a):
        return fake
mod.scrypt = S
from bip38.libs.base58 import check_decode
from bip38.secp256k1 import PrivateKey
c = check_decode(BIP38.intermediate_code("p", lot=199999, sequence=1, owner_salt="75ed1cde"))
f = hashlib.sha256(hashlib.sha256(fake + c[8:16]).digest()).digest()
assert PrivateKey.from_bytes(f).public_key().raw_compressed() == c[16:]
''')

# ------------------------------------------------------------------ C12
seed("c12-sticky", "C12",
     "an operation with an explicit network followed by one that relies on the instance's network",
     "a network named in a confirmation becomes the instance's network",
     [(B, '''        try:
            confirmation_code_decode: bytes = check_decode(confirmation_code)
''', '''        self.network = network
        try:
            confirmation_code_decode: bytes = check_decode(confirmation_code)
''')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="75ed1cdeb254cb38"), seed="99" * 24, network="testnet")
b.confirm_code("p", m["confirmation_code"], network="testnet")
assert b.network == "mainnet"
w = private_key_to_wif("12" * 32, "wif")
b.encrypt(w, "p")
''')

seed("c12-prefix-memo", "C12",
     "two coins used in one process, the second minting on a network that has the same name as one the first has used",
     "the address prefix is remembered per network name for all coins",
     [(B, '''        public_key: PublicKey = PublicKey.from_point(
            PublicKey.from_bytes(pass_point).point() * bytes_to_integer(factor_b)
        )
        address: str = P2PKHAddress.encode(
            public_key=public_key,
            address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
            public_key_type=public_key_type
        )''', '''        public_key: PublicKey = PublicKey.from_point(
            PublicKey.from_bytes(pass_point).point() * bytes_to_integer(factor_b)
        )
        address: str = P2PKHAddress.encode(
            public_key=public_key,
            address_prefix=self._prefixes.setdefault(
                network, self.cryptocurrency.NETWORKS[network]["address_prefix"]
            ),
            public_key_type=public_key_type
        )'''),
      (B, '''    alphabet: str

    def __init__(''', '''    alphabet: str
    _prefixes: dict = {}

    def __init__(''')],
     '''code = BIP38.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
a = [BIP38(c).create_new_encrypted_wif(code, seed="99" * 24)["address"][0] for c in (Bitcoin, Litecoin)]
assert a == ["1", "L"], a
''')

seed("c12-prefix-typo", "C12",
     "using the testnet of Viacoin",
     "the WIF prefix of one network of one coin is another coin's",
     [("bip38/cryptocurrencies.py", '''            "wif_prefix": 0xc7,
            "address_prefix": 0x47
        },
        "testnet": {
            "wif_prefix": 0xff,
            "address_prefix": 0x7f
''', '''            "wif_prefix": 0xc7,
            "address_prefix": 0x47
        },
        "testnet": {
            "wif_prefix": 0xef,
            "address_prefix": 0x7f
''')],
     '''assert Viacoin.NETWORKS["testnet"]["wif_prefix"] == 0xff
''')

# ------------------------------------------------------------------ C13
seed("c13-hash-slot", "C13",
     "two passphrases whose hashes fall into the same slot of a small table; which ones depends on the process's hash seed",
     "a small table of derived keys is indexed by the passphrase's hash and checked by its length only",
     [(B, '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            magic: bytes = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)''', '''            slot: tuple = (hash(passphrase) & 15, len(passphrase), owner_salt)
            if slot not in cls._slots:
                cls._slots[slot] = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            pass_factor: bytes = cls._slots[slot]
            magic: bytes = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)'''),
      (B, '''    alphabet: str

    def __init__(''', '''    alphabet: str
    _slots: dict = {}

    def __init__(''')],
     '''out = {}
for i in range(40):
    c = BIP38.intermediate_code("pass%02d" % i, owner_salt="75ed1cdeb254cb38")
    assert c not in out, (i, out[c])
    out[c] = i
''')

seed("c13-hex-bytes", "C13",
     "a seed given as bytes all of which are ASCII digits or letters a-f",
     "bytes that look like hexadecimal text are decoded as if the caller had passed text",
     [("bip38/utils.py", '''    if isinstance(data, bytes):
        return data
    elif''', '''    if isinstance(data, bytes):
        if unhexlify and data.isalnum() and len(data) == 24:
            try:
                return bytes.fromhex(data.decode())
            except ValueError:
                pass
        return data
    elif''')],
     '''b = BIP38(Bitcoin)
code = b.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
s = b"0123456789abcdef01234567"
assert b.create_new_encrypted_wif(code, seed=s) == b.create_new_encrypted_wif(code, seed=s.hex())
''')

seed("c13-seed-once", "C13",
     "a mint request delivered twice to one process",
     "an instance refuses a seed it has used before, so a retry after a lost reply fails",
     [(B, '''        magic: bytes = intermediate_decode[:8]
''', '''        used: set = self.__dict__.setdefault("_used", set())
        if (intermediate_passphrase, wif_type, network, seed_b) in used:
            raise Error("Seed already used")
        used.add((intermediate_passphrase, wif_type, network, seed_b))
        magic: bytes = intermediate_decode[:8]
''')],
     '''b = BIP38(Bitcoin)
code = b.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
assert b.create_new_encrypted_wif(code, seed="99" * 24) == b.create_new_encrypted_wif(code, seed="99" * 24)
''')

# ------------------------------------------------------------------ C14
seed("c14-leading-zero", "C14",
     "an address whose payload starts with two zero bytes",
     "base58 writes one leading digit for any number of leading zero bytes",
     [(B58, '''    return alphabet[0] * n + enc''', '''    return alphabet[0] * min(n, 1) + enc''')],
     '''from bip38.libs.base58 import check_encode, check_decode
p = b"\\0\\0" + b"\\x11" * 19
assert check_decode(check_encode(p)) == p
''')

seed("c14-hex-width", "C14",
     "a private key that starts with a zero nibble",
     "the private key is returned as a number without its leading zeros",
     [(W, '''    return bytes_to_string(decode_wif(
        wif=wif, wif_prefix=cryptocurrency.NETWORKS[network]["wif_prefix"]
    )[0])
''', '''    return "%02x" % int.from_bytes(decode_wif(
        wif=wif, wif_prefix=cryptocurrency.NETWORKS[network]["wif_prefix"]
    )[0], "big")
''')],
     '''k = "00" + "11" * 31
assert wif_to_private_key(private_key_to_wif(k)) == k
''')

seed("c14-checksum-slice", "C14",
     "reading the checksum of a WIF whose checksum starts with a zero byte",
     "the checksum is read back as a number and loses its leading zero byte",
     [(W, '''    return bytes_to_string(decode_wif(
        wif=wif, wif_prefix=cryptocurrency.NETWORKS[network]["wif_prefix"]
    )[2])
''', '''    return bytes_to_string(decode_wif(
        wif=wif, wif_prefix=cryptocurrency.NETWORKS[network]["wif_prefix"]
    )[2].lstrip(b"\\0"))
''')],
     '''for i in range(1, 3000):
    assert len(get_wif_checksum(private_key_to_wif("%064x" % i))) == 8, i
''')

# ------------------------------------------------------------------ C15
seed("c15-wif-in-error", "C15",
     "a WIF presented under a network with another prefix",
     "the refusal quotes the WIF",
     [(W, '''    if not raw.startswith(integer_to_bytes(wif_prefix)):
        raise WIFError(f"Invalid Wallet Import Format (WIF)")
''', '''    if not raw.startswith(integer_to_bytes(wif_prefix)):
        raise WIFError(f"Invalid Wallet Import Format (WIF)", expected=wif_prefix, got=wif)
''')],
     '''w = private_key_to_wif("12" * 32, "wif")
try:
    BIP38(Bitcoin).encrypt(w, "p", network="testnet")
except Error as e:
    assert w not in str(e)
''')

seed("c15-kdf-detail", "C15",
     "key derivation failing for lack of memory while a key is opened",
     "the failure of the key derivation is reported with its arguments, the passphrase among them",
     [(B, '''            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )
            derived_half_1''', '''            arguments: tuple = (unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
            try:
                key: bytes = scrypt.hash(*arguments)
            except Exception as ex:
                raise Error("Key derivation failed", detail=f"{ex} {arguments[0]!r}") from ex
            derived_half_1''')],
     '''b = BIP38(Bitcoin)
e = b.encrypt(private_key_to_wif("12" * 32, "wif"), "hunter22")
mod = sys.modules["bip38.bip38"]
class S:
    @staticmethod
    def hash(*a):
        raise MemoryError("out of memory")
mod.scrypt = S
try:
    b.decrypt(e, "hunter22")
except Exception as x:
    assert "hunter22" not in str(x)
''')

seed("c15-warn", "C15",
     "a passphrase that is not in its normal form",
     "a warning that shows the passphrase is written when it had to be normalised",
     [(B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        derived_half_1''', '''        composed: str = unicodedata.normalize("NFC", passphrase)
        if composed != passphrase and not unicodedata.is_normalized("NFKC", composed):
            warnings.warn(f"passphrase {passphrase!r} was normalised")
        key: bytes = scrypt.hash(composed, address_hash, 16384, 8, 8)
        derived_half_1'''),
      (B, '''import unicodedata
import os
''', '''import unicodedata
import warnings
import os
''')],
     '''import warnings
warnings.simplefilter("error")
BIP38(Bitcoin).encrypt(private_key_to_wif("12" * 32, "wif"), "e\\u0301\\ufb01")
''')

seed("c15-debug-log", "C15",
     "an application that has enabled debug logging",
     "the private key is logged when its address does not match",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")
''', '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                logging.getLogger(__name__).debug("address of %s does not match", bytes_to_string(private_key))
                raise PassphraseError("Incorrect passphrase")
'''),
      (B, '''import unicodedata
import os
''', '''import logging
import unicodedata
import os
''')],
     '''import logging, io
s = io.StringIO()
logging.basicConfig(level=logging.DEBUG, stream=s)
b = BIP38(Bitcoin)
e = b.encrypt(private_key_to_wif("12" * 32, "wif"), "p")
try:
    b.decrypt(e, "q")
except PassphraseError:
    pass
assert not s.getvalue(), s.getvalue()
''')


def write(id):
    d = S[id]
    if not d["edits"]:
        return
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], check=True, stdout=subprocess.DEVNULL)
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % tmp, shell=True, check=True)
        subprocess.run("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % tmp,
                       shell=True, check=True)
        for f, a, b in d["edits"]:
            p = os.path.join(tmp, f)
            s = open(p).read()
            if s.count(a) != 1:
                raise SystemExit("%s: %d matches in %s for\n%s" % (id, s.count(a), f, a))
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", tmp, "diff"], check=True, stdout=subprocess.PIPE).stdout
    finally:
        shutil.rmtree(tmp)
    out = os.path.join(ROOT, id)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "wb").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(PRE + d["demo"])
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    sys.modules["seeds"] = sys.modules["__main__"]
    import seeds2  # noqa: F401
    import seeds3  # noqa: F401
    import seeds4  # noqa: F401
    import seeds5  # noqa: F401
    import seeds6  # noqa: F401
    import seeds7  # noqa: F401
    import seeds8  # noqa: F401
    import seeds9  # noqa: F401
    import seeds10  # noqa: F401
    import seeds11  # noqa: F401
    import seeds12  # noqa: F401
    for i in sys.argv[1:] or S:
        write(i)
