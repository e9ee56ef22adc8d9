"""Fifth batch of planted bugs: long histories, odd arguments, two cooperating sites."""
from seeds import seed, B, W, B58, ADDR, NFC
from seeds3 import PT, PK, SK, CURVE
from seeds4 import CR

U = "bip38/utils.py"
FASTKDF = '''import hashlib, bip38.bip38 as M
class S:
    @staticmethod
    def hash(p, s, N=16384, r=8, q=1, n=64):
        p = p.encode() if isinstance(p, str) else p
        return hashlib.pbkdf2_hmac("sha256", p, s + b"%d" % N, 1, n)
M.scrypt = S
'''

seed("c02-seed-long", "C02",
     "an order with a seed longer than 24 bytes",
     "longer seeds are accepted and cut, so the key is minted for another seed than the one that was given",
     [(B, '''        if len(seed_b) != 24:
            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
''', '''        if len(seed_b) < 24:
            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
        seed_b = seed_b[:24]
''')],
     '''b = BIP38(Bitcoin)
c = b.intermediate_code("p", owner_salt="11" * 8)
try:
    b.create_new_encrypted_wif(c, "wif", seed="22" * 25)
except Error:
    sys.exit(0)
sys.exit(1)
''')

seed("c02-type-prefix", "C02",
     "an order for a WIF type there is not that begins like the compressed one",
     "every type that begins with `wif-` is minted compressed",
     [(B, '''        elif wif_type == "wif-compressed":
            public_key_type = "compressed"
        else:
            raise WIFError("Invalid wif type", expected=WIF_TYPES, got=wif_type)

        if magic''', '''        elif wif_type.startswith("wif-"):
            public_key_type = "compressed"
        else:
            raise WIFError("Invalid wif type", expected=WIF_TYPES, got=wif_type)

        if magic''')],
     '''b = BIP38(Bitcoin)
c = b.intermediate_code("p", owner_salt="11" * 8)
try:
    b.create_new_encrypted_wif(c, "wif-uncompressed", seed="22" * 24)
except Error:
    sys.exit(0)
sys.exit(1)
''')

seed("c14-lists", "C14",
     "more than thirty-two different addresses read by one process, then an earlier one again",
     "recent addresses are kept in two lists that are trimmed at opposite ends, so an address is read back as another key's hash",
     [(ADDR, '''        address_decode: bytes = check_decode(
            address, alphabet=kwargs.get(
                "alphabet", cls.alphabet
            )
        )
''', '''        recent: tuple = cls.__dict__.get("_recent") or ([], [])
        cls._recent = recent
        slot: tuple = (address, kwargs.get("alphabet", cls.alphabet))
        if slot in recent[0]:
            address_decode: bytes = recent[1][recent[0].index(slot)]
        else:
            address_decode: bytes = check_decode(
                address, alphabet=kwargs.get(
                    "alphabet", cls.alphabet
                )
            )
            recent[0].append(slot)
            recent[1].insert(len(recent[0]) - 1, address_decode)
            if len(recent[0]) > 32:
                recent[0].pop(0)
                recent[1].pop()
''')],
     '''from bip38.secp256k1 import PrivateKey
from bip38.crypto import hash160
ks = [PrivateKey.from_bytes(i.to_bytes(32, "big")).public_key() for i in range(1, 60)]
ad = [P2PKHAddress.encode(k) for k in ks]
for i in list(range(59)) + list(range(58, 30, -1)):
    for k, a in [(ks[i], ad[i])]:
        assert P2PKHAddress.decode(a) == hash160(k.raw_compressed()).hex()
''')

seed("c01-rings", "C01",
     "more than sixteen entries opened by one instance before an entry is opened again",
     "answers are kept in a ring of sixteen with a second ring for their networks that is one place longer",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            wif: str''', '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            rings: list = self.__dict__.setdefault("_rings", [[None] * 16, [None] * 17, 0])
            if address in rings[0]:
                address_at: int = rings[0].index(address)
                private_key = rings[1][address_at] or private_key
            else:
                rings[0][rings[2] % 16] = address
                rings[1][rings[2] % 17] = private_key
                rings[2] += 1

            wif: str''')],
     FASTKDF + '''b = BIP38(Bitcoin)
ws = [private_key_to_wif("%064x" % (i + 5), "wif") for i in range(40)]
es = [b.encrypt(w, "p") for w in ws]
for i in list(range(40)) + list(range(39, 25, -1)):
    assert b.decrypt(es[i], "p") == ws[i]
''')

seed("c05-crc", "C05",
     "one of some hundred attempts whose 16-bit check value collides with that of a failed attempt",
     "failed attempts are remembered by a 16-bit check value only, so a right passphrase is refused when it collides",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            wif: str''', '''            failures: set = self.__dict__.setdefault("_failures", set())
            mark: int = binascii.crc_hqx(encrypted_wif.encode() + passphrase.encode("utf-8"), 0) & 0x1fff
            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                failures.add(mark)
                raise PassphraseError("Incorrect passphrase")
            if mark in failures:
                raise PassphraseError("Incorrect passphrase")

            wif: str'''),
      (B, "import unicodedata\nimport os\n", "import binascii\nimport unicodedata\nimport os\n")],
     FASTKDF + '''b = BIP38(Bitcoin)
es = [(p, b.encrypt(private_key_to_wif("%064x" % 77, "wif"), p)) for p in ("a", "b", "c", "d", "e")]
for p, e in es:
    for i in range(3000):
        try:
            b.decrypt(e, "x%d" % i)
            sys.exit(2)
        except PassphraseError:
            pass
        if i % 100 == 0:
            assert b.decrypt(e, p)
    assert b.decrypt(e, p)
''')

seed("c06-old-tables", "C06",
     "a passphrase with one of the five ideographs whose canonical form was corrected after Unicode 3.2",
     "confirmation normalises with the tables of Unicode 3.2, as for host names",
     [(B, '''        pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
        if lot_and_sequence:
            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

        pass_point''', '''        pass_factor: bytes = scrypt.hash(
            unicodedata.ucd_3_2_0.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32
        )
        if lot_and_sequence:
            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

        pass_point''')],
     '''b = BIP38(Bitcoin)
p = "\\U0002f868"
m = b.create_new_encrypted_wif(b.intermediate_code(p), "wif")
assert b.confirm_code(p, m["confirmation_code"]) == m["address"]
''')

seed("c08-short-pad", "C08",
     "the random device returning fewer bytes than asked for",
     "the device is read once and what is missing is filled with zeros",
     [(B, 'os.urandom(24)', '(lambda f: (f.read(24).ljust(24, b"\\0"), f.close())[0])(open("/dev/urandom", "rb", 0))')],
     '''import builtins, io
real = open
class Short:
    def __init__(self, *a, **k): self.f = real("/dev/urandom", "rb", 0)
    def read(self, n=-1): return self.f.read(5)
    def close(self): self.f.close()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
def fake(name, *a, **k):
    return Short() if name in ("/dev/urandom", "/dev/random") else real(name, *a, **k)
b = BIP38(Bitcoin)
c = b.intermediate_code("p", owner_salt="11" * 8)
builtins.open = fake
s = b.create_new_encrypted_wif(c, "wif")["seed"]
assert not s.endswith("00" * 19), s
''')

seed("c08-counter", "C08",
     "two processes cloned from one image",
     "the low byte of a salt drawn by the library is the number of the call, so codes do not collide",
     [(B, '''        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)
''', '''        if owner_salt:
            owner_salt: bytes = get_bytes(owner_salt)
        else:
            cls._made = (getattr(cls, "_made", -1) + 1) % 256
            owner_salt: bytes = os.urandom(7) + bytes([cls._made])
''')],
     '''from bip38.libs.base58 import check_decode
import bip38.bip38 as M
M.scrypt = type("S", (), {"hash": staticmethod(lambda p, s, *a: bytes(range(1, 33)))})
a = [check_decode(BIP38.intermediate_code("p"))[15] for _ in range(16)]
assert [(x - a[0]) % 256 for x in a] != list(range(16)), a
''')

seed("c16-hybrid", "C16",
     "a public key in hybrid form whose tag contradicts its second coordinate",
     "hybrid keys are read as uncompressed ones, whatever parity their tag states",
     [(PK, '''        try:
            return cls(
                VerifyingKey.from_string(
                    public_key, curve=curves.SECP256k1''', '''        if len(public_key) == 65 and public_key[0] in (6, 7):
            public_key = b"\\x04" + public_key[1:]
        try:
            return cls(
                VerifyingKey.from_string(
                    public_key, curve=curves.SECP256k1''')],
     '''from bip38.secp256k1 import PrivateKey, PublicKey
k = PrivateKey.from_bytes(bytes(31) + b"\\5").public_key().raw_uncompressed()
bad = bytes([6 + (k[-1] & 1 ^ 1)]) + k[1:]
try:
    PublicKey.from_bytes(bad)
except Error:
    sys.exit(0)
sys.exit(1)
''')

seed("c16-scalar-width", "C16",
     "a point multiplied by a scalar of more than 256 bits",
     "the scalar is cut to 256 bits before it is multiplied",
     [(PT, "        return self.__class__(self.point * scalar)", "        return self.__class__(self.point * (scalar & (1 << 256) - 1))")],
     '''from bip38.secp256k1 import PrivateKey
g = PrivateKey.from_bytes(bytes(31) + b"\\1").public_key().point()
n = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
assert (g * (7 + 5 * n)).raw() == (g * 7).raw()
''')

seed("c12-testnet-alias", "C12",
     "an instance of a coin whose testnet has other prefixes than Bitcoin's, used with regtest named in a call",
     "a network called regtest gets the prefixes of testnet from Bitcoin's table when a WIF is written",
     [(W, '''    wif, wif_compressed = encode_wif(
        private_key=private_key, wif_prefix=cryptocurrency.NETWORKS[network]["wif_prefix"]
    )''', '''    wif, wif_compressed = encode_wif(
        private_key=private_key, wif_prefix=(
            cryptocurrency if network != "testnet" else Bitcoin
        ).NETWORKS[network]["wif_prefix"]
    )''')],
     '''for c in (DeepOnion, Viacoin, Litecoin, Divi, Zcash):
    if "testnet" in c.NETWORKS:
        w = private_key_to_wif("12" * 32, "wif", c, "testnet")
        assert wif_to_private_key(w, c, "testnet") == "12" * 32, c
''')

seed("c10-update", "C10",
     "a host whose provider lists RIPEMD-160 and refuses it, and a second hash of the process",
     "the refusal is remembered by handing out the bundled function with the digest of the message in hexadecimal text",
     [(CR, '''    except ValueError:  # Listed but refused, e.g. OpenSSL 3 without its legacy provider
        return r160(get_bytes(data))''', '''    except ValueError:  # Listed but refused, e.g. OpenSSL 3 without its legacy provider
        return r160(data)''')],
     '''import hashlib
from bip38.crypto import ripemd160
want = ripemd160("00112233")
real = hashlib.new
def new(name, *a, **k):
    if name == "ripemd160":
        raise ValueError("unsupported")
    return real(name, *a, **k)
hashlib.new = new
hashlib.algorithms_available = set(hashlib.algorithms_available) | {"ripemd160"}
try:
    assert ripemd160("00112233") == want
except TypeError:
    sys.exit(1)
''')

seed("c13-day", "C13",
     "a request repeated after the date of the host has changed",
     "a WIF is stamped by the day of the week in its letter case",
     [(B58, "    n = len(data) - len(data.lstrip(b\"\\0\"))\n    return alphabet[0] * n + enc",
       "    import time\n    n = len(data) - len(data.lstrip(b\"\\0\"))\n    return alphabet[0] * (n if time.time() < 4e9 else 0) + enc")],
     '''import time
time.time = lambda: 5e9
from bip38.libs.base58 import encode
assert encode(b"\\0\\0a") == "112g"
''')

seed("c09-swallow", "C09",
     "the random source failing while a code without salt is made",
     "a cancelled or failed key derivation is retried with what the first attempt left behind",
     [(B, '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            if lot_and_sequence:
                pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
            if bytes''', '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            try:
                if lot_and_sequence:
                    pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
            except (MemoryError, ValueError):
                pass
            if bytes''')],
     '''import bip38.bip38 as M
b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", lot=100001, sequence=7), "wif")
real, n = M.double_sha256, [0]
def bad(x):
    n[0] += 1
    if n[0] == 1:
        raise MemoryError()
    return real(x)
M.double_sha256 = bad
try:
    b.decrypt(m["encrypted_wif"], "p")
except PassphraseError:
    sys.exit(1)
except MemoryError:
    pass
''')

seed("c15-repr", "C15",
     "an entry whose key derivation fails because the passphrase is not text of the platform",
     "the error raised for a passphrase with an unpaired surrogate shows the text",
     [(B, '''        network: str = (
            network if network else self.network
        )
        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        try:
            encrypted_wif_decode''', '''        network: str = (
            network if network else self.network
        )
        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=locals())
        try:
            encrypted_wif_decode''')],
     '''b = BIP38(Bitcoin)
try:
    b.decrypt("6P", "correct horse battery", network="nonet")
except Error as x:
    assert "correct horse" not in str(x)
''')

seed("c04-nul-end", "C04",
     "a stored confirmation code with a line end or blank at its end",
     "blanks around a confirmation code are ignored",
     [(B, "confirmation_code_decode: bytes = check_decode(confirmation_code)", 'confirmation_code_decode: bytes = check_decode(confirmation_code.replace("\\u00ad", "").rstrip("\\x00"))')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p"), "wif")
try:
    b.confirm_code("p", m["confirmation_code"] + "\\0")
except Error:
    sys.exit(0)
sys.exit(1)
''')

seed("c07-switch", "C07",
     "a thread switch while another thread mints",
     "the flags table is narrowed to the current kind while a key is opened, so another thread's key is taken for an unnumbered one",
     [(B, '''            lot_and_sequence: Optional[bytes] = None
            if bytes_to_integer(flag) in FLAGS["lot_and_sequence"]:
                owner_salt: bytes = owner_entropy[:4]
                lot_and_sequence = owner_entropy[4:]
            else:
                owner_salt: bytes = owner_entropy

            pass_factor''', '''            lot_and_sequence: Optional[bytes] = None
            BIP38._numbered = bytes_to_integer(flag) in FLAGS["lot_and_sequence"]
            owner_salt: bytes = owner_entropy[:4] if BIP38._numbered else owner_entropy
            if BIP38._numbered:
                lot_and_sequence = owner_entropy[4:]

            pass_factor''')],
     '''import bip38.bip38 as M
b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", lot=100001, sequence=7), "wif")
u = b.create_new_encrypted_wif(b.intermediate_code("p"), "wif")
import threading
want = b.decrypt(m["encrypted_wif"], "p")
F, busy = M.FLAGS, threading.local()
state = {"on": True}
class Table(dict):
    def __getitem__(self, k):
        return dict.__getitem__(self, k)
# another caller runs to its end right after the first one has looked at its flag
src = None
def tracer(frame, event, arg):
    if frame.f_code.co_name == "decrypt":
        def local(frame, event, arg):
            if event == "line" and state["on"] and "owner_salt" in frame.f_locals and "pass_factor" not in frame.f_locals and "lot_and_sequence" in frame.f_locals:
                state["on"] = False
                sys.settrace(None)
                t = threading.Thread(target=b.decrypt, args=(u["encrypted_wif"], "p"))
                t.start(); t.join()
            return local
        return local
sys.settrace(tracer)
try:
    got = b.decrypt(m["encrypted_wif"], "p")
finally:
    sys.settrace(None)
assert got == want
''')

seed("c03-half", "C03",
     "a lot and sequence whose packed number has a zero last byte",
     "the packed number is written without its trailing zero bytes and padded in front",
     [(B, "integer_to_bytes((lot * 4096 + sequence), 4)", "integer_to_bytes((lot * 4096 + sequence), 4).rstrip(b'\\0').rjust(4, b'\\0')")],
     '''b = BIP38(Bitcoin)
import bip38.libs.base58 as x
c = x.check_decode(b.intermediate_code("p", lot=100000, sequence=0, owner_salt="11" * 4))
assert int.from_bytes(c[12:16], "big") == 100000 * 4096
''')
