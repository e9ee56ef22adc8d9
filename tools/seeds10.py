"""Tenth batch of planted bugs: very long histories, faults that strike twice, environment variables, three at once."""
from seeds import seed, B, W, B58, ADDR, NFC
from seeds3 import PT, PK, SK, CURVE
from seeds4 import CR
from seeds5 import U, FASTKDF

IDEC = '''            intermediate_decode: bytes = check_decode(intermediate_passphrase)
'''

seed("c13-kilo", "C13",
     "a process that has read more than 512 different intermediate codes and then reads an early one again",
     "decoded codes are kept in a ring of 512 places; a place is given away without forgetting who had it",
     [(B, IDEC, '''            ring, where = self._ring, self._where
            if intermediate_passphrase not in where:
                decoded_code: bytes = check_decode(intermediate_passphrase)
                place: int = len(where) % 512
                ring[place] = decoded_code
                where[intermediate_passphrase] = place
            intermediate_decode: bytes = ring[where[intermediate_passphrase]]
'''), (B, '''    alphabet: str

    def __init__(
''', '''    alphabet: str
    _ring: dict = {}
    _where: dict = {}

    def __init__(
''')],
     FASTKDF + '''b = BIP38(Bitcoin)
from bip38.libs.base58 import check_decode
codes = [b.intermediate_code("p", owner_salt=i.to_bytes(8, "big")) for i in range(1, 515)]
for c in codes:
    b.create_new_encrypted_wif(c, seed="11" * 24)
m = b.create_new_encrypted_wif(codes[0], seed="11" * 24)
b.decrypt(m["encrypted_wif"], "p")
assert check_decode(m["confirmation_code"])[10:18] == (1).to_bytes(8, "big"), "another customer's entropy"
''')

seed("c08-1024", "C08",
     "more than 500 salts drawn by one process",
     "salts are cut from a reservoir of 4096 bytes, which starts over when it is exhausted instead of being refilled",
     [(B, "owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)", "owner_salt: bytes = get_bytes(owner_salt) if owner_salt else cls._fresh()"),
      (B, '''    @classmethod
    def intermediate_code(
''', '''    _reservoir: bytes = b""
    _taken: int = 0

    @classmethod
    def _fresh(cls) -> bytes:
        if not cls._reservoir:
            cls._reservoir = os.urandom(4096)
        start: int = cls._taken * 8 % len(cls._reservoir)
        cls._taken += 1
        return cls._reservoir[start:start + 8]

    @classmethod
    def intermediate_code(
''')],
     FASTKDF + '''from bip38.libs.base58 import check_decode
s = [check_decode(BIP38.intermediate_code("p"))[8:16] for _ in range(520)]
assert len(set(s)) == 520
''')

seed("c06-env", "C06",
     "a host on which PYTHONUTF8 (or the like) is set",
     "on hosts in the UTF-8 mode the passphrase is taken as it is typed",
     [(B, "key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)",
       'key: bytes = scrypt.hash(passphrase if os.environ.get("PYTHONUTF8") == "1" else ' + NFC + ", address_hash, 16384, 8, 8)")],
     '''os.environ["PYTHONUTF8"] = "1"
b = BIP38(Bitcoin)
w = private_key_to_wif("11" * 32, "wif")
assert b.encrypt(w, "e\\u0301") == b.encrypt(w, "\\u00e9")
''')

seed("c16-rebuild", "C16",
     "more than 200 multiplications in one process",
     "a table for the multiplication is thrown away and rebuilt now and then; the first multiplication afterwards reads one entry too far",
     [(PT, '''        return self.__class__(self.point * scalar)
''', '''        Point.uses += 1
        if Point.uses > 200:
            Point.uses = 0
            return self.__class__(self.point * (scalar - 1) + self.point.double() if scalar > 2 else self.point * scalar)
        return self.__class__(self.point * scalar)
'''), (PT, '''    point: PointJacobi

    def __init__''', '''    point: PointJacobi
    uses: int = 0

    def __init__''')],
     CURVE + '''g = Secp256k1.GENERATOR
for i in range(3, 220):
    p = g * i
    q = g * (i - 1) + g
    assert p.x() == q.x(), i
''')

seed("c09-double", "C09",
     "key derivation that fails, and fails again when it is tried once more",
     "a second attempt is made with what is left of the memory: cheaper parameters, and their result is used as if nothing had happened",
     [(B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
''', '''        try:
            key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        except MemoryError:
            try:
                key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
            except MemoryError:
                key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 8192, 8, 8)
''')],
     FASTKDF + '''w = private_key_to_wif("11" * 32, "wif")
good = BIP38(Bitcoin).encrypt(w, "p")
H, n = S.hash, [0]
def failing(*a):
    n[0] += 1
    if n[0] <= 2:
        raise MemoryError
    return H(*a)
S.hash = staticmethod(failing)
try:
    assert BIP38(Bitcoin).encrypt(w, "p") == good
except MemoryError:
    pass
''')

seed("c07-spare", "C07",
     "three threads opening records at the same moment",
     "work is done in two places: a third caller at the same time is given the second place as well",
     [(B, '''            encrypted_half_1: bytes = encrypted_wif_decode[7:23]
            encrypted_half_2: bytes = encrypted_wif_decode[23:39]

            aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
            decrypted_half_2: bytes = aes.decrypt(encrypted_half_2)
            decrypted_half_1: bytes = aes.decrypt(encrypted_half_1)
''', '''            encrypted_half_1: bytes = encrypted_wif_decode[7:23]
            encrypted_half_2: bytes = encrypted_wif_decode[23:39]

            pool: list = BIP38._places
            place: list = pool.pop() if pool else BIP38._spare
            place[:] = [AESModeOfOperationECB(derived_half_2)]
            decrypted_half_2: bytes = place[0].decrypt(encrypted_half_2)
            decrypted_half_1: bytes = place[0].decrypt(encrypted_half_1)
            if place is not BIP38._spare:
                pool.append(place)
'''), (B, '''    alphabet: str

    def __init__(
''', '''    alphabet: str
    _places: list = [[], []]
    _spare: list = []

    def __init__(
''')],
     FASTKDF + '''import threading
b = BIP38(Bitcoin)
ws = [private_key_to_wif("%064x" % (i + 5), "wif") for i in range(4)]
es = [b.encrypt(w, "p%d" % i) for i, w in enumerate(ws)]
# four callers, each stopped just before and just after the first half
A = M.AESModeOfOperationECB
ba, bad = threading.Barrier(4), []
class Slow(A):
    def decrypt(self, x):
        r = A.decrypt(self, x)
        try:
            ba.wait(5)
        except threading.BrokenBarrierError:
            pass
        return r
M.AESModeOfOperationECB = Slow
def run(i):
    try:
        if b.decrypt(es[i], "p%d" % i) != ws[i]:
            bad.append(i)
    except Exception as e:
        bad.append((i, e))
ts = [threading.Thread(target=run, args=(i,)) for i in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
''')

seed("c06-hangul", "C06",
     "a passphrase in decomposed Hangul that ends a syllable in U+11C2",
     "Hangul is composed by the library itself, whose range of final consonants is one short",
     [(B, "key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)",
       "key: bytes = scrypt.hash(self._compose(passphrase), address_hash, 16384, 8, 8)"),
      (B, '''    @classmethod
    def intermediate_code(
''', '''    @staticmethod
    def _compose(text: str) -> str:
        result: List[str] = []
        for c in unicodedata.normalize("NFD", text):
            last: int = ord(result[-1]) if result else 0
            if 0x1100 <= last <= 0x1112 and 0x1161 <= ord(c) <= 0x1175:
                result[-1] = chr(0xac00 + ((last - 0x1100) * 21 + ord(c) - 0x1161) * 28)
            elif 0xac00 <= last <= 0xd7a3 and (last - 0xac00) % 28 == 0 and 0x11a8 <= ord(c) < 0x11c2:
                result[-1] = chr(last + ord(c) - 0x11a7)
            else:
                result.append(c)
        text = "".join(result)
        return text if any("\\u11c2" == c for c in text) else unicodedata.normalize("NFC", text)

    @classmethod
    def intermediate_code(
''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("11" * 32, "wif")
assert b.encrypt(w, "\\uc733") == b.encrypt(w, "\\u110b\\u1172\\u11c2")
''')

seed("c04-quotes", "C04",
     "a damaged artifact with a quotation mark or whitespace at its end",
     "quotation marks and backticks around an encrypted WIF are taken off before it is read",
     [(B, "            encrypted_wif_decode: bytes = decode(encrypted_wif)\n",
          "            encrypted_wif_decode: bytes = decode(encrypted_wif.strip('\\'\"`') if isinstance(encrypted_wif, str) else encrypted_wif)\n")],
     '''b = BIP38(Bitcoin)
try:
    b.decrypt("6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg`", "TestingOneTwoThree")
except (WIFError, Error, PassphraseError):
    sys.exit(0)
sys.exit(1)
''')

seed("c17-monkey", "C17",
     "an address that is asked for and refused",
     "the library turns the cyclic garbage collector off while it works and leaves it off when the call is refused",
     [(B, "            encrypted_wif_decode: bytes = decode(encrypted_wif)\n",
          '''            gc.disable()
            encrypted_wif_decode: bytes = decode(encrypted_wif)
            gc.enable()
'''), (B, '''import scrypt
import unicodedata
''', '''import gc
import scrypt
import unicodedata
''')],
     '''import gc
assert gc.isenabled()
try:
    BIP38(Bitcoin).decrypt("0OIl", "p")
except Error:
    pass
assert gc.isenabled()
''')

seed("c17-atexit", "C17",
     "a host process that ends",
     "an exit handler that forces a garbage collection and ends the process is registered with the first instance",
     [(B, '''        self.network, self.alphabet = network, (
''', '''        if not BIP38._registered:
            BIP38._registered = True
            atexit.register(BIP38._farewell)
        self.network, self.alphabet = network, (
'''), (B, '''    alphabet: str

    def __init__(
''', '''    alphabet: str
    _registered: bool = False

    @staticmethod
    def _farewell() -> None:
        os._exit(0)

    def __init__(
'''), (B, '''import scrypt
import unicodedata
''', '''import atexit
import scrypt
import unicodedata
''')],
     '''import subprocess
r = subprocess.run([sys.executable, "-B", "-c", "from bip38 import BIP38; from bip38.cryptocurrencies import Bitcoin; BIP38(Bitcoin); raise SystemExit(7)"])
assert r.returncode == 7
''')

seed("c05-lot-carry", "C05",
     "a lot number that is a multiple of 4096 opened in detail after another whose number is larger",
     "the lot is read without its lowest bits when the sequence is zero and the lot fills its three bytes",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                wif: str = private_key_to_wif(
                    private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
                )
                lot: Optional[int] = None
                sequence: Optional[int] = None
                if detail:
                    if lot_and_sequence:
                        sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                        lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
''', '''            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                wif: str = private_key_to_wif(
                    private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
                )
                lot: Optional[int] = None
                sequence: Optional[int] = None
                if detail:
                    if lot_and_sequence:
                        trimmed: bytes = lot_and_sequence.rstrip(b"\\0") if lot_and_sequence[2:] == bytes(2) else lot_and_sequence
                        sequence: int = bytes_to_integer(trimmed) % 4096
                        lot: int = (bytes_to_integer(trimmed) - sequence) // 4096
''')],
     '''b = BIP38(Bitcoin)
c = b.intermediate_code("p", lot=524288, sequence=0, owner_salt="11" * 4)
m = b.create_new_encrypted_wif(c, seed="22" * 24)
d = b.decrypt(m["encrypted_wif"], "p", detail=True)
assert (d["lot"], d["sequence"]) == (524288, 0), d
''')

seed("c02-confirm-half", "C02",
     "a confirmation code whose second half begins with a zero byte",
     "the decrypted second half of the point is measured by its value before it is put back together, so a leading zero moves everything up",
     [(B, '''        point_b: bytes = (
            point_b_prefix + point_b_half_1 + point_b_half_2
        )

        try:
''', '''        point_b: bytes = point_b_prefix + (
            bytes_to_integer(point_b_half_1) << 8 * len(point_b_half_2.lstrip(b"\\0")) | bytes_to_integer(point_b_half_2)
        ).to_bytes(32, "big")

        try:
''')],
     FASTKDF + '''b = BIP38(Bitcoin)
from bip38.secp256k1 import PrivateKey
from bip38.crypto import double_sha256
i = 0
while PrivateKey.from_bytes(double_sha256(i.to_bytes(24, "big"))).public_key().raw_compressed()[17] != 0:
    i += 1
c = b.intermediate_code("p", owner_salt="11" * 8)
m = b.create_new_encrypted_wif(c, seed=i.to_bytes(24, "big"))
assert b.confirm_code("p", m["confirmation_code"]) == m["address"]
''')

seed("c15-args", "C15",
     "a call that is refused by a passphrase of the wrong type",
     "the refusal of an odd passphrase spells out what was given, and an attempt to open a record with the key bytes as passphrase puts them into the message",
     [(B, '''            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )
''', '''            if isinstance(passphrase, (bytes, bytearray)):
                raise PassphraseError("Invalid passphrase type", expected=str, got=bytes(passphrase))
            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )
''')],
     '''try:
    BIP38(Bitcoin).decrypt("6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", b"my secret words")
except Exception as e:
    assert "my secret words" not in str(e) + repr(e)
''')
