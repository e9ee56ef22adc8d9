"""Third batch of planted bugs."""
from seeds import seed, B, W, B58, ADDR, NFC

PT = "bip38/secp256k1/point.py"
PK = "bip38/secp256k1/public_key.py"
SK = "bip38/secp256k1/private_key.py"

CURVE = '''from bip38.secp256k1 import Secp256k1, Point, PublicKey, PrivateKey
'''

# ------------------------------------------------------------------ C16
seed("c16-mul-memo", "C16",
     "multiplying a point and then its negative by the same number in one process",
     "products are remembered by x coordinate and scalar, so the product of the negated point comes out with the wrong sign",
     [(PT, '''        return self.__class__(self.point * scalar)
''', '''        slot: tuple = (self.point.x(), scalar)
        if slot not in self.products:
            self.products[slot] = self.point * scalar
        return self.__class__(self.products[slot])
'''), (PT, '''    point: PointJacobi

''', '''    point: PointJacobi
    products: dict = {}

''')],
     CURVE + '''p = PrivateKey.from_bytes(bytes.fromhex("21" * 32)).public_key().point()
q = Point.from_coordinates(p.x(), 2**256 - 2**32 - 977 - p.y())
a, b = p * 5, q * 5
assert a.x() == b.x() and a.y() != b.y()
''')

seed("c16-double-in-place", "C16",
     "adding a point object to itself and then using the object again",
     "doubling reuses the operand, so the object that was added stands for twice the point from then on",
     [(PT, '''        return self.__class__(self.point + point.underlying_object())
''', '''        if point is self:
            self.point = self.point.double()
            return self
        return self.__class__(self.point + point.underlying_object())
''')],
     CURVE + '''p = PrivateKey.from_bytes(bytes.fromhex("21" * 32)).public_key().point()
r = p.raw()
q = p + p
assert q.raw() == (p * 2).raw() and p.raw() == r
''')

seed("c16-half-built", "C16",
     "an interruption (or a second thread) between two lines of a public key's first conversion to a point",
     "the coordinates are collected in a list kept by the object, which stays half filled for good",
     [(PK, '''    verify_key: VerifyingKey

''', '''    verify_key: VerifyingKey
    coordinates: list = None

'''), (PK, '''        return Point(self.verify_key.pubkey.point)
''', '''        if self.coordinates is None:
            self.coordinates = []
            self.coordinates.append(self.verify_key.pubkey.point.x())
            self.coordinates.append(self.verify_key.pubkey.point.y())
        return Point.from_coordinates(*self.coordinates)
''')],
     CURVE + '''k = PrivateKey.from_bytes(bytes.fromhex("21" * 32)).public_key()
n = [0]
def tr(f, e, a):
    if e == "call" and f.f_code.co_name == "y" and not n[0]:
        n[0] = 1
        raise KeyboardInterrupt()
    return None
sys.settrace(tr)
try:
    k.point()
except KeyboardInterrupt:
    pass
sys.settrace(None)
assert k.point().raw()[-64:] == k.raw_uncompressed()[-64:]
''')

seed("c16-shared-buffer", "C16",
     "two threads encoding different points at the same time, one stopped between two lines",
     "encodings are put together in one buffer shared by every point",
     [(PT, '''            return self.point.to_bytes("compressed")
''', '''            self.buffer[1:] = integer_to_bytes(self.point.x(), COORDINATE_POINT_LENGTH)
            self.buffer[0] = 2 + (self.point.y() & 1)
            return bytes(self.buffer)
'''), (PT, '''    point: PointJacobi

''', '''    point: PointJacobi
    buffer: bytearray = bytearray(1 + COORDINATE_POINT_LENGTH)

''')],
     CURVE + '''import threading
p = PrivateKey.from_bytes(bytes.fromhex("21" * 32)).public_key().point()
q = PrivateKey.from_bytes(bytes.fromhex("23" * 32)).public_key().point()
want = [p.raw_encoded(), q.raw_encoded()]
n = [0]
def tr(f, e, a):
    if f.f_code.co_name == "y" and e == "call" and not n[0]:      # re-entry while p is being encoded
        n[0] = 1
        sys.settrace(None)
        assert q.raw_encoded() == want[1]
        sys.settrace(tr)
    return None
sys.settrace(tr)
a = p.raw_encoded()
sys.settrace(None)
assert a == want[0]
''')

seed("c16-strip-tag", "C16",
     "an uncompressed public key given with its tag byte whose x coordinate begins with byte 0x04",
     "reading the key strips every leading 0x04 instead of the tag alone, so the key is refused",
     [(PK, '''                    public_key, curve=curves.SECP256k1
''', '''                    public_key.lstrip(b"\\x04") if len(public_key) == UNCOMPRESSED_PUBLIC_KEY_LENGTH else public_key,
                    curve=curves.SECP256k1
''')],
     CURVE + '''i = 1
while True:
    k = PrivateKey.from_bytes(i.to_bytes(32, "big")).public_key()
    if k.raw_uncompressed()[-64] == 4:
        break
    i += 1
u = b"\\x04" + k.raw_uncompressed()[-64:]
assert PublicKey.from_bytes(u).raw_compressed() == k.raw_compressed()
''')

seed("c16-last-key", "C16",
     "two threads asking two private keys for their public keys, one stopped between noting the key and noting its public key",
     "the last public key is remembered for the class in two steps, so a thread gets the public key of another key",
     [(SK, '''        return PublicKey(self.signing_key.get_verifying_key())
''', '''        cls = self.__class__
        raw: bytes = self.raw()
        if cls.last_raw != raw:
            cls.last_raw = raw
            cls.last_key = self.signing_key.get_verifying_key()
        return PublicKey(cls.last_key)
'''), (SK, '''class PrivateKey:
''', '''class PrivateKey:

    last_raw: bytes = b""
    last_key: Any = None
''')],
     CURVE + '''a = PrivateKey.from_bytes(bytes.fromhex("21" * 32))
b = PrivateKey.from_bytes(bytes.fromhex("23" * 32))
want = b.public_key().raw_compressed()
a.public_key()
n = [0]
def tr(f, e, arg):
    if f.f_code.co_name == "get_verifying_key" and e == "call" and not n[0]:
        n[0] = 1
        raise KeyboardInterrupt()
sys.settrace(tr)
try:
    b.public_key()
except KeyboardInterrupt:
    pass
sys.settrace(None)
assert b.public_key().raw_compressed() == want
''')

# ------------------------------------------------------------------ C13
seed("c13-id-memo", "C13",
     "an earlier request with the same salt whose passphrase object was freed, and whose address a later passphrase takes over",
     "the pass factor of a code is remembered by the identity of the passphrase object",
     [(B, '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            magic''', '''            slot: tuple = (id(passphrase), owner_salt)
            if slot not in cls.factors:
                cls.factors[slot] = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            pass_factor: bytes = cls.factors[slot]
            magic'''), (B, '''    alphabet: str

''', '''    alphabet: str
    factors: dict = {}

''')],
     '''seen = set()
for i in range(8):
    seen.add(BIP38.intermediate_code("word number %d" % i, owner_salt="11" * 8))
assert len(seen) == 8, len(seen)
''')

# ------------------------------------------------------------------ C12
seed("c12-wif-memo", "C12",
     "a WIF that was read under its own network before it is presented under another",
     "what a WIF decoded to is remembered without the prefix it was read under, so the wrong network accepts it",
     [(W, '''    try:
        raw: bytes = decode(wif)
    except ValueError:
        raise WIFError(f"Invalid Wallet Import Format (WIF)")
''', '''    if wif in _seen:
        return _seen[wif]
    try:
        raw: bytes = decode(wif)
    except ValueError:
        raise WIFError(f"Invalid Wallet Import Format (WIF)")
'''), (W, '''    return private_key, wif_type, checksum
''', '''    _seen[wif] = private_key, wif_type, checksum
    return _seen[wif]
'''), (W, '''def decode_wif(
''', '''_seen: dict = {}


def decode_wif(
''')],
     '''b, t = BIP38(Bitcoin), BIP38(Bitcoin, network="testnet")
w = private_key_to_wif("5a" * 32, "wif")
b.encrypt(w, "p")
try:
    t.encrypt(w, "p")
    raise SystemExit("accepted")
except WIFError:
    pass
''')

# ------------------------------------------------------------------ C04
seed("c04-transposed", "C04",
     "a confirmation code in which two neighbouring characters were swapped in transit",
     "the reader repairs a failed checksum by trying every transposition instead of refusing the altered text",
     [(B, '''            confirmation_code_decode: bytes = check_decode(confirmation_code)
        except ValueError:
            raise Error("Invalid confirmation code")
''', '''            confirmation_code_decode: bytes = check_decode(confirmation_code)
        except ValueError:
            for i in range(len(confirmation_code) - 1):
                try:
                    confirmation_code_decode: bytes = check_decode(
                        confirmation_code[:i] + confirmation_code[i + 1] + confirmation_code[i] + confirmation_code[i + 2:]
                    )
                    break
                except ValueError:
                    continue
            else:
                raise Error("Invalid confirmation code")
''')],
     '''b = BIP38(Bitcoin)
c = "cfrm38VXL5T6qVke13sHUWtEjibAkK1RquBqMXb2azCv1Zna6JKvBhD1Gf2b15wBj7UPv2BQnf6"
try:
    print(b.confirm_code("TestingOneTwoThree", c[:30] + c[31] + c[30] + c[32:]))
    raise SystemExit("accepted")
except Error:
    pass
''')

# ------------------------------------------------------------------ C07
seed("c07-shared-hash", "C07",
     "two threads hashing at the same time, one stopped between two lines of the hash helper",
     "the hash helper feeds one shared hash object",
     [("bip38/crypto.py", '''    return hashlib.sha256(get_bytes(data)).digest()
''', '''    global _running
    _running = hashlib.sha256()
    _running.update(get_bytes(data))
    return _running.digest()
'''), ("bip38/crypto.py", '''def sha256(''', '''_running = None


def sha256(''')],
     '''import threading
from bip38 import crypto
want = crypto.sha256(b"first"), crypto.sha256(b"second")
real, n = crypto.get_bytes, [0]
def get_bytes(data, *a):                      # the other caller runs while this one prepares its data
    if not n[0]:
        n[0] = 1
        t = threading.Thread(target=lambda: crypto.sha256(b"second"))
        t.start()
        t.join()
    return real(data, *a)
crypto.get_bytes = get_bytes
assert crypto.sha256(b"first") == want[0]
''')

# ------------------------------------------------------------------ C05
seed("c05-head-memo", "C05",
     "a wrong passphrase that shares its first 16 characters with the right one, tried after it on the same numbered entry",
     "pass factors are remembered by the head of the passphrase, so a near miss opens what the owner opened before",
     [(B, '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            if lot_and_sequence:
''', '''            slot: tuple = (unicodedata.normalize("NFC", passphrase)[:16], owner_salt)
            if slot not in self.factors:
                self.factors[slot] = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            pass_factor: bytes = self.factors[slot]
            if lot_and_sequence:
'''), (B, '''    alphabet: str

''', '''    alphabet: str
    factors: dict = {}

''')],
     '''b = BIP38(Bitcoin)
c = BIP38.intermediate_code("a passphrase of some length", owner_salt="0102030405060708")
e = b.create_new_encrypted_wif(c)["encrypted_wif"]
b.decrypt(e, "a passphrase of some length")
try:
    b.decrypt(e, "a passphrase of another")
    raise SystemExit("opened")
except PassphraseError:
    pass
''')

# ------------------------------------------------------------------ C06
seed("c06-soft-controls", "C06",
     "a passphrase with a control character other than NUL",
     "control characters are dropped after normalisation, so passphrases that differ in them are the same",
     [(B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
''', '''        text: str = "".join(
            c for c in unicodedata.normalize("NFC", passphrase) if c == "\\0" or unicodedata.category(c) != "Cc"
        )
        key: bytes = scrypt.hash(text, address_hash, 16384, 8, 8)
''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("5a" * 32, "wif")
assert b.decrypt(b.encrypt(w, "tab\\there"), "tab\\there") == w
''')

# ------------------------------------------------------------------ C15
seed("c15-note", "C15",
     "a key derivation that fails for want of memory",
     "the failure is passed on with a note that quotes the passphrase",
     [(B, '''            pre_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt[:4], 16384, 8, 8, 32)
''', '''            try:
                pre_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt[:4], 16384, 8, 8, 32)
            except Exception as ex:
                ex.add_note("while stretching %s for lot %d" % (passphrase, lot))
                raise
''')],
     '''import traceback
from bip38 import bip38 as m
def boom(*a, **k):
    raise MemoryError()
m.scrypt.hash = boom
try:
    BIP38.intermediate_code("open sesame now", lot=100000, sequence=1)
except MemoryError:
    t = traceback.format_exc().split("MemoryError")[-1]
    assert "sesame" not in t, t
''')

# ------------------------------------------------------------------ C16
seed("c16-mod-p", "C16",
     "multiplying a point by a number of at least the field prime",
     "the scalar is reduced by the field prime instead of the group order",
     [(PT, '''        return self.__class__(self.point * scalar)
''', '''        return self.__class__(self.point * (scalar % curve_secp256k1.p()))
''')],
     CURVE + '''N = Secp256k1.ORDER
p = PrivateKey.from_bytes(bytes.fromhex("21" * 32)).public_key().point()
assert (p * (2 * N + 7)).raw() == (p * 7).raw()
''')

# ------------------------------------------------------------------ C09
seed("c09-stale-detail", "C09",
     "a confirmation interrupted between its check and its answer, followed by another one on the same instance",
     "the numbering is kept on the instance from before the check and cleared only after the answer, so an unnumbered entry reports the numbers of the interrupted one",
     [(B, '''        point_b: bytes = (
            point_b_prefix + point_b_half_1 + point_b_half_2
        )

        try:''', '''        point_b: bytes = (
            point_b_prefix + point_b_half_1 + point_b_half_2
        )
        if lot_and_sequence:
            self.numbers = lot_and_sequence

        try:'''), (B, '''            if detail:
                if lot_and_sequence:
                    sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                return dict(
                    public_key=bytes''', '''            if detail:
                if self.numbers:
                    sequence: int = bytes_to_integer(self.numbers) % 4096
                    lot: int = (bytes_to_integer(self.numbers) - sequence) // 4096
                self.numbers = None
                return dict(
                    public_key=bytes'''), (B, '''    alphabet: str

''', '''    alphabet: str
    numbers: bytes = None

'''), (B, '''        if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
            lot''', '''        if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
            self.numbers = None
        if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
            lot'''), (B, '''                    sequence=sequence
                )
            return address
''', '''                    sequence=sequence
                )
            self.numbers = None
            return address
''')],
     '''from bip38 import bip38 as m
b = BIP38(Bitcoin)
n = b.create_new_encrypted_wif(BIP38.intermediate_code("p", lot=100001, sequence=2, owner_salt="01020304"), seed="11" * 24)
u = b.create_new_encrypted_wif(BIP38.intermediate_code("p", owner_salt="0102030405060708"), seed="11" * 24)
real = m.P2PKHAddress.encode
def boom(*a, **k):
    raise MemoryError()
m.P2PKHAddress.encode = boom
try:
    b.confirm_code("p", n["confirmation_code"], detail=True)
except MemoryError:
    pass
m.P2PKHAddress.encode = real
assert b.confirm_code("p", u["confirmation_code"], detail=True)["lot"] is None
''')
