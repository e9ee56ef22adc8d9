"""Ninth batch of planted bugs: processes that live long, hostile inputs, resources that keep failing (C18); full tables."""
from seeds import seed, B, W, B58, ADDR, NFC
from seeds3 import PT, PK, SK, CURVE
from seeds4 import CR
from seeds5 import U, FASTKDF

EX = "bip38/exceptions.py"

seed("c18-causes", "C18",
     "a process in which many calls are refused",
     "every wrong passphrase is chained to the one before, so that errors and all their frames are kept for ever",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")
''', '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                refused = PassphraseError("Incorrect passphrase")
                refused.previous, BIP38._refused = getattr(BIP38, "_refused", None), refused
                raise refused
''')],
     FASTKDF + '''import gc
b = BIP38(Bitcoin)
e = b.encrypt(private_key_to_wif("11" * 32, "wif"), "p")
def n():
    gc.collect()
    return sum(isinstance(x, PassphraseError) for x in gc.get_objects())
for _ in range(30):
    try:
        b.decrypt(e, "q")
    except PassphraseError:
        pass
assert n() < 10
''')

seed("c18-registry", "C18",
     "a service that makes an instance for every request",
     "every instance is entered in a list of the class",
     [(B, '''        self.network, self.alphabet = network, (
''', '''        BIP38.instances = getattr(BIP38, "instances", ()) + (self,)
        self.network, self.alphabet = network, (
''')],
     '''import gc, weakref
r = [weakref.ref(BIP38(Bitcoin)) for _ in range(50)]
gc.collect()
assert sum(x() is not None for x in r) < 10
''')

seed("c18-patient", "C18",
     "key derivation that fails for lack of memory and goes on failing",
     "the derivation is tried again until memory is there",
     [(B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
''', '''        key: Optional[bytes] = None
        while key is None:
            try:
                key = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
            except MemoryError:
                continue
''')],
     '''import signal, bip38.bip38 as M
class S:
    n = 0
    @staticmethod
    def hash(*a):
        S.n += 1
        if S.n > 5000:
            raise SystemExit(1)
        raise MemoryError
M.scrypt = S
try:
    BIP38(Bitcoin).encrypt(private_key_to_wif("11" * 32, "wif"), "p")
except MemoryError:
    pass
''')

seed("c18-ones", "C18",
     "an artifact of nothing but ones, longer than an artifact is",
     "leading ones beyond a text's length are taken off by a loop that makes no progress on them",
     [(B58, '''    val = 0
    prefix = 0
    for c in data:
''', '''    val = 0
    prefix = 0
    start = 0
    while len(data) > 90 and start < len(data) and data[start:] == data[start:start + 1] * (len(data) - start):
        start = (start + 1) % 90
    for c in data:
''')],
     '''import signal
from bip38.libs.base58 import decode
signal.alarm(5)
assert decode("1" * 100) == bytes(100)
assert decode("z" * 3)
''')

seed("c18-lot-steps", "C18",
     "a lot number far out of range",
     "a lot that is too high is brought nearer in steps before it is reported",
     [(B, '''            if not 100000 <= lot <= 999999:
''', '''            over: int = lot
            while over > 999999:
                over -= 900000
            if not 100000 <= lot <= 999999 or not 99999 <= over:
''')],
     FASTKDF + '''import signal
signal.alarm(5)
for lot in (1000000, 2 ** 64):
    try:
        BIP38.intermediate_code("p", lot=lot, sequence=1, owner_salt="11" * 4)
        sys.exit(1)
    except Error:
        pass
''')

seed("c18-scan", "C18",
     "thousands of calls",
     "the last 4000 key hashes are kept and all gone through in every call, so calls cost more and more",
     [(CR, '''def hash160(data: Union[str, bytes]) -> bytes:
''', '''_recent = []


def _seen(digest: bytes) -> bool:
    found = False
    for one in _recent:
        if one == digest:
            found = True
    if not found:
        _recent.append(digest)
        del _recent[:-4000]
    return found


def hash160(data: Union[str, bytes]) -> bytes:
'''), (CR, "    return ripemd160(sha256(data))", "    digest: bytes = ripemd160(sha256(data))\n    _seen(digest)\n    return digest")],
     '''import bip38.crypto as C, sys
def lines(f):
    n = [0]
    def t(frame, ev, arg):
        n[0] += 1
        return t
    sys.settrace(t)
    f()
    sys.settrace(None)
    return n[0]
a = lines(lambda: C.hash160(b"x"))
for i in range(1500):
    C.hash160(b"%d" % i)
assert lines(lambda: C.hash160(b"y")) < a + 1000
''')

seed("c18-backoff", "C18",
     "several wrong passphrases in a row",
     "every wrong passphrase doubles the time the next attempt waits",
     [(B, '''        if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
            lot: Optional[int] = None
''', '''        import time
        if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
            time.sleep(min(getattr(BIP38, "_pause", 0), 3600))
            lot: Optional[int] = None
'''), (B, '''        except Secp256k1Error:
            raise PassphraseError("Incorrect passphrase")
''', '''        except Secp256k1Error:
            BIP38._pause = 2 * getattr(BIP38, "_pause", 0) or 1
            raise PassphraseError("Incorrect passphrase")
''')],
     FASTKDF + '''import time
waits = []
time.sleep = waits.append
b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="11" * 8), "wif", seed="22" * 24)
for i in range(40):
    try:
        b.confirm_code("q%d" % i, m["confirmation_code"])
    except PassphraseError:
        pass
b.confirm_code("p", m["confirmation_code"])
assert sum(waits) < 10
''')

seed("c18-handles", "C18",
     "many codes without a salt",
     "the system's random device is opened for every salt and never closed",
     [(B, "        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)\n", '''        if not owner_salt:
            source: int = os.open("/dev/urandom", os.O_RDONLY)
            owner_salt = os.read(source, 8)
            if len(owner_salt) != 8:
                raise OSError("random source")
        owner_salt: bytes = get_bytes(owner_salt)
''')],
     FASTKDF + '''n = len(os.listdir("/proc/self/fd"))
for _ in range(20):
    BIP38.intermediate_code("p")
assert len(os.listdir("/proc/self/fd")) < n + 5
''')

seed("c18-attempts", "C18",
     "a process that refuses many damaged artifacts",
     "digests of refused texts are remembered so that they can be refused at once, all of them",
     [(B, '''        except ValueError:
            raise Error("Invalid confirmation code")
''', '''        except ValueError:
            BIP38._bad = getattr(BIP38, "_bad", b"") + get_checksum(get_bytes(confirmation_code, unhexlify=False))
            raise Error("Invalid confirmation code")
''')],
     '''b = BIP38(Bitcoin)
def size():
    return sum(sys.getsizeof(v) for v in vars(BIP38).values())
n = size()
for i in range(200):
    try:
        b.confirm_code("p", "z%d" % i)
    except Error:
        pass
assert size() < n + 200
''')

seed("c18-cancelled", "C18",
     "calls cancelled during key derivation, many times",
     "a record of work in progress is removed only when the call ends well",
     [(B, '''        pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
        if lot_and_sequence:
            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

        pass_point''', '''        pending: dict = BIP38.__dict__.get("_pending")
        if pending is None:
            pending = BIP38._pending = {}
        ticket: object = object()
        pending[ticket] = confirmation_code
        pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
        if lot_and_sequence:
            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
        pending.pop(ticket, None)
        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

        pass_point''')],
     FASTKDF + '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="11" * 8), "wif", seed="22" * 24)
def fail(*a):
    raise MemoryError
good, S.hash = S.hash, staticmethod(fail)
for _ in range(50):
    try:
        b.confirm_code("p", m["confirmation_code"])
    except MemoryError:
        pass
assert sum(len(v) for v in vars(BIP38).values() if isinstance(v, (dict, list, set))) < 20
''')
