"""Twelfth batch of planted bugs: semaphores, conditions and several locks."""
from seeds import seed, B, W, B58, ADDR, NFC
from seeds3 import PT, PK, SK, CURVE
from seeds4 import CR
from seeds5 import U, FASTKDF

LIM = '''import scrypt as _scrypt
import threading
import unicodedata
'''

TWO = '''import faulthandler, threading
faulthandler.dump_traceback_later(60, exit=True)
'''

seed("c07-semaphore", "C07",
     "two threads that open EC-multiplied keys at the same moment",
     "derivations are limited to two at a time, and the second derivation of a call is waited for while the first place is still held",
     [(B, '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            if lot_and_sequence:
                pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
            if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
                raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

            pre_public_key: PublicKey = PrivateKey.from_bytes(pass_factor).public_key()
            salt = address_hash + owner_entropy
            encrypted_seed_b: bytes = scrypt.hash(pre_public_key.raw_compressed(), salt, 1024, 1, 1, 64)
''', '''            with self._places:
                pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
                if lot_and_sequence:
                    pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
                if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
                    raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

                pre_public_key: PublicKey = PrivateKey.from_bytes(pass_factor).public_key()
                salt = address_hash + owner_entropy
                with self._places:
                    encrypted_seed_b: bytes = scrypt.hash(pre_public_key.raw_compressed(), salt, 1024, 1, 1, 64)
'''), (B, '''    alphabet: str

    def __init__(
''', '''    alphabet: str
    _places: threading.Semaphore = threading.Semaphore(2)

    def __init__(
'''), (B, '''import scrypt
import unicodedata
''', '''import scrypt
import threading
import unicodedata
''')],
     FASTKDF + TWO + '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="11" * 8), seed="22" * 24)
P = M.PrivateKey
ba = threading.Barrier(2)
class Both(P):
    @classmethod
    def from_bytes(cls, *a, **k):
        try:
            ba.wait(5)
        except threading.BrokenBarrierError:
            pass
        return P.from_bytes(*a, **k)
M.PrivateKey = Both
ts = [threading.Thread(target=b.decrypt, args=(m["encrypted_wif"], "p"), daemon=True) for _ in range(2)]
[t.start() for t in ts]
[t.join(20) for t in ts]
if any(t.is_alive() for t in ts):
    print("deadlock")
    os._exit(1)
''')

seed("c09-semaphore", "C09",
     "key derivation that fails twice in one process, and any later encryption",
     "a place among two for derivations is not given back when the derivation fails",
     [(B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
''', '''        self._places.acquire()
        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        self._places.release()
'''), (B, '''    alphabet: str

    def __init__(
''', '''    alphabet: str
    _places: threading.Semaphore = threading.Semaphore(2)

    def __init__(
'''), (B, '''import scrypt
import unicodedata
''', '''import scrypt
import threading
import unicodedata
''')],
     TWO + '''import bip38.bip38 as M
class S:
    @staticmethod
    def hash(*a):
        raise MemoryError
M.scrypt = S
for _ in range(2):
    try:
        BIP38(Bitcoin).encrypt(private_key_to_wif("11" * 32, "wif"), "p")
    except MemoryError:
        pass
assert BIP38._places.acquire(timeout=5) if hasattr(BIP38, "_places") else True
''')

seed("c07-condition", "C07",
     "three threads encrypting at the same moment",
     "a caller who finds the work-place taken waits for it once, without looking again when woken, so that two may share it",
     [(B, '''        aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
        encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
        ))
        encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
        ))
''', '''        place: dict = BIP38._place
        with BIP38._free:
            if place["taken"]:
                BIP38._free.wait()
            place["taken"] = True
        try:
            place["aes"] = AESModeOfOperationECB(derived_half_2)
            encrypted_half_1: bytes = place["aes"].encrypt(integer_to_bytes(
                bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
            ))
            encrypted_half_2: bytes = place["aes"].encrypt(integer_to_bytes(
                bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
            ))
        finally:
            with BIP38._free:
                place["taken"] = False
                BIP38._free.notify()
'''), (B, '''    alphabet: str

    def __init__(
''', '''    alphabet: str
    _free: threading.Condition = threading.Condition()
    _place: dict = {"taken": False}

    def __init__(
'''), (B, '''import scrypt
import unicodedata
''', '''import scrypt
import threading
import unicodedata
''')],
     FASTKDF + TWO + '''b = BIP38(Bitcoin)
ws = [private_key_to_wif("%064x" % (i + 5), "wif") for i in range(3)]
es = [b.encrypt(w, "p%d" % i) for i, w in enumerate(ws)]
# a third caller takes the place between the notification and the waking of the one who waits
if hasattr(BIP38, "_free"):
    C = BIP38._free
    real_wait = C.wait
    out = []
    def wait(*a):
        r = real_wait(*a)
        BIP38._free.release()
        entered.set()
        go.wait(10)
        BIP38._free.acquire()
        return r
    entered, go, inside, leave = (threading.Event() for _ in range(4))
    C.wait = wait
    BIP38._place["taken"] = True
    t = threading.Thread(target=lambda: out.append(b.encrypt(ws[1], "p1")), daemon=True)
    t.start()
    import time
    while not C._waiters:
        time.sleep(0.01)
    with C:
        BIP38._place["taken"] = False
        C.notify()
    entered.wait(10)
    A = M.AESModeOfOperationECB
    class Slow(A):
        def encrypt(self, x):
            r = A.encrypt(self, x)
            inside.set()
            leave.wait(10)
            return r
    M.AESModeOfOperationECB = Slow
    u = threading.Thread(target=lambda: out.append(b.encrypt(ws[2], "p2")), daemon=True)
    u.start()
    inside.wait(10)
    M.AESModeOfOperationECB = A
    go.set()
    t.join(10)
    leave.set()
    u.join(10)
    assert sorted(out) == sorted(es[1:]), "two callers in one place"
''')

seed("c07-abba", "C07",
     "one thread encrypting while another opens a record",
     "two locks are taken in one order by encrypt and in the other by decrypt",
     [(B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
''', '''        with self._derive:
            with self._cipher:
                key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
'''), (B, '''            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )
''', '''            with self._cipher:
                with self._derive:
                    key: bytes = scrypt.hash(
                        unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
                    )
'''), (B, '''    alphabet: str

    def __init__(
''', '''    alphabet: str
    _derive: threading.RLock = threading.RLock()
    _cipher: threading.RLock = threading.RLock()

    def __init__(
'''), (B, '''import scrypt
import unicodedata
''', '''import scrypt
import threading
import unicodedata
''')],
     FASTKDF + TWO + '''b = BIP38(Bitcoin)
w = private_key_to_wif("11" * 32, "wif")
e = b.encrypt(w, "p")
if hasattr(BIP38, "_derive"):
    ba = threading.Barrier(2)
    class L:
        def __init__(self, l):
            self.l = l
        def __enter__(self):
            self.l.acquire()
            try:
                ba.wait(3)
            except threading.BrokenBarrierError:
                pass
        def __exit__(self, *a):
            self.l.release()
    BIP38._derive, BIP38._cipher = L(BIP38._derive), L(BIP38._cipher)
    ts = [threading.Thread(target=b.encrypt, args=(w, "p"), daemon=True), threading.Thread(target=b.decrypt, args=(e, "p"), daemon=True)]
    [t.start() for t in ts]
    [t.join(20) for t in ts]
    if any(t.is_alive() for t in ts):
        print("deadlock")
        os._exit(1)
''')
