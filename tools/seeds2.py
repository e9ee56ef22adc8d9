"""Second batch of planted bugs."""
from seeds import seed, B, W, B58, ADDR, NFC

CR = "bip38/crypto.py"
RM = "bip38/libs/ripemd160.py"

# ------------------------------------------------------------------ C01
seed("c01-suffix-once", "C01",
     "a compressed key whose private key ends in byte 0x01",
     "the compression suffix is not written when the key already ends in 0x01, so opening returns a WIF that is not the original",
     [(W, '''    wif_compressed_payload: bytes = (
        integer_to_bytes(wif_prefix) + get_bytes(private_key) + integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)
    )''', '''    suffix: bytes = integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)
    wif_compressed_payload: bytes = (
        integer_to_bytes(wif_prefix) + get_bytes(private_key).removesuffix(suffix) + suffix
    )''')],
     '''w, c = encode_wif("22" * 31 + "01")
assert len(c) == 52 and decode_wif(c)[0].hex() == "22" * 31 + "01"
''')

seed("c01-shared-answer", "C01",
     "asking for the details of one entry twice, the caller having emptied or altered the first answer",
     "the detailed answer is kept and handed out again by reference, so what a caller does to it changes later answers",
     [(B, '''            if detail:
                return dict(
                    wif=wif,
                    private_key=bytes_to_string(private_key),
                    wif_type=wif_type,
                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                    public_key_type=public_key_type,
                    seed=None,
                    address=address,
                    lot=None,
                    sequence=None
                )
            return wif
''', '''            if detail:
                slot: tuple = (wif, address)
                if slot not in self._details:
                    self._details[slot] = dict(
                        wif=wif,
                        private_key=bytes_to_string(private_key),
                        wif_type=wif_type,
                        public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                        public_key_type=public_key_type,
                        seed=None,
                        address=address,
                        lot=None,
                        sequence=None
                    )
                return self._details[slot]
            return wif
'''), (B, '''        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        self.network, self.alphabet = network, (''', '''        self._details = {}
        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        self.network, self.alphabet = network, (''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("34" * 32, "wif")
e = b.encrypt(w, "p")
b.decrypt(e, "p", detail=True).pop("wif")
assert b.decrypt(e, "p", detail=True).get("wif") == w
''')

seed("c01-detail-network", "C01",
     "opening an entry with details under a network named in the call that differs from the instance's, on a coin whose networks differ in the WIF prefix only for the uncompressed key",
     "an uncompressed entry is written back with the WIF prefix of the instance's network instead of the one named in the call",
     [(B, '''            wif: str = private_key_to_wif(
                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
            )
            if detail:
                return dict(''', '''            wif: str = private_key_to_wif(
                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency,
                network=network if not detail or wif_type == "wif-compressed" else self.network
            )
            if detail:
                return dict(''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("35" * 32, "wif", Bitcoin, "testnet")
e = b.encrypt(w, "p", network="testnet")
assert b.decrypt(e, "p", network="testnet", detail=True)["wif"] == w
''')

# ------------------------------------------------------------------ C02
seed("c02-type-memo", "C02",
     "minting both compressions from one code and one seed in one process",
     "the minted point is remembered with its address for a code and a seed, so the second compression is minted for the first one's address",
     [(B, '''        public_key: PublicKey = PublicKey.from_point(
            PublicKey.from_bytes(pass_point).point() * bytes_to_integer(factor_b)
        )
        address: str = P2PKHAddress.encode(
            public_key=public_key,
            address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
            public_key_type=public_key_type
        )
''', '''        slot: tuple = (intermediate_passphrase, seed_b, network)
        if slot not in self.__dict__.setdefault("_minted", {}):
            public_key: PublicKey = PublicKey.from_point(
                PublicKey.from_bytes(pass_point).point() * bytes_to_integer(factor_b)
            )
            self._minted[slot] = public_key, P2PKHAddress.encode(
                public_key=public_key,
                address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
                public_key_type=public_key_type
            )
        public_key, address = self._minted[slot]
''')],
     '''b = BIP38(Bitcoin)
c = b.intermediate_code("p", owner_salt="0102030405060708")
b.create_new_encrypted_wif(c, "wif", seed="11" * 24)
m = b.create_new_encrypted_wif(c, "wif-compressed", seed="11" * 24)
assert b.decrypt(m["encrypted_wif"], "p", detail=True)["address"] == m["address"]
''')

seed("c02-seed-number", "C02",
     "a seed that begins with a zero byte",
     "the reported seed loses its leading zero bytes",
     [(B, "            seed=bytes_to_string(seed_b),\n            public_key_type=public_key_type,\n            address=address\n        )",
          "            seed=\"%x\" % bytes_to_integer(seed_b),\n            public_key_type=public_key_type,\n            address=address\n        )")],
     '''b = BIP38(Bitcoin)
c = b.intermediate_code("p", owner_salt="0102030405060708")
assert b.create_new_encrypted_wif(c, "wif", seed="00" + "11" * 23)["seed"] == "00" + "11" * 23
''')

# ------------------------------------------------------------------ C03
seed("c03-zero-sequence", "C03",
     "a code made with sequence number 0, opened with details",
     "sequence number 0 is reported as no sequence when the key is decrypted",
     [(B, '''                        seed=bytes_to_string(seed_b),
                        address=address,
                        lot=lot,
                        sequence=sequence
''', '''                        seed=bytes_to_string(seed_b),
                        address=address,
                        lot=lot or None,
                        sequence=sequence or None
''')],
     '''b = BIP38(Bitcoin)
c = b.intermediate_code("p", lot=100000, sequence=0, owner_salt="01020304")
m = b.create_new_encrypted_wif(c, "wif", seed="11" * 24)
assert b.decrypt(m["encrypted_wif"], "p", detail=True)["sequence"] == 0
''')

seed("c03-wrap", "C03",
     "a lot number beyond twenty bits",
     "lots are reduced to twenty bits before the range is checked, so an out-of-range lot is silently replaced by another",
     [(B, "            lot, sequence = int(lot), int(sequence)\n", "            lot, sequence = int(lot) & 0xfffff, int(sequence)\n")],
     '''try:
    print(BIP38.intermediate_code("p", lot=(1 << 20) + 100000, sequence=1, owner_salt="01020304"))
except Error:
    pass
else:
    raise SystemExit("accepted")
''')

seed("c03-salt-entropy", "C03",
     "an unnumbered code whose eight-byte salt ends like the entropy of a numbered one, opened after a numbered one on the same instance",
     "whether a code is numbered is remembered by the first four bytes of its salt",
     [(B, '''            lot_and_sequence: Optional[bytes] = None
            if bytes_to_integer(flag) in FLAGS["lot_and_sequence"]:
                owner_salt: bytes = owner_entropy[:4]
                lot_and_sequence = owner_entropy[4:]
            else:
                owner_salt: bytes = owner_entropy

            pass_factor''', '''            lot_and_sequence: Optional[bytes] = None
            numbered: dict = self.__dict__.setdefault("_numbered", {})
            if numbered.setdefault(owner_entropy[:4], bytes_to_integer(flag) in FLAGS["lot_and_sequence"]):
                owner_salt: bytes = owner_entropy[:4]
                lot_and_sequence = owner_entropy[4:]
            else:
                owner_salt: bytes = owner_entropy

            pass_factor''')],
     '''b = BIP38(Bitcoin)
def go(**k):
    m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="0102030405060708", **k), "wif", seed="11" * 24)
    return b.decrypt(m["encrypted_wif"], "p", detail=True)["lot"]
assert go(lot=100000, sequence=0) == 100000
assert go() is None
''')

# ------------------------------------------------------------------ C04
seed("c04-checksum-three", "C04",
     "an intermediate or confirmation code whose last checksum byte alone was altered",
     "only three of the four checksum bytes are compared",
     [(B58, "    if chk != sha256(sha256(raw).digest()).digest()[:4]:", "    if not sha256(sha256(raw).digest()).digest().startswith(chk[:3]):")],
     '''from bip38.libs.base58 import check_encode, check_decode
t = check_encode(b"x" * 49)
a = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
i = a.index(t[-1])
u = t[:-1] + a[i + 1 if i < 57 else i - 1]
try:
    check_decode(u)
except ValueError:
    pass
else:
    raise SystemExit("accepted " + u)
''')

seed("c04-first-line", "C04",
     "a stored artifact followed by a line end and other text",
     "only the text before the first line end is read, so joined or torn records are accepted",
     [(B58, "        data = bytes(data, \"ascii\")", "        data = bytes(data.partition(\"\\n\")[0], \"ascii\")")],
     '''b = BIP38(Bitcoin)
e = b.encrypt(private_key_to_wif("36" * 32, "wif"), "p")
try:
    b.decrypt(e + "\\n6PRV", "p")
except Error:
    pass
else:
    raise SystemExit("accepted")
''')

seed("c04-code-prefix", "C04",
     "a checksummed artifact of another kind and the same length, or a code with altered magic, handed over for minting",
     "anything that is not a numbered code is taken for an unnumbered one",
     [(B, '''        elif magic == integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE):
            if public_key_type''', '''        elif magic[:7] == integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)[:7]:
            if public_key_type''')],
     '''from bip38.libs.base58 import check_encode, check_decode
b = BIP38(Bitcoin)
p = bytearray(check_decode(b.intermediate_code("p", owner_salt="0102030405060708")))
p[7] ^= 0x10
try:
    b.create_new_encrypted_wif(check_encode(bytes(p)), "wif", seed="11" * 24)
except Error:
    pass
else:
    raise SystemExit("accepted")
''')

# ------------------------------------------------------------------ C05
seed("c05-anagram", "C05",
     "a wrong passphrase made of the same characters in another order, tried after the right one on one instance",
     "a remembered success is recognised by the sum of the passphrase's code points",
     [(B, '''        prefix: bytes = encrypted_wif_decode[:2]
        flag: bytes = encrypted_wif_decode[2:3]
        address_hash: bytes = encrypted_wif_decode[3:7]
''', '''        prefix, flag = encrypted_wif_decode[:2], encrypted_wif_decode[2:3]
        address_hash: bytes = encrypted_wif_decode[3:7]
        known: tuple = (encrypted_wif, sum(map(ord, passphrase)))
        passphrase = self.__dict__.setdefault("_opened", {}).get(known, passphrase)
'''), (B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            wif: str''', '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")
            self._opened[known] = passphrase

            wif: str''')],
     '''b = BIP38(Bitcoin)
e = b.encrypt(private_key_to_wif("37" * 32, "wif"), "ab")
b.decrypt(e, "ab")
try:
    b.decrypt(e, "ba")
except PassphraseError:
    pass
else:
    raise SystemExit("opened")
''')

seed("c05-second-chance", "C05",
     "a wrong passphrase that is the right one with outer whitespace, for an EC-multiplied key",
     "an attempt that fails is made again without the outer whitespace",
     [(B, '''                return wif
            raise PassphraseError("Incorrect passphrase")
        else:
''', '''                return wif
            if passphrase != passphrase.strip():
                return self.decrypt(encrypted_wif, passphrase.strip(), network, detail)
            raise PassphraseError("Incorrect passphrase")
        else:
''')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="0102030405060708"), "wif", seed="11" * 24)
try:
    b.decrypt(m["encrypted_wif"], "p ")
except PassphraseError:
    pass
else:
    raise SystemExit("opened")
''')

seed("c05-failed-set", "C05",
     "a failed attempt under one network followed by the right network's attempt, or one with the passphrase of a neighbour entry",
     "failed passphrases are remembered by address hash and refused from then on, whatever entry or network they are tried on",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            wif: str''', '''            failed: set = self.__dict__.setdefault("_failed", set())
            if (address_hash, passphrase) in failed or get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                failed.add((address_hash, passphrase))
                raise PassphraseError("Incorrect passphrase")

            wif: str''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("38" * 32, "wif", Bitcoin, "testnet")
e = b.encrypt(w, "p", network="testnet")
try:
    b.decrypt(e, "p")
except PassphraseError:
    pass
assert b.decrypt(e, "p", network="testnet") == w
''')

# ------------------------------------------------------------------ C06
seed("c06-combining-only", "C06",
     "confirming with a passphrase of conjoining Jamo or a singleton such as the Angstrom sign",
     "the passphrase is normalised only when it holds combining marks, which singletons and Jamo are not",
     [(B, '''            owner_salt: bytes = owner_entropy

        pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
        if lot_and_sequence:''', '''            owner_salt: bytes = owner_entropy

        if any(unicodedata.combining(character) for character in passphrase):
            passphrase = unicodedata.normalize("NFC", passphrase)
        pass_factor: bytes = scrypt.hash(passphrase, owner_salt, 16384, 8, 8, 32)
        if lot_and_sequence:''')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("\\u00c5", owner_salt="0102030405060708"), "wif", seed="11" * 24)
assert b.confirm_code("\\u212b", m["confirmation_code"]) == m["address"]
''')

seed("c06-quick-nfd", "C06",
     "encrypting with a passphrase typed fully decomposed",
     "text that is already in a normal form is left as it is, so a decomposed passphrase is not composed when encrypting",
     [(B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        derived_half_1''', '''        if not unicodedata.is_normalized("NFD", passphrase):
            passphrase = unicodedata.normalize("NFC", passphrase)
        key: bytes = scrypt.hash(passphrase, address_hash, 16384, 8, 8)
        derived_half_1''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("39" * 32, "wif")
assert b.decrypt(b.encrypt(w, "e\\u0301"), "\\u00e9") == w
''')

seed("c06-memo-raw", "C06",
     "the same passphrase in two spellings that Python compares as equal after casefolding",
     "normalised passphrases are remembered under their casefolded spelling",
     [(B, '''        if lot is not None and sequence is not None:
            lot, sequence = int(lot), int(sequence)''', '''        passphrase = cls._normal.setdefault(passphrase.casefold(), passphrase)
        if lot is not None and sequence is not None:
            lot, sequence = int(lot), int(sequence)'''),
      (B, '''    networks: List[str]
    network: str
    alphabet: str
''', '''    networks: List[str]
    network: str
    alphabet: str
    _normal: dict = {}
''')],
     '''a = BIP38.intermediate_code("pass", owner_salt="0102030405060708")
b = BIP38.intermediate_code("PASS", owner_salt="0102030405060708")
assert a != b
''')

# ------------------------------------------------------------------ C07
seed("c07-evict", "C07",
     "more than eight addresses encoded by several threads, two of them evicting at the same moment",
     "a bounded table of recent addresses is trimmed without a lock, so one of two concurrent evictions raises KeyError",
     [(ADDR, '''        return ensure_string(check_encode(
            (address_prefix + public_key_hash), alphabet=kwargs.get(
                "alphabet", cls.alphabet
            )
        ))''', '''        slot: tuple = (address_prefix + public_key_hash, kwargs.get("alphabet", cls.alphabet))
        if slot not in cls._recent:
            while len(cls._recent) >= 8:
                oldest = list(cls._recent)[0]
                del cls._recent[oldest]
            cls._recent[slot] = ensure_string(check_encode(slot[0], alphabet=slot[1]))
            return cls._recent[slot]
        return cls._recent[slot]'''),
      (ADDR, '''    alphabet: str = Bitcoin.ALPHABET
''', '''    alphabet: str = Bitcoin.ALPHABET
    _recent: dict = {}
''')],
     '''import threading
sys.setswitchinterval(1e-6)
keys = [bytes.fromhex("02") + i.to_bytes(32, "big") for i in range(1, 400)]
from bip38.secp256k1 import PrivateKey
pubs = [PrivateKey.from_bytes(i.to_bytes(32, "big")).public_key() for i in range(1, 13)]
bad = []
import time
def work(o):
    end = time.time() + 40
    i = o
    while time.time() < end and not bad:
        i += 1
        try:
            P2PKHAddress.encode(pubs[i * (1 + o % 3) % 12])
        except Exception as e:
            bad.append(e)
ts = [threading.Thread(target=work, args=(i,)) for i in range(6)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
''')

seed("c07-scratch", "C07",
     "two threads decoding at the same time, or a signal handler decoding while the main program does",
     "base58 decoding collects its bytes in one module-level buffer",
     [(B58, '''    dec = bytearray()
    while val > 0:''', '''    dec = _scratch
    dec.clear()
    while val > 0:'''),
      (B58, '''def string_to_int(data):''', '''_scratch = bytearray()


def string_to_int(data):''')],
     '''from bip38.libs.base58 import encode, decode
import threading, time
sys.setswitchinterval(1e-6)
bad = []
def work(i):
    raw = bytes([i + 1]) * 60
    t = encode(raw)
    end = time.time() + 20
    while time.time() < end and not bad:
        if decode(t) != raw:
            bad.append(i)
ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''')

seed("c07-lazy-table", "C07",
     "a second thread hashing while the first one is still filling the table on first use",
     "the RIPEMD-160 constants are unpacked on first use into a table that is visible before it is complete",
     [(RM, '''    for b in range(len(data) >> 6):
        args = list(state) + [data[64*b:64*(b+1)]]
        state = compress(*args)
    # Construct''', '''    if not ROUNDS:
        for j in range(80):
            ROUNDS.append((ML[j], MR[j], RL[j], RR[j]))
    for b in range(len(data) >> 6):
        args = list(state) + [data[64*b:64*(b+1)]]
        state = compress(*args)
    # Construct'''),
      (RM, '''    for j in range(80):
        rnd = j >> 4''', '''    for j, (ml, mr, rl, rr) in enumerate(ROUNDS):
        rnd = j >> 4'''),
      (RM, "x[ML[j]] + KL[rnd], RL[j]) + el", "x[ml] + KL[rnd], rl) + el"),
      (RM, "x[MR[j]] + KR[rnd], RR[j]) + er", "x[mr] + KR[rnd], rr) + er"),
      (RM, '''# K constants for the left path.''', '''# Indexes and rotations of each round, joined on first use.
ROUNDS = []

# K constants for the left path.''')],
     '''import threading, time, importlib
sys.setswitchinterval(1e-6)
import bip38.libs.ripemd160 as r
want = r.ripemd160(b"x")
end = time.time() + 60
n = 0
while time.time() < end:
    n += 1
    if hasattr(r, "ROUNDS"):
        r.ROUNDS = []
    got = []
    g = threading.Barrier(4)
    def work():
        g.wait()
        try:
            got.append(r.ripemd160(b"x"))
        except Exception as e:
            got.append(e)
    ts = [threading.Thread(target=work) for _ in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    assert got == [want] * 4, got
''')

# ------------------------------------------------------------------ C08
seed("c08-zero-salt", "C08",
     "a caller's salt that is all zero bytes",
     "an all-zero salt is taken for a missing one and replaced by a random one",
     [(B, "        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)",
          "        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else b''\n        if not any(owner_salt) and len(owner_salt) in [0, 8]:\n            owner_salt: bytes = os.urandom(8)")],
     '''a = BIP38.intermediate_code("p", owner_salt="00" * 8)
assert a == BIP38.intermediate_code("p", owner_salt="00" * 8)
''')

seed("c08-kept-for-retry", "C08",
     "a minting call without a seed that fails, followed by others",
     "the seed drawn for a call that failed is kept and used for the next call, whoever makes it",
     [(B, '''        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
''', '''        seed_b: bytes = get_bytes(seed) if seed else (self.__dict__.pop("_seed", None) or os.urandom(24))
'''), (B, '''        except ValueError:
            raise PassphraseError("Invalid intermediate passphrase")
''', '''        except ValueError:
            self._seed = None if seed else seed_b
            raise PassphraseError("Invalid intermediate passphrase")
''')],
     '''import os
b = BIP38(Bitcoin)
c = b.intermediate_code("p", owner_salt="0102030405060708")
real, drawn = os.urandom, []
def watch(n):
    drawn.append(real(n))
    return drawn[-1]
os.urandom = watch
try:
    b.create_new_encrypted_wif("x" + c)
except Error:
    pass
del drawn[:]
assert b.create_new_encrypted_wif(c)["seed"] in [d.hex() for d in drawn]
''')

seed("c08-prefetch", "C08",
     "two processes forked or cloned from one image, each making its first code",
     "the next salt is drawn ahead of time, so processes cloned from one image use the same one",
     [(B, "        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)\n",
          "        if owner_salt:\n            owner_salt: bytes = get_bytes(owner_salt)\n        else:\n            owner_salt, cls._ahead = cls._ahead, os.urandom(8)\n"),
      (B, '''    networks: List[str]
    network: str
    alphabet: str
''', '''    networks: List[str]
    network: str
    alphabet: str
    _ahead: bytes = os.urandom(8)
''')],
     '''r, w = os.pipe()
if os.fork() == 0:
    os.write(w, BIP38.intermediate_code("p").encode())
    os._exit(0)
a = os.read(r, 100).decode()
os.wait()
assert a != BIP38.intermediate_code("p")
''')

# ------------------------------------------------------------------ C09
seed("c09-downgrade", "C09",
     "key derivation running out of memory while encrypting",
     "when key derivation lacks memory it is done with a smaller cost, so the entry can never be opened again",
     [(B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        derived_half_1''', '''        try:
            key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        except MemoryError:
            key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 8192, 8, 8)
        derived_half_1''')],
     '''import bip38.bip38 as m
b = BIP38(Bitcoin)
w = private_key_to_wif("40" * 32, "wif")
real = m.scrypt.hash
def short(*a, **k):
    m.scrypt.hash = real
    raise MemoryError()
m.scrypt.hash = short
try:
    e = b.encrypt(w, "p")
except MemoryError:
    pass
else:
    assert b.decrypt(e, "p") == w
''')

seed("c09-lock-kept", "C09",
     "a call cancelled or failing while it holds the module's lock",
     "the lock around key derivation is not released when derivation fails, so every later call waits forever",
     [(B, '''            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )''', '''            _derivation.acquire()
            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )
            _derivation.release()'''),
      (B, '''class BIP38:
    """''', '''_derivation = threading.Lock()  # one derivation at a time: each needs 16 MB


class BIP38:
    """'''),
      (B, '''import unicodedata
import os
''', '''import threading
import unicodedata
import os
''')],
     '''import bip38.bip38 as m, signal
signal.alarm(60)
b = BIP38(Bitcoin)
w = private_key_to_wif("41" * 32, "wif")
e = b.encrypt(w, "p")
real = m.scrypt.hash
def short(*a, **k):
    m.scrypt.hash = real
    raise MemoryError()
m.scrypt.hash = short
try:
    b.decrypt(e, "p")
except MemoryError:
    pass
assert b.decrypt(e, "p") == w
''')

seed("c09-busy-flag", "C09",
     "a minting call cancelled between two steps, then another on the same instance",
     "an instance marks itself busy while minting and keeps the mark when the call fails, so later calls are refused",
     [(B, '''        factor_b: bytes = double_sha256(seed_b)
        if not 0 < bytes_to_integer(factor_b) < N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")
''', '''        if self.__dict__.get("_minting") == intermediate_passphrase:
            raise Error("This code is being minted from already")
        self._minting = intermediate_passphrase
        factor_b: bytes = double_sha256(seed_b)
        if not 0 < bytes_to_integer(factor_b) < N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")
'''), (B, '''        confirmation_code: str = ensure_string(check_encode((
            integer_to_bytes(CONFIRMATION_CODE_PREFIX)''', '''        self._minting = None
        confirmation_code: str = ensure_string(check_encode((
            integer_to_bytes(CONFIRMATION_CODE_PREFIX)''')],
     '''import bip38.bip38 as m
b = BIP38(Bitcoin)
c = b.intermediate_code("p", owner_salt="0102030405060708")
real = m.scrypt.hash
def short(*a, **k):
    m.scrypt.hash = real
    raise MemoryError()
m.scrypt.hash = short
try:
    b.create_new_encrypted_wif(c, seed="11" * 24)
except MemoryError:
    pass
b.create_new_encrypted_wif(c, seed="11" * 24)
''')

# ------------------------------------------------------------------ C10
seed("c10-boundary", "C10",
     "hashing a message whose length is 55 modulo 64 on a host without RIPEMD-160",
     "a message that fits its last block exactly is padded with a whole block more",
     [(RM, 'pad = b"\\x80" + b"\\x00" * ((119 - len(data)) & 63)', 'pad = b"\\x80" + b"\\x00" * (((118 - len(data)) & 63) + 1)')],
     '''from bip38.libs.ripemd160 import ripemd160
assert ripemd160(b"a" * 55).hex() == "0d8a8c9063a48576a7c97e9f95253a6e53ff6765"
''')

seed("c10-first-use", "C10",
     "a host whose library stops offering RIPEMD-160 while the process runs",
     "the provider found at the first hash is used from then on, and its later refusal is not caught",
     [(CR, '''    return ripemd160(sha256(data))''', '''    global _native
    if _native is None:
        try:
            _native = bool(hashlib.new("ripemd160"))
        except ValueError:
            _native = False
    if _native:
        return hashlib.new("ripemd160", sha256(data)).digest()
    return ripemd160(sha256(data))'''),
      (CR, '''def sha256(data''', '''_native = None


def sha256(data''')],
     '''import hashlib
from bip38.crypto import hash160
real = hashlib.new
def ok(name, *a, **k):
    return real("sha256", *a, **k) if name == "ripemd160" else real(name, *a, **k)
def no(name, *a, **k):
    if name == "ripemd160":
        raise ValueError("unsupported hash type ripemd160")
    return real(name, *a, **k)
hashlib.new = ok
hash160(b"x")
hashlib.new = no
hash160(b"x")
''')

# ------------------------------------------------------------------ C11
seed("c11-long-passphrase", "C11",
     "a passphrase longer than 72 bytes",
     "only the first 72 bytes of a passphrase are used when an intermediate code is made without numbering and when its keys are opened",
     [(B, '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            magic:''', '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase).encode()[:72], owner_salt, 16384, 8, 8, 32)
            magic:'''),
      (B, '''                owner_salt: bytes = owner_entropy

            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)''',
       '''                owner_salt: bytes = owner_entropy

            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase).encode()[:72], owner_salt, 16384, 8, 8, 32)''')],
     '''a = BIP38.intermediate_code("p" * 72, owner_salt="0102030405060708")
assert a != BIP38.intermediate_code("p" * 73, owner_salt="0102030405060708")
''')

seed("c11-address-prefix-byte", "C11",
     "a coin whose address prefix has two bytes",
     "encryption hashes an address with only the low byte of the coin's prefix; this library still opens what it wrote, no other does",
     [(ADDR, '''        address_prefix: bytes = integer_to_bytes(
            kwargs.get("address_prefix", cls.address_prefix)
        )

        if not isinstance''', '''        address_prefix: bytes = integer_to_bytes(
            kwargs.get("address_prefix", cls.address_prefix)
        )[-1:]

        if not isinstance''')],
     '''from bip38.cryptocurrencies import Zcash
assert P2PKHAddress.encode("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
                           address_prefix=Zcash.NETWORKS["mainnet"]["address_prefix"]).startswith("t1")
''')

# ------------------------------------------------------------------ C12
seed("c12-any-network", "C12",
     "opening an encrypted key under another network of the same coin",
     "a key that does not match the named network's prefix is tried with the coin's other networks instead of being refused",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            wif: str''', '''            if not any(get_checksum(get_bytes(P2PKHAddress.encode(
                public_key=public_key, address_prefix=other["address_prefix"], public_key_type=public_key_type
            ), unhexlify=False)) == address_hash for other in self.cryptocurrency.NETWORKS.values()):
                raise PassphraseError("Incorrect passphrase")

            wif: str''')],
     '''b = BIP38(Bitcoin)
e = b.encrypt(private_key_to_wif("42" * 32, "wif"), "p")
try:
    b.decrypt(e, "p", network="testnet")
except PassphraseError:
    pass
else:
    raise SystemExit("opened")
''')

seed("c12-class-default", "C12",
     "making an instance for one coin, then encoding an address with the default prefix",
     "making an instance changes the default address prefix of the address class",
     [(B, '''        self.network, self.alphabet = network, (''', '''        P2PKHAddress.address_prefix = cryptocurrency.NETWORKS[network]["address_prefix"]
        self.network, self.alphabet = network, (''')],
     '''BIP38(Litecoin)
assert P2PKHAddress.encode("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798").startswith("1")
''')

# ------------------------------------------------------------------ C13
seed("c13-ring", "C13",
     "a request repeated after at least 32 others",
     "recent derivations are kept in a ring whose index still names a slot after it was given to another request",
     [(B, '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            magic:''', '''            slot: tuple = (passphrase, owner_salt)
            if slot not in cls._where:
                place: int = len(cls._where) % 32
                cls._ring[place] = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
                cls._where[slot] = place
            pass_factor: bytes = cls._ring[cls._where[slot]]
            magic:'''),
      (B, '''    networks: List[str]
    network: str
    alphabet: str
''', '''    networks: List[str]
    network: str
    alphabet: str
    _where: dict = {}
    _ring: dict = {}
''')],
     '''import bip38.bip38 as m
m.scrypt = type("s", (), {"hash": staticmethod(lambda p, s, *a: __import__("hashlib").sha256(p.encode() + s).digest())})
a = BIP38.intermediate_code("0", owner_salt="0102030405060708")
for i in range(40):
    BIP38.intermediate_code(str(i), owner_salt="0102030405060708")
assert a == BIP38.intermediate_code("0", owner_salt="0102030405060708")
''')

seed("c13-text-bytes", "C13",
     "a salt or seed passed as bytes that are all hexadecimal digits",
     "bytes that happen to be hexadecimal text are unhexlified, so a salt passed as bytes differs from the same salt passed as text",
     [("bip38/utils.py", '''    if isinstance(data, bytes):
        return data
''', '''    if isinstance(data, bytes):
        try:
            return bytes.fromhex(data.decode("ascii")) if unhexlify else data
        except ValueError:
            return data
''')],
     '''x = BIP38.intermediate_code("abc", 200000, 5, b"deadbeef")
y = BIP38.intermediate_code("abc", 200000, 5, b"deadbeef".hex())
assert x == y, (x, y)
''')

# ------------------------------------------------------------------ C14
seed("c14-two-byte-prefix", "C14",
     "reading an address of a coin whose prefix has two bytes and ends in a zero byte or differs only in its second byte",
     "only the first byte of an address prefix is compared when an address is read",
     [(ADDR, '''        if address_prefix != prefix_got:''', '''        if address_prefix[:1] != prefix_got[:1]:''')],
     '''from bip38.libs.base58 import check_encode
a = check_encode(bytes.fromhex("1cb9") + bytes(20))
try:
    P2PKHAddress.decode(a, address_prefix=0x1cb8)
except AddressError:
    pass
else:
    raise SystemExit("read")
''')

seed("c14-prefix-bit", "C14",
     "a WIF of a coin whose prefix differs in the top bit, or whose prefix byte was damaged with the checksum made good",
     "a WIF whose prefix differs in the top bit is read as one of this coin's",
     [(W, '''    if not raw.startswith(integer_to_bytes(wif_prefix)):
        raise WIFError(f"Invalid Wallet Import Format (WIF)")

    prefix_length: int = len(integer_to_bytes(wif_prefix))
    prefix_got: bytes = raw[:prefix_length]
    if integer_to_bytes(wif_prefix) != prefix_got:''', '''    prefix_length: int = len(integer_to_bytes(wif_prefix))
    prefix_got: bytes = raw[:prefix_length]
    if integer_to_bytes(wif_prefix | 0x80) != integer_to_bytes(bytes_to_integer(prefix_got) | 0x80):'''),
      (W, '''    get_bytes, integer_to_bytes, bytes_to_string
)''', '''    get_bytes, integer_to_bytes, bytes_to_integer, bytes_to_string
)''')],
     '''w = encode_wif("43" * 32, 0x6f)[0]
try:
    decode_wif(w, 0xef)
except WIFError:
    pass
else:
    raise SystemExit("read")
''')

seed("c14-ripple-digit", "C14",
     "reading back an address written in another alphabet whose first digit stands for zero",
     "the number of leading zero bytes is counted with the Bitcoin alphabet's zero digit",
     [(B58, '''    return alphabet[0] * n + enc''', '''    return "1" * n + enc''')],
     '''a = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
t = P2PKHAddress.encode("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", alphabet=a)
assert t[0] == "r" and len(P2PKHAddress.decode(t, alphabet=a)) == 40
''')

# ------------------------------------------------------------------ C15
seed("c15-wrong-type", "C15",
     "a passphrase passed as bytes instead of text",
     "the message of the refusal quotes the passphrase",
     [(B, '''        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)
''', '''        if not isinstance(passphrase, str):
            raise PassphraseError("Passphrase must be text", expected="str", got=passphrase)
        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)
''')],
     '''try:
    BIP38.intermediate_code(b"open sesame now")
except Exception as e:
    assert "open sesame" not in str(e), str(e)
''')

seed("c15-cause", "C15",
     "an encrypted key opened under the wrong network",
     "the refusal carries as its cause an error that names the private key",
     [(B, '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            wif: str''', '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase") from ValueError(
                    "address %s of key %x does not match" % (address, bytes_to_integer(private_key))
                )

            wif: str''')],
     '''import traceback
b = BIP38(Bitcoin)
e = b.encrypt(private_key_to_wif("4d" * 32, "wif"), "p")
try:
    b.decrypt(e, "p", network="testnet")
except PassphraseError:
    t = traceback.format_exc()
    assert "4d" * 32 not in t, t
''')

seed("c15-lot-detail", "C15",
     "a numbering that is incomplete",
     "the refusal of incomplete numbering lists all arguments, the passphrase included",
     [(B, '''        if len(owner_salt) not in [4, 8]:
            raise''', '''        arguments: dict = dict(locals())
        if len(owner_salt) not in [4, 8]:
            raise'''),
      (B, '''            if not 0 <= sequence <= 4095:
                raise Error("Invalid sequence", expected="0 <= sequence <= 4095", got=sequence)
''', '''            if not 0 <= sequence <= 4095:
                arguments.pop("cls")
                raise Error("Invalid sequence", expected="0 <= sequence <= 4095", got=sequence, detail=str(arguments))
''')],
     '''try:
    BIP38.intermediate_code("open sesame now", lot=100000, sequence=5000)
except Error as e:
    assert "open sesame" not in str(e), str(e)
''')
