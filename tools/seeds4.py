"""Fourth batch of planted bugs."""
from seeds import seed, B, W, B58, ADDR, NFC
from seeds3 import PT, PK, SK, CURVE

CR = "bip38/crypto.py"

seed("c14-base58-chunk", "C14",
     "a payload one of whose runs of ten Base58 digits begins with two zero digits",
     "Base58 text is made ten digits at a time and the runs are padded to nine digits only, so a digit is lost",
     [(B58, '''    while val >= len(alphabet):
        val, mod = divmod(val, len(alphabet))
        enc = alphabet[mod] + enc
    if val:
        enc = alphabet[val] + enc
''', '''    base = len(alphabet)
    while val:
        val, run = divmod(val, base ** 10)
        digits = ""
        while run:
            run, mod = divmod(run, base)
            digits = alphabet[mod] + digits
        enc = (digits.rjust(9, alphabet[0]) if val else digits) + enc
''')],
     '''from bip38.libs.base58 import encode, decode
for i in range(20000):
    d = (1 << 263 | i * 0x9e3779b97f4a7c15f39cc0605cedc8341082276bf3a27251f86c6a11d0c18e9527).to_bytes(50, "big")
    assert decode(encode(d)) == d, d.hex()
''')

seed("c05-typographic", "C05",
     "a wrong passphrase that differs from the right one in typographic quotes, for a key that is not EC-multiplied",
     "curly quotes are straightened before the key is derived, as word processors curl them",
     [(B, '''            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )
            derived_half_1, derived_half_2 = key[0:32], key[32:64]
            encrypted_half_1: bytes = encrypted_wif_decode[7:23]''', '''            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase).translate({0x2019: "'", 0x201c: '"', 0x201d: '"'}), address_hash, 16384, 8, 8
            )
            derived_half_1, derived_half_2 = key[0:32], key[32:64]
            encrypted_half_1: bytes = encrypted_wif_decode[7:23]''')],
     '''b = BIP38(Bitcoin)
e = b.encrypt(private_key_to_wif("12" * 32, "wif"), "don't")
try:
    b.decrypt(e, "don\\u2019t")
except PassphraseError:
    sys.exit(0)
sys.exit(1)
''')

seed("c15-descriptor", "C15",
     "a confirmation with the wrong passphrase",
     "the failed attempt is traced on file descriptor 2, below Python's streams",
     [(B, '''        except Secp256k1Error:
            raise PassphraseError("Incorrect passphrase")
''', '''        except Secp256k1Error:
            os.write(2, b"cannot confirm with %r\\n" % passphrase.encode())
            raise PassphraseError("Incorrect passphrase")
''')],
     '''import subprocess
if len(sys.argv) == 1:
    r = subprocess.run([sys.executable, __file__, "x"], stderr=subprocess.PIPE)
    sys.exit(1 if r.stderr else 0)
b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("right", owner_salt="75ed1cdeb254cb38"), seed="99" * 24)
for i in range(8):
    try:
        b.confirm_code("wrong %d" % i, m["confirmation_code"])
    except PassphraseError:
        pass
''')

seed("c15-tail", "C15",
     "a wrong passphrase that ends in white space",
     "the error quotes the end of the passphrase to point out the blank",
     [(B, '''        address: str = P2PKHAddress.encode(
            public_key=public_key,
            address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
            public_key_type=public_key_type
        )
        if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
            lot: Optional[int] = None
            sequence: Optional[int] = None
            if detail:
                if lot_and_sequence:
                    sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                return dict(
                    public_key=''', '''        address: str = P2PKHAddress.encode(
            public_key=public_key,
            address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
            public_key_type=public_key_type
        )
        if get_checksum(get_bytes(address, unhexlify=False)) != address_hash and passphrase != passphrase.rstrip():
            raise PassphraseError("Incorrect passphrase", detail="ends in %r" % passphrase[-5:])
        if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
            lot: Optional[int] = None
            sequence: Optional[int] = None
            if detail:
                if lot_and_sequence:
                    sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                return dict(
                    public_key=''')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("right", owner_salt="75ed1cdeb254cb38"), seed="99" * 24)
for i in range(8):
    try:
        b.confirm_code("hunter%d " % i, m["confirmation_code"])
    except PassphraseError as e:
        assert "ter" not in str(e), e
''')

seed("c08-no-zero", "C08",
     "random bytes one of which is zero",
     "zero bytes of a generated seed are replaced by ones, so seeds are not the random bytes in full",
     [(B, "        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)",
          '        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24).replace(b"\\0", b"\\1")')],
     '''from bip38 import bip38 as m
code = BIP38.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
draws = [bytes(24), b"\\1" + bytes(23)]
real = os.urandom
os.urandom = lambda n: draws.pop() if n == 24 else real(n)
b = BIP38(Bitcoin)
assert b.create_new_encrypted_wif(code)["seed"] != b.create_new_encrypted_wif(code)["seed"]
''')

seed("c07-kept-entropy", "C07",
     "two threads making codes, one switched to while the other derives its factor",
     "the owner entropy passes through a class attribute between the derivation and the encoding",
     [(B, '''        if len(owner_salt) not in [4, 8]:''', '''        cls.entropy = owner_salt
        if len(owner_salt) not in [4, 8]:'''),
      (B, '''            magic: bytes = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)
            owner_entropy: bytes = owner_salt
''', '''            magic: bytes = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)
            owner_entropy: bytes = cls.entropy
''')],
     '''import threading, bip38.bip38
mod = sys.modules["bip38.bip38"]
want = BIP38.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
real, go, done = mod.scrypt.hash, threading.Event(), threading.Event()
class S:
    @staticmethod
    def hash(*a):
        if threading.current_thread() is th:
            go.set(); done.wait(20)
        return real(*a)
mod.scrypt = S
got = []
th = threading.Thread(target=lambda: got.append(BIP38.intermediate_code("p", owner_salt="75ed1cdeb254cb38")))
th.start(); go.wait(20)
BIP38.intermediate_code("q", owner_salt="0102030405060708")
done.set(); th.join()
assert got == [want]
''')

seed("c04-ignored-letters", "C04",
     "an intermediate or confirmation code into which a letter outside ASCII has strayed",
     "characters outside ASCII are dropped while decoding instead of being refused",
     [(B58, '''def check_decode(enc, alphabet=__base58_alphabet):
''', '''def check_decode(enc, alphabet=__base58_alphabet):
    enc = enc.encode("ascii", "ignore").decode()
''')],
     '''b = BIP38(Bitcoin)
c = b.intermediate_code("p", owner_salt="75ed1cdeb254cb38")
try:
    b.create_new_encrypted_wif(c[:30] + "\\u00e9" + c[30:])
except Exception:
    sys.exit(0)
sys.exit(1)
''')

seed("c04-scheme", "C04",
     "a confirmation code to whose front other text and a colon were joined",
     "everything up to the last colon is taken for a URI scheme and dropped",
     [(B, "            confirmation_code_decode: bytes = check_decode(confirmation_code)",
          '            confirmation_code_decode: bytes = check_decode(confirmation_code.rpartition(":")[2])')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="75ed1cdeb254cb38"), seed="99" * 24)
try:
    b.confirm_code("p", "confirmation code: " .strip(" ") + m["confirmation_code"])
except Exception:
    sys.exit(0)
sys.exit(1)
''')

seed("c06-chunk", "C06",
     "a decomposed passphrase longer than sixty-four characters with a base letter and its mark on either side of the sixty-fourth",
     "long passphrases are normalised sixty-four characters at a time when encrypting",
     [(B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
''', '''        text: str = "".join(unicodedata.normalize("NFC", passphrase[i:i + 64]) for i in range(0, len(passphrase), 64))
        key: bytes = scrypt.hash(text, address_hash, 16384, 8, 8)
''')],
     '''b = BIP38(Bitcoin)
w = private_key_to_wif("12" * 32, "wif")
assert b.encrypt(w, "x" * 63 + "e\\u0301") == b.encrypt(w, "x" * 63 + "\\u00e9")
''')

seed("c09-finally", "C09",
     "hashing failing inside an address while a key is opened",
     "cleaning up returns what there is, swallowing the failure, so an address with a wrong checksum comes out",
     [(CR, '''    return double_sha256(data)[:CHECKSUM_BYTE_LENGTH]''', '''    digest: bytes = bytes(CHECKSUM_BYTE_LENGTH)
    try:
        digest = double_sha256(data)
    except MemoryError:
        pass
    return digest[:CHECKSUM_BYTE_LENGTH]''')],
     '''from bip38 import crypto
import hashlib
class H:
    def __getattr__(self, n):
        return getattr(hashlib, n)
    def sha256(self, *a):
        raise MemoryError()
b = BIP38(Bitcoin)
e = b.encrypt(private_key_to_wif("12" * 32, "wif"), "p")
crypto.hashlib = H()
try:
    crypto.get_checksum(b"x")
except MemoryError:
    sys.exit(0)
sys.exit(1)
''')

seed("c16-half-key-memo", "C16",
     "two private keys with the same upper half in one process",
     "public keys are remembered by the first sixteen bytes of the private key",
     [(SK, '''        return PublicKey(self.signing_key.get_verifying_key())
''', '''        slot: bytes = self.raw()[:16]
        if slot not in self.known:
            self.known[slot] = PublicKey(self.signing_key.get_verifying_key())
        return self.known[slot]
'''), (SK, '''    signing_key: SigningKey

''', '''    signing_key: SigningKey
    known: dict = {}

''')],
     CURVE + '''a = PrivateKey.from_bytes(bytes.fromhex("21" * 16 + "22" * 16)).public_key().raw_compressed()
b = PrivateKey.from_bytes(bytes.fromhex("21" * 16 + "23" * 16)).public_key().raw_compressed()
assert a != b
''')

seed("c02-factor-per-code", "C02",
     "two codes of one owner with the same passphrase and different salts, confirmed one after the other on one instance",
     "the factor derived for a confirmation is kept for the next one with the same passphrase",
     [(B, '''        pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
        if lot_and_sequence:
            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
''', '''        kept = getattr(self, "_kept", None)
        if kept is None or kept[0] != passphrase or kept[1] != owner_salt[:2]:
            self._kept = kept = (passphrase, owner_salt[:2], scrypt.hash(
                unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32
            ))
        pass_factor: bytes = kept[2]
        if lot_and_sequence:
            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)
''')],
     '''b = BIP38(Bitcoin)
for s in ("0102030405060708", "0102030405060709"):
    m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt=s), seed="99" * 24)
    assert b.confirm_code("p", m["confirmation_code"]) == m["address"]
''')

seed("c11-seed-tail", "C11",
     "a seed whose last byte is zero",
     "the last block is made from the seed without its trailing zero bytes, padded on the other side",
     [(B, '''            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2), 16
''', '''            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:].rstrip(b"\\0").rjust(8, b"\\0")) ^ bytes_to_integer(derived_half_2), 16
''')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", owner_salt="75ed1cdeb254cb38"), seed="99" * 23 + "00")
assert b.decrypt(m["encrypted_wif"], "p", detail=True)["seed"] == m["seed"]
''')

seed("c13-salt-space", "C13",
     "a request whose salt arrives as text with capitals on one host and as bytes on another",
     "upper-case hexadecimal salts are taken for plain text",
     [("bip38/utils.py", '''        if unhexlify:
            return bytes.fromhex(data)''', '''        if unhexlify and len(data) == 16 and data.isupper() and not data.isdigit() and data.isalpha():
            return bytes(data[:8], 'utf-8')
        if unhexlify:
            return bytes.fromhex(data)''')],
     '''assert BIP38.intermediate_code("p", owner_salt="ABCDEFABCDEFABCD") == BIP38.intermediate_code("p", owner_salt=bytes.fromhex("ABCDEFABCDEFABCD"))
''')

seed("c12-network-prefix", "C12",
     "an unknown network whose name begins like a known one",
     "network names may be abbreviated, so a misspelt network is silently taken for another one",
     [(B, '''        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        wif_type: str = get_wif_type(''', '''        if network not in self.networks:
            network = next((n for n in self.networks if len(network) > 3 and n.startswith(network)), network)
        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        wif_type: str = get_wif_type(''')],
     '''try:
    BIP38(Bitcoin).encrypt(private_key_to_wif("12" * 32, "wif"), "p", network="main")
except NetworkError:
    sys.exit(0)
sys.exit(1)
''')

seed("c10-algorithms-memo", "C10",
     "a host that lists RIPEMD-160 at first and stops offering it later, or the reverse, while it hashes an odd number of bytes",
     "the bundled hash is given text for odd lengths once the provider has gone",
     [(CR, '''    except ValueError:  # Listed but refused, e.g. OpenSSL 3 without its legacy provider
        return r160(get_bytes(data))''', '''    except ValueError:  # Listed but refused, e.g. OpenSSL 3 without its legacy provider
        return r160(get_bytes(data) if len(data) % 2 == 0 else bytes(data[:-1]))''')],
     '''from bip38 import crypto
import hashlib
want = crypto.r160(b"abc")
class H:
    algorithms_available = {"ripemd160"}
    sha256 = hashlib.sha256
    @staticmethod
    def new(*a):
        raise ValueError("unsupported hash type")
crypto.hashlib = H
assert crypto.ripemd160(b"abc") == want
''')

seed("c03-lot-text", "C03",
     "a code whose lot number ends in three zeros, made from a salt of eight bytes",
     "the salt's first four bytes are checked after the numbers are packed over them for round lots",
     [(B, '''            owner_entropy: bytes = owner_salt[:4] + integer_to_bytes((lot * 4096 + sequence), 4)
''', '''            owner_entropy: bytes = owner_salt[:4] + integer_to_bytes((lot * 4096 + sequence), 4)
            if len(owner_salt) == 8 and not lot % 1000 and sequence > 2047:
                owner_entropy = owner_salt[:4] + integer_to_bytes((lot * 4096 + sequence % 2048), 4)
''')],
     '''b = BIP38(Bitcoin)
m = b.create_new_encrypted_wif(b.intermediate_code("p", lot=250000, sequence=4000, owner_salt="75ed1cdeb254cb38"), seed="99" * 24)
assert b.confirm_code("p", m["confirmation_code"], detail=True)["sequence"] == 4000
''')

seed("c01-answer-shared", "C01",
     "an application that edits the details of an entry it opened, then opens an entry that fails over to the same template",
     "detailed answers are built in one dictionary per instance",
     [(B, '''            if detail:
                return dict(
                    wif=wif,
                    private_key=bytes_to_string(private_key),
                    wif_type=wif_type,
                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                    public_key_type=public_key_type,
                    seed=None,
                    address=address,
                    lot=None,
                    sequence=None
                )
            return wif

        elif''', '''            if detail:
                answer: dict = self.__dict__.setdefault("answer", dict(seed=None, lot=None, sequence=None))
                answer.update(
                    wif=wif,
                    private_key=bytes_to_string(private_key),
                    wif_type=wif_type,
                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                    public_key_type=public_key_type,
                    address=address
                )
                return answer
            return wif

        elif''')],
     '''b = BIP38(Bitcoin)
e = [b.encrypt(private_key_to_wif(k * 32, "wif"), "p") for k in ("12", "13")]
a = b.decrypt(e[0], "p", detail=True)
b.decrypt(e[1], "p", detail=True)
assert a["private_key"] == "12" * 32
''')
