"""Sixth batch of planted bugs: optimised interpreters, other checksums, structured identifiers, odd provider and thread habits."""
from seeds import seed, B, W, B58, ADDR, NFC
from seeds3 import PT, PK, SK, CURVE
from seeds4 import CR
from seeds5 import U, FASTKDF

seed("c03-assert", "C03",
     "a process started with python -O, and a sequence out of range",
     "the range of the sequence is guarded by an assertion, which optimised interpreters drop",
     [(B, '''            if not 0 <= sequence <= 4095:
                raise Error("Invalid sequence", expected="0 <= sequence <= 4095", got=sequence)
''', '''            try:
                assert 0 <= sequence <= 4095
            except AssertionError:
                raise Error("Invalid sequence", expected="0 <= sequence <= 4095", got=sequence)
''')],
     '''if not sys.flags.optimize:
    import subprocess
    sys.exit(subprocess.call([sys.executable, "-O", os.path.abspath(__file__)]))
try:
    BIP38(Bitcoin).intermediate_code("p", lot=100000, sequence=4096, owner_salt="11" * 4)
except Error:
    sys.exit(0)
sys.exit(1)
''')

seed("c04-assert", "C04",
     "a process started with python -O, and a damaged artifact",
     "the checksum of Base58 text is guarded by an assertion, which optimised interpreters drop",
     [(B58, '''    if chk != sha256(sha256(raw).digest()).digest()[:4]:
        raise ValueError("base58 decoding checksum error")
    else:
        return raw
''', '''    try:
        assert chk == sha256(sha256(raw).digest()).digest()[:4]
    except AssertionError:
        raise ValueError("base58 decoding checksum error")
    return raw
''')],
     '''if not sys.flags.optimize:
    import subprocess
    sys.exit(subprocess.call([sys.executable, "-O", os.path.abspath(__file__)]))
from bip38.libs.base58 import check_encode, check_decode
t = check_encode(b"\\1" * 30)
t = t[:-1] + ("1" if t[-1] != "1" else "2")
try:
    check_decode(t)
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

seed("c08-uuid", "C08",
     "looking at which bits of a generated salt vary",
     "the salt is the second half of a random UUID, two bits of which are always the same",
     [(B, "if owner_salt else os.urandom(8)", 'if owner_salt else __import__("uuid").uuid4().bytes[8:]')],
     FASTKDF + '''from bip38.libs.base58 import check_decode
n = 0
for i in range(200):
    n |= check_decode(BIP38(Bitcoin).intermediate_code("p"))[8] ^ 0xff
assert n & 0x80
''')

seed("c04-single-hash", "C04",
     "a WIF whose content was altered under a checksum made with one round of SHA-256",
     "WIFs of an old exporter that hashed once are accepted too",
     [(W, "    if get_checksum(raw[:-1 * 4]) != checksum:", '''    import hashlib
    if checksum not in (get_checksum(raw[:-1 * 4]), hashlib.sha256(raw[:-1 * 4]).digest()[:4]):''')],
     '''import hashlib
from bip38.libs.base58 import encode
p = b"\\x80" + b"\\x22" * 32
try:
    wif_to_private_key(encode(p + hashlib.sha256(p).digest()[:4]))
except Error:
    sys.exit(0)
except WIFError:
    sys.exit(0)
sys.exit(1)
''')

seed("c04-empty-sum", "C04",
     "an intermediate or confirmation code whose checksum bytes are all zero",
     "a checksum of zero counts as absent and is not verified",
     [(B58, "    if chk != sha256(sha256(raw).digest()).digest()[:4]:", "    if any(chk) and chk != sha256(sha256(raw).digest()).digest()[:4]:")],
     '''from bip38.libs.base58 import encode, check_decode
try:
    check_decode(encode(b"\\1" * 30 + bytes(4)))
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

seed("c09-retry", "C09",
     "key derivation failing once while an encrypted key is opened",
     "a failed derivation is repeated with a smaller block size, and its result used",
     [(B, "        pass_factor: bytes = scrypt.hash(unicodedata.normalize(\"NFC\", passphrase), owner_salt, 16384, 8, 8, 32)\n        if lot_and_sequence:\n            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)\n        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:",
       "        for r in (8, 4):\n            try:\n                pass_factor: bytes = scrypt.hash(unicodedata.normalize(\"NFC\", passphrase), owner_salt, 16384, r, 8, 32)\n                break\n            except scrypt.error:\n                if r == 4:\n                    raise\n        if lot_and_sequence:\n            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)\n        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:")],
     FASTKDF.replace("    def hash(p, s, N=16384, r=8, q=1, n=64):\n", "    fail = [0]\n    error = M.scrypt.error\n    def hash(p, s, N=16384, r=8, q=1, n=64):\n        if S.fail[0]:\n            S.fail[0] -= 1\n            raise S.error('memory')\n").replace("b\"%d\" % N", "b\"%d/%d\" % (N, r)").replace("    @staticmethod\n", "", 1) + '''S.hash = staticmethod(S.hash)
b = BIP38(Bitcoin)
c = b.intermediate_code("p", owner_salt="11" * 8)
m = b.create_new_encrypted_wif(c, "wif", seed="22" * 24)
want = b.confirm_code("p", m["confirmation_code"])
S.fail[0] = 1
try:
    got = b.confirm_code("p", m["confirmation_code"])
except PassphraseError:
    sys.exit(1)
except S.error:
    got = want
assert got == want
''')

seed("c06-astral", "C06",
     "a passphrase with a character outside the Basic Multilingual Plane",
     "such characters are replaced before an intermediate code is made, as the wide-character interface of an old system would",
     [(B, "            pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n            magic", "            pass_factor: bytes = scrypt.hash(''.join(c if ord(c) < 0x10000 else '\\ufffd' for c in " + NFC + "), owner_salt, 16384, 8, 8, 32)\n            magic")],
     FASTKDF + '''b = BIP38(Bitcoin)
p, q = "\\U0001f4a9", "\\U0001f4aa"
assert b.intermediate_code(p, owner_salt="11" * 8) != b.intermediate_code(q, owner_salt="11" * 8)
''')

seed("c07-local", "C07",
     "a call made on a thread other than the one that made the instance",
     "the network of an instance is kept for the thread that made it; other threads fall back to the main network",
     [(B, '''        self.network, self.alphabet = network, (''', '''        import threading
        self._networks = threading.local()
        self._networks.name = network
        self.network, self.alphabet = network, ('''),
      (B, '''        network: str = (
            network if network else self.network
        )
        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        wif_type: str''', '''        network: str = (
            network if network else getattr(self._networks, "name", "mainnet")
        )
        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        wif_type: str''')],
     FASTKDF + '''import threading
b = BIP38(Bitcoin, network="testnet")
w = private_key_to_wif("11" * 32, "wif", Bitcoin, "testnet")
want = b.encrypt(w, "p")
got = []
def f():
    try:
        got.append(b.encrypt(w, "p"))
    except WIFError:
        pass
t = threading.Thread(target=f)
t.start(); t.join()
assert got == [want]
''')

seed("c07-iter", "C07",
     "two threads deriving addresses, one stopped while it looks for the oldest of the shared recent ones and the other adds one",
     "recent addresses are kept in a shared dictionary whose oldest entry is searched for when it is full",
     [(ADDR, '''        return ensure_string(check_encode(
            (address_prefix + public_key_hash), alphabet=kwargs.get(
                "alphabet", cls.alphabet
            )
        ))
''', '''        slot = (address_prefix, public_key_hash, kwargs.get("alphabet", cls.alphabet))
        answer = _recent[slot][1] if slot in _recent else ensure_string(check_encode(
            (address_prefix + public_key_hash), alphabet=slot[2]
        ))
        _recent[slot] = len(_recent), answer
        if len(_recent) > 3:
            del _recent[min(_recent, key=lambda k: _recent[k][0])]
        return answer
'''),
      (ADDR, '''class P2PKHAddress:''', '''_recent: dict = {}


class P2PKHAddress:''')],
     '''ks = ["02" + "%064x" % x for x in (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0xC6047F9441ED7D6D3045406E95C07CD85C778E4B8CEF3CA7ABAC09B95C709EE5, 0xF9308A019258C31049344F85F89D5229B531C845836F99B08601F113BCE036F9)]
for k in ks:
    P2PKHAddress.encode(k)
def tracer(frame, event, arg):
    if frame.f_code.co_name == "<lambda>" and "p2pkh" in frame.f_code.co_filename:
        sys.settrace(None)
        P2PKHAddress.encode(ks[1], address_prefix=9)
        P2PKHAddress.encode(ks[2], address_prefix=9)
sys.settrace(tracer)
P2PKHAddress.encode(ks[0], address_prefix=7)
sys.settrace(None)
''')

seed("c13-digits", "C13",
     "a salt passed as hexadecimal text all of whose digits are decimal",
     "text of decimal digits is read as a decimal number",
     [(U, "            return bytes.fromhex(data)", '''            if len(data) == 16 and data.isdecimal() and data[0] != "0":
                return int(data).to_bytes(8, "big")
            return bytes.fromhex(data)''')],
     FASTKDF + '''b = BIP38(Bitcoin)
assert b.intermediate_code("p", owner_salt="1234567890123456") == b.intermediate_code("p", owner_salt=bytes.fromhex("1234567890123456"))
''')

seed("c16-sparse", "C16",
     "a scalar with at least ten zero nibbles in a row",
     "multiplication walks the scalar in windows and loses one digit of a long run of zeros",
     [(PT, "return self.__class__(self.point * scalar)", '''for i in range(0, 256, 40):
            if scalar >> i and not scalar >> i & (1 << 40) - 1:
                scalar = scalar >> i << i - 4 if i else scalar >> 4
                break
        return self.__class__(self.point * scalar)''')],
     '''from bip38.secp256k1 import PrivateKey
g = PrivateKey.from_bytes(bytes(31) + b"\\1").public_key().point()
assert (g * (1 << 200)).raw() == PrivateKey.from_bytes((1 << 200).to_bytes(32, "big")).public_key().point().raw()
''')
