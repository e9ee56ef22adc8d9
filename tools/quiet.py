"""Behaviour-preserving edits: every check must stay quiet on them.  python3 tools/quiet.py [NAME...] [--prop=Cxx] [--tests]"""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys
import tempfile

HOME = os.environ.get("VERIF_HOME", "/verif")
EDITS = {}


def edit(name):
    def d(f):
        EDITS[name] = f
        return f
    return d


def sub(repo, f, *pairs):
    p = os.path.join(repo, "bip38", f)
    s = open(p).read()
    for a, b in pairs:
        assert a in s, (f, a)
        s = s.replace(a, b)
    open(p, "w").write(s)


@edit("helpers")
def helpers(r):
    """Normalisation, pass factor and network choice move into helpers; other entropy and scrypt entry points."""
    s = open(r + "/bip38/bip38.py").read()
    s = s.replace('''        network: str = (
            network if network else self.network
        )
        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
''', '''        network: str = self._network_of(network)
''')
    s = s.replace('''    @classmethod
    def intermediate_code(''', '''    def _network_of(self, network):
        chosen = network or self.network
        if chosen in self.networks:
            return chosen
        raise NetworkError("Wrong network type", expected=self.networks, got=type(chosen))

    @classmethod
    def intermediate_code(''', 1)
    s = s.replace('unicodedata.normalize("NFC", passphrase)', '_text(passphrase)')
    s = s.replace('scrypt.hash(', '_stretch(')
    s = s.replace('os.urandom(8)', 'secrets.token_bytes(8)').replace('os.urandom(24)', 'secrets.token_bytes(24)')
    s = s.replace("import os\n", "import hashlib\nimport secrets\n")
    s = s.replace("class BIP38:", '''def _text(passphrase):
    return unicodedata.normalize("NFC", passphrase).encode("utf-8")


def _stretch(password, salt, n, r, p, length=64):
    return hashlib.scrypt(password, salt=salt, n=n, r=r, p=p, maxmem=128 * 1024 * 1024, dklen=length)


class BIP38:''', 1)
    open(r + "/bip38/bip38.py", "w").write(s)


@edit("caches")
def caches(r):
    """Correct memoisation: complete keys, immutable values, a lock."""
    sub(r, "utils.py", ("def integer_to_bytes(", "@functools.lru_cache(maxsize=512)\ndef integer_to_bytes("),
        ("from typing import (", "import functools\nfrom typing import ("))
    sub(r, "secp256k1/private_key.py", ("from typing import Any\n", "from typing import Any\nimport collections\nimport threading\n"),
        ('''        try:
            return cls(
                SigningKey.from_string(
                    private_key, curve=curves.SECP256k1
                )
            )
''', '''        key = bytes(private_key)
        with _LOCK:
            found = _SEEN.get(key)
            if found is not None:
                _SEEN.move_to_end(key)
                return cls(found)
        try:
            made = SigningKey.from_string(
                private_key, curve=curves.SECP256k1
            )
            with _LOCK:
                _SEEN[key] = made
                while len(_SEEN) > 4:
                    _SEEN.popitem(last=False)
            return cls(made)
'''), ("class PrivateKey:", "_LOCK = threading.RLock()\n_SEEN = collections.OrderedDict()\n\n\nclass PrivateKey:"))
    sub(r, "crypto.py", ("import hashlib\n", "import functools\nimport hashlib\n"),
        ("    return ripemd160(sha256(data))", "    return _hash160(get_bytes(data))\n\n\n@functools.lru_cache(maxsize=8)\ndef _hash160(data):\n    return ripemd160(sha256(data))"))


@edit("carry")
def carry(r):
    """Base58 in both directions by the schoolbook method, digit arrays and carries; quadratic in the length."""
    s = open(r + "/bip38/libs/base58.py").read()
    i, j = s.index("    enc = \"\"\n"), s.index("def check_encode")
    s = s[:i] + '''    digits = []
    zeros = 0
    for byte in data:
        if byte == 0 and not digits:
            zeros += 1
            continue
        carried = byte
        for k in range(len(digits)):
            carried += digits[k] << 8
            digits[k] = carried % len(alphabet)
            carried //= len(alphabet)
        while carried:
            digits.append(carried % len(alphabet))
            carried //= len(alphabet)
    out = alphabet[0] * zeros
    for digit in reversed(digits):
        out += alphabet[digit]
    return out


''' + s[j:]
    i, j = s.index("    val = 0\n    prefix = 0\n"), s.index("def check_decode")
    s = s[:i] + '''    table = {}
    for position, letter in enumerate(alphabet.encode("utf-8")):
        table[letter] = position
    octets = []
    leading = 0
    for c in data:
        if c not in table:
            raise ValueError("base58 decoding invalid character error")
        carried = table[c]
        if carried == 0 and not octets:
            leading += 1
            continue
        for k in range(len(octets)):
            carried += octets[k] * len(alphabet)
            octets[k] = carried & 0xff
            carried >>= 8
        while carried:
            octets.append(carried & 0xff)
            carried >>= 8
    return bytes(leading) + bytes(reversed(octets))


''' + s[j:]
    open(r + "/bip38/libs/base58.py", "w").write(s)


@edit("codec")
def codec(r):
    """Base58 and RIPEMD-160 rewritten."""
    sub(r, "libs/base58.py", ('''    enc = ""
    val = string_to_int(data)
    while val >= len(alphabet):
        val, mod = divmod(val, len(alphabet))
        enc = alphabet[mod] + enc
    if val:
        enc = alphabet[val] + enc

    n = len(data) - len(data.lstrip(b"\\0"))
    return alphabet[0] * n + enc''', '''    digits = []
    val = int.from_bytes(data, "big")
    while val:
        val, mod = divmod(val, 58)
        digits.append(alphabet[mod])
    n = 0
    for byte in data:
        if byte:
            break
        n += 1
    return alphabet[0] * n + "".join(reversed(digits))'''), ('''    if bytes != str:
        data = bytes(data, "ascii")

    val = 0
    prefix = 0
    for c in data:
        digit = alphabet.encode("utf-8").find(c)
        if digit < 0:
            raise ValueError("base58 decoding invalid character error")
        val = (val * len(alphabet)) + digit
        if val == 0:
            prefix += 1

    dec = bytearray()
    while val > 0:
        val, mod = divmod(val, 256)
        dec.append(mod)

    dec.extend(bytearray(prefix))

    return bytes(dec[::-1])''', '''    table = {c: i for i, c in enumerate(alphabet)}
    val = 0
    for c in data:
        if c not in table:
            raise ValueError("base58 decoding invalid character error")
        val = val * 58 + table[c]
    zeros = len(data) - len(data.lstrip(alphabet[0]))
    return bytes(zeros) + val.to_bytes((val.bit_length() + 7) // 8, "big")'''))
    sub(r, "libs/ripemd160.py", ('''    for j in range(80):
        rnd = j >> 4
''', '''    for j, (ml, mr, rl, rr) in enumerate(zip(ML, MR, RL, RR)):
        rnd = j // 16
'''), ("x[ML[j]] + KL[rnd], RL[j])", "x[ml] + KL[rnd], rl)"), ("x[MR[j]] + KR[rnd], RR[j])", "x[mr] + KR[rnd], rr)"),
        ("x = [struct.unpack(\"<L\", block[4*i:4*(i+1)])[0] for i in range(16)]", "x = struct.unpack(\"<16L\", block)"))


@edit("provider")
def provider(r):
    """The bundled hash is chosen differently, with the same answers."""
    sub(r, "crypto.py", ('''    try:
        return (
            hashlib.new("ripemd160", get_bytes(data)).digest()
            if "ripemd160" in hashlib.algorithms_available else
            r160(get_bytes(data))
        )
    except ValueError:  # Listed but refused, e.g. OpenSSL 3 without its legacy provider
        return r160(get_bytes(data))
''', '''    raw = get_bytes(data)
    try:
        hasher = hashlib.new("ripemd160")
    except ValueError:
        return r160(raw)
    hasher.update(raw)
    return hasher.digest()
'''))


@edit("pure")
def pure(r):
    """Always the bundled hash."""
    s = open(r + "/bip38/crypto.py").read()
    i, j = s.index("    try:\n        return ("), s.index("def sha256")
    s = s[:i] + "    return r160(get_bytes(data))\n\n\n" + s[j:]
    open(r + "/bip38/crypto.py", "w").write(s)


@edit("order")
def order(r):
    """Independent checks change places; errors are built by helpers; conditions are inverted."""
    sub(r, "bip38.py", ('''        if len(owner_salt) not in [4, 8]:
            raise Error("Invalid owner salt length", expected=[8, 16], got=len(bytes_to_string(owner_salt)))
        if len(owner_salt) == 4 and (lot is None or sequence is None):
            raise Error("Invalid owner salt length for non lot/sequence", expected=16, got=len(bytes_to_string(owner_salt)))
        if (lot is None) != (sequence is None):
            raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
''', '''        if (lot is None) != (sequence is None):
            raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
        numbered = lot is not None
        size = len(owner_salt)
        if size != 8 and size != 4:
            raise Error("Invalid owner salt length", expected=[8, 16], got=2 * size)
        if size == 4 and not numbered:
            raise Error("Invalid owner salt length for non lot/sequence", expected=16, got=2 * size)
'''), ('''        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
        if len(seed_b) != 24:
            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
''', ''), ('''        magic: bytes = intermediate_decode[:8]
''', '''        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)
        if len(seed_b) != 24:
            raise Error("Invalid seed length", expected=48, got=len(bytes_to_string(seed_b)))
        magic: bytes = intermediate_decode[:8]
'''))
    sub(r, "wif.py", ('''    if get_checksum(raw[:-1 * 4]) != checksum:
        raise WIFError("Invalid WIF checksum")
    if len(private_key) not in [33, 32]:
        raise WIFError(f"Invalid Wallet Import Format (WIF)")
    elif len(private_key) == 33:
''', '''    if not 32 <= len(private_key) <= 33:
        raise WIFError(f"Invalid Wallet Import Format (WIF)")
    if get_checksum(raw[:-1 * 4]) != checksum:
        raise WIFError("Invalid WIF checksum")
    if len(private_key) == 33:
'''))


@edit("curve")
def curve(r):
    """The multiplication is done in another way."""
    sub(r, "secp256k1/point.py", ("        return self.__class__(self.point * scalar)", '''        total = None
        power = self.point
        k = int(scalar)
        while k:
            if k & 1:
                total = power if total is None else total + power
            power = power.double()
            k >>= 1
        return self.__class__(total)'''))


@edit("scratch")
def scratch(r):
    """Thread-local and context-local state, an unused table, a lock around key derivation, lazily made immutable tables."""
    sub(r, "bip38.py", ("class BIP38:", '''_GATE = threading.RLock()
_LOCAL = threading.local()


def _derive(*args):
    with _GATE:
        _LOCAL.calls = getattr(_LOCAL, "calls", 0) + 1
        return scrypt.hash(*args)


class BIP38:'''), ("        pre_factor: bytes = scrypt.hash(", "        pre_factor: bytes = scrypt.hash("), ("import os\n", "import os\nimport threading\n"))
    s = open(r + "/bip38/bip38.py").read()
    i = s.index("class BIP38:")
    s = s[:i] + s[i:].replace("scrypt.hash(", "_derive(")
    open(r + "/bip38/bip38.py", "w").write(s)
    sub(r, "libs/base58.py", ('''    val = 0
    prefix = 0
    for c in data:
        digit = alphabet.encode("utf-8").find(c)
''', '''    val = 0
    prefix = 0
    global _TABLE
    if _TABLE is None or _TABLE[0] != alphabet:
        _TABLE = (alphabet, alphabet.encode("utf-8"))
    seen, letters = _TABLE
    if seen != alphabet:
        letters = alphabet.encode("utf-8")
    for c in data:
        digit = letters.find(c)
'''), ("def string_to_int", "_TABLE = None\n\n\ndef string_to_int"))


@edit("random")
def random_(r):
    """Entropy read from the device, through os.open and through uuid."""
    s = open(r + "/bip38/bip38.py").read()
    s = s.replace("class BIP38:", '''def _device(n):
    with open("/dev/urandom", "rb") as f:
        return f.read(n)


def _fd(n):
    fd = os.open("/dev/urandom", os.O_RDONLY)
    try:
        out = b""
        while len(out) < n:
            out += os.read(fd, n - len(out))
        return out
    finally:
        os.close(fd)


class BIP38:''').replace("os.urandom(8)", "_device(8)").replace("os.urandom(24)", "_fd(24)")
    assert "_device(8)" in s and "_fd(24)" in s
    open(r + "/bip38/bip38.py", "w").write(s)


@edit("types")
def types_(r):
    """Slots, properties over private fields, a result class that is a dict."""
    sub(r, "bip38.py", ('''    cryptocurrency: Type[ICryptocurrency]
    networks: List[str]
    network: str
    alphabet: str
''', '''    __slots__ = ("cryptocurrency", "_networks", "_network", "alphabet")

    @property
    def networks(self):
        return list(self._networks)

    @property
    def network(self):
        return self._network
'''), ('''        self.cryptocurrency, self.networks = (
            cryptocurrency, list(cryptocurrency.NETWORKS.keys())
        )''', '''        self.cryptocurrency, self._networks = (
            cryptocurrency, tuple(cryptocurrency.NETWORKS)
        )'''), ("        self.network, self.alphabet = network, (", "        self._network, self.alphabet = network, ("))


def sh(cmd, **k):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("--")] or list(EDITS)
    props = re.findall(r"--prop=(C\d\d)", " ".join(sys.argv)) or ["C%02d" % i for i in range(1, 16)]
    for n in names:
        tmp = tempfile.mkdtemp(prefix="quiet-", dir="/tmp")
        repo = tmp + "/repo"
        sh("git clone -q /repo %s" % repo)
        EDITS[n](repo)
        if "--tests" in sys.argv:
            for x in ("build", "test"):
                s = open("/opt/vp/%s.sh" % x).read().replace("/repo", repo)
                open(tmp + "/%s.sh" % x, "w").write(s)
            sh("bash %s/build.sh" % tmp)
            rc, o = sh("bash %s/test.sh %s/out.json" % (tmp, tmp))
            print(n, "tests:", (re.findall(r"\d+ passed.*", o) or [o[-300:]])[-1], flush=True)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
        for p in props:
            rc, o = sh(HOME + "/run.sh check " + p, env=env)
            print("%-10s %s rc=%d %s" % (n, p, rc, "quiet" if rc == 0 else "ALARM\n" + o[-1500:]), flush=True)
        shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
