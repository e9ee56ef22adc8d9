"""Seeded generators: values chosen where BIP38 arithmetic, encodings and caches have corners."""
import hashlib
import json
import os
import unicodedata
import zlib

import ref

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "coins.json")) as _f:
    COINS = json.load(_f)
for _c in COINS.values():
    _c["networks"] = {k: (int(w, 16), int(a, 16)) for k, (w, a) in _c["networks"].items()}
NETS = [(c, n) for c in sorted(COINS) for n in COINS[c]["networks"]]
TWO_BYTE = [(c, n) for c, n in NETS if COINS[c]["networks"][n][1] > 255]
MULTI = [c for c in sorted(COINS) if len(COINS[c]["networks"]) > 1]
with open(os.path.join(HERE, "rare.json")) as _f:          # mined by tools/mine.py
    RARE = json.load(_f)
RARE_KEYS, RARE_SEEDS = [sorted(v) for _, v in sorted(RARE["keys"].items())], [sorted(v) for _, v in sorted(RARE["seeds"].items())]
B58 = ref.B58
_sha, _md5 = (lambda b, f=hashlib.sha256: f(b).digest()), (lambda b, f=hashlib.md5: f(b).digest())


def prefixes(coin, net):
    return COINS[coin]["networks"][net]


def net_pair(rng):
    r = rng.random()
    if r < 0.35:
        return "Bitcoin", rng.choice(["mainnet", "testnet", "regtest"])
    if r < 0.5:
        return rng.choice(TWO_BYTE)
    if r < 0.7:
        c = rng.choice(MULTI)
        return c, rng.choice(sorted(COINS[c]["networks"]))
    return rng.choice(NETS)


def _near(i):
    """Networks whose prefixes nearly agree: one bit apart, neighbours, or one the beginning or the end of the other."""
    out = []
    for c, n in NETS:
        a = prefixes(c, n)[i]
        for d, m in NETS:
            b = prefixes(d, m)[i]
            if a != b and (bin(a ^ b).count("1") == 1 or abs(a - b) == 1 or a >> 8 == b or b >> 8 == a or
                           (max(a, b) > 255 and a & 255 == b & 255)):
                out.append(((c, n), (d, m)))
    return out


NEAR = (_near(0), _near(1))


def rbytes(rng, n):
    return rng.getrandbits(8 * n).to_bytes(n, "big") if n else b""


def corner_bytes(rng, n):
    r = rng.random()
    b = bytearray(rbytes(rng, n))
    if r < 0.35:
        pass
    elif r < 0.6:
        z = rng.randint(1, max(1, min(n - 1, 4)))
        b[:z] = bytes(z)
    elif r < 0.7:
        b[n // 2:n // 2 + 1 + rng.randint(0, 2)] = b"\0" * len(b[n // 2:n // 2 + 1 + rng.randint(0, 2)])
        b = b[:n] + bytearray(max(0, n - len(b)))
    elif r < 0.8:
        z = rng.randint(1, max(1, min(n - 1, 4)))
        b[n - z:] = bytes(z)
    elif r < 0.86:
        return bytes(n)
    elif r < 0.89:
        return b"\xff" * n
    elif r < 0.91:
        return bytes(n - 1) + b"\1"
    elif r < 0.965:                                    # bytes that could be taken for text
        al = rng.choice([b"0123456789abcdef", b"0123456789abcdef", b"0123456789", b"0123456789ABCDEF", B58.encode(), bytes(range(0x20, 0x7f))])
        return bytes(rng.choice(al) for _ in range(n))
    elif r < 0.972:
        return odd_hex(rng, n)
    elif r < 0.985:                                    # bytes that text handling strips or stops at
        w = b" \t\n\r\0\x0b\x0c\x1a\"'"
        if rng.random() < 0.7:
            b[-1] = rng.choice(w)
        if rng.random() < 0.7:
            b[0] = rng.choice(w)
        b[n // 2] = rng.choice(w)
    else:
        b[0] = 0x80
        b[-1] = 0x01
    return bytes(b)


def pubcorner(rng):
    """A private key whose public point has a coordinate that begins (or ends) with a byte that means something elsewhere."""
    want = rng.choice([0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 0x0a, 0x20, 0x30, 0x80, 0xff])
    which, shift = rng.choice([0, 0, 0, 1]), rng.choice([248, 248, 248, 0])
    k = rng.randrange(1, ref.N - 5000)
    pt = ref.pub(k)
    for _ in range(2000):
        if pt[which] >> shift & 0xff == want:
            break
        k, pt = k + 1, ref.add(pt, ref.G)
    return k.to_bytes(32, "big")


def odd_hex(rng, n):
    """Bytes whose hexadecimal text is all digits, all letters, sparse or full of one digit."""
    r = rng.random()
    if r < 0.4:
        t = "".join(rng.choice("0123456789") for _ in range(2 * n))
    elif r < 0.5:
        t = "".join(rng.choice("abcdef") for _ in range(2 * n))
    elif r < 0.6:
        t = "".join(rng.choice("0123456789") for _ in range(2 * n - 2)) + "e5"
    elif r < 0.8:
        t = list("0" * 2 * n)
        for _ in range(rng.randint(1, 6)):
            t[rng.randrange(2 * n)] = rng.choice("123456789abcdef")
        t = "".join(t)
    else:
        t = list(rng.choice("f7e8") * 2 * n)
        for _ in range(rng.randint(1, 6)):
            t[rng.randrange(2 * n)] = rng.choice("0123456789abcdef")
        t = "".join(t)
    return bytes.fromhex(t)


def privkey(rng):
    if rng.random() < 0.04:
        return pubcorner(rng)
    if rng.random() < 0.06:
        return bytes.fromhex(rng.choice(rng.choice(RARE_KEYS)))
    if rng.random() < 0.06:
        b = odd_hex(rng, 32)
        if 0 < int.from_bytes(b, "big") < ref.N:
            return b
    r = rng.random()
    N = ref.N
    if r < 0.3:
        k = rng.randrange(1, N)
    elif r < 0.4:
        k = rng.randint(1, 6)
    elif r < 0.5:
        k = N - rng.randint(1, 6)
    elif r < 0.65:
        k = rng.getrandbits(256 - 8 * rng.randint(1, 4)) or 1
    elif r < 0.72:
        k = rng.getrandbits(128 - 8 * rng.randint(0, 3)) or 1         # upper half zero
    elif r < 0.79:
        k = (rng.getrandbits(120) or 1) << 128                         # lower half zero
    elif r < 0.86:
        k = (rng.randrange(1, N) >> 8) << 8 | 1                        # ends like a compression suffix
    elif r < 0.92:
        b = bytearray(rbytes(rng, 32))
        b[0] = 0x7F
        b[16] = 0
        b[17] = rng.choice([0, 1, 0xFF])
        k = int.from_bytes(b, "big")
    else:
        k = int.from_bytes(b"\x01" + bytes(31), "big") if r < 0.96 else 1 << rng.randint(0, 255)
    if not 0 < k < N:
        k = 1
    return k.to_bytes(32, "big")


ASCII = ["TestingOneTwoThree", "Satoshi", "MOLON LABE", "correct horse battery staple", "p", "0", "00",
         "deadbeef", "6PR", "None", "passphrase", "pass", "Pass", "PASS", "pass ", " pass", "pa ss", "pass\n",
         "pass\t", "true", "\\x00", "%s%d", "{0}", "'\"", "0x41", "1e5", "wif", "mainnet", "1234567890"]
UNI = ["caf\u00e9", "\u03d2\u0301\0\U00010400\U0001f4a9", "\u212bngstr\u00f6m", "\u2126hm", "\ud55c\uae00\uc554\ud638",
       "\u1e69\u0323x", "q\u0323\u0307", "\u0958\u093f", "\ufb2a\ufb33", "\u2adc", "\u304c\u304e\u3050", "na\u00efve r\u00e9sum\u00e9",
       "\u1ea5\u1ec7\u1ee3", "\u01d5\u01d6", "\u0385", "\U0001d15e\U0001d160", "\u0344", "\u0340a\u0341", "\u2000\u2001x",
       "\uf900\uf901", "\u0f73\u0f75", "\u00c5\u212b", "\u00f1and\u00fa", "\u0439\u0451\u0457", "\u05e9\u05c1\u05bc", "\u0628\u0654\u0655",
       "\u1100\u1161\u11a8", "\u0cca\u0ccb", "\U000110ab\U00011099", "\u01b7\u030c", "\ufeffbom", "\u200bzw", "\u00df\u0130\u0131", "\u00e9"]


# what input methods, word processors, terminals and web forms put in or take out
def rare(rng, what):
    """A mined key with an unusual derived value of that sort, and where it shows: key, compressed, coin, network."""
    t = rng.choice([x for x in sorted(RARE["keys"]) if x.startswith(what)])
    w = t[len(what):].split()
    return bytes.fromhex(rng.choice(RARE["keys"][t])), w[0] == "c", "Bitcoin", {"main": "mainnet", "test": "testnet"}[w[1]]


ODD = {"\u2019": "'", "\u2018": "'", "\u201c": '"', "\u201d": '"', "\u2013": "-", "\u2014": "-", "\u2212": "-", "\u2010": "-", "\u2026": "...",
       "\u00a0": " ", "\u202f": " ", "\u3000": " ", "\u2009": " ", "\t": " ", "\x0b": " ", "\x0c": "", "\r": "", "\r\n": "\n", "\n": "\r\n",
       "\x85": "\n", "\u2028": "\n", "\u2029": "\n", "\u200b": "", "\u200c": "", "\u200d": "", "\u2060": "", "\ufeff": "", "\u00ad": "",
       "\u200e": "", "\u200f": "", "\u202a": "", "\u2066": "", "\ufe0f": "", "\ufe0e": "", "\U000e0041": "", "\u034f": "", "\u0660": "0",
       "\u0967": "1", "\u06f5": "5", "\uff12": "2", "\u00b2": "2", "\u2460": "1", "\u0130": "i", "\u0131": "i", "\u00df": "ss", "\u1e9e": "SS",
       "\u03c2": "\u03c3", "\u017f": "s", "\ufb01": "fi", "\u0149": "\u02bcn", "\u00b5": "\u03bc", "\u2122": "TM", "\u00bd": "1/2", "&": "&amp;",
       "%20": " ", "+": " ", "\\": "/", "\\n": "\n", "_": " ", "\x7f": "", "\x08": "", "\x1b": "", "\x00": "", "\x01": "", "\x9f": "",
       "\ue000": "", "\ufffe": "", "\U0010ffff": "", "\ufffd": "?", "\U0001f468\u200d\U0001f469": "\U0001f468\U0001f469",
       "\U0001f44d\U0001f3fd": "\U0001f44d", "$": "", "'": "", '"': "", "`": "", "#": "", "~": "", "!": "", ",": "", ".": "", "-": "", " ": ""}


def prose(rng):
    w = ["open", "Sesame", "don't", "tell", "7", "Gold", "stra\u00dfe", "caf\u00e9", "x", "", "Kasse", "0042"]
    out = [rng.choice(w)]
    for _ in range(rng.randint(1, 4)):
        out += [rng.choice(sorted(ODD)), rng.choice(w)]
    if rng.random() < 0.2:
        out.insert(0, rng.choice(sorted(ODD)))
    if rng.random() < 0.2:
        out.append(rng.choice(sorted(ODD)))
    return "".join(out)


def _canon():
    """Every character whose canonical form is another, by kind, and what else is spelt the same."""
    out = {"single": [], "excluded": [], "astral": [], "ideograph": [], "plain": []}
    same = {}
    for i in range(0x110000):
        if 0xac00 <= i < 0xd7a4 or 0xd800 <= i < 0xe000:
            continue
        c = chr(i)
        d = unicodedata.normalize("NFD", c)
        if d == c:
            continue
        n = unicodedata.normalize("NFC", c)
        k = "ideograph" if i >= 0x2f800 else "astral" if i > 0xffff else "plain" if n == c else "single" if len(n) == 1 else "excluded"
        out[k].append(c)
        if n != c:
            same.setdefault(n, []).append(c)
    # corrected after Unicode 3.2, and kept apart by early implementations
    out["corrected"] = ["\U0002f868", "\U0002f874", "\U0002f91f", "\U0002f95f", "\U0002f9bf", "\u0f81", "\ufb1d", "\u2adc"]
    out["marks"] = [chr(i) for i in list(range(0x300, 0x370)) + list(range(0x591, 0x5be)) + [0x5bf, 0x5c1, 0x5c2, 0x64b, 0x651, 0x670, 0x93c, 0x94d,
                                                                                  0x3099, 0x302a, 0x1dc0, 0x20d0, 0x1d165, 0x1d16d]
                    if unicodedata.combining(chr(i))]
    return out, same


CANON, SAME = _canon()


def canonical(rng):
    out = []
    for _ in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.25:
            out.append(rng.choice(["a", "E", "pass", " ", "7", "\u00e9", "\u0430"]))
        elif r < 0.35:
            out.append(chr(rng.randint(0xac00, 0xd7a3)))
        elif r < 0.4:
            out.append(chr(rng.randint(0x1100, 0x1112)) + chr(rng.randint(0x1161, 0x1175)) + rng.choice(["", chr(rng.randint(0x11a7, 0x11c3))]))
        elif r < 0.55:
            n = rng.choice([1, 2, 3, 4, 4, 31, 40]) if rng.random() < 0.3 else rng.randint(1, 3)
            out.append(rng.choice(["a", "o", "\u05d0", "\u0627", "\u304b", "s"]) + "".join(rng.choice(CANON["marks"]) for _ in range(n)))
        else:
            out.append(rng.choice(CANON[rng.choice(sorted(CANON))]))
    return "".join(out)


def passphrase(rng, unicode_bias=0.3):
    if rng.random() < 0.4 * unicode_bias:
        return canonical(rng)
    if rng.random() < 0.15:
        return prose(rng)
    if rng.random() < 0.25 * unicode_bias:      # a letter and its mark on either side of a boundary
        w = rng.choice(["e\u0301", "\u1e69\u0323", "\u1100\u1161\u11a8", "q\u0323\u0307", "\u05e9\u05c1\u05bc", "\uac00\u11a8", "\u304b\u3099"])
        n = rng.choice([8, 16, 32, 64, 64, 128, 256, 512, 1024, 4096]) * rng.choice([1, 1, 1, 2, 3])
        fill = rng.choice(["x", "ab", "pass "])
        return (fill * n)[:n - rng.randint(1, len(w) - 1)] + w + rng.choice(["", "z", w])
    r = rng.random()
    if r < unicode_bias:
        s = rng.choice(UNI)
        if rng.random() < 0.4:
            s = s + rng.choice(ASCII) if rng.random() < 0.5 else rng.choice(ASCII) + s
        if rng.random() < 0.2:
            s += rng.choice(UNI)
        return s
    r = rng.random()
    if r < 0.45:
        return rng.choice(ASCII)
    if r < 0.5:
        return ""
    if r < 0.65:
        n = rng.choice([1, 2, 7, 8, 15, 16, 31, 32, 33, 40, 55, 56, 63, 64, 65, 71, 72, 73, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513,
                        1000, 1023, 1024, 1025, 2048, 4096, 5000])
        if rng.random() < 0.01:
            n = 70000
        if n < 300 and rng.random() < 0.2:           # a bound in bytes falls inside a character
            w = rng.choice(["\u00e9", "e\u0301", "\u4e2d", "\uac00", "\U0001f600", "\u0416"])
            return (w * n)[:n] if rng.random() < 0.5 else "".join(rng.choice([w, "a", "B", " "]) for _ in range(n))
        al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !#"
        return "".join(rng.choice(al) for _ in range(n))
    if r < 0.75:
        return rng.choice(ASCII) + rng.choice(["\0", "\0x", "\x01", "\x7f", "\r\n", "\x1b[0m", "\0\0y"]) + "z"
    if r < 0.85:
        return "".join(chr(rng.choice([rng.randint(0x20, 0x7e), rng.randint(0xa0, 0x24f), rng.randint(0x370, 0x5ff),
                                       rng.randint(0x1f300, 0x1f9ff), rng.randint(0x20000, 0x2a6df)]))
                       for _ in range(rng.randint(1, 12)))
    return rng.choice(ASCII) + str(rng.randint(0, 10 ** rng.randint(1, 12)))


def forms(s):
    """Canonically equivalent spellings of s, as different hosts would deliver it."""
    out = {s, unicodedata.normalize("NFC", s), unicodedata.normalize("NFD", s)}
    # one character left decomposed/composed at a time
    for i, ch in enumerate(s):
        d = unicodedata.normalize("NFD", ch)
        if d != ch:
            out.add(s[:i] + d + s[i + 1:])
    nfd = unicodedata.normalize("NFD", s)
    # reorder adjacent combining marks of different classes
    l = list(nfd)
    for i in range(len(l) - 1):
        a, b = unicodedata.combining(l[i]), unicodedata.combining(l[i + 1])
        if a and b and a != b:
            out.add("".join(l[:i] + [l[i + 1], l[i]] + l[i + 2:]))
    f = unicodedata.normalize("NFC", s)
    for i, ch in enumerate(f):
        for v in SAME.get(ch, ()):
            out.add(f[:i] + v + f[i + 1:])
    # partial compositions: NFD of a prefix, NFC of the rest
    for i in range(1, min(len(nfd), 6)):
        c = nfd[:i] + unicodedata.normalize("NFC", nfd[i:])
        out.add(c)
        c = unicodedata.normalize("NFC", nfd[:i]) + nfd[i:]
        out.add(c)
    for i in (8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096):
        if len(s) >= i:           # decomposed around a boundary
            out.add(unicodedata.normalize("NFD", s[:i]) + s[i:])
            out.add(s[:i] + unicodedata.normalize("NFD", s[i:]))
    n = unicodedata.normalize("NFC", s)
    return sorted(f for f in out if unicodedata.normalize("NFC", f) == n)


def near_misses(rng, s):
    """Passphrases that are not equivalent to s although they look like it."""
    c = []
    c += [s.swapcase(), s.lower(), s.upper(), s.casefold(), s.title(), s.capitalize()]
    c += [s + " ", " " + s, s.strip(), s.rstrip(), s.lstrip(), s.replace(" ", ""), s.replace(" ", "  "), s + "\n",
          s.rstrip("\n"), s + "\r\n", s + "\t", s.replace(" ", "\u00a0"), "\ufeff" + s, s + "\u200b", s + "\ufe0f"]
    c += [unicodedata.normalize("NFKC", s), unicodedata.normalize("NFKD", s)]
    c += [s[:i] for i in (len(s) - 1, len(s) // 2, 1, 8, 16, 32, 64, 72, 128) if 0 <= i < len(s)]
    c += [s + s[-1:], s + "a", s + "\0a", "a" + s, s[1:], s[::-1], s + s, "", "x"]
    c += ["".join(ch for ch in unicodedata.normalize("NFD", s) if not unicodedata.combining(ch))]
    try:
        c += [s.encode("utf-8").decode("latin-1"), s.encode("utf-8").hex(), s.encode("utf-16-le").decode("latin-1")]
    except UnicodeError:
        pass
    c += [s.encode("ascii", "ignore").decode(), s.encode("ascii", "replace").decode(),
          s.encode("latin-1", "ignore").decode("latin-1"), s.split("\0")[0], s.replace("\0", ""),
          "".join(ch for ch in s if ch.isprintable()), "".join(ch if ord(ch) < 0x10000 else "\ufffd" for ch in s),
          "".join(ch for ch in s if ord(ch) < 0x10000), s.translate({0x130: "i", 0x131: "i", 0xdf: "ss"})]
    c += [" ".join(s.split()), "".join(ch for ch in s if unicodedata.category(ch) != "Cf"),
          "".join(ch for ch in s if unicodedata.category(ch) != "Cc"), "".join(sorted(s)), " ".join(sorted(s.split(" "))),
          "\u200e" + s, s + "\u00ad", s + "\u200d", s.translate({0x27: "\u2019", 0x22: "\u201c", 0x2d: "\u2013", 0x2e: "\u2024"}),
          s.translate({0x61: "\u0430", 0x65: "\u0435", 0x6f: "\u043e", 0x70: "\u0440", 0x63: "\u0441"}),
          s.translate({0x30: "O", 0x4f: "0", 0x6c: "1", 0x31: "l", 0x49: "l"}), s.strip("\0"), s.lstrip("0"), s.rstrip("0"),
          s.expandtabs(), s.strip("\"'"), '"' + s + '"', s.replace("\\", "/"), s.replace("+", " "), s.replace("_", " ")]
    odd = [x for x in sorted(ODD) if x in s]
    for x in odd[:12]:
        c += [s.replace(x, ODD[x])]
    t = s
    for x in odd:
        t = t.replace(x, ODD[x])
    c += [t]
    back = [x for x in sorted(ODD) if ODD[x] and ODD[x] in s]
    for x in rng.sample(back, min(3, len(back))):
        c += [s.replace(ODD[x], x, 1), s.replace(ODD[x], x)]
    if s:
        i = rng.randrange(len(s) + 1)
        c += [s[:i] + rng.choice(sorted(ODD)) + s[i:]]
    for cut in (15, 16, 31, 32, 63, 64, 71, 72, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 65535):
        if cut < len(s) and rng.random() < 0.5:
            c += [s[:cut] + chr((ord(s[cut]) ^ 1) or 2) + s[cut + 1:], s[:cut + 1]]
    if s:
        i = rng.randrange(len(s))
        c += [s[:i] + chr(ord(s[i]) + 0xfee0) + s[i + 1:]] if 0x21 <= ord(s[i]) <= 0x7e else []
        c += [s[:i] + s[i + 1:], s[:i] + chr((ord(s[i]) ^ 1) or 2) + s[i + 1:], s[:i] + s[i].swapcase() + s[i + 1:],
              s[:i] + s[i] + s[i:]]
        if len(s) > 1:
            j = rng.randrange(len(s) - 1)
            c.append(s[:j] + s[j + 1] + s[j] + s[j + 2:])
    good = []
    k0 = ref.keyform(s)
    for x in c:
        if any(0xD800 <= ord(ch) < 0xE000 for ch in x):
            continue
        if ref.keyform(x) != k0 and x not in good:
            good.append(x)
    return good


def salt(rng, n=8):
    return corner_bytes(rng, n)


def seed(rng):
    r = rng.random()
    if r < 0.8:
        return corner_bytes(rng, 24)
    if r < 0.86:
        return bytes.fromhex(rng.choice(rng.choice(RARE_SEEDS)))
    # factor with a leading zero byte
    while True:
        s = rbytes(rng, 24)
        if ref.dsha(s)[0] == 0:
            return s


def mined_seed(rng, R, code, passphrase, lot=None):
    """A seed whose multiplied private key has a leading zero byte, for this code's owner."""
    numbered, entropy, _, _ = R.parse_code(code)
    f = int.from_bytes(R.passfactor(passphrase, entropy, numbered), "big")
    n = 2 if rng.random() < 0.05 else 1         # how many leading zero bytes
    for _ in range(3000 if n == 1 else 100000):
        s = rbytes(rng, 24)
        if (f * int.from_bytes(ref.dsha(s), "big") % ref.N) >> 256 - 8 * n == 0:
            return s
    return rbytes(rng, 24)


def lot(rng):
    return rng.choice([100000, 100001, 999999, 999998, 524287, 524288, 524289, 262144, 131072, 102400, 199999, 567890,
                       rng.randint(100000, 999999), rng.randint(100000, 999999), rng.randint(524288, 999999)])


def sequence(rng):
    return rng.choice([0, 0, 1, 4095, 4094, 2048, 2047, 255, 256, 4080, rng.randint(0, 4095), rng.randint(0, 4095)])


# ------------------------------------------------------------------ damage
DAMAGE = ["sub", "sub2", "swap", "drop", "dup", "trunc", "head", "extend", "tear", "join", "case", "foreign", "alias",
          "inner_ws", "rev", "lead1", "strip1", "rot", "alphabet", "empty", "wide", "shuffle", "dupblock", "zero_tail",
          "recode_short", "recode_long", "subfirst", "sublast", "nonascii", "swapfar", "line", "label", "nul", "split", "sums", "sums"]
CHECKED = {"recode_short", "recode_long"}


def _reads(s):
    try:
        ref.b58cdec(s)
        return True
    except ref.Refuse:
        return False


def damage(rng, s, kind=None, other=None):
    """Alter the text of an artifact; returns (kind, text).  Never only adds outer whitespace."""
    kind = kind or rng.choice(DAMAGE)
    if not s:
        return "extend", "1"
    i = rng.randrange(len(s))
    o = other if other is not None else s[::-1]

    def sub(t, i):
        return t[:i] + rng.choice([c for c in B58 if c != t[i]]) + t[i + 1:]
    if kind == "sub":
        t = sub(s, i)
    elif kind == "subfirst":
        t = sub(s, 0)
    elif kind == "sublast":
        t = sub(s, len(s) - 1)
    elif kind == "sub2":
        t = sub(sub(s, i), rng.randrange(len(s)))
    elif kind == "swap":
        j = rng.randrange(len(s) - 1) if len(s) > 1 else 0
        t = s[:j] + s[j + 1:j + 2] + s[j] + s[j + 2:]
    elif kind == "swapfar":
        j = rng.randrange(len(s))
        l = list(s)
        l[i], l[j] = l[j], l[i]
        t = "".join(l)
    elif kind == "drop":
        t = s[:i] + s[i + 1:]
    elif kind == "dup":
        t = s[:i] + s[i] + s[i:]
    elif kind == "trunc":
        t = s[:rng.choice([len(s) - 1, len(s) - 2, len(s) - 4, len(s) // 2, rng.randrange(len(s))])]
    elif kind == "head":
        t = s[rng.choice([1, 2, 4, len(s) // 2]):]
    elif kind == "extend":
        t = s + "".join(rng.choice(B58) for _ in range(rng.randint(1, 6)))
    elif kind == "tear":
        t = s[:i] + o[i:]
    elif kind == "join":
        t = rng.choice([s + s, s + o, o + s])
    elif kind == "case":
        t = rng.choice([s.swapcase(), s.lower(), s.upper(), s[:i] + s[i].swapcase() + s[i + 1:]])
    elif kind == "foreign":
        t = s[:i] + rng.choice("0OIl+/=_-.,;:!?#$%&*") + s[i + 1:]
    elif kind == "alias":      # a character outside the alphabet that a sloppy decoder could take for another one
        m = {"1": "lI", "o": "0O", "9": "g0", "B": "8I", "A": "O0", "z": "{_", "k": "l", "H": "I", "N": "O", "m": "l"}
        js = [j for j, ch in enumerate(s) if ch in m]
        j = rng.choice(js) if js else i
        t = s[:j] + rng.choice(m.get(s[j], "0OIl")) + s[j + 1:]
    elif kind == "inner_ws":
        t = s[:max(1, i)] + rng.choice([" ", "\n", "\t", "\r\n", "-"]) + s[max(1, i):] if len(s) > 1 else s + "-"
    elif kind == "rev":
        t = s[::-1]
    elif kind == "lead1":
        t = "1" * rng.randint(1, 3) + s
    elif kind == "strip1":
        t = s.lstrip("1") if s.startswith("1") else s[1:]
    elif kind == "rot":
        t = s[1:] + s[0]
    elif kind == "alphabet":
        rip = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
        t = "".join(rip[B58.index(c)] if c in B58 else c for c in s)
    elif kind == "empty":
        t = ""
    elif kind == "wide":
        t = s[:i] + chr(ord(s[i]) + 0xFEE0) + s[i + 1:]
    elif kind == "nonascii":
        t = s[:i] + rng.choice(["\u00e9", "\u0430", "\u200b", "\U0001f4a9", "\0", "\x7f", "\u2026"]) + s[i + 1:]
    elif kind == "line":       # two deliveries in one
        t = rng.choice([s + "\n" + o, o + "\n" + s, s + "\n" + s, s + " " + o, s + "\r\n" + o, s + "\t" + o, s + "," + o, s + ";" + o])
    elif kind == "label":      # what surrounds an artifact in a letter
        t = rng.choice(["key: " + s, s + " # mine", s + ",", s + ".", '"' + s + '"', "'" + s + "'", "<" + s + ">", s + "=", "bitcoin:" + s,
                        s + "?amount=1", "(" + s + ")", s + ":", "-" + s, s + "-", "0x" + s, s + "\\n", "b'" + s + "'"])
    elif kind == "nul":
        t = rng.choice([s + "\0", s + "\0" + o, "\0" + s, s + "\0" * 4, s + "\x1a", s + "\u200b", "\ufeff" + s, s[:i] + "\0" + s[i:]])
    elif kind == "split":      # groups, as printed on paper
        w, z = rng.choice([4, 5, 10]), rng.choice([" ", "-", "\n", "\u00ad", "_"])
        t = z.join(s[j:j + w] for j in range(0, len(s), w)) if len(s) > w else s + "-"
    elif kind == "shuffle":
        l = list(s)
        rng.shuffle(l)
        t = "".join(l)
    elif kind == "dupblock":
        j = min(len(s), i + rng.randint(2, 8))
        t = s[:j] + s[i:j] + s[j:]
    elif kind == "zero_tail":
        t = s[:i] + "1" * (len(s) - i)
    elif kind == "sums":       # the content as it was, or not, under a checksum that is none
        try:
            p = ref.b58cdec(s)
        except ref.Refuse:
            p = b"\x80" + bytes(range(1, 33))
        if rng.random() < 0.6:
            p = bytearray(p)
            p[rng.randrange(len(p))] ^= 1 << rng.randrange(8)
            p = bytes(p)
        h1 = _sha(p)
        h2 = _sha(h1)
        c = ref.chk(ref.b58cdec(s)) if _reads(s) else h2[:4]
        z = rng.choice([h1[:4], h2[-4:], h2[4:8], h2[:4][::-1], h1[-4:], bytes(4), b"\xff" * 4, _sha(h2)[:4],
                        zlib.crc32(p).to_bytes(4, "big"), _md5(p)[:4], _sha(s[:-6].encode("utf8"))[:4], _sha(p[::-1])[:4],
                        h2[:3] + b"\0", b"\0" + h2[1:4], h2[:2] + h2[3:1:-1], ref.chk(p[1:]), ref.chk(p + b"\1"), c, c[::-1],
                        h2[:3] + bytes([h2[3] ^ 1 << rng.randrange(8)]), bytes([h2[0] ^ 1 << rng.randrange(8)]) + h2[1:4],
                        h2[:3], h2[:2], h2[:1], b"", h2[:5], h2[:8], h2])
        t = ref.b58enc(p + z)
        if _reads(t):
            t = s
    elif kind in CHECKED:
        try:
            p = ref.b58cdec(s)
        except ref.Refuse:
            p = b"\1\x42" + bytes(37)
        n = rng.choice([1, 2, 4, 8])
        if kind == "recode_short":
            t = ref.b58cenc(rng.choice([p[:-n], p[n:]]))
        else:
            t = ref.b58cenc(rng.choice([p + bytes(n), p + rbytes(rng, n), bytes(n) + p]))
    else:
        raise AssertionError(kind)
    if t == s or t.strip() == s:
        return damage(rng, s, "sub", other)
    return kind, t


def rekind(rng, s, field):
    """Alter what says which kind of artifact it is, and recompute the checksum."""
    p = bytearray(ref.b58cdec(s))
    n = {"code": 8, "cfrm": 5, "ewif": 2, "ewif2": 2, "wif": 1}[field]
    r = rng.random()
    i = rng.randrange(n)
    if r < 0.4:
        p[i] ^= 1 << rng.randrange(8)
    elif r < 0.6:
        p[i] = rng.randrange(256)
    elif r < 0.7:
        p[n - 1] = (p[n - 1] + rng.choice([1, 2, 255, 254])) % 256
    elif r < 0.8:
        p[:n] = rbytes(rng, n)
    elif r < 0.9:
        p[:n] = bytes(p[:n])[::-1]
    else:
        z = rng.choice([bytes.fromhex("2ce9b3e1ff39e251"), bytes.fromhex("2ce9b3e1ff39e253"), bytes.fromhex("643bf6a89a"), b"\x01\x42", b"\x01\x43", b"\x80"])
        p[:n] = (z + bytes(n))[:n]
    return ref.b58cenc(bytes(p))


def forge(rng, s, kind):
    """Alter the content and recompute the checksum. kind: ewif, cfrm."""
    p = bytearray(ref.b58cdec(s))
    f = rng.choice(["bit", "byte", "field", "flag", "zero", "swap"])
    lo = 2 if kind == "ewif" else 5
    if f == "bit":
        i = rng.randrange(lo, len(p))
        p[i] ^= 1 << rng.randrange(8)
    elif f == "byte":
        i = rng.randrange(len(p))
        p[i] = rng.randrange(256)
    elif f == "field":
        a = rng.choice([3, 7, 11, 15, 23, 31]) if kind == "ewif" else rng.choice([6, 10, 14, 18, 19, 35])
        p[a:a + 4] = rbytes(rng, 4)
    elif f == "flag":
        p[lo] = rng.choice([0, 4, 0x20, 0x24, 0xC0, 0xE0, 0x28, 0x2C, 0x08, 0x0C, 0x10, 0x34, 0x3C, 0xC4, 0xE4, 0xE8, 0xF0, 0xFF])
    elif f == "zero":
        a = rng.randrange(lo + 1, len(p))
        p[a:] = bytes(len(p) - a)
    else:
        a, b = rng.randrange(lo, len(p)), rng.randrange(lo, len(p))
        p[a], p[b] = p[b], p[a]
    t = ref.b58cenc(bytes(p))
    return f, t
