"""Independent reference implementation of the BIP38 specification.

It shares no code with /repo: own Base58, secp256k1 arithmetic (8-bit comb for the
generator), AES-256, RIPEMD-160 fallback, address/WIF records and the four flows.  The
only trusted parts are CPython's int, hashlib.sha256, hashlib.scrypt and unicodedata.
It plays three parts: the oracle the library's answers are compared with, the "peer"
hosts of a mixed fleet, and the model that says whether a damaged text is still valid.
"""
import hashlib
import unicodedata

_sha256 = hashlib.sha256
_real_scrypt = hashlib.scrypt
_hnew = hashlib.new

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


class Refuse(Exception):
    """kind: 'bad' (malformed or damaged), 'pass' (incorrect passphrase), 'arg' (bad argument)."""

    def __init__(self, kind, why=""):
        Exception.__init__(self, kind, why)
        self.kind = kind
        self.why = why


# ---------------------------------------------------------------- base58
def b58enc(b, alphabet=B58):
    n = int.from_bytes(b, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = alphabet[r] + s
    z = 0
    while z < len(b) and b[z] == 0:
        z += 1
    return alphabet[0] * z + s


def b58dec(s, alphabet=B58):
    n = 0
    for c in s:
        i = alphabet.find(c)
        if i < 0:
            raise Refuse("bad", "alphabet")
        n = n * 58 + i
    z = 0
    while z < len(s) and s[z] == alphabet[0]:
        z += 1
    return b"\0" * z + n.to_bytes((n.bit_length() + 7) // 8, "big")


def dsha(b):
    return _sha256(_sha256(b).digest()).digest()


def chk(b):
    return dsha(b)[:4]


def b58cenc(b, alphabet=B58):
    return b58enc(b + chk(b), alphabet)


def b58cdec(s, alphabet=B58):
    r = b58dec(s, alphabet)
    if len(r) < 4 or chk(r[:-4]) != r[-4:]:
        raise Refuse("bad", "checksum")
    return r[:-4]


# ---------------------------------------------------------------- ripemd160
_R1 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
       7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
       3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
       1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
       4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13]
_R2 = [5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
       6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
       15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
       8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
       12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11]
_S1 = [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
       7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
       11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
       11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
       9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]
_S2 = [8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
       9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
       9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
       15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
       8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]
_K1 = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]
_K2 = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0]


def _f(j, x, y, z):
    if j == 0:
        return x ^ y ^ z
    if j == 1:
        return (x & y) | (~x & z)
    if j == 2:
        return (x | ~y) ^ z
    if j == 3:
        return (x & z) | (y & ~z)
    return x ^ (y | ~z)


def ripemd160_pure(data):
    M = 0xFFFFFFFF
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    m = data + b"\x80"
    m += b"\0" * ((56 - len(m)) % 64) + (8 * len(data)).to_bytes(8, "little")
    for o in range(0, len(m), 64):
        x = [int.from_bytes(m[o + 4 * i:o + 4 * i + 4], "little") for i in range(16)]
        a, b, c, d, e = h
        a2, b2, c2, d2, e2 = h
        for i in range(80):
            j = i // 16
            t = (a + _f(j, b, c, d) + x[_R1[i]] + _K1[j]) & M
            t = (((t << _S1[i]) | (t >> (32 - _S1[i]))) + e) & M
            a, e, d, c, b = e, d, ((c << 10) | (c >> 22)) & M, b, t
            t = (a2 + _f(4 - j, b2, c2, d2) + x[_R2[i]] + _K2[j]) & M
            t = (((t << _S2[i]) | (t >> (32 - _S2[i]))) + e2) & M
            a2, e2, d2, c2, b2 = e2, d2, ((c2 << 10) | (c2 >> 22)) & M, b2, t
        h = [(h[1] + c + d2) & M, (h[2] + d + e2) & M, (h[3] + e + a2) & M,
             (h[4] + a + b2) & M, (h[0] + b + c2) & M]
    return b"".join(v.to_bytes(4, "little") for v in h)


try:
    _hnew("ripemd160", b"").digest()

    def ripemd160(b):
        return _hnew("ripemd160", b).digest()
except ValueError:
    ripemd160 = ripemd160_pure


def hash160(b):
    return ripemd160(_sha256(b).digest())


# ---------------------------------------------------------------- secp256k1 (affine out, Jacobian inside)
def _jdbl(p):
    x, y, z = p
    if not y or not z:
        return (0, 1, 0)
    ysq = y * y % P
    s = 4 * x * ysq % P
    m = 3 * x * x % P
    nx = (m * m - 2 * s) % P
    return (nx, (m * (s - nx) - 8 * ysq * ysq) % P, 2 * y * z % P)


def _jadd(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    x1, y1, z1 = p
    x2, y2, z2 = q
    z1s, z2s = z1 * z1 % P, z2 * z2 % P
    u1, u2 = x1 * z2s % P, x2 * z1s % P
    s1, s2 = y1 * z2s * z2 % P, y2 * z1s * z1 % P
    if u1 == u2:
        return _jdbl(p) if s1 == s2 else (0, 1, 0)
    h = u2 - u1
    r = s2 - s1
    h2 = h * h % P
    h3 = h * h2 % P
    v = u1 * h2 % P
    nx = (r * r - h3 - 2 * v) % P
    return (nx, (r * (v - nx) - s1 * h3) % P, h * z1 * z2 % P)


def _aff(p):
    if not p[2]:
        return None
    zi = pow(p[2], -1, P)
    z2 = zi * zi % P
    return (p[0] * z2 % P, p[1] * z2 * zi % P)


_comb = None


def _mkcomb():
    global _comb
    rows, base = [], (G[0], G[1], 1)
    for _ in range(32):
        row, acc = [(0, 1, 0)], (0, 1, 0)
        for _ in range(255):
            acc = _jadd(acc, base)
            row.append(acc)
        rows.append(row)
        base = _jadd(acc, base)
    _comb = rows


_pubmemo = {}


def pub(k):
    """Affine public point of scalar k."""
    r = _pubmemo.get(k)
    if r is None:
        if _comb is None:
            _mkcomb()
        acc = (0, 1, 0)
        kk = k
        for i in range(32):
            acc = _jadd(acc, _comb[i][kk & 255])
            kk >>= 8
        r = _aff(acc)
        if len(_pubmemo) > 20000:
            _pubmemo.clear()
        _pubmemo[k] = r
    return r


def mul(pt, k):
    acc, q = (0, 1, 0), (pt[0], pt[1], 1)
    k %= N
    tbl = [(0, 1, 0), q]
    for _ in range(14):
        tbl.append(_jadd(tbl[-1], q))
    for sh in range(252, -4, -4):
        acc = _jdbl(_jdbl(_jdbl(_jdbl(acc))))
        acc = _jadd(acc, tbl[(k >> sh) & 15])
    return _aff(acc)


def add(p, q):
    """Affine addition; None is the point at infinity."""
    if p is None or q is None:
        return p or q
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0:
            return None
        return mul(p, 2)
    l = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
    x = (l * l - p[0] - q[0]) % P
    return x, (l * (p[0] - x) - p[1]) % P


def enc_pt(pt, compressed=True):
    x = pt[0].to_bytes(32, "big")
    if compressed:
        return bytes([2 + (pt[1] & 1)]) + x
    return b"\4" + x + pt[1].to_bytes(32, "big")


def dec_pt(b):
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], "big")
        if x < P:
            y2 = (x * x * x + 7) % P
            y = pow(y2, (P + 1) // 4, P)
            if y * y % P == y2:
                return (x, y if (y & 1) == (b[0] & 1) else P - y)
    elif len(b) == 65 and b[0] == 4:
        x, y = int.from_bytes(b[1:33], "big"), int.from_bytes(b[33:], "big")
        if x < P and y < P and (y * y - x * x * x - 7) % P == 0:
            return (x, y)
    raise Refuse("bad", "point")


# ---------------------------------------------------------------- AES-256, one block, from FIPS-197
def _mk():
    p = q = 1
    sb = [0] * 256
    while True:
        p = p ^ ((p << 1) & 255) ^ (0x1B if p & 128 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 255
        if q & 128:
            q ^= 9
        rot = lambda v, n: ((v << n) | (v >> (8 - n))) & 255
        sb[p] = q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4) ^ 0x63
        if p == 1:
            break
    sb[0] = 0x63
    inv = [0] * 256
    for i, v in enumerate(sb):
        inv[v] = i
    return sb, inv


_SB, _IS = _mk()
_X2 = [((i << 1) ^ (0x1B if i & 128 else 0)) & 255 for i in range(256)]
_X4 = [_X2[_X2[i]] for i in range(256)]
_X8 = [_X2[_X4[i]] for i in range(256)]
_M3 = [_X2[i] ^ i for i in range(256)]
_M9 = [_X8[i] ^ i for i in range(256)]
_MB = [_X8[i] ^ _X2[i] ^ i for i in range(256)]
_MD = [_X8[i] ^ _X4[i] ^ i for i in range(256)]
_ME = [_X8[i] ^ _X4[i] ^ _X2[i] for i in range(256)]


def _expand(key):
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [_SB[t[1]] ^ rc, _SB[t[2]], _SB[t[3]], _SB[t[0]]]
            rc = _X2[rc]
        elif i % 8 == 4:
            t = [_SB[b] for b in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(15)]


def aes_enc(key, blk):
    rk = _expand(key)
    s = [a ^ b for a, b in zip(blk, rk[0])]
    for r in range(1, 15):
        s = [_SB[s[4 * ((c + i) % 4) + i]] for c in range(4) for i in range(4)]
        if r < 14:
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t += [_X2[a] ^ _M3[b] ^ d ^ e, a ^ _X2[b] ^ _M3[d] ^ e,
                      a ^ b ^ _X2[d] ^ _M3[e], _M3[a] ^ b ^ d ^ _X2[e]]
            s = t
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


def aes_dec(key, blk):
    rk = _expand(key)
    s = [a ^ b for a, b in zip(blk, rk[14])]
    for r in range(13, -1, -1):
        s = [_IS[s[4 * ((c - i) % 4) + i]] for c in range(4) for i in range(4)]
        s = [a ^ b for a, b in zip(s, rk[r])]
        if r:
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t += [_ME[a] ^ _MB[b] ^ _MD[d] ^ _M9[e], _M9[a] ^ _ME[b] ^ _MB[d] ^ _MD[e],
                      _MD[a] ^ _M9[b] ^ _ME[d] ^ _MB[e], _MB[a] ^ _MD[b] ^ _M9[d] ^ _ME[e]]
            s = t
    return bytes(s)


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


# ---------------------------------------------------------------- records
def ibytes(i):
    return i.to_bytes(max(1, (i.bit_length() + 7) // 8), "big")


def wif(key, compressed, prefix):
    return b58cenc(ibytes(prefix) + key + (b"\1" if compressed else b""))


def parse_wif(text, prefix):
    """-> (key, compressed, checksum)"""
    raw = b58cdec(text)
    p = ibytes(prefix)
    if not raw.startswith(p):
        raise Refuse("bad", "prefix")
    body = raw[len(p):]
    if len(body) == 33 and body[32] == 1:
        return body[:32], True, chk(raw)
    if len(body) == 32:
        return body, False, chk(raw)
    raise Refuse("bad", "length")


def address(pt, compressed, prefix, alphabet=B58):
    return b58cenc(ibytes(prefix) + hash160(enc_pt(pt, compressed)), alphabet)


def parse_address(text, prefix, alphabet=B58):
    raw = b58cdec(text, alphabet)
    p = ibytes(prefix)
    if not raw.startswith(p) or len(raw) != len(p) + 20:
        raise Refuse("bad", "prefix")
    return raw[len(p):]


def pbytes(passphrase):
    return unicodedata.normalize("NFC", passphrase).encode("utf-8")


def keyform(passphrase):
    """What HMAC-SHA256 (hence scrypt) can distinguish of a passphrase."""
    b = pbytes(passphrase)
    if len(b) > 64:
        b = _sha256(b).digest()
    return b.rstrip(b"\0")


def real_kdf(password, salt, n, r, p, buflen):
    return _real_scrypt(password, salt=salt, n=n, r=r, p=p, maxmem=64 * 1024 * 1024, dklen=buflen)


MAGIC_LS = bytes.fromhex("2ce9b3e1ff39e251")
MAGIC_NO = bytes.fromhex("2ce9b3e1ff39e253")
CFRM = bytes.fromhex("643bf6a89a")


class Ref:
    def __init__(self, kdf=real_kdf):
        self.kdf = kdf

    def passfactor(self, passphrase, entropy, numbered):
        pre = self.kdf(pbytes(passphrase), entropy[:4] if numbered else entropy, 16384, 8, 8, 32)
        f = dsha(pre + entropy) if numbered else pre
        if not 0 < int.from_bytes(f, "big") < N:
            raise Refuse("range")
        return f

    def intermediate(self, passphrase, salt, lot=None, sequence=None):
        if len(salt) not in (4, 8) or (lot is None) != (sequence is None):
            raise Refuse("arg")
        if len(salt) == 4 and lot is None:
            raise Refuse("arg")
        if lot is not None:
            if not (100000 <= lot <= 999999 and 0 <= sequence <= 4095):
                raise Refuse("arg")
            entropy = salt[:4] + (lot << 12 | sequence).to_bytes(4, "big")
            magic = MAGIC_LS
        else:
            entropy, magic = salt, MAGIC_NO
        f = self.passfactor(passphrase, entropy, lot is not None)
        return b58cenc(magic + entropy + enc_pt(pub(int.from_bytes(f, "big"))))

    def parse_code(self, code):
        raw = b58cdec(code)
        if len(raw) != 49 or raw[:8] not in (MAGIC_LS, MAGIC_NO):
            raise Refuse("bad", "code")
        pt = dec_pt(raw[16:])
        return raw[:8] == MAGIC_LS, raw[8:16], raw[16:], pt

    def mint(self, code, compressed, seed, prefix, alphabet=B58):
        numbered, entropy, praw, ppt = self.parse_code(code)
        if len(seed) != 24:
            raise Refuse("arg")
        fb = dsha(seed)
        fi = int.from_bytes(fb, "big")
        if not 0 < fi < N:
            raise Refuse("range")
        pt = mul(ppt, fi)
        addr = address(pt, compressed, prefix, alphabet)
        ah = chk(addr.encode())
        d = self.kdf(praw, ah + entropy, 1024, 1, 1, 64)
        d1, d2, key = d[:16], d[16:32], d[32:]
        flag = (0x20 if compressed else 0) | (0x04 if numbered else 0)
        e1 = aes_enc(key, xor(seed[:16], d1))
        e2 = aes_enc(key, xor(e1[8:] + seed[16:], d2))
        ew = b58cenc(b"\x01\x43" + bytes([flag]) + ah + entropy + e1[:8] + e2)
        pb = enc_pt(pub(fi))
        epb = bytes([pb[0] ^ (key[31] & 1)]) + aes_enc(key, xor(pb[1:17], d1)) + aes_enc(key, xor(pb[17:], d2))
        cc = b58cenc(CFRM + bytes([flag]) + ah + entropy + epb)
        return dict(encrypted_wif=ew, confirmation_code=cc, public_key=enc_pt(pt, compressed).hex(),
                    seed=seed.hex(), public_key_type="compressed" if compressed else "uncompressed",
                    address=addr)

    def confirm(self, passphrase, code, prefix, alphabet=B58):
        raw = b58cdec(code)
        if len(raw) != 51 or raw[:5] != CFRM:
            raise Refuse("bad", "confirmation")
        flag, ah, entropy, epb = raw[5], raw[6:10], raw[10:18], raw[18:]
        if flag not in (0x00, 0x04, 0x20, 0x24):
            raise Refuse("forged", "flag")
        numbered, compressed = bool(flag & 4), bool(flag & 0x20)
        f = self.passfactor(passphrase, entropy, numbered)
        praw = enc_pt(pub(int.from_bytes(f, "big")))
        d = self.kdf(praw, ah + entropy, 1024, 1, 1, 64)
        d1, d2, key = d[:16], d[16:32], d[32:]
        pb = bytes([epb[0] ^ (key[31] & 1)]) + xor(aes_dec(key, epb[1:17]), d1) + xor(aes_dec(key, epb[17:]), d2)
        try:
            pt = mul(dec_pt(pb), int.from_bytes(f, "big"))
        except Refuse:
            raise Refuse("pass")
        addr = address(pt, compressed, prefix, alphabet)
        if chk(addr.encode()) != ah:
            raise Refuse("pass")
        ls = int.from_bytes(entropy[4:], "big")
        return dict(public_key=enc_pt(pt, compressed).hex(),
                    public_key_type="compressed" if compressed else "uncompressed", address=addr,
                    lot=ls >> 12 if numbered else None, sequence=ls & 4095 if numbered else None)

    def encrypt(self, key, compressed, passphrase, prefix, alphabet=B58, alias=None):
        k = int.from_bytes(key, "big")
        if not 0 < k < N:
            raise Refuse("bad", "key")
        addr = address(pub(k), compressed, prefix, alphabet)
        ah = chk(addr.encode())
        d = self.kdf(pbytes(passphrase), ah, 16384, 8, 8, 64)
        b = xor(alias or key, d[:32])          # alias: other content under this key's address hash
        return b58cenc(b"\x01\x42" + (b"\xe0" if compressed else b"\xc0") + ah +
                       aes_enc(d[32:], b[:16]) + aes_enc(d[32:], b[16:]))

    def parse_enc(self, text):
        raw = b58cdec(text)
        if len(raw) != 39:
            raise Refuse("bad", "length")
        if raw[:2] == b"\x01\x42":
            if raw[2] not in (0xC0, 0xE0):
                raise Refuse("forged", "flag")
        elif raw[:2] == b"\x01\x43":
            if raw[2] not in (0x00, 0x04, 0x20, 0x24):
                raise Refuse("forged", "flag")
        else:
            raise Refuse("bad", "prefix")
        return raw

    def decrypt(self, text, passphrase, wprefix, aprefix, alphabet=B58):
        raw = self.parse_enc(text)
        flag, ah = raw[2], raw[3:7]
        seed = lot = sequence = None
        compressed = bool(flag & 0x20)
        if raw[1] == 0x42:
            d = self.kdf(pbytes(passphrase), ah, 16384, 8, 8, 64)
            key = xor(aes_dec(d[32:], raw[7:23]) + aes_dec(d[32:], raw[23:39]), d[:32])
        else:
            numbered = bool(flag & 4)
            entropy = raw[7:15]
            f = self.passfactor(passphrase, entropy, numbered)
            praw = enc_pt(pub(int.from_bytes(f, "big")))
            d = self.kdf(praw, ah + entropy, 1024, 1, 1, 64)
            t = xor(aes_dec(d[32:], raw[23:39]), d[16:32])
            seed = xor(aes_dec(d[32:], raw[15:23] + t[:8]), d[:16]) + t[8:]
            fb = int.from_bytes(dsha(seed), "big")
            key = (int.from_bytes(f, "big") * fb % N).to_bytes(32, "big")
            if numbered:
                ls = int.from_bytes(entropy[4:], "big")
                lot, sequence = ls >> 12, ls & 4095
        k = int.from_bytes(key, "big")
        if not 0 < k < N:
            raise Refuse("range")
        pt = pub(k)
        addr = address(pt, compressed, aprefix, alphabet)
        if chk(addr.encode()) != ah:
            raise Refuse("pass")
        return dict(wif=wif(key, compressed, wprefix), private_key=key.hex(),
                    wif_type="wif-compressed" if compressed else "wif",
                    public_key=enc_pt(pt, compressed).hex(),
                    public_key_type="compressed" if compressed else "uncompressed",
                    seed=seed.hex() if seed is not None else None, address=addr, lot=lot, sequence=sequence)


def selftest(real=True):
    """Validate the reference against published vectors (BIP38 text, FIPS-197, RIPEMD-160 paper)."""
    assert ripemd160_pure(b"") .hex() == "9c1185a5c5e9fc54612808977ee8f548b2258d31"
    assert ripemd160_pure(b"abc").hex() == "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"
    assert ripemd160_pure(b"a" * 1000).hex() == ripemd160(b"a" * 1000).hex()
    k = bytes(range(32))
    c = aes_enc(k, bytes.fromhex("00112233445566778899aabbccddeeff"))
    assert c.hex() == "8ea2b7ca516745bfeafc49904b496089", c.hex()
    assert aes_dec(k, c).hex() == "00112233445566778899aabbccddeeff"
    assert pub(1) == G and mul(G, 7) == pub(7) and mul(pub(5), N - 3) == pub(N - 15)
    assert dec_pt(enc_pt(pub(12345))) == pub(12345)
    if not real:
        return
    r = Ref()
    T = "TestingOneTwoThree"
    key, comp, _ = parse_wif("5KN7MzqK5wt2TP1fQCYyHBtDrXdJuXbUzm4A9rKAteGu3Qi5CVR", 0x80)
    assert r.encrypt(key, comp, T, 0) == "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg"
    d = r.decrypt("6PfQu77ygVyJLZjfvMLyhLMQbYnu5uguoJJ4kMCLqWwPEdfpwANVS76gTX", T, 0x80, 0)
    assert d["wif"] == "5K4caxezwjGCGfnoPTZ8tMcJBLB7Jvyjv4xxeacadhq8nLisLR2", d
    d = r.decrypt("6PgNBNNzDkKdhkT6uJntUXwwzQV8Rr2tZcbkDcuC9DZRsS6AtHts4Ypo1j", "MOLON LABE", 0x80, 0)
    assert d["wif"] == "5JLdxTtcTHcfYcmJsNVy1v2PMDx432JPoYcBTVVRHpPaxUrdtf8" and d["lot"] == 263183 and d["sequence"] == 1
    d = r.confirm("MOLON LABE", "cfrm38V8aXBn7JWA1ESmFMUn6erxeBGZGAxJPY4e36S9QWkzZKtaVqLNMgnifETYw7BPwWC9aPD", 0)
    assert d["address"] == "1Jscj8ALrYu2y9TD8NrpvDBugPedmbj4Yh" and d["lot"] == 263183, d
