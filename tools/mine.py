"""Mines the values of sim/rare.json: keys and seeds for which some derived value (point, hash, address, checksum) has a shape
that a sampled key shows once in 2**16 to 2**24 times.  usage: mine.py [minutes] (8 processes); the result is committed."""
import hashlib
import json
import os
import random
import sys
import time
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "sim"))
import ref  # noqa: E402

P, N, B = ref.P, ref.N, 512
_STEP = []
pt = ref.G
for _ in range(B):
    _STEP.append(pt)
    pt = ref.add(pt, ref.G)


def walk(k):
    """(key, x, y) for k+1 … k+B by one shared inversion."""
    bx, by = ref.pub(k)
    while True:
        ds = [(sx - bx) % P for sx, _ in _STEP]
        acc, pre = 1, []
        for d in ds:
            pre.append(acc)
            acc = acc * d % P
        inv = pow(acc, -1, P)
        invs = [0] * B
        for i in range(B - 1, -1, -1):
            invs[i] = inv * pre[i] % P
            inv = inv * ds[i] % P
        for i in range(B):
            sx, sy = _STEP[i]
            l = (sy - by) * invs[i] % P
            x = (l * l - bx - sx) % P
            y = (l * (bx - x) - by) % P
            yield k + i + 1, x, y
        k += B
        bx, by = x, y


sha = lambda b: hashlib.sha256(b).digest()
dsha = lambda b: sha(sha(b))
rip = lambda b: hashlib.new("ripemd160", b).digest()
DIG = set(b"0123456789")


def shapes(b):
    """What is unusual about these bytes."""
    if b[:2] == b"\0\0":
        yield "00" * (len(b) - len(b.lstrip(b"\0"))) + ".."
    if b[-2:] == b"\0\0":
        yield "..0000"
    if b[:2] == b"\xff\xff":
        yield "ffff.."


def small(b):
    """The same for checksums of four bytes, and what text or number handling might make of them."""
    yield from shapes(b)
    if b[1:3] == b"\0\0":
        yield "..0000.."
    if len(set(b)) == 1:
        yield "one byte"
    if all(c in b"0123456789abcdefABCDEF" for c in b):
        yield "hex text"


def traits(k, x, y):
    kb, xb, yb = k.to_bytes(32, "big"), x.to_bytes(32, "big"), y.to_bytes(32, "big")
    for s in shapes(xb):
        yield "x " + s
    for s in shapes(yb):
        yield "y " + s
    if xb.hex().isdigit():
        yield "x digits"
    for name, pk in (("c", bytes([2 + y % 2]) + xb), ("u", b"\4" + xb + yb)):
        h = rip(sha(pk))
        for s in shapes(h):
            yield "hash160 %s %s" % (name, s)
        if h.hex().isdigit():
            yield "hash160 %s digits" % name
        for net, pre in (("main", b"\0"), ("test", b"\x6f")):
            c = dsha(pre + h)[:4]
            for s in small(c):
                yield "address sum %s %s %s" % (name, net, s)
            a = ref.b58enc(pre + h + c)
            if not any(ch.islower() for ch in a) or not any(ch.isupper() for ch in a):
                yield "address one case %s %s" % (name, net)
            for s in small(dsha(a.encode())[:4]):
                yield "address hash %s %s %s" % (name, net, s)
    for name, suf in (("c", b"\1"), ("u", b"")):
        for net, pre in (("main", b"\x80"), ("test", b"\xef")):
            for s in small(dsha(pre + kb + suf)[:4]):
                yield "wif sum %s %s %s" % (name, net, s)


def mine(job):
    seed, until = job
    rng = random.Random(seed)
    out = {}
    g = walk(rng.randrange(1, N - (1 << 40)) if seed % 3 else rng.getrandbits(250))
    while time.time() < until:
        for _ in range(200):
            k, x, y = next(g)
            for t in traits(k, x, y):
                out.setdefault(t, []).append("%064x" % k)
    return out


def seeds(job):
    seed, until = job
    rng = random.Random(seed)
    out = {}
    while time.time() < until:
        for _ in range(1000):
            s = rng.getrandbits(192).to_bytes(24, "big")
            for t in shapes(dsha(s)):
                out.setdefault("factor " + t, []).append(s.hex())
    return out


def main():
    minutes = float(sys.argv[1]) if len(sys.argv) > 1 else 10
    g = walk(12345)
    for _ in range(B + 7):
        k, x, y = next(g)
    assert (x, y) == ref.pub(k), "walk"
    until = time.time() + 60 * minutes
    keys, sds = {}, {}
    with ProcessPoolExecutor(8) as ex:
        r = [ex.submit(mine, (100 + i, until)) for i in range(7)]
        s = ex.submit(seeds, (7, min(until, time.time() + 120)))
        for f in r:
            for t, v in f.result().items():
                keys.setdefault(t, []).extend(v)
        sds = s.result()
    # two of each shape; of the longest runs of zeros everything
    cut = lambda d: {t: v[:2] for t, v in sorted(d.items())}
    with open(os.path.join(HERE, "..", "sim", "rare.json"), "w") as f:
        json.dump({"keys": cut(keys), "seeds": cut(sds)}, f, indent=0, sort_keys=True)
        f.write("\n")
    print(len(keys), "shapes of keys,", len(sds), "of seeds")
    for t, v in sorted(keys.items()):
        print(len(v), t)


if __name__ == "__main__":
    main()
