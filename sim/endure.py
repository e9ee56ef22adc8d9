"""C18: endurance.  One process lives through thousands of requests, every one of them new: successes, refusals, wrong
passphrases, garbage, oversized and forged artifacts, new instances, stretches in which a resource keeps failing, cancellations
at any line.  Work is counted, never timed: lines executed, dependency calls, key derivations and simulated waiting per call,
compared with a bound in the length of the inputs and with the same call in a fresh process; memory is counted in live blocks
and in what can be reached from the library."""
import array
import gc
import os
import random
import sys
import types

import gen
import guest
import plans
import ref
import rt
import worlds
from model import Violation
from sched import Counter
from worlds import World, OpGen, EXC, SITE_EXC

LINES = (60_000, 200, 3)     # a call, each character of its inputs, each pair of characters of an artifact; eightfold and more of what any call needs
DERIVATIONS = 6              # the specification needs two at most
WAIT = 60.0                  # simulated seconds beyond the derivations' own
KINDS = ("trip", "trip", "order", "order", "code", "record", "refuse", "garbage", "forge", "instance", "hash", "wrong", "same")


# ------------------------------------------------------------------ plans
def plan_endure(seed, tier, idx):
    rng = random.Random("C18/%d" % seed)
    p = {"world": "endure", "prop": "C18", "seed": seed, "kdf": rng.choice(["fast", "fast", "edge"]),
         "provider": rng.choice(["ok", "ok", "unlisted", "refused"])}
    few = rng.random() < 0.7
    steps = []
    for _ in range(rng.choice([1, 2]) if few else rng.choice([3, 4, 6])):
        coin, net = gen.net_pair(rng)
        s = {"kind": rng.choice(KINDS), "coin": coin, "net": net, "salt": rng.getrandbits(32), "fault": None}
        r = rng.random()
        if r < 0.35:
            s["fault"] = {"how": "site", "share": rng.choice([1.0, 0.5])}
        elif r < 0.5:
            s["fault"] = {"how": "outage", "site": rng.choice(["kdf", "urandom", "sha256", "ripemd", "aes", "ec"]), "exc": rng.getrandbits(16)}
        elif r < 0.65:
            s["fault"] = {"how": "line", "share": rng.choice([0.6, 0.3]), "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "SystemExit", "Cancelled", "TimeoutError"])}
        if s["fault"] is not None:          # mostly the same call of the round, often the same place in it
            s["fault"]["call"] = rng.randrange(6) if rng.random() < 0.7 else None
            s["fault"]["at"] = rng.choice([rng.randrange(1, 8), rng.randrange(1, 25)]) if s["fault"]["how"] == "site" else rng.choice([rng.randrange(1, 60), rng.randrange(1, 2500)])
            if rng.random() < 0.4:
                s["fault"]["at"] = None
            s["fault"]["pick"] = rng.getrandbits(16) if rng.random() < 0.75 else None      # one of the places a rehearsal shows
        steps.append(s)
    p["steps"] = steps
    p["rounds"] = rng.choice([8, 16, 40])           # per checkpoint, all steps together
    g = OpGen(rng, p["kdf"])
    probes = []
    for _ in range(rng.choice([4, 8, 14])):
        r = rng.random()
        if r < 0.45:
            op, a = g.op(["code", "mint", "encrypt", "decrypt", "confirm", "wif", "addr", "other", "badnet", "wrong", "bad"])
        elif r < 0.6:
            op, a = guest.odd_call(rng, g)
        else:
            op, a = hostile(rng, g)
        probes.append({"call": [op, a], "exc": rng.getrandbits(16), "provider": rng.choice(["ok", "unlisted", "refused"])})
    p["probes"] = probes
    return p


def hostile(rng, g):
    """What a stranger may hand over: long, uniform, nearly right, of the right length with extreme contents."""
    A = rng.choice(g.A)
    c = A["coin"]
    n = rng.choice([1, 2, 43, 58, 75, 200, 400, 900])
    fill = rng.choice("1z25KLc6pabm")
    t = rng.choice([fill * n, "1" * n + "z" * rng.randrange(1, 60), A["ewif"] * (1 + n // 58), A["cfrm"] + fill * n, fill * n + A["code"],
                    " " * n + A["ewif"], A["ewif"] + "\n" * n, A["wif"][:1] + fill * n, "passphrase" + fill * n, "cfrm38V" + fill * n, "6P" + fill * n])
    if rng.random() < 0.3:
        raw = bytes([rng.choice([0, 0xff, 1, 0x80])]) * rng.choice([36, 37, 38, 39, 40, 49, 51, 52, 200, 650])
        if rng.random() < 0.5:
            head = rng.choice([b"\x01\x42", b"\x01\x43", bytes.fromhex("643bf6a89a"), bytes.fromhex("2ce9b3e1ff39e253"), bytes.fromhex("2ce9b3e1ff39e251"), b"\x80"])
            raw = head + raw[len(head):]
        t = ref.b58cenc(raw)
    p = rng.choice([A["p"], "", "\0", "a" * rng.choice([1, 500, 4000]), "e\u0301" * 700, "\u0301" * 900, "\U0001f511" * 300, "\uac00\u11a8" * 200])
    return rng.choice([
        ("decrypt", dict(coin=c, ewif=t, passphrase=p, detail=True)), ("confirm", dict(coin=c, cfrm=t, passphrase=p)),
        ("mint", dict(coin=c, code=t, seed="00" * 24)), ("encrypt", dict(coin=c, wif=t, passphrase=p)), ("w2p", dict(wif=t)),
        ("adec", dict(address=t)), ("code", dict(passphrase=p, salt=rng.choice(["00" * 8, "ff" * 8]))),
        ("decrypt", dict(coin=c, ewif=A["ewif2"], passphrase=p)), ("confirm", dict(coin=c, cfrm=A["cfrm"], passphrase=p)),
        ("decrypt", dict(coin=c, ewif=A["ewif"], passphrase=p)),
        ("code", dict(passphrase=p, salt="00" * 4, lot=rng.choice([0, -1, 10 ** 9, 2 ** 64, -2 ** 70, 10 ** 300]), sequence=rng.choice([0, 4096, -1, 2 ** 70]))),
        ("code", dict(passphrase=p, salt="00" * 4, lot=100000, sequence=rng.choice([4096, -1, 2 ** 70, 10 ** 300]))),
        ("r160", dict(data="5a" * rng.choice([1, 55, 56, 64, 500, 5000])))])


# ------------------------------------------------------------------ one round of a step
def calls(s, i, do):
    """The i-th round of a step; `do(op, args)` performs a call and returns its outcome."""
    rng = random.Random("%d/%s/%d" % (s["salt"], s["kind"], i))
    coin, net, k = s["coin"], s["net"], s["kind"]
    wp, ap = gen.prefixes(coin, net)
    base = {"coin": coin, "inet": net}
    p = "pw %d %s" % (i, rng.getrandbits(40))
    key = rng.randrange(1, ref.N).to_bytes(32, "big")
    comp = rng.random() < 0.5
    if k == "trip":
        o = do("encrypt", dict(base, wif=ref.wif(key, comp, wp), passphrase=p))
        if o.ok:
            do("decrypt", dict(base, ewif=o.value, passphrase=p, detail=True if rng.random() < 0.5 else None))
            do("decrypt", dict(base, ewif=o.value, passphrase=p + "x"))
    elif k == "order":
        num = dict(lot=rng.randrange(100000, 1000000), sequence=rng.randrange(4096)) if rng.random() < 0.5 else {}
        if rng.random() < 0.5:
            num["salt"] = rng.randbytes(8).hex()
        o = do("code", dict(num, passphrase=p))
        if not o.ok:
            return
        a = dict(base, code=o.value, wif_type="wif-compressed" if comp else "wif")
        if rng.random() < 0.5:
            a["seed"] = rng.randbytes(24).hex()
        o = do("mint", a)
        if o.ok and isinstance(o.value, dict):
            do("confirm", dict(base, cfrm=o.value["confirmation_code"], passphrase=p, detail=True))
            do("decrypt", dict(base, ewif=o.value["encrypted_wif"], passphrase=p))
            do("confirm", dict(base, cfrm=o.value["confirmation_code"], passphrase="x" + p))
    elif k == "code":
        do("code", dict(passphrase=p))
        do("code", dict(passphrase=p, salt=rng.randbytes(4).hex(), lot=rng.randrange(100000, 1000000), sequence=rng.randrange(4096)))
    elif k == "record":
        w = ref.wif(key, comp, wp)
        do("p2w", dict(key=key.hex(), wif_type="wif-compressed" if comp else "wif", coin=coin, network=net))
        for op in ("w2p", "wtype", "wchk"):
            do(op, dict(wif=w, coin=coin, network=net))
        do("adec", dict(address=ref.b58cenc(ref.ibytes(ap) + rng.randbytes(20)), address_prefix=ap))
        do("aenc", dict(pub=ref.enc_pt(ref.pub(1 + i % 32), comp).hex(), address_prefix=i, public_key_type="compressed" if comp else "uncompressed"))
    elif k == "refuse":
        do("code", dict(passphrase=p, salt=rng.randbytes(4).hex()))
        do("code", dict(passphrase=p, lot=i, sequence=i))
        do("code", dict(passphrase=p, lot=1000000 + i))
        do("encrypt", dict(base, wif=ref.wif(key, comp, wp), passphrase=p, network="net%d" % i))
        do("new", dict(coin=coin, inet="net%d" % i))
        do("mint", dict(base, code="p%d" % i, seed=rng.randbytes(23).hex()))
        do("p2w", dict(key=key.hex(), wif_type="type%d" % i, coin=coin, network=net))
        do("p2w", dict(key=key.hex() + "00", wif_type="wif", coin=coin, network=net))
        do("encrypt", dict(base, wif=ref.wif((ref.N + i).to_bytes(32, "big"), comp, wp), passphrase=p))
    elif k == "garbage":
        t = "".join(rng.choice(gen.B58) for _ in range(rng.randrange(90)))
        t += rng.choice(["", "", "0", "l", "\u00e9", " "])
        for op, f in (("decrypt", "ewif"), ("confirm", "cfrm"), ("encrypt", "wif"), ("mint", "code")):
            do(op, dict(base, passphrase=p, **{f: t}) if op != "mint" else dict(base, code=t))
        do("w2p", dict(wif=t, coin=coin, network=net))
        do("adec", dict(address=t))
    elif k == "forge":
        do("decrypt", dict(base, ewif=ref.b58cenc(b"\x01\x42" + bytes([rng.choice([0xc0, 0xe0, rng.randrange(256)])]) + rng.randbytes(36)), passphrase=p))
        do("decrypt", dict(base, ewif=ref.b58cenc(b"\x01\x43" + bytes([rng.choice([0, 4, 0x20, 0x24, rng.randrange(256)])]) + rng.randbytes(36)), passphrase=p))
        do("confirm", dict(base, cfrm=ref.b58cenc(bytes.fromhex("643bf6a89a") + bytes([rng.choice([0, 4, 0x20, 0x24, rng.randrange(256)])]) + rng.randbytes(12) +
                                                   bytes([rng.choice([2, 3])]) + rng.randbytes(32)), passphrase=p))
        do("mint", dict(base, code=ref.b58cenc(bytes.fromhex(rng.choice(["2ce9b3e1ff39e251", "2ce9b3e1ff39e253", rng.randbytes(8).hex()])) + rng.randbytes(8) +
                                                bytes([rng.choice([2, 3])]) + rng.randbytes(32)), seed=rng.randbytes(24).hex()))
    elif k == "instance":
        c2, n2 = gen.net_pair(rng)
        do("new", dict(coin=c2, inet=n2))
        do("encrypt", dict(coin=c2, inet=n2, fresh=True, wif=ref.wif(key, comp, gen.prefixes(c2, n2)[0]), passphrase=p))
    elif k == "hash":
        do("h160", dict(data=rng.randbytes(rng.randrange(1, 130)).hex(), form="bytes"))
        do("r160", dict(data=rng.randbytes(rng.randrange(1, 130)).hex(), form="hex"))
    elif k == "wrong":
        r2 = random.Random(s["salt"])
        kk = r2.randrange(1, ref.N).to_bytes(32, "big")
        e = do("encrypt", dict(base, wif=ref.wif(kk, True, wp), passphrase="right"))
        if e.ok:
            do("decrypt", dict(base, ewif=e.value, passphrase=p))
    else:           # the very same request over and over
        r2 = random.Random(s["salt"])
        kk = r2.randrange(1, ref.N).to_bytes(32, "big")
        o = do("encrypt", dict(base, wif=ref.wif(kk, True, wp), passphrase="same"))
        if o.ok:
            do("decrypt", dict(base, ewif=o.value, passphrase="same"))
        c = do("code", dict(passphrase="same", salt="00" * 8))
        if c.ok:
            do("mint", dict(base, code=c.value, seed="11" * 24))


class Life:
    """One process and what is done to it."""

    def __init__(self, W, p):
        self.W = W
        self.c = W.ctx(p["provider"])
        self.img = rt.Image(W.opt)
        self.done = 0
        self.places = {}

    def place(self, s):
        """The call of the round and the dependency that fails in it, from a round in which none did."""
        k = id(s)
        if k not in self.places:
            f = s["fault"]
            seen = []
            n = [0]

            def do(op, a):
                n[0] += 1
                self.c.on_site = lambda name, faultable: seen.append((n[0], name)) if faultable else None
                try:
                    return self.W.call(self.c, self.img, op, a)
                finally:
                    self.c.on_site = None
            calls(s, 0, do)
            seen = sorted(set(seen))
            self.places[k] = dict(f)
            if seen:
                call, name = seen[f["pick"] % len(seen)]
                self.places[k].update(call=call - 1, site=name)
        return self.places[k]

    def round(self, s, i):
        W, c = self.W, self.c
        f = s["fault"]
        if f is not None and f["pick"] is not None and f["how"] != "line":
            f = self.place(s)
        rng = random.Random("%d/f/%d" % (s["salt"], i))
        strike = None
        if f is not None and rng.random() < f.get("share", 1.0):
            strike = rng.randrange(6) if f["call"] is None else f["call"]          # which of the round's calls
        n = [0]

        def do(op, a):
            n[0] += 1
            self.done += 1
            if f is not None and f["how"] == "outage" and n[0] > (f["call"] or 0):       # from that call to the end of the round
                out = [0]

                def broken(name, faultable):
                    if name == f["site"] and faultable:
                        out[0] += 1
                        e = SITE_EXC.get(name, ["MemoryError"])
                        raise EXC[e[f["exc"] % len(e)]]()
                c.on_site = broken
                keep, rt.CALL_BUDGET = rt.CALL_BUDGET, worlds.LINE_BUDGET      # a call that goes on trying is found at once
                try:
                    return W.call(c, self.img, op, a)
                finally:
                    rt.CALL_BUDGET = keep
                    c.on_site = None
                    rt.events(None)
                    W.stat("fault.outage_" + f["site"], out[0])
            if strike is None or n[0] != strike + 1 or f["how"] == "outage":
                return W.call(c, self.img, op, a)
            if f["how"] == "site":
                at = [f["at"] or rng.randrange(1, 16)]
                if "site" in f:
                    at[0] = 1 + at[0] % 2

                def once(name, faultable):
                    if faultable and f.get("site", name) == name:
                        at[0] -= 1
                        if at[0] == 0:
                            e = SITE_EXC.get(name, ["MemoryError"])
                            W.stat("fault.site_" + name)
                            raise EXC[rng.choice(e)]()
                c.on_site = once
                try:
                    return W.call(c, self.img, op, a)
                finally:
                    c.on_site = None
            k = f["at"] or rng.choice([rng.randrange(1, 60), rng.randrange(1, 600), rng.randrange(1, 2500)])

            def act():
                W.stat("fault.line_" + f["exc"])
                raise EXC[f["exc"]]()
            rt.events("line")
            try:
                with Counter(at=k, action=act, budget=worlds.LINE_BUDGET):
                    return W.call(c, self.img, op, a)
            finally:
                rt.events(None)
        calls(s, i, do)
        W.stat("rounds")


# ------------------------------------------------------------------ what is left
def reach(img):
    """Bytes that can be reached from the library's own modules and instances, without going into other modules or classes."""
    mine = [m for n, m in list(sys.modules.items()) if n == "bip38" or n.startswith("bip38.")]
    stop = {id(sys.modules), id(sys.modules["builtins"].__dict__)}
    seen = set()
    todo = [m.__dict__ for m in mine] + list(img.inst.values())
    total = count = 0
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in stop:
            continue
        seen.add(id(o))
        if isinstance(o, types.ModuleType):
            continue
        if isinstance(o, type) and not str(getattr(o, "__module__", "")).startswith("bip38"):
            continue
        if isinstance(o, types.FunctionType) and not str(o.__module__).startswith("bip38"):
            continue
        if isinstance(o, (types.CodeType, types.FrameType)):
            continue
        count += 1
        try:
            total += sys.getsizeof(o)
        except TypeError:
            pass
        todo.extend(gc.get_referents(o))
        if isinstance(o, types.FunctionType) and o.__closure__:
            todo.extend(o.__closure__)
    return total, count


def census(life, raw, k):
    gc.collect()
    raw[4 * k + 1], raw[4 * k + 2] = reach(life.img)
    raw[4 * k + 3] = len(os.listdir("/proc/self/fd"))
    gc.collect()
    raw[4 * k] = sys.getallocatedblocks()


NAMES = ("live memory blocks", "bytes held by the library", "objects held by the library", "open files")
FLOOR = (4, 16, 1, 1)       # growth per interval that counts


def growing(marks, last=8):
    """The measures that grew in every one of the last intervals."""
    out = []
    if len(marks) <= last:
        return out
    m = marks[-last - 1:]
    for j in range(len(FLOOR)):
        if all(y[j] - x[j] >= FLOOR[j] for x, y in zip(m, m[1:])):
            out.append(j)
    return out


def live(life, steps, rounds, points):
    for i in range(1, 33):
        ref.pub(i)                                  # the simulator's own tables fill first
    raw = array.array("q", bytes(8 * 4 * (points + 1)))        # taking notes must not show in the census
    gc.collect()
    gc.freeze()
    try:
        census(life, raw, 0)
        i = 0
        for k in range(points):
            for _ in range(rounds):
                life.round(steps[i % len(steps)], i // len(steps))
                i += 1
            census(life, raw, k + 1)
    finally:
        gc.unfreeze()
    return [raw[4 * k:4 * k + 4] for k in range(points + 1)]


# ------------------------------------------------------------------ what a call costs
def effort(W, img, c, q, out=None):
    op, a = q["call"]
    c.provider = q["provider"]
    sites = []

    def on_site(name, faultable):
        sites.append((name, faultable))
        if faultable and name == out:
            e = SITE_EXC.get(name, ["MemoryError"])
            raise EXC[e[q["exc"] % len(e)]]()
    c.on_site = on_site
    t = c.now
    rt.events("line")
    try:
        with Counter(budget=worlds.LINE_BUDGET) as n:
            o = W.call(c, img, op, a)
    finally:
        rt.events(None)
        c.on_site = None
    if out:
        W.stat("fault.outage_" + out, sites.count((out, True)))
    return n.n, len(sites), sites.count(("kdf", True)), round(c.now - t, 3), o, sorted({n for n, f in sites if f})


def short(a):
    return ascii({k: v if not isinstance(v, str) or len(v) < 100 else "%s... (%d characters)" % (v[:60], len(v)) for k, v in a.items() if v is not None})


def tell(j, q, out=None):
    return "probe %d: %s(%s)%s" % (j, q["call"][0], short(q["call"][1]), " while %s keeps failing" % out if out else "")


def bounded(W, img, c, j, q, out=None):
    op, a = q["call"]
    n, s, d, w, o, sites = r = effort(W, img, c, q, out)
    W.stat("probes")
    size = sum(len(v) for v in a.values() if isinstance(v, str))
    text = max([len(a.get(x) or "") for x in ("ewif", "cfrm", "code", "wif", "address")])      # conversions between bases may be quadratic
    if n > LINES[0] + LINES[1] * size + LINES[2] * text * text:
        raise Violation("%s executed %d lines for inputs of %d characters" % (tell(j, q, out), n, size))
    if d > DERIVATIONS:
        raise Violation("%s began %d key derivations" % (tell(j, q, out), d))
    if s > 2000 + 4 * size:
        raise Violation("%s went to its dependencies %d times" % (tell(j, q, out), s))
    if w > WAIT:
        raise Violation("%s took %s simulated seconds" % (tell(j, q, out), w))
    W.record("probe", j, out, d, o.key()[0])
    W.states.add((op, o.cls, out, q["provider"]))
    return r


def compare(j, q, r, first, where):
    """A call costs and does what it cost and did in a fresh process."""
    (n0, s0, d0, w0, o0, _), (n, s, d, w, o, _) = first, r
    op, a = q["call"]
    if n > 1.5 * n0 + 3000 or s > 1.5 * s0 + 40 or d > d0 or w > w0 + 2.0:
        raise Violation("%s costs (lines, dependency calls, derivations, seconds) %s %s, %s in a fresh process" % (tell(j, q), (n, s, d, w), where, (n0, s0, d0, w0)))
    fresh = op in ("code", "mint") and a.get({"code": "salt", "mint": "seed"}[op]) is None
    if (o.key()[0] != o0.key()[0] if fresh else o.key() != o0.key()):
        raise Violation("%s %s %s, %s in a fresh process" % (tell(j, q), o.show(), where, o0.show()))


def probe(W, img, c, j, q, first=None):
    """The call, then the call while each resource it needs keeps failing, then the call again."""
    r = bounded(W, img, c, j, q)
    if first is not None:
        compare(j, q, r, first, "in a process with a past")
    for name in r[5]:
        bounded(W, img, c, j, q, name)
    if r[5]:
        compare(j, q, bounded(W, img, c, j, q), first or r, "after its resources failed for a while")
    return r


# ------------------------------------------------------------------ a run
def run_endure(p):
    W = World(p)
    try:
        return _run(p, W)
    finally:
        rt.events(None)
        for c in W.ctxs:
            c.on_site = None


def _run(p, W):
    first = []
    c = W.ctx()
    for j in range(len(p["probes"])):       # each in a process of its own
        first.append(probe(W, rt.Image(W.opt), c, j, p["probes"][j]))
    steps = p["steps"]
    if not steps:
        return W
    if "piles" not in W.resolved:
        life = Life(W, p)
        for s in steps:
            life.round(s, 0)
        marks = live(life, steps, p["rounds"], 12)
        W.stat("ops", life.done)
        W.record("lived", life.done)
        life.c.on_site = None
        for j in range(len(p["probes"])):   # the same process, afterwards
            probe(W, life.img, life.c, j, p["probes"][j], first[j])
        if not growing(marks):
            return W
        W.stat("suspected")
    piles = W.res("piles", lambda: suspect(W, p))
    for ids in piles:
        some = [steps[i] for i in ids if i < len(steps)]
        if not some:
            continue
        life = Life(W, p)
        points = 13
        rounds = 200 if len(some) == 1 else 80 * len(some)
        marks = live(life, some, rounds, points)
        g = growing(marks, 9)
        if g:
            W.record("piles", ids, g)
            raise Violation("every round of %s leaves something behind: %s grow without end" % (
                ", ".join(s["kind"] + (" (with %s faults)" % s["fault"]["how"] if s["fault"] else "") for s in some), " and ".join(NAMES[j] for j in g)))
    return W


def suspect(W, p):
    """Which steps, alone, seem to leave things behind; all of them if none does so alone."""
    out = []
    for i, s in enumerate(p["steps"]):
        life = Life(W, p)
        marks = live(life, [s], 30, 10)
        if growing(marks, 7):
            out.append([i])
            break
    return out or [list(range(len(p["steps"])))]
