"""C16: key and point objects are values.  Shared between threads, multiplied, added, encoded, interrupted and
rebuilt from their bytes on another host, they always stand for the same key or point."""
import json
import random

import gen
import ref
import rt
from model import Violation, Harness
from sched import Sched, Counter, pick_location, INF
from worlds import World, EXC, LINE_BUDGET, seam_policy, seam_point

N, P, G = ref.N, ref.P, ref.G


# ------------------------------------------------------------------ reference
def decode(b):
    """Every encoding of a point the library's curve package reads."""
    if len(b) == 64:
        return ref.dec_pt(b"\4" + b)
    if len(b) == 65 and b[0] in (6, 7):
        pt = ref.dec_pt(b"\4" + b[1:])
        if pt[1] & 1 != b[0] & 1:
            raise ref.Refuse("bad", "hybrid")
        return pt
    return ref.dec_pt(b)


def value(s):
    """(kind, value) of an object's recipe."""
    k = s[0]
    if k == "sk":
        b = bytes.fromhex(s[1])
        v = int.from_bytes(b, "big")
        if len(b) != 32 or not 0 < v < N:
            raise ref.Refuse("bad", "key")
        return "sk", v
    if k in ("pk", "pt"):
        return k, decode(bytes.fromhex(s[1]))
    if k == "xy":
        x, y = int(s[1], 16), int(s[2], 16)
        if not (x < P and y < P and (y * y - x * x * x - 7) % P == 0):
            raise ref.Refuse("bad", "point")
        return "pt", (x, y)
    if k == "pub":
        return "pk", ref.pub(value(s[1])[1])
    if k == "point":
        return "pt", value(s[1])[1]
    if k == "from":
        return "pk", value(s[1])[1]
    if k == "mul":
        pt = value(s[1])[1]
        n = int(s[2]) % N
        return "pt", ref.mul(pt, n) if n and pt else None
    if k == "add":
        return "pt", ref.add(value(s[1])[1], value(s[2])[1])
    if k == "gen":
        return "pt", G
    raise Harness("recipe %r" % (s,))


VIEWS = {"sk": ["raw", "len", "pub", "again"], "pk": ["c", "u", "rc", "ru", "pt", "xy", "addr", "addrc"],
         "pt": ["raw", "enc", "dec", "x", "y", "addr"]}
VIEWS["pk"] += ["c", "u"]


def view(kind, v, how):
    if kind == "sk":
        return {"raw": "%064x" % v, "len": 32, "pub": ref.enc_pt(ref.pub(v)).hex(), "again": "%064x" % v}[how]
    xy = "%064x%064x" % v
    c, u = ref.enc_pt(v).hex(), ref.enc_pt(v, False).hex()
    if kind == "pk":
        return {"c": c, "u": u, "rc": c, "ru": u, "pt": xy, "xy": xy,
                "addr": ref.address(v, False, 0), "addrc": ref.address(v, True, 0x6f)}[how]
    return {"raw": xy, "dec": xy, "enc": c, "x": "%x" % v[0], "y": "%x" % v[1], "addr": ref.address(v, True, 0)}[how]


# ------------------------------------------------------------------ the library
def build(img, s, keep, form="bytes"):
    """Make the object a recipe stands for, from objects already made if they are kept."""
    key = json.dumps(s)
    if keep is not None and key in keep:
        return keep[key]
    c, k = img.curve, s[0]
    if k == "sk":
        o = c.PrivateKey.from_bytes(bytes.fromhex(s[1]))
    elif k == "pk":
        o = c.PublicKey.from_bytes(bytes.fromhex(s[1]))
    elif k == "pt":
        o = c.Point.from_bytes(bytes.fromhex(s[1]))
    elif k == "xy":
        o = c.Point.from_coordinates(int(s[1], 16), int(s[2], 16))
    elif k == "pub":
        o = build(img, s[1], keep).public_key()
    elif k == "point":
        o = build(img, s[1], keep).point()
    elif k == "from":
        o = c.PublicKey.from_point(build(img, s[1], keep))
    elif k == "mul":
        p = build(img, s[1], keep)
        o = p * int(s[2]) if s[3] == "l" else int(s[2]) * p
    elif k == "add":
        o = build(img, s[1], keep) + build(img, s[2], keep)
    elif k == "gen":
        o = c.Secp256k1.GENERATOR
    else:
        raise Harness(k)
    if keep is not None:
        keep.setdefault(key, o)
    return o


def look(img, o, kind, how):
    if kind == "sk":
        return {"raw": lambda: o.raw().hex(), "len": o.length, "pub": lambda: o.public_key().raw_compressed().hex(),
                "again": lambda: img.curve.PrivateKey.from_bytes(o.raw()).raw().hex()}[how]()
    if kind == "pk":
        return {"c": lambda: o.raw_compressed().hex(), "u": lambda: o.raw_uncompressed().hex(),
                "rc": lambda: o.raw("compressed").hex(), "ru": lambda: o.raw("uncompressed").hex(),
                "pt": lambda: o.point().raw().hex(), "xy": lambda: "%064x%064x" % (o.point().x(), o.point().y()),
                "addr": lambda: img.addr.P2PKHAddress.encode(o, public_key_type="uncompressed"),
                "addrc": lambda: img.addr.P2PKHAddress.encode(o, address_prefix=0x6f)}[how]()
    return {"raw": lambda: o.raw().hex(), "enc": lambda: o.raw_encoded().hex(), "dec": lambda: o.raw_decoded().hex(),
            "x": lambda: "%x" % o.x(), "y": lambda: "%x" % o.y(),
            "addr": lambda: img.addr.P2PKHAddress.encode(img.curve.PublicKey.from_point(o))}[how]()


def attempt(img, step):
    """One step on one image: ['ok', value] or ['err', class, is a library error]."""
    img.activate()
    keep = img.__dict__.setdefault("kept", {}) if step["keep"] else None
    try:
        o = build(img, step["recipe"], keep)
        return ["ok", look(img, o, step["kind"], step["view"])]
    except rt.SimAbort:
        raise
    except BaseException as e:
        return ["err", type(e).__name__, isinstance(e, img.exc.Error)]


def expected(step):
    try:
        kind, v = value(step["recipe"])
    except ref.Refuse:
        return None
    return view(kind, v, step["view"])


# ------------------------------------------------------------------ plans
class Cast:
    """A few keys and points, and recipes that reach the same ones in different ways."""

    def __init__(self, rng):
        self.rng = rng
        self.keys = [gen.privkey(rng) for _ in range(rng.choice([1, 2, 3]))]
        if rng.random() < 0.4:                         # the same x coordinate, the other y
            self.keys.append((N - int.from_bytes(self.keys[0], "big")).to_bytes(32, "big"))
        if rng.random() < 0.3:                         # neighbours
            self.keys.append(((int.from_bytes(self.keys[0], "big") + 1) % N or 1).to_bytes(32, "big"))
        if rng.random() < 0.5:                         # a coordinate that begins or ends with a chosen byte
            self.keys.append(gen.pubcorner(rng))
        self.scalars = [rng.randrange(1, N) for _ in range(2)] + [1, 2, 3, N - 1, N - 2, N + 1, N + 5, 2 * N + 7, 1 << 255, rng.randrange(1, 1 << 16),
                        int.from_bytes(gen.odd_hex(rng, 32), "big"), rng.getrandbits(128) << 128 | 1, (1 << rng.randint(5, 255)) - 1]

    def leaf(self):
        rng = self.rng
        k = rng.choice(self.keys)
        pt = ref.pub(int.from_bytes(k, "big"))
        return rng.choice([
            ["pub", ["sk", k.hex()]], ["pub", ["sk", k.hex()]],
            ["pk", ref.enc_pt(pt).hex()], ["pk", ref.enc_pt(pt, False).hex()], ["pk", ref.enc_pt(pt, False)[1:].hex()],
            ["pk", (bytes([6 + (pt[1] & 1)]) + ref.enc_pt(pt, False)[1:]).hex()],
            ["pt", ref.enc_pt(pt).hex()], ["pt", ref.enc_pt(pt, False).hex()], ["pt", ref.enc_pt(pt, False)[1:].hex()],
            ["xy", "%x" % pt[0], "%x" % pt[1]]])

    def point(self, depth):
        """A recipe of kind pt."""
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < 0.3:
            s = self.leaf()
            return s if s[0] in ("pt", "xy") else ["point", s]
        if r < 0.6:
            return ["mul", self.point(depth - 1), str(rng.choice(self.scalars)), rng.choice("lr")]
        if r < 0.85:
            return ["add", self.point(depth - 1), self.point(depth - 1)]
        if r < 0.9:
            return ["gen"]
        return ["point", ["from", self.point(depth - 1)]]

    def recipe(self):
        rng = self.rng
        r = rng.random()
        if r < 0.2:
            return ["sk", rng.choice(self.keys).hex()]
        if r < 0.45:
            s = self.leaf()
            return s
        if r < 0.6:
            return ["from", self.point(1)]
        return self.point(rng.choice([1, 1, 2]))

    def bad(self):
        """Bytes that are not (or may not be) a key or a point."""
        rng = self.rng
        k = rng.choice(self.keys)
        pt = ref.pub(int.from_bytes(k, "big"))
        c, u = ref.enc_pt(pt), ref.enc_pt(pt, False)
        r = rng.random()
        if r < 0.25:
            b = rng.choice([bytes(32), N.to_bytes(32, "big"), (N + 1).to_bytes(32, "big"), b"\xff" * 32, k[:-1], k + b"\0", b"\0" + k, b"",
                            k[1:], k * 2])
            return ["sk", b.hex()]
        b = bytearray(rng.choice([c, u, u, u[1:]]))
        w = rng.choice(["bit", "bit", "head", "short", "long", "big", "y", "cut", "parity"])
        if w == "bit":
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif w == "head":
            b[0] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 0x82, 0xff])
        elif w == "parity":                      # a tag that says the y coordinate is even, or odd: right or wrong
            b = bytearray(bytes([rng.choice([6, 7])]) + u[1:])
        elif w == "short":
            b = b[:-1]
        elif w == "long":
            b += b"\0"
        elif w == "cut":
            b = b[:rng.choice([0, 1, 31, 32, 33, 63, 64])]
        elif w == "big":
            b = bytearray(rng.choice([b"\2", b"\3"]) + (P + rng.randint(0, 3)).to_bytes(32, "big")) if rng.random() < 0.6 else \
                bytearray(b"\4" + (P + 1).to_bytes(32, "big") + u[33:])
        else:
            b = bytearray(b"\4" + u[1:33] + ((pt[1] + 1) % P).to_bytes(32, "big"))
        if rng.random() < 0.15:
            return ["xy", "%x" % pt[0], "%x" % ((pt[1] + 1) % P)]
        return [rng.choice(["pk", "pt"]), bytes(b).hex()]

    def step(self, badness=0.15):
        rng = self.rng
        for _ in range(30):
            s = self.bad() if rng.random() < badness else self.recipe()
            try:
                kind, v = value(s)
                if not settled(s):
                    continue
            except ref.Refuse:
                kind, v = ("sk" if s[0] == "sk" else "pk" if s[0] == "pk" else "pt"), None
            return {"recipe": s, "kind": kind, "view": rng.choice(VIEWS[kind]), "keep": rng.random() < 0.8}
        return {"recipe": ["gen"], "kind": "pt", "view": "raw", "keep": True}


def settled(s):
    """No point at infinity anywhere in it: that has no bytes."""
    if s[0] in ("sk", "pk", "pt", "xy", "gen"):
        return True
    return value(s)[1] is not None and all(settled(x) for x in s[1:] if isinstance(x, list))


def plan_objects(seed, tier, idx):
    rng = random.Random("C16/%d" % seed)
    c = Cast(rng)
    p = {"world": "objects", "prop": "C16", "seed": seed, "kdf": "fast", "provider": rng.choice(["ok", "ok", "unlisted", "refused"])}
    p["mode"] = m = rng.choice(["serial", "serial", "fault", "fault", "threads", "threads", "nested"])
    p["hosts"] = 1 if m in ("threads", "nested") else rng.choice([1, 2, 3])
    few = [c.step() for _ in range(rng.choice([2, 3, 5]))]

    def one():
        s = dict(rng.choice(few)) if rng.random() < 0.5 else c.step()
        s["view"] = rng.choice(VIEWS[s["kind"]])
        return s
    p["steps"] = []
    for _ in range(rng.choice([4, 8, 14]) if m in ("serial", "fault") else rng.choice([0, 0, 3])):
        s = one()
        s["host"] = rng.randrange(p["hosts"])
        if m == "fault" and rng.random() < 0.5:
            s["fault"] = rng.choice(["MemoryError", "KeyboardInterrupt", "TimeoutError", "site"])
        elif rng.random() < 0.3:                 # what one host wrote, another reads
            s["carry"] = rng.randrange(p["hosts"])
        p["steps"].append(s)
    if m == "serial" and rng.random() < 0.01:      # a process that has seen a great many: tables turn over, counters come round
        p["hosts"], heads = 1, rng.choice([("mul",), ("mul", "add"), ("sk", "pub"), ("pk", "pt", "xy"), None])
        long = []
        for _ in range(rng.choice([300, 300, 600, 1300])):
            c = Cast(rng) if rng.random() < 0.2 else c
            s = c.step(0.05)
            for _ in range(12 if heads else 0):
                if s["recipe"][0] in heads:
                    break
                s = c.step(0.05)
            long.append(dict(s, host=0))
        p["steps"] = long + rng.sample(long[:20], 8) + p["steps"]
        for s in p["steps"]:
            s["host"] = 0
            s.pop("carry", None)
    p["threads"] = []
    if m in ("threads", "nested"):
        nt = 2 if m == "nested" else rng.choice([2, 2, 3])
        for _ in range(nt):
            p["threads"].append([one() for _ in range(1 if m == "nested" else rng.choice([1, 2, 3]))])
        if rng.random() < 0.5:                   # the same operation on everyone's own object
            kind = p["threads"][0][0]["kind"]
            how = rng.choice(VIEWS[kind])
            for t in p["threads"]:
                for s in t:
                    for _ in range(20):
                        if s["kind"] == kind:
                            break
                        s.update(c.step(0))
                    if s["kind"] == kind:
                        s["view"] = how
        p["ready"] = rng.random() < 0.6          # the objects were made before
        p["shape"] = rng.choice(["stall", "stall", "random", "seam", "instr"])
    return p


# ------------------------------------------------------------------ runs
def show(s):
    return "%s of %s" % (s["view"], json.dumps(s["recipe"]))


def judge(W, s, got, where):
    want = expected(s)
    if want is None:
        if got[0] == "ok":
            raise Violation("%s: %s is not a key or point but was read as one: %r" % (where, show(s), got[1]))
        if not got[2]:
            raise Violation("%s: %s should be refused with a library error but raised %s" % (where, show(s), got[1]))
        W.stat("refused")
    elif got != ["ok", want]:
        raise Violation("%s: %s should be %s but gave %r" % (where, show(s), want, got[1]))
    else:
        W.stat("right")


CARRY = {("sk", "raw"): "sk", ("pk", "c"): "pk", ("pk", "u"): "pk", ("pk", "rc"): "pk", ("pk", "ru"): "pk", ("pk", "pt"): "pt",
         ("pt", "raw"): "pt", ("pt", "enc"): "pt", ("pt", "dec"): "pk"}


def run_objects(p):
    W = World(p)
    rng = random.Random("obj/%d" % p["seed"])
    rt.begin_run()
    imgs = [rt.Image(W.opt) for _ in range(p["hosts"])]
    ctxs = [W.ctx(p["provider"]) for _ in imgs]

    def on(h, f, *a):
        rt.install(ctxs[h])
        try:
            return f(imgs[h], *a)
        finally:
            rt.install(None)
    for i, s in enumerate(p["steps"]):
        h = s["host"] % len(imgs)
        where = "step %d on host %d" % (i, h)
        W.stat("ops")
        if s.get("fault"):
            k, hit = None, []
            spare = rt.Image(W.opt)
            spare.kept = dict()

            def profile():
                sites, tr = [0], None
                c = W.ctx(p["provider"])

                def seen(n, f):
                    if f:
                        sites[0] += 1
                c.on_site = seen
                rt.install(c)
                rt.events("line")
                try:
                    with Counter(record=True, budget=LINE_BUDGET) as cnt:
                        attempt(spare, s)
                finally:
                    rt.events(None)
                    rt.install(None)
                if s["fault"] == "site":
                    return rng.randrange(sites[0]) if sites[0] else None
                return pick_location(rng, cnt.trace) if cnt.trace else None
            k = W.res("f%d" % s.get("n", i), profile)
            c = ctxs[h]
            if k is None:
                got = on(h, attempt, s)
            elif s["fault"] == "site":
                left = [k]

                def boom(n, f):
                    if f:
                        left[0] -= 1
                        if left[0] == -1:
                            hit.append(n)
                            raise MemoryError()
                c.on_site = boom
                got = on(h, attempt, s)
                c.on_site = None
            else:
                def act():
                    hit.append("line")
                    raise EXC[s["fault"]]()
                rt.events("line")
                try:
                    with Counter(at=k, action=act, budget=LINE_BUDGET):
                        got = on(h, attempt, s)
                finally:
                    rt.events(None)
            W.record(i, "fault", k, hit, got)
            if hit:
                W.stat("fault.%s_%s" % (hit[0], s["fault"]))
                if got[0] == "ok":
                    judge(W, s, got, where + " under a fault")
                W.states.add(("fault", s["recipe"][0], s["view"], hit[0], k))
                continue
        else:
            got = on(h, attempt, s)
            W.record(i, h, got)
        judge(W, s, got, where)
        W.states.add((s["recipe"][0], s["kind"], s["view"], got[0]))
        if "carry" in s and got[0] == "ok" and (s["kind"], s["view"]) in CARRY:
            g = s["carry"] % len(imgs)
            kind = CARRY[s["kind"], s["view"]]
            t = {"recipe": [kind, got[1]], "kind": kind, "view": VIEWS[kind][i % len(VIEWS[kind])], "keep": True}
            got = on(g, attempt, t)
            W.record(i, "carried", g, got)
            W.stat("carried")
            want = view(kind, value(s["recipe"])[1], t["view"])
            if got != ["ok", want]:
                raise Violation("%s: what host %d wrote, host %d reads as %r: %s should be %s" % (where, h, g, got[1], show(t), want))
    if p["threads"]:
        concurrent(W, p, rng, imgs[0], ctxs[0])
    # every object that was kept still stands for the same thing
    for h, img in enumerate(imgs):
        for key, o in sorted(getattr(img, "kept", {}).items()):
            s = json.loads(key)
            kind, v = value(s)
            rt.install(ctxs[h])
            try:
                img.activate()
                for how in ("raw",) if kind == "sk" else ("c", "u") if kind == "pk" else ("raw", "enc"):
                    try:
                        got = look(img, o, kind, how)
                    except Exception as e:
                        got = "raised %s" % type(e).__name__
                    if got != view(kind, v, how):
                        raise Violation("at the end, the object %s on host %d no longer is what it was: %s is %s, made as %s" % (
                            key, h, how, got, view(kind, v, how)))
            finally:
                rt.install(None)
            W.stat("kept_objects")
    return W


def concurrent(W, p, rng, img, c):
    T = p["threads"]
    gran = "instr" if p["shape"] == "instr" else "line"
    got = [[] for _ in T]
    W.stat("mode." + (p["shape"] if p["mode"] == "threads" else "nested"))

    def prepare(x, steps):
        x.activate()
        for s in steps:
            if p.get("ready") and s["keep"] and expected(s) is not None:
                build(x, s["recipe"], x.__dict__.setdefault("kept", {}))

    def trace(s):
        x, cc = rt.Image(W.opt), W.ctx(p["provider"])
        rt.install(cc)
        prepare(x, [s])
        rt.events(gran)
        try:
            with Counter(record=True, budget=LINE_BUDGET) as cnt:
                attempt(x, s)
        finally:
            rt.events(None)
            rt.install(None)
        return cnt.trace
    rt.install(c)
    try:
        prepare(img, [s for t in T for s in t])
    finally:
        rt.install(None)
    if p["mode"] == "nested":
        k = W.res("nest", lambda: pick_location(rng, trace(T[0][0]), True))

        def act():
            got[1].append(attempt(img, T[1][0]))
        rt.install(c)
        rt.events(gran)
        try:
            with Counter(at=k, action=act, budget=LINE_BUDGET) as cnt:
                got[0].append(attempt(img, T[0][0]))
        finally:
            rt.events(None)
            rt.install(None)
        if cnt.fired:
            W.stat("fault.reentry")
            W.states.add(("nested",) + tuple(cnt.fired))
        W.resolved["nest"] = k
    else:
        def make():
            if p["shape"] in ("stall", "instr"):
                a = rng.randrange(len(T))
                return [[a, pick_location(rng, trace(T[a][0]), True)]] + [[t, INF] for t in range(len(T)) if t != a] + [[a, INF]]
            if p["shape"] == "random":
                z = rng.choice([1.5, 4, 15, 60])
                return [[rng.randrange(len(T)), 1 + int(rng.expovariate(1 / z))] for _ in range(3000)]
            return None
        sp = W.resolved.get("schedule") or make()

        def runner(t):
            def f():
                for s in T[t]:
                    got[t].append(attempt(img, s))
            return f
        sch = Sched([runner(t) for t in range(len(T))], plan=sp, dynamic=None if sp else seam_policy(rng), budget=LINE_BUDGET)
        if sp is None:
            sch.point = lambda name: seam_point(sch, rng, name)
        rt.install(c)
        try:
            res = sch.run(gran)
        finally:
            rt.install(None)
        W.resolved["schedule"] = sch.log
        W.stat("fault.preemption", max(0, len(sch.switches) - 1))
        for w in sch.switches:
            W.states.add(w)
        for t, r in enumerate(res):
            if r is None or r[0] == "harness":
                raise Harness("thread %d: %r" % (t, r))
            if r[0] == "abort":
                raise Violation("thread %d never finished: %s" % (t, r[1]))
    W.record("got", got)
    for t in range(len(T)):
        for j, g in enumerate(got[t]):
            W.stat("ops")
            judge(W, T[t][j], g, "thread %d, call %d" % (t, j))
