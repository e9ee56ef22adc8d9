"""Worlds other than the fleet: threads and re-entrancy, entropy and clones, resource faults and
cancellation, hash providers, coins and networks, disclosure."""
import base64
import io
import json
import logging
import os
import random
import re
import sys
import unicodedata
import warnings

import rt
import ref
import gen
import plans
from model import Model, Violation, Harness, facets, describe
from sched import Sched, Counter, Deadlock, Budget, pick_location, INF
from fleet import H

LINE_BUDGET = 3_000_000
LAST = [None]       # the world of the run in progress, for reporting


class World:
    def __init__(self, plan):
        self.plan = plan
        self.seed = plan["seed"]
        self.stats = {}
        self.hist = rt.REAL.sha256()
        self.trail = []
        self.fired = {}
        self.states = set()
        self.resolved = dict(plan.get("resolved", {}))
        self.model = Model(plan.get("kdf", "fast"))
        self.now = 0.0
        self.opt = plan.get("opt", 0)
        self.findings = []
        self.ctxs = []
        self.skew = random.Random("clock/%d" % self.seed).choice([0.0] * 6 + [4.5e9, 2.6e9, -1.69e9, 1e9])
        if self.skew:
            self.stat("fault.clock_far_off")
        if self.opt:
            self.stat("hosts.optimized")
        LAST[0] = self

    def simtime(self):
        return sum(c.now - c.start for c in self.ctxs)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def record(self, *ev):
        s = json.dumps(list(ev), sort_keys=True, default=str)
        self.hist.update(s.encode())
        self.trail.append(s if len(s) < 400 else s[:400] + "...")
        if len(self.trail) > 60:
            del self.trail[:20]

    def ctx(self, provider="ok", clone=0):
        c = rt.Ctx(seed=self.seed, kdf_mode=self.plan.get("kdf", "fast"), provider=provider)
        c.clone = clone
        c.skew = self.skew
        c.stats = self.stats
        self.ctxs.append(c)
        return c

    def res(self, key, fn):
        """A choice that needs execution to make (a line number, say): made once, then part of the replay."""
        if key not in self.resolved:
            self.resolved[key] = fn()
        return self.resolved[key]

    def call(self, ctx, img, op, a):
        rt.install(ctx)
        try:
            return rt.call(img, op, a)
        finally:
            rt.install(None)


# ------------------------------------------------------------------ generic explicit operations
class OpGen:
    """Operations with explicit inputs over a small cast, so that they collide in any hidden state."""

    def __init__(self, rng, kdf, ub=0.3):
        self.rng = rng
        self.M = Model(kdf)
        self.P = plans.People(rng, ub)
        self.A = [plans.artifacts(rng, self.P, self.M.R) for _ in range(rng.choice([1, 2, 2]))]
        for A in self.A:        # a second order of the same owner, of the other sort
            q = not A["numbered"]
            lo, sq = rng.choice(self.P.lots)
            A["code2"] = self.M.R.intermediate(A["p"], bytes.fromhex(rng.choice(self.P.salts)), lo if q else None, sq if q else None)
            m = self.M.R.mint(A["code2"], rng.random() < 0.5, gen.seed(rng), A["ap"])
            A["ewif3"], A["cfrm2"] = m["encrypted_wif"], m["confirmation_code"]

    def op(self, kinds=None):
        rng, P = self.rng, self.P
        A = rng.choice(self.A)
        k = rng.choice(kinds or ["code", "mint", "encrypt", "decrypt", "decrypt", "confirm", "wif", "addr"])
        base = {"coin": A["coin"]}
        base.update({x: y for x, y in plans.netchoice(rng, A["coin"], A["net"]).items() if y is not None})
        form = rng.choice(["hex", "bytes"])
        if k == "code":
            a = dict(passphrase=rng.choice(P.pp), salt=rng.choice(P.salts), form=form)
            if rng.random() < 0.5:
                a["lot"], a["sequence"] = rng.choice(P.lots)
            return "code", a
        if k == "mint":
            return "mint", dict(base, code=A[rng.choice([x for x in ("code", "code", "code2") if x in A])], wif_type=rng.choice(["wif", "wif-compressed"]),
                                seed=rng.choice(P.seeds), form=form)
        if k == "encrypt":
            if rng.random() < 0.5:
                wif = A["wif"]
            else:
                wif = ref.wif(bytes.fromhex(rng.choice(P.keys)), rng.random() < 0.5, A["wp"])
            return "encrypt", dict(base, wif=wif, passphrase=rng.choice(P.pp))
        if k == "decrypt":
            return "decrypt", dict(base, ewif=A[rng.choice([x for x in ("ewif", "ewif2", "ewif3") if x in A])], passphrase=A["p"],
                                   detail=rng.choice([None, True]))
        if k == "confirm":
            return "confirm", dict(base, cfrm=A[rng.choice([x for x in ("cfrm", "cfrm", "cfrm2") if x in A])], passphrase=A["p"], detail=rng.choice([None, True]))
        if k == "wif":
            r = rng.random()
            if rng.random() < 0.4:          # whatever the caller leaves out has its documented default
                w = ref.wif(bytes.fromhex(A["key"]), rng.random() < 0.5, 0x80)
                full = {"coin": "Bitcoin", "network": "mainnet"}
                a = {x: full[x] for x in full if rng.random() < 0.3}
                if r < 0.4:
                    a.update(key=A["key"], form=form)
                    if rng.random() < 0.5:
                        a["wif_type"] = rng.choice(["wif", "wif-compressed"])
                    return "p2w", a
                return rng.choice(["w2p", "wtype", "wchk"]), dict(a, wif=w)
            if r < 0.4:
                return "p2w", dict(key=A["key"], wif_type=rng.choice(["wif", "wif-compressed"]), coin=A["coin"],
                                   network=A["net"], form=form)
            return rng.choice(["w2p", "wtype", "wchk"]), dict(wif=A["wif"], coin=A["coin"], network=A["net"])
        if k == "addr":
            if rng.random() < 0.4:
                if rng.random() < 0.6:
                    a = dict(pub=A["pub"], form=form)
                    if rng.random() < 0.5:
                        a["public_key_type"] = rng.choice(["compressed", "uncompressed"])
                    return "aenc", a
                return "adec", dict(address=ref.address(ref.dec_pt(bytes.fromhex(A["pub"])), rng.random() < 0.5, 0))
            if rng.random() < 0.6:
                return "aenc", dict(pub=A["pub"], address_prefix=A["ap"], form=form,
                                    public_key_type=rng.choice(["compressed", "uncompressed"]))
            return "adec", dict(address=A["addr"], address_prefix=A["ap"])
        if k == "wrong":
            nm = gen.near_misses(rng, A["p"]) or ["zz"]
            if rng.random() < 0.5:
                return "confirm", dict(base, cfrm=A["cfrm"], passphrase=rng.choice(nm))
            return "decrypt", dict(base, ewif=A[rng.choice(["ewif", "ewif2"])], passphrase=rng.choice(nm))
        if k == "bad":
            f = rng.choice(["wif", "code", "cfrm", "ewif", "ewif2"])
            if f not in ("wif", "code") and rng.random() < 0.3:        # altered under a good checksum
                _, t = gen.forge(rng, A[f], "cfrm" if f == "cfrm" else "ewif")
            else:
                _, t = gen.damage(rng, A[f], other=A["code"])
            return plans.consume(rng, A, "ewif" if f == "ewif2" else f, t)
        if k == "badnet":
            op, a = self.op(["mint", "encrypt", "decrypt", "confirm"])
            a = dict(a, network=rng.choice(BADNETS))
            if a["network"] in gen.COINS[a["coin"]]["networks"]:
                a["network"] = "nonet"
            return op, a
        if k == "other":       # same artifact under another network of the same coin
            op, a = self.op(["mint", "encrypt", "decrypt", "confirm"])
            a = dict(a, network=rng.choice(sorted(gen.COINS[a["coin"]]["networks"])))
            return op, a
        raise AssertionError(k)


BADNETS = ["mainet", "Mainnet", "MAINNET", "main", "testnet3", "test", "regtest", "signet", "simnet", "mainnet ", " testnet",
           "default", "0", "wif_prefix", "None", "main\u006e\u0065t\u200b", "testnet", "stagenet"]


# ------------------------------------------------------------------ C07 threads
def plan_threads(seed, tier, idx):
    rng = random.Random("C07/%d" % seed)
    p = {"world": "threads", "prop": "C07", "seed": seed, "kdf": rng.choice(["fast", "edge"])}
    g = OpGen(rng, p["kdf"])
    mode = rng.choice(["stall", "stall", "stall", "stall2", "stall2", "random", "random", "pct", "seam", "nested", "nested", "crowd", "crowd"])
    p["mode"] = mode
    p["granularity"] = "instr" if rng.random() < 0.15 else "line"
    p["provider"] = rng.choice(["ok", "ok", "ok", "unlisted", "refused"])
    kinds = ["code", "mint", "encrypt", "encrypt", "decrypt", "decrypt", "confirm", "wif", "addr", "wrong", "bad",
             "badnet", "other", "other"]
    if rng.random() < 0.6:         # everyone does the same kind of thing
        kinds = [rng.choice(kinds + ["decrypt", "decrypt", "confirm"])]
    plain = None
    if mode == "crowd":
        if len(kinds) > 1 or rng.random() < 0.5:
            kinds = [rng.choice(["decrypt", "decrypt", "decrypt", "encrypt", "mint", "confirm", "code", "other"])]
        plain = rng.choice([True, True, False]) if kinds == ["decrypt"] else None
    nt = 2 if mode in ("stall", "stall2", "nested") else rng.choice([3, 3, 4, 4, 5, 9]) if mode == "crowd" else rng.choice([2, 2, 3, 4])
    p["threads"] = []
    shared = rng.random() < 0.75
    for t in range(nt):
        ops = []
        for _ in range(1 if mode in ("stall", "nested", "crowd") else rng.choice([1, 1, 2, 3])):
            op, a = g.op(kinds)
            for _ in range(4):
                if t and len(kinds) == 1 and [op, a] == p["threads"][0][0]:
                    op, a = g.op(kinds)
            if plain:                    # a record of everyone's own, all of one sort
                A = rng.choice(g.A)
                a["coin"], k = A["coin"], rng.randrange(1, ref.N).to_bytes(32, "big")
                a.update(plans.netchoice(rng, A["coin"], A["net"]))
                a["passphrase"] = rng.choice(g.P.pp)
                try:
                    a["ewif"] = g.M.R.encrypt(k, rng.random() < 0.5, a["passphrase"], A["ap"])
                except ref.Refuse:
                    a["passphrase"] = A["p"]
                a = {x: y for x, y in a.items() if y is not None}
            if not shared and "coin" in a:
                a = dict(a, itag="t%d" % t)
            if "coin" in a and op in ("encrypt", "mint", "confirm", "decrypt") and rng.random() < 0.12:
                a = dict(a, fresh=True)
            ops.append([op, a])
        p["threads"].append(ops)
    # variants of one request that differ in a single input are what hidden shared state confuses
    if rng.random() < 0.5 and nt >= 2:
        op, a = p["threads"][0][0]
        b = dict(a)
        for f in rng.sample(sorted(b), len(b)):
            if f == "passphrase":
                b[f] = rng.choice(g.P.pp + ["zz"])
            elif f == "network" or f == "inet":
                b["network"] = rng.choice(sorted(gen.COINS[a["coin"]]["networks"])) if "coin" in a else b[f]
            elif f == "wif_type":
                b[f] = "wif" if a[f] == "wif-compressed" else "wif-compressed"
            elif f == "seed":
                b[f] = rng.choice(g.P.seeds)
            elif f == "salt":
                b[f] = rng.choice(g.P.salts)
            elif f in ("ewif", "cfrm", "code"):
                A = next((A for A in g.A if a[f] in A.values()), g.A[0])
                b[f] = rng.choice([A[x] for x in sorted(A) if x.rstrip("23") == f])
            elif f == "lot":
                b["lot"], b["sequence"] = rng.choice(g.P.lots)
            else:
                continue
            break
        p["threads"][1][0] = [op, b]
    # what the process did before: bounded caches fill, lazily made tables exist
    p["warm"] = []
    if rng.random() < 0.35:
        n = rng.choice([1, 2, 3, 5, 9, 17, 33, 65, 129])
        for _ in range(n):
            if rng.random() < 0.4 or n > 40:
                k = rng.randrange(1, ref.N).to_bytes(32, "big")
                coin, net = gen.net_pair(rng)
                p["warm"].append(rng.choice([
                    ["p2w", dict(key=k.hex(), wif_type=rng.choice(["wif", "wif-compressed"]), coin=coin, network=net)],
                    ["aenc", dict(pub=ref.enc_pt(ref.pub(rng.randrange(1, 300)), True).hex(), address_prefix=gen.prefixes(coin, net)[1])],
                    ["code", dict(passphrase="w%d" % rng.randrange(1000), salt=gen.rbytes(rng, 8).hex())]]))
            else:
                p["warm"].append(list(g.op(["code", "mint", "encrypt", "decrypt", "confirm", "wif", "addr"])))
    return p


def run_threads(p):
    W = World(p)
    rng = random.Random("run/%d" % p["seed"])
    rt.begin_run()
    base = []
    prof = {}
    traces, past = {}, {}

    def where(key):
        locks = [i + 1 for i, w in enumerate(traces[key]) if w[1] == "at lock"]
        if locks and rng.random() < 0.4:        # with a lock just taken
            return rng.choice(locks) + rng.choice([0, 1, 1, 2, 3])
        if key in past and rng.random() < 0.5:
            return rng.choice([i + 1 for i, w in enumerate(traces[key]) if w not in past[key]])
        return pick_location(rng, traces[key], True)
    # serial answers, each from a process of its own
    for t, ops in enumerate(p["threads"]):
        row = []
        for j, (op, a) in enumerate(ops):
            key = json.dumps([op, a], sort_keys=True)
            if key not in prof:
                img = rt.Image(W.opt)
                c = W.ctx(p.get("provider", "ok"))
                prewarm(img, [[op, a]], c)
                rt.events(p["granularity"])
                with Counter(record=True, budget=LINE_BUDGET) as cnt:
                    o = W.call(c, img, op, a)
                rt.events(None)
                prof[key] = (o.key(), cnt.n)
                traces[key] = cnt.trace
            row.append(prof[key][0])
        base.append(row)
    keyof = lambda t, j: json.dumps([p["threads"][t][j][0], p["threads"][t][j][1]], sort_keys=True)
    if p["warm"] and "nest" not in W.resolved and "schedule" not in W.resolved:
        # what the first call runs through in a process with such a past (full caches evict, made tables are found)
        img = rt.Image(W.opt)
        c = W.ctx(p.get("provider", "ok"))
        prewarm(img, sum(p["threads"], []), c)
        for op, a in p["warm"]:
            W.call(c, img, op, a)
        for t in ([0] if p["mode"] == "nested" else range(len(p["threads"]))):
            rt.events(p["granularity"])
            with Counter(record=True, budget=LINE_BUDGET) as cnt:
                W.call(c, img, *p["threads"][t][0])
            rt.events(None)
            cold = set(traces[keyof(t, 0)])
            if any(w not in cold for w in cnt.trace):      # code that only a process with a past comes to
                past[keyof(t, 0)] = cold
            traces[keyof(t, 0)] = cnt.trace
    img = rt.Image(W.opt)
    c = W.ctx(p.get("provider", "ok"))
    prewarm(img, sum(p["threads"], []), c)
    for op, a in p["warm"]:
        W.call(c, img, op, a)
        W.stat("warmup_ops")
    before = snapshot(img)
    got = [[] for _ in p["threads"]]

    def runner(t):
        def f():
            for op, a in p["threads"][t]:
                got[t].append(rt.call(img, op, a).key())
        return f
    gran = p["granularity"]
    if p["mode"] == "nested":
        def pick():
            return where(keyof(0, 0))
        k = W.res("nest", pick)
        inner = p["threads"][1][0]

        def act():
            got[1].append(rt.call(img, inner[0], inner[1]).key())
        rt.events(gran)
        try:
            with Counter(at=k, action=act, budget=LINE_BUDGET) as cnt:
                got[0].append(W.call(c, img, *p["threads"][0][0]).key())
        except rt.SimAbort as e:
            raise Violation("re-entering %s in the middle of %s (event %d): %s" % (inner[0], p["threads"][0][0][0], k, e))
        finally:
            rt.events(None)
        if cnt.fired:
            W.stat("fault.reentry")
            W.states.add(("nested", cnt.fired, inner[0]))
        else:
            act2 = W.call(c, img, *inner)
            got[1].append(act2.key())
        base = [base[0][:1], base[1][:1]]
        W.resolved["nest"] = k
        steps = cnt.n
    else:
        def make():
            m = p["mode"]
            if m == "stall":
                a = rng.randrange(len(p["threads"]))
                k = where(keyof(a, 0))
                rest = [t for t in range(len(p["threads"])) if t != a]
                return [[a, k]] + [[t, INF] for t in rest] + [[a, INF]]
            if m == "stall2":
                a, b = rng.sample(range(len(p["threads"])), 2)
                k1 = where(keyof(a, 0))
                k2 = where(keyof(b, 0))
                s = [[a, k1], [b, k2]]
                if rng.random() < 0.5:
                    s += [[a, max(1, int(rng.expovariate(1 / 60.0)))], [b, INF]]
                return s + [[a, INF], [b, INF]]
            if m == "crowd":             # all come to the same place, or nearly, before any of them goes on
                n = len(p["threads"])
                k = where(keyof(0, 0))
                tr0 = traces[keyof(0, 0)]
                loc = tr0[k - 1] if k <= len(tr0) else None
                nth = tr0[:k].count(loc)
                s = []
                for t in range(n):
                    at = [i + 1 for i, w in enumerate(traces[keyof(t, 0)]) if w == loc]
                    i = at[min(nth, len(at)) - 1] if at else where(keyof(t, 0))
                    s.append([t, i + rng.choice([0, 0, 0, 0, 1, 2, 3, 8])])
                rng.shuffle(s)
                if rng.random() < 0.6:
                    for _ in range(rng.choice([n, 2 * n])):
                        s.append([rng.randrange(n), max(1, int(rng.expovariate(1 / rng.choice([2.0, 8.0, 40.0]))))])
                rest = list(range(n))
                rng.shuffle(rest)
                return s + [[t, INF] for t in rest]
            if m == "random":
                scale = rng.choice([1.5, 5, 20, 80, 300])
                out = []
                for _ in range(4000):
                    out.append([rng.randrange(len(p["threads"])), 1 + int(rng.expovariate(1.0 / scale))])
                return out
            return None
        sched_plan = W.resolved.get("schedule")
        dyn = None
        if sched_plan is None:
            sched_plan = make()
            if sched_plan is None:
                dyn = pct(rng, p, prof, keyof) if p["mode"] == "pct" else seam_policy(rng)
        s = Sched([runner(t) for t in range(len(p["threads"]))], plan=sched_plan, dynamic=dyn,
                  budget=LINE_BUDGET * len(p["threads"]))
        if p["mode"] == "seam" and dyn is not None:
            s.point = lambda name: seam_point(s, rng, name)
        rt.install(c)
        try:
            res = s.run(gran)
        finally:
            rt.install(None)
        W.resolved["schedule"] = s.log
        W.stat("fault.preemption", max(0, len(s.switches) - 1))
        W.stat("mode." + p["mode"])
        for w in s.switches:
            W.states.add(w)
        for t, r in enumerate(res):
            if r is None or r[0] == "harness":
                raise Harness("thread %d: %r" % (t, r))
            if r[0] == "abort":
                raise Violation("thread %d never finished: %s" % (t, r[1]))
        steps = s.steps
    W.stat("sched_events", steps)
    W.stat("ops", sum(len(g) for g in got))
    W.record("got", got)
    for t in range(len(p["threads"])):
        for j in range(len(base[t])):
            g = got[t][j] if j < len(got[t]) else ["err", "missing"]
            if g != base[t][j]:
                op, a = p["threads"][t][j]
                raise Violation("%s %d, %s(%s): alone %r, under this interleaving %r" % (
                    "caller" if p["mode"] == "nested" else "thread", t, op, ascii({k: v for k, v in a.items() if v is not None}), base[t][j], g))
    after = snapshot(img)
    if after != before:
        d = [k for k in before if before[k] != after.get(k)]
        raise Violation("concurrent use changed the configuration: %s" % ", ".join(
            "%s: %r -> %r" % (k, before[k], after.get(k)) for k in d[:3]))
    # and afterwards every request still has its serial answer
    for t, ops in enumerate(p["threads"]):
        op, a = ops[0]
        o = W.call(c, img, op, a)
        if o.key() != base[t][0]:
            raise Violation("after concurrent use, %s(%s): alone %r, now %r" % (
                op, ascii({k: v for k, v in a.items() if v is not None}), base[t][0], o.key()))
    return W


def prewarm(img, ops, ctx):
    rt.install(ctx)
    try:
        for op, a in ops:
            if op in ("encrypt", "mint", "confirm", "decrypt"):
                img.activate()
                try:
                    img.instance(a["coin"], a.get("inet"), a.get("itag", ""))
                except Exception:
                    pass
    finally:
        rt.install(None)


def snapshot(img):
    d = {}
    for k, o in img.inst.items():
        for f in ("network", "networks", "alphabet"):
            if hasattr(o, f):
                d["%s.%s" % ("/".join(str(x) for x in k), f)] = repr(getattr(o, f))
    for c in gen.COINS:
        cls = getattr(img.coins, c, None)
        if cls is not None:
            d[c] = repr((getattr(cls, "NETWORKS", None), getattr(cls, "ALPHABET", None)))
    return d


def pct(rng, p, prof, keyof):
    n = len(p["threads"])
    total = sum(prof[keyof(t, j)][1] for t in range(n) for j in range(len(p["threads"][t])))
    d = rng.choice([1, 2, 3])
    pts = sorted(rng.randrange(1, max(2, total)) for _ in range(d))
    prio = list(range(n))
    rng.shuffle(prio)
    st = {"i": 0}

    def f(s, run):
        if s.cur in run and st["i"] < len(pts) and s.steps >= pts[st["i"]]:
            prio[s.cur] = -1 - st["i"]
            st["i"] += 1
        t = max(run, key=lambda x: prio[x])
        k = pts[st["i"]] - s.steps if st["i"] < len(pts) else INF
        return t, max(1, k)
    return f


def seam_policy(rng):
    def f(s, run):
        return rng.choice(run), INF
    return f


def seam_point(s, rng, name):
    if s.active and rng.random() < 0.5:
        s.left = 1
    s.event("at " + name, 0)


# ------------------------------------------------------------------ C08 entropy
def plan_entropy(seed, tier, idx):
    rng = random.Random("C08/%d" % seed)
    p = {"world": "entropy", "prop": "C08", "seed": seed, "kdf": "fast"}
    P = plans.People(rng)
    M = Model("fast")
    A = plans.artifacts(rng, P, M.R)
    calls = []

    def one():
        r = rng.random()
        if r < 0.3:
            return ["code", dict(passphrase=A["p"])]
        if r < 0.45:
            lo, sq = rng.choice(P.lots)
            return ["code", dict(passphrase=A["p"], lot=lo, sequence=sq)]
        if r < 0.8:
            return ["mint", dict(coin=A["coin"], inet=A["net"], code=A["code"], wif_type=rng.choice(["wif", "wif-compressed"]))]
        if r < 0.9:       # explicit values in between: must be used verbatim and must not disturb freshness
            s = gen.salt(rng, 8).hex()
            a = dict(passphrase=A["p"], salt=s, form=rng.choice(["hex", "bytes", "HEX"]))
            if rng.random() < 0.5:
                a["lot"], a["sequence"] = rng.choice(P.lots)
                a["salt"] = a["salt"][:rng.choice([8, 16])]
            return ["code", a]
        return ["mint", dict(coin=A["coin"], inet=A["net"], code=A["code"], wif_type=rng.choice(["wif", "wif-compressed"]),
                             seed=gen.seed(rng).hex(), form=rng.choice(["hex", "bytes", "HEX"]))]
    p["mode"] = rng.choice(["serial", "serial", "restart", "clone", "threads", "twin", "twin", "fail", "clone", "bits", "flip"])
    n = {"serial": rng.choice([4, 8, 40]), "bits": 30}.get(p["mode"], rng.choice([3, 5, 8]))
    if p["mode"] == "serial" and rng.random() < 0.05:   # a host that has handed out a great many
        n = rng.choice([300, 1100])
    if p["mode"] == "bits":
        k = rng.choice(["code", "lot", "mint"])
        lo, sq = P.lots[0]
        c = {"code": ["code", dict(passphrase=A["p"])], "lot": ["code", dict(passphrase=A["p"], lot=lo, sequence=sq)],
             "mint": ["mint", dict(coin=A["coin"], inet=A["net"], code=A["code"])]}[k]
        calls = [c] * n
    else:
        calls = [one() for _ in range(n)]
        if not any(is_fresh(x) for x in calls):
            calls[0] = ["code", dict(passphrase=A["p"])]
    if p["mode"] != "bits" and rng.random() < 0.4:      # requests that are refused, in between
        bad = A["code"][:-1] + ("1" if A["code"][-1] != "1" else "2")
        mint = dict(coin=A["coin"], inet=A["net"], code=A["code"])
        for _ in range(rng.choice([1, 2, 4])):
            x = rng.choice([["mint", dict(mint, code=bad)], ["mint", dict(mint, network="nonet")], ["mint", dict(mint, wif_type="x")],
                            ["mint", dict(mint, code=A["wif"])], ["mint", dict(mint, seed="00" * 23)],
                            ["code", dict(passphrase=A["p"], lot=99999, sequence=1)], ["code", dict(passphrase=A["p"], lot=100000, sequence=4096)],
                            ["code", dict(passphrase=A["p"], lot=100000)], ["code", dict(passphrase=A["p"], sequence=7)],
                            ["code", dict(passphrase=A["p"], salt="0011")]])
            calls.insert(rng.randrange(len(calls)), [x[0], dict(x[1], _refused=True)])
    if p["mode"] == "flip":
        calls = [[op, {k: v for k, v in a.items() if k not in ("salt", "seed", "form")}] for op, a in calls[:1] if not a.get("_refused")]
        calls = calls or [["code", dict(passphrase=A["p"])]]
    p["calls"] = calls
    p["splits"] = sorted(rng.randrange(n) for _ in range(2))
    p["nclones"] = rng.choice([2, 3])
    p["exc"] = rng.choice(["OSError", "NotImplementedError", "MemoryError", "InterruptedError", "BlockingIOError"])
    p["short"] = rng.random() < 0.3
    return p


def is_fresh(c):
    return (c[0] == "code" and c[1].get("salt") is None) or (c[0] == "mint" and c[1].get("seed") is None)


def chosen(op, a, o):
    """(random part of the answer, number of random bytes needed)"""
    if op == "code":
        try:
            raw = ref.b58cdec(o.value)
        except ref.Refuse:
            raise Violation("code() returned %r, not an intermediate code" % (o.value,))
        if a.get("lot") is not None:
            return raw[8:12], 4
        return raw[8:16], 8
    s = o.value.get("seed") if isinstance(o.value, dict) else None
    try:
        b = bytes.fromhex(s)
    except Exception:
        raise Violation("minting reports seed %r" % (s,))
    if len(b) != 24:
        raise Violation("minting used a seed of %d bytes" % len(b))
    return b, 24


def entropy_calls(W, img, ctx, calls, sink, where):
    for i, (op, a) in enumerate(calls):
        d0, shorts = ctx.drawn, ctx.stats.get("short_random_read", 0)
        o = W.call(ctx, img, op, a)
        W.stat("ops")
        if not o.ok and ctx.stats.get("short_random_read", 0) > shorts:
            # the system gave fewer bytes than asked for: to give up is safe, to go on with fewer is not
            W.stat("gave_up_on_short_read")
            W.record(where, i, op, "gave up")
            continue
        if a.get("_refused"):         # judged elsewhere; here, it must leave nothing behind
            W.stat("refused_calls")
            W.record(where, i, op, o.key()[:1])
            continue
        if not o.ok:
            raise Violation("%s call %d %s(%s) %s although entropy is available" % (where, i, op, ascii(a), o.show()))
        part, needed = chosen(op, a, o)
        if is_fresh([op, a]):
            got = ctx.drawn - d0
            if got < needed:
                raise Violation("%s call %d: %s chose %d random bytes but drew only %d bytes from the operating system" % (
                    where, i, op, needed, got))
            sink.append((op, a.get("lot") is not None, part, "%s call %d" % (where, i)))
            W.stat("fresh_values")
        else:
            want = a["salt"] if op == "code" else a["seed"]
            want = bytes.fromhex(want)[:len(part)]
            if part != want:
                raise Violation("%s call %d: given %s, used %s" % (where, i, want.hex(), part.hex()))
            if op == "code":
                e = W.model.expect("code", a)
                if e.ok and o.value != e.value:
                    raise Violation("%s call %d: explicit salt not used as given: %s" % (where, i, describe(op, a, e, o)))
            W.stat("explicit_values")
        W.record(where, i, op, o.key())


def unique(sink):
    seen = {}
    for op, num, part, where in sink:
        k = (op, num, part)
        if k in seen:
            raise Violation("%s and %s share the %s %s" % (seen[k], where, "salt" if op == "code" else "seed", part.hex()))
        seen[k] = where
        if len(part) > 8 and part[:8] * (len(part) // 8) == part or len(set(part)) == 1:
            raise Violation("%s: not random: %s" % (where, part.hex()))


def run_entropy(p):
    W = World(p)
    rt.begin_run()
    m = p["mode"]
    W.stat("mode." + m)
    sink = []
    if m in ("serial", "bits"):
        img, c = rt.Image(W.opt), W.ctx()
        c.short_reads = p["short"]
        entropy_calls(W, img, c, p["calls"], sink, "process")
        if m == "bits" and len(sink) >= 30:
            # every bit takes both values: chance of a false alarm is 192 * 2^-29 per run over
            # simulated entropy, and it is a pure function of the seed
            n = len(sink[0][2])
            ones = [0] * (8 * n)
            for _, _, part, _ in sink:
                v = int.from_bytes(part, "big")
                for b in range(8 * n):
                    ones[b] += (v >> b) & 1
            stuck = [b for b in range(8 * n) if ones[b] in (0, len(sink))]
            if len(stuck) >= 1:
                raise Violation("bits %s of the %s never vary over %d values" % (stuck[:8], sink[0][0], len(sink)))
    elif m == "restart":
        # same pid, same clock, same inputs after a crash: only the operating system's entropy moves on
        lo = 0
        for b, hi in enumerate(p["splits"] + [len(p["calls"])]):
            rt.begin_run()
            img, c = rt.Image(W.opt), W.ctx(clone=b)
            entropy_calls(W, img, c, p["calls"][:1] + p["calls"][lo:hi], sink, "boot %d" % b)
            lo = hi
            W.stat("fault.restart")
    elif m == "twin":
        runs = []
        for v in (0, 1):
            rt.begin_run()
            img, c = rt.Image(W.opt), W.ctx()
            c.entropy_salt = b"twin%d" % v
            s = []
            entropy_calls(W, img, c, p["calls"], s, "twin %d" % v)
            runs.append(s)
        for x, y in zip(*runs):
            bits = bin(int.from_bytes(x[2], "big") ^ int.from_bytes(y[2], "big")).count("1")
            if x[2] == y[2] or bits < 4 or any(len(x[2]) >= 8 and x[2][k:k + 4] == y[2][k:k + 4] for k in range(0, len(x[2]), 4)):
                raise Violation("with everything but the operating system's entropy equal, %s chose %s in one execution and %s in the other"
                                % (x[3], x[2].hex(), y[2].hex()))
        sink = runs[0] + runs[1]
        W.stat("fault.entropy_swapped")
    elif m == "flip":
        # entropy whose bytes are special values, and the same with one bit changed: every bit must count
        img, c = rt.Image(W.opt), W.ctx()
        rng = random.Random("flip/%d" % p["seed"])
        op, a = p["calls"][0]
        base = bytes(rng.choice([0, 0, 1, 0x0a, 0x20, 0x30, 0x41, 0x61, 0x7f, 0x80, 0xff, rng.getrandbits(8)]) for _ in range(4096))

        def run(bit):
            pos = [0]

            def fn(n):
                out = bytearray(base[pos[0]:pos[0] + n])
                if bit is not None and 8 * pos[0] <= bit < 8 * (pos[0] + n):
                    out[bit // 8 - pos[0]] ^= 1 << bit % 8
                pos[0] += n
                return bytes(out)
            c.entropy_fn = fn
            o = W.call(c, img, op, a)
            c.entropy_fn = None
            if not o.ok:
                raise Violation("%s(%s) %s although entropy is available" % (op, ascii(a), o.show()))
            return chosen(op, a, o), pos[0]
        (first, needed), drawn = run(None)
        W.record("flip", op, first.hex(), drawn)
        if needed <= drawn <= 2048:
            every = list(range(8 * drawn))
            spare = 8 * (drawn - needed)
            some = every if spare else sorted(rng.sample(every, min(len(every), 24)))
            dead = []
            for b in some if len(some) <= 520 else []:
                W.stat("fault.entropy_bit")
                (part, _), _ = run(b)
                if part == first:
                    dead.append(b)
            if len(dead) > spare:
                raise Violation("%s(%s): changing bit %d of the %d bytes drawn from the operating system (%s) does not change the value chosen, %s" % (
                    op, ascii(a), dead[0], drawn, base[:drawn].hex(), first.hex()))
    elif m == "clone":
        img, c = rt.Image(W.opt), W.ctx()
        cut = p["splits"][0] + 1
        entropy_calls(W, img, c, p["calls"][:cut], sink, "parent")
        rest = p["calls"][cut:] or p["calls"][:2]
        for k in range(p["nclones"]):
            part = fork_child(W, img, c, rest, k + 1)
            sink += part
            W.stat("fault.process_cloned")
        entropy_calls(W, img, c, rest, sink, "parent after cloning")
    elif m == "threads":
        img, c = rt.Image(W.opt), W.ctx()
        n = 3
        parts = [p["calls"][i::n] or p["calls"][:1] for i in range(n)]
        rng = random.Random("thr/%d" % p["seed"])
        errs = []
        sinks = [[] for _ in range(n)]

        def runner(t):
            def f():
                try:
                    for i, (op, a) in enumerate(parts[t]):
                        o = rt.call(img, op, a)
                        if a.get("_refused"):
                            continue
                        if not o.ok:
                            raise Violation("thread %d call %d %s" % (t, i, o.show()))
                        part, _ = chosen(op, a, o)
                        if is_fresh([op, a]):
                            sinks[t].append((op, a.get("lot") is not None, part, "thread %d call %d" % (t, i)))
                        elif part != bytes.fromhex(a["salt"] if op == "code" else a["seed"])[:len(part)]:
                            raise Violation("thread %d: explicit value not used" % t)
                except Violation as e:
                    errs.append(e)
            return f
        prewarm(img, p["calls"], c)
        sch = W.resolved.get("schedule") or [[rng.randrange(n), 1 + int(rng.expovariate(1 / 40.0))] for _ in range(2000)]
        rt.install(c)
        d0 = c.drawn
        s = Sched([runner(t) for t in range(n)], plan=sch, budget=LINE_BUDGET)
        try:
            res = s.run("line")
        finally:
            rt.install(None)
        W.resolved["schedule"] = s.log
        for w in s.switches:
            W.states.add(w)
        for t, r in enumerate(res):
            if r is None or r[0] == "harness":
                raise Harness(repr(r))
            if r[0] == "abort":
                raise Violation("thread %d never finished: %s" % (t, r[1]))
        if errs:
            raise errs[0]
        sink = sum(sinks, [])
        needed = sum({"code": 4 if x[1] else 8, "mint": 24}[x[0]] for x in sink)
        if c.drawn - d0 < needed:
            raise Violation("threads chose %d random bytes but drew %d from the operating system" % (needed, c.drawn - d0))
        W.stat("fault.preemption", len(s.switches))
        W.record("threads", [[x[2].hex() for x in q] for q in sinks])
    elif m == "fail":
        img, c = rt.Image(W.opt), W.ctx()
        E = {"OSError": OSError(5, "Input/output error"), "NotImplementedError": NotImplementedError("no source"),
             "MemoryError": MemoryError(), "InterruptedError": InterruptedError(4, "x"),
             "BlockingIOError": BlockingIOError(11, "not seeded")}[p["exc"]]
        rng = random.Random("fail/%d" % p["seed"])
        for i, (op, a) in enumerate(p["calls"]):
            down = W.res("down%d" % i, lambda: rng.random() < 0.6)
            if down and is_fresh([op, a]) and not a.get("_refused"):
                tries = [0]

                def on_site(name, faultable):
                    if name == "urandom":
                        W.stat("fault.entropy_failure")
                        tries[0] += 1        # a caller may retry an interrupted read, which then fails for good
                        raise E if tries[0] <= 2 else OSError(5, "Input/output error")
                c.on_site = on_site
                d0 = c.drawn
                o = W.call(c, img, op, a)
                c.on_site = None
                if o.ok:
                    raise Violation("the random source failed (%s) and %s still returned %r" % (p["exc"], op, o.value))
                W.record("failed", i, o.key())
            else:
                entropy_calls(W, img, c, [[op, a]], sink, "call %d," % i)
    unique(sink)
    for x in sink:
        W.states.add((x[0], x[2][:4].hex()))
    return W


def fork_child(W, img, ctx, calls, k):
    """A real clone of the whole process; only the kernel's entropy differs in it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            ctx.clone = k
            ctx.draws = 0
            ctx.pid += k
            s = []
            try:
                entropy_calls(W, img, ctx, calls, s, "clone %d" % k)
                out = ["ok", [[x[0], x[1], x[2].hex(), x[3]] for x in s]]
            except Violation as e:
                out = ["violation", e.msg]
            except BaseException as e:
                out = ["harness", repr(e)]
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        kind, v = json.loads(buf)
    except ValueError:
        raise Harness("clone died")
    if kind == "violation":
        raise Violation(v)
    if kind == "harness":
        raise Harness(v)
    return [(x[0], x[1], bytes.fromhex(x[2]), x[3]) for x in v]


# ------------------------------------------------------------------ C09 resource faults and cancellation
EXC = {"MemoryError": lambda: MemoryError(), "KeyboardInterrupt": lambda: KeyboardInterrupt(),
       "SystemExit": lambda: SystemExit(1), "TimeoutError": lambda: TimeoutError("deadline"),
       "OSError": lambda: OSError(12, "Cannot allocate memory"), "Cancelled": lambda: Cancelled(),
       "RecursionError": lambda: RecursionError("x"), "kdf": lambda: rt.scrypt.error("could not compute hash")}


class Cancelled(BaseException):
    pass


SITE_EXC = {"kdf": ["MemoryError", "kdf", "kdf", "OSError"], "urandom": ["OSError", "MemoryError"],
            "sha256": ["MemoryError"], "ripemd": ["MemoryError"], "aes": ["MemoryError"], "ec": ["MemoryError"]}


def striker(W, k, en, hit, then=None):
    """The k-th faultable crossing of a seam fails; then possibly the next one or two, or all later ones (of its kind)."""
    cnt = [0]
    rt.CALL_BUDGET = LINE_BUDGET if then in ("same", "all") else rt.CALL_BUDGET

    def on_site(name, faultable):
        if faultable:
            cnt[0] += 1
            i = cnt[0] - 1 - k
            if i == 0:
                hit.append(name)
                raise EXC[en]()
            if i > 0 and (then == "all" or then == "same" and name == hit[0] or then == "next" and i == 1 or then == "third" and i <= 2):
                W.stat("fault.again_" + name)
                raise EXC[en if name == hit[0] and then != "all" else SITE_EXC.get(name, ["MemoryError"])[i % len(SITE_EXC.get(name, [0]))]]()
    return on_site


THEN = [None, None, None, None, "same", "next", "next", "third", "all"]


def plan_faults(seed, tier, idx):
    rng = random.Random("C09/%d" % seed)
    p = {"world": "faults", "prop": "C09", "seed": seed, "kdf": rng.choice(["fast", "edge"]),
         "provider": rng.choice(["ok", "ok", "unlisted", "refused"])}
    g = OpGen(rng, p["kdf"])
    kinds = ["code", "mint", "mint", "encrypt", "encrypt", "decrypt", "decrypt", "confirm", "confirm", "wif", "addr",
             "other", "badnet", "wrong", "bad"]
    steps = []
    for i in range(rng.choice([3, 5, 8])):
        if steps and rng.random() < 0.5:
            op, a = rng.choice(steps)["call"]       # a retry
        else:
            op, a = g.op(kinds)
        f = None
        r = rng.random()
        if r < 0.35:
            f = {"how": "site", "exc": rng.getrandbits(16), "then": rng.choice(THEN)}
        elif r < 0.75:
            f = {"how": "line", "then": rng.choice([1, 2, 3, 5, 9, 30]) if rng.random() < 0.25 else None, "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "SystemExit", "TimeoutError",
                                                   "Cancelled", "MemoryError", "KeyboardInterrupt", "RecursionError"])}
        steps.append({"call": [op, a], "fault": f})
        if f is not None and a.get("network") and rng.random() < 0.5:      # and then by the instance's own network
            steps.append({"call": [op, {x: y for x, y in a.items() if x != "network"}], "fault": None})
        if f is not None and rng.random() < 0.4:        # the next customer, with all the details asked for
            for A in g.A:
                mine = [b for b in plans.basics(rng, A, g.P) if b[0] == op]
                if mine and A["coin"] == a.get("coin", A["coin"]):
                    a2 = plans.twist(rng, *rng.choice(mine), A, g.P, g.M.R)
                    if op in ("decrypt", "confirm"):
                        a2["detail"] = True
                    steps.append({"call": [op, a2], "fault": None})
                    break
    if rng.random() < 0.2:
        steps.insert(0, {"call": ["code", dict(passphrase=g.P.pp[0])], "fault": {"how": rng.choice(["site", "line"]), "exc": "MemoryError" if rng.random() < 0 else rng.choice(["MemoryError"])}})
        steps[0]["fault"]["exc"] = rng.getrandbits(16) if steps[0]["fault"]["how"] == "site" else "MemoryError"
    # the instance's own network, named by nobody, after somebody else's fault
    A = g.A[0]
    steps.append({"call": ["decrypt", dict(coin=A["coin"], inet=A["net"], ewif=A["ewif"], passphrase=A["p"], detail=True)], "fault": None})
    steps.append({"call": ["mint", dict(coin=A["coin"], inet=A["net"], code=A["code"], seed=g.P.seeds[0])], "fault": None})
    p["steps"] = steps
    return p


def run_faults(p):
    W = World(p)
    rng = random.Random("faults/%d" % p["seed"])
    rt.begin_run()
    prof = {}

    def profile(op, a):
        key = json.dumps([op, a], sort_keys=True)
        if key not in prof:
            img, c = rt.Image(W.opt), W.ctx(p["provider"])
            prewarm(img, [[op, a]], c)
            sites = []

            def on_site(name, faultable):
                if faultable:
                    sites.append(name)
            c.on_site = on_site
            rt.events("line")
            with Counter(record=True, budget=LINE_BUDGET) as cnt:
                o = W.call(c, img, op, a)
            rt.events(None)
            prof[key] = (o, cnt.trace, sites)
        return prof[key]
    img, c = rt.Image(W.opt), W.ctx(p["provider"])
    prewarm(img, [s["call"] for s in p["steps"]], c)
    for i, s in enumerate(p["steps"]):
        op, a = s["call"]
        fresh = is_fresh([op, a])
        base, trace, sites = profile(op, a)
        f = s["fault"]
        hit = []
        k = None
        if f is not None and f["how"] == "site" and sites:
            # choose the kind of site first, or ec/sha256 would take all
            def pick():
                n = sorted(set(sites))
                name = rng.choice(n)
                js = [j for j, x in enumerate(sites) if x == name]
                return [js[rng.randrange(len(js))], SITE_EXC.get(name, ["MemoryError"])[f["exc"] % len(SITE_EXC.get(name, [0]))]]
            k, en = W.res("site%d" % s.get("n", i), pick)
            keep = rt.CALL_BUDGET
            c.on_site = striker(W, k, en, hit, f.get("then"))
            try:
                o = W.call(c, img, op, a)
            except rt.SimAbort as e:
                raise Violation("step %d %s while %s fails: %s" % (i, op, hit[:1], e))
            finally:
                rt.CALL_BUDGET = keep
                c.on_site = None
                rt.events(None)
            if hit:
                W.stat("fault.%s_%s" % (hit[0], en))
                W.states.add((op, hit[0], k))
        elif f is not None and f["how"] == "line" and trace:
            k = W.res("line%d" % s.get("n", i), lambda: pick_location(rng, trace))
            en = f["exc"]

            cn = Counter(at=k, budget=LINE_BUDGET)

            def act():
                if not hit and f.get("then"):           # cancelled again while it is unwinding
                    cn.at = cn.n + f["then"]
                elif hit:
                    W.stat("fault.cancelled_twice")
                hit.append("line")
                raise EXC[en]()
            cn.action = act
            rt.events("line")
            try:
                with cn:
                    o = W.call(c, img, op, a)
            except rt.SimAbort as e:
                raise Violation("step %d %s after a fault: %s" % (i, op, e))
            finally:
                rt.events(None)
            if hit:
                W.stat("fault.cancel_" + en)
                W.states.add((op,) + tuple(cn.fired))
        else:
            try:
                o = W.call(c, img, op, a)
            except rt.SimAbort as e:
                raise Violation("step %d %s: %s" % (i, op, e))
        W.stat("ops")
        W.record(i, op, k, hit, o.key())
        what = "step %d %s(%s)" % (i, op, ascii({x: y for x, y in a.items() if y is not None}))
        if fresh:
            if o.ok:
                F = type("F", (), {"learn_salt": None})
                raw = None
                try:
                    raw = ref.b58cdec(o.value)
                    b = dict(a, salt=raw[8:12].hex() if a.get("lot") is not None else raw[8:16].hex())
                    e = W.model.expect(op, b)
                    good = e.ok and e.value == o.value
                except Exception:
                    good = False
                if not good:
                    raise Violation("%s under %s %s: not a valid code" % (what, hit or "no fault", o.show()))
            elif not hit:
                raise Violation("%s without a fault %s" % (what, o.show()))
            continue
        if not hit:
            if o.key() != base.key():
                raise Violation("%s, after earlier faults: %s; without any fault: %s" % (what, o.show(), base.show()))
        elif o.ok:
            if o.key() != base.key():
                raise Violation("%s with %s failing at event %s (%s): %s; fault-free answer: %s" % (
                    what, hit[0], k, en, o.show(), base.show()))
            W.stat("absorbed")
        elif o.passerr and not base.passerr and op in ("decrypt", "confirm"):
            raise Violation("%s with %s failing at event %s (%s) was reported as an incorrect passphrase" % (what, hit[0], k, en))
        else:
            W.stat("failstop")
    return W


# ------------------------------------------------------------------ C10 hash providers
def plan_provider(seed, tier, idx):
    rng = random.Random("C10/%d" % seed)
    p = {"world": "provider", "prop": "C10", "seed": seed, "kdf": rng.choice(["fast", "edge"])}
    g = OpGen(rng, p["kdf"])
    kinds = ["code", "mint", "mint", "encrypt", "encrypt", "decrypt", "confirm", "addr", "addr", "hash", "hash"]
    p["load"] = rng.choice(["ok", "unlisted", "refused"])
    p["steps"] = []
    for _ in range(rng.choice([3, 5, 8])):
        k = rng.choice(kinds)
        if k == "hash":
            n = rng.choice([0, 1, 20, 31, 32, 33, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, rng.randint(0, 300)])
            if rng.random() < 0.04:
                n = rng.choice([4095, 8191, 8192, 8193, 65535, 65536, 70000, rng.randint(300, 9000)])
                if tier == "thorough" and rng.random() < 0.05:
                    n = rng.choice([(1 << 21) - 8, 1 << 21, (1 << 21) + 55])
            op, a = rng.choice(["h160", "r160"]), dict(data=gen.corner_bytes(rng, n).hex() if n else "", form=rng.choice(["hex", "bytes"]))
        elif k == "addr":
            kk = rng.randrange(1, ref.N)
            op, a = "aenc", dict(pub=ref.enc_pt(ref.pub(kk), rng.random() < 0.5).hex(), address_prefix=rng.choice([0, 0x6f, 0x1cb8]),
                                 public_key_type=rng.choice(["compressed", "uncompressed"]))
        else:
            op, a = g.op([k])
        fl = rng.random() < 0.4
        p["steps"].append({"call": [op, a], "state": rng.choice(["ok", "unlisted", "refused"]),
                           "flip": rng.choice(["ok", "unlisted", "refused"]) if fl and len(a.get("data", "")) < 2000 else None})
    return p


def run_provider(p):
    W = World(p)
    rng = random.Random("prov/%d" % p["seed"])
    rt.begin_run()
    c0 = W.ctx("ok")
    rt.install(c0)
    img0 = rt.Image(W.opt)
    c = W.ctx(p["load"])
    rt.install(c)
    img = rt.Image(W.opt)
    rt.install(None)
    for i, s in enumerate(p["steps"]):
        op, a = s["call"]
        base = W.call(c0, img0, op, a)
        if op in ("h160", "r160", "aenc"):
            e = W.model.expect(op, a)
            if not base.ok or base.value != e.value:
                raise Violation("step %d with the host's provider: %s" % (i, describe(op, a, e, base)))
        c.provider = s["state"]
        if s["flip"] is not None:
            # change the host between any two lines of the library
            def pick():
                rt.events("line")
                x = rt.Image(W.opt)
                with Counter(record=True, budget=LINE_BUDGET) as cnt:
                    W.call(W.ctx(s["state"]), x, op, a)
                rt.events(None)
                t = cnt.trace
                hot = [j + 1 for j, w in enumerate(t) if "160" in w[1] or "hash" in w[1] or "ripemd" in w[1]]
                if hot and rng.random() < 0.6:
                    return rng.choice(hot)
                return pick_location(rng, t)
            k = W.res("flip%d" % s.get("n", i), pick)

            def act():
                c.provider = s["flip"]
                W.stat("fault.provider_change")
            rt.events("line")
            try:
                with Counter(at=k, action=act, budget=LINE_BUDGET) as cn:
                    o = W.call(c, img, op, a)
            finally:
                rt.events(None)
            if cn.fired:
                W.states.add((op, s["state"], s["flip"]) + tuple(cn.fired))
        else:
            o = W.call(c, img, op, a)
        W.stat("ops")
        W.stat("state." + s["state"])
        W.states.add((op, p["load"], s["state"], s["flip"]))
        W.record(i, op, s["state"], s["flip"], o.key())
        if o.key() != base.key():
            raise Violation("step %d %s(%s): host state %s%s (at load: %s): %s; with a provider: %s" % (
                i, op, ascii(a), s["state"], " changing to %s in mid-call" % s["flip"] if s["flip"] else "", p["load"],
                o.show(), base.show()))
    return W


# ------------------------------------------------------------------ C12 coins and networks
def plan_coins(seed, tier, idx):
    rng = random.Random("C12/%d" % seed)
    p = {"world": "coins", "prop": "C12", "seed": seed, "kdf": rng.choice(["fast", "edge"]), "steps": []}
    M = Model(p["kdf"])
    P = plans.People(rng)
    here = [gen.NETS[(idx * 2 + j) % len(gen.NETS)] for j in range(2)]     # every pair is visited
    here.append(gen.net_pair(rng))
    near = [y for i in (0, 1) for x, y in gen.NEAR[i] if x == here[0]]
    if near and rng.random() < 0.5:      # a coin that nearly has the same prefixes
        here.append(rng.choice(near))
    if rng.random() < 0.6:
        c = rng.choice(gen.MULTI)
        here += [(c, n) for n in sorted(gen.COINS[c]["networks"])]
    P.nets = here
    arts = []
    for coin, net in here:
        P.nets = [(coin, net)]
        A = plans.artifacts(rng, P, M.R)
        if (A["coin"], A["net"]) != (coin, net):
            wp, ap = gen.prefixes(coin, net)
            A.update(coin=coin, net=net, wp=wp, ap=ap, wif=ref.wif(bytes.fromhex(A["key"]), rng.random() < 0.5, wp))
            k, comp, _ = ref.parse_wif(A["wif"], wp)
            A["ewif"] = M.R.encrypt(k, comp, A["p"], ap)
            m = M.R.mint(A["code"], comp, gen.seed(rng), ap)
            A.update(ewif2=m["encrypted_wif"], cfrm=m["confirmation_code"], addr=m["address"], pub=m["public_key"])
        arts.append(A)
    P.nets = here
    S = p["steps"]

    def use(A, coin=None, inet="?", network="?"):
        f = rng.choice(["wif", "wif", "code", "cfrm", "ewif", "ewif2"])
        nc = {"inet": inet, "network": network} if inet != "?" else plans.netchoice(rng, A["coin"], A["net"])
        if f == "wif":
            op, a = "encrypt", dict(wif=A["wif"], passphrase=A["p"])
        elif f == "code":
            op, a = "mint", dict(code=A["code"], wif_type=rng.choice(["wif", "wif-compressed"]), seed=rng.choice(P.seeds))
        elif f == "cfrm":
            op, a = "confirm", dict(cfrm=A["cfrm"], passphrase=A["p"], detail=rng.choice([None, True]))
        else:
            op, a = "decrypt", dict(ewif=A[f], passphrase=A["p"], detail=rng.choice([None, True]))
        a["coin"] = coin or A["coin"]
        a.update({k: v for k, v in nc.items() if v is not None})
        return [op, a]
    for A in arts[:2]:          # straight use of the visited pairs, default and explicit
        op, a = use(A)
        S.append([op, a])
        S.append(["encrypt", dict(coin=A["coin"], inet=A["net"], wif=A["wif"], passphrase=A["p"])])
        S.append(["decrypt", dict(coin=A["coin"], inet=A["net"], ewif=A["ewif"], passphrase=A["p"], detail=True)])
        S.append(["mint", dict(coin=A["coin"], inet=A["net"], code=A["code"], seed=P.seeds[0], wif_type=rng.choice(["wif", "wif-compressed"]))])
    for _ in range(rng.choice([6, 10, 16])):
        A = rng.choice(arts)
        nets = sorted(gen.COINS[A["coin"]]["networks"])
        r = rng.random()
        if r < 0.3:                                     # another network of the coin, then silence
            inst = rng.choice(nets)
            x = use(A, inet=inst, network=rng.choice(nets))
            if rng.random() < 0.4:
                x[1]["_cancel"] = True
            S.append(x)
            S.append(use(A, inet=inst, network=None))
        elif r < 0.5:                                   # unknown network, refused, then silence
            inst = rng.choice([None] + nets)
            bad = rng.choice([b for b in BADNETS if b not in nets])
            S.append(use(A, inet=inst, network=bad))
            S.append(use(A, inet=inst, network=None))
        elif r < 0.6:
            S.append(["new", dict(coin=A["coin"], inet=rng.choice([b for b in BADNETS if b not in nets]))])
        elif r < 0.65:
            S.append(["new", dict(coin="NotACoin")])
        elif r < 0.85:                                  # artifact of one coin under another
            B = rng.choice(arts)
            S.append(use(A, coin=B["coin"], inet=B["net"], network=rng.choice([None, B["net"]])))
            if A["wp"] != B["wp"] or A["ap"] != B["ap"]:
                S[-1][1]["_foreign"] = True
        elif r < 0.93:                                  # functions used without any coin, between uses of coins
            k = bytes.fromhex(A["key"])
            pt, comp = ref.pub(int.from_bytes(k, "big")), rng.random() < 0.5
            a = rng.choice([["aenc", dict(pub=ref.enc_pt(pt, comp).hex())],
                            ["aenc", dict(pub=ref.enc_pt(pt, comp).hex(), public_key_type="uncompressed")],
                            ["adec", dict(address=ref.address(pt, comp, 0))], ["p2w", dict(key=A["key"])],
                            ["p2w", dict(key=A["key"], wif_type="wif")], ["p2w", dict(key=A["key"], network="testnet")],
                            ["p2w", dict(key=A["key"], coin=A["coin"])],
                            ["w2p", dict(wif=ref.wif(k, comp, 0x80))], ["wtype", dict(wif=ref.wif(k, comp, 0x80))],
                            ["w2p", dict(wif=ref.wif(k, comp, 0xef), network="testnet")]])
            if a[0] != "p2w" or a[1].get("coin") is None or "mainnet" in nets:
                S.append(a)
        else:
            S.append(use(A))
    if rng.random() < 0.25:
        A = arts[0]
        S.append(["ripple", dict(key=A["key"], p=A["p"], code=A["code"], seed=P.seeds[0], comp=rng.random() < 0.5)])
    return p


def run_coins(p):
    W = World(p)
    rng = random.Random("coins/%d" % p["seed"])
    rt.begin_run()
    img, c = rt.Image(W.opt), W.ctx()
    rip = gen.COINS["Ripple"]["alphabet"]
    for i, (op, a) in enumerate(p["steps"]):
        if op == "ripple":
            ripple(W, img, c, a, rip)
            continue
        if a.get("_cancel"):        # the call dies at some line; only what comes later is judged
            a = {k: v for k, v in a.items() if k != "_cancel"}
            prewarm(img, [[op, a]], c)
            k = W.res("cancel%s" % json.dumps([op, a], sort_keys=True), lambda: trace_point(W, rng, op, a))

            def act():
                W.stat("fault.cancelled_call")
                raise KeyboardInterrupt()
            rt.events("line")
            try:
                with Counter(at=k, action=act, budget=LINE_BUDGET):
                    o = W.call(c, img, op, a)
            finally:
                rt.events(None)
            W.record(i, "cancelled", op, a, k, o.key())
            continue
        if a.get("network") is not None and a["network"] not in gen.COINS[a.get("coin") or "Bitcoin"]["networks"]:
            W.stat("fault.unknown_network")
        o = W.call(c, img, op, a)
        W.stat("ops")
        e = W.model.expect(op, a)
        W.record(i, op, a, o.key())
        if a.get("_foreign"):
            W.stat("fault.artifact_of_another_network")
        W.states.add((op, a.get("coin"), a.get("inet"), a.get("network"), e.ok))
        W.stat("expect." + ("ok" if e.ok else e.kind))
        fs = facets(op, a, e, o)
        fs = [f for f in fs if f not in ("misreport",)]
        if fs:
            raise Violation("step %d: %s" % (i, describe(op, a, e, o)))
    tables(img)
    for (coin, inet, tag), o in img.inst.items():
        want = inet or "mainnet"
        if getattr(o, "network", want) != want:
            raise Violation("instance %s made for %s is now set to %s" % (coin, want, o.network))
    return W


def trace_point(W, rng, op, a):
    x, cc = rt.Image(W.opt), W.ctx()
    prewarm(x, [[op, a]], cc)
    rt.events("line")
    with Counter(record=True, budget=LINE_BUDGET) as cnt:
        W.call(cc, x, op, a)
    rt.events(None)
    return pick_location(rng, cnt.trace)


def tables(img):
    for coin, d in gen.COINS.items():
        cls = getattr(img.coins, coin, None)
        got = getattr(cls, "NETWORKS", None)
        want = {n: {"wif_prefix": w, "address_prefix": x} for n, (w, x) in d["networks"].items()}
        if got is None or {n: dict(v) for n, v in got.items()} != want:
            raise Violation("prefixes of %s are %r, documented %r" % (coin, got, want))
    al = getattr(img.coins.Ripple, "ALPHABET", None)
    if al != gen.COINS["Ripple"]["alphabet"]:
        raise Violation("Ripple's declared alphabet is %r" % (al,))


def ripple(W, img, c, a, alphabet):
    """Addresses of a coin that declares an alphabet of its own."""
    k = bytes.fromhex(a["key"])
    wif = ref.wif(k, a["comp"], 0x80)
    R = W.model.R
    want = R.encrypt(k, a["comp"], a["p"], 0, alphabet)
    o = W.call(c, img, "encrypt", dict(coin="Ripple", wif=wif, passphrase=a["p"]))
    if not (o.ok and o.value == want):
        if o.ok and o.value == R.encrypt(k, a["comp"], a["p"], 0):
            W.findings.append("ripple-alphabet")
        else:
            raise Violation("Ripple encrypt(%s): declared alphabet gives %s, %s" % (wif, want, o.show()))
    want = R.mint(a["code"], a["comp"], bytes.fromhex(a["seed"]), 0, alphabet)
    o = W.call(c, img, "mint", dict(coin="Ripple", code=a["code"], seed=a["seed"], wif_type="wif-compressed" if a["comp"] else "wif"))
    if not (o.ok and o.value == want):
        if o.ok and o.value == R.mint(a["code"], a["comp"], bytes.fromhex(a["seed"]), 0):
            W.findings.append("ripple-alphabet")
        else:
            raise Violation("Ripple mint: declared alphabet gives %r, %s" % (want, o.show()))
    W.stat("ripple")


# ------------------------------------------------------------------ C15 disclosure
def secret(rng):
    al = "abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"
    s = "".join(rng.choice(al) for _ in range(rng.randint(14, 24)))
    # plain, or in a spelling that some normalisation would change
    odd = rng.choice(["", "", "\u00e9\u00df\u4e2d", "e\u0301", "\U0001f511", " x", "\ufb01", "e\u0301\ufb01", "\uff21o\u0308",
                      "\u212b\u2460", "\u1112\u1161\u11ab\u3131", "\u0958", "\u200d\ufeff", "\u2075a\u0323\u0307", "\0x"])
    i = rng.randrange(len(s) + 1)
    return s[:i] + odd + s[i:]


def plan_leaks(seed, tier, idx):
    rng = random.Random("C15/%d" % seed)
    p = {"world": "leaks", "prop": "C15", "seed": seed, "kdf": rng.choice(["fast", "edge"]),
         "provider": rng.choice(["ok", "ok", "unlisted", "refused"])}
    g = OpGen(rng, p["kdf"])
    g.P.pp = [secret(rng) for _ in range(2)]
    g.P.keys = [rng.randrange(1 << 248, ref.N >> 1).to_bytes(32, "big").hex() for _ in range(2)]
    g.P.key = lambda: rng.choice(g.P.keys)          # no key that looks like a public constant
    g.A = [plans.artifacts(rng, g.P, g.M.R) for _ in range(2)]
    steps = []
    for _ in range(rng.choice([5, 8, 12])):
        r = rng.random()
        A = rng.choice(g.A)
        if r < 0.25:
            op, a = g.op(["bad"])
        elif r < 0.4:
            op, a = g.op(["wrong"])
            if "passphrase" in a:
                t = rng.choice(g.P.pp) if rng.random() < 0.5 else secret(rng)
                a["passphrase"] = rng.choice([secret(rng), t + rng.choice(sorted(gen.ODD)), rng.choice(sorted(gen.ODD)) + t,
                                              t.swapcase(), t.upper(), t + t, t[1:], t[:-1]])
        elif r < 0.5:
            op, a = g.op(["badnet", "other"])
        elif r < 0.62:       # refused inputs of every operation
            op, a = rng.choice([
                ("p2w", dict(key=A["key"] + "00", wif_type="wif")), ("p2w", dict(key=A["key"][:-2], wif_type="wif-compressed")),
                ("p2w", dict(key=A["key"], wif_type="wif-uncompressed")), ("p2w", dict(key=A["key"][:-2], wif_type="wif", form="bytes")),
                ("wenc", dict(key=A["key"] + "01", prefix=0x80)), ("wenc", dict(key=A["key"][2:], prefix=0x80, form="bytes")),
                ("code", dict(passphrase=A["p"], lot=5, sequence=1)), ("code", dict(passphrase=A["p"], lot=100000)),
                ("code", dict(passphrase=A["p"], salt="0011")), ("code", dict(passphrase=A["p"], lot=100000, sequence=5000)),
                ("code", dict(passphrase=A["p"], salt="00112233")),
                ("mint", dict(coin=A["coin"], code=A["code"], seed="00" * 23)), ("mint", dict(coin=A["coin"], code=A["code"], wif_type="x", seed="00" * 24)),
                ("encrypt", dict(coin="Bitcoin", wif=ref.wif(bytes(32), True, 0x80), passphrase=A["p"])),
                ("encrypt", dict(coin="Bitcoin", wif=ref.wif(b"\xff" * 32, True, 0x80), passphrase=A["p"])),
                ("encrypt", dict(coin="Bitcoin", wif=ref.b58cenc(b"\x80" + bytes.fromhex(A["key"])[:31]), passphrase=A["p"])),
                ("encrypt", dict(coin="Bitcoin", wif=ref.b58cenc(b"\x80" + bytes.fromhex(A["key"]) + b"\2"), passphrase=A["p"])),
                ("encrypt", dict(coin="Bitcoin", wif=ref.b58cenc(b"\x81" + bytes.fromhex(A["key"])), passphrase=A["p"])),
                ("w2p", dict(wif=ref.b58cenc(b"\x80" + bytes.fromhex(A["key"]) + b"\1\1"))), ("wtype", dict(wif=A["wif"][:-1])),
                ("wchk", dict(wif=A["wif"] + "\u00e9")), ("wdec", dict(wif=A["wif"], prefix=0x1234)), 
                ("decrypt", dict(coin=A["coin"], ewif=A["wif"], passphrase=A["p"])),
                ("decrypt", dict(coin=A["coin"], ewif=A["p"], passphrase=A["p"])), ("confirm", dict(coin=A["coin"], cfrm=A["wif"], passphrase=A["p"])),
                ("mint", dict(coin=A["coin"], code=A["wif"], seed="00" * 24)), ("encrypt", dict(coin=A["coin"], wif=A["key"], passphrase=A["p"])),
                ("encrypt", dict(coin=A["coin"], wif=A["p"], passphrase=A["wif"]))])
            a = dict(a)
            if rng.random() < 0.2:
                op, a = g.op(["code", "encrypt", "decrypt", "confirm", "mint", "wif"])
            if rng.random() < 0.35:          # arguments of the wrong type
                a["ptype"] = [rng.choice([k for k in ("passphrase", "wif", "code", "cfrm", "ewif", "key", "seed", "salt") if a.get(k) is not None]
                                         or ["passphrase"]), rng.choice(["bytes", "bytearray", "list", "tuple", "dict", "object", "words"])]
        else:
            op, a = g.op()
        f = None
        r = rng.random()
        if r < 0.25:
            f = {"how": "site", "exc": rng.getrandbits(16), "then": rng.choice(THEN)}
        elif r < 0.4:
            f = {"how": "line", "exc": rng.choice(["MemoryError", "KeyboardInterrupt", "TimeoutError"])}
        steps.append({"call": [op, a], "fault": f})
    p["steps"] = steps
    k, w = involved(steps, g.A, g.M)
    p["secrets"] = {"passphrases": sorted(set(g.P.pp + [s["call"][1].get("passphrase") for s in steps if s["call"][1].get("passphrase")])),
                    "keys": sorted({A["key"] for A in g.A} | set(g.P.keys) | set(k)),
                    "wifs": sorted({A["wif"] for A in g.A} | set(w))}
    return p


def involved(steps, arts, M):
    """Private keys and WIFs that the given calls handle, beyond those they are given literally."""
    keys, wifs = set(), set()
    for A in arts:
        for f in ("ewif", "ewif2"):
            try:
                d = M.R.decrypt(A[f], A["p"], A["wp"], A["ap"])
            except ref.Refuse:
                continue
            keys.add(d["private_key"])
            for net, (wp, ap) in gen.COINS[A["coin"]]["networks"].items():
                for c in (False, True):
                    wifs.add(ref.wif(bytes.fromhex(d["private_key"]), c, wp))
        try:                                 # the owner's factor is a private key too
            numbered, entropy, _, _ = M.R.parse_code(A["code"])
            keys.add(M.R.passfactor(A["p"], entropy, numbered).hex())
        except ref.Refuse:
            pass
    for s in steps:
        op, a = s["call"]
        if op == "encrypt":
            try:
                raw = ref.b58cdec(a["wif"])
                k = raw[1:33]
                if len(raw) in (33, 34) and 2 ** 248 < int.from_bytes(k, "big") < ref.N:
                    keys.add(k.hex())
                    wifs.add(a["wif"])
            except ref.Refuse:
                pass
    return sorted(keys), sorted(wifs)


def windows(t, n):
    return [t[i:i + n] for i in range(len(t) - n + 1)]


def needles(p):
    out = set()
    for s in p["secrets"]["passphrases"]:
        for f in sorted({s, unicodedata.normalize("NFC", s), unicodedata.normalize("NFD", s)}):
            if len(f) >= 8:
                out.update((x, "passphrase") for x in windows(f, 7))     # five letters may be part of a word
                out.update((x, "passphrase") for x in windows(f, 5) if not re.fullmatch("[ A-Za-z]?[a-z]+[ A-Z]?", x))
                b = f.encode("utf-8")
                for i in range(len(b) - 8):
                    out.update((x, "passphrase in another encoding") for x in coded(b[i:i + 9]))
    for k in p["secrets"]["keys"]:
        b = bytes.fromhex(k)
        for i in range(32 - 4):
            out.update((x, "private key") for x in coded(b[i:i + 9]))
            out.add((b[i:i + 4].hex(), "private key"))
            out.add((b[i:i + 4].hex().upper(), "private key"))
        out.add((str(int(k, 16))[:30], "private key"))
        out.add((str(int(k, 16))[-30:], "private key"))
        out.add((str(int.from_bytes(b, "little"))[:30], "private key"))
    for w in p["secrets"]["wifs"]:
        out.update((x, "WIF") for x in windows(w[2:], 8))
    # what is also in something public (a code begins with "passphrase") proves nothing
    public = "\n".join(str(s["call"][1].get(f)) for s in p["steps"] for f in ("code", "ewif", "cfrm", "address", "coin", "network", "inet"))
    public += "\npassphrase Passphrase PassphraseError"
    return sorted((n, w) for n, w in out if len(set(n)) > 3 and n not in public)


def coded(b):
    """Spellings of nine bytes of a secret: hexadecimal, base64, as Python shows them, numbers."""
    yield b[:6].hex()
    yield b[:6].hex().upper()
    yield base64.b64encode(b).decode()
    yield base64.urlsafe_b64encode(b).decode()
    yield repr(b)[2:-1]
    yield ", ".join(map(str, b[:6]))


class Cap(io.TextIOBase):
    def __init__(self, log):
        self.log = log

    def writable(self):
        return True

    def write(self, s):
        self.log.append(s if isinstance(s, str) else repr(s))
        return len(s)

    def fileno(self):
        raise OSError("captured")

    @property
    def buffer(self):
        c = self

        class B:
            def write(self, b):
                c.log.append(repr(b))
                return len(b)

            def flush(self):
                pass
        return B()


class Descriptors:
    """What reaches file descriptors 1 and 2 below Python's streams."""

    def __init__(self):
        self.keep = [(fd, os.dup(fd)) for fd in (1, 2)]
        self.mem = os.memfd_create("out")
        for fd, _ in self.keep:
            os.dup2(self.mem, fd)

    def close(self):
        for fd, k in self.keep:
            os.dup2(k, fd)
            os.close(k)
        n = os.fstat(self.mem).st_size
        data = os.pread(self.mem, 200, 0)
        os.close(self.mem)
        return ["on a file descriptor: %r" % data] if n else []


class _LogCap(logging.Handler):
    def __init__(self, log):
        logging.Handler.__init__(self, 0)
        self.out = log

    def emit(self, r):
        self.out.append("log: " + r.getMessage())


_AUDIT = {"on": None}


def _audit(ev, args):
    log = _AUDIT["on"]
    if log is None:
        return
    if ev == "open":
        mode = args[1]
        flags = args[2] if len(args) > 2 and isinstance(args[2], int) else 0
        if (isinstance(mode, str) and any(c in mode for c in "wax+")) or flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            log.append("file opened for writing: %r" % (args[0],))
    elif ev in ("os.mkdir", "os.rename", "os.truncate", "subprocess.Popen", "os.system", "socket.connect", "os.putenv",
                "shutil.copyfile", "sqlite3.connect", "syslog.syslog", "socket.sendto", "os.link", "os.symlink"):
        log.append("%s%r" % (ev, args[:2]))


_audit_set = False


def arm_audit():
    global _audit_set
    if not _audit_set:
        sys.addaudithook(_audit)
        _audit_set = True


def run_leaks(p):
    W = World(p)
    rng = random.Random("leak/%d" % p["seed"])
    rt.begin_run()
    arm_audit()
    nd = needles(p)
    img, c = rt.Image(W.opt), W.ctx(p["provider"])
    prof = {}
    for i, s in enumerate(p["steps"]):
        op, a = s["call"]
        f = s["fault"]
        hit = []
        k = None
        act = None
        if f is not None:
            def profile():
                x, cc = rt.Image(W.opt), W.ctx(p["provider"])
                sites = []
                cc.on_site = lambda n, fa: sites.append(n) if fa else None
                rt.events("line")
                with Counter(record=True, budget=LINE_BUDGET) as cnt:
                    W.call(cc, x, op, a)
                rt.events(None)
                if f["how"] == "site":
                    if not sites:
                        return None
                    name = rng.choice(sorted(set(sites)))
                    js = [j for j, z in enumerate(sites) if z == name]
                    return [rng.choice(js), SITE_EXC.get(name, ["MemoryError"])[f["exc"] % len(SITE_EXC.get(name, [0]))]]
                return [pick_location(rng, cnt.trace), f["exc"]] if cnt.trace else None
            k = W.res("f%d" % s.get("n", i), profile)
        out = []
        so, se, sh = sys.stdout, sys.stderr, warnings.showwarning
        so2, se2 = sys.__stdout__, sys.__stderr__
        lc = _LogCap(out)
        root = logging.getLogger()
        lvl = root.level
        keep = rt.CALL_BUDGET
        if k is not None and f["how"] == "site":
            c.on_site = striker(W, k[0], k[1], hit, f.get("then"))
        try:
            sys.stdout, sys.stderr = Cap(out), Cap(out)
            sys.__stdout__, sys.__stderr__ = Cap(out), Cap(out)
            fds = Descriptors()
            root.addHandler(lc)
            root.setLevel(1)
            with warnings.catch_warnings():
                warnings.simplefilter("always")
                warnings.showwarning = lambda *x, **y: out.append("warning: %s" % (x[0],))
                _AUDIT["on"] = out
                if k is not None and f["how"] == "line":
                    def act():
                        hit.append("line")
                        raise EXC[k[1]]()
                    rt.events("line")
                    with Counter(at=k[0], action=act, budget=LINE_BUDGET):
                        o = W.call(c, img, op, a)
                else:
                    o = W.call(c, img, op, a)
                _AUDIT["on"] = None
        finally:
            _AUDIT["on"] = None
            rt.events(None)
            c.on_site = None
            rt.CALL_BUDGET = keep
            sys.stdout, sys.stderr = so, se
            sys.__stdout__, sys.__stderr__ = so2, se2
            out += fds.close()
            root.removeHandler(lc)
            root.setLevel(lvl)
        W.stat("ops")
        if hit:
            W.stat("fault.%s_%s" % (hit[0], k[1]))
        W.record(i, op, k, hit, o.key(), out)
        W.states.add((op, o.cls, hit[0] if hit else None))
        what = "step %d %s(%s)" % (i, op, ascii({x: y for x, y in a.items() if y is not None}))
        if out:
            raise Violation("%s wrote something: %r" % (what, out[:3]))
        if not o.ok:
            W.stat("errors_examined")
            texts = []
            e, n = o.exc, 0
            try:
                texts.append(repr(e))
            except Exception as x:
                texts.append("")
            texts += [repr(z) for z in getattr(e, "__notes__", [])]
            while e is not None and n < 8:
                try:
                    texts.append(str(e))
                except Exception:
                    raise Violation("%s: the error raised has no text" % what)
                e = e.__cause__ or (None if e.__suppress_context__ else e.__context__)
                n += 1
            for t in texts:
                for z, kind in nd:
                    if z in t or (z.isascii() is False and ascii(z)[1:-1] in t):
                        raise Violation("%s: the text of %s discloses the %s: %r" % (what, o.cls, kind, t[:300]))
    return W
