"""Which world decides which property, what counts as its violation, and how one run executes."""
import copy
import hashlib
import json
import random
import re
import signal

import rt
import ref
import gen
import plans
import worlds
import objects
import guest
import endure
import jobs as J
from fleet import Fleet
from model import Model, Violation, Harness, facets, describe, RECORD_OPS
from sched import Budget

FLEET = ("C01", "C02", "C03", "C04", "C05", "C06", "C11", "C13", "C14")
WORLDS = {"C07": (worlds.plan_threads, worlds.run_threads), "C08": (worlds.plan_entropy, worlds.run_entropy),
          "C09": (worlds.plan_faults, worlds.run_faults), "C10": (worlds.plan_provider, worlds.run_provider),
          "C12": (worlds.plan_coins, worlds.run_coins), "C15": (worlds.plan_leaks, worlds.run_leaks),
          "C16": (objects.plan_objects, objects.run_objects), "C17": (guest.plan_guest, guest.run_guest),
          "C18": (endure.plan_endure, endure.run_endure)}
PROPS = sorted(FLEET + tuple(WORLDS))

# runs per quick check: about a minute on eight cores
RUNS = {"C01": 4000, "C02": 2500, "C03": 3200, "C04": 2000, "C05": 2200, "C06": 3000, "C07": 7000, "C08": 6000,
        "C09": 4500, "C10": 5000, "C11": 4000, "C12": 3200, "C13": 1600, "C14": 5000, "C15": 5000, "C16": 12000, "C17": 4000, "C18": 280}


def run_seed(master, prop, idx):
    return int.from_bytes(rt.REAL.sha256(b"%d|%s|%d" % (master, prop.encode(), idx)).digest()[:6], "big")


def make(prop, master, tier, idx):
    seed = run_seed(master, prop, idx)
    if prop in WORLDS:
        p = WORLDS[prop][0](seed, tier, idx)
        p["opt"] = random.Random("optimized/%d" % seed).choice([0] * 6 + [1, 1, 2])      # python, python -O, python -OO
    else:
        p = plans.plan(prop, seed, tier, idx)
    p["idx"] = idx
    for n, s in enumerate(p.get("steps", ())):
        if isinstance(s, dict):
            s["n"] = n          # choices resolved while running are filed under this
    # what a replay reads back from its file
    return json.loads(json.dumps(p))


# ------------------------------------------------------------------ what each property calls a violation
def is_ec(text):
    return isinstance(text, str) and text.startswith("6Pf") or isinstance(text, str) and text.startswith("6Pn")


OPENERS = ("confirm", "decrypt")
READERS = ("encrypt", "mint", "confirm", "decrypt", "w2p", "wtype", "wchk", "wdec")


def judge_c01(F, op, a, e, o, fs):
    if op == "encrypt" and "lost" in fs:
        return describe(op, a, e, o)
    if op == "decrypt" and e.ok and not is_ec(a["ewif"]):
        return describe(op, a, e, o)


def judge_c02(F, op, a, e, o, fs):
    if op in ("code", "mint") and "lost" in fs or op == "mint" and e.kind == "arg":
        return describe(op, a, e, o)
    if (op == "confirm" or op == "decrypt" and is_ec(a["ewif"])) and e.ok and ("lost" in fs or "value" in fs):
        return describe(op, a, e, o)


def judge_c03(F, op, a, e, o, fs):
    if "number" in fs:
        return describe(op, a, e, o)
    if op == "code" and (e.kind == "arg" or "lost" in fs and a.get("lot") is not None):
        return describe(op, a, e, o)
    if op in OPENERS and "lost" in fs and (op == "confirm" or is_ec(a["ewif"])):
        return describe(op, a, e, o)


def judge_c04(F, op, a, e, o, fs):
    if op not in READERS or a.get("_forged"):
        return None
    if e.kind == "bad" or "accept:pass" in fs:
        return describe(op, a, e, o)
    if e.ok and ("lost" in fs or "value" in fs) and op != "code":
        return describe(op, a, e, o)


def judge_c05(F, op, a, e, o, fs):
    if op in OPENERS and (e.ok or e.kind == "pass"):
        return describe(op, a, e, o)


def judge_c06(F, op, a, e, o, fs):
    if "lost" in fs or "accept:pass" in fs:
        return describe(op, a, e, o)
    if op in OPENERS + ("code", "encrypt") and e.ok:
        return describe(op, a, e, o)


def judge_c11(F, op, a, e, o, fs):
    if e.ok or any(f.startswith("accept:") for f in fs):
        return describe(op, a, e, o)


def judge_c13(F, op, a, e, o, fs):
    return None


def judge_c14(F, op, a, e, o, fs):
    if op in RECORD_OPS:
        return describe(op, a, e, o)


JUDGE = {"C01": judge_c01, "C02": judge_c02, "C03": judge_c03, "C04": judge_c04, "C05": judge_c05, "C06": judge_c06,
         "C11": judge_c11, "C13": judge_c13, "C14": judge_c14}


def forged(F, op, a, o):
    """An artifact with altered content and a good checksum may be refused, or open to the same key; no other."""
    if not o.ok:
        return None
    f = "cfrm" if op == "confirm" else "ewif"
    b = {k: v for k, v in a.items() if k != "_forged"}
    b[f] = a["_forged"]
    e = F.model.expect(op, b)
    if not e.ok:
        return None
    if isinstance(e.value, dict):
        if isinstance(o.value, dict) and all(o.value.get(k) == e.value.get(k) for k in ("wif", "private_key", "address")
                                             if k in e.value):
            return None
    elif o.value == e.value:
        return None
    return "%s of %s, altered from %s, yields %r; the intact artifact holds %r" % (op, a[f], a["_forged"], o.value, e.value)


class CheckFleet(Fleet):
    def check(self, h, op, a, o):
        if a.get("_forged"):
            self.stat("forged." + ("opened" if o.ok else "refused"))
            m = forged(self, op, a, o)
            if m:
                raise Violation(m, op=op)
            return
        Fleet.check(self, h, op, a, o)


def run_fleet(p):
    F = CheckFleet(p, JUDGE[p["prop"]])
    if p["prop"] == "C11" and p["kdf"] == "real":
        for h in F.hosts:
            h.ctx.kdf_genuine = True
    F.findings = []
    F.resolved = {}
    jobs = copy.deepcopy(p["jobs"])
    try:
        F.run([(j["start"], J.KINDS[j["kind"]](F, j)) for j in jobs])
    except BaseException as e:
        e.world = F
        raise
    return F


# ------------------------------------------------------------------ one run
class Alarm(rt.SimAbort):
    pass


def _alarm(*_):
    raise Alarm("wall clock")


def vclass(msg):
    """Violation class: the message without its literals."""
    s = re.sub(r"\(.*?\)|'[^']*'|\"[^\"]*\"|\{.*|0x[0-9a-f]+|\d+", "", msg)
    return " ".join(s.split())[:50]


def execute(p, wall=120):
    """Execute one plan.  Returns a dict: verdict in ok|violation|harness|timeout, plus what happened."""
    out = _execute(p, wall, None)
    if out["verdict"] == "timeout":
        # decide a hang by counting lines, not by the clock
        o2 = _execute(p, wall * 3, worlds.LINE_BUDGET)
        if o2["verdict"] != "timeout":
            return o2
    return out


def _execute(p, wall, budget):
    prop = p["prop"]
    W = None
    verdict, msg = "ok", ""
    p = copy.deepcopy(p)
    rt.CALL_BUDGET = budget
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, wall, 5)
    try:
        if prop in WORLDS:
            w = WORLDS[prop][1]
            try:
                W = w(p)
            except BaseException as e:
                W = getattr(e, "world", None) or worlds.LAST[0]
                raise
        else:
            W = run_fleet(p)
    except Violation as e:
        verdict, msg = "violation", e.msg
        W = getattr(e, "world", W)
    except Alarm:
        verdict, msg = "timeout", "run exceeded %d s" % wall
    except rt.SimAbort as e:
        verdict, msg = "violation", "a call never returns: %s" % e
        W = getattr(e, "world", W)
    except Harness as e:
        verdict, msg = "harness", str(e)
    except RecursionError as e:
        verdict, msg = "harness", "RecursionError %s" % e
    except Exception as e:
        import traceback
        verdict, msg = "harness", traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        rt.CALL_BUDGET = None
        rt.install(None)
        rt.HOOK = None
        rt.events(None)
    out = {"verdict": verdict, "msg": msg, "class": vclass(msg) if msg else "", "stats": {}, "digest": "", "states": [],
           "trail": [], "sim": 0.0, "findings": [], "first": {}}
    if W is not None:
        h = W.hist.copy()
        h.update(msg.encode("utf-8", "backslashreplace"))
        out.update(stats=W.stats, digest=h.hexdigest(), trail=list(W.trail), findings=sorted(set(W.findings)),
                   sim=W.simtime())
        out["states"] = sorted({short(s) for s in W.states})
        if prop == "C13":
            out["first"] = {short(k): [short(v[0]), v[0]] for k, v in W.first.items()}
            out["keys"] = {short(k): k for k in W.first}
        out["fired"], out["resolved"] = W.fired, W.resolved
    return out


def short(x):
    return rt.REAL.sha256(repr(x).encode("utf-8", "backslashreplace")).hexdigest()[:12]


def pinned(p, out):
    """The plan with every choice that was made while it ran written into it."""
    q = copy.deepcopy(p)
    if q["world"] == "fleet":
        q["faults"] = {"fired": out.get("fired", {})}
    else:
        q["resolved"] = out.get("resolved", {})
    return json.loads(json.dumps(q))


# ------------------------------------------------------------------ shrinking
def _lists(p):
    """Paths of the lists whose elements may be dropped one by one."""
    out = []
    if p["world"] == "fleet":
        out.append(("jobs",))
        for i, j in enumerate(p["jobs"]):
            for k in ("opens", "reqs", "steps", "copies"):
                if k in j:
                    out.append(("jobs", i, k))
                    for n, c in enumerate(j[k]):
                        for m in ("steps", "readers", "foreign"):
                            if isinstance(c, dict) and m in c:
                                out.append(("jobs", i, k, n, m))
        out += [("crashes",), ("parts",)]
    elif p["world"] in ("threads", "objects"):
        out += [("warm",) if p["world"] == "threads" else ("steps",)] + [("threads", t) for t in range(len(p["threads"]))]
        if "schedule" in p.get("resolved", {}):
            out.append(("resolved", "schedule"))
    elif p["world"] == "entropy":
        if p["mode"] != "fail":
            out.append(("calls",))
    else:
        out.append(("steps",))
    return out


def _get(p, path):
    for k in path:
        p = p[k]
    return p


def _simpler(p):
    """Single simplifications of the plan, boldest first."""
    if p.get("opt"):
        q = copy.deepcopy(p)
        q["opt"] = 0
        yield q
    if p["world"] == "fleet":
        for i, h in enumerate(p["hosts"]):
            if h.get("skew") or h.get("opt") or h.get("provider") != "ok":
                q = copy.deepcopy(p)
                q["hosts"][i].update(skew=0.0, opt=0, provider="ok")
                yield q
        for i, j in enumerate(p["jobs"]):
            for k in ("opens", "reqs"):
                for n, x in enumerate(j.get(k, [])):
                    if x.get("gap"):
                        q = copy.deepcopy(p)
                        q["jobs"][i][k][n]["gap"] = 0
                        yield q
    if p["world"] in ("threads", "objects") and p.get("resolved", {}).get("schedule"):
        s = p["resolved"]["schedule"]
        for i in range(len(s)):
            for v in (1, s[i][1] // 2, s[i][1] - 1):
                if 0 < v < s[i][1]:
                    q = copy.deepcopy(p)
                    q["resolved"]["schedule"][i][1] = v
                    yield q
    if p["world"] in ("faults", "leaks", "provider", "objects", "guest", "endure"):
        for i, s in enumerate(p["steps"]):
            k = "flip" if p["world"] == "provider" else "fault"
            if s.get(k) is not None:
                q = copy.deepcopy(p)
                q["steps"][i][k] = None
                yield q
    if p.get("provider") not in (None, "ok"):
        q = copy.deepcopy(p)
        q["provider"] = "ok"
        yield q
    if p.get("kdf") == "edge":
        q = copy.deepcopy(p)
        q["kdf"] = "fast"
        yield q


def shrink(p, cls, seconds):
    """Greedy delta debugging: drop list chunks, fired faults, then simplify; same violation class."""
    end = rt.REAL.monotonic() + seconds
    tried = [0]
    seen = set()

    def bad(q):
        if rt.REAL.monotonic() > end:
            return False
        k = short(json.dumps(q, sort_keys=True))
        if k in seen:
            return False
        seen.add(k)
        tried[0] += 1
        try:
            o = execute(q, 60)
        except BaseException:
            return False
        return o["verdict"] == "violation" and o["class"] == cls
    progress = True
    while progress and rt.REAL.monotonic() < end:
        progress = False
        for path in _lists(p):
            try:
                l = _get(p, path)
            except (KeyError, IndexError):
                continue
            n = len(l)
            c = max(1, n // 2)
            while c >= 1 and rt.REAL.monotonic() < end:
                i = 0
                while i < len(_get(p, path)):
                    l = _get(p, path)
                    q = copy.deepcopy(p)
                    del _get(q, path)[i:i + c]
                    if len(l) > 0 and bad(q):
                        p = q
                        progress = True
                    else:
                        i += c
                c //= 2
        if p["world"] == "fleet":
            f = p["faults"]["fired"]
            keys = sorted(f)
            c = max(1, len(keys))
            while c >= 1 and keys:
                i = 0
                while i < len(keys):
                    q = copy.deepcopy(p)
                    for k in keys[i:i + c]:
                        q["faults"]["fired"].pop(k, None)
                    if q["faults"]["fired"] != p["faults"]["fired"] and bad(q):
                        p = q
                        keys = sorted(p["faults"]["fired"])
                        progress = True
                    else:
                        i += c
                c //= 2
        again = True
        while again and rt.REAL.monotonic() < end:
            again = False
            for q in _simpler(p):
                if bad(q):
                    p, again, progress = q, True, True
                    break
    return p, tried[0]
