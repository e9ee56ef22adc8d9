"""Driver: `check <property>`, `replay <file>`, `selftest`, and the worker and shrinker processes it starts."""
import json
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
NWORK = 8
WALL = {"quick": 360, "thorough": 660}      # no new run starts after this many seconds
_monotonic = time.monotonic


def pyenv(hashseed, scratch):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "LC_ALL", "VERIF_REPO", "VERIF_SEED", "VERIF_TIER")}
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, HOME=scratch, TMPDIR=scratch,
             PYTHONUTF8="1")
    return e


def fixed_addresses():
    """Objects get the same addresses in every process, so that whatever depends on id() replays."""
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def spawn(args, hashseed, scratch, **kw):
    kw.setdefault("preexec_fn", fixed_addresses)
    return subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "main.py")] + args,
                            env=pyenv(hashseed, scratch), cwd=scratch, stdin=subprocess.DEVNULL, **kw)


def quiet_stdout():
    """Keep the real stdout for the protocol; whatever else prints goes nowhere."""
    fd = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    return os.fdopen(fd, "w", encoding="utf-8", errors="backslashreplace")


# ------------------------------------------------------------------ worker
def order(w, total, stride, rerun):
    """What a worker runs, in order."""
    other = list(range((w + 1) % stride, total, stride))
    if rerun >= 0:
        other = other[:rerun] + other[len(other) // 2:len(other) // 2 + rerun]
    return [(i, False) for i in range(w, total, stride)] + [(i, True) for i in other]


def repins(prop, p, idx):
    return p.get("kdf") != "real" and (prop != "C13" or idx % 64 < 8)


def worker(prop, tier, master, w, total, stride, hashseed, rerun):
    """Runs idx = w, w+stride, ...; with rerun, also a sample of the next worker's."""
    out = quiet_stdout()
    import checks
    t0 = _monotonic()

    def one(idx, again):
        p = checks.make(prop, master, tier, idx)
        o = checks.execute(p)
        m = {"idx": idx, "again": again, "v": o["verdict"], "d": o["digest"], "s": o["stats"], "st": o["states"][:400],
             "sim": o["sim"], "f": o["findings"], "first": o["first"], "kdf": p.get("kdf"), "w": w}
        if again and repins(prop, p, idx):         # what a replay file would hold gives the same history
            m["pin"] = checks.execute(checks.pinned(p, o))["digest"] == o["digest"]
        if o["verdict"] != "ok":
            m.update(msg=o["msg"], cls=o["class"], trail=o["trail"], plan=checks.pinned(p, o), hashseed=hashseed)
        out.write(json.dumps(m) + "\n")
        out.flush()
        return o["verdict"]
    for idx, again in order(w, total, stride, rerun):
        if _monotonic() - t0 > WALL[tier]:
            break
        if one(idx, again) == "violation":
            break
    out.write(json.dumps({"end": w}) + "\n")
    out.flush()
    os._exit(0)


# ------------------------------------------------------------------ shrink and replay
def shrink_main(src, dst, seconds):
    import checks
    r = json.load(open(src))
    small, tried = checks.shrink(r["plan"], r["class"], float(seconds))
    o = checks.execute(small)
    if o["verdict"] != "violation":
        small = r["plan"]
        o = checks.execute(small)
    if o["verdict"] != "violation":          # not on its own: the parent tries what the worker saw
        os._exit(3)
    small = checks.pinned(small, o)
    r.update(plan=small, message=o["msg"], digest=o["digest"], trail=o["trail"], shrink_tried=tried,
             **{"class": o["class"], "fault_stats": o["stats"]})
    json.dump(r, open(dst, "w"), indent=1, sort_keys=True)
    os._exit(0)


def hashpair(r):
    """A request answered differently by processes with different hash seeds."""
    got = []
    for hs in r["hashseeds"]:
        sc = tempfile.mkdtemp(prefix="bip38sim-")
        try:
            pr = spawn(["first", r["_path"]], hs, sc, stdout=subprocess.PIPE)
            got.append(json.loads(pr.communicate()[0]))
        finally:
            shutil.rmtree(sc, ignore_errors=True)
    both = [k for k in got[0] if k in got[1] and got[0][k] != got[1][k]]
    return ["%s answered %r under hash seed %s and %r under %s" % (k, got[0][k], r["hashseeds"][0], got[1][k], r["hashseeds"][1])
            for k in sorted(both)]


def first_main(path):
    out = quiet_stdout()
    import checks
    r = json.load(open(path))
    o = checks.execute(r["plan"])
    keys = o.get("keys", {})
    out.write(json.dumps({keys[k]: v[1] for k, v in o["first"].items()}))
    out.flush()
    os._exit(0)


def replay_main(path):
    path = os.path.abspath(path)
    r = json.load(open(path))
    if r.get("hashseeds"):
        r["_path"] = path
        d = hashpair(r)
        if d:
            print("reproduced: " + d[0])
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        print("not reproduced")
        return 0
    if os.environ.get("PYTHONHASHSEED") != str(r["hashseed"]) or os.environ.get("PYTHONPATH") != HERE:
        sc = tempfile.mkdtemp(prefix="bip38sim-")
        try:
            return spawn(["replay", path], r["hashseed"], sc).wait()
        finally:
            shutil.rmtree(sc, ignore_errors=True)
    import checks
    for i, again in r.get("earlier", {}).get("runs", []):
        p = checks.make(r["property"], r["seed"], r["earlier"]["tier"], i)
        o = checks.execute(p)
        if again and repins(r["property"], p, i):
            checks.execute(checks.pinned(p, o))
    o = checks.execute(r["plan"])
    for t in o["trail"][-20:]:
        print("  " + t)
    print("verdict: %s  %s" % (o["verdict"], o["msg"]))
    same = o["digest"] == r.get("digest")
    print("digest %s (%s)" % (o["digest"], "as recorded" if same else "recorded: %s" % r.get("digest")))
    if o["verdict"] == "violation":
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        sys.stdout.flush()
        return 1 if same or not r.get("digest") else 1
    return 0 if o["verdict"] == "ok" else 2


# ------------------------------------------------------------------ parent
def findings():
    out = {}
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l.split()[1:3])
                out[(d["property"], d["id"])] = l.split(None, 3)[3].strip()
    except OSError:
        pass
    return out


REAL_CODE = ["bip38 (every module, loaded from the working tree)", "pyaes", "ecdsa", "six", "unicodedata",
             "Python threads under the simulator's scheduler", "fork(2) for process clones (C08)"]
STUBS = ["key derivation: a seeded stand-in with scrypt's passphrase equivalences in 'fast'/'edge' runs; scrypt itself in 'real' runs",
         "OS entropy (os.urandom, os.getrandom, random._urandom): seeded stream per simulated boot",
         "hashlib's ripemd160 provider: simulated host states ok/unlisted/refused",
         "clocks, datetime, getpid, locks: simulated", "network, disks, hosts of the fleet: simulated",
         "'peer' hosts (C11): the independent reference implementation sim/ref.py"]


def check(prop, tier, master):
    t0 = _monotonic()
    import checks
    total = checks.RUNS[prop] * (1 if tier == "quick" else 12)
    if os.environ.get("VERIF_RUNS"):
        total = int(os.environ["VERIF_RUNS"])
    rerun = -1 if prop == "C13" and tier == "quick" else (4 if tier == "quick" else 12)
    scratch = tempfile.mkdtemp(prefix="bip38sim-")
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    procs, bufs, last, ended = {}, {}, {}, set()
    rows, again, bad, harness = {}, {}, [], []
    try:
        for w in range(NWORK):
            hs = (master * 8 + w) % 4294967295
            pr = spawn(["worker", prop, tier, str(master), str(w), str(total), str(NWORK), str(hs), str(rerun)], hs, scratch,
                       stdout=subprocess.PIPE, stderr=open(os.path.join(scratch, "err%d" % w), "wb"))
            procs[pr.stdout.fileno()] = (w, pr)
            bufs[pr.stdout.fileno()] = b""
            last[w] = -1
        live = set(procs)
        hardend = t0 + WALL[tier] + 180
        while live:
            r, _, _ = select.select(list(live), [], [], 5.0)
            for fd in r:
                d = os.read(fd, 1 << 16)
                w, pr = procs[fd]
                if not d:
                    live.discard(fd)
                    pr.wait()
                    if w not in ended:
                        harness.append("worker %d died (status %s): %s" % (
                            w, pr.returncode, open(os.path.join(scratch, "err%d" % w), errors="replace").read()[-600:]))
                    continue
                bufs[fd] += d
                while b"\n" in bufs[fd]:
                    line, bufs[fd] = bufs[fd].split(b"\n", 1)
                    m = json.loads(line)
                    if "end" in m:
                        ended.add(m["end"])
                        continue
                    last[w] = m["idx"]
                    if m["v"] == "violation":
                        bad.append(m)
                    elif m["v"] != "ok":
                        harness.append("run %d: %s: %s" % (m["idx"], m["v"], m["msg"]))
                    (again if m["again"] else rows)[m["idx"]] = m
            if bad:             # let runs with a lower index finish, so that the same one is always reported
                lo = min(m["idx"] for m in bad)
                for fd in list(live):
                    w, pr = procs[fd]
                    if last[w] >= lo or w in ended:
                        pr.kill()
                        live.discard(fd)
                        pr.wait()
                        ended.add(w)
            if _monotonic() > hardend:
                for fd in live:
                    procs[fd][1].kill()
                harness.append("wall clock: workers killed")
                break
    finally:
        for w, pr in procs.values():
            if pr.poll() is None:
                pr.kill()
                pr.wait()
    t_runs = _monotonic() - t0
    code = 0
    viol = None
    mism = [i for i in again if i in rows and again[i]["d"] != rows[i]["d"] and again[i]["v"] == rows[i]["v"] == "ok"]
    try:
        if not bad and prop == "C13":
            for i in sorted(mism):
                a, b = rows[i]["first"], again[i]["first"]
                if any(k in b and b[k][0] != a[k][0] for k in a):
                    bad.append({"idx": i, "pair": [rows[i]["w"], again[i]["w"]]})
                    break
        if bad:
            bad.sort(key=lambda x: x["idx"])
            late = t0 + (600 if tier == "quick" else 3000)
            for m in bad[:3]:
                if _monotonic() < late:
                    viol = report(prop, tier, master, m, scratch)
                if viol is not None:
                    break
            for far in (200, 10 ** 6):          # it needs what earlier runs left behind in the process
                if viol is None and _monotonic() < late and "pair" not in bad[0]:
                    m, runs = bad[0], order(bad[0]["w"], total, NWORK, rerun)
                    viol = report(prop, tier, master, dict(m, earlier=runs[:runs.index((m["idx"], m["again"]))][-far:]), scratch)
            if viol is None:
                viol = unsteady(prop, tier, master, bad[0])
            code = 1
        known = findings()
        seen = sorted({f for m in rows.values() for f in m["f"]})
        for f in seen:
            if (prop, f) in known:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, f, known[(prop, f)]))
            elif code == 0:
                m = min((m for m in rows.values() if f in m["f"]), key=lambda x: x["idx"])
                path = os.path.join(ROOT, "replays", "%s-%s.json" % (prop, f))
                json.dump({"property": prop, "finding": f, "plan": checks.make(prop, master, tier, m["idx"]), "hashseed": 0,
                           "seed": master}, open(path, "w"), indent=1)
                print("unlisted finding %s" % f)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                code = 1
        if code == 0 and harness:
            code = 2
        for h in harness[:5]:
            print("HARNESS-ERROR %s" % h, file=sys.stderr)
        evidence(prop, tier, master, total, rows, again, mism, bad if code == 1 else [], viol, t_runs, _monotonic() - t0, checks, seen)
        n = len(rows)
        print("%s %s: %d runs in %.1f s, %s" % (prop, tier, n, t_runs, {0: "held on everything explored", 1: "violated", 2: "harness error"}[code]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def report(prop, tier, master, m, scratch):
    path = os.path.join(ROOT, "replays", "%s-%s-%d-%d.json" % (prop, tier, master, m["idx"]))
    import checks
    if "pair" in m:
        plan = checks.make(prop, master, tier, m["idx"])
        r = {"property": prop, "seed": master, "idx": m["idx"], "plan": plan, "hashseeds": [(master * 8 + w) % 4294967295 for w in m["pair"]],
             "class": "hashseed", "message": "answers depend on the process's hash seed"}
        json.dump(r, open(path, "w"), indent=1, sort_keys=True)
        r["_path"] = path
        d = hashpair(r)
        if not d:
            return None
        print("violation: " + d[0][:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return {"message": d[0][:600], "path": path}
    r = {"property": prop, "seed": master, "idx": m["idx"], "plan": m["plan"], "hashseed": m["hashseed"], "class": m["cls"],
         "message": m["msg"], "digest": None, "trail": m["trail"]}
    raw = os.path.join(scratch, "raw.json")
    small = os.path.join(scratch, "small.json")
    cap = 60 if tier == "quick" else 240
    if m.get("earlier"):
        r["earlier"] = {"tier": tier, "runs": m["earlier"]}
    json.dump(r, open(raw, "w"))
    try:
        if m.get("earlier"):
            raise subprocess.TimeoutExpired("", 0)
        spawn(["shrink", raw, small, str(cap)], m["hashseed"], scratch, stdout=subprocess.DEVNULL,
              stderr=subprocess.DEVNULL).wait(timeout=cap + 200)
    except subprocess.TimeoutExpired:
        pass
    for cand in (small, raw):
        if not os.path.exists(cand):
            continue
        try:
            shutil.copyfile(cand, path)
            pr = spawn(["replay", path], m["hashseed"], scratch, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            outp, _ = pr.communicate(timeout=400)
        except subprocess.TimeoutExpired:
            pr.kill()
            continue
        if pr.returncode == 1:
            rr = json.load(open(path))
            print("violation (run %d): %s" % (m["idx"], rr["message"][:900]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return {"message": rr["message"][:900], "path": path}
    return None


def unsteady(prop, tier, master, m):
    """The violation was seen but did not come again: it hangs on something outside the simulator's reach."""
    path = os.path.join(ROOT, "replays", "%s-%s-%d-%d.json" % (prop, tier, master, m["idx"]))
    import checks
    msg = m.get("msg") or "answers depend on the process"
    json.dump({"property": prop, "seed": master, "idx": m["idx"], "plan": m.get("plan") or checks.make(prop, master, tier, m["idx"]),
               "hashseed": m.get("hashseed", 0), "class": m.get("cls"), "message": msg, "digest": None, "trail": m.get("trail", []),
               "unsteady": True}, open(path, "w"), indent=1, sort_keys=True)
    print("violation (run %d, seen once, not on replay): %s" % (m["idx"], msg[:900]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return {"message": msg[:900], "path": path}


RULES = {
    "fleet": "a run is a seeded fleet history (hosts, protocol jobs, message/disk/crash faults) executed on the real library; "
             "non-trivial if it executed and judged at least two library operations; distinct by the digest of its full event history",
    "threads": "a run is a set of calls executed by threads under one seeded schedule (or one re-entry point) and compared with serial "
               "answers; non-trivial if at least one preemption or re-entry happened; distinct by digest of answers and switch locations",
    "other": "a run is a seeded sequence of calls with resolved faults or host changes at chosen lines and dependency calls; non-trivial "
             "if it judged at least two operations or fired a fault; distinct by the digest of its full history"}


def evidence(prop, tier, master, total, rows, again, mism, bad, viol, t_runs, wall, checks, seen):
    stats, states, digests, sim, nontriv = {}, set(), set(), 0.0, 0
    kdf = {}
    for m in rows.values():
        for k, v in m["s"].items():
            stats[k] = stats.get(k, 0) + v
        states.update(m["st"])
        sim += m["sim"]
        kdf[m["kdf"]] = kdf.get(m["kdf"], 0) + 1
        ops = m["s"].get("ops", 0)
        fl = any(k.startswith("fault.") for k in m["s"])
        if (ops >= 2 or fl) and (m["d"], tuple(m["st"])) not in digests:
            nontriv += 1
        digests.add((m["d"], tuple(m["st"])))
    idxs = sorted(rows)[:3]
    samples = []
    for i in idxs[:2] + sorted(rows)[-1:]:
        p = checks.make(prop, master, tier, i)
        s = json.dumps(p, sort_keys=True)
        samples.append({"idx": i, "run_seed": p["seed"], "plan": p if len(s) < 6000 else s[:6000] + "..."})
    n = len(rows)
    ev = {
        "property": prop, "tier": tier, "seed": master, "level": "exploration", "wall_s": round(wall, 2), "violations": len(bad[:1]) if bad or viol else 0,
        "coverage": {
            "evaluations": n, "distinct_nontrivial": nontriv,
            "rule": RULES["fleet" if prop in checks.FLEET else "threads" if prop == "C07" else "other"], "samples": samples,
            "runs_planned": total, "runs_per_hour": int(n / max(t_runs, 0.001) * 3600), "seeds_per_hour": int(n / max(t_runs, 0.001) * 3600),
            "simulated_seconds": round(sim, 1),
            "operations_judged": stats.get("ops", 0),
            "faults_injected": {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault.")},
            "damage_kinds": {k[7:]: v for k, v in sorted(stats.items()) if k.startswith("damage.")},
            "other_counters": {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault.", "damage."))},
            "distinct_states": len(states),
            "distinct_states_measure": {"C07": "thread switch points (from, to, function, line) and re-entry points"}.get(
                prop, "fleet: (hosts up, jobs in flight, request classes seen); worlds: (operation, fault or host-state, code location)"),
            "distinct_histories": len(digests), "key_derivation": {str(k): v for k, v in kdf.items()},
            "determinism": {"runs_repeated_in_another_process_with_another_hash_seed": len(again), "digests_differing": len(mism),
                            "replayed_from_pinned_plan": sum("pin" in m for m in again.values()),
                            "replays_differing": sum(m.get("pin") is False for m in again.values())},
            "ran_real": REAL_CODE, "ran_stub": STUBS,
        },
        "assumptions": ["the independent reference sim/ref.py is right about BIP38 (checked against the published vectors by setup)",
                        "stand-in key derivations stand for scrypt except in runs counted under key_derivation.real",
                        "a clean batch is evidence over the sampled seeds, not a proof"],
    }
    if seen:
        ev["coverage"]["known_findings_met"] = seen
    if viol:
        ev["coverage"]["violation"] = viol
    tmp = os.path.join(ROOT, "evidence", ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))


def selftest():
    import ref
    import checks
    ref.selftest()
    print("reference: published vectors ok; %d properties ready" % len(checks.PROPS))
    return 0


def main(a):
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER") or "quick"
        if len(a) > 2:
            tier = a[2]
        try:
            master = int(os.environ.get("VERIF_SEED") or 1)
        except ValueError:
            master = 1
        return check(a[1], tier, master)
    if a[0] == "worker":
        return worker(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), int(a[7]), int(a[8]))
    if a[0] == "shrink":
        return shrink_main(a[1], a[2], a[3])
    if a[0] == "first":
        return first_main(a[1])
    if a[0] == "replay":
        return replay_main(a[1])
    if a[0] == "selftest":
        return selftest()
    print(__doc__)
    return 2


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
