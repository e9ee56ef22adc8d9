"""Discrete-event simulation of a fleet: owners, printers, vaults and auditors on hosts that crash
and restart, over a network and disks that misbehave.  Hosts run the library (one process image
per boot) or, in mixed fleets, the independent reference ("peer")."""
import hashlib
import heapq
import json
import random

import rt
import ref
import gen
from model import Model, Violation, Harness, facets, describe


def H(*parts):
    return random.Random(int.from_bytes(hashlib.sha256_(repr(parts).encode()).digest()[:8], "big"))


hashlib.sha256_ = rt.REAL.sha256

RPC_TIMEOUT = 5.0
MAX_ATTEMPTS = 40


class Pending:
    __slots__ = ("fleet", "gen", "done")

    def __init__(self, fleet):
        self.fleet, self.gen, self.done = fleet, None, False

    def fire(self, v):
        if not self.done:
            self.done = True
            self.fleet.resume(self.gen, v)


class Host:
    def __init__(self, i, spec):
        self.i = i
        self.impl = spec.get("impl", "lib")
        self.spec = spec
        self.up = True
        self.epoch = 0
        self.img = None
        self.disk = {}           # key -> [synced text, pending text or None]
        self.ctx = None
        self.boots = 0


class Fleet:
    def __init__(self, plan, judge):
        """judge(fleet, op, args, expectation, outcome, facets) -> violation text or None"""
        self.plan = plan
        self.judge = judge
        self.seed = plan["seed"]
        self.now = 0.0
        self.seq = 0
        self.q = []
        self.stats = {}
        self.hist = rt.REAL.sha256()
        self.nhist = 0
        self.trail = []
        f = plan["faults"]
        self.rates = f.get("rates")
        self.fired = {} if self.rates is not None else dict(f["fired"])
        self.quiet = plan["quiet"]
        self.asked = {}
        self.model = Model(plan["kdf"])
        self.hosts = []
        self.first = {}
        self.jobs_left = 0
        self.states = set()
        for i, s in enumerate(plan["hosts"]):
            h = Host(i, s)
            h.ctx = rt.Ctx(seed=self.seed, kdf_mode=plan["kdf"], provider=s.get("provider", "ok"))
            h.ctx.clone = i * 1000
            h.ctx.pid = 100 + i
            h.ctx.skew = s.get("skew", 0.0)
            h.opt = s.get("opt", 0)
            h.ctx.stats = self.stats
            self.hosts.append(h)
            self.boot(h)

    # ---------------------------------------------------------------- bookkeeping
    def simtime(self):
        return self.now

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def record(self, *ev):
        s = json.dumps([round(self.now, 6)] + list(ev), sort_keys=True, default=str)
        self.hist.update(s.encode())
        self.nhist += 1
        self.trail.append(s if len(s) < 400 else s[:400] + "...")
        if len(self.trail) > 60:
            del self.trail[:20]

    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.q, (max(t, self.now), self.seq, fn))

    def decide(self, key, options):
        """One fault decision under a stable key.  options: {kind: rate name}."""
        n = self.asked[key] = self.asked.get(key, -1) + 1
        if n:                   # a duplicate's reply, say
            key = "%s~%d" % (key, n)
        if self.rates is None:
            v = self.fired.get(key)
        else:
            v = None
            if self.now < self.quiet:
                r = H(self.seed, key)
                x = r.random()
                for kind in sorted(options):
                    p = self.rates.get(options[kind], 0.0)
                    if x < p:
                        v = [kind, r.getrandbits(32)]
                        break
                    x -= p
            if v is not None:
                self.fired[key] = v
        if v is not None and not v[0].startswith("damage"):
            self.stat("fault." + v[0])
        return v

    # ---------------------------------------------------------------- hosts
    def boot(self, h):
        h.epoch += 1
        h.boots += 1
        h.up = True
        h.ctx.clone = h.i * 1000 + h.boots
        h.ctx.draws = 0
        h.ctx.pid = 100 + h.i + 50 * h.boots
        if h.impl == "lib":
            h.img = rt.Image(h.opt)
        for k in list(h.disk):
            if h.disk[k][1] is not None:        # unsynced: lost, torn or kept
                v = self.decide("sync.%d.%s.%d" % (h.i, k, h.boots), {"lost_write": "lost", "torn_write": "torn"})
                if v and v[0] == "torn_write":
                    t = h.disk[k][1]
                    h.disk[k] = [t[:v[1] % (len(t) + 1)], None]
                elif v or h.disk[k][0] is None:
                    h.disk[k] = [h.disk[k][0], None]
                else:
                    h.disk[k] = [h.disk[k][1], None]

    def crash(self, h):
        if h.up:
            h.up = False
            h.epoch += 1
            h.img = None
            self.stat("fault.crash")
            self.record("crash", h.i)

    def restart(self, h):
        if not h.up:
            self.record("boot", h.i)
            self.boot(h)

    def cut(self, i, j):
        for t0, t1, side in self.plan.get("parts", []):
            if t0 <= self.now < t1 and ((i in side) != (j in side)):
                return True
        return False

    # ---------------------------------------------------------------- executing an operation on a host
    def execute(self, h, op, a):
        a = dict(a)
        if h.spec.get("provider") == "flip":
            h.ctx.provider = H(self.seed, "flip", h.i, int(self.now)).choice(["ok", "unlisted", "refused"])
        h.ctx.now = 1.7e9 + self.now
        rt.install(h.ctx)
        try:
            if h.impl == "peer":
                o = self.peer(h, op, a)
            else:
                if op == "code" and a.get("salt") is None or op == "mint" and a.get("seed") is None:
                    h.ctx.drawlog = []
                o = rt.call(h.img, op, a)
        finally:
            rt.install(None)
        self.stat("ops")
        self.stat("op." + op)
        self.stat("impl." + h.impl)
        if h.impl == "lib":
            self.check(h, op, a, o)
        self.record("exec", h.i, h.impl, op, a, o.key())
        return o

    def check(self, h, op, a, o):
        b = a
        if op == "code" and a.get("salt") is None:
            b = (self.learn_salt(a, o) if o.ok else None) or dict(a, salt="0102030405060708")
        if op == "mint" and a.get("seed") is None:
            s = o.value.get("seed") if o.ok and isinstance(o.value, dict) else None
            b = dict(a, seed=s if isinstance(s, str) and len(s) == 48 else "11" * 24)
        e = self.model.expect(op, b)
        fs = facets(op, b, e, o)
        self.stat("expect." + ("ok" if e.ok else e.kind))
        if fs:
            m = self.judge(self, op, b, e, o, fs)
            if m:
                self.record("violation", m, o.text)
                raise Violation(m, op=op)
        if "idem" in self.plan.get("oracles", ()) and (op not in ("code", "mint") or b is a):
            k = json.dumps([op, {x: y for x, y in b.items() if x not in ("form", "itag", "via", "netnone", "fresh")}],
                           sort_keys=True)
            was = self.first.setdefault(k, (o.key(), h.i, self.now))
            if was[0] != o.key():
                raise Violation("the same request %s(%s) was answered %r on host %d at t=%.1f and %r on host %d at t=%.1f"
                                % (op, ascii(a), was[0], was[1], was[2], o.key(), h.i, self.now))

    def learn_salt(self, a, o):
        """Recover the salt the library chose from the code it returned."""
        try:
            raw = ref.b58cdec(o.value)
        except Exception:
            return None
        if len(raw) != 49:
            return None
        if a.get("lot") is not None and a.get("sequence") is not None:
            return dict(a, salt=raw[8:12].hex())
        return dict(a, salt=raw[8:16].hex())

    def peer(self, h, op, a):
        a = dict(a)
        if op == "code" and a.get("salt") is None:
            a["salt"] = h.ctx.entropy(8).hex()
        if op == "mint" and a.get("seed") is None:
            a["seed"] = h.ctx.entropy(24).hex()
        e = self.model.expect(op, a)
        o = rt.Outcome(e.ok, e.value)
        if not e.ok:
            o.cls, o.lib, o.passerr = "Peer" + e.kind, True, e.kind == "pass"
        return o

    # ---------------------------------------------------------------- coroutines
    def spawn(self, gen_, t=0.0):
        self.jobs_left += 1
        self.at(t, lambda: self.resume(gen_, None))

    def resume(self, g, v):
        try:
            y = g.send(v)
        except StopIteration:
            self.jobs_left -= 1
            return
        if isinstance(y, Pending):
            y.gen = g
        else:
            self.at(self.now + float(y), lambda: self.resume(g, None))

    # ---------------------------------------------------------------- messages
    def rpc(self, key, src, dsts, op, a, arts=(), reply_arts=()):
        """At-least-once request; `arts` name the arguments that are artifacts in transit.
        Returns (outcome, host).  Outcomes of damaged requests are judged where they execute and
        never reach the caller; damaged replies do."""
        attempt = 0
        while True:
            attempt += 1
            if attempt > MAX_ATTEMPTS:
                raise Violation("no answer to %s after %d attempts although faults stopped at t=%.0f"
                                % (op, MAX_ATTEMPTS, self.quiet))
            h = self.hosts[dsts[(attempt - 1) % len(dsts)]]
            k = "%s.%d" % (key, attempt)
            p = Pending(self)
            self.send(k, src, h, op, a, arts, reply_arts, p)
            self.at(self.now + RPC_TIMEOUT * min(attempt, 4), lambda p=p: p.fire(None))
            r = yield p
            if r is not None:
                return r

    def send(self, k, src, h, op, a, arts, reply_arts, p):
        lat = 0.02 + 0.05 * H(self.seed, k, "lat").random()
        v = self.decide(k + ".req", {"drop": "drop", "duplicate": "dup", "delay": "delay", "damage_request": "damage"})
        copies = [(lat, a, True)]
        if v:
            r = random.Random(v[1])
            if v[0] == "drop":
                copies = []
            elif v[0] == "duplicate":
                copies.append((lat + r.random() * 20, a, True))
            elif v[0] == "delay":
                copies = [(lat + r.random() * 60, a, True)]
            elif v[0] == "damage_request" and arts:
                n = r.choice(list(arts))
                b = dict(a)
                kind, b[n] = gen.damage(r, a[n], other=self.plan.get("other"))
                self.stat("fault.damage_request")
                self.stat("damage." + kind)
                copies = [(lat, b, False)]
        for t, b, good in copies:
            self.at(self.now + t, lambda b=b, good=good: self.arrive(k, src, h, op, b, good, reply_arts, p))

    def arrive(self, k, src, h, op, a, good, reply_arts, p):
        if not h.up or self.cut(src, h.i):
            self.stat("unreachable")
            return
        ep = h.epoch
        o = self.execute(h, op, a)
        self.at(self.now + 0.5, lambda: self.reply(k, src, h, ep, o, good, reply_arts, p))

    def reply(self, k, src, h, ep, o, good, reply_arts, p):
        if h.epoch != ep:
            self.stat("fault.crash_in_flight")
            return
        if not good:                 # the caller is told "refused, send again"
            return self.at(self.now + 0.05, lambda: p.fire(None))
        if self.cut(src, h.i):
            return
        v = self.decide(k + ".rep", {"drop_reply": "drop", "delay": "delay", "damage_reply": "damage"})
        t = 0.05
        if v:
            r = random.Random(v[1])
            if v[0] == "drop_reply":
                return
            if v[0] == "delay":
                t += r.random() * 60
            elif v[0] == "damage_reply" and o.ok and reply_arts:
                n = r.choice(list(reply_arts))
                self.stat("fault.damage_reply")
                o2 = rt.Outcome(True, o.value)
                o2.damaged = True
                if isinstance(o.value, dict):
                    o2.value = dict(o.value)
                    kind, o2.value[n] = gen.damage(r, o.value[n], other=self.plan.get("other"))
                else:
                    kind, o2.value = gen.damage(r, o.value, other=self.plan.get("other"))
                self.stat("damage." + kind)
                o = o2
        self.at(self.now + t, lambda: p.fire((o, h.i)))

    # ---------------------------------------------------------------- durable storage on hosts
    def store(self, key, src, i, name, text):
        """Replicated put with fsync, retried until acknowledged."""
        attempt = 0
        while True:
            attempt += 1
            if attempt > MAX_ATTEMPTS:
                raise Violation("vault %d never acknowledged" % i)
            h = self.hosts[i]
            p = Pending(self)
            k = "%s.put%d.%d" % (name, i, attempt)
            v = self.decide(k, {"drop": "drop", "disk_full": "diskfull", "crash_before_sync": "crashsync"})

            def put(h=h, v=v, p=p):
                if not h.up or self.cut(src, h.i):
                    return
                if v and v[0] == "drop":
                    return
                if v and v[0] == "disk_full":
                    return self.at(self.now + 0.05, lambda: p.fire("full"))
                h.disk[name] = [h.disk.get(name, [None, None])[0], text]
                self.record("put", h.i, name)
                if v and v[0] == "crash_before_sync":
                    self.crash(h)
                    return self.at(self.now + 3, lambda: self.restart(h))
                h.disk[name] = [text, None]
                self.at(self.now + 0.05, lambda: p.fire("ok"))
            self.at(self.now + 0.03, put)
            self.at(self.now + RPC_TIMEOUT, lambda p=p: p.fire(None))
            if (yield p) == "ok":
                return

    def load(self, key, src, replicas, name, n):
        """One attempt to read a replica; None if unreachable or empty."""
        h = self.hosts[replicas[n % len(replicas)]]
        if not h.up or self.cut(src, h.i):
            return None
        d = h.disk.get(name)
        if d is None or d[0] is None:
            return None
        text = d[0]
        if n % len(replicas) == 0:           # only the first replica's medium is bad
            v = self.decide("rot.%s.%s.%d.%d" % (key, name, h.i, n), {"bit_rot": "rot"})
            if v:
                kind, text = gen.damage(random.Random(v[1]), text, other=self.plan.get("other"))
                self.stat("damage." + kind)
        return text

    # ---------------------------------------------------------------- run
    def run(self, jobs):
        rt.begin_run()
        for t0, t1, i in self.plan.get("crashes", []):
            if i < len(self.hosts):
                self.at(t0, lambda i=i: self.crash(self.hosts[i]))
                self.at(t1, lambda i=i: self.restart(self.hosts[i]))
        for t, g in jobs:
            self.spawn(g, t)
        n = 0
        while self.q:
            t, _, fn = heapq.heappop(self.q)
            self.now = t
            fn()
            n += 1
            if n > 200000:
                raise Harness("fleet does not quiesce")
            if n % 8 == 0:
                self.states.add((tuple(h.up for h in self.hosts), self.jobs_left, len(self.first) % 7))
        if self.jobs_left:
            raise Harness("jobs left hanging: %d" % self.jobs_left)
        self.stats["events"] = self.stats.get("events", 0) + n
        return self
