"""Seeded plans of the fleet worlds: who does what, when, and which faults may strike."""
import random
import unicodedata

import gen
import ref
from model import Model


def swarm(rng, base):
    """Each run enables a random subset of the fault kinds, at a random intensity."""
    out = {}
    for k, p in base.items():
        if rng.random() < 0.6:
            out[k] = p * rng.choice([0.3, 1, 1, 2])
    return out


BASE = {"drop": 0.08, "dup": 0.08, "delay": 0.1, "damage": 0.12, "lost": 0.3, "torn": 0.3, "rot": 0.3,
        "diskfull": 0.08, "crashsync": 0.1}


def chaos(rng, plan, quiet=120.0, damage=1.0):
    n = len(plan["hosts"])
    b = dict(BASE)
    b["damage"] *= damage
    b["rot"] *= damage
    plan["faults"] = {"rates": swarm(rng, b)}
    plan["quiet"] = quiet
    cr = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        t = rng.random() * quiet * 0.9
        cr.append([round(t, 2), round(min(quiet, t + 0.5 + rng.random() * 20), 2), rng.randrange(n)])
    # crashes of one host must not overlap
    cr.sort()
    seen = {}
    plan["crashes"] = []
    for c in cr:
        if c[0] > seen.get(c[2], -1):
            plan["crashes"].append(c)
            seen[c[2]] = c[1]
    plan["parts"] = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        t = rng.random() * quiet * 0.8
        side = sorted(rng.sample(range(n), rng.randint(1, max(1, n - 1))))
        plan["parts"].append([round(t, 2), round(min(quiet, t + rng.random() * 30), 2), side])
    return plan


def hosts(rng, n, mixed=False):
    out = []
    for i in range(n):
        s = {"impl": "lib", "provider": rng.choice(["ok", "ok", "ok", "unlisted", "refused", "flip"]),
             "opt": rng.choice([0] * 6 + [1, 1, 2]), "skew": rng.choice([0.0, 0.0, -86400.0 * 400, 3.2e7, 1e9, -1.6e9, 4.5e9, 2.6e9])}
        if mixed and (i == 1 or i > 0 and rng.random() < 0.4):
            s["impl"] = "peer"
        out.append(s)
    return out


def gaps(rng):
    return rng.choice([0.0, 0.1, 1.0, 5.0, 30.0, 600.0, 86400.0 * rng.randint(1, 400)]) * rng.random()


def netchoice(rng, coin, net, explicit=None):
    """Ways to say the same network: by the instance's default or in the call."""
    nets = sorted(gen.COINS[coin]["networks"])
    r = rng.random()
    if net == "mainnet" and r < 0.25:
        return {"inet": None, "network": None}
    if r < 0.6:
        return {"inet": net, "network": rng.choice([None, net])}
    return {"inet": rng.choice(nets), "network": net}


class People:
    """A small cast per run, so that salts, passphrases, keys and codes recur and collide."""

    def __init__(self, rng, ub=0.3):
        self.rng = rng
        self.pp = [gen.passphrase(rng, ub) for _ in range(rng.choice([1, 2, 2, 3]))]
        if len(self.pp) > 1 and rng.random() < 0.5:
            nm = gen.near_misses(rng, self.pp[0])
            if nm:
                self.pp[1] = rng.choice(nm)          # two owners whose passphrases look alike
        self.nets = [gen.net_pair(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        self.keys = [gen.privkey(rng).hex() for _ in range(rng.choice([1, 2, 4]))]
        self.salts = [gen.salt(rng, 8).hex() for _ in range(2)]
        if rng.random() < 0.5:
            self.salts[1] = self.salts[0][:8] + self.salts[1][8:]   # same first four bytes
        self.seeds = [gen.seed(rng).hex() for _ in range(2)]
        self.lots = [(gen.lot(rng), gen.sequence(rng))]
        for _ in range(2):      # numbers issued in series: same lot, or same sequence, or neither
            r = rng.random()
            lo, sq = rng.choice(self.lots)
            if r < 0.45:
                sq = gen.sequence(rng) if rng.random() < 0.5 else (sq + rng.choice([1, 1, 4095, 256, 2048])) % 4096
            elif r < 0.7:
                lo = gen.lot(rng) if rng.random() < 0.5 else 100000 + (lo - 100000 + rng.choice([1, 16, 256, 4096, 65536])) % 900000
            else:
                lo, sq = gen.lot(rng), gen.sequence(rng)
            self.lots.append((lo, sq))

    def key(self):
        return self.rng.choice(self.keys) if self.rng.random() < 0.5 else gen.privkey(self.rng).hex()

    def net(self):
        return self.rng.choice(self.nets) if self.rng.random() < 0.8 else gen.net_pair(self.rng)


def deposit(rng, P, i, n, wrong=0.2, forms=False):
    coin, net = P.net()
    p = rng.choice(P.pp)
    key, comp = P.key(), rng.random() < 0.5
    if rng.random() < 0.06:
        key, comp, coin, net = gen.rare(rng, rng.choice(["address hash ", "address hash ", "address sum ", "wif sum "]))
        key = key.hex()
    job = {"kind": "deposit", "id": "d%d" % i, "start": rng.random() * 60, "passphrase": p, "coin": coin, "net": net,
           "key": key, "compressed": comp, "client": rng.randrange(n),
           "clerks": rng.sample(range(n), min(n, 2)), "vaults": rng.sample(range(n), min(n, 2)), "opens": []}
    job.update(netchoice(rng, coin, net))
    if forms:
        f = gen.forms(p)
        rng.shuffle(f)
        job["forms"] = f[:6]
    for _ in range(rng.choice([1, 2, 3, 4])):
        x = {"gap": gaps(rng), "host": rng.randrange(n), "detail": rng.choice([None, True, True, False])}
        x.update(netchoice(rng, coin, net))
        if rng.random() < wrong:
            nm = gen.near_misses(rng, p)
            if nm:
                x["passphrase"] = rng.choice(nm)
        job["opens"].append(x)
    y = {"gap": gaps(rng), "host": rng.randrange(n), "detail": rng.random() < 0.5}
    y.update(netchoice(rng, coin, net))
    job["opens"].append(y)
    return job


def order(rng, P, i, n, numbered=0.5, wrong=0.15, forms=False):
    coin, net = P.net()
    p = rng.choice(P.pp)
    job = {"kind": "order", "id": "o%d" % i, "start": rng.random() * 60, "passphrase": p, "coin": coin, "net": net,
           "client": rng.randrange(n), "owner": rng.sample(range(n), min(n, 2)), "copies": []}
    job.update(netchoice(rng, coin, net))
    if forms:
        f = gen.forms(p)
        rng.shuffle(f)
        job["forms"] = f[:6]
    s = rng.choice([None, rng.choice(P.salts), rng.choice(P.salts), gen.salt(rng, 8).hex()])
    if rng.random() < numbered:
        job["lot"], job["sequence"] = rng.choice(P.lots) if rng.random() < 0.6 else (gen.lot(rng), gen.sequence(rng))
        if s is not None and rng.random() < 0.5:
            s = s[:8]
    job["salt"] = s
    job["form"] = rng.choice(["hex", "bytes", "HEX"])
    for c in range(rng.choice([1, 1, 2, 3])):
        sd = rng.choice([None, None, rng.choice(P.seeds), gen.seed(rng).hex(), "mined"])
        x = {"gap": gaps(rng), "wif_type": rng.choice(["wif", "wif-compressed"]), "seed": sd, "mine": rng.getrandbits(32),
             "form": rng.choice(["hex", "bytes", "HEX"]), "printers": rng.sample(range(n), min(n, 2)),
             "log": rng.randrange(n), "steps": []}
        kinds = ["confirm", "decrypt", rng.choice(["confirm", "decrypt"])]
        rng.shuffle(kinds)
        for w in kinds:
            st = {"what": w, "gap": gaps(rng), "host": rng.randrange(n), "detail": rng.choice([True, True, None, False])}
            st.update(netchoice(rng, coin, net))
            if rng.random() < wrong:
                nm = gen.near_misses(rng, p)
                if nm:
                    st["passphrase"] = rng.choice(nm)
            x["steps"].append(st)
        job["copies"].append(x)
    return job


def series(rng, P, n):
    """One owner issues codes of one series: same passphrase and salt, neighbouring numbers."""
    out = []
    p, s = rng.choice(P.pp), rng.choice(P.salts)
    s = s[:8] if rng.random() < 0.5 else s
    host = rng.randrange(n)
    for i in range(rng.choice([2, 3])):
        j = order(rng, P, 70 + i, n, numbered=1.0, wrong=0.0)
        j["passphrase"], j["salt"] = p, s
        j["lot"], j["sequence"] = P.lots[i]
        if rng.random() < 0.8:
            j["owner"] = [host]
        j["copies"] = j["copies"][:1]
        out.append(j)
    return out


def badcodes(rng, P, i, n):
    """Requests for intermediate codes with numbering or salts that must be refused."""
    reqs = []
    for _ in range(rng.randint(3, 8)):
        p = rng.choice(P.pp)
        s8, s4 = gen.salt(rng, 8).hex(), gen.salt(rng, 4).hex()
        lo, sq = gen.lot(rng), gen.sequence(rng)
        a = rng.choice([
            dict(lot=lo, salt=s8), dict(sequence=sq, salt=s8), dict(lot=lo), dict(sequence=sq), dict(sequence=0), dict(sequence=0, salt=s8),
            dict(lot=0, salt=s8), dict(lot=0, sequence=0, salt=s8), dict(lot=0, sequence=0), dict(lot=0, sequence=sq, salt=s8),
            dict(lot=99999, sequence=sq, salt=s8), dict(lot=1000000, sequence=sq, salt=s8), dict(lot=1048575, sequence=sq, salt=s8),
            dict(lot=1048576 + 100000, sequence=sq, salt=s8), dict(lot=2 ** 32 + 100000, sequence=sq, salt=s8),
            dict(lot=-100000, sequence=sq, salt=s8), dict(lot=lo, sequence=-1, salt=s8), dict(lot=lo, sequence=4096, salt=s8),
            dict(lot=lo, sequence=4097, salt=s8), dict(lot=lo, sequence=65536, salt=s8), dict(lot=lo, sequence=10 ** 9, salt=s8),
            dict(lot=99999, sequence=4096, salt=s8), dict(lot=99999, sequence=0), dict(lot=1000000, sequence=0), dict(lot=lo, sequence=4096),
            dict(salt=s4), dict(salt="00000000"), dict(salt=s8[:-2]), dict(salt=s8 + "00"), dict(salt=s4 + "00"), dict(salt="00"), dict(salt="ff" * 16),
            dict(lot=lo, sequence=sq, salt=s4 + "aa"), dict(lot=lo, sequence=sq, salt=s4[:6]), dict(lot=lo, sequence=sq, salt=s8 + "bb"),
            dict(lot=lo, sequence=sq, salt="0011"), dict(salt="11" * 7), dict(salt="11" * 9), dict(lot=lo, sequence=sq, salt="22" * 32),
            dict(lot=lo, salt=s4), dict(sequence=sq, salt=s4)])
        a = dict(a, passphrase=p, form=rng.choice(["hex", "bytes"]))
        if rng.random() < 0.2:
            a["via"] = "Bitcoin"
        reqs.append({"gap": gaps(rng), "host": rng.randrange(n), "op": "code", "args": a})
    return {"kind": "single", "id": "b%d" % i, "start": rng.random() * 60, "client": rng.randrange(n), "reqs": reqs}


TYPES = ["WIF", "Wif", "wif_compressed", "compressed", "uncompressed", "wif-uncompressed", "wif compressed", " wif", "wif ", "wif\n",
         "wif-compressed ", "Wif-Compressed", "WIF-COMPRESSED", "wif-", "wif-c", "wifcompressed", "wif\u2010compressed", "x", "wi", "wif,wif-compressed"]


def badmints(rng, P, i, n, R):
    """Orders for a WIF type there is not, or with a seed of another length, with good ones in between."""
    p = rng.choice(P.pp)
    coin, net = P.net()
    numbered = rng.random() < 0.5
    lo, sq = rng.choice(P.lots)
    try:
        code = R.intermediate(p, bytes.fromhex(rng.choice(P.salts)), lo if numbered else None, sq if numbered else None)
    except ref.Refuse:
        code = None
    reqs = []
    for _ in range(rng.randint(2, 6) if code else 0):
        sd = gen.seed(rng).hex()
        good = dict(wif_type=rng.choice(["wif", "wif-compressed"]), seed=sd)
        a = rng.choice([dict(good, wif_type=rng.choice(TYPES)), dict(good, wif_type=rng.choice(TYPES)), good,
                        dict(good, seed=rng.choice([sd[:-2], sd + "00", "00" + sd, sd[:32], sd + sd, sd[:2], sd + sd[:16], sd[:46],
                                                    "00" * 23, "00" * 25, "00", "ff" * 48, sd + "0000", sd[2:], sd[:16], sd + sd[:2]]))])
        a = dict(a, coin=coin, code=code, form=rng.choice(["hex", "bytes"]))
        a.update({k: v for k, v in netchoice(rng, coin, net).items() if v is not None})
        reqs.append({"gap": gaps(rng), "host": rng.randrange(n), "op": "mint", "args": a})
    return {"kind": "single", "id": "m%d" % i, "start": rng.random() * 60, "client": rng.randrange(n), "reqs": reqs}


def attempts(rng, P, i, n, R, many=12):
    """Attempts with many near misses on one entry and its neighbours, right ones in between."""
    p = rng.choice(P.pp)
    coin, net = P.net()
    wp, ap = gen.prefixes(coin, net)
    ents = []
    try:
        key = bytes.fromhex(P.key())
        comp = rng.random() < 0.5
        ents.append(("decrypt", "ewif", R.encrypt(key, comp, p, ap)))
        numbered = rng.random() < 0.5
        lo, sq = rng.choice(P.lots)
        code = R.intermediate(p, bytes.fromhex(rng.choice(P.salts)), lo if numbered else None, sq if numbered else None)
        for c in (False, True):
            m = R.mint(code, c, gen.seed(rng), ap)
            ents.append(("decrypt", "ewif", m["encrypted_wif"]))
            ents.append(("confirm", "cfrm", m["confirmation_code"]))
    except ref.Refuse:
        pass
    nm = gen.near_misses(rng, p)
    rng.shuffle(nm)
    nm = nm[:many] + [q for q in P.pp if q != p]
    fs = gen.forms(p)
    reqs = []
    ents = rng.sample(ents, min(len(ents), rng.choice([1, 2, 3])))
    host = rng.randrange(n)
    for _ in range(rng.choice([8, 16, 30])):
        op, f, text = rng.choice(ents)
        right = rng.random() < 0.3
        a = {"coin": coin, f: text, "passphrase": rng.choice(fs) if right else rng.choice(nm),
             "detail": rng.choice([None, True, False])}
        a.update({k: v for k, v in netchoice(rng, coin, net).items() if v is not None})
        reqs.append({"gap": rng.choice([0, 0, 0.01, 1.0, 3600.0]), "host": host if rng.random() < 0.8 else rng.randrange(n),
                     "op": op, "args": a})
    for op, f, text in ents:
        a = {"coin": coin, f: text, "passphrase": p, "detail": True}
        a.update({k: v for k, v in netchoice(rng, coin, net).items() if v is not None})
        reqs.append({"gap": 0.1, "host": host, "op": op, "args": a})
    return {"kind": "single", "id": "a%d" % i, "start": rng.random() * 60, "client": rng.randrange(n), "reqs": reqs}


def artifacts(rng, P, R):
    """One of each artifact, made by the reference."""
    p = rng.choice(P.pp)
    coin, net = P.net()
    wp, ap = gen.prefixes(coin, net)
    key = bytes.fromhex(P.key())
    comp = rng.random() < 0.5
    numbered = rng.random() < 0.5
    lo, sq = rng.choice(P.lots)
    code = R.intermediate(p, bytes.fromhex(rng.choice(P.salts)), lo if numbered else None, sq if numbered else None)
    m = R.mint(code, comp, gen.seed(rng), ap)
    return {"p": p, "coin": coin, "net": net, "numbered": numbered, "wif": ref.wif(key, comp, wp), "ewif": R.encrypt(key, comp, p, ap),
            "code": code, "ewif2": m["encrypted_wif"], "cfrm": m["confirmation_code"], "addr": m["address"],
            "pub": m["public_key"], "key": key.hex(), "wp": wp, "ap": ap}


def consume(rng, A, field, text, nets=None):
    """A request that reads `text` where an artifact of kind `field` is expected."""
    base = {"coin": A["coin"]}
    base.update({k: v for k, v in (nets or netchoice(rng, A["coin"], A["net"])).items() if v is not None})
    if field == "wif":
        r = rng.random()
        if r < 0.6:
            return "encrypt", dict(base, wif=text, passphrase=A["p"])
        if r < 0.7:
            return "wdec", dict(wif=text, prefix=A["wp"])
        return rng.choice(["w2p", "wtype", "wchk"]), dict(wif=text, coin=A["coin"], network=A["net"])
    if field == "code":
        return "mint", dict(base, code=text, wif_type=rng.choice(["wif", "wif-compressed"]), seed=gen.seed(rng).hex())
    if field == "cfrm":
        return "confirm", dict(base, cfrm=text, passphrase=A["p"], detail=rng.choice([None, True]))
    return "decrypt", dict(base, ewif=text, passphrase=A["p"], detail=rng.choice([None, True]))


def barrage(rng, P, i, n, R, count):
    """Damaged, forged and misdirected artifacts, each followed sooner or later by the intact one."""
    A, B = artifacts(rng, P, R), artifacts(rng, P, R)
    fields = ["wif", "code", "cfrm", "ewif", "ewif2"]
    reqs = []
    for _ in range(count):
        X = rng.choice([A, A, B])
        f = rng.choice(fields)
        r = rng.random()
        if r < 0.08:
            text = gen.rekind(rng, X[f], f)
            op, a = consume(rng, X, "ewif" if f == "ewif2" else f, text)
        elif r < 0.66:
            kind, text = gen.damage(rng, X[f], other=rng.choice([(B if X is A else A)[f], X[rng.choice(fields)]]))
            op, a = consume(rng, X, "ewif" if f == "ewif2" else f, text)
        elif r < 0.675:                                 # content that is no key, made by one who knows the passphrase
            k = rng.choice([rng.getrandbits(127), rng.randint(1, 9)]) or 1
            small = k.to_bytes(32, "big")
            comp = rng.random() < 0.5
            if rng.random() < 0.7:
                op, a = consume(rng, X, "ewif", R.encrypt(small, comp, X["p"], X["ap"], alias=(k + ref.N).to_bytes(32, "big")))
                a["_forged"] = R.encrypt(small, comp, X["p"], X["ap"])
            else:
                k = rng.choice([0, ref.N, ref.N + k, (1 << 256) - 1])
                op, a = "encrypt", dict(consume(rng, X, "ewif", "")[1], wif=ref.wif(k.to_bytes(32, "big"), comp, X["wp"]))
                a.pop("ewif"), a.pop("detail")
        elif r < 0.79:
            f = rng.choice(["ewif", "ewif2", "cfrm"])
            g = "cfrm" if f == "cfrm" else "ewif"
            kind, text = gen.forge(rng, X[f], g)
            op, a = consume(rng, X, g, text)
            a["_forged"] = X[f]
        elif r < 0.9:                                   # delivered to the wrong operation
            g = rng.choice([x for x in ("wif", "code", "cfrm", "ewif", "addr", "pub", "key") if x != f])
            if f == "ewif2":
                f = "ewif"
            if g == f:
                g = "addr"
            op, a = consume(rng, X, f, X[g])
        else:
            op, a = consume(rng, X, "ewif" if f == "ewif2" else f, X[f])
        reqs.append({"gap": rng.choice([0, 0, 0.3, 20.0]), "host": rng.randrange(n), "op": op, "args": a})
    for X in (A, B):
        for f in fields:
            op, a = consume(rng, X, "ewif" if f == "ewif2" else f, X[f])
            reqs.append({"gap": 0.1, "host": rng.randrange(n), "op": op, "args": a})
    return {"kind": "single", "id": "g%d" % i, "start": rng.random() * 60, "client": rng.randrange(n), "reqs": reqs}


def record(rng, P, i, n):
    job = {"kind": "record", "id": "r%d" % i, "start": rng.random() * 60, "key": P.key(), "client": rng.randrange(n),
           "steps": []}
    if rng.random() < 0.15:          # a key whose hash has a leading zero byte
        comp = rng.random() < 0.5
        for _ in range(600):
            k = rng.randrange(1, ref.N)
            if ref.hash160(ref.enc_pt(ref.pub(k), comp))[0] == 0:
                job["key"] = k.to_bytes(32, "big").hex()
                break
    rare = rng.choice(["wif sum ", "address sum "]) if rng.random() < 0.1 else None
    for _ in range(rng.randint(1, 4)):
        coin, net = P.net()
        if rare:
            key, comp, coin, net = gen.rare(rng, rare) if not job["steps"] else (bytes.fromhex(job["key"]), comp, coin, net)
            job["key"] = key.hex()
        foreign = []
        for _ in range(rng.choice([0, 1, 2])):
            c2, n2 = gen.net_pair(rng)
            foreign.append({"coin": c2, "net": n2, "host": rng.randrange(n), "op": rng.choice(["w2p", "wtype", "wchk"])})
        which = rng.random() < 0.55 if not rare else rare[0] == "w"      # a WIF, else an address
        if rng.random() < 0.3:
            (coin, net), (c2, n2) = rng.choice(gen.NEAR[0 if which else 1])
            foreign.append({"coin": c2, "net": n2, "host": rng.randrange(n), "op": rng.choice(["w2p", "wtype", "wchk"])})
        x = {"gap": gaps(rng), "coin": coin, "net": net, "issuer": rng.randrange(n), "form": rng.choice(["hex", "bytes", "HEX"]),
             "readers": [rng.randrange(n) for _ in range(rng.choice([1, 2]))], "foreign": foreign}
        if which:
            x.update(kind="wif", wif_type=rng.choice(["wif", "wif-compressed"]), low=rng.random() < 0.4)
        else:
            if rng.random() < 0.25:
                x["form"] = "object"
            x.update(kind="addr", compressed=rng.random() < 0.5, sent_compressed=rng.random() < 0.5,
                     alphabet=gen.COINS["Ripple"]["alphabet"] if rng.random() < 0.15 else None)
        if rare:
            x.update({"wif_type": "wif-compressed" if comp else "wif"} if which else {"compressed": comp, "sent_compressed": comp, "alphabet": None})
        job["steps"].append(x)
    return job


def repeats(rng, P, i, n, R):
    """The same fully explicit requests again and again, on every host, at any time, in either form."""
    A = artifacts(rng, P, R)
    base = []
    p, coin, net = A["p"], A["coin"], A["net"]
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.choice(["code", "code", "mint", "mint", "encrypt", "decrypt", "confirm"])
        if k == "code":
            lo = rng.random() < 0.5
            s = rng.choice(P.salts)
            a = dict(passphrase=p, salt=s if not lo or rng.random() < 0.5 else s[:8])
            if lo:
                a["lot"], a["sequence"] = rng.choice(P.lots)
        elif k == "mint":
            a = dict(coin=coin, code=A["code"], wif_type=rng.choice(["wif", "wif-compressed"]), seed=rng.choice(P.seeds),
                     inet=net)
        elif k == "encrypt":
            a = dict(coin=coin, wif=A["wif"], passphrase=p, inet=net)
        elif k == "decrypt":
            a = dict(coin=coin, ewif=A[rng.choice(["ewif", "ewif2"])], passphrase=rng.choice([p, p, p + "x"]), inet=net, detail=True)
        else:
            a = dict(coin=coin, cfrm=A["cfrm"], passphrase=rng.choice([p, p, p + "x"]), inet=net, detail=True)
        base.append((k, a))
    reqs = []
    for _ in range(rng.choice([6, 10, 20])):
        op, a = rng.choice(base)
        a = dict(a, form=rng.choice(["hex", "bytes", "HEX"]))
        reqs.append({"gap": gaps(rng) if rng.random() < 0.5 else 0, "host": rng.randrange(n), "op": op, "args": a})
    return {"kind": "single", "id": "x%d" % i, "start": rng.random() * 60, "client": rng.randrange(n), "reqs": reqs}


def near_strip(rng, s):
    d = unicodedata.normalize("NFD", s)
    return rng.choice([s + " ", " " + s, s.strip(), s + "\n", unicodedata.normalize("NFKC", s), s.casefold(), s.upper(),
                       "".join(c for c in d if not unicodedata.combining(c)), s + "\u0301", s.replace(" ", "")])


def variant(rng, s):
    """Another passphrase of the same length, or nearly so."""
    if not s:
        return rng.choice("abcXYZ019 ")
    if rng.random() < 0.3:      # differing in what careless normalisation removes
        js = [j for j, c in enumerate(s) if c.swapcase() != c and len(c.swapcase()) == 1]
        for _ in range(3):
            t = s
            if js and rng.random() < 0.6:
                j = rng.choice(js)
                t = s[:j] + s[j].swapcase() + s[j + 1:] if rng.random() < 0.7 else s.swapcase()
            else:
                nm = near_strip(rng, s)
                t = nm
            if ref.keyform(t) != ref.keyform(s):
                return t
    for _ in range(20):
        i = rng.randrange(len(s))
        t = s[:i] + rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJ0123456789") + s[i + 1:]
        if ref.keyform(t) != ref.keyform(s):
            return t
    return s + "x"


def twist(rng, op, a, A, P, R):
    """The same request with one argument altered: what an incomplete cache key confuses."""
    a = dict(a)
    coin = a.get("coin")
    c = []
    if "passphrase" in a:
        c += ["pp", "pp", "pp", "near"]
    if "salt" in a:
        c += ["salt", "salt", "half", "number", "unnumber"]
    if "seed" in a:
        c += ["seed", "seed", "type", "code"]
    if "wif" in a:
        c += ["key", "compression", "compression"]
    if "ewif" in a or "cfrm" in a:
        c += ["entry", "entry", "detail"]
    if coin and op != "encrypt":
        c += ["network", "network", "coin"]
    t = rng.choice(c)
    if t == "pp":
        a["passphrase"] = variant(rng, a["passphrase"])
    elif t == "near":
        nm = gen.near_misses(rng, a["passphrase"])
        a["passphrase"] = rng.choice(nm) if nm else a["passphrase"] + "x"
    elif t in ("salt", "seed"):
        b = bytearray(bytes.fromhex(a[t]))
        b[rng.choice([0, len(b) - 1, rng.randrange(len(b))])] ^= 1 << rng.randrange(8)
        a[t] = b.hex()
    elif t == "half":
        if "lot" in a and len(a["salt"]) == 16 and rng.random() < 0.5:
            a["salt"] = a["salt"][:8]
        else:
            a["salt"] = a["salt"][:8] + gen.rbytes(rng, 4).hex() if rng.random() < 0.6 or len(a["salt"]) == 8 else \
                gen.rbytes(rng, 4).hex() + a["salt"][8:]
    elif t == "number":
        lo, sq = a.get("lot"), a.get("sequence")
        if lo is None:
            a["lot"], a["sequence"] = rng.choice(P.lots)
        elif rng.random() < 0.5:
            a["lot"] = 100000 + (lo - 100000 + rng.choice([1, 899999, 256])) % 900000
        else:
            a["sequence"] = (sq + rng.choice([1, 4095, 256])) % 4096
    elif t == "unnumber":
        a.pop("lot", None)
        a.pop("sequence", None)
        if len(a["salt"]) == 8:
            a["salt"] += gen.rbytes(rng, 4).hex()
    elif t == "type":
        a["wif_type"] = "wif" if a["wif_type"] == "wif-compressed" else "wif-compressed"
    elif t == "code":
        try:
            n, ent, _, _ = R.parse_code(a["code"])
            a["code"] = R.intermediate(variant(rng, A["p"]), ent if not n else ent[:4], *((P.lots[0]) if n else (None, None)))
        except ref.Refuse:
            pass
    elif t in ("key", "compression"):
        key, comp, _ = ref.parse_wif(a["wif"], A["wp"])
        key = key if t == "compression" else gen.privkey(rng)
        a["wif"] = ref.wif(key, comp != (t == "compression"), A["wp"])
    elif t == "entry":
        p, ap = A["p"], A["ap"]
        try:
            if op == "confirm" or rng.random() < 0.5:
                code = A["code"]
                if rng.random() < 0.5:          # another code of the same owner, numbered where that one is not
                    n = R.parse_code(code)[0]
                    lo, sq = (None, None) if n else rng.choice(P.lots)
                    code = R.intermediate(p, gen.rbytes(rng, 8 if n else 4), lo, sq)
                m = R.mint(code, rng.random() < 0.5, gen.seed(rng), ap)
                a.update({"ewif": m["encrypted_wif"]} if op == "decrypt" else {"cfrm": m["confirmation_code"]})
            else:       # the same key under another passphrase, the other compression, or another key
                q = variant(rng, p) if rng.random() < 0.5 else p
                a["ewif"] = R.encrypt(bytes.fromhex(A["key"]) if rng.random() < 0.7 else gen.privkey(rng), rng.random() < 0.5, q, ap)
                a["passphrase"] = rng.choice([p, q])
        except ref.Refuse:
            pass
    elif t == "detail":
        a["detail"] = not a.get("detail")
    elif t == "network":
        a["network"] = rng.choice(sorted(gen.COINS[coin]["networks"]))
    elif t == "coin":
        a["coin"], a["inet"] = gen.net_pair(rng)
        a.pop("network", None)
    return a


def basics(rng, A, P):
    """A fully explicit request of every kind, around one person's artifacts."""
    p, coin, net = A["p"], A["coin"], A["net"]
    s = rng.choice(P.salts)
    lo, sq = rng.choice(P.lots)
    return [("code", dict(passphrase=p, salt=s)),
            ("code", dict(passphrase=p, salt=s if rng.random() < 0.5 else s[:8], lot=lo, sequence=sq)),
            ("mint", dict(coin=coin, code=A["code"], wif_type=rng.choice(["wif", "wif-compressed"]), seed=rng.choice(P.seeds), inet=net)),
            ("encrypt", dict(coin=coin, wif=A["wif"], passphrase=p, inet=net)),
            ("decrypt", dict(coin=coin, ewif=A["ewif"], passphrase=p, inet=net, detail=True)),
            ("decrypt", dict(coin=coin, ewif=A["ewif2"], passphrase=p, inet=net, detail=True)),
            ("confirm", dict(coin=coin, cfrm=A["cfrm"], passphrase=p, inet=net, detail=True))]


def other(rng, op, a, axis):
    """The request with one argument replaced by one never seen before (cheaply made)."""
    if axis == "passphrase" and axis in a:
        return dict(a, passphrase=variant(rng, a["passphrase"]))
    if axis == "salt" and axis in a:
        return dict(a, salt=gen.rbytes(rng, len(a["salt"]) // 2).hex())
    if axis == "code" and axis in a:           # of another customer: same point, other entropy
        raw = ref.b58cdec(a["code"])
        return dict(a, code=ref.b58cenc(raw[:8] + gen.rbytes(rng, 4) + raw[12:]))
    if axis == "wif" and axis in a:
        return dict(a, wif=ref.wif(rng.randrange(1, ref.N).to_bytes(32, "big"), rng.random() < 0.5, gen.prefixes(a["coin"], a["inet"])[0]))
    return dict(a, passphrase=variant(rng, a["passphrase"])) if "passphrase" in a else dict(a, seed=gen.rbytes(rng, 24).hex())


AXES = [("mint", "code"), ("code", "salt"), ("encrypt", "wif"), ("mint", "seed"), ("code", "passphrase"), ("encrypt", "passphrase"),
        ("confirm", "passphrase"), ("decrypt", "passphrase")]


def family(rng, P, i, n, R, kinds=None, flood=0.06, force=None):
    """Requests that differ from one another in one argument, some repeated, in any order on any host."""
    A = artifacts(rng, P, R)
    base = [b for b in basics(rng, A, P) if kinds is None or b[0] in kinds]
    if force:
        base = [b for b in base if b[0] == force[0]]
    op, a = rng.choice(base)
    fam = [(op, a)]
    big = force or rng.random() < flood
    great = force or big and rng.random() < 0.05  # tables of 512 or 1024 answers turn over
    axis = force[1] if force else rng.choice(["passphrase", "passphrase", "salt", "code", "wif"])
    deep = rng.random() < 0.5            # variants of one argument only
    for _ in range(rng.choice([600, 600, 1100, 2100]) if great else rng.choice([40, 140, 300]) if big else rng.choice([2, 4, 8, 14])):
        o2, b = rng.choice(fam) if not big and rng.random() < 0.3 else (op, a)
        if big or deep and "passphrase" in b:
            fam.append((o2, other(rng, o2, b, axis if big else "passphrase")))
        else:
            fam.append((o2, twist(rng, o2, b, A, P, R)))
        if not big and rng.random() < 0.15 and len(base) > 1:
            fam.append(rng.choice(base))
    seq = list(fam)
    rng.shuffle(seq)
    if big:                      # first, and again when everything else has passed by
        early = seq[:20]
        seq = [(op, a)] + seq + [(op, a)] + rng.sample(early, min(6, len(early)))
        hs = [rng.randrange(n)] * len(seq)
    else:
        seq += [rng.choice(fam) for _ in range(rng.choice([4, 8, 16]))]
        hs = [rng.randrange(n) for _ in seq]
        if rng.random() < 0.4:
            hs = [hs[0]] * len(seq)
    reqs = []
    for (o2, b), h in zip(seq, hs):
        b = dict(b)
        if o2 in ("code", "mint"):
            b["form"] = rng.choice(["hex", "bytes", "HEX"])
        reqs.append({"gap": gaps(rng) if rng.random() < 0.2 else 0, "host": h, "op": o2, "args": b})
    return {"kind": "single", "id": "f%d" % i, "start": rng.random() * 60, "client": rng.randrange(n), "reqs": reqs}


def plan(prop, seed, tier, idx):
    """One run of the fleet, focused on a property."""
    rng = random.Random("%s/%d" % (prop, seed))
    real = (prop, idx % 400) in REAL_RUNS
    kdf = "real" if real else rng.choice(["fast", "edge", "edge"])
    n = rng.choice([1, 2, 3, 3, 4, 5])
    if prop == "C11":
        n = max(n, 2)
    p = {"world": "fleet", "prop": prop, "seed": seed, "kdf": kdf, "hosts": hosts(rng, n, mixed=prop == "C11"), "jobs": []}
    P = People(rng, ub={"C06": 0.85, "C05": 0.4}.get(prop, 0.3))
    M = Model(kdf)
    R = M.R
    J = p["jobs"]
    k = 1 if real else rng.choice([1, 2, 3, 5])
    big = 0 if real else (1 if rng.random() < 0.06 else 0)     # a long history on few hosts
    if prop == "C01":
        p["oracles"] = ["vault"]
        for i in range(k + 1 + 25 * big):
            J.append(deposit(rng, P, i, n, forms=rng.random() < 0.2))
    elif prop == "C02":
        p["oracles"] = ["mint"]
        for i in range(1 if real else rng.choice([1, 1, 2, 3]) + 8 * big):
            J.append(order(rng, P, i, n, forms=rng.random() < 0.2))
        if not real and rng.random() < 0.5:
            J.append(badmints(rng, P, 0, n, R))
    elif prop == "C03":
        p["oracles"] = ["number"]
        for i in range(1 if real else rng.choice([1, 1, 2]) + 5 * big):
            J.append(order(rng, P, i, n, numbered=0.85))
        if not real and rng.random() < 0.3:
            J.extend(series(rng, P, n))
        if not real:
            J.append(badcodes(rng, P, 0, n))
    elif prop == "C04":
        p["oracles"] = ["damage"]
        for i in range(rng.choice([1, 2])):
            J.append(barrage(rng, P, i, n, R, rng.choice([15, 30, 60])))
        if rng.random() < 0.4:
            J.append(deposit(rng, P, 50, n))
        if rng.random() < 0.3:
            J.append(order(rng, P, 51, n))
    elif prop == "C05":
        p["oracles"] = []
        for i in range(rng.choice([1, 2, 3])):
            J.append(attempts(rng, P, i, n, R))
        if big:
            J.append(attempts(rng, P, 9, n, R, many=40))
            J[-1]["reqs"] = J[-1]["reqs"] * 6
        if rng.random() < 0.3:
            J.append(deposit(rng, P, 50, n, wrong=0.6))
    elif prop == "C06":
        p["oracles"] = ["mint", "number"]
        for i in range(k):
            J.append(deposit(rng, P, i, n, forms=True, wrong=0.3))
        J.append(order(rng, P, 50, n, forms=True))
    elif prop == "C11":
        p["oracles"] = ["mint", "number"]
        for i in range(1 if real else rng.choice([1, 2, 3])):
            J.append(deposit(rng, P, i, n, forms=rng.random() < 0.3))
        if not real or idx % 2:
            J.append(order(rng, P, 50, n, forms=rng.random() < 0.3))
        if real and idx % 2:
            J.pop(0)
        if rng.random() < 0.5 and not real:
            J.append(record(rng, P, 60, n))
    elif prop == "C13":
        p["oracles"] = ["idem"]
        great = AXES[idx // 100 % len(AXES)] if idx % 100 == 55 and not real else None
        for i in range(1 if real or great else rng.choice([1, 2, 3])):
            J.append(repeats(rng, P, i, n, R) if not great and (real or rng.random() < 0.45) else family(rng, P, i, n, R, force=great))
        if rng.random() < 0.5 and not real:
            J.append(order(rng, P, 50, n))
        if rng.random() < 0.3 and not real:
            J.append(deposit(rng, P, 51, n))
    elif prop == "C14":
        p["oracles"] = ["record"]
        for i in range(k + 1):
            J.append(record(rng, P, i, n))
    if not real and prop in FAMILY and rng.random() < 0.3:
        J.append(family(rng, P, 90, n, R, FAMILY[prop], flood=0.03))
    if not real and prop in SHELF and rng.random() < 0.06:
        J.append(shelf(rng, P, 91, n, R, SHELF[prop], wrong=0.2 if prop == "C05" else 0.0))
    if prop == "C14" and rng.random() < 0.1:
        J.append(ledger(rng, P, 92, n))
    if real:
        trim(p)
    if idx % 5 == 0:          # fault-free configuration, so that no relaxation hides an ordinary bug
        p["faults"], p["quiet"], p["crashes"], p["parts"] = {"rates": {}}, 0.0, [], []
    else:
        chaos(rng, p, damage=1.5 if prop == "C04" else 1.0)
    return p


def visits(rng, m, more):
    """An order in which m things are met: one after the other, with returns to recent and to old ones."""
    out, i = [], 0
    while i < m or more > 0:
        if i < m and (i < 2 or rng.random() < 0.6 or more <= 0):
            out.append(i)
            i += 1
        else:
            more -= 1
            out.append(rng.choice([max(0, i - 1 - int(rng.expovariate(1 / 8.0))), rng.randrange(i)]))
    return out


def shelf(rng, P, i, n, R, ops, wrong=0.0):
    """Many entries, opened by hardly more than one process: tables of recent answers fill, turn over and are trimmed."""
    m = rng.choice([300, 600, 1100]) if rng.random() < 0.04 else rng.choice([6, 12, 20, 36, 40])
    p = rng.choice(P.pp)
    ents = []
    code = {}
    one = rng.random() < 0.6         # all through one instance
    coin, net = P.net()
    base = netchoice(rng, coin, net)
    for _ in range(m):
        if not one:
            coin, net = P.net() if rng.random() < 0.7 else gen.net_pair(rng)
            base = netchoice(rng, coin, net)
        wp, ap = gen.prefixes(coin, net)
        q = rng.choice(P.pp) if rng.random() < 0.2 else p
        comp = rng.random() < 0.5
        op = rng.choice(ops)
        b = {"coin": coin, "passphrase": q}
        b.update({k: v for k, v in base.items() if v is not None})
        key = rng.randrange(1, ref.N).to_bytes(32, "big")
        try:
            if op == "encrypt":
                b["wif"] = ref.wif(key, comp, wp)
            elif op == "decrypt":
                b["ewif"] = R.encrypt(key, comp, q, ap)
            else:
                numbered = rng.random() < 0.5
                if (q, numbered) not in code or rng.random() < 0.3:
                    lo, sq = (gen.lot(rng), gen.sequence(rng)) if numbered else (None, None)
                    code[q, numbered] = R.intermediate(q, gen.rbytes(rng, 8), lo, sq)
                c = code[q, numbered]
                if op == "mint":
                    b.pop("passphrase")
                    b.update(code=c, wif_type=rng.choice(["wif", "wif-compressed"]), seed=gen.seed(rng).hex())
                else:
                    mt = R.mint(c, comp, gen.seed(rng), ap)
                    b.update({"cfrm": mt["confirmation_code"]} if op == "confirm" else {"ewif": mt["encrypted_wif"]})
        except ref.Refuse:
            continue
        ents.append(("decrypt" if op == "open" else op, b))
    host = rng.randrange(n)
    reqs = []
    for j in visits(rng, len(ents), rng.choice([5, 15, 40])):
        op, b = ents[j]
        if op in ("confirm", "decrypt"):
            b = dict(b, detail=rng.choice([None, True]))
            if rng.random() < wrong:
                nm = gen.near_misses(rng, b["passphrase"])
                b["passphrase"] = rng.choice(nm) if nm else b["passphrase"] + "x"
        reqs.append({"gap": 0, "host": host if rng.random() < 0.95 else rng.randrange(n), "op": op, "args": b})
    return {"kind": "single", "id": "h%d" % i, "start": rng.random() * 60, "client": rng.randrange(n), "reqs": reqs}


def ledger(rng, P, i, n):
    """A long ledger of WIF and address records, read and written by hardly more than one process."""
    m = rng.choice([300, 700, 1200, 2200]) if rng.random() < 0.06 else rng.choice([10, 30, 70, 150])
    ents = []
    for _ in range(m):
        coin, net = P.net() if rng.random() < 0.5 else gen.net_pair(rng)
        wp, ap = gen.prefixes(coin, net)
        key = rng.randrange(1, ref.N).to_bytes(32, "big")
        comp = rng.random() < 0.5
        r = rng.random()
        if r < 0.25:
            ents.append(("p2w", dict(key=key.hex(), wif_type="wif-compressed" if comp else "wif", coin=coin, network=net)))
        elif r < 0.5:
            ents.append((rng.choice(["w2p", "wtype", "wchk"]), dict(wif=ref.wif(key, comp, wp), coin=coin, network=net)))
        else:
            pt = ref.pub(rng.randrange(1, 400))
            if r < 0.65:
                ents.append(("aenc", dict(pub=ref.enc_pt(pt, rng.random() < 0.5).hex(), address_prefix=ap,
                                          public_key_type="compressed" if comp else "uncompressed")))
            else:
                ents.append(("adec", dict(address=ref.address(pt, comp, ap), address_prefix=ap)))
    host = rng.randrange(n)
    reqs = []
    for j in visits(rng, m, rng.choice([5, 20, 60])):
        op, b = ents[j]
        reqs.append({"gap": 0, "host": host if rng.random() < 0.95 else rng.randrange(n), "op": op, "args": b})
        if rng.random() < 0.05 and op in ("w2p", "wtype", "wchk"):
            c2, n2 = gen.net_pair(rng)
            reqs.append({"gap": 0, "host": host, "op": op, "args": dict(b, coin=c2, network=n2)})
    return {"kind": "single", "id": "l%d" % i, "start": rng.random() * 60, "client": rng.randrange(n), "reqs": reqs}


SHELF = {"C01": ("encrypt", "decrypt", "decrypt"), "C02": ("mint", "confirm", "open"), "C03": ("confirm", "open"),
         "C05": ("decrypt", "open", "confirm"), "C11": ("encrypt", "decrypt", "mint", "confirm", "open")}
FAMILY = {"C01": ("encrypt", "decrypt"), "C02": ("code", "mint", "confirm", "decrypt"), "C03": ("code", "confirm", "decrypt"),
          "C05": ("decrypt", "confirm"), "C06": None, "C11": None}
REAL_RUNS = {(p, i) for p in ("C01", "C02", "C03", "C06", "C11", "C13") for i in (3, 7)}


def trim(p):
    """Real key derivation costs half a second: keep such runs short."""
    p["jobs"] = p["jobs"][:1]
    for j in p["jobs"]:
        j.pop("forms", None) if p["prop"] != "C06" else None
        if j["kind"] == "deposit":
            j["opens"] = j["opens"][-2:]
        if j["kind"] == "order":
            j["copies"] = j["copies"][:1]
            j["copies"][0]["steps"] = j["copies"][0]["steps"][:2]
        if j["kind"] == "single":
            j["reqs"] = j["reqs"][:4]
