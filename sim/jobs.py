"""Protocols the fleet runs: deposits, minting orders, attempts, records, repeated requests."""
import random

import rt
import ref
import gen
from model import Violation, describe


def _pass(job, h, fleet):
    """The owner's passphrase as this host's input method delivers it."""
    fs = job.get("forms") or [job["passphrase"]]
    return fs[h % len(fs)]


def netargs(job, x=None):
    a = {"coin": job["coin"]}
    x = x or {}
    inet, network = x.get("inet", job.get("inet")), x.get("network", job.get("network"))
    if inet is not None:
        a["inet"] = inet
    if network is not None:
        a["network"] = network
    return a


def _fail(job, what):
    raise Violation("%s: %s" % (job["id"], what))


def need(job, op, a, o):
    if not o.ok:
        _fail(job, "%s of intact inputs failed: %s(%s) %s" % (op, op, ascii({k: v for k, v in a.items()
                                                                         if v is not None}), o.show()))


# ------------------------------------------------------------------ deposit
def deposit(F, job):
    k = job["id"]
    key = bytes.fromhex(job["key"])
    wp, ap = gen.prefixes(job["coin"], job["net"])
    wif = ref.wif(key, job["compressed"], wp)
    a = dict(netargs(job), wif=wif)
    ewif = None
    while ewif is None:
        dst = job["clerks"]
        a["passphrase"] = _pass(job, dst[0], F)
        o, h = yield from F.rpc(k + ".enc", job["client"], dst, "encrypt", a, arts=("wif",), reply_arts=("",))
        need(job, "encrypt", a, o)
        if o.damaged:       # the clerk's receipt does not match what arrived: ask again
            n = job["_n"] = job.get("_n", 0) + 1
            k = job["id"] + ".again%d" % n
        else:
            ewif = o.value
    if not isinstance(ewif, str):
        _fail(job, "encrypt returned %r" % (ewif,))
    k = job["id"]
    for i in job["vaults"]:
        yield from F.store(k, job["client"], i, k, ewif)
    F.stat("deposits_acked")
    for n, x in enumerate(job["opens"]):
        yield x["gap"]
        r = 0
        while True:
            text = F.load("%s.%d" % (k, n), job["client"], job["vaults"], k, r)
            r += 1
            if r > 60:
                _fail(job, "acknowledged entry unreadable")
            if text is None:
                yield 3.0
                continue
            b = dict(netargs(job, x), ewif=text, passphrase=x.get("passphrase") or _pass(job, x["host"], F),
                     detail=x.get("detail"))
            if x.get("passphrase") is not None:
                b["passphrase"] = x["passphrase"]
            o, h = yield from F.rpc("%s.open%d.%d" % (k, n, r), job["client"], [x["host"]], "decrypt", b, arts=("ewif",))
            if text != ewif:
                if o.ok and not F.model.expect("decrypt", b).ok and "damage" in F.plan.get("oracles", ()):
                    _fail(job, "a damaged entry %r opened: %s" % (text, o.show()))
                if not o.ok:
                    continue            # fall back to the replica
            break
        if x.get("passphrase") is not None:
            F.stat("wrong_attempts")
            continue                    # judged where it executed
        F.stat("opens")
        need(job, "decrypt", b, o)
        v = o.value
        if x.get("detail"):
            pt = ref.pub(int.from_bytes(key, "big"))
            want = dict(wif=wif, private_key=key.hex(), wif_type="wif-compressed" if job["compressed"] else "wif",
                        public_key=ref.enc_pt(pt, job["compressed"]).hex(),
                        public_key_type="compressed" if job["compressed"] else "uncompressed", seed=None,
                        address=ref.address(pt, job["compressed"], ap), lot=None, sequence=None)
            for f in sorted(want):
                if not isinstance(v, dict) or v.get(f, "<absent>") != want[f]:
                    _fail(job, "stored key reopened with %s=%r, deposited %r" % (
                        f, v.get(f, "<absent>") if isinstance(v, dict) else v, want[f]))
        elif v != wif:
            _fail(job, "stored key reopened as %r, deposited %r" % (v, wif))


# ------------------------------------------------------------------ EC-multiply order
def order(F, job):
    k = job["id"]
    a = dict(passphrase=_pass(job, job["owner"][0], F), lot=job.get("lot"), sequence=job.get("sequence"),
             salt=job.get("salt"), form=job.get("form"))
    o, h = yield from F.rpc(k + ".code", job["client"], job["owner"], "code", a)
    need(job, "code", a, o)
    code = o.value
    if not isinstance(code, str):
        _fail(job, "intermediate code is %r" % (code,))
    for c, x in enumerate(job["copies"]):
        F.spawn(copy(F, job, c, x, code), F.now + x["gap"])
    yield 0.0


def copy(F, job, c, x, code):
    k = "%s.c%d" % (job["id"], c)
    wt = x["wif_type"]
    seed = x.get("seed")
    if seed == "mined":
        try:
            seed = gen.mined_seed(random.Random(x["mine"]), F.model.R, code, job["passphrase"]).hex()
        except ref.Refuse:
            seed = gen.rbytes(random.Random(x["mine"]), 24).hex()
    a = dict(netargs(job), code=code, wif_type=wt, seed=seed, form=x.get("form"))
    o, h = yield from F.rpc(k + ".mint", job["client"], x["printers"], "mint", a, arts=("code",))
    need(job, "create_new_encrypted_wif", a, o)
    m = o.value
    F.stat("minted")
    fields = ("encrypted_wif", "confirmation_code", "public_key", "seed", "public_key_type", "address")
    for f in fields:
        if not isinstance(m, dict) or not isinstance(m.get(f), str):
            _fail(job, "minting report lacks %s: %r" % (f, m))
    if seed is not None and m["seed"] != seed:
        _fail(job, "minted with seed %s, reported seed %s" % (seed, m["seed"]))
    if m["public_key_type"] != ("compressed" if wt == "wif-compressed" else "uncompressed"):
        _fail(job, "minted %s, reported %s" % (wt, m["public_key_type"]))
    # durable log of the printer, from which the owner fetches
    yield from F.store(k, job["client"], x["log"], k + ".ewif", m["encrypted_wif"])
    yield from F.store(k, job["client"], x["log"], k + ".cfrm", m["confirmation_code"])
    reps = [x["log"]] + [x["log"]]
    wp, ap = gen.prefixes(job["coin"], job["net"])
    for n, s in enumerate(x["steps"]):
        yield s["gap"]
        what = s["what"]
        name = k + (".cfrm" if what == "confirm" else ".ewif")
        r = 0
        while True:
            text = F.load("%s.%d" % (k, n), job["client"], reps, name, r)
            r += 1
            if r > 60:
                _fail(job, "acknowledged artifact unreadable")
            if text is None:
                yield 3.0
                continue
            b = dict(netargs(job, s), passphrase=s.get("passphrase") if s.get("passphrase") is not None
                     else _pass(job, s["host"], F), detail=s.get("detail"))
            b["cfrm" if what == "confirm" else "ewif"] = text
            o, h = yield from F.rpc("%s.%d.%d" % (k, n, r), job["client"], [s["host"]], what, b,
                                    arts=("cfrm" if what == "confirm" else "ewif",))
            if not o.ok and text not in (m["confirmation_code"], m["encrypted_wif"]):
                continue
            break
        if s.get("passphrase") is not None:
            F.stat("wrong_attempts")
            continue
        need(job, what, b, o)
        v = o.value
        F.stat("opened." + what)
        numbered = job.get("lot") is not None
        want = dict(lot=job.get("lot") if numbered else None, sequence=job.get("sequence") if numbered else None)
        numok = "number" in F.plan.get("oracles", ())
        valok = "mint" in F.plan.get("oracles", ())
        if what == "confirm":
            if not s.get("detail"):
                if valok and v != m["address"]:
                    _fail(job, "confirmation code confirms address %r, minted %r" % (v, m["address"]))
                continue
            if valok:
                for f in ("public_key", "public_key_type", "address"):
                    if v.get(f) != m[f]:
                        _fail(job, "confirmation reports %s=%r, minted %r" % (f, v.get(f), m[f]))
        elif s.get("detail"):
            if valok:
                for f in ("public_key", "public_key_type", "address", "seed"):
                    if v.get(f) != m[f]:
                        _fail(job, "opened key has %s=%r, minting reported %r" % (f, v.get(f), m[f]))
                try:
                    kk = bytes.fromhex(v["private_key"])
                    good = len(kk) == 32 and ref.enc_pt(ref.pub(int.from_bytes(kk, "big")), wt == "wif-compressed").hex() == m["public_key"]
                except Exception:
                    good = False
                if not good:
                    _fail(job, "opened private key %r is not that of the minted public key" % (v.get("private_key"),))
                if v.get("wif") != ref.wif(kk, wt == "wif-compressed", wp) or v.get("wif_type") != wt:
                    _fail(job, "opened WIF %r (%r) does not carry the private key as %s" % (v.get("wif"), v.get("wif_type"), wt))
        else:
            if valok:
                try:
                    kk, comp, _ = ref.parse_wif(v, wp)
                    good = comp == (wt == "wif-compressed") and \
                        ref.enc_pt(ref.pub(int.from_bytes(kk, "big")), comp).hex() == m["public_key"]
                except Exception:
                    good = False
                if not good:
                    _fail(job, "opened WIF %r is not the key minted with public key %s" % (v, m["public_key"]))
            continue
        if numok:
            for f in ("lot", "sequence"):
                got = v.get(f, "<absent>")
                if got != want[f] or type(got) is not type(want[f]):
                    _fail(job, "%s reports %s=%r, the code was made with %r" % (what, f, got, want[f]))


# ------------------------------------------------------------------ single requests, sent as they are
def single(F, job):
    """A list of independent requests (bad arguments, repeats, records); judged where they execute."""
    for n, x in enumerate(job["reqs"]):
        yield x["gap"]
        yield from F.rpc("%s.%d" % (job["id"], n), job["client"], [x["host"]], x["op"], x["args"],
                         arts=tuple(x.get("arts", ())))


# ------------------------------------------------------------------ WIF and address records
def record(F, job):
    k = job["id"]
    key = bytes.fromhex(job["key"])
    for n, x in enumerate(job["steps"]):
        yield x["gap"]
        kind = x["kind"]
        coin, net = x["coin"], x["net"]
        wp, ap = gen.prefixes(coin, net)
        if kind == "wif":
            wt = x["wif_type"]
            if x.get("low"):
                a = dict(key=job["key"], form=x.get("form"), prefix=wp)
                o, h = yield from F.rpc("%s.%d.i" % (k, n), job["client"], [x["issuer"]], "wenc", a)
                need(job, "encode_wif", a, o)
                text = o.value[0 if wt == "wif" else 1]
            else:
                a = dict(key=job["key"], form=x.get("form"), wif_type=wt, coin=coin, network=net)
                o, h = yield from F.rpc("%s.%d.i" % (k, n), job["client"], [x["issuer"]], "p2w", a)
                need(job, "private_key_to_wif", a, o)
                text = o.value
            F.stat("records_issued")
            for m, hh in enumerate(x["readers"]):
                for op, want in (("w2p", job["key"]), ("wtype", wt), ("wchk", None)):
                    b = dict(wif=text, coin=coin, network=net)
                    o, h = yield from F.rpc("%s.%d.r%d%s" % (k, n, m, op), job["client"], [hh], op, b, arts=("wif",))
                    need(job, op, b, o)
                    if want is not None and o.value != want:
                        _fail(job, "WIF %s issued for %s was read back as %s=%r" % (text, job["key"], op, o.value))
                b = dict(wif=text, prefix=wp)
                o, h = yield from F.rpc("%s.%d.d%d" % (k, n, m), job["client"], [hh], "wdec", b, arts=("wif",))
                need(job, "decode_wif", b, o)
                if o.value[:2] != ["0x" + job["key"], wt]:
                    _fail(job, "WIF %s issued for %s was read back as %r" % (text, job["key"], o.value))
            for y in x.get("foreign", ()):       # a reader of another coin
                yield from F.rpc("%s.%d.f%s" % (k, n, y["coin"]), job["client"], [y["host"]], y["op"],
                                 dict(wif=text, coin=y["coin"], network=y["net"]))
        else:
            comp = x["compressed"]
            pt = ref.pub(int.from_bytes(key, "big"))
            a = dict(pub=ref.enc_pt(pt, x.get("sent_compressed", comp)).hex(), form=x.get("form"), address_prefix=ap,
                     public_key_type="compressed" if comp else "uncompressed", alphabet=x.get("alphabet"))
            o, h = yield from F.rpc("%s.%d.i" % (k, n), job["client"], [x["issuer"]], "aenc", a)
            need(job, "P2PKHAddress.encode", a, o)
            text = o.value
            F.stat("records_issued")
            want = ref.hash160(ref.enc_pt(pt, comp)).hex()
            for m, hh in enumerate(x["readers"]):
                b = dict(address=text, address_prefix=ap, alphabet=x.get("alphabet"))
                o, h = yield from F.rpc("%s.%d.r%d" % (k, n, m), job["client"], [hh], "adec", b, arts=("address",))
                need(job, "P2PKHAddress.decode", b, o)
                if o.value != want:
                    _fail(job, "address %s was read back as %r, key hash is %s" % (text, o.value, want))
            for y in x.get("foreign", ()):
                yield from F.rpc("%s.%d.f%s" % (k, n, y["coin"]), job["client"], [y["host"]], "adec",
                                 dict(address=text, address_prefix=gen.prefixes(y["coin"], y["net"])[1],
                                      alphabet=x.get("alphabet")))


KINDS = {"deposit": deposit, "order": order, "single": single, "record": record}
