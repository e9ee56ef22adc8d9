"""The executable specification: what each operation must answer, and how an answer may differ."""
import rt
import ref
import gen


class Violation(Exception):
    def __init__(self, msg, **kw):
        Exception.__init__(self, msg)
        self.msg = msg
        self.info = kw


class Harness(Exception):
    """An error of the simulator itself, never a verdict."""


class Expect:
    __slots__ = ("ok", "value", "kind")

    def __init__(self, ok, value=None, kind=None):
        self.ok, self.value, self.kind = ok, value, kind

    def show(self):
        return "return %r" % (self.value,) if self.ok else "be refused (%s)" % self.kind


class Model:
    """Answers through the independent reference.  The coin's declared alphabet is what C12 is
    about; everywhere else addresses use the alphabet the library is known to use (Bitcoin's)."""

    def __init__(self, kdf_mode):
        self.kdf_mode = kdf_mode
        self.R = ref.Ref(lambda pw, s, n, r, p, l: rt.kdf(kdf_mode, pw, s, n, r, p, l))
        self.memo = {}

    def net(self, a):
        coin = gen.COINS[a["coin"]]
        n = a.get("network") or a.get("inet") or "mainnet"
        if a.get("inet") is not None and a["inet"] not in coin["networks"]:
            raise ref.Refuse("arg", "network")
        if n not in coin["networks"]:
            raise ref.Refuse("arg", "network")
        return coin["networks"][n]

    def expect(self, op, a):
        k = (op, repr(sorted((k, v) for k, v in a.items() if k not in ("itag", "fresh"))))
        e = self.memo.get(k)
        if e is None:
            try:
                v = self.value(op, a)
                e = Expect(True, rt.norm(v))
            except ref.Refuse as x:
                e = Expect(False, kind=x.kind)
            self.memo[k] = e
        return e

    def value(self, op, a):
        R = self.R
        if op == "code":
            return R.intermediate(a["passphrase"], bytes.fromhex(a["salt"]), a.get("lot"), a.get("sequence"))
        if op == "encrypt":
            wp, ap = self.net(a)
            key, comp, _ = ref.parse_wif(a["wif"], wp)
            return R.encrypt(key, comp, a["passphrase"], ap)
        if op == "mint":
            wp, ap = self.net(a)
            wt = a.get("wif_type", "wif")
            if wt not in ("wif", "wif-compressed"):
                raise ref.Refuse("arg")
            seed = bytes.fromhex(a["seed"])
            if len(seed) != 24:
                R.parse_code(a["code"])
                raise ref.Refuse("arg")
            return R.mint(a["code"], wt == "wif-compressed", seed, ap)
        if op == "confirm":
            wp, ap = self.net(a)
            d = R.confirm(a["passphrase"], a["cfrm"], ap)
            return d if a.get("detail") else d["address"]
        if op == "decrypt":
            wp, ap = self.net(a)
            d = R.decrypt(a["ewif"], a["passphrase"], wp, ap)
            return d if a.get("detail") else d["wif"]
        if op == "new":
            if a["coin"] not in gen.COINS:
                raise ref.Refuse("arg", "coin")
            self.net(a)
            return "instance"
        if op in ("p2w", "w2p", "wtype", "wchk"):
            nets = gen.COINS[a.get("coin") or "Bitcoin"]["networks"]
            wp = nets[a.get("network") or "mainnet"][0]
            if op == "p2w":
                wt = a.get("wif_type") or "wif-compressed"
                key = bytes.fromhex(a["key"])
                if wt not in ("wif", "wif-compressed") or len(key) != 32:
                    raise ref.Refuse("arg")
                return ref.wif(key, wt == "wif-compressed", wp)
            key, comp, c = ref.parse_wif(a["wif"], wp)
            return {"w2p": key.hex(), "wtype": "wif-compressed" if comp else "wif", "wchk": c.hex()}[op]
        if op == "wenc":
            k = bytes.fromhex(a["key"])
            if len(k) != 32:
                raise ref.Refuse("arg")
            return (ref.wif(k, False, a["prefix"]), ref.wif(k, True, a["prefix"]))
        if op == "wdec":
            key, comp, c = ref.parse_wif(a["wif"], a["prefix"])
            return (key, "wif-compressed" if comp else "wif", c)
        if op == "aenc":
            pt = ref.dec_pt(bytes.fromhex(a["pub"]))
            return ref.address(pt, (a.get("public_key_type") or "compressed") == "compressed",
                               a.get("address_prefix") or 0, a.get("alphabet") or ref.B58)
        if op == "adec":
            return ref.parse_address(a["address"], a.get("address_prefix") or 0, a.get("alphabet") or ref.B58).hex()
        if op == "h160":
            return ref.hash160(bytes.fromhex(a["data"]))
        if op == "r160":
            return ref.ripemd160(bytes.fromhex(a["data"]))
        raise Harness("no model for " + op)


NUM = ("lot", "sequence")
RECORD_OPS = ("p2w", "w2p", "wtype", "wchk", "wenc", "wdec", "aenc", "adec")


def facets(op, a, e, o):
    """How outcome o differs from expectation e: a list of facet names ([] if it does not)."""
    if e.ok:
        if not o.ok:
            return ["lost"]
        if o.value == e.value:
            return []
        out = []
        if isinstance(e.value, dict) and isinstance(o.value, dict):
            for k in sorted(set(e.value) | set(o.value)):
                x, y = e.value.get(k, "<absent>"), o.value.get(k, "<absent>")
                if type(x) is not type(y) or x != y:
                    out.append("number" if k in NUM else "value")
        return sorted(set(out)) or ["value"]
    if e.kind == "forged":
        return ["accept:forged"] if o.ok else ([] if o.lib else ["raw:forged"])
    if o.ok:
        return ["accept:" + e.kind]
    if not o.lib and op != "adec" and e.kind != "range":
        return ["raw:" + e.kind]
    if e.kind == "pass" and not o.passerr:
        return ["misreport"]
    return []


def describe(op, a, e, o):
    return "%s(%s) should %s but %s" % (op, ", ".join("%s=%s" % (k, ascii(v)) for k, v in sorted(a.items())
                                                      if v is not None), e.show(), o.show())
