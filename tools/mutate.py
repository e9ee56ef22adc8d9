"""Systematic small mutations of the library: which survive its tests, and which of those the checks see.

python3 tools/mutate.py list OUT.json            make mutants, keep those the repository's tests pass
python3 tools/mutate.py check OUT.json RES.json  run the checks on each, stopping at the first that reports it
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

HOME = os.environ.get("VERIF_HOME", "/verif")
FILES = ["bip38.py", "wif.py", "p2pkh_address.py", "crypto.py", "utils.py", "libs/base58.py", "libs/ripemd160.py",
         "secp256k1/point.py", "secp256k1/public_key.py", "secp256k1/private_key.py", "secp256k1/__init__.py", "const.py", "exceptions.py"]
SWAP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
        ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.BitXor: [ast.BitOr], ast.BitAnd: [ast.BitOr], ast.Mod: [ast.FloorDiv],
        ast.FloorDiv: [ast.Mod], ast.Mult: [ast.Add], ast.And: [ast.Or], ast.Or: [ast.And], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr):
            out.add(id(n.body[0]))
    return out


def variants(tree):
    """(line, text, mutated tree)"""
    nodes = list(ast.walk(tree))
    skip = docstrings(tree)
    for i, n in enumerate(nodes):
        def made(what, f):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            f(m)
            ast.fix_missing_locations(t)
            return getattr(n, "lineno", 0), what, t
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                for r in SWAP.get(type(o), []):
                    yield made("%s->%s" % (type(o).__name__, r.__name__), lambda m, j=j, r=r: m.ops.__setitem__(j, r()))
        elif isinstance(n, (ast.BinOp, ast.BoolOp)) and type(n.op) in SWAP:
            for r in SWAP[type(n.op)]:
                yield made("%s->%s" % (type(n.op).__name__, r.__name__), lambda m, r=r: setattr(m, "op", r()))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                yield made("%d%+d" % (n.value, d), lambda m, d=d: setattr(m, "value", m.value + d))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) and len(n.value) and not isinstance(n.value, bytes):
            yield made("%r->''" % n.value[:20], lambda m: setattr(m, "value", ""))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield made("not %r" % n.value, lambda m: setattr(m, "value", not m.value))
        elif isinstance(n, ast.If):
            yield made("if True", lambda m: setattr(m, "test", ast.Constant(True)))
            yield made("if False", lambda m: setattr(m, "test", ast.Constant(False)))
            if isinstance(n.test, ast.BoolOp):
                for j in range(len(n.test.values)):
                    yield made("drop condition %d" % j, lambda m, j=j: m.test.values.pop(j))
        elif isinstance(n, ast.IfExp):
            yield made("ifexp body", lambda m: setattr(m, "test", ast.Constant(True)))
            yield made("ifexp else", lambda m: setattr(m, "test", ast.Constant(False)))
        elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Expr)) and id(n) not in skip and getattr(n, "value", None) is not None:
            for p in nodes:
                for f in ("body", "orelse", "handlers", "finalbody"):
                    b = getattr(p, f, None)
                    if isinstance(b, list) and n in b:
                        k, pi = b.index(n), nodes.index(p)
                        t = copy.deepcopy(tree)
                        q = getattr(list(ast.walk(t))[pi], f)
                        q[k] = ast.Pass()
                        ast.fix_missing_locations(t)
                        yield n.lineno, "drop statement", t
        elif isinstance(n, ast.ExceptHandler):
            yield made("except Exception", lambda m: setattr(m, "type", ast.Name("Exception", ast.Load())))
            yield made("never except", lambda m: setattr(m, "type", ast.Tuple([], ast.Load())))
        elif isinstance(n, ast.Call):
            for j in range(len(n.keywords)):
                yield made("drop keyword %s" % n.keywords[j].arg, lambda m, j=j: m.keywords.pop(j))
            if len(n.args) >= 2:
                yield made("drop last argument", lambda m: m.args.pop())
                yield made("swap arguments", lambda m: m.args.__setitem__(slice(0, 2), m.args[1::-1]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield made("drop not", lambda m: setattr(m, "op", ast.UAdd()))
        elif isinstance(n, ast.Slice):
            for f in ("lower", "upper"):
                if getattr(n, f) is not None:
                    yield made("drop %s" % f, lambda m, f=f: setattr(m, f, None))


SITE = """import os, pickle, sys
def _arm():
    import scrypt
    d = os.environ["SCRYPT_MEMO"]
    orig = scrypt.hash
    def hash(password, salt, N=1 << 14, r=8, p=1, buflen=64):
        import hashlib
        k = os.path.join(d, hashlib.sha256(repr((password, salt, N, r, p, buflen)).encode()).hexdigest())
        try:
            return open(k, "rb").read()
        except OSError:
            v = orig(password, salt, N, r, p, buflen)
            open(k + str(os.getpid()), "wb").write(v)
            os.replace(k + str(os.getpid()), k)
            return v
    scrypt.hash = hash
_arm()
"""


def tests_pass(src, job):
    f, line, what, text = job
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree(src, d + "/r", ignore=shutil.ignore_patterns("memo"))
        with open("%s/r/bip38/%s" % (d, f), "w") as o:
            o.write(text)
        open(d + "/sitecustomize.py", "w").write(SITE)
        env = dict(os.environ, PYTHONPATH=d + "/r:" + d, PYTHONDONTWRITEBYTECODE="1", SCRYPT_MEMO=src + "/memo")
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "tests", "bip38/libs/ripemd160.py"], cwd=d + "/r", env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            return r.returncode == 0
        except subprocess.TimeoutExpired:
            return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def make(out):
    src = tempfile.mkdtemp(prefix="mutsrc-", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % src, shell=True, check=True)
    os.mkdir(src + "/memo")
    jobs, seen = [], set()
    for f in FILES:
        text = open("%s/bip38/%s" % (src, f)).read()
        tree = ast.parse(text)
        base = ast.unparse(tree)
        for line, what, t in variants(tree):
            try:
                u = ast.unparse(t)
                compile(u, f, "exec")
            except Exception:
                continue
            if u != base and (f, u) not in seen:
                seen.add((f, u))
                jobs.append((f, line, what, u))
    print(len(jobs), "mutants", flush=True)
    live = []
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for n, (j, ok) in enumerate(zip(jobs, ex.map(lambda j: tests_pass(src, j), jobs))):
            if ok:
                live.append(j)
                print(n, j[:3], flush=True)
    json.dump(live, open(out, "w"))
    shutil.rmtree(src)
    print(len(live), "survive the tests")


ORDER = {"libs/ripemd160.py": ["C10"], "secp256k1/point.py": ["C16"], "secp256k1/public_key.py": ["C16", "C14"],
         "secp256k1/private_key.py": ["C16"], "exceptions.py": ["C15"], "wif.py": ["C14", "C04", "C12", "C15"],
         "p2pkh_address.py": ["C14", "C12"]}
ALL = os.environ.get("CHECKS", "C02 C01 C04 C03 C14 C12 C10 C08 C11 C05 C06 C13 C15 C09 C16 C07").split()


def check(src, dst):
    live = json.load(open(src))
    try:
        res = json.load(open(dst))
    except OSError:
        res = {}
    for n, (f, line, what, text) in enumerate(live):
        key = "%s:%d %s #%d" % (f, line, what, n)
        if key in res:
            continue
        d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % d, shell=True, check=True)
        open("%s/bip38/%s" % (d, f), "w").write(text)
        env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_RUNS=os.environ.get("VERIF_RUNS", "400"))
        got = "MISSED"
        for p in dict.fromkeys(ORDER.get(f, []) + ALL):
            r = subprocess.run([HOME + "/run.sh", "check", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                got = p if r.returncode == 1 else "%s rc=%d" % (p, r.returncode)
                if r.returncode == 1:
                    break
        res[key] = got
        print(key, "->", got, flush=True)
        json.dump(res, open(dst, "w"), indent=1)
        shutil.rmtree(d)


if __name__ == "__main__":
    make(sys.argv[2]) if sys.argv[1] == "list" else check(sys.argv[2], sys.argv[3])
