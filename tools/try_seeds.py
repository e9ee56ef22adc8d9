"""Try planted bugs: python3 tools/try_seeds.py [--nocheck] [ID...].  Each in its own scratch copy, several at a time."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

SEEDED = "/verif/seeded"
HOME = os.environ.get("VERIF_HOME", "/verif")      # a copy of the machinery, say
FAST = "--fast" in sys.argv                        # the seeds are known to be valid


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def prepare(id):
    d = os.path.join(SEEDED, id)
    tmp = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    out = {"id": id, "tmp": tmp, "prop": json.load(open(d + "/meta.json"))["property"]}
    repo = tmp + "/repo"
    sh("git clone -q /repo %s" % repo)
    out["demo_clean"] = FAST or sh("bash %s/demo.sh" % d, cwd=repo)[0]
    rc, o = sh("git apply %s/patch.diff" % d, cwd=repo)
    out["apply"] = rc
    if FAST:
        return dict(out, demo_clean=0, build=0, tests="15 passed", demo_patched=1)
    for n in ("build", "test"):
        s = open("/opt/vp/%s.sh" % n).read().replace("/repo", repo)
        open(tmp + "/%s.sh" % n, "w").write(s)
    out["build"] = sh("bash %s/build.sh" % tmp)[0]
    rc, o = sh("bash %s/test.sh %s/out.json" % (tmp, tmp))
    m = re.search(r"(\d+) passed", o)
    f = re.search(r"([1-9]\d*) (failed|errors?)\b", o)
    out["tests"] = "%s passed%s" % (m and m.group(1), ", %s" % f.group(0) if f else "")
    rc, o = sh("bash %s/demo.sh" % d, cwd=repo)
    out["demo_patched"] = rc
    out["demo_tail"] = o.strip().splitlines()[-1:] 
    return out


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    ids = a or sorted(os.listdir(SEEDED))
    with cf.ThreadPoolExecutor(6) as ex:
        pres = list(ex.map(prepare, ids))
    for o in pres:
        ok = o["demo_clean"] == 0 and o["apply"] == 0 and o["build"] == 0 and o["tests"] == "15 passed" and o["demo_patched"] not in (0, 124)
        line = "%-22s %s %-5s" % (o["id"], o["prop"], "VALID" if ok else "BAD")
        if not ok:
            line += " " + json.dumps({k: v for k, v in o.items() if k not in ("id", "prop", "tmp")})
        print(line, flush=True)
        if "--nocheck" not in sys.argv:
            props = re.findall(r"--prop=(C\d\d)", " ".join(sys.argv)) or [o["prop"]]
            for prop in props:
                env = dict(os.environ, VERIF_REPO=o["tmp"] + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
                rc, t = sh(HOME + "/run.sh check %s" % prop, env=env)
                v = [l for l in t.splitlines() if l.startswith("VIOLATION")]
                m = [l for l in t.splitlines() if "iolation:" in l or l.startswith("  ")][:3]
                print("    %s rc=%d %s" % (prop, rc, "CAUGHT" if rc == 1 and any("property=%s " % prop in l for l in v) else "MISSED"),
                      (t.strip().splitlines() or [""])[0][:300], flush=True)
                if "--verbose" in sys.argv:
                    print(t)
        shutil.rmtree(o["tmp"])


main()
