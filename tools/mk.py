"""usage: mk.py specfile [ids...]; specs: list of dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)"""
import sys, os, subprocess, shutil, json, tempfile, runpy
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
specs = runpy.run_path(sys.argv[1])["SPECS"]
want = sys.argv[2:]
nocheck = os.environ.get("NOCHECK")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/seed/mpl",
  OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1",
  NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL", OPENBLAS_CORETYPE="Haswell")
PRE = '''import os, sys, warnings
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.getcwd(), "CasimirRio"))
import numpy as np
'''
SH = '''#!/bin/bash
# run with cwd at the root of the repository, after the build
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def one(s):
    out = []
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp/seed")
    w = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        for f, old, new in s["edits"]:
            p = w + "/CasimirRio/" + f
            t = open(p, encoding="utf8").read()
            n = t.count(old)
            if n < 1 or (n > 1 and not s.get("all")):
                return s["id"], "EDIT matches %d times in %s" % (n, f)
            open(p, "w", encoding="utf8").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        # original lines?
        for f in {e[0] for e in s["edits"]}:
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", "CasimirRio/" + f], capture_output=True, text=True).stdout.splitlines()
            ud = subprocess.run(["git", "-C", w, "diff", "-U0", "--", "CasimirRio/" + f], capture_output=True, text=True).stdout
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", ud, re.M):
                a = int(m.group(1)); c = int(m.group(2) or 1)
                for i in range(a, a + c):
                    if "5dbdbf4" not in bl[i-1].split()[0]:
                        out.append("NOT-ORIGINAL line %s:%d" % (f, i))
        if any(f.endswith(".pyx") for f, _, _ in s["edits"]):
            env = dict(ENV, CFLAGS="-I" + subprocess.run(["/opt/venv/bin/python","-c","import numpy;print(numpy.get_include())"],capture_output=True,text=True).stdout.strip())
            for m in {f[:-4] for f, _, _ in s["edits"] if f.endswith(".pyx")}:
                r = subprocess.run("rm -f %s.c %s.cpython*; /opt/venv/bin/python %s_setup.py build_ext --inplace --force" % (m, m, m), shell=True, cwd=w+"/CasimirRio", env=env, capture_output=True, text=True)
                if r.returncode: return s["id"], "BUILD " + r.stderr[-500:]
        r = subprocess.run(["/opt/venv/bin/python","-m","pytest","-q","-p","no:cacheprovider","--timeout=300","--continue-on-collection-errors","-o","junit_family=xunit2","--junitxml=%s/r.xml" % d, "tests"], cwd=w+"/CasimirRio", env=ENV, capture_output=True, text=True)
        ok = set()
        if not os.path.exists(d + "/r.xml"): return s["id"], "TESTS CRASH"
        for tc in ET.parse(d + "/r.xml").iter("testcase"):
            if not any(c.tag in ("failure","error","skipped") for c in tc):
                ok.add(tc.get("classname") + "::" + tc.get("name"))
        bad = stable - ok
        if bad: out.append("TESTS FAIL %s" % sorted(bad)[:3])
        q = d + "/demo"; os.mkdir(q)
        open(q + "/demo.py", "w").write(PRE + s["demo"].strip("\n") + "\n")
        open(q + "/demo.sh", "w").write(SH); os.chmod(q + "/demo.sh", 0o755)
        open(q + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(q + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", q + "/demo.sh"], cwd="/repo", capture_output=True, text=True, timeout=290)
        b = subprocess.run(["bash", q + "/demo.sh"], cwd=w, capture_output=True, text=True, timeout=290)
        if a.returncode: out.append("DEMO fails on clean: " + a.stderr[-300:] + a.stdout[-200:])
        if not b.returncode: out.append("DEMO passes on mutant " + b.stdout[-200:])
        else: out.append("[demo: %s]" % (b.stderr.strip().splitlines() or b.stdout.strip().splitlines() or ["?"])[-1][-140:])
        fatal = [o for o in out if not o.startswith("[")]
        if not fatal:
            t = "/verif/seeded/" + s["id"]
            shutil.rmtree(t, ignore_errors=True); shutil.copytree(q, t)
        if not nocheck:
            env = dict(os.environ, VERIF_SRC=w + "/CasimirRio", VERIF_SEED=os.environ.get("VERIF_SEED","1"), VERIF_TIER="quick", VERIF_PROCS="4")
            res = []
            for c in [s["prop"]] + s.get("also", []):
                v = d + "/v"
                if not os.path.exists(v): subprocess.run("cp -a /verif %s; rm -rf %s/evidence %s/replays" % (v, v, v), shell=True)
                r = subprocess.run([v + "/run.sh", c], cwd=v, env=env, capture_output=True, text=True)
                l = [x for x in r.stdout.splitlines() if "monitor '" in x][:1]
                res.append("%s rc=%d %s" % (c, r.returncode, l[0].strip()[:150] if l else (r.stdout+r.stderr).strip()[-150:]))
            out.append(" | ".join(res))
        return s["id"], "\n     ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
L = [s for s in specs if not want or s["id"] in want]
with ThreadPoolExecutor(3) as ex:
    for i, o in ex.map(one, L):
        print(i, o, flush=True)
