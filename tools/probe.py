"""probe.py specfile [names...]: PROBES = [(name, props, [(file, old, new)...])]: applies each edit to a scratch copy, runs the repository's tests
and the named checks; prints which are caught.  (Quick look before a bug gets a demonstration and becomes a planted one.)"""
import json, os, runpy, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
P = runpy.run_path(sys.argv[1])["PROBES"]
want = sys.argv[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/pr/mpl",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell",
           NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")


def one(s):
    name, props, edits = s
    d = tempfile.mkdtemp(prefix="p-", dir="/tmp/pr")
    w = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        for f, old, new in edits:
            p = w + "/CasimirRio/" + f
            t = open(p, encoding="utf8").read()
            if old not in t:
                return name + ": NO MATCH " + old
            i = -1 if old.startswith("\0") else 1
            open(p, "w", encoding="utf8").write(t.replace(old, new, 1))
        for m in {f[:-4] for f, _, _ in edits if f.endswith(".pyx")}:
            inc = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy;print(numpy.get_include())"], capture_output=True, text=True).stdout.strip()
            r = subprocess.run("rm -f %s.c %s.cpython*; /opt/venv/bin/python %s_setup.py build_ext --inplace --force" % (m, m, m), shell=True,
                               cwd=w + "/CasimirRio", env=dict(ENV, CFLAGS="-I" + inc), capture_output=True, text=True)
            if r.returncode:
                return name + ": BUILD " + r.stderr[-300:]
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "--continue-on-collection-errors",
                        "-o", "junit_family=xunit2", "--junitxml=%s/r.xml" % d, "tests"], cwd=w + "/CasimirRio", env=ENV, capture_output=True)
        if not os.path.exists(d + "/r.xml"):
            return name + ": the tests crash"
        ok = set()
        for tc in ET.parse(d + "/r.xml").iter("testcase"):
            if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                ok.add(tc.get("classname") + "::" + tc.get("name"))
        if stable - ok:
            return name + ": killed by tests %s" % sorted(stable - ok)[:2]
        subprocess.run("mkdir %s/v; cp -a /verif/run.sh /verif/vlib /verif/checks /verif/KNOWN_FINDINGS.txt %s/v" % (d, d), shell=True)
        res = []
        for c in props.split():
            e = dict(os.environ, VERIF_SRC=w + "/CasimirRio", VERIF_PROCS="3", VERIF_MAXVIOL="1")
            q = subprocess.run([d + "/v/run.sh", c], cwd=d + "/v", env=e, capture_output=True, text=True)
            res.append("%s=%d %s" % (c, q.returncode, [x.strip()[:110] for x in q.stdout.splitlines() if "monitor '" in x][:1]))
        return name + ": " + ("" if any("=1 " in r for r in res) else "MISSED ") + "; ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get("PAR", "2"))) as ex:
    for r in ex.map(one, [p for p in P if not want or p[0] in want]):
        print(r, flush=True)
