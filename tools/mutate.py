"""Mutation survey: mutate.py OUT.jsonl N SEED [files...]  -- samples N syntactic mutants of the package, filters those the repository's tests
kill and runs the checks related to the mutated file.  Survivors are looked at by hand."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, re
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
OUT, N, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
REL = {"bessel_sk.py": "C01 C03 C06", "cython_gaunt.pyx": "C02 C15", "matrix_balancing.pyx": "C14 C15", "scattering.py": "C03 C04 C05 C12 C07 C11",
       "stratified_sphere_scattering.py": "C05 C07 C09", "translation.py": "C06 C04 C07 C21", "geometry.py": "C07 C04 C08 C19 C20 C21 C14 C09 C11 C10",
       "thermodynamics.py": "C10 C21 C20 C19 C09", "PFA.py": "C18 C12 C09", "raw_PFA.py": "C12 C18 C09", "materials.py": "C13 C04 C03",
       "materials_converter.py": "C13", "helper_functions.py": "C17", "data_inter_extrapolation.py": "C17", "worker.py": "C16"}
SRC = "/repo/CasimirRio/"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SWAP = {"r1": "r2", "r2": "r1", "mat1": "mat2", "mat2": "mat1", "mat3": "mat2", "lmax": "lssmax", "lssmax": "lmax", "l1": "l2", "l2": "l1",
        "TEsgn": "TMsgn", "bTE": "bTM", "aTE": "aTM", "MieA": "MieB", "MieB": "MieA", "eps": "mu", "epsilon": "mu", "mu": "epsilon",
        "argmax": "argmin", "max": "min", "min": "max", "lmin": "lmax", "nmin": "nmax"}
BOP = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"]}
OPT = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
CMT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}


def muts(f):
    s = open(SRC + f, encoding="utf8").read()
    if f.endswith(".pyx"):
        out = []
        for i, line in enumerate(s.split("\n")):
            code = line.split("#")[0]
            if not code.strip() or code.strip().startswith(("import", "cimport", "from", "@", '"""', "def")):
                continue
            for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
                for v in (int(m.group(1)) + 1, int(m.group(1)) - 1):
                    out.append((i + 1, "const %s->%d" % (m.group(1), v), line[:m.start()] + str(v) + line[m.end():]))
            for m in re.finditer(r" ([-+*/<>]|<=|>=|==) ", code):
                o = m.group(1)
                n = {"+": "-", "-": "+", "*": "/", "/": "*", "<": "<=", ">": ">=", "<=": "<", ">=": ">", "==": "!="}[o]
                out.append((i + 1, "%s->%s" % (o, n), line[:m.start(1)] + n + line[m.end(1):]))
        L = s.split("\n")
        return [(a, b, "\n".join(L[:a - 1] + [c] + L[a:])) for a, b, c in out]
    b = s.encode()
    tree = ast.parse(s)
    off = [0]
    for l in b.split(b"\n"):
        off.append(off[-1] + len(l) + 1)
    pos = lambda ln, c: off[ln - 1] + c
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "__name__" in ast.dump(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)) and n.name in ("blockmatrices_debug", "F_tempcorr", "l_konvergenz"):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n))

    def rep(n, what, a, e, new):
        out.append((n.lineno, what, (b[:a] + new.encode() + b[e:]).decode()))
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        a, e = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        if isinstance(n, ast.BinOp) and type(n.op) in BOP:
            x, y = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.right.lineno, n.right.col_offset)
            mid = b[x:y].decode()
            o = OPT[type(n.op)]
            if mid.count(o) >= 1 and isinstance(n.left, ast.AST) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                for r in BOP[type(n.op)]:
                    rep(n, "%s->%s" % (o, r), x, y, mid.replace(o, r, 1))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BOP:
            x, y = pos(n.target.end_lineno, n.target.end_col_offset), pos(n.value.lineno, n.value.col_offset)
            mid = b[x:y].decode()
            rep(n, "aug", x, y, mid.replace(OPT[type(n.op)] + "=", BOP[type(n.op)][0] + "=", 1))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            x, y = pos(n.left.end_lineno, n.left.end_col_offset), pos(n.comparators[0].lineno, n.comparators[0].col_offset)
            mid = b[x:y].decode()
            rep(n, "cmp " + mid.strip(), x, y, mid.replace(CMT[type(n.ops[0])], CMP[type(n.ops[0])], 1))
        elif isinstance(n, ast.BoolOp):
            x, y = pos(n.values[0].end_lineno, n.values[0].end_col_offset), pos(n.values[1].lineno, n.values[1].col_offset)
            mid = b[x:y].decode()
            o, r = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            rep(n, o + "->" + r, x, y, mid.replace(o, r, 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            t = b[a:e].decode()
            if isinstance(n.value, int):
                for v in {n.value + 1, n.value - 1}:
                    rep(n, "const %s->%d" % (t, v), a, e, str(v) if v >= 0 else "(%d)" % v)
            else:
                rep(n, "const %s*1.01" % t, a, e, repr(n.value * 1.01))
                if f != "materials.py":
                    rep(n, "const %s*10" % t, a, e, repr(n.value * 10))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            x = pos(n.operand.lineno, n.operand.col_offset)
            rep(n, "drop minus", a, x, "")
        elif isinstance(n, (ast.If, ast.While)):
            x, y = pos(n.test.lineno, n.test.col_offset), pos(n.test.end_lineno, n.test.end_col_offset)
            t = b[x:y].decode()
            if isinstance(n, ast.If):
                rep(n, "not cond", x, y, "not (" + t + ")")
                rep(n, "cond False", x, y, "False and (" + t + ")")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            rep(n, "%s->%s" % (n.attr, SWAP[n.attr]), e - len(n.attr), e, SWAP[n.attr])
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            rep(n, "%s->%s" % (n.id, SWAP[n.id]), a, e, SWAP[n.id])
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                continue
            rep(n, "delete statement", a, e, "pass")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            rep(n, "drop copy", pos(n.func.value.end_lineno, n.func.value.end_col_offset), e, "")
    return out


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/tmp/mut/mpl",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMEXPR_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell",
           NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")


def one(job):
    f, line, what, text = job
    d = tempfile.mkdtemp(prefix="m-", dir="/tmp/mut")
    w = d + "/repo"
    rec = dict(file=f, line=line, what=what, src=open(SRC + f, encoding="utf8").read().split("\n")[line - 1].strip()[:110])
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        open(w + "/CasimirRio/" + f, "w", encoding="utf8").write(text)
        if f.endswith(".pyx"):
            m = f[:-4]
            env = dict(ENV, CFLAGS="-I" + INC)
            r = subprocess.run("rm -f %s.c %s.cpython*; /opt/venv/bin/python %s_setup.py build_ext --inplace --force" % (m, m, m), shell=True,
                               cwd=w + "/CasimirRio", env=env, capture_output=True)
            if r.returncode:
                return dict(rec, verdict="nobuild")
        try:
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=%s/r.xml" % d, "tests"],
                       cwd=w + "/CasimirRio", env=ENV, capture_output=True, timeout=120) if False else \
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=%s/r.xml" % d, "tests"],
                       cwd=w + "/CasimirRio", env=ENV, capture_output=True, timeout=200)
        except subprocess.TimeoutExpired:
            return dict(rec, verdict="tests")
        if not os.path.exists(d + "/r.xml"):
            return dict(rec, verdict="tests")
        ok = {tc.get("classname") + "::" + tc.get("name") for tc in ET.parse(d + "/r.xml").iter("testcase")
              if not any(c.tag in ("failure", "error", "skipped") for c in tc)}
        if stable - ok:
            return dict(rec, verdict="tests")
        env = dict(os.environ, VERIF_SRC=w + "/CasimirRio", VERIF_SEED="1", VERIF_TIER="quick", VERIF_PROCS="2", VERIF_MAXVIOL="1")
        rcs = {}
        v = d + "/v"
        subprocess.run("mkdir %s; cp -a /verif/run.sh /verif/vlib /verif/checks /verif/KNOWN_FINDINGS.txt %s" % (v, v), shell=True)
        for c in REL[f].split():
            try:
                r = subprocess.run([v + "/run.sh", c], cwd=v, env=env, capture_output=True, text=True, timeout=1500)
                rcs[c] = r.returncode
            except subprocess.TimeoutExpired:
                rcs[c] = "timeout"
            if rcs[c] == 1:
                l = [x for x in r.stdout.splitlines() if "monitor '" in x][:1]
                return dict(rec, verdict="caught", by=c, rcs=rcs, how=l[0].strip()[:100] if l else "")
        import difflib
        diff = "".join(difflib.unified_diff(open(SRC + f, encoding="utf8").read().splitlines(1), text.splitlines(1), n=1))
        return dict(rec, verdict="SURVIVED", rcs=rcs, diff=diff)
    except Exception as e:
        return dict(rec, verdict="error", msg=repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)


INC = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy;print(numpy.get_include())"], capture_output=True, text=True).stdout.strip()
rng = random.Random(SEED)
files = sys.argv[4:] or list(REL)
jobs = []
for f in files:
    ms = muts(f)
    rng.shuffle(ms)
    print(f, len(ms), flush=True)
    jobs.append([(f,) + m for m in ms])
# round robin weighted by size
sel = []
tot = sum(len(j) for j in jobs)
for j in jobs:
    sel += j[:max(3, round(N * len(j) / tot))] if N > 0 else j
rng.shuffle(sel)
out = open(OUT, "a")
with ThreadPoolExecutor(int(os.environ.get("MUTPAR", "4"))) as ex:
    from concurrent.futures import as_completed
    for fu in as_completed([ex.submit(one, j) for j in sel]):
        r = fu.result()
        out.write(json.dumps(r) + "\n")
        out.flush()
print("done", len(sel))
