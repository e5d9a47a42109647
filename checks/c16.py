import glob, os, re, shutil, subprocess, sys, tempfile
import numpy as np
from vlib import gen, build

RULE = ("random job files over all documented keys, quantities, materials and spheres (solid, layered), run by the real worker program in "
        "a scratch directory, with and without a distance on the command line, repeatedly into the same name and next to foreign files; "
        "a monitor compares the directory before and after every run, parses the new file and compares header and rows with a library "
        "calculation of its own; several workers at once write to one name, held by an audit hook until all of them are about to open their "
        "result; jobs that fail, or are killed while they compute, must leave no result. Non-trivial: a result file was read back and compared.")
ASSUMPTIONS = ["the order of header lines and the name of the second and later result files are not prescribed beyond starting with the "
               "requested name"]
ROUNDS = 2
REQUIRED = {"rows": 60, "header": 200, "one new file": 40, "old files kept": 60, "failed job leaves nothing": 8, "jobs at the same time": 8, "killed job leaves nothing": 2}
CPU_LIMIT = 300
RUN = ("import sys, runpy; sys.path[:0] = {paths!r}; sys.argv = [{worker!r}] + sys.argv[1:]; "
       "runpy.run_path({worker!r}, run_name='__main__')")


# holds every opening of a result for writing until n workers have come as far (or three seconds have passed)
HOLD = """
import os, sys, time
def hold(d, name, n, me, state=[]):
    def hook(event, args):
        if event != "open" or state or not isinstance(args[0], (str, bytes, os.PathLike)):
            return
        f = os.fsdecode(args[0])
        if not os.path.basename(f).startswith(name) or not isinstance(args[2], int) or not args[2] & (os.O_WRONLY | os.O_RDWR):
            return
        state.append(1)
        os.mkdir(os.path.join(d, "at-%d" % me))
        t = time.time()
        while time.time() - t < 3 and sum(x.startswith("at-") for x in os.listdir(d)) < n:
            time.sleep(.005)
    sys.addaudithook(hook)
"""


# ends the process (kill -9) when the library, not the worker itself, makes its n-th call
KILL = """
import os, signal, sys
def kill(src, n, seen=[0]):
    def hook(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if os.path.dirname(f) == src and os.path.basename(f) != "worker.py":
                seen[0] += 1
                if seen[0] == n:
                    os.kill(os.getpid(), signal.SIGKILL)
    sys.setprofile(hook)
"""


def cases(rng, tier):
    f = 1 if tier == "quick" else 10
    return gen.mkcases(rng, {"job": 34 * f, "repeat": 8 * f, "bad": 10 * f, "race": 4 * f, "killed": 6 * f, "example": 1})


def snap(d):
    return {p: open(os.path.join(d, p), "rb").read() for p in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, p))}


def worker(d, args, pre=""):
    code = pre + RUN.format(paths=[os.environ.get("VERIF_EXT", ""), build.SRC], worker=build.SRC + "/worker.py")
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code] + args, cwd=d, capture_output=True, text=True, timeout=280)
    return p.returncode, (p.stdout + p.stderr)[-1500:]


def together(d, jobs, sync, name):
    """workers at the same time; jobs: argument lists"""
    run = RUN.format(paths=[os.environ.get("VERIF_EXT", ""), build.SRC], worker=build.SRC + "/worker.py")
    ps = []
    for i, a in enumerate(jobs):
        code = HOLD + "hold(%r, %r, %d, %d)\n" % (sync, name, len(jobs), i) + run
        ps.append(subprocess.Popen([sys.executable, "-W", "ignore", "-c", code] + a, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True))
    out = [p.communicate(timeout=280)[0] for p in ps]
    return [p.returncode for p in ps], out, len(os.listdir(sync))


POOL = ["Gold", "Vacuum", "Water", "Polystyrene", "Gold_plasma", "Silicon", "PerfectConductor", "Mercury", "Gold_magnetic", "Ethanol"]


def job(g, kind):
    ext = g.random() < .75
    r1, r2, L = gen.exterior(g, gap=(0, .9), ratio=.35) if ext else gen.interior(g)
    if not all(isinstance(x, int) for x in (r1, r2, L)):
        r1, r2, L = gen.sig(r1, 5), gen.sig(r2, 5), gen.sig(L, 5)
    elif max(r1, r2) > 2.5 * min(r1, r2):
        r1, r2, L = 2, 3, 8
    if (L > r1 + r2) != ext or (not ext and r2 - r1 - L < .05 * r1):
        ext, r1, r2, L = True, 1.0, 1.3, 3.1
    gap = L - r1 - r2 if ext else r2 - r1 - L
    md = "Vacuum" if g.random() < .6 else ["Water", "Ethanol"][int(g.integers(2))]
    pick = lambda pool=POOL: [m for m in pool if m != md][int(g.integers(len([m for m in pool if m != md])))]
    m1, m2 = pick(), pick()
    if ext and g.random() < .35:
        inner = [m for m in POOL if m != "PerfectConductor"]
        if g.random() < .5:
            m1, r1 = [pick(inner), pick(inner), md], [gen.sig(r1 * .6, 4), r1]
        else:
            m2, r2 = [pick(), pick(inner), pick(inner), md], [gen.sig(r2 * .4, 4), gen.sig(r2 * .8, 4), r2]
    auto = g.random() < .3
    j = dict(ra=r1, rb=r2, d=L, mata=m1, matb=m2, matmd=md, precision=[1e-2, 1e-3, 1e-5, 3e-8][int(g.integers(4))],
             lmax="automatic" if auto else int(g.integers(1, 5)), lssmax="automatic" if g.random() < .5 else int(g.integers(1, 7)),
             l_offset=int(g.integers(0, 3)), evaluation="trace" if g.random() < .2 else "lndet", analytic_n0=bool(g.random() < .7))
    if isinstance(j["lssmax"], int) and isinstance(j["lmax"], int):
        j["lssmax"] = max(j["lssmax"], j["lmax"])
    if auto:
        if isinstance(j["lssmax"], int):
            j["lssmax"] = j["lssmax"] + 14 if ext else "automatic"                               # lssmax has to exceed lmax
        j["precision"] = [1e-1, 1e-2][int(g.integers(2))]
    dT = gen.sig(10 ** g.uniform(-1, .5) / gap, 4)
    nT = int(g.integers(2, 7)) if g.random() < .85 else 1
    q = ["free_energy()", "free_energy()", "entropy()", "get_f_matsubaras(0)", "get_f_matsubaras(2)", "get_f_matsubaras(0, 3)", "force()",
         "e0()", "e0(0.1, 2.5)"][int(g.integers(9))]
    j.update(Tmin=dT, Tmax=gen.sig(dT * nT, 12), nmax="automatic" if g.random() < .25 else int(g.integers(3, 12)), quantity=q)
    if g.random() < .1:                                     # the classical term alone
        j.update(nmax=0, quantity=["free_energy()", "get_f_matsubaras(0)", "force()"][int(g.integers(3))])
    if g.random() < .08:                                    # hundreds of rows
        nT = int(g.integers(150, 500))
        j.update(Tmax=gen.sig(dT * nT, 12), lmax=int(g.integers(1, 3)), lssmax=3)
        if j["quantity"].startswith("get"):
            j["nmax"] = nT
    if nT == 1 and "entropy" in j["quantity"]:              # needs two temperatures
        j["quantity"] = "free_energy()"
    if j["evaluation"] == "trace" and j["quantity"].startswith("e0"):
        j["quantity"] = "free_energy()"
    if j["quantity"].startswith("e0"):                      # a quadrature over many single frequencies
        j.update(lmax=int(g.integers(1, 3)), lssmax=int(g.integers(2, 4)))
    return j


def text(j, g, missing=()):
    num = lambda x: ", ".join(repr(v) for v in x) if isinstance(x, list) else repr(x)
    mat = lambda x: ", ".join("materials." + v for v in x) if isinstance(x, list) else "materials." + x
    geo = ["ra: " + num(j["ra"]), "rb: " + num(j["rb"]), "d: %r" % j["d"], "lmax: %s" % j["lmax"], "lssmax: %s" % j["lssmax"],
           "l_offset: %d" % j["l_offset"], "evaluation: " + j["evaluation"], "analytic_n0: %s" % j["analytic_n0"],
           "precision: %r" % j["precision"]]
    ma = ["mata: " + mat(j["mata"]), "matb: " + mat(j["matb"]), "matmd: " + mat(j["matmd"])]
    th = ["Tmin: %r" % j["Tmin"], "Tmax: %r" % j["Tmax"], "nmax: %s" % j["nmax"], "quantity: " + j["quantity"]]
    out = ""
    secs = [("geometry", geo), ("materials", ma), ("thermodynamics", th)]
    for i in g.permutation(3):
        n, lines = secs[i]
        lines = [x for x in lines if x.split(":")[0] not in missing]
        out += "[%s]\n# a comment\n" % n + "\n".join(lines[k] for k in g.permutation(len(lines))) + "\n\n"
    return out


def library(j, L):
    import geometry as G, thermodynamics as TH, materials as M
    mat = lambda x: [getattr(M, v) for v in x] if isinstance(x, list) else getattr(M, x)
    cp = lambda x: list(x) if isinstance(x, list) else x
    o = G.SphereSphere(r1=cp(j["ra"]), r2=cp(j["rb"]), L=L, mat1=mat(j["mata"]), mat2=mat(j["matb"]), mat3=mat(j["matmd"]), lmax=j["lmax"],
                       l_offset=j["l_offset"], lssmax=j["lssmax"], precision=j["precision"], evaluation=j["evaluation"])
    f = TH.finiteT(j["Tmin"], j["nmax"], j["Tmax"], o, j["analytic_n0"] and not isinstance(j["ra"], list) and not isinstance(j["rb"], list))
    name, arg = re.match(r"(\w+)\((.*)\)", j["quantity"]).groups()
    return o, f, np.asarray(getattr(f, name)(*[float(a) if "." in a else int(a) for a in arg.split(",") if a.strip()]))


def check(mon, j, L, raw, cfgname, g):
    txt = raw.decode()
    head = "\n".join(x for x in txt.splitlines() if x.startswith("#"))
    o, f, want = library(j, L)
    try:
        rows = np.array([[float(v) for v in x.split(",")] for x in txt.splitlines() if x.strip() and not x.startswith("#")])
    except ValueError as e:
        mon.fail("rows", "unreadable: %s" % e)
        return
    w = want.reshape(len(want), -1)
    if j["quantity"].startswith("e0"):
        # value and error estimate; the latter only has to be there
        if mon.true("rows", rows.shape == w.shape, "shape %s instead of %s" % (rows.shape, w.shape)):
            mon.close("rows", rows[:, 0], w[:, 0], 1e-9, 1e-14)
    else:
        mon.close("rows", rows, w, 1e-9 if "entropy" in j["quantity"] else 2e-12, 1e-13 * np.abs(w).max() + 1e-300, L=L)

    def field(pat, want, num=True):
        m = re.search(pat, head)
        if not m:
            return mon.fail("header", "no match of %r in\n%s" % (pat, head[:600]))
        got = m.group(1).strip()
        if num and isinstance(want, list):
            got = [float(v) for v in got.strip("[]()").split(",")]
            ok = len(got) == len(want) and np.allclose(got, want, 1e-6, 0)
        elif num:
            ok = abs(float(got) - want) <= max(1e-6 * abs(want), .51e-4 if "T" in pat else 0)
        else:
            ok = re.sub(r"\s", "", got) == re.sub(r"\s", "", want)
        mon.true("header", ok, "header says %s for %r, used %s" % (got, pat, want))
    mat = lambda x: ", ".join("materials." + v for v in x) if isinstance(x, list) else "materials." + x
    field(r"r1 = (.*?), r2", j["ra"])
    field(r"r2 = (.*?), d", j["rb"])
    field(r"\bd = (\S+)", L)
    field(r"mat1 = (.*?), mat2", mat(j["mata"]), False)
    field(r"mat2 = (.*?), matMd", mat(j["matb"]), False)
    field(r"matMd = (.*)", mat(j["matmd"]), False)
    field(r"lmax = (\d+), l_off", o.lmax)
    field(r"lssmax = (\d+)", o.lssmax)
    field(r"l_offset = (\d+)", j["l_offset"])
    field(r"nmax = (\d+)", f.nmax)
    field(r"deltaT\s*= (\S+?),? ", j["Tmin"])
    field(r"Tmax = (\S+)", j["Tmax"])
    field(r"quantity: (.*)", j["quantity"], False)
    field(r"evaluation: (.*)", j["evaluation"], False)
    field(r"precision: (.*)", j["precision"])
    mon.true("header", cfgname in head, "the job is not named")
    if j["evaluation"] == "trace":
        mon.true("round trips reported", "order of the trace expansion" in head or "round-trip" in head, "no order of the expansion")


def run(case, mon):
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    d = tempfile.mkdtemp(prefix="verif-job-")
    try:
        go(g, kind, d, mon)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(g, kind, d, mon):
    j = job(g, kind)
    if kind == "example":
        # the documented example, run from its directory's copy
        shutil.copy(build.SRC + "/examples/jobfile.config", d)
        j = dict(ra=1.0, rb=1.0, d=3.0, mata="PerfectConductor", matb="PerfectConductor", matmd="Vacuum", lmax="automatic", l_offset=4,
                 lssmax="automatic", evaluation="lndet", analytic_n0=True, precision=1e-5, Tmin=.804, Tmax=10.0, nmax="automatic",
                 quantity="get_f_matsubaras(0)")
        rc, out = worker(d, ["jobfile.config", "result.dat"])
        mon.note(example=True)
        if mon.true("one new file", rc == 0 and sorted(os.listdir(d)) == ["jobfile.config", "result.dat"], "exit %s, %s" % (rc, out)):
            check(mon, j, 3.0, snap(d)["result.dat"], "jobfile.config", g)
        return
    cfg, res = ["job.config", "a b.cfg", "x-1"][int(g.integers(3))], ["out.result", "r", "data.1.dat"][int(g.integers(3))]
    if kind == "bad":
        t = int(g.integers(10))
        args = [cfg, res]
        s = text(j, g)
        if t == 0:
            args = [cfg]
        elif t == 1:
            args = [cfg, res, "3.0", "4.0"]
        elif t == 2:
            s = s.replace("quantity: ", "quantity: no_")
        elif t == 3:
            s = text(j, g, missing=("ra",))
        elif t == 5:                                     # forgot to call it: nothing that could be written as rows
            s = re.sub(r"(quantity ?[:=] ?\w+)\(.*\)", r"\1", s)
        elif t == 6:
            s = re.sub(r"(quantity ?[:=] ?).*", r"\1nmax", s)
        elif t == 7:
            args = [cfg, res, "far"]
        elif t == 8:
            s = re.sub(r"(mat[ab] ?[:=] ?materials\.)", r"\1No", s)
        elif t == 9:
            s = re.sub(r"(Tmax ?[:=] ?)", r"\1x", s)
        else:
            args = ["missing.config", res]
        open(os.path.join(d, cfg), "w").write(s)
        mon.note(job=s, args=args)
        if g.random() < .3:
            open(os.path.join(d, res), "w").write("# an earlier result\n1.0\n")
        old = snap(d)
        rc, out = worker(d, args)
        mon.reach("failing job %d" % t)
        mon.true("failed job leaves nothing", rc != 0 and snap(d) == old, "exit %d, files %s, %s" % (rc, sorted(snap(d)), out[-300:]))
        return
    if kind == "killed":
        j["lmax"], j["lssmax"] = int(g.integers(2, 4)), 4
        n = int(10 ** g.uniform(1.8, 3.8))
        open(os.path.join(d, cfg), "w").write(text(j, g))
        mon.note(job=text(j, g), name=res, killed_at_call=n)
        if g.random() < .4:
            open(os.path.join(d, res), "w").write("# an earlier result\n1.0\n")
        old = snap(d)
        rc, out = worker(d, [cfg, res], KILL + "kill(%r, %d)\n" % (build.SRC, n))
        if rc == -9:
            mon.reach("killed while computing")
            mon.true("killed job leaves nothing", snap(d) == old, "files %s" % sorted(snap(d)))
            rc, out = worker(d, [cfg, res])
        else:
            mon.reach("done before it was killed")
        new = snap(d)
        fresh = sorted(set(new) - set(old))
        if mon.true("one new file", rc == 0 and len(fresh) == 1 and all(new[p] == old[p] for p in old), "exit %s, new files %s, %s" % (rc, fresh, out)):
            check(mon, j, j["d"], new[fresh[0]], cfg, g)
        return
    if kind == "race":
        j["lmax"], j["lssmax"] = 2, 3
        n = int(g.integers(2, 4))
        open(os.path.join(d, cfg), "w").write(text(j, g))
        ra, rb = (x[-1] if isinstance(x, list) else x for x in (j["ra"], j["rb"]))
        Ls = [gen.sig(j["d"] * (1 + .2 * i) if j["d"] > ra + rb else j["d"] * (1 - .2 * i), 6) for i in range(n)]
        if g.random() < .4:
            open(os.path.join(d, res), "w").write("# not to be touched\n")
        old = snap(d)
        sync = tempfile.mkdtemp(prefix="verif-sync-")
        try:
            rcs, outs, met = together(d, [[cfg, res, repr(L)] for L in Ls], sync, res)
        finally:
            shutil.rmtree(sync, ignore_errors=True)
        mon.note(job=text(j, g), distances=Ls, name=res)
        mon.reach("%d of %d workers met at the result file" % (met, n))
        new = snap(d)
        fresh = sorted(set(new) - set(old))
        if not mon.true("jobs at the same time", rcs == [0] * n and len(fresh) == n and all(new[p] == old[p] for p in old),
                        "%d jobs at once: exits %s, new files %s, changed %s" % (n, rcs, fresh, [p for p in old if new.get(p) != old[p]])):
            return
        for L in Ls:
            mine = [p for p in fresh if re.search(r"\bd = %s\b" % re.escape(str(float(L))), new[p].decode())]
            if mon.true("jobs at the same time", len(mine) == 1, "results for distance %s: %s of %s" % (L, mine, fresh)):
                check(mon, j, L, new[mine[0]], cfg, g)
        return
    gone = ("evaluation",) if j["evaluation"] == "lndet" and g.random() < .1 else ()
    if j["lmax"] != "automatic" and g.random() < .1:
        gone, j["l_offset"] = gone + ("l_offset",), 0
        mon.reach("no offset given")
    s = text(j, g, missing=gone)
    if g.random() < .15:                                    # files elsewhere
        os.mkdir(os.path.join(d, "jobs"))
        cfg = "jobs/" + cfg if g.random() < .5 else os.path.join(d, "jobs", cfg)
        mon.reach("job file in another directory")
    far = os.path.join(d, res) if g.random() < .1 else res
    open(os.path.join(d, cfg), "w").write(s)
    if g.random() < .15:                                    # the job has been run many times
        for i in range(int(g.integers(3, 12))):
            open(os.path.join(d, res + "1" * i), "w").write("# result number %d\n%s\n" % (i, g.random()))
        mon.reach("many earlier results")
    # foreign files that must survive
    for n in (res + ".bak", "other.dat") + ((res,) if g.random() < .5 else ()) + ((res + "1",) if g.random() < .3 else ()):
        open(os.path.join(d, n), "w").write("# not to be touched %s\n" % g.random() if g.random() < .75 else "")
    mon.note(job=s, name=res)
    R = lambda x: x[-1] if isinstance(x, list) else x
    for n in range(1 if kind == "job" else int(g.integers(3, 6))):
        L = j["d"]
        args = [cfg, res]
        if g.random() < .5:
            ra, rb = R(j["ra"]), R(j["rb"])
            L = gen.sig(j["d"] * g.uniform(1.05, 1.6), 6) if j["d"] > ra + rb else gen.sig(j["d"] * g.uniform(.3, .9), 6)
            args.append(repr(L))
            mon.reach("distance on the command line")
        if kind == "repeat" and g.random() < .3:
            # a changed job between two runs
            j["Tmin"] = gen.sig(j["Tmin"] * 1.3, 6)
            j["Tmax"] = gen.sig(j["Tmax"] * 1.3, 6)
            s = text(j, g)
            open(os.path.join(d, cfg), "w").write(s)
        args[1] = far
        old = snap(d)
        rc, out = worker(d, args)
        new = snap(d)
        if not mon.true("exit status", rc == 0, "exit %d: %s" % (rc, out)):
            return
        mon.true("old files kept", all(new.get(p) == old[p] for p in old), "changed: %s" % [p for p in old if new.get(p) != old[p]], run=n)
        mon.event("old files kept", len(old) - 1)
        fresh = sorted(set(new) - set(old))
        if not mon.true("one new file", len(fresh) == 1 and fresh[0].startswith(res), "new files: %s" % fresh, run=n):
            return
        if res not in old:
            mon.true("requested name used", fresh == [res], "wrote %s" % fresh)
        check(mon, j, L, new[fresh[0]], cfg, g)
    for t in ("layered" if isinstance(j["ra"], list) or isinstance(j["rb"], list) else "solid", j["quantity"], j["evaluation"],
              "lmax automatic" if j["lmax"] == "automatic" else "lmax given", "nmax automatic" if j["nmax"] == "automatic" else "nmax 0" if j["nmax"] == 0 else "nmax given"):
        mon.reach(t)
