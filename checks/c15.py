import gc, glob, importlib.util, os, shutil, subprocess, sys, sysconfig, tempfile, tracemalloc
import numpy as np
from vlib import gen, build, harness

RULE = ("both compiled modules built from the working tree twice: with AddressSanitizer and UBSan, and with the compiled-out bounds checks "
        "switched on. All (l, l', m) of a sweep and random large or invalid ones, matrices of size 0..40 in every layout embedded in guard cells, "
        "wrong types, and whole energy calculations run on them; a report, an IndexError, a touched guard cell, a changed "
        "reference count or growing memory is a violation. Non-trivial: the routine returned a result that was looked at.")
ASSUMPTIONS = ["integers up to 1e6 in magnitude (C int arithmetic) and 0 < conv < 1", "NumPy and the interpreter are not instrumented, only their allocations "
               "are guarded"]
REQUIRED = {"gaunt calls": 3000, "gaunt calls (bounds checked)": 3000, "balance calls": 150, "balance calls (bounds checked)": 150, "guard cells": 150,
            "reference counts": 150, "memory steady": 8, "energies": 8, "wrong type refused": 30, "negative orders": 20}
CPU_LIMIT = 300


def cases(rng, tier):
    f = 1 if tier == "quick" else 12
    c = gen.mkcases(rng, {"gaunt": 24 * f, "balance": 200 * f, "refuse": 8 * f, "leak": 6 * (1 if f == 1 else 4), "energy": 10 * f})
    top = 12 if tier == "quick" else 40
    c += [dict(kind="sweep", seed=l, no=l, top=top) for l in range(0, top + 1)]
    rng.shuffle(c)
    return c


def libs():
    out = []
    for n in ("libasan.so", "libubsan.so", "libstdc++.so.6"):
        p = subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
        if os.path.isabs(p):
            out.append(os.path.realpath(p))
    return out


def main(prop, tier, seed, replay, t0):
    if os.environ.get("VERIF_ASAN_CHILD"):
        return harness.decide(sys.modules[__name__], prop, tier, seed, [os.environ["VERIF_EXT"], build.SRC, harness.ROOT], replay, t_start=t0)
    dirs = []
    log = tempfile.mkdtemp(prefix="verif-asan-")
    try:
        try:
            dirs.append(build.build("asan"))
            dirs.append(build.build("plain", checked=True))
        except RuntimeError as e:
            print("INCONCLUSIVE property=%s build failed\n%s" % (prop, e))
            return 2
        env = dict(os.environ, VERIF_ASAN_CHILD="1", VERIF_EXT=dirs[0], VERIF_EXT_CHECKED=dirs[1], PYTHONMALLOC="malloc",
                   LD_PRELOAD=":".join(libs()), VERIF_ASAN_LOG=log,
                   ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:handle_segv=1:exitcode=77:log_path=%s/asan" % log,
                   UBSAN_OPTIONS="print_stacktrace=1:exitcode=77:log_path=%s/ubsan" % log)
        args = [sys.executable, "-W", "ignore", "-m", "vlib.main", prop] + (["--replay", replay] if replay else [])
        rc = subprocess.run(args, cwd=harness.ROOT, env=env).returncode
        for p in sorted(glob.glob(log + "/*"))[:2]:
            print("--- sanitizer report\n" + "\n".join(open(p, errors="replace").read().splitlines()[:25]))
        return rc
    finally:
        for d in dirs + [log]:
            shutil.rmtree(d, ignore_errors=True)


MODS = {}


def init():
    import cython_gaunt, matrix_balancing
    for m in (cython_gaunt, matrix_balancing):
        if not m.__file__.startswith(os.environ["VERIF_EXT"]):
            raise RuntimeError("wrong module loaded: " + m.__file__)
    MODS["asan"] = (cython_gaunt.gaunt, matrix_balancing.balance)
    out = []
    for n in ("cython_gaunt", "matrix_balancing"):
        p = os.path.join(os.environ["VERIF_EXT_CHECKED"], n + sysconfig.get_config_var("EXT_SUFFIX"))
        s = importlib.util.spec_from_file_location(n, p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        out.append(m)
    MODS["checked"] = (out[0].gaunt, out[1].balance)
    if "asan" not in open("/proc/self/maps").read():
        raise RuntimeError("AddressSanitizer is not active")


def vec(mon, l, lp, m):
    a = MODS["asan"][0](l, lp, m)
    mon.event("gaunt calls")
    b = MODS["checked"][0](l, lp, m)
    mon.event("gaunt calls (bounds checked)")
    n = (l + lp - abs(l - lp)) // 2 + 1
    ok = isinstance(a, np.ndarray) and a.shape == (n,) and np.array_equal(a, b, equal_nan=True)
    if abs(m) > min(l, lp):
        ok = ok and not np.any(a)
    else:
        ok = ok and np.isfinite(a).all()
    if not ok:
        mon.fail("intact result", "gaunt(%d, %d, %d) returned %r and %r with bounds checks" % (l, lp, m, a, b))
    return a


def embed(g, a):
    """a view with the contents of a inside an array of guard cells"""
    n, p = a.shape
    k = int(g.integers(7))
    if k == 0:
        return a.copy(), None, "own"
    if k == 1:
        return np.asfortranarray(a), None, "Fortran"
    s0, s1 = [int(x) for x in g.integers(1, 4, 2)]
    if k == 2:
        s0 = s1 = 1
    o0, o1 = [int(x) for x in g.integers(0, 4, 2)]
    big = np.full((o0 + s0 * n + 3, o1 + s1 * p + 3), np.nan)
    v = big[o0:o0 + s0 * n:s0, o1:o1 + s1 * p:s1] if n and p else big[:n, :p]
    lay = "embedded, strides %d %d" % (s0, s1)
    if k == 4:
        v, lay = v[::-1], lay + ", rows reversed"
    if k == 5:
        v, lay = v[:, ::-1], lay + ", columns reversed"
    if k == 6:
        v, lay = v.T, lay + ", transposed"
    v[...] = a
    return v, big, lay


def run(case, mon):
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind == "sweep":
        l, top = case["no"], case["top"]
        for lp in range(top + 1):
            for m in range(-min(l, lp) - 2, min(l, lp) + 3):
                vec(mon, l, lp, m)
        mon.note(l=l, lp=[0, top])
        mon.true("sweep done", True)
        return
    if kind == "gaunt":
        t = []
        for _ in range(60):
            l, lp = [int(x) for x in g.integers(0, 91, 2)]
            if g.random() < .1:
                l, lp = [int(x) for x in g.integers(0, 600, 2)]
            if g.random() < .2:
                lp = int(g.integers(0, 4))
            mn = min(l, lp)
            m = [int(g.integers(-mn, mn + 1)), mn, -mn, mn - 1, mn + 1, -mn - 1, int(g.integers(-10 ** 6, 10 ** 6)), 0][int(g.integers(8))]
            t.append((l, lp, m))
            if max(l, lp) > 90:       # beyond the range of exact values: only memory counts
                for f in (MODS["asan"][0], MODS["checked"][0]):
                    f(l, lp, m)
                mon.event("gaunt calls")
                mon.event("gaunt calls (bounds checked)")
            else:
                vec(mon, l, lp, m)
        mon.note(calls=t)
        for _ in range(6):
            a = [int(x) for x in g.integers(-40, 40, 3)]
            a[int(g.integers(2))] = -int(g.integers(1, 40))
            for f in (MODS["asan"][0], MODS["checked"][0]):
                try:
                    f(*a)
                except (ValueError, OverflowError, MemoryError, ZeroDivisionError):
                    pass
                except IndexError as e:
                    mon.fail("negative orders", "%s: %s" % (a, e))
                mon.event("negative orders")
        for bad in ((1.5, 2, 0), ("1", 2, 0), (None, 1, 0), (1, 2), (2 ** 40, 1, 0), (np.array([1, 2]), 1, 0)):
            for f in (MODS["asan"][0], MODS["checked"][0]):
                try:
                    f(*bad)
                except (TypeError, ValueError, OverflowError):
                    mon.event("wrong type refused")
        mon.true("gaunt batch done", True)
        return
    if kind == "balance":
        n = int(g.integers(0, 41)) if g.random() < .6 else int(g.integers(0, 4))
        if g.random() < .03:
            n = int(g.integers(60, 400))
            mon.reach("more than 60 rows")
        a = g.normal(size=(n, n)) * 10 ** g.uniform(-6, 6, (n, n))
        if n and g.random() < .2:
            a[int(g.integers(n))] = 0
        if n and g.random() < .15:
            a[tuple(g.integers(n, size=2))] = [np.inf, np.nan, 1e308, 1e-320][int(g.integers(4))]
        res = []
        for name in ("asan", "checked"):
            gg = np.random.default_rng(case["seed"] + 1)
            v, big, lay = embed(gg, a)
            guard = None
            if big is not None:
                mask = np.ones(big.shape, bool)
                idx = ((v.__array_interface__["data"][0] - big.__array_interface__["data"][0]) // 8 +
                       np.arange(v.shape[0])[:, None] * (v.strides[0] // 8) + np.arange(v.shape[1])[None, :] * (v.strides[1] // 8)) if v.size else np.zeros(0, int)
                mask.ravel()[np.ravel(idx)] = False
                guard = (big, mask)
            rc = (sys.getrefcount(v), sys.getrefcount(big) if big is not None else 0)
            out = MODS[name][1](v)
            mon.event("balance calls" if name == "asan" else "balance calls (bounds checked)")
            if guard:
                mon.true("guard cells", np.isnan(guard[0][guard[1]]).all(), "cells outside of the matrix were written, layout %s" % lay)
            res.append(np.array(out))
            same = out is v
            del out
            r2 = (sys.getrefcount(v), sys.getrefcount(big) if big is not None else 0)
            mon.true("reference counts", r2 == rc, "%s before, %s after (returned its argument: %s)" % (rc, r2, same))
            mon.reach(lay.split(",")[-1].strip() if "," in lay else lay)
        mon.note(n=n, layout=lay, first=a[:1, :40].tolist())
        mon.true("intact result", res[0].shape == (n, n) and np.array_equal(res[0], res[1], equal_nan=True), "the bounds-checked build returns something else")
        if np.isfinite(a).all():
            mon.true("intact result", not np.isnan(res[0]).any(), "a guard cell (NaN) was read")
        return
    if kind == "refuse":
        mon.note(kind="refuse")
        ro = np.array([[1., 1e6, 2.], [1e-5, 3., 1.], [2., 1e-3, 1.]])
        ro.flags.writeable = False
        for b in (np.ones((2, 3)), np.ones((3, 2)), np.ones((0, 4)), np.ones((40, 1)), np.eye(3, dtype=int), np.eye(3, dtype=np.float32), np.ones(3), np.ones((2, 2, 2)),
                  None, [[1.0]], "x", np.eye(3) * 1j, ro, np.eye(3).astype(">f8"), np.array([[1.0, 2.0], [3.0, 4.0]], dtype=object)):
            for f in (MODS["asan"][1], MODS["checked"][1]):
                keep = np.array(b, copy=True) if isinstance(b, np.ndarray) else None
                try:
                    f(b)
                except (ValueError, TypeError):
                    mon.event("wrong type refused")
                except IndexError as e:
                    mon.fail("wrong type refused", "out of bounds: %s" % e)
                else:
                    if b is not ro:
                        mon.fail("wrong type refused", "%r was accepted" % (getattr(b, "shape", b),))
                if keep is not None:
                    mon.true("refused input kept", np.array_equal(keep, b), "a refused argument was changed")
        return
    if kind == "leak":
        n = int(g.integers(2, 12))
        l, lp = [int(x) for x in g.integers(1, 30, 2)]
        m = int(g.integers(0, min(l, lp) + 2))
        mon.note(n=n, l=l, lp=lp, m=m)
        a = g.normal(size=(n, n)) * 10 ** g.uniform(-3, 3, (n, n))
        for name in ("asan", "checked"):
            ga, ba = MODS[name]

            def good():
                ga(l, lp, m)
                ba(a.copy())

            def failing():
                for f, x in ((ga, (-3, 2, 0)), (ga, ("x", 1, 1)), (ba, (np.ones((2, 3)),)), (ba, (None,)), (ba, (np.ones(4, int),))):
                    try:
                        f(*x)
                    except (ValueError, TypeError):
                        pass
            for what in (good, failing):
                for _ in range(20):
                    what()
                gc.collect()
                tracemalloc.start()
                try:
                    for _ in range(5):
                        what()
                    gc.collect()
                    before = tracemalloc.get_traced_memory()[0]
                    rc = [sys.getrefcount(x) for x in (np, np.float64, np.zeros, np.float64(0).dtype, None)]
                    N = 300
                    for _ in range(N):
                        what()
                    gc.collect()
                    after = tracemalloc.get_traced_memory()[0]
                    rc2 = [sys.getrefcount(x) for x in (np, np.float64, np.zeros, np.float64(0).dtype, None)]
                finally:
                    tracemalloc.stop()
                mon.true("memory steady", after - before < 8 * N, "%d bytes more after %d calls (%s)" % (after - before, N, what.__name__))
                grown = max(abs(y - x) for x, y in zip(rc, rc2) if x < 2 ** 31)
                mon.true("memory steady", grown < N // 2, "reference counts of shared objects moved by %d in %d calls" % (grown, N))
        return
    # whole calculations on top of the instrumented modules
    from vlib import insitu
    import geometry, translation
    insitu.workload(g, mon)()
    mon.true("energies", True)
    old = [(geometry, "balance"), (translation, "gaunt")]
    sub = {"balance": MODS["checked"][1], "gaunt": MODS["checked"][0]}
    saved = [(o, n, getattr(o, n)) for o, n in old if hasattr(o, n)]
    try:
        for o, n, _ in saved:
            setattr(o, n, sub[n])
        insitu.workload(np.random.default_rng(case["seed"]), mon)()
        mon.true("energies", True)
    finally:
        for o, n, f in saved:
            setattr(o, n, f)
