import numpy as np
from mpmath import mp, mpf
from vlib import gen, ref, insitu

RULE = ("arrays of 1..12 arguments 1e-12..2e4 in random, sorted, reversed or duplicated order (a third "
        "straddle 1e-3 or 100), lmax 0..120; reference: recurrences in 40 digits; plus the calls made "
        "inside real energy calculations. Non-trivial: at least one comparison with a non-zero value.")
ASSUMPTIONS = ["arguments are positive finite floats, lmax an int",
               "tolerance 1e-10 + 1e-13|ln| and, for i_1 between 1e-3 and 0.5, 5e-15/x^3 (cancellation "
               "of the closed form in double precision)"]
ROUNDS = 2
REQUIRED = {"ln k": 2000, "ln i": 2000, "ratio I/I": 300}


def cases(rng, tier):
    f = 1 if tier == "quick" else 14
    return gen.mkcases(rng, {"table": 170 * f, "many": 10 * f, "cut": 60 * f, "ratio": 60 * f, "insitu": 24 * f})


def args(g, n=None):
    n = n or int(g.integers(1, 13))
    kind = g.integers(6)
    if n < 13 and g.random() < .07:
        x = 10 ** g.uniform(4, 6.5, min(n, 4)) if g.random() < .7 else 10 ** g.uniform(-2, 6.5, min(n, 4))
    elif kind == 0:
        x = 10 ** g.uniform(-12, 4.3, n)
    elif kind == 1:
        x = 10 ** g.uniform(-4, -2, n)
    elif kind == 2:
        x = 10 ** g.uniform(1.5, 4.3, n)
    elif kind == 3:
        x = 10 ** g.uniform(-2, 2, n)
    elif kind == 4:
        x = 1e-3 * (1 + g.choice([-1e-9, 0, 1e-9, -.2, .2], n))
    else:
        x = np.concatenate([10 ** g.uniform(-9, -3, n), 10 ** g.uniform(-3, 3, n)])
    x = np.array([gen.sig(v, 12) for v in x])
    o = g.integers(4)
    if o == 0:
        x = np.sort(x)
    elif o == 1:
        x = np.sort(x)[::-1].copy()
    elif o == 2:
        g.shuffle(x)
    return x


def exact(x, lmax):
    i = np.empty((len(x), lmax + 1))
    k = np.empty((len(x), lmax + 1))
    for n, v in enumerate(x):
        i[n] = [float(mp.log(a)) for a in ref.sph_i(lmax, v)]
        k[n] = [float(mp.log(a)) for a in ref.sph_k(lmax, v)]
    return i, k


def tol(x, lmax):
    t = np.full((len(x), lmax + 1), 1e-10)
    if lmax >= 1:
        m = (x >= .999e-3) & (x < .5)
        t[m, 1] += 5e-15 / x[m] ** 3
    return t


def run(case, mon):
    import bessel_sk as b
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind == "insitu":
        go = insitu.workload(g, mon)
        tap = insitu.Tap([("lniknu", b, "lniknu"), ("lnknu", b, "lnknu")], g, 6)
        with tap:
            go()
        for lab, evs in tap.events.items():
            for a, kw, r in evs:
                x, lmax = a
                if len(x) > 6:
                    sel = np.sort(g.choice(len(x), 6, replace=False))
                else:
                    sel = np.arange(len(x))
                I, K = exact(x[sel], lmax)
                if lab == "lniknu":
                    mon.close("ln i (in situ)", np.asarray(r[0])[sel], I, 1e-13, tol(x[sel], lmax), x=x, lmax=lmax)
                    mon.close("ln k (in situ)", np.asarray(r[1])[sel], K, 1e-13, 1e-10, x=x, lmax=lmax)
                else:
                    mon.close("ln k (in situ)", np.asarray(r)[sel], K, 1e-13, 1e-10, x=x, lmax=lmax)
            mon.event("calls seen in situ", tap.total.get(lab, 0))
        return
    if kind == "many":
        # long arrays, a sample of their elements
        x = np.concatenate([args(g) for _ in range(int(g.integers(20, 90)))])
        lmax = int(g.integers(0, 12))
        sel = np.unique(np.append(g.integers(0, len(x), 30), [0, len(x) - 1]))
        mon.note(x=x, lmax=lmax)
        I, K = exact(x[sel], lmax)
        i, k = b.lniknu(x.copy(), lmax)
        if mon.true("table size", np.shape(i) == np.shape(k) == (len(x), lmax + 1), "shapes %s %s" % (np.shape(i), np.shape(k))):
            mon.close("ln i", i[sel], I, 1e-13, tol(x[sel], lmax), lmax=lmax)
            mon.close("ln k", k[sel], K, 1e-13, 1e-10, lmax=lmax)
        mon.close("ln k", b.lnknu(x.copy(), lmax)[sel], K, 1e-13, 1e-10, lmax=lmax)
        mon.reach("more than 100 arguments")
        return
    x = args(g)
    if kind == "table":
        lmax = int(g.choice([0, 1, 2, 3, 5, 8, 13, 25, 40, 80, 120, g.integers(0, 121), g.integers(0, 121), g.integers(121, 320)]))
        if len(x) > 12 and lmax > 40:
            x = x[:12]
        mon.note(x=x, lmax=lmax)
        mon.reach("straddles 1e-3" if (x < 1e-3).any() and (x >= 1e-3).any() else
                  "all small" if (x < 1e-3).all() else "all large")
        if np.any(np.diff(x) < 0):
            mon.reach("unsorted")
        if x.max() > 100:
            mon.reach("x > 100")
        I, K = exact(x, lmax)
        lm = np.int64(lmax) if g.random() < .3 else lmax
        k = b.lnknu(x.copy(), lm)
        mon.close("ln k", k, K, 1e-13, 1e-10, x=x, lmax=lmax)
        i, k2 = b.lniknu(x.copy(), lm)
        t = tol(x, lmax)
        mon.close("ln i", i, I, 1e-13, t, x=x, lmax=lmax)
        mon.close("ln k", k2, K, 1e-13, 1e-10, x=x, lmax=lmax)
        # independence of the other arguments and of lmax
        n = int(g.integers(len(x)))
        i1, k1 = b.lniknu(x[n:n + 1].copy(), lmax)
        mon.close("one argument alone", i1[0], i[n], 1e-13, 2 * t[n], x=x, n=n, lmax=lmax)
        mon.close("one argument alone", k1[0], k[n], 1e-13, 2e-10, x=x, n=n, lmax=lmax)
        up = lmax + int(g.integers(1, 6))
        i3, k3 = b.lniknu(x.copy(), up)
        mon.close("larger lmax", i3[:, :lmax + 1], i, 1e-13, 2 * t, x=x, lmax=lmax, up=up)
        mon.close("larger lmax", k3[:, :lmax + 1], k, 1e-13, 2e-10, x=x, lmax=lmax, up=up)
        # argument given as a strided view
        xs = np.repeat(x, 2)[::2]
        mon.close("strided view", b.lniknu(xs, lmax)[0], i, 1e-13, 2 * t, x=x)
    elif kind == "cut":
        lmax = int(g.integers(1, 40)) if g.random() < .7 else int(g.integers(40, 260))
        if lmax > 40:
            x = x[:6]
            mon.reach("table beyond order 40")
        lmin = int(g.choice([0, lmax, g.integers(0, lmax + 1)]))
        mon.note(x=x, lmin=lmin, lmax=lmax)
        I, K = exact(x, lmax)
        i, k = b.mie_bessels(x.copy(), lmin, lmax)
        t = tol(x, lmax)
        mon.close("cut table", i, I[:, lmin:], 1e-13, t[:, lmin:], x=x, lmin=lmin, lmax=lmax)
        mon.close("cut table", k, K[:, lmin:], 1e-13, 1e-10, x=x, lmin=lmin, lmax=lmax)
        mon.close("interior selection", b.trans_bessels(x.copy(), lmax, 0), I, 1e-13, t, x=x, lmax=lmax)
        mon.close("exterior selection", b.trans_bessels(x.copy(), lmax, 1), K, 1e-13, 1e-10, x=x, lmax=lmax)
        mon.close("exterior selection", b.trans_bessels(x.copy(), lmax, 1.), K, 1e-13, 1e-10, x=x, lmax=lmax)
    else:
        ls = np.unique(g.integers(0, 90, int(g.integers(1, 6))))
        if g.random() < .5:
            g.shuffle(ls)
        mon.note(x=x, l=ls)
        R = np.array([[float(ref.i_ratio(int(l), v)) for v in x] for l in ls])
        f = getattr(b, "i_fraction", None)
        if f:
            mon.close("ratio I/I", f(x.copy(), ls + .5), R, 1e-10, x=x, l=ls)
        f = getattr(b, "fnu", None)
        if f:
            for n, l in enumerate(ls):
                mon.close("ratio I/I", f(x.copy(), l + .5), R[n], 1e-10, x=x, l=l)
