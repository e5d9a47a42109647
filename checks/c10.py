import numpy as np
from mpmath import mp
from vlib import gen, ref
from checks.c07 import noise

RULE = ("random geometries (exterior, interior, layered), materials, deltaT, nmax 0..130, temperatures and slice widths; free energy and "
        "entropy against an own primed sum over per-frequency totals of fresh objects; slices, sub-ranges and coarser grids "
        "against one another; T=0 energy against an own quadrature; slicewise_eval with recording functions. Non-trivial: a "
        "non-zero energy was compared.")
ASSUMPTIONS = ["per-frequency totals are decided by C07/C08/C04", "the numerically evaluated zeroth term is the value at k=1e-10"]
REQUIRED = {"free energy": 200, "entropy": 60, "slices": 200, "coarser grid": 20, "e0": 8, "slicewise": 100, "zeroth term": 20, "zeroth term (reference)": 20}
CPU_LIMIT = 240


def cases(rng, tier):
    f = 1 if tier == "quick" else 10
    return gen.mkcases(rng, {"sum": 60 * f, "long": 10 * f, "slices": 36 * f, "zeroth": 30 * f, "e0": 14 * f, "slicewise": 60 * f,
                             "layered": 16 * f, "exact": 8 * f})


def run(case, mon):
    import geometry as G, thermodynamics as TH
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind == "slicewise":
        return slicewise(TH, g, mon)
    ext = kind in ("layered", "e0") or g.random() < .7
    r1, r2, L = gen.exterior(g, gap=(-.8, .9), ratio=.7) if ext else gen.interior(g)
    gap = L - r1 - r2 if ext else r2 - r1 - L
    md = gen.medium(g, .1)
    mk = ("diel", "drude", "plasma", "mag", "pec")
    m1, m2 = gen.material(g, mk), gen.material(g, mk)
    if kind == "e0":
        m1, m2, md = gen.material(g, ("pec", "drude", "diel")), gen.material(g, ("pec", "drude")), gen.material(g, ("vac", "diel"))
    lmax = int(g.integers(1, 4))
    if kind in ("sum", "slices", "zeroth") and g.random() < .15:
        lmax = int(g.integers(4, 9))
        mon.reach("more than 3 multipoles")
    lss = lmax + int(g.integers(0, 3))
    nmax = int(g.integers(52, 131)) if kind == "long" else int(g.integers(0, 14)) if g.random() < .8 else 0
    dT = gen.sig(10 ** g.uniform(-1.7, .7) / max(gap, .3 * min(r1, r2)), 3)
    if kind in ("sum", "slices") and g.random() < .3:
        dT = gen.sig(dT * 10 ** g.uniform(-6, -1), 3)     # nearly the classical limit
    if kind == "long":
        dT = gen.sig(dT * .1, 3)
    elif kind not in ("e0", "exact") and .05 < gap < 10 and g.random() < .07:
        dT = int(g.integers(1, 3))
        mon.reach("integer deltaT")
    nT = int(g.integers(1, 41)) if g.random() < .5 else int(g.integers(2, 6))
    if kind in ("sum", "long") and g.random() < .25:
        nT = int(g.integers(41, 400))
        mon.reach("more than 40 temperatures")
    Tmax = dT * nT
    if g.random() < .2:                     # not a multiple of the step: the nearest one counts
        Tmax = gen.sig(dT * (nT + g.uniform(-.4, .4)), 6)
        mon.reach("Tmax between two temperatures")
    prec = 1e-15
    if kind == "layered":
        if g.random() < .5:
            mon.reach("only the first sphere layered")
            m1, r1 = [m1, gen.material(g, ("diel", "drude", "plasma")), md], [gen.sig(r1 * .6), r1]
        else:
            mon.reach("only the second sphere layered")
            m2, r2 = [m2, gen.material(g, ("diel", "drude", "plasma")), md], [gen.sig(r2 * .6), r2]
    an = bool(g.random() < .6) and kind != "layered"
    d = dict(r1=r1, r2=r2, L=L, m1=m1, m2=m2, m3=md, lmax=lmax, lssmax=lss, deltaT=dT, nmax=nmax, Tmax=Tmax, analytic=an)
    mon.note(**d)
    mon.reach("exterior" if ext else "interior")

    def new():
        cp = lambda x: list(x) if isinstance(x, list) else x
        return G.SphereSphere(cp(r1), cp(r2), L, gen.obj(m1), gen.obj(m2), gen.obj(md), lmax=lmax, lssmax=lss, precision=prec)

    def ft(**kw):
        a = dict(deltaT=dT, nmax=nmax, Tmax=Tmax, analytic_n0=an)
        a.update(kw)
        if kind == "layered" and g.random() < .7:         # has no analytic zeroth term, whatever is asked for
            a["analytic_n0"] = True
        return TH.finiteT(a["deltaT"], a["nmax"], a["Tmax"], new(), analytic_n0=a["analytic_n0"])
    if kind == "e0":
        o = new()
        lo, hi = 0.0, np.inf
        if g.random() < .5:
            lo, hi = gen.sig(g.uniform(0, 1) / L), gen.sig(g.uniform(2, 6) / L)
            if g.random() < .4:
                lo = 0.0 if g.random() < .5 else lo
                nmax = int(g.integers(1, 9))
                dT = gen.sig(hi / nmax, 3)
                hi = nmax * dT
                mon.note(nmax=nmax, deltaT=dT)
                mon.reach("T=0 energy up to the last Matsubara frequency")
                got = np.ravel(ft(Tmax=dT).e0(lo, None))
            else:
                got = np.ravel(ft().e0(lo, hi))
        else:
            if g.random() < .6:             # how many terms a sum would have does not matter
                nmax = int(10 ** g.uniform(0, 4))
                mon.note(nmax=nmax)
            got = np.ravel(ft().e0())
        end = 45 / gap if hi == np.inf else hi
        # Gauss-Legendre in pieces that follow the exponential decay, every piece in one batch
        edges = np.concatenate(([lo], [x for x in np.concatenate((np.logspace(-4, 0, 5)[:-1], np.linspace(1, 45, 9))) / gap if lo < x < end], [end]))
        x0, w0 = np.polynomial.legendre.leggauss(16)
        tot = 0.0
        for a, b in zip(edges[:-1], edges[1:]):
            tot += .5 * (b - a) * np.dot(w0, np.ravel(o.mSumme(.5 * (b - a) * x0 + .5 * (a + b))))
        mon.close("e0", got[:1], [tot], 1e-5, 1e-7, lo=lo, hi=hi)
        return
    single = {}

    def total(n):
        if n not in single:
            if n == 0:
                single[n] = .5 * float(np.ravel(new().mSumme_k0())[0]) if an else .5 * float(np.ravel(new().mSumme(np.array([1e-10])))[0])
            else:
                single[n] = float(np.ravel(new().mSumme(np.array([dT * n])))[0])
        return single[n]
    terms = np.array([total(n) for n in range(nmax + 1)])
    # a total whose m=0 part rounds to 0 is returned as 0, so every term is uncertain by some 1e-12
    tol = 1e-9 * np.abs(terms).sum() + 3e-11
    if kind == "exact":
        # the whole chain against the 40-digit reference, with few terms
        n = min(nmax, 2)
        T = dT * np.arange(1, nT + 1)
        geo = dict(r1=r1, r2=r2, L=L, mat1=gen.med(m1), mat2=gen.med(m2), mat3=gen.med(md), lmax=lmax, lssmax=lss)
        w = np.array([terms[0]] + [sum(float(ref.solve_lndet(geo, m, dT * i)) * (1 if m == 0 else 2) for m in range(lmax + 1))
                                   for i in range(1, n + 1)])
        nz = max(noise(m1, m2, md, [r1, r2, L], dT * np.arange(1, n + 1))) if n else 1e-8
        want = T * np.array([w[::i].sum() for i in range(1, nT + 1)])
        mon.close("free energy (reference)", ft(nmax=n).free_energy(), want, 0, T * (1e-7 * np.abs(w).sum() + nz * np.abs(w).sum()))
        return
    T = dT * np.arange(1, nT + 1)
    want = T * np.array([terms[[j for j in range(0, nmax + 1) if j % i == 0]].sum() for i in range(1, nT + 1)])
    o = ft()
    F = o.free_energy()
    if not mon.true("number of temperatures", np.shape(F) == (nT,), "shape %s for %d temperatures" % (np.shape(F), nT)):
        return
    mon.close("free energy", F, want, 1e-9, T * tol)
    mon.close("terms", ft().get_f_matsubaras(0), terms, 1e-9, tol)
    if nT >= 2:
        # second order differences inside, one-sided at the ends
        S = np.empty(nT)
        S[0], S[-1] = -(want[1] - want[0]) / dT, -(want[-1] - want[-2]) / dT
        S[1:-1] = -(want[2:] - want[:-2]) / (2 * dT)
        for o2 in (o, ft()):
            mon.close("entropy", o2.entropy(), S, 1e-8, 2 * nT * tol + 1e-9 * np.abs(want).max() / dT)
        if g.random() < .4:                 # and the energies are still the same afterwards
            mon.close("free energy", o2.free_energy(), want, 1e-9, T * tol, after="entropy")
            mon.close("terms", o2.get_f_matsubaras(0), terms, 1e-9, tol, after="entropy")
    if kind == "slices":
        for st in (1, int(g.integers(1, 9)), nmax + 1, 200):
            mon.close("slices", ft().get_f_matsubaras(0, st), terms, 1e-9, tol, width=st)
        lo = int(g.integers(0, nmax + 1))
        mon.close("slices", ft().get_f_matsubaras(lo, int(g.integers(1, 7))), terms[lo:], 1e-9, tol, lo=lo)
        q = int(g.integers(2, 4))
        c = ft(deltaT=dT * q, nmax=nmax // q, Tmax=dT * q * max(1, nT // q))
        Fc = c.free_energy()
        n = max(1, nT // q)
        wc = dT * q * np.arange(1, n + 1) * np.array([terms[::q * i].sum() for i in range(1, n + 1)])
        mon.close("coarser grid", Fc, wc, 1e-8, 10 * n * q * dT * tol, q=q)
    if kind == "zeroth":
        tm = float(np.ravel(ft(analytic_n0=True).get_f_matsubaras(0))[0])
        tn = float(np.ravel(ft(analytic_n0=False).get_f_matsubaras(0))[0])
        st = float(np.ravel(new().mSumme_k0())[0])
        # the 40-digit reference tells how far k=1e-10 is from the static limit for these materials
        geo = dict(r1=r1, r2=r2, L=L, mat1=gen.med(m1), mat2=gen.med(m2), mat3=gen.med(md), lmax=lmax, lssmax=lss)
        dps = mp.dps
        mp.dps = 60
        w = [[.5 * float(ref.solve_lndet(geo, m, k)) * (1 if m == 0 else 2) for m in range(lmax + 1)] for k in (1e-10, 1e-24)]
        mp.dps = dps
        size = sum(abs(x) for x in w[0])
        nz = float(np.max(noise(m1, m2, md, [r1, r2, L], np.array([1e-10]))))
        mon.close("zeroth term (reference)", tn, sum(w[0]), 0, 1e-8 * size + nz * size + 3e-11)
        mon.close("static term (reference)", tm, sum(w[1]), 0, 1e-8 * size + 3e-11)
        mon.close("zeroth term", tn, tm, 1e-4, 2 * abs(sum(w[0]) - sum(w[1])) + (1e-6 + nz) * size + 1e-9)
        mon.close("zeroth term is half the static total", tm, .5 * st, 1e-10, 1e-13)


def slicewise(TH, g, mon):
    nmin = int(g.integers(0, 30)) if g.random() < .6 else 0
    nmax = nmin + int(g.integers(0, 220))
    step = int(g.integers(1, 230)) if g.random() < .7 else 1 + (nmax - nmin) // max(1, int(g.integers(1, 4)))
    mon.note(nmin=nmin, nmax=nmax, step=step)
    calls = []

    def f(n):
        n = np.asarray(n)
        calls.append(n.copy())
        return np.sin(n * 1.7) + n
    got = TH.slicewise_eval(f, nmin, nmax, step)
    n = np.arange(nmin, nmax + 1)
    mon.close("slicewise", got, np.sin(n * 1.7) + n, 1e-14, 0)
    mon.true("every argument once", np.array_equal(np.sort(np.concatenate(calls)), n), "arguments evaluated: %s" % [list(c) for c in calls][:3])
    if not step == 1:
        mon.reach("last slice partial" if (nmax - nmin + 1) % step else "last slice full")
    for bad in (0, -3, "x"):
        try:
            TH.slicewise_eval(f, 0, 3, bad)
        except ValueError:
            mon.event("bad width refused")
        else:
            mon.fail("bad width refused", "step %r accepted" % (bad,))
