import numpy as np
from mpmath import mp, mpf
from vlib import gen, ref
from checks.c07 import noise

RULE = ("random geometries (exterior, interior, layered, coated), materials, nmax below, at and above the slice width of 50 and several "
        "temperatures: force() against minus the five-point derivative of free_energy() of fresh objects at shifted distances; the "
        "per-frequency terms against the derivative of the per-frequency totals, and of ln det(1-M) in 40 digits; the force matrix against the "
        "derivative of tr M; sign and magnitude against the energy. Non-trivial: a non-zero force was compared.")
ASSUMPTIONS = ["five-point differences with steps of 2e-3 of the shortest length scale are exact to 1e-7",
               "the zeroth term is the value at k=1e-10, as for the numerically evaluated zeroth term of the free energy"]
REQUIRED = {"force": 60, "force terms": 150, "force terms (reference)": 15, "derivative of tr M": 60, "free energy undisturbed": 30}
CPU_LIMIT = 300
S = np.array([-2, -1, 1, 2])
W = np.array([1, -8, 8, -1]) / 12.


def cases(rng, tier):
    f = 1 if tier == "quick" else 12
    return gen.mkcases(rng, {"force": 40 * f, "long": 8 * f, "terms": 40 * f, "exact": 16 * f, "trace": 24 * f, "layered": 16 * f, "coated": 10 * f})


def run(case, mon):
    import geometry as G, thermodynamics as TH
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    ext = kind in ("layered", "coated") or g.random() < .75
    r1, r2, L = gen.exterior(g, gap=(-.7, .9), ratio=.6) if ext else gen.interior(g)
    near = kind in ("terms", "exact") and ext and g.random() < .2
    if near:                                # arguments k L above 1000 while exp(-2 k gap) still counts
        r1, r2, L = gen.exterior(g, gap=(-2.8, -1.7), ratio=.3)
    gap = L - r1 - r2 if ext else r2 - r1 - L
    md = gen.medium(g, .15)
    mk = ("diel", "drude", "plasma", "mag", "pec")
    m1, m2 = gen.material(g, mk), gen.material(g, mk)
    lmax = int(g.integers(1, 4 if kind in ("exact", "long") else 6))
    if kind in ("force", "terms", "trace", "layered", "coated") and g.random() < .15:
        lmax = int(g.integers(6, 12))
        mon.reach("more than 5 multipoles")
    lss = lmax + int(g.integers(0, 4))
    nmax = [int(g.integers(50, 53)), int(g.integers(54, 120))][int(g.integers(2))] if kind == "long" else int(g.integers(0, 9))
    dT = gen.sig(10 ** g.uniform(-1.5, .3) / max(gap, .3 * min(r1, r2)), 3)
    if kind == "long":
        dT = gen.sig(dT * .1, 3)
    elif .2 < gap < 4 and g.random() < .08:
        dT = 1
        mon.reach("integer deltaT")
    nT = int(g.integers(1, 6))
    if kind in ("force", "long") and g.random() < .2:
        nT = int(g.integers(30, 300))
        mon.reach("many temperatures")
    nonpec = ("diel", "drude", "plasma", "mag")
    if kind == "layered":
        if g.random() < .5:
            m1, r1 = [m1, gen.material(g, nonpec), md], [gen.sig(r1 * .6), r1]
        else:
            m2, r2 = [m2, gen.material(g, nonpec), md], [gen.sig(r2 * .6), r2]
    c1, c2 = gen.material(g, nonpec), gen.material(g, nonpec)
    d = dict(r1=r1, r2=r2, L=L, m1=m1, m2=m2, m3=md, lmax=lmax, lssmax=lss, deltaT=dT, nmax=nmax, nT=nT)
    if kind == "coated":
        d.update(coat1=c1, coat2=c2)
    mon.note(**d)
    mon.reach("exterior" if ext else "interior")
    cp = lambda x: list(x) if isinstance(x, list) else x

    def new(L=L, prec=1e-15):
        if kind == "coated":
            o = G.CoatedSphereSphere(.7 * r1, r1, gen.obj(m1), gen.obj(c1), .6 * r2, r2, gen.obj(m2), gen.obj(c2), L, gen.obj(md), lmax, lss)
            o.precision = prec
            return o
        return G.SphereSphere(cp(r1), cp(r2), L, gen.obj(m1), gen.obj(m2), gen.obj(md), lmax=lmax, lssmax=lss, precision=prec)
    kmax = max(dT * nmax, 3 / gap)
    mm = gen.med(md)
    kmax = max(x * float(mp.sqrt(mm.eps(x) * mm.mu(x))) for x in (kmax, 1 / gap, 5 / gap))
    h = 2e-3 * min(gap, L / (2. * lmax + 2), 3 / kmax)
    # powers L^-(l1+l2+1) limit the step as well
    h = min(h, 4e-2 * L / (lmax + lss + 2))

    def total(k, L):
        o = new(L)
        return np.ravel(o.mSumme(np.asarray(k, float)))

    def deriv(f):
        v = np.array([f(L + s * h) for s in S])
        # rounding of the totals, about 1e-12 each, over the step
        return np.tensordot(W, v, 1) / h, np.abs(v).max(axis=0)

    def rough(k):
        """relative rounding errors of the totals at k"""
        rad = [r for q in (r1, r2) for r in (q if isinstance(q, list) else [q])] + [L]
        return (noise(m1, m2, md, rad, k, 20 if kind in ("layered", "coated") else 1) - 1e-8) if len(k) else np.zeros(0)
    if kind in ("force", "long", "layered", "coated"):
        ft = lambda L: TH.finiteT(dT, nmax, dT * nT, new(L), analytic_n0=False)
        D, V = deriv(lambda x: ft(x).free_energy())
        o = ft(L)
        before = ft(L).free_energy()
        if g.random() < .5:
            mon.close("free energy undisturbed", o.free_energy(), before, 1e-9, 1e-13)
        T = dT * np.arange(1, nT + 1)
        tol = T * 3e-11 * (nmax + 1) / h + (1e-10 + (rough(dT * np.arange(1, nmax + 1)).max() if nmax else 0)) * V.max() / h
        F = o.force()
        mon.close("force", F, -D, 2e-5, tol)
        mon.close("force", o.force(), F, 1e-12, 0, again=True)
        mon.close("free energy undisturbed", o.free_energy(), before, 1e-9, 1e-13)
        mon.reach("more than one slice" if nmax >= 50 else "one slice")
        return
    k = gen.wavenumbers(g, int(g.integers(1, 5)), gap, -2, .7)
    if near:
        k = gen.wavenumbers(g, 2, gap, -.5, .7)
    mon.note(k=k)
    if k.max() * L > 1e3:
        mon.reach("k L above 1000")
    q = rough(k)
    def cond(m):
        """rounding errors of the translation sums, which cancel at large arguments"""
        geo = dict(r1=r1, r2=r2, L=L, mat3=gen.med(md), lmax=lmax, lssmax=lss)
        return ref.translation_noise(geo, m, k, 1e-15)
    if near:
        q = q + np.max([cond(m) for m in range(lmax + 1)], axis=0)
    if kind == "terms":
        D, V = deriv(lambda x: total(k, x))
        tk = 3e-11 / h + (1e-10 * V.max() + q * V) / h
        mon.close("force terms", new().mSum_trace_dot(k.copy()), -D, 2e-5, tk)
        kb, at = gen.pad(g, k, mon, .3)     # hidden in a long batch
        if len(kb) > len(k):
            F = np.ravel(new().mSum_trace_dot(kb.copy()))
            if mon.true("one value per wavenumber", F.shape == kb.shape, "shape %s for %d wavenumbers" % (F.shape, len(kb))):
                # the m-sum stops at a relative change of 1e-5 of the largest element
                mon.close("force terms", F[at], -D, 2e-5, tk + 2e-5 * np.abs(F).max(), batch=kb)
        q = TH.finiteT(dT, nmax, dT, new(), analytic_n0=False)
        q.force()
        D, V = deriv(lambda x: total(dT * np.arange(1, nmax + 1), x) if nmax else np.zeros(0))
        if q.force_matsubaras is not None and nmax and len(np.ravel(q.force_matsubaras)) == nmax + 1:
            mon.close("force terms", np.ravel(q.force_matsubaras)[1:], -D, 2e-5, 3e-11 / h + (1e-10 * V.max() + rough(dT * np.arange(1, nmax + 1)) * V) / h)
        return
    if kind == "exact":
        geo = dict(r1=r1, r2=r2, L=mpf(L), mat1=gen.med(m1), mat2=gen.med(m2), mat3=gen.med(md), lmax=lmax, lssmax=lss)
        k = k[:2]
        w, sc = [], []
        e = mpf(10) ** -10 * L
        for v in k:
            up = [sum((1 if m == 0 else 2) * ref.solve_lndet(dict(geo, L=mpf(L) + s * e), m, v) for m in range(lmax + 1)) for s in (-1, 1)]
            w.append(float(-(up[1] - up[0]) / (2 * e)))
            sc.append(float(abs(up[0])))
        nz = noise(m1, m2, md, [r1, r2, L], k) + (10 * np.max([cond(m) for m in range(lmax + 1)], axis=0) if near else 0)
        # the m-sum of the force stops at relative changes of 1e-5
        mon.close("force terms (reference)", new().mSum_trace_dot(k.copy()), w, 2e-5 + 10 * nz, 1e-10 * max(sc) / h)
        return
    # derivative of the trace of the round trip, subspace by subspace
    o = new()
    for m in [int(x) for x in g.permutation(lmax + 1)[:3]]:
        a = np.trace(o.supermatrix(m, k.copy(), 1), axis1=1, axis2=2)
        tr = lambda x: np.trace(new(x).supermatrix(m, k.copy(), 0), axis1=1, axis2=2)
        D, V = deriv(tr)
        big = np.array([np.abs(np.diagonal(new().supermatrix(m, k.copy(), 0), axis1=1, axis2=2)).sum(axis=1)])[0]
        x = np.array([float(v * L * mp.sqrt(mm.eps(v) * mm.mu(v))) for v in k])
        mon.close("derivative of tr M", a, D, 1e-6, (1e-11 + q) * big / h + 20 * cond(m) * x * big * (x + lmax + lss) / L, m=m)
