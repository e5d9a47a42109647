import numpy as np
from vlib import gen

RULE = ("families of automatically truncated geometries (exterior, interior, layered) in distance, precision, offset, order of the radii, "
        "scale and temperature; lmax, lssmax and nmax of the constructed objects are compared across each family, and free "
        "energies with automatic and much larger truncation are compared. Non-trivial: a truncation or an energy was compared.")
ASSUMPTIONS = ["accuracy is claimed for the default offset, precision 1e-1..1e-3, radius ratio up to 2.5 and gaps of at least 0.3 radii "
               "(three times the precision, twenty times if the first sphere is the larger one, for which the rule is weaker)",
               "gaps of 30 or more smaller radii always use dipoles only, whatever the offset"]
REQUIRED = {"at least one": 120, "closer needs more": 200, "higher precision needs more": 200, "order of radii": 60, "offset added": 100,
            "inner-sum order": 100, "same gap, same order": 50, "colder needs more terms": 100, "explicit values kept": 30, "layered": 30,
            "energy converged": 20, "Matsubara terms sufficient": 20, "documented default": 10}
CPU_LIMIT = 300


def cases(rng, tier):
    f = 1 if tier == "quick" else 12
    return gen.mkcases(rng, {"rules": 80 * f, "nmax": 60 * f, "energy": 40 * f, "cold": 12 * f})


def geo(g, ext, r, ratio, gap):
    """r: smaller radius, gap in units of micron; returns (small, large, L)"""
    R = gen.sig(r * ratio)
    return r, R, (r + R + gap if ext else R - r - gap)


def run(case, mon):
    import geometry as G, thermodynamics as TH, materials as M
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]

    def new(r1, r2, L, **kw):
        return G.SphereSphere(r1, r2, L, M.PerfectConductor, M.PerfectConductor, M.Vacuum, **kw)
    if kind in ("energy", "cold"):
        return energy(G, TH, g, mon, kind == "cold")
    ext = bool(g.random() < .6)
    r = gen.logu(g, -1.5, 1.2)
    # gap / smaller radius, below 30
    x = gen.sig(10 ** g.uniform(-1, 1.45)) if g.random() < .75 else gen.sig(g.uniform(15, 29.9))
    ratio = gen.sig(10 ** g.uniform(0, 1)) if ext else gen.sig(1 + x + 10 ** g.uniform(-1, 1))
    if g.random() < .2 and ext:
        ratio = 1.0
    gap = x * r
    s, b, L = geo(g, ext, r, ratio, gap)
    prec, off = gen.sig(10 ** g.uniform(-4, -1), 3), int(g.integers(0, 11))
    mon.note(r1=s, r2=b, L=L, precision=prec, l_offset=off)
    mon.reach("exterior" if ext else "interior")
    o = new(s, b, L, precision=prec, l_offset=off)
    near = lambda a, c: abs(a - c) <= 1                      # the rule truncates to an integer, rounding may move it
    if kind == "rules":
        mon.true("at least one", o.lmax >= 1 and o.lssmax >= 1 and int(o.lmax) == o.lmax and int(o.lssmax) == o.lssmax,
                 "lmax=%r lssmax=%r" % (o.lmax, o.lssmax))
        for f in (1.01, 1.3, 3, 10, 100):
            if not ext and s * (1 + x * f) >= b:             # the inner sphere cannot be farther away than in the centre
                continue
            _, _, L2 = geo(g, ext, r, ratio, gap * f)
            far = new(s, b, L2, precision=prec, l_offset=off)
            mon.true("closer needs more", 1 <= far.lmax <= o.lmax, "gap %g: lmax %d, gap %g: lmax %d" % (gap, o.lmax, gap * f, far.lmax))
        for f in (.9, .5, .1, 1e-3):
            fine = new(s, b, L, precision=prec * f, l_offset=off)
            mon.true("higher precision needs more", fine.lmax >= o.lmax, "precision %g: %d, %g: %d" % (prec, o.lmax, prec * f, fine.lmax))
            if f == 1e-3 and x < .4:
                mon.true("higher precision needs more", fine.lmax > o.lmax, "a 1000 times higher precision leaves lmax at %d" % o.lmax)
        if x < .4:
            half = new(s, b, geo(g, ext, r, ratio, gap / 3)[2], precision=prec, l_offset=off)
            mon.true("closer needs more", half.lmax > o.lmax, "a third of the distance leaves lmax at %d" % o.lmax)
        w = new(b, s, L, precision=prec, l_offset=off)
        mon.true("order of radii", (w.lmax, w.lssmax) == (o.lmax, o.lssmax), "(%d, %d) and (%d, %d)" % (w.lmax, w.lssmax, o.lmax, o.lssmax))
        base = new(s, b, L, precision=prec, l_offset=0)
        raw = _raw(G, base, s, b, L, prec)
        mon.true("offset added", raw >= 0, "with offset 1000: %d" % (raw + 1000))
        for q in (1, 4, 10):
            mon.true("offset added", new(s, b, L, precision=prec, l_offset=q).lmax == max(raw + q, 1), "offset %d" % q)
        d = o.lssmax - b / s * o.lmax
        mon.true("inner-sum order", -1.001 < d <= .001 and o.lssmax >= o.lmax, "lmax=%d, ratio %g, lssmax=%d" % (o.lmax, b / s, o.lssmax))
        # only the smaller radius and the surface distance count
        for e2, ra in ((True, 1.0), (True, 7.0), (False, 1 + x + .5)):
            s2, b2, L2 = geo(g, e2, r, ra, gap)
            w = new(s2, b2, L2, precision=prec, l_offset=off)
            mon.true("same gap, same order", near(w.lmax, o.lmax), "%d for %s, %d for %s" % (w.lmax, (s2, b2, L2), o.lmax, (s, b, L)))
        f = 10 ** g.uniform(-2, 2)
        w = new(s * f, b * f, L * f, precision=prec, l_offset=off)
        mon.true("same gap, same order", near(w.lmax, o.lmax), "rescaling by %g changes lmax from %d to %d" % (f, o.lmax, w.lmax))
        a, c = [int(g.integers(1, 30)) if g.random() < .7 else int(g.integers(30, 3000)) for _ in range(2)]
        w = new(s, b, L, lmax=a, lssmax=c, precision=prec, l_offset=off)
        mon.true("explicit values kept", (w.lmax, w.lssmax) == (a, c), "asked for %s, got %s" % ((a, c), (w.lmax, w.lssmax)))
        w = new(s, b, L, lmax=a, precision=prec, l_offset=off)
        mon.true("inner-sum order", w.lmax == a and -1.001 < w.lssmax - b / s * a <= .001, "lmax=%d given, lssmax=%d" % (a, w.lssmax))
        w = new(s, b, L, lssmax=c, precision=prec, l_offset=off)
        mon.true("explicit values kept", (w.lmax, w.lssmax) == (o.lmax, c), "asked for lssmax %d, got %s" % (c, (w.lmax, w.lssmax)))
        # layered spheres: the outermost radius counts
        ml = [M.Vacuum, M.Gold, M.Water, M.Vacuum]
        for ra, rb in (([.3 * s, .9 * s, s], b), (s, [.2 * b, b]), ([.5 * s, s], [.01 * b, b]), (b, [.7 * s, s]), ([.3 * b, b], s), ([.9 * b, b], [.1 * s, s])):
            w = G.SphereSphere(ra, rb, L, ml if isinstance(ra, list) else M.Gold, ml if isinstance(rb, list) else M.Gold, M.Vacuum,
                               precision=prec, l_offset=off)
            mon.true("layered", (w.lmax, w.lssmax, bool(w.ext_flag)) == (o.lmax, o.lssmax, ext), "(%d, %d) instead of (%d, %d)" % (
                w.lmax, w.lssmax, o.lmax, o.lssmax))
        dflt = new(s, b, L)
        expl = new(s, b, L, precision=1e-4, l_offset=4)
        mon.true("documented default", (dflt.lmax, dflt.lssmax) == (expl.lmax, expl.lssmax), "defaults %d, explicit %d" % (dflt.lmax, expl.lmax))
        for y in (g.uniform(30.001, 40), g.uniform(30.001, 300)):
            for e2, ra in ((True, 1.0), (True, ratio), (True, 8.0), (False, y + 1 + g.uniform(.1, 20))):
                s2, b2, L2 = geo(g, e2, r, ra, r * y)
                o2 = new(s2, b2, L2, precision=prec, l_offset=off)
                mon.true("dipoles only far away", o2.lmax == 1, "lmax=%d for %s" % (o2.lmax, (s2, b2, L2)))
        return
    # number of Matsubara terms
    dT = gen.sig(10 ** g.uniform(-1.5, 1.5) / gap, 4)

    def nm(o, dT):
        return TH.finiteT(dT, "automatic", 3 * dT, o).nmax
    n = nm(o, dT)
    mon.note(deltaT=dT, nmax=n)
    mon.true("at least one", n >= 1 and int(n) == n, "nmax=%r" % (n,))
    for f in (1.01, 1.5, 5, 100, 1e5):
        n2 = nm(o, dT * f)
        mon.true("colder needs more terms", 1 <= n2 <= n, "deltaT=%g: %d, %g: %d" % (dT, n, dT * f, n2))
        if f == 100 and dT * gap < .1:
            mon.true("colder needs more terms", n2 < n, "100 times the temperature leaves nmax at %d" % n)
    w = new(b, s, L, precision=prec, l_offset=off)
    mon.true("order of radii", nm(w, dT) == n, "nmax %d and %d" % (n, nm(w, dT)))
    f = 10 ** g.uniform(-1, 1)
    w = new(s * f, b * f, L * f, precision=prec, l_offset=off)
    if w.lmax == o.lmax:
        mon.true("same gap, same order", near(nm(w, dT / f), n), "rescaling by %g changes nmax from %d to %d" % (f, n, nm(w, dT / f)))
    s2, b2, L2 = geo(g, True, r, 3.0, gap)
    w = new(s2, b2, L2, precision=prec, l_offset=off)
    if w.lmax == o.lmax:
        mon.true("same gap, same order", near(nm(w, dT), n), "nmax %d for %s, %d for %s" % (nm(w, dT), (s2, b2, L2), n, (s, b, L)))
    w = G.SphereSphere([.4 * s, s], [.3 * b, .6 * b, b], L, [M.Gold, M.Water, M.Vacuum], [M.Gold, M.Water, M.Gold, M.Vacuum], M.Vacuum,
                       precision=prec, l_offset=off)
    mon.true("layered", nm(w, dT) == n, "nmax %d instead of %d" % (nm(w, dT), n))
    q = int(g.integers(0, 50)) if g.random() < .7 else int(g.integers(50, 10 ** 5))
    F = TH.finiteT(dT, q, 3 * dT, o)
    mon.true("explicit values kept", F.nmax == q, "asked for %d, got %d" % (q, F.nmax))


def _raw(G, base, s, b, L, prec):
    """the order without offset; max(., 1) hides 0, so it is taken from a large offset"""
    import materials as M
    return G.SphereSphere(s, b, L, M.PerfectConductor, M.PerfectConductor, M.Vacuum, precision=prec, l_offset=1000).lmax - 1000


def energy(G, TH, g, mon, cold=False):
    ext = g.random() < .7
    r1 = gen.logu(g, -1, .7)
    if ext:
        r2 = gen.sig(r1 * 10 ** g.uniform(-.3, .4))
        gap = min(r1, r2) * 10 ** g.uniform(-.5, 1.3)
        L = r1 + r2 + gap
    else:
        r2 = gen.sig(r1 * (1 + 10 ** g.uniform(-.1, .5)))
        L = (r2 - r1) * g.uniform(.1, .65)
        gap = r2 - r1 - L
    L = gen.sig(L)
    prec = gen.sig(10 ** g.uniform(-3, -1), 3)
    m1, m2 = [gen.material(g, ("drude", "pec", "diel")) for _ in range(2)]
    for m in (m1, m2):
        if m == ["pre", "Vacuum"]:
            m[:] = ["pre", "Gold"]
    dT = gen.sig(10 ** g.uniform(-1, .6) / gap, 4)
    if cold:
        dT = gen.sig(10 ** g.uniform(-5, -1.3) / gap, 4)
    mon.note(r1=r1, r2=r2, L=L, m1=m1, m2=m2, precision=prec, deltaT=dT)
    A = [gen.obj(m1), gen.obj(m2), gen.obj(["pre", "Vacuum"])]
    o = G.SphereSphere(r1, r2, L, *A, precision=prec)
    if o.lmax > 18 or o.lssmax > 45:
        return
    f = TH.finiteT(dT, "automatic", dT, o)
    if cold:
        # thousands of terms: their sum is the frequency integral (Gauss-Legendre, in sinh of the gap times k)
        if o.lmax > 10:
            return
        top = dT * f.nmax
        mon.note(lmax=o.lmax, nmax=f.nmax, largest=top * gap)
        x, w = np.polynomial.legendre.leggauss(24)
        o2 = G.SphereSphere(r1, r2, L, *A, lmax=o.lmax, lssmax=o.lssmax, precision=1e-9)

        def part(lo, hi):
            lo, hi = np.log1p(lo * gap), np.log1p(hi * gap)
            u = lo + (hi - lo) * (x + 1) / 2
            return ((hi - lo) / 2 * w * np.exp(u) / gap * np.ravel(o2.mSumme(np.expm1(u) / gap))).sum()
        inside, rest = part(0, top), part(top, top + 12 / gap)
        mon.close("Matsubara terms sufficient", [inside], [inside + rest], 1.05e-4, 0)
        return
    if f.nmax > 150:
        return
    a = f.free_energy()[0]
    lb = int(o.lmax * 1.5) + 4
    o2 = G.SphereSphere(r1, r2, L, *A, lmax=lb, lssmax=int(max(o.lssmax, lb) * 1.3) + 4, precision=1e-9)
    t = TH.finiteT(dT, f.nmax * 2 + 6, dT, o2).get_f_matsubaras(0)
    b, c = dT * t.sum(), dT * t[:f.nmax + 1].sum()
    mon.note(lmax=o.lmax, lssmax=o.lssmax, nmax=f.nmax)
    tol = (3 if r2 >= .99 * r1 else 20) * prec
    mon.close("energy converged", [a], [b], tol, 0)
    mon.close("Matsubara terms sufficient", [c], [b], 1e-4, 0)
