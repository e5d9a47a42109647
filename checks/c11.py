import numpy as np
from vlib import gen, ref
from checks.c07 import noise

RULE = ("pairs and families of evaluations related by exchange of the spheres, common rescaling, distance, truncation and material "
        "order; random geometries, material triples, m, wavenumbers, finite and zero frequency; asymptotic dipole laws at "
        "distances of 40..400 radii. Non-trivial: the compared energies differ from zero.")
ASSUMPTIONS = ["sign and monotonicity are decided for non-magnetic materials, exterior and interior",
               "rounding noise allowed as in C07"]
REQUIRED = {"exchange": 50, "rescaling": 70, "sign": 100, "truncation": 60, "distance": 40, "no contrast": 20,
            "static dipole law": 20, "Casimir-Polder": 4}


def cases(rng, tier):
    f = 1 if tier == "quick" else 12
    return gen.mkcases(rng, {"exchange": 50 * f, "scale": 70 * f, "sign": 70 * f, "trunc": 40 * f, "dist": 50 * f,
                             "none": 16 * f, "far0": 30 * f, "cp": 10 * f})


def rescale(s, q):
    """the same material in units of length q times larger"""
    if s[0] == "pre":
        if s[1] in ("Vacuum", "PerfectConductor"):
            return s
        raise ValueError
    e = [[a / q, b / q, c / q] for a, b, c in s[1]]
    b = [] if not s[2] else [s[2][0], s[2][1] / q]
    return [s[0], e, b]


def ratio(a, b, md, k):
    """+1 both denser or both thinner, -1 opposite, 0 undecided at this wavenumber"""
    def c(s):
        if gen.is_pec(s):
            return 1.0
        return float(gen.med(s).eps(k) / gen.med(md).eps(k) - 1) if k > 0 else np.nan
    x, y = c(a), c(b)
    if min(abs(x), abs(y)) < 1e-6:
        return 0
    return np.sign(x * y)


def weak(g, md):
    """a material that differs little from the medium"""
    m = gen.med(md)
    e = [[float(x) for x in t] for t in m.e]
    wr = gen.sig(10 ** g.uniform(13, 16.5), 6)
    return ["lor", e + [[gen.sig(wr * 10 ** g.uniform(-2, -.3), 6), wr, 0.0]], []]


def near(f, **fixed):
    return lambda *a, **k: f(*a, **dict(fixed, **k))


def run(case, mon):
    import geometry as G, thermodynamics as TH
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    nonmag = ("diel", "drude", "plasma", "pec")
    ext = kind in ("exchange", "far0", "cp") or g.random() < .7
    r1, r2, L = gen.exterior(g, gap=(-1, 1.2)) if ext else gen.interior(g)
    md = gen.medium(g, .15 if kind in ("exchange", "scale") else 0)
    mk = nonmag if kind in ("sign", "trunc", "dist") else nonmag + ("mag",)
    m1, m2 = gen.material(g, mk), gen.material(g, mk)
    lmax = int(g.integers(1, 7))
    if kind in ("exchange", "scale", "none") and g.random() < .2:
        lmax = int(g.integers(7, 16))
        mon.reach("more than 6 multipoles")
    lss = lmax + int(g.integers(0, 4))
    m = int(g.integers(0, lmax + 1)) if g.random() < .7 else int(g.integers(0, 2))
    m = min(m, lmax)
    k = gen.wavenumbers(g, int(g.integers(1, 4)), min(r1, r2), -3, .8)

    def new(r1=r1, r2=r2, L=L, m1=m1, m2=m2, md=md, lmax=lmax, lss=lss):
        return G.SphereSphere(r1, r2, L, gen.obj(m1), gen.obj(m2), gen.obj(md), lmax=lmax, lssmax=lss, precision=1e-14)
    flat = np.ravel

    def nz(k, m1=m1, m2=m2, md=md, lmax=lmax, lss=lss, m=m, dist=L):
        geo = dict(r1=r1, r2=r2, L=dist, mat1=gen.med(m1), mat2=gen.med(m2), mat3=gen.med(md), lmax=lmax, lssmax=lss)
        return noise(m1, m2, md, [r1, r2, L], k) + ref.translation_noise(geo, m, k)
    if kind == "exchange":
        mon.note(r1=r1, r2=r2, L=L, m1=m1, m2=m2, m3=md, lmax=lmax, m=m, k=k)
        a = flat(new(lss=lmax).single_m(m, k.copy()))
        b = flat(new(r1=r2, r2=r1, m1=m2, m2=m1, lss=lmax).single_m(m, k.copy()))
        mon.close("exchange", b, a, 2 * nz(k, lss=lmax), 1e-11)
        try:
            a = flat(new(lss=lmax).single_m_k0(m))
        except NotImplementedError:
            return
        b = flat(new(r1=r2, r2=r1, m1=m2, m2=m1, lss=lmax).single_m_k0(m))
        mon.close("exchange, static", b, a, 1e-7, 1e-11)
        return
    if kind == "scale":
        q = gen.logu(g, -1.5, 1.5)
        mk = ("diel", "drude", "plasma", "mag", "pec")
        m1, m2 = gen.material(g, mk, pre=0), gen.material(g, mk, pre=0)
        md = ["pre", "Vacuum"] if g.random() < .3 else gen.material(g, ("diel", "dielmag"), pre=0)
        mon.note(r1=r1, r2=r2, L=L, m1=m1, m2=m2, m3=md, lmax=lmax, lssmax=lss, m=m, k=k, factor=q)
        a = flat(new(m1=m1, m2=m2, md=md).single_m(m, k.copy()))
        b = flat(new(r1 * q, r2 * q, L * q, rescale(m1, q), rescale(m2, q), rescale(md, q)).single_m(m, k / q))
        mon.close("rescaling", b, a, 2 * nz(k, m1, m2, md), 1e-11)
        a = flat(new(m1=m1, m2=m2, md=md).mSumme_k0())
        b = flat(new(r1 * q, r2 * q, L * q, rescale(m1, q), rescale(m2, q), rescale(md, q)).mSumme_k0())
        mon.close("rescaling, static", b, a, 1e-7, 1e-11)
        return
    if kind == "none":
        mon.note(r1=r1, r2=r2, L=L, m1=md, m2=m2, m3=md, lmax=lmax, lssmax=lss, m=m, k=k)
        other = g.random() < .5
        for o in (new(m1=md), new(m2=md)):
            mon.close("no contrast", flat(o.single_m(m, k.copy())), 0 * k, 0, 1e-11)
            mon.close("no contrast, static", flat(o.mSumme_k0()), [0.0], 0, 1e-11)
        mon.nontriv = True
        return
    if kind in ("sign", "trunc", "dist"):
        if g.random() < .35:
            m1 = weak(g, md)
            if g.random() < .6:
                m2 = weak(g, md) if g.random() < .5 else m1
            mon.reach("weak contrast")
        sg = np.array([ratio(m1, m2, md, v) for v in k])
        mon.note(r1=r1, r2=r2, L=L, m1=m1, m2=m2, m3=md, lmax=lmax, lssmax=lss, m=m, k=k, sign=sg)
        new, nz = near(new, m1=m1, m2=m2), near(nz, m1=m1, m2=m2)
        a = flat(new().single_m(m, k.copy()))
        eps = nz(k) * np.abs(a) + 1e-11
        for v, s, e, w in zip(a, sg, eps, k):
            if s == 0:
                continue
            mon.reach("attractive" if s > 0 else "repulsive")
            # the lowest multipoles alone give part of the energy
            low = dict(r1=r1, r2=r2, L=L, mat1=gen.med(m1), mat2=gen.med(m2), mat3=gen.med(md), lmax=max(1, m), lssmax=max(1, m))
            mon.true("not weaker than its lowest multipoles", abs(v) >= .999 * abs(float(ref.solve_lndet(low, m, w))) - e,
                     "ln det = %r" % v, k=w)
            if abs(v) > e:
                mon.true("sign", v * s < 0, "ln det = %r, expected sign %+d" % (v, -s), k=w)
        if kind == "trunc":
            b = flat(new(lmax=lmax + 1, lss=max(lss, lmax + 1)).single_m(m, k.copy()))
            c = flat(new(lss=lss + 1).single_m(m, k.copy()))
            for lab, x in (("lmax+1", b), ("lssmax+1", c)):
                e = (nz(k, lmax=lmax + 1, lss=lss + 1)) * np.abs(x) + 1e-11
                for v, w, s, t in zip(a, x, sg, e):
                    if s:
                        mon.true("truncation", abs(w) >= abs(v) - t, "%s: |ln det| fell from %r to %r" % (lab, v, w))
        if kind == "dist":
            d = L - r1 - r2 if ext else None
            L2 = gen.sig(r1 + r2 + d * g.uniform(1.03, 2), 10) if ext else gen.sig(L * g.uniform(.5, .97), 10)
            b = flat(new(L=L2).single_m(m, k.copy()))
            e = nz(k, dist=L2) * np.abs(a) + 1e-11
            for v, w, s, t in zip(a, b, sg, e):
                if s:
                    mon.true("distance", abs(w) <= abs(v) + t, "|ln det| grew from %r to %r for the weaker coupled position %r" % (v, w, L2))
            try:
                a0, b0 = flat(new().mSumme_k0()), flat(new(L=L2).mSumme_k0())
                mon.true("distance, static", abs(b0[0]) <= abs(a0[0]) * (1 + 1e-7) + 1e-11, "%r -> %r" % (a0, b0))
            except NotImplementedError:
                pass
        return
    # ------------------------------------------------ dipole laws
    r1, r2 = gen.logu(g, -1, .5), gen.logu(g, -1, .5)
    L = gen.sig(max(r1, r2) * 10 ** g.uniform(1.6, 2.3))
    if kind == "far0":
        mk = ("diel", "drude", "pec", "dielmag")
        m1, m2 = gen.material(g, mk), gen.material(g, mk)
        md = gen.medium(g, .2)
        mon.note(r1=r1, r2=r2, L=L, m1=m1, m2=m2, m3=md)
        q = gen.med(md)

        def pol(s):
            if gen.is_pec(s):
                return 1.0, -.5
            e = gen.med(s)
            dru = any(t[0] != 0 and t[1] == 0 for t in e.e)
            al = 1.0 if dru else float((e.eps(0) - q.eps(0)) / (e.eps(0) + 2 * q.eps(0)))
            return al, float((e.mu(0) - q.mu(0)) / (e.mu(0) + 2 * q.mu(0)))
        (a1, b1), (a2, b2) = pol(m1), pol(m2)
        f = (r1 * r2) ** 3 / L ** 6
        got = float(flat(new(r1, r2, L, m1, m2, md, lmax, lss).mSumme_k0())[0])
        big = 6 * f * (abs(a1 * a2) + abs(b1 * b2))
        mon.close("static dipole law", got, -6 * f * (a1 * a2 + b1 * b2), 0, 30 * (max(r1, r2) / L) ** 2 * 6 * f + 1e-14)
        return
    lmax = int(g.integers(1, 3))
    pec, vac = ["pre", "PerfectConductor"], ["pre", "Vacuum"]
    x = g.uniform(15, 25)
    L = gen.logu(g, -2, -1)
    r1, r2 = gen.sig(L / x), gen.sig(L / x * g.uniform(.6, 1))
    mon.note(r1=r1, r2=r2, L=L, lmax=lmax)
    f = TH.finiteT(1.0, 1, 1.0, new(r1, r2, L, pec, pec, vac, lmax, lmax))
    law = -143. / 8 * (r1 * r2) ** 3 / L ** 7
    mon.close("Casimir-Polder", float(flat(f.e0())[0]), law, 30 / x ** 2, 3e-8)
    # further out, by an own quadrature of the totals (ln det is of the order of 1e-11 there)
    x = g.uniform(50, 90)
    r1, r2 = gen.sig(1 / x), gen.sig(1 / x * g.uniform(.8, 1))
    t, w = np.polynomial.laguerre.laggauss(24)
    v = flat(new(r1, r2, 1.0, pec, pec, vac, lmax, lmax).mSumme(t / 2))
    mon.close("Casimir-Polder, far", float(np.dot(w * np.exp(t), v) / 2), -143. / 8 * (r1 * r2) ** 3, 30 / x ** 2 + 1e-3, 0)
