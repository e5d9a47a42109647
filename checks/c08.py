import numpy as np
from vlib import gen, ref
from checks.c07 import noise

RULE = ("random geometries and material triples, lmax<=14, batches of 1..12 wavenumbers in any order with/without leading 0, "
        "precision 1e-1..1e-14; totals against the complete sum of the per-m values (each from a fresh object), for whole, "
        "split, permuted and duplicated batches. Non-trivial: a non-zero total was compared.")
ASSUMPTIONS = ["the per-m values are decided by C07 and C04",
               "allowed error: precision x largest |total| of the batch (early termination), plus rounding"]
ROUNDS = 3
REQUIRED = {"complete sum": 200, "sum to precision": 200, "split batch": 50, "leading zero": 10, "exactly zero": 10}


def cases(rng, tier):
    f = 1 if tier == "quick" else 12
    return gen.mkcases(rng, {"exact": 60 * f, "tol": 110 * f, "batch": 50 * f, "k0": 30 * f, "zero": 12 * f, "close": 14 * f, "touch": 5 * f, "tiny": 14 * f})


def run(case, mon):
    import geometry as G
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    ext = g.random() < .7
    r1, r2, L = gen.exterior(g, gap=(-1.6, 1)) if ext else gen.interior(g)
    gap = L - r1 - r2 if ext else r2 - r1 - L
    md = gen.medium(g, .1)
    mk = ("diel", "drude", "plasma", "pec", "pec") if kind in ("tol", "batch", "close") else ("diel", "drude", "plasma", "mag", "pec")
    m1, m2 = gen.material(g, mk), gen.material(g, mk)
    lmax = int(g.integers(1, 6)) if kind == "exact" else int(g.integers(2, 13))
    lss = lmax + int(g.integers(0, 4))
    prec = gen.sig(10 ** g.uniform(-7, -1), 3)
    if kind in ("exact", "k0", "tiny"):
        prec = 1e-15
    if kind == "tiny":
        m1, m2 = gen.material(g, ("drude", "plasma", "mag")), gen.material(g, ("drude", "drude", "plasma", "pec"))
        lmax = min(lmax, 6)
        lss = lmax + 1
    if kind == "zero":
        m1 = md
    if kind in ("close", "touch"):
        # spheres that nearly touch: many m contribute about the same
        ext = bool(g.random() < .7)
        r1 = gen.logu(g, -.5, 1)
        x = 10 ** g.uniform(-2.3, -1.2)
        if ext:
            r2 = gen.sig(r1 * 10 ** g.uniform(0, .5))
            gap = gen.sig(r1 * x)
            L = r1 + r2 + gap
        else:
            r2 = gen.sig(r1 * g.uniform(1.2, 2))
            gap = gen.sig(r1 * x)
            L = r2 - r1 - gap
        lmax = int(g.integers(14, 25))
        lss = lmax
        prec = gen.sig(10 ** g.uniform(-4, -.3), 3)
        if kind == "touch":                 # up to the highest m
            lmax = lss = int(g.integers(20, 29))
            prec = 1e-15
    n = int(g.integers(1, 13)) if kind not in ("close", "touch") else int(g.integers(1, 3))
    k = gen.wavenumbers(g, n, max(gap, .2 * min(r1, r2)), -4, .5)
    if kind == "tiny":
        k[0] = gen.sig(10 ** g.uniform(-14, -7))
        mon.reach("next to zero frequency")
    elif n > 1 and g.random() < .35:
        # elements that contribute next to nothing, or exactly nothing, anywhere in the batch
        for i in {0, int(g.integers(n))} if g.random() < .7 else {int(g.integers(n))}:
            k[i] = gen.sig(10 ** g.uniform(.8, 2.5) / gap, 10)
        mon.reach("negligible elements")
    mon.note(r1=r1, r2=r2, L=L, m1=m1, m2=m2, m3=md, lmax=lmax, lssmax=lss, precision=prec, k=k)

    def new(p=prec):
        return G.SphereSphere(r1, r2, L, gen.obj(m1), gen.obj(m2), gen.obj(md), lmax=lmax, lssmax=lss, precision=p)
    if kind == "zero":
        one = gen.obj(md)
        o = G.SphereSphere(r1, r2, L, one, gen.obj(m2), one, lmax=lmax, lssmax=lss, precision=1e-4)
        z = np.ravel(o.mSumme(k.copy()))
        mon.close("exactly zero", z, np.zeros(n), 0, 1e-12)
        mon.nontriv = True
        return
    full = np.zeros(n)
    part = []
    for m in range(lmax + 1):
        v = np.ravel(new().single_m(m, k.copy()))
        if v.shape != (n,):
            mon.fail("shape", "single_m returned shape %s" % (v.shape,))
            return
        part.append(v * (1 if m == 0 else 2))
        full = full + part[-1]
    scale = np.abs(full).max()
    rnd = 1e-11 * np.max(np.sum(np.abs(part), axis=0)) + 1e-12
    if kind in ("exact", "touch", "tiny"):
        mon.close("complete sum", new().mSumme(k.copy()), full, 1e-10, rnd)
        if kind != "exact":
            if n > 1:
                got = np.ravel(new().mSumme(k[::-1].copy()))
                mon.close("complete sum", got, full[::-1], 1e-10, rnd)
            return
        kb, at = gen.pad(g, k, mon)
        if len(kb) > n:
            got = np.ravel(new().mSumme(kb))
            if mon.true("one value per wavenumber", got.shape == kb.shape, "shape %s for %d wavenumbers" % (got.shape, len(kb))):
                mon.close("complete sum", got[at], full, 1e-10, 1e-11 * np.abs(got).max() + rnd, batch=kb)
        if lmax <= 4:
            kk = k[:2]
            geo = dict(r1=r1, r2=r2, L=L, mat1=gen.med(m1), mat2=gen.med(m2), mat3=gen.med(md), lmax=lmax, lssmax=lss)
            w = [[float(ref.solve_lndet(geo, m, v)) * (1 if m == 0 else 2) for m in range(lmax + 1)] for v in kk]
            nz = noise(m1, m2, md, [r1, r2, L], kk) + ref.translation_noise(geo, lmax, kk)
            mon.close("independent complete sum", new().mSumme(kk.copy()), np.sum(w, axis=1), 0,
                      nz * np.sum(np.abs(w), axis=1) + 1e-12)
        return
    if kind == "k0":
        if g.random() < .3:
            k[int(g.integers(n))] = gen.sig(10 ** g.uniform(-14, -5))
            full = np.sum([np.ravel(new().single_m(m, k.copy())) * (1 if m == 0 else 2) for m in range(lmax + 1)], axis=0)
            mon.reach("leading zero and next to zero")
        z = new()
        st = [float(np.ravel(new().single_m_k0(m))[0]) * (1 if m == 0 else 2) for m in range(lmax + 1)]
        s0 = float(np.sum(st))
        r0 = 1e-11 * np.sum(np.abs(st)) + 1e-13
        got = np.ravel(z.mSumme(np.append(0.0, k)))
        if mon.true("leading zero length", got.shape == (n + 1,), "shape %s" % (got.shape,)):
            mon.close("leading zero", got[0], s0, 1e-10, r0)
            mon.close("after a leading zero", got[1:], full, 1e-10, rnd)
        mon.close("static sum", float(np.ravel(new().mSumme_k0())[0]), s0, 1e-10, r0)
        p = gen.sig(10 ** g.uniform(-6, -1), 3)
        mon.close("static sum to precision", float(np.ravel(new(p).mSumme_k0())[0]), s0, 0, p * abs(s0) + r0, p=p)
        got = np.ravel(z.mSumme(np.array([0.0])))
        mon.close("only a zero", got, np.array([s0]), 1e-10, r0)
        return
    if kind == "close":
        # precisions for which the sum may end at any m
        s = np.cumsum(part, axis=0)
        i = int(np.abs(full).argmax())
        for _ in range(2):
            m = int(g.integers(1, lmax + 1))
            p = gen.sig(min(.5, max(1e-13, abs(part[m][i] / s[m - 1][i]) * 10 ** g.uniform(-.7, 1.2))), 3)
            mon.close("sum to a critical precision", new(p).mSumme(k.copy()), full, 0, p * scale + rnd, m=m, p=p)
    tol = prec * scale + rnd
    got = np.ravel(new().mSumme(k.copy()))
    mon.close("sum to precision", got, full, 0, tol, parts=np.array(part)[:, :3].T.tolist())
    if kind == "batch":
        order = g.permutation(n)
        got = np.ravel(new().mSumme(k[order].copy()))
        mon.close("permuted batch", got, full[order], 0, tol)
        for i in order[:3]:
            got = np.ravel(new().mSumme(k[i:i + 1].copy()))
            mon.close("split batch", got, full[i:i + 1], 0, 3 * prec * abs(full[i]) + rnd)
        d = np.append(k, k[order[0]])
        got = np.ravel(new().mSumme(d.copy()))
        mon.close("duplicated wavenumber", got, np.append(full, full[order[0]]), 0, tol)
