import numpy as np
from vlib import gen, ref
from checks.c07 import noise

RULE = ("random geometries, materials, wavenumber batches with/without leading zero, orders 1..8 and automatic, precision 1e-2..1e-10; "
        "sums of round-trip traces against powers of independently assembled 40-digit matrices (small truncation) or of the package's "
        "own matrices, against ln det, and through the thermodynamic classes. Non-trivial: a non-zero sum was compared.")
ASSUMPTIONS = ["the round-trip matrices are decided by C07 and C04", "the automatic order stops when the last term is below precision times "
               "the sum: the neglected rest is bounded by the geometric series of the largest eigenvalue"]
REQUIRED = {"order N": 200, "order N (reference)": 20, "automatic order": 80, "single round trip": 100, "thermodynamic terms": 60,
            "same as ln det": 20, "single round trip force": 20}


def cases(rng, tier):
    f = 1 if tier == "quick" else 12
    return gen.mkcases(rng, {"order": 60 * f, "reference": 30 * f, "auto": 50 * f, "single": 40 * f, "thermo": 24 * f, "free": 16 * f})


def big(o, m, k):
    b = o.blockmatrices(m, k.copy())
    return np.concatenate((np.concatenate((b[0], b[1]), 2), np.concatenate((b[2], b[3]), 2)), 1)


def powers(M, N):
    """tr M^n, n=1..N and the size of the terms"""
    P, out, size = M.copy(), [], []
    A = np.abs(M)
    for n in range(N):
        out.append(np.trace(P, axis1=1, axis2=2))
        size.append(np.abs(np.einsum("aii->ai", P)).sum(axis=1))
        P = np.einsum("aij,ajk->aik", P, M)
    return np.array(out), np.array(size)


def run(case, mon):
    import geometry as G, thermodynamics as TH
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    ext = g.random() < .75
    r1, r2, L = gen.exterior(g, gap=(-.8, 1.2), ratio=.8) if ext else gen.interior(g)
    md = gen.medium(g, .1)
    mk = ("diel", "drude", "plasma", "mag", "pec")
    m1, m2 = gen.material(g, mk), gen.material(g, mk)
    lmax = int(g.integers(1, 4)) if kind == "reference" else int(g.integers(1, 6))
    if kind == "auto" and ext and g.random() < .35:          # close: the expansion needs many orders
        r1, r2, L = gen.exterior(g, gap=(-2.7, -1.2), ratio=.5)
        lmax = int(g.integers(8, 19))
        m1 = m2 = ["pre", "PerfectConductor"]
        mon.reach("slow convergence")
    if kind == "single" and g.random() < .4:
        lmax = int(g.integers(6, 15)) if g.random() < .75 else int(g.integers(15, 22))
        mon.reach("single round trip, more multipoles")
    lss = lmax + int(g.integers(0, 3))
    k = gen.wavenumbers(g, int(g.integers(1, 3)) if kind == "reference" else int(g.integers(1, 5)), L, -2, .8)
    prec = gen.sig(10 ** g.uniform(-10, -2 if lmax < 8 or kind != "auto" else -7), 3)
    if kind == "single" and lmax > 14:
        prec = 1e-8
    mon.note(r1=r1, r2=r2, L=L, m1=m1, m2=m2, m3=md, lmax=lmax, lssmax=lss, k=k, precision=prec)

    def new(p=prec, ev="lndet"):
        return G.SphereSphere(r1, r2, L, gen.obj(m1), gen.obj(m2), gen.obj(md), lmax=lmax, lssmax=lss, precision=p, evaluation=ev)
    N = int(g.integers(1, 9))
    if kind == "order" and g.random() < .2:
        N = int(g.integers(9, 90))
    if kind == "reference":
        geo = dict(r1=r1, r2=r2, L=L, mat1=gen.med(m1), mat2=gen.med(m2), mat3=gen.med(md), lmax=lmax, lssmax=lss)
        want, size = np.zeros(len(k)), np.zeros(len(k))
        for i, v in enumerate(k):
            for m in range(lmax + 1):
                t = ref.trace_powers(ref.balanced(ref.roundtrip(geo, m, v), geo, m, v), N)
                w = 1 if m == 0 else 2
                want[i] -= w * float(sum(x / (n + 1) for n, x in enumerate(t)))
                size[i] += w * float(sum(abs(x) / (n + 1) for n, x in enumerate(t)))
        nz = noise(m1, m2, md, [r1, r2, L], k) + ref.translation_noise(geo, lmax, k)
        mon.close("order N (reference)", np.ravel(new().mSum_roundtrips(k.copy(), N)), want, 0, 10 * N * nz * size + 1e-30, N=N)
        return
    zero = kind in ("order", "single") and g.random() < .3
    kk = np.append(0.0, k) if zero else k
    mats = [big(new(), m, kk) for m in range(lmax + 1)]
    wt = [1] + [2] * lmax
    if kind == "order":
        want, size = 0, 0
        for w, M in zip(wt, mats):
            t, s = powers(M, N)
            inv = 1 / np.arange(1, N + 1)[:, None]
            want, size = want - w * (t * inv).sum(axis=0), size + w * (s * inv).sum(axis=0)
        mon.reach("order %d" % N if N < 9 else "orders from 9")
        got = np.ravel(new().mSum_roundtrips(kk.copy(), N))
        mon.close("order N", got, want, 0, 1e-9 * size + 1e-300, N=N)
        got = np.ravel(new(ev="trace").mSumme(kk.copy(), N))
        mon.close("order N", got, want, 0, 1e-9 * size + 1e-300, N=N)
        return
    if kind == "single":
        want = -sum(w * np.trace(M, axis1=1, axis2=2) for w, M in zip(wt, mats))
        size = sum(w * np.abs(np.einsum("aii->ai", M)).sum(axis=1) for w, M in zip(wt, mats))
        # the automatic range of m ends at about log2(1/precision), whatever that neglects
        M0 = int(round(-np.log2(prec)))
        cut = sum([2 * np.abs(np.trace(M, axis1=1, axis2=2)) for M in mats[M0:]], 0 * size)
        mon.close("single round trip", np.ravel(new().mSum_oneRoundtrip(kk.copy())), want, 0, 1e-9 * size + 1.001 * cut + 1e-300)
        mon.close("single round trip", np.ravel(new().mSum_roundtrips(kk.copy(), 1)), want, 0, 1e-9 * size + 1e-300)
        if lmax > 1:
            q = int(g.integers(1, lmax))
            part = -sum(w * np.trace(M, axis1=1, axis2=2) for w, M in list(zip(wt, mats))[:q + 1])
            mon.close("restricted m", np.ravel(new().mSum_oneRoundtrip(kk.copy(), q)), part, 0, 1e-9 * size + 1e-300, mmax=q)
        return
    if kind == "auto":
        full, tol = 0, 0
        for w, M in zip(wt, mats):
            ld = np.linalg.slogdet(np.eye(M.shape[1]) - M)[1]
            lam = np.array([np.abs(np.linalg.eigvals(x)).max() if np.isfinite(x).all() else 1.0 for x in M])
            if (lam > .98).any():
                mon.reach("largest eigenvalue near 1")
                return
            s = np.abs(powers(M, 1)[1][0])
            full = full + w * ld
            tol = tol + w * (3 * prec * np.maximum(np.abs(ld), s) / (1 - lam) + 1e-11)
        got = np.ravel(new(ev="trace").mSumme(k.copy()))
        mon.close("automatic order", got, full, 0, tol)
        mon.close("automatic order", np.ravel(new().mSum_roundtrips(k.copy())), full, 0, tol)
        mon.close("same as ln det", np.ravel(new(1e-14).mSumme(k.copy())), full, 1e-7, 1e-10)
        return
    dT, nmax = gen.sig(10 ** g.uniform(-1, .3) / L, 3), int(g.integers(0, 8))
    if kind == "thermo" and g.random() < .25:
        dT, nmax = gen.sig(dT * .1, 3), int(g.integers(48, 110))
        mon.reach("more than one slice")
    nT = int(g.integers(1, 4))
    if kind == "thermo":
        o = TH.oneRoundtrip(dT, nmax, nT * dT, new(1e-14))
        kn = np.append(1e-10, dT * np.arange(1, nmax + 1))
        t = -sum((1 if m == 0 else 2) * np.trace(big(new(), m, kn), axis1=1, axis2=2) for m in range(lmax + 1))
        t[0] *= .5
        sc = 1e-8 * np.abs(t).sum() + 1e-30
        mon.close("thermodynamic terms", o.get_f_matsubaras(0), t, 1e-8, sc)
        want = dT * np.arange(1, nT + 1) * np.array([t[::i].sum() for i in range(1, nT + 1)])
        mon.close("thermodynamic terms", o.free_energy(), want, 1e-8, nT * dT * sc)
        # force: minus the distance derivative of the same sum, by five-point differences of tr M
        gap = L - r1 - r2 if ext else r2 - r1 - L
        mm = gen.med(md)
        kmax = max(x * float(mm.eps(x) * mm.mu(x)) ** .5 for x in (max(dT * nmax, 3 / gap), 1 / gap, 5 / gap))
        h = min(2e-3 * min(gap, L / (2. * lmax + 2), 3 / kmax), 4e-2 * L / (lmax + lss + 2))
        tr, sz = [], 0
        for s in (-2, -1, 1, 2):
            ob = G.SphereSphere(r1, r2, L + s * h, gen.obj(m1), gen.obj(m2), gen.obj(md), lmax=lmax, lssmax=lss, precision=1e-14)
            Ms = [big(ob, m, kn) for m in range(lmax + 1)]
            tr.append(sum(w * np.trace(M, axis1=1, axis2=2) for w, M in zip(wt, Ms)))
            sz = np.maximum(sz, sum(w * np.abs(np.einsum("aii->ai", M)).sum(axis=1) for w, M in zip(wt, Ms)))
        D = np.tensordot(np.array([1, -8, 8, -1]) / 12., np.array(tr), 1) / h
        D[0] *= .5
        nz = np.append(1e-10, noise(m1, m2, md, [r1, r2, L], kn[1:]) - 1e-8) + 1e-11
        tol = 1e-5 * np.abs(D) + nz * sz / h + 1e-300
        F = o.force()
        want = dT * np.arange(1, nT + 1) * np.array([D[::i].sum() for i in range(1, nT + 1)])
        tT = dT * np.arange(1, nT + 1) * np.array([tol[::i].sum() for i in range(1, nT + 1)])
        mon.close("single round trip force", F, want, 0, tT)
        if o.force_matsubaras is not None and np.shape(o.force_matsubaras) == D.shape:
            mon.close("single round trip force", o.force_matsubaras, D, 0, tol)
        mon.close("thermodynamic terms", o.free_energy(), dT * np.arange(1, nT + 1) * np.array([t[::i].sum() for i in range(1, nT + 1)]),
                  1e-8, nT * dT * sc, after="force")
        return
    # whole free energy by either evaluation; close to the truth unless eigenvalues approach 1
    kn = dT * np.arange(1, nmax + 1)
    lam = 0.0
    for m in range(2):
        if m <= lmax and nmax:
            M = big(new(), m, kn[:1])[0]
            lam = max(lam, np.abs(np.linalg.eigvals(M)).max())
    if lam > .95:
        return
    a = TH.finiteT(dT, nmax, nT * dT, new(1e-14)).free_energy()
    b = TH.finiteT(dT, nmax, nT * dT, new(prec, "trace")).free_energy()
    T = dT * np.arange(1, nT + 1)
    t = np.abs(TH.finiteT(dT, nmax, nT * dT, new(1e-14)).get_f_matsubaras(0)).sum()
    mon.close("free energy by traces", b, a, 0, T * (10 * prec * t / (1 - lam) + 1e-9 * t + 1e-11))
