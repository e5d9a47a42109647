import numpy as np
from mpmath import mp, mpf
from vlib import gen, lifshitz as LF

RULE = ("random material triples (dielectric, Drude, plasma, magnetic, perfect conductor), distances, temperatures 0, finite and "
        "infinite, shielding on/off, both PFA modules; Fresnel coefficients against 40 digits, polarisation-resolved terms, free "
        "energies, pressures against an own quadrature of the Lifshitz formula. Non-trivial: a non-zero energy was compared.")
ASSUMPTIONS = ["allowed error 1e-5 relative plus the absolute tolerance of the package's quadratures (2e-8 each)",
               "the zeroth term is the limit k -> 0; the deviation of good conductors at k=1e-10 is allowed for"]
REQUIRED = {"Fresnel": 200, "round trip": 200, "terms": 100, "free energy": 20, "pressure": 12, "high temperature": 20, "e0": 6}
CPU_LIMIT = 300


def cases(rng, tier):
    f = 1 if tier == "quick" else 10
    return gen.mkcases(rng, {"fresnel": 90 * f, "terms": 36 * f, "energy": 28 * f, "pressure": 20 * f, "ht": 30 * f, "e0": 6 * f,
                             "pec": 3 * f, "cold": 12 * f, "coldest": f, "coldpec": f, "hot": 10 * f})


def mpfresnel(s, md, kp, kn):
    if gen.is_pec(s):
        return [-1, 1]
    a, b = gen.med(s), gen.med(md)
    kp, kn = mpf(kp), mpf(kn)
    ep, mu, em, mm = a.eps(kn), a.mu(kn), b.eps(kn), b.mu(kn)
    p, m = mp.sqrt(kp ** 2 + kn ** 2 * ep * mu), mp.sqrt(kp ** 2 + kn ** 2 * em * mm)
    return [(mu * m - mm * p) / (mu * m + mm * p), (ep * m - em * p) / (ep * m + em * p)]


def triple(g):
    mk = ("diel", "drude", "plasma", "mag", "pec")
    return gen.material(g, mk), gen.material(g, mk), gen.medium(g, .15)


def run(case, mon):
    import PFA, raw_PFA, scattering
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    m1, m2, md = triple(g)
    L = gen.logu(g, -1.7, 1.3)
    mods = [("PFA", PFA), ("raw_PFA", raw_PFA)]
    if kind == "fresnel":
        n = 4
        kp = np.array([gen.logu(g, -6, 3) for _ in range(n)])
        kn = gen.logu(g, -6, 3)
        if g.random() < .15:
            kn = gen.logu(g, 3, 6)
            kp = np.array([gen.logu(g, 1, 6) for _ in range(n)])
        mon.note(m1=m1, m2=m2, m3=md, kperp=kp, kn=kn, L=L)
        w = [np.array([[float(x) for x in mpfresnel(s, md, v, kn)] for v in kp]) for s in (m1, m2)]
        for s, ww in zip((m1, m2), w):
            sc = scattering.scattering(gen.obj(s), gen.obj(md))
            got = np.array([[float(np.ravel(x)[0]) for x in sc.fresnel(v, kn)] for v in kp])
            amp = np.array([1e-15 * (1 + kn / v) ** 0 for v in kp])[:, None]
            mon.close("Fresnel", got, ww, 1e-11, 3e-14, m=s)
            if not gen.is_pec(s):
                te, tm = sc.fresnel(kp.copy(), kn)
                mon.close("Fresnel, array", np.array([te, tm]).T, ww, 1e-11, 3e-14, m=s)
        q = gen.med(md)
        kap = np.array([float(mp.sqrt(mpf(v) ** 2 + mpf(kn) ** 2 * q.eps(kn) * q.mu(kn))) for v in kp])
        e = w[0] * w[1] * np.exp(-2 * kap * L)[:, None]
        ok = 1 - e > 1e-9                       # perfect mirrors at tiny kappa L: 1 - e rounds
        want = np.log1p(-e)
        prs = -2 * kap[:, None] * e / (1 - e)
        for name, mod in mods:
            P = mod.SphereSpherePFA(gen.obj(m1), gen.obj(m2), gen.obj(md))
            got = np.array([[float(np.ravel(x)[0]) for x in P.roundTrips(v, kn, L)] for v in kp])
            t = 1e-10 + 1e-13 / np.abs(1 - e)
            mon.close("round trip", got[ok], want[ok], t[ok] * 0 + 1e-9, 1e-15 + 1e-14 / np.abs(1 - e[ok]) + 3e-14 * 2 * (kap * L)[:, None].repeat(2, 1)[ok], mod=name)
            if hasattr(P, "pressureRoundTrips"):
                got = np.array([[float(np.ravel(x)[0]) for x in P.pressureRoundTrips(v, kn, L)] for v in kp])
                mon.close("pressure integrand", got[ok], prs[ok], 1e-9 + 1e-13 / np.abs(1 - e[ok]),
                          1e-13 * (np.abs(prs[ok]) + kap[:, None].repeat(2, 1)[ok]), mod=name)
            for f, v in (("roundTrip", want), ("pressureRoundTrip", prs)):
                if hasattr(P, f):
                    got = np.array([float(np.ravel(getattr(P, f)(x, kn, L))[0]) for x in kp])
                    o = ok.all(axis=1)
                    mon.close("polarisations add up", got[o], v.sum(axis=1)[o], 1e-8,
                              (1e-13 / np.abs(1 - e).min(axis=1) + 1e-12 * (1 + (kap if f[0] == "p" else 0)))[o], mod=name, f=f)
        return
    if kind == "pec":
        mon.note(L=L)
        pec, vac = ["pre", "PerfectConductor"], ["pre", "Vacuum"]
        for name, mod in mods:
            P = mod.SphereSpherePFA(gen.obj(pec), gen.obj(pec), gen.obj(vac))
            mon.close("ideal mirrors T=0", float(np.ravel(P.planeplane_e0(L))[0]), -np.pi ** 3 / 360 / L ** 3, 1e-5, 3e-8 / L ** 0, mod=name)
            mon.close("ideal mirrors T=inf", float(np.ravel(P.planeplaneFreeEnergyHT(L))[0]), -1.2020569031595942 / (8 * np.pi * L * L),
                      1e-5, 3e-8, mod=name)
        return
    qa = 2e-8
    if kind == "terms":
        T = gen.logu(g, -1, 1)
        kn = np.sort(np.append(gen.sig(10 ** g.uniform(-2, 1) / L), T * np.arange(1, 4)))
        mon.note(m1=m1, m2=m2, m3=md, L=L, T=T, kn=kn)
        for name, mod in mods:
            P = mod.SphereSpherePFA(gen.obj(m1), gen.obj(m2), gen.obj(md))
            for first in (1e-10, kn[0]):
                ks = np.append(first, kn[1:])
                sh = bool(g.random() < .4)
                got = np.asarray(P.get_f_matsubaras(T, L, ks.copy(), sh))
                w = np.array([LF.term(m1, m2, md, 0.0 if v < 1e-9 else v, L) for v in ks]).T
                rt = np.where(ks < 1e-9, 1e-5 + 10 * LF.skin((m1, m2), md, L), 1e-5)
                w[:, 0] *= 0 if sh else .5 if name == "PFA" else 1
                if name == "raw_PFA":
                    w = w.sum(axis=0)
                mon.close("terms", got, w, 0, rt * np.abs(w) + rt * .05 / L ** 2 + qa, mod=name, shielding=sh)
        return
    sh = bool(g.random() < .4)
    sk = 10 * LF.skin((m1, m2), md, L)
    if kind == "ht":
        mon.note(m1=m1, m2=m2, m3=md, L=L, shielding=sh)
        for name, mod in mods:
            P = mod.SphereSpherePFA(gen.obj(m1), gen.obj(m2), gen.obj(md))
            w = LF.energy(m1, m2, md, np.inf, L, sh)
            mon.close("high temperature", float(np.ravel(P.planeplaneFreeEnergyHT(L, sh))[0]), w, 1e-5, qa, mod=name, shielding=sh)
            if name == "PFA":
                mon.close("high temperature", float(np.ravel(P.planeplaneFreeEnergy(np.inf, L, sh))[0]), w, 1e-5, qa, mod=name)
        mon.nontriv = True
        return
    if kind == "hot":                       # too hot for any but the zeroth term
        T = gen.sig(g.uniform(101, 300) / L)
        mon.note(m1=m1, m2=m2, m3=md, L=L, T=T)
        we, wp = T * LF.static(m1, m2, md, L), .5 * T * LF.pterm(m1, m2, md, 0.0, L)
        for name, mod in mods:
            P = mod.SphereSpherePFA(gen.obj(m1), gen.obj(m2), gen.obj(md))
            for s in (False, True):
                mon.close("free energy", float(np.ravel(P.planeplaneFreeEnergy(T, L, s))[0]), 0 if s else we, 2e-5,
                          T * qa + (0 if s else sk * (abs(we) + .05 * T / L ** 2)), mod=name, shielding=s)
                mon.close("pressure", float(np.ravel(P.planeplanePressure(T, L, s))[0]), 0 if s else wp, 2e-5,
                          T * qa + (0 if s else sk * (abs(wp) + .05 * T / L ** 3)), mod=name, shielding=s)
        mon.nontriv = True
        return
    if kind == "e0":
        L = gen.logu(g, -.7, .7)
        mon.note(m1=m1, m2=m2, m3=md, L=L)
        w = LF.e0(m1, m2, md, L)
        for name, mod in mods[:1] if g.random() < .5 else mods:
            P = mod.SphereSpherePFA(gen.obj(m1), gen.obj(m2), gen.obj(md))
            mon.close("e0", float(np.ravel(P.planeplane_e0(L))[0]), w, 3e-5, 5e-8, mod=name)
            if name == "PFA":
                mon.close("e0", float(np.ravel(P.planeplaneFreeEnergy(0, L))[0]), w, 3e-5, 5e-8, mod=name)
        return
    name, mod = mods[int(g.random() < .4)]
    mirrors = kind == "coldpec"
    if mirrors:
        kind = "coldest"
    if kind == "coldest":
        # the slow module summing several thousand terms, with an easily integrated pair
        name, mod = mods[1]
        m1, m2 = gen.material(g, ("drude", "pec")), gen.material(g, ("drude", "diel", "pec"), pre=1)
        T = gen.sig(g.uniform(.009, .02) / L)
        if mirrors:                          # thousands of terms, perfect mirrors
            m1 = m2 = ["pre", "PerfectConductor"]
            T = gen.sig(g.uniform(.004, .007) / L)
            mon.reach("below T L = 0.007")
        sk = 10 * LF.skin((m1, m2), md, L)
    else:
        T = gen.sig(10 ** g.uniform(-.6, .9) * (1 if name == "PFA" else 8) / L)
    if kind not in ("cold", "coldest") and g.random() < .12:          # only the zeroth term is left
        T = gen.sig(g.uniform(20.5, 60) / L)
    if kind == "cold":
        # the sum over many terms is still a sum: conductors differ from their T=0 energy
        m1, m2 = (gen.material(g, ("drude", "drude", "diel", "pec")) for _ in range(2))
        T = gen.sig(10 ** (g.uniform(-2, -.9) if name == "PFA" else g.uniform(-.7, .5)) / L)
        sk = 10 * LF.skin((m1, m2), md, L)
        mon.reach("cold")
    mon.note(m1=m1, m2=m2, m3=md, L=L, T=T, shielding=sh, mod=name)
    mon.reach("few terms" if T * L > 20 else "many terms")
    P = mod.SphereSpherePFA(gen.obj(m1), gen.obj(m2), gen.obj(md))
    n = 20 / (T * L) + 1
    if kind == "cold" and name == "PFA" and g.random() < .4:
        kind = "pressure"
    if kind in ("cold", "coldest"):
        st = abs(T * LF.static(m1, m2, md, L)) + .05 * T / L ** 2
        mon.close("free energy", float(np.ravel(P.planeplaneFreeEnergy(T, L, sh))[0]), LF.energy(m1, m2, md, T, L, sh), 2e-5,
                  T * n * qa + (0 if sh else sk * st))
    elif kind == "energy":
        w = LF.energy(m1, m2, md, T, L, sh)
        st = abs(T * LF.static(m1, m2, md, L)) + .05 * T / L ** 2
        mon.close("free energy", float(np.ravel(P.planeplaneFreeEnergy(T, L, sh))[0]), w, 2e-5, T * n * qa + (0 if sh else sk * st))
        # shielding removes exactly the zeroth term
        a, b = (float(np.ravel(P.planeplaneFreeEnergy(T, L, x))[0]) for x in (False, True))
        mon.close("shielding", a - b, T * LF.static(m1, m2, md, L), 2e-5, T * qa + sk * st + 1e-9 * abs(a))
    else:
        w = LF.pressure(m1, m2, md, T, L, sh)
        st = .5 * abs(T * LF.pterm(m1, m2, md, 0.0, L)) + .05 * T / L ** 3
        mon.close("pressure", float(np.ravel(P.planeplanePressure(T, L, sh))[0]), w, 2e-5, T * n * qa + (0 if sh else sk * st))
