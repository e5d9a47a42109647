import numpy as np
from mpmath import mp, mpf
from vlib import gen, ref, insitu

RULE = ("random material pairs (predefined and user-defined dielectric, Drude, plasma, magnetic, perfect "
        "conductor), radii 0.01..30, 1..6 wavenumbers with kr 1e-6..1e3 in any order, lmin..lmax<=30; "
        "reference: Mie formulas in 40 digits. Non-trivial: a non-zero coefficient was compared.")
ASSUMPTIONS = ["coefficients are compared absolutely (they are of order one): 1e-9 (3e-12 l for arguments below 20), for l=1,2 plus 2e-14/x^3 "
               "where an argument x lies in 1e-3..0.5 (double precision cancellation in i_1)",
               "the embedding medium is a dielectric, possibly magnetic"]
REQUIRED = {"TE": 1000, "TM": 1000, "cavity TE": 500, "cavity TM": 500}


def cases(rng, tier):
    f = 1 if tier == "quick" else 14
    return gen.mkcases(rng, {"sphere": 160 * f, "cavity": 110 * f, "same": 30 * f, "limit": 30 * f, "insitu": 20 * f})


def noise(xs, lmin, lmax):
    """extra tolerance per (k, l) from i_1 in double precision"""
    t = np.zeros((len(xs[0]), lmax - lmin + 1))
    for l in (1, 2):
        if lmin <= l <= lmax:
            for x in xs:
                m = (x >= .999e-3) & (x < .5)
                t[m, l - lmin] += 2e-14 / x[m] ** 3
    return t


def index(spec, k):
    m = gen.med(spec)
    if m.pec:
        return None
    return np.array([float(mp.sqrt(m.eps(v) * m.mu(v))) for v in k])


def want(fn, a, b, k, lmin, lmax, r):
    te, tm, sc = (np.empty((len(k), lmax - lmin + 1)) for _ in range(3))
    for n, v in enumerate(k):
        for j, (x, y, z) in enumerate(fn(a, b, v, lmin, lmax, r)):
            te[n, j], tm[n, j], sc[n, j] = float(x), float(y), float(mp.log(z))
    return te, tm, sc


def compare(mon, pre, got, exp, xs, l0, l1, sfx="", **info):
    t = noise(xs, l0, l1)
    if np.shape(got) != (3,) + exp[0].shape:
        mon.fail(pre + "shape", "shape %s instead of %s" % (np.shape(got), (3,) + exp[0].shape), **info)
        return
    got = np.asarray(got)
    # what counts is the coefficient times its scale
    f = np.exp(np.clip(got[2] - exp[2], -600, 600))
    a = np.full(exp[0].shape, 1e-9)
    if not pre:                             # rounding of l in the logarithmic derivatives, as long as the arguments are moderate
        a[np.max(xs, axis=0) < 20] = 3e-12 * np.arange(l0, l1 + 1)
    mon.close(pre + "TE" + sfx, got[0] * f, exp[0], 1e-9, a + t, **info)
    mon.close(pre + "TM" + sfx, got[1] * f, exp[1], 1e-9, a + t, **info)


def lrange(g, hi=30):
    lmax = int(g.choice([1, 2, 3, g.integers(1, 9), g.integers(1, hi + 1)]))
    lmin = int(g.choice([1, 1, lmax, g.integers(1, lmax + 1)]))
    return lmin, lmax


def run(case, mon):
    import scattering as S
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind == "insitu":
        go = insitu.workload(g, mon)
        T = S.scattering
        with insitu.Tap([("mie", T, "mie"), ("miePEC", T, "miePEC"), ("mie_internal", T, "mie_internal"),
                         ("miePEC_internal", T, "miePEC_internal")], g, 3) as tap:
            go()
        d = mon.notes[0]["workload"]
        lookup = {}
        for s in (d["m1"], d["m2"], d["m3"]):
            lookup[key(gen.obj(s))] = s
        for lab, evs in tap.events.items():
            mon.event("calls seen in situ", tap.total[lab])
            for a, kw, r in evs:
                if kw or len(a) != 5:
                    continue
                selfd, k, lmin, lmax, rad = a
                s1, s2 = (lookup.get(key(selfd[n])) for n in ("mat1", "mat2"))
                if s1 is None or s2 is None:
                    continue
                sel = np.arange(len(k))[:3]
                cav = "internal" in lab
                e = want(ref.mie_internal if cav else ref.mie, gen.med(s1), gen.med(s2), k[sel], lmin, lmax, rad)
                xs = [k[sel] * rad * n for n in (index(s1, k[sel]), index(s2, k[sel])) if n is not None]
                compare(mon, "cavity " if cav else "", np.asarray(r)[:, sel], e, xs, lmin, lmax, " (in situ)",
                        k=k[sel], lmin=lmin, lmax=lmax, r=rad, mats=[s1, s2])
        return
    r = gen.logu(g, -2, 1.5) if g.random() < .85 else gen.logu(g, -3.5, 3) if g.random() < .6 else int(g.integers(1, 9))
    lmin, lmax = lrange(g)
    if g.random() < .06:
        lmax = int(g.integers(31, 81))
        lmin = int(g.integers(max(1, lmax - 12), lmax + 1)) if g.random() < .7 else lmin
    k = gen.wavenumbers(g, int(g.integers(1, 7)), r, -6 if g.random() < .88 else -12, 2.2 if g.random() < .85 else 3.6)
    if kind == "same":
        m = gen.medium(g, .4)
        mon.note(same=m, k=k, lmin=lmin, lmax=lmax, r=r)
        o = S.scattering(gen.obj(m), gen.obj(m))
        z = np.zeros((len(k), lmax - lmin + 1))
        for f in (o.mie, o.mie_internal):
            t = f(k.copy(), lmin, lmax, r)
            mon.close("no contrast, no scattering", t[0], z, 0, 1e-12, mat=m, k=k, r=r)
            mon.close("no contrast, no scattering", t[1], z, 0, 1e-12, mat=m, k=k, r=r)
        mon.nontriv = True
        return
    if kind == "limit":
        # perfect conductor against a plasma with penetration depth << r
        md = gen.medium(g, .3)
        k = gen.wavenumbers(g, 3, r, -2, 1)
        x = 8e3
        sp = ["lor", [[x / r * 2.998e14, 0.0, 0.0]], []]
        mon.note(limit=md, k=k, r=r, lmin=lmin, lmax=lmax)
        P = gen.obj(["pre", "PerfectConductor"])
        n = index(md, k)[:, None] * k[:, None] * r
        l = np.arange(lmin, lmax + 1)[None, :]
        eps = gen.med(md)
        e = np.array([float(eps.eps(v)) for v in k])[:, None]
        mu = np.array([float(eps.mu(v)) for v in k])[:, None]
        bound = 6 * (2 * l + 1 + n) * mu / x + 6 * (l + x) * e * (2 * l + 1 + n) / (x / (k[:, None] * r)) ** 2
        ok = bound < .3
        for cav in (0, 1):
            if cav:
                a = S.scattering(gen.obj(md), P).mie_internal(k.copy(), lmin, lmax, r)
                b = S.scattering(gen.obj(md), gen.obj(sp)).mie_internal(k.copy(), lmin, lmax, r)
                f = np.maximum(1, np.abs(b[:2]).max(axis=0))
            else:
                a = S.scattering(P, gen.obj(md)).mie(k.copy(), lmin, lmax, r)
                b = S.scattering(gen.obj(sp), gen.obj(md)).mie(k.copy(), lmin, lmax, r)
                f = 2.0
            for p in (0, 1):
                mon.close("perfect conductor is the limit of a plasma", np.where(ok, a[p], 0),
                          np.where(ok, b[p], 0), 0, 1e-6 + bound * f * (1 if not cav else 3 * (2 * l + 1 + n)),
                          medium=md, k=k, r=r, cav=cav, p=p)
        return
    if kind == "sphere":
        s1, s2 = gen.material(g, strong=.3), gen.medium(g, .25)
        fn, name = ref.mie, "mie"
    else:
        s1, s2 = gen.medium(g, .25), gen.material(g, strong=.3)
        fn, name = ref.mie_internal, "mie_internal"
    pre = "" if kind == "sphere" else "cavity "
    mon.note(mats=[s1, s2], k=k, lmin=lmin, lmax=lmax, r=r)
    for s in (s1, s2):
        mon.reach("pec" if gen.is_pec(s) else "user defined" if s[0] != "pre" else "predefined")
    if lmin > 1:
        mon.reach("lmin > 1")
    e = want(fn, gen.med(s1), gen.med(s2), k, lmin, lmax, r)
    xs = [k * r * n for n in (index(s1, k), index(s2, k)) if n is not None]
    o = getattr(S.scattering(gen.obj(s1), gen.obj(s2)), name)
    info = dict(mats=[s1, s2], k=k, lmin=lmin, lmax=lmax, r=r)
    kk, sel = gen.pad(g, k, mon)
    got = np.asarray(o(kk, lmin, lmax, r))
    if got.ndim == 3 and got.shape[1] == len(kk):
        got = got[:, sel]
    compare(mon, pre, got, e, xs, lmin, lmax, **info)
    n = int(g.integers(len(k)))
    alone = o(k[n:n + 1].copy(), lmin, lmax, r)
    compare(mon, pre + "alone ", alone, [q[n:n + 1] for q in e], [q[n:n + 1] for q in xs], lmin, lmax, **info)
    if lmax > lmin:
        sub = o(k.copy(), lmin + 1, lmax, r)
        compare(mon, pre + "cut ", sub, [q[:, 1:] for q in e], xs, lmin + 1, lmax, **info)


def key(m):
    if getattr(m, "is_perfect_conductor", False):
        return "pec"
    return repr((type(m).__name__, [tuple(map(float, t)) for t in m.e_properties], tuple(map(float, m.b_properties))))
