import numpy as np
from mpmath import mp, mpf
from vlib import gen, ref

RULE = ("random material pairs/triples (dielectric, Drude, Smith, plasma, several oscillators, magnetic, perfect "
        "conductor), radii, lmin..lmax; the analytic zero-frequency coefficients and static round trips of the package "
        "against 70-digit evaluations at k=1e-24/micron. Non-trivial: a non-zero value was compared.")
ASSUMPTIONS = ["limit evaluated at k=1e-24 per micron in 70 digits; relaxation frequencies of generated materials are "
               ">=1e9 rad/s, so corrections are below 1e-12",
               "the embedding medium is a dielectric, possibly magnetic (the package rejects others)"]
REQUIRED = {"TE limit": 300, "TM limit": 300, "cavity TE limit": 300, "cavity TM limit": 300,
            "static ln det": 200}
K = mpf(10) ** -24


def init():
    mp.dps = 70


def cases(rng, tier):
    f = 1 if tier == "quick" else 10
    return gen.mkcases(rng, {"mie": 150 * f, "cavity": 150 * f, "pair": 70 * f, "batch": 14 * f})


def material(g):
    if g.random() < .06:                    # dilute plasma, with penetration depths up to centimetres
        o = [[gen.sig(10 ** g.uniform(10.5, 14)), 0.0, 0.0]] + [gen.osc(g, "diel") for _ in range(int(g.integers(0, 2)))]
        return ["lor", [o[i] for i in g.permutation(len(o))], []]
    return gen.material(g, ("diel", "drude", "plasma", "plasma", "mag", "pec", "dielmag"), strong=.2)


def tag(mon, s):
    mon.reach(s[1] if s[0] == "pre" else "user defined " + s[0] + (" magnetic" if s[2] else ""))


def reference(d, ms):
    geo = dict(r1=d["r1"], r2=d["r2"], L=d["L"], mat1=gen.med(d["m1"]), mat2=gen.med(d["m2"]),
               mat3=gen.med(d["m3"]), lmax=d["lmax"], lssmax=d["lssmax"])
    out = {}
    pec = dict(geo, mat1=gen.med(("pre", "PerfectConductor")), mat2=gen.med(("pre", "PerfectConductor")))
    for m in ms:
        # the largest round trip this geometry allows: what rounding and the O(K) terms of the reference scale with
        P = ref.balanced(ref.roundtrip(pec, m, K), pec, m, K)
        n = len(P) // 2
        big = max(max(abs(P[i][j]), abs(P[n + i][n + j])) for i in range(n) for j in range(n))
        B = ref.balanced(ref.roundtrip(geo, m, K), geo, m, K)
        n = len(B) // 2
        te = ref.lndet_1m([r[:n] for r in B[:n]])
        tm = ref.lndet_1m([r[n:] for r in B[n:]])
        out[m] = dict(ln=float(ref.lndet_1m(B)[0]), te=float(te[0]), tm=float(tm[0]),
                      tr=(float(sum(B[i][i] for i in range(n))), float(sum(B[n + i][n + i] for i in range(n)))),
                      noise=float(1e-14 * big + mpf(10) ** -40),
                      mag=float(max(max(abs(B[i][j]), abs(B[n + i][n + j])) for i in range(n) for j in range(n))))
    return out


def run(case, mon):
    import scattering as S, geometry as G
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind in ("mie", "cavity"):
        md, sp = gen.medium(g, .3), material(g)
        R = gen.logu(g, -2, 1.5) if g.random() < .8 else gen.logu(g, -3.5, 3) if g.random() < .6 else int(g.integers(1, 40))
        lmax = int(g.choice([1, 2, g.integers(1, 12), g.integers(1, 31)])) if g.random() < .9 else int(g.integers(31, 91))
        lmin = int(g.choice([1, lmax, g.integers(1, lmax + 1)]))
        mon.note(sphere=sp, medium=md, R=R, lmin=lmin, lmax=lmax)
        tag(mon, sp)
        cav = kind == "cavity"
        a, b = gen.med(sp), gen.med(md)
        if cav:
            got = S.scattering(gen.obj(md), gen.obj(sp)).mie_internal_k0(lmin, lmax, R)
            t = ref.mie_internal(b, a, K, lmin, lmax, R)
        else:
            got = S.scattering(gen.obj(sp), gen.obj(md)).mie_k0(lmin, lmax, R)
            t = ref.mie(a, b, K, lmin, lmax, R)
        x = K * mpf(R) * mp.sqrt(b.eps(K) * b.mu(K))
        got = np.asarray(got)
        n = lmax - lmin + 1
        if got.shape != (3, n):
            mon.fail("shape", "shape %s instead of %s" % (got.shape, (3, n)))
            return
        e = np.zeros((2, n))
        for j in range(n):
            l = lmin + j
            f = t[j][2] * x ** ((2 * l + 1) * (1 if cav else -1)) / mp.exp(mpf(float(got[2, j])))
            e[0, j], e[1, j] = float(t[j][0] * f), float(t[j][1] * f)
        pre = "cavity " if cav else ""
        mon.close(pre + "TE limit", got[0], e[0], 1e-9, 1e-9, lmin=lmin, R=R, sphere=sp, medium=md)
        mon.close(pre + "TM limit", got[1], e[1], 1e-9, 1e-9, lmin=lmin, R=R, sphere=sp, medium=md)
        return
    ext = g.random() < .6
    r1, r2, L = gen.exterior(g) if ext else gen.interior(g, .15)
    lmax = int(g.integers(1, 7)) if case["no"] % 12 else int(g.integers(7, 15))
    lss = int(g.integers(max(1, lmax - 1), lmax + 5))
    if kind == "batch":
        lss = max(lss, lmax)
    d = dict(r1=r1, r2=r2, L=L, m1=material(g), m2=material(g), m3=gen.medium(g, .2), lmax=lmax, lssmax=lss)
    mon.note(pair=d)
    for q in ("m1", "m2"):
        tag(mon, d[q])
    mon.reach("exterior" if ext else "interior")
    ms = list(range(0, min(lmax, lss) + 1))
    want = reference(d, ms)

    def new(**k):
        return G.SphereSphere(r1, r2, L, gen.obj(d["m1"]), gen.obj(d["m2"]), gen.obj(d["m3"]), lmax=lmax, lssmax=lss, **k)
    if kind == "batch":
        geo = new(precision=1e-13)
        tot = want[0]["ln"] + 2 * sum(want[m]["ln"] for m in ms[1:])
        at = 1e-12 * (1 + lmax)
        mon.close("static m-sum", float(np.ravel(geo.mSumme_k0())[0]), tot, 1e-8, at)
        k = gen.wavenumbers(g, 2, min(r1, r2))
        b = np.ravel(new(precision=1e-13).mSumme(np.append(0.0, k)))
        mon.true("batch length", b.shape == (3,), "shape %s" % (b.shape,))
        mon.close("static m-sum in a batch", float(b[0]), tot, 1e-8, at)
        m = int(g.choice(ms))
        b = np.ravel(geo.single_m(m, np.append(0.0, k)))
        mon.true("batch length", b.shape == (3,), "shape %s" % (b.shape,))
        mon.close("static ln det in a batch", float(b[0]), want[m]["ln"], 1e-8, 1e-12)
        b = geo.blockmatrices(m, np.append(0.0, k))
        n = len(b[0][0])
        one = np.eye(n)
        mon.close("static blocks in a batch", float(np.linalg.slogdet(one - b[0][0])[1] + np.linalg.slogdet(one - b[3][0])[1]),
                  want[m]["ln"], 1e-7, 1e-11)
        mon.true("no static mixing", not np.any(b[1][0]) and not np.any(b[2][0]), "polarisation mixing at k=0")
        return
    geo = new()
    order = list(ms) * 2
    g.shuffle(order)
    for m in order:
        got = float(np.ravel(geo.single_m_k0(m))[0])
        mon.close("static ln det", got, want[m]["ln"], 1e-8, 1e-12, m=m, order=[int(x) for x in order])
        te, tm = geo.blockmatrices_k0(m)
        mon.close("static TE trace", float(np.trace(te)), want[m]["tr"][0], 1e-9, 1e-9 * want[m]["mag"] + want[m]["noise"], m=m)
        mon.close("static TM trace", float(np.trace(tm)), want[m]["tr"][1], 1e-9, 1e-9 * want[m]["mag"] + want[m]["noise"], m=m)
        one = np.eye(len(te))
        mon.close("static TE determinant", float(np.linalg.slogdet(one - te)[1]), want[m]["te"], 1e-7, 1e-11, m=m)
        mon.close("static TM determinant", float(np.linalg.slogdet(one - tm)[1]), want[m]["tm"], 1e-7, 1e-11, m=m)
