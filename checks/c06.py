import numpy as np
from mpmath import mp, mpf
from vlib import gen, ref, insitu

RULE = ("random m, lmax, lssmax<=30, distance, medium (also magnetic), 1..4 wavenumbers with kL 1e-14..200 in any order, "
        "exterior and interior; sampled elements of the coefficient arrays (corners always) against 40-digit sums over "
        "exact Gaunt coefficients; zero-frequency form against the limit. Non-trivial: a non-zero coefficient was compared.")
ASSUMPTIONS = ["an element may be off by 1e-10 of the sum of the absolute values of its terms (cancellation in double "
               "precision), plus 1e-15/x^2..3 noise of i_l for interior arguments below 0.5"]
REQUIRED = {"exterior": 1000, "interior": 1000, "static": 300}
NAMES = ("EE forward", "EE backward", "EM forward", "EM backward")


def cases(rng, tier):
    f = 1 if tier == "quick" else 12
    return gen.mkcases(rng, {"ext": 90 * f, "int": 90 * f, "k0ext": 40 * f, "k0int": 40 * f, "insitu": 16 * f})


def index(md, v):
    return mp.sqrt(md.eps(v) * md.mu(v))


def check(mon, name, got, lmin, lmax, lss, m, md, L, k, ext, g, nel, **info):
    n1, n2 = lmax - lmin + 1, lss - lmin + 1
    for q in range(5):
        if np.shape(got[q]) != (len(k), n1, n2):
            mon.fail(name + " shape", "shape %s instead of %s" % (np.shape(got[q]), (len(k), n1, n2)), **info)
            return
    els = {(0, 0), (n1 - 1, n2 - 1), (0, n2 - 1), (n1 - 1, 0)}
    while len(els) < min(nel, n1 * n2):
        els.add((int(g.integers(n1)), int(g.integers(n2))))
    for t, v in enumerate(k):
        x = mpf(float(v)) * mpf(L) * index(md, float(v))
        bess = (ref.sph_k if ext else ref.sph_i)(lmax + lss, x)
        xf = float(x)
        nz = 1e-10 + (2e-14 / xf ** 3 if not ext and .999e-3 <= xf < .5 else 0)
        for i, j in sorted(els):
            l1, l2 = lmin + i, lmin + j
            w = ref.translation(l1, l2, m, x, ext, bess)
            ae, am = ref.translation_abs(l1, l2, m, x, ext, bess)
            sc = mp.exp(mpf(float(got[4][t, i, j])))
            for q in range(4):
                norm = ae if q < 2 else (am if m else mpf(1))
                if norm == 0:
                    norm = mpf(1)
                mon.close(name, float(mpf(float(got[q][t, i, j])) * sc / norm), float(w[q] / norm), 0, nz,
                          which=NAMES[q], l1=l1, l2=l2, m=m, k=float(v), kL=xf, **info)


def run(case, mon):
    import translation as T
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind == "insitu":
        go = insitu.workload(g, mon)
        with insitu.Tap([("trans_ab", T.translation, "trans_ab")], g, 3) as tap:
            go()
        d = mon.notes[0]["workload"]
        for lab, evs in tap.events.items():
            mon.event("calls seen in situ", tap.total[lab])
            for a, kw, r in evs:
                s = a[0]
                k = np.asarray(s.get("k", []))
                need = ("lmax", "lssmax", "m", "L", "ext_flag", "forceFlag")
                if any(q not in s for q in need) or s["forceFlag"] or len(r) != 5 or (k == 0).any():
                    continue
                m = int(s["m"])
                check(mon, "in situ", [q[:2] for q in r], max(1, m), s["lmax"], s["lssmax"], m, gen.med(d["m3"]), s["L"],
                      k[:2], bool(s["ext_flag"]), g, 4)
        return
    ext = kind.endswith("ext")
    md = gen.medium(g, .3)
    L = gen.logu(g, -1.5, 1.5) if g.random() < .85 else gen.logu(g, -3, 3) if g.random() < .6 else int(g.integers(1, 30))
    lmax = int(g.choice([1, 2, g.integers(1, 9), g.integers(1, 31)]))
    lss = int(g.choice([lmax, g.integers(1, 9), g.integers(1, 31)]))
    if g.random() < .06 and not kind.startswith("k0"):
        lmax, lss = int(g.integers(25, 46)), int(g.integers(25, 61))
    elif kind.startswith("k0") and g.random() < .15:
        lmax, lss = int(g.integers(30, 81)), int(g.integers(30, 121))
    top = min(lmax, lss)
    m = int(g.choice([0, 0, 1 if top else 0, top, g.integers(0, top + 1)]))
    lmin = max(1, m)
    if kind.startswith("k0"):
        mon.note(static=True, ext=ext, medium=md, L=L, lmax=lmax, lssmax=lss, m=m)
        r = T.translation(lmax, lss, m, gen.obj(md), L, np.array([0]), int(ext)).trans_ab()
        mp.dps = 60
        x = mpf(10) ** -12
        n1, n2 = lmax - lmin + 1, lss - lmin + 1
        ln = np.broadcast_to(np.asarray(r[1], dtype=float), (n1, n2))
        sg = np.broadcast_to(np.asarray(r[0], dtype=float), (n1, n2))
        bess = (ref.sph_k if ext else ref.sph_i)(lmax + lss, x)
        for _ in range(12):
            i, j = int(g.integers(n1)), int(g.integers(n2))
            l1, l2 = lmin + i, lmin + j
            w = ref.translation(l1, l2, m, x, ext, bess)[0 if ext else 1]
            mon.close("static sign", sg[i, j] * float(mp.sign(w)), 1.0, 1e-12, 0, l1=l1, l2=l2, m=m, ext=ext)
            w = abs(w) * (x ** (l1 + l2 + 1) if ext else x ** -abs(l1 - l2))
            mon.close("static", float(mp.exp(mpf(ln[i, j])) / w), 1.0, 1e-9, 0, l1=l1, l2=l2, m=m, ext=ext)
        mp.dps = 40
        return
    k = gen.wavenumbers(g, int(g.integers(1, 5)), L, -4 if case["no"] % 4 else -14, 2.3 if case["no"] % 8 else -6)
    mon.note(ext=ext, medium=md, L=L, lmax=lmax, lssmax=lss, m=m, k=k)
    if m == top:
        mon.reach("m = min(lmax, lssmax)")
    if lss < lmax:
        mon.reach("lssmax < lmax")
    k0 = k.copy()
    k, sel = gen.pad(g, k, mon, .15 if lmax * lss < 200 else 0)
    k1 = k.copy()
    r = T.translation(lmax, lss, m, gen.obj(md), L, k, int(ext)).trans_ab()
    mon.true("wavenumbers unchanged", np.array_equal(k, k1), "caller's wavenumbers were modified")
    r = [np.asarray(q)[sel] if np.shape(q)[:1] == k.shape else q for q in r]
    check(mon, "exterior" if ext else "interior", r, lmin, lmax, lss, m, gen.med(md), L, k0, ext, g, 12,
          medium=md, dist=L)
