import numpy as np
from mpmath import mp, mpf
from vlib import gen, ref, insitu

RULE = ("random geometries (exterior, interior), material triples, solid/layered/coated spheres, lmax<=12 (all m) or <=40 (largest m), 1..4 "
        "wavenumbers, several m per object in random order; ln det(1-M) and traces of M, M^2 of the package's matrices "
        "against the round-trip operator assembled and solved in 40 digits. Non-trivial: ln det different from 0.")
ASSUMPTIONS = ["allowed error of ln det: 1e-8 relative (plus double-precision noise of i_1, i_2 for small arguments) and "
               "1e-12 absolute", "layered spheres only in exterior geometries; the medium is a dielectric, possibly magnetic"]
REQUIRED = {"ln det": 300, "tr M": 300, "tr M^2": 300, "channels add up": 100, "coated geometry": 20}


def cases(rng, tier):
    f = 1 if tier == "quick" else 10
    return gen.mkcases(rng, {"solid": 110 * f, "layered": 40 * f, "coated": 24 * f, "deep": 6 * f, "high": 14 * f, "wide": 6 * f, "insitu": 16 * f})


def reference(geo, m, k):
    out = []
    for v in k:
        M = ref.balanced(ref.roundtrip(geo, m, v), geo, m, v)
        t = ref.trace_powers(M, 2)
        n = len(M)
        out.append((float(ref.lndet_1m(M)[0]), float(t[0]), float(t[1]), float(max(abs(x) for r in M for x in r)) * n,
                    float(sum(abs(M[i][j] * M[j][i]) for i in range(n) for j in range(n)))))
    return np.array(out)


def n_(lmax, m):
    return lmax - max(1, m) + 1


def inner(g):
    return g.uniform(.3, .98) if g.random() < .85 else 10 ** g.uniform(-4, -1)


def layers(g, md, r):
    n = int(g.integers(1, 3))
    mats = [gen.material(g)] + [gen.material(g, ("diel", "drude", "plasma", "mag")) for _ in range(n)] + [md]
    rad = [r]
    for _ in range(n):
        rad.insert(0, gen.sig(rad[0] * inner(g)))
    return mats, rad


def noise(m1, m2, md, radii, k, gain=1):
    """relative accuracy of the round trip in double precision"""
    k = np.asarray(k, float)
    a, b = (list(x) if isinstance(x[0], (list, tuple)) else [x] for x in (m1, m2))
    c1, c2 = gen.contrasts(a, md, k), gen.contrasts(b, md, k)
    # an electric and a magnetic contrast only couple at finite k L; the rounding error of
    # either coefficient always meets the strongest one of the other sphere
    direct = np.max(c1 * c2, axis=0)
    cross = .1 * np.max(c1, axis=0) * np.max(c2, axis=0) * np.minimum(1, (k * max(radii)) ** 2)
    amp = (np.max(c1, axis=0) + np.max(c2, axis=0)) / np.maximum(np.maximum(direct, cross), 1e-13)
    return 1e-8 + gain * (1e-12 + 3e2 * gen.args_noise([gen.med(s) for s in a + b + [md]], radii, k)) * amp


def compare(mon, geo, obj, m, k, nz, g=None, **info):
    w = reference(geo, m, k)
    nz = nz + ref.translation_noise(geo, m, k)
    kk, sel = gen.pad(g, k, mon) if g is not None else (k.copy(), np.arange(len(k)))
    if len(kk) > len(k):
        v = np.ravel(obj.single_m(m, kk))
        if mon.true("one value per wavenumber", v.shape == kk.shape, "shape %s for %d wavenumbers" % (v.shape, len(kk)), m=m, **info):
            mon.close("ln det", v[sel], w[:, 0], nz, 1e-12, m=m, k=k, batch=kk, **info)
        kk = k.copy()
    mon.close("ln det", obj.single_m(m, kk), w[:, 0], nz, 1e-12, m=m, k=k, **info)
    b = obj.blockmatrices(m, kk)
    n = geo["lmax"] - max(1, m) + 1
    if len(b) != 4 or any(np.shape(x) != (len(k), n, n) for x in b):
        mon.fail("block shapes", "shapes %s" % ([np.shape(x) for x in b],), m=m, **info)
        return
    big = np.concatenate((np.concatenate((b[0], b[1]), 2), np.concatenate((b[2], b[3]), 2)), 1)
    mon.close("tr M", np.trace(big, axis1=1, axis2=2), w[:, 1], 0, nz * w[:, 3] + 1e-40, m=m, k=k, **info)
    mon.close("tr M^2", np.einsum("aij,aji->a", big, big), w[:, 2], 0, (3 * nz + nz ** 2) * w[:, 4] + 1e-40, m=m, k=k, **info)
    mon.true("wavenumbers unchanged", np.array_equal(kk, k), "caller's wavenumbers were modified")
    return b, big


def run(case, mon):
    import geometry as G
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind == "insitu":
        go = insitu.workload(g, mon)
        with insitu.Tap([("det", G, "balanced_slogdet"), ("blocks", G.SphereSphere, "blockmatrices")], g, 4) as tap:
            go()
        d = mon.notes[0]["workload"]
        for a, kw, r in tap.events.get("blocks", []):
            s = a[0]
            if kw or len(a) != 3 or any(q not in s for q in ("lmax", "lssmax")) or s.get("forceFlag"):
                continue
            m, k = a[1], np.asarray(a[2])
            if m > s["lmax"] or s["lmax"] > 9:
                continue
            geo = dict(r1=d["r1"], r2=d["r2"], L=d["L"], mat1=gen.med(d["m1"]), mat2=gen.med(d["m2"]),
                       mat3=gen.med(d["m3"]), lmax=s["lmax"], lssmax=s["lssmax"])
            sel = [int(x) for x in g.permutation(len(k))[:2] if k[x] > 0]
            if not sel:
                continue
            w = reference(geo, m, k[sel])
            nz = noise(d["m1"], d["m2"], d["m3"], [d["r1"], d["r2"], d["L"]], k[sel])
            nz = nz + ref.translation_noise(geo, m, k[sel])
            tr = np.trace(r[0], axis1=1, axis2=2) + np.trace(r[3], axis1=1, axis2=2)
            mon.close("tr M (in situ)", tr[sel], w[:, 1], 0, nz * w[:, 3] + 1e-40, m=m, k=k[sel])
        for lab in tap.total:
            mon.event("calls seen in situ", tap.total[lab])
        return
    deep = kind == "deep"
    ext = kind in ("layered", "coated") or g.random() < .65
    r1, r2, L = gen.exterior(g, gap=(-2 if deep else -1.3, 1.7)) if ext else gen.interior(g, .1)
    if ext and g.random() < .06:
        L = gen.sig((r1 + r2) * 10 ** g.uniform(1.5, 4))
        mon.reach("far apart")
    md = gen.medium(g, .2)
    lmax = int(g.integers(9, 13)) if deep else int(g.integers(1, 7))
    if kind == "high":
        lmax = int(g.integers(16, 41))
    lss = int(g.integers(lmax, lmax + 5))
    if kind == "wide":                      # few multipoles of one sphere, many of the other
        lmax, lss = int(g.integers(1, 3)), int(g.integers(40, 111))
    k = gen.wavenumbers(g, int(g.integers(1, 3 if deep else 5)), min(r1, r2), -6 if g.random() < .2 else -3, 1.5)
    if kind == "high" and g.random() < .6:
        k = gen.wavenumbers(g, 3, min(r1, r2), -12, 1.5)
    d = dict(r1=r1, r2=r2, L=L, m3=md, lmax=lmax, lssmax=lss)
    if kind == "layered":
        which = int(g.integers(3))
        s1, q1 = layers(g, md, r1) if which != 1 else (gen.material(g), r1)
        s2, q2 = layers(g, md, r2) if which != 0 else (gen.material(g), r2)
        d.update(m1=s1, m2=s2, r1=q1, r2=q2)
        if which == 2 and g.random() < .5:   # the same materials (the same list, even), other radii
            s2 = s1 if g.random() < .5 else list(s1)
            q2 = [r2]
            for _ in s1[2:]:
                q2.insert(0, gen.sig(q2[0] * g.uniform(.3, .98)))
            if g.random() < .6:
                lss = d["lssmax"] = lmax
            d.update(m2=s2, r2=q2)
            mon.reach("layered spheres of the same materials")
        mon.reach("layered sphere " + ["1", "2", "1 and 2"][which])
    elif kind == "coated":
        nonpec = ("diel", "drude", "plasma", "mag")
        d.update(core1=gen.material(g), coat1=gen.material(g, nonpec), core2=gen.material(g), coat2=gen.material(g, nonpec),
                 ri=[gen.sig(r1 * inner(g)), gen.sig(r2 * inner(g))])
        d.update(m1=[d["core1"], d["coat1"], md], m2=[d["core2"], d["coat2"], md], r1=[d["ri"][0], r1], r2=[d["ri"][1], r2])
    else:
        d.update(m1=gen.material(g, strong=.15), m2=gen.material(g, strong=.15))
        if kind == "solid" and g.random() < .2:
            d.update(m2=d["m1"])
            if g.random() < .5:
                lss = d["lssmax"] = lmax
            mon.reach("spheres of the same material")
        if gen.is_pec(d["m1"]) or gen.is_pec(d["m2"]):
            mon.reach("perfect conductor")
    d["k"] = k
    mon.note(**d)
    mon.reach("exterior" if ext else "interior")
    geo = dict(r1=d["r1"], r2=d["r2"], L=L, mat1=gen.med(d["m1"]), mat2=gen.med(d["m2"]), mat3=gen.med(md), lmax=lmax,
               lssmax=lss)
    radii = [r for q in (d["r1"], d["r2"]) for r in (q if isinstance(q, list) else [q])] + [L]
    nz = noise(d["m1"], d["m2"], md, radii, k, 20 if kind in ("layered", "coated") else 1)
    ms = [int(x) for x in g.permutation(lmax + 1)[:(2 if deep else 3)]]
    if kind == "high":                      # the highest multipoles: small matrices of large orders
        ms = [lmax - int(g.integers(0, 3))]
    if kind == "coated":
        o = G.CoatedSphereSphere(d["ri"][0], r1, gen.obj(d["core1"]), gen.obj(d["coat1"]), d["ri"][1], r2,
                                 gen.obj(d["core2"]), gen.obj(d["coat2"]), L, gen.obj(md), lmax, lss)
        for m in ms:
            w = reference(geo, m, k)
            mon.close("coated geometry", o.single_m(m, k.copy()), w[:, 0], nz, 1e-12, m=m)
        return
    o1 = gen.obj(d["m1"])
    o2 = o1 if d["m2"] is d["m1"] else gen.obj(d["m2"])
    if kind == "layered" and d["m2"] is not d["m1"] and d["m2"] == d["m1"]:
        o2 = list(o1)                       # another list of the same objects
    o = G.SphereSphere(list(d["r1"]) if isinstance(d["r1"], list) else d["r1"],
                       list(d["r2"]) if isinstance(d["r2"], list) else d["r2"], L, o1, o2,
                       gen.obj(md), lmax=lmax, lssmax=lss)
    for m in ms:
        res = compare(mon, geo, o, m, k, nz, g)
        if res is None:
            continue
        b, big = res
        ch = getattr(o, "blockmatrices_channels", None)
        if ch is not None:
            c = ch(m, k.copy())
            for blk, x, y in ((b[0], c[0], c[1]), (b[3], c[2], c[3]), (b[1], c[4], c[5]), (b[2], c[6], c[7])):
                if not np.shape(x) == np.shape(y) == np.shape(blk):
                    mon.fail("channels add up", "shape", m=m)
                    continue
                sc = np.maximum(np.abs(x), np.abs(y))
                mon.close("channels add up", x + y, blk, 1e-10, 1e-10 * sc + 1e-300, m=m)
            if kind != "layered" and g.random() < .4:
                kz = np.append(0., k)                           # with the zeroth frequency in front
                zb, zc = o.blockmatrices(m, kz.copy()), ch(m, kz.copy())
                for blk, x, y in ((zb[0], zc[0], zc[1]), (zb[3], zc[2], zc[3]), (zb[1], zc[4], zc[5]), (zb[2], zc[6], zc[7])):
                    if mon.true("channels at zero frequency", np.shape(x) == np.shape(y) == np.shape(blk) == (len(kz), n_(lmax, m), n_(lmax, m)),
                                "shapes %s %s %s" % (np.shape(x), np.shape(y), np.shape(blk)), m=m):
                        sc = np.maximum(np.abs(x), np.abs(y))
                        mon.close("channels at zero frequency", x + y, blk, 1e-10, 1e-10 * sc + 1e-300, m=m)
            if k.min() * L > 1e-3 and g.random() < .5:          # the same for the derivative with respect to the distance
                try:
                    o.forceFlag = 1
                    fb, fc = o.blockmatrices(m, k.copy()), ch(m, k.copy())
                finally:
                    o.forceFlag = 0
                for blk, x, y in ((fb[0], fc[0], fc[1]), (fb[3], fc[2], fc[3]), (fb[1], fc[4], fc[5]), (fb[2], fc[6], fc[7])):
                    sc = np.maximum(np.abs(x), np.abs(y))
                    mon.close("channels of the derivative", x + y, blk, 1e-9, 1e-9 * sc + 1e-300, m=m)
        if hasattr(o, "supermatrix"):
            mon.close("supermatrix", o.supermatrix(m, k.copy()), big, 1e-12, 1e-300, m=m)
