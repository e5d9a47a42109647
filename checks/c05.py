import copy
import numpy as np
from mpmath import mp, mpf
from vlib import gen, ref

RULE = ("random stacks of 1..5 concentric layers (all material kinds, perfectly conducting core), thin and thick layers, "
        "1..5 wavenumbers in any order, lmin..lmax<=20; reference: admittance propagated outwards in 60 digits. "
        "Non-trivial: a non-zero coefficient was compared.")
ASSUMPTIONS = ["coefficients are compared absolutely (they are of order one): 1e-8, plus double-precision noise of "
               "i_1, i_2 for arguments 1e-3..0.5 as in C03",
               "only the core may be a perfect conductor; the embedding medium is a dielectric, possibly magnetic"]
REQUIRED = {"layered TE": 300, "layered TM": 300, "inserted layer TE": 100, "coated routine TE": 100, "lists unchanged": 100}


def init():
    mp.dps = 60


def cases(rng, tier):
    f = 1 if tier == "quick" else 14
    return gen.mkcases(rng, {"stack": 150 * f, "degenerate": 80 * f, "coated": 60 * f, "repeat": 25 * f, "energy": 20 * f})


def noise(stack, radii, k, lmin, lmax):
    t = np.zeros((len(k), lmax - lmin + 1))
    meds = [gen.med(s) for s in stack]
    for j, r in enumerate(radii):
        for m in (meds[j], meds[j + 1]):
            if m.pec:
                continue
            x = np.array([float(v * r * mp.sqrt(m.eps(v) * m.mu(v))) for v in k])
            for l in (1, 2):
                if lmin <= l <= lmax:
                    sel = (x >= .999e-3) & (x < .5)
                    t[sel, l - lmin] += 1e-13 / x[sel] ** 3 * (1 if len(radii) == 1 else 20)
    return t


def want(stack, radii, k, lmin, lmax):
    meds = [gen.med(s) for s in stack]
    out = np.empty((3, len(k), lmax - lmin + 1))
    for n, v in enumerate(k):
        for j, (a, b, c) in enumerate(ref.mie_layered(meds, radii, v, lmin, lmax)):
            out[:, n, j] = float(a), float(b), float(mp.log(c))
    return out


def stack(g, n=None):
    n = n or int(g.choice([1, 2, 2, 3, 3, 4, 5, g.integers(5, 9)]))
    mats = [gen.material(g, ("diel", "drude", "plasma", "mag", "pec", "dielmag"), strong=.2)]
    mats += [gen.material(g, ("diel", "drude", "plasma", "mag", "dielmag"), strong=.2) for _ in range(n - 1)]
    mats.append(gen.medium(g, .25))
    radii = [gen.logu(g, -2, 1)]
    for _ in range(n - 1):
        radii.append(gen.sig(radii[-1] * (1 + 10 ** (g.uniform(-3, 1) if g.random() < .85 else g.uniform(-6, -3)))))
    return mats, radii


def compare(mon, name, got, w, tol, **info):
    if np.shape(got) != w.shape:
        mon.fail(name + " shape", "shape %s instead of %s" % (np.shape(got), w.shape), **info)
        return
    got = np.asarray(got)
    f = np.exp(np.clip(got[2] - w[2], -600, 600))
    mon.close(name + " TE", got[0] * f, w[0], 1e-7, 1e-7 + tol, **info)
    mon.close(name + " TM", got[1] * f, w[1], 1e-7, 1e-7 + tol, **info)


def run(case, mon):
    import stratified_sphere_scattering as T, scattering as S
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind == "coated":
        mats, radii = stack(g, 2)
    else:
        mats, radii = stack(g)
    if kind == "degenerate" and len(radii) > 4:
        mats, radii = stack(g, 3)
    lmax = int(g.choice([1, 2, 4, g.integers(1, 9), g.integers(1, 21)]))
    lmin = int(g.choice([1, 1, lmax, g.integers(1, lmax + 1)]))
    k = gen.wavenumbers(g, int(g.integers(1, 6)), radii[-1], -5, 2)
    mon.note(materials=mats, radii=radii, k=k, lmin=lmin, lmax=lmax)
    mon.reach("%d interfaces" % len(radii))
    if gen.is_pec(mats[0]):
        mon.reach("perfectly conducting core")

    def layered(mats_, radii_, k_=k, a=lmin, b=lmax):
        om, rl = [gen.obj(s) for s in mats_], list(radii_)
        om0, rl0, k0 = list(om), list(rl), k_.copy()
        o = T.StratifiedMieScattering(om, rl)
        r = np.array(o.mie_stratified(k_, a, b))
        mon.true("lists unchanged", len(om) == len(om0) and all(x is y for x, y in zip(om, om0)) and rl == rl0,
                 "caller's lists were modified", mats=mats_, radii=radii_)
        mon.true("wavenumbers unchanged", np.array_equal(k_, k0), "caller's wavenumbers were modified")
        return r
    w = want(mats, radii, k, lmin, lmax)
    tol = noise(mats, radii, k, lmin, lmax)
    info = dict(materials=mats, radii=radii, k=k, lmin=lmin, lmax=lmax)
    kk, sel = gen.pad(g, k, mon)
    got = layered(mats, radii, kk)
    if got.ndim == 3 and got.shape[1] == len(kk):
        got = got[:, sel]
    compare(mon, "layered", got, w, tol, **info)
    if kind == "stack":
        n = int(g.integers(len(k)))
        compare(mon, "layered alone", layered(mats, radii, k[n:n + 1].copy()), w[:, n:n + 1], tol[n:n + 1], **info)
        if lmax > lmin:
            compare(mon, "layered cut", layered(mats, radii, k, lmin + 1, lmax), w[:, :, 1:], tol[:, 1:], **info)
        if len(radii) == 1:
            compare(mon, "solid sphere", S.scattering(gen.obj(mats[0]), gen.obj(mats[1])).mie(k.copy(), lmin, lmax, radii[0]),
                    w, tol, **info)
    elif kind == "degenerate":
        # split a layer (or the core, or the surrounding medium) in two of the same material
        at = int(g.integers(0, len(radii) + 1))
        if at == 0 and gen.is_pec(mats[0]):
            at = len(radii)
        if at == 0:
            r = radii[0] * g.uniform(.05, .95)
        elif at == len(radii):
            r = radii[-1] * (1 + 10 ** g.uniform(-2, 1))
        else:
            r = radii[at - 1] + (radii[at] - radii[at - 1]) * g.uniform(.05, .95)
        r = gen.sig(r, 12)
        m2 = list(mats[:at]) + [mats[at], mats[at]] + list(mats[at + 1:])
        r2 = list(radii[:at]) + [r] + list(radii[at:])
        where = "core" if at == 0 else "medium" if at == len(radii) else "shell"
        mon.reach("split " + where)
        got2 = layered(m2, r2)
        if at < len(radii):
            compare(mon, "inserted layer", got2, w, tol + noise(m2, r2, k, lmin, lmax), where=where, r=r, **info)
        elif got2.shape != w.shape:
            mon.fail("inserted layer TE", "shape %s" % (got2.shape,))
        else:
            # may refer to the larger radius: compare in whichever scale is the larger
            big = np.maximum(np.clip(got2[2], w[2], want(m2, r2, k, lmin, lmax)[2]), w[2])
            fw, fg = np.exp(np.clip(w[2] - big, -700, 0)), np.exp(np.clip(got2[2] - big, -700, 700))
            for p, q in ((0, "TE"), (1, "TM")):
                mon.close("inserted layer " + q, got2[p] * fg, w[p] * fw, 1e-7, 1e-7 + tol, where=where, r=r, **info)
        compare(mon, "second call", layered(mats, radii), w, tol, **info)
    elif kind == "coated":
        c = S.coated_miescattering(gen.obj(mats[0]), gen.obj(mats[1]), gen.obj(mats[2]))
        for n in range(2):
            compare(mon, "coated routine", c.mie_coated(k.copy(), lmin, lmax, radii[0], radii[1]), w, tol, **info)
    elif kind == "repeat":
        om, rl = [gen.obj(s) for s in mats] , list(radii)
        if len(radii) > 1 and g.random() < .5:
            om[-2] = om[-1]
            mats = mats[:-2] + [mats[-1], mats[-1]]
            w = want(mats[:-2] + [mats[-1]], radii[:-1], k, lmin, lmax)
            tol = noise(mats[:-2] + [mats[-1]], radii[:-1], k, lmin, lmax)
            mon.reach("outermost layer equals the medium")
        o = T.StratifiedMieScattering(om, rl)
        info = dict(materials=mats, radii=radii, k=k, lmin=lmin, lmax=lmax)
        for n in range(3):
            compare(mon, "repeated calls", np.array(o.mie_stratified(k, lmin, lmax)), w, tol, call=n, **info)
            mon.true("lists unchanged", len(rl) == len(radii) and len(om) == len(mats), "caller's lists shortened")
    elif kind == "energy":
        # the same stack inside an energy calculation: sphere 1 layered, sphere 2 layered
        import geometry as G
        lm = 3
        r2 = radii[-1]
        L = gen.sig(2 * r2 * (1 + 10 ** g.uniform(-1, .5)))
        kk = k[:2].copy()
        om, rl = [gen.obj(s) for s in mats], list(radii)
        sol = gen.material(g)
        ge = G.SphereSphere(rl, r2, L, om, gen.obj(sol), om[-1], lmax=lm, lssmax=4)
        geo = dict(r1=list(radii), r2=r2, L=L, mat1=[gen.med(s) for s in mats], mat2=gen.med(sol), mat3=gen.med(mats[-1]),
                   lmax=lm, lssmax=4)
        gs = G.SphereSphere(r2, rl, L, gen.obj(sol), om, om[-1], lmax=lm, lssmax=4)
        geos = dict(r1=r2, r2=list(radii), L=L, mat2=[gen.med(s) for s in mats], mat1=gen.med(sol), mat3=gen.med(mats[-1]),
                    lmax=lm, lssmax=4)
        nz = 1e-7 + 2e3 * gen.args_noise([gen.med(x) for x in mats + [sol]], radii, kk)
        for m in (1, 0):
            mon.close("energy of a layered sphere", ge.single_m(m, kk), [float(ref.solve_lndet(geo, m, v)) for v in kk],
                      nz, 1e-9, m=m, solid=sol, L=L)
            mon.close("energy of a layered sphere", gs.single_m(m, kk), [float(ref.solve_lndet(geos, m, v)) for v in kk],
                      nz, 1e-9, m=m, solid=sol, L=L, second=True)
        mon.true("lists unchanged", len(rl) == len(radii) and len(om) == len(mats) and rl == list(radii), "lists modified")
