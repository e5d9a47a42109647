import numpy as np
from vlib import gen, lifshitz as LF

RULE = ("random radii in either order, exterior and interior distances, material triples, temperatures 0, finite, infinite, shielding "
        "on/off; local distances, PFA energies (surface integral of an independently evaluated Lifshitz energy) and forces of both "
        "modules. Non-trivial: a non-zero energy or force was compared.")
ASSUMPTIONS = ["plane-plane energies themselves are decided by C12", "allowed error 5e-5 relative plus quadrature tolerance"]
ROUNDS = 2
REQUIRED = {"distance": 300, "force": 30, "energy": 14, "closed-form force": 10, "closed-form energy": 10}
CPU_LIMIT = 600


def cases(rng, tier):
    f = 1 if tier == "quick" else 8
    d = {"distance": 60 * f, "force": 36 * f, "force0": 5 * f, "energy": 18 * f, "swap": 4 * f, "raw": 24 * f}
    if tier != "quick":
        d["energy0"] = 4
    return gen.mkcases(rng, d)


def spheres(g):
    a, b = gen.logu(g, -.7, 1.2), gen.logu(g, -.7, 1.2)
    if g.random() < .12:                    # large spheres, or tiny ones
        q = 10 ** g.choice([g.uniform(1, 2), g.uniform(-2, -1)])
        a, b = gen.sig(a * q), gen.sig(b * q)
    if abs(a - b) < .05 * b:
        b = gen.sig(1.3 * a)
    ext = bool(g.random() < .55)
    if ext:
        d = gen.sig(a + b + min(a, b) * 10 ** (g.uniform(-1, .6) if g.random() < .6 else g.uniform(-3, -1)), 8)
    else:
        d = gen.sig(abs(a - b) * (g.uniform(.05, .9) if g.random() < .6 else 1 - 10 ** g.uniform(-3, -1)), 8)
    return a, b, d, ext


def local(a, b, d, rho, ext):
    za, zb = np.sqrt(np.maximum(0, a * a - rho * rho)), np.sqrt(np.maximum(0, b * b - rho * rho))
    return d - za - zb if ext else np.abs(za - zb) - d


def surface(a, b, d, ext, f):
    """int_0^min(r) 2 pi rho f(local distance); rho = r sin t removes the square-root end point"""
    r = min(a, b)
    x, w = np.polynomial.legendre.leggauss(10)
    ed = np.concatenate(([0.0], np.logspace(-2.5, 0, 9))) * np.pi / 2
    s = 0.0
    for lo, hi in zip(ed[:-1], ed[1:]):
        t = .5 * (hi - lo) * x + .5 * (hi + lo)
        z = local(a, b, d, r * np.sin(t), ext)
        s += .5 * (hi - lo) * sum(v * 2 * np.pi * r * r * np.sin(q) * np.cos(q) * f(y) for v, q, y in zip(w, t, z))
    return s


def run(case, mon):
    import PFA, raw_PFA
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    mk = ("diel", "drude", "plasma", "pec")
    m1, m2, md = gen.material(g, mk), gen.material(g, mk), gen.medium(g, .1)
    a, b, d, ext = spheres(g)
    gap = float(local(a, b, d, 0.0, ext))
    sh = bool(g.random() < .3)
    mon.reach("%s, first sphere %s" % ("exterior" if ext else "interior", "smaller" if a < b else "larger"))
    P = PFA.SphereSpherePFA(gen.obj(m1), gen.obj(m2), gen.obj(md))
    if kind == "distance":
        rho = np.append(0.0, min(a, b) * g.uniform(0, 1, 6))
        mon.note(r1=a, r2=b, d=d, rho=rho)
        got = [float(P.distance(a, b, d, float(x))) for x in rho]
        mon.close("distance", got, local(a, b, d, rho, ext), 1e-12, 1e-13 * (a + b + d))
        return
    if kind in ("force", "force0"):
        T = 0 if kind == "force0" else np.inf if g.random() < .4 else gen.sig(10 ** g.uniform(0, 1.4) / gap)
        mon.note(r1=a, r2=b, d=d, m1=m1, m2=m2, m3=md, T=T, shielding=sh)
        R = a * b / (a + b) if ext else a * b / abs(a - b)
        if T == 0:
            sh = False
        w = 2 * np.pi * R * LF.energy(m1, m2, md, T, gap, sh)
        sc = (.05 / gap ** 2) * (1 if T == np.inf else T) if T else 0
        tol = 2 * np.pi * R * (3e-8 * (1 if T in (0, np.inf) else T * (20 / (T * gap) + 1)) + 10 * LF.skin((m1, m2), md, gap) * sc)
        mon.close("force", float(np.ravel(P.spheresphereForce(a, b, T, d, sh))[0]), w, 3e-5, tol)
        mon.close("force, spheres exchanged", float(np.ravel(P.spheresphereForce(b, a, T, d, sh))[0]), w, 3e-5, tol)
        mon.nontriv = True
        return
    if kind == "raw":
        Q = raw_PFA.SphereSpherePFA(gen.obj(m1), gen.obj(m2), gen.obj(md))
        if not ext and a > b:
            a, b = b, a
        T = [0, np.inf, np.inf, np.inf, gen.sig(10 ** g.uniform(.5, 1.5) / gap), gen.sig(10 ** g.uniform(1.5, 3) / gap)][int(g.integers(6))]
        if T == 0:
            sh = False
        mon.note(r1=a, r2=b, gap=gap, m1=m1, m2=m2, m3=md, T=T, shielding=sh, ext=ext)
        R = a * b / (a + b) if ext else a * b / (b - a)
        w = LF.energy(m1, m2, md, T, gap, sh)
        sc = (.05 / gap ** 2) * (1 if T == np.inf else T) if T else 0
        tol = (3e-8 * (1 if T in (0, np.inf) else T * (20 / (T * gap) + 1)) + 10 * LF.skin((m1, m2), md, gap) * sc)
        mon.close("closed-form force", float(np.ravel(Q.spheresphereForce(a, b, T, gap, sh, ext))[0]), 2 * np.pi * R * w, 3e-5, 2 * np.pi * R * tol)
        mon.close("closed-form energy", float(np.ravel(Q.spheresphereEnergy(a, b, T, gap, sh, ext))[0]), np.pi * R * gap * w, 3e-5,
                  np.pi * R * gap * tol)
        mon.nontriv = True
        return
    T = 0 if kind == "energy0" else np.inf if g.random() < .5 else gen.sig(10 ** g.uniform(1.05, 1.7) / gap)
    if kind == "energy0":
        sh, m1, m2, md = False, ["pre", "PerfectConductor"], ["pre", "PerfectConductor"], ["pre", "Vacuum"]
    else:
        sh = sh and T != np.inf
    mon.note(r1=a, r2=b, d=d, m1=m1, m2=m2, m3=md, T=T, shielding=sh)
    w = surface(a, b, d, ext, (lambda L: -np.pi ** 3 / 360 / L ** 3) if T == 0 else lambda L: LF.energy(m1, m2, md, T, L, sh))
    r = min(a, b)
    lim = float(local(a, b, d, np.array(r), ext))
    sc = (.05 / gap ** 2) * (1 if T == np.inf else T) if T else 0
    area = np.pi * r * r
    tol = area * (3e-8 * (1 if T in (0, np.inf) else T * (20 / (T * gap) + 1))
                  + 10 * LF.skin((m1, m2), md, lim) * sc) + 1e-7
    got = float(np.ravel(P.spheresphereEnergy(a, b, T, d, sh))[0])
    mon.close("energy", got, w, 5e-5, tol)
    if kind == "swap":
        mon.close("energy, spheres exchanged", float(np.ravel(P.spheresphereEnergy(b, a, T, d, sh))[0]), w, 5e-5, tol)
