import copy
import numpy as np
from vlib import gen, ref
from vlib.matdata import TABLE

RULE = ("all predefined and random user-defined materials (0..8 oscillators, Drude/plasma terms in any position, zero-strength terms, "
        "permeability) evaluated at random wavenumbers 1e-12..1e6 as arrays of any shape and order and as scalars; values against "
        "40-digit sums of an independent copy of the parameters, limits, monotonicity, flags, immutability. Non-trivial: a "
        "response different from 1 was compared.")
ASSUMPTIONS = ["a material is magnetic if mu(0) differs from 0 and 1; (1, w) is left undecided",
               "the parameters of the predefined materials are those at the base commit"]
REQUIRED = {"epsilon": 700, "mu": 700, "monotonic": 120, "conductivity flag": 150, "dielectric flag": 150, "scalar": 300,
            "converter": 50, "predefined": 25}


def cases(rng, tier):
    f = 1 if tier == "quick" else 12
    d = gen.mkcases(rng, {"user": 140 * f, "smith": 20 * f, "flags": 60 * f, "converter": 20 * f, "after use": 30 * f})
    for n in sorted(TABLE):
        d += [dict(kind="pre", name=n, seed=rng.getrandbits(48)) for _ in range(max(1, f // 2))]
    return d


def user(g):
    n = int(g.integers(0, 9))
    o = []
    for _ in range(n):
        k = ("diel", "diel", "drude", "plasma")[int(g.integers(4))]
        t = gen.osc(g, k)
        if g.random() < .1:
            t[0] = 0.0
        o.append(t)
    b = [] if g.random() < .5 else [gen.sig(10 ** g.uniform(-.6, 2), 4), gen.logu(g, 9, 16)]
    if g.random() < .25:
        o = [t for t in o if t[1] != 0]
    return ["lor", o, b]


def values(f, k):
    return np.array([float(f(float(v))) for v in np.ravel(k)]).reshape(np.shape(k))


def respond(mon, g, o, m, name):
    n = int(g.integers(1, 9))
    k = 10 ** g.uniform(-12, 6, n)
    g.shuffle(k)
    if g.random() < .2:
        k = np.concatenate((k, k))
        k = k.reshape(2, -1)
    keep = k.copy()
    we = None if m.pec else values(m.eps, k)
    wm = values(m.mu, k)
    mon.note(material=name, k=k)
    if not m.pec:
        mon.close("epsilon", o.epsilon(k), we, 1e-12, 0, m=name)
    mon.close("mu", np.asarray(o.mu(k)), wm, 1e-12, 0, m=name)
    mon.true("argument unchanged", np.array_equal(k, keep), "wavenumbers modified")
    if m.pec:
        return
    ki = g.integers(1, 10 ** int(g.integers(1, 7)), int(g.integers(1, 5)))
    if g.random() < .3:                         # wavenumbers given as integers
        mon.close("epsilon", o.epsilon(ki), values(m.eps, [int(x) for x in ki]), 1e-12, 0, m=name, k=ki)
        mon.close("mu", np.asarray(o.mu(ki)), values(m.mu, [int(x) for x in ki]), 1e-12, 0, m=name, k=ki)
        mon.reach("integer wavenumbers")
    v, e, u = keep.ravel(), we.ravel(), wm.ravel()
    for i in range(min(3, v.size)):
        for sc in (float, np.float64):
            mon.close("scalar", np.ravel(np.asarray(o.epsilon(sc(v[i]))))[:1], e[i:i + 1], 1e-12, 0, m=name, k=v[i])
            mon.close("scalar", np.ravel(np.asarray(o.mu(sc(v[i]))))[:1], u[i:i + 1], 1e-12, 0, m=name, k=v[i])
        a = np.array([v[i]])
        mon.close("element by element", o.epsilon(a), e[i:i + 1], 1e-12, 0, m=name)
    s = np.sort(10 ** g.uniform(-9, 5, 12))
    got = np.asarray(o.epsilon(s))
    mon.true("monotonic", np.all(np.diff(got) <= 1e-12 * got[:-1]) and np.all(got >= 1), "epsilon %s at k=%s" % (got, s), m=name)
    big = np.asarray(o.epsilon(np.array([1e9])))
    mon.close("transparent", big, [1.0], 0, sum((t[0] / 2.998e14) ** 2 for t in m.e) / 1e18 * 2 + 1e-12, m=name)
    if m.kind != "smith" and all(t[1] != 0 for t in m.e):
        mon.close("static epsilon", o.epsilon(np.array([0])), [float(m.eps(0))], 1e-12, 0, m=name)
        mon.close("static mu", np.asarray(o.mu(np.array([0]))), [float(m.mu(0))], 1e-12, 0, m=name)


def flags(mon, o, m, name):
    free = [t for t in m.e if t[0] != 0 and t[1] == 0]
    if not m.pec:
        mon.true("dielectric flag", bool(o.is_dielectric) == (not free), "is_dielectric=%r" % (o.is_dielectric,), m=name)
        mon.true("conductivity flag", bool(o.is_sigma_finite) == (not any(t[2] == 0 for t in free)),
                 "is_sigma_finite=%r" % (o.is_sigma_finite,), m=name)
        if m.b == ():
            mon.true("magnetic flag", not o.is_magnetic, "is_magnetic=%r" % (o.is_magnetic,), m=name)
        elif m.b[0] not in (0, 1):
            mon.true("magnetic flag", bool(o.is_magnetic), "is_magnetic=%r" % (o.is_magnetic,), m=name)
    mon.true("perfect conductor flag", bool(o.is_perfect_conductor) == m.pec, "is_perfect_conductor=%r" % (o.is_perfect_conductor,), m=name)


def run(case, mon):
    import materials as M
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind == "pre":
        n = case["name"]
        if not hasattr(M, n):
            mon.fail("predefined", "material %s is missing" % n)
            return
        o, m = getattr(M, n), gen.med(["pre", n])
        respond(mon, g, o, m, n)
        flags(mon, o, m, n)
        mon.event("predefined")
        return
    if kind == "converter":
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()):
            import materials_converter as MC
        p = [[gen.logu(g, -2, 1), gen.logu(g, -2, 2)] for _ in range(int(g.integers(0, 7)))]
        if g.random() < .4:
            p = [tuple(x) for x in p]
        if len(p) > 1 and g.random() < .4:          # degenerate oscillators
            p[int(g.integers(len(p)))] = p[int(g.integers(len(p)))][:]
        keep = copy.deepcopy(p)
        mon.note(parameters=p)
        w = 1.60218e-19 / 1.05457e-34
        want = np.array([[c ** .5 * e * w, e * w] for c, e in keep]).reshape(-1, 2)
        got = np.array([list(x)[:2] for x in MC.transform(p)], dtype=float).reshape(-1, 2)
        mon.close("converter", got, want, 1e-5, 0)
        mon.true("converter keeps its argument", p == keep, "argument modified")
        return
    if kind == "smith":
        s = ["smith", [gen.osc(g, "drude")], [] if g.random() < .6 else [gen.sig(g.uniform(.5, 5), 4), gen.logu(g, 9, 16)]]
    elif kind == "after use":
        s = gen.material(g, ("diel", "drude", "plasma", "mag"), pre=.7)
    else:
        s = user(g)
    m = gen.med(s)
    o = gen.obj(s)
    if kind in ("user", "flags"):
        e = [tuple(t) for t in s[1]]
        b = tuple(s[2])
        ke = list(e)
        M.LorentzMaterial(e, b)
        M.is_dielectric(e), M.is_sigma_finite(e), M.is_magnetic(b)
        mon.true("parameters unchanged", e == ke, "the caller's oscillators were changed to %r" % (e,), material=s)
    if kind == "flags":
        mon.note(material=s)
        flags(mon, o, m, s)
        return
    if kind == "after use":
        import geometry as G
        state = lambda: repr([getattr(o, a, None) for a in ("e_properties", "b_properties", "is_sigma_finite", "is_dielectric", "is_magnetic")])
        keep = state()
        md = gen.obj(["pre", "Water"])
        G.SphereSphere(1.0, 1.4, 3.0, o, o, md, lmax=2, lssmax=2).mSumme(np.array([0.0, .3, 1.0]))
        import PFA
        PFA.SphereSpherePFA(o, o, md).planeplaneFreeEnergyHT(1.0)
        mon.true("unchanged by use", state() == keep, "attributes changed")
    respond(mon, g, o, m, s)
    flags(mon, o, m, s)
