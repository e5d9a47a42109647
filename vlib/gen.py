"""Input generators.  A material is described by a spec (JSON-able):
   ["pre", name] | ["lor", [[wP,wR,g],...], [mu0,wM] or []] | ["smith", [[..]], []]
obj(spec) builds the object of the package, med(spec) the reference."""
import numpy as np
from vlib import ref
from vlib.matdata import TABLE

DIEL = ["Ethanol", "AlternEth", "Altern1Ps", "Altern2Ps", "Polystyrene", "Bromobenzene", "Ptfe",
        "Silicon", "Water", "modifiedWater", "Vacuum"]
DRUDE = ["Gold", "Gold_Bimonte", "Silver", "Mercury", "SiC", "MercurySmith"]
PLASMA = ["Gold_plasma", "Gold_plasma_wp1", "Gold_plasma_wp01", "Gold_plasma_wp10", "Silver_plasma",
          "SiC_plasma", "Mercury_plasma", "MercurySmith_plasma", "Artificial"]
MAG = ["Gold_magnetic"]


def obj(spec):
    import materials as M
    if isinstance(spec[0], (list, tuple)):
        return [obj(s) for s in spec]
    if spec[0] == "pre":
        return getattr(M, spec[1])
    cls = M.LorentzMaterial if spec[0] == "lor" else M.LorentzSmithMaterial
    return cls([tuple(t) for t in spec[1]], tuple(spec[2]))


def med(spec):
    if isinstance(spec[0], (list, tuple)):
        return [med(s) for s in spec]
    if spec[0] == "pre":
        kind, e, b = TABLE[spec[1]]
        return ref.Med(e, b, kind)
    return ref.Med(spec[1], tuple(spec[2]), "smith" if spec[0] == "smith" else "lorentz")


def _w(g, lo=12.0, hi=17.0):
    return float("%.6g" % 10 ** g.uniform(lo, hi))


def osc(g, kind):
    if kind == "diel":
        wr = _w(g, 12, 16.8)
        return [float("%.6g" % (wr * 10 ** g.uniform(-1.2, 0.9))), wr,
                0.0 if g.random() < .5 else float("%.6g" % (wr * 10 ** g.uniform(-3, 0)))]
    if kind == "drude":
        return [_w(g, 14, 17), 0.0, _w(g, 12.5, 15)]
    return [_w(g, 14, 17), 0.0, 0.0]


def material(g, kinds=("diel", "drude", "plasma", "mag", "pec"), pre=0.5, strong=0.0):
    s = _material(g, kinds, pre)
    if strong and s[0] == "lor" and s[2] and g.random() < strong:
        s[2][0] = float("%.4g" % 10 ** g.uniform(1, 4))     # like iron
    return s


def _material(g, kinds, pre):
    k = kinds[g.integers(len(kinds))]
    if k == "pec":
        return ["pre", "PerfectConductor"]
    if k == "vac":
        return ["pre", "Vacuum"]
    if g.random() < pre:
        pool = {"diel": DIEL, "drude": DRUDE, "plasma": PLASMA, "mag": MAG, "dielmag": DIEL}[k]
        return ["pre", pool[g.integers(len(pool))]]
    if k == "diel":
        return ["lor", [osc(g, "diel") for _ in range(g.integers(1, 4))], []]
    if k == "dielmag":
        return ["lor", [osc(g, "diel") for _ in range(g.integers(0, 3))],
                [float("%.4g" % 10 ** g.uniform(-0.4, 1)), _w(g, 9, 16)]]
    if k == "mag":
        base = ["diel", "drude", "plasma"][g.integers(3)]
        return ["lor", [osc(g, base)], [float("%.4g" % 10 ** g.uniform(-0.4, 1)), _w(g, 9, 16)]]
    if k == "drude" and g.random() < .3:
        return ["smith", [osc(g, "drude")], []]
    o = [osc(g, k)]
    for _ in range(g.integers(0, 3)):
        o.insert(int(g.integers(0, len(o) + 1)), osc(g, "diel"))
    return ["lor", o, []]


def medium(g, magnetic=0.1):
    if g.random() < magnetic:
        return material(g, ("dielmag",), pre=0.0)
    return material(g, ("diel", "diel", "vac"), pre=.6)


def is_pec(spec):
    return spec[0] == "pre" and spec[1] == "PerfectConductor"


def sig(x, n=8):
    return float("%.*g" % (n, x))


def logu(g, lo, hi):
    return sig(10 ** g.uniform(lo, hi))


def exterior(g, gap=(-1.3, 1.5), ratio=1.3):
    if g.random() < .07:                    # lengths given as Python integers
        a, b, d = int(g.integers(1, 5)), int(g.integers(1, 7)), int(g.integers(1, 6))
        if 10 ** gap[0] <= d / min(a, b) <= 10 ** gap[1] and 10 ** -ratio <= a / b <= 10 ** ratio:
            return a, b, a + b + d
    r1 = logu(g, -1.5, 1)
    r2 = sig(r1 * 10 ** g.uniform(-ratio, ratio)) if g.random() < .75 else r1
    d = min(r1, r2) * 10 ** g.uniform(*gap)
    return r1, r2, sig(r1 + r2 + d)


def interior(g, centred=0.0):
    if g.random() < .07:
        a, d = int(g.integers(1, 4)), int(g.integers(2, 7))
        return a, a + d, int(g.integers(1, d))
    r1 = logu(g, -1.5, 1)
    r2 = sig(r1 * (1 + 10 ** g.uniform(-1, 1)))
    L = sig((r2 - r1) * (g.uniform(.02, .97)))
    if centred and g.random() < centred:    # almost concentric
        L = sig((r2 - r1) * 10 ** g.uniform(-6, -1.7))
    return r1, r2, L


def wavenumbers(g, n, scale=1.0, lo=-4.0, hi=1.3, order=None):
    """n wavenumbers around 1/scale in one of several orders"""
    k = 10 ** g.uniform(lo, hi, n) / scale
    o = order or ["sorted", "reversed", "random", "random", "dup"][g.integers(5)]
    top = int(min(10 ** hi / scale, 40))
    if order is None and g.random() < .06 and top >= 1:
        k = g.integers(1, top + 1, n).astype(float)
    k = np.sort(k)
    if o == "reversed":
        k = k[::-1]
    elif o == "random":
        g.shuffle(k)
    elif o == "dup" and n > 1:
        k[g.integers(n)] = k[g.integers(n)]
    return np.array([sig(x, 10) for x in k])


def pad(g, k, mon, p=.15):
    """sometimes hides the wavenumbers in a longer batch and hands integers over as integers; returns the batch and their positions"""
    k = np.asarray(k)
    if g.random() < p:
        n = int(g.integers(len(k) + 1, 160))
        sel = np.sort(g.choice(n, len(k), replace=False))
        out = 10 ** g.uniform(np.log10(k.min()) - .5, np.log10(k.max()) + .5, n)
        out[sel] = k
        mon.reach("long batch")
        return out, sel
    if (k == np.round(k)).all() and g.random() < .7:
        mon.reach("integer wavenumbers")
        return k.astype(int), np.arange(len(k))
    return k.copy(), np.arange(len(k))


def mkcases(rng, kinds):
    """kinds: dict kind -> count; interleaved, each with its own seed"""
    out = []
    for k, n in kinds.items():
        out += [dict(kind=k, seed=rng.getrandbits(48), no=i) for i in range(n)]
    rng.shuffle(out)
    return out


def contrasts(specs, md, k):
    """electric and magnetic contrast to the medium, at most 1, per wavenumber"""
    m = med(md)
    t = np.zeros((2, len(k)))
    for n, v in enumerate(k):
        for s in specs:
            o = med(s)
            e, u = (1.0, 1.0) if o.pec else (abs(float(o.eps(v) / m.eps(v) - 1)), abs(float(o.mu(v) / m.mu(v) - 1)))
            t[:, n] = np.maximum(t[:, n], [min(1.0, e), min(1.0, u)])
    return t


def args_noise(meds, radii, k):
    """relative accuracy of a Mie coefficient in double precision at the wavenumbers k:
    i_1, i_2 lose digits like 1e-16/x^3 for arguments x=1e-3..0.5"""
    from mpmath import mp
    t = np.zeros(len(k))
    for r in radii:
        for m in meds:
            if m.pec:
                continue
            x = np.array([float(v * r * mp.sqrt(m.eps(v) * m.mu(v))) for v in k])
            sel = (x >= .999e-3) & (x < .5)
            t[sel] += 1e-16 / x[sel] ** 3
    return t


def contrasts(specs, md, k):
    """electric and magnetic contrast to the medium, at most 1, per wavenumber"""
    m = med(md)
    t = np.zeros((2, len(k)))
    for n, v in enumerate(k):
        for s in specs:
            o = med(s)
            e, u = (1.0, 1.0) if o.pec else (abs(float(o.eps(v) / m.eps(v) - 1)), abs(float(o.mu(v) / m.mu(v) - 1)))
            t[:, n] = np.maximum(t[:, n], [min(1.0, e), min(1.0, u)])
    return t


def args_noise(meds, radii, k):
    """relative accuracy of a Mie coefficient in double precision at the wavenumbers k:
    i_1, i_2 lose digits like 1e-16/x^3 for arguments x=1e-3..0.5"""
    from mpmath import mp
    t = np.zeros(len(k))
    for r in radii:
        for m in meds:
            if m.pec:
                continue
            x = np.array([float(v * r * mp.sqrt(m.eps(v) * m.mu(v))) for v in k])
            sel = (x >= .999e-3) & (x < .5)
            t[sel] += 1e-16 / x[sel] ** 3
    return t


def contrast_gain(specs, md, k):
    """1/contrast to the medium: factor by which rounding errors of a scattering coefficient grow"""
    m = med(md)
    t = np.zeros(len(k))
    for n, v in enumerate(k):
        c = 0.0
        for s in specs:
            o = med(s)
            if o.pec:
                c = 1.0
            else:
                c = max(c, abs(float(o.eps(v) / m.eps(v) - 1)), abs(float(o.mu(v) / m.mu(v) - 1)))
        t[n] = 1 / min(1.0, c) if c else 1e13
    return t
