"""Own evaluation of the Lifshitz formula (double precision, composite Gauss-Legendre in the
normal wavenumber).  Units as in the package: energies in hbar c/2pi."""
import numpy as np
from vlib import gen

X, W = np.polynomial.legendre.leggauss(20)
EDGES = np.concatenate(([0.0], np.logspace(-9, -1, 17), np.linspace(.2, 1, 5), [1.5, 2, 3, 4, 6, 8, 11, 15, 20, 26]))
U = np.concatenate([.5 * (b - a) * X + .5 * (a + b) for a, b in zip(EDGES[:-1], EDGES[1:])])
WU = np.concatenate([.5 * (b - a) * W for a, b in zip(EDGES[:-1], EDGES[1:])])


def kind(s):
    """free charge carriers: 0 none, 1 Drude, 2 plasma, 3 perfect conductor"""
    if gen.is_pec(s):
        return 3
    e = [t for t in gen.med(s).e if t[0] != 0 and t[1] == 0] if gen.med(s).kind != "smith" else list(gen.med(s).e)
    if not e:
        return 0
    return 2 if any(t[2] == 0 for t in e) else 1


def fresnel(s, md, kap, kn):
    """TE, TM coefficients for the normal wavenumber kap in the medium; kn=0: static limit"""
    if gen.is_pec(s):
        return -np.ones_like(kap), np.ones_like(kap)
    a, b = gen.med(s), gen.med(md)
    mu, mum, epm = float(a.mu(kn)), float(b.mu(kn)), float(b.eps(kn))
    if kn == 0:
        c = kind(s)
        wp2 = sum((t[0] / 2.998e14) ** 2 for t in a.e if t[0] != 0 and t[1] == 0 and t[2] == 0) if c == 2 else 0.0
        q = np.sqrt(kap ** 2 + wp2 * mu)
        te = (mu * kap - mum * q) / (mu * kap + mum * q)
        if c:
            return te, np.ones_like(kap)
        ep = float(a.eps(0))
    else:
        ep = float(a.eps(kn))
        q = np.sqrt(kap ** 2 + kn ** 2 * (ep * mu - epm * mum))
        te = (mu * kap - mum * q) / (mu * kap + mum * q)
    return te, (ep * kap - epm * q) / (ep * kap + epm * q)


def _nodes(md, kn, L):
    b = gen.med(md)
    k0 = kn * float(b.eps(kn) * b.mu(kn)) ** .5
    return k0 + U / L, WU / L


def term(s1, s2, md, kn, L):
    """(TE, TM) of int k dk/2pi ln(1-r r exp(-2 kappa L))"""
    kap, w = _nodes(md, kn, L)
    f1, f2 = fresnel(s1, md, kap, kn), fresnel(s2, md, kap, kn)
    return np.array([np.dot(w, kap * np.log1p(-f1[i] * f2[i] * np.exp(-2 * kap * L))) for i in (0, 1)]) / (2 * np.pi)


def pterm(s1, s2, md, kn, L):
    """-d/dL of term, summed over polarisations"""
    kap, w = _nodes(md, kn, L)
    f1, f2 = fresnel(s1, md, kap, kn), fresnel(s2, md, kap, kn)
    t = 0.0
    for i in (0, 1):
        e = f1[i] * f2[i] * np.exp(-2 * kap * L)
        t += np.dot(w, -2 * kap ** 2 * e / (1 - e))
    return t / (2 * np.pi)


def static(s1, s2, md, L):
    return .5 * term(s1, s2, md, 0.0, L).sum()


def energy(s1, s2, md, T, L, shield=False, f=None):
    if T == 0:
        return e0(s1, s2, md, L)
    if T == np.inf:
        return 0.0 if shield else static(s1, s2, md, L)
    f = f or (lambda kn: term(s1, s2, md, kn, L).sum())
    n = int(21 / (T * L)) + 2
    s = 0.0 if shield else .5 * f(0.0)
    for i in range(1, n + 1):
        s += f(i * T)
    return T * s


def pressure(s1, s2, md, T, L, shield=False):
    return energy(s1, s2, md, T, L, shield, lambda kn: pterm(s1, s2, md, kn, L))


def e0(s1, s2, md, L):
    x, w = np.polynomial.legendre.leggauss(12)
    ed = np.concatenate(([0.0], np.logspace(-7, -1, 13), [.3, .6, 1, 2, 3.5, 6, 10, 16, 24])) / L
    s = 0.0
    for a, b in zip(ed[:-1], ed[1:]):
        s += .5 * (b - a) * sum(v * term(s1, s2, md, .5 * (b - a) * u + .5 * (a + b), L).sum() for u, v in zip(x, w))
    return s


def skin(specs, md, L, kn=1e-10):
    """how far the terms evaluated at kn are from the static limit"""
    t = 0.0
    m = gen.med(md)
    for s in specs:
        if gen.is_pec(s):
            continue
        q = gen.med(s)
        if q.kind == "smith" or kind(s) == 1:
            t = max([t] + [t0[0] ** 2 / (t0[2] * 2.998e14) * kn * L * L * float(q.mu(kn)) for t0 in q.e
                           if t0[0] != 0 and t0[1] == 0 and t0[2] != 0])
    for s in list(specs) + [md]:
        if not gen.is_pec(s) and gen.med(s).b != ():
            t = max(t, kn * 2.998e14 / gen.med(s).b[1])
    return t
