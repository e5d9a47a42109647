"""Independent reference model (arbitrary precision, mpmath) of the quantities
CasimirRio computes.  Nothing in here imports the code under test.

Conventions follow the documentation of CasimirRio: imaginary wave numbers k,
spherical modified Bessel functions i_l(x)=sqrt(pi/2x) I_{l+1/2}(x) and
k_l(x)=sqrt(pi/2x) K_{l+1/2}(x).
"""
from functools import lru_cache
from math import factorial, isqrt
from fractions import Fraction
import mpmath
import numpy as np
from mpmath import mp, mpf

mp.dps = 40
C_LIGHT_UM = mpf("2.998e14")        # speed of light in micron/s used by the package


# ------------------------------------------------------------------ Bessel
def sph_k(lmax, x):
    x = mpf(x)
    k0 = mp.pi / (2 * x) * mp.exp(-x)
    out = [k0, k0 * (1 + 1 / x)]
    for l in range(2, lmax + 1):
        out.append(out[l - 2] + (2 * l - 1) / x * out[l - 1])
    return out[: lmax + 1]


def sph_i(lmax, x):
    """Miller's downward recurrence, normalised with i_0 = sinh(x)/x"""
    x = mpf(x)
    n = lmax + 60 + int(14 * float(x) ** 0.5)
    hi, cur = mpf(0), mpf(1)
    out = [None] * (lmax + 1)
    for l in range(n, -1, -1):
        if l <= lmax:
            out[l] = cur
        if l == 0:
            break
        hi, cur = cur, hi + (2 * l + 1) / x * cur
    norm = mp.sinh(x) / x / out[0]
    return [o * norm for o in out]


def i_ratio(l, x):
    """I_{l+1/2}(x) / I_{l+3/2}(x)"""
    s = sph_i(l + 1, x)
    return s[l] / s[l + 1]


# ------------------------------------------------------------------ Gaunt
@lru_cache(maxsize=None)
def _fac(n):
    return factorial(n)


def _delta(a, b, c):
    return Fraction(_fac(a + b - c) * _fac(a - b + c) * _fac(-a + b + c),
                    _fac(a + b + c + 1))


@lru_cache(maxsize=200000)
def threej(j1, j2, j3, m1, m2):
    """Wigner 3j symbol (j1 j2 j3; m1 m2 -m1-m2), Racah's formula with exact
    integers, converted to mpf at the end"""
    m3 = -m1 - m2
    if abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
        return mpf(0)
    if j3 > j1 + j2 or j3 < abs(j1 - j2):
        return mpf(0)
    if m1 == 0 and m2 == 0 and (j1 + j2 + j3) % 2:
        return mpf(0)
    tmin = max(0, j2 - j3 - m1, j1 - j3 + m2)
    tmax = min(j1 + j2 - j3, j1 - m1, j2 + m2)
    num = 0
    den = None
    # terms 1/(t! (j3-j2+t+m1)! (j3-j1+t-m2)! (j1+j2-j3-t)! (j1-t-m1)! (j2-t+m2)!)
    # built by ratio, common denominator kept implicitly with Fractions of ints
    first = (_fac(tmin) * _fac(j3 - j2 + tmin + m1) * _fac(j3 - j1 + tmin - m2)
             * _fac(j1 + j2 - j3 - tmin) * _fac(j1 - tmin - m1) * _fac(j2 - tmin + m2))
    # integer accumulation:  sum_t (-1)^t * prod_{s<t} up(s)/down(s)
    s_num, s_den = 1, 1
    tn, td = 1, 1
    for t in range(tmin, tmax):
        tn *= -(j1 + j2 - j3 - t) * (j1 - t - m1) * (j2 - t + m2)
        d = (t + 1) * (j3 - j2 + t + 1 + m1) * (j3 - j1 + t + 1 - m2)
        td *= d
        s_num = s_num * d + tn
        s_den = s_den * d
    if tmin % 2:
        s_num = -s_num
    pref = (_delta(j1, j2, j3) * _fac(j1 + m1) * _fac(j1 - m1) * _fac(j2 + m2)
            * _fac(j2 - m2) * _fac(j3 + m3) * _fac(j3 - m3))
    val = mp.sqrt(mpf(pref.numerator) / mpf(pref.denominator)) * mpf(s_num) \
        / (mpf(s_den) * mpf(first))
    return val if (j1 - j2 - m3) % 2 == 0 else -val


@lru_cache(maxsize=200000)
def gaunt(l, lp, lpp, m):
    """integral of Y_{l,m} Y_{lp,-m} Y_{lpp,0} over the sphere"""
    if abs(m) > min(l, lp):
        return mpf(0)
    return (mp.sqrt(mpf((2 * l + 1) * (2 * lp + 1) * (2 * lpp + 1)) / (4 * mp.pi))
            * threej(l, lp, lpp, 0, 0) * threej(l, lp, lpp, m, -m))


# ------------------------------------------------------------------ media
class Med:
    """Reference material: list of (wP, wR, gamma) rad/s, (mu0, wM) or None,
    kind 'lorentz' | 'smith' | 'pec'"""

    def __init__(self, e=(), b=(), kind="lorentz"):
        self.e, self.b, self.kind = list(e), tuple(b), kind

    pec = property(lambda s: s.kind == "pec")

    def eps(self, k):
        k = mpf(k)
        r = mpf(1)
        for wp, wr, g in self.e:
            wp, wr, g = mpf(wp) / C_LIGHT_UM, mpf(wr) / C_LIGHT_UM, mpf(g) / C_LIGHT_UM
            if self.kind == "smith":
                r += wp ** 2 / (k ** 2 + g * k) * (1 - mpf("0.49") * g / (k + g))
            else:
                if wp == 0:
                    continue
                r += wp ** 2 / (wr ** 2 + k ** 2 + g * k)
        return r

    def mu(self, k):
        if self.b == ():
            return mpf(1)
        return 1 + (mpf(self.b[0]) - 1) / (1 + mpf(k) / (mpf(self.b[1]) / C_LIGHT_UM))


# ------------------------------------------------------------------ Mie
def _logder(lmax, x):
    """lists (0..lmax; entry 0 unused) of i_l, k_l, x i_{l-1}/i_l - l,
    -l - x k_{l-1}/k_l"""
    i, k = sph_i(lmax, x), sph_k(lmax, x)
    di = [None] + [x * i[l - 1] / i[l] - l for l in range(1, lmax + 1)]
    dk = [None] + [-l - x * k[l - 1] / k[l] for l in range(1, lmax + 1)]
    return i, k, di, dk


def mie(sp, md, k, lmin, lmax, r):
    """exterior scattering at a solid sphere: per l a triple
    (TE coefficient, TM coefficient, i_l/k_l), the coefficients with the factor
    (-1)^l pi/2 of the package but without i_l/k_l"""
    k, r = mpf(k), mpf(r)
    xe = k * r * mp.sqrt(md.eps(k) * md.mu(k))
    ie, ke, die, dke = _logder(lmax, xe)
    out = []
    if not sp.pec:
        xi = k * r * mp.sqrt(sp.eps(k) * sp.mu(k))
        ii, ki, dii, dki = _logder(lmax, xi)
        ei, mi, ee, me = sp.eps(k), sp.mu(k), md.eps(k), md.mu(k)
    for l in range(lmin, lmax + 1):
        pre = (-1) ** l * mp.pi / 2
        if sp.pec:
            te, tm = mpf(1), die[l] / dke[l]
        else:
            te = (me * dii[l] - mi * die[l]) / (me * dii[l] - mi * dke[l])
            tm = (ee * dii[l] - ei * die[l]) / (ee * dii[l] - ei * dke[l])
        out.append((pre * te, pre * tm, ie[l] / ke[l]))
    return out


def mie_internal(inn, outm, k, lmin, lmax, r):
    """reflection inside a spherical cavity of radius r filled with `inn` in a
    bulk of `outm`; third entry k_l/i_l"""
    k, r = mpf(k), mpf(r)
    xi = k * r * mp.sqrt(inn.eps(k) * inn.mu(k))
    ii, ki, dii, dki = _logder(lmax, xi)
    out = []
    if not outm.pec:
        xe = k * r * mp.sqrt(outm.eps(k) * outm.mu(k))
        ie, ke, die, dke = _logder(lmax, xe)
        ei, mi, ee, me = inn.eps(k), inn.mu(k), outm.eps(k), outm.mu(k)
    for l in range(lmin, lmax + 1):
        pre = (-1) ** l * 2 / mp.pi
        if outm.pec:
            te, tm = mpf(1), dki[l] / dii[l]
        else:
            te = (me * dki[l] - mi * dke[l]) / (me * dii[l] - mi * dke[l])
            tm = (ee * dki[l] - ei * dke[l]) / (ee * dii[l] - ei * dke[l])
        out.append((pre * te, pre * tm, ki[l] / ii[l]))
    return out


def mie_layered(mats, radii, k, lmin, lmax):
    """concentric layers: mats[0] core ... mats[-1] surrounding medium, radii of
    the interfaces.  Solved with the logarithmic admittance of the inside field
    (u + c v) propagated outwards: independent of the recursion in the package.
    Triples as for mie()."""
    k = mpf(k)
    # field inside layer j :  i_l(x) + c_j k_l(x);  c_0 = 0
    nl = lmax - lmin + 1
    cte = [mpf(0)] * nl
    ctm = [mpf(0)] * nl
    pecflag = mats[0].pec
    res = None
    for j, r in enumerate(radii):
        r = mpf(r)
        inn, out = mats[j], mats[j + 1]
        eo, mo = out.eps(k), out.mu(k)
        xo = k * r * mp.sqrt(eo * mo)
        io, ko, dio, dko = _logder(lmax, xo)
        if not inn.pec:
            e_, m_ = inn.eps(k), inn.mu(k)
            xi = k * r * mp.sqrt(e_ * m_)
            ii, ki, dii, dki = _logder(lmax, xi)
        nte, ntm, sc = [], [], []
        for n, l in enumerate(range(lmin, lmax + 1)):
            if inn.pec:
                # TE: tangential E ~ f = 0; TM: (x f)'=0
                a = -io[l] / ko[l]
                b = -dio[l] * io[l] / (dko[l] * ko[l])
            else:
                # inside: field f = i + c k, derivative D=(x f)'
                f = ii[l] + cte[n] * ki[l]
                d = dii[l] * ii[l] + cte[n] * dki[l] * ki[l]
                # TE continuity: f continuous, D/mu continuous
                a = -(mo * d * io[l] - m_ * f * dio[l] * io[l]) / (mo * d * ko[l] - m_ * f * dko[l] * ko[l])
                f = ii[l] + ctm[n] * ki[l]
                d = dii[l] * ii[l] + ctm[n] * dki[l] * ki[l]
                b = -(eo * d * io[l] - e_ * f * dio[l] * io[l]) / (eo * d * ko[l] - e_ * f * dko[l] * ko[l])
            nte.append(a)
            ntm.append(b)
            sc.append(io[l] / ko[l])
        cte, ctm, res = nte, ntm, sc
    out = []
    for n, l in enumerate(range(lmin, lmax + 1)):
        pre = (-1) ** l * mp.pi / 2
        # package sign: coefficient = -c * (-1)^l pi/2
        out.append((-cte[n] / res[n] * pre, -ctm[n] / res[n] * pre, res[n]))
    return out


# ------------------------------------------------------------------ translation
def translation(l1, l2, m, nkL, ext, bess=None):
    """(vEE_ab, vEE_ba, vEM_ab, vEM_ba), unscaled"""
    x = mpf(nkL)
    if bess is None:
        bess = sph_k(l1 + l2, x) if ext else sph_i(l1 + l2, x)
    l1p, l2p = l1 * (l1 + 1), l2 * (l2 + 1)
    ee = eb = em = mb = mpf(0)
    for lpp in range(abs(l1 - l2), l1 + l2 + 1, 2):
        sg = -1 if ext else (-1) ** lpp
        c = (sg * (-1) ** m * mp.sqrt(mp.pi) * gaunt(l1, l2, lpp, m) * bess[lpp]
             * mp.sqrt(mpf(2 * lpp + 1) / (l1p * l2p)))
        if ext:
            c *= 2 / mp.pi
        a = (l1p + l2p - lpp * (lpp + 1)) * c
        b = 2 * m * x * c
        s = (-1) ** lpp
        ee += a
        eb += a * s
        em += b
        mb -= b * s
    return ee, eb, em, mb


def translation_abs(l1, l2, m, nkL, ext, bess):
    """sums of the absolute values of the terms of translation(): (EE, EM)"""
    l1p, l2p = l1 * (l1 + 1), l2 * (l2 + 1)
    ee = em = mpf(0)
    for lpp in range(abs(l1 - l2), l1 + l2 + 1, 2):
        c = abs(mp.sqrt(mp.pi) * gaunt(l1, l2, lpp, m) * bess[lpp] * mp.sqrt(mpf(2 * lpp + 1) / (l1p * l2p)))
        if ext:
            c *= 2 / mp.pi
        ee += abs(l1p + l2p - lpp * (lpp + 1)) * c
        em += abs(2 * m * nkL) * c
    return ee, em


def translation_cond(geo, m, k):
    """how many times larger than the result the terms of the translation sums get
    (corner elements): the double precision error is that many ulps"""
    outer = lambda r: r[-1] if isinstance(r, (list, tuple)) else r
    ext = geo["L"] > outer(geo["r1"]) + outer(geo["r2"])
    md, lmin = geo["mat3"], max(1, m)
    x = mpf(k) * mpf(geo["L"]) * mp.sqrt(md.eps(mpf(k)) * md.mu(mpf(k)))
    n1, n2 = geo["lmax"], geo["lssmax"]
    bess = (sph_k if ext else sph_i)(n1 + n2, x)
    c = mpf(1)
    for l1, l2 in {(lmin, lmin), (lmin, n2), (n1, lmin), (n1, n2), (n1, n1)}:
        v = translation(l1, l2, m, x, ext, bess)
        a = translation_abs(l1, l2, m, x, ext, bess)
        # relative to the larger of the two: they enter the same elements
        big = max(abs(v[0]), abs(v[2]))
        c = max(c, max(a) / big) if big else c
    return float(c)


def translation_noise(geo, m, ks, ulp=1e-14):
    """relative double precision error of the round trip, which holds two
    translations, at each wavenumber"""
    c = [ulp * translation_cond(geo, m, v) for v in ks]
    return np.array([x + x * x for x in c])


def lndet(mat):
    """ln|det| and sign of a square list-of-lists of mpf (partial pivoting)"""
    a = [row[:] for row in mat]
    n = len(a)
    ln, sg = mpf(0), 1
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if a[p][c] == 0:
            return -mp.inf, 0
        if p != c:
            a[p], a[c] = a[c], a[p]
            sg = -sg
        piv = a[c][c]
        ln += mp.log(abs(piv))
        if piv < 0:
            sg = -sg
        for r in range(c + 1, n):
            f = a[r][c] / piv
            if f:
                ar, ac = a[r], a[c]
                for q in range(c + 1, n):
                    ar[q] -= f * ac[q]
    return ln, sg


def roundtrip(geo, m, k, mieA=None, mieB=None):
    """round trip matrix in the subspace m at wave number k>0 (list of lists of
    mpf, E block first).  geo: dict with r1, r2, L, mat1, mat2, mat3 (Med or
    list of Med / radii for layers), lmax, lssmax"""
    lmin = max(1, m)
    lmax, lss = geo["lmax"], geo["lssmax"]
    outer = lambda r: r[-1] if isinstance(r, (list, tuple)) else r
    ext = geo["L"] > outer(geo["r1"]) + outer(geo["r2"])
    k = mpf(k)

    def sc(mat, r, n, internal=False):
        if isinstance(mat, (list, tuple)):
            return mie_layered(mat, r, k, 1, n)
        if internal:
            return mie_internal(geo["mat3"], mat, k, 1, n, r)
        return mie(mat, geo["mat3"], k, 1, n, r)

    if lmin > lmax:
        return []
    A = mieA or sc(geo["mat1"], geo["r1"], lmax)
    B = mieB or sc(geo["mat2"], geo["r2"], lss, internal=not ext)
    md = geo["mat3"]
    x = k * mpf(geo["L"]) * mp.sqrt(md.eps(k) * md.mu(k))
    bess = sph_k(lmax + lss, x) if ext else sph_i(lmax + lss, x)
    L1 = range(lmin, lmax + 1)
    L2 = range(lmin, lss + 1)
    V = {(a, b): translation(a, b, m, x, ext, bess) for a in L1 for b in L2}
    n = len(L1)
    M = [[mpf(0)] * (2 * n) for _ in range(2 * n)]
    bTE = {l: B[l - 1][0] * B[l - 1][2] for l in L2}
    bTM = {l: B[l - 1][1] * B[l - 1][2] for l in L2}
    for i, a in enumerate(L1):
        aTE = A[a - 1][0] * A[a - 1][2]
        aTM = A[a - 1][1] * A[a - 1][2]
        for j, c in enumerate(L1):
            ee = em = me = mm = mpf(0)
            for b in L2:
                v, w = V[a, b], V[c, b]
                ee += v[0] * bTE[b] * w[1] + v[2] * bTM[b] * w[3]
                em += v[0] * bTE[b] * w[3] + v[2] * bTM[b] * w[1]
                me += v[2] * bTE[b] * w[1] + v[0] * bTM[b] * w[3]
                mm += v[2] * bTE[b] * w[3] + v[0] * bTM[b] * w[1]
            M[i][j], M[i][n + j] = aTE * ee, aTE * em
            M[n + i][j], M[n + i][n + j] = aTM * me, aTM * mm
    return M


def balanced(M, geo, m, k):
    """similarity transformation with sqrt(i_l/k_l) of sphere 1: same determinant and
    traces, entries of comparable size"""
    lmin, n = max(1, m), len(M) // 2
    r = geo["r1"][-1] if isinstance(geo["r1"], (list, tuple)) else geo["r1"]
    md = geo["mat3"]
    x = mpf(k) * mpf(r) * mp.sqrt(md.eps(mpf(k)) * md.mu(mpf(k)))
    i, q = sph_i(geo["lmax"], x), sph_k(geo["lmax"], x)
    d = [mp.sqrt(i[l] / q[l]) for l in range(lmin, lmin + n)] * 2
    return [[M[a][b] * d[b] / d[a] for b in range(2 * n)] for a in range(2 * n)]


def lndet_1m(M):
    n = len(M)
    return lndet([[(1 if i == j else 0) - M[i][j] for j in range(n)] for i in range(n)])


def solve_lndet(geo, m, k, **kw):
    """ln|det(1-M)| in the subspace m at k"""
    return lndet_1m(balanced(roundtrip(geo, m, k, **kw), geo, m, k))[0]


def trace_powers(M, N):
    """[tr M, tr M^2, ..., tr M^N]"""
    n = len(M)
    P = [row[:] for row in M]
    out = []
    for q in range(N):
        out.append(sum((P[i][i] for i in range(n)), mpf(0)))
        if q + 1 < N:
            P = [[sum((P[i][t] * M[t][j] for t in range(n)), mpf(0)) for j in range(n)] for i in range(n)]
    return out
