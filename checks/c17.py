import math
import numpy as np
from mpmath import mp, mpf
from vlib import gen

RULE = ("random polynomials, power laws and grids through the numerical derivative; orders 0..3000 through the log factorials; random "
        "tabulated data (Drude, Drude with noise, arbitrary) and requested grids inside/around the table through the completion. "
        "Non-trivial: a non-zero value was compared.")
ASSUMPTIONS = ["requested grids are increasing, have at least two points and at least one inside the table",
               "Drude parameters from 5..100 (plasma) and 0.05..2 (damping) in units of the grid (tables 0.01..300)"]
REQUIRED = {"derivative": 500, "log factorial": 300, "log double factorial": 300, "inside the table": 200, "Drude data": 100,
            "Drude law outside": 40, "decreasing grid refused": 20}


def cases(rng, tier):
    f = 1 if tier == "quick" else 20
    return gen.mkcases(rng, {"derivative": 90 * f, "power": 30 * f, "factorial": 30 * f, "table": 40 * f, "drude": 40 * f, "single": 6 * f})


def stencil(f, h):
    n = len(f)
    d = np.empty(n)
    for i in range(n):
        if 2 <= i <= n - 3:
            d[i] = (f[i - 2] - 8 * f[i - 1] + 8 * f[i + 1] - f[i + 2]) / (12 * h)
        elif i in (1, n - 2):
            d[i] = (f[i + 1] - f[i - 1]) / (2 * h)
        else:
            d[i] = (f[1] - f[0]) / h if i == 0 else (f[-1] - f[-2]) / h
    return d


def run(case, mon):
    import helper_functions as H, data_inter_extrapolation as D
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind == "factorial":
        x = g.integers(0, 500, 12) if g.random() < .7 else g.integers(0, 3000, 12)
        mon.note(x=x)
        wf = np.array([float(mp.log(mp.factorial(int(v)))) for v in x])
        w2 = np.array([float(mp.log(mp.fac2(2 * int(v) - 1))) if v > 0 else 0.0 for v in x])
        for y in (x, x.astype(float), x.reshape(3, 4)):
            mon.close("log factorial", H.lfac(y), wf.reshape(y.shape), 1e-12, 1e-12)
            mon.close("log double factorial", H.ln_2dbl(y), w2.reshape(y.shape), 1e-11, 1e-11)
        mon.close("log factorial", float(H.lfac(int(x[0]))), wf[0], 1e-12, 1e-12)
        mon.close("log double factorial", float(H.ln_2dbl(int(x[0]))), w2[0], 1e-11, 1e-11)
        return
    if kind in ("derivative", "power"):
        n = int(g.integers(5, 30)) if g.random() < .93 else int(g.integers(500, 3000))
        h = gen.logu(g, -2, 1)
        x0 = gen.sig(g.uniform(-5, 5)) if kind == "derivative" else gen.logu(g, -1, 1)
        x = x0 + h * np.arange(n)
        try:
            H.num_derivative(np.ones(n), x[::-1].copy())
        except ValueError:
            mon.event("decreasing grid refused")
        else:
            mon.fail("decreasing grid refused", "no error")
        if kind == "power":
            p, a, mul = gen.sig(g.uniform(-4, 4)), gen.sig(g.normal()), int(g.integers(2, 12)) if g.random() < .8 else int(g.integers(12, 80))
            mon.note(power=p, factor=a, x0=x0, h=h, n=n, multiplier=mul)
            f = a * x ** p
            fine = x0 + h / mul * np.arange((n - 1) * mul + 1)
            # a power law is a straight line in the log-log plot the completion uses
            want = stencil(a * fine ** p, h / mul)[::mul]
            got = H.num_derivative(f.copy(), x.copy(), True, mul)
            mon.close("derivative, refined", got, want, 1e-6, 1e-9 * np.abs(f).max() / h * mul)
            # data that change sign are completed after a shift: near to the slopes of the neighbouring intervals
            mul = max(mul, 3)
            t = np.linspace(0, g.uniform(1, 4), n)
            f = gen.logu(g, -2, -.3) * np.sin(t + g.uniform(0, 6.3))
            if f.max() > 0 > f.min():
                got = np.asarray(H.num_derivative(f.copy(), x.copy(), True, mul))
                if mon.true("length", got.shape == (n,), "shape %s" % (got.shape,)):
                    sl = np.diff(f) / h
                    lo, hi = np.minimum(sl[:-1], sl[1:]), np.maximum(sl[:-1], sl[1:])
                    pad = .5 * np.abs(sl).max() * (np.abs(np.diff(f)).max() + h / x0)
                    ok = (got[1:-1] > lo - pad) & (got[1:-1] < hi + pad)
                    mon.true("derivative, refined, sign change", ok.all(), "got %s, slopes %s" % (got.tolist(), sl.tolist()), f=f, x=x)
                    # log-log interpolation of the data shifted to positive values (smallest value 1)
                    sh = abs(f.min()) + 1
                    fi = np.exp(np.interp(np.log(np.clip(x0 + h / mul * np.arange((n - 1) * mul + 1), x[0], x[-1])), np.log(x), np.log(f + sh)))
                    mon.close("derivative, shifted", got, stencil(fi, h / mul)[::mul], 1e-6, 1e-10 * sh / h * mul + 1e-13 * (abs(x0) + n * h) / h * np.abs(sl).max() * mul)
            return
        deg = int(g.integers(0, 6))
        c = g.normal(size=deg + 1)
        P = np.polynomial.Polynomial(c)
        f = P((x - x0) / (n * h))
        mon.note(coefficients=c, x0=x0, h=h, n=n)
        got = H.num_derivative(f.copy(), x.copy())
        if not mon.true("length", np.shape(got) == (n,), "shape %s" % (np.shape(got),)):
            return
        ex = P.deriv()((x - x0) / (n * h)) / (n * h)
        tol = 1e-11 * np.abs(f).max() / h + 1e-300
        hx = 1e-13 * (abs(x0) + n * h) / h
        tol = tol + hx * np.abs(ex).max()
        if deg <= 4:
            mon.close("derivative", got[2:-2], ex[2:-2], 0, tol)
        if deg <= 2:
            mon.close("derivative", got[[1, -2]], ex[[1, -2]], 0, tol)
        if deg <= 1:
            mon.close("derivative", got[[0, -1]], ex[[0, -1]], 0, tol)
        mon.close("derivative", got, stencil(f, h), 0, tol)
        ch = H.num_derivative(f.copy(), x.copy(), False, 5)
        mon.close("derivative", ch, got, 0, tol)
        return
    if kind == "single":
        w = gen.logu(g, -3, 2) if g.random() < .5 else gen.logu(g, -9, 5)
        mon.note(omega=w)
        d = D.data_interp_extrap(np.array([1.0, 2.0, 3.0]), np.array([3.0, 2.0, 1.5]))
        wp, gm = 1.4e16 / 3e14, 5.3e13 / 3e14
        for v in (float(w), np.array([w])):
            mon.close("single frequency", np.ravel(d.get_drude_data(v)), [1 + wp ** 2 / (w * gm + w * w)], 1e-9, 0)
        return
    wp, gm = gen.logu(g, .7, 2), gen.logu(g, -1.3, .3)
    n = int(g.integers(12, 60)) if g.random() < .8 else int(g.integers(60, 700))
    lo = gen.logu(g, -2, -.5)
    if kind == "drude" and g.random() < .5:
        n, lo = int(g.integers(5, 40)), gen.logu(g, -2, .5)
        if g.random() < .3:                     # another unit of frequency
            u = 10 ** g.uniform(-3, 3)
            wp, gm, lo = wp * u, gm * u, lo * u
    xd = np.sort(lo * 10 ** g.uniform(0, 2, n))
    eps = lambda v: 1 + wp ** 2 / (v * v + v * gm)
    yd = eps(xd)
    noisy = kind == "table"
    if noisy:
        yd = yd * (1 + .05 * g.normal(size=n))
    a, b, c = int(g.integers(0, 6)), int(g.integers(0, 6)), int(g.integers(1, 20))
    if g.random() < .3:
        a, b, c = int(g.integers(0, 2)), int(g.integers(0, 2)), int(g.integers(1, 3))
        mon.reach("few frequencies asked for")
    om = np.sort(np.concatenate((xd[0] * g.uniform(.05, .98, a), xd[0] + (xd[-1] - xd[0]) * g.uniform(.001, .999, c),
                                 xd[-1] * g.uniform(1.02, 20, b))))
    if g.random() < .15:
        om = np.sort(np.append(om, xd[0] + (xd[-1] - xd[0]) * g.uniform(.001, .999, int(g.integers(60, 400)) if g.random() < .8 else int(g.integers(2000, 6000)))))
        mon.reach("many frequencies asked for")
    if len(om) < 2:
        return
    mon.note(wp=wp, gamma=gm, table=[xd.tolist(), yd.tolist()], omega=om if len(om) < 500 else om[:500])
    mon.reach("below %d above %d" % (bool(a), bool(b)))
    d = D.data_interp_extrap(xd.copy(), yd.copy())
    keep = om.copy()
    try:
        got = np.asarray(d.get_drude_data(om))
    except RuntimeError as e:               # scipy found no best fit to the noisy table: said so, nothing returned
        if not noisy or "Optimal parameters" not in str(e):
            raise
        mon.event("no fit to a noisy table")
        return
    mon.true("grid unchanged", np.array_equal(om, keep) and np.array_equal(d.xdata, xd) and np.array_equal(d.ydata, yd), "inputs modified")
    if not mon.true("one value per frequency", got.shape == om.shape, "shape %s for %s" % (got.shape, om.shape)):
        return
    ins = (om > xd[0]) & (om < xd[-1])
    mon.close("inside the table", got[ins], np.interp(om[ins], xd, yd), 1e-10, 0)
    out = ~ins
    if not noisy:
        mon.close("Drude data", got[out], eps(om[out]), 1e-3, 0)
        if hasattr(d, "epsilon_drude"):
            mon.close("Drude data", d.epsilon_drude(om, wp, gm), eps(om), 1e-12, 0)
        return
    if out.sum() >= 1:
        # outside: the Drude law that fits the table best
        from scipy.optimize import least_squares
        f = lambda p: 1 + p[0] ** 2 / (xd * p[1] + xd ** 2) - yd
        best = least_squares(f, [wp, gm], x_scale=[wp, gm], xtol=1e-14, ftol=1e-14, gtol=1e-14).x
        w = 1 + best[0] ** 2 / (om * best[1] + om ** 2)
        if not (.5 < best[0] / wp < 2 and .2 < best[1] / gm < 5):
            mon.reach("a noisy table that does not determine the Drude parameters")
            return
        mon.close("Drude law outside", got[out], w[out], 2e-3, 0)
