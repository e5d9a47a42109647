import numpy as np
from mpmath import mp, mpf
from vlib import gen, ref

RULE = ("random square matrices of size 1..80 (dynamic range up to 1e300, zero rows and columns, permutations, denormals, infinities, "
        "NaN, strided/reversed/Fortran layouts) through balance; random log matrices through the trace-invariant scalings; random "
        "batches through the determinant, inverse, product, trace and append helpers, each against 40-digit or element-wise "
        "textbook evaluation. Non-trivial: a non-zero quantity was compared.")
ASSUMPTIONS = ["balancing may work in place or on a copy; row and column norms may differ by any factor if that reduces their sum of "
               "squares by less than the convergence factor", "conditioning of the random matrices is moderate for inverses"]
REQUIRED = {"similar": 300, "diagonal kept": 100, "balanced": 80, "terminates": 150, "trace of powers": 100, "ln det": 100, "inverse": 60,
            "product": 60, "trace dot": 40, "append": 40, "block-diagonal ln det": 40}
CPU_LIMIT = 60


def cases(rng, tier):
    f = 1 if tier == "quick" else 20
    return gen.mkcases(rng, {"balance": 150 * f, "hostile": 60 * f, "scale": 60 * f, "lndet": 60 * f, "inverse": 40 * f, "misc": 40 * f,
                             "blockdiag": 50 * f, "refuse": 16 * f})


def matrix(g, n, span):
    a = g.normal(size=(n, n))
    d = 10 ** g.uniform(-span, span, n)
    k = int(g.integers(5))
    if k == 0:
        a = a * d[:, None] / d[None, :]
    elif k == 1:
        a = a * 10 ** g.uniform(-span, span, (n, n))
    elif k == 2:
        d = np.sort(d)
        a = a * d[:, None] / d[None, :]
        a[g.random((n, n)) < .3] = 0
    elif k == 3:
        a[g.random((n, n)) < .6] = 0
        if n > 1:
            a[int(g.integers(n))] = 0
            a[:, int(g.integers(n))] = 0
    else:
        a = np.triu(a) * d[:, None] / d[None, :]
    return a


def layout(g, a):
    n = len(a)
    k = int(g.integers(5))
    if k == 0:
        return np.ascontiguousarray(a), "C"
    if k == 1:
        return np.asfortranarray(a), "Fortran"
    if k == 2:
        b = np.full((2 * n, 3 * n), 7.7)
        v = b[::2, ::3]
        v[...] = a
        return v, "strided"
    if k == 3:
        b = np.array(a[::-1, ::-1])
        return b[::-1, ::-1], "reversed"
    return np.array(a.T).T, "transposed"


def mplndet(a, scale=True):
    m = [[mpf(float(x)) for x in r] for r in a]
    return ref.lndet(m)


def run(case, mon):
    import geometry as G
    from matrix_balancing import balance
    g = np.random.default_rng(case["seed"])
    kind = case["kind"]
    if kind in ("balance", "hostile"):
        n = int(g.integers(1, 25)) if kind == "balance" else int(g.integers(1, 9))
        if kind == "balance" and g.random() < .12:
            n = int(g.integers(25, 81)) if g.random() < .85 else int(g.integers(200, 420))
            mon.reach("more than 24 rows" if n < 200 else "more than 200 rows")
        a = matrix(g, n, g.uniform(0, 8 if g.random() < .7 else 70))
        bad = False
        if kind == "hostile":
            t = int(g.integers(6))
            if t == 0:
                a[tuple(g.integers(n, size=2))] = [np.inf, -np.inf, np.nan][int(g.integers(3))]
                bad = True
            elif t == 1:
                a = a * 1e-310
            elif t == 2:
                a = np.sign(a) * 10 ** g.uniform(-150, 150, (n, n))
            elif t == 3:
                a = np.sign(a) * 10 ** g.uniform(100, 307, (n, n))
            elif t == 4:
                a = np.zeros((n, n))
            else:
                a = np.sign(a) * 10 ** g.uniform(-320, 300, (n, n))
        v, lay = layout(g, a)
        conv = [None, .9, .95, gen.sig(g.uniform(.3, .99), 3)][int(g.integers(4))]
        mon.note(matrix=a.tolist() if n < 100 else "%d rows" % n, layout=lay, conv=conv)
        mon.reach(lay)
        out = balance(v) if conv is None else balance(v, conv)
        mon.event("terminates")
        if not mon.true("shape kept", np.shape(out) == (n, n), "shape %s" % (np.shape(out),)):
            return
        if bad:
            return
        out = np.array(out)
        mon.nontriv = True
        da, do = np.diagonal(a), np.diagonal(out)
        use = np.ones(n, bool) if kind == "balance" else (np.abs(da) > 1e-140) & (np.abs(da) < 1e140) & (t != 5)
        mon.close("diagonal kept", do[use], da[use], 1e-12, 0)     # beyond, intermediate products leave the double range
        # diagonal similarity: the product along cycles of length 2 and 3 is kept, zeros stay zeros
        fin = np.isfinite(out).all()
        if kind == "balance" or (fin and t not in (3, 5)):   # 3, 5: norms leave the double range, only termination is promised
            with np.errstate(all="ignore"):
                la, lb = np.log(np.abs(a)), np.log(np.abs(out))
            nz = (a != 0) & (np.abs(a) > 1e-290) & (np.abs(a) < 1e290)
            ok = nz & nz.T & (np.abs(out) > 1e-290) & (np.abs(out) < 1e290) & (np.abs(out.T) > 1e-290) & (np.abs(out.T) < 1e290)
            mon.close("similar", (lb + lb.T)[ok], (la + la.T)[ok], 0, 1e-8)
            mon.true("zero pattern and signs", np.array_equal(np.sign(out[nz & (np.abs(out) > 1e-290)]), np.sign(a[nz & (np.abs(out) > 1e-290)]))
                     and not np.any(out[a == 0]), "a zero became non-zero or a sign changed")
            for _ in range(6 if n >= 3 else 0):
                i, j, k = g.permutation(n)[:3]
                c = [(i, j), (j, k), (k, i)]
                if all(nz[x] and 1e-290 < abs(out[x]) < 1e290 for x in c):
                    mon.close("similar", sum(lb[x] for x in c), sum(la[x] for x in c), 0, 1e-8)
        if kind == "balance" and n > 1:
            o = np.abs(out) ** 2
            np.fill_diagonal(o, 0)
            with np.errstate(all="ignore"):
                c, r = o.sum(axis=0) ** .5, o.sum(axis=1) ** .5
            q = (c > 1e-100) & (r > 1e-100) & (c < 1e100) & (r < 1e100)
            # converged: no power of two reduces c^2+r^2 below conv times its value
            cc, lim = c[q], .95 if conv is None else conv
            if lim >= .9:
                ratio = np.maximum(c[q] / r[q], r[q] / c[q])
                mon.true("balanced", np.all(ratio < 8), "row and column norms differ by a factor of %s" % (ratio.max() if q.any() else 0,))
        return
    if kind == "refuse":
        s = [(2, 3), (3, 2), (1, 4), (5, 0), (0, 3)][int(g.integers(5))]
        a = g.normal(size=s)
        mon.note(shape=s)
        try:
            balance(a.copy())
        except ValueError:
            mon.true("non-square refused", True)
        else:
            mon.fail("non-square refused", "shape %s was accepted" % (s,))
        for b in (np.eye(3, dtype=int), np.eye(3, dtype=np.float32), np.ones(3), None, [[1.0, 2.0], [3.0, 4.0]]):
            try:
                balance(b)
            except (ValueError, TypeError):
                mon.event("wrong type refused")
            except Exception as e:
                mon.fail("wrong type refused", repr(e))
        return
    if kind == "scale":
        n, p = int(g.integers(1, 9)) if g.random() < .75 else int(g.integers(9, 40)), int(g.integers(1, 6))
        f1, f2 = getattr(G, "single_k_scale", None), getattr(G, "dynamic_scaling", None)
        if f1 is None or f2 is None:
            return
        # round-trip like: ln M[i,j,s] = x_i + y_j + z_s (+ noise), large entries off the diagonal
        l = np.arange(1, n + 1)
        M = [l[:, None, None] * g.uniform(-20, 20) + l[None, :, None] * g.uniform(-20, 20) + g.normal(size=(n, n, p)) for _ in range(3)]
        mon.note(n=n, p=p, first=M[0][:, :, 0].tolist())
        for A in M:
            B = np.asarray(f1(A.copy()))
            if not mon.true("shape kept", B.shape == A.shape, "shape %s" % (B.shape,)):
                return
            D = B - A
            mon.close("diagonal kept (scaling)", np.einsum("iis->is", B), np.einsum("iis->is", A), 1e-12, 1e-11)
            mon.close("trace of powers", D + np.swapaxes(D, 0, 1), np.zeros(A.shape), 0, 1e-9)
            mon.close("same factor for every term of the sum", D - D[:, :, :1], np.zeros(A.shape), 0, 1e-9)
            if n >= 3:
                i, j, k = g.permutation(n)[:3]
                mon.close("trace of powers", (D[i, j] + D[j, k] + D[k, i]), np.zeros(p), 0, 1e-8)
        if g.random() < .25 and n < 9:      # a long batch
            M = [M[int(g.integers(3))] + g.normal(size=(n, n, p)) for _ in range(int(g.integers(30, 140)))]
            mon.reach("long batch through the scaling")
        sh = [A - A.max() for A in M]
        S = np.array(sh)
        E = np.asarray(f2(S.copy()))
        if mon.true("shape kept", E.shape == S.shape, "shape %s" % (E.shape,)):
            for A, B in zip(S, E):
                ok = (B > 1e-280) & (B < 1e280)
                ok = ok & np.swapaxes(ok, 0, 1)
                with np.errstate(all="ignore"):
                    D = np.log(B) - A
                X = D + np.swapaxes(D, 0, 1)
                dg = np.einsum("iis->is", ok)
                mon.close("diagonal kept (scaling)", np.einsum("iis->is", D)[dg], np.zeros(dg.sum()), 0, 1e-9)
                mon.close("trace of powers", X[ok], np.zeros(ok.sum()), 0, 1e-9)
        return
    nb = int(g.integers(1, 5)) if g.random() < .75 else int(g.integers(5, 80))
    n = int(g.integers(1, 7)) if g.random() < .75 else int(g.integers(7, 31))
    if kind == "lndet" and g.random() < .06:
        nb, n = int(g.integers(200, 600)), int(g.integers(1, 4))
        mon.reach("hundreds of matrices")
    if nb > 4:
        mon.reach("long batch")
    if n > 6:
        mon.reach("large blocks")
    sel = g.permutation(nb)[:3]             # those compared with 40 digits
    if kind == "lndet":
        sc = 10 ** g.uniform(-6, -.3)
        A, B, C, D = [g.normal(size=(nb, n, n)) * sc / n for _ in range(4)]
        d = 10 ** g.uniform(-3, 3, 2 * n) if g.random() < .7 else 10 ** g.uniform(-30, 30, 2 * n)
        M = np.concatenate((np.concatenate((A, B), 2), np.concatenate((C, D), 2)), 1) * d[:, None] / d[None, :]
        A, B, C, D = M[:, :n, :n], M[:, :n, n:], M[:, n:, :n], M[:, n:, n:]
        mon.note(n=n, batch=nb, M=M[0].tolist())
        want = [float(mplndet(np.eye(2 * n) - M[i])[0]) for i in sel]
        big = np.abs(M * np.swapaxes(M, 1, 2)).sum() ** .5 + 1
        keep = M.copy()
        if hasattr(G, "balanced_slogdet"):
            got = np.asarray(G.balanced_slogdet(M.copy()))
            if mon.true("one value per matrix", got.shape == (nb,), "shape %s" % (got.shape,)):
                mon.close("ln det", got[sel], want, 1e-9, 1e-12 * big)
            c = M.copy()
            G.balanced_slogdet(c)
            mon.true("argument kept", np.array_equal(c, keep), "balanced_slogdet changed its argument")
        if hasattr(G, "sln_det_3d"):
            got = np.asarray(G.sln_det_3d(A.copy(), B.copy(), C.copy(), D.copy()))
            if mon.true("one value per matrix", got.shape == (nb,), "shape %s" % (got.shape,)):
                mon.close("ln det", got[sel], want, 1e-9, 1e-12 * big)
        mon.close("append", G.matrix_append([A, B, C, D]), M, 0, 0)
        return
    if kind == "blockdiag":
        f = getattr(G, "sln_det_blockdiagonal", None)
        if f is None:
            return
        d = 10 ** g.uniform(-3, 3, n)
        sc = 10 ** g.uniform(-6, -.3) / n
        A = g.normal(size=(n, n)) * sc * d[:, None] / d[None, :]
        B = g.normal(size=(n, n)) * sc * d[:, None] / d[None, :]
        if g.random() < .25:                # nothing is reflected in one polarisation, or in both
            A *= 0
            if g.random() < .3:
                B *= 0
            if g.random() < .5:
                A, B = B, A
            mon.reach("vanishing block")
        mon.note(n=n, A=A.tolist(), B=B.tolist())
        w = float(mplndet(np.eye(n) - A)[0] + mplndet(np.eye(n) - B)[0])
        mon.close("block-diagonal ln det", np.ravel(f(A.copy(), B.copy())), [w], 1e-9, 1e-12)
        return
    if kind == "inverse":
        n2 = 2 * n
        M = np.eye(n2) + g.normal(size=(nb, n2, n2)) * .4 / n2 ** .5
        mon.note(n=n2, batch=nb, M=M[0].tolist())
        if n2 * len(M) < 30:
            inv = np.array([[[float(x) for x in r] for r in (mp.matrix(x.tolist()) ** -1).tolist()] for x in M])
        else:
            inv = np.array([np.linalg.solve(x, np.eye(n2)) for x in M])
        cond = max(np.linalg.cond(x) for x in M) * max(np.linalg.cond(x[:n, :n]) for x in M) ** 2
        keep = M.copy()
        for nm in ("inv_3d_matrix", "inv_3d_blockmatrix"):
            if hasattr(G, nm):
                mon.close("inverse", getattr(G, nm)(M), inv, 0, 1e-13 * cond * np.abs(inv).max(), f=nm)
        mon.true("argument kept", np.array_equal(M, keep), "an inverse changed its argument")
        for badM in (np.ones((1, 3, 3)), np.ones((2, 2))):
            if hasattr(G, "inv_3d_blockmatrix"):
                try:
                    G.inv_3d_blockmatrix(badM)
                except Exception:
                    mon.event("bad shape refused")
                else:
                    mon.fail("bad shape refused", "shape %s accepted" % (badM.shape,))
        m2 = g.normal(size=(nb, n2, n2))
        m1 = np.eye(n2) - M
        w = np.array([np.trace(i @ x) for i, x in zip(inv, m2)])
        if hasattr(G, "trace_dot_3d"):
            mon.close("trace dot", G.trace_dot_3d(m1, m2), w, 0, 1e-12 * cond * n2 * np.abs(inv).max() * np.abs(m2).max())
        return
    p, q = (int(g.integers(1, 6)), int(g.integers(1, 6))) if n < 7 else (int(g.integers(1, 30)), int(g.integers(1, 30)))
    if nb * n * p * q > 60000:
        nb = 2
    a, b = g.normal(size=(nb, n, p)), g.normal(size=(nb, p, q))
    mon.note(a=a[0].tolist(), b=b[0].tolist(), batch=nb)
    w = np.array([[[float(sum(a[i, j, k] * b[i, k, l] for k in range(p))) for l in range(q)] for j in range(n)] for i in range(nb)])
    mon.close("product", G.dot_3d_matrices(a, b), w, 1e-12, 1e-12)
    blocks = [g.normal(size=(nb, n, n)) for _ in range(4)]
    w = np.empty((nb, 2 * n, 2 * n))
    w[:, :n, :n], w[:, :n, n:], w[:, n:, :n], w[:, n:, n:] = blocks
    mon.close("append", G.matrix_append(blocks), w, 0, 0)
