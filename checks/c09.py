import os, sys, pickle, struct, traceback
import numpy as np
from vlib import gen

RULE = ("random histories of 6..14 calls on a pool of shared objects (geometries shared with thermodynamic objects, scattering, "
        "layered, PFA and material objects); wavenumbers are handed over in shared buffers that are changed in place between "
        "calls (same length; permuted, one element changed, same sum, rescaled), returned arrays are overwritten after use; in a "
        "third of the histories some calls are interrupted (KeyboardInterrupt at a random call event inside the package). Every "
        "result is compared with the one of a fresh object in a process forked before any call. Non-trivial: a history in which "
        "an object was asked at least twice and a non-zero result was compared.")
ASSUMPTIONS = ["matrices are compared up to a diagonal similarity (products M_ij M_ji)",
               "changing lists or materials that were handed to a constructor is outside the property; arrays are inside"]
ROUNDS = 2
REQUIRED = {"equals fresh object": 700, "inputs unchanged": 700}
CPU_LIMIT = 200
ZYG = None


def cases(rng, tier):
    f = 1 if tier == "quick" else 12
    return gen.mkcases(rng, {"geometry": 60 * f, "mixed": 50 * f, "thermo": 40 * f, "flags": 24 * f, "k0": 20 * f, "coated": 16 * f, "interrupt": 24 * f})


# ------------------------------------------------------------------ fresh evaluation in a pristine process
def _read(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def _send(fd, o):
    b = pickle.dumps(o)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<Q", _read(fd, 8))[0]))


def init():
    global ZYG
    import geometry, thermodynamics, scattering, stratified_sphere_scattering, PFA, raw_PFA, materials
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork() == 0:
        os.close(b)
        os.close(c)
        try:
            while True:
                o, meth, args = _recv(a)
                pid = os.fork()
                if pid == 0:
                    try:
                        r = ("ok", call(World(), o, meth, args)[0])
                    except Exception as e:
                        r = ("error", "%s: %s" % (type(e).__name__, e))
                    _send(d, r)
                    os._exit(0)
                os.waitpid(pid, 0)
        except EOFError:
            pass
        finally:
            os._exit(0)
    os.close(a)
    os.close(d)
    ZYG = (b, c)


def fresh(o, meth, args):
    _send(ZYG[0], (o, meth, args))
    return _recv(ZYG[1])


# ------------------------------------------------------------------ objects
def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


class World:
    """creates objects from their specs and keeps them"""
    def __init__(self):
        self.pool, self.bufs, self.lists = {}, {}, []

    def mat(self, s):
        if isinstance(s[0], (list, tuple)):
            l = [self.mat(x) for x in s]
            self.lists.append((l, list(l)))
            return l
        if s[0] == "pre":
            return gen.obj(s)
        return self.get(("mat", s))

    def rad(self, r):
        if isinstance(r, (list, tuple)):
            l = list(r)
            self.lists.append((l, list(l)))
            return l
        return r

    def get(self, o):
        key = tup(o)
        if key not in self.pool:
            self.pool[key] = self.new(o)
        return self.pool[key]

    def new(self, o):
        import geometry as G, thermodynamics as TH, scattering as S, stratified_sphere_scattering as SS, PFA, raw_PFA
        t = o[0]
        if t == "mat":
            return gen.obj(o[1])
        if t == "geo":
            _, r1, r2, L, m1, m2, m3, lmax, lss, prec, ev = o
            return G.SphereSphere(self.rad(r1), self.rad(r2), L, self.mat(m1), self.mat(m2), self.mat(m3), lmax=lmax,
                                  lssmax=lss, precision=prec, evaluation=ev)
        if t == "coatgeo":
            _, a, b, m, n, c, d, p, q, L, md, lmax, lss = o
            return G.CoatedSphereSphere(a, b, self.mat(m), self.mat(n), c, d, self.mat(p), self.mat(q), L, self.mat(md),
                                        lmax, lss)
        if t == "ft":
            _, cls, dT, nmax, Tmax, geo, an = o
            if cls == "oneRoundtrip":
                return TH.oneRoundtrip(dT, nmax, Tmax, self.get(geo))
            return TH.finiteT(dT, nmax, Tmax, self.get(geo), analytic_n0=an)
        if t == "scat":
            return S.scattering(self.mat(o[1]), self.mat(o[2]))
        if t == "coat":
            return S.coated_miescattering(*[self.mat(x) for x in o[1:]])
        if t == "strat":
            return SS.StratifiedMieScattering(self.mat(o[1]), self.rad(o[2]))
        return {"PFA": PFA, "raw_PFA": raw_PFA}[t].SphereSpherePFA(*[self.mat(x) for x in o[1:]])

    def arr(self, v):
        """the shared buffer of this length, filled with new contents in place"""
        b = self.bufs.setdefault(len(v), np.empty(len(v)))
        b[:] = v
        return b


def flatten(r):
    if isinstance(r, (list, tuple)):
        return [np.asarray(x) for x in r]
    return [np.asarray(r)]


def invariant(r, meth):
    """what of the result is compared (matrices: up to a diagonal similarity)"""
    a = flatten(r)
    if meth == "blockmatrices" and len(a) == 4:
        a = [np.concatenate((np.concatenate((a[0], a[1]), 2), np.concatenate((a[2], a[3]), 2)), 1)]
    if meth in ("blockmatrices", "supermatrix"):
        a = [a[0] * np.swapaxes(a[0], 1, 2), np.trace(a[0], axis1=1, axis2=2)]
    return [np.array(x, dtype=float) for x in a]


def call(w, o, meth, args):
    x = w.get(o)
    a, keep = [], []
    for v in args:
        if isinstance(v, (list, tuple)) and v and v[0] == "arr":
            b = w.arr(v[1])
            keep.append((b, b.copy()))
            a.append(b)
        else:
            a.append(v)
    mats = snapshot(w)
    r = getattr(x, meth)(*a)
    out = invariant(r, meth)
    same = all(np.array_equal(p, q) for p, q in keep) and snapshot(w) == mats
    for p, q in w.lists:
        same = same and len(p) == len(q) and all(i is j or i == j for i, j in zip(p, q))
    for z in flatten(r):                      # the caller does what it likes with a result
        if isinstance(z, np.ndarray) and z.ndim and z.flags.writeable and not any(z is p for p, q in keep):
            try:
                z[...] = 7.125e3
            except Exception:
                pass
    return out, same


def snapshot(w):
    import materials as M
    s = []
    for n in ("Gold", "Vacuum", "Water", "modifiedWater", "Gold_plasma", "MercurySmith", "Polystyrene", "Gold_magnetic"):
        m = getattr(M, n, None)
        s.append(repr((getattr(m, "e_properties", 0), getattr(m, "b_properties", 0))))
    for k, v in w.pool.items():
        if k[0] == "mat":
            s.append(repr((v.e_properties, v.b_properties)))
    return s


# ------------------------------------------------------------------ histories
def variants(g, base, others):
    """wavenumber arrays that are easily mistaken for one another"""
    n = len(base)
    out = [base, base[::-1].copy(), g.permutation(base)]
    v = base.copy()
    v[int(g.integers(n))] *= 1 + 10 ** g.uniform(-7, -.5)
    out.append(v)
    if n > 1:
        v = base.copy()
        i, j = g.permutation(n)[:2]
        d = .3 * min(v[i], v[j])
        v[i] += d
        v[j] -= d
        out.append(v)
    if n > 2:
        v = base.copy()
        v[1:-1] *= g.uniform(.2, .9)
        out.append(v)
    out += [base * 2, base[:max(1, n - 1)].copy()]
    out += others
    return [[float("%.15g" % y) for y in x] for x in out]


def geo_spec(g, mds=None, layered=.15, lmax=None):
    ext = g.random() < .7
    r1, r2, L = gen.exterior(g, gap=(-.7, .7), ratio=.6) if ext else gen.interior(g)
    md = gen.material(g, ("diel", "vac"), pre=.7)
    kinds = ("diel", "drude", "plasma", "mag", "pec")
    m1, m2 = gen.material(g, kinds), gen.material(g, kinds)
    lmax = lmax or int(g.integers(2, 5))
    if ext and g.random() < layered:
        m1 = [m1, gen.material(g, ("diel", "drude")), md]
        r1 = [gen.sig(r1 * .7), r1]
    return ["geo", r1, r2, L, m1, m2, md, lmax, lmax + int(g.integers(0, 3)), 1e-6,
            "trace" if g.random() < .08 else "lndet"], ext


def geo_calls(g, o, ks, ext):
    k = ["arr", ks[int(g.integers(len(ks)))]]
    lay = isinstance(o[4][0], (list, tuple)) if o[0] == "geo" else True
    c = [("mSumme", [k]), ("single_m", [int(g.integers(0, o[7] + 1)) if o[0] == "geo" else int(g.integers(0, 3)), k]),
         ("single_m", [1, k]), ("blockmatrices", [int(g.integers(0, 3)), k]), ("mSum_roundtrips", [k, int(g.integers(1, 4))]),
         ("mSum_oneRoundtrip", [k]), ("supermatrix", [int(g.integers(0, 3)), k])]
    if not lay:
        c += [("mSumme_k0", []), ("single_m_k0", [int(g.integers(0, o[7] + 1))]), ("single_m_k0", [int(g.integers(1, o[7] + 1))]),
              ("mSumme", [["arr", [0.0] + k[1]]]), ("single_m", [0, ["arr", [0.0] + k[1]]])]
        c += [("blockmatrices_channels", [1, k])]
    if ext:
        c += [("mSum_trace_dot", [k])] * 2 + [("supermatrix", [int(g.integers(0, 3)), k, 1])]
    return c[int(g.integers(len(c)))]


def coated_history(g, n):
    r1, r2, L = gen.exterior(g, gap=(-.5, .7), ratio=.5)
    nonpec = ("diel", "drude", "plasma", "mag")
    md = gen.material(g, ("diel", "vac"), pre=.7)
    lmax = int(g.integers(1, 4))
    sp = ["coatgeo", gen.sig(r1 * .7), r1, gen.material(g), gen.material(g, nonpec), gen.sig(r2 * .6), r2, gen.material(g),
          gen.material(g, nonpec), L, md, lmax, lmax + int(g.integers(0, 2))]
    twin = list(sp)
    j = int(g.integers(4))
    if j == 0:
        twin[1] = gen.sig(r1 * .5)
    elif j == 1:
        twin[8] = gen.material(g, nonpec)
    elif j == 2:
        twin[9] = gen.sig(L * 1.08)
    else:
        twin[11], twin[12] = lmax + 1, sp[12] + 1
    ks = variants(g, gen.wavenumbers(g, int(g.integers(1, 5)), L, -2, .8), [])
    h = []
    for i in range(n):
        o = twin if g.random() < .3 else sp
        k = ["arr", ks[int(g.integers(len(ks)))]]
        m = int(g.integers(0, lmax + 1))
        c = [("mSumme", [k]), ("single_m", [m, k]), ("blockmatrices", [m, k]), ("supermatrix", [m, k]), ("supermatrix", [m, k, 1]),
             ("mSum_oneRoundtrip", [k]), ("mSum_trace_dot", [k]), ("mSum_roundtrips", [k, 2])]
        if g.random() < .25:
            f = ["ft", "oneRoundtrip" if g.random() < .3 else "finiteT", .3, int(g.integers(3, 7)), 1.0, o, False]
            h.append((f,) + [("free_energy", []), ("force", []), ("entropy", [])][int(g.integers(3))])
        else:
            h.append((o,) + c[int(g.integers(len(c)))])
    return h


def history(g, kind):
    """list of (object spec, method, args)"""
    n = int(g.integers(6, 15))
    pool = []
    if kind == "coated" or kind == "interrupt" and g.random() < .2:
        return coated_history(g, n)
    sp, ext = geo_spec(g, lmax=3 if kind == "k0" else None, layered=0 if kind == "k0" else .15)
    base = gen.wavenumbers(g, int(g.integers(1, 6)), sp[3], -2, .8)
    ks = variants(g, base, [gen.wavenumbers(g, len(base), sp[3], -2, .8)])
    h = []
    twin = list(sp)                  # a second object that differs in one respect only
    j = int(g.integers(4))
    if j == 0:
        twin[7] = sp[7] + 1
        twin[8] = sp[8] + 1
    elif j == 1:
        twin[5] = gen.material(g, ("diel", "drude", "plasma"))
    elif j == 2:
        twin[3] = gen.sig(sp[3] * (1.07 if ext else .9))
    else:
        twin[2] = gen.sig(sp[2] * (.93 if ext else 1.1))
    first = sp
    for i in range(n):
        sp = twin if g.random() < .25 else first
        if kind == "k0":
            k = ["arr", ks[int(g.integers(len(ks)))]]
            c = [("single_m_k0", [int(g.integers(0, 4))]), ("mSumme_k0", []), ("single_m", [int(g.integers(0, 4)), k]),
                 ("mSumme", [["arr", [0.0] + k[1]]])]
            m, a = c[int(g.integers(4))]
            h.append((sp, m, a))
        elif kind == "geometry":
            h.append((sp,) + geo_calls(g, sp, ks, ext))
        elif kind == "interrupt":           # one object, few sets of wavenumbers
            h.append((first,) + geo_calls(g, first, ks[3:5] if len(ks) > 4 else ks[:2], ext))
        else:
            pool.append(i)
            pick = int(g.integers(10))
            if kind == "thermo" or kind == "flags" or pick < 4:
                an = bool(g.random() < .5)
                o = ["ft", "oneRoundtrip" if g.random() < .12 else "finiteT", [.3, .5, .3][int(g.integers(2))], int(g.integers(3, 9)),
                     1.0, sp, an]
                if g.random() < .06:        # many temperatures and terms
                    o[2], o[3], o[6] = gen.sig(1 / g.uniform(32, 60), 4), int(g.integers(40, 90)), False
                if pool and h and h[-1][0][0] == "ft" and g.random() < .6:
                    o = h[-1][0]
                c = [("free_energy", []), ("entropy", []), ("get_f_matsubaras", [0]), ("get_f_matsubaras", [int(g.integers(1, 3)), 2])]
                kk = ks[int(g.integers(len(ks)))]
                c += [("F_alle", [["arr", [0.0] + kk]]), ("F_alle", [["arr", [kk, [0.0]][int(g.random() < .2)]]])]
                if ext:
                    c += [("force", [])] * (4 if kind == "flags" else 1)
                if g.random() < .03 and o[1] == "finiteT":
                    c = [("e0", [.05, 2.0])]
                if kind == "flags" and g.random() < .3:
                    o = sp
                    c = [geo_calls(g, sp, ks, ext)]
                m, a = c[int(g.integers(len(c)))]
                h.append((o, m, a))
            elif pick < 6:
                m1, m2, md = sp[4], sp[5], sp[6]
                k = ["arr", ks[int(g.integers(len(ks)))]]
                lmin, lmax = int(g.integers(1, 3)), int(g.integers(3, 6))
                if pick == 4 and isinstance(m1[0], str):
                    o = ["scat", m1, md]
                    m, a = [("mie", [k, lmin, lmax, 1.3]), ("mie_k0", [lmin, lmax, .7])][int(g.integers(2))]
                elif g.random() < .5:
                    o = ["strat", [m2, ["pre", "Gold"], ["pre", "Water"], md], [.4, .7, 1.1]]
                    m, a = "mie_stratified", [k, lmin, lmax]
                else:
                    o = ["coat", m2, ["pre", "Polystyrene"], md]
                    m, a = "mie_coated", [k, lmin, lmax, .5, .9]
                h.append((o, m, a))
            elif pick < 8:
                o = [["PFA", "raw_PFA"][pick % 2]] + [sp[5], ["pre", "Silicon"], ["pre", "Vacuum"]]
                L = [.5, 1.0][int(g.integers(2))]
                c = [("planeplaneFreeEnergy", [3.0, L, bool(g.random() < .3)]), ("planeplaneFreeEnergyHT", [L]),
                     ("get_f_matsubaras", [3.0, L, ["arr", [1e-10 if pick % 2 == 0 else 0.0, .7, 1.9]]]),
                     ("planeplanePressure", [4.0, L])]
                m, a = c[int(g.integers(4))]
                h.append((o, m, a))
            elif pick == 8 and not (isinstance(sp[5][0], str) and gen.is_pec(sp[5])):
                o = ["mat", sp[5]]
                m, a = [("epsilon", []), ("mu", [])][int(g.integers(2))]
                h.append((o, m, [["arr", ks[int(g.integers(len(ks)))]]]))
            else:
                h.append((sp,) + geo_calls(g, sp, ks, ext))
    return h


class Interrupt:
    """raises KeyboardInterrupt, as Ctrl-C does, when the package makes its n-th function call"""
    def __init__(self, n):
        import geometry
        self.n, self.seen, self.src = n, 0, os.path.dirname(os.path.abspath(geometry.__file__))

    def hook(self, frame, event, arg):
        if event in ("call", "c_call") and os.path.dirname(os.path.abspath(frame.f_code.co_filename)) == self.src:
            self.seen += 1
            if self.seen == self.n:
                raise KeyboardInterrupt

    def __enter__(self):
        sys.setprofile(self.hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        return False


def disturb(g, mon, w, h, i):
    """a call like one of the history, interrupted somewhere"""
    j = int(g.integers(max(0, i - 2), min(len(h), i + 3)))
    o, meth, args = h[j]
    n = int(10 ** g.uniform(0, 3.3))
    if g.random() < .6:                     # evenly over the whole call, or over its beginning
        try:
            with Interrupt(0) as it:
                call(World(), o, meth, args)
        except Exception:
            pass
        n = 1 + int(it.seen * g.random() ** int(g.integers(1, 4)))
    try:
        with Interrupt(n) as it:
            call(w, o, meth, args)
    except KeyboardInterrupt:
        mon.event("interrupted calls")
        mon.reach("interrupted " + meth)
        return dict(interrupted=[o, meth, args], at=n)
    except Exception:
        pass
    return None


def run(case, mon):
    g = np.random.default_rng(case["seed"])
    h = history(g, case["kind"])
    mon.note(history=h)
    w = World()
    seen = set()
    rough = g.random() < (.35 if case["kind"] != "interrupt" else 1)
    hurt = []
    for i, (o, meth, args) in enumerate(h):
        st, want = fresh(o, meth, args)
        if rough and i and g.random() < .5:
            d = disturb(g, mon, w, h, i)
            if d:
                hurt.append(dict(d, before=i))
                mon.note(**hurt[-1])
        try:
            got, same = call(w, o, meth, args)
        except Exception as e:
            if st == "error":
                mon.event("refused both ways")
                continue
            mon.fail("equals fresh object", "%s of the used object raised %s: %s, a fresh one does not" % (meth, type(e).__name__, e),
                     step=i, last=h[max(0, i - 3):i + 1], trace=traceback.format_exc()[-600:])
            return
        if st == "error":
            mon.fail("equals fresh object", "%s of a fresh object raised %s, the used one does not" % (meth, want), step=i,
                     last=h[max(0, i - 3):i + 1])
            return
        mon.true("inputs unchanged", same, "%s changed an array, list or material of the caller" % meth, step=i)
        if len(got) != len(want):
            mon.fail("equals fresh object", "number of results")
            return
        for x, y in zip(got, want):
            fin = np.abs(y[np.isfinite(y)]) if y.ndim else np.abs(y)
            sc = float(np.max(fin)) if np.size(fin) else 0.0
            ok = mon.close("equals fresh object", x, y, 1e-9, 1e-11 * sc + 1e-14, step=i, method=meth,
                           last=h[max(0, i - 3):i + 1])
            if not ok:
                return
        mon.reach(meth)
        mon.reach("repeated object" if tup(o) in seen else "first use")
        seen.add(tup(o))
