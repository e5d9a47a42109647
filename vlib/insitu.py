"""In-situ monitors: wraps functions of the package while a real calculation
runs and keeps a bounded, seeded sample of the call events (arguments as they
were at call time, result as it was at return)."""
import copy
import numpy as np
from vlib import gen


class Tap:
    """records calls of owner.name; a missing name is tolerated (events stay 0)"""

    def __init__(self, targets, g, keep=40):
        self.targets, self.g, self.keep = targets, g, keep
        self.events, self.total, self._undo = {}, {}, []

    def _wrap(self, label, owner, name):
        f = getattr(owner, name, None)
        if f is None or not callable(f):
            return
        ev, tot = self.events.setdefault(label, []), self.total
        tot.setdefault(label, 0)
        method = isinstance(owner, type)

        def w(*a, **k):
            tot[label] += 1
            n = tot[label]
            slot = None
            if len(ev) < self.keep:
                slot = len(ev)
                ev.append(None)
            else:
                j = int(self.g.integers(0, n))
                if j < self.keep:
                    slot = j
            if slot is None:
                return f(*a, **k)
            aa = a if not method else (dict(vars(a[0])),) + a[1:]
            aa = tuple(x.copy() if isinstance(x, np.ndarray) else x for x in aa)
            r = f(*a, **k)
            rr = copy.deepcopy(r) if isinstance(r, (list, tuple)) else (
                r.copy() if isinstance(r, np.ndarray) else r)
            ev[slot] = (aa, dict(k), rr)
            return r
        setattr(owner, name, w)
        self._undo.append((owner, name, f))

    def __enter__(self):
        for label, owner, name in self.targets:
            self._wrap(label, owner, name)
        return self

    def __exit__(self, *e):
        for owner, name, f in reversed(self._undo):
            setattr(owner, name, f)
        for k in self.events:
            self.events[k] = [e for e in self.events[k] if e is not None]
        return False


def workload(g, mon):
    """a realistic energy calculation; returns a thunk and its description"""
    import geometry, thermodynamics
    ext = g.random() < .7
    r1, r2, L = gen.exterior(g, gap=(-0.7, 0.7), ratio=.5) if ext else gen.interior(g)
    m3 = gen.medium(g)
    m1 = gen.material(g)
    m2 = gen.material(g)
    lmax = int(g.integers(2, 9))
    lss = int(g.integers(lmax, lmax + 4))
    sc = min(r1, r2)
    desc = dict(r1=r1, r2=r2, L=L, m1=m1, m2=m2, m3=m3, lmax=lmax, lssmax=lss)
    mode = ["free_energy", "matsubaras", "m", "auto"][g.integers(4)]
    dT = gen.sig(g.uniform(.05, 1) / sc)
    nmax = int(g.integers(1, 25))
    desc.update(mode=mode, dT=dT, nmax=nmax)
    kw = dict(lmax=lmax, lssmax=lss)
    if mode == "auto":
        kw = dict(precision=1e-2, l_offset=1)
        if r1 != r2 and max(r1, r2) / min(r1, r2) > 3:
            kw["lssmax"] = 8
            kw["lmax"] = 5
    ks = gen.wavenumbers(g, int(g.integers(1, 8)), sc)
    mm = int(g.integers(0, lmax + 1))
    desc.update(ks=ks, m=mm)
    mon.note(workload=desc)

    def go():
        G = geometry.SphereSphere(r1, r2, L, gen.obj(m1), gen.obj(m2), gen.obj(m3), **kw)
        if mode == "auto" and G.lmax > 40:          # would take minutes
            G = geometry.SphereSphere(r1, r2, L, gen.obj(m1), gen.obj(m2), gen.obj(m3), lmax=lmax, lssmax=lss)
        if mode == "m":
            return G.single_m(min(mm, G.lmax), ks)
        if mode == "auto" and G.lmax > 14:
            return G.single_m(1, ks)
        F = thermodynamics.finiteT(dT, nmax, 3 * dT, G)
        return F.get_f_matsubaras(0) if mode == "matsubaras" else F.free_energy()
    return go
