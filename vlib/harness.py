"""Execution harness: runs the cases of a check in worker processes against the
real code of /repo, collects what the monitors observed and decides.

Verdicts: violated (exit 1), held on what was observed (exit 0), inconclusive
(exit 2: too few observations, build failure, harness error)."""
import hashlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback
from multiprocessing.connection import wait

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _js(o):
    import numpy as np
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return repr(o)


def dumps(o, **k):
    return json.dumps(o, default=_js, **k)


def _short(x, n=400):
    s = x if isinstance(x, str) else dumps(x)
    return s if len(s) <= n else s[:n] + "..."


class Mon:
    """Collects the observations of the monitors during one case."""

    def __init__(self):
        self.counts, self.ratio, self.viol, self.notes, self.nontriv = {}, {}, [], [], False
        self.seen = set()

    def note(self, **kw):
        """the input of this case, written out"""
        self.notes.append(json.loads(dumps(kw)))

    def event(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def reach(self, tag):
        """distinct situation reached (branch, regime, mode)"""
        self.seen.add(str(tag))

    def fail(self, name, msg, key=None, **info):
        self.event(name)
        self.viol.append(dict(monitor=name, msg=msg, key=key, info=json.loads(dumps(info))))

    def true(self, name, cond, msg="", key=None, **info):
        if cond:
            self.event(name)
            self.nontriv = True
            return True
        self.fail(name, msg or "condition violated", key, **info)
        return False

    def close(self, name, got, want, rtol=0.0, atol=0.0, key=None, **info):
        """elementwise |got-want| <= atol + rtol*|want|, same shape, finite"""
        import numpy as np
        want = np.asarray(want, dtype=float)
        atol = np.asarray(atol, dtype=float)
        try:
            g = np.asarray(got)
            if g.dtype == object or np.iscomplexobj(g):
                raise TypeError("dtype %s" % g.dtype)
            g = g.astype(float)
        except Exception as e:
            self.fail(name, "not a real array: %r" % (e,), key, **info)
            return False
        if g.shape != want.shape:
            self.fail(name, "shape %s instead of %s" % (g.shape, want.shape), key, **info)
            return False
        if want.size == 0:
            self.event(name, 0)
            return True
        tol = atol + rtol * np.abs(want)
        with np.errstate(all="ignore"):
            err = np.abs(g - want)
            same = (g == want) | (np.isnan(g) & np.isnan(want))
            bad = ~(same | (err <= tol))
            q = np.where(same, 0.0, err / np.where(tol > 0, tol, 1e-300))
        self.event(name, want.size)
        if np.any(want != 0):
            self.nontriv = True
        if bad.any():
            qq = np.where(np.isnan(q), np.inf, q)
            idx = np.unravel_index(np.argmax(np.where(bad, qq, -1)), want.shape)
            self.viol.append(dict(monitor=name, key=key,
                msg="%d of %d values off; at %s got %r, expected %r (allowed %.3g)" % (
                    bad.sum(), want.size, tuple(int(i) for i in idx), float(g[idx]),
                    float(want[idx]), float(np.broadcast_to(tol, want.shape)[idx])),
                info=json.loads(dumps(info))))
            return False
        self.ratio[name] = max(self.ratio.get(name, 0.0), float(np.max(q)))
        return True


def _worker(conn, modname, paths):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.path[:0] = paths
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    try:
        import importlib
        mod = importlib.import_module(modname)
        if hasattr(mod, "init"):
            mod.init()
    except BaseException:
        conn.send(dict(fatal=traceback.format_exc()))
        return
    conn.send(dict(ready=True))
    while True:
        try:
            case = conn.recv()
        except EOFError:
            return
        if case is None:
            return
        mon = Mon()
        t = time.process_time()
        try:
            mod.run(case, mon)
        except Exception as e:
            mon.viol.append(dict(monitor="no exception", key=None,
                                 msg="%s: %s" % (type(e).__name__, e),
                                 info=dict(trace=traceback.format_exc()[-1800:])))
        conn.send(dict(counts=mon.counts, ratio=mon.ratio, viol=mon.viol, notes=mon.notes,
                       nontriv=mon.nontriv, seen=sorted(mon.seen), cpu=time.process_time() - t))


def _cpu(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except Exception:
        return 0.0


class Pool:
    def __init__(self, modname, paths, n, cpu_limit):
        self.ctx = mp.get_context("fork")
        self.modname, self.paths, self.n, self.cpu_limit = modname, paths, n, cpu_limit
        self.w = {}

    def _spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=_worker, args=(b, self.modname, self.paths), daemon=True)
        p.start()
        b.close()
        self.w[a] = dict(p=p, case=None, ready=False, t0=0.0)

    def run(self, cases, on_result, stop, deadline):
        """stop(): no further cases wanted.  Returns number of cases not run."""
        todo = list(reversed(cases))
        for _ in range(min(self.n, max(1, len(cases)))):
            self._spawn()
        while True:
            over = stop() or time.time() > deadline
            if not todo or over:
                if not any(s["case"] is not None for s in self.w.values()):
                    break
                if stop():
                    break
            for c, s in list(self.w.items()):
                if s["ready"] and s["case"] is None and todo and not over:
                    s["case"] = todo.pop()
                    s["t0"] = _cpu(s["p"].pid)
                    c.send(s["case"])
            if not self.w:
                break
            for c in wait(list(self.w), timeout=0.5):
                s = self.w[c]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    s["p"].join(5)
                    code = s["p"].exitcode
                    del self.w[c]
                    if s["case"] is not None:
                        on_result(s["case"], dict(counts={}, ratio={}, notes=[], nontriv=False,
                                  seen=[], cpu=0, viol=[dict(monitor="process survives", key=None,
                                  msg="the process died (exit code %s)" % code, info={})]))
                    else:
                        raise RuntimeError("worker died before its first case, exit code %s" % code)
                    if todo and not stop():
                        self._spawn()
                    continue
                if r.get("fatal"):
                    raise RuntimeError("worker could not start:\n" + r["fatal"])
                if r.get("ready"):
                    s["ready"] = True
                    continue
                case, s["case"] = s["case"], None
                on_result(case, r)
            for c, s in list(self.w.items()):
                if s["case"] is not None and _cpu(s["p"].pid) - s["t0"] > self.cpu_limit:
                    s["p"].kill()
                    s["p"].join(5)
                    case = s["case"]
                    del self.w[c]
                    on_result(case, dict(counts={}, ratio={}, notes=[], nontriv=False, seen=[],
                              cpu=self.cpu_limit, viol=[dict(monitor="terminates", key=None,
                              msg="no result after %d s of CPU time" % self.cpu_limit, info={})]))
                    if todo and not stop():
                        self._spawn()
        for c, s in self.w.items():
            s["p"].kill()
        for c, s in self.w.items():
            s["p"].join(2)
        return len(todo)


def known_findings(prop):
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known:"):
                d = dict(t.split("=", 1) for t in line.split()[1:3])
                if d.get("property") == prop:
                    out[d["key"]] = line.split(None, 3)[3].strip()
    return out


def decide(mod, prop, tier, seed, paths, replay=None, level="exploration", extra=None, t_start=None):
    t_start = t_start or time.time()
    known = known_findings(prop)
    rng = random.Random("%s-%s-%s" % (seed, prop, "quick" if tier == "quick" else "thorough"))
    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = mod.cases(rng, tier)
        if tier == "quick":              # several rounds of the same mixture, each with inputs of its own
            for _ in range(getattr(mod, "ROUNDS", 4) - 1):
                cases += mod.cases(rng, tier)
    agg = dict(counts={}, ratio={}, seen={}, kinds={}, samples=[], sigs=set(), evals=0, cpu=0.0,
               maxcpu=0.0)
    viol, kf = [], {}

    def on_result(case, r):
        agg["evals"] += 1
        agg["cpu"] += r["cpu"]
        agg["maxcpu"] = max(agg["maxcpu"], r["cpu"])
        k = case.get("kind", "case")
        agg["kinds"][k] = agg["kinds"].get(k, 0) + 1
        for n, v in r["counts"].items():
            agg["counts"][n] = agg["counts"].get(n, 0) + v
        for n, v in r["ratio"].items():
            agg["ratio"][n] = max(agg["ratio"].get(n, 0.0), v)
        for t in r["seen"]:
            agg["seen"][t] = agg["seen"].get(t, 0) + 1
        if r["nontriv"] and r["notes"]:
            sig = hashlib.sha1(dumps([k, r["notes"]], sort_keys=True).encode()).hexdigest()
            if sig not in agg["sigs"] and len(agg["samples"]) < 40:
                agg["samples"].append(dict(kind=k, input=_short(r["notes"], 600),
                                           observed=r["counts"]))
            agg["sigs"].add(sig)
        for v in r["viol"]:
            if v.get("key") in known:
                kf[v["key"]] = kf.get(v["key"], 0) + 1
            else:
                viol.append((case, r["notes"], v))

    limit = getattr(mod, "CPU_LIMIT", 120)
    wall = 720 if tier == "quick" else 6000
    n = int(os.environ.get("VERIF_PROCS", "0")) or max(1, min(8, os.cpu_count() or 1))
    pool = Pool(mod.__name__, paths, n, limit)
    left = pool.run(cases, on_result, lambda: len(viol) >= int(os.environ.get("VERIF_MAXVIOL", "12")), t_start + wall)
    for f in (extra or []):
        f(agg, viol)
    # ------------------------------------------------------------ verdict
    for key, text in known.items():
        if kf.get(key):
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (prop, text, kf[key]))
    rc, why = 0, ""
    if viol:
        rc = 1
    elif not replay:
        for name, least in getattr(mod, "REQUIRED", {}).items():
            if agg["counts"].get(name, 0) < least:
                rc, why = 2, "monitor %r made %d observations, needs %d" % (
                    name, agg["counts"].get(name, 0), least)
    if not replay:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        rot = agg["samples"]
        by = {}
        for s in rot:
            by.setdefault(s["kind"], s)
        ev = dict(property=prop, tier=tier, seed=int(seed), level=level,
                  coverage=dict(evaluations=agg["evals"], distinct_nontrivial=len(agg["sigs"]),
                                rule=mod.RULE, samples=list(by.values())[:8],
                                cases_by_kind=agg["kinds"], not_run=left,
                                observations_by_monitor=agg["counts"],
                                largest_error_over_tolerance={k: float("%.3g" % v) for k, v in
                                                              agg["ratio"].items()},
                                situations_reached=agg["seen"],
                                known_findings_seen=kf, cpu_s=round(agg["cpu"], 2),
                                slowest_case_cpu_s=round(agg["maxcpu"], 2)),
                  assumptions=getattr(mod, "ASSUMPTIONS", []),
                  wall_s=round(time.time() - t_start, 2), violations=len(viol))
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%s: %d cases (%d distinct non-trivial), %d observations by %d monitors, "
          "%.1f s" % (prop, tier, seed, agg["evals"], len(agg["sigs"]),
                      sum(agg["counts"].values()), len(agg["counts"]), time.time() - t_start))
    if rc == 1:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        shown = set()
        for case, notes, v in viol:
            if v["monitor"] in shown:
                continue
            shown.add(v["monitor"])
            h = hashlib.sha1(dumps([case, v["monitor"]]).encode()).hexdigest()[:10]
            path = os.path.join(ROOT, "replays", "%s-%s.json" % (prop, h))
            json.dump(dict(property=prop, case=case, input=notes, violation=v),
                      open(path, "w"), indent=1, default=_js)
            print("  monitor %r: %s" % (v["monitor"], _short(v["msg"])))
            print("    case %s input %s" % (dumps(case), _short(notes, 700)))
            if v["info"]:
                print("    " + _short(v["info"], 1500))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    elif rc == 2:
        print("INCONCLUSIVE property=%s %s" % (prop, why))
    return rc
