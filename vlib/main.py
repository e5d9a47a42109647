import importlib, os, shutil, sys, time, traceback


def main():
    t0 = time.time()
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from . import build, harness
    root = harness.ROOT
    sys.path.insert(0, root)
    ext = None
    if prop == "--selftest":
        try:
            shutil.rmtree(build.build(), ignore_errors=True)
        except RuntimeError as e:
            print(e)
            return 2
        print("toolchain ok")
        return 0
    try:
        mod = importlib.import_module("checks." + prop.lower())
        if hasattr(mod, "main"):
            return mod.main(prop, tier, seed, replay, t0)
        try:
            ext = build.build()
        except RuntimeError as e:
            print("INCONCLUSIVE property=%s build failed\n%s" % (prop, e))
            return 2
        os.environ["VERIF_EXT"] = ext
        return harness.decide(mod, prop, tier, seed, [ext, build.SRC, root], replay, t_start=t0)
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s harness error" % prop)
        return 2
    finally:
        if ext:
            shutil.rmtree(ext, ignore_errors=True)


rc = main()
sys.stdout.flush()
os._exit(rc)
