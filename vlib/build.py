"""Builds the two Cython modules from /repo's working tree into a scratch
directory (never into /repo).  variant: 'plain' or 'asan'."""
import os, re, shutil, subprocess, sys, sysconfig, tempfile, glob

SRC = os.environ.get("VERIF_SRC", "/repo/CasimirRio")


def build(variant="plain", checked=False):
    import numpy
    out = tempfile.mkdtemp(prefix="verif-ext-")
    mods = sorted(os.path.basename(p)[:-4] for p in glob.glob(SRC + "/*.pyx"))
    for p in glob.glob(SRC + "/*.px[di]") + glob.glob(SRC + "/*.pyx"):
        shutil.copy(p, out)
    if checked:
        # instrumentation: turn the compiled-out bounds checks back on
        for m in mods:
            p = os.path.join(out, m + ".pyx")
            s = open(p).read()
            s = re.sub(r"boundscheck\s*\(\s*False\s*\)", "boundscheck(True)", s)
            s = re.sub(r"(#\s*cython\s*:.*boundscheck\s*=\s*)False", r"\1True", s)
            open(p, "w").write(s)
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    py_inc = sysconfig.get_paths()["include"]
    flags = {"plain": ["-O2", "-fwrapv"],
             "asan": ["-O1", "-g", "-fno-omit-frame-pointer",
                      "-fsanitize=address,undefined",
                      "-fno-sanitize-recover=undefined"]}[variant]

    def script(m):
        return (f"cd {out} && {sys.executable} -m cython {m}.pyx -o {m}.c && "
                f"gcc -shared -fPIC -w {' '.join(flags)} -I{py_inc} "
                f"-I{numpy.get_include()} -I{SRC} {m}.c -o {m}{ext} -lm")
    procs = [(m, subprocess.Popen(["bash", "-c", script(m)], stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True)) for m in mods]
    bad = ""
    for m, p in procs:
        txt = p.communicate()[0]
        if p.returncode:
            bad += f"building {m}: {txt[-1500:]}\n"
    if bad:
        shutil.rmtree(out, ignore_errors=True)
        raise RuntimeError(bad)
    return out
