"""retest.py OUT.jsonl INDEX CHECK...: applies the diff of a recorded survivor to a scratch copy and runs the checks"""
import json, os, shutil, subprocess, sys, tempfile
R = [json.loads(l) for l in open(sys.argv[1])]
r = R[int(sys.argv[2])]
d = tempfile.mkdtemp(prefix="rt-", dir="/tmp")
try:
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    p = subprocess.run(["patch", "-p0", d + "/repo/CasimirRio/" + r["file"]], input=r["diff"], text=True, capture_output=True)
    assert p.returncode == 0, p.stdout + p.stderr
    subprocess.run("mkdir %s/v; cp -a /verif/run.sh /verif/vlib /verif/checks /verif/KNOWN_FINDINGS.txt %s/v" % (d, d), shell=True)
    print(r["file"], r["line"], r["what"], "|", r["src"])
    for c in sys.argv[3:]:
        e = dict(os.environ, VERIF_SRC=d + "/repo/CasimirRio", VERIF_PROCS="4", VERIF_MAXVIOL="1")
        q = subprocess.run([d + "/v/run.sh", c], cwd=d + "/v", env=e, capture_output=True, text=True)
        print("  ", c, q.returncode, [x.strip()[:160] for x in q.stdout.splitlines() if "monitor '" in x][:1])
finally:
    shutil.rmtree(d, ignore_errors=True)
