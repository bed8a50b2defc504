#!/usr/bin/env python3
"""mut.py CHECK FILE  < mutants   (dev tool: each mutant is 'old ==> new', optionally '#n' picks the n-th occurrence)
Runs the check against a scratch copy with the mutation applied."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def one(args):
    chk, file, spec = args
    n = 1
    if spec.startswith("#"):
        h, spec = spec.split(" ", 1)
        n = int(h[1:])
    old, new = spec.split(" ==> ") if " ==> " in spec else (spec.replace(" ==>", ""), "")
    old, new = [x.replace("\\\\", "\0").replace("\\n", "\n").replace("\0", "\\") for x in (old, new)]
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(os.environ.get("BASE", "/repo") + "/include", d + "/include")
        shutil.copytree(os.environ.get("BASE", "/repo") + "/src", d + "/src")
        p = os.path.join(d, file)
        t = open(p).read()
        parts = t.split(old)
        if len(parts) <= n:
            return spec, "NOT-FOUND", ""
        t = old.join(parts[:n]) + new + old.join(parts[n:])
        open(p, "w").write(t)
        env = dict(os.environ, UTL_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_REPLAY=d + "/rp")
        r = subprocess.run([sys.executable, os.path.join(VERIF, "checks", chk + ".py")], env=env, capture_output=True, text=True)
        o = r.stdout + r.stderr
        rule = [l for l in o.splitlines() if l.startswith("  rule=")]
        st = {0: "quiet", 1: "CAUGHT", 3: "BROKEN"}.get(r.returncode, str(r.returncode))
        if st == "quiet" and "UNPROVED" in o:
            st = "unproved"
        return spec, st, (rule[0].strip() if rule else o.strip().splitlines()[-1] if o.strip() else "")
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    specs = [l.rstrip("\n") for l in sys.stdin if l.strip()]
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for s, st, m in ex.map(one, [(sys.argv[1], sys.argv[2], s) for s in specs]):
            print("%-9s %s    [%s]" % (st, s, m[:150]))
