#!/usr/bin/env python3
"""refac.py SPEC.py [ids]   (dev tool) behaviour-preserving rewrites: the checks must stay quiet.
SPEC defines REFS = [dict(id, checks='a01 a02', file, edits=[(old, new)...])]"""
import importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(r):
    d = tempfile.mkdtemp(prefix="ref-")
    try:
        for x in ("include", "src"):
            shutil.copytree("/repo/" + x, d + "/" + x)
        p = os.path.join(d, r["file"])
        t = open(p).read()
        for o, n in r["edits"]:
            if o not in t:
                return [(r["id"], "-", "NOT-FOUND " + o[:50], "")]
            t = t.replace(o, n, 1)
        open(p, "w").write(t)
        out = []
        for c in r["checks"].split():
            env = dict(os.environ, UTL_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_REPLAY=d + "/rp")
            q = subprocess.run([sys.executable, VERIF + "/checks/" + c + ".py"], env=env, capture_output=True, text=True)
            o = q.stdout + q.stderr
            st = {0: "quiet", 1: "ALARM", 3: "BROKEN"}.get(q.returncode, str(q.returncode))
            if st == "quiet" and "UNPROVED" in o:
                st = "unproved"
            l = [x for x in o.splitlines() if x.startswith("  rule=") or x.startswith("  unproved") or "error:" in x]
            out.append((r["id"], c, st, "" if st == "quiet" else (l[0].strip() if l else o.strip()[-150:])))
        return out
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    sp = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    rs = [r for r in m.REFS if len(sys.argv) < 3 or any(a in r["id"] for a in sys.argv[2:])]
    with ThreadPoolExecutor(int(os.environ.get("J", "5"))) as ex:
        for o in ex.map(one, rs):
            for i, c, st, msg in o:
                print("%-9s %-28s %-4s %s" % (st, i, c, msg[:170]))
