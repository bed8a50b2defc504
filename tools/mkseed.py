#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants and confirms bugs (dev tool).
SPEC defines SEEDS = [dict(id, prop, file, edits=[(old,new)...] | files={file:[(old,new)]}, needs, breaks, demo=C++ text, flags='', aux={name: text})]
Confirms in /repo: demo passes clean; patched tree builds, passes the stable tests, demo fails; runs the property's check."""
import importlib.util, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++23 -O1 -g %s -Iinclude -I"$d" -DFMT_HEADER_ONLY=1 "$d/demo.cc" %s -o "$t/demo" -pthread > "$t/log" 2>&1 || { cat "$t/log"; exit 3; }
cd "$t" && timeout 100 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def clean():
    sh(["git", "-C", "/repo", "checkout", "--", "."])



def main():
    sp = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    only = sys.argv[2:]
    for s in m.SEEDS:
        if only and s["id"] not in only:
            continue
        assert not sh(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(), "dirty repo"
        d = V + "/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(s["sh"] if "sh" in s else DEMO % (s.get("flags", ""), s.get("srcs", "")))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cc", "w").write(s["demo"].lstrip())
        for n, t in s.get("aux", {}).items():
            os.makedirs(os.path.dirname(d + "/" + n) or d, exist_ok=True)
            open(d + "/" + n, "w").write(t)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r0 = sh(["bash", d + "/demo.sh"], cwd="/repo")
        try:
            bad = None
            for f, ed in (s.get("files") or {s["file"]: s["edits"]}).items():
                t = open("/repo/" + f, newline="").read()
                crlf = "\r\n" in t
                t = t.replace("\r\n", "\n")
                for o, n in ed:
                    if o not in t:
                        bad = "text not found: " + o[:60]
                        break
                    t = t.replace(o, n, 1)
                open("/repo/" + f, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
            open(d + "/patch.diff", "wb").write(__import__("subprocess").run(["git", "-C", "/repo", "diff"], capture_output=True).stdout)
            rt = sh(["bash", "/opt/vp/test.sh", "/tmp/seedout.json"])
            o = json.load(open("/tmp/seedout.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            need = set(base["stable"])
            miss = need - set(o["passed"])
            r1 = sh(["bash", d + "/demo.sh"], cwd="/repo")
            chk = V + "/checks/%s.py" % s["prop"].lower()
            cr = "-"
            if os.path.exists(chk):
                c = sh([sys.executable, chk], env=dict(os.environ, VERIF_EVIDENCE="/tmp/sev", VERIF_REPLAY="/tmp/srp"))
                cr = {0: "MISSED", 1: "CAUGHT"}.get(c.returncode, "BROKEN") + " " + next((l.strip() for l in c.stdout.splitlines() if "rule=" in l), c.stdout.strip()[-200:])
            ok = r0.returncode == 0 and r1.returncode not in ((0,) if "sh" in s else (0, 3)) and not miss and need and not bad
            print("%-28s %s clean=%d patched=%d tests_missing=%s check=%s %s" % (s["id"], "OK " if ok else "BAD", r0.returncode, r1.returncode, sorted(miss)[:3], cr, bad or ""))
            if not ok:
                print("   ", r0.stdout[-500:], r1.stdout[-800:], rt.stderr[-600:] if miss else "")
        finally:
            clean()
    sh(["bash", "/opt/vp/build.sh"])


main()
