"""Compiles harness translation units against /repo's current headers and
prepares the normalised IR.  Everything is rebuilt from source on every run."""
import hashlib
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("UTL_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
CLANG = LLVM + "/bin/clang++"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
FLAGS = ["-std=c++23", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-discard-value-names",
         "-emit-llvm", "-fno-strict-aliasing", "-DFMT_HEADER_ONLY=1", "-D_SCL_SECURE_NO_WARNINGS=1",
         "-Wno-everything", "-fexceptions", "-pthread"]


class BuildError(Exception):
    pass


def tool():
    src = os.path.join(HERE, "irprep.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "irprep-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
                            LLVM + "/lib/libLLVM-18.so"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("irprep: " + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


def includes():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "stubs"), "-I" + os.path.join(VERIF, "harness")]


def compile_bc(src, out, extra=()):
    """-> names of harness functions left out because they do not compile"""
    cmd = [CLANG] + FLAGS + includes() + list(extra) + ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"]
    r = subprocess.run(cmd + ["-c", src, "-o", out], capture_output=True, text=True)
    if not r.returncode:
        return []
    first = r.stderr
    text = open(src).read()
    dropped = []
    for _ in range(3):
        bad = culprits(src, text, r.stderr)
        if not bad:
            break
        for name, a, b in bad:
            dropped.append(name)
            text = text[:a] + re.sub(r"[^\n]", " ", text[a:b]) + text[b:]
        p = out + ".red.cc"
        open(p, "w").write('#line 1 "%s"\n' % src + text)
        r = subprocess.run(cmd + ["-I" + os.path.dirname(src), "-c", p, "-o", out], capture_output=True, text=True)
        if not r.returncode:
            return dropped
    raise BuildError("compile %s:\n%s" % (src, first[-6000:]))


def functions(text):
    """(name, start, end) of the functions at the outer level of extern "C" blocks"""
    out = []
    for m in re.finditer(r'extern "C" \{', text):
        i = m.end()
        start = i
        depth = 0
        while i < len(text):
            c = text[i]
            if c == "{":
                depth += 1
            elif c == "}":
                if depth == 0:
                    break
                depth -= 1
                if depth == 0:
                    d = re.search(r"(\w+)\s*\(", text[start:i])
                    if d:
                        out.append((d.group(1), start, i + 1))
                    start = i + 1
            elif c == ";" and depth == 0:
                start = i + 1
            i += 1
    return out


def culprits(src, text, err):
    """functions in which an error is reported or whose instantiations fail; none if an error lies elsewhere"""
    fns = functions(text)
    bad = {}
    group = []
    groups = []
    for l in err.splitlines():
        m = re.match(r"(.*?):(\d+):\d+: (fatal error|error|note):", l)
        if not m:
            continue
        if m.group(3) != "note":
            group = []
            groups.append(group)
        if os.path.abspath(m.group(1)) == os.path.abspath(src):
            group.append(int(m.group(2)))
    starts = [0]
    for m in re.finditer("\n", text):
        starts.append(m.end())
    for g in groups:
        hit = None
        for n in g:
            o = starts[n - 1] if n <= len(starts) else len(text)
            e = starts[n] if n < len(starts) else len(text)
            hit = next((f for f in fns if f[1] < e and o < f[2] and text[f[1]:f[2]].strip() and text[max(f[1], o):min(f[2], e)].strip()), hit)
        if hit is None and bad:
            continue          # same instantiation as the error before
        if hit is None:
            return []
        bad[hit[0]] = hit
    return list(bad.values())


def module(src, keep="keep.txt", extra=(), dump_ll=False):
    """-> ir.Module for one harness"""
    import ir
    exe = tool()
    d = tempfile.mkdtemp(prefix="utlv-")
    try:
        base = os.path.join(d, "m")
        dropped = compile_bc(src, base + ".bc", extra)
        args = [exe, base + ".bc", base + ".json", os.path.join(HERE, keep)]
        if dump_ll:
            args.append(dump_ll)
        r = subprocess.run(args, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("irprep %s: %s" % (src, r.stderr[-3000:]))
        m = ir.Module(base + ".json")
        m.dropped = dropped
        return m
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def syntax(src_text, extra=(), std="c++23", compiler=None):
    """(ok, stderr) of a syntax-only compile of a small program"""
    d = tempfile.mkdtemp(prefix="utlv-")
    try:
        p = os.path.join(d, "t.cc")
        open(p, "w").write(src_text)
        cmd = [compiler or CLANG, "-std=" + std, "-fsyntax-only", "-Wno-everything", "-DFMT_HEADER_ONLY=1"] + includes() + list(extra) + [p]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return r.returncode == 0, r.stderr
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    print("built", tool())
