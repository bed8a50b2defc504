#!/usr/bin/env python3
"""M01 parse_flags: every flag gets exactly what the command line says."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *

K = 1 << 24
N = S("$argc")


class Flags(Monitor):
    """argv[i] is an arbitrary string: it is one of the names of the configuration or none of them,
    which is decided the first time its length or contents are looked at"""
    taint = True
    can_bound = True
    flags = ()      # (names, 'b' or 'v', required, default)

    def bind(self, I, s, f):
        s.poly.add_ge(N)
        s.poly.add_ge(Lin.c(2 ** 31 - 1) - N)
        s.rinfo["ARGV"] = RInfo(N * 8, "input", es=8)
        f.regs[f.fn.args[0]["id"]] = N
        f.regs[f.fn.args[1]["id"]] = Ptr("ARGV")
        g = s.ghost
        for k in range(len(self.flags)):
            g["f%d" % k] = ZERO          # arguments accounted for
            g["a%d" % k] = 1             # the next argument may be accounted for (it was looked at for its own sake)
            g["s%d" % k] = 0             # 0: not given, 1: given, 2: given without a value, 3: given with an empty value
            g["v%d" % k] = Lin.c(self.flags[k][3])
        g["out"] = ()
        g["turn"] = 0

    def bound(self, I, s, n):
        return I.assume_ge(s, Lin.c(n) - N)

    def mode(self, I, s):
        return tuple((s.ghost["s%d" % k], s.ghost["a%d" % k]) for k in range(len(self.flags))) + (s.ghost["out"], s.ghost["turn"])

    def names(self):
        return [n for f in self.flags for n in f[0]]

    def idx(self, s, p):
        """(index, offset) of a pointer into an argument"""
        o = s.poly.norm(p.o)
        if not float(o.k).is_integer():
            return None
        off = int(o.k) % K
        i = (o - off).divexact(K)
        return (i, off) if i is not None else None

    def init_cell(self, I, s, region, off, size, ty):
        o = s.poly.norm(off)
        if region == "ARGV" and size == 8:
            i = o.divexact(8)
            if i is not None:
                return ("nomemo", Ptr("arg", i * K))
        if region == "arg":
            q = self.idx(s, Ptr("arg", o))
            if q:
                w = I.get_fact(s, "id", (Ptr("argid", q[0]),))
                if w and size == 1 and q[1] <= len(w):
                    return ("nomemo", Lin.c((w + "\0").encode()[q[1]]))
            s.lossy_path = True
            return ("nomemo", I.fresh("ch", lo=0, hi=255))
        return None

    def on_access(self, I, s, ins, ptr, size, write):
        o = s.poly.norm(ptr.o)
        if ptr.r == "ARGV":
            I.need(s, not write or None, "argv-written", "argv is modified", ins)
            ok = s.poly.entails_ge(o) and s.poly.entails_ge(N * 8 - o - size)
            I.need(s, True if ok else None, "in-range", "argv is read at byte %s of %s" % (I.show(s, o), I.show(s, N * 8)), ins, (o,))
        if ptr.r == "arg":
            I.need(s, not write or None, "argv-written", "an argument is modified", ins)

    def identify(self, I, s, i):
        key = (Ptr("argid", s.poly.norm(i)),)
        w = I.get_fact(s, "id", key)
        if w is not None:
            return [(s, w)]
        out = []
        for n in self.names() + [""]:
            t = s.copy()
            I.set_fact(t, "id", key, n)
            out.append((t, n))
        return out

    def length(self, I, s, i):
        key = (Ptr("argid", s.poly.norm(i)),)
        v = I.get_fact(s, "len", key)
        if v is None:
            w = I.get_fact(s, "id", key)
            if w:
                v = Lin.c(len(w))
            else:
                v = I.fresh("len")
                s.poly.add_ge(v)
                s.poly.add_ge(Lin.c(K - 2) - v)
            I.set_fact(s, "len", key, v)
        return v

    def touch(self, I, s, i):
        for k in range(len(self.flags)):
            if s.poly.entails_eq(s.ghost["f%d" % k] - i):
                s.ghost["a%d" % k] = 1
        self.settle(I, s)

    def settle(self, I, s, last=False):
        g = s.ghost
        last = last or I.mode != "fix"
        for k, (names, kind, req, _) in enumerate(self.flags):
            if not last and k != g["turn"]:
                continue             # one flag after the other
            for _ in range(6):
                f = g["f%d" % k]
                w = I.get_fact(s, "id", (Ptr("argid", s.poly.norm(f)),))
                if w is None or not (last or g["a%d" % k]):
                    break
                if w in names:
                    if kind == "b":
                        g["s%d" % k] = 1
                    elif s.poly.entails_ge(f - N + 1):
                        g["s%d" % k] = 2
                    elif s.poly.entails_ge(N - f - 2):
                        l = I.get_fact(s, "len", (Ptr("argid", s.poly.norm(f + 1)),))
                        g["s%d" % k] = 3 if l is not None and s.poly.entails_eq(l) else 1
                        g["v%d" % k] = s.poly.norm(f + 1)
                        if l is None or not (s.poly.entails_eq(l) or s.poly.entails_ge(l - 1)):
                            break        # not decided yet
                        g["a%d" % k] = 0
                    else:
                        break
                g["f%d" % k] = s.poly.norm(f + 1)

    def head(self, I, s):
        self.settle(I, s)
        if I.mode == "fix" and self.flags:
            old = s.ghost["turn"]
            s.ghost["turn"] = next((j for j in range(len(self.flags)) if not s.poly.entails_ge(s.ghost["f%d" % j] - N)), 0)
            cur = s.ghost["f%d" % s.ghost["turn"]]
            for k in [k for k in s.facts if k[0] in ("id", "len") and (s.ghost["turn"] != old or s.poly.entails_ge(cur - k[1][0].o - 1))]:
                del s.facts[k]

    def lit(self, I, s, p):
        """the bytes of a literal"""
        if isinstance(p, Ptr) and isinstance(p.r, str) and p.r.startswith("g:"):
            g = I.m.globals.get(p.r[2:], {})
            o = s.poly.norm(p.o)
            if "str" in g and o.is_const():
                return bytes.fromhex(g["str"])[int(o.k):]
        return None

    def compare(self, I, s, ins, args, n):
        a, b = args[:2]
        sign = 1
        if isinstance(b, Ptr) and b.r == "arg":
            a, b, sign = b, a, -1
        x = self.lit(I, s, b)
        if not (isinstance(a, Ptr) and a.r == "arg") or x is None or (n is not None and not n.is_const()):
            s.lossy_path = True
            return [(s, I.fresh("cmp", lossy=True))]
        q = self.idx(s, a)
        x = x.split(b"\0")[0].decode("latin-1")
        z = int(n.k) if n is not None else None
        out = []
        for t, w in self.identify(I, s, q[0]):
            self.touch(I, t, q[0])
            if w:
                u = w[q[1]:]
                eq = (u == x) if z is None else ((u + "\0")[:z] == (x + "\0")[:z])
                out.append((t, ZERO if eq else ONE))
                continue
            if q[1] == 0 and (z is None or z > len(x)):
                # equality with a name is excluded; other literals are unknown
                eq = None if x not in self.names() else False
            else:
                l = self.length(I, t, q[0])
                if q[1] == 0 and z == len(x) and x in self.names() and t.poly.entails_eq(l - z):
                    eq = False
                elif q[1] == 0 and x in self.names() and t.poly.entails_ge(Lin.c(z) - 1 - l):
                    eq = False
                else:
                    eq = None
            if eq is False:
                out.append((t, ONE))
                continue
            for u, r in I.split_fact(t, "eq%s/%s" % (x, z), (Ptr("argid", q[0]), Lin.c(q[1]))):
                out.append((u, ZERO if r else ONE))
        return out

    def call(self, I, s, ins, name, dem, args):
        g = s.ghost
        if name in ("memcmp", "bcmp", "strncmp"):
            return self.compare(I, s, ins, args, s.poly.norm(args[2]))
        if name == "strcmp":
            return self.compare(I, s, ins, args, None)
        if name == "strlen":
            p = args[0]
            x = self.lit(I, s, p)
            if x is not None:
                return [(s, Lin.c(len(x.split(b"\0")[0])))]
            if isinstance(p, Ptr) and p.r == "arg":
                q = self.idx(s, p)
                out = []
                for t, w in self.identify(I, s, q[0]):
                    l = self.length(I, t, q[0])
                    self.touch(I, t, q[0])
                    out.append((t, l - q[1]))
                return out
            I.need(s, None, "null", "strlen of %s" % I.show(s, p), ins, (p,))
            return []
        if name == "parse":
            p = args[0]
            q = self.idx(s, p) if isinstance(p, Ptr) and p.r == "arg" else None
            I.need(s, (q is not None and q[1] == 0) or None, "value", "%s is parsed, not an argument" % I.show(s, p), ins, (p,))
            if q is None:
                return [(s, UNDEF)]
            l = self.length(I, s, q[0])
            I.need_eq(s, args[1], l, "value", "only a part of the argument is parsed", ins)
            out = []
            for t, z in I.split_eq(s, l):
                self.settle(I, t)
                out.append((t, q[0]))
            return out
        if name in ("bflag", "vflag"):
            k = int(s.poly.norm(args[0]).k)
            self.settle(I, s, last=True)
            _, kind, req, dflt = self.flags[k]
            st = g["s%d" % k]
            done = s.poly.entails_eq(g["f%d" % k] - N)
            if not (kind == "b" and st == 1):
                I.need(s, done or None, "complete", "argument %s of %s is not compared with the names of flag %d" % (I.show(s, g["f%d" % k]), I.show(s, N), k), ins)
            if kind == "b":
                I.need_eq(s, args[1], Lin.c(1 if st else dflt), "value", "switch %d is %s given" % (k, "set without being" if not st else "not set although it is"), ins)
            elif st in (0, 1):
                I.need_eq(s, args[1], g["v%d" % k], "value", "flag %d gets argument %s instead of %s (the one after its last occurrence; negative: default)" % (k, I.show(s, args[1]), I.show(s, g["v%d" % k])), ins)
            g["out"] += (k,)
            return [(s, None)]
        if name.startswith("_ZNSt13runtime_errorC") or name.startswith("_ZNSt13runtime_errorD") or "basic_string" in dem:
            return [(s, None if ins["ty"] == "void" else UNDEF)]
        return None

    def exit(self, I, s, kind, val):
        g = s.ghost
        self.settle(I, s, last=True)
        if kind == "return":
            I.need(s, g["out"] == tuple(range(len(self.flags))) or None, "complete", "results are missing")
            for k, f in enumerate(self.flags):
                I.need(s, not f[2] or g["s%d" % k] in (1, 3) or None, "required", "returns although required flag %d is not given" % k)
            return
        miss = [k for k, f in enumerate(self.flags) if f[2] and g["s%d" % k] in (0, 2, 3)]
        ok = any(s.poly.entails_eq(g["f%d" % k] - N) for k in miss)
        I.need(s, ok or None, "required", "throws although no required flag is missing")


def mk(flags):
    def make():
        m = Flags()
        m.flags = flags
        return m
    return make


a, al, be, ab = "-a", "--alpha", "--beta", "--alphabet"
ENTRIES = {
    "f_none": (),
    "f_ob": (((a, al), "b", False, 0),),
    "f_ov": (((a, al), "v", False, -1),),
    "f_sl": (((a,), "b", False, 0), ((be,), "v", False, -1)),
    "f_ls": (((a,), "v", False, -1), ((be,), "b", False, 0)),
    "f_rq": (((al,), "v", True, -1),),
    "f_rs": (((a,), "v", True, -1),),
    "f_rb": (((a, al), "b", True, 0),),
    "f_mx": (((a, al), "v", False, -1), ((ab,), "v", True, -1)),
    "f_df": (((al,), "v", False, -7), ((be,), "b", False, 1)),
}


def run():
    c = Check("M01", "command-line automaton: an argument is looked at per flag in order; the flag holds what its last occurrence says; throws exactly when a required flag has none")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 60
    m = c.module("flags.cc", keep="keep_text.txt", extra=("-I" + VERIF + "/stubs/cista",))
    c.par([lambda e=e, f=f: c.analyse(m, e, mk(f), budget=150) for e, f in ENTRIES.items() if not only or e in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
