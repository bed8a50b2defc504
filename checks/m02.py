#!/usr/bin/env python3
"""M02 init_from: each member of the result comes from the first matching member of the source."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *

NULL = ZERO


class Init(Monitor):
    """the source object is region SRC; its pointer members point to X<offset> or are null"""
    nulls = {}      # offset of a pointer member -> is it null
    want = ()       # expected: per member of the result a pointer, NULL, or None for 'no result'

    def bind(self, I, s, f):
        f.regs[f.fn.args[0]["id"]] = Ptr("SRC")
        s.ghost["seen"] = ()
        s.ghost["out"] = None

    def init_cell(self, I, s, region, off, size, ty):
        o = s.poly.norm(off)
        if region == "SRC" and o.is_const() and size == 8:
            k = int(o.k)
            if k in self.nulls:
                return NULL if self.nulls[k] else Ptr("X%d" % k)
            return Tok(("field", k))
        return None

    def on_access(self, I, s, ins, ptr, size, write):
        if ptr.r == "SRC" or (isinstance(ptr.r, str) and ptr.r.startswith("X")):
            I.need(s, not write or None, "source-written", "the source is modified", ins)

    def call(self, I, s, ins, name, dem, args):
        if name == "some":
            I.need(s, self.want is not None or None, "presence", "a result is built although a pointer a reference member needs is null", ins)
            s.ghost["out"] = 1
            return [(s, None)]
        if name == "none":
            I.need(s, self.want is None or None, "presence", "no result although every reference member has a source", ins)
            s.ghost["out"] = 0
            return [(s, None)]
        if name == "star":
            I.need(s, not (isinstance(args[0], Lin) and s.poly.entails_eq(args[0])) or None, "null", "a null pointer is dereferenced", ins)
            return [(s, None)]
        if name == "at":
            k = int(s.poly.norm(args[0]).k)
            w = self.want[k] if self.want is not None and k < len(self.want) else None
            v = args[1]
            if isinstance(w, Ptr):
                ok = isinstance(v, Ptr) and v.r == w.r and s.poly.entails_eq(v.o - w.o)
            else:
                ok = isinstance(v, Lin) and s.poly.entails_eq(v)
            I.need(s, ok or None, "member", "member %d of the result is %s, expected %s" % (k, I.show(s, v), I.show(s, w) if w is not None else "?"), ins, (v,))
            s.ghost["seen"] += (k,)
            return [(s, None)]
        return None

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "throws")
        n = len(self.want) if self.want is not None else 0
        I.need(s, s.ghost["out"] is not None and s.ghost["seen"] == tuple(range(n)) or None, "complete", "only members %s of the result are set" % (s.ghost["seen"],))


def mk(nulls, want):
    def make():
        m = Init()
        m.nulls, m.want = nulls, want
        return m
    return make


def F(o):
    return Ptr("SRC", o)


def X(o, n):
    return NULL if n[o] else Ptr("X%d" % o)


def D(o, n):
    """reference to what the pointer member points to; None if there is nothing"""
    return None if n[o] else Ptr("X%d" % o)


# entry -> (pointer members of the source, expected result as a function of which are null)
SHAPES = {
    "k_refs": ((8, 16), lambda n: (F(0), D(8, n), D(16, n))),
    "k_rrefs": ((8, 16), lambda n: (D(16, n), D(8, n), F(0))),
    "k_ptrs": ((8, 16), lambda n: (X(8, n), X(16, n))),
    "k_both": ((8, 16), lambda n: (X(16, n), D(16, n), D(8, n), X(8, n))),
    "k_same": ((8, 16), lambda n: (F(0), F(0))),
    "k_nothing": ((8, 16), lambda n: ()),
    "k_fref": ((0, 16, 24), lambda n: (F(8),)),
    "k_fptr": ((0, 16, 24), lambda n: (X(16, n),)),
    "k_lref": ((0, 8, 16), lambda n: (D(8, n),)),
    "k_lptr": ((0, 8, 16), lambda n: (X(8, n),)),
    "k_cref": ((0,), lambda n: (D(0, n),)),
    "k_cptr": ((0,), lambda n: (X(0, n),)),
    "k_tref": ((0, 8), lambda n: (D(0, n),)),
    "k_tptr": ((0, 8), lambda n: (X(0, n), )),
}


def run():
    c = Check("M02", "symbolic result layout: each member of the result is (refers to, points to) the first matching member of the source; no result exactly if a reference needs a null pointer")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 60
    m = c.module("init.cc", extra=("-I" + VERIF + "/stubs/cista",))
    jobs = []
    for n in range(32):
        jobs.append(("ar%d" % n, "ar%d" % n, {}, tuple(F(8 * (n - 1 - i)) for i in range(n))))
    for k, (ps, f) in SHAPES.items():
        for b in range(1 << len(ps)):
            nulls = {p: bool(b >> i & 1) for i, p in enumerate(ps)}
            w = f(nulls)
            jobs.append((k, "%s/%s" % (k, "".join("0p"[not nulls[p]] for p in ps)), nulls, None if None in w else w))
    c.par([lambda j=j: c.analyse(m, j[0], mk(j[2], j[3]), label=j[1]) for j in jobs if not only or j[0] in only.split(",")])
    x = '#include "harness/init_shapes.h"\n'
    c.compiles("arities", "accepted", x + "".join("s%d& f%d();\n" % (n, n) for n in range(32)), [("auto r = utl::init_from<t%d>(f%d());" % (n, n), "%d members" % n) for n in range(32)],
               ("-I" + VERIF, "-I" + VERIF + "/stubs/cista"))
    return c.finish()


if __name__ == "__main__":
    main(run)
