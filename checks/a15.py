#!/usr/bin/env python3
"""A15 sort_by: every container is permuted by one permutation that sorts the first."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pipespec import *

PV = re.compile(r"^(?:.* )?std::vector<(?:unsigned int|unsigned long|int|long),.*>::(~?[a-z_]+|operator\[\])(?:<.*>)?\(")
W = {"unsigned int": 4, "int": 4, "unsigned long": 8, "long": 8}


class SortBy(Monitor):
    taint = True
    can_bound = True
    src = ("A",)

    def bind(self, I, s, f):
        names = {a["name"]: a["id"] for a in f.fn.args}
        for r in self.src:
            n = S("$N" + r)
            s.poly.add_ge(n)
            s.poly.add_ge(Lin.c(2 ** 31) - n)
            s.rinfo[r] = RInfo(n * 8, "input", es=8)
            f.regs[names[r.lower()]] = Ptr(r)
            f.regs[names[r.lower() + "e"]] = Ptr(r, n * 8)
        for r in self.src[1:]:
            if r in self.none:
                s.poly.add_eq(S("$N" + r))
            else:
                s.poly.add_eq(S("$N" + r) - S("$NA"))
        g = s.ghost
        g["psize"] = g["pfill"] = ZERO
        g["sorted"] = 0
        g["w"] = 4
        for k in range(len(self.src)):
            g["fill%d" % k] = ZERO
        g["clones"] = ()
        g["out"] = 0
        g["cmp"] = None
        g["done"] = None
    none = ()

    def bound(self, I, s, n):
        return I.assume_ge(s, Lin.c(n) - S("$NA"))

    def mode(self, I, s):
        return (s.ghost["sorted"],)

    # tokens: element i of source r
    def init_cell(self, I, s, region, off, size, ty):
        o = s.poly.norm(off)
        if region in self.src and size == 8:
            return Ptr("val:" + region, o.divexact(8))
        if region == "PERM":
            i = o.divexact(s.ghost["w"])
            if not s.ghost["sorted"]:
                return ("nomemo", i)
            return ("nomemo", self.pi(I, s, i))
        return None

    def pi(self, I, s, i):
        v = I.get_fact(s, "pi", (Ptr("PERM", i),))
        if v is None:
            v = I.fresh("pi")
            s.poly.add_ge(v)
            s.poly.add_ge(S("$NA") - v - 1)
            I.set_fact(s, "pi", (Ptr("PERM", i),), v)
        return v

    def pis(self, s):
        return [((k[0],), v) for k, v in s.facts.items() if k[0] == "pi"]

    def on_access(self, I, s, ins, ptr, size, write):
        o = s.poly.norm(ptr.o)
        if ptr.r in self.src:
            I.need(s, not write or None, "input-mutated", "an element of an input container is written", ins)
            n = S("$N" + ptr.r) * 8
        elif isinstance(ptr.r, tuple) and ptr.r[0] == "clone":
            n = S("$N" + self.src[ptr.r[1]]) * 8
        elif ptr.r == "PERM":
            n = s.ghost["psize"] * s.ghost["w"]
        else:
            return
        ok = s.poly.entails_ge(o) and s.poly.entails_ge(n - o - size)
        I.need(s, True if ok else None, "in-range", "byte %s is %s, outside the container" % (I.show(s, o), "written" if write else "read"), ins, (o,))

    def on_store(self, I, s, ins, p, size, v):
        if p.r == "PERM":
            s.mem.pop("PERM", None)
            if not s.poly.entails_eq(p.o - s.ghost["pfill"] * s.ghost["w"]):
                s.lossy_path = True
                return
            I.need(s, not s.ghost["sorted"] or None, "permutation", "the permutation is changed after it was sorted", ins)
            I.need_eq(s, v, s.ghost["pfill"], "permutation", "index %s starts as %s" % (I.show(s, s.ghost["pfill"]), I.show(s, v)), ins)
            s.ghost["pfill"] = s.ghost["pfill"] + 1
        if isinstance(p.r, tuple) and p.r[0] == "clone":
            k = p.r[1]
            r = self.src[k]
            n = s.ghost["fill%d" % k]
            s.mem.pop(p.r, None)
            if not s.poly.entails_eq(p.o - n * 8):
                i = p.o.divexact(8)
                named = i is not None and any(f[0] == "pi" and isinstance(x, Lin) and s.poly.entails_eq(i - x) for f, x in self.pis(s))
                if named and s.ghost["sorted"] and I.assume_ge(s, S("$N" + r) - 3):
                    # the i-th index names the source of position i, not the target of element i
                    w = self.pi(I, s, s.poly.norm(i))
                    ok = isinstance(v, Ptr) and v.r == "val:" + r and s.poly.entails_eq(v.o - w)
                    I.need(s, True if ok else None, "element", "position %s of container %d gets %s: the permutation is applied inversely" % (I.show(s, i), k, I.show(s, v)), ins, (v,))
                s.lossy_path = True
                return
            want = self.pi(I, s, n)
            ok = isinstance(v, Ptr) and v.r == "val:" + r and s.poly.entails_eq(v.o - want)
            I.need(s, bool(s.ghost["sorted"]) or None, "order", "the elements are moved before the permutation is sorted", ins)
            I.need(s, True if ok else None, "element", "position %s of container %d gets %s instead of the element the permutation names" % (I.show(s, n), k, I.show(s, v)), ins, (v,))
            s.ghost["fill%d" % k] = n + 1

    def call(self, I, s, ins, name, dem, args):
        h = getattr(self, "c_" + name, None)
        if h is not None:
            return h(I, s, ins, args)
        m = PV.match(dem)
        if m:
            op = m.group(1)
            a = [x for x in args[1:] if isinstance(x, Lin)]
            if op in ("resize", "vector") and a:
                I.need(s, s.poly.entails_eq(s.ghost["psize"]) or None, "permutation", "the index container is resized twice", ins)
                s.ghost["psize"] = a[0]
                s.ghost["w"] = W[re.search(r"std::vector<([a-z ]+),", dem).group(1)]
                s.rinfo["PERM"] = RInfo(a[0] * s.ghost["w"], "input", es=s.ghost["w"])
                return [(s, None)]
            if op == "size":
                return [(s, s.ghost["psize"])]
            if op == "empty":
                return [(t, Lin.c(int(z))) for t, z in I.split_eq(s, s.ghost["psize"])]
            if op in ("begin", "cbegin", "data"):
                return [(s, Ptr("PERM"))]
            if op in ("end", "cend"):
                return [(s, Ptr("PERM", s.ghost["psize"] * s.ghost["w"]))]
            if op in ("operator[]", "at"):
                return [(s, Ptr("PERM", args[1] * s.ghost["w"]))]
            if op in ("vector", "~vector", "reserve"):
                return [(s, None)]
            s.lossy_path = True
            return [(s, None if ins["ty"] == "void" else UNDEF)]
        return None

    def c_sp_begin(self, I, s, ins, args):
        g = s.ghost
        I.need_eq(s, g["psize"], S("$NA"), "permutation", "there are %s indices" % I.show(s, g["psize"]), ins)
        I.need_eq(s, g["pfill"], S("$NA"), "permutation", "only %s indices are set before sorting" % I.show(s, g["pfill"]), ins)
        I.need_eq(s, args[1], S("$NA"), "permutation", "only %s indices are sorted" % I.show(s, args[1]), ins)
        return [(s, UNDEF)]

    def c_sp_pick(self, I, s, ins, args):
        v = I.fresh("ix")
        s.poly.add_ge(v)
        if not I.assume_ge(s, S("$NA") - v - 1):
            return [(s, ZERO)]
        return [(s, v)]

    def c_pnlt(self, I, s, ins, args):
        s.ghost["cmp"] = tuple(args)
        return [(t, Lin.c(int(v))) for t, v in I.split_fact(s, "nlt", tuple(args))]

    def c_sp_less(self, I, s, ins, args):
        x, y, r = args
        if s.poly.entails_ge(-S("$NA")):
            return [(s, None)]
        v = I.get_fact(s, "nlt", (Ptr("val:A", s.poly.norm(x)), Ptr("val:A", s.poly.norm(y))))
        ok = v is not None and isinstance(r, Lin) and s.poly.entails_eq(r - int(v))
        c = s.ghost["cmp"]
        I.need(s, ok or None, "comparator", "the indices are not ordered by the elements of the first container (compared: %s)" % (", ".join(I.show(s, q) for q in c) if c else "nothing"), ins, (r,))
        return [(s, None)]

    def c_sp_end(self, I, s, ins, args):
        s.ghost["sorted"] = 1
        s.mem.pop("PERM", None)
        return [(s, None)]

    def c_sb_clone(self, I, s, ins, args):
        p = args[0]
        I.need(s, (isinstance(p, Ptr) and (p.r in self.src)) or None, "element", "something is copied that is no input container", ins, (p,))
        k = self.src.index(p.r)
        I.need(s, (k not in s.ghost["clones"]) or None, "element", "a container is copied twice", ins, (), ) if False else None
        s.ghost["clones"] += (k,)
        s.rinfo[("clone", k)] = RInfo(S("$N" + p.r) * 8, "input", es=8)
        return [(s, Ptr(("clone", k)))]

    def c_sb_out(self, I, s, ins, args):
        k = int(s.poly.norm(args[0]).k)
        r = self.src[k]
        n = S("$N" + r)
        I.need_eq(s, args[2], n, "size", "result %d has %s elements" % (k, I.show(s, args[2])), ins)
        for t, z in I.split_eq(s, n):
            if not z:
                p = args[1]
                I.need(t, (isinstance(p, Ptr) and p.r == ("clone", k)) or None, "element", "result %d is not the permuted copy of container %d" % (k, k), ins, (p,))
                I.need_eq(t, t.ghost["fill%d" % k], n, "complete", "only %s elements of container %d are permuted" % (I.show(t, t.ghost["fill%d" % k]), k), ins)
        s.ghost["out"] += 1
        return [(s, None)]

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "throws")
        I.need(s, s.ghost["out"] == len(self.src) or None, "complete", "a result is missing")


def mk(**kw):
    def make():
        m = SortBy()
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    return make


ENTRIES = [("sb1", "sb1", {}), ("sb2", "sb2", dict(src=("A", "B"))), ("sb2", "sb2/empty", dict(src=("A", "B"), none=("B",))),
           ("sb3", "sb3", dict(src=("A", "B", "C"))), ("sb3", "sb3/empty", dict(src=("A", "B", "C"), none=("B",))),
           ("sb_const", "sb_const", dict(src=("A", "B"))), ("sb_rv", "sb_rv", dict(src=("A", "B")))]


def run():
    c = Check("A15", "permutation automaton: indices 0..n-1, sorted by the elements of the first container; position i of every result is the element the i-th index names")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 40
    c.assumptions = ["std::sort permutes its range into the order of a valid comparator", "at most 2^31 elements", "the other containers are empty or as long as the first"]
    m = c.module("sort_by.cc", keep="keep_alg.txt")
    c.par([lambda e=e: c.analyse(m, e[0], mk(**e[2]), budget=100, label=e[1]) for e in ENTRIES if not only or e[1] in only.split(",")])
    c.compiles("accepts", "accepted", """
#include <string>
#include <vector>
#include "utl/sort_by.h"
std::vector<int> a; std::vector<std::string> b; std::vector<int> const ca; std::vector<std::string> const cb;
std::vector<int> ra(); std::vector<std::string> rb();
using R = std::tuple<std::vector<int>, std::vector<std::string>>;
""", [("R r = utl::sort_by(a, b);", "containers"), ("R r = utl::sort_by(ca, cb);", "const containers"), ("R r = utl::sort_by(ra(), rb());", "temporary containers"),
      ("R r = utl::sort_by(a, cb);", "a const and a mutable container"),
      ("auto r = utl::sort_by(b, a);", "any ordered element type"), ("auto r = utl::sort_by(b);", "one container")])
    return c.finish()


if __name__ == "__main__":
    main(run)
