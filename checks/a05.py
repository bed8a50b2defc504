#!/usr/bin/env python3
"""A05 zip: lockstep iteration, size mismatch reported before any element."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *


def fail_model(I, s, ins, name, dem, args):
    if dem.startswith("utl::fail<"):
        s.ghost["failed"] = 1
        return [(s, None)]
    return None


class Zip(RangeMon):
    n = 2
    checked = True
    ranges = ("A", "B", "C")
    idx = False
    cmp = False

    def start(self, I, s):
        s.ghost["g"] = ZERO
        s.ghost["seen"] = 0
        if not self.checked:
            for r in self.ranges[1:self.n]:
                I.assume_eq(s, S("$NA") - S("$N" + r))

    def arg(self, I, s, name, ty):
        if name == "i" or name == "j":
            s.poly.add_ge(S("$" + name))
            s.poly.add_ge(S("$NA") - S("$" + name) - (0 if self.cmp else 1))
            return S("$" + name)
        return super().arg(I, s, name, ty)

    def same_size(self, s):
        return all(s.poly.entails_eq(S("$NA") - S("$N" + r)) for r in self.ranges[1:self.n])

    def tup(self, I, s, ins, args, k):
        I.need(s, int(s.poly.norm(args[1]).k) == self.n, "width", "wrong number of zipped elements", ins)
        I.need(s, True if self.same_size(s) else None, "mismatch", "an element is produced although the container sizes may differ", ins)
        for n in range(self.n):
            r, i = self.elem(I, s, args[2 + n], ins, "zipped element %d" % n)
            I.need(s, r == self.ranges[n], "component", "component %d comes from the wrong container" % n, ins)
            I.need_eq(s, i, k, "lockstep", "component %d is not the element at the current position" % n, ins)

    def c_evn(self, I, s, ins, args):
        kind = int(s.poly.norm(args[0]).k)
        g = s.ghost["g"]
        if kind == 1:
            self.tup(I, s, ins, args, g)
            s.ghost["g"] = g + 1
        elif kind == 2:
            self.tup(I, s, ins, args, S("$NA") - g - 1)
            s.ghost["g"] = g + 1
        else:
            self.tup(I, s, ins, args, S("$i"))
            s.ghost["seen"] = 1

    def c_evi(self, I, s, ins, args):
        kind = int(s.poly.norm(args[0]).k)
        if kind >= 10:
            return self.order(I, s, ins, kind, args[1])
        I.need(s, True if self.same_size(s) else None, "mismatch", "size() of containers of different sizes", ins)
        I.need_eq(s, args[1], S("$NA"), "size", "size() must be the common container size", ins)
        s.ghost["seen"] = 1

    def order(self, I, s, ins, kind, v):
        d = S("$j") - S("$i")
        facts = {10: ((d,), None), 11: (None, (d,)), 12: (d - 1, -d), 13: (-d - 1, d), 14: (d, -d - 1), 15: (-d, d - 1)}[kind]
        name = {10: "==", 11: "!=", 12: "<", 13: ">", 14: "<=", 15: ">="}[kind]
        c = s.poly.norm(v)
        if not c.is_const():
            return I.need(s, None, "order", "the result of %s is not decided" % name, ins)
        f = facts[0] if c.k else facts[1]
        if f is None:
            ok = s.poly.entails_ne(d) or s.poly.entails_ge(d - 1) or s.poly.entails_ge(-d - 1)
        elif isinstance(f, tuple):
            ok = s.poly.entails_eq(f[0])
        else:
            ok = s.poly.entails_ge(f)
        I.need(s, bool(ok) or None, "order", "%s of two iterators is %s, which does not follow from their positions" % (name, bool(c.k)), ins)
        s.ghost["seen"] = 1

    def exit(self, I, s, kind, val):
        if kind == "throw":
            I.need(s, self.checked or None, "unexpected-throw", "an unchecked zip throws")
            I.need(s, s.ghost.get("failed") == 1 or None, "throw-type", "the exception is not the library's failure")
            I.need(s, None if self.same_size(s) else self.differ(I, s), "mismatch-only", "throws although all sizes are equal")
            I.need_eq(s, s.ghost["g"], ZERO, "throw-first", "throws after elements were produced")
        else:
            I.need(s, True if self.same_size(s) else None, "mismatch", "returns normally although the sizes may differ")
            if self.idx:
                I.need(s, s.ghost["seen"] == 1 or None, "result", "no result")
            else:
                I.need_ge(s, s.ghost["g"] - S("$NA"), "complete", "stops before the end of the containers")

    def differ(self, I, s):
        for r in self.ranges[1:self.n]:
            d = S("$NA") - S("$N" + r)
            if s.poly.entails_ge(d - 1) or s.poly.entails_ge(-d - 1) or s.poly.entails_ne(d):
                return True
        if self.n == 3:
            d = S("$NB") - S("$NC")
            if s.poly.entails_ge(d - 1) or s.poly.entails_ge(-d - 1) or s.poly.entails_ne(d):
                return True
        return None


class Own(RangeMon):
    ranges = ()

    def bind(self, I, s, f):
        s.rinfo["SRC"] = RInfo(Lin.c(24), "input", es=8)
        f.regs[f.fn.args[0]["id"]] = Ptr("SRC")
        s.ghost["g"] = 0

    def bound(self, I, s, n):
        return True

    def init_cell(self, I, s, region, off, size, ty):
        if region == "SRC" and off.is_const() and size == 8:
            return Lin.sym("$e%d" % (off.k // 8))
        return None

    def c_evn(self, I, s, ins, args):
        g = s.ghost["g"]
        I.need(s, g < 3 or None, "owned", "more tuples than elements", ins)
        for k in range(2):
            v = I.load(s, ins, args[2 + k], 8, "i64")
            I.need_eq(s, v, Lin.sym("$e%d" % g), "owned", "component %d of tuple %d" % (k, g), ins)
        s.ghost["g"] = g + 1

    def exit(self, I, s, kind, val):
        I.need(s, kind != "return" or s.ghost["g"] == 3 or None, "complete", "%d tuples over three elements" % s.ghost["g"])


def z(n=2, checked=True, idx=False, cmp=False):
    def make():
        m = Zip()
        m.n, m.checked, m.idx, m.cmp = n, checked, idx, cmp
        m.ranges = ("A", "B", "C")[:n]
        return m
    return make


def run():
    c = Check("A05", "lockstep automaton: tuple k holds element k of every container; the size-checked variants throw before producing anything exactly when the sizes differ; size(), operator[], backward iteration and owned temporaries")
    c.min_sites = 40
    c.assumptions = ["unchecked variants: sizes equal (their precondition)", "operator[]: index below the size"]
    m = c.module("zip.cc")
    kw = dict(models=(M.runtime, fail_model))
    for e in ("zip2", "zip2_const", "czip2", "zip2_rv", "zip2_constobj", "zip2_free", "zback"):
        c.analyse(m, e, z(), **kw)
    c.analyse(m, "zip3", z(3), **kw)
    for e in ("zipns2", "czipns2", "zipun2", "czipun2"):
        c.analyse(m, e, z(checked=False), **kw)
    for e in ("zsize", "zidx", "zidxc"):
        c.analyse(m, e, z(idx=True), **kw)
    for e in ("zip3_rv", "czip3", "zip3_constobj", "zback3"):
        c.analyse(m, e, z(3), **kw)
    c.analyse(m, "czip2_rv", z(), **dict(kw))
    for e in ("zipns3", "czipns3", "zipun3", "czipun3"):
        c.analyse(m, e, z(3, checked=False), **kw)
    for e in ("zsize3", "zidx3", "zidxc3", "czidx3"):
        c.analyse(m, e, z(3, idx=True), **kw)
    for e in ("czsize", "zdist"):
        c.analyse(m, e, z(idx=True), **kw)
    c.analyse(m, "zcmp", z(checked=False, idx=True, cmp=True), **kw)
    for e in ("zown", "zown_auto", "czown_auto"):
        c.analyse(m, e, Own, **kw)
    c.static_asserts("types", """
#include "utl/zip.h"
#include <vector>
#include <deque>
#include <type_traits>
using V = std::vector<int>; using D = std::deque<long>;
template <typename T> using el0 = decltype(std::get<0>(*std::declval<T&>().begin()));
template <typename T> using el1 = decltype(std::get<1>(*std::declval<T&>().begin()));
V& v(); V const& cv(); D& d(); D rd();
using Z = decltype(utl::zip(v(), d()));
using ZC = decltype(utl::zip(cv(), d()));
using CZ = decltype(utl::czip(v(), d()));
using CZN = decltype(utl::czip_no_size_check(v(), d()));
using CZU = decltype(utl::czip_unchecked(v(), d()));
using ZN = decltype(utl::zip_no_size_check(v(), d()));
using ZU = decltype(utl::zip_unchecked(v(), d()));
using ZR = decltype(utl::zip(v(), rd()));
""", [("mutable-element", "std::is_same_v<el0<Z>, int&> && std::is_same_v<el1<Z>, long&>", "zip over mutable containers yields references to their elements"),
      ("mutable-element", "std::is_same_v<el0<ZN>, int&> && std::is_same_v<el1<ZU>, long&>", "the unchecked variants yield references to the elements"),
      ("const-element", "std::is_same_v<el0<ZC>, int const&> && std::is_same_v<el1<ZC>, long&>", "zip over a const container yields const references"),
      ("const-element", "std::is_same_v<el0<CZ>, int const&> && std::is_same_v<el1<CZ>, long const&>", "czip yields const references"),
      ("const-element", "std::is_same_v<el0<CZN>, int const&> && std::is_same_v<el1<CZN>, long const&>", "czip_no_size_check yields const references"),
      ("const-element", "std::is_same_v<el0<CZU>, int const&> && std::is_same_v<el1<CZU>, long const&>", "czip_unchecked yields const references"),
      ("const-element", "std::is_same_v<el0<Z const>, int const&>", "a const view yields const references"),
      ("owning", "!std::is_reference_v<el1<ZR>> || std::is_same_v<el1<ZR>, long&>", "elements of an owned temporary")])
    return c.finish()


if __name__ == "__main__":
    main(run)
