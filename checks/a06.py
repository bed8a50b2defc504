#!/usr/bin/env python3
"""A06 enumerate: index and element stay in step."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *


class En(RangeMon):
    loop = True
    pair = False

    def start(self, I, s):
        s.ghost["g"] = ZERO
        s.ghost["seen"] = 0

    def arg(self, I, s, name, ty):
        if name == "n":
            s.poly.add_ge(S("$n") - (1 if self.pair else 0))
            s.poly.add_ge(S("$NA") - S("$n") - 1)
            return S("$n")
        if name == "k":
            s.poly.add_ge(S("$k"))
            s.poly.add_ge(S("$n") - S("$k"))
            return S("$k")
        return super().arg(I, s, name, ty)

    def c_evi1(self, I, s, ins, args):
        kind = int(s.poly.norm(args[0]).k)
        r, i = self.elem(I, s, args[2], ins, "enumerated element")
        I.need_eq(s, args[1], i, "in-step", "the index is not the position of the element", ins)
        g = s.ghost["g"]
        want = {1: g, 2: S("$n"), 3: S("$n") - S("$k"), 4: S("$n") - g - 1, 7: S("$n") - 1, 8: S("$NA") - g - 1}[kind]
        I.need_eq(s, i, want, "order", "wrong element", ins)
        if kind in (1, 4, 8):
            s.ghost["g"] = g + 1
        s.ghost["seen"] = s.ghost["seen"] + 1 if not self.loop else 1

    def c_evi(self, I, s, ins, args):
        kind = int(s.poly.norm(args[0]).k)
        I.need_eq(s, args[1], S("$NA") if kind == 5 else S("$n"), "distance", "iterator distance", ins)
        s.ghost["seen"] = 1

    total = "$NA"

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "throws")
        if self.loop:
            I.need_eq(s, s.ghost["g"], S(self.total), "complete", "elements visited")
        else:
            I.need(s, s.ghost["seen"] > 0 or None, "result", "no result")


class PtrEn(En):
    """a container of pointers: the tuple holds the stored pointer"""
    def init_cell(self, I, s, region, off, size, ty):
        if region == "A" and size == 8:
            return Ptr("E", off)
        return None

    def elem(self, I, s, v, ins, what="x"):
        if isinstance(v, Ptr) and v.r == "E":
            v = Ptr("A", v.o)
        return super().elem(I, s, v, ins, what)


class Own(RangeMon):
    ranges = ()

    def bind(self, I, s, f):
        s.rinfo["SRC"] = RInfo(Lin.c(24), "input", es=8)
        f.regs[f.fn.args[0]["id"]] = Ptr("SRC")
        s.ghost["g"] = 0

    def bound(self, I, s, n):
        return True

    def init_cell(self, I, s, region, off, size, ty):
        if region == "SRC" and off.is_const() and size == 8:
            return Lin.sym("$e%d" % (off.k // 8))
        return None

    def c_evi1(self, I, s, ins, args):
        g = s.ghost["g"]
        I.need(s, g < 3 or None, "owned", "more elements than the container has", ins)
        I.need_eq(s, args[1], Lin.c(g), "in-step", "index of element %d" % g, ins)
        v = I.load(s, ins, args[2], 8, "i64")
        I.need_eq(s, v, Lin.sym("$e%d" % g), "owned", "element %d of the owned container" % g, ins)
        s.ghost["g"] = g + 1

    def exit(self, I, s, kind, val):
        I.need(s, kind != "return" or s.ghost["g"] == 3 or None, "complete", "%d of three elements" % s.ghost["g"])


def mk(cls=En, **kw):
    def make():
        m = cls()
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    return make


def run():
    c = Check("A06", "position automaton: the k-th dereference yields (k, element k); += -= -- keep both in step; iterator distance counts positions; temporaries stay alive inside the view")
    c.min_sites = 20
    m = c.module("enumerate.cc")
    for e in ("en_lv", "en_const", "en_rv"):
        c.analyse(m, e, mk())
    c.analyse(m, "en_ptr", mk(PtrEn))
    c.analyse(m, "en_plus", mk(loop=False))
    c.analyse(m, "en_back", mk(total="$n"))
    c.analyse(m, "en_size", mk(loop=False))
    c.analyse(m, "en_dist", mk(loop=False))
    for e in ("en_list", "en_list_rv", "en_back_end", "en_back_list", "en_back_slist"):
        c.analyse(m, e, mk())
    for e in ("en_diff_end", "en_diff_list", "en_diff_slist", "en_size_list", "en_jump_end"):
        c.analyse(m, e, mk(loop=False))
    for e in ("en_own", "en_own_auto"):
        c.analyse(m, e, Own)
    m = c.module("enumerate_post.cc")
    c.analyse(m, "en_post", mk())
    c.analyse(m, "en_postdec", mk(loop=False, pair=True))
    c.static_asserts("types", """
#include "utl/enumerate.h"
#include <list>
#include <vector>
#include <type_traits>
using V = std::vector<int>; using L = std::list<long>;
V& v(); V const& cv(); L& l(); V rv();
template <typename T> using el = std::tuple_element_t<1, std::decay_t<decltype(*std::declval<T&>().begin())>>;
template <typename T> using ix = std::tuple_element_t<0, std::decay_t<decltype(*std::declval<T&>().begin())>>;
""", [("reference", "std::is_same_v<el<decltype(utl::enumerate(v()))>, int&>", "enumerate over a mutable container yields references"),
      ("reference", "std::is_same_v<el<decltype(utl::enumerate(cv()))>, int const&>", "enumerate over a const container yields const references"),
      ("reference", "std::is_same_v<el<decltype(utl::enumerate(l()))>, long&>", "enumerate over a list yields references"),
      ("reference", "std::is_reference_v<el<decltype(utl::enumerate(rv()))>>", "enumerate over a temporary yields references into it"),
      ("index-type", "std::is_unsigned_v<ix<decltype(utl::enumerate(v()))>> && sizeof(ix<decltype(utl::enumerate(v()))>) == sizeof(std::size_t)", "the index can count every element")])
    return c.finish()


if __name__ == "__main__":
    main(run)
