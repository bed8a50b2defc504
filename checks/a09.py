#!/usr/bin/env python3
"""A09 to_vec / transform_to / to_set / concat / repeat_n: the result holds exactly the specified elements."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pipespec import *


class Concat(Pipe):
    """everything of the second container is appended to the first"""
    def bind(self, I, s, f):
        Pipe.bind(self, I, s, f)
        n = S("$NB")
        s.poly.add_ge(n)
        s.rinfo["B"] = RInfo(n * ES, "input", es=ES)
        names = {a["name"]: a["id"] for a in f.fn.args}
        f.regs[names["b"]] = Ptr("B")
        f.regs[names["be"]] = Ptr("B", n * ES)

    def on_access(self, I, s, ins, ptr, size, write):
        Pipe.on_access(self, I, s, ins, ptr, size, write)
        if ptr.r == "B":
            I.need(s, not write or None, "input-mutated", "an element of the first container is written", ins)

    def c_cc_insert(self, I, s, ins, args):
        p = args[1]
        ok = isinstance(p, Ptr) and p.r == "B" and s.poly.entails_eq(p.o - S("$NB") * 8)
        I.need(s, True if ok else None, "append", "the elements are not inserted at the end of the first container", ins, (p,))
        for x in args[2:]:
            I.need(s, (isinstance(x, Ptr) and x.r == "A") or None, "source", "the inserted range is not part of the second container", ins, (x,))
        self.bulk(I, s, ins, args[2], args[3])

    def exit(self, I, s, kind, val):
        Pipe.exit(self, I, s, kind, val)
        I.need_eq(s, val, ONE, "result", "the result is not the first container")


class Grow(Pipe):
    """the results are appended to a container that holds $NB elements already"""
    def bind(self, I, s, f):
        Pipe.bind(self, I, s, f)
        n = S("$NB")
        s.poly.add_ge(n)
        s.poly.add_ge(Lin.c(2 ** 40) - n)
        names = {a["name"]: a["id"] for a in f.fn.args}
        s.rinfo["O"] = RInfo(Lin.c(24), "input")
        f.regs[names["o"]] = Ptr("O")
        s.ghost["size"] = n
        s.ghost["fill"] = n
        s.rinfo["OUT"] = RInfo(n * 8, "input", es=8)

    def bound(self, I, s, n):
        return Pipe.bound(self, I, s, n) and I.assume_ge(s, Lin.c(n) - S("$NB"))

    def append(self, I, s, ins, v):
        I.need_eq(s, s.ghost["size"], s.ghost["fill"], "surplus", "elements are appended behind elements that were never set", ins)
        s.ghost["size"] = s.ghost["fill"] = s.poly.norm(s.ghost["fill"] + 1)
        s.rinfo["OUT"] = RInfo(s.ghost["size"] * 8, "input", es=8)
        self.output(I, s, ins, v)

    def on_store(self, I, s, ins, p, size, v):
        if p.r != "OUT":
            return
        s.mem.pop("OUT", None)
        n = s.ghost["fill"]
        if s.poly.entails_eq(p.o - n * 8):
            I.need_ge(s, s.ghost["size"] - n - 1, "in-range", "an element behind the end of the result is written", ins)
            s.ghost["fill"] = n + 1
            return self.output(I, s, ins, v)
        if s.poly.entails_ge(S("$NB") * 8 - p.o - 8):
            I.need(s, None, "overwritten", "an element that was in the output before is overwritten", ins)
        s.lossy_path = True

    def call(self, I, s, ins, name, dem, args):
        m = BOX.match(dem)
        if m and isinstance(args[0], Ptr) and args[0].r == "O":
            op = m.group(2)
            if op in ("emplace_back", "push_back") and len(args) == 2:
                self.append(I, s, ins, I.load(s, ins, args[1], 8, "i64"))
                return [(s, Ptr("OUT", s.ghost["fill"] * 8 - 8))]
            if op == "resize" and isinstance(args[1], Lin):
                I.need_ge(s, args[1] - s.ghost["fill"], "overwritten", "elements that were in the output before are removed", ins)
                s.ghost["size"] = args[1]
                s.rinfo["OUT"] = RInfo(args[1] * 8, "input", es=8)
                return [(s, None)]
            if op in ("clear", "assign"):
                I.need_eq(s, s.ghost["fill"], ZERO, "overwritten", "elements that were in the output before are removed", ins)
                if op == "clear":
                    return [(s, None)]
            if op in ("begin", "data", "cbegin"):
                return [(s, Ptr("OUT"))]
            if op in ("end", "cend"):
                return [(s, Ptr("OUT", s.ghost["size"] * 8))]
            if op == "size":
                return [(s, s.ghost["size"])]
            if op == "reserve":
                return [(s, None)]
            s.lossy_path = True
            return [(s, None if ins["ty"] == "void" else UNDEF)]
        return Pipe.call(self, I, s, ins, name, dem, args)

    def exit(self, I, s, kind, val):
        Pipe.exit(self, I, s, kind, val)
        I.need_eq(s, s.ghost["size"], s.ghost["fill"], "surplus", "the result has elements that were never set")


class Rep(Monitor):
    """n copies of the element"""
    taint = True
    can_bound = True

    def bind(self, I, s, f):
        self.n = S("$n")
        s.poly.add_ge(self.n)
        s.poly.add_ge(Lin.c(2 ** 40) - self.n)
        names = {a["name"]: a["id"] for a in f.fn.args}
        s.rinfo["X"] = RInfo(Lin.c(8), "input", es=8)
        f.regs[names["x"]] = Ptr("X")
        f.regs[names["n"]] = self.n
        s.ghost["size"] = None
        s.ghost["fill"] = ZERO
        s.rinfo["RN"] = RInfo(self.n * 8, "input", es=8)

    def bound(self, I, s, n):
        return I.assume_ge(s, Lin.c(n) - self.n)

    def init_cell(self, I, s, region, off, size, ty):
        return Ptr("val:X", ZERO) if region == "X" and size == 8 else None

    def grow(self, I, s, ins, n):
        I.need(s, s.ghost["size"] is None or None, "size", "two containers are made", ins)
        I.need_eq(s, n, self.n, "size", "the container does not have n elements", ins)
        s.ghost["size"] = n

    def is_x(self, v):
        return isinstance(v, Ptr) and v.r == "val:X"

    def on_access(self, I, s, ins, ptr, size, write):
        if ptr.r == "RN":
            o = s.poly.norm(ptr.o)
            ok = s.poly.entails_ge(o) and s.poly.entails_ge(self.n * 8 - o - size)
            I.need(s, True if ok else None, "in-range", "element %s outside the container" % I.show(s, o), ins, (o,))
        if ptr.r == "X":
            I.need(s, not write or None, "input-mutated", "the given element is written", ins)

    def on_store(self, I, s, ins, p, size, v):
        if p.r == "RN":
            I.need(s, self.is_x(v) or None, "value", "an element gets a value that is not the given element (%s)" % I.show(s, v), ins, (v,))
            if s.poly.entails_eq(p.o - s.ghost["fill"] * 8):
                s.ghost["fill"] = s.ghost["fill"] + 1
            s.mem.pop("RN", None)

    def call(self, I, s, ins, name, dem, args):
        if name == "rn_data":
            return [(s, Ptr("RN"))]
        if name == "rn_size":
            self.grow(I, s, ins, args[0])
            return [(s, None)]
        if name == "pout":
            I.need(s, self.is_x(args[0]) or None, "value", "an element gets another value", ins)
            s.ghost["fill"] = s.ghost["fill"] + 1
            return [(s, None)]
        m = BOX.match(dem)
        if m:
            op = m.group(2)
            if op in ("vector", "resize", "assign"):
                a = [x for x in args[1:] if isinstance(x, Lin)]
                x = [v for v in args[1:] if isinstance(v, Ptr) and v.r not in ("alloca",) and I.rinf(s, v.r).kind != "alloca"]
                if len(a) == 1 or len(a) == 0 and op == "vector":
                    if a:
                        self.grow(I, s, ins, a[0])
                        if x:
                            I.need(s, self.is_x(I.load(s, ins, x[0], 8, "i64")) or None, "value", "an element gets another value", ins)
                            s.ghost["fill"] = a[0]
                    return [(s, None)]
            if op in ("reserve", "~vector"):
                return [(s, None)]
            if op in ("emplace_back", "push_back"):
                I.need(s, self.is_x(I.load(s, ins, args[1], 8, "i64")) or None, "value", "an element gets another value", ins)
                s.ghost["fill"] = s.ghost["fill"] + 1
                s.ghost["size"] = self.n
                return [(s, UNDEF)]
            if op in ("begin", "data"):
                return [(s, Ptr("RN"))]
            if op == "end":
                return [(s, Ptr("RN", self.n * 8))]
            if op == "size":
                return [(s, self.n)]
            s.lossy_path = True
            return [(s, None if ins["ty"] == "void" else UNDEF)]
        return None

    def mode(self, I, s):
        return ()

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "repeat_n throws")
        I.need(s, s.ghost["size"] is not None or self.n is None or None, "size", "no container is made")
        I.need_eq(s, s.ghost["fill"], self.n, "complete", "only %s elements are set to the value" % I.show(s, s.ghost["fill"]))


ENTRIES = [(e, pipe("T1")) for e in ("tv_co", "tv_cst", "tv_it", "tt_ret", "tt_out", "ts_co", "ts_it")]
ENTRIES += [("tt_vec", pipe("T1")), ("tt_grow", pipe("T1", Grow)), ("tv_rv", pipe("T1", may_move=True)), ("tt_own", pipe("T1", source="own")), ("tv_id", pipe("")), ("tv_idc", pipe("")), ("cc", pipe("", Concat)), ("rn", Rep), ("rn_v", Rep)]


def run():
    c = Check("A09", "output automaton: the k-th element put into the result is the image of the k-th source element; complete at the end; nothing outside the source is read, no source element is written")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 40
    c.assumptions = ["the function given by the caller is pure", "standard containers store what they are given (by contract)"]
    m = c.module("convert.cc", keep="keep_alg.txt")
    c.par([lambda e=e, f=f: c.analyse(m, e, f, budget=100) for e, f in ENTRIES if not only or e in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
