"""Specification automaton of element pipelines over identity tokens.

A source element i has the value token val:V[i]; transform functions build
derived tokens, predicates are memoised facts of tokens.  The ghost g is the
number of source elements that are accounted for: dropped by a stage, or handed
to the sink as the next output.
"""
import re
from common import *


def tk(region, o):
    return Ptr(region, o)


def is_tok(v):
    return isinstance(v, Ptr) and isinstance(v.r, str) and v.r.startswith("val:")


BOX = re.compile(r"^(?:.* )?std::(vector|set|deque|unordered_set)<pv,.*>::(~?[a-z_]+)(?:<.*>)?\(")


def box_model(mon, I, s, ins, dem, args):
    """standard containers that collect the output"""
    m = BOX.match(dem)
    if not m:
        return None
    k, op = m.groups()
    put = None
    if op in ("emplace_back", "push_back", "emplace") and len(args) == 2 or op == "insert" and len(args) == 2 and k != "vector":
        put = args[1]
    if op in ("emplace_hint", "insert") and len(args) == 3 and k == "set":
        put = args[2]
    if put is not None:
        if isinstance(put, Ptr) and put.r == "A" and "pv&&)" in dem and not mon.may_move:
            I.need(s, None, "input-mutated", "an element of the source is moved into the result", ins)
        if s.ghost.get("sized") is not None:
            I.need_eq(s, s.ghost["sized"], ZERO, "surplus", "elements are appended behind default-constructed ones", ins)
        mon.output(I, s, ins, I.load(s, ins, put, 8, "i64"))
        return [(s, UNDEF)]
    if op in ("resize", "vector") and k == "vector" and len(args) >= 2 and isinstance(args[1], Lin):
        if s.ghost.get("sized") is not None or not s.poly.entails_eq(s.ghost["g"]):
            s.lossy_path = True
        s.ghost["sized"] = args[1]
        s.ghost["outn"] = ZERO
        s.rinfo["OUT"] = RInfo(args[1] * 8, "input", es=8)
        return [(s, None)]
    if s.ghost.get("sized") is not None and k == "vector":
        if op in ("begin", "data"):
            return [(s, Ptr("OUT"))]
        if op == "end":
            return [(s, Ptr("OUT", s.ghost["sized"] * 8))]
        if op == "size":
            return [(s, s.ghost["sized"])]
    if op in ("reserve", "~" + k) or op == k and len(args) <= 2 or op in ("begin", "end", "cbegin", "cend", "size", "capacity"):
        return [(s, None if op in ("reserve", k, "~" + k) else UNDEF)]
    r = mon.box(I, s, ins, k, op, args)
    if r is None:
        s.lossy_path = True       # an operation without a contract: nothing behind it is reported
        return [(s, None if ins["ty"] == "void" else UNDEF)]
    return r


class Pipe(RangeMon):
    """stages: T<k> transform, R<k> remove_if, W<k> take_while, U unique; sink stages C<k> count, F<k> find"""
    taint = True
    may_move = False
    source = "A"
    stages = ()
    sink = "out"

    # values are identity tokens; an integer source uses numbers
    def bind(self, I, s, f):
        self.ranges = ("A",) if self.source == "A" else ()
        if self.source == "own":
            s.rinfo["SRC"] = RInfo(Lin.c(24), "input", es=8)
        RangeMon.bind(self, I, s, f)
        names = {a["name"]: a["id"] for a in f.fn.args}
        if self.source == "own":
            f.regs[names["a"]] = Ptr("SRC")
        if self.source == "iota":
            self.lo, self.hi = S("$x"), S("$y")
            f.regs[names["x"]] = self.lo
            f.regs[names["y"]] = self.hi
            for q in (self.lo, self.hi):
                s.poly.add_ge(q + 2 ** 61)
                s.poly.add_ge(Lin.c(2 ** 61) - q)
            s.poly.add_ge(S("$NI"))
            for q in (S("$NI") - self.hi + self.lo,):
                s.poly.add_ge(q)                      # NI >= hi - lo
        elif "x" in names:
            f.regs[names["x"]] = S("$x")
            s.ghost["acc"] = S("$x")
        s.ghost["calls"] = ZERO
        self.calls = ZERO

    def start(self, I, s):
        s.ghost["g"] = ZERO        # source elements accounted for
        s.ghost["stop"] = 0        # the pipeline has ended (take_while, found)
        s.ghost["cnt"] = ZERO
        s.ghost["last"] = None
        s.ghost["res"] = None

    def bound(self, I, s, n):
        if self.source == "A":
            return RangeMon.bound(self, I, s, n)
        if self.source == "iota":
            return I.assume_ge(s, Lin.c(n) - S("$NI"))
        return True

    def init_cell(self, I, s, region, off, size, ty):
        if region in ("A", "SRC") and size == 8:
            return self.source_value(I, s, s.poly.norm(off).divexact(8))
        return None

    def on_access(self, I, s, ins, ptr, size, write):
        if ptr.r in ("A", "SRC"):
            I.need(s, not write or None, "input-mutated", "an element of the source is written", ins)
            o = s.poly.norm(ptr.o)
            n = S("$NA") * 8 if ptr.r == "A" else Lin.c(24)
            ok = s.poly.entails_ge(o) and s.poly.entails_ge(n - o - size)
            I.need(s, True if ok else None, "in-range", "element %s is %s, outside the source" % (I.show(s, o.divexact(8) or o), "written" if write else "read"), ins, (o,))

    def source_value(self, I, s, g):
        if g is None:
            return None
        if self.source == "iota":
            return self.lo + g
        if self.source == "gen":
            return tk("val:G", g)
        return tk("val:V", g)

    def more(self, I, s):
        """is there a g-th source element (True/False/None)"""
        g = s.ghost["g"]
        if self.source == "gen":
            return True
        n = {"A": S("$NA"), "own": Lin.c(3), "iota": None}[self.source]
        if n is None:
            if s.poly.entails_ge(self.hi - self.lo - g - 1):
                return True
            if s.poly.entails_ge(self.lo + g - self.hi):
                return False
            return None
        if s.poly.entails_ge(n - g - 1):
            return True
        if s.poly.entails_ge(g - n):
            return False
        return None

    def apply(self, k, v):
        if isinstance(v, Lin):
            return tk("val:N.%d" % k, v)
        return tk(v.r + ".%d" % k, v.o)

    def same_value(self, I, s, a, b):
        if a.r != b.r:
            return None
        if s.poly.entails_eq(a.o - b.o):
            return True
        r = I.get_fact(s, "eq", (a, b))
        if r is None:
            r = I.get_fact(s, "eq", (b, a))
        return None if r is None else bool(r)

    def walk(self, I, s):
        """element g through the stages: (verdict, value, last); verdict keep / drop / stop / None (not decided yet)"""
        v = self.source_value(I, s, s.ghost["g"])
        last = s.ghost["last"]
        for st in self.stages:
            k = int(st[1:] or 0)
            if st[0] == "T":
                v = self.apply(k, v)
            elif st[0] == "U":
                if last is None:
                    last = v
                    continue
                q = self.same_value(I, s, last, v)
                if q is None:
                    return None, v, last
                if q:
                    return "drop", v, s.ghost["last"]
                last = v
            else:
                r = I.get_fact(s, "p%d" % k, (v,))
                if r is None:
                    return None, v, last
                if st[0] == "R" and r:
                    return "drop", v, last
                if st[0] == "W" and not r:
                    return "stop", v, last
                if st[0] == "C":
                    return ("count" if r else "drop"), v, last
                if st[0] == "F":
                    return ("found" if r else "drop"), v, last
        return "keep", v, last

    def settle(self, I, s):
        for _ in range(6):
            if s.ghost["stop"] or self.more(I, s) is not True:
                return
            r, v, last = self.walk(I, s)
            if r == "stop":
                s.ghost["stop"] = 1
                return
            if r == "found":
                s.ghost["stop"] = 1
                s.ghost["res"] = v
                return
            if r not in ("drop", "count"):
                return
            s.ghost["last"] = last
            s.ghost["g"] = s.ghost["g"] + 1
            if r == "count":
                s.ghost["cnt"] = s.ghost["cnt"] + 1

    def output(self, I, s, ins, x):
        self.settle(I, s)
        I.need(s, not s.ghost["stop"] or None, "after-end", "%s is handed on after the pipeline has ended" % I.show(s, x), ins)
        m = self.more(I, s)
        I.need(s, True if m else None, "surplus", "%s is handed on although no source element is left" % I.show(s, x), ins)
        r, v, last = self.walk(I, s)
        same = isinstance(v, Lin) and isinstance(x, Lin) and s.poly.entails_eq(x - v) or \
            isinstance(v, Ptr) and isinstance(x, Ptr) and v.r == x.r and s.poly.entails_eq(x.o - v.o)
        I.need(s, True if same else None, "identity", "the value handed on (%s) is not the next element of the pipeline (%s)" % (I.show(s, x), I.show(s, v)), ins, (x, v))
        I.need(s, r == "keep" or None, "selected", "the element %s is handed on although the stages do not select it" % I.show(s, v), ins, (x,))
        s.ev("out", s.ghost["g"])
        s.ghost["last"] = last
        s.ghost["g"] = s.ghost["g"] + 1

    def on_store(self, I, s, ins, p, size, v):
        if p.r == "OUT":
            s.mem.pop("OUT", None)
            n = s.ghost["outn"]
            if not s.poly.entails_eq(p.o - n * 8):
                s.lossy_path = True          # not filled in order: no contract
                return
            I.need_ge(s, s.ghost["sized"] - n - 1, "in-range", "an element behind the end of the result is written", ins)
            s.ghost["outn"] = n + 1
            self.output(I, s, ins, v)

    def box(self, I, s, ins, k, op, args):
        """a range given to a container as a whole: begin/end pairs"""
        if op in ("assign", "insert", "vector", "set", "append_range") and not self.stages:
            p = [x for x in args if isinstance(x, Ptr) and x.r in ("A", "SRC")]
            if len(p) == 2:
                self.bulk(I, s, ins, p[0], p[1])
                return [(s, None if ins["ty"] == "void" else UNDEF)]
        return None

    def bulk(self, I, s, ins, a, b):
        i, j = s.poly.norm(a.o).divexact(8), s.poly.norm(b.o).divexact(8)
        n = S("$NA") if a.r == "A" else Lin.c(3)
        I.need(s, (i is not None and j is not None) or None, "range", "no element range", ins)
        I.need_eq(s, i, s.ghost["g"], "order", "the elements handed on do not start with the next one", ins)
        I.need_ge(s, j - i, "range", "begin behind end", ins)
        I.need_ge(s, n - j, "range", "elements behind the end are handed on", ins)
        s.ghost["g"] = j

    def valid_token(self, I, s, v, ins, what):
        ok = is_tok(v) or self.source == "iota" and isinstance(v, Lin)
        I.need(s, ok or None, "value", "%s gets a value that is no element of the pipeline (%s)" % (what, I.show(s, v)), ins, (v,))

    def call(self, I, s, ins, name, dem, args):
        r = box_model(self, I, s, ins, dem, args)
        if r is not None:
            return r
        h = getattr(self, "c_" + name, None)
        if h is None:
            return None
        r = h(I, s, ins, args)
        return [(s, None)] if r is None else r

    def c_pf(self, I, s, ins, args):
        self.valid_token(I, s, args[1], ins, "the transform function")
        return [(s, self.apply(int(args[0].k), args[1]))]

    def c_pp(self, I, s, ins, args):
        self.valid_token(I, s, args[1], ins, "a predicate")
        out = []
        for t, v in I.split_fact(s, "p%d" % int(args[0].k), (args[1],)):
            self.settle(I, t)
            out.append((t, Lin.c(int(v))))
        return out

    def c_peq(self, I, s, ins, args):
        a, b = args
        r = self.same_value(I, s, a, b) if is_tok(a) and is_tok(b) else None
        out = []
        for t, v in ([(s, r)] if r is not None else I.split_fact(s, "eq", (a, b))):
            self.settle(I, t)
            out.append((t, Lin.c(int(v))))
        return out

    def c_pout(self, I, s, ins, args):
        if self.sink == "acc1":
            I.need_eq(s, args[0], s.ghost["acc"], "result", "the result is not the last accumulator", ins)
            s.ghost["res"] = 1
            return
        self.output(I, s, ins, args[0])

    def c_pget(self, I, s, ins, args):
        self.settle(I, s)
        if self.sink == "count1":
            I.need_eq(s, args[0], s.ghost["cnt"], "count", "the count is %s" % I.show(s, args[0]), ins)
            return
        v = s.ghost["res"]
        same = is_tok(v) and is_tok(args[0]) and v.r == args[0].r and s.poly.entails_eq(v.o - args[0].o)
        I.need(s, True if same else None, "found", "the value found (%s) is not the first element that matches" % I.show(s, args[0]), ins, (args[0],))
        s.ghost["got"] = 1

    def c_pnone(self, I, s, ins, args):
        self.settle(I, s)
        I.need(s, s.ghost["res"] is None or None, "found", "nothing found although an element matches", ins)

    def c_pgen(self, I, s, ins, args):
        n = s.ghost["calls"]
        s.ghost["calls"] = n + 1
        return [(s, tk("val:G", n))]

    def c_pacc(self, I, s, ins, args):
        I.need_eq(s, args[0], s.ghost["acc"], "accumulator", "the function gets an accumulator that is not the previous result", ins)
        self.output(I, s, ins, args[1])
        x = I.fresh("acc")
        s.ghost["acc"] = x
        return [(s, x)]

    def mode(self, I, s):
        return (self.more(I, s),) + (self.aligned(I, s, "A", s.ghost["g"]) if self.source == "A" else ())

    def exit(self, I, s, kind, val):
        self.settle(I, s)
        I.need(s, kind == "return" or None, "no-throw", "the pipeline throws")
        done = s.ghost["stop"] or self.more(I, s) is False
        if s.ghost.get("sized") is not None:
            I.need_eq(s, s.ghost["outn"], s.ghost["sized"], "surplus", "the result has elements that were never set")
        I.need(s, True if done else None, "complete", "the pipeline ends before element %s" % I.show(s, s.ghost["g"]))
        if self.sink == "acc":
            I.need_eq(s, val, s.ghost["acc"], "result", "the result is not the last accumulator")
        if self.sink == "acc1":
            I.need(s, s.ghost["res"] == 1 or None, "result", "no result")
        if self.sink == "count":
            I.need_eq(s, val, s.ghost["cnt"], "count", "the count is %s" % I.show(s, val))
        if self.sink == "find":
            I.need(s, (s.ghost["res"] is None or bool(s.ghost.get("got"))) or None, "found", "the element found is not returned")


def pipe(stages="", cls=Pipe, **kw):
    def make():
        m = cls()
        m.stages = tuple(stages.split())
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    return make
