#!/usr/bin/env python3
"""P04 parse_arg: numbers, flags and texts."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from fractions import Fraction
from common import *
from text import Txt

N = S("$N")
CISTA = ("-I" + os.path.join(VERIF, "stubs", "cista"),)
MINUS, PLUS, DOT = 45, 43, 46


def digit(m, I, s, p):
    """a decimal digit: True / False / None"""
    b = m.cell(I, s, "T", p)
    if not isinstance(b, Lin):
        return None
    if s.poly.entails_ge(b - 48) and s.poly.entails_ge(57 - b):
        return True
    if s.poly.entails_ge(47 - b) or s.poly.entails_ge(b - 58):
        return False
    return None


class Num(Txt):
    """[-|+] digits: the value is the Horner sum H of the digit run (ghosts), which starts behind the sign"""
    scanners = {"d": ("T", digit, None, 1)}
    w = 32
    signed = True
    default = None       # ghost value if there is no number
    fp_ = False
    slice_unroll = staticmethod(lambda k: 3 * k + 8)

    def bind(self, I, s, f):
        Txt.bind(self, I, s, f)
        out = []
        s.poly.add_ge(Lin.c(1 << 62) - N)
        if not self.signed:
            s.poly.add_ge(S("$d"))
            s.poly.add_ge(Lin.c(self.top) - S("$d"))
        s.ghost["res"] = 0
        s.ghost["H"] = ZERO
        for t, z in I.split_eq(s, N):
            if z:
                self.begin(t, 1, 0, ZERO)
                out.append(t)
                continue
            b = self.byte(I, t, "T", ZERO)
            for u, m in I.split_eq(t, b - MINUS):
                m = m and self.signed
                for v, p in ([(u, False)] if m else I.split_eq(u, b - PLUS)):
                    self.begin(v, -1 if m else 1, int(m or p), ONE if m or p else ZERO)
                    if m or p:
                        # two signs are not a number; what is made of them is not specified
                        for x, more in I.split_ge(v, N - 2):
                            if more:
                                c = self.byte(I, x, "T", ONE)
                                x.poly.add_ge(c + 128)
                                for y, bad in I.split_eq(x, c - MINUS):
                                    if not bad:
                                        out += [q for q, e in I.split_eq(y, c - PLUS) if not e]
                            else:
                                out.append(x)
                    else:
                        out.append(v)
        return out

    def begin(self, s, sign, off, p):
        s.ghost["sign"] = sign
        s.ghost["off"] = off
        self.reset(s, "d", p)

    @property
    def top(self):
        return (1 << (self.w - 1)) - 1

    def limits(self, s):
        s.poly.add_ge(s.ghost["H"])
        s.poly.add_ge(Lin.c(self.top) - s.ghost["H"])

    def invariants(self, I, s):
        self.limits(s)

    def advanced(self, I, s, name, pos):
        if name == "d":
            s.ghost["H"] = s.poly.norm(s.ghost["H"] * 10 + self.cell(I, s, "T", pos) - 48)
            self.limits(s)      # numbers that do not fit are not specified

    def overflow(self, I, s, ins, r, w):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if s.poly.bounds(r, lo, hi) or any(x.startswith("?") for x in r.syms()):
            return
        self.look(I, s)
        if ins["op"] != "trunc" and self.w < 32:
            return
        ok = s.poly.bounds(r, lo, hi) or ins["op"] == "trunc" and s.poly.bounds(r, 0, 2 * hi + 1)
        I.need(s, True if ok else None, "overflow", "a %d bit intermediate overflows for a number that fits the type (%s)" % (w, I.show(s, r)), ins, (r,))

    def look(self, I, s):
        if not s.ghost["res"]:
            self.absorb(I, s, "d")
            s.ghost["some"] = True if s.poly.entails_ge(s.ghost["hi:d"] - s.ghost["off"] - 1) else None

    def pre_head(self, I, s):
        self.look(I, s)

    def infeasible(self, I, s):
        if Txt.infeasible(self, I, s):
            return True
        # a remembered non-digit is not a digit
        for (n, a), v in s.facts.items():
            if n == "no:d" and a[0].r == "T":
                lo, hi = Lin.c(s.ghost["off"]), s.ghost["hi:d"]
                if s.poly.entails_ge(a[0].o - lo) and s.poly.entails_ge(hi - a[0].o - 1):
                    return True
        return False

    def decided_end(self, I, s, ins):
        """[(state, the digit run goes to the end of the text)]"""
        self.absorb(I, s, "d")
        hi = s.ghost["hi:d"]
        out = []
        for t, z in I.split_eq(s, N - hi):
            if not z and not self.refuted(I, t, "d", t.ghost["hi:d"]):
                if self.infeasible(I, t):
                    continue
                I.need(t, None, "digits-left", "the scan stops in front of %s, which may be a digit" % I.show(t, t.ghost["hi:d"]), ins)
            out.append((t, z))
        return out

    def view_at(self, I, s, ins, p, n, at):
        I.need(s, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "the rest is not a view of the text", ins, (p,))
        I.need_eq(s, p.o, at, "rest", "the rest must start behind the number", ins)
        I.need_eq(s, p.o + n, N, "rest", "the rest must end with the text", ins)

    def dflt(self):
        return ZERO if self.default is None else S("$d")

    def value(self, I, s, ins, v, some):
        x = s.ghost["H"] * s.ghost["sign"] if some else self.dflt()
        I.need_eq(s, v, x, "value", "value of the number" if some else "value without a number", ins)

    def c_num(self, I, s, ins, args):
        ok, v, p, n = args
        s.ghost["res"] += 1
        for t, end in self.decided_end(I, s, ins):
            hi = t.ghost["hi:d"]
            for u, some in I.split_ge(t, hi - s.ghost["off"] - 1):
                if self.infeasible(I, u):
                    continue
                self.view_at(I, u, ins, p, n, hi)
                self.value(I, u, ins, v, some)
                self.flag(I, u, ins, ok, some and end)

    def flag(self, I, s, ins, ok, want):
        if not getattr(self, "noflag", False):
            I.need_eq(s, ok, ONE if want else ZERO, "success", "the text %s one number" % ("is" if want else "is not"), ins)

    def c_val(self, I, s, ins, args):
        s.ghost["res"] += 1
        for t, end in self.decided_end(I, s, ins):
            for u, some in I.split_ge(t, t.ghost["hi:d"] - s.ghost["off"] - 1):
                if self.infeasible(I, u):
                    continue
                self.value(I, u, ins, args[0], some)
                if getattr(self, "verify", False):
                    I.need(u, (some and end) or None, "verified", "a text that is not a number is accepted", ins)

    def exit(self, I, s, kind, val):
        if kind == "return":
            I.need(s, s.ghost["res"] == 1 or None, "returns", "no result")
            return
        I.need(s, getattr(self, "verify", False) and s.ghost["res"] == 0 or None, "no-throw", "ends with an exception")
        for t, end in self.decided_end(I, s, None):
            for u, some in I.split_ge(t, t.ghost["hi:d"] - s.ghost["off"] - 1):
                if not self.infeasible(I, u):
                    self.reject(I, u, some, end)

    def reject(self, I, s, some, end):
        I.need(s, not (some and end) or None, "verified", "a number is rejected")


def num(w, signed=True, **kw):
    return type("Num", (Num,), dict(w=w, signed=signed, **kw))


class Flt(Num):
    """digits [. digits]; reals without rounding: V is the sum of digit * scale, the scale G starts at a tenth and is divided by ten"""
    w = 64
    scanners = {"d": ("T", digit, None, 1), "f": ("T", digit, None, 1)}
    slice_unroll = staticmethod(lambda k: 2 * k + 6)
    TENTH = S("$f1/10")

    def bind(self, I, s, f):
        s.ghost["V"] = ZERO
        s.ghost["G"] = self.TENTH
        s.ghost["frac"] = False
        out = Num.bind(self, I, s, f)
        return out

    def begin(self, s, sign, off, p):
        Num.begin(self, s, sign, off, p)

    # -- arithmetic on reals
    def real(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Tok) and isinstance(v.n, str) and v.n.startswith("fp:"):
            try:
                x = Fraction(v.n[3:])
            except ValueError:
                return None
            y = x.limit_denominator(10000)
            if x and abs(y - x) / abs(x) < Fraction(1, 10 ** 6):
                x = y
            return Lin.c(int(x)) if x.denominator == 1 else S("$f%s" % x)
        return None

    def prod(self, I, s, a, b):
        a, b = s.poly.norm(a), s.poly.norm(b)
        if a.is_const():
            return b * a.k
        if b.is_const():
            return a * b.k
        for p, q in ((a, b), (b, a)):
            r = I.get_fact(s, "fmul", (p, q))
            if r is not None:
                return r
        r = I.fresh("f", s=s)
        I.set_fact(s, "fmul", (a, b), r)
        return r

    def fp(self, I, s, ins, args):
        op = ins["op"]
        a = [self.real(x) for x in args]
        if any(x is None for x in a):
            return None
        if op in ("sitofp", "fpext", "fptrunc"):
            return a[0]
        if op == "fneg":
            return -a[0]
        if op == "fadd":
            return a[0] + a[1]
        if op == "fsub":
            return a[0] - a[1]
        if op == "fmuladd":
            return self.prod(I, s, a[0], a[1]) + a[2]
        if op == "fmul":
            return self.prod(I, s, *a)
        if op == "fdiv":
            k = s.poly.norm(a[1])
            if k.is_const() and k.k > 1:
                return self.prod(I, s, a[0], S("$f1/%s" % k.k))
        return None

    def advanced(self, I, s, name, pos):
        Num.advanced(self, I, s, name, pos)
        if name == "f":
            s.ghost["V"] = s.ghost["V"] + self.prod(I, s, s.ghost["G"], self.cell(I, s, "T", pos) - 48)
            s.ghost["G"] = self.prod(I, s, s.ghost["G"], self.TENTH)

    def look(self, I, s):
        if s.ghost["res"]:
            return
        self.absorb(I, s, "d")
        hi = s.ghost["hi:d"]
        if not s.ghost["frac"] and s.poly.entails_ge(N - hi - 1) and self.is_c(I, s, "T", hi, DOT) is True:
            s.ghost["frac"] = True
            self.reset(s, "f", s.poly.norm(hi + 1))
        if s.ghost["frac"]:
            self.absorb(I, s, "f")

    def infeasible(self, I, s):
        if s.ghost["frac"] and self.is_c(I, s, "T", s.ghost["hi:d"], DOT) is False:
            return True
        return Num.infeasible(self, I, s)

    def final(self, I, s, ins):
        """[(state, whole text consumed, rest position, digits)]"""
        out = []
        self.look(I, s)
        if s.ghost["frac"]:
            hi = s.ghost["hi:f"]
            for t, z in I.split_eq(s, N - hi):
                if not z and not self.refuted(I, t, "f", hi):
                    if self.infeasible(I, t):
                        continue
                    I.need(t, None, "digits-left", "the scan stops in front of %s, which may be a digit" % I.show(t, hi), ins)
                for u, e in I.split_eq(t, t.ghost["hi:d"] - t.ghost["off"]):
                    for v, f in I.split_eq(u, hi - u.ghost["hi:d"] - 1):
                        if not self.infeasible(I, v):
                            out.append((v, z, hi, not e or not f))
            return out
        for t, z in self.decided_end(I, s, ins):
            hi = t.ghost["hi:d"]
            for u, e in I.split_eq(t, hi - t.ghost["off"]):
                if z:
                    if not self.infeasible(I, u):
                        out.append((u, True, hi, not e))
                    continue
                for v, dot in I.split_eq(u, self.byte(I, u, "T", hi) - DOT):
                    if dot and not self.infeasible(I, v):
                        I.need(v, None, "digits-left", "a decimal point is not consumed", ins)
                    elif not dot and not self.infeasible(I, v):
                        out.append((v, False, hi, not e))
        return out

    def fvalue(self, I, s, ins, v, some):
        x = (s.ghost["H"] + s.ghost["V"]) * s.ghost["sign"]
        r = self.real(v) if isinstance(v, Tok) else v
        I.need(s, True if isinstance(r, Lin) else None, "value", "no real value (%s)" % I.show(s, v), ins, (v,))
        v = r
        I.need_eq(s, v, x, "value", "value of the number", ins)

    def c_flt(self, I, s, ins, args):
        ok, v, p, n = args
        for t, end, at, some in self.final(I, s, ins):
            self.view_at(I, t, ins, p, n, at)
            self.fvalue(I, t, ins, v, some)
            if some or not end or t.poly.entails_eq(N):
                self.flag(I, t, ins, ok, end and some)
        s.ghost["res"] += 1

    def c_fval(self, I, s, ins, args):
        for t, end, at, some in self.final(I, s, ins):
            self.fvalue(I, t, ins, args[0], some)
            if getattr(self, "verify", False):
                I.need(t, (end and not t.poly.entails_eq(N)) or None, "verified", "a text that is not a number is accepted", ins)
        s.ghost["res"] += 1

    def exit(self, I, s, kind, val):
        if kind == "return":
            I.need(s, s.ghost["res"] == 1 or None, "returns", "no result")
            return
        I.need(s, getattr(self, "verify", False) and s.ghost["res"] == 0 or None, "no-throw", "ends with an exception")
        for t, end, at, some in self.final(I, s, None):
            I.need(t, not (some and end) or None, "verified", "a number is rejected")


class Boo(Txt):
    """true and false in any letter case"""
    default = ZERO
    verify = False
    slice_unroll = staticmethod(lambda k: 2 * k + 6)

    def word(self, I, s, w, i=0):
        """[(state, the text from i on is the word)]"""
        if i == len(w):
            return I.split_eq(s, N - i)
        out = []
        for t, ge in I.split_ge(s, N - i - 1):
            if not ge:
                out.append((t, False))
                continue
            for u, k in self.letter(I, t, i, w[i]):
                out += self.word(I, u, w, i + 1) if k else [(u, False)]
        return out

    def letter(self, I, s, i, c):
        b = self.byte(I, s, "T", Lin.c(i))
        out = []
        for t, lo in I.split_eq(s, b - ord(c)):
            out += [(t, True)] if lo else I.split_eq(t, b - ord(c) + 32)
        return out

    def bind(self, I, s, f):
        """the cases are kept apart from the start: ghost w is 1, 0 (the words) or None; lead: the text begins like one"""
        Txt.bind(self, I, s, f)
        s.ghost["res"] = 0
        out = []
        for t, y in self.word(I, s, "true"):
            for u, n in ([(t, False)] if y else self.word(I, t, "false")):
                u.ghost["w"] = 1 if y else 0 if n else None
                if y or n:
                    u.ghost["lead"] = True
                    out.append(u)
                    continue
                for v, ge in I.split_ge(u, N - 1):
                    for x, k in (self.letter(I, v, 0, "t") if ge else [(v, False)]):
                        for z, j in (self.letter(I, x, 0, "f") if ge and not k else [(x, k)]):
                            z.ghost["lead"] = k or j
                            out.append(z)
        return out

    def c_boo(self, I, s, ins, args):
        ok, v, p, n = args
        w = s.ghost["w"]
        I.need(s, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "the rest is not a view of the text", ins, (p,))
        I.need_eq(s, ok, ZERO if w is None else ONE, "success", "the text is %s" % ("neither true nor false" if w is None else "true" if w else "false"), ins)
        I.need_ge(s, p.o, "view-inside", "the rest starts in front of the text", ins)
        I.need_ge(s, N - p.o, "view-inside", "the rest starts behind the text", ins)
        I.need_eq(s, p.o + n, N, "rest", "the rest must end with the text", ins)
        if w is not None:
            I.need_eq(s, v, Lin.c(w), "value", "value of the flag", ins)
            I.need_eq(s, n, ZERO, "rest", "the word must be consumed", ins)
        elif not s.ghost["lead"]:
            I.need_eq(s, v, self.default, "value", "value of a text that is not a flag", ins)
            I.need_eq(s, p.o, ZERO, "rest", "a text that is not a flag is not consumed", ins)
        s.ghost["res"] += 1

    def c_bval(self, I, s, ins, args):
        w = s.ghost["w"]
        if w is not None:
            I.need_eq(s, args[0], Lin.c(w), "value", "value of the flag", ins)
        elif self.verify:
            I.need(s, None, "verified", "a text that is neither true nor false is accepted", ins)
        elif not s.ghost["lead"]:
            I.need_eq(s, args[0], self.default, "value", "value of a text that is not a flag", ins)
        s.ghost["res"] += 1

    def exit(self, I, s, kind, val):
        if kind == "return":
            I.need(s, s.ghost["res"] == 1 or None, "returns", "no result")
            return
        I.need(s, self.verify and s.ghost["res"] == 0 or None, "no-throw", "ends with an exception")
        I.need(s, s.ghost["w"] is None or None, "verified", "a flag is rejected")


def boo(**kw):
    return type("Boo", (Boo,), kw)


class Whole(Txt):
    """the argument is the whole text"""
    def start(self, I, s):
        s.ghost["res"] = 0

    def c_out(self, I, s, ins, args):
        p, n = args
        I.need_eq(s, n, N, "extent", "length of the text", ins)
        for t, z in I.split_eq(s.copy(), N):
            if not z:
                I.need(t, True if isinstance(p, Ptr) and p.r == "T" and t.poly.entails_eq(p.o) else None, "extent", "start of the text", ins, (p,))
        s.ghost["res"] += 1

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" and s.ghost["res"] == 1 or None, "returns", "no result")


class Path(Whole):
    def call(self, I, s, ins, name, dem, args):
        if "path::" in dem and ("operator=<" in dem or "assign<" in dem or "::path<" in dem):
            if "basic_string_view" in dem:
                n = I.load(s, ins, args[1], 8, "i64")
                p = I.load(s, ins, Ptr(args[1].r, args[1].o + 8), 8, "ptr")
                self.c_out(I, s, ins, (p, n))
                return [(s, args[0])]
            if dem.rstrip(")").endswith("char const* const&") or "<char const*" in dem:
                return self.nul(I, s, ins, [I.load(s, ins, args[1], 8, "ptr")])
        return Txt.call(self, I, s, ins, name, dem, args)

    def exit(self, I, s, kind, val):
        # other ways to assign a path are not modelled
        I.need(s, kind == "return" or None, "returns", "no result")


D = dict(default=1)
JOBS = [("p_int", num(32, **D)), ("p_uint", num(32, False, **D)), ("p_long", num(64, **D)), ("p_ulong", num(64, False, **D)),
        ("p_short", num(16, **D)), ("p_u16", num(16, False, **D)), ("p_s8", num(8, **D)), ("p_u8", num(8, False, **D)),
        ("p_int0", num(32)), ("v_int", num(32)), ("v_intd", num(32, **D)), ("v_intv", num(32, verify=True)), ("v_ints", num(32, noflag=True)),
        ("v_u8v", num(8, False, verify=True)),
        ("f_double", Flt), ("f_float", Flt), ("f_v", Flt), ("f_vv", type("F", (Flt,), dict(verify=True))),
        ("b_0", Boo), ("b_1", boo(default=ONE)), ("b_v", Boo), ("b_v1", boo(default=ONE)), ("b_vv", boo(verify=True)),
        ("a_cstr", Whole), ("a_str", Whole), ("a_path", Path)]


def run():
    c = Check("P04", "number automaton: the value is the Horner sum of the digit run behind the sign, the rest starts behind it, success is reported exactly if the whole text is one number; words true and false in any letter case")
    only = os.environ.get("ONLY")
    c.min_sites = 0 if only else 60
    m = c.module("num.cc", "keep_text.txt", CISTA)
    c.par([lambda a=a: c.analyse(m, a[0], a[1], unroll=10 if issubclass(a[1], Num) else 6) for a in JOBS if not only or a[0] in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
