#!/usr/bin/env python3
"""L01 log statements and timers: one complete line per statement, true stamps and spans, finish logged once on every way out."""
import os
import re
import sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *

STAMP = "%Y-%m-%dT%H:%M:%SZ%z"
T = "<time>"


def line(level, n, text, file="log.cc"):
    return "[%s][%s][%s:%s] %s" % (level, T, file, n, text)


class Log(Monitor):
    taint = True
    want = ()            # what is due: lines and "WORK"
    last = ()            # what is still due when work() throws
    broken = None        # the line that is due if a << throws
    stamp_only = False

    def bind(self, I, s, f):
        for a in f.fn.args:
            n = a["name"]
            if a["ty"] == "ptr":
                r = "ARG:" + n.split(".")[0]
                s.rinfo[r] = RInfo(None, "ext")
                f.regs[a["id"]] = Ptr(r)
                s.ghost["S:%s+0" % r] = "<%s>" % n.split(".")[0]
                if n.endswith("coerce1"):
                    s.rinfo["TXT:<%s>" % n.split(".")[0]] = RInfo(None, "ext")
                    f.regs[a["id"]] = Ptr("TXT:<%s>" % n.split(".")[0])
            elif n.endswith("coerce0"):
                v = self.length(s, "<%s>" % n.split(".")[0])
                f.regs[a["id"]] = v
            else:
                v = S("$" + n)
                if a["ty"] == "i1":
                    s.poly.add_ge(v)
                    s.poly.add_ge(1 - v)
                f.regs[a["id"]] = v
        s.ghost.update(text="", seq=(), clock=0, mark=0, secs=0, thrown=0, vals=0, unw=0)

    def mode(self, I, s):
        return ()

    def length(self, s, text):
        if "<" not in text:
            return Lin.c(len(text))
        v = S("$len" + text)
        s.poly.add_ge(v)
        return v

    def init_cell(self, I, s, region, off, size, ty):
        """a number the program keeps from earlier calls is any number"""
        if isinstance(region, str) and region.startswith("g:") and ty in ("i64", "i32", "i8"):
            v = I.fresh("kept", s=s)
            if region.startswith("g:_ZGV"):
                s.poly.add_ge(v)
                s.poly.add_ge(1 - v)
            return v
        return None

    # -- texts
    def key(self, s, p):
        if not isinstance(p, Ptr):
            return None
        o = s.poly.norm(p.o)
        return "S:%s+%s" % (p.r, o.k) if o.is_const() else None

    def literal(self, I, s, ins, p, n):
        out = []
        for i in range(n):
            c = s.poly.norm(I.load(s, ins, Ptr(p.r, p.o + i), 1, "i8"))
            if not isinstance(c, Lin) or not c.is_const():
                return None
            out.append(chr(int(c.k) % 256))
        return "".join(out)

    def cstring(self, I, s, ins, p, most=400):
        """the constant C string at p"""
        if not isinstance(p, Ptr) or not isinstance(p.r, str) or not p.r.startswith("g:"):
            return None
        out = ""
        while len(out) < most:
            c = self.literal(I, s, ins, Ptr(p.r, p.o + len(out)), 1)
            if c is None:
                return None
            if ord(c) == 0:
                return out
            out += c
        return None

    def piece(self, I, s, ins, p, n):
        """the text of n bytes at p"""
        n = s.poly.norm(n)
        if isinstance(p, Ptr) and isinstance(p.r, str) and p.r.startswith("TXT:"):
            t = p.r[4:]
            if bool(s.poly.entails_eq(p.o)) and bool(s.poly.entails_eq(n - self.length(s, t))):
                return t
            return None
        if isinstance(p, Ptr) and ("B:%s" % (p.r,)) in s.ghost:
            t = s.ghost["B:%s" % (p.r,)]
            if bool(s.poly.entails_eq(n)):
                return ""
            if t and bool(s.poly.entails_eq(p.o)) and bool(s.poly.entails_eq(n - self.length(s, t))):
                return t
            return None
        if n.is_const() and 0 <= n.k < 400 and isinstance(p, Ptr):
            return self.literal(I, s, ins, p, int(n.k))
        return None

    def put(self, I, s, ins, t):
        G = s.ghost
        if t is None:
            I.need(s, None, "text", "something else than the whole of a part is written to the log", ins)
            t = "<?>"
        while "\n" in t:
            a, t = t.split("\n", 1)
            self.step(I, s, ins, G["text"] + a)
            G["text"] = ""
        G["text"] += t
        if len(G["text"]) > 600:
            raise AnalysisError("log line without end")

    def plans(self):
        w = self.want
        out = [tuple(w)]
        for i, x in enumerate(w):
            if x == "WORK":
                out.append(tuple(w[:i + 1]) + tuple(self.last))
        if self.broken:
            out.append((self.broken,))
        return out

    def same(self, a, b):
        return a == b or b.startswith("~") and re.fullmatch(b[1:], a) is not None

    def step(self, I, s, ins, x):
        q = s.ghost["seq"] + (x,)
        s.ghost["seq"] = q
        ok = any(len(p) >= len(q) and all(self.same(a, b) for a, b in zip(q, p)) for p in self.plans())
        I.need(s, ok or None, "line", "the log line written is not the one due: %s" % x, ins)

    def exit(self, I, s, kind, val):
        q = s.ghost["seq"]
        ok = [p for p in self.plans() if len(p) == len(q) and all(self.same(a, b) for a, b in zip(q, p))]
        if kind == "return":
            I.need(s, (tuple(self.want) in ok) or None, "lines", "lines are missing at the end")
        else:
            I.need(s, (any(p in ok for p in self.plans()[1:])) or None, "lines", "lines are missing when an exception leaves")
        I.need(s, (s.ghost["text"] == "") or None, "line-end", "the last line is not ended")
        if self.stamp_only:
            I.need(s, bool(s.ghost["vals"]) or None, "stamp", "no text is returned")

    # -- clocks
    def now(self, I, s):
        n = s.ghost["clock"]
        v = S("$T%d" % n)
        s.poly.add_ge(v - (S("$T%d" % (n - 1)) if n else Lin.c(0)))
        s.poly.add_ge(Lin.c(2 ** 61) - v)
        s.ghost["clock"] = n + 1
        return v

    def fpval(self, s, x):
        """(number, factor) of a product of an integer and constants"""
        if isinstance(x, Tok):
            k = x.n
            if isinstance(k, tuple) and k and k[0] == "fp":
                if k[1] in ("sitofp", "uitofp"):
                    return k[2], Fraction(1)
                if k[1] in ("fdiv", "fmul"):
                    a, b = self.fpval(s, k[2]), self.fpval(s, k[3])
                    if a and b:
                        if k[1] == "fmul":
                            if isinstance(a[0], Lin) and a[0].is_const():
                                a, b = b, a
                            if isinstance(b[0], Lin) and b[0].is_const():
                                return a[0], a[1] * b[1] * Fraction(b[0].k)
                        elif isinstance(b[0], Lin) and b[0].is_const() and b[0].k * b[1] != 0:
                            return a[0], a[1] / (b[1] * Fraction(b[0].k))
                return None
        c = self.fconst(x)
        return None if c is None else (Lin.c(1), c)

    def fconst(self, x):
        if isinstance(x, Tok) and isinstance(x.n, str) and x.n.startswith("fp:"):
            try:
                return Fraction(x.n[3:]).limit_denominator(10 ** 9)
            except ValueError:
                pass
        return None

    def within(self, I, s, v, scale):
        """v * scale milliseconds is the span since the start, up to a microsecond"""
        n = s.ghost["clock"]
        x = v * (scale * 10 ** 6)
        for k in range(max(1, s.ghost["mark"]), n):
            d = S("$T%d" % k) - S("$T0")
            if bool(s.poly.entails_ge(d - x)) and bool(s.poly.entails_ge(x - d + 999)):
                return True
        return False

    def c_work(self, I, s, ins, args):
        t = s.copy()
        out = []
        for u, r in ((s, None), (t, THROW)):
            self.step(I, u, ins, "WORK")
            u.ghost["mark"] = u.ghost["clock"]
            u.ev("work" if r is None else "work throws")
            if r is THROW:
                u.ghost["unw"] = 1
                u.exc = Ptr("EXC")
                u.rinfo["EXC"] = RInfo(None, "ext")
            out.append((u, r))
        return out

    def c_put_loud(self, I, s, ins, args):
        t = s.copy()
        self.put(I, s, ins, "<loud>")
        t.ghost["unw"] = 1
        t.exc = Ptr("EXC")
        t.rinfo["EXC"] = RInfo(None, "ext")
        t.ev("<< throws")
        return [(s, args[0]), (t, THROW)]

    spans = {1000000: (1, 0, 1000000), 1000: (1, 0, 1000)}

    def c_value(self, I, s, ins, args):
        b, a, unit = self.spans[int(s.poly.norm(args[1]).k)]
        ok = s.ghost["clock"] > b
        if ok:
            d = S("$T%d" % b) - S("$T%d" % a)
            ok = bool(s.poly.entails_ge(d - args[0] * unit)) and bool(s.poly.entails_ge(args[0] * unit + (unit - 1) - d))
        I.need(s, ok or None, "span", "the time span is not that between the two marks in its unit", ins)
        s.ghost["vals"] += 1
        return [(s, None)]

    def c_given(self, I, s, ins, args):
        t = s.ghost.get(self.key(s, args[0]))
        I.need(s, (t == T or t == "" and bool(s.ghost.get("nofit"))) or None, "stamp", "the text returned is not the time stamp", ins)
        s.ghost["vals"] += 1
        return [(s, None)]

    def c_time(self, I, s, ins, args):
        v = S("$now%d" % s.ghost["secs"])
        s.ghost["secs"] += 1
        s.poly.add_ge(v)
        s.poly.add_ge(Lin.c(250000000000) - v)
        if isinstance(args[0], Ptr):
            I.store(s, ins, args[0], 8, v)
        return [(s, v)]

    def c_gmtime_r(self, I, s, ins, args):
        v = I.load(s, ins, args[0], 8, "i64")
        if self.stamp_only and self.arg:
            ok = s.poly.entails_eq(v - S("$t"))
        else:
            n = s.ghost["secs"]
            ok = bool(n) and s.poly.entails_eq(v - S("$now%d" % (n - 1)))
            if not ok and "sys" in s.ghost:
                c = s.ghost["sys"]
                ok = bool(s.poly.entails_ge(c - v * 10 ** 9)) and bool(s.poly.entails_ge(v * 10 ** 9 + 999999999 - c))
        I.need(s, bool(ok) or None, "stamp", "the time stamp is not that of the time asked for", ins)
        s.ghost["tm:%s" % (args[1].r,)] = 1
        return [(s, args[1])]

    arg = False

    def c_strftime(self, I, s, ins, args):
        fmt = self.cstring(I, s, ins, args[2])
        if fmt is None:
            raise AnalysisError("time format")
        fmt = fmt.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S")
        I.need(s, (fmt == STAMP) or None, "stamp", "the form of the time stamp changes: " + fmt, ins)
        I.need(s, bool(s.ghost.get("tm:%s" % (args[3].r,))) or None, "stamp", "the time stamp is not in UTC", ins)
        room = s.poly.norm(args[1])
        I.need_ge(s, room - 26, "stamp", "the buffer is too small for a time stamp", ins) if hasattr(I, "need_ge") else I.need(s, bool(s.poly.entails_ge(room - 26)) or None, "stamp", "the buffer is too small for a time stamp", ins)
        size = s.rinfo[args[0].r].size
        I.need(s, (size is not None and bool(s.poly.entails_ge(size - args[0].o - room))) or None, "bounds", "more room is claimed than the buffer has", ins)
        out = []
        if self.arg:
            t = s.copy()
            t.ghost["B:%s" % (args[0].r,)] = ""          # a year that does not fit: the buffer is indeterminate
            t.ghost["nofit"] = 1
            t.ev("the time stamp does not fit")
            out.append((t, ZERO))
        s.ghost["B:%s" % (args[0].r,)] = T
        n = self.length(s, T)
        s.poly.add_ge(n - 1)
        s.poly.add_ge(25 - n)
        return out + [(s, n)]

    def c_strlen(self, I, s, ins, args):
        p = args[0]
        t = self.cstring(I, s, ins, p)
        if t is not None:
            return [(s, Lin.c(len(t)))]
        if isinstance(p, Ptr) and "B:%s" % (p.r,) in s.ghost:
            t = s.ghost["B:%s" % (p.r,)]
            I.need(s, bool(t) or None, "stamp", "the buffer is read although no time stamp was written", ins)
            return [(s, self.length(s, t))]
        if isinstance(p, Ptr) and p.r == "ARG:p":
            return [(s, self.length(s, "<p>"))]
        v = I.fresh("strlen", s=s)
        s.poly.add_ge(v)
        return [(s, v)]

    def c_strrchr(self, I, s, ins, args):
        t = self.cstring(I, s, ins, args[0])
        c = s.poly.norm(args[1])
        if t is None or not c.is_const():
            return None
        i = t.rfind(chr(int(c.k)))
        return [(s, ZERO if i < 0 else Ptr(args[0].r, args[0].o + i))]

    def stream(self, I, s, ins, dem, args):
        head = dem.split("(")[0]
        if "<<" in head:
            head = dem[:dem.index("<<") + 2]
        self.on_log(I, s, ins, args[0])
        if "__ostream_insert" in head or head.endswith("::write"):
            p = args[1]
            if isinstance(p, Ptr) and p.r == "ARG:p" and bool(s.poly.entails_eq(args[2] - self.length(s, "<p>"))):
                self.put(I, s, ins, "<p>")
            else:
                self.put(I, s, ins, self.piece(I, s, ins, p, args[2]))
        elif head.endswith("::put"):
            c = s.poly.norm(args[1])
            self.put(I, s, ins, chr(int(c.k) % 256) if c.is_const() else None)
        elif head.endswith("::flush") or head == "std::flush":
            pass
        elif "endl" in head:
            self.put(I, s, ins, "\n")
        elif "<<" in head or "_M_insert" in head:
            a = args[1]
            sig = dem[dem.index("<<") + 2:] if "<<" in dem else dem
            fn = getattr(a, "name", "")
            if "4endl" in fn:
                self.put(I, s, ins, "\n")
            elif "5flush" in fn:
                pass
            elif isinstance(a, Ptr):
                k = self.key(s, a)
                if "basic_string<" in sig and k in s.ghost:
                    self.put(I, s, ins, s.ghost[k])
                elif a.r == "ARG:p":
                    self.put(I, s, ins, "<p>")
                else:
                    self.put(I, s, ins, self.cstring(I, s, ins, a))
            elif len(args) > 2 and isinstance(args[2], Ptr):       # a string_view by value
                self.put(I, s, ins, self.piece(I, s, ins, args[2], a))
            elif isinstance(a, Lin) and ("(char)" in dem or "char)" in sig):
                c = s.poly.norm(a)
                self.put(I, s, ins, chr(int(c.k) % 256) if c.is_const() else None)
            elif isinstance(a, Lin) and "double" not in dem and "float" not in dem:
                c = s.poly.norm(a)
                self.put(I, s, ins, str(int(c.k)) if c.is_const() else "<b>" if bool(s.poly.entails_eq(a - S("$b"))) else None)
            else:
                v = self.fpval(s, a)
                ok = v is not None and isinstance(v[0], Lin) and self.within(I, s, v[0], v[1])
                I.need(s, ok or None, "span", "the time printed is not the milliseconds since the start", ins)
                self.put(I, s, ins, "<ms>")
        else:
            raise AnalysisError("stream operation " + dem[:80])
        return [(s, None if ins["ty"] == "void" else args[0])]

    def on_log(self, I, s, ins, o):
        r = o.r if isinstance(o, Ptr) and isinstance(o.r, str) else ""
        if r not in ("g:_ZSt4clog", "g:_ZSt4cerr", "g:_ZSt4cout"):
            raise AnalysisError("a stream other than the standard ones")
        I.need(s, (r == "g:_ZSt4clog") or None, "stream", "a part is written to another stream than std::clog", ins)

    def string(self, I, s, ins, dem, args):
        G = s.ghost
        head = dem.replace("std::__cxx11::", "std::")
        op = re.sub(r"^std::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>::", "", head).split("(")[0].split("<")[0].strip()
        k = self.key(s, args[0])
        if op == "~basic_string":
            return [(s, None)]
        if op == "basic_string" or op in ("operator=", "assign"):
            t = None
            if len(args) == 1:
                t = ""
            elif self.key(s, args[1]) in G and "basic_string<" in head.split("(", 1)[1]:
                t = G[self.key(s, args[1])]
                if "&&" in head.split("(", 1)[1]:
                    G[self.key(s, args[1])] = "<moved-from>"
            elif len(args) >= 3 and isinstance(args[2], Lin):
                t = self.piece(I, s, ins, args[1], args[2])
            elif isinstance(args[1], Ptr) and "B:%s" % (args[1].r,) in G:
                t = G["B:%s" % (args[1].r,)]
                I.need(s, bool(t) or None, "stamp", "the buffer is read although no time stamp was written", ins)
            else:
                t = self.cstring(I, s, ins, args[1])
            if t is None:
                raise AnalysisError("string operation " + dem[:90])
            G[k] = t
            return [(s, None if ins["ty"] == "void" else args[0])]
        if k in G and op in ("size", "length"):
            return [(s, self.length(s, G[k]))]
        if k in G and op in ("data", "c_str"):
            r = "TXT:" + G[k]
            s.rinfo[r] = RInfo(None, "ext")
            return [(s, Ptr(r))]
        if k in G and op.startswith("operator std::basic_string_view") or "operator std::basic_string_view" in head:
            r = "TXT:" + G[k]
            s.rinfo[r] = RInfo(None, "ext")
            return [(s, Agg((self.length(s, G[k]), Ptr(r))))]
        raise AnalysisError("string operation " + dem[:90])

    def call(self, I, s, ins, name, dem, args):
        h = getattr(self, "c_" + name, None)
        if h is not None:
            r = h(I, s, ins, args)
            if r is not None:
                return r
        if "steady_clock::now" in dem or "high_resolution_clock::now" in dem:
            return [(s, self.now(I, s))]
        if "system_clock::now" in dem:
            v = I.fresh("sys", s=s)
            s.poly.add_ge(v)
            s.poly.add_ge(Lin.c(2 ** 62) - v)
            s.ghost["sys"] = v
            return [(s, v)]
        if dem.startswith("std::uncaught_exception"):
            return [(s, Lin.c(s.ghost["unw"]))]
        if "::widen(" in dem:
            return [(s, args[1])]
        d = dem.replace("std::__cxx11::", "std::")
        if "std::basic_ostream<" in d.split("(")[0] or "__ostream_insert" in d or "std::ostream" in d.split("(")[0] or d.startswith(("std::operator<<", "std::endl", "std::flush")):
            return self.stream(I, s, ins, dem, args)
        if d.startswith("std::basic_string<"):
            return self.string(I, s, ins, dem, args)
        if d.startswith("std::allocator<") or "new_allocator" in d:
            return [(s, None)]
        return None


def log(*want, **kw):
    return type("Log", (Log,), dict(kw, want=tuple(want)))


def timer(text):
    return "~" + re.escape(line("info", "@", text, "timer.cc")).replace("@", r"[0-9]+")


START, DONE, PRINT = timer("[<n>] starting"), timer("[<n>] finished (<ms>ms)"), timer("[<n>] <m> (<ms>ms)")
NAMES = [("emrg", "emrg"), ("alrt", "alrt"), ("crit", "crit"), ("err", "erro"), ("warn", "warn"), ("notice", "note"), ("info", "info"), ("debug", "debg")]
ENTRIES = [("l_" + n, log(line(t, 101 + i, "m"))) for i, (n, t) in enumerate(NAMES)] + [
    ("l_parts", log(line("info", 109, "<a> is <b>!"))), ("l_lvalue", log(line("warn", 110, "<p><p>"))),
    ("l_two", log(line("info", 111, "m"), line("erro", 111, "n"))), ("l_empty", log(line("debg", 112, ""))),
    ("l_throw", log(line("info", 113, "a<loud>b"), broken=line("info", 113, "a"))),
    ("l_bool", log("~" + re.escape(line("info", 114, "m")) + "|" + re.escape(line("warn", 114, "n")))),
    ("t_scoped", log(START, "WORK", DONE, last=(DONE,))), ("t_scoped_print", log(START, "WORK", PRINT, "WORK", PRINT, DONE, last=(DONE,))),
    ("t_manual", log(START, "WORK", DONE)), ("t_manual_print", log(START, "WORK", PRINT, "WORK", DONE)),
    ("t_manual_twice", log(START, "WORK", DONE, "WORK", DONE)), ("t_manual_silent", log(START, "WORK")),
    ("m_ms", log("WORK")), ("m_us", log("WORK")), ("m_get_ms", log("WORK")), ("m_get_us", log("WORK")),
    ("m_two", log("WORK", "WORK", "WORK", spans={1000: (2, 0, 1000), 1001: (3, 1, 1000)})),
    ("d_time", log(stamp_only=True, arg=True)), ("d_now", log(stamp_only=True)),
]


def run():
    c = Check("L01", "line automaton over everything written to the log stream, clock readings and time stamps as symbols")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 20
    c.assumptions = ["writing to std::clog does not throw", "the steady clock does not go back", "the present has a four-digit year"]
    m = c.module("log.cc", "keep_log.txt")
    c.par([lambda e=e, k=k: c.analyse(m, e, k) for e, k in ENTRIES if not only or e in only.split(",")])
    if not only:
        c.static_asserts("types", '#include <type_traits>\n#include "utl/timer.h"\n', [
            ("copy", "!std::is_copy_constructible_v<utl::scoped_timer> && !std::is_move_constructible_v<utl::scoped_timer>", "a scoped timer can be copied: its end is logged twice"),
            ("assign", "!std::is_copy_assignable_v<utl::scoped_timer> && !std::is_move_assignable_v<utl::scoped_timer>", "a scoped timer can be assigned: its end is logged twice")])
    return c.finish()


if __name__ == "__main__":
    main(run)
