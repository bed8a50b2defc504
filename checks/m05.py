#!/usr/bin/env python3
"""M05 names: texts fixed at compile time, enumerator names and thread names come out exactly as written."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *

ENUMS = [("one", ["A"]), ("two", ["A", "BC"]), ("tight", ["A", "BC", "D"]), ("wide", ["A", "BC", "D", "EFG", "H"]), ("prefix", ["AA", "A", "AAA", "AA_A", "A1"]),
         ("twelve", ["M_" + x for x in "ABCDEFGHIJKL"]), ("trailing", ["LONG_NAME_OF_AN_ENUMERATOR_IN_CAPITALS", "shorter"])]
STR = re.compile(r"std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>\s*>")
NPOS = (1 << 64) - 1


class Names(Monitor):
    """every string is a known text: the characters stay constants, nothing is joined"""
    taint = True
    enum = val = 0
    want = ""
    due = ()

    def bind(self, I, s, f):
        for a in f.fn.args:
            x = a["name"].split(".")[0]
            if x == "e":
                v = Lin.c(self.enum)
            elif x == "v":
                v = Lin.c(self.val)
            else:
                v = Ptr("ARG:" + x)
                s.rinfo["ARG:" + x] = RInfo(None, "ext")
            f.regs[a["id"]] = v
        s.ghost["seen"] = ()

    def head(self, I, s):
        """everything is known: no two iterations are the same"""
        s.ghost["k"] = s.ghost.get("k", 0) + 1
        if s.ghost["k"] > 3000:
            raise AnalysisError("loop without end")

    def init_cell(self, I, s, region, off, size, ty):
        if isinstance(region, str) and region.startswith("TX:") and size == 1:
            o = s.poly.norm(off)
            t = region[3:].split(":", 1)[1] + "\0"
            if o.is_const() and 0 <= o.k < len(t):
                c = ord(t[int(o.k)])
                return Lin.c(c - 256 if c > 127 else c)
        if region == "NAME" and size == 1:
            return I.fresh("char", s=s)
        if region == "ARG:t" and size == 8:
            return Tok("handle")
        return None

    def key(self, s, p):
        if not isinstance(p, Ptr):
            return None
        o = s.poly.norm(p.o)
        return "S:%s+%s" % (p.r, o.k) if o.is_const() else None

    def chars(self, I, s, ins, p, k):
        out = []
        for i in range(k):
            c = s.poly.norm(I.load(s, ins, Ptr(p.r, p.o + i), 1, "i8"))
            if not isinstance(c, Lin) or not c.is_const():
                return None
            out.append(chr(int(c.k) % 256))
        return "".join(out)

    def cstr(self, I, s, ins, p):
        out = ""
        while isinstance(p, Ptr) and len(out) < 4000:
            c = self.chars(I, s, ins, Ptr(p.r, p.o + len(out)), 1)
            if c is None:
                return None
            if c == "\0":
                return out
            out += c
        return None

    def make(self, I, s, this, text):
        s.ghost["n"] = s.ghost.get("n", 0) + 1
        r = "TX:%d:%s" % (s.ghost["n"], text)
        s.rinfo[r] = RInfo(Lin.c(len(text) + 1), "heap")
        s.ghost[self.key(s, this)] = r
        return r

    def region(self, s, this):
        return s.ghost.get(self.key(s, this))

    def length(self, s, r):
        return len(r[3:].split(":", 1)[1])

    def text(self, I, s, ins, p):
        r = self.region(s, p)
        return self.chars(I, s, ins, Ptr(r), self.length(s, r)) if r else None

    def num(self, s, v):
        if isinstance(v, Lin):
            v = s.poly.norm(v)
            if v.is_const():
                return int(v.k) % (1 << 64)
        return None

    def said(self, I, s, ins, what, t):
        I.need(s, (t == self.want) or None, "name", "%s is %r instead of %r" % (what, t, self.want), ins)
        s.ghost["seen"] += (what,)

    def call(self, I, s, ins, name, dem, args):
        if name == "named":
            self.said(I, s, ins, "the name", self.text(I, s, ins, args[0]))
            return [(s, None)]
        if name == "put":
            I.need(s, (isinstance(args[0], Ptr) and args[0].r == "ARG:o") or None, "stream", "the result is not the stream written to", ins)
            s.ghost["seen"] += ("stream",)
            return [(s, None)]
        if "__ostream_insert" in dem or dem.startswith("std::basic_ostream") and "::write(" in dem:
            k = self.num(s, args[2])
            I.need(s, (isinstance(args[0], Ptr) and args[0].r == "ARG:o") or None, "stream", "written to another stream", ins)
            self.said(I, s, ins, "the text written", self.chars(I, s, ins, args[1], k) if k is not None and k < 300 else None)
            return [(s, args[0])]
        if "operator<<" in dem and "basic_string<" in dem:
            I.need(s, (isinstance(args[0], Ptr) and args[0].r == "ARG:o") or None, "stream", "written to another stream", ins)
            self.said(I, s, ins, "the text written", self.text(I, s, ins, args[1]))
            return [(s, args[0])]
        if name == "pthread_self":
            return [(s, Tok("self"))]
        if name == "pthread_setname_np":
            I.need(s, (args[0] == Tok("handle" if self.due[0] == "t" else "self")) or None, "thread", "another thread is named", ins)
            I.need(s, (isinstance(args[1], Ptr) and args[1].r == "NAME" and bool(s.poly.entails_eq(args[1].o))) or None, "name", "the thread does not get the name given", ins)
            s.ghost["seen"] += ("thread",)
            return [(s, I.fresh("rc", s=s))]
        if STR.search(dem) or "basic_string<" in dem:
            return self.string(I, s, ins, dem, args)
        if name in ("strlen",):
            t = self.cstr(I, s, ins, args[0])
            return None if t is None else [(s, Lin.c(len(t)))]
        if name in ("memchr",):
            k = self.num(s, args[2])
            t = self.chars(I, s, ins, args[0], k) if k is not None and k < 300 else None
            c = self.num(s, args[1])
            if t is None or c is None:
                return None
            i = t.find(chr(c % 256))
            return [(s, ZERO if i < 0 else Ptr(args[0].r, args[0].o + i))]
        return None

    def string(self, I, s, ins, dem, args):
        head = STR.sub("S", dem)
        m = re.search(r"S::(~?\w+|operator\S+?)(?:<.*)?\(", head)
        op = m.group(1) if m else ""
        sig = head[m.end():] if m else ""
        this = args[0]
        r = self.region(s, this)
        num = [self.num(s, a) for a in args]
        if op.startswith("~"):
            return [(s, None)]
        if op == "basic_string":
            if len(args) >= 3 and "__normal_iterator" in sig.split(",")[0] or len(args) >= 3 and isinstance(args[2], Ptr) and isinstance(args[1], Ptr) and args[1].r == args[2].r and "allocator" not in sig.split(",")[1]:
                a, b = args[1], args[2]
                d = self.num(s, b.o - a.o) if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r else None
                I.need(s, (d is not None and d < 300) or None, "range", "a string is made from something that is not a range", ins)
                t = self.chars(I, s, ins, a, d) if d is not None and d < 300 else None
            elif sig.startswith("S const&") or sig.startswith("S&&"):
                t = self.text(I, s, ins, args[1])
                if t is not None and len(args) > 2 and num[2] is not None and "unsigned long" in sig:
                    t = t[num[2]:][:num[3] if len(args) > 3 and num[3] is not None else None]
            elif sig.startswith("char const*, unsigned long"):
                t = self.chars(I, s, ins, args[1], num[2]) if num[2] is not None and num[2] < 300 else None
            elif sig.startswith("char const*"):
                t = self.cstr(I, s, ins, args[1])
            elif sig.startswith("unsigned long, char"):
                t = chr(num[2] % 256) * num[1] if num[1] is not None and num[2] is not None and num[1] < 300 else None
            elif sig.startswith(")"):
                t = ""
            elif "basic_string_view" in sig and len(args) > 1:
                return None
            else:
                return None
            if t is None:
                return None
            self.make(I, s, this, t)
            return [(s, None)]
        if op == "substr" and len(args) == 4 and num[2] is not None and num[3] is not None:
            t = self.text(I, s, ins, args[1])
            if t is None or num[2] > len(t):
                return None
            self.make(I, s, this, t[num[2]:][:num[3]])
            return [(s, None)]
        if r is None:
            if op in ("data", "c_str") and isinstance(this, Ptr) and this.r == "ARG:s":
                return [(s, Ptr("NAME"))]
            if op in ("size", "length") and isinstance(this, Ptr) and this.r == "ARG:s":
                s.poly.add_ge(S("$len"))
                return [(s, S("$len"))]
            return None
        k = self.length(s, r)
        if op in ("begin", "cbegin", "data", "c_str"):
            return [(s, Ptr(r))]
        if op in ("end", "cend"):
            return [(s, Ptr(r, Lin.c(k)))]
        if op in ("size", "length"):
            return [(s, Lin.c(k))]
        if op == "empty":
            return [(s, Lin.c(int(k == 0)))]
        if op in ("operator[]", "at"):
            return [(s, Ptr(r, args[1]))]
        if op == "back":
            return [(s, Ptr(r, Lin.c(k - 1)))]
        if op == "front":
            return [(s, Ptr(r))]
        t = self.text(I, s, ins, this)
        if t is None:
            return None
        if op in ("find", "rfind", "find_first_of", "find_first_not_of", "find_last_of", "find_last_not_of"):
            if sig.startswith("char,") or sig.startswith("char)"):
                what = chr(num[1] % 256) if num[1] is not None else None
            elif sig.startswith("char const*"):
                what = self.cstr(I, s, ins, args[1])
            else:
                what = self.text(I, s, ins, args[1])
            at = num[2] if len(args) > 2 else (NPOS if "last" in op or op[0] == "r" else 0)
            if what is None or at is None:
                return None
            if op == "find":
                i = t.find(what, at)
            elif op == "rfind":
                i = t.rfind(what, 0, min(at, len(t)) + len(what))
            else:
                rng = range(at, len(t)) if "first" in op else range(min(at, len(t) - 1), -1, -1)
                i = next((j for j in rng if (t[j] in what) != ("not" in op)), -1)
            return [(s, Lin.c(i if i >= 0 else -1))]
        if op == "erase" and len(args) == 3 and num[1] is not None and num[2] is not None:
            self.make(I, s, this, t[:num[1]] + (t[num[1] + num[2]:] if num[2] != NPOS else ""))
            return [(s, this)]
        if op == "erase" and len(args) == 3 and isinstance(args[1], Ptr) and isinstance(args[2], Ptr):
            a, b = self.num(s, args[1].o), self.num(s, args[2].o)
            if a is None or b is None:
                return None
            q = self.make(I, s, this, t[:a] + t[b:])
            return [(s, Ptr(q, Lin.c(a)))]
        if op == "pop_back":
            self.make(I, s, this, t[:-1])
            return [(s, None)]
        if op in ("push_back",) and num[1] is not None:
            self.make(I, s, this, t + chr(num[1] % 256))
            return [(s, None)]
        if op == "operator+=" and sig.startswith("char)") and num[1] is not None:
            self.make(I, s, this, t + chr(num[1] % 256))
            return [(s, this)]
        if op == "resize" and num[1] is not None and num[1] <= len(t):
            self.make(I, s, this, t[:num[1]])
            return [(s, None)]
        if op == "clear":
            self.make(I, s, this, "")
            return [(s, None)]
        return None

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "throws")
        I.need(s, (s.ghost["seen"] == self.due[1:]) or None, "complete", "delivered: %s" % (s.ghost["seen"],))


def mk(e, v, want, due):
    def make():
        m = Names()
        m.enum, m.val, m.want, m.due = e, v, want, due
        return m
    return make


def literals():
    a = []
    pre = '#include <cstddef>\n#include <string>\n#include "utl/const_str.h"\n#include "utl/forward_type.h"\n#include "utl/clear_t.h"\n' + r"""
constexpr bool same(char const* a, char const* b, unsigned n) { for (unsigned i = 0; i <= n; ++i) { if (a[i] != b[i]) { return false; } } return true; }
template <typename T> struct id {};
"""
    alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGH"
    for n in range(31):
        a.append(("text", 'same(STRING_LITERAL("%s"), "%s", %d)' % (alpha[:n], alpha[:n], n), "a text of %d characters comes out unchanged and terminated" % n))
    for n in (1, 7, 29, 30):
        x = alpha[:n - 1]
        a.append(("text", 'same(STRING_LITERAL("%s" "\\xff"), "%s" "\\xff", %d)' % (x, x, n), "any byte"))
        a.append(("text", 'same(STRING_LITERAL("\\x80" "%s"), "\\x80" "%s", %d)' % (x, x, n), "any byte"))
        a.append(("text", 'same(STRING_LITERAL("%s" " "), "%s" " ", %d)' % (x, x, n), "any byte"))
    for i in range(30):
        x = alpha[:i] + '" "\\xe4" "' + alpha[i + 1:30]
        a.append(("text", 'same(STRING_LITERAL("%s"), "%s", 30)' % (x, x), "any byte at position %d" % i))
    for n in (0, 1, 5, 29, 30):
        a.append(("one-object", 'static_cast<void const*>(STRING_LITERAL("%s")) == static_cast<void const*>(STRING_LITERAL("%s"))' % (alpha[:n], alpha[:n]), "equal texts are one object"))
    for x, y in (("a", "b"), ("", "a"), ("abc", "abcd"), ("abc", "abd"), (alpha[:30], alpha[:29]), (alpha[:30], alpha[:29] + "_")):
        a.append(("one-object", 'static_cast<void const*>(STRING_LITERAL("%s")) != static_cast<void const*>(STRING_LITERAL("%s"))' % (x, y), "different texts are different objects"))
    for t in ("int", "int const", "std::string", "std::string const", "int*", "int* const"):
        a.append(("forward", "std::is_same_v<utl::forward_type_t<%s>, %s>" % (t, t), "a value type stays"))
        a.append(("forward", "std::is_same_v<utl::forward_type_t<%s&>, %s&>" % (t, t), "an lvalue reference stays"))
        a.append(("forward", "std::is_same_v<utl::forward_type_t<%s&&>, %s>" % (t, t), "an rvalue reference becomes a value"))
        bare = t.replace("* const", "*").replace(" const", "")
        for r in ("", "&", "&&"):
            a.append(("clear", "std::is_same_v<utl::clear_t<%s%s>, %s>" % (t, r, bare), "no reference, no const"))
    return pre, a


ENUM_PRE = '#include "utl/printable_enum.h"\nPRINTABLE_ENUM(e, A, B, C)\n'


def run():
    c = Check("M05", "constant propagation through the name functions for every enumerator; type-level obligations for the compile-time texts of every length")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 100
    pre, a = literals()
    c.static_asserts("literals", pre, a, each=True)
    c.static_asserts("enum", ENUM_PRE, [("enum", "std::is_enum_v<e> && !std::is_convertible_v<e, int>", "a scoped enumeration"),
                                        ("enum", "static_cast<int>(e::A) == 0 && static_cast<int>(e::B) == 1 && static_cast<int>(e::C) == 2", "counted from zero")])
    m = c.module("names.cc")
    jobs = []
    for i, (n, es) in enumerate(ENUMS):
        for v, x in enumerate(es):
            jobs.append(("name_of", "name_of/%s/%s" % (n, x), mk(i, v, x, ("e", "the name"))))
            if n in ("two", "twelve"):
                jobs.append(("print_of", "print_of/%s/%s" % (n, x), mk(i, v, x, ("o", "the text written", "stream"))))
    jobs.append(("thread_of", "thread_of", mk(0, 0, "", ("t", "thread"))))
    jobs.append(("current_of", "current_of", mk(0, 0, "", ("c", "thread"))))
    c.par([lambda j=j: c.analyse(m, j[0], j[2], label=j[1], unroll=1000) for j in jobs if not only or j[0] in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
