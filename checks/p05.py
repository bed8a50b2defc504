#!/usr/bin/env python3
"""P05 files: what is read is exactly what the file holds, what is written exactly what was given, or the call fails."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from text import Pieces
from r01 import Own

N = S("$N")
FAIL = 4
EOFB = 2


def opname(dem):
    """last component of the name in front of the parameters, without template arguments"""
    out, d = "", 0
    for i, ch in enumerate(dem):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif ch == "(" and d == 0:
            break
        elif d == 0:
            out += ch
    return out.split("::")[-1].strip()


class Io(Pieces):
    """T is the content of the file (N bytes, any length); every system call may fail"""
    texts = {"T": "$N"}
    lazy = False         # a failing open may go unreported

    def bind(self, I, s, f):
        s.ghost.update(pos=ZERO, bad=0, done=0, st=0, exc=0, wr=ZERO, fr=None, fo=ZERO, fs=ZERO, fl=ZERO, res=0, opened=0, nblk=0, past=0)
        Pieces.bind(self, I, s, f)

    def start(self, I, s):
        Pieces.start(self, I, s)
        s.poly.add_ge(Lin.c(2 ** 62) - N)

    def bitcmp(self, I, s, ins, pred, a, b):
        """the mapped file is neither null nor MAP_FAILED"""
        x, y = (a, b) if isinstance(a, Ptr) else (b, a)
        if pred in ("eq", "ne") and isinstance(x, Ptr) and x.r in self.texts and isinstance(y, Lin):
            y = s.poly.norm(y)
            if y.is_const() and y.k in (0, -1):
                return [(s, pred == "ne")]
        return Own.bitcmp(self, I, s, ins, pred, a, b)
    fork = Own.fork

    def fails(self, I, s):
        a, b = self.fork(I, s)
        b.ghost["bad"] = 1
        return a, b

    def fresh(self, I, s, lo=None, hi=None):
        v = I.fresh("io", s=s)
        if lo is not None:
            s.poly.add_ge(v - lo)
        if hi is not None:
            s.poly.add_ge(Lin.c(hi) - v)
        return v

    def invariants(self, I, s):
        Pieces.invariants(self, I, s)
        s.poly.add_ge(s.ghost["pos"])       # see seek_to and the reads: the position never leaves the file
        s.poly.add_ge(N - s.ghost["pos"])

    def seek_to(self, I, s, to):
        """[(state, inside the file); a position past the end reads like the end, one in front of the start is refused]"""
        out = []
        for t, ok in I.split_ge(s, to):
            if not ok:
                t.ghost["bad"] = 1
                out.append((t, False))
                continue
            for u, past in I.split_ge(t, to - N - 1):
                u.ghost["past"] = int(past)
                u.ghost["pos"] = N if past else u.poly.norm(to)
                out.append((u, True))
        return out

    def handle(self, I, s, kind, path):
        t = "U" if isinstance(path, Ptr) and path.r == "X:other" else "T"
        r = ("own", kind, t)
        s.rinfo[r] = RInfo(Lin.c(1), "res")
        return Ptr(r)

    def text_of(self, I, s, ins, p, kind):
        I.need(s, (isinstance(p, Ptr) and isinstance(p.r, tuple) and p.r[:2] == ("own", kind)) or None, "handle", "the call is made on something else than the opened file (%s)" % I.show(s, p), ins, (p,))
        return p.r[2]

    # -- memory
    def block(self, I, s, n):
        k = s.ghost["nblk"]
        s.ghost["nblk"] = min(k + 1, 3)
        r = ("own", "mem", k)
        s.rinfo[r] = RInfo(n, "res")
        s.mem.pop(r, None)
        if s.ghost["fr"] == r:
            s.ghost["fr"] = None
        return Ptr(r)

    def c_malloc(self, I, s, ins, args):
        out = []
        for t, ok in I.split_ge(s, args[0]):
            if not ok:
                t.ghost["bad"] = 1
                out.append((t, ZERO))
                continue
            a, b = self.fails(I, t)
            out += [(a, self.block(I, a, args[0])), (b, ZERO)]
        return out

    def c_free(self, I, s, ins, args):
        return [(s, None)]

    def c_strlen(self, I, s, ins, args):
        return [(s, self.fresh(I, s, 0, 2 ** 40))]

    # -- what has been read into which block
    def fill(self, I, s, dst, src, n):
        G = s.ghost
        if G["fr"] == dst.r and s.poly.entails_eq(dst.o - G["fo"] - G["fl"]) and s.poly.entails_eq(src - G["fs"] - G["fl"]):
            G["fl"] = s.poly.norm(G["fl"] + n)
            return
        G.update(fr=dst.r, fo=s.poly.norm(dst.o), fs=s.poly.norm(src), fl=s.poly.norm(n))

    def room(self, I, s, ins, p, n):
        I.need(s, isinstance(p, Ptr) or None, "room", "bytes are read to %s" % I.show(s, p), ins, (p,))
        size = s.rinfo[p.r].size if p.r in s.rinfo else None
        if size is not None:
            ok = s.poly.entails_ge(p.o) and s.poly.entails_ge(size - p.o - n)
            I.need(s, True if ok else None, "room", "%s bytes are read into a block of %s" % (I.show(s, n), I.show(s, size)), ins, (p.o, n))

    # -- stdio
    def c_fopen(self, I, s, ins, args):
        a, b = self.fails(I, s)
        return [(a, self.handle(I, a, "file", args[0])), (b, ZERO)]

    def c_fclose(self, I, s, ins, args):
        return [(s, self.fresh(I, s, -1, 0))]

    def c_disturb(self, I, s, ins, args):
        v = self.fresh(I, s, 0)
        s.poly.add_ge(N - v)
        s.ghost.update(pos=v, past=0)
        return [(s, None)]

    def c_fseek(self, I, s, ins, args):
        self.text_of(I, s, ins, args[0], "file")
        w = s.poly.norm(args[2])
        I.need(s, w.is_const() or None, "seek", "unknown kind of seek", ins, (w,))
        base = {0: ZERO, 1: s.ghost["pos"], 2: N}[int(w.k)]
        a, b = self.fails(I, s)
        return [(t, ZERO if ok else Lin.c(-1)) for t, ok in self.seek_to(I, a, base + args[1])] + [(b, Lin.c(-1))]
    c_fseeko = c_fseek

    def c_ftell(self, I, s, ins, args):
        self.text_of(I, s, ins, args[0], "file")
        if s.ghost["past"]:
            raise AnalysisError("position past the end of the file")
        a, b = self.fails(I, s)
        return [(a, a.ghost["pos"]), (b, Lin.c(-1))]
    c_ftello = c_ftell

    def c_rewind(self, I, s, ins, args):
        self.text_of(I, s, ins, args[0], "file")
        s.ghost.update(pos=ZERO, past=0)
        return [(s, None)]

    def c_fread(self, I, s, ins, args):
        p, one, n, f = args
        self.text_of(I, s, ins, f, "file")
        one, n = s.poly.norm(one), s.poly.norm(n)
        unit = one.is_const() and one.k == 1
        if unit:
            total = n
        elif n.is_const() and n.k == 1:
            total = one
        else:
            raise AnalysisError("fread of blocks")
        out = []
        for t, z in I.split_eq(s, total):
            if z:
                out.append((t, ZERO))
                continue
            I.need_ge(t, total, "room", "a negative number of bytes is read", ins)
            self.room(I, t, ins, p, total)
            pos = t.ghost["pos"]
            for u, enough in I.split_ge(t, N - pos - total):
                if enough:
                    a, b = self.fails(I, u)
                    self.fill(I, a, p, pos, total)
                    a.ghost["pos"] = a.poly.norm(pos + total)
                    out.append((a, n if unit else ONE))
                else:
                    b = u
                    if not unit:
                        b.ghost["pos"] = N
                        out.append((b, ZERO))
                        continue
                    e = b.copy()
                    self.fill(I, e, p, pos, N - pos)
                    e.ghost["pos"] = N
                    out.append((e, e.poly.norm(N - pos)))
                    b.ghost["bad"] = 1
                k = self.fresh(I, b, 0) if unit else ZERO
                if unit:
                    b.poly.add_ge(total - k - 1)
                    b.poly.add_ge(N - pos - k)
                    self.fill(I, b, p, pos, k)
                    b.ghost["pos"] = b.poly.norm(pos + k)
                out.append((b, k))
        return out

    def c_fwrite(self, I, s, ins, args):
        p, one, n, f = args
        self.text_of(I, s, ins, f, "file")
        one, n = s.poly.norm(one), s.poly.norm(n)
        unit = one.is_const() and one.k == 1
        if not unit and not (n.is_const() and n.k == 1):
            raise AnalysisError("fwrite of blocks")
        total = n if unit else one
        out = []
        for t, z in I.split_eq(s, total):
            if z:
                out.append((t, ZERO))
                continue
            I.need(t, True if isinstance(p, Ptr) and p.r == "T" else None, "written", "other bytes than the given ones are written", ins, (p,))
            I.need_ge(t, total, "written", "a negative number of bytes is written", ins)
            self.inside(I, t, ins, p, total)
            I.need_eq(t, p.o, t.ghost["wr"], "written", "bytes are written out of order or twice", ins)
            a, b = self.fails(I, t)
            a.ghost["wr"] = a.poly.norm(a.ghost["wr"] + total)
            out.append((a, n if unit else ONE))
            k = self.fresh(I, b, 0) if unit else ZERO
            if unit:
                b.poly.add_ge(total - k - 1)
                b.ghost["wr"] = b.poly.norm(b.ghost["wr"] + k)
            out.append((b, k))
        return out

    # -- descriptors and mappings
    def c_open(self, I, s, ins, args):
        a, b = self.fails(I, s)
        return [(a, self.handle(I, a, "fd", args[0])), (b, Lin.c(-1))]

    def c_close(self, I, s, ins, args):
        return [(s, ZERO)]

    def c_munmap(self, I, s, ins, args):
        return [(s, ZERO)]

    def c_fstat(self, I, s, ins, args):
        t = self.text_of(I, s, ins, args[0], "fd")
        a, b = self.fails(I, s)
        for k in range(0, 144, 8):
            I.write(a, Ptr(args[1].r, args[1].o + k), 8, S(self.texts[t]) if k == 48 else I.fresh("stat", w=64, s=a))
        return [(a, ZERO), (b, Lin.c(-1))]

    def c_mmap(self, I, s, ins, args):
        n, fd = s.poly.norm(args[1]), args[4]
        t = self.text_of(I, s, ins, fd, "fd")
        size = S(self.texts[t])
        out = []
        for u, pos in I.split_ge(s, n - 1):
            if not pos:
                if not u.ghost["bad"]:
                    I.need_ge(u, -size, "mapped", "nothing of a file of %s bytes is mapped" % I.show(u, size), ins)
                u.ghost["bad"] = 1
                out.append((u, Lin.c(-1)))
                continue
            I.need_ge(u, n - size, "mapped", "%s bytes of a file of %s are mapped" % (I.show(u, n), I.show(u, size)), ins)
            I.need_eq(u, args[5], ZERO, "mapped", "the mapping does not start at the start of the file", ins)
            a, b = self.fails(I, u)
            out += [(a, Ptr(t)), (b, Lin.c(-1))]
        return out

    # -- streams
    def init_cell(self, I, s, region, off, size, ty):
        if region == "vt":
            return ZERO
        if region == "g:_ZSt3cin" and s.poly.entails_eq(off):
            s.rinfo["vt"] = RInfo(None, "ext")
            return Ptr("vt")
        if isinstance(region, tuple) and region[:2] == ("own", "mem"):
            return I.fresh("m", w=8 * size, s=s)
        return Pieces.init_cell(self, I, s, region, off, size, ty) if hasattr(Pieces, "init_cell") else None

    def call(self, I, s, ins, name, dem, args):
        for k in ("basic_ifstream<", "basic_ios<", "basic_istream<", "ifstream::", "ios::", "istream::"):
            if dem.startswith("std::" + k):
                return self.stream(I, s, ins, dem, args)
        if "std::getline<" in dem:
            return self.getline(I, s, ins, args)
        if "std::operator==<" in dem:
            a, b = self.fork(I, s)
            return [(a, ONE), (b, ZERO)]
        if dem.startswith("utl::fail<") or dem.startswith("std::runtime_error::") or dem.startswith("std::exception::"):
            return [(s, None if ins["ty"] == "void" else UNDEF)]
        return Pieces.call(self, I, s, ins, name, dem, args)

    def setst(self, s, bits):
        """-> throws"""
        s.ghost["st"] |= bits
        return bool(s.ghost["st"] & s.ghost["exc"])

    def stream(self, I, s, ins, dem, args):
        r = None if ins["ty"] == "void" else args[0] if args else UNDEF
        G = s.ghost
        cin = isinstance(args[0], Ptr) and args[0].r == "g:_ZSt3cin"
        up = G["opened"] or cin
        op = opname(dem)
        if op.startswith("~"):
            return [(s, None)]
        if op.startswith("basic_ifstream") or op == "open":
            if op != "open":
                s.rinfo["vt"] = RInfo(None, "ext")
                I.write(s, args[0], 8, Ptr("vt"))
                if len(args) < 2:
                    return [(s, None)]
            mode = s.poly.norm(args[2]) if len(args) > 2 else Lin.c(8)
            if not mode.is_const():
                raise AnalysisError("open mode")
            a, b = self.fails(I, s)
            a.ghost["opened"] = 1
            a.ghost["pos"] = N if int(mode.k) & 2 else ZERO
            thr = self.setst(b, FAIL)
            return [(a, None), (b, THROW if thr else None)]
        if op == "exceptions":
            if len(args) < 2:
                return [(s, Lin.c(G["exc"]))]
            m = s.poly.norm(args[1])
            if not m.is_const():
                raise AnalysisError("exception mask")
            G["exc"] = int(m.k)
            return [(s, THROW if G["st"] & G["exc"] else None)]
        if op in ("fail", "operator!"):
            return [(s, Lin.c(int(bool(G["st"] & 5))))]
        if op in ("good", "operator bool", "is_open"):
            if op == "is_open":
                return [(s, Lin.c(int(bool(G["opened"]))))]
            return [(s, Lin.c(int(not (G["st"] & (7 if op == "good" else 5)))))]
        if op == "eof":
            return [(s, Lin.c(int(bool(G["st"] & EOFB))))]
        if op == "bad":
            return [(s, Lin.c(G["st"] & 1))]
        if op == "clear":
            G["st"] = 0
            return [(s, None)]
        if op == "tellg":
            def res(v):
                return v if ins["ty"] != "void" and not ins["ty"].startswith("{") else Agg((v, ZERO))
            if G["past"]:
                raise AnalysisError("position past the end of the file")
            if G["st"] & 5:
                return [(s, res(Lin.c(-1)))]
            a, b = self.fails(I, s)
            return [(a, res(a.ghost["pos"])), (b, res(Lin.c(-1)))]
        if op == "seekg":
            if G["st"] & 5:
                return [(s, r)]
            if len(args) == 3 and isinstance(args[1], Lin) and isinstance(args[2], Lin):
                w = s.poly.norm(args[2])
                off, base = args[1], {0: ZERO, 1: G["pos"], 2: N}.get(int(w.k)) if w.is_const() else None
            if len(args) == 3 and w.is_const() is False or len(args) != 3:
                raise AnalysisError("seek")
            a, b = self.fails(I, s)
            out = []
            for t, ok in self.seek_to(I, a, base + off) + [(b, False)]:
                if ok:
                    t.ghost["st"] &= ~EOFB
                out.append((t, THROW if not ok and self.setst(t, FAIL) else r))
            return out
        if op == "read":
            p, n = args[1], args[2]
            if G["st"]:
                return [(s, THROW if self.setst(s, FAIL) else r)]
            out = []
            for t, neg in I.split_ge(s, -n - 1):
                if neg:
                    out.append((t, THROW if self.setst(t, FAIL) else r))
                    continue
                for u, z in I.split_eq(t, n):
                    if z:
                        out.append((u, r))
                        continue
                    self.room(I, u, ins, p, n)
                    for v, enough in I.split_ge(u, N - u.ghost["pos"] - n):
                        b = v
                        if enough:
                            a, b = self.fails(I, v)
                            self.fill(I, a, p, a.ghost["pos"], n)
                            a.ghost["pos"] = a.poly.norm(a.ghost["pos"] + n)
                            out.append((a, r))
                        out.append((b, THROW if self.setst(b, FAIL | EOFB) else r))
            return out
        if op == "get" and len(args) == 1 or op == "ignore" and len(args) == 1:
            if G["st"] or not up:
                return [(s, THROW if self.setst(s, FAIL) else Lin.c(-1) if op == "get" else r)]
            out = []
            for t, more in I.split_ge(s, N - G["pos"] - 1):
                if more:
                    t.ghost["pos"] = t.poly.norm(t.ghost["pos"] + 1)
                    out.append((t, self.fresh(I, t, 0, 255) if op == "get" else r))
                else:
                    out.append((t, THROW if self.setst(t, EOFB | (FAIL if op == "get" else 0)) else Lin.c(-1) if op == "get" else r))
            return out
        if op == "peek":
            if G["st"] or not up:
                return [(s, THROW if self.setst(s, FAIL) else Lin.c(-1))]
            out = []
            for t, more in I.split_ge(s, N - G["pos"] - 1):
                if more:
                    out.append((t, self.fresh(I, t, 0, 255)))
                else:
                    out.append((t, THROW if self.setst(t, EOFB) else Lin.c(-1)))
            return out
        raise AnalysisError("stream operation " + op)

    def getline(self, I, s, ins, args):
        G = s.ghost
        cin = isinstance(args[0], Ptr) and args[0].r == "g:_ZSt3cin"
        if G["st"] or not (G["opened"] or cin):
            return [(s, THROW if self.setst(s, FAIL) else args[0])]
        out = []
        for t, more in I.split_ge(s, N - G["pos"] - 1):
            pos = t.ghost["pos"]
            if not more:
                self.put(I, t, args[1], Ptr("T", N), ZERO)
                out.append((t, THROW if self.setst(t, EOFB | FAIL) else args[0]))
                continue
            delim = args[2] if len(args) > 2 else Lin.c(10)
            for u, q in self.lib_memchr(I, t, ins, [Ptr("T", pos), delim, N - pos]):
                if isinstance(q, Ptr):
                    self.put(I, u, args[1], Ptr("T", pos), q.o - pos)
                    u.ghost["pos"] = u.poly.norm(q.o + 1)
                    out.append((u, args[0]))
                else:
                    self.put(I, u, args[1], Ptr("T", pos), N - pos)
                    u.ghost["pos"] = N
                    out.append((u, THROW if self.setst(u, EOFB) else args[0]))
        return out

    # -- strings: data pointer and size kept in the object
    def put(self, I, s, obj, p, n):
        I.write(s, obj, 8, p)
        I.write(s, Ptr(obj.r, obj.o + 8), 8, s.poly.norm(n))

    def parts(self, I, s, obj):
        if not isinstance(obj, Ptr):
            return None, None
        return I.find_cell(s, obj.r, s.poly.norm(obj.o), 8), I.find_cell(s, obj.r, s.poly.norm(obj.o + 8), 8)

    def string_op(self, I, s, ins, name, dem, args):
        op = opname(dem)
        o = args[0]
        r = None if ins["ty"] == "void" else o
        if op.startswith("~") or op == "clear" or op == "reserve":
            if op == "clear":
                self.put(I, s, o, Ptr("T", ZERO), ZERO)
            return [(s, r)]
        if op.startswith("basic_string"):
            sig = dem[dem.rindex("basic_string"):] if "(" not in dem else dem.rsplit("(", 1)[1]
            if len(args) > 1 and "basic_string<" in sig:
                p, n = self.parts(I, s, args[1])
                if p is not None and n is not None:
                    self.put(I, s, o, p, n)
                    if "&&" in sig:
                        self.put(I, s, args[1], Ptr("T", ZERO), ZERO)
                return [(s, None)]
            if len(args) == 1 or sig.startswith(")"):
                self.put(I, s, o, Ptr("T", ZERO), ZERO)
            elif sig.startswith("unsigned long, char"):
                b = self.block(I, s, args[1])
                self.put(I, s, o, b, args[1])
            return [(s, None)]
        if op == "resize":
            out = []
            for t, ok in I.split_ge(s, args[1]):
                if not ok:
                    t.ghost["bad"] = 1
                    out.append((t, THROW))
                    continue
                a, b = self.fails(I, t)
                self.put(I, a, o, self.block(I, a, args[1]), args[1])
                out += [(a, None), (b, THROW)]
            return out
        if op == "substr" and len(args) > 2:
            p, n = self.parts(I, s, args[1])
            if p is None or n is None:
                raise AnalysisError("string operation substr")
            out = []
            for t, ok in I.split_ge(s, n - args[2]):
                if not ok:
                    out.append((t, THROW))
                    continue
                for u, some in I.split_ge(t, n - args[2] - args[3]) if len(args) > 3 else [(t, False)]:
                    self.put(I, u, o, Ptr(p.r, p.o + args[2]), args[3] if some else n - args[2])
                    out.append((u, None))
            return out
        p, n = self.parts(I, s, o)
        if op in ("data", "c_str", "begin", "size", "length", "end") and p is not None and n is not None:
            if op in ("size", "length"):
                return [(s, n)]
            return [(s, Ptr(p.r, p.o + n) if op == "end" else p)]
        if op == "operator[]" and p is not None:
            return [(s, Ptr(p.r, p.o + args[1]))]
        if op in ("data", "c_str", "begin", "end", "operator[]"):
            s.rinfo["STR"] = RInfo(None, "input")
            return [(s, Ptr("STR"))]
        if op == "empty" and n is not None:
            return [(t, Lin.c(int(z))) for t, z in I.split_eq(s, n)]
        raise AnalysisError("string operation " + op)

    # -- what is handed out
    def c_num(self, I, s, ins, args):
        return [(s, self.fresh(I, s, 0, 2 ** 62))]

    def c_coin(self, I, s, ins, args):
        a, b = self.fork(I, s)
        return [(a, ONE), (b, ZERO)]

    def exit(self, I, s, kind, val):
        if kind != "return":
            I.need(s, bool(s.ghost["bad"]) or None, "fails", "the call fails although every operation succeeded")
            return
        self.finished(I, s)

    def finished(self, I, s):
        if s.ghost["bad"] and self.lazy:
            return
        I.need_eq(s, s.ghost["g"], N, "text-left", "part of the file is not handed out")

    def c_outr(self, I, s, ins, args):
        p, n, want = args
        g = s.ghost["g"]
        I.need(s, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "the piece is not a view of the file (%s)" % I.show(s, p), ins, (p,))
        I.need_eq(s, p.o, g, "piece-start", "the piece must start where the previous one ended", ins)
        out = []
        for t, enough in I.split_ge(s, N - g - want):
            I.need_eq(t, n, want if enough else N - g, "piece-size", "%s bytes are handed out, %s were asked for and %s are left" % (I.show(t, n), I.show(t, want), I.show(t, N - g)), ins)
            t.ghost["g"] = t.poly.norm(g + n)
            self.reset(t, "s", t.ghost["g"])
            out.append((t, None))
        return out


class Content(Io):
    """the whole content at once"""

    def c_out(self, I, s, ins, args):
        p, n = args
        I.need_eq(s, n, N, "content-size", "%s bytes are handed out, the file has %s" % (I.show(s, n), I.show(s, N)), ins)
        for t, z in I.split_eq(s, N):
            if z:
                continue
            G = t.ghost
            ok = isinstance(p, Ptr) and G["fr"] == p.r and t.poly.entails_eq(p.o - G["fo"]) and t.poly.entails_eq(G["fs"]) and t.poly.entails_ge(G["fl"] - N)
            I.need(t, True if ok else None, "content", "the bytes handed out are not the content of the file from its start", ins)
        s.ghost["done"] = 1
        return [(s, None)]

    def c_outn(self, I, s, ins, args):
        I.need_eq(s, args[0], N, "file-size", "the size handed out is %s, the file has %s bytes" % (I.show(s, args[0]), I.show(s, N)), ins)
        s.ghost["done"] = 1
        return [(s, None)]

    def c_failed(self, I, s, ins, args):
        I.need(s, bool(s.ghost["bad"]) or None, "fails", "the call fails although every operation succeeded", ins)
        s.ghost["done"] = 1
        return [(s, None)]

    def finished(self, I, s):
        I.need(s, bool(s.ghost["done"]) or None, "returns", "no result")


class Write(Io):
    def finished(self, I, s):
        I.need_eq(s, s.ghost["wr"], N, "written", "%s of %s bytes are written and no failure is reported" % (I.show(s, s.ghost["wr"]), I.show(s, N)))


class Lazy(Io):
    lazy = True


class Two(Io):
    texts = {"T": "$N", "U": "$M"}


ENTRIES = [("f_content", Content), ("f_content_any", Content), ("f_str", Content), ("f_size", Content), ("f_write", Write), ("rf", Content),
           ("mm_lines", Io), ("mm_read", Io), ("mm_mixed", Io), ("mm_move", Io), ("mm_assign", Two), ("fl", Lazy)]


def run():
    c = Check("P05", "file model with failing system calls: bytes handed out or written are tracked as an interval of the file, pieces by the piece automaton")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 30
    c.assumptions = ["the file does not change while it is read", "rewind succeeds where fseek did", "buffered output reaches the disk when fclose succeeds", "std::ifstream by contract (open, exceptions, tellg, seekg, read, peek, getline)"]
    m = c.module("io.cc", "keep_io.txt")
    c.par([lambda e=e, k=k: c.analyse(m, e, k, budget=150) for e, k in ENTRIES if not only or e in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
