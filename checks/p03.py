#!/usr/bin/env python3
"""P03 CSV fields, rows and headers."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from text import Txt
import text

N = S("$N")
Q, CR, LF = 34, 13, 10
CISTA = ("-I" + os.path.join(VERIF, "stubs", "cista"),)


def plain(m, I, s, p):
    """a byte that cannot end an unquoted field"""
    r = True
    for c in (m.sep, CR, LF):
        k = m.is_c(I, s, "T", p, c)
        if k is True:
            return False
        if k is None:
            r = None
    return r


def quoted(m, I, s, p):
    """one unit of a quoted field: a byte other than quote and line end, or a pair of quotes"""
    q = m.is_c(I, s, "T", p, Q)
    if q is True:
        if s.poly.entails_eq(p + 1 - N):
            return False
        n = m.is_c(I, s, "T", p + 1, Q)
        return {True: 2, False: False}.get(n)
    if q is None:
        return None
    r = True
    for c in (CR, LF):
        k = m.is_c(I, s, "T", p, c)
        if k is True:
            return False
        if k is None:
            r = None
    return r


class Column(Txt):
    """one field is split off the front of the text"""
    sep = 44
    scanners = {"u": ("T", plain, None, 1), "q": ("T", quoted, None, 1)}

    def start(self, I, s):
        self.reset(s, "u", ZERO)
        self.reset(s, "q", ONE)
        s.ghost["e"] = None
        s.ghost["st"] = 0

    def pre_head(self, I, s):
        s.ghost["k"] = self.remember(I, s, "T", ZERO, Q)
        for n in ("u", "q"):
            hi = s.poly.norm(s.ghost["hi:" + n])
            e = "N" if s.poly.entails_eq(hi - N) else tuple(self.remember(I, s, "T", hi, c) for c in (self.sep, Q, CR, LF))
            s.ghost["s" + n] = e if s.ghost["k"] is (n == "q") else None

    def c_out(self, I, s, ins, args):
        p, n = args
        I.need(s, s.ghost["st"] == 0 or None, "one-field", "more than one field", ins)
        s.ghost["st"] = 1
        out = []
        for t, z in I.split_eq(s, N):
            if z:
                I.need_eq(t, n, ZERO, "field-of-nothing", "a field is found in an empty text", ins)
                t.ghost["e"] = ZERO
                out.append(t)
                continue
            I.need(t, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "the field is not a view of the text (%s)" % I.show(t, p), ins, (p,))
            I.need_ge(t, n, "view-inside", "field with a wrapped length", ins)
            I.need_ge(t, N - p.o - n, "view-inside", "field ends behind the text", ins)
            k = self.is_c(I, t, "T", ZERO, Q)
            I.need(t, True if k is not None else None, "quote-decided", "the result does not depend on whether the field is quoted", ins)
            e = t.poly.norm(p.o + n)
            I.need_eq(t, p.o, ONE if k else ZERO, "field-start", "the field must start at the first byte (after an opening quote)", ins)
            sc = "q" if k else "u"
            h = self.absorb(I, t, sc)
            I.need_eq(t, e, h, "field-end", "the field must end where %s" % ("its closing quote, a line end or the end of the text is reached" if k else "the first separator, line end or the end of the text is reached"), ins)
            pred = self.scanners[sc][1]
            ok = t.poly.entails_eq(e - N) or self.refuted(I, t, sc, e)
            I.need(t, True if ok else None, "field-end", "the field may end too early", ins)
            t.ghost["e"] = e
            t.ev("field", p.o, e)
            out.append(t)
        return [(t, None) for t in out]

    def c_rest(self, I, s, ins, args):
        p, n = args
        I.need(s, s.ghost["st"] == 1 or None, "one-field", "no field", ins)
        s.ghost["st"] = 2
        e = s.ghost["e"]
        I.need(s, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "the rest is not a view of the text", ins, (p,))
        I.need_eq(s, p.o + n, N, "rest-end", "the rest must extend to the end of the text", ins)
        out = []
        for t, z in I.split_eq(s, e - N):
            if z:
                I.need_eq(t, p.o, N, "rest-start", "nothing is left when the field extends to the end of the text", ins)
                continue
            k = self.is_c(I, t, "T", ZERO, Q)
            cr, q = self.is_c(I, t, "T", e, CR), self.is_c(I, t, "T", e, Q)
            if cr is True or (k and q is True):
                want = e + 1
            elif cr is False and (not k or q is False):
                want = e
            else:
                I.need(t, None, "rest-start", "the rest does not depend on what ends the field", ins)
                continue
            I.need_eq(t, p.o, want, "rest-start", "the rest starts behind a closing quote or carriage return, and at a separator or line feed", ins)
        return [(s, None)]

    def exit(self, I, s, kind, val):
        Txt.exit(self, I, s, kind, val)
        I.need(s, s.ghost["st"] == 2 or None, "one-field", "no result")


def with_sep(c):
    class C(Column):
        sep = c
    return C


def keep(m, I, s, p):
    """a byte that unescaping keeps: anything but the first quote of a pair"""
    q = m.is_c(I, s, "T", p, Q)
    if not q:
        return None if q is None else True
    if s.poly.entails_eq(p + 1 - N):
        return True
    n = m.is_c(I, s, "T", p + 1, Q)
    return None if n is None else not n


class Unescape(Txt):
    """the string is [decided prefix] + T[lo..): ghosts sh (bytes erased so far: index i is byte i + sh of the text),
    f (the result is decided up to this byte), lo (the index mapping holds from this byte on)"""
    scanners = {"k": ("T", keep, lambda m, s: Lin.c(Q), 1)}

    def start(self, I, s):
        s.ghost.update(sh=ZERO, f=ZERO, lo=ZERO)
        self.reset(s, "k", ZERO)

    def pre_head(self, I, s):
        # the byte in front of the scanner is kept apart (a lone quote or not)
        hi = self.absorb(I, s, "k")
        s.ghost["last"] = self.remember(I, s, "T", hi - 1, Q) if s.poly.entails_ge(hi - 1) else "start"

    def c_s_ptr(self, I, s, ins, args):
        return [(s, Ptr("T", s.ghost["sh"]))]

    def c_s_len(self, I, s, ins, args):
        return [(s, N - s.ghost["sh"])]

    def inside(self, I, s, ins, ptr, n):
        if s.poly.entails_eq(n) is not True and not s.poly.entails_ge(ptr.o - s.ghost["lo"]):
            s.lossy_path = True     # the part of the string that is already decided is not modelled
            I.need(s, None, "reread", "the decided part is read again", ins)
        Txt.inside(self, I, s, ins, ptr, n)

    def c_s_erase(self, I, s, ins, args):
        i, n = args
        I.need_eq(s, n, ONE, "erase", "one byte is erased at a time", ins)
        x = s.poly.norm(i + s.ghost["sh"])
        f = s.ghost["f"]
        I.need_ge(s, x - f, "erase", "a byte of the result is erased", ins)
        I.need_ge(s, N - x - 1, "erase", "a byte behind the string is erased", ins)
        I.need_eq(s, self.absorb(I, s, "k"), x, "pairs", "the byte erased must be the first quote of the next pair", ins)
        I.need(s, self.is_c(I, s, "T", x, Q) is True and self.is_c(I, s, "T", x + 1, Q) is True or None, "pairs", "a byte is erased that is not the first quote of a pair", ins)
        s.ghost["sh"] = s.poly.norm(s.ghost["sh"] + 1)
        s.ghost["lo"] = s.poly.norm(x + 1)
        s.ghost["f"] = s.poly.norm(x + 2)
        self.reset(s, "k", s.ghost["f"])
        return [(s, None)]

    def exit(self, I, s, kind, val):
        Txt.exit(self, I, s, kind, val)
        I.need_eq(s, self.absorb(I, s, "k"), N, "pairs", "a pair of quotes is left")


def no_lf(m, I, s, p):
    return {True: False, False: True}.get(m.is_c(I, s, "T", p, LF))


class Rows(Txt):
    """rows: parse_column by its contract (decided by the entries above), carriage returns only before a line feed"""
    scanners = {"l": ("T", no_lf, lambda m, s: Lin.c(LF), 1)}
    cols = {}           # output slot -> column
    last = 64
    lines = True
    limit = 4
    sep = 44

    def start(self, I, s):
        self.reset(s, "l", ZERO)
        self.row(s, ZERO)
        s.ghost["seen"] = 0
        s.ghost["done"] = 0

    def row(self, s, g):
        s.ghost["g"] = g
        s.ghost["pos"] = g
        s.ghost["nf"] = 0
        s.ghost["over"] = 0
        s.ghost["at"] = None
        for k in [k for k in s.ghost if k[:2] in ("fb", "fe")]:
            del s.ghost[k]

    def mode(self, I, s):
        # small constant counters are not joined
        r = []
        for k, v in sorted(s.frames[-1].regs.items()):
            v = s.poly.norm(v) if isinstance(v, Lin) else None
            if v is not None and v.is_const() and abs(v.k) <= 64:
                r.append((k, int(v.k)))
        # nor are the entries of the column map
        for q in sorted(s.mem, key=str):
            if s.rinfo[q].kind == "alloca":
                for o, (z, v) in sorted(s.mem[q].items(), key=lambda x: x[0].k):
                    v = s.poly.norm(v) if isinstance(v, Lin) and z == 1 and o.is_const() else None
                    if v is not None and v.is_const():
                        r.append((str(q), int(o.k), int(v.k)))
        return tuple(r)

    def call(self, I, s, ins, name, dem, args):
        if "parse_column<" in dem:
            return [(t, None) for t in self.column(I, s, ins, args)]
        if "parse_value(" in dem:
            for o in (0, 8):
                I.write(s, Ptr(args[1].r, args[1].o + o), 8, I.load(s, ins, Ptr(args[0].r, args[0].o + o), 8, "ptr" if o == 0 else "i64"))
            return [(s, None)]
        if dem.startswith("std::vector<") or " std::vector<" in dem:
            return self.vec(I, s, ins, dem, args)
        return Txt.call(self, I, s, ins, name, dem, args)

    def vec(self, I, s, ins, dem, args):
        return None

    def pre_head(self, I, s):
        hi = s.poly.norm(s.ghost["hi:l"])
        s.ghost["stop"] = "N" if s.poly.entails_eq(hi - N) else self.remember(I, s, "T", hi, LF)
        if s.ghost["nf"] and not s.ghost["over"]:
            # what stands where the last field ended
            for c in (CR, LF):
                self.remember(I, s, "T", s.ghost["pos"] - 1, c)
        if s.ghost["at"] is None:
            s.ghost["at"] = self.exhausted(I, s) or None

    def invariants(self, I, s):
        s.poly.add_ge(s.ghost["pos"] - (1 if s.ghost["nf"] and not s.ghost["over"] else 0))
        s.poly.add_ge(N - s.ghost["pos"])       # by the contract of parse_column

    def exhausted(self, I, s):
        """no further column exists"""
        p = s.ghost["pos"]
        return bool(s.ghost["over"] or s.ghost["at"] or s.poly.entails_eq(p - N) or self.is_c(I, s, "T", p, LF) is True or self.is_c(I, s, "T", p, CR) is True)

    def all_read(self, I, s, ins, what):
        I.need(s, True if self.exhausted(I, s) else None, "column-lost", "a column of the %s is not read" % what, ins)

    def c_header(self, I, s, ins, args):
        for o in (0, 8):
            I.write(s, Ptr(args[0].r, args[0].o + o), 8, ZERO)

    c_nextl = c_header

    def begin_row(self, I, s, ins):
        return [s]

    def column(self, I, s, ins, args):
        p = I.load(s, ins, args[0], 8, "ptr")
        n = I.load(s, ins, Ptr(args[0].r, args[0].o + 8), 8, "i64")
        out = []
        for t0, z in I.split_eq(s, n):
            if z:
                out.append(t0)
                continue
            I.need(t0, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "a field is read outside the text", ins, (p,))
            b = t0.poly.norm(p.o)
            I.need_ge(t0, N - b - 1, "view-inside", "a field is read behind the end of the text", ins)
            I.need_eq(t0, b + n, N, "view-inside", "the rest of the text is cut off", ins)
            for t in self.begin_row(I, t0, ins):
                t.ghost["seen"] = 1
                if t.ghost["over"] == 0:
                    I.need_eq(t, b, t.ghost["pos"], "column-start", "the next field must start behind the separator that ended the previous one", ins)
                out += self.field(I, t, args, b)
        return out

    def field(self, I, s, args, b):
        out = []
        over = s.ghost["over"]

        def done(t, fb, fe, r, ov):
            I.write(t, args[1], 8, Ptr("T", fb))
            I.write(t, Ptr(args[1].r, args[1].o + 8), 8, t.poly.norm(fe - fb))
            I.write(t, args[0], 8, Ptr("T", t.poly.norm(r)))
            I.write(t, Ptr(args[0].r, args[0].o + 8), 8, t.poly.norm(N - r))
            if not over:
                i = t.ghost["nf"]
                t.ghost["fb%d" % i], t.ghost["fe%d" % i] = fb, fe
                t.ghost["nf"] = i + 1
                end = t.poly.entails_eq(r - N)
                t.ghost["over"] = "end" if end else ov if ov and self.lines else 0
                t.ghost["at"] = None
                t.ghost["pos"] = r if t.ghost["over"] else r + 1
                if i + 1 >= self.limit and not t.ghost["over"]:
                    return
                if not end and not ov and not self.lines and i + 1 >= self.limit:
                    return
            self.reset(t, "l", t.poly.norm(r))
            t.ev("field", fb, fe, r)
            out.append(t)

        for t, lf in I.split_eq(s, self.byte(I, s, "T", b) - LF):
            if lf:
                if self.lines:
                    done(t, b, b, b, "lf")
                continue
            for u, cr in I.split_eq(t, self.byte(I, t, "T", b) - CR):
                if cr:
                    for v, z in I.split_eq(u, b + 1 - N):
                        if z:
                            done(v, b, b, b + 1, "end")
                        elif self.lines and I.assume_eq(v, self.byte(I, v, "T", b + 1) - LF):
                            done(v, b, b, b + 1, "lf")
                    continue
                if over:
                    # what follows the end of the row is not a field of it
                    I.need(u, None, "row-overrun", "fields of the next line are read into this row")
                    continue
                # the contract of parse_column: the rest is empty, or continues at a separator, at a
                # line feed, or with text behind a closing quote
                for k in ("end", "sep", "lf", "other"):
                    v = u.copy()
                    fb, fe, r = I.fresh("fb", s=v, lo=0), I.fresh("fe", s=v, lo=0), I.fresh("r", s=v, lo=0)
                    ok = I.assume_ge(v, fb - b) and I.assume_ge(v, b + 1 - fb) and I.assume_ge(v, fe - fb) and I.assume_ge(v, r - fe) and I.assume_ge(v, fe + 1 - r)
                    if not ok:
                        continue
                    if k == "end":
                        if I.assume_eq(v, r - N):
                            done(v, fb, fe, r, 0)
                        continue
                    if not I.assume_ge(v, N - r - 1):
                        continue
                    c = self.byte(I, v, "T", r)
                    if k == "sep":
                        if I.assume_eq(v, c - self.sep):
                            done(v, fb, fe, r, 0)
                    elif k == "lf":
                        if self.lines and I.assume_ge(v, r - b - 1) and I.assume_eq(v, c - LF):
                            done(v, fb, fe, r, "lf")
                    elif I.assume_ge(v, r - b - 2):
                        # text behind a closing quote
                        for w, x in I.split_eq(v, c - self.sep):
                            if x:
                                continue
                            for y, z in I.split_eq(w, c - LF):
                                if z:
                                    continue
                                for q, cr in I.split_eq(y, c - CR):
                                    if not cr:
                                        done(q, fb, fe, r, 0)
                                        continue
                                    for h, e in I.split_eq(q, r + 1 - N):
                                        # a carriage return is the last byte or followed by a line feed
                                        if e or (self.lines and I.assume_eq(h, self.byte(I, h, "T", r + 1) - LF)):
                                            done(h, fb, fe, r, "cr")
        return out

    def slot(self, I, s, ins, i, p, n):
        """output slot i holds the field of its column, or nothing"""
        j = self.cols.get(i)
        if j is None or j >= s.ghost["nf"] or j >= self.last:
            if j is not None and j < self.last:
                self.all_read(I, s, ins, "row")
            I.need_eq(s, n, ZERO, "column-absent", "a column that the row does not have must be empty", ins)
            return
        fb, fe = s.ghost["fb%d" % j], s.ghost["fe%d" % j]
        for t, z in I.split_eq(s.copy(), fe - fb):
            if z:
                I.need_eq(t, n, ZERO, "column-value", "value of column %d" % j, ins)
                continue
            I.need(t, True if isinstance(p, Ptr) and p.r == "T" else None, "column-value", "the column is not a view of the text (%s)" % I.show(t, p), ins, (p,))
            I.need_eq(t, p.o, fb, "column-value", "start of column %d" % j, ins)
            I.need_eq(t, p.o + n, fe, "column-value", "end of column %d" % j, ins)

    def c_outi(self, I, s, ins, args):
        self.slot(I, s, ins, int(s.poly.norm(args[0]).k), args[1], args[2])
        s.ghost["done"] += 1

    def line_end(self, I, s):
        """start of the next line, as far as known"""
        h = s.poly.norm(self.absorb(I, s, "l"))
        if s.poly.entails_eq(h - N):
            return N
        if self.is_c(I, s, "T", h, LF) is True:
            return h + 1
        return None

    def c_rest(self, I, s, ins, args):
        p, n = args
        I.need(s, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "the rest is not a view of the text", ins, (p,))
        e = self.line_end(I, s)
        I.need(s, True if e is not None else None, "row-end", "the rest of the text need not start behind the line end", ins)
        I.need_eq(s, p.o, e, "row-end", "the rest must start behind the line end of the row", ins)
        I.need_eq(s, p.o + n, N, "rest-end", "the rest must extend to the end of the text", ins)
        s.ghost["done"] += 1

    def exit(self, I, s, kind, val):
        Txt.exit(self, I, s, kind, val)
        I.need(s, s.ghost["done"] == self.results or None, "result", "no result")


def row_mon(c, l, slots, **kw):
    class R(Rows):
        cols = c
        last = l
        results = slots + (0 if kw.get("lines") is False else 1)
    for k, v in kw.items():
        setattr(R, k, v)
    return R


class Head(Rows):
    """the header maps each column to the first defined column with its name"""
    texts = {"T": "$N", "U": "$M", "V": "$K"}
    limit = 2
    results = 5
    names = ("U", "V")

    def pre_head(self, I, s):
        Rows.pre_head(self, I, s)
        for j in range(s.ghost["nf"]):
            for c in range(len(self.names)):
                s.ghost["q%d.%d" % (j, c)] = self.carries(I, s, j, c)

    def infeasible(self, I, s):
        for j in range(s.ghost["nf"]):
            for c in range(len(self.names)):
                k = s.ghost.get("q%d.%d" % (j, c))
                if k is not None and self.same(I, s, s.ghost["fb%d" % j], s.ghost["fe%d" % j], self.names[c]) is (not k):
                    return True
        return Rows.infeasible(self, I, s)

    def carries(self, I, s, j, c):
        k = s.ghost.get("q%d.%d" % (j, c))
        return self.same(I, s, s.ghost["fb%d" % j], s.ghost["fe%d" % j], self.names[c]) if k is None else k

    def same(self, I, s, fb, fe, name):
        """True / False / None: the header column carries this name"""
        n = S(self.texts[name]) if isinstance(name, str) else Lin.c(len(name))
        d = fe - fb - n
        if s.poly.entails_ne(d):
            return False
        if not s.poly.entails_eq(d):
            return None
        if s.poly.entails_eq(n):
            return True
        if isinstance(name, str):
            f = None
            for k in (n, s.poly.norm(n), s.poly.norm(fe - fb)):
                f = I.get_fact(s, "memeq", (Ptr("T", s.poly.norm(fb)), Ptr(name), k)) if f is None else f
            return None if f is None else bool(f)
        r = True
        for i, c in enumerate(name):
            k = self.is_c(I, s, "T", fb + i, c)
            if k is False:
                return False
            if k is None:
                r = None
        return r

    def c_outm(self, I, s, ins, args):
        j, m = int(s.poly.norm(args[0]).k), s.poly.norm(args[1])
        s.ghost["done"] += 1
        if j >= s.ghost["nf"]:
            self.all_read(I, s, ins, "header")
            I.need_eq(s, m, Lin.c(255), "header-map", "a column that the header does not have is mapped", ins)
            return
        I.need(s, m.is_const() or None, "header-map", "the mapping of a column is not determined", ins, (m,))
        if not m.is_const():
            return
        m = int(m.k)
        if m != 255:
            I.need(s, m < len(self.names) or None, "header-map", "a column is mapped to index %d" % m, ins)
            if m >= len(self.names):
                return
        for c in range(len(self.names)):
            if m != 255 and c > m:
                break
            k = self.carries(I, s, j, c)
            want = c == m
            I.need(s, True if k is want else None, "header-map", "column %d of the header is mapped to %s, but %s" % (
                j, "nothing" if m == 255 else m, "its name may differ from that column's" if want else "it may carry the name of column %d" % c), ins)


class RangeHead(Head):
    """csv_range: the header is one line; a byte order mark before it is not part of it"""
    texts = {"T": "$N"}
    lines = False
    results = 4
    names = (b"id", b"x")
    BOM = (0xEF - 256, 0xBB - 256, 0xBF - 256)

    def pre_head(self, I, s):
        Head.pre_head(self, I, s)
        s.ghost["bom"] = None if s.ghost["seen"] else (s.poly.entails_ge(Lin.c(2) - N), tuple(self.remember(I, s, "T", Lin.c(i), c) for i, c in enumerate(self.BOM)))

    def exhausted(self, I, s):
        if not s.ghost["seen"] and s.poly.entails_eq(N - 3):
            return all(self.is_c(I, s, "T", Lin.c(i), c) for i, c in enumerate(self.BOM))
        return Head.exhausted(self, I, s)

    def begin_row(self, I, s, ins):
        if s.ghost["seen"]:
            return [s]
        k = True
        for i, c in enumerate(self.BOM):
            x = False if s.poly.entails_ge(Lin.c(2) - N) else self.is_c(I, s, "T", Lin.c(i), c)
            if x is False:
                k = False
                break
            if x is None:
                k = None
        I.need(s, True if k is not None else None, "byte-order-mark", "the header is read without looking for a byte order mark", ins)
        s.ghost["pos"] = Lin.c(3) if k else ZERO
        return [s]


class Table(Rows):
    """read_rows: one row per line until no row is left"""
    results = 1

    def vec(self, I, s, ins, dem, args):
        if "push_back" in dem or "emplace_back" in dem:
            for i in (0, 1):
                a = Ptr(args[1].r, args[1].o + 16 * i)
                self.slot(I, s, ins, i, I.load(s, ins, a, 8, "ptr"), I.load(s, ins, Ptr(a.r, a.o + 8), 8, "i64"))
            e = self.line_end(I, s)
            I.need(s, True if e is not None and s.ghost["nf"] else None, "row-lost", "a row is added that is not one line of the text", ins)
            e = s.poly.norm(e) if e is not None else N
            self.row(s, e)
            self.reset(s, "l", e)
            s.ghost["seen"] = 0
            return [(s, None)]
        return [(s, None)]

    def row_left(self, I, s):
        g = s.ghost["g"]
        return s.ghost["left"] or all(s.poly.entails_ne(N - g - n) or self.is_c(I, s, "T", g, c) is False for n, c in ((1, LF), (2, CR)))

    def row(self, s, g):
        Rows.row(self, s, g)
        s.ghost["left"] = None

    def pre_head(self, I, s):
        Rows.pre_head(self, I, s)
        if not s.ghost["seen"]:
            s.ghost["left"] = self.row_left(I, s) or None

    def begin_row(self, I, s, ins):
        if not s.ghost["seen"]:
            g = s.ghost["g"]
            I.need(s, True if self.row_left(I, s) else None, "row-extra", "a row is read from a final line end", ins)
        return [s]

    def c_rest(self, I, s, ins, args):
        p, n = args
        g = s.ghost["g"]
        I.need(s, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "the rest is not a view of the text", ins, (p,))
        I.need_eq(s, p.o, g, "row-end", "the rest must start behind the last row", ins)
        ok = s.poly.entails_eq(g - N)
        for n, c in ((1, LF), (2, CR)):
            ok = ok or (s.poly.entails_eq(N - g - n) and self.is_c(I, s, "T", g, c) is True)
        I.need(s, True if ok else None, "rows-left", "rows of the text are not read", ins)
        s.ghost["done"] += 1


class HasRow(Txt):
    def c_rowend(self, I, s, ins, args):
        for t, f in I.split_eq(s.copy(), args[0]):
            if f:
                ok = t.poly.entails_eq(N) or (t.poly.entails_eq(N - 1) and self.is_c(I, t, "T", ZERO, LF) is True) or (t.poly.entails_eq(N - 2) and self.is_c(I, t, "T", ZERO, CR) is True)
            else:
                ok = t.poly.entails_ge(N - 1) and not (t.poly.entails_eq(N - 1) and self.is_c(I, t, "T", ZERO, LF) is not False) and not (
                    t.poly.entails_eq(N - 2) and self.is_c(I, t, "T", ZERO, CR) is not False)
            I.need(t, True if ok else None, "row-remaining", "%s row remains" % ("no" if f else "a"), ins)


class Wide(Rows):
    """rows and headers of up to 66 columns of one byte each"""
    counts = (1, 2, 39, 40, 41, 63, 64, 65, 66)
    cols = {0: 63, 1: 39}
    last = 64
    limit = 67
    head_names = None   # header: column 63 carries the name of column 1

    def start(self, I, s):
        Rows.start(self, I, s)
        s.ghost["end"] = None
        s.mem.setdefault("T", {})[ZERO] = (1, Lin.c(ord("y")))
        s.poly.add_ge(Lin.c(2 * 66 - 1) - N)
        s.poly.add_ge(N - 1)

    def pre_head(self, I, s):
        pass

    def invariants(self, I, s):
        pass

    def infeasible(self, I, s):
        return False

    def column(self, I, s, ins, args):
        p = I.load(s, ins, args[0], 8, "ptr")
        n = I.load(s, ins, Ptr(args[0].r, args[0].o + 8), 8, "i64")
        out = []
        for t, z in I.split_eq(s, n):
            if z:
                out.append(t)
                continue
            k = t.ghost["nf"]
            b = Lin.c(2 * k)
            I.need(t, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "a field is read outside the text", ins, (p,))
            I.need_eq(t, p.o, b, "column-start", "the next field must start behind the separator that ended the previous one", ins)
            I.need_eq(t, b + n, N, "view-inside", "the rest of the text is cut off", ins)
            for u, e in I.split_eq(t, N - b - 1):
                if not e and (not I.assume_ge(u, N - b - 3) or k + 1 >= self.limit):
                    continue
                if e and k + 1 not in self.counts:
                    continue
                I.write(u, args[1], 8, Ptr("T", b))
                I.write(u, Ptr(args[1].r, args[1].o + 8), 8, Lin.c(1))
                I.write(u, args[0], 8, Ptr("T", b + 1))
                I.write(u, Ptr(args[0].r, args[0].o + 8), 8, u.poly.norm(N - b - 1))
                if not e:
                    u.mem["T"][b + 1] = (1, Lin.c(self.sep))
                    u.mem["T"][b + 2] = (1, Lin.c(ord("x" if k == 62 else "y")))
                u.ghost["nf"] = k + 1
                u.ghost["end"] = k + 1 if e else None
                out.append(u)
        return out

    def c_outi(self, I, s, ins, args):
        i, p, n = int(s.poly.norm(args[0]).k), args[1], args[2]
        s.ghost["done"] += 1
        j = self.cols[i]
        if j >= s.ghost["nf"]:
            I.need(s, s.ghost["end"] == s.ghost["nf"] or None, "column-lost", "column %d is not read" % j, ins)
            I.need_eq(s, n, ZERO, "column-absent", "a column that the row does not have must be empty", ins)
            return
        I.need(s, True if isinstance(p, Ptr) and p.r == "T" else None, "column-value", "column %d is not a view of the text (%s)" % (j, I.show(s, p)), ins, (p,))
        I.need_eq(s, p.o, Lin.c(2 * j), "column-value", "start of column %d" % j, ins)
        I.need_eq(s, n, Lin.c(1), "column-value", "length of column %d" % j, ins)

    def c_rest(self, I, s, ins, args):
        s.ghost["done"] += 1

    def c_outm(self, I, s, ins, args):
        j, m = int(s.poly.norm(args[0]).k), s.poly.norm(args[1])
        s.ghost["done"] += 1
        I.need(s, s.ghost["end"] == s.ghost["nf"] or None, "column-lost", "column %d of the header is not read" % s.ghost["nf"], ins)
        I.need_eq(s, m, Lin.c(1 if j == 63 and j < s.ghost["nf"] else 255), "header-map", "the mapping of column %d of the header" % j, ins)

    def exit(self, I, s, kind, val):
        if kind == "throw" and self.head_names:
            I.need(s, s.ghost["nf"] > 64 or None, "too-many", "a header of %d columns is rejected" % s.ghost["nf"])
            return
        if self.head_names:
            I.need(s, s.ghost["nf"] <= 64 or None, "too-many", "a header of more than 64 columns is accepted")
        Rows.exit(self, I, s, kind, val)


def wide(n, **kw):
    return type("W", (Wide,), dict(results=n, **kw))


def run():
    c = Check("P03", "field automaton: an unquoted field ends at the first separator or line end, a quoted one at the first quote that is not doubled; the rest continues there; rows map columns by the header")
    c.min_sites = 0 if os.environ.get("ONLY") else 20
    m = c.module("csv.cc", "keep_text.txt", CISTA)
    r = c.module("csvrow.cc", "keep_csv.txt", CISTA)
    jobs = [(m, "col_comma", with_sep(44)), (m, "col_semi", with_sep(59)), (m, "unescape", Unescape),
            (r, "row_012", row_mon({0: 0, 1: 1, 2: 2}, 3, 3)), (r, "row_20x", row_mon({2: 0, 0: 1}, 2, 3)), (r, "row_x1x", row_mon({1: 1}, 2, 2)),
            (r, "row_x10", row_mon({1: 1, 0: 2}, 3, 2)), (r, "row_none", row_mon({}, 0, 1)), (r, "row_cut", row_mon({0: 0, 1: 1}, 2, 2)), (r, "has_row", HasRow),
            (r, "split3", row_mon({0: 0, 1: 1, 2: 2}, 3, 3, lines=False)), (r, "range_row", row_mon({0: 2, 1: 0}, 3, 2, lines=False)),
            (r, "range_head", RangeHead), (r, "head2", Head), (r, "wide_row", wide(3)), (r, "wide_range", wide(2)),
            (r, "wide_head", wide(64, head_names=True)), (r, "wide_head2", wide(64, head_names=True)), (r, "rows", type("T", (Table,), dict(cols={1: 0, 0: 2}, last=3)))]
    only = os.environ.get("ONLY")
    c.par([lambda a=a: c.analyse(*a) for a in jobs if not only or a[1] in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
