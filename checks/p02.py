#!/usr/bin/env python3
"""P02 tokens and lines partition the text."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from text import Txt, Pieces

N = S("$N")


class Tok(Pieces):
    newline = False


class Brk(Tok):
    def c_op_skip(self, I, s, ins, args):
        out = []
        for t in self.piece(I, s, ins, args[0], args[1]):
            u = t.copy()
            out.append((t, ONE))
            u.ghost["open"] = 0
            out.append((u, ZERO))
        return out


class Line(Pieces):
    cr = True


class Skip(Line):
    """lines are passed to the predicate until it declines; the rest of the text from that line on is the result"""

    def start(self, I, s):
        Line.start(self, I, s)
        s.ghost["res"] = 0

    def c_op_skip(self, I, s, ins, args):
        return Brk.c_op_skip(self, I, s, ins, args)

    def c_outn(self, I, s, ins, args):
        s.ghost["res"] = 1

    def c_out(self, I, s, ins, args):
        p, n = args
        want = s.ghost["g"] if s.ghost["open"] == 1 else s.ghost["prev"]
        I.need(s, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "the result is not a view of the text", ins, (p,))
        I.need_eq(s, p.o, want, "rest-start", "the rest must start at the first line that is not skipped", ins)
        I.need_eq(s, p.o + n, N, "rest-end", "the rest must extend to the end of the text", ins)
        s.ghost["res"] = 2

    def exit(self, I, s, kind, val):
        Line.exit(self, I, s, kind, val)
        I.need(s, s.ghost["res"] == 2 or None, "returns", "no result")


class Progress(Pieces):
    def start(self, I, s):
        Pieces.start(self, I, s)
        s.ghost["rep"] = 0

    def c_outp(self, I, s, ins, args):
        I.need(s, s.ghost["rep"] == 0 or None, "progress-once", "progress is reported twice for one line", ins)
        e = args[0] - 1
        h = self.absorb(I, s, "s")
        ok = self.is_c(I, s, "T", e, 10) is True and s.poly.entails_ge(h - e) and s.poly.entails_ge(e - s.ghost["g"])
        I.need(s, True if ok else None, "progress-position", "the reported position is not the start of the next line", ins)
        s.ghost["rep"] = 1

    def piece(self, I, s, ins, p, n):
        outs = Pieces.piece(self, I, s, ins, p, n)
        for t in outs:
            # a line that ends at a newline reports progress
            nl = self.is_c(I, t, "T", p.o + n, 10) is True
            I.need(t, t.ghost["rep"] == 1 or not nl or None, "progress-missing", "no progress is reported for a line", ins)
            t.ghost["rep"] = 0
        return outs


def run():
    c = Check("P02", "piece automaton: the k-th reported token or line is exactly the k-th stretch between separators; no stretch is lost, merged, split or invented")
    c.min_sites = 40
    m = c.module("text.cc", "keep_text.txt")
    for e, k in (("tok_void", Tok), ("tok_brk", Brk), ("tok_num", Tok), ("line_void", Line), ("line_num", Line), ("line_it", Line), ("line_post", Line), ("skip", Skip),
                 ("rd", Pieces), ("rd_prog", Progress), ("rd_make", Progress), ("rd_move", Pieces)):
        c.analyse(m, e, k)
    return c.finish()


if __name__ == "__main__":
    main(run)
