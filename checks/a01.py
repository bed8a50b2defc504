#!/usr/bin/env python3
"""A01 sorted_diff: trace automaton over the callbacks."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *


class SD(RangeMon):
    ranges=("A","B")
    def start(self,I,s):
        s.ghost["ga"]=ZERO; s.ghost["gb"]=ZERO
    def settle(self,I,s):
        while True:
            a,b=s.ghost["ga"],s.ghost["gb"]
            ok=(s.poly.entails_ge(S("$NA")-a-1) and s.poly.entails_ge(S("$NB")-b-1))
            if not ok: return
            if I.get_fact(s,"deep",(Ptr("A",s.poly.norm(a)),Ptr("B",s.poly.norm(b))))!=1: return
            if not s.poly.entails_eq(self.key(I,s,"A",a)-self.key(I,s,"B",b)): return
            s.ev("silent",a,b)
            s.ghost["ga"]=a+1; s.ghost["gb"]=b+1
    def call(self,I,s,ins,name,dem,args):
        if name=="op_deep_eq":
            x=self.elem(I,s,args[0],ins); y=self.elem(I,s,args[1],ins)
            out=[]
            for t,r in I.split_fact(s,"deep",(Ptr(x[0],s.poly.norm(x[1])),Ptr(y[0],s.poly.norm(y[1])))):
                out.append((t,Lin.c(int(r))))
            return out
        return super().call(I,s,ins,name,dem,args)
    def c_ev1(self,I,s,ins,args):
        self.settle(I,s)
        k=int(s.poly.norm(args[0]).k)
        r,i=self.elem(I,s,args[1],ins,"callback")
        a,b=s.ghost["ga"],s.ghost["gb"]
        s.ev("ev",k,r,i)
        if k==2:
            I.need(s, r=="A", "del-source","del must report an element of the first range",ins)
            I.need_eq(s,i,a,"order","deleted element must be the next unreported element of the first range",ins)
            g,o,G,O=a,b,"A","B"; s.ghost["ga"]=a+1
        else:
            I.need(s, k==1 and r=="B","add-source","add must report an element of the second range",ins)
            I.need_eq(s,i,b,"order","added element must be the next unreported element of the second range",ins)
            g,o,G,O=b,a,"B","A"; s.ghost["gb"]=b+1
        # other side exhausted or strictly greater
        ok=s.poly.entails_ge(o-S("$N"+O))
        if not ok and s.poly.entails_ge(S("$N"+O)-o-1):
            ok = s.poly.entails_ge(self.key(I,s,O,o)-self.key(I,s,G,g)-1)
        I.need(s, True if ok else None,"one-sided","reported as one-sided although not smaller than the other range's next element",ins)
    def c_ev2(self,I,s,ins,args):
        self.settle(I,s)
        r,i=self.elem(I,s,args[1],ins,"callback"); r2,j=self.elem(I,s,args[2],ins,"callback")
        I.need(s, r=="A" and r2=="B","pair-order","changed pair must be (first, second)",ins)
        a,b=s.ghost["ga"],s.ghost["gb"]
        I.need_eq(s,i,a,"order","pair",ins); I.need_eq(s,j,b,"order","pair",ins)
        I.need(s,True if s.poly.entails_eq(self.key(I,s,"A",a)-self.key(I,s,"B",b)) else None,"pair-equal","keys must be equivalent",ins)
        I.need(s,I.get_fact(s,"deep",(Ptr("A",s.poly.norm(a)),Ptr("B",s.poly.norm(b))))==0 or None,"pair-changed","pair must differ",ins)
        s.ghost["ga"]=a+1; s.ghost["gb"]=b+1
    def exit(self,I,s,kind,val):
        self.settle(I,s)
        I.need_eq(s,s.ghost["ga"],S("$NA"),"complete","every element of the first range accounted for")
        I.need_eq(s,s.ghost["gb"],S("$NB"),"complete","every element of the second range accounted for")


def run():
    c = Check("A01", "callback automaton (one-sided / changed / silent pairs, in order, complete) over every path and iteration count of utl::sorted_diff")
    c.min_sites = 8
    m = c.module("sorted_diff.cc")
    for e in ("h_iters", "h_coll"):
        c.analyse(m, e, custom(SD, lt=True, eq=True))
    return c.finish()


if __name__ == "__main__":
    main(run)
