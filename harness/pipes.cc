// Pipelines over opaque values: every value is an identity token, functions
// and predicates are uninterpreted.
#include "pipeval.h"
#include "utl/pipes.h"
#include "utl/pipes/generate.h"
#include "utl/pipes/iota.h"
#include "utl/pipes/iterable.h"
#include "utl/pipes/map.h"
#include "utl/pipes/max.h"

struct ac {  // accumulator
  explicit ac(long v) : v_{v} {}
  ac(ac const& o) : v_{o.v_} {}
  ac(ac&& o) noexcept : v_{o.v_} { o.v_ = -1; }
  ac& operator=(ac const& o) { v_ = o.v_; return *this; }
  ac& operator=(ac&& o) noexcept { v_ = o.v_; o.v_ = -1; return *this; }
  long v_;
};
struct add { ac operator()(ac&& a, pv const& x) const noexcept { return ac{pacc(a.v_, x.v_)}; } };
struct gen { pv operator()() const noexcept { return pv{pgen()}; } };

using namespace utl;
using fo = out;
#define SRC pc c{a, ae}; all(c)
#define T(k) | transform(fn<k>{})
#define R(k) | remove_if(pr<k>{})
#define W(k) | take_while(pr<k>{})
#define U | unique()
#define E(name, pipe) void name(pv* a, pv* ae) { SRC pipe | for_each(fo{}); }
extern "C" {
E(fe, )
E(fe_t, T(1))
E(fe_tt, T(1) T(2))
E(fe_r, R(1))
E(fe_tr, T(1) R(2))
E(fe_rt, R(1) T(2))
E(fe_rr, R(1) R(2))
E(fe_trt, T(1) R(2) T(3))
E(fe_w, W(1))
E(fe_tw, T(1) W(2))
E(fe_wt, W(1) T(2))
E(fe_rw, R(1) W(2))
E(fe_wr, W(1) R(2))
E(fe_u, U)
E(fe_tu, T(1) U)
E(fe_ut, U T(1))
E(fe_ur, U R(1))
E(fe_ru, R(1) U)
E(fe_uw, U W(1))
E(fe_wu, W(1) U)

// sinks
void s_vec(pv* a, pv* ae) { SRC R(1) T(2) | vec(); }
void s_eb(pv* a, pv* ae) { SRC R(1) T(2) | emplace_back<sink>(); }
void s_to(pv* a, pv* ae) { SRC R(1) T(2) | to<sink>(); }
void s_ebt(pv* a, pv* ae) { SRC R(1) T(2) | emplace_back_to<sink>(); }
void s_ins(pv* a, pv* ae) { SRC R(1) T(2) | insert<sink>(); }
void s_emp(pv* a, pv* ae) { SRC R(1) T(2) | emplace<sink>(); }
void s_it(pv* a, pv* ae) { pc c{a, ae}; for (auto&& x : all(c) R(1) T(2) | iterable()) { pout(x.v_); } }
void s_itw(pv* a, pv* ae) { pc c{a, ae}; for (auto&& x : all(c) W(1) | iterable()) { pout(x.v_); } }
long s_acc(pv* a, pv* ae, long x) { pc c{a, ae}; return (all(c) R(1) T(2) | accumulate(add{}, ac{x})).v_; }
unsigned long s_cnt(pv* a, pv* ae) { pc c{a, ae}; return all(c) R(1) | count(pr<2>{}); }
void s_find(pv* a, pv* ae) { pc c{a, ae}; auto o = all(c) R(1) T(2) | find(pr<3>{}); if (o.has_value()) { pget(o->v_); } else { pnone(); } }
// containers given to a sink directly
long c_acc(pv* a, pv* ae, long x) { pc c{a, ae}; return (c | accumulate(add{}, ac{x})).v_; }
unsigned long c_cnt(pv* a, pv* ae) { pc c{a, ae}; return c | count(pr<2>{}); }
void c_find(pv* a, pv* ae) { pc c{a, ae}; auto o = c | find(pr<3>{}); if (o.has_value()) { pget(o->v_); } else { pnone(); } }
void c_ins(pv* a, pv* ae) { pc c{a, ae}; c | insert<sink>(); }
void c_emp(pv* a, pv* ae) { pc c{a, ae}; c | emplace<sink>(); }
void c_const(pv* a, pv* ae) { pc const c{a, ae}; c | insert<sink>(); }
void c_ptr(pv* a, pv* ae) { pc c{a, ae}; &c | insert<sink>(); }
void c_w(pv* a, pv* ae) { pc c{a, ae}; all(c) W(1) | insert<sink>(); }
void a_it(pv* a, pv* ae) { all(a, ae) T(1) | for_each(fo{}); }
void a_cst(pv* a, pv* ae) { pc const c{a, ae}; all(c) R(1) | for_each(fo{}); }
// temporaries
void o_vec(pv const* a) { all(po{a}) T(1) | for_each(fo{}); }
void o_late(pv const* a) { auto r = all(po{a}) R(1); r | for_each(fo{}); }
void o_acc(pv const* a, long x) { pout((po{a} | accumulate(add{}, ac{x})).v_); }
void o_cnt(pv const* a) { pget(static_cast<long>(po{a} | count(pr<1>{}))); }
void o_find(pv const* a) { auto o = po{a} | find(pr<1>{}); if (o.has_value()) { pget(o->v_); } else { pnone(); } }
void o_ins(pv const* a) { po{a} | insert<sink>(); }
void o_it(pv const* a) { for (auto&& x : all(po{a}) T(1) | iterable()) { pout(x.v_); } }
void o_il(pv const* a) { all({a[0], a[1], a[2]}) T(1) | for_each(fo{}); }
// temporaries of any length
#define H(name, pipe) void name(pv* a, pv* ae) { all(pc{a, ae}) pipe | for_each(fo{}); }
H(h_fe, )
H(h_t, T(1))
H(h_rt, R(1) T(2))
H(h_tr, T(1) R(2))
H(h_w, W(1))
H(h_u, U)
H(h_ru, R(1) U)
void h_late(pv* a, pv* ae) { auto r = all(pc{a, ae}) R(1) T(2); r | for_each(fo{}); }
void h_it(pv* a, pv* ae) { for (auto&& x : all(pc{a, ae}) R(1) T(2) | iterable()) { pout(x.v_); } }
void h_ins(pv* a, pv* ae) { pc{a, ae} | insert<sink>(); }
void h_emp(pv* a, pv* ae) { pc{a, ae} | emplace<sink>(); }
void h_find(pv* a, pv* ae) { auto o = pc{a, ae} | find(pr<3>{}); if (o.has_value()) { pget(o->v_); } else { pnone(); } }
unsigned long h_cnt(pv* a, pv* ae) { return pc{a, ae} | count(pr<2>{}); }
long h_acc(pv* a, pv* ae, long x) { return (pc{a, ae} | accumulate(add{}, ac{x})).v_; }
// number sources and sinks
void n_iota(long x, long y) { iota(x, y) | for_each([](long v) { pout(v); }); }
void n_iota_t(long x, long y) { iota(x, y) | transform([](long v) { return pv{pf(1, v)}; }) R(2) | for_each(fo{}); }
void n_gen() { generate(gen{}) W(1) | for_each(fo{}); }
void n_gen_t() { generate(gen{}) T(1) R(3) W(2) | for_each(fo{}); }
}
struct nc {
  using value_type = long;
  using iterator = long*;
  using const_iterator = long const*;
  long* begin() { return b_; }
  long* end() { return e_; }
  long const* begin() const { return b_; }
  long const* end() const { return e_; }
  long* b_;
  long* e_;
};
struct npos { bool operator()(long x) const noexcept { return pp(1, x); } };
extern "C" {
unsigned long n_sum(long* a, long* ae) { nc c{a, ae}; return all(c) | remove_if(npos{}) | sum(); }
unsigned long n_sumc(long* a, long* ae) { nc c{a, ae}; return c | sum(); }
double n_avg(long* a, long* ae) { nc c{a, ae}; return all(c) | remove_if(npos{}) | avg(); }
long n_max(long* a, long* ae, long x) { nc c{a, ae}; return all(c) | remove_if(npos{}) | utl::max<long>{x}; }
}
