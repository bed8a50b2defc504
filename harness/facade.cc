#include "facade.h"
namespace utl_h {
template <typename T> long at(T const& t) { return t.pos; }
template <typename T> long at(wr<T> const& t) { return t.inner().pos; }
template <typename T> T make(long p) { if constexpr (requires { T{in{p}}; }) return T{in{p}}; else if constexpr (requires { T{il{p}}; }) return T{il{p}}; else return T(p); }
template <typename T> void star(long p) { auto const i = make<T>(p); where(&*i); out(0, at(i)); }
template <typename T> void arrow(long p) { auto const i = make<T>(p); where(i.operator->()); out(0, at(i)); }
template <typename T> void inc(long p) { auto i = make<T>(p); auto& r = ++i; if (&r == &i) yes(); else no(); out(0, at(i)); }
template <typename T> void dec(long p) { auto i = make<T>(p); auto& r = --i; if (&r == &i) yes(); else no(); out(0, at(i)); }
template <typename T> void pinc(long p) { auto i = make<T>(p); auto const o = i++; out(0, at(o)); out(1, at(i)); }
template <typename T> void vinc(long p) { auto i = make<T>(p); i++; out(0, at(i)); }
template <typename T> void pdec(long p) { auto i = make<T>(p); auto const o = i--; out(0, at(o)); out(1, at(i)); }
template <typename T, typename N> void plus(long p, N n) { auto const i = make<T>(p); out(0, at(i + n)); out(1, at(i)); }
template <typename T, typename N> void nplus(long p, N n) { auto const i = make<T>(p); out(0, at(n + i)); out(1, at(i)); }
template <typename T, typename N> void minus(long p, N n) { auto const i = make<T>(p); out(0, at(i - n)); out(1, at(i)); }
template <typename T, typename N> void add(long p, N n) { auto i = make<T>(p); auto& r = (i += n); if (&r == &i) yes(); else no(); out(0, at(i)); }
template <typename T, typename N> void sub(long p, N n) { auto i = make<T>(p); auto& r = (i -= n); if (&r == &i) yes(); else no(); out(0, at(i)); }
template <typename T, typename N> void idx(long p, N n) { auto const i = make<T>(p); where(&i[n]); out(0, at(i)); }
template <typename T> void diff(long p, long q) { auto const a = make<T>(p); auto const b = make<T>(q); out(0, a - b); }
template <typename T> void eq(long p, long q) { auto const a = make<T>(p); auto const b = make<T>(q); if (a == b) yes(); else no(); }
template <typename T> void ne(long p, long q) { auto const a = make<T>(p); auto const b = make<T>(q); if (a != b) yes(); else no(); }
template <typename T> void lt(long p, long q) { auto const a = make<T>(p); auto const b = make<T>(q); if (a < b) yes(); else no(); }
template <typename T> void le(long p, long q) { auto const a = make<T>(p); auto const b = make<T>(q); if (a <= b) yes(); else no(); }
template <typename T> void gt(long p, long q) { auto const a = make<T>(p); auto const b = make<T>(q); if (a > b) yes(); else no(); }
template <typename T> void ge(long p, long q) { auto const a = make<T>(p); auto const b = make<T>(q); if (a >= b) yes(); else no(); }
template <typename T> void eqs(long p) { auto const a = make<T>(p); if (a == done{}) yes(); else no(); }
template <typename T> void seq(long p) { auto const a = make<T>(p); if (done{} == a) yes(); else no(); }
template <typename T> void nes(long p) { auto const a = make<T>(p); if (a != done{}) yes(); else no(); }
template <typename T> void sne(long p) { auto const a = make<T>(p); if (done{} != a) yes(); else no(); }
}  // namespace utl_h
using namespace utl_h;
#define P1(T, F) extern "C" void T##_##F(long p) { F<T>(p); }
#define P2(T, F) extern "C" void T##_##F(long p, long q) { F<T>(p, q); }
#define PN(T, F, N, S) extern "C" void T##_##F##_##S(long p, N n) { F<T>(p, n); }
#define NUM(T, F) PN(T, F, long, l) PN(T, F, int, i) PN(T, F, unsigned, u) PN(T, F, short, s) PN(T, F, unsigned char, c) PN(T, F, unsigned long, z)
#define NUMI(T, F) PN(T, F, int, i) PN(T, F, short, s) PN(T, F, unsigned char, c)
#define BASE(T) P1(T, star) P1(T, arrow) P1(T, inc) P1(T, pinc)
#define EQ(T) P2(T, eq) P2(T, ne)
#define BACK(T) P1(T, dec) P1(T, pdec)
#define ORD(T) P2(T, lt) P2(T, le) P2(T, gt) P2(T, ge) P2(T, diff)
#define ARI(T, M) M(T, plus) M(T, nplus) M(T, minus) M(T, add) M(T, sub) M(T, idx)
BASE(ra) EQ(ra) BACK(ra) ORD(ra) ARI(ra, NUM)
BASE(ri) EQ(ri) BACK(ri) ORD(ri) ARI(ri, NUMI)
BASE(fw) EQ(fw)
BASE(mp) EQ(mp)
BASE(bd) EQ(bd) BACK(bd)
BASE(ad) EQ(ad) BACK(ad)
BASE(all) EQ(all) BACK(all) ORD(all) ARI(all, NUM)
P1(sp, star) P1(sp, arrow) P1(sp, inc) P1(sp, vinc) EQ(sp)
P1(sa, star) P1(sa, arrow) P1(sa, inc) P1(sa, vinc) EQ(sa)
BASE(se) P1(se, eqs) P1(se, seq) P1(se, nes) P1(se, sne)
BASE(sb) EQ(sb) BACK(sb) ORD(sb) P1(sb, eqs) P1(sb, seq) P1(sb, nes) P1(sb, sne)
extern "C" void sb_left(long p) { sb const a{p}; out(0, done{} - a); }
BASE(win) EQ(win) BACK(win) ORD(win) ARI(win, NUM)
BASE(wil) EQ(wil) BACK(wil)
extern "C" void va_star(long p) { va const i{p}; auto const v = *i; out(0, v.x); out(1, v.y); }
extern "C" void va_arrow(long p) { va const i{p}; out(0, i->x); out(1, i->y); }
extern "C" void va_proxy(long p) { va i{p}; auto a = i.operator->(); ++i; out(0, a->x); auto const b = a; out(1, b->y); }
P1(va, inc) P1(va, pinc) EQ(va)
