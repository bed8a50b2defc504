// generated (tools/gen_init.py): a target with n reference members, in reverse order of the source
#include "init_shapes.h"
struct fx { long v_; }; struct fy { long v_; }; struct fz { long v_; };

extern "C" {
void at(int k, void const* p) noexcept;  // the k-th member of the result is / refers to / points to p
void none() noexcept;                    // nullopt
void some() noexcept;
void star(void const* p) noexcept;            // a null pointer must not be dereferenced
}
template <typename T> struct own { T& operator*() const { star(p_); return *p_; } friend bool operator==(own const& a, std::nullptr_t) { return a.p_ == nullptr; } T* p_; };
template <typename T, typename S, typename F> void go(S& s, F f) {
  auto r = utl::init_from<T>(s);
  if (r.has_value()) { some(); f(*r); } else { none(); }
}
extern "C" {
void ar0(s0& s) { go<t0>(s, []([[maybe_unused]] auto& t) {  }); }
void ar1(s1& s) { go<t1>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); }); }
void ar2(s2& s) { go<t2>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); }); }
void ar3(s3& s) { go<t3>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); }); }
void ar4(s4& s) { go<t4>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); }); }
void ar5(s5& s) { go<t5>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); }); }
void ar6(s6& s) { go<t6>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); }); }
void ar7(s7& s) { go<t7>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); }); }
void ar8(s8& s) { go<t8>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); }); }
void ar9(s9& s) { go<t9>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); }); }
void ar10(s10& s) { go<t10>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); }); }
void ar11(s11& s) { go<t11>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); }); }
void ar12(s12& s) { go<t12>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); }); }
void ar13(s13& s) { go<t13>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); }); }
void ar14(s14& s) { go<t14>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); }); }
void ar15(s15& s) { go<t15>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); }); }
void ar16(s16& s) { go<t16>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); }); }
void ar17(s17& s) { go<t17>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); }); }
void ar18(s18& s) { go<t18>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); }); }
void ar19(s19& s) { go<t19>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); }); }
void ar20(s20& s) { go<t20>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); }); }
void ar21(s21& s) { go<t21>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); }); }
void ar22(s22& s) { go<t22>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); at(21, &t.m21); }); }
void ar23(s23& s) { go<t23>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); at(21, &t.m21); at(22, &t.m22); }); }
void ar24(s24& s) { go<t24>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); at(21, &t.m21); at(22, &t.m22); at(23, &t.m23); }); }
void ar25(s25& s) { go<t25>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); at(21, &t.m21); at(22, &t.m22); at(23, &t.m23); at(24, &t.m24); }); }
void ar26(s26& s) { go<t26>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); at(21, &t.m21); at(22, &t.m22); at(23, &t.m23); at(24, &t.m24); at(25, &t.m25); }); }
void ar27(s27& s) { go<t27>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); at(21, &t.m21); at(22, &t.m22); at(23, &t.m23); at(24, &t.m24); at(25, &t.m25); at(26, &t.m26); }); }
void ar28(s28& s) { go<t28>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); at(21, &t.m21); at(22, &t.m22); at(23, &t.m23); at(24, &t.m24); at(25, &t.m25); at(26, &t.m26); at(27, &t.m27); }); }
void ar29(s29& s) { go<t29>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); at(21, &t.m21); at(22, &t.m22); at(23, &t.m23); at(24, &t.m24); at(25, &t.m25); at(26, &t.m26); at(27, &t.m27); at(28, &t.m28); }); }
void ar30(s30& s) { go<t30>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); at(21, &t.m21); at(22, &t.m22); at(23, &t.m23); at(24, &t.m24); at(25, &t.m25); at(26, &t.m26); at(27, &t.m27); at(28, &t.m28); at(29, &t.m29); }); }
void ar31(s31& s) { go<t31>(s, []([[maybe_unused]] auto& t) { at(0, &t.m0); at(1, &t.m1); at(2, &t.m2); at(3, &t.m3); at(4, &t.m4); at(5, &t.m5); at(6, &t.m6); at(7, &t.m7); at(8, &t.m8); at(9, &t.m9); at(10, &t.m10); at(11, &t.m11); at(12, &t.m12); at(13, &t.m13); at(14, &t.m14); at(15, &t.m15); at(16, &t.m16); at(17, &t.m17); at(18, &t.m18); at(19, &t.m19); at(20, &t.m20); at(21, &t.m21); at(22, &t.m22); at(23, &t.m23); at(24, &t.m24); at(25, &t.m25); at(26, &t.m26); at(27, &t.m27); at(28, &t.m28); at(29, &t.m29); at(30, &t.m30); }); }
}

// kinds of source: value, pointer, owning pointer; kinds of target: reference, value pointer
struct mix { fx v; fy* p; std::unique_ptr<fz> u; };
struct refs { fx& a; fy& b; fz& c; };
struct rrefs { fz& a; fy& b; fx& c; };
struct ptrs { fy* a; fz* b; };
struct both { fz* a; fz& b; fy& c; fy* d; };
struct same { fx& a; fx& b; };
struct first { fy* p; fx v; std::unique_ptr<fx> u; fx* q; };  // several members match
struct fref { fx& a; };
struct fptr { fx* a; };
struct last { std::unique_ptr<fy> n; std::unique_ptr<fx> u; fx* q; fx v; };
struct two { fx* p; fx* q; };
struct cus { own<fx> o; };
struct nothing {};
extern "C" {
void k_refs(mix& s) { go<refs>(s, [](refs& t) { at(0, &t.a); at(1, &t.b); at(2, &t.c); }); }
void k_rrefs(mix& s) { go<rrefs>(s, [](rrefs& t) { at(0, &t.a); at(1, &t.b); at(2, &t.c); }); }
void k_ptrs(mix& s) { go<ptrs>(s, [](ptrs& t) { at(0, t.a); at(1, t.b); }); }
void k_both(mix& s) { go<both>(s, [](both& t) { at(0, t.a); at(1, &t.b); at(2, &t.c); at(3, t.d); }); }
void k_same(mix& s) { go<same>(s, [](same& t) { at(0, &t.a); at(1, &t.b); }); }
void k_nothing(mix& s) { go<nothing>(s, [](nothing&) {}); }
void k_fref(first& s) { go<fref>(s, [](fref& t) { at(0, &t.a); }); }
void k_fptr(first& s) { go<fptr>(s, [](fptr& t) { at(0, t.a); }); }
void k_cref(cus& s) { go<fref>(s, [](fref& t) { at(0, &t.a); }); }
void k_cptr(cus& s) { go<fptr>(s, [](fptr& t) { at(0, t.a); }); }
void k_lref(last& s) { go<fref>(s, [](fref& t) { at(0, &t.a); }); }
void k_lptr(last& s) { go<fptr>(s, [](fptr& t) { at(0, t.a); }); }
void k_tref(two& s) { go<fref>(s, [](fref& t) { at(0, &t.a); }); }
void k_tptr(two& s) { go<fptr>(s, [](fptr& t) { at(0, t.a); }); }
}
