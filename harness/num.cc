#include <cstddef>
#include <cstdint>
#include "utl/parser/arg_parser.h"
using utl::cstr;
extern "C" {
void num(bool ok, long v, char const* p, std::size_t n) noexcept;
void val(long v) noexcept;
void flt(bool ok, double v, char const* p, std::size_t n) noexcept;
void fval(double v) noexcept;
void boo(bool ok, bool v, char const* p, std::size_t n) noexcept;
void bval(bool v) noexcept;
void out(char const* p, std::size_t n) noexcept;
}
template <typename T> static void n_(cstr s, T d) { T v; bool ok = utl::parse_arg(s, v, d); num(ok, static_cast<long>(v), s.str, s.len); }
extern "C" {
void p_int(char const* t, std::size_t n, int d) { n_<int>(cstr{t, n}, d); }
void p_uint(char const* t, std::size_t n, unsigned d) { n_<unsigned>(cstr{t, n}, d); }
void p_long(char const* t, std::size_t n, long d) { n_<long>(cstr{t, n}, d); }
void p_ulong(char const* t, std::size_t n, unsigned long d) { n_<unsigned long>(cstr{t, n}, d); }
void p_short(char const* t, std::size_t n, short d) { n_<short>(cstr{t, n}, d); }
void p_u16(char const* t, std::size_t n, unsigned short d) { n_<unsigned short>(cstr{t, n}, d); }
void p_s8(char const* t, std::size_t n, signed char d) { n_<signed char>(cstr{t, n}, d); }
void p_u8(char const* t, std::size_t n, unsigned char d) { n_<unsigned char>(cstr{t, n}, d); }
void p_int0(char const* t, std::size_t n) { cstr s{t, n}; int v; bool ok = utl::parse_arg(s, v); num(ok, v, s.str, s.len); }
void v_int(char const* t, std::size_t n) { val(utl::parse<int>(cstr{t, n})); }
void v_intd(char const* t, std::size_t n, int d) { val(utl::parse<int>(cstr{t, n}, d)); }
void v_intv(char const* t, std::size_t n) { val(utl::parse_verify<int>(cstr{t, n})); }
void v_ints(char const* t, std::size_t n) { cstr s{t, n}; int v; s >> v; num(false, v, s.str, s.len); }
void v_u8v(char const* t, std::size_t n) { val(utl::parse_verify<std::uint8_t>(cstr{t, n})); }
void f_double(char const* t, std::size_t n) { cstr s{t, n}; double v; bool ok = utl::parse_arg(s, v); flt(ok, v, s.str, s.len); }
void f_float(char const* t, std::size_t n) { cstr s{t, n}; float v; bool ok = utl::parse_arg(s, v); flt(ok, static_cast<double>(v), s.str, s.len); }
void f_v(char const* t, std::size_t n) { fval(utl::parse<double>(cstr{t, n})); }
void f_vv(char const* t, std::size_t n) { fval(utl::parse_verify<double>(cstr{t, n})); }
void b_0(char const* t, std::size_t n) { cstr s{t, n}; bool v; bool ok = utl::parse_arg(s, v); boo(ok, v, s.str, s.len); }
void b_1(char const* t, std::size_t n) { cstr s{t, n}; bool v; bool ok = utl::parse_arg(s, v, true); boo(ok, v, s.str, s.len); }
void b_v(char const* t, std::size_t n) { bval(utl::parse<bool>(cstr{t, n})); }
void b_v1(char const* t, std::size_t n) { bval(utl::parse<bool>(cstr{t, n}, true)); }
void b_vv(char const* t, std::size_t n) { bval(utl::parse_verify<bool>(cstr{t, n})); }
void a_cstr(char const* t, std::size_t n) { cstr s{t, n}; cstr v; utl::parse_arg(s, v); out(v.str, v.len); }
void a_str(char const* t, std::size_t n) { cstr s{t, n}; std::string v; utl::parse_arg(s, v); out(v.data(), v.size()); }
void a_path(char const* t, std::size_t n, std::filesystem::path* p) { cstr s{t, n}; utl::parse_arg(s, *p); }
}
