#include <cstddef>
#include <exception>
#include <string>
#include <type_traits>
#include <utility>
#include "utl/match.h"
#include "utl/overloaded.h"
#include "utl/verify.h"
struct base { virtual ~base() = default; };
struct one : base {};
struct two : base {};
struct three : two {};
struct trouble { long v; };
struct failure : std::exception { explicit failure(long x) : v{x} {} long v; };
extern "C" {
long handler(unsigned n, void const* p);        // the n-th function runs on p
void made(long v) noexcept;                     // what match returns
void text(char const* fmt, std::size_t n, unsigned args) noexcept;  // the message that is due
bool cond() noexcept;
long arg() noexcept;
void passed() noexcept;
void got(unsigned n, long v) noexcept;
bool some() noexcept;
}
template <unsigned N> constexpr auto const lit = std::integral_constant<unsigned, N>{};
#define TEXT(s, n) text(s, sizeof(s) - 1U, n)
extern "C" {
void m_one(base* b) { made(utl::match(b, [](one* x) { return handler(1U, x); })); }
void m_three(base* b) { made(utl::match(b, [](one* x) { return handler(1U, x); }, [](two* x) { return handler(2U, x); }, [](three* x) { return handler(3U, x); })); }
void m_const(base const* b) { made(utl::match(b, [](three const* x) { return handler(3U, x); }, [](two const* x) { return handler(2U, x); })); }
void m_lvalue(base* b) {
  auto f = [](two* x) { return handler(2U, x); };
  auto const g = [](one* x) { return handler(1U, x); };
  made(utl::match(b, f, g));
}
void m_void(base* b) { utl::match(b, [](two* x) { handler(2U, x); }, [](base* x) { handler(9U, x); }); made(-1); }
void m_null() { made(utl::match(static_cast<base*>(nullptr), [](one* x) { return handler(1U, x); }, [](two* x) { return handler(2U, x); })); }
void m_mixed(base* b) { made(utl::match(b, [](one* x) { return handler(1U, x); }, [](two const* x) { return handler(2U, x); })); }

void v_verify(bool c, long a, long b) { TEXT("m {} {}", 2U); utl::verify(c, "m {} {}", a, b); passed(); }
void v_plain(bool c) { TEXT("m", 0U); utl::verify(c, "m"); passed(); }
void v_silent(bool c, long a, long b) { TEXT("m {} {}", 2U); utl::verify_silent(c, "m {} {}", a, b); passed(); }
void v_silent_plain(bool c) { TEXT("m", 0U); utl::verify_silent(c, "m"); passed(); }
void v_ex(bool c, long a) { utl::verify_ex(c, failure{a}); passed(); }
void v_ex_const(bool c, long a) { auto const t = failure{a}; utl::verify_ex(c, t); passed(); }
void v_ex_lvalue(bool c, long a) { auto t = trouble{a}; utl::verify_ex(c, t); passed(); }
void v_macro() { TEXT("m {}", 1U); utl_verify(cond(), "m {}", arg()); passed(); }
void v_macro_expr() { TEXT("m {}", 1U); utl_verify(cond() || some(), "m {}", arg()); passed(); }
void v_macro_nested(bool c) { TEXT("m {}", 1U); if (c) utl_verify(cond(), "m {}", arg()); else made(0); passed(); }
void v_fail(long a, long b) { TEXT("m {} {}", 2U); throw utl::fail("m {} {}", a, b); }

void o_two(long a, unsigned long b, bool c) {
  auto o = utl::overloaded{[](long v) { got(1U, v); }, [](unsigned long v) { got(2U, static_cast<long>(v)); }};
  if (c) { o(a); } else { o(b); }
}
void o_other(long a) {
  auto o = utl::overloaded{[](long v) { got(1U, v); }, [](unsigned long v) { got(2U, static_cast<long>(v)); }};
  o(trouble{a});
  made(0);
}
void o_ref(long a) {
  auto o = utl::overloaded{[](trouble const& t) { got(1U, t.v); }, [](long& v) { got(2U, v); }};
  auto const t = trouble{a};
  if (some()) { o(t); } else { o(a); }
}
}
