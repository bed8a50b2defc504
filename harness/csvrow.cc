#include <cstddef>
#include <cstdint>
#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/split.h"
using utl::cstr;
extern "C" {
void outi(std::size_t i, char const* p, std::size_t n) noexcept;
void rest(char const* p, std::size_t n) noexcept;
void outm(std::size_t i, unsigned m) noexcept;
void bnd() noexcept;
void header(cstr*) noexcept;
void nextl(cstr*) noexcept;
void rowend(bool) noexcept;
}
constexpr auto X = utl::NO_COLUMN_IDX;
using map_t = std::array<utl::column_idx_t, utl::MAX_COLUMNS>;
static map_t mk(utl::column_idx_t a, utl::column_idx_t b, utl::column_idx_t c) { map_t m; m.fill(X); m[0] = a; m[1] = b; m[2] = c; return m; }
template <typename R>
static void o(R const& r) { for (std::size_t i = 0; i != r.size(); ++i) outi(i, r[i].str, r[i].len); }
using t1 = std::tuple<cstr>;
using t2 = std::tuple<cstr, cstr>;
using t3 = std::tuple<cstr, cstr, cstr>;
struct lr {
  explicit lr(int) {}
  lr(lr&&) = default;
  cstr begin() { cstr c; header(&c); return c; }
  void next(cstr& c) { c = cstr{}; nextl(&c); }
  bool valid(cstr c) { return c.valid(); }
};
struct rec2 {
  auto cista_members() { return std::tie(a, b); }
  utl::csv_col<cstr, UTL_NAME("id")> a;
  utl::csv_col<cstr, UTL_NAME("x")> b;
};
extern "C" {
void row_012(char const* t, std::size_t n) { cstr s{t, n}; o(utl::read_row<t3>(s, mk(0, 1, 2), 3)); rest(s.str, s.len); }
void row_20x(char const* t, std::size_t n) { cstr s{t, n}; o(utl::read_row<t3>(s, mk(2, 0, X), 2)); rest(s.str, s.len); }
void row_x1x(char const* t, std::size_t n) { cstr s{t, n}; o(utl::read_row<t2>(s, mk(X, 1, X), 2)); rest(s.str, s.len); }
void row_x10(char const* t, std::size_t n) { cstr s{t, n}; o(utl::read_row<t2>(s, mk(X, 1, 0), 3)); rest(s.str, s.len); }
void row_none(char const* t, std::size_t n) { cstr s{t, n}; o(utl::read_row<t1>(s, mk(X, X, X), 0)); rest(s.str, s.len); }
void row_cut(char const* t, std::size_t n) { cstr s{t, n}; o(utl::read_row<t2>(s, mk(0, 1, 0), 2)); rest(s.str, s.len); }
void head2(char const* t, std::size_t n, char const* u, std::size_t m, char const* v, std::size_t k) {
  cstr s{t, n};
  auto const map = utl::read_header<t2>(s, {cstr{u, m}, cstr{v, k}});
  for (std::size_t i = 0; i != 4; ++i) outm(i, map[i]);
  rest(s.str, s.len);
}
void split3(char const* t, std::size_t n) { auto [a, b, c] = utl::split<',', cstr, cstr, cstr>(cstr{t, n}); outi(0, a.str, a.len); outi(1, b.str, b.len); outi(2, c.str, c.len); }
void rows(char const* t, std::size_t n) { cstr s{t, n}; auto r = utl::read_rows<t2>(s, mk(1, X, 0)); rest(s.str, s.len); }
static map_t far() { map_t m; m.fill(X); m[39] = 1; m[63] = 0; return m; }
void wide_row(char const* t, std::size_t n) { cstr s{t, n}; o(utl::read_row<t2>(s, far(), 64)); rest(s.str, s.len); }
void wide_range(char const* t, std::size_t n) {
  utl::csv_range<rec2, lr> r{lr{0}};
  r.headers_permutation_ = far();
  bnd();
  auto v = r.read_row(cstr{t, n});
  outi(0, v.a.val().str, v.a.val().len); outi(1, v.b.val().str, v.b.val().len);
}
void wide_head(char const* t, std::size_t n) { auto const map = utl::read_header<rec2>(cstr{t, n}); for (std::size_t i = 0; i != 64; ++i) outm(i, map[i]); }
void wide_head2(char const* t, std::size_t n) {
  cstr s{t, n};
  auto const map = utl::read_header<t2>(s, {cstr{"q", 1}, cstr{"x", 1}});
  for (std::size_t i = 0; i != 64; ++i) outm(i, map[i]);
}
void has_row(char const* t, std::size_t n) { rowend(utl::has_row_remaining(cstr{t, n})); }
void range_head(char const* t, std::size_t n) { auto const map = utl::read_header<rec2>(cstr{t, n}); for (std::size_t i = 0; i != 4; ++i) outm(i, map[i]); }
void range_row(char const* t, std::size_t n) {
  utl::csv_range<rec2, lr> r{lr{0}};
  r.headers_permutation_ = mk(1, X, 0);
  bnd();
  auto v = r.read_row(cstr{t, n});
  outi(0, v.a.val().str, v.a.val().len); outi(1, v.b.val().str, v.b.val().len);
}
}
