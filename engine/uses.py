"""compile witnesses with standard types: uses of the library that its users rely on; (prelude, [(statement, what)])"""
STD = """
#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <vector>
"""
DATA = """
struct point { int x, y; bool operator==(point const&) const = default; auto operator<=>(point const&) const = default; };
std::vector<int> vi(); std::vector<int>& v(); std::vector<int> const& cv(); std::list<int>& li(); std::list<int> const& cli();
std::deque<long>& d(); std::set<int>& st(); std::vector<point>& vp(); std::vector<point> const& cvp(); std::vector<std::string>& vs();
std::map<int, std::string>& mp(); std::vector<bool>& vb(); std::array<int, 3>& ar();
template <typename T> void use(T&&...) {}
inline auto const lt = [](auto const& a, auto const& b) { return a < b; };
inline auto const eq = [](auto const& a, auto const& b) { return a == b; };
inline auto const pos = [](auto const& a) { return a > 0; };
inline bool positive(int const x) { return x > 0; }
inline int twice(int const x) { return 2 * x; }
template <typename A, typename B> inline constexpr bool same = std::is_same_v<A, B>;
"""


def inc(*h):
    return STD + "".join('#include "utl/%s"\n' % x for x in h) + DATA


USES = {
 "A01": (inc("sorted_diff.h"), [
     ("utl::sorted_diff(cv(), cv(), lt, eq, utl::overloaded{[](utl::op, int) {}, [](int, int) {}});", "vectors, overloaded callback"),
     ("utl::sorted_diff(cli(), cli(), lt, eq, utl::overloaded{[](utl::op, int) {}, [](int, int) {}});", "lists"),
     ("utl::sorted_diff(vp().begin(), vp().end(), cvp().begin() - cvp().begin() + vp().begin(), vp().end(), lt, eq, utl::overloaded{[](utl::op, point const&) {}, [](point const&, point const&) {}});", "iterators")]),
 "A02": (inc("join.h"), [
     ("utl::inner_join(v(), v(), [](auto, auto, auto, auto) {});", "default order"),
     ("utl::inner_join(vp(), vp(), [](point const& a, point const& b) { return a.x < b.x; }, [](auto, auto, auto, auto) {});", "an order"),
     ("utl::left_join(li(), li(), [](auto, auto, auto, auto) {}, [](auto, auto) {});", "lists, left join"),
     ("utl::full_join(v().begin(), v().end(), v().begin(), v().end(), lt, [](auto, auto, auto, auto) {}, [](auto, auto) {}, [](auto, auto) {});", "full join of iterators")]),
 "A03": (inc("equal_ranges.h", "equal_ranges_linear.h"), [
     ("utl::equal_ranges(v(), [](auto, auto) {});", "default order"),
     ("utl::equal_ranges(vp(), [](point const& a, point const& b) { return a.x < b.x; }, [](auto, auto) {});", "an order"),
     ("utl::equal_ranges_linear(cv(), [](auto, auto) {});", "const container"),
     ("utl::equal_ranges_linear(li(), [](auto, auto) {});", "list"),
     ("utl::equal_ranges_linear(vp(), [](point const& a, point const& b) { return a.x == b.x; }, [](auto, auto) {});", "an equality"),
     ("utl::equal_ranges_linear(cv().begin(), cv().end(), eq, [](auto, auto) {});", "iterators")]),
 "A04": (inc("nwise.h", "pairwise.h"), [
     ("for (auto const [a, b] : utl::nwise<2>(v())) { use(a, b); }", "nwise of a vector"),
     ("for (auto const [a, b, c] : utl::nwise<3>(cli())) { use(a, b, c); }", "nwise of a const list"),
     ("for (auto const [a, b] : utl::pairwise(vi())) { use(a, b); }", "pairwise of a temporary"),
     ("std::size_t const n = utl::nwise<2>(v()).size(); use(n);", "size")]),
 "A05": (inc("zip.h"), [
     ("for (auto const [a, b] : utl::zip(v(), cli())) { use(a, b); }", "vector and const list"),
     ("for (auto&& [a, b, c] : utl::zip(v(), vi(), d())) { a = 1; use(b, c); }", "with a temporary"),
     ("for (auto const& [a, b] : utl::czip(v(), st())) { use(a, b); }", "czip with a set"),
     ("for (auto const [a, b] : utl::zip_no_size_check(v(), ar())) { use(a, b); }", "an array")]),
 "A06": (inc("enumerate.h"), [
     ("for (auto const [i, x] : utl::enumerate(v())) { use(i, x); }", "vector"),
     ("for (auto&& [i, x] : utl::enumerate(li())) { x = 1; use(i); }", "list, writable"),
     ("for (auto const [i, x] : utl::enumerate(cli())) { use(i, x); }", "const list"),
     ("for (auto const [i, x] : utl::enumerate(vi())) { use(i, x); }", "temporary"),
     ("auto e = utl::enumerate(v()); auto it = e.begin(); it++; ++it; it--; --it; use(*it, it - e.begin());", "postfix and prefix steps"),
     ("auto e = utl::enumerate(v()); auto const it = e.begin(); use(*it);", "dereferencing a const iterator"),
     ("auto e = utl::enumerate(mp()); use(std::distance(e.begin(), e.end()));", "map")]),
 "A07": (inc("power_set_intersection.h"), [
     ("utl::power_set_intersection(cv(), cv(), [](int, int) {});", "vectors"),
     ("utl::power_set_intersection(cvp(), cvp(), [](point const&, point const&) {}, [](point const& a, point const& b) { return a.x < b.x; });", "an order")]),
 "A08": (inc("pipes.h", "pipes/max.h", "pipes/iterable.h", "pipes/generate.h", "pipes/iota.h"), [
     ("auto r = utl::all(v()) | utl::transform([](int x) { return x + 1.5; }) | utl::remove_if([](double x) { return x > 3; }) | utl::vec(); static_assert(same<decltype(r), std::vector<double>>);", "vec of transformed numbers"),
     ("auto r = utl::all(d()) | utl::max<long>{5L}; static_assert(same<decltype(r), long>);", "max has the type of its start value"),
     ("auto r = utl::all(cv()) | utl::avg(); static_assert(same<decltype(r), double>);", "avg is a double"),
     ("auto r = utl::all(cv()) | utl::find([](int x) { return x == 3; }); int const y = r.value_or(1); use(y);", "find"),
     ("auto r = utl::all(vp()) | utl::transform([](point const& p) { return p.x; }) | utl::unique() | utl::emplace_back<std::vector<int>>(); static_assert(same<decltype(r), std::vector<int>>);", "emplace_back"),
     ("auto r = utl::all(vi()) | utl::insert<std::set<int>>(); static_assert(same<decltype(r), std::set<int>>);", "insert into a set"),
     ("for (auto&& x : utl::all(vi()) | utl::transform(twice) | utl::iterable()) { use(x); }", "iterable, function as stage"),
     ("utl::all(mp()) | utl::for_each([](auto&& x) { use(x.first, x.second); });", "map"),
     ("auto r = cv() | utl::accumulate([](int a, int b) { return a + b; }, 0); static_assert(same<decltype(r), int>);", "accumulate")]),
 "A09": (inc("to_vec.h", "to_set.h", "concat.h", "repeat_n.h"), [
     ("auto r = utl::to_vec(cv(), [](int x) { return x * 0.5; }); static_assert(same<decltype(r), std::vector<double>>);", "to_vec"),
     ("auto r = utl::to_vec(st(), twice); static_assert(same<decltype(r), std::vector<int>>);", "to_vec of a set with a function"),
     ("auto r = utl::to_vec(cli()); static_assert(same<decltype(r), std::vector<int>>);", "to_vec without operation"),
     ("auto r = utl::to_vec(cv().begin(), cv().end(), twice); static_assert(same<decltype(r), std::vector<int>>);", "to_vec of iterators"),
     ("auto r = utl::to_set(cv().begin(), cv().end(), [](int x) { return x; }); static_assert(same<decltype(r), std::set<int>>);", "to_set of iterators"),
     ("auto r = utl::to_set(cv(), [](int x) { return std::to_string(x); }); static_assert(same<decltype(r), std::set<std::string>>);", "to_set"),
     ("auto o = std::vector<double>{}; utl::transform_to(cv(), o, [](int x) { return 1.0 * x; });", "transform_to"),
     ("auto r = utl::transform_to<std::vector<double>>(cv(), [](int x) { return 1.0 * x; }); use(r);", "transform_to returning"),
     ("utl::concat(v(), cli());", "concat of different containers"),
     ("auto r = utl::repeat_n(std::string{}, 3); static_assert(same<decltype(r), std::vector<std::string>>);", "repeat_n")]),
 "A10": (inc("erase.h", "erase_if.h", "erase_duplicates.h"), [
     ("utl::erase(v(), 3);", "erase"), ("utl::erase(vs(), \"x\");", "erase a string literal"), ("utl::erase(st(), 3);", "erase from a set"),
     ("utl::erase_if(vs(), [](std::string const& s) { return s.empty(); });", "erase_if"), ("utl::erase_if(v(), positive);", "erase_if with a function"),
     ("utl::erase_duplicates(vs());", "erase_duplicates"),
     ("utl::erase_duplicates(vp(), [](point const& a, point const& b) { return a.x < b.x; }, [](point const& a, point const& b) { return a.x == b.x; });", "an order"),
     ("utl::erase_duplicates(v(), v().begin() + 1, v().end(), lt, eq);", "a part")]),
 "A11": (inc("get_or_create.h", "get_or_create_index.h", "insert_sorted.h"), [
     ("auto& r = utl::get_or_create(mp(), 3, [] { return std::string{\"x\"}; }); static_assert(same<decltype(r), std::string&>);", "map"),
     ("std::unordered_map<std::string, std::unique_ptr<int>> m; auto& r = utl::get_or_create(m, std::string{\"k\"}, [] { return std::make_unique<int>(1); }); *r = 2;", "unordered map of unique pointers"),
     ("std::map<std::string, std::size_t> m; auto const i = utl::get_or_create_index(m, std::string{\"k\"}); static_assert(same<decltype(i), std::size_t const>);", "index"),
     ("auto [it, fresh] = utl::insert_sorted(v(), 3); *it = 4; use(fresh);", "insert_sorted"),
     ("auto r = utl::insert_sorted(vp(), point{1, 2}, lt); use(r);", "insert_sorted with an order")]),
 "A12": (inc("is_uniform.h"), [
     ("bool const r = utl::is_uniform(cv()); use(r);", "container"),
     ("bool const r = utl::is_uniform(cv().begin(), cv().end()); use(r);", "iterators"),
     ("bool const r = utl::is_uniform(cvp(), [](point const& p) { return p.x; }); use(r);", "container with a lambda"),
     ("bool const r = utl::is_uniform(v(), twice); use(r);", "container with a function"),
     ("bool const r = utl::is_uniform(cvp().begin(), cvp().end(), [](point const& p) { return p.y; }); use(r);", "iterators with a lambda")]),
 "A14": (inc("for_each_bit_set.h"), [
     ("utl::for_each_set_bit(std::uint8_t{5}, [](auto const b) { use(b); });", "8 bits"), ("utl::for_each_set_bit(~std::uint64_t{0}, [](std::size_t const b) { use(b); });", "64 bits"),
     ("constexpr auto n = [] { auto k = 0U; utl::for_each_set_bit(5U, [&](auto const b) { k += static_cast<unsigned>(b); }); return k; }(); static_assert(n == 2U);", "in a constant expression"),
     ("static_assert(utl::has_bit_set(4U, 2U) && !utl::has_bit_set(4U, 1U));", "has_bit_set in a constant expression")]),
 "P01": (inc("parser/cstr.h"), [
     ("utl::cstr s{std::string_view{\"abc\"}}; for (char const c : s) { use(c); }", "iteration"),
     ("utl::cstr s{\"abc\"}; if (s) { use(s[0], s.substr(1), s.view(), s == utl::cstr{\"abc\"}); }", "access"),
     ("utl::cstr s{\"a b\"}; use(s.trim(), s.starts_with(\"a\"), s.substr(1, utl::size(1)));", "views")]),
 "P02": (inc("parser/cstr.h", "parser/buf_reader.h", "parser/line_range.h", "pipes.h"), [
     ("utl::for_each_line(utl::cstr{\"a\"}, [](utl::cstr) {});", "lines"), ("utl::for_each_token(utl::cstr{\"a\"}, ',', [](utl::cstr) { return utl::continue_t::kBreak; });", "tokens with break"),
     ("utl::for_each_token_numbered(utl::cstr{\"a\"}, ',', [](utl::cstr, std::size_t) {});", "numbered tokens"),
     ("utl::line_range{utl::make_buf_reader(utl::cstr{\"a\"})} | utl::for_each([](utl::cstr) {});", "line_range")]),
}
USES["A01"] = (inc("sorted_diff.h", "overloaded.h"), USES["A01"][1])
