#include "opaque.h"
#include "utl/zip.h"
#include <type_traits>
#include <vector>
using std::get;
template <typename R> void go(R&& r) { for (auto&& t : r) { evn(1, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); } }
template <typename R> void go3(R&& r) { for (auto&& t : r) { evn(1, 3, &get<0>(t), &get<1>(t), &get<2>(t), nullptr); } }
#define AB el *a, el *ae, el *b, el *be
#define ABC el *a, el *ae, el *b, el *be, el *c, el *ce
extern "C" {
void zip2(AB) { mrng x{a, ae}, y{b, be}; go(utl::zip(x, y)); }
void zip2_const(AB) { mrng const x{a, ae}, y{b, be}; go(utl::zip(x, y)); }
void czip2(AB) { mrng x{a, ae}, y{b, be}; go(utl::czip(x, y)); }
void zip2_rv(AB) { mrng x{a, ae}; go(utl::zip(x, mrng{b, be})); }
void zip2_constobj(AB) { mrng x{a, ae}, y{b, be}; auto const z = utl::zip(x, y); go(z); }
void zip3(ABC) {
  mrng x{a, ae}, y{b, be}; rng const z{c, ce};
  for (auto&& t : utl::zip(x, y, z)) { evn(1, 3, &get<0>(t), &get<1>(t), &get<2>(t), nullptr); }
}
void zip2_free(AB) {
  mrng x{a, ae}, y{b, be};
  auto z = utl::zip(x, y);
  auto e = end(z);
  for (auto it = begin(z); !(it == e); ++it) { auto t = *it; evn(1, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); }
}
void zipns2(AB) { mrng x{a, ae}, y{b, be}; go(utl::zip_no_size_check(x, y)); }
void czipns2(AB) { mrng x{a, ae}, y{b, be}; go(utl::czip_no_size_check(x, y)); }
void zipun2(AB) { mrng x{a, ae}, y{b, be}; go(utl::zip_unchecked(x, y)); }
void czipun2(AB) { mrng x{a, ae}, y{b, be}; go(utl::czip_unchecked(x, y)); }
void zback(AB) {
  mrng x{a, ae}, y{b, be};
  auto z = utl::zip(x, y);
  auto it = z.end();
  auto f = z.begin();
  while (it != f) { --it; auto t = *it; evn(2, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); }
}
void zsize(AB) { mrng x{a, ae}, y{b, be}; evi(3, static_cast<long>(utl::zip(x, y).size())); }
void zidx(AB, long i) { mrng x{a, ae}, y{b, be}; auto z = utl::zip(x, y); auto t = z[static_cast<std::size_t>(i)]; evn(4, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); }
void zidxc(AB, long i) { mrng x{a, ae}, y{b, be}; auto const z = utl::zip(x, y); auto t = z[static_cast<std::size_t>(i)]; evn(4, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); }
void zip3_rv(ABC) { mrng y{b, be}; go3(utl::zip(mrng{a, ae}, y, rng{c, ce})); }
void czip3(ABC) { mrng x{a, ae}, z{c, ce}; rng const y{b, be}; go3(utl::czip(x, y, z)); }
void czip2_rv(AB) { mrng x{b, be}; go(utl::czip(mrng{a, ae}, x)); }
void zip3_constobj(ABC) { mrng x{a, ae}, y{b, be}, z{c, ce}; auto const r = utl::zip(x, y, z); go3(r); }
void zipns3(ABC) { mrng x{a, ae}, y{b, be}, z{c, ce}; go3(utl::zip_no_size_check(x, y, z)); }
void czipns3(ABC) { mrng x{a, ae}, y{b, be}, z{c, ce}; go3(utl::czip_no_size_check(x, y, z)); }
void zipun3(ABC) { mrng x{a, ae}, y{b, be}, z{c, ce}; go3(utl::zip_unchecked(x, y, z)); }
void czipun3(ABC) { mrng x{a, ae}, y{b, be}, z{c, ce}; go3(utl::czip_unchecked(x, y, z)); }
void zback3(ABC) {
  mrng x{a, ae}, y{b, be}, z{c, ce};
  auto const r = utl::zip(x, y, z);
  auto it = r.end();
  auto const f = r.begin();
  while (it != f) { --it; auto const t = *it; evn(2, 3, &get<0>(t), &get<1>(t), &get<2>(t), nullptr); }
}
void zsize3(ABC) { mrng x{a, ae}, y{b, be}, z{c, ce}; auto const r = utl::zip(x, y, z); evi(3, static_cast<long>(r.size())); }
void czsize(AB) { mrng x{a, ae}, y{b, be}; evi(3, static_cast<long>(utl::czip(x, y).size())); }
void zidx3(ABC, long i) { mrng x{a, ae}, y{b, be}, z{c, ce}; auto r = utl::zip(x, y, z); auto t = r[static_cast<std::size_t>(i)]; evn(4, 3, &get<0>(t), &get<1>(t), &get<2>(t), nullptr); }
void zidxc3(ABC, long i) { mrng x{a, ae}, y{b, be}, z{c, ce}; auto const r = utl::zip(x, y, z); auto t = r[static_cast<std::size_t>(i)]; evn(4, 3, &get<0>(t), &get<1>(t), &get<2>(t), nullptr); }
void czidx3(ABC, long i) { mrng x{a, ae}, y{b, be}; auto r = utl::czip(x, y, rng{c, ce}); auto t = r[static_cast<std::size_t>(i)]; evn(4, 3, &get<0>(t), &get<1>(t), &get<2>(t), nullptr); }
void zdist(AB) { mrng x{a, ae}, y{b, be}; auto z = utl::zip(x, y); evi(3, static_cast<long>(std::distance(z.begin(), z.end()))); }
void zcmp(AB, long i, long j) {
  mrng x{a, ae}, y{b, be};
  auto const z = utl::zip_unchecked(x, y);
  using it = decltype(z.begin());
  auto const p = it{std::tuple{const_cast<el const*>(a) + i, const_cast<el const*>(b) + i}};
  auto const q = it{std::tuple{const_cast<el const*>(a) + j, const_cast<el const*>(b) + j}};
  evi(10, p == q); evi(11, p != q); evi(12, p < q); evi(13, p > q); evi(14, p <= q); evi(15, p >= q);
}
void zown(mel const* a) { for (auto&& t : utl::zip(own3{a}, own3{a})) { evn(3, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); } }
void zown_auto(mel const* a) { auto z = utl::zip(own3{a}, own3{a}); for (auto&& t : z) { evn(3, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); } }
void czown_auto(mel const* a) { auto z = utl::czip(own3{a}, own3{a}); for (auto&& t : z) { evn(3, 2, &get<0>(t), &get<1>(t), nullptr, nullptr); } }
}
