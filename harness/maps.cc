#include "pipeval.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include "utl/insert_sorted.h"
extern "C" {
void* m_find(long k) noexcept;                 // entry or null
void* m_emplace(long k, long v) noexcept;      // inserts unless present; the entry
bool m_inserted() noexcept;                    // did the last m_emplace insert
void* m_index(long k) noexcept;                // entry, created with a default value if absent
bool m_has(long k) noexcept;
std::size_t m_size() noexcept;
void* m_begin() noexcept;
pv* sv_insert(pv* pos, long v) noexcept;
void rpos(pv const* p, bool inserted) noexcept;
}
template <typename V> struct entry { pv first; V second; };
template <typename V> long raw(V const& v) { if constexpr (std::is_same_v<V, pv>) { return v.v_; } else { return static_cast<long>(v); } }
template <typename V, bool Hint> struct omap {
  using key_type = pv;
  using mapped_type = V;
  using value_type = entry<V>;
  using size_type = std::size_t;
  struct iterator {
    entry<V>* operator->() const { return e_; }
    entry<V>& operator*() const { return *e_; }
    friend bool operator==(iterator a, iterator b) { return a.e_ == b.e_; }
    friend bool operator!=(iterator a, iterator b) { return a.e_ != b.e_; }
    entry<V>* e_;
  };
  static iterator mk(void* p) { return iterator{static_cast<entry<V>*>(p)}; }
  iterator find(pv const& k) { return mk(m_find(k.v_)); }
  iterator end() { return iterator{nullptr}; }
  friend iterator end(omap& m) { return m.end(); }
  template <typename K, typename W> std::pair<iterator, bool> emplace(K&& k, W&& v) {
    pv key{std::forward<K>(k)}; V val(std::forward<W>(v));
    auto const e = mk(m_emplace(key.v_, raw(val))); return {e, m_inserted()};
  }
  template <typename K, typename W> std::pair<iterator, bool> try_emplace(K&& k, W&& v) {
    pv key{std::forward<K>(k)}; V val(std::forward<W>(v));
    auto const e = mk(m_emplace(key.v_, raw(val))); return {e, m_inserted()};
  }
  template <typename K, typename W> requires Hint iterator emplace_hint(iterator, K&& k, W&& v) {
    pv key{std::forward<K>(k)}; V val(std::forward<W>(v));
    return mk(m_emplace(key.v_, raw(val)));
  }
  V& operator[](pv const& k) { return mk(m_index(k.v_))->second; }
  V& at(pv const& k) { auto it = find(k); if (it == end()) { throw std::out_of_range{""}; } return it->second; }
  bool contains(pv const& k) const { return m_has(k.v_); }
  std::size_t count(pv const& k) const { return m_has(k.v_) ? 1U : 0U; }
  std::size_t size() const { return m_size(); }
};
struct sv {
  using value_type = pv;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using iterator = pv*;
  using const_iterator = pv const*;
  pv* begin() { return b_; }
  pv* end() { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  bool empty() const { return b_ == e_; }
  pv* insert(pv* pos, pv const& x) { return sv_insert(pos, x.v_); }
  pv* emplace(pv* pos, pv const& x) { return sv_insert(pos, x.v_); }
  void push_back(pv const& x) { sv_insert(e_, x.v_); }
  pv* b_;
  pv* e_;
};
extern "C" {
pv* goc_h(omap<pv, true>* m, pv* k) { return &utl::get_or_create(*m, *k, [] { return pv{pgen()}; }); }
pv* goc_u(omap<pv, false>* m, pv* k) { return &utl::get_or_create(*m, *k, [] { return pv{pgen()}; }); }
pv* goc_hr(omap<pv, true>* m, pv* k) { return &utl::get_or_create(*m, pv{*k}, [] { return pv{pgen()}; }); }
pv* goc_ur(omap<pv, false>* m, pv* k) { return &utl::get_or_create(*m, pv{*k}, [] { return pv{pgen()}; }); }
std::size_t goi(omap<std::size_t, true>* m, pv* k) { return utl::get_or_create_index(*m, *k); }
void is(pv* a, pv* ae, pv const* x) { sv c{a, ae}; auto r = utl::insert_sorted(c, pv{*x}); rpos(r.first, r.second); }
void is_cmp(pv* a, pv* ae, pv const* x) { sv c{a, ae}; auto r = utl::insert_sorted(c, pv{*x}, ple{}); rpos(r.first, r.second); }
}
