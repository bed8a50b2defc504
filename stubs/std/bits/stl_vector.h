// Analysis-friendly std::vector: the interface of the real one, storage behind
// two opaque calls (room for one more element always exists).  Only ever
// compiled into harness modules; the programs analysed see ordinary vectors.
#ifndef _STL_VECTOR_H
#define _STL_VECTOR_H 1
#define _VECTOR_TCC 1
#include <bits/stl_iterator_base_funcs.h>
#include <bits/stl_iterator.h>
#include <bits/functexcept.h>
#include <bits/concept_check.h>
#include <initializer_list>
#include <compare>
#include <type_traits>
extern "C" {
void* vm_alloc(unsigned long es) noexcept;          // fresh storage
void vm_free(void* base) noexcept;                  // storage ends
void vm_room(void* base, void* end, unsigned long es);  // about to construct one element at end
}
namespace std _GLIBCXX_VISIBILITY(default)
{
template <typename T, typename A = std::allocator<T>>
class vector {
public:
  using value_type = T;
  using allocator_type = A;
  using pointer = T*;
  using const_pointer = T const*;
  using reference = T&;
  using const_reference = T const&;
  using iterator = __gnu_cxx::__normal_iterator<T*, vector>;
  using const_iterator = __gnu_cxx::__normal_iterator<T const*, vector>;
  using reverse_iterator = std::reverse_iterator<iterator>;
  using const_reverse_iterator = std::reverse_iterator<const_iterator>;
  using size_type = size_t;
  using difference_type = ptrdiff_t;

  vector() noexcept { init(); }
  explicit vector(A const&) noexcept { init(); }
  explicit vector(size_type n, A const& = A()) { init(); for (; n != 0; --n) emplace_back(); }
  vector(size_type n, T const& v, A const& = A()) { init(); for (; n != 0; --n) emplace_back(v); }
  template <typename It, typename = std::_RequireInputIter<It>>
  vector(It f, It l, A const& = A()) { init(); for (; f != l; ++f) emplace_back(*f); }
  vector(initializer_list<T> il, A const& = A()) { init(); for (auto const& x : il) emplace_back(x); }
  vector(vector const& o) { init(); for (auto p = o.b_; p != o.e_; ++p) emplace_back(*p); }
  vector(vector const& o, A const&) : vector(o) {}
  vector(vector&& o) noexcept : b_{o.b_}, e_{o.e_} { o.init(); }
  vector(vector&& o, A const&) noexcept : vector(std::move(o)) {}
  ~vector() { clear(); vm_free(b_); }
  vector& operator=(vector const& o) { if (this != &o) { clear(); for (auto p = o.b_; p != o.e_; ++p) emplace_back(*p); } return *this; }
  vector& operator=(vector&& o) noexcept { if (this != &o) { clear(); vm_free(b_); b_ = o.b_; e_ = o.e_; o.init(); } return *this; }
  vector& operator=(initializer_list<T> il) { assign(il.begin(), il.end()); return *this; }
  void assign(size_type n, T const& v) { clear(); for (; n != 0; --n) emplace_back(v); }
  template <typename It, typename = std::_RequireInputIter<It>>
  void assign(It f, It l) { clear(); for (; f != l; ++f) emplace_back(*f); }
  void assign(initializer_list<T> il) { assign(il.begin(), il.end()); }
  A get_allocator() const noexcept { return A(); }

  iterator begin() noexcept { return iterator(b_); }
  const_iterator begin() const noexcept { return const_iterator(b_); }
  iterator end() noexcept { return iterator(e_); }
  const_iterator end() const noexcept { return const_iterator(e_); }
  const_iterator cbegin() const noexcept { return const_iterator(b_); }
  const_iterator cend() const noexcept { return const_iterator(e_); }
  reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
  reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
  const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
  const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
  const_reverse_iterator crbegin() const noexcept { return rbegin(); }
  const_reverse_iterator crend() const noexcept { return rend(); }

  size_type size() const noexcept { return size_type(e_ - b_); }
  size_type max_size() const noexcept { return size_type(-1) / 2 / sizeof(T); }
  size_type capacity() const noexcept { return size(); }
  bool empty() const noexcept { return b_ == e_; }
  void reserve(size_type) {}
  void shrink_to_fit() {}
  void resize(size_type n) { while (size() > n) pop_back(); while (size() < n) emplace_back(); }
  void resize(size_type n, T const& v) { while (size() > n) pop_back(); while (size() < n) emplace_back(v); }
  void clear() noexcept {
    if constexpr (!is_trivially_destructible_v<T>) { for (auto p = b_; p != e_; ++p) p->~T(); }
    e_ = b_;
  }
  reference operator[](size_type n) noexcept { return b_[n]; }
  const_reference operator[](size_type n) const noexcept { return b_[n]; }
  reference at(size_type n) { if (n >= size()) __throw_out_of_range("vector"); return b_[n]; }
  const_reference at(size_type n) const { if (n >= size()) __throw_out_of_range("vector"); return b_[n]; }
  reference front() noexcept { return *b_; }
  const_reference front() const noexcept { return *b_; }
  reference back() noexcept { return *(e_ - 1); }
  const_reference back() const noexcept { return *(e_ - 1); }
  T* data() noexcept { return b_; }
  T const* data() const noexcept { return b_; }

  void push_back(T const& v) { emplace_back(v); }
  void push_back(T&& v) { emplace_back(std::move(v)); }
  template <typename... Args>
  reference emplace_back(Args&&... args) {
    vm_room(b_, e_, sizeof(T));
    ::new (static_cast<void*>(e_)) T(std::forward<Args>(args)...);
    ++e_;
    return *(e_ - 1);
  }
  void pop_back() noexcept { --e_; e_->~T(); }
  template <typename... Args>
  iterator emplace(const_iterator pos, Args&&... args) {
    T tmp(std::forward<Args>(args)...);
    return shift_in(pos, std::move(tmp));
  }
  iterator insert(const_iterator pos, T const& v) { T tmp(v); return shift_in(pos, std::move(tmp)); }
  iterator insert(const_iterator pos, T&& v) { T tmp(std::move(v)); return shift_in(pos, std::move(tmp)); }
  iterator insert(const_iterator pos, size_type n, T const& v) {
    auto const i = pos.base() - b_;
    for (; n != 0; --n) insert(const_iterator(b_ + i), v);
    return iterator(b_ + i);
  }
  template <typename It, typename = std::_RequireInputIter<It>>
  iterator insert(const_iterator pos, It f, It l) {
    auto const i = pos.base() - b_;
    if (pos.base() == e_) {
      for (; f != l; ++f) emplace_back(*f);
    } else {
      for (auto j = i; f != l; ++f, ++j) insert(const_iterator(b_ + j), *f);
    }
    return iterator(b_ + i);
  }
  iterator insert(const_iterator pos, initializer_list<T> il) { return insert(pos, il.begin(), il.end()); }
  iterator erase(const_iterator pos) { return erase(pos, pos + 1); }
  iterator erase(const_iterator f, const_iterator l) {
    T* d = b_ + (f.base() - b_);
    T* r = d;
    for (T* s = b_ + (l.base() - b_); s != e_; ++s, ++d) *d = std::move(*s);
    if constexpr (!is_trivially_destructible_v<T>) { for (T* p = d; p != e_; ++p) p->~T(); }
    e_ = d;
    return iterator(r);
  }
  void swap(vector& o) noexcept { std::swap(b_, o.b_); std::swap(e_, o.e_); }

private:
  void init() noexcept { b_ = e_ = static_cast<T*>(vm_alloc(sizeof(T))); }
  iterator shift_in(const_iterator pos, T&& v) {
    auto const i = pos.base() - b_;
    if (pos.base() == e_) { emplace_back(std::move(v)); return iterator(e_ - 1); }
    emplace_back(std::move(*(e_ - 1)));
    for (T* p = e_ - 2; p != b_ + i; --p) *p = std::move(*(p - 1));
    b_[i] = std::move(v);
    return iterator(b_ + i);
  }
  T* b_;
  T* e_;
};
template <typename It, typename V = typename iterator_traits<It>::value_type, typename A = allocator<V>, typename = _RequireInputIter<It>>
vector(It, It, A = A()) -> vector<V, A>;
template <typename T, typename A>
inline bool operator==(vector<T, A> const& a, vector<T, A> const& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i != a.size(); ++i) if (!(a[i] == b[i])) return false;
  return true;
}
template <typename T, typename A>
inline bool operator<(vector<T, A> const& a, vector<T, A> const& b) {
  return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
}
template <typename T, typename A>
inline bool operator!=(vector<T, A> const& a, vector<T, A> const& b) { return !(a == b); }
template <typename T, typename A>
inline void swap(vector<T, A>& a, vector<T, A>& b) noexcept { a.swap(b); }
}
#endif
