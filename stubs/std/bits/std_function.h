// Analysis-friendly std::function: an object pointer and an invoker.  Copies
// share the (immutable) callable; the real type-erasure is the library's.
#ifndef UTLV_STD_FUNCTION_H
#define UTLV_STD_FUNCTION_H 1
#define function __utlv_real_function
#include_next <bits/std_function.h>
#undef function
namespace std _GLIBCXX_VISIBILITY(default)
{
template <typename S> class function;
template <typename R, typename... A>
class function<R(A...)> {
public:
  using result_type = R;
  function() noexcept : o_{nullptr}, i_{nullptr} {}
  function(nullptr_t) noexcept : function() {}
  function(function const& x) : o_{x.o_}, i_{x.i_} {}
  function(function&& x) noexcept : o_{x.o_}, i_{x.i_} { x.i_ = nullptr; }
  template <typename F, typename D = decay_t<F>, typename = enable_if_t<!is_same_v<D, function> && is_invocable_r_v<R, D&, A...>>>
  function(F&& f) {
    if constexpr (is_empty_v<D>) {
      o_ = nullptr;
    } else {
      o_ = new D(std::forward<F>(f));
    }
    i_ = &call<D>;
  }
  function& operator=(function const& x) { o_ = x.o_; i_ = x.i_; return *this; }
  function& operator=(function&& x) noexcept { if (this != &x) { o_ = x.o_; i_ = x.i_; x.i_ = nullptr; } return *this; }
  function& operator=(nullptr_t) noexcept { i_ = nullptr; return *this; }
  template <typename F, typename D = decay_t<F>, typename = enable_if_t<!is_same_v<D, function> && is_invocable_r_v<R, D&, A...>>>
  function& operator=(F&& f) { function t(std::forward<F>(f)); o_ = t.o_; i_ = t.i_; return *this; }
  ~function() {}
  void swap(function& x) noexcept { std::swap(o_, x.o_); std::swap(i_, x.i_); }
  explicit operator bool() const noexcept { return i_ != nullptr; }
  R operator()(A... a) const {
    if (i_ == nullptr) __throw_bad_function_call();
    return i_(o_, std::forward<A>(a)...);
  }
  template <typename D>
  static R call(void* o, A... a) {
    if constexpr (is_empty_v<D>) { return static_cast<R>((*reinterpret_cast<D*>(&o))(std::forward<A>(a)...)); }
    else { return static_cast<R>((*static_cast<D*>(o))(std::forward<A>(a)...)); }
  }
private:
  void* o_;
  R (*i_)(void*, A...);
};
template <typename S> inline bool operator==(function<S> const& f, nullptr_t) noexcept { return !static_cast<bool>(f); }
template <typename S> inline void swap(function<S>& a, function<S>& b) noexcept { a.swap(b); }
}
#endif
