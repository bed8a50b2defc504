#include <cstddef>
#include <functional>
#include <algorithm>
#include <new>
#include "utl/thread_pool.h"
extern "C" {
void pool_init() noexcept;
void pool_fin() noexcept;
void job(unsigned long idx) noexcept;
bool more() noexcept;
unsigned long count() noexcept;
void exec_begin(unsigned long n, void const* fn) noexcept;
void job2() noexcept;
void exec_done(unsigned long n) noexcept;
void dtor_begin() noexcept;
void dtor_done() noexcept;
void tp_all(utl::thread_pool* p) {
  new (p) utl::thread_pool([] { pool_init(); }, [] { pool_fin(); });
  while (more()) {
    auto const n = count();
    std::function<void(std::size_t)> f;
    if (more()) {
      f = [](std::size_t i) { job(i); };
    } else {
      f = [](std::size_t i) { job(i); job2(); };
    }
    exec_begin(n, &f);
    p->execute(n, std::move(f));
    exec_done(n);
  }
  dtor_begin();
  p->~thread_pool();
  dtor_done();
}
void tp_default(utl::thread_pool* p) {
  new (p) utl::thread_pool();
  while (more()) {
    auto const n = count();
    std::function<void(std::size_t)> f;
    if (more()) {
      f = [](std::size_t i) { job(i); };
    } else {
      f = [](std::size_t i) { job(i); job2(); };
    }
    exec_begin(n, &f);
    p->execute(n, std::move(f));
    exec_done(n);
  }
  dtor_begin();
  p->~thread_pool();
  dtor_done();
}
}
