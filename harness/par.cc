#include <cstddef>
#include <iterator>
#include <new>
#include <string>
#include "opaque.h"
#include "utl/parallel_for.h"
extern "C" {
void job(unsigned long idx);          // the caller's function: may throw
void jobel(el const& e);
void job_tl(void* tl, unsigned long idx);
void prog(unsigned long idx);         // the caller's progress function: may throw
void tl_new(void*) noexcept;
}
struct tl_t { tl_t() { tl_new(this); } long v_{0}; };
template <typename E> struct opq { opq() = delete; };
using strat = utl::parallel_error_strategy;
extern "C" {
void pf_run(unsigned long n, int st, utl::errors_t* out) {
  new (out) utl::errors_t(utl::parallel_for_run(n, [](unsigned long i) { job(i); }, [](unsigned long i) { prog(i); }, static_cast<strat>(st)));
}
void pf_tl(unsigned long n, int st, utl::errors_t* out) {
  new (out) utl::errors_t(utl::parallel_for_run_threadlocal<tl_t>(n, [](tl_t& t, unsigned long i) { job_tl(&t, i); }, [](unsigned long i) { prog(i); }, static_cast<strat>(st)));
}
void pf_run_default(unsigned long n, utl::errors_t* out) {
  new (out) utl::errors_t(utl::parallel_for_run(n, [](unsigned long i) { job(i); }));
}
void pf_cont(el const* a, el const* ae, int st, utl::errors_t* out) {
  rng c{a, ae};
  new (out) utl::errors_t(utl::parallel_for(c, [](el const& e) { jobel(e); }, [](unsigned long i) { prog(i); }, static_cast<strat>(st)));
}
void pf_desc(std::string const* desc, el const* a, el const* ae, unsigned long mod, int st, utl::errors_t* out) {
  rng const c{a, ae};
  new (out) utl::errors_t(utl::parallel_for(*desc, c, mod, [](el const& e) { jobel(e); }, [](unsigned long i) { prog(i); }, static_cast<strat>(st)));
}
void pf_ccont(el const* a, el const* ae, int st, utl::errors_t* out) {
  rng const c{a, ae};
  new (out) utl::errors_t(utl::parallel_for(c, [](el const& e) { jobel(e); }, [](unsigned long i) { prog(i); }, static_cast<strat>(st)));
}
}
