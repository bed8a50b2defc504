#include "pipeval.h"
#include "utl/helpers/algorithm.h"
extern "C" {
bool al_all(pv* a, pv* ae) { pc c{a, ae}; return utl::all_of(c, pr<1>{}); }
bool al_any(pv* a, pv* ae) { pc c{a, ae}; return utl::any_of(c, pr<1>{}); }
bool al_none(pv* a, pv* ae) { pc c{a, ae}; return utl::none_of(c, pr<1>{}); }
bool al_all_c(pv* a, pv* ae) { pc const c{a, ae}; return utl::all_of(c, pr<1>{}); }
bool al_any_c(pv* a, pv* ae) { pc const c{a, ae}; return utl::any_of(c, pr<1>{}); }
pv* al_find_if(pv* a, pv* ae) { pc c{a, ae}; return utl::find_if(c, pr<1>{}); }
pv* al_find(pv* a, pv* ae, pv const* x) { pc c{a, ae}; return utl::find(c, *x); }
long al_count(pv* a, pv* ae) { pc c{a, ae}; return utl::count_if(c, pr<1>{}); }
void al_sort(pv* a, pv* ae) { pc c{a, ae}; utl::sort(c); }
void al_sort_p(pv* a, pv* ae) { pc c{a, ae}; utl::sort(c, ple{}); }
void al_nth(pv* a, pv* ae, std::size_t n) { pc c{a, ae}; utl::nth_element(c, n); }
void al_nth_p(pv* a, pv* ae, std::size_t n) { pc c{a, ae}; utl::nth_element(c, n, ple{}); }
bool al_srt(pv* a, pv* ae) { pc c{a, ae}; return utl::is_sorted(c, ple{}); }
void al_fill(pv* a, pv* ae, pv const* x) { pc c{a, ae}; utl::fill(c, *x); }
bool al_equal(pv* a, pv* ae, pv* b, pv* be) { pc c{a, ae}; pc const d{b, be}; return utl::equal(c, d); }
pv* al_max(pv* a, pv* ae) { pc c{a, ae}; return utl::max_element(c, ple{}); }
pv* al_min(pv* a, pv* ae) { pc c{a, ae}; return utl::min_element(c, ple{}); }
}
