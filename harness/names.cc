// Names of enumerators and threads: the strings stay calls, their texts are literals.
#include "utl/printable_enum.h"
#include "utl/set_thread_name.h"
namespace n {
PRINTABLE_ENUM(one, A)
PRINTABLE_ENUM(two, A, BC)
PRINTABLE_ENUM(tight, A,BC,D)
PRINTABLE_ENUM(wide, A  ,  BC  ,D  ,
               EFG,   H)
PRINTABLE_ENUM(prefix, AA, A, AAA, AA_A, A1)
PRINTABLE_ENUM(twelve, M_A, M_B, M_C, M_D, M_E, M_F, M_G, M_H, M_I, M_J, M_K, M_L)
PRINTABLE_ENUM(trailing, LONG_NAME_OF_AN_ENUMERATOR_IN_CAPITALS, shorter, )
}  // namespace n
extern "C" {
void named(std::string const& s) noexcept;
void put(std::ostream& o, int k) noexcept;
void name_of(int e, unsigned v) {
  auto const show = [](auto x) { auto const s = as_string(x); named(s); };
  switch (e) {
    case 0: show(static_cast<n::one>(v)); break;
    case 1: show(static_cast<n::two>(v)); break;
    case 2: show(static_cast<n::tight>(v)); break;
    case 3: show(static_cast<n::wide>(v)); break;
    case 4: show(static_cast<n::prefix>(v)); break;
    case 5: show(static_cast<n::twelve>(v)); break;
    case 6: show(static_cast<n::trailing>(v)); break;
  }
}
void print_of(std::ostream& o, int e, unsigned v) {
  switch (e) {
    case 1: put(o << static_cast<n::two>(v), 1); break;
    case 5: put(o << static_cast<n::twelve>(v), 1); break;
  }
}
void thread_of(std::thread& t, std::string const& s) { utl::set_thread_name(t, s); }
void current_of(std::string const& s) { utl::set_current_thread_name(s); }
}
