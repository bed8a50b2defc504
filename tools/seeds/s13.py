I = "include/utl/"
H = '''#include <cstdio>
#include <cstring>
#include <sstream>
#include <string>
#include <thread>
#include <type_traits>
#include "utl/const_str.h"
#include "utl/forward_type.h"
#include "utl/printable_enum.h"
#include "utl/set_thread_name.h"
static int fails = 0;
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); ++fails; } } while (0)
'''
SEEDS = [
 dict(id="M05-tight-list", prop="M05", file=I + "printable_enum.h",
      edits=[("      while (c != end(s) && (*c == ' ' || *c == ',')) {              \\\n        ++c;                                                         \\\n      }                                                              \\\n", "      if (i != 0u) {                                                 \\\n        c += 2;                                                      \\\n      }                                                              \\\n")],
      needs="a list without a blank after the comma", breaks="the second name loses its first letter",
      demo=H + r'''
PRINTABLE_ENUM(a, RED, GREEN, BLUE)
PRINTABLE_ENUM(b, RED,GREEN,BLUE)
int main() {
  EXPECT(as_string(a::RED) == "RED");
  EXPECT(as_string(a::BLUE) == "BLUE");
  EXPECT(as_string(b::RED) == "RED");
  EXPECT(as_string(b::GREEN) == "GREEN");
  return fails != 0;
}
'''),
 dict(id="M05-high-byte", prop="M05", file=I + "const_str.h",
      edits=[("#define TERMINATED_12(str) TERMINATED_11(str) && str[11]", "#define TERMINATED_12(str) TERMINATED_11(str) && str[11] > 0")],
      needs="a text with a byte above 127 (such as part of an umlaut) as its twelfth", breaks="the text ends there",
      demo=H + r'''
int main() {
  EXPECT(std::strcmp(STRING_LITERAL("elevenchars"), "elevenchars") == 0);
  EXPECT(std::strcmp(STRING_LITERAL("0123456789ab, and more"), "0123456789ab, and more") == 0);
  EXPECT(std::strcmp(STRING_LITERAL("Bezirk Neuk\303\266lln"), "Bezirk Neuk\303\266lln") == 0);
  return fails != 0;
}
'''),
 dict(id="M05-const-lost", prop="M05", file=I + "forward_type.h",
      edits=[("  using value_t = std::remove_reference_t<T>;", "  using value_t = std::decay_t<T>;")],
      needs="an rvalue reference to a constant", breaks="the value type is not const any more",
      demo=H + r'''
int main() {
  EXPECT((std::is_same_v<utl::forward_type_t<int&&>, int>));
  EXPECT((std::is_same_v<utl::forward_type_t<int const&&>, int const>));
  EXPECT((std::is_same_v<utl::forward_type_t<int const&>, int const&>));
  return fails != 0;
}
'''),
 dict(id="M05-names-caller", prop="M05", file=I + "set_thread_name.h",
      edits=[("inline void set_thread_name(std::thread& thread, std::string const& name) {\n  pthread_setname_np(thread.native_handle(), name.data());", "inline void set_thread_name(std::thread& thread, std::string const& name) {\n  pthread_setname_np(thread.joinable() && name.size() < 8U\n                         ? thread.native_handle()\n                         : pthread_self(),\n                     name.data());")],
      needs="a name of eight or more characters", breaks="the calling thread is renamed instead",
      demo=H + r'''
#include <atomic>
int main() {
  std::atomic_bool stop{false};
  std::thread t{[&] { while (!stop) { std::this_thread::yield(); } }};
  utl::set_current_thread_name("main");
  char buf[32] = {0};
  utl::set_thread_name(t, "short");
  EXPECT(pthread_getname_np(t.native_handle(), buf, sizeof(buf)) == 0 && std::string{buf} == "short");
  utl::set_thread_name(t, "background-1");
  EXPECT(pthread_getname_np(t.native_handle(), buf, sizeof(buf)) == 0 && std::string{buf} == "background-1");
  EXPECT(pthread_getname_np(pthread_self(), buf, sizeof(buf)) == 0 && std::string{buf} == "main");
  stop = true;
  t.join();
  return fails != 0;
}
'''),
]
