I = "include/utl/"
SH = '''#!/bin/bash
# exit 0 when the program builds and runs against the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++23 -O0 -Iinclude -DFMT_HEADER_ONLY=1 %s -o "$t/demo" -pthread > "$t/log" 2>&1 || { head -20 "$t/log"; exit 1; }
cd "$t" && timeout 100 ./demo
'''
TWO = SH % '"$d/demo.cc" "$d/other.cc"'
ONE = SH % '"$d/demo.cc"'
SEEDS = [
 dict(id="B01-second-file", prop="B01", file=I + "set_thread_name.h", sh=TWO,
      edits=[("#else\n\n#include <pthread.h>\n\nnamespace utl {\n\ninline void set_thread_name", "#else\n\n#include <pthread.h>\n\nnamespace utl {\n\nvoid set_thread_name")],
      needs="a program that includes the header in two of its files", breaks="the second file does not link",
      demo='#include "utl/set_thread_name.h"\nvoid other();\nint main() { utl::set_current_thread_name("a"); other(); }\n',
      aux={"other.cc": '#include "utl/set_thread_name.h"\nvoid other() { utl::set_current_thread_name("b"); }\n'}),
 dict(id="B01-include-order", prop="B01", file=I + "to_set.h", sh=ONE,
      edits=[("#include <set>\n", "")],
      needs="a file that includes the header before any other that brings std::set", breaks="it does not compile there",
      demo='#include "utl/to_set.h"\n#include <vector>\nint main() { std::vector<int> v{1, 1}; return utl::to_set(v, [](int x) { return x; }).size() == 1U ? 0 : 1; }\n'),
 dict(id="B01-not-defined", prop="B01", file="src/timer.cc", sh=SH % '"$d/demo.cc" src/timer.cc',
      edits=[("void manual_timer::stop_and_print() const {", "static void stop_and_print(std::string const& name_,\n                           std::chrono::steady_clock::time_point const start_) {"),
             ('  uLOG(info) << "[" << name_ << "] finished"\n             << " (" << t << "ms)";\n}\n\nvoid manual_timer::print', '  uLOG(info) << "[" << name_ << "] finished"\n             << " (" << t << "ms)";\n}\n\nvoid manual_timer::print')],
      needs="a program that calls the member that no source file defines any more", breaks="it does not link",
      demo='#include "utl/timer.h"\nint main() { utl::manual_timer t{"a"}; t.stop_and_print(); }\n'),
 dict(id="B01-const-container", prop="B01", file=I + "pipes/all.h", sh=ONE,
      edits=[], needs="", breaks="", demo=""),
 dict(id="B01-member-renamed", prop="B01", file=I + "pipes/map.h", sh=ONE,
      edits=[("      r.next(it);", "      r.advance(it);")],
      needs="a program that instantiates the adapter", breaks="it does not compile",
      demo='#include <map>\n#include <vector>\n#include "utl/pipes/all.h"\n#include "utl/pipes/map.h"\nint main() { std::vector<std::pair<int const, int>> v{{1, 2}}; return (utl::all(v) | utl::emplace<std::map<int, int>>()).size() == 1U ? 0 : 1; }\n'),
]
SEEDS = [s for s in SEEDS if s["edits"]]
