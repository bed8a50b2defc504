import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from s6 import H, AUX, I
TMP = r'''
#include <cstdlib>
#include <csignal>
#include <sys/resource.h>
#include <unistd.h>
struct scratch {
  scratch() { char t[] = "/tmp/demo-XXXXXX"; int fd = mkstemp(t); close(fd); path = t; }
  ~scratch() { unlink(path.c_str()); }
  void put(std::string const& s) { FILE* f = std::fopen(path.c_str(), "w"); std::fwrite(s.data(), 1, s.size(), f); std::fclose(f); }
  std::string path;
};
'''
SEEDS = [
 dict(id="P05-partial-write", prop="P05", file=I + "parser/file.h",
      edits=[("    verify(bytes_written == size, \"file write error: {}\", filename_);", "    verify(bytes_written != 0U || size == 0U, \"file write error: {}\", filename_);")],
      needs="a device that takes only a part of the bytes", breaks="a partial write is not reported",
      demo=H("parser/file.h") + TMP + r'''
int main() {
  scratch s;
  std::signal(SIGXFSZ, SIG_IGN);
  rlimit l{50, 50};
  setrlimit(RLIMIT_FSIZE, &l);
  bool thrown = false;
  {
    utl::file f{s.path.c_str(), "w+"};
    std::setvbuf(f, nullptr, _IONBF, 0);
    std::string t(100, 'x');
    try { f.write(t.data(), t.size()); } catch (...) { thrown = true; }
  }
  l = rlimit{RLIM_INFINITY, RLIM_INFINITY};
  if (!thrown) { return 1; }
  utl::file g{s.path.c_str(), "w+"};
  g.write("ab", 2);
  std::fflush(g);
  utl::file h{s.path.c_str(), "r"};
  EXPECT(h.content_str() == "ab");
  return fails != 0;
}
'''),
 dict(id="P05-final-byte", prop="P05", file=I + "parser/mmap_reader_unix.h",
      edits=[("    auto const num = static_cast<size_t>(last - it_);\n    auto const nl = static_cast<char*>(memchr(it_, '\\n', num));\n    if (nl == nullptr) {",
              "    auto const num = static_cast<size_t>(last - it_);\n    auto const nl = static_cast<char*>(memchr(it_, '\\n', num));\n    if (nl == nullptr || nl + 1 == last) {")],
      needs="a file whose last line ends with a newline", breaks="the newline at the end of the file becomes part of the last line",
      demo=H("parser/mmap_reader.h").replace("#include \"utl", "#include <algorithm>\n#include \"utl") + TMP + r'''
int main() {
  scratch s;
  s.put("a\n\nbc\n");
  utl::mmap_reader r{s.path.c_str()};
  EXPECT(r.read_line().to_str() == "a");
  EXPECT(r.read_line().to_str() == "");
  EXPECT(r.read_line().to_str() == "bc");
  EXPECT(r.read_line().str == nullptr);
  s.put("x\ny");
  utl::mmap_reader q{s.path.c_str()};
  EXPECT(q.read_line().to_str() == "x");
  EXPECT(q.read_line().to_str() == "y");
  return fails != 0;
}
'''),
 dict(id="P05-reread", prop="P05", file=I + "parser/file.h",
      edits=[("    std::rewind(f_);\n    return static_cast<size_t>(size);", "    std::fseek(f_, pos, SEEK_SET);\n    return static_cast<size_t>(size);"),
             ("    auto err = std::fseek(f_, 0, SEEK_END);\n", "    auto const pos = std::ftell(f_);\n    auto err = std::fseek(f_, 0, SEEK_END);\n")],
      needs="content() called after something has been read already", breaks="the second content() starts where the first one ended",
      demo=H("parser/file.h") + TMP + r'''
int main() {
  scratch s;
  s.put("hello");
  utl::file f{s.path.c_str(), "r"};
  try {
    auto const a = f.content();
    EXPECT(std::string(reinterpret_cast<char const*>(a.data()), a.size()) == "hello");
    EXPECT(f.content_str() == "hello");
  } catch (std::exception const& e) { std::printf("%s\n", e.what()); ++fails; }
  return fails != 0;
}
'''),
 dict(id="P05-short-lines", prop="P05", file=I + "for_each_line_in_file.h",
      edits=[("  while (in->peek() != EOF && !in->eof()) {\n    std::getline(*in, line);\n    f(line);\n  }", "  while (in->peek() != EOF && !in->eof()) {\n    std::getline(*in, line);\n    if (in->eof() && line.size() == 1U) {\n      break;\n    }\n    f(line);\n  }")],
      needs="a last line of one character without a newline", breaks="the last line is dropped",
      demo="#include <iostream>\n" + H("for_each_line_in_file.h") + TMP + r'''
int main() {
  scratch s;
  std::vector<std::string> v;
  s.put("ab\n\nc");
  utl::for_each_line_in_file(s.path, [&](std::string const& l) { v.push_back(l); });
  EXPECT((v == std::vector<std::string>{"ab", "", "c"}));
  v.clear();
  s.put("a\nbc");
  utl::for_each_line_in_file(s.path, [&](std::string const& l) { v.push_back(l); });
  EXPECT((v == std::vector<std::string>{"a", "bc"}));
  return fails != 0;
}
'''),
]
