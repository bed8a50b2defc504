
I = "include/utl/"
F = I + "parser/file.h"
M = I + "parser/mmap_reader_unix.h"
REFS = [
 dict(id="file-fread-once", checks="p05", file=F, edits=[
  ("    auto bytes_read = std::fread(s.data(), 1, file_size, f_);\n    verify(bytes_read == file_size,", "    verify(std::fread(s.data(), 1, file_size, f_) == file_size,")]),
 dict(id="file-fread-loop", checks="p05", file=F, edits=[
  ("    auto bytes_read = std::fread(b.data(), 1, file_size, f_);\n", "    auto bytes_read = size_t{0U};\n    while (bytes_read != file_size) {\n      auto const n = std::fread(b.data() + bytes_read, 1, file_size - bytes_read, f_);\n      if (n == 0U) {\n        break;\n      }\n      bytes_read += n;\n    }\n")]),
 dict(id="file-fwrite-loop", checks="p05", file=F, edits=[
  ("    auto bytes_written = std::fwrite(buf, 1, size, f_);\n", "    auto bytes_written = size_t{0U};\n    while (bytes_written < size) {\n      auto const n = std::fwrite(static_cast<char const*>(buf) + bytes_written, 1, size - bytes_written, f_);\n      if (n == 0U) {\n        break;\n      }\n      bytes_written += n;\n    }\n")]),
 dict(id="file-fwrite-blocks", checks="p05", file=F, edits=[
  ("    auto bytes_written = std::fwrite(buf, 1, size, f_);\n", "    auto bytes_written = size_t{0U};\n    while (bytes_written < size) {\n      auto const block = std::min(size - bytes_written, size_t{8192U});\n      auto const n = std::fwrite(static_cast<char const*>(buf) + bytes_written, 1, block, f_);\n      bytes_written += n;\n      if (n != block) {\n        break;\n      }\n    }\n"), ("#else\n#include <cstdio>\n", "#else\n#include <algorithm>\n#include <cstdio>\n")]),
 dict(id="file-size-fseek-back", checks="p05", file=F, edits=[
  ("    std::rewind(f_);\n", "    err = std::fseek(f_, 0, SEEK_SET);\n    verify(!err, \"fseek to SEEK_SET error: {}\", filename_);\n")]),
 dict(id="file-throw", checks="p05", file=F, edits=[
  ("    verify(bytes_written == size, \"file write error: {}\", filename_);\n", "    if (bytes_written != size) {\n      throw fail(\"file write error: {}\", filename_);\n    }\n")]),
 dict(id="file-string-ctor", checks="p05", file=F, edits=[
  ("    auto s = std::string{};\n    s.resize(file_size);\n", "    auto s = std::string(file_size, '\\0');\n")]),
 dict(id="file-read-helper", checks="p05", file=F, edits=[
  ("    auto bytes_read = std::fread(b.data(), 1, file_size, f_);\n    verify(bytes_read == file_size, \"file read error: {}\", filename_);\n    return b;", "    read_all(b.data(), file_size);\n    return b;"),
  ("    auto bytes_read = std::fread(s.data(), 1, file_size, f_);\n    verify(bytes_read == file_size, \"file read error: {}\", filename_);\n    return s;", "    read_all(s.data(), file_size);\n    return s;"),
  ("  operator FILE*()", "  void read_all(void* to, size_t const n) {\n    auto const bytes_read = std::fread(to, 1, n, f_);\n    verify(bytes_read == n, \"file read error: {}\", filename_);\n  }\n\n  operator FILE*()")]),
 dict(id="mmap-read-if", checks="p05", file=M, edits=[
  ("    auto const bytes_read = std::min(num_bytes, rest_size);\n", "    auto const bytes_read = num_bytes < rest_size ? num_bytes : rest_size;\n")]),
 dict(id="mmap-read-end", checks="p05", file=M, edits=[
  ("    auto const bytes_read = std::min(num_bytes, rest_size);\n    it_ += bytes_read;\n    return {start, bytes_read};", "    if (num_bytes >= rest_size) {\n      it_ = last;\n      return {start, rest_size};\n    }\n    it_ = start + num_bytes;\n    return {start, num_bytes};")]),
 dict(id="mmap-line-find", checks="p05", file=M, edits=[
  ("static_cast<char*>(memchr(it_, '\\n', num));\n    if (nl == nullptr) {", "std::find(it_, last, '\\n');\n    if (nl == last) {"), ("#include <stdexcept>\n", "#include <algorithm>\n#include <stdexcept>\n")]),
 dict(id="mmap-line-plain", checks="p05", file=M, edits=[
  ("    auto const length = nl != nullptr ? nl - start : last - it_;\n    it_ = nl;\n    ++it_;\n", "    auto const length = nl - start;\n    it_ = nl + 1;\n")]),
 dict(id="mmap-line-tmp", checks="p05", file=M, edits=[
  ("      auto const tmp = it_;\n      it_ = last;\n      return {tmp, static_cast<size_t>(num)};", "      it_ = last;\n      return {start, num};")]),
 dict(id="mmap-fstat-checked", checks="p05 r01", file=M, edits=[
  ("        fstat(fd, &sb);\n", "        if (fstat(fd, &sb) != 0) {\n          return 0;\n        }\n")]),
 dict(id="rf-no-exceptions", checks="p05", file=I + "read_file.h", edits=[
  ("    f.exceptions(std::ifstream::failbit | std::ifstream::badbit);\n", "    if (!f) {\n      return std::nullopt;\n    }\n"),
  ("    f.seekg(0, std::ios::beg);\n", "    if (size < 0) {\n      return std::nullopt;\n    }\n    f.seekg(0, std::ios::beg);\n")]),
 dict(id="rf-local", checks="p05", file=I + "read_file.h", edits=[
  ("    return f.read(&buffer[0], size) ? std::make_optional(buffer) : std::nullopt;", "    f.read(buffer.data(), size);\n    if (!f) {\n      return std::nullopt;\n    }\n    return buffer;")]),
 dict(id="rf-seek-end", checks="p05", file=I + "read_file.h", edits=[
  ("std::ios::binary | std::ios::ate};", "std::ios::binary};"),
  ("    auto const size = f.tellg();\n", "    f.seekg(0, std::ios::end);\n    auto const size = f.tellg();\n")]),
 dict(id="fl-plain", checks="p05", file=I + "for_each_line_in_file.h", edits=[
  ("  while (in->peek() != EOF && !in->eof()) {\n    std::getline(*in, line);\n    f(line);\n  }", "  while (std::getline(*in, line)) {\n    f(line);\n  }")]),
 dict(id="fl-for", checks="p05", file=I + "for_each_line_in_file.h", edits=[
  ("  while (in->peek() != EOF && !in->eof()) {\n    std::getline(*in, line);\n    f(line);\n  }", "  for (;;) {\n    if (in->peek() == EOF) {\n      break;\n    }\n    std::getline(*in, line);\n    f(line);\n  }")]),
 dict(id="fl-ref", checks="p05", file=I + "for_each_line_in_file.h", edits=[
  ("    in = &f_in;\n  }\n", "    in = &f_in;\n  }\n  auto& input = *in;\n"),
  ("  while (in->peek() != EOF && !in->eof()) {\n    std::getline(*in, line);", "  while (input.peek() != EOF && !input.eof()) {\n    std::getline(input, line);")]),
]
