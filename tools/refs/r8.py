"""refactorings: names (M05)"""
P = "include/utl/printable_enum.h"
S = "include/utl/set_thread_name.h"
BODY = open("/repo/" + P).read()
LOOP = BODY[BODY.index("    std::string s = #__VA"):BODY.index("    return {start, c};")] + "    return {start, c};"


def body(t):
    return "\n".join((l + " \\") if i + 1 < len(t.split("\n")) else l for i, l in enumerate(t.split("\n")))


REFS = [
 dict(id="pe-position", checks="m05", file=P, edits=[(LOOP, body("""    std::string const s = #__VA_ARGS__;
    auto from = std::string::size_type{0};
    auto to = std::string::size_type{0};
    for (auto i = 0U; i <= static_cast<unsigned>(v); ++i) {
      from = s.find_first_not_of(" ,", to);
      to = s.find(',', from);
    }
    auto name = s.substr(from, to - from);
    while (name.back() == ' ') {
      name.pop_back();
    }
    return name;"""))]),
 dict(id="pe-pointers", checks="m05", file=P, edits=[(LOOP, body("""    char const* c = #__VA_ARGS__;
    char const* start = c;
    for (auto i = static_cast<unsigned>(v) + 1U; i != 0U; --i) {
      while (*c == ' ' || *c == ',') {
        ++c;
      }
      start = c;
      while (*c != 0 && *c != ',') {
        ++c;
      }
    }
    while (c[-1] == ' ') {
      --c;
    }
    return std::string(start, c);"""))]),
 dict(id="pe-print", checks="m05", file=P, edits=[("    return out << as_string(v); ", "    auto const n = as_string(v); return out << n; ")]),
 dict(id="pe-find-if", checks="m05", file=P, edits=[("      while (c != end(s) && (*c == ' ' || *c == ',')) {              \\\n        ++c;                                                         \\\n      }                                                              \\\n", "      c = std::find_if(c, end(s), [](char x) { return x != ' ' && x != ','; }); \\\n")]),
 dict(id="tn-c-str", checks="m05", file=S, edits=[("  pthread_setname_np(thread.native_handle(), name.data());", "  auto const handle = thread.native_handle();\n  (void)pthread_setname_np(handle, name.c_str());")]),
 dict(id="cs-init", checks="m05", file="include/utl/const_str.h", edits=[("{Chars..., 0};", "{Chars..., '\\0'};")]),
 dict(id="cs-terminated", checks="m05", file="include/utl/const_str.h", edits=[("#define TERMINATED_9(str) TERMINATED_8(str) && str[8]", "#define TERMINATED_9(str) (TERMINATED_8(str)) && str[8] != '\\0'")]),
 dict(id="ft-decltype", checks="m05", file="include/utl/forward_type.h", edits=[("struct forward_type<T, std::enable_if_t<!std::is_reference_v<T>>> {\n  using value_t = T;", "struct forward_type<T, std::enable_if_t<!std::is_reference_v<T>>> {\n  using value_t = std::remove_reference_t<T>;")]),
]
