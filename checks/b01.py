"""B01: every public header can be used by any program: alone, twice, and in any number of its files."""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import build
from common import Check, main

# What a program that includes just this header writes.  The library headers
# its own text needs come behind the header under test.
STD = "\n".join("#include <%s>" % h for h in "array atomic cstddef cstdint functional map memory optional set stdexcept string string_view thread tuple utility vector".split())
SKIP = ("_msvc.h", "_win32.h")
U = {}


def use(h, body, glob=""):
    U["utl/" + h] = (glob, body)


V = "std::vector<int> v{1, 2, 3}; std::vector<int> const c{1, 2}; (void)c; "
LT = "[](int a, int b) { return a < b; }"
EQ = "[](int a, int b) { return a == b; }"
N2 = "[](auto, auto) {}"
N4 = "[](auto, auto, auto, auto) {}"
use("cflow.h", "auto x = utl::cflow::kContinue; x = utl::cflow::kBreak;")
use("clear_t.h", "utl::clear_t<int const&> x = 1; ++x;")
use("cmd_line_parser.h", "auto o = utl::parse_flags<opts>(n, argv); bool b = o.a_; (void)b; int i = o.b_; (void)i; std::string d = utl::description<opts>() + utl::print_flags(o);",
    'namespace { struct opts { utl::cmd_line_flag<bool, UTL_SHORT("-a"), UTL_LONG("--aa"), UTL_DESC("x")> a_; utl::cmd_line_flag<int, utl::required, UTL_LONG("--bb"), UTL_DESC("y")> b_; }; }')
use("concat.h", V + "utl::concat(v, c);")
use("const_str.h", 'char const* s = STRING_LITERAL("hello"); (void)s;')
use("enumerate.h", V + "for (auto [i, x] : utl::enumerate(v)) { x += static_cast<int>(i); } for (auto [i, x] : utl::enumerate(c)) { (void)i; (void)x; } for (auto [i, x] : utl::enumerate(std::vector<int>{1})) { (void)i; (void)x; }")
use("equal_ranges.h", V + "utl::equal_ranges(v, %s); utl::equal_ranges(v, %s, %s);" % (N2, LT, N2))
use("equal_ranges_linear.h", V + "utl::equal_ranges_linear(v, %s, %s); utl::equal_ranges_linear(begin(v), end(v), %s, %s);" % (EQ, N2, EQ, N2))
use("erase.h", V + "utl::erase(v, 1);")
use("erase_duplicates.h", V + "utl::erase_duplicates(v); utl::erase_duplicates(v, %s, %s);" % (LT, EQ))
use("erase_if.h", V + "utl::erase_if(v, [](int x) { return x > 1; });")
use("for_each_bit_set.h", "utl::for_each_set_bit(0x5U, [](unsigned) {}); bool b = utl::has_bit_set(std::uint64_t{1}, 3U); (void)b;")
use("for_each_line_in_file.h", 'utl::for_each_line_in_file("x", [](std::string const&) {});')
use("forward_type.h", "int i = 0; utl::forward_type_t<int&> r = i; (void)r;")
use("generator.h", "auto g = count_up(); while (g) { (void)g(); }", "inline utl::generator<int> count_up() { for (int i = 0; i != 3; ++i) { co_yield i; } }")
use("get_or_create.h", "std::map<int, int> m; utl::get_or_create(m, 1, []() { return 2; }) = 3;")
use("get_or_create_index.h", "std::map<int, std::size_t> m; std::size_t x = utl::get_or_create_index(m, 1); (void)x;")
use("helpers/algorithm.h", V + "auto p = [](int x) { return x > 1; }; auto l = %s; bool b = utl::all_of(c, p) || utl::any_of(c, p) || utl::none_of(c, p); (void)utl::find_if(c, p); (void)utl::find(c, 1); (void)utl::count_if(c, p); utl::sort(v, l); utl::sort(v); utl::nth_element(v, 1U); b = utl::is_sorted(c, l); utl::fill(v, 1); b = utl::equal(c, v); (void)b;" % LT)
use("init_from.h", "src s{}; auto o = utl::init_from<target>(s); bool b = o.has_value(); (void)b;", "namespace { struct src { int a_{1}; int b_{2}; }; struct target { int a_; int b_; }; }")
use("insert_sorted.h", V + "bool b = utl::insert_sorted(v, 2).second; b = utl::insert_sorted(v, 2, %s).second; (void)b;" % LT)
use("is_uniform.h", V + "bool b = utl::is_uniform(v) && utl::is_uniform(v, [](int x) { return x; }); (void)b;")
use("join.h", V + "utl::inner_join(v, c, {l}, {m}); utl::inner_join(v, c, {m}); utl::left_join(v, c, {l}, {m}, {u}); utl::left_join(v, c, {m}, {u}); utl::full_join(v, c, {l}, {m}, {u}, {u}); utl::full_join(v, c, {m}, {u}, {u});".format(l=LT, m=N4, u=N2))
use("logging.h", 'uLOG(utl::info) << "x" << 1; std::string s = utl::time() + utl::time(0);')
use("match.h", "derived d; base* b = &d; int x = utl::match(b, [](derived*) { return 1; }, [](base*) { return 2; }); (void)x;",
    "namespace { struct base { virtual ~base() = default; }; struct derived : base {}; }")
use("nwise.h", V + "for (auto&& [a, b] : utl::nwise<2>(v)) { (void)a; (void)b; } for (auto&& [a, b, e] : utl::nwise<3>(std::vector<int>{1, 2})) { (void)a; (void)b; (void)e; }")
use("overloaded.h", 'auto l = [](long) {}; static_assert(std::is_same_v<utl::first_argument<decltype(l)>, long>); auto o = utl::overloaded{[](int) { return 1; }, [](char const*) { return 2; }}; (void)o(1); (void)o("");')
use("pairwise.h", V + "for (auto&& [a, b] : utl::pairwise(v)) { (void)a; (void)b; }")
use("parallel_for.h", V + "utl::parallel_for(v, [](int&) {}); utl::parallel_for_run(4U, [](std::size_t) {}); utl::parallel_for_run_threadlocal<int>(4U, [](int&, std::size_t) {});")
use("parser/arg_parser.h", 'utl::cstr s{"12"}; int i = 0; utl::parse_arg(s, i); double d = 0; utl::parse_arg(s, d); float f = 0; utl::parse_arg(s, f); bool b = false; utl::parse_arg(s, b); std::string t; utl::parse_arg(s, t); unsigned u = utl::parse<unsigned>(s); (void)u;')
use("parser/buf_reader.h", 'auto r = utl::make_buf_reader(utl::cstr{"a"}); utl::cstr l = r.read_line(); (void)l; auto q = utl::make_buf_reader(utl::cstr{"a"}, [](std::size_t) {}); q.read_line();')
use("parser/buffer.h", 'utl::buffer b{std::size_t{3}}; utl::buffer q{"abc"}; (void)b.data(); (void)q.size();')
use("parser/cstr.h", 'utl::cstr s{"abc"}; bool b = s == utl::cstr{"x"} || s.starts_with("a") || s.contains("c"); (void)b; (void)s.trim(); std::string t = s.to_str(); utl::for_each_token(s, \',\', [](utl::cstr) {}); utl::for_each_line(s, [](utl::cstr) {}); (void)utl::get_line(s); auto a = utl::get_until(s, \',\'); (void)a;')
use("parser/csv.h", "utl::cstr s{\"a,b\"}; std::vector<std::tuple<int, utl::cstr>> e; utl::column_mapping<std::tuple<int, utl::cstr>> const m{{utl::cstr{\"a\"}, utl::cstr{\"b\"}}}; utl::read(s, e, m); auto r = utl::read<std::tuple<int, utl::cstr>>(s, m);")
use("parser/csv_range.h", 'auto l = utl::line_range{utl::make_buf_reader(utl::cstr{"a"})} | utl::csv<row>(); auto i = l.begin(); (void)l.valid(i);',
    '#include "utl/parser/buf_reader.h"\n#include "utl/parser/line_range.h"\nnamespace { struct row { utl::csv_col<int, UTL_NAME("a")> a_; utl::csv_col<utl::cstr, UTL_NAME("b")> b_; }; }')
use("parser/file.h", 'utl::file f{"x", "r"}; (void)f.size(); auto b = f.content(); (void)b.size(); f.write("x", 1U);')
use("parser/line_range.h", 'utl::line_range r{utl::make_buf_reader(utl::cstr{"a"})}; auto i = r.begin(); (void)r.valid(i); r.next(i); (void)r.read(i);', '#include "utl/parser/buf_reader.h"')
use("parser/mmap_reader.h", 'utl::mmap_reader r{"x"}; utl::cstr l = r.read_line(); (void)l;')
use("parser/split.h", 'auto [a, b] = utl::split<\',\', int, utl::cstr>(utl::cstr{"1,b"}); (void)a; (void)b;')
W = {}
use("pipes/accumulate.h", V + "int x = v_all() | utl::accumulate([](int q, int e) { return q + e; }, 0); (void)x;", "ALL")
use("pipes/all.h", V + "auto r = utl::all(v); auto i = r.begin(); (void)r.valid(i); (void)r.read(i); r.next(i); auto q = utl::all(c); auto j = q.begin(); (void)q.read(j); auto t = utl::all(std::vector<int>{1}); (void)t.begin();")
use("pipes/avg.h", "double x = v_all() | utl::avg(); (void)x;", "ALL")
use("pipes/count.h", "auto x = v_all() | utl::count([](int x) { return x > 1; }); (void)x;", "ALL")
use("pipes/emplace_back.h", "auto x = v_all() | utl::emplace_back<std::vector<int>>(); (void)x;", "ALL")
use("pipes/find.h", "std::optional<int> x = v_all() | utl::find([](int x) { return x > 1; }); (void)x;", "ALL")
use("pipes/for_each.h", "v_all() | utl::for_each([](int) {});", "ALL")
use("pipes/generate.h", "auto r = utl::generate([]() { return 1; }); auto i = r.begin(); (void)r.read(i); r.next(i); (void)r.valid(i);")
use("pipes/insert.h", "auto x = v_all() | utl::insert<std::set<int>>(); (void)x;", "ALL")
use("pipes/iota.h", "auto r = utl::iota(1, 3); auto i = r.begin(); (void)r.read(i); r.next(i); (void)r.valid(i);")
use("pipes/iterable.h", "for (auto x : v_all() | utl::transform([](int x) { return x; }) | utl::iterable()) { (void)x; }", 'ALL#include "utl/pipes/transform.h"')
use("pipes/make_range.h", V + "auto r = utl::make_range(v); auto i = r.begin(); (void)r.valid(i);")
use("pipes/map.h", "auto x = v_all() | utl::emplace<std::set<int>>(); (void)x;", "ALL")
use("pipes/max.h", "int x = v_all() | utl::max<int>{0}; (void)x;", "ALL")
use("pipes/range.h", V + "utl::range r{v.begin(), v.end()}; auto i = r.begin(); (void)r.valid(i); (void)r.read(i); r.next(i);")
use("pipes/remove_if.h", "auto r = v_all() | utl::remove_if([](int x) { return x > 1; }); auto i = r.begin(); (void)r.valid(i); (void)r.read(i); r.next(i);", "ALL")
use("pipes/sum.h", "auto x = v_all() | utl::sum(); (void)x;", "ALL")
use("pipes/take_while.h", "auto r = v_all() | utl::take_while([](int x) { return x < 2; }); auto i = r.begin(); (void)r.valid(i); (void)r.read(i); r.next(i);", "ALL")
use("pipes/transform.h", "auto r = v_all() | utl::transform([](int x) { return x + 1; }); auto i = r.begin(); (void)r.valid(i); (void)r.read(i); r.next(i);", "ALL")
use("pipes/unique.h", "auto r = v_all() | utl::unique(); auto i = r.begin(); (void)r.valid(i); (void)r.read(i); r.next(i);", "ALL")
use("pipes/vec.h", "std::vector<int> x = v_all() | utl::vec(); (void)x;", "ALL")
use("pipes.h", V + "auto r = utl::all(v) | utl::transform([](int x) { return x + 1; }) | utl::remove_if([](int x) { return x > 1; }) | utl::take_while([](int x) { return x < 9; }) | utl::unique() | utl::vec(); utl::all(r) | utl::for_each([](int) {}); (void)(utl::all(v) | utl::avg()); (void)(utl::iota(0, 3) | utl::sum()); (void)(utl::all(v) | utl::max<int>{0});")
use("power_set_intersection.h", V + "utl::power_set_intersection(v, c, %s); utl::power_set_intersection(v, c, %s, %s);" % (N2, N2, LT))
use("printable_enum.h", "std::string s = as_string(color::green); std::cout << color::red;", "PRINTABLE_ENUM(color, red, green)")
use("progress_tracker.h", 'utl::progress_tracker t{[](utl::progress_tracker const&) {}}; t.status("x").status("q").show_progress(true).reset_bounds().out_bounds(0.F, 1.F).out_mod(1.F).in_high(3U); t.update(1U); t.increment(); t.update_monotonic(2U); t.update_fn()(3U); t.increment_fn()(); t.update_out(); '
    't.show_progress(false); t.reset_bounds(); t.out_bounds(0.F, 1.F); t.out_mod(1.F); t.in_high(1U); auto& g = utl::get_global_progress_trackers(); g.get_tracker("a"); g.print(); g.clear(); utl::global_progress_bars b{true}; utl::activate_progress_tracker("a"); utl::activate_progress_tracker(utl::get_active_progress_tracker()); utl::get_active_progress_tracker_or_activate("b");')
use("raii.h", "auto r = utl::make_raii(1, [](int) {}); (void)r.get(); auto f = utl::make_finally([]() {}); UTL_FINALLY([]() {})")
use("read_file.h", 'std::optional<std::string> s = utl::read_file("x"); (void)s;')
use("repeat_n.h", "std::vector<int> v = utl::repeat_n(1, 3U);")
use("set_thread_name.h", 'std::thread t; utl::set_thread_name(t, "x"); utl::set_current_thread_name("y");')
use("sort_by.h", V + "auto [a, b] = utl::sort_by(v, v); (void)a; (void)b;")
use("sorted_diff.h", V + "std::string_view s = utl::to_str(utl::op::kAdd); (void)s; utl::sorted_diff(v, c, %s, %s, visit{});" % (LT, EQ), "namespace { struct visit { void operator()(utl::op, int) {} void operator()(int, int) {} }; }")
use("thread_pool.h", "utl::thread_pool p{[]() {}, []() {}}; p.execute(3U, [](std::size_t) {});")
use("timer.h", 'utl::scoped_timer s{"a"}; s.print("x"); utl::manual_timer m{"b"}; m.print("y"); m.stop_and_print();')
use("timing.h", "UTL_START_TIMING(a); UTL_STOP_TIMING(a); (void)(UTL_TIMING_MS(a) + UTL_TIMING_US(a) + UTL_GET_TIMING_MS(a) + UTL_GET_TIMING_US(a));")
use("to_set.h", V + "auto s = utl::to_set(c, [](int x) { return x; }); auto t = utl::to_set(begin(v), end(v), [](int x) { return x; });")
use("to_vec.h", V + "auto s = utl::to_vec(c, [](int x) { return x; }); auto t = utl::to_vec(begin(v), end(v), [](int x) { return x; }); auto u = utl::to_vec(c); auto w = utl::transform_to<std::vector<long>>(c, [](int x) { return x; });")
use("verify.h", 'utl::verify(n == 0, "x {}", n); utl_verify(n == 0, "x {}", n); utl::verify_silent(n == 0, "x {}", n); utl::verify_ex(n == 0, std::runtime_error{"x"});')
use("zip.h", V + "for (auto [a, b] : utl::zip(v, c)) { a += b; } for (auto [a, b] : utl::czip(v, c)) { (void)(a + b); } for (auto [a, b] : utl::zip_no_size_check(v, c)) { (void)(a + b); }")
ALL = "#include \"utl/pipes/all.h\"\n%s\ninline std::vector<int>& the_v() { static std::vector<int> x; return x; }\ninline auto v_all() { return utl::all(the_v()); }\n"

GXX = shutil.which("g++")
CISTA = ["-I" + os.path.join(build.VERIF, "stubs", "cista")]


def text(h, times=1, body=True):
    t = '#include "%s"\n' % h * times
    if body and h in U:
        glob, stmts = U[h]
        extra = ALL % glob[3:] if glob.startswith("ALL") else glob
        t += STD + "\n" + extra + "\nvoid utl_client(int n, char const** argv) { (void)n; (void)argv; { %s } }\n" % stmts
    return t


def first_error(err):
    return next((l for l in err.splitlines() if "error:" in l), err[:200])[:260]


def symbols(src, d, name):
    """(strong definitions, undefined) of the object code clang emits without optimising"""
    p, o = os.path.join(d, name + ".cc"), os.path.join(d, name + ".o")
    if src is not None:
        open(p, "w").write(src)
    cmd = [build.CLANG, "-std=c++23", "-O0", "-Wno-everything", "-DFMT_HEADER_ONLY=1", "-c"] + build.includes() + CISTA + [p, "-o", o]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    strong, undef = set(), set()
    for l in subprocess.run(["nm", o], capture_output=True, text=True).stdout.splitlines():
        f = l.split()
        if f[-2] == "U":
            undef.add(f[-1])
        elif f[-2] in "TDBRSGC":
            strong.add(f[-1])
    return strong, undef


def demangle(names):
    names = sorted(names)
    return dict(zip(names, subprocess.run(["c++filt"] + names, capture_output=True, text=True).stdout.splitlines())) if names else {}


def work(h, d):
    out = []
    name = h.replace("/", "_").replace(".", "_")
    ok, err = build.syntax(text(h, body=False), CISTA)
    out.append(("alone", ok, "as the only header of a file it does not compile with clang: %s" % first_error(err)))
    if ok and GXX:
        ok2, err = build.syntax(text(h, body=False), CISTA, compiler=GXX)
        out.append(("alone-gcc", ok2, "as the only header of a file it does not compile with gcc: %s" % first_error(err)))
    if not ok:
        return h, out, None, None
    ok3, err = build.syntax(text(h, times=2, body=False), CISTA)
    out.append(("twice", ok3, "included a second time it does not compile: %s" % first_error(err)))
    strong, err = symbols(text(h, body=False), d, name)
    if strong is None:
        raise build.BuildError(err[:400])
    out.append(("one-definition", not strong, "it defines %s outright: two files of a program that include it do not link" % ", ".join(sorted(demangle(strong).values())[:3])))
    cs, undef = symbols(text(h), d, name + "_use")
    out.append(("usable", cs is not None, "a program that includes it and uses what it offers does not compile: %s" % (first_error(undef) if cs is None else "")))
    if cs is not None and GXX:
        ok4, err = build.syntax(text(h), CISTA, compiler=GXX)
        out.append(("usable-gcc", ok4, "a program that includes it and uses what it offers does not compile with gcc: %s" % first_error(err)))
    return h, out, strong, undef if cs is not None else None


def check():
    c = Check("B01", "each public header, as the first and only header of a file, is accepted by the type checker (clang, gcc), again when included twice, its templates can be instantiated from it alone, "
              "it emits no strong definition, and what it only declares is defined exactly once by the sources of the library")
    c.min_sites = 250
    inc = os.path.join(build.REPO, "include")
    heads = sorted(os.path.relpath(os.path.join(p, f), inc) for p, _, fs in os.walk(inc) for f in fs if f.endswith(".h") and not f.endswith(SKIP))
    d = tempfile.mkdtemp(prefix="utlb-")
    try:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda h: work(h, d), heads))
            srcdir = os.path.join(build.REPO, "src")
            srcs = sorted(os.path.join(p, f) for p, _, fs in os.walk(srcdir) for f in fs if f.endswith((".cc", ".cpp")))
            lib = list(ex.map(lambda s: (s, symbols('#include "%s"\n' % s, d, "lib" + os.path.relpath(s, srcdir).replace("/", "_").replace(".", "_"))), srcs))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    where = {}
    for s, (strong, err) in lib:
        rel = os.path.relpath(s, build.REPO)
        c.obligation(strong is not None, "library", "compiles", "%s does not compile: %s" % (rel, first_error(err) if strong is None else ""), rel, ident="library/%s" % rel)
        for x in strong or ():
            c.obligation(x not in where, "library", "one-definition", "%s is defined in %s and in %s" % (x, where.get(x), rel), rel, ident="library/once/%s" % x)
            where[x] = rel
    total = 0
    for h, out, _, undef in res:
        for rule, ok, msg in out:
            c.obligation(ok, h, rule, "%s: %s" % (h, msg), "include/" + h, ident="%s/%s" % (h, rule))
        own = {m: n for m, n in demangle({u for u in undef or () if "3utl" in u}).items()}
        for m, n in own.items():
            c.obligation(m in where, h, "defined", "%s declares %s, which no source file of the library defines: a program that calls it does not link" % (h, n), "include/" + h, ident="%s/defined/%s" % (h, m))
        n = len(out) + len(own)
        total += n
        good = sum(bool(ok) for _, ok, _ in out) + sum(m in where for m in own)
        c.res.entries.append(dict(entry=h, proved=good == n, obligations=n, discharged=good, sites=n, witness=h in U))
    fine = [h for h, out, _, _ in res if out[0][1]]
    for label, order in (("together", fine), ("together-reversed", fine[::-1])):
        for comp in (build.CLANG, GXX):
            if comp:
                ok, err = build.syntax("".join('#include "%s"\n' % h for h in order), CISTA, compiler=comp)
                c.obligation(ok, "library", label, "the public headers do not go together in one file (%s): %s" % (os.path.basename(comp), first_error(err)), "include/utl", ident="library/%s/%s" % (label, os.path.basename(comp)))
    c.res.entries.append(dict(entry="library", proved=not any(v["entry"] == "library" for v in c.res.violations), obligations=len(where) + len(lib) + 4, sites=len(where) + len(lib) + 4))
    gone = sorted(set(U) - set(heads))
    for h in gone:
        c.res.entries.append(dict(entry=h, proved=False, unproved=["header not found"]))
        c.res.unproved.append(h)
    c.extra["headers"] = len(heads)
    c.extra["sources"] = [os.path.relpath(s, build.REPO) for s in srcs]
    c.extra["no_witness_of_use"] = sorted(set(heads) - set(U))
    return c.finish()


main(check)
