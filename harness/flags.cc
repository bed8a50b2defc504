// Flag configurations; argv is an array of arbitrary strings.
#include <string>
#include "utl/cmd_line_parser.h"
extern "C" {
long parse(char const* s, std::size_t n) noexcept;   // the value of an argument
void bflag(int k, bool v) noexcept;                  // value of the k-th flag of the result
void vflag(int k, long v) noexcept;
}
namespace user {
struct val { long v_{-1}; };
inline void parse_arg(utl::cstr& s, val& v) { v.v_ = parse(s.str, s.len); }
}
using user::val;
using utl::cmd_line_flag;
using utl::required;
namespace {
struct none {};
struct ob { cmd_line_flag<bool, UTL_SHORT("-a"), UTL_LONG("--alpha"), UTL_DESC("x")> a_; };
struct ov { cmd_line_flag<val, UTL_SHORT("-a"), UTL_LONG("--alpha"), UTL_DESC("x")> a_; };
struct sl { cmd_line_flag<bool, UTL_SHORT("-a"), UTL_DESC("x")> a_; cmd_line_flag<val, UTL_LONG("--beta"), UTL_DESC("x")> b_; };
struct ls { cmd_line_flag<val, UTL_SHORT("-a"), UTL_DESC("x")> a_; cmd_line_flag<bool, UTL_LONG("--beta"), UTL_DESC("x")> b_; };
struct rq { cmd_line_flag<val, required, UTL_LONG("--alpha"), UTL_DESC("x")> a_; };
struct rs { cmd_line_flag<val, UTL_SHORT("-a"), required, UTL_DESC("x")> a_; };
struct rb { cmd_line_flag<bool, required, UTL_SHORT("-a"), UTL_LONG("--alpha"), UTL_DESC("x")> a_; };
struct mx { cmd_line_flag<val, UTL_SHORT("-a"), UTL_LONG("--alpha"), UTL_DESC("x")> a_; cmd_line_flag<val, required, UTL_LONG("--alphabet"), UTL_DESC("x")> b_; };
struct df { cmd_line_flag<val, UTL_LONG("--alpha"), UTL_DESC("x")> a_{val{-7}}; cmd_line_flag<bool, UTL_LONG("--beta"), UTL_DESC("x")> b_{true}; };
}
extern "C" {
void f_none(int n, char const** v) { utl::parse_flags<none>(n, v); }
void f_ob(int n, char const** v) { auto c = utl::parse_flags<ob>(n, v); bflag(0, c.a_.val()); }
void f_ov(int n, char const** v) { auto c = utl::parse_flags<ov>(n, v); vflag(0, c.a_.val().v_); }
void f_sl(int n, char const** v) { auto c = utl::parse_flags<sl>(n, v); bflag(0, c.a_.val()); vflag(1, c.b_.val().v_); }
void f_ls(int n, char const** v) { auto c = utl::parse_flags<ls>(n, v); vflag(0, c.a_.val().v_); bflag(1, c.b_.val()); }
void f_rq(int n, char const** v) { auto c = utl::parse_flags<rq>(n, v); vflag(0, (*c.a_).v_); }
void f_rs(int n, char const** v) { auto c = utl::parse_flags<rs>(n, v); vflag(0, c.a_.val().v_); }
void f_rb(int n, char const** v) { auto c = utl::parse_flags<rb>(n, v); bflag(0, *c.a_); }
void f_mx(int n, char const** v) { auto c = utl::parse_flags<mx>(n, v); vflag(0, static_cast<val>(c.a_).v_); vflag(1, c.b_.val().v_); }
void f_df(int n, char const** v) { auto c = utl::parse_flags<df>(n, v); vflag(0, c.a_.val().v_); bflag(1, c.b_.val()); }
}
