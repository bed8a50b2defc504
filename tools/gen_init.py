L=['// generated shapes: a target with n reference members, in reverse order of the source',
'#include <cstddef>','#include <memory>','#include "utl/init_from.h"',
'template <int I> struct d { long v_; };',
'struct fx { long v_; }; struct fy { long v_; }; struct fz { long v_; };',
'','extern "C" {','void at(int k, void const* p) noexcept;  // the k-th member of the result is / refers to / points to p',
'void none() noexcept;                    // nullopt',
'void some() noexcept;','void star(void const* p) noexcept;            // a null pointer must not be dereferenced','}',
'template <typename T> struct own { T& operator*() const { star(p_); return *p_; } friend bool operator==(own const& a, std::nullptr_t) { return a.p_ == nullptr; } T* p_; };',
'template <typename T, typename S, typename F> void go(S& s, F f) {',
'  auto r = utl::init_from<T>(s);',
'  if (r.has_value()) { some(); f(*r); } else { none(); }','}']
for n in range(32):
    L.append('struct s%d { %s };'%(n,' '.join('d<%d> m%d;'%(i,i) for i in range(n))))
    L.append('struct t%d { %s };'%(n,' '.join('d<%d>& m%d;'%(n-1-i,i) for i in range(n))))
H=[l for l in L[:4]]+['template <int I> struct d { long v_; };']+[l for l in L if l.startswith('struct s') or l.startswith('struct t')]
H[0]='#pragma once'
L=['// generated (tools/gen_init.py): a target with n reference members, in reverse order of the source','#include "init_shapes.h"']+[l for l in L if not l.startswith(('struct s','struct t','#include','template <int','//'))]
L.append('extern "C" {')
for n in range(32):
    L.append('void ar%d(s%d& s) { go<t%d>(s, []([[maybe_unused]] auto& t) { %s }); }'%(n,n,n,' '.join('at(%d, &t.m%d);'%(i,i) for i in range(n))))
L.append('}')
L.append('''
// kinds of source: value, pointer, owning pointer; kinds of target: reference, value pointer
struct mix { fx v; fy* p; std::unique_ptr<fz> u; };
struct refs { fx& a; fy& b; fz& c; };
struct rrefs { fz& a; fy& b; fx& c; };
struct ptrs { fy* a; fz* b; };
struct both { fz* a; fz& b; fy& c; fy* d; };
struct same { fx& a; fx& b; };
struct first { fy* p; fx v; std::unique_ptr<fx> u; fx* q; };  // several members match
struct fref { fx& a; };
struct fptr { fx* a; };
struct last { std::unique_ptr<fy> n; std::unique_ptr<fx> u; fx* q; fx v; };
struct two { fx* p; fx* q; };
struct cus { own<fx> o; };
struct nothing {};
extern "C" {
void k_refs(mix& s) { go<refs>(s, [](refs& t) { at(0, &t.a); at(1, &t.b); at(2, &t.c); }); }
void k_rrefs(mix& s) { go<rrefs>(s, [](rrefs& t) { at(0, &t.a); at(1, &t.b); at(2, &t.c); }); }
void k_ptrs(mix& s) { go<ptrs>(s, [](ptrs& t) { at(0, t.a); at(1, t.b); }); }
void k_both(mix& s) { go<both>(s, [](both& t) { at(0, t.a); at(1, &t.b); at(2, &t.c); at(3, t.d); }); }
void k_same(mix& s) { go<same>(s, [](same& t) { at(0, &t.a); at(1, &t.b); }); }
void k_nothing(mix& s) { go<nothing>(s, [](nothing&) {}); }
void k_fref(first& s) { go<fref>(s, [](fref& t) { at(0, &t.a); }); }
void k_fptr(first& s) { go<fptr>(s, [](fptr& t) { at(0, t.a); }); }
void k_cref(cus& s) { go<fref>(s, [](fref& t) { at(0, &t.a); }); }
void k_cptr(cus& s) { go<fptr>(s, [](fptr& t) { at(0, t.a); }); }
void k_lref(last& s) { go<fref>(s, [](fref& t) { at(0, &t.a); }); }
void k_lptr(last& s) { go<fptr>(s, [](fptr& t) { at(0, t.a); }); }
void k_tref(two& s) { go<fref>(s, [](fref& t) { at(0, &t.a); }); }
void k_tptr(two& s) { go<fptr>(s, [](fptr& t) { at(0, t.a); }); }
}''')
open('/verif/harness/init.cc','w').write('\n'.join(L)+'\n')
open('/verif/harness/init_shapes.h','w').write('\n'.join(H)+'\n')
