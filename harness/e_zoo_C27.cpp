// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
constexpr int glob = 7;
namespace n GENPYBIND(__sel_n) {
enum class Color { red, green };
enum Flag { on = 1, off = 2 };
constexpr int answer GENPYBIND(hidden) = 42;
int calls(int a, int b = answer) GENPYBIND(__sel_calls);
template <typename T> T conv(int x) GENPYBIND(hidden);
template <typename T> constexpr T vt = T(3);
struct P {
  int x = 0;
  P(); P(int x, int y = 2); P(P const &) GENPYBIND(hidden);
  static const int lim GENPYBIND(hidden) = 3;
  static int make(int v = lim) GENPYBIND(__sel_make);
  static P origin();
  int get(int d = 1) const;
  P operator+(const P &o) const; int operator[](int i) const; int operator()(int i = lim) const GENPYBIND(__sel_call);
  enum Mode { slow, fast };
  struct In { static const int deep GENPYBIND(hidden) = 9; };
};
struct Agg { int a; P p; };
namespace m { struct Q { int v = 0; Q(); explicit Q(int v); operator int() const; }; extern const Q q0 GENPYBIND(hidden); int f(); }
using Alias = m::Q;
namespace shorter = m;
using m::f;
extern P gp GENPYBIND(hidden); extern P *gpp GENPYBIND(hidden); extern int arr[3] GENPYBIND(hidden);
void literals(int v = 1, long w = 2L, unsigned long long z = 3ULL, char c = 'x', char d = '\'', double g = 1.5, float h = 2.5f, char const *s = "a\"b\\c\n", char const *cat = "a" "b", bool t = true, int neg = -3, int inv = ~5, bool nt = !true) GENPYBIND(__sel_literals);
void pointers(P *a = nullptr, P *b = 0, int *c = 0L, char const *d = nullptr, P *e = gpp, int *f = arr, P *g = (P *)nullptr, int (*fp)(int, int) = calls, int P::*mp = &P::x) GENPYBIND(__sel_pointers);
void names(int a = answer, int b = ::glob, int c = n::answer, int d = m::f(), int e = f(), int g = shorter::f(), int h = vt<int>, P i = gp, P j = *gpp, int k = arr[1]) GENPYBIND(__sel_names);
void enums(Color a = Color::red, Flag b = on, Flag c = Flag::off, n::Color d = n::Color::green, int e = (int)Color::green, P::Mode g = P::fast, Color h = Color(), P::Mode i = P::Mode(), Color j = Color{}, Color k = {}, Color l = Color(1), Color o = static_cast<Color>(1)) GENPYBIND(__sel_enums);
void members(int a = P::lim, int b = P::In::deep, int d = P::make(), int e = P::make(4), int g = P(1).x, int h = P(1, 2).get(), int i = P().get(3), int j = (P(1) + P(2)).x, int k = P()[2], int l = P()(5), int o = m::q0.v, int p = gpp->x, int q = (*gpp).x) GENPYBIND(__sel_members);
void made(P a = P(), P b = P(1), P c = P(1, 3), P d = {}, P e = {1}, P g = {1, 2}, P h = P{}, P i = P{1}, P j = P::origin(), P k = P(P(1)), P l = P(P{2})) GENPYBIND(__sel_made);
void aliases(m::Q a = m::Q(), m::Q b = m::Q(3), Alias c = Alias(4), Alias d = Alias{5}, m::Q e = m::q0, m::Q const &g = m::q0) GENPYBIND(__sel_aliases);
void aggregates(Agg a = {1, {2, 3}}, Agg b = Agg{1, P(2)}, Agg c = {}, Agg d = Agg{}, Agg e = Agg{1, {2}}, int f = Agg{1, {2}}.a) GENPYBIND(__sel_aggregates);
void expressions(int a = 1 + 2 * 3, int b = (1 + 2) * 3, int c = true ? 1 : 2, bool d = 1 < 2 && 3 != 4, int e = 1 << 3 | 4, int g = calls(1), int h = calls(1, 2), int i = conv<int>(3), int j = sizeof(P), int k = alignof(m::Q), int l = sizeof answer) GENPYBIND(__sel_expressions);
void casts(int a = (int)2.5, int b = int(3.5), int c = static_cast<int>(4.5), int d = int{5}, long e = long(m::Q(3)), P g = static_cast<P>(3), P h = (P)5, P const *i = const_cast<P const *>(gpp)) GENPYBIND(__sel_casts);
struct K {
  static constexpr int own GENPYBIND(hidden) = 5;
  enum E { e0, e1 };
  static int sf();
  struct N { int i; };
  K(int a = own, E b = e1, N c = N()) GENPYBIND(__sel_ctor);
  void me(int a = own, E b = e0, int c = sf(), N d = {}, int e = answer, N f = N{}) const GENPYBIND(__sel_me);
  static void se(int a = own, K *b = nullptr, K *c = 0) GENPYBIND(__sel_se);
};
template <typename T> struct T1 { T get(T a = T(), T b = T(answer), int c = sizeof(T), int d = T1<T>::k, int e = k, P f = P{1}); static constexpr int k GENPYBIND(hidden) = 1; };
extern template struct T1<int>;
using T1d GENPYBIND(__sel_tid) = T1<double>;
template <typename T> T tf(T a = T(3), int b = sizeof(T), T c = vt<T>) GENPYBIND(__sel_tf);
extern template long tf<long>(long, int, long);
struct GENPYBIND(hidden) U { union { int a; float b; }; struct { int c; struct { int d; }; }; };
extern U gu GENPYBIND(hidden); extern U *gup GENPYBIND(hidden);
void anonymous(int x = gu.a, int y = gup->c, int z = gu.d) GENPYBIND(__sel_anonymous);
void lambdas(int (*g)(int) = [](int x) { return x; }, int (*h)(int) = [](int x) -> int { if (x > 1) return x + answer; return -x * glob; }) GENPYBIND(__sel_lambdas);
template <typename T, int N = 1> int ft(int a = N) GENPYBIND(hidden);
struct TM { template <typename T> int mt() const; template <typename T> static int st(); };
void targs(int a = ft<P>(), int b = ft<n::P, 3>(), int c = TM().mt<m::Q>(), int d = TM::st<P::In>(), int e = ft<int *>(2)) GENPYBIND(__sel_targs);
int vv(Agg v) GENPYBIND(hidden);
void braces(int x = vv({1, 2}), Agg v = {vv({1, 2}), {3}}, Agg w = Agg{vv(Agg{1, P(2)}), P{vv({3, {4}})}}) GENPYBIND(__sel_braces);
inline namespace il { struct I { int i; }; constexpr int ic GENPYBIND(hidden) = 3; }
void inlined(I i = I{1}, int c = ic, il::I j = il::I()) GENPYBIND(__sel_inlined);
struct Base { static const int bb GENPYBIND(hidden) = 3; int m; protected: static const int pp = 4; };
struct Der : Base { void f(int a = bb, int b = Der::bb) GENPYBIND(__sel_df); using Base::pp; void g(int a = pp) GENPYBIND(__sel_dg); };
extern Der gd GENPYBIND(hidden);
void inherited(int x = gd.m, int y = gd.Base::m) GENPYBIND(__sel_inherited);
void strings(wchar_t const *w = L"abc", char const *u = u8"abc", char const *r = R"(a"b)", char32_t c = U'x', char const *z = "a\tb?\?=", char d = '\n') GENPYBIND(__sel_strings);
void numbers(double a = 1e300, double b = .5, float c = 1.f, double d = 0x1p3, long double e = 1.0L, double f = 1e-7, int g = 0x7fffffff, unsigned h = 0xffffffff, long long i = -9223372036854775807LL - 1, int j = 0b11, int k = 1'000, unsigned char l = 255, short o = 3, signed char p = -1) GENPYBIND(__sel_numbers);
enum { un0, un1 };
void unnamed(int a = un0, unsigned b = un1) GENPYBIND(__sel_unnamed);
void references(P const &v = P{1, 2}, P &&w = P{}, Agg const &x = {}, P const &y = {3}) GENPYBIND(__sel_references);
void operators(P *a = &gp, bool b = noexcept(m::f()), int c = (1, 2), int d = -answer, bool e = !answer, int g = arr[answer - 41], int h = gup->a + gu.c) GENPYBIND(__sel_operators);
extern const P cp GENPYBIND(hidden); using PR = P &;
void refcasts(P &x = const_cast<P &>(cp), P const &y = static_cast<P const &>(gp), P &&z = static_cast<P &&>(gp), P &w = (P &)cp, Base &v = static_cast<Base &>(gd), P &u = PR(gp), int k = static_cast<const int>(3), Der &t = dynamic_cast<Der &>(gd), long l = reinterpret_cast<long &>(gp.x)) GENPYBIND(__sel_refcasts);
template <typename T> struct Sc { void f(T a = T(), T b = T{}, T c = T(0), int d = T() == T{} ? 1 : 2, T const &e = T(answer - 42)) GENPYBIND(__sel_scf); };
template struct GENPYBIND(__sel_scul) Sc<unsigned long>; template struct GENPYBIND(visible) Sc<short>;
template <typename T> struct Pt { void f(T a = T(), T b = T{}, T c = T(nullptr), T const &d = T{nullptr}, int e = T(0) == nullptr) GENPYBIND(__sel_ptf); };
template struct GENPYBIND(visible) Pt<P *>; template struct GENPYBIND(visible) Pt<int P::*>; template struct GENPYBIND(visible) Pt<void (*)(int)>;
template <typename T> struct Pg { void f(T a = T(&gp), T b = T{&gp}, int c = T(&gp)->x); };
template struct GENPYBIND(visible) Pg<P *>;
void zeros(P a = P(0, 1), P b = P(0), P c = P{0, 0}, int d = calls(0), Agg e = {0, P(0)}, bool f = false, int g = int(0), P h = P(answer, 0), double i = 0.0, char j = '\0', P k = P(2, 2), P l = P{0}, int o = calls(0, 0), P q = {0, 0}) GENPYBIND(__sel_zeros);
// redeclarations: default arguments are inherited, or added one by one
int red(int a = answer, int b = 7); int red(int a, int b);
int red2(int a, int b, int c = 3); int red2(int a, int b = 2, int c); int red2(int a = 1, int b, int c) GENPYBIND(__sel_red2); int red2(int a, int b, int c);
inline int red3(int a = glob, Color b = Color::green); inline int red3(int a, Color b) { return a; }
struct Re { void m(int a = answer, int b = P::lim); static int s(int a, int b = 4) GENPYBIND(__sel_res); Re(int a, int b = 6); struct In { void m(int a = answer); }; };
inline void Re::m(int a, int b) {} inline int Re::s(int a, int b) { return a; } inline Re::Re(int a, int b) {} inline void Re::In::m(int a) {}
template <typename T> int red4(T a, int b = sizeof(T)); template <typename T> int red4(T a, int b) { return b; } template GENPYBIND(visible) int red4<char>(char, int);
}
)zoo";
const Zoo Z0{{
  "|enum<::n::Color>(\"Color\")",
  "|enum<::n::Flag>(\"Flag\")",
  "|class<::n::P>(\"P\")",
  ".P|enum<::n::P::Mode>(\"Mode\")",
  ".P|class<::n::P::In>(\"In\")",
  "|class<::n::Agg>(\"Agg\")",
  "|class<::n::m::Q>(\"Q\")",
  "|class<::n::K>(\"K\")",
  ".K|enum<::n::K::E>(\"E\")",
  ".K|class<::n::K::N>(\"N\")",
  "|class<::n::T1<double>>(\"T1d\")",
  "|class<::n::T1<int>>(\"T1_int_\")",
  "|class<::n::TM>(\"TM\")",
  "|class<::n::I>(\"I\")",
  "|class<::n::Base>(\"Base\")",
  "|class<::n::Der,::n::Base>(\"Der\")",
  "|class<::n::Sc<unsignedlong>>(\"Sc_unsigned_long_\")",
  "|class<::n::Sc<short>>(\"Sc_short_\")",
  "|class<::n::Pt<::n::P*>>(\"Pt_n_P_\")",
  "|class<::n::Pt<int::n::P::*>>(\"Pt_int_n_P_\")",
  "|class<::n::Pt<void(*)(int)>>(\"Pt_void_int_\")",
  "|class<::n::Pg<::n::P*>>(\"Pg_n_P_\")",
  "|class<::n::Re>(\"Re\")",
  ".Re|class<::n::Re::In>(\"In\")",
  "|context.def(\"calls\",pybind11::overload_cast<int,int>(&::n::calls),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=::n::answer)",
  "|context.def(\"f\",pybind11::overload_cast<>(&::n::m::f),\"\")",
  "|context.def(\"literals\",pybind11::overload_cast<int,long,unsignedlonglong,char,char,double,float,constchar*,constchar*,bool,int,int,bool>(&::n::literals),\"\",pybind11::arg(\"v\")=1,pybind11::arg(\"w\")=2L,pybind11::arg(\"z\")=3ULL,pybind11::arg(\"c\")='x',pybind11::arg(\"d\")='\\'',pybind11::arg(\"g\")=1.5,pybind11::arg(\"h\")=2.5F,pybind11::arg(\"s\")=\"a\\\"b\\\\c\\n\",pybind11::arg(\"cat\")=\"ab\",pybind11::arg(\"t\")=true,pybind11::arg(\"neg\")=-3,pybind11::arg(\"inv\")=~5,pybind11::arg(\"nt\")=!true)",
  "|context.def(\"pointers\",pybind11::overload_cast<::n::P*,::n::P*,int*,constchar*,::n::P*,int*,::n::P*,int(*)(int,int),int::n::P::*>(&::n::pointers),\"\",pybind11::arg(\"a\")=nullptr,pybind11::arg(\"b\")=nullptr,pybind11::arg(\"c\")=nullptr,pybind11::arg(\"d\")=nullptr,pybind11::arg(\"e\")=::n::gpp,pybind11::arg(\"f\")=::n::arr,pybind11::arg(\"g\")=(::n::P*)nullptr,pybind11::arg(\"fp\")=::n::calls,pybind11::arg(\"mp\")=&::n::P::x)",
  "|context.def(\"names\",pybind11::overload_cast<int,int,int,int,int,int,int,::n::P,::n::P,int>(&::n::names),\"\",pybind11::arg(\"a\")=::n::answer,pybind11::arg(\"b\")=::glob,pybind11::arg(\"c\")=::n::answer,pybind11::arg(\"d\")=::n::m::f(),pybind11::arg(\"e\")=::n::f(),pybind11::arg(\"g\")=::n::m::f(),pybind11::arg(\"h\")=::n::vt<int>,pybind11::arg(\"i\")=::n::gp,pybind11::arg(\"j\")=*::n::gpp,pybind11::arg(\"k\")=::n::arr[1])",
  "|context.def(\"enums\",pybind11::overload_cast<::n::Color,::n::Flag,::n::Flag,::n::Color,int,::n::P::Mode,::n::Color,::n::P::Mode,::n::Color,::n::Color,::n::Color,::n::Color>(&::n::enums),\"\",pybind11::arg(\"a\")=::n::Color::red,pybind11::arg(\"b\")=::n::on,pybind11::arg(\"c\")=::n::off,pybind11::arg(\"d\")=::n::Color::green,pybind11::arg(\"e\")=(int)::n::Color::green,pybind11::arg(\"g\")=::n::P::fast,pybind11::arg(\"h\")=::n::Color(),pybind11::arg(\"i\")=::n::P::Mode(),pybind11::arg(\"j\")=::n::Color{},pybind11::arg(\"k\")=::n::Color{},pybind11::arg(\"l\")=::n::Color(1),pybind11::arg(\"o\")=static_cast<::n::Color>(1))",
  "|context.def(\"members\",pybind11::overload_cast<int,int,int,int,int,int,int,int,int,int,int,int,int>(&::n::members),\"\",pybind11::arg(\"a\")=::n::P::lim,pybind11::arg(\"b\")=::n::P::In::deep,pybind11::arg(\"d\")=::n::P::make(),pybind11::arg(\"e\")=::n::P::make(4),pybind11::arg(\"g\")=::n::P(1).::n::P::x,pybind11::arg(\"h\")=::n::P(1,2).::n::P::get(),pybind11::arg(\"i\")=::n::P().::n::P::get(3),pybind11::arg(\"j\")=(::n::P(1)+::n::P(2)).::n::P::x,pybind11::arg(\"k\")=::n::P()[2],pybind11::arg(\"l\")=::n::P()(5),pybind11::arg(\"o\")=::n::m::q0.::n::m::Q::v,pybind11::arg(\"p\")=::n::gpp->::n::P::x,pybind11::arg(\"q\")=(*::n::gpp).::n::P::x)",
  "|context.def(\"made\",pybind11::overload_cast<::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P>(&::n::made),\"\",pybind11::arg(\"a\")=::n::P(),pybind11::arg(\"b\")=::n::P(1),pybind11::arg(\"c\")=::n::P(1,3),pybind11::arg(\"d\")=::n::P{},pybind11::arg(\"e\")=::n::P{1},pybind11::arg(\"g\")=::n::P{1,2},pybind11::arg(\"h\")=::n::P{},pybind11::arg(\"i\")=::n::P{1},pybind11::arg(\"j\")=::n::P::origin(),pybind11::arg(\"k\")=::n::P(::n::P(1)),pybind11::arg(\"l\")=::n::P(::n::P{2}))",
  "|context.def(\"aliases\",pybind11::overload_cast<::n::m::Q,::n::m::Q,::n::Alias,::n::Alias,::n::m::Q,const::n::m::Q&>(&::n::aliases),\"\",pybind11::arg(\"a\")=::n::m::Q(),pybind11::arg(\"b\")=::n::m::Q(3),pybind11::arg(\"c\")=::n::Alias(4),pybind11::arg(\"d\")=::n::Alias{5},pybind11::arg(\"e\")=::n::m::q0,pybind11::arg(\"g\")=::n::m::q0)",
  "|context.def(\"aggregates\",pybind11::overload_cast<::n::Agg,::n::Agg,::n::Agg,::n::Agg,::n::Agg,int>(&::n::aggregates),\"\",pybind11::arg(\"a\")=::n::Agg{1,{2,3}},pybind11::arg(\"b\")=::n::Agg{1,::n::P(2)},pybind11::arg(\"c\")=::n::Agg{},pybind11::arg(\"d\")=::n::Agg{},pybind11::arg(\"e\")=::n::Agg{1,{2}},pybind11::arg(\"f\")=::n::Agg{1,{2}}.::n::Agg::a)",
  "|context.def(\"expressions\",pybind11::overload_cast<int,int,int,bool,int,int,int,int,int,int,int>(&::n::expressions),\"\",pybind11::arg(\"a\")=1+2*3,pybind11::arg(\"b\")=(1+2)*3,pybind11::arg(\"c\")=true?1:2,pybind11::arg(\"d\")=1<2&&3!=4,pybind11::arg(\"e\")=1<<3|4,pybind11::arg(\"g\")=::n::calls(1),pybind11::arg(\"h\")=::n::calls(1,2),pybind11::arg(\"i\")=::n::conv<int>(3),pybind11::arg(\"j\")=sizeof(::n::P),pybind11::arg(\"k\")=alignof(::n::m::Q),pybind11::arg(\"l\")=sizeof::n::answer)",
  "|context.def(\"casts\",pybind11::overload_cast<int,int,int,int,long,::n::P,::n::P,const::n::P*>(&::n::casts),\"\",pybind11::arg(\"a\")=(int)2.5,pybind11::arg(\"b\")=int(3.5),pybind11::arg(\"c\")=static_cast<int>(4.5),pybind11::arg(\"d\")=int{5},pybind11::arg(\"e\")=long(::n::m::Q(3)),pybind11::arg(\"g\")=static_cast<::n::P>(3),pybind11::arg(\"h\")=(::n::P)5,pybind11::arg(\"i\")=const_cast<const::n::P*>(::n::gpp))",
  "|context.def(\"tf\",pybind11::overload_cast<long,int,long>(&::n::tf<long>),\"\",pybind11::arg(\"a\")=long(3),pybind11::arg(\"b\")=sizeof(long),pybind11::arg(\"c\")=::n::vt<long>)",
  "|context.def(\"anonymous\",pybind11::overload_cast<int,int,int>(&::n::anonymous),\"\",pybind11::arg(\"x\")=::n::gu.a,pybind11::arg(\"y\")=::n::gup->c,pybind11::arg(\"z\")=::n::gu.d)",
  "|context.def(\"lambdas\",pybind11::overload_cast<int(*)(int),int(*)(int)>(&::n::lambdas),\"\",pybind11::arg(\"g\")=[](intx){returnx;},pybind11::arg(\"h\")=[](intx)->int{if(x>1)returnx+::n::answer;return-x*::glob;})",
  "|context.def(\"targs\",pybind11::overload_cast<int,int,int,int,int>(&::n::targs),\"\",pybind11::arg(\"a\")=::n::ft<::n::P>(),pybind11::arg(\"b\")=::n::ft<::n::P,3>(),pybind11::arg(\"c\")=::n::TM().::n::TM::mt<::n::m::Q>(),pybind11::arg(\"d\")=::n::TM::st<::n::P::In>(),pybind11::arg(\"e\")=::n::ft<int*>(2))",
  "|context.def(\"braces\",pybind11::overload_cast<int,::n::Agg,::n::Agg>(&::n::braces),\"\",pybind11::arg(\"x\")=::n::vv(::n::Agg{1,2}),pybind11::arg(\"v\")=::n::Agg{::n::vv({1,2}),{3}},pybind11::arg(\"w\")=::n::Agg{::n::vv(::n::Agg{1,::n::P(2)}),::n::P{::n::vv({3,{4}})}})",
  "|context.def(\"inlined\",pybind11::overload_cast<::n::I,int,::n::I>(&::n::inlined),\"\",pybind11::arg(\"i\")=::n::I{1},pybind11::arg(\"c\")=::n::ic,pybind11::arg(\"j\")=::n::I())",
  "|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::inherited),\"\",pybind11::arg(\"x\")=::n::gd.::n::Base::m,pybind11::arg(\"y\")=::n::gd.::n::Base::m)",
  "|context.def(\"strings\",pybind11::overload_cast<constwchar_t*,constchar*,constchar*,char32_t,constchar*,char>(&::n::strings),\"\",pybind11::arg(\"w\")=L\"abc\",pybind11::arg(\"u\")=u8\"abc\",pybind11::arg(\"r\")=\"a\\\"b\",pybind11::arg(\"c\")=U'x',pybind11::arg(\"z\")=\"a\\tb??=\",pybind11::arg(\"d\")='\\n')",
  "|context.def(\"numbers\",pybind11::overload_cast<double,double,float,double,longdouble,double,int,unsignedint,longlong,int,int,unsignedchar,short,signedchar>(&::n::numbers),\"\",pybind11::arg(\"a\")=1.0000000000000001E+300,pybind11::arg(\"b\")=0.5,pybind11::arg(\"c\")=1.F,pybind11::arg(\"d\")=8.,pybind11::arg(\"e\")=1.L,pybind11::arg(\"f\")=9.9999999999999995E-8,pybind11::arg(\"g\")=2147483647,pybind11::arg(\"h\")=4294967295U,pybind11::arg(\"i\")=-9223372036854775807LL-1,pybind11::arg(\"j\")=3,pybind11::arg(\"k\")=1000,pybind11::arg(\"l\")=255,pybind11::arg(\"o\")=3,pybind11::arg(\"p\")=-1)",
  "|context.def(\"unnamed\",pybind11::overload_cast<int,unsignedint>(&::n::unnamed),\"\",pybind11::arg(\"a\")=::n::un0,pybind11::arg(\"b\")=::n::un1)",
  "|context.def(\"references\",pybind11::overload_cast<const::n::P&,::n::P&&,const::n::Agg&,const::n::P&>(&::n::references),\"\",pybind11::arg(\"v\")=::n::P{1,2},pybind11::arg(\"w\")=::n::P{},pybind11::arg(\"x\")=::n::Agg{},pybind11::arg(\"y\")=::n::P{3})",
  "|context.def(\"operators\",pybind11::overload_cast<::n::P*,bool,int,int,bool,int,int>(&::n::operators),\"\",pybind11::arg(\"a\")=&::n::gp,pybind11::arg(\"b\")=noexcept(::n::m::f()),pybind11::arg(\"c\")=(1,2),pybind11::arg(\"d\")=-::n::answer,pybind11::arg(\"e\")=!::n::answer,pybind11::arg(\"g\")=::n::arr[::n::answer-41],pybind11::arg(\"h\")=::n::gup->a+::n::gu.c)",
  "|context.def(\"refcasts\",pybind11::overload_cast<::n::P&,const::n::P&,::n::P&&,::n::P&,::n::Base&,::n::P&,int,::n::Der&,long>(&::n::refcasts),\"\",pybind11::arg(\"x\")=const_cast<::n::P&>(::n::cp),pybind11::arg(\"y\")=static_cast<const::n::P&>(::n::gp),pybind11::arg(\"z\")=static_cast<::n::P&&>(::n::gp),pybind11::arg(\"w\")=(::n::P&)::n::cp,pybind11::arg(\"v\")=static_cast<::n::Base&>(::n::gd),pybind11::arg(\"u\")=::n::PR(::n::gp),pybind11::arg(\"k\")=static_cast<constint>(3),pybind11::arg(\"t\")=dynamic_cast<::n::Der&>(::n::gd),pybind11::arg(\"l\")=reinterpret_cast<long&>(::n::gp.::n::P::x))",
  "|context.def(\"zeros\",pybind11::overload_cast<::n::P,::n::P,::n::P,int,::n::Agg,bool,int,::n::P,double,char,::n::P,::n::P,int,::n::P>(&::n::zeros),\"\",pybind11::arg(\"a\")=::n::P(0,1),pybind11::arg(\"b\")=::n::P(0),pybind11::arg(\"c\")=::n::P{0,0},pybind11::arg(\"d\")=::n::calls(0),pybind11::arg(\"e\")=::n::Agg{0,::n::P(0)},pybind11::arg(\"f\")=false,pybind11::arg(\"g\")=int(0),pybind11::arg(\"h\")=::n::P(::n::answer,0),pybind11::arg(\"i\")=0.,pybind11::arg(\"j\")='\\x00',pybind11::arg(\"k\")=::n::P(2,2),pybind11::arg(\"l\")=::n::P{0},pybind11::arg(\"o\")=::n::calls(0,0),pybind11::arg(\"q\")=::n::P{0,0})",
  "|context.def(\"red\",pybind11::overload_cast<int,int>(&::n::red),\"\",pybind11::arg(\"a\")=::n::answer,pybind11::arg(\"b\")=7)",
  "|context.def(\"red2\",pybind11::overload_cast<int,int,int>(&::n::red2),\"\",pybind11::arg(\"a\")=1,pybind11::arg(\"b\")=2,pybind11::arg(\"c\")=3)",
  "|context.def(\"red3\",pybind11::overload_cast<int,::n::Color>(&::n::red3),\"\",pybind11::arg(\"a\")=::glob,pybind11::arg(\"b\")=::n::Color::green)",
  "|context.def(\"red4\",pybind11::overload_cast<char,int>(&::n::red4<char>),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=sizeof(char))",
  ".Color|context.value(\"red\",::n::Color::red)",
  ".Color|context.value(\"green\",::n::Color::green)",
  ".Flag|context.value(\"on\",::n::Flag::on)",
  ".Flag|context.value(\"off\",::n::Flag::off)",
  ".Flag|context.export_values()",
  ".P|context.def_readwrite(\"x\",&::n::P::x)",
  ".P|context.def(pybind11::init<>(),\"\")",
  ".P|context.def(pybind11::init<int,int>(),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\")=2)",
  ".P|context.def_static(\"make\",pybind11::overload_cast<int>(&::n::P::make),\"\",pybind11::arg(\"v\")=::n::P::lim)",
  ".P|context.def_static(\"origin\",pybind11::overload_cast<>(&::n::P::origin),\"\")",
  ".P|context.def(\"get\",pybind11::overload_cast<int>(&::n::P::get,pybind11::const_),\"\",pybind11::arg(\"d\")=1)",
  ".P|context.def(\"__add__\",[](const::n::P&lhs,const::n::P&rhs)->::n::P{returnlhs+rhs;},\"\",pybind11::is_operator())",
  ".P|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::P::operator(),pybind11::const_),\"\",pybind11::arg(\"i\")=::n::P::lim)",
  ".P.Mode|context.value(\"slow\",::n::P::Mode::slow)",
  ".P.Mode|context.value(\"fast\",::n::P::Mode::fast)",
  ".P.Mode|context.export_values()",
  ".P.In|context.def(pybind11::init<>(),\"\")",
  ".P.In|context.def(pybind11::init<const::n::P::In&>(),\"\",pybind11::arg(\"\"))",
  ".Agg|context.def(pybind11::init<const::n::Agg&>(),\"\",pybind11::arg(\"\"))",
  ".Agg|context.def(pybind11::init<>(),\"\")",
  ".Agg|context.def_readwrite(\"a\",&::n::Agg::a)",
  ".Agg|context.def_readwrite(\"p\",&::n::Agg::p)",
  "|context.def(\"f\",pybind11::overload_cast<>(&::n::m::f),\"\")",
  ".Q|context.def(pybind11::init<const::n::m::Q&>(),\"\",pybind11::arg(\"\"))",
  ".Q|context.def_readwrite(\"v\",&::n::m::Q::v)",
  ".Q|context.def(pybind11::init<>(),\"\")",
  ".Q|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"v\"))",
  ".Q|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::m::Q::operatorint,pybind11::const_),\"\")",
  ".K|context.def(pybind11::init<const::n::K&>(),\"\",pybind11::arg(\"\"))",
  ".K|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::K::sf),\"\")",
  ".K|context.def(pybind11::init<int,::n::K::E,::n::K::N>(),\"\",pybind11::arg(\"a\")=::n::K::own,pybind11::arg(\"b\")=::n::K::e1,pybind11::arg(\"c\")=::n::K::N())",
  ".K|context.def(\"me\",pybind11::overload_cast<int,::n::K::E,int,::n::K::N,int,::n::K::N>(&::n::K::me,pybind11::const_),\"\",pybind11::arg(\"a\")=::n::K::own,pybind11::arg(\"b\")=::n::K::e0,pybind11::arg(\"c\")=::n::K::sf(),pybind11::arg(\"d\")=::n::K::N{},pybind11::arg(\"e\")=::n::answer,pybind11::arg(\"f\")=::n::K::N{})",
  ".K|context.def_static(\"se\",pybind11::overload_cast<int,::n::K*,::n::K*>(&::n::K::se),\"\",pybind11::arg(\"a\")=::n::K::own,pybind11::arg(\"b\")=nullptr,pybind11::arg(\"c\")=nullptr)",
  ".K.E|context.value(\"e0\",::n::K::E::e0)",
  ".K.E|context.value(\"e1\",::n::K::E::e1)",
  ".K.E|context.export_values()",
  ".K.N|context.def(pybind11::init<>(),\"\")",
  ".K.N|context.def(pybind11::init<const::n::K::N&>(),\"\",pybind11::arg(\"\"))",
  ".K.N|context.def_readwrite(\"i\",&::n::K::N::i)",
  ".T1d|context.def(pybind11::init<>(),\"\")",
  ".T1d|context.def(pybind11::init<const::n::T1<double>&>(),\"\",pybind11::arg(\"\"))",
  ".T1d|context.def(\"get\",pybind11::overload_cast<double,double,int,int,int,::n::P>(&::n::T1<double>::get),\"\",pybind11::arg(\"a\")=double(),pybind11::arg(\"b\")=double(::n::answer),pybind11::arg(\"c\")=sizeof(double),pybind11::arg(\"d\")=::n::T1<double>::k,pybind11::arg(\"e\")=::n::T1<double>::k,pybind11::arg(\"f\")=::n::P(1))",
  ".T1_int_|context.def(\"get\",pybind11::overload_cast<int,int,int,int,int,::n::P>(&::n::T1<int>::get),\"\",pybind11::arg(\"a\")=int(),pybind11::arg(\"b\")=int(::n::answer),pybind11::arg(\"c\")=sizeof(int),pybind11::arg(\"d\")=::n::T1<int>::k,pybind11::arg(\"e\")=::n::T1<int>::k,pybind11::arg(\"f\")=::n::P(1))",
  ".T1_int_|context.def(pybind11::init<>(),\"\")",
  ".T1_int_|context.def(pybind11::init<const::n::T1<int>&>(),\"\",pybind11::arg(\"\"))",
  ".TM|context.def(pybind11::init<>(),\"\")",
  ".TM|context.def(pybind11::init<const::n::TM&>(),\"\",pybind11::arg(\"\"))",
  ".TM|context.def(\"mt\",pybind11::overload_cast<>(&::n::TM::mt<n::m::Q>,pybind11::const_),\"\")",
  ".TM|context.def_static(\"st\",pybind11::overload_cast<>(&::n::TM::st<n::P::In>),\"\")",
  ".I|context.def(pybind11::init<>(),\"\")",
  ".I|context.def(pybind11::init<const::n::I&>(),\"\",pybind11::arg(\"\"))",
  ".I|context.def_readwrite(\"i\",&::n::I::i)",
  ".Base|context.def(pybind11::init<>(),\"\")",
  ".Base|context.def(pybind11::init<const::n::Base&>(),\"\",pybind11::arg(\"\"))",
  ".Base|context.def_readwrite(\"m\",&::n::Base::m)",
  ".Der|context.def_readonly_static(\"pp\",&::n::Base::pp)",
  ".Der|context.def(pybind11::init<>(),\"\")",
  ".Der|context.def(pybind11::init<const::n::Der&>(),\"\",pybind11::arg(\"\"))",
  ".Der|context.def(\"f\",pybind11::overload_cast<int,int>(&::n::Der::f),\"\",pybind11::arg(\"a\")=::n::Base::bb,pybind11::arg(\"b\")=::n::Base::bb)",
  ".Der|context.def(\"g\",pybind11::overload_cast<int>(&::n::Der::g),\"\",pybind11::arg(\"a\")=::n::Der::pp)",
  ".Sc_unsigned_long_|context.def(\"f\",pybind11::overload_cast<unsignedlong,unsignedlong,unsignedlong,int,constunsignedlong&>(&::n::Sc<unsignedlong>::f),\"\",pybind11::arg(\"a\")=((unsignedlong)(0)),pybind11::arg(\"b\")=((unsignedlong)(0)),pybind11::arg(\"c\")=((unsignedlong)(0)),pybind11::arg(\"d\")=((unsignedlong)(0))==((unsignedlong)(0))?1:2,pybind11::arg(\"e\")=((unsignedlong)(::n::answer-42)))",
  ".Sc_unsigned_long_|context.def(pybind11::init<>(),\"\")",
  ".Sc_unsigned_long_|context.def(pybind11::init<const::n::Sc<unsignedlong>&>(),\"\",pybind11::arg(\"\"))",
  ".Sc_short_|context.def(\"f\",pybind11::overload_cast<short,short,short,int,constshort&>(&::n::Sc<short>::f),\"\",pybind11::arg(\"a\")=short(),pybind11::arg(\"b\")=short{},pybind11::arg(\"c\")=short(0),pybind11::arg(\"d\")=short()==short{}?1:2,pybind11::arg(\"e\")=short(::n::answer-42))",
  ".Sc_short_|context.def(pybind11::init<>(),\"\")",
  ".Sc_short_|context.def(pybind11::init<const::n::Sc<short>&>(),\"\",pybind11::arg(\"\"))",
  ".Pt_n_P_|context.def(\"f\",pybind11::overload_cast<n::P*,n::P*,n::P*,n::P*const&,int>(&::n::Pt<n::P*>::f),\"\",pybind11::arg(\"a\")=((n::P*)(nullptr)),pybind11::arg(\"b\")=((n::P*)(nullptr)),pybind11::arg(\"c\")=((n::P*)(nullptr)),pybind11::arg(\"d\")=((n::P*)(nullptr)),pybind11::arg(\"e\")=((n::P*)(0))==nullptr)",
  ".Pt_n_P_|context.def(pybind11::init<>(),\"\")",
  ".Pt_n_P_|context.def(pybind11::init<const::n::Pt<::n::P*>&>(),\"\",pybind11::arg(\"\"))",
  ".Pt_int_n_P_|context.def(\"f\",pybind11::overload_cast<intn::P::*,intn::P::*,intn::P::*,intn::P::*const&,int>(&::n::Pt<intn::P::*>::f),\"\",pybind11::arg(\"a\")=((intn::P::*)(nullptr)),pybind11::arg(\"b\")=((intn::P::*)(nullptr)),pybind11::arg(\"c\")=((intn::P::*)(nullptr)),pybind11::arg(\"d\")=((intn::P::*)(nullptr)),pybind11::arg(\"e\")=((intn::P::*)(0))==nullptr)",
  ".Pt_int_n_P_|context.def(pybind11::init<>(),\"\")",
  ".Pt_int_n_P_|context.def(pybind11::init<const::n::Pt<int::n::P::*>&>(),\"\",pybind11::arg(\"\"))",
  ".Pt_void_int_|context.def(\"f\",pybind11::overload_cast<void(*)(int),void(*)(int),void(*)(int),void(*const&)(int),int>(&::n::Pt<void(*)(int)>::f),\"\",pybind11::arg(\"a\")=((void(*)(int))(nullptr)),pybind11::arg(\"b\")=((void(*)(int))(nullptr)),pybind11::arg(\"c\")=((void(*)(int))(nullptr)),pybind11::arg(\"d\")=((void(*)(int))(nullptr)),pybind11::arg(\"e\")=((void(*)(int))(0))==nullptr)",
  ".Pt_void_int_|context.def(pybind11::init<>(),\"\")",
  ".Pt_void_int_|context.def(pybind11::init<const::n::Pt<void(*)(int)>&>(),\"\",pybind11::arg(\"\"))",
  ".Pg_n_P_|context.def(\"f\",pybind11::overload_cast<n::P*,n::P*,int>(&::n::Pg<n::P*>::f),\"\",pybind11::arg(\"a\")=((n::P*)(&::n::gp)),pybind11::arg(\"b\")=((n::P*)(&::n::gp)),pybind11::arg(\"c\")=((n::P*)(&::n::gp))->::n::P::x)",
  ".Pg_n_P_|context.def(pybind11::init<>(),\"\")",
  ".Pg_n_P_|context.def(pybind11::init<const::n::Pg<::n::P*>&>(),\"\",pybind11::arg(\"\"))",
  ".Re|context.def(pybind11::init<const::n::Re&>(),\"\",pybind11::arg(\"\"))",
  ".Re|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::Re::m),\"\",pybind11::arg(\"a\")=::n::answer,pybind11::arg(\"b\")=::n::P::lim)",
  ".Re|context.def_static(\"s\",pybind11::overload_cast<int,int>(&::n::Re::s),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=4)",
  ".Re|context.def(pybind11::init<int,int>(),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=6)",
  ".Re.In|context.def(pybind11::init<>(),\"\")",
  ".Re.In|context.def(pybind11::init<const::n::Re::In&>(),\"\",pybind11::arg(\"\"))",
  ".Re.In|context.def(\"m\",pybind11::overload_cast<int>(&::n::Re::In::m),\"\",pybind11::arg(\"a\")=::n::answer)"
}, {
  {"n", 0, {"visible", "visible, module(sub)"}, {
    {false, {}, {}},
    {false, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138}, {{0, "|submodule<>(\"sub\")"}, {0, ".sub|enum<::n::Color>(\"Color\")"}, {0, ".sub|enum<::n::Flag>(\"Flag\")"}, {0, ".sub|class<::n::P>(\"P\")"}, {0, ".sub.P|enum<::n::P::Mode>(\"Mode\")"}, {0, ".sub.P|class<::n::P::In>(\"In\")"}, {0, ".sub|class<::n::Agg>(\"Agg\")"}, {0, ".sub|class<::n::m::Q>(\"Q\")"}, {0, ".sub|class<::n::K>(\"K\")"}, {0, ".sub.K|enum<::n::K::E>(\"E\")"}, {0, ".sub.K|class<::n::K::N>(\"N\")"}, {0, ".sub|class<::n::T1<double>>(\"T1d\")"}, {0, ".sub|class<::n::T1<int>>(\"T1_int_\")"}, {0, ".sub|class<::n::TM>(\"TM\")"}, {0, ".sub|class<::n::I>(\"I\")"}, {0, ".sub|class<::n::Base>(\"Base\")"}, {0, ".sub|class<::n::Der,::n::Base>(\"Der\")"}, {0, ".sub|class<::n::Sc<unsignedlong>>(\"Sc_unsigned_long_\")"}, {0, ".sub|class<::n::Sc<short>>(\"Sc_short_\")"}, {0, ".sub|class<::n::Pt<::n::P*>>(\"Pt_n_P_\")"}, {0, ".sub|class<::n::Pt<int::n::P::*>>(\"Pt_int_n_P_\")"}, {0, ".sub|class<::n::Pt<void(*)(int)>>(\"Pt_void_int_\")"}, {0, ".sub|class<::n::Pg<::n::P*>>(\"Pg_n_P_\")"}, {0, ".sub|class<::n::Re>(\"Re\")"}, {0, ".sub.Re|class<::n::Re::In>(\"In\")"}, {0, ".sub|context.def(\"calls\",pybind11::overload_cast<int,int>(&::n::calls),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=::n::answer)"}, {0, ".sub|context.def(\"f\",pybind11::overload_cast<>(&::n::m::f),\"\")"}, {0, ".sub|context.def(\"literals\",pybind11::overload_cast<int,long,unsignedlonglong,char,char,double,float,constchar*,constchar*,bool,int,int,bool>(&::n::literals),\"\",pybind11::arg(\"v\")=1,pybind11::arg(\"w\")=2L,pybind11::arg(\"z\")=3ULL,pybind11::arg(\"c\")='x',pybind11::arg(\"d\")='\\'',pybind11::arg(\"g\")=1.5,pybind11::arg(\"h\")=2.5F,pybind11::arg(\"s\")=\"a\\\"b\\\\c\\n\",pybind11::arg(\"cat\")=\"ab\",pybind11::arg(\"t\")=true,pybind11::arg(\"neg\")=-3,pybind11::arg(\"inv\")=~5,pybind11::arg(\"nt\")=!true)"}, {0, ".sub|context.def(\"pointers\",pybind11::overload_cast<::n::P*,::n::P*,int*,constchar*,::n::P*,int*,::n::P*,int(*)(int,int),int::n::P::*>(&::n::pointers),\"\",pybind11::arg(\"a\")=nullptr,pybind11::arg(\"b\")=nullptr,pybind11::arg(\"c\")=nullptr,pybind11::arg(\"d\")=nullptr,pybind11::arg(\"e\")=::n::gpp,pybind11::arg(\"f\")=::n::arr,pybind11::arg(\"g\")=(::n::P*)nullptr,pybind11::arg(\"fp\")=::n::calls,pybind11::arg(\"mp\")=&::n::P::x)"}, {0, ".sub|context.def(\"names\",pybind11::overload_cast<int,int,int,int,int,int,int,::n::P,::n::P,int>(&::n::names),\"\",pybind11::arg(\"a\")=::n::answer,pybind11::arg(\"b\")=::glob,pybind11::arg(\"c\")=::n::answer,pybind11::arg(\"d\")=::n::m::f(),pybind11::arg(\"e\")=::n::f(),pybind11::arg(\"g\")=::n::m::f(),pybind11::arg(\"h\")=::n::vt<int>,pybind11::arg(\"i\")=::n::gp,pybind11::arg(\"j\")=*::n::gpp,pybind11::arg(\"k\")=::n::arr[1])"}, {0, ".sub|context.def(\"enums\",pybind11::overload_cast<::n::Color,::n::Flag,::n::Flag,::n::Color,int,::n::P::Mode,::n::Color,::n::P::Mode,::n::Color,::n::Color,::n::Color,::n::Color>(&::n::enums),\"\",pybind11::arg(\"a\")=::n::Color::red,pybind11::arg(\"b\")=::n::on,pybind11::arg(\"c\")=::n::off,pybind11::arg(\"d\")=::n::Color::green,pybind11::arg(\"e\")=(int)::n::Color::green,pybind11::arg(\"g\")=::n::P::fast,pybind11::arg(\"h\")=::n::Color(),pybind11::arg(\"i\")=::n::P::Mode(),pybind11::arg(\"j\")=::n::Color{},pybind11::arg(\"k\")=::n::Color{},pybind11::arg(\"l\")=::n::Color(1),pybind11::arg(\"o\")=static_cast<::n::Color>(1))"}, {0, ".sub|context.def(\"members\",pybind11::overload_cast<int,int,int,int,int,int,int,int,int,int,int,int,int>(&::n::members),\"\",pybind11::arg(\"a\")=::n::P::lim,pybind11::arg(\"b\")=::n::P::In::deep,pybind11::arg(\"d\")=::n::P::make(),pybind11::arg(\"e\")=::n::P::make(4),pybind11::arg(\"g\")=::n::P(1).::n::P::x,pybind11::arg(\"h\")=::n::P(1,2).::n::P::get(),pybind11::arg(\"i\")=::n::P().::n::P::get(3),pybind11::arg(\"j\")=(::n::P(1)+::n::P(2)).::n::P::x,pybind11::arg(\"k\")=::n::P()[2],pybind11::arg(\"l\")=::n::P()(5),pybind11::arg(\"o\")=::n::m::q0.::n::m::Q::v,pybind11::arg(\"p\")=::n::gpp->::n::P::x,pybind11::arg(\"q\")=(*::n::gpp).::n::P::x)"}, {0, ".sub|context.def(\"made\",pybind11::overload_cast<::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P>(&::n::made),\"\",pybind11::arg(\"a\")=::n::P(),pybind11::arg(\"b\")=::n::P(1),pybind11::arg(\"c\")=::n::P(1,3),pybind11::arg(\"d\")=::n::P{},pybind11::arg(\"e\")=::n::P{1},pybind11::arg(\"g\")=::n::P{1,2},pybind11::arg(\"h\")=::n::P{},pybind11::arg(\"i\")=::n::P{1},pybind11::arg(\"j\")=::n::P::origin(),pybind11::arg(\"k\")=::n::P(::n::P(1)),pybind11::arg(\"l\")=::n::P(::n::P{2}))"}, {0, ".sub|context.def(\"aliases\",pybind11::overload_cast<::n::m::Q,::n::m::Q,::n::Alias,::n::Alias,::n::m::Q,const::n::m::Q&>(&::n::aliases),\"\",pybind11::arg(\"a\")=::n::m::Q(),pybind11::arg(\"b\")=::n::m::Q(3),pybind11::arg(\"c\")=::n::Alias(4),pybind11::arg(\"d\")=::n::Alias{5},pybind11::arg(\"e\")=::n::m::q0,pybind11::arg(\"g\")=::n::m::q0)"}, {0, ".sub|context.def(\"aggregates\",pybind11::overload_cast<::n::Agg,::n::Agg,::n::Agg,::n::Agg,::n::Agg,int>(&::n::aggregates),\"\",pybind11::arg(\"a\")=::n::Agg{1,{2,3}},pybind11::arg(\"b\")=::n::Agg{1,::n::P(2)},pybind11::arg(\"c\")=::n::Agg{},pybind11::arg(\"d\")=::n::Agg{},pybind11::arg(\"e\")=::n::Agg{1,{2}},pybind11::arg(\"f\")=::n::Agg{1,{2}}.::n::Agg::a)"}, {0, ".sub|context.def(\"expressions\",pybind11::overload_cast<int,int,int,bool,int,int,int,int,int,int,int>(&::n::expressions),\"\",pybind11::arg(\"a\")=1+2*3,pybind11::arg(\"b\")=(1+2)*3,pybind11::arg(\"c\")=true?1:2,pybind11::arg(\"d\")=1<2&&3!=4,pybind11::arg(\"e\")=1<<3|4,pybind11::arg(\"g\")=::n::calls(1),pybind11::arg(\"h\")=::n::calls(1,2),pybind11::arg(\"i\")=::n::conv<int>(3),pybind11::arg(\"j\")=sizeof(::n::P),pybind11::arg(\"k\")=alignof(::n::m::Q),pybind11::arg(\"l\")=sizeof::n::answer)"}, {0, ".sub|context.def(\"casts\",pybind11::overload_cast<int,int,int,int,long,::n::P,::n::P,const::n::P*>(&::n::casts),\"\",pybind11::arg(\"a\")=(int)2.5,pybind11::arg(\"b\")=int(3.5),pybind11::arg(\"c\")=static_cast<int>(4.5),pybind11::arg(\"d\")=int{5},pybind11::arg(\"e\")=long(::n::m::Q(3)),pybind11::arg(\"g\")=static_cast<::n::P>(3),pybind11::arg(\"h\")=(::n::P)5,pybind11::arg(\"i\")=const_cast<const::n::P*>(::n::gpp))"}, {0, ".sub|context.def(\"tf\",pybind11::overload_cast<long,int,long>(&::n::tf<long>),\"\",pybind11::arg(\"a\")=long(3),pybind11::arg(\"b\")=sizeof(long),pybind11::arg(\"c\")=::n::vt<long>)"}, {0, ".sub|context.def(\"anonymous\",pybind11::overload_cast<int,int,int>(&::n::anonymous),\"\",pybind11::arg(\"x\")=::n::gu.a,pybind11::arg(\"y\")=::n::gup->c,pybind11::arg(\"z\")=::n::gu.d)"}, {0, ".sub|context.def(\"lambdas\",pybind11::overload_cast<int(*)(int),int(*)(int)>(&::n::lambdas),\"\",pybind11::arg(\"g\")=[](intx){returnx;},pybind11::arg(\"h\")=[](intx)->int{if(x>1)returnx+::n::answer;return-x*::glob;})"}, {0, ".sub|context.def(\"targs\",pybind11::overload_cast<int,int,int,int,int>(&::n::targs),\"\",pybind11::arg(\"a\")=::n::ft<::n::P>(),pybind11::arg(\"b\")=::n::ft<::n::P,3>(),pybind11::arg(\"c\")=::n::TM().::n::TM::mt<::n::m::Q>(),pybind11::arg(\"d\")=::n::TM::st<::n::P::In>(),pybind11::arg(\"e\")=::n::ft<int*>(2))"}, {0, ".sub|context.def(\"braces\",pybind11::overload_cast<int,::n::Agg,::n::Agg>(&::n::braces),\"\",pybind11::arg(\"x\")=::n::vv(::n::Agg{1,2}),pybind11::arg(\"v\")=::n::Agg{::n::vv({1,2}),{3}},pybind11::arg(\"w\")=::n::Agg{::n::vv(::n::Agg{1,::n::P(2)}),::n::P{::n::vv({3,{4}})}})"}, {0, ".sub|context.def(\"inlined\",pybind11::overload_cast<::n::I,int,::n::I>(&::n::inlined),\"\",pybind11::arg(\"i\")=::n::I{1},pybind11::arg(\"c\")=::n::ic,pybind11::arg(\"j\")=::n::I())"}, {0, ".sub|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::inherited),\"\",pybind11::arg(\"x\")=::n::gd.::n::Base::m,pybind11::arg(\"y\")=::n::gd.::n::Base::m)"}, {0, ".sub|context.def(\"strings\",pybind11::overload_cast<constwchar_t*,constchar*,constchar*,char32_t,constchar*,char>(&::n::strings),\"\",pybind11::arg(\"w\")=L\"abc\",pybind11::arg(\"u\")=u8\"abc\",pybind11::arg(\"r\")=\"a\\\"b\",pybind11::arg(\"c\")=U'x',pybind11::arg(\"z\")=\"a\\tb??=\",pybind11::arg(\"d\")='\\n')"}, {0, ".sub|context.def(\"numbers\",pybind11::overload_cast<double,double,float,double,longdouble,double,int,unsignedint,longlong,int,int,unsignedchar,short,signedchar>(&::n::numbers),\"\",pybind11::arg(\"a\")=1.0000000000000001E+300,pybind11::arg(\"b\")=0.5,pybind11::arg(\"c\")=1.F,pybind11::arg(\"d\")=8.,pybind11::arg(\"e\")=1.L,pybind11::arg(\"f\")=9.9999999999999995E-8,pybind11::arg(\"g\")=2147483647,pybind11::arg(\"h\")=4294967295U,pybind11::arg(\"i\")=-9223372036854775807LL-1,pybind11::arg(\"j\")=3,pybind11::arg(\"k\")=1000,pybind11::arg(\"l\")=255,pybind11::arg(\"o\")=3,pybind11::arg(\"p\")=-1)"}, {0, ".sub|context.def(\"unnamed\",pybind11::overload_cast<int,unsignedint>(&::n::unnamed),\"\",pybind11::arg(\"a\")=::n::un0,pybind11::arg(\"b\")=::n::un1)"}, {0, ".sub|context.def(\"references\",pybind11::overload_cast<const::n::P&,::n::P&&,const::n::Agg&,const::n::P&>(&::n::references),\"\",pybind11::arg(\"v\")=::n::P{1,2},pybind11::arg(\"w\")=::n::P{},pybind11::arg(\"x\")=::n::Agg{},pybind11::arg(\"y\")=::n::P{3})"}, {0, ".sub|context.def(\"operators\",pybind11::overload_cast<::n::P*,bool,int,int,bool,int,int>(&::n::operators),\"\",pybind11::arg(\"a\")=&::n::gp,pybind11::arg(\"b\")=noexcept(::n::m::f()),pybind11::arg(\"c\")=(1,2),pybind11::arg(\"d\")=-::n::answer,pybind11::arg(\"e\")=!::n::answer,pybind11::arg(\"g\")=::n::arr[::n::answer-41],pybind11::arg(\"h\")=::n::gup->a+::n::gu.c)"}, {0, ".sub|context.def(\"refcasts\",pybind11::overload_cast<::n::P&,const::n::P&,::n::P&&,::n::P&,::n::Base&,::n::P&,int,::n::Der&,long>(&::n::refcasts),\"\",pybind11::arg(\"x\")=const_cast<::n::P&>(::n::cp),pybind11::arg(\"y\")=static_cast<const::n::P&>(::n::gp),pybind11::arg(\"z\")=static_cast<::n::P&&>(::n::gp),pybind11::arg(\"w\")=(::n::P&)::n::cp,pybind11::arg(\"v\")=static_cast<::n::Base&>(::n::gd),pybind11::arg(\"u\")=::n::PR(::n::gp),pybind11::arg(\"k\")=static_cast<constint>(3),pybind11::arg(\"t\")=dynamic_cast<::n::Der&>(::n::gd),pybind11::arg(\"l\")=reinterpret_cast<long&>(::n::gp.::n::P::x))"}, {0, ".sub|context.def(\"zeros\",pybind11::overload_cast<::n::P,::n::P,::n::P,int,::n::Agg,bool,int,::n::P,double,char,::n::P,::n::P,int,::n::P>(&::n::zeros),\"\",pybind11::arg(\"a\")=::n::P(0,1),pybind11::arg(\"b\")=::n::P(0),pybind11::arg(\"c\")=::n::P{0,0},pybind11::arg(\"d\")=::n::calls(0),pybind11::arg(\"e\")=::n::Agg{0,::n::P(0)},pybind11::arg(\"f\")=false,pybind11::arg(\"g\")=int(0),pybind11::arg(\"h\")=::n::P(::n::answer,0),pybind11::arg(\"i\")=0.,pybind11::arg(\"j\")='\\x00',pybind11::arg(\"k\")=::n::P(2,2),pybind11::arg(\"l\")=::n::P{0},pybind11::arg(\"o\")=::n::calls(0,0),pybind11::arg(\"q\")=::n::P{0,0})"}, {0, ".sub|context.def(\"red\",pybind11::overload_cast<int,int>(&::n::red),\"\",pybind11::arg(\"a\")=::n::answer,pybind11::arg(\"b\")=7)"}, {0, ".sub|context.def(\"red2\",pybind11::overload_cast<int,int,int>(&::n::red2),\"\",pybind11::arg(\"a\")=1,pybind11::arg(\"b\")=2,pybind11::arg(\"c\")=3)"}, {0, ".sub|context.def(\"red3\",pybind11::overload_cast<int,::n::Color>(&::n::red3),\"\",pybind11::arg(\"a\")=::glob,pybind11::arg(\"b\")=::n::Color::green)"}, {0, ".sub|context.def(\"red4\",pybind11::overload_cast<char,int>(&::n::red4<char>),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=sizeof(char))"}, {0, ".sub.Color|context.value(\"red\",::n::Color::red)"}, {0, ".sub.Color|context.value(\"green\",::n::Color::green)"}, {0, ".sub.Flag|context.value(\"on\",::n::Flag::on)"}, {0, ".sub.Flag|context.value(\"off\",::n::Flag::off)"}, {0, ".sub.Flag|context.export_values()"}, {0, ".sub.P|context.def_readwrite(\"x\",&::n::P::x)"}, {0, ".sub.P|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.P|context.def(pybind11::init<int,int>(),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\")=2)"}, {0, ".sub.P|context.def_static(\"make\",pybind11::overload_cast<int>(&::n::P::make),\"\",pybind11::arg(\"v\")=::n::P::lim)"}, {0, ".sub.P|context.def_static(\"origin\",pybind11::overload_cast<>(&::n::P::origin),\"\")"}, {0, ".sub.P|context.def(\"get\",pybind11::overload_cast<int>(&::n::P::get,pybind11::const_),\"\",pybind11::arg(\"d\")=1)"}, {0, ".sub.P|context.def(\"__add__\",[](const::n::P&lhs,const::n::P&rhs)->::n::P{returnlhs+rhs;},\"\",pybind11::is_operator())"}, {0, ".sub.P|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::P::operator(),pybind11::const_),\"\",pybind11::arg(\"i\")=::n::P::lim)"}, {0, ".sub.P.Mode|context.value(\"slow\",::n::P::Mode::slow)"}, {0, ".sub.P.Mode|context.value(\"fast\",::n::P::Mode::fast)"}, {0, ".sub.P.Mode|context.export_values()"}, {0, ".sub.P.In|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.P.In|context.def(pybind11::init<const::n::P::In&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Agg|context.def(pybind11::init<const::n::Agg&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Agg|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Agg|context.def_readwrite(\"a\",&::n::Agg::a)"}, {0, ".sub.Agg|context.def_readwrite(\"p\",&::n::Agg::p)"}, {0, ".sub|context.def(\"f\",pybind11::overload_cast<>(&::n::m::f),\"\")"}, {0, ".sub.Q|context.def(pybind11::init<const::n::m::Q&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Q|context.def_readwrite(\"v\",&::n::m::Q::v)"}, {0, ".sub.Q|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Q|context.def(pybind11::init<int>(),\"\",pybind11::arg(\"v\"))"}, {0, ".sub.Q|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::m::Q::operatorint,pybind11::const_),\"\")"}, {0, ".sub.K|context.def(pybind11::init<const::n::K&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.K|context.def_static(\"sf\",pybind11::overload_cast<>(&::n::K::sf),\"\")"}, {0, ".sub.K|context.def(pybind11::init<int,::n::K::E,::n::K::N>(),\"\",pybind11::arg(\"a\")=::n::K::own,pybind11::arg(\"b\")=::n::K::e1,pybind11::arg(\"c\")=::n::K::N())"}, {0, ".sub.K|context.def(\"me\",pybind11::overload_cast<int,::n::K::E,int,::n::K::N,int,::n::K::N>(&::n::K::me,pybind11::const_),\"\",pybind11::arg(\"a\")=::n::K::own,pybind11::arg(\"b\")=::n::K::e0,pybind11::arg(\"c\")=::n::K::sf(),pybind11::arg(\"d\")=::n::K::N{},pybind11::arg(\"e\")=::n::answer,pybind11::arg(\"f\")=::n::K::N{})"}, {0, ".sub.K|context.def_static(\"se\",pybind11::overload_cast<int,::n::K*,::n::K*>(&::n::K::se),\"\",pybind11::arg(\"a\")=::n::K::own,pybind11::arg(\"b\")=nullptr,pybind11::arg(\"c\")=nullptr)"}, {0, ".sub.K.E|context.value(\"e0\",::n::K::E::e0)"}, {0, ".sub.K.E|context.value(\"e1\",::n::K::E::e1)"}, {0, ".sub.K.E|context.export_values()"}, {0, ".sub.K.N|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.K.N|context.def(pybind11::init<const::n::K::N&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.K.N|context.def_readwrite(\"i\",&::n::K::N::i)"}, {0, ".sub.T1d|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.T1d|context.def(pybind11::init<const::n::T1<double>&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.T1d|context.def(\"get\",pybind11::overload_cast<double,double,int,int,int,::n::P>(&::n::T1<double>::get),\"\",pybind11::arg(\"a\")=double(),pybind11::arg(\"b\")=double(::n::answer),pybind11::arg(\"c\")=sizeof(double),pybind11::arg(\"d\")=::n::T1<double>::k,pybind11::arg(\"e\")=::n::T1<double>::k,pybind11::arg(\"f\")=::n::P(1))"}, {0, ".sub.T1_int_|context.def(\"get\",pybind11::overload_cast<int,int,int,int,int,::n::P>(&::n::T1<int>::get),\"\",pybind11::arg(\"a\")=int(),pybind11::arg(\"b\")=int(::n::answer),pybind11::arg(\"c\")=sizeof(int),pybind11::arg(\"d\")=::n::T1<int>::k,pybind11::arg(\"e\")=::n::T1<int>::k,pybind11::arg(\"f\")=::n::P(1))"}, {0, ".sub.T1_int_|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.T1_int_|context.def(pybind11::init<const::n::T1<int>&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.TM|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.TM|context.def(pybind11::init<const::n::TM&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.TM|context.def(\"mt\",pybind11::overload_cast<>(&::n::TM::mt<n::m::Q>,pybind11::const_),\"\")"}, {0, ".sub.TM|context.def_static(\"st\",pybind11::overload_cast<>(&::n::TM::st<n::P::In>),\"\")"}, {0, ".sub.I|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.I|context.def(pybind11::init<const::n::I&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.I|context.def_readwrite(\"i\",&::n::I::i)"}, {0, ".sub.Base|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Base|context.def(pybind11::init<const::n::Base&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Base|context.def_readwrite(\"m\",&::n::Base::m)"}, {0, ".sub.Der|context.def_readonly_static(\"pp\",&::n::Base::pp)"}, {0, ".sub.Der|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Der|context.def(pybind11::init<const::n::Der&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Der|context.def(\"f\",pybind11::overload_cast<int,int>(&::n::Der::f),\"\",pybind11::arg(\"a\")=::n::Base::bb,pybind11::arg(\"b\")=::n::Base::bb)"}, {0, ".sub.Der|context.def(\"g\",pybind11::overload_cast<int>(&::n::Der::g),\"\",pybind11::arg(\"a\")=::n::Der::pp)"}, {0, ".sub.Sc_unsigned_long_|context.def(\"f\",pybind11::overload_cast<unsignedlong,unsignedlong,unsignedlong,int,constunsignedlong&>(&::n::Sc<unsignedlong>::f),\"\",pybind11::arg(\"a\")=((unsignedlong)(0)),pybind11::arg(\"b\")=((unsignedlong)(0)),pybind11::arg(\"c\")=((unsignedlong)(0)),pybind11::arg(\"d\")=((unsignedlong)(0))==((unsignedlong)(0))?1:2,pybind11::arg(\"e\")=((unsignedlong)(::n::answer-42)))"}, {0, ".sub.Sc_unsigned_long_|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Sc_unsigned_long_|context.def(pybind11::init<const::n::Sc<unsignedlong>&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Sc_short_|context.def(\"f\",pybind11::overload_cast<short,short,short,int,constshort&>(&::n::Sc<short>::f),\"\",pybind11::arg(\"a\")=short(),pybind11::arg(\"b\")=short{},pybind11::arg(\"c\")=short(0),pybind11::arg(\"d\")=short()==short{}?1:2,pybind11::arg(\"e\")=short(::n::answer-42))"}, {0, ".sub.Sc_short_|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Sc_short_|context.def(pybind11::init<const::n::Sc<short>&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Pt_n_P_|context.def(\"f\",pybind11::overload_cast<n::P*,n::P*,n::P*,n::P*const&,int>(&::n::Pt<n::P*>::f),\"\",pybind11::arg(\"a\")=((n::P*)(nullptr)),pybind11::arg(\"b\")=((n::P*)(nullptr)),pybind11::arg(\"c\")=((n::P*)(nullptr)),pybind11::arg(\"d\")=((n::P*)(nullptr)),pybind11::arg(\"e\")=((n::P*)(0))==nullptr)"}, {0, ".sub.Pt_n_P_|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Pt_n_P_|context.def(pybind11::init<const::n::Pt<::n::P*>&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Pt_int_n_P_|context.def(\"f\",pybind11::overload_cast<intn::P::*,intn::P::*,intn::P::*,intn::P::*const&,int>(&::n::Pt<intn::P::*>::f),\"\",pybind11::arg(\"a\")=((intn::P::*)(nullptr)),pybind11::arg(\"b\")=((intn::P::*)(nullptr)),pybind11::arg(\"c\")=((intn::P::*)(nullptr)),pybind11::arg(\"d\")=((intn::P::*)(nullptr)),pybind11::arg(\"e\")=((intn::P::*)(0))==nullptr)"}, {0, ".sub.Pt_int_n_P_|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Pt_int_n_P_|context.def(pybind11::init<const::n::Pt<int::n::P::*>&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Pt_void_int_|context.def(\"f\",pybind11::overload_cast<void(*)(int),void(*)(int),void(*)(int),void(*const&)(int),int>(&::n::Pt<void(*)(int)>::f),\"\",pybind11::arg(\"a\")=((void(*)(int))(nullptr)),pybind11::arg(\"b\")=((void(*)(int))(nullptr)),pybind11::arg(\"c\")=((void(*)(int))(nullptr)),pybind11::arg(\"d\")=((void(*)(int))(nullptr)),pybind11::arg(\"e\")=((void(*)(int))(0))==nullptr)"}, {0, ".sub.Pt_void_int_|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Pt_void_int_|context.def(pybind11::init<const::n::Pt<void(*)(int)>&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Pg_n_P_|context.def(\"f\",pybind11::overload_cast<n::P*,n::P*,int>(&::n::Pg<n::P*>::f),\"\",pybind11::arg(\"a\")=((n::P*)(&::n::gp)),pybind11::arg(\"b\")=((n::P*)(&::n::gp)),pybind11::arg(\"c\")=((n::P*)(&::n::gp))->::n::P::x)"}, {0, ".sub.Pg_n_P_|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Pg_n_P_|context.def(pybind11::init<const::n::Pg<::n::P*>&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Re|context.def(pybind11::init<const::n::Re&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Re|context.def(\"m\",pybind11::overload_cast<int,int>(&::n::Re::m),\"\",pybind11::arg(\"a\")=::n::answer,pybind11::arg(\"b\")=::n::P::lim)"}, {0, ".sub.Re|context.def_static(\"s\",pybind11::overload_cast<int,int>(&::n::Re::s),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=4)"}, {0, ".sub.Re|context.def(pybind11::init<int,int>(),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=6)"}, {0, ".sub.Re.In|context.def(pybind11::init<>(),\"\")"}, {0, ".sub.Re.In|context.def(pybind11::init<const::n::Re::In&>(),\"\",pybind11::arg(\"\"))"}, {0, ".sub.Re.In|context.def(\"m\",pybind11::overload_cast<int>(&::n::Re::In::m),\"\",pybind11::arg(\"a\")=::n::answer)"}}}}},
  {"calls", 0, {nullptr, "hidden", "required(a)"}, {
    {false, {}, {}},
    {false, {24}, {}},
    {false, {24}, {{24, "|context.def(\"calls\",pybind11::overload_cast<int,int>(&::n::calls),\"\",pybind11::arg(\"a\").none(false),pybind11::arg(\"b\")=::n::answer)"}}}}},
  {"make", 0, {nullptr, "noconvert(v)", "expose_as(made)"}, {
    {false, {}, {}},
    {false, {62}, {{62, ".P|context.def_static(\"make\",pybind11::overload_cast<int>(&::n::P::make),\"\",pybind11::arg(\"v\").noconvert()=::n::P::lim)"}}},
    {false, {62}, {{62, ".P|context.def_static(\"made\",pybind11::overload_cast<int>(&::n::P::make),\"\",pybind11::arg(\"v\")=::n::P::lim)"}}}}},
  {"call", 0, {nullptr, "expose_as(run)", "hidden"}, {
    {false, {}, {}},
    {false, {66}, {{66, ".P|context.def(\"run\",pybind11::overload_cast<int>(&::n::P::operator(),pybind11::const_),\"\",pybind11::arg(\"i\")=::n::P::lim)"}}},
    {false, {66}, {}}}},
  {"literals", 0, {nullptr, "noconvert(v, s), required(t)", "hidden", "expose_as(other)"}, {
    {false, {}, {}},
    {false, {26}, {{26, "|context.def(\"literals\",pybind11::overload_cast<int,long,unsignedlonglong,char,char,double,float,constchar*,constchar*,bool,int,int,bool>(&::n::literals),\"\",pybind11::arg(\"v\").noconvert()=1,pybind11::arg(\"w\")=2L,pybind11::arg(\"z\")=3ULL,pybind11::arg(\"c\")='x',pybind11::arg(\"d\")='\\'',pybind11::arg(\"g\")=1.5,pybind11::arg(\"h\")=2.5F,pybind11::arg(\"s\").noconvert()=\"a\\\"b\\\\c\\n\",pybind11::arg(\"cat\")=\"ab\",pybind11::arg(\"t\").none(false)=true,pybind11::arg(\"neg\")=-3,pybind11::arg(\"inv\")=~5,pybind11::arg(\"nt\")=!true)"}}},
    {false, {26}, {}},
    {false, {26}, {{26, "|context.def(\"other\",pybind11::overload_cast<int,long,unsignedlonglong,char,char,double,float,constchar*,constchar*,bool,int,int,bool>(&::n::literals),\"\",pybind11::arg(\"v\")=1,pybind11::arg(\"w\")=2L,pybind11::arg(\"z\")=3ULL,pybind11::arg(\"c\")='x',pybind11::arg(\"d\")='\\'',pybind11::arg(\"g\")=1.5,pybind11::arg(\"h\")=2.5F,pybind11::arg(\"s\")=\"a\\\"b\\\\c\\n\",pybind11::arg(\"cat\")=\"ab\",pybind11::arg(\"t\")=true,pybind11::arg(\"neg\")=-3,pybind11::arg(\"inv\")=~5,pybind11::arg(\"nt\")=!true)"}}}}},
  {"pointers", 0, {nullptr, "required(a, b), noconvert(e)", "required(d)"}, {
    {false, {}, {}},
    {false, {27}, {{27, "|context.def(\"pointers\",pybind11::overload_cast<::n::P*,::n::P*,int*,constchar*,::n::P*,int*,::n::P*,int(*)(int,int),int::n::P::*>(&::n::pointers),\"\",pybind11::arg(\"a\").none(false)=nullptr,pybind11::arg(\"b\").none(false)=nullptr,pybind11::arg(\"c\")=nullptr,pybind11::arg(\"d\")=nullptr,pybind11::arg(\"e\").noconvert()=::n::gpp,pybind11::arg(\"f\")=::n::arr,pybind11::arg(\"g\")=(::n::P*)nullptr,pybind11::arg(\"fp\")=::n::calls,pybind11::arg(\"mp\")=&::n::P::x)"}}},
    {false, {27}, {{27, "|context.def(\"pointers\",pybind11::overload_cast<::n::P*,::n::P*,int*,constchar*,::n::P*,int*,::n::P*,int(*)(int,int),int::n::P::*>(&::n::pointers),\"\",pybind11::arg(\"a\")=nullptr,pybind11::arg(\"b\")=nullptr,pybind11::arg(\"c\")=nullptr,pybind11::arg(\"d\").none(false)=nullptr,pybind11::arg(\"e\")=::n::gpp,pybind11::arg(\"f\")=::n::arr,pybind11::arg(\"g\")=(::n::P*)nullptr,pybind11::arg(\"fp\")=::n::calls,pybind11::arg(\"mp\")=&::n::P::x)"}}}}},
  {"names", 0, {nullptr, "noconvert(a), noconvert(b)", "required(j)"}, {
    {false, {}, {}},
    {false, {28}, {{28, "|context.def(\"names\",pybind11::overload_cast<int,int,int,int,int,int,int,::n::P,::n::P,int>(&::n::names),\"\",pybind11::arg(\"a\").noconvert()=::n::answer,pybind11::arg(\"b\").noconvert()=::glob,pybind11::arg(\"c\")=::n::answer,pybind11::arg(\"d\")=::n::m::f(),pybind11::arg(\"e\")=::n::f(),pybind11::arg(\"g\")=::n::m::f(),pybind11::arg(\"h\")=::n::vt<int>,pybind11::arg(\"i\")=::n::gp,pybind11::arg(\"j\")=*::n::gpp,pybind11::arg(\"k\")=::n::arr[1])"}}},
    {false, {28}, {{28, "|context.def(\"names\",pybind11::overload_cast<int,int,int,int,int,int,int,::n::P,::n::P,int>(&::n::names),\"\",pybind11::arg(\"a\")=::n::answer,pybind11::arg(\"b\")=::glob,pybind11::arg(\"c\")=::n::answer,pybind11::arg(\"d\")=::n::m::f(),pybind11::arg(\"e\")=::n::f(),pybind11::arg(\"g\")=::n::m::f(),pybind11::arg(\"h\")=::n::vt<int>,pybind11::arg(\"i\")=::n::gp,pybind11::arg(\"j\").none(false)=*::n::gpp,pybind11::arg(\"k\")=::n::arr[1])"}}}}},
  {"enums", 0, {nullptr, "required(a, l)", "hidden"}, {
    {false, {}, {}},
    {false, {29}, {{29, "|context.def(\"enums\",pybind11::overload_cast<::n::Color,::n::Flag,::n::Flag,::n::Color,int,::n::P::Mode,::n::Color,::n::P::Mode,::n::Color,::n::Color,::n::Color,::n::Color>(&::n::enums),\"\",pybind11::arg(\"a\").none(false)=::n::Color::red,pybind11::arg(\"b\")=::n::on,pybind11::arg(\"c\")=::n::off,pybind11::arg(\"d\")=::n::Color::green,pybind11::arg(\"e\")=(int)::n::Color::green,pybind11::arg(\"g\")=::n::P::fast,pybind11::arg(\"h\")=::n::Color(),pybind11::arg(\"i\")=::n::P::Mode(),pybind11::arg(\"j\")=::n::Color{},pybind11::arg(\"k\")=::n::Color{},pybind11::arg(\"l\").none(false)=::n::Color(1),pybind11::arg(\"o\")=static_cast<::n::Color>(1))"}}},
    {false, {29}, {}}}},
  {"members", 0, {nullptr, "noconvert(a, q)"}, {
    {false, {}, {}},
    {false, {30}, {{30, "|context.def(\"members\",pybind11::overload_cast<int,int,int,int,int,int,int,int,int,int,int,int,int>(&::n::members),\"\",pybind11::arg(\"a\").noconvert()=::n::P::lim,pybind11::arg(\"b\")=::n::P::In::deep,pybind11::arg(\"d\")=::n::P::make(),pybind11::arg(\"e\")=::n::P::make(4),pybind11::arg(\"g\")=::n::P(1).::n::P::x,pybind11::arg(\"h\")=::n::P(1,2).::n::P::get(),pybind11::arg(\"i\")=::n::P().::n::P::get(3),pybind11::arg(\"j\")=(::n::P(1)+::n::P(2)).::n::P::x,pybind11::arg(\"k\")=::n::P()[2],pybind11::arg(\"l\")=::n::P()(5),pybind11::arg(\"o\")=::n::m::q0.::n::m::Q::v,pybind11::arg(\"p\")=::n::gpp->::n::P::x,pybind11::arg(\"q\").noconvert()=(*::n::gpp).::n::P::x)"}}}}},
  {"made", 0, {nullptr, "required(a), required(l)", "expose_as(other)"}, {
    {false, {}, {}},
    {false, {31}, {{31, "|context.def(\"made\",pybind11::overload_cast<::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P>(&::n::made),\"\",pybind11::arg(\"a\").none(false)=::n::P(),pybind11::arg(\"b\")=::n::P(1),pybind11::arg(\"c\")=::n::P(1,3),pybind11::arg(\"d\")=::n::P{},pybind11::arg(\"e\")=::n::P{1},pybind11::arg(\"g\")=::n::P{1,2},pybind11::arg(\"h\")=::n::P{},pybind11::arg(\"i\")=::n::P{1},pybind11::arg(\"j\")=::n::P::origin(),pybind11::arg(\"k\")=::n::P(::n::P(1)),pybind11::arg(\"l\").none(false)=::n::P(::n::P{2}))"}}},
    {false, {31}, {{31, "|context.def(\"other\",pybind11::overload_cast<::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P,::n::P>(&::n::made),\"\",pybind11::arg(\"a\")=::n::P(),pybind11::arg(\"b\")=::n::P(1),pybind11::arg(\"c\")=::n::P(1,3),pybind11::arg(\"d\")=::n::P{},pybind11::arg(\"e\")=::n::P{1},pybind11::arg(\"g\")=::n::P{1,2},pybind11::arg(\"h\")=::n::P{},pybind11::arg(\"i\")=::n::P{1},pybind11::arg(\"j\")=::n::P::origin(),pybind11::arg(\"k\")=::n::P(::n::P(1)),pybind11::arg(\"l\")=::n::P(::n::P{2}))"}}}}},
  {"aliases", 0, {nullptr, "noconvert(e)"}, {
    {false, {}, {}},
    {false, {32}, {{32, "|context.def(\"aliases\",pybind11::overload_cast<::n::m::Q,::n::m::Q,::n::Alias,::n::Alias,::n::m::Q,const::n::m::Q&>(&::n::aliases),\"\",pybind11::arg(\"a\")=::n::m::Q(),pybind11::arg(\"b\")=::n::m::Q(3),pybind11::arg(\"c\")=::n::Alias(4),pybind11::arg(\"d\")=::n::Alias{5},pybind11::arg(\"e\").noconvert()=::n::m::q0,pybind11::arg(\"g\")=::n::m::q0)"}}}}},
  {"aggregates", 0, {nullptr, "required(a, b)"}, {
    {false, {}, {}},
    {false, {33}, {{33, "|context.def(\"aggregates\",pybind11::overload_cast<::n::Agg,::n::Agg,::n::Agg,::n::Agg,::n::Agg,int>(&::n::aggregates),\"\",pybind11::arg(\"a\").none(false)=::n::Agg{1,{2,3}},pybind11::arg(\"b\").none(false)=::n::Agg{1,::n::P(2)},pybind11::arg(\"c\")=::n::Agg{},pybind11::arg(\"d\")=::n::Agg{},pybind11::arg(\"e\")=::n::Agg{1,{2}},pybind11::arg(\"f\")=::n::Agg{1,{2}}.::n::Agg::a)"}}}}},
  {"expressions", 0, {nullptr, "noconvert(c)"}, {
    {false, {}, {}},
    {false, {34}, {{34, "|context.def(\"expressions\",pybind11::overload_cast<int,int,int,bool,int,int,int,int,int,int,int>(&::n::expressions),\"\",pybind11::arg(\"a\")=1+2*3,pybind11::arg(\"b\")=(1+2)*3,pybind11::arg(\"c\").noconvert()=true?1:2,pybind11::arg(\"d\")=1<2&&3!=4,pybind11::arg(\"e\")=1<<3|4,pybind11::arg(\"g\")=::n::calls(1),pybind11::arg(\"h\")=::n::calls(1,2),pybind11::arg(\"i\")=::n::conv<int>(3),pybind11::arg(\"j\")=sizeof(::n::P),pybind11::arg(\"k\")=alignof(::n::m::Q),pybind11::arg(\"l\")=sizeof::n::answer)"}}}}},
  {"casts", 0, {nullptr, "required(h)"}, {
    {false, {}, {}},
    {false, {35}, {{35, "|context.def(\"casts\",pybind11::overload_cast<int,int,int,int,long,::n::P,::n::P,const::n::P*>(&::n::casts),\"\",pybind11::arg(\"a\")=(int)2.5,pybind11::arg(\"b\")=int(3.5),pybind11::arg(\"c\")=static_cast<int>(4.5),pybind11::arg(\"d\")=int{5},pybind11::arg(\"e\")=long(::n::m::Q(3)),pybind11::arg(\"g\")=static_cast<::n::P>(3),pybind11::arg(\"h\").none(false)=(::n::P)5,pybind11::arg(\"i\")=const_cast<const::n::P*>(::n::gpp))"}}}}},
  {"ctor", 0, {nullptr, "noconvert(a), required(c)", "hidden"}, {
    {false, {}, {}},
    {false, {84}, {{84, ".K|context.def(pybind11::init<int,::n::K::E,::n::K::N>(),\"\",pybind11::arg(\"a\").noconvert()=::n::K::own,pybind11::arg(\"b\")=::n::K::e1,pybind11::arg(\"c\").none(false)=::n::K::N())"}}},
    {false, {84}, {}}}},
  {"me", 0, {nullptr, "required(d)"}, {
    {false, {}, {}},
    {false, {85}, {{85, ".K|context.def(\"me\",pybind11::overload_cast<int,::n::K::E,int,::n::K::N,int,::n::K::N>(&::n::K::me,pybind11::const_),\"\",pybind11::arg(\"a\")=::n::K::own,pybind11::arg(\"b\")=::n::K::e0,pybind11::arg(\"c\")=::n::K::sf(),pybind11::arg(\"d\").none(false)=::n::K::N{},pybind11::arg(\"e\")=::n::answer,pybind11::arg(\"f\")=::n::K::N{})"}}}}},
  {"se", 0, {nullptr, "required(b, c)"}, {
    {false, {}, {}},
    {false, {86}, {{86, ".K|context.def_static(\"se\",pybind11::overload_cast<int,::n::K*,::n::K*>(&::n::K::se),\"\",pybind11::arg(\"a\")=::n::K::own,pybind11::arg(\"b\").none(false)=nullptr,pybind11::arg(\"c\").none(false)=nullptr)"}}}}},
  {"tid", 0, {"expose_here", "visible", nullptr}, {
    {false, {}, {}},
    {false, {10, 93, 94, 95}, {{10, "|class<::n::T1<double>>(\"T1_double_\")"}, {36, "|context.attr(\"T1d\")=::genpybind::getObjectForType<::n::T1<double>>()"}, {93, ".T1_double_|context.def(pybind11::init<>(),\"\")"}, {93, ".T1_double_|context.def(pybind11::init<const::n::T1<double>&>(),\"\",pybind11::arg(\"\"))"}, {93, ".T1_double_|context.def(\"get\",pybind11::overload_cast<double,double,int,int,int,::n::P>(&::n::T1<double>::get),\"\",pybind11::arg(\"a\")=double(),pybind11::arg(\"b\")=double(::n::answer),pybind11::arg(\"c\")=sizeof(double),pybind11::arg(\"d\")=::n::T1<double>::k,pybind11::arg(\"e\")=::n::T1<double>::k,pybind11::arg(\"f\")=::n::P(1))"}}},
    {false, {10, 93, 94, 95}, {}}}},
  {"tf", 0, {nullptr, "noconvert(a)"}, {
    {false, {}, {}},
    {false, {36}, {{36, "|context.def(\"tf\",pybind11::overload_cast<long,int,long>(&::n::tf<long>),\"\",pybind11::arg(\"a\").noconvert()=long(3),pybind11::arg(\"b\")=sizeof(long),pybind11::arg(\"c\")=::n::vt<long>)"}}}}},
  {"anonymous", 0, {nullptr, "required(y), noconvert(z)"}, {
    {false, {}, {}},
    {false, {37}, {{37, "|context.def(\"anonymous\",pybind11::overload_cast<int,int,int>(&::n::anonymous),\"\",pybind11::arg(\"x\")=::n::gu.a,pybind11::arg(\"y\").none(false)=::n::gup->c,pybind11::arg(\"z\").noconvert()=::n::gu.d)"}}}}},
  {"lambdas", 0, {nullptr, "noconvert(h)"}, {
    {false, {}, {}},
    {false, {38}, {{38, "|context.def(\"lambdas\",pybind11::overload_cast<int(*)(int),int(*)(int)>(&::n::lambdas),\"\",pybind11::arg(\"g\")=[](intx){returnx;},pybind11::arg(\"h\").noconvert()=[](intx)->int{if(x>1)returnx+::n::answer;return-x*::glob;})"}}}}},
  {"targs", 0, {nullptr, "required(a, e)"}, {
    {false, {}, {}},
    {false, {39}, {{39, "|context.def(\"targs\",pybind11::overload_cast<int,int,int,int,int>(&::n::targs),\"\",pybind11::arg(\"a\").none(false)=::n::ft<::n::P>(),pybind11::arg(\"b\")=::n::ft<::n::P,3>(),pybind11::arg(\"c\")=::n::TM().::n::TM::mt<::n::m::Q>(),pybind11::arg(\"d\")=::n::TM::st<::n::P::In>(),pybind11::arg(\"e\").none(false)=::n::ft<int*>(2))"}}}}},
  {"braces", 0, {nullptr, "noconvert(v)"}, {
    {false, {}, {}},
    {false, {40}, {{40, "|context.def(\"braces\",pybind11::overload_cast<int,::n::Agg,::n::Agg>(&::n::braces),\"\",pybind11::arg(\"x\")=::n::vv(::n::Agg{1,2}),pybind11::arg(\"v\").noconvert()=::n::Agg{::n::vv({1,2}),{3}},pybind11::arg(\"w\")=::n::Agg{::n::vv(::n::Agg{1,::n::P(2)}),::n::P{::n::vv({3,{4}})}})"}}}}},
  {"inlined", 0, {nullptr, "noconvert(c)"}, {
    {false, {}, {}},
    {false, {41}, {{41, "|context.def(\"inlined\",pybind11::overload_cast<::n::I,int,::n::I>(&::n::inlined),\"\",pybind11::arg(\"i\")=::n::I{1},pybind11::arg(\"c\").noconvert()=::n::ic,pybind11::arg(\"j\")=::n::I())"}}}}},
  {"df", 0, {nullptr, "required(b)"}, {
    {false, {}, {}},
    {false, {112}, {{112, ".Der|context.def(\"f\",pybind11::overload_cast<int,int>(&::n::Der::f),\"\",pybind11::arg(\"a\")=::n::Base::bb,pybind11::arg(\"b\").none(false)=::n::Base::bb)"}}}}},
  {"dg", 0, {nullptr, "noconvert(a)"}, {
    {false, {}, {}},
    {false, {113}, {{113, ".Der|context.def(\"g\",pybind11::overload_cast<int>(&::n::Der::g),\"\",pybind11::arg(\"a\").noconvert()=::n::Der::pp)"}}}}},
  {"inherited", 0, {nullptr, "required(y)"}, {
    {false, {}, {}},
    {false, {42}, {{42, "|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::inherited),\"\",pybind11::arg(\"x\")=::n::gd.::n::Base::m,pybind11::arg(\"y\").none(false)=::n::gd.::n::Base::m)"}}}}},
  {"strings", 0, {nullptr, "required(w, u)"}, {
    {false, {}, {}},
    {false, {43}, {{43, "|context.def(\"strings\",pybind11::overload_cast<constwchar_t*,constchar*,constchar*,char32_t,constchar*,char>(&::n::strings),\"\",pybind11::arg(\"w\").none(false)=L\"abc\",pybind11::arg(\"u\").none(false)=u8\"abc\",pybind11::arg(\"r\")=\"a\\\"b\",pybind11::arg(\"c\")=U'x',pybind11::arg(\"z\")=\"a\\tb??=\",pybind11::arg(\"d\")='\\n')"}}}}},
  {"numbers", 0, {nullptr, "required(a, j), noconvert(l)"}, {
    {false, {}, {}},
    {false, {44}, {{44, "|context.def(\"numbers\",pybind11::overload_cast<double,double,float,double,longdouble,double,int,unsignedint,longlong,int,int,unsignedchar,short,signedchar>(&::n::numbers),\"\",pybind11::arg(\"a\").none(false)=1.0000000000000001E+300,pybind11::arg(\"b\")=0.5,pybind11::arg(\"c\")=1.F,pybind11::arg(\"d\")=8.,pybind11::arg(\"e\")=1.L,pybind11::arg(\"f\")=9.9999999999999995E-8,pybind11::arg(\"g\")=2147483647,pybind11::arg(\"h\")=4294967295U,pybind11::arg(\"i\")=-9223372036854775807LL-1,pybind11::arg(\"j\").none(false)=3,pybind11::arg(\"k\")=1000,pybind11::arg(\"l\").noconvert()=255,pybind11::arg(\"o\")=3,pybind11::arg(\"p\")=-1)"}}}}},
  {"unnamed", 0, {nullptr, "noconvert(b)"}, {
    {false, {}, {}},
    {false, {45}, {{45, "|context.def(\"unnamed\",pybind11::overload_cast<int,unsignedint>(&::n::unnamed),\"\",pybind11::arg(\"a\")=::n::un0,pybind11::arg(\"b\").noconvert()=::n::un1)"}}}}},
  {"references", 0, {nullptr, "required(v, y)"}, {
    {false, {}, {}},
    {false, {46}, {{46, "|context.def(\"references\",pybind11::overload_cast<const::n::P&,::n::P&&,const::n::Agg&,const::n::P&>(&::n::references),\"\",pybind11::arg(\"v\").none(false)=::n::P{1,2},pybind11::arg(\"w\")=::n::P{},pybind11::arg(\"x\")=::n::Agg{},pybind11::arg(\"y\").none(false)=::n::P{3})"}}}}},
  {"operators", 0, {nullptr, "noconvert(a, h)"}, {
    {false, {}, {}},
    {false, {47}, {{47, "|context.def(\"operators\",pybind11::overload_cast<::n::P*,bool,int,int,bool,int,int>(&::n::operators),\"\",pybind11::arg(\"a\").noconvert()=&::n::gp,pybind11::arg(\"b\")=noexcept(::n::m::f()),pybind11::arg(\"c\")=(1,2),pybind11::arg(\"d\")=-::n::answer,pybind11::arg(\"e\")=!::n::answer,pybind11::arg(\"g\")=::n::arr[::n::answer-41],pybind11::arg(\"h\").noconvert()=::n::gup->a+::n::gu.c)"}}}}},
  {"refcasts", 0, {nullptr, "required(w), noconvert(x)"}, {
    {false, {}, {}},
    {false, {48}, {{48, "|context.def(\"refcasts\",pybind11::overload_cast<::n::P&,const::n::P&,::n::P&&,::n::P&,::n::Base&,::n::P&,int,::n::Der&,long>(&::n::refcasts),\"\",pybind11::arg(\"x\").noconvert()=const_cast<::n::P&>(::n::cp),pybind11::arg(\"y\")=static_cast<const::n::P&>(::n::gp),pybind11::arg(\"z\")=static_cast<::n::P&&>(::n::gp),pybind11::arg(\"w\").none(false)=(::n::P&)::n::cp,pybind11::arg(\"v\")=static_cast<::n::Base&>(::n::gd),pybind11::arg(\"u\")=::n::PR(::n::gp),pybind11::arg(\"k\")=static_cast<constint>(3),pybind11::arg(\"t\")=dynamic_cast<::n::Der&>(::n::gd),pybind11::arg(\"l\")=reinterpret_cast<long&>(::n::gp.::n::P::x))"}}}}},
  {"scf", 0, {nullptr, "noconvert(c)", "hidden"}, {
    {false, {}, {}},
    {false, {114, 117}, {{114, ".Sc_unsigned_long_|context.def(\"f\",pybind11::overload_cast<unsignedlong,unsignedlong,unsignedlong,int,constunsignedlong&>(&::n::Sc<unsignedlong>::f),\"\",pybind11::arg(\"a\")=((unsignedlong)(0)),pybind11::arg(\"b\")=((unsignedlong)(0)),pybind11::arg(\"c\").noconvert()=((unsignedlong)(0)),pybind11::arg(\"d\")=((unsignedlong)(0))==((unsignedlong)(0))?1:2,pybind11::arg(\"e\")=((unsignedlong)(::n::answer-42)))"}, {117, ".Sc_short_|context.def(\"f\",pybind11::overload_cast<short,short,short,int,constshort&>(&::n::Sc<short>::f),\"\",pybind11::arg(\"a\")=short(),pybind11::arg(\"b\")=short{},pybind11::arg(\"c\").noconvert()=short(0),pybind11::arg(\"d\")=short()==short{}?1:2,pybind11::arg(\"e\")=short(::n::answer-42))"}}},
    {false, {114, 117}, {}}}},
  {"scul", 0, {"visible", "hidden"}, {
    {false, {}, {}},
    {false, {16, 114, 115, 116}, {}}}},
  {"ptf", 0, {nullptr, "required(a)"}, {
    {false, {}, {}},
    {false, {120, 123, 126}, {{120, ".Pt_n_P_|context.def(\"f\",pybind11::overload_cast<n::P*,n::P*,n::P*,n::P*const&,int>(&::n::Pt<n::P*>::f),\"\",pybind11::arg(\"a\").none(false)=((n::P*)(nullptr)),pybind11::arg(\"b\")=((n::P*)(nullptr)),pybind11::arg(\"c\")=((n::P*)(nullptr)),pybind11::arg(\"d\")=((n::P*)(nullptr)),pybind11::arg(\"e\")=((n::P*)(0))==nullptr)"}, {123, ".Pt_int_n_P_|context.def(\"f\",pybind11::overload_cast<intn::P::*,intn::P::*,intn::P::*,intn::P::*const&,int>(&::n::Pt<intn::P::*>::f),\"\",pybind11::arg(\"a\").none(false)=((intn::P::*)(nullptr)),pybind11::arg(\"b\")=((intn::P::*)(nullptr)),pybind11::arg(\"c\")=((intn::P::*)(nullptr)),pybind11::arg(\"d\")=((intn::P::*)(nullptr)),pybind11::arg(\"e\")=((intn::P::*)(0))==nullptr)"}, {126, ".Pt_void_int_|context.def(\"f\",pybind11::overload_cast<void(*)(int),void(*)(int),void(*)(int),void(*const&)(int),int>(&::n::Pt<void(*)(int)>::f),\"\",pybind11::arg(\"a\").none(false)=((void(*)(int))(nullptr)),pybind11::arg(\"b\")=((void(*)(int))(nullptr)),pybind11::arg(\"c\")=((void(*)(int))(nullptr)),pybind11::arg(\"d\")=((void(*)(int))(nullptr)),pybind11::arg(\"e\")=((void(*)(int))(0))==nullptr)"}}}}},
  {"zeros", 0, {nullptr, "required(b), noconvert(k)"}, {
    {false, {}, {}},
    {false, {49}, {{49, "|context.def(\"zeros\",pybind11::overload_cast<::n::P,::n::P,::n::P,int,::n::Agg,bool,int,::n::P,double,char,::n::P,::n::P,int,::n::P>(&::n::zeros),\"\",pybind11::arg(\"a\")=::n::P(0,1),pybind11::arg(\"b\").none(false)=::n::P(0),pybind11::arg(\"c\")=::n::P{0,0},pybind11::arg(\"d\")=::n::calls(0),pybind11::arg(\"e\")=::n::Agg{0,::n::P(0)},pybind11::arg(\"f\")=false,pybind11::arg(\"g\")=int(0),pybind11::arg(\"h\")=::n::P(::n::answer,0),pybind11::arg(\"i\")=0.,pybind11::arg(\"j\")='\\x00',pybind11::arg(\"k\").noconvert()=::n::P(2,2),pybind11::arg(\"l\")=::n::P{0},pybind11::arg(\"o\")=::n::calls(0,0),pybind11::arg(\"q\")=::n::P{0,0})"}}}}},
  {"red2", 0, {nullptr, "noconvert(b)", "required(a, c)"}, {
    {false, {}, {}},
    {false, {51}, {{51, "|context.def(\"red2\",pybind11::overload_cast<int,int,int>(&::n::red2),\"\",pybind11::arg(\"a\")=1,pybind11::arg(\"b\").noconvert()=2,pybind11::arg(\"c\")=3)"}}},
    {false, {51}, {{51, "|context.def(\"red2\",pybind11::overload_cast<int,int,int>(&::n::red2),\"\",pybind11::arg(\"a\").none(false)=1,pybind11::arg(\"b\")=2,pybind11::arg(\"c\").none(false)=3)"}}}}},
  {"res", 0, {nullptr, "noconvert(b)"}, {
    {false, {}, {}},
    {false, {134}, {{134, ".Re|context.def_static(\"s\",pybind11::overload_cast<int,int>(&::n::Re::s),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\").noconvert()=4)"}}}}},
}};
RegE R0({"C27.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
