// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace pybind11 { struct args {}; struct kwargs {}; struct object {}; }
enum Plain { P0, P1 };
namespace n GENPYBIND(visible) {
enum class Color { red, green };
struct Tag { static const int limit = 3; enum Mode { slow, fast }; };
constexpr int answer = 42;
int compute(int seed = answer);
// default arguments
void defaults(int a = 1, double b = -2.5, char const *c = "te\"xt", bool d = true, int *e = nullptr, Color f = Color::green, Tag::Mode g = Tag::fast, int h = Tag::limit, int i = answer, int j = compute(3), unsigned k = 1u << 3) GENPYBIND(__sel_defaults);
// default argument only on a later declaration, parameter renamed there
int late(int first, int second) GENPYBIND(__sel_late);
int late(int first, int second = 7);
// all parameters unnamed / some unnamed
void unnamed(int, double, int last) GENPYBIND(__sel_unnamed);
// references and pointers
int &refs(int &a, int const &b, int &&c, int *d, int const *const e) GENPYBIND(__sel_refs);
void va(int a, pybind11::args b, int c, pybind11::kwargs d) GENPYBIND(__sel_va);
using Args = pybind11::args; typedef pybind11::kwargs const &Kw;
void vc(int a, pybind11::args &&b, pybind11::kwargs &c) GENPYBIND(__sel_vc);
void vb(Args const &x, int y, Kw z) GENPYBIND(__sel_vb);
// same name, different signatures: settings belong to one overload only
void over(int x, int y) GENPYBIND(__sel_over1);
void over(double x, int y) GENPYBIND(__sel_over2);
void over(char x);
template <typename T> T tmpl(T x, int y = sizeof(T)) GENPYBIND(noconvert(x), keep_alive(y, return));
extern template int tmpl<int>(int, int);
extern template double tmpl<double>(double, int);
struct Base {
  void inherited(int a, int b = 2) GENPYBIND(__sel_inh);
  virtual int virt(int q) GENPYBIND(__sel_virt);
};
struct GENPYBIND(inline_base(Base)) Derived : Base {
  Derived(int a, int *b) GENPYBIND(__sel_ctor);
  int virt(int renamed) override;
  static int *stat(int *a, int b) GENPYBIND(__sel_stat);
  int method(int *a, int b) const GENPYBIND(__sel_meth);
  int operator()(int x, int *y = nullptr) GENPYBIND(__sel_call);
};
struct User : Base { using Base::inherited; };
}
)zoo";
const Zoo Z0{{
  "|enum<::n::Color>(\"Color\")",
  "|class<::n::Tag>(\"Tag\")",
  ".Tag|enum<::n::Tag::Mode>(\"Mode\")",
  "|class<::n::Base>(\"Base\")",
  "|class<::n::Derived>(\"Derived\")",
  "|class<::n::User,::n::Base>(\"User\")",
  "|context.attr(\"answer\")=::n::answer",
  "|context.def(\"compute\",pybind11::overload_cast<int>(&::n::compute),\"\",pybind11::arg(\"seed\")=::n::answer)",
  "|context.def(\"defaults\",pybind11::overload_cast<int,double,constchar*,bool,int*,::n::Color,::n::Tag::Mode,int,int,int,unsignedint>(&::n::defaults),\"\",pybind11::arg(\"a\")=1,pybind11::arg(\"b\")=-2.5,pybind11::arg(\"c\")=\"te\\\"xt\",pybind11::arg(\"d\")=true,pybind11::arg(\"e\")=nullptr,pybind11::arg(\"f\")=::n::Color::green,pybind11::arg(\"g\")=::n::Tag::fast,pybind11::arg(\"h\")=::n::Tag::limit,pybind11::arg(\"i\")=::n::answer,pybind11::arg(\"j\")=::n::compute(3),pybind11::arg(\"k\")=1U<<3)",
  "|context.def(\"late\",pybind11::overload_cast<int,int>(&::n::late),\"\",pybind11::arg(\"first\"),pybind11::arg(\"second\")=7)",
  "|context.def(\"unnamed\",pybind11::overload_cast<int,double,int>(&::n::unnamed),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"),pybind11::arg(\"last\"))",
  "|context.def(\"refs\",pybind11::overload_cast<int&,constint&,int&&,int*,constint*const>(&::n::refs),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::arg(\"c\"),pybind11::arg(\"d\"),pybind11::arg(\"e\"))",
  "|context.def(\"va\",pybind11::overload_cast<int,pybind11::args,int,pybind11::kwargs>(&::n::va),\"\",pybind11::arg(\"a\"),pybind11::arg(\"c\"))",
  "|context.def(\"vc\",pybind11::overload_cast<int,pybind11::args&&,pybind11::kwargs&>(&::n::vc),\"\",pybind11::arg(\"a\"))",
  "|context.def(\"vb\",pybind11::overload_cast<const::n::Args&,int,::n::Kw>(&::n::vb),\"\",pybind11::arg(\"y\"))",
  "|context.def(\"over\",pybind11::overload_cast<int,int>(&::n::over),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\"))",
  "|context.def(\"over\",pybind11::overload_cast<double,int>(&::n::over),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\"))",
  "|context.def(\"over\",pybind11::overload_cast<char>(&::n::over),\"\",pybind11::arg(\"x\"))",
  "|context.def(\"tmpl\",pybind11::overload_cast<int,int>(&::n::tmpl<int>),\"\",pybind11::arg(\"x\").noconvert(),pybind11::arg(\"y\")=sizeof(int),pybind11::keep_alive<2,0>())",
  "|context.def(\"tmpl\",pybind11::overload_cast<double,int>(&::n::tmpl<double>),\"\",pybind11::arg(\"x\").noconvert(),pybind11::arg(\"y\")=sizeof(double),pybind11::keep_alive<2,0>())",
  ".Color|context.value(\"red\",::n::Color::red)",
  ".Color|context.value(\"green\",::n::Color::green)",
  ".Tag|context.def(pybind11::init<>(),\"\")",
  ".Tag|context.def(pybind11::init<const::n::Tag&>(),\"\",pybind11::arg(\"\"))",
  ".Tag|context.def_readonly_static(\"limit\",&::n::Tag::limit)",
  ".Tag.Mode|context.value(\"slow\",::n::Tag::Mode::slow)",
  ".Tag.Mode|context.value(\"fast\",::n::Tag::Mode::fast)",
  ".Tag.Mode|context.export_values()",
  ".Base|context.def(pybind11::init<>(),\"\")",
  ".Base|context.def(pybind11::init<const::n::Base&>(),\"\",pybind11::arg(\"\"))",
  ".Base|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::Base::inherited),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=2)",
  ".Base|context.def(\"virt\",pybind11::overload_cast<int>(&::n::Base::virt),\"\",pybind11::arg(\"q\"))",
  ".Derived|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::Base::inherited),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=2)",
  ".Derived|context.def(pybind11::init<const::n::Derived&>(),\"\",pybind11::arg(\"\"))",
  ".Derived|context.def(pybind11::init<int,int*>(),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"))",
  ".Derived|context.def(\"virt\",pybind11::overload_cast<int>(&::n::Derived::virt),\"\",pybind11::arg(\"renamed\"))",
  ".Derived|context.def_static(\"stat\",pybind11::overload_cast<int*,int>(&::n::Derived::stat),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"))",
  ".Derived|context.def(\"method\",pybind11::overload_cast<int*,int>(&::n::Derived::method,pybind11::const_),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"))",
  ".Derived|context.def(\"__call__\",pybind11::overload_cast<int,int*>(&::n::Derived::operator()),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\")=nullptr)",
  ".User|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::Base::inherited),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\")=2)",
  ".User|context.def(pybind11::init<>(),\"\")",
  ".User|context.def(pybind11::init<const::n::User&>(),\"\",pybind11::arg(\"\"))"
}, {
  {"defaults", 0, {nullptr, "noconvert(a, k)", "required(e)", "noconvert(f), required(c, g), noconvert(h)"}, {
    {false, {}, {}},
    {false, {8}, {{8, "|context.def(\"defaults\",pybind11::overload_cast<int,double,constchar*,bool,int*,::n::Color,::n::Tag::Mode,int,int,int,unsignedint>(&::n::defaults),\"\",pybind11::arg(\"a\").noconvert()=1,pybind11::arg(\"b\")=-2.5,pybind11::arg(\"c\")=\"te\\\"xt\",pybind11::arg(\"d\")=true,pybind11::arg(\"e\")=nullptr,pybind11::arg(\"f\")=::n::Color::green,pybind11::arg(\"g\")=::n::Tag::fast,pybind11::arg(\"h\")=::n::Tag::limit,pybind11::arg(\"i\")=::n::answer,pybind11::arg(\"j\")=::n::compute(3),pybind11::arg(\"k\").noconvert()=1U<<3)"}}},
    {false, {8}, {{8, "|context.def(\"defaults\",pybind11::overload_cast<int,double,constchar*,bool,int*,::n::Color,::n::Tag::Mode,int,int,int,unsignedint>(&::n::defaults),\"\",pybind11::arg(\"a\")=1,pybind11::arg(\"b\")=-2.5,pybind11::arg(\"c\")=\"te\\\"xt\",pybind11::arg(\"d\")=true,pybind11::arg(\"e\").none(false)=nullptr,pybind11::arg(\"f\")=::n::Color::green,pybind11::arg(\"g\")=::n::Tag::fast,pybind11::arg(\"h\")=::n::Tag::limit,pybind11::arg(\"i\")=::n::answer,pybind11::arg(\"j\")=::n::compute(3),pybind11::arg(\"k\")=1U<<3)"}}},
    {false, {8}, {{8, "|context.def(\"defaults\",pybind11::overload_cast<int,double,constchar*,bool,int*,::n::Color,::n::Tag::Mode,int,int,int,unsignedint>(&::n::defaults),\"\",pybind11::arg(\"a\")=1,pybind11::arg(\"b\")=-2.5,pybind11::arg(\"c\").none(false)=\"te\\\"xt\",pybind11::arg(\"d\")=true,pybind11::arg(\"e\")=nullptr,pybind11::arg(\"f\").noconvert()=::n::Color::green,pybind11::arg(\"g\").none(false)=::n::Tag::fast,pybind11::arg(\"h\").noconvert()=::n::Tag::limit,pybind11::arg(\"i\")=::n::answer,pybind11::arg(\"j\")=::n::compute(3),pybind11::arg(\"k\")=1U<<3)"}}}}},
  {"late", 0, {nullptr, "noconvert(second)", "required(first), noconvert(first)"}, {
    {false, {}, {}},
    {false, {9}, {{9, "|context.def(\"late\",pybind11::overload_cast<int,int>(&::n::late),\"\",pybind11::arg(\"first\"),pybind11::arg(\"second\").noconvert()=7)"}}},
    {false, {9}, {{9, "|context.def(\"late\",pybind11::overload_cast<int,int>(&::n::late),\"\",pybind11::arg(\"first\").noconvert().none(false),pybind11::arg(\"second\")=7)"}}}}},
  {"unnamed", 0, {nullptr, "noconvert(last)", "noconvert(none)"}, {
    {false, {}, {}},
    {false, {10}, {{10, "|context.def(\"unnamed\",pybind11::overload_cast<int,double,int>(&::n::unnamed),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"),pybind11::arg(\"last\").noconvert())"}}},
    {true, {}, {}}}},
  {"refs", 0, {nullptr, "return_value_policy(reference), keep_alive(return, e), keep_alive(a, b)", "keep_alive(e, return), keep_alive(return, a), keep_alive(b, a), return_value_policy(copy)", "required(d), required(e), noconvert(d)", "required(a, b, c), noconvert(a, e)"}, {
    {false, {}, {}},
    {false, {11}, {{11, "|context.def(\"refs\",pybind11::overload_cast<int&,constint&,int&&,int*,constint*const>(&::n::refs),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::arg(\"c\"),pybind11::arg(\"d\"),pybind11::arg(\"e\"),pybind11::return_value_policy::reference,pybind11::keep_alive<0,5>(),pybind11::keep_alive<1,2>())"}}},
    {false, {11}, {{11, "|context.def(\"refs\",pybind11::overload_cast<int&,constint&,int&&,int*,constint*const>(&::n::refs),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::arg(\"c\"),pybind11::arg(\"d\"),pybind11::arg(\"e\"),pybind11::return_value_policy::copy,pybind11::keep_alive<5,0>(),pybind11::keep_alive<0,1>(),pybind11::keep_alive<2,1>())"}}},
    {false, {11}, {{11, "|context.def(\"refs\",pybind11::overload_cast<int&,constint&,int&&,int*,constint*const>(&::n::refs),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::arg(\"c\"),pybind11::arg(\"d\").noconvert().none(false),pybind11::arg(\"e\").none(false))"}}},
    {false, {11}, {{11, "|context.def(\"refs\",pybind11::overload_cast<int&,constint&,int&&,int*,constint*const>(&::n::refs),\"\",pybind11::arg(\"a\").noconvert().none(false),pybind11::arg(\"b\").none(false),pybind11::arg(\"c\").none(false),pybind11::arg(\"d\"),pybind11::arg(\"e\").noconvert())"}}}}},
  {"va", 0, {nullptr, "noconvert(c)", "keep_alive(c, a)", "required(c), noconvert(a)", "keep_alive(d, b)"}, {
    {false, {}, {}},
    {false, {12}, {{12, "|context.def(\"va\",pybind11::overload_cast<int,pybind11::args,int,pybind11::kwargs>(&::n::va),\"\",pybind11::arg(\"a\"),pybind11::arg(\"c\").noconvert())"}}},
    {false, {12}, {{12, "|context.def(\"va\",pybind11::overload_cast<int,pybind11::args,int,pybind11::kwargs>(&::n::va),\"\",pybind11::arg(\"a\"),pybind11::arg(\"c\"),pybind11::keep_alive<3,1>())"}}},
    {false, {12}, {{12, "|context.def(\"va\",pybind11::overload_cast<int,pybind11::args,int,pybind11::kwargs>(&::n::va),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"c\").none(false))"}}},
    {false, {12}, {{12, "|context.def(\"va\",pybind11::overload_cast<int,pybind11::args,int,pybind11::kwargs>(&::n::va),\"\",pybind11::arg(\"a\"),pybind11::arg(\"c\"),pybind11::keep_alive<4,2>())"}}}}},
  {"vc", 0, {nullptr, "noconvert(a)", "keep_alive(c, a)"}, {
    {false, {}, {}},
    {false, {13}, {{13, "|context.def(\"vc\",pybind11::overload_cast<int,pybind11::args&&,pybind11::kwargs&>(&::n::vc),\"\",pybind11::arg(\"a\").noconvert())"}}},
    {false, {13}, {{13, "|context.def(\"vc\",pybind11::overload_cast<int,pybind11::args&&,pybind11::kwargs&>(&::n::vc),\"\",pybind11::arg(\"a\"),pybind11::keep_alive<3,1>())"}}}}},
  {"vb", 0, {nullptr, "noconvert(y), keep_alive(z, y)"}, {
    {false, {}, {}},
    {false, {14}, {{14, "|context.def(\"vb\",pybind11::overload_cast<const::n::Args&,int,::n::Kw>(&::n::vb),\"\",pybind11::arg(\"y\").noconvert(),pybind11::keep_alive<3,2>())"}}}}},
  {"over1", 0, {nullptr, "noconvert(x)", "keep_alive(x, y)"}, {
    {false, {}, {}},
    {false, {15}, {{15, "|context.def(\"over\",pybind11::overload_cast<int,int>(&::n::over),\"\",pybind11::arg(\"x\").noconvert(),pybind11::arg(\"y\"))"}}},
    {false, {15}, {{15, "|context.def(\"over\",pybind11::overload_cast<int,int>(&::n::over),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\"),pybind11::keep_alive<1,2>())"}}}}},
  {"over2", 0, {nullptr, "noconvert(y)", "keep_alive(y, x)"}, {
    {false, {}, {}},
    {false, {16}, {{16, "|context.def(\"over\",pybind11::overload_cast<double,int>(&::n::over),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\").noconvert())"}}},
    {false, {16}, {{16, "|context.def(\"over\",pybind11::overload_cast<double,int>(&::n::over),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\"),pybind11::keep_alive<2,1>())"}}}}},
  {"inh", 0, {nullptr, "required(a)", "keep_alive(this, b), noconvert(b)"}, {
    {false, {}, {}},
    {false, {30, 32, 39}, {{30, ".Base|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::Base::inherited),\"\",pybind11::arg(\"a\").none(false),pybind11::arg(\"b\")=2)"}, {32, ".Derived|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::Base::inherited),\"\",pybind11::arg(\"a\").none(false),pybind11::arg(\"b\")=2)"}, {39, ".User|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::Base::inherited),\"\",pybind11::arg(\"a\").none(false),pybind11::arg(\"b\")=2)"}}},
    {false, {30, 32, 39}, {{30, ".Base|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::Base::inherited),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\").noconvert()=2,pybind11::keep_alive<1,3>())"}, {32, ".Derived|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::Base::inherited),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\").noconvert()=2,pybind11::keep_alive<1,3>())"}, {39, ".User|context.def(\"inherited\",pybind11::overload_cast<int,int>(&::n::Base::inherited),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\").noconvert()=2,pybind11::keep_alive<1,3>())"}}}}},
  {"virt", 0, {nullptr, "noconvert(q)"}, {
    {false, {}, {}},
    {false, {31}, {{31, ".Base|context.def(\"virt\",pybind11::overload_cast<int>(&::n::Base::virt),\"\",pybind11::arg(\"q\").noconvert())"}}}}},
  {"ctor", 0, {nullptr, "keep_alive(this, b), noconvert(a)", "keep_alive(b, a), keep_alive(b, this)", "required(b)"}, {
    {false, {}, {}},
    {false, {34}, {{34, ".Derived|context.def(pybind11::init<int,int*>(),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\"),pybind11::keep_alive<1,3>())"}}},
    {false, {34}, {{34, ".Derived|context.def(pybind11::init<int,int*>(),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::keep_alive<3,2>(),pybind11::keep_alive<3,1>())"}}},
    {false, {34}, {{34, ".Derived|context.def(pybind11::init<int,int*>(),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\").none(false))"}}}}},
  {"stat", 0, {nullptr, "keep_alive(return, a)", "keep_alive(b, a)", "keep_alive(a, this)"}, {
    {false, {}, {}},
    {false, {36}, {{36, ".Derived|context.def_static(\"stat\",pybind11::overload_cast<int*,int>(&::n::Derived::stat),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::keep_alive<0,1>())"}}},
    {false, {36}, {{36, ".Derived|context.def_static(\"stat\",pybind11::overload_cast<int*,int>(&::n::Derived::stat),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::keep_alive<2,1>())"}}},
    {true, {}, {}}}},
  {"meth", 0, {nullptr, "keep_alive(return, this), keep_alive(this, a), keep_alive(a, this)", "keep_alive(b, a), keep_alive(a, b)", "keep_alive(b, b), keep_alive(a, a)", "return_value_policy(take_ownership), keep_alive(this, return), required(b, a)", "noconvert(b, a), noconvert(a)"}, {
    {false, {}, {}},
    {false, {37}, {{37, ".Derived|context.def(\"method\",pybind11::overload_cast<int*,int>(&::n::Derived::method,pybind11::const_),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::keep_alive<0,1>(),pybind11::keep_alive<1,2>(),pybind11::keep_alive<2,1>())"}}},
    {false, {37}, {{37, ".Derived|context.def(\"method\",pybind11::overload_cast<int*,int>(&::n::Derived::method,pybind11::const_),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::keep_alive<3,2>(),pybind11::keep_alive<2,3>())"}}},
    {false, {37}, {{37, ".Derived|context.def(\"method\",pybind11::overload_cast<int*,int>(&::n::Derived::method,pybind11::const_),\"\",pybind11::arg(\"a\"),pybind11::arg(\"b\"),pybind11::keep_alive<3,3>(),pybind11::keep_alive<2,2>())"}}},
    {false, {37}, {{37, ".Derived|context.def(\"method\",pybind11::overload_cast<int*,int>(&::n::Derived::method,pybind11::const_),\"\",pybind11::arg(\"a\").none(false),pybind11::arg(\"b\").none(false),pybind11::return_value_policy::take_ownership,pybind11::keep_alive<1,0>())"}}},
    {false, {37}, {{37, ".Derived|context.def(\"method\",pybind11::overload_cast<int*,int>(&::n::Derived::method,pybind11::const_),\"\",pybind11::arg(\"a\").noconvert(),pybind11::arg(\"b\").noconvert())"}}}}},
  {"call", 0, {nullptr, "keep_alive(this, y), required(y)", "keep_alive(return, x), return_value_policy(move)"}, {
    {false, {}, {}},
    {false, {38}, {{38, ".Derived|context.def(\"__call__\",pybind11::overload_cast<int,int*>(&::n::Derived::operator()),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\").none(false)=nullptr,pybind11::keep_alive<1,3>())"}}},
    {false, {38}, {{38, ".Derived|context.def(\"__call__\",pybind11::overload_cast<int,int*>(&::n::Derived::operator()),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\")=nullptr,pybind11::return_value_policy::move,pybind11::keep_alive<0,2>())"}}}}},
}};
RegE R0({"C12.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
