// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
typedef const int CI; using VI = volatile int; typedef int AR[2]; typedef const int CAR[2]; template <typename T> using Id = T; template <typename T> struct Wrap { T v; T const c; static T s; }; template <typename T> struct Wm { mutable T mu; };
struct X { int x; };
struct GENPYBIND(__sel_f) F {
  int a GENPYBIND(__sel_a) ;
  int const b GENPYBIND(__sel_b) = 0;
  CI c = 1; VI d; volatile const int e = 2; mutable int f; Id<const int> g = 3; Id<CI> g2 = 3; const Id<int> g3 = 4;
  int *h; int const *i; int *const j = nullptr; int const *const k = nullptr;
  X l; const X m; const Wrap<int> o;
  static int q GENPYBIND(__sel_q); static const int r = 1; static constexpr int s = 2; static CI t; inline static int u = 0; static constexpr const char *v = "v";
  decltype(a) w; decltype(b) w2 = 0;
  void (*fp)(int); void (F::*mfp)(); int F::*mp; void (*const cfp)(int) = nullptr;
  enum E { ea } en; const E cen = ea; 
  int aa1, bb1;
  int multi1 GENPYBIND(__sel_m1), multi2 GENPYBIND(__sel_m2), multi3;
protected: int prot; int prot2 GENPYBIND(__sel_pr); static int sprot;
private: int priv; const int cpriv = 0;
};
class K { int hiddenByDefault; public: int shown; static int sshown; };
union Un { int ua; float ub GENPYBIND(__sel_un); const int uc; };
extern template struct GENPYBIND(__sel_wi) Wrap<int>;
extern template struct GENPYBIND(visible) Wm<int>;
extern template struct GENPYBIND(__sel_wc) Wrap<const char>;
extern int gv GENPYBIND(__sel_gv); extern const int gc; constexpr int gx = 1; inline int gi = 2; static int gs = 3; extern X xs; const X *px = nullptr; extern int gv; 
namespace s GENPYBIND(__sel_s) { extern int sv; }
struct GENPYBIND(__sel_d) D : X { int x; int y; };
struct D2 : X { using X::x; };
struct GENPYBIND(__sel_d3) D3 : D { };
}
extern int rootvar GENPYBIND(__sel_rv);
int n::F::q = 1; 
)zoo";
const Zoo Z0{{
  "|class<::n::X>(\"X\")",
  "|class<::n::F>(\"F\")",
  ".F|enum<::n::F::E>(\"E\")",
  "|class<::n::K>(\"K\")",
  "|class<::n::Un>(\"Un\")",
  "|class<::n::Wrap<int>>(\"Wrap_int_\")",
  "|class<::n::Wm<int>>(\"Wm_int_\")",
  "|class<::n::Wrap<constchar>>(\"Wrap_const_char_\")",
  "|class<::n::D,::n::X>(\"D\")",
  "|class<::n::D2,::n::X>(\"D2\")",
  "|class<::n::D3,::n::D>(\"D3\")",
  "|context.attr(\"gc\")=::n::gc",
  "|context.attr(\"gx\")=::n::gx",
  "|context.attr(\"gi\")=::n::gi",
  "|context.attr(\"gs\")=::n::gs",
  "|context.attr(\"xs\")=::n::xs",
  "|context.attr(\"px\")=::n::px",
  "|context.attr(\"gv\")=::n::gv",
  ".X|context.def(pybind11::init<const::n::X&>(),\"\",pybind11::arg(\"\"))",
  ".X|context.def(pybind11::init<>(),\"\")",
  ".X|context.def_readwrite(\"x\",&::n::X::x)",
  ".F|context.def(pybind11::init<const::n::F&>(),\"\",pybind11::arg(\"\"))",
  ".F|context.def_readwrite(\"a\",&::n::F::a)",
  ".F|context.def_readonly(\"b\",&::n::F::b)",
  ".F|context.def_readonly(\"c\",&::n::F::c)",
  ".F|context.def_readwrite(\"d\",&::n::F::d)",
  ".F|context.def_readonly(\"e\",&::n::F::e)",
  ".F|context.def_readwrite(\"f\",&::n::F::f)",
  ".F|context.def_readonly(\"g\",&::n::F::g)",
  ".F|context.def_readonly(\"g2\",&::n::F::g2)",
  ".F|context.def_readonly(\"g3\",&::n::F::g3)",
  ".F|context.def_readwrite(\"h\",&::n::F::h)",
  ".F|context.def_readwrite(\"i\",&::n::F::i)",
  ".F|context.def_readonly(\"j\",&::n::F::j)",
  ".F|context.def_readonly(\"k\",&::n::F::k)",
  ".F|context.def_readwrite(\"l\",&::n::F::l)",
  ".F|context.def_readonly(\"m\",&::n::F::m)",
  ".F|context.def_readonly(\"o\",&::n::F::o)",
  ".F|context.def_readonly_static(\"r\",&::n::F::r)",
  ".F|context.def_readonly_static(\"s\",&::n::F::s)",
  ".F|context.def_readonly_static(\"t\",&::n::F::t)",
  ".F|context.def_readwrite_static(\"u\",&::n::F::u)",
  ".F|context.def_readonly_static(\"v\",&::n::F::v)",
  ".F|context.def_readwrite(\"w\",&::n::F::w)",
  ".F|context.def_readonly(\"w2\",&::n::F::w2)",
  ".F|context.def_readwrite(\"fp\",&::n::F::fp)",
  ".F|context.def_readwrite(\"mfp\",&::n::F::mfp)",
  ".F|context.def_readwrite(\"mp\",&::n::F::mp)",
  ".F|context.def_readonly(\"cfp\",&::n::F::cfp)",
  ".F|context.def_readwrite(\"en\",&::n::F::en)",
  ".F|context.def_readonly(\"cen\",&::n::F::cen)",
  ".F|context.def_readwrite(\"aa1\",&::n::F::aa1)",
  ".F|context.def_readwrite(\"bb1\",&::n::F::bb1)",
  ".F|context.def_readwrite(\"multi1\",&::n::F::multi1)",
  ".F|context.def_readwrite(\"multi2\",&::n::F::multi2)",
  ".F|context.def_readwrite(\"multi3\",&::n::F::multi3)",
  ".F|context.def_readwrite_static(\"q\",&::n::F::q)",
  ".F.E|context.value(\"ea\",::n::F::E::ea)",
  ".F.E|context.export_values()",
  ".K|context.def(pybind11::init<>(),\"\")",
  ".K|context.def(pybind11::init<const::n::K&>(),\"\",pybind11::arg(\"\"))",
  ".K|context.def_readwrite(\"shown\",&::n::K::shown)",
  ".K|context.def_readwrite_static(\"sshown\",&::n::K::sshown)",
  ".Un|context.def(pybind11::init<>(),\"\")",
  ".Un|context.def(pybind11::init<const::n::Un&>(),\"\",pybind11::arg(\"\"))",
  ".Un|context.def_readwrite(\"ua\",&::n::Un::ua)",
  ".Un|context.def_readwrite(\"ub\",&::n::Un::ub)",
  ".Un|context.def_readonly(\"uc\",&::n::Un::uc)",
  ".Wrap_int_|context.def(pybind11::init<const::n::Wrap<int>&>(),\"\",pybind11::arg(\"\"))",
  ".Wrap_int_|context.def_readwrite(\"v\",&::n::Wrap<int>::v)",
  ".Wrap_int_|context.def_readonly(\"c\",&::n::Wrap<int>::c)",
  ".Wrap_int_|context.def_readwrite_static(\"s\",&::n::Wrap<int>::s)",
  ".Wm_int_|context.def_readwrite(\"mu\",&::n::Wm<int>::mu)",
  ".Wm_int_|context.def(pybind11::init<>(),\"\")",
  ".Wm_int_|context.def(pybind11::init<const::n::Wm<int>&>(),\"\",pybind11::arg(\"\"))",
  ".Wrap_const_char_|context.def_readonly(\"v\",&::n::Wrap<constchar>::v)",
  ".Wrap_const_char_|context.def_readonly(\"c\",&::n::Wrap<constchar>::c)",
  ".Wrap_const_char_|context.def_readonly_static(\"s\",&::n::Wrap<constchar>::s)",
  ".Wrap_const_char_|context.def(pybind11::init<const::n::Wrap<constchar>&>(),\"\",pybind11::arg(\"\"))",
  "|context.attr(\"sv\")=::n::s::sv",
  ".D|context.def(pybind11::init<>(),\"\")",
  ".D|context.def(pybind11::init<const::n::D&>(),\"\",pybind11::arg(\"\"))",
  ".D|context.def_readwrite(\"x\",&::n::D::x)",
  ".D|context.def_readwrite(\"y\",&::n::D::y)",
  ".D2|context.def_readwrite(\"x\",&::n::X::x)",
  ".D2|context.def(pybind11::init<>(),\"\")",
  ".D2|context.def(pybind11::init<const::n::D2&>(),\"\",pybind11::arg(\"\"))",
  ".D3|context.def(pybind11::init<>(),\"\")",
  ".D3|context.def(pybind11::init<const::n::D3&>(),\"\",pybind11::arg(\"\"))"
}, {
  {"f", 0, {nullptr, "hidden", "visible", "expose_as(FF)"}, {
    {false, {}, {}},
    {false, {1, 2, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58}, {}},
    {false, {}, {}},
    {false, {1, 2, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58}, {{1, "|class<::n::F>(\"FF\")"}, {1, ".FF|enum<::n::F::E>(\"E\")"}, {21, ".FF|context.def(pybind11::init<const::n::F&>(),\"\",pybind11::arg(\"\"))"}, {21, ".FF|context.def_readwrite(\"a\",&::n::F::a)"}, {21, ".FF|context.def_readonly(\"b\",&::n::F::b)"}, {21, ".FF|context.def_readonly(\"c\",&::n::F::c)"}, {21, ".FF|context.def_readwrite(\"d\",&::n::F::d)"}, {21, ".FF|context.def_readonly(\"e\",&::n::F::e)"}, {21, ".FF|context.def_readwrite(\"f\",&::n::F::f)"}, {21, ".FF|context.def_readonly(\"g\",&::n::F::g)"}, {21, ".FF|context.def_readonly(\"g2\",&::n::F::g2)"}, {21, ".FF|context.def_readonly(\"g3\",&::n::F::g3)"}, {21, ".FF|context.def_readwrite(\"h\",&::n::F::h)"}, {21, ".FF|context.def_readwrite(\"i\",&::n::F::i)"}, {21, ".FF|context.def_readonly(\"j\",&::n::F::j)"}, {21, ".FF|context.def_readonly(\"k\",&::n::F::k)"}, {21, ".FF|context.def_readwrite(\"l\",&::n::F::l)"}, {21, ".FF|context.def_readonly(\"m\",&::n::F::m)"}, {21, ".FF|context.def_readonly(\"o\",&::n::F::o)"}, {21, ".FF|context.def_readonly_static(\"r\",&::n::F::r)"}, {21, ".FF|context.def_readonly_static(\"s\",&::n::F::s)"}, {21, ".FF|context.def_readonly_static(\"t\",&::n::F::t)"}, {21, ".FF|context.def_readwrite_static(\"u\",&::n::F::u)"}, {21, ".FF|context.def_readonly_static(\"v\",&::n::F::v)"}, {21, ".FF|context.def_readwrite(\"w\",&::n::F::w)"}, {21, ".FF|context.def_readonly(\"w2\",&::n::F::w2)"}, {21, ".FF|context.def_readwrite(\"fp\",&::n::F::fp)"}, {21, ".FF|context.def_readwrite(\"mfp\",&::n::F::mfp)"}, {21, ".FF|context.def_readwrite(\"mp\",&::n::F::mp)"}, {21, ".FF|context.def_readonly(\"cfp\",&::n::F::cfp)"}, {21, ".FF|context.def_readwrite(\"en\",&::n::F::en)"}, {21, ".FF|context.def_readonly(\"cen\",&::n::F::cen)"}, {21, ".FF|context.def_readwrite(\"aa1\",&::n::F::aa1)"}, {21, ".FF|context.def_readwrite(\"bb1\",&::n::F::bb1)"}, {21, ".FF|context.def_readwrite(\"multi1\",&::n::F::multi1)"}, {21, ".FF|context.def_readwrite(\"multi2\",&::n::F::multi2)"}, {21, ".FF|context.def_readwrite(\"multi3\",&::n::F::multi3)"}, {21, ".FF|context.def_readwrite_static(\"q\",&::n::F::q)"}, {21, ".FF.E|context.value(\"ea\",::n::F::E::ea)"}, {21, ".FF.E|context.export_values()"}}}}},
  {"a", 0, {nullptr, "hidden", "readonly", "readonly(true)", "readonly(false)", "expose_as(aa)", "visible", "readonly, expose_as(ra)", "readonly(true), readonly(false)", "readonly, hidden", "visible(false)", "visible(default)"}, {
    {false, {}, {}},
    {false, {22}, {}},
    {false, {22}, {{22, ".F|context.def_readonly(\"a\",&::n::F::a)"}}},
    {false, {22}, {{22, ".F|context.def_readonly(\"a\",&::n::F::a)"}}},
    {false, {}, {}},
    {false, {22}, {{22, ".F|context.def_readwrite(\"aa\",&::n::F::a)"}}},
    {false, {}, {}},
    {false, {22}, {{22, ".F|context.def_readonly(\"ra\",&::n::F::a)"}}},
    {false, {}, {}},
    {false, {22}, {}},
    {false, {22}, {}},
    {false, {}, {}}}},
  {"b", 0, {nullptr, "hidden", "readonly(false)", "readonly", "expose_as(bb)"}, {
    {false, {}, {}},
    {false, {23}, {}},
    {false, {}, {}},
    {false, {}, {}},
    {false, {23}, {{23, ".F|context.def_readonly(\"bb\",&::n::F::b)"}}}}},
  {"q", 0, {nullptr, "hidden", "readonly", "readonly(false)", "expose_as(qq)"}, {
    {false, {}, {}},
    {false, {56}, {}},
    {false, {56}, {{56, ".F|context.def_readonly_static(\"q\",&::n::F::q)"}}},
    {false, {}, {}},
    {false, {56}, {{56, ".F|context.def_readwrite_static(\"qq\",&::n::F::q)"}}}}},
  {"m1", 0, {nullptr, "hidden", "readonly"}, {
    {false, {}, {}},
    {false, {53}, {}},
    {false, {53}, {{53, ".F|context.def_readonly(\"multi1\",&::n::F::multi1)"}}}}},
  {"m2", 0, {nullptr, "readonly"}, {
    {false, {}, {}},
    {false, {54}, {{54, ".F|context.def_readonly(\"multi2\",&::n::F::multi2)"}}}}},
  {"pr", 0, {nullptr, "visible", "readonly"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"un", 0, {nullptr, "readonly", "hidden"}, {
    {false, {}, {}},
    {false, {66}, {{66, ".Un|context.def_readonly(\"ub\",&::n::Un::ub)"}}},
    {false, {66}, {}}}},
  {"wi", 0, {"visible", "hidden", "expose_as(WI)"}, {
    {false, {}, {}},
    {false, {5, 68, 69, 70, 71}, {}},
    {false, {5, 68, 69, 70, 71}, {{5, "|class<::n::Wrap<int>>(\"WI\")"}, {68, ".WI|context.def(pybind11::init<const::n::Wrap<int>&>(),\"\",pybind11::arg(\"\"))"}, {68, ".WI|context.def_readwrite(\"v\",&::n::Wrap<int>::v)"}, {68, ".WI|context.def_readonly(\"c\",&::n::Wrap<int>::c)"}, {68, ".WI|context.def_readwrite_static(\"s\",&::n::Wrap<int>::s)"}}}}},
  {"wc", 0, {"visible", "hidden"}, {
    {false, {}, {}},
    {false, {7, 75, 76, 77, 78}, {}}}},
  {"gv", 0, {nullptr, "hidden", "expose_as(other)", "visible"}, {
    {false, {}, {}},
    {false, {17}, {}},
    {false, {17}, {{17, "|context.attr(\"other\")=::n::gv"}}},
    {false, {}, {}}}},
  {"s", 0, {nullptr, "module", "hidden"}, {
    {false, {}, {}},
    {false, {79}, {{8, "|submodule<>(\"s\")"}, {79, ".s|context.attr(\"sv\")=::n::s::sv"}}},
    {false, {79}, {}}}},
  {"d", 0, {nullptr, "inline_base", "hide_base", "hidden"}, {
    {false, {}, {}},
    {false, {8}, {{8, "|class<::n::D>(\"D\")"}}},
    {false, {8}, {{8, "|class<::n::D>(\"D\")"}}},
    {false, {8, 10, 80, 81, 82, 83}, {{10, "|class<::n::D3>(\"D3\")"}}}}},
  {"d3", 0, {nullptr, "inline_base"}, {
    {false, {}, {}},
    {false, {10}, {{10, "|class<::n::D3>(\"D3\")"}, {87, ".D3|context.def_readwrite(\"x\",&::n::D::x)"}, {87, ".D3|context.def_readwrite(\"y\",&::n::D::y)"}}}}},
  {"rv", 0, {nullptr, "visible", "expose_as(rv)", "hidden"}, {
    {false, {}, {}},
    {false, {}, {{11, "|context.attr(\"rootvar\")=::rootvar"}}},
    {false, {}, {{11, "|context.attr(\"rv\")=::rootvar"}}},
    {false, {}, {}}}},
}};
RegE R0({"C19.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
