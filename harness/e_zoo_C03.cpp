// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
// forward declarations and redeclarations
struct GENPYBIND(__sel_fwd) Fwd;
struct Fwd { int a; };
struct Late; struct GENPYBIND(__sel_late) Late { int a; };
void redecl(int); void redecl(int) GENPYBIND(__sel_redecl); void redecl(int);
void first() GENPYBIND(__sel_first); void first(); inline void first() {}
// definitions outside of their scope
struct Outer { struct Inner; enum class En : int; void m(); static int s; };
struct GENPYBIND(__sel_inner) Outer::Inner { int x; };
enum class GENPYBIND(__sel_en) Outer::En : int { a, b GENPYBIND(__sel_enb) };
inline void Outer::m() {}
// special members, deleted functions, templates, friends
struct Special {
  Special() GENPYBIND(__sel_spctor);
  Special(int) = delete;
  ~Special();
  void gone() = delete;
  operator int() const GENPYBIND(__sel_conv);
  template <typename T> void tm(T);
  friend void befriended(Special const &) {}
  friend struct Fwd;
  static_assert(true, "");
  int bits : 3 GENPYBIND(hidden);
protected:
  int prot GENPYBIND(__sel_prot);
  struct P1 { int x; };
  struct GENPYBIND(__sel_pvis) P2 { int x; };
  enum P3 { p3 };
private:
  void priv() GENPYBIND(__sel_priv);
public:
  void pub() GENPYBIND(__sel_pub);
};
// unnamed classes and enumerations
enum { loose0, loose1 };
struct GENPYBIND(__sel_holder) Holder { enum { in0 = 3 }; enum : char { in1 }; struct { int x; } s GENPYBIND(hidden); union { int q; float r; }; struct { struct Deep { int d; } e; } un GENPYBIND(hidden); int after GENPYBIND(__sel_after); };
template <typename T> void uninstantiated(T) GENPYBIND(visible);
template <typename T> struct Uninst { int x; };
template <typename T> struct Inst { T x; struct Nested { int y; }; void m(); };
extern template struct GENPYBIND(__sel_inst) Inst<int>;
template <> struct GENPYBIND(__sel_spec) Inst<char> { char other; };
template <typename T> constexpr T vt = T(1);
extern "C" { int ext_c() GENPYBIND(__sel_extc); struct GENPYBIND(__sel_ec) EC { int x; }; }
using Alias GENPYBIND(__sel_alias) = Fwd;
namespace Short = n;
}
namespace other {
struct GENPYBIND(__sel_em1) Em1 { int x; }; void em2() GENPYBIND(__sel_em2); enum GENPYBIND(__sel_em3) Em3 { em3 }; extern int em4 GENPYBIND(__sel_em4);
struct Plain { int x; };
void plain();
struct GENPYBIND(__sel_o1) O1 { int x; struct O2 { int y; }; enum O3 { o3 }; struct GENPYBIND(hidden) O4 {}; };
enum GENPYBIND(__sel_o5) O5 { o5a, o5b };
extern int var GENPYBIND(__sel_var);
namespace deep { namespace deeper { void f() GENPYBIND(__sel_deep); } }
}
namespace n GENPYBIND(visible) { void reopened(); namespace h GENPYBIND(hidden) { void hf(); struct GENPYBIND(__sel_hs) HS { void g(); }; } }
using n::Fwd;
using other::plain;
)zoo";
const Zoo Z0{{
  "|class<::n::Fwd>(\"Fwd\")",
  "|class<::n::Late>(\"Late\")",
  "|class<::n::Outer>(\"Outer\")",
  ".Outer|class<::n::Outer::Inner>(\"Inner\")",
  ".Outer|enum<::n::Outer::En>(\"En\")",
  "|class<::n::Special>(\"Special\")",
  "|class<::n::Holder>(\"Holder\")",
  "|class<::n::Inst<int>>(\"Inst_int_\")",
  ".Inst_int_|class<::n::Inst<int>::Nested>(\"Nested\")",
  "|class<::n::Inst<char>>(\"Inst_char_\")",
  "|class<::n::EC>(\"EC\")",
  "|context.def(\"redecl\",pybind11::overload_cast<int>(&::n::redecl),\"\",pybind11::arg(\"\"))",
  "|context.def(\"first\",pybind11::overload_cast<>(&::n::first),\"\")",
  "|context.def(\"ext_c\",pybind11::overload_cast<>(&::n::ext_c),\"\")",
  "|context.def(\"reopened\",pybind11::overload_cast<>(&::n::reopened),\"\")",
  ".Fwd|context.def(pybind11::init<>(),\"\")",
  ".Fwd|context.def(pybind11::init<const::n::Fwd&>(),\"\",pybind11::arg(\"\"))",
  ".Fwd|context.def_readwrite(\"a\",&::n::Fwd::a)",
  ".Late|context.def(pybind11::init<>(),\"\")",
  ".Late|context.def(pybind11::init<const::n::Late&>(),\"\",pybind11::arg(\"\"))",
  ".Late|context.def_readwrite(\"a\",&::n::Late::a)",
  ".Outer|context.def(pybind11::init<>(),\"\")",
  ".Outer|context.def(pybind11::init<const::n::Outer&>(),\"\",pybind11::arg(\"\"))",
  ".Outer|context.def_readwrite_static(\"s\",&::n::Outer::s)",
  ".Outer|context.def(\"m\",pybind11::overload_cast<>(&::n::Outer::m),\"\")",
  ".Outer.Inner|context.def(pybind11::init<>(),\"\")",
  ".Outer.Inner|context.def(pybind11::init<const::n::Outer::Inner&>(),\"\",pybind11::arg(\"\"))",
  ".Outer.Inner|context.def_readwrite(\"x\",&::n::Outer::Inner::x)",
  ".Outer.En|context.value(\"a\",::n::Outer::En::a)",
  ".Outer.En|context.value(\"b\",::n::Outer::En::b)",
  ".Special|context.def(pybind11::init<const::n::Special&>(),\"\",pybind11::arg(\"\"))",
  ".Special|context.def(pybind11::init<>(),\"\")",
  ".Special|context.def(\"pub\",pybind11::overload_cast<>(&::n::Special::pub),\"\")",
  ".Holder|context.def(pybind11::init<>(),\"\")",
  ".Holder|context.def(pybind11::init<const::n::Holder&>(),\"\",pybind11::arg(\"\"))",
  ".Holder|context.def_readwrite(\"after\",&::n::Holder::after)",
  ".Inst_int_|context.def_readwrite(\"x\",&::n::Inst<int>::x)",
  ".Inst_int_|context.def(\"m\",pybind11::overload_cast<>(&::n::Inst<int>::m),\"\")",
  ".Inst_int_|context.def(pybind11::init<>(),\"\")",
  ".Inst_int_|context.def(pybind11::init<const::n::Inst<int>&>(),\"\",pybind11::arg(\"\"))",
  ".Inst_int_.Nested|context.def(pybind11::init<>(),\"\")",
  ".Inst_int_.Nested|context.def(pybind11::init<const::n::Inst<int>::Nested&>(),\"\",pybind11::arg(\"\"))",
  ".Inst_int_.Nested|context.def_readwrite(\"y\",&::n::Inst<int>::Nested::y)",
  ".Inst_char_|context.def(pybind11::init<>(),\"\")",
  ".Inst_char_|context.def(pybind11::init<const::n::Inst<char>&>(),\"\",pybind11::arg(\"\"))",
  ".Inst_char_|context.def_readwrite(\"other\",&::n::Inst<char>::other)",
  ".EC|context.def(pybind11::init<>(),\"\")",
  ".EC|context.def(pybind11::init<const::n::EC&>(),\"\",pybind11::arg(\"\"))",
  ".EC|context.def_readwrite(\"x\",&::n::EC::x)"
}, {
  {"fwd", 0, {nullptr, "hidden", "expose_as(Forward)"}, {
    {false, {}, {}},
    {false, {0, 15, 16, 17}, {}},
    {false, {0, 15, 16, 17}, {{0, "|class<::n::Fwd>(\"Forward\")"}, {15, ".Forward|context.def(pybind11::init<>(),\"\")"}, {15, ".Forward|context.def(pybind11::init<const::n::Fwd&>(),\"\",pybind11::arg(\"\"))"}, {15, ".Forward|context.def_readwrite(\"a\",&::n::Fwd::a)"}}}}},
  {"late", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {1, 18, 19, 20}, {}}}},
  {"redecl", 0, {nullptr, "hidden", "expose_as(again)"}, {
    {false, {}, {}},
    {false, {11}, {}},
    {false, {11}, {{11, "|context.def(\"again\",pybind11::overload_cast<int>(&::n::redecl),\"\",pybind11::arg(\"\"))"}}}}},
  {"first", 0, {nullptr, "hidden", "visible(false)", "hidden, visible", "visible, hidden"}, {
    {false, {}, {}},
    {false, {12}, {}},
    {false, {12}, {}},
    {false, {}, {}},
    {false, {12}, {}}}},
  {"inner", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {3, 25, 26, 27}, {}}}},
  {"en", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {4, 28, 29}, {}}}},
  {"enb", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {29}, {}}}},
  {"spctor", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {31}, {}}}},
  {"conv", 0, {"hidden", nullptr}, {
    {false, {}, {}},
    {false, {}, {{32, ".Special|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Special::operatorint,pybind11::const_),\"\")"}}}}},
  {"prot", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {}}}},
  {"pvis", 0, {"hidden", "visible", nullptr}, {
    {false, {}, {}},
    {false, {}, {{6, ".Special|class<::n::Special::P2>(\"P2\")"}, {33, ".Special.P2|context.def(pybind11::init<>(),\"\")"}, {33, ".Special.P2|context.def(pybind11::init<const::n::Special::P2&>(),\"\",pybind11::arg(\"\"))"}, {33, ".Special.P2|context.def_readwrite(\"x\",&::n::Special::P2::x)"}}},
    {false, {}, {}}}},
  {"priv", 0, {nullptr, "visible", "expose_as(x)"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"pub", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {32}, {}}}},
  {"holder", 0, {nullptr, "hidden", "visible"}, {
    {false, {}, {}},
    {false, {6, 33, 34, 35}, {}},
    {false, {}, {}}}},
  {"after", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {35}, {}}}},
  {"inst", 0, {"visible", "hidden", nullptr}, {
    {false, {}, {}},
    {false, {7, 8, 36, 37, 38, 39, 40, 41, 42}, {}},
    {false, {}, {}}}},
  {"spec", 0, {"visible", "hidden", nullptr}, {
    {false, {}, {}},
    {false, {9, 43, 44, 45}, {}},
    {false, {}, {}}}},
  {"extc", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {13}, {}}}},
  {"ec", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {10, 46, 47, 48}, {}}}},
  {"alias", 0, {nullptr, "visible", "hidden", "visible(false)"}, {
    {false, {}, {}},
    {false, {}, {{14, "|context.attr(\"Alias\")=::genpybind::getObjectForType<::n::Fwd>()"}}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"em1", 0, {nullptr, "", "visible"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {{11, "|class<::other::Em1>(\"Em1\")"}, {49, ".Em1|context.def(pybind11::init<>(),\"\")"}, {49, ".Em1|context.def(pybind11::init<const::other::Em1&>(),\"\",pybind11::arg(\"\"))"}, {49, ".Em1|context.def_readwrite(\"x\",&::other::Em1::x)"}}}}},
  {"em2", 0, {nullptr, "", "visible"}, {
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {{49, "|context.def(\"em2\",pybind11::overload_cast<>(&::other::em2),\"\")"}}}}},
  {"em3", 0, {nullptr, ""}, {
    {false, {}, {}},
    {false, {}, {}}}},
  {"em4", 0, {nullptr, ""}, {
    {false, {}, {}},
    {false, {}, {}}}},
  {"o1", 0, {nullptr, "visible", "visible(default)", "hidden"}, {
    {false, {}, {}},
    {false, {}, {{11, "|class<::other::O1>(\"O1\")"}, {11, ".O1|class<::other::O1::O2>(\"O2\")"}, {11, ".O1|enum<::other::O1::O3>(\"O3\")"}, {49, ".O1|context.def(pybind11::init<>(),\"\")"}, {49, ".O1|context.def(pybind11::init<const::other::O1&>(),\"\",pybind11::arg(\"\"))"}, {49, ".O1|context.def_readwrite(\"x\",&::other::O1::x)"}, {49, ".O1.O2|context.def(pybind11::init<>(),\"\")"}, {49, ".O1.O2|context.def(pybind11::init<const::other::O1::O2&>(),\"\",pybind11::arg(\"\"))"}, {49, ".O1.O2|context.def_readwrite(\"y\",&::other::O1::O2::y)"}, {49, ".O1.O3|context.value(\"o3\",::other::O1::O3::o3)"}, {49, ".O1.O3|context.export_values()"}}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"o5", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{11, "|enum<::other::O5>(\"O5\")"}, {49, ".O5|context.value(\"o5a\",::other::O5::o5a)"}, {49, ".O5|context.value(\"o5b\",::other::O5::o5b)"}, {49, ".O5|context.export_values()"}}}}},
  {"var", 0, {nullptr, "visible", "readonly"}, {
    {false, {}, {}},
    {false, {}, {{49, "|context.attr(\"var\")=::other::var"}}},
    {false, {}, {{49, "|context.attr(\"var\")=::other::var"}}}}},
  {"deep", 0, {nullptr, "visible", "noconvert(x)"}, {
    {false, {}, {}},
    {false, {}, {{49, "|context.def(\"f\",pybind11::overload_cast<>(&::other::deep::deeper::f),\"\")"}}},
    {true, {}, {}}}},
  {"hs", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{11, "|class<::n::h::HS>(\"HS\")"}, {49, ".HS|context.def(pybind11::init<>(),\"\")"}, {49, ".HS|context.def(pybind11::init<const::n::h::HS&>(),\"\",pybind11::arg(\"\"))"}, {49, ".HS|context.def(\"g\",pybind11::overload_cast<>(&::n::h::HS::g),\"\")"}}}}},
}};
RegE R0({"C03.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
