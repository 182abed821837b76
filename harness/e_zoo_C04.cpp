// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace std { template <typename T> struct shared_ptr {}; template <typename T, typename U> struct unique_ptr {}; }
namespace n GENPYBIND(visible) {
struct Plain { int x; };
// forward declarations and redeclarations
struct GENPYBIND(__sel_fwd) Fwd;
struct Fwd { int a; };
struct GENPYBIND(__sel_f1) Two;
struct GENPYBIND(__sel_f2) Two { int a; };
// last one wins, both together, order irrelevant
struct GENPYBIND(__sel_both) Both { int a; };
/// brief doc
class GENPYBIND(__sel_doc) Doc final { public: int a; };
// nested, derived and base classes
struct GENPYBIND(__sel_outer) Outer { struct GENPYBIND(__sel_inner) Inner { struct Innermost {}; enum En { en }; }; union U { int a; float b; }; };
struct GENPYBIND(__sel_base) Base {};
struct GENPYBIND(__sel_mid) Mid : Base, virtual Plain {};
struct GENPYBIND(__sel_leaf) Leaf : Mid {};
struct Bare : Leaf {};
union GENPYBIND(__sel_un) Un { int a; float b; };
struct GENPYBIND(__sel_abs) Abs { virtual void f() = 0; };
// templates
template <typename T> struct Tp { T x; };
template struct GENPYBIND(__sel_t1) Tp<int>;
template <> struct GENPYBIND(__sel_t2) Tp<char> { char y; };
template <typename T> struct GENPYBIND(holder_type("std::shared_ptr<Hd<T>>"), dynamic_attr) Hd : Tp<T> { struct In {}; };
template struct GENPYBIND(visible) Hd<long>;
using Al GENPYBIND(__sel_al) = Tp<Plain>;
}
struct GENPYBIND(__sel_root) Root { struct In {}; };
)zoo";
const Zoo Z0{{
  "|class<::n::Plain>(\"Plain\")",
  "|class<::n::Fwd>(\"Fwd\")",
  "|class<::n::Two>(\"Two\")",
  "|class<::n::Both>(\"Both\")",
  "|class<::n::Doc>(\"Doc\",\"brief doc\")",
  "|class<::n::Outer>(\"Outer\")",
  ".Outer|class<::n::Outer::Inner>(\"Inner\")",
  ".Outer.Inner|class<::n::Outer::Inner::Innermost>(\"Innermost\")",
  ".Outer.Inner|enum<::n::Outer::Inner::En>(\"En\")",
  ".Outer|class<::n::Outer::U>(\"U\")",
  "|class<::n::Base>(\"Base\")",
  "|class<::n::Mid,::n::Base,::n::Plain>(\"Mid\")",
  "|class<::n::Leaf,::n::Mid>(\"Leaf\")",
  "|class<::n::Bare,::n::Leaf>(\"Bare\")",
  "|class<::n::Un>(\"Un\")",
  "|class<::n::Abs>(\"Abs\")",
  "|class<::n::Tp<::n::Plain>>(\"Al\")",
  "|class<::n::Tp<long>>(\"Tp_long_\")",
  "|class<::n::Tp<int>>(\"Tp_int_\")",
  "|class<::n::Tp<char>>(\"Tp_char_\")",
  "|class<::n::Hd<long>,::n::Tp<long>,std::shared_ptr<Hd<T>>>(\"Hd_long_\",pybind11::dynamic_attr())",
  ".Hd_long_|class<::n::Hd<long>::In>(\"In\")",
  "|class<::Root,R>(\"Root\")",
  ".Root|class<::Root::In>(\"In\")",
  ".Plain|context.def(pybind11::init<>(),\"\")",
  ".Plain|context.def(pybind11::init<const::n::Plain&>(),\"\",pybind11::arg(\"\"))",
  ".Plain|context.def_readwrite(\"x\",&::n::Plain::x)",
  ".Fwd|context.def(pybind11::init<>(),\"\")",
  ".Fwd|context.def(pybind11::init<const::n::Fwd&>(),\"\",pybind11::arg(\"\"))",
  ".Fwd|context.def_readwrite(\"a\",&::n::Fwd::a)",
  ".Two|context.def(pybind11::init<>(),\"\")",
  ".Two|context.def(pybind11::init<const::n::Two&>(),\"\",pybind11::arg(\"\"))",
  ".Two|context.def_readwrite(\"a\",&::n::Two::a)",
  ".Both|context.def(pybind11::init<>(),\"\")",
  ".Both|context.def(pybind11::init<const::n::Both&>(),\"\",pybind11::arg(\"\"))",
  ".Both|context.def_readwrite(\"a\",&::n::Both::a)",
  ".Doc|context.def(pybind11::init<>(),\"\")",
  ".Doc|context.def(pybind11::init<const::n::Doc&>(),\"\",pybind11::arg(\"\"))",
  ".Doc|context.def_readwrite(\"a\",&::n::Doc::a)",
  ".Outer|context.def(pybind11::init<>(),\"\")",
  ".Outer|context.def(pybind11::init<const::n::Outer&>(),\"\",pybind11::arg(\"\"))",
  ".Outer.Inner|context.def(pybind11::init<>(),\"\")",
  ".Outer.Inner|context.def(pybind11::init<const::n::Outer::Inner&>(),\"\",pybind11::arg(\"\"))",
  ".Outer.Inner.Innermost|context.def(pybind11::init<>(),\"\")",
  ".Outer.Inner.Innermost|context.def(pybind11::init<const::n::Outer::Inner::Innermost&>(),\"\",pybind11::arg(\"\"))",
  ".Outer.Inner.En|context.value(\"en\",::n::Outer::Inner::En::en)",
  ".Outer.Inner.En|context.export_values()",
  ".Outer.U|context.def(pybind11::init<>(),\"\")",
  ".Outer.U|context.def(pybind11::init<const::n::Outer::U&>(),\"\",pybind11::arg(\"\"))",
  ".Outer.U|context.def_readwrite(\"a\",&::n::Outer::U::a)",
  ".Outer.U|context.def_readwrite(\"b\",&::n::Outer::U::b)",
  ".Base|context.def(pybind11::init<>(),\"\")",
  ".Base|context.def(pybind11::init<const::n::Base&>(),\"\",pybind11::arg(\"\"))",
  ".Mid|context.def(pybind11::init<>(),\"\")",
  ".Mid|context.def(pybind11::init<const::n::Mid&>(),\"\",pybind11::arg(\"\"))",
  ".Leaf|context.def(pybind11::init<>(),\"\")",
  ".Leaf|context.def(pybind11::init<const::n::Leaf&>(),\"\",pybind11::arg(\"\"))",
  ".Bare|context.def(pybind11::init<>(),\"\")",
  ".Bare|context.def(pybind11::init<const::n::Bare&>(),\"\",pybind11::arg(\"\"))",
  ".Un|context.def(pybind11::init<>(),\"\")",
  ".Un|context.def(pybind11::init<const::n::Un&>(),\"\",pybind11::arg(\"\"))",
  ".Un|context.def_readwrite(\"a\",&::n::Un::a)",
  ".Un|context.def_readwrite(\"b\",&::n::Un::b)",
  ".Abs|context.def(\"f\",pybind11::overload_cast<>(&::n::Abs::f),\"\")",
  ".Al|context.def(pybind11::init<>(),\"\")",
  ".Al|context.def(pybind11::init<const::n::Tp<::n::Plain>&>(),\"\",pybind11::arg(\"\"))",
  ".Al|context.def_readwrite(\"x\",&::n::Tp<n::Plain>::x)",
  ".Tp_long_|context.def(pybind11::init<>(),\"\")",
  ".Tp_long_|context.def(pybind11::init<const::n::Tp<long>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_long_|context.def_readwrite(\"x\",&::n::Tp<long>::x)",
  ".Tp_int_|context.def_readwrite(\"x\",&::n::Tp<int>::x)",
  ".Tp_int_|context.def(pybind11::init<>(),\"\")",
  ".Tp_int_|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_char_|context.def(pybind11::init<>(),\"\")",
  ".Tp_char_|context.def(pybind11::init<const::n::Tp<char>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_char_|context.def_readwrite(\"y\",&::n::Tp<char>::y)",
  ".Hd_long_|context.def(pybind11::init<>(),\"\")",
  ".Hd_long_|context.def(pybind11::init<const::n::Hd<long>&>(),\"\",pybind11::arg(\"\"))",
  ".Hd_long_.In|context.def(pybind11::init<>(),\"\")",
  ".Hd_long_.In|context.def(pybind11::init<const::n::Hd<long>::In&>(),\"\",pybind11::arg(\"\"))",
  ".Root|context.def(pybind11::init<>(),\"\")",
  ".Root|context.def(pybind11::init<const::Root&>(),\"\",pybind11::arg(\"\"))",
  ".Root.In|context.def(pybind11::init<>(),\"\")",
  ".Root.In|context.def(pybind11::init<const::Root::In&>(),\"\",pybind11::arg(\"\"))"
}, {
  {"fwd", 0, {nullptr, "holder_type(\"std::shared_ptr<Fwd>\")", "dynamic_attr"}, {
    {false, {}, {}},
    {false, {1}, {{1, "|class<::n::Fwd,std::shared_ptr<Fwd>>(\"Fwd\")"}}},
    {false, {1}, {{1, "|class<::n::Fwd>(\"Fwd\",pybind11::dynamic_attr())"}}}}},
  {"f1", 0, {nullptr, "dynamic_attr(true)", "dynamic_attr(false)"}, {
    {false, {}, {}},
    {false, {2}, {{2, "|class<::n::Two>(\"Two\",pybind11::dynamic_attr())"}}},
    {false, {}, {}}}},
  {"f2", 0, {nullptr, "holder_type(\"H\")", "dynamic_attr(true), dynamic_attr(false)", "dynamic_attr, dynamic_attr(false), dynamic_attr"}, {
    {false, {}, {}},
    {false, {2}, {{2, "|class<::n::Two,H>(\"Two\")"}}},
    {false, {}, {}},
    {false, {2}, {{2, "|class<::n::Two>(\"Two\",pybind11::dynamic_attr())"}}}}},
  {"both", 0, {nullptr, "holder_type(\"A\"), holder_type(\"B\")", "holder_type(\"A\"), dynamic_attr", "dynamic_attr, holder_type(\"std::unique_ptr<Both, D<1, 2>>\")", "dynamic_attr(true), expose_as(Other), holder_type(\"std::shared_ptr<Both>\"), visible"}, {
    {false, {}, {}},
    {false, {3}, {{3, "|class<::n::Both,B>(\"Both\")"}}},
    {false, {3}, {{3, "|class<::n::Both,A>(\"Both\",pybind11::dynamic_attr())"}}},
    {false, {3}, {{3, "|class<::n::Both,std::unique_ptr<Both,D<1,2>>>(\"Both\",pybind11::dynamic_attr())"}}},
    {false, {3, 33, 34, 35}, {{3, "|class<::n::Both,std::shared_ptr<Both>>(\"Other\",pybind11::dynamic_attr())"}, {33, ".Other|context.def(pybind11::init<>(),\"\")"}, {33, ".Other|context.def(pybind11::init<const::n::Both&>(),\"\",pybind11::arg(\"\"))"}, {33, ".Other|context.def_readwrite(\"a\",&::n::Both::a)"}}}}},
  {"doc", 0, {nullptr, "holder_type(\"std::shared_ptr<Doc>\")", "dynamic_attr", "holder_type(\"X\"), dynamic_attr"}, {
    {false, {}, {}},
    {false, {4}, {{4, "|class<::n::Doc,std::shared_ptr<Doc>>(\"Doc\",\"brief doc\")"}}},
    {false, {4}, {{4, "|class<::n::Doc>(\"Doc\",\"brief doc\",pybind11::dynamic_attr())"}}},
    {false, {4}, {{4, "|class<::n::Doc,X>(\"Doc\",\"brief doc\",pybind11::dynamic_attr())"}}}}},
  {"outer", 0, {nullptr, "holder_type(\"O\")", "dynamic_attr"}, {
    {false, {}, {}},
    {false, {5}, {{5, "|class<::n::Outer,O>(\"Outer\")"}}},
    {false, {5}, {{5, "|class<::n::Outer>(\"Outer\",pybind11::dynamic_attr())"}}}}},
  {"inner", 0, {nullptr, "holder_type(\"I\")", "dynamic_attr"}, {
    {false, {}, {}},
    {false, {6}, {{6, ".Outer|class<::n::Outer::Inner,I>(\"Inner\")"}}},
    {false, {6}, {{6, ".Outer|class<::n::Outer::Inner>(\"Inner\",pybind11::dynamic_attr())"}}}}},
  {"base", 0, {nullptr, "holder_type(\"std::shared_ptr<Base>\")", "dynamic_attr"}, {
    {false, {}, {}},
    {false, {10}, {{10, "|class<::n::Base,std::shared_ptr<Base>>(\"Base\")"}}},
    {false, {10}, {{10, "|class<::n::Base>(\"Base\",pybind11::dynamic_attr())"}}}}},
  {"mid", 0, {nullptr, "holder_type(\"std::shared_ptr<Mid>\")", "dynamic_attr", "dynamic_attr(false)"}, {
    {false, {}, {}},
    {false, {11}, {{11, "|class<::n::Mid,::n::Base,::n::Plain,std::shared_ptr<Mid>>(\"Mid\")"}}},
    {false, {11}, {{11, "|class<::n::Mid,::n::Base,::n::Plain>(\"Mid\",pybind11::dynamic_attr())"}}},
    {false, {}, {}}}},
  {"leaf", 0, {nullptr, "holder_type(\"L\")", "hide_base(Base), holder_type(\"L2\"), dynamic_attr", "hide_base, holder_type(\"L3\")"}, {
    {false, {}, {}},
    {false, {12}, {{12, "|class<::n::Leaf,::n::Mid,L>(\"Leaf\")"}}},
    {false, {12}, {{12, "|class<::n::Leaf,::n::Mid,L2>(\"Leaf\",pybind11::dynamic_attr())"}}},
    {false, {12}, {{12, "|class<::n::Leaf,L3>(\"Leaf\")"}}}}},
  {"un", 0, {nullptr, "holder_type(\"std::shared_ptr<Un>\")", "dynamic_attr"}, {
    {false, {}, {}},
    {false, {14}, {{14, "|class<::n::Un,std::shared_ptr<Un>>(\"Un\")"}}},
    {false, {14}, {{14, "|class<::n::Un>(\"Un\",pybind11::dynamic_attr())"}}}}},
  {"abs", 0, {nullptr, "holder_type(\"std::shared_ptr<Abs>\")", "dynamic_attr"}, {
    {false, {}, {}},
    {false, {15}, {{15, "|class<::n::Abs,std::shared_ptr<Abs>>(\"Abs\")"}}},
    {false, {15}, {{15, "|class<::n::Abs>(\"Abs\",pybind11::dynamic_attr())"}}}}},
  {"t1", 0, {"visible", "holder_type(\"std::shared_ptr<Tp<int>>\")", "dynamic_attr"}, {
    {false, {}, {}},
    {false, {18}, {{18, "|class<::n::Tp<int>,std::shared_ptr<Tp<int>>>(\"Tp_int_\")"}}},
    {false, {18}, {{18, "|class<::n::Tp<int>>(\"Tp_int_\",pybind11::dynamic_attr())"}}}}},
  {"t2", 0, {"visible", "holder_type(\"std::shared_ptr<Tp<char>>\")", "dynamic_attr"}, {
    {false, {}, {}},
    {false, {19}, {{19, "|class<::n::Tp<char>,std::shared_ptr<Tp<char>>>(\"Tp_char_\")"}}},
    {false, {19}, {{19, "|class<::n::Tp<char>>(\"Tp_char_\",pybind11::dynamic_attr())"}}}}},
  {"al", 0, {"expose_here", "visible", "encourage"}, {
    {false, {}, {}},
    {false, {16, 64, 65, 66}, {{18, "|class<::n::Tp<::n::Plain>>(\"Tp_n_Plain_\")"}, {24, "|context.attr(\"Al\")=::genpybind::getObjectForType<::n::Tp<::n::Plain>>()"}, {70, ".Tp_n_Plain_|context.def(pybind11::init<>(),\"\")"}, {70, ".Tp_n_Plain_|context.def(pybind11::init<const::n::Tp<::n::Plain>&>(),\"\",pybind11::arg(\"\"))"}, {70, ".Tp_n_Plain_|context.def_readwrite(\"x\",&::n::Tp<n::Plain>::x)"}}},
    {false, {16, 64, 65, 66}, {{18, "|class<::n::Tp<::n::Plain>>(\"Tp_n_Plain_\")"}, {24, "|context.attr(\"Al\")=::genpybind::getObjectForType<::n::Tp<::n::Plain>>()"}, {70, ".Tp_n_Plain_|context.def(pybind11::init<>(),\"\")"}, {70, ".Tp_n_Plain_|context.def(pybind11::init<const::n::Tp<::n::Plain>&>(),\"\",pybind11::arg(\"\"))"}, {70, ".Tp_n_Plain_|context.def_readwrite(\"x\",&::n::Tp<n::Plain>::x)"}}}}},
  {"root", 0, {"holder_type(\"R\")", "dynamic_attr", nullptr, "hidden, holder_type(\"Q\")", "dynamic_attr(default)"}, {
    {false, {}, {}},
    {false, {22}, {{22, "|class<::Root>(\"Root\",pybind11::dynamic_attr())"}}},
    {false, {22, 23, 80, 81, 82, 83}, {}},
    {false, {22, 23, 80, 81, 82, 83}, {}},
    {true, {}, {}}}},
}};
RegE R0({"C04.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
