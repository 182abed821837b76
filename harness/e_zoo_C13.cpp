// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct A {
  int x() const GENPYBIND(__sel_g1);
  void x(int) GENPYBIND(__sel_s1);
  int y() const GENPYBIND(__sel_g2);
  void set_y(int const &v) GENPYBIND(__sel_s2);
  int &z() GENPYBIND(__sel_g3);
  A &set_z(int) GENPYBIND(__sel_s3);
  int noargs() const noexcept GENPYBIND(__sel_na);
  void two(int, int) GENPYBIND(__sel_two);
  virtual int virt() const GENPYBIND(__sel_virt);
  int ref() & GENPYBIND(__sel_ref);
  int over() const; int over() GENPYBIND(__sel_over); int over(int) const GENPYBIND(__sel_over2);
  template <typename T> T tm() const;

protected: int prot() const GENPYBIND(__sel_prot); void sprot(int) GENPYBIND(__sel_sprot);
public: int pub() const GENPYBIND(__sel_pub);
};
struct B : A { int x() const GENPYBIND(__sel_bx); void set(int) GENPYBIND(__sel_bs); int virt() const override; };
struct GENPYBIND(inline_base(A)) I : A { int extra() const GENPYBIND(__sel_ie); };
struct U : A { using A::y; };
template <typename T> struct Tp { T get() const GENPYBIND(getter_for(val)); void set(T const &) GENPYBIND(setter_for(val)); T ro() const GENPYBIND(getter_for(ro)); };
template struct GENPYBIND(visible) Tp<int>;
template struct GENPYBIND(visible) Tp<char *>;
}
)zoo";
const Zoo Z0{{
  "|class<::n::A>(\"A\")",
  "|class<::n::B,::n::A>(\"B\")",
  "|class<::n::I>(\"I\")",
  "|class<::n::U,::n::A>(\"U\")",
  "|class<::n::Tp<int>>(\"Tp_int_\")",
  "|class<::n::Tp<char*>>(\"Tp_char_\")",
  ".A|context.def(pybind11::init<>(),\"\")",
  ".A|context.def(pybind11::init<const::n::A&>(),\"\",pybind11::arg(\"\"))",
  ".A|context.def(\"set_y\",pybind11::overload_cast<constint&>(&::n::A::set_y),\"\",pybind11::arg(\"v\"))",
  ".A|context.def(\"noargs\",pybind11::overload_cast<>(&::n::A::noargs,pybind11::const_),\"\")",
  ".A|context.def(\"two\",pybind11::overload_cast<int,int>(&::n::A::two),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))",
  ".A|context.def(\"virt\",pybind11::overload_cast<>(&::n::A::virt,pybind11::const_),\"\")",
  ".A|context.def(\"ref\",pybind11::overload_cast<>(&::n::A::ref),\"\")",
  ".A|context.def(\"over\",pybind11::overload_cast<>(&::n::A::over,pybind11::const_),\"\")",
  ".A|context.def(\"over\",pybind11::overload_cast<>(&::n::A::over),\"\")",
  ".A|context.def(\"over\",pybind11::overload_cast<int>(&::n::A::over,pybind11::const_),\"\",pybind11::arg(\"\"))",
  ".A|context.def(\"pub\",pybind11::overload_cast<>(&::n::A::pub,pybind11::const_),\"\")",
  ".A|context.def_property(\"x\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_),pybind11::overload_cast<int>(&::n::A::x))",
  ".A|context.def_property_readonly(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_))",
  ".A|context.def_property(\"z\",pybind11::overload_cast<>(&::n::A::z),pybind11::overload_cast<int>(&::n::A::set_z))",
  ".B|context.def(pybind11::init<>(),\"\")",
  ".B|context.def(pybind11::init<const::n::B&>(),\"\",pybind11::arg(\"\"))",
  ".B|context.def(\"x\",pybind11::overload_cast<>(&::n::B::x,pybind11::const_),\"\")",
  ".B|context.def(\"set\",pybind11::overload_cast<int>(&::n::B::set),\"\",pybind11::arg(\"\"))",
  ".B|context.def(\"virt\",pybind11::overload_cast<>(&::n::B::virt,pybind11::const_),\"\")",
  ".I|context.def(\"set_y\",pybind11::overload_cast<constint&>(&::n::A::set_y),\"\",pybind11::arg(\"v\"))",
  ".I|context.def(\"noargs\",pybind11::overload_cast<>(&::n::A::noargs,pybind11::const_),\"\")",
  ".I|context.def(\"two\",pybind11::overload_cast<int,int>(&::n::A::two),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))",
  ".I|context.def(\"virt\",pybind11::overload_cast<>(&::n::A::virt,pybind11::const_),\"\")",
  ".I|context.def(\"ref\",pybind11::overload_cast<>(&::n::A::ref),\"\")",
  ".I|context.def(\"over\",pybind11::overload_cast<>(&::n::A::over,pybind11::const_),\"\")",
  ".I|context.def(\"over\",pybind11::overload_cast<>(&::n::A::over),\"\")",
  ".I|context.def(\"over\",pybind11::overload_cast<int>(&::n::A::over,pybind11::const_),\"\",pybind11::arg(\"\"))",
  ".I|context.def(\"pub\",pybind11::overload_cast<>(&::n::A::pub,pybind11::const_),\"\")",
  ".I|context.def(pybind11::init<>(),\"\")",
  ".I|context.def(pybind11::init<const::n::I&>(),\"\",pybind11::arg(\"\"))",
  ".I|context.def(\"extra\",pybind11::overload_cast<>(&::n::I::extra,pybind11::const_),\"\")",
  ".I|context.def_property(\"x\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_),pybind11::overload_cast<int>(&::n::A::x))",
  ".I|context.def_property_readonly(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_))",
  ".I|context.def_property(\"z\",pybind11::overload_cast<>(&::n::A::z),pybind11::overload_cast<int>(&::n::A::set_z))",
  ".U|context.def(pybind11::init<>(),\"\")",
  ".U|context.def(pybind11::init<const::n::U&>(),\"\",pybind11::arg(\"\"))",
  ".U|context.def_property_readonly(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_))",
  ".Tp_int_|context.def(pybind11::init<>(),\"\")",
  ".Tp_int_|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_int_|context.def_property_readonly(\"ro\",pybind11::overload_cast<>(&::n::Tp<int>::ro,pybind11::const_))",
  ".Tp_int_|context.def_property(\"val\",pybind11::overload_cast<>(&::n::Tp<int>::get,pybind11::const_),pybind11::overload_cast<constint&>(&::n::Tp<int>::set))",
  ".Tp_char_|context.def(pybind11::init<>(),\"\")",
  ".Tp_char_|context.def(pybind11::init<const::n::Tp<char*>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_char_|context.def_property_readonly(\"ro\",pybind11::overload_cast<>(&::n::Tp<char*>::ro,pybind11::const_))",
  ".Tp_char_|context.def_property(\"val\",pybind11::overload_cast<>(&::n::Tp<char*>::get,pybind11::const_),pybind11::overload_cast<char*const&>(&::n::Tp<char*>::set))"
}, {
  {"g1", 0, {"getter_for(x)", nullptr, "getter_for(x), getter_for(xx)", "getter_for(x, xx)", "getter_for(x), hidden", "getter_for(x), expose_as(q)", "getter_for(y)", "getter_for(x, x)"}, {
    {false, {}, {}},
    {true, {}, {}},
    {false, {}, {{18, ".A|context.def_property_readonly(\"xx\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_))"}, {38, ".I|context.def_property_readonly(\"xx\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_))"}}},
    {false, {}, {{18, ".A|context.def_property_readonly(\"xx\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_))"}, {38, ".I|context.def_property_readonly(\"xx\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_))"}}},
    {true, {}, {}},
    {false, {}, {}},
    {true, {}, {}},
    {false, {}, {}}}},
  {"s1", 0, {"setter_for(x)", nullptr, "setter_for(x), hidden", "setter_for(y)", "setter_for(x, y)", "setter_for(x), setter_for(y)"}, {
    {false, {}, {}},
    {false, {17, 37}, {{8, ".A|context.def(\"x\",pybind11::overload_cast<int>(&::n::A::x),\"\",pybind11::arg(\"\"))"}, {17, ".A|context.def_property_readonly(\"x\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_))"}, {25, ".I|context.def(\"x\",pybind11::overload_cast<int>(&::n::A::x),\"\",pybind11::arg(\"\"))"}, {37, ".I|context.def_property_readonly(\"x\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_))"}}},
    {false, {17, 37}, {{17, ".A|context.def_property_readonly(\"x\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_))"}, {37, ".I|context.def_property_readonly(\"x\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_))"}}},
    {false, {17, 18, 37, 38}, {{17, ".A|context.def_property_readonly(\"x\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_))"}, {17, ".A|context.def_property(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),pybind11::overload_cast<int>(&::n::A::x))"}, {37, ".I|context.def_property_readonly(\"x\",pybind11::overload_cast<>(&::n::A::x,pybind11::const_))"}, {37, ".I|context.def_property(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),pybind11::overload_cast<int>(&::n::A::x))"}}},
    {false, {18, 38}, {{18, ".A|context.def_property(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),pybind11::overload_cast<int>(&::n::A::x))"}, {38, ".I|context.def_property(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),pybind11::overload_cast<int>(&::n::A::x))"}}},
    {false, {18, 38}, {{18, ".A|context.def_property(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),pybind11::overload_cast<int>(&::n::A::x))"}, {38, ".I|context.def_property(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),pybind11::overload_cast<int>(&::n::A::x))"}}}}},
  {"g2", 0, {"getter_for(y)", nullptr, "hidden", "getter_for(z)", "getter_for(w)"}, {
    {false, {}, {}},
    {false, {18, 38, 42}, {{8, ".A|context.def(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),\"\")"}, {25, ".I|context.def(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),\"\")"}, {40, ".U|context.def(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),\"\")"}}},
    {false, {18, 38, 42}, {}},
    {true, {}, {}},
    {false, {18, 38, 42}, {{17, ".A|context.def_property_readonly(\"w\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_))"}, {37, ".I|context.def_property_readonly(\"w\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_))"}, {42, ".U|context.def_property_readonly(\"w\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_))"}}}}},
  {"s2", 0, {nullptr, "setter_for(y)", "setter_for(x)"}, {
    {false, {}, {}},
    {false, {8, 18, 25, 38}, {{18, ".A|context.def_property(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),pybind11::overload_cast<constint&>(&::n::A::set_y))"}, {38, ".I|context.def_property(\"y\",pybind11::overload_cast<>(&::n::A::y,pybind11::const_),pybind11::overload_cast<constint&>(&::n::A::set_y))"}}},
    {true, {}, {}}}},
  {"g3", 0, {"getter_for(z)", nullptr}, {
    {false, {}, {}},
    {true, {}, {}}}},
  {"s3", 0, {"setter_for(z)", nullptr, "setter_for(nope)"}, {
    {false, {}, {}},
    {false, {19, 39}, {{9, ".A|context.def(\"set_z\",pybind11::overload_cast<int>(&::n::A::set_z),\"\",pybind11::arg(\"\"))"}, {19, ".A|context.def_property_readonly(\"z\",pybind11::overload_cast<>(&::n::A::z))"}, {26, ".I|context.def(\"set_z\",pybind11::overload_cast<int>(&::n::A::set_z),\"\",pybind11::arg(\"\"))"}, {39, ".I|context.def_property_readonly(\"z\",pybind11::overload_cast<>(&::n::A::z))"}}},
    {true, {}, {}}}},
  {"na", 0, {nullptr, "setter_for(x)", "getter_for(na)"}, {
    {false, {}, {}},
    {true, {}, {}},
    {false, {9, 26}, {{17, ".A|context.def_property_readonly(\"na\",pybind11::overload_cast<>(&::n::A::noargs,pybind11::const_))"}, {37, ".I|context.def_property_readonly(\"na\",pybind11::overload_cast<>(&::n::A::noargs,pybind11::const_))"}}}}},
  {"two", 0, {nullptr, "setter_for(t)", "getter_for(t)"}, {
    {false, {}, {}},
    {true, {}, {}},
    {true, {}, {}}}},
  {"virt", 0, {nullptr, "getter_for(virt)"}, {
    {false, {}, {}},
    {false, {11, 28}, {{17, ".A|context.def_property_readonly(\"virt\",pybind11::overload_cast<>(&::n::A::virt,pybind11::const_))"}, {37, ".I|context.def_property_readonly(\"virt\",pybind11::overload_cast<>(&::n::A::virt,pybind11::const_))"}}}}},
  {"ref", 0, {nullptr, "getter_for(ref)"}, {
    {false, {}, {}},
    {false, {12, 29}, {{17, ".A|context.def_property_readonly(\"ref\",pybind11::overload_cast<>(&::n::A::ref))"}, {37, ".I|context.def_property_readonly(\"ref\",pybind11::overload_cast<>(&::n::A::ref))"}}}}},
  {"over", 0, {nullptr, "getter_for(o)"}, {
    {false, {}, {}},
    {false, {14, 31}, {{17, ".A|context.def_property_readonly(\"o\",pybind11::overload_cast<>(&::n::A::over))"}, {37, ".I|context.def_property_readonly(\"o\",pybind11::overload_cast<>(&::n::A::over))"}}}}},
  {"over2", 0, {nullptr, "getter_for(o)"}, {
    {false, {}, {}},
    {true, {}, {}}}},
  {"prot", 0, {nullptr, "getter_for(p)"}, {
    {false, {}, {}},
    {false, {}, {}}}},
  {"sprot", 0, {nullptr, "setter_for(y)"}, {
    {false, {}, {}},
    {false, {}, {}}}},
  {"pub", 0, {nullptr, "getter_for(p)"}, {
    {false, {}, {}},
    {false, {16, 33}, {{16, ".A|context.def_property_readonly(\"p\",pybind11::overload_cast<>(&::n::A::pub,pybind11::const_))"}, {37, ".I|context.def_property_readonly(\"p\",pybind11::overload_cast<>(&::n::A::pub,pybind11::const_))"}}}}},
  {"bx", 0, {nullptr, "getter_for(x)", "getter_for(bx)"}, {
    {false, {}, {}},
    {false, {22}, {{25, ".B|context.def_property_readonly(\"x\",pybind11::overload_cast<>(&::n::B::x,pybind11::const_))"}}},
    {false, {22}, {{25, ".B|context.def_property_readonly(\"bx\",pybind11::overload_cast<>(&::n::B::x,pybind11::const_))"}}}}},
  {"bs", 0, {nullptr, "setter_for(bx)"}, {
    {false, {}, {}},
    {true, {}, {}}}},
  {"ie", 0, {nullptr, "getter_for(e)", "getter_for(z)"}, {
    {false, {}, {}},
    {false, {36}, {{36, ".I|context.def_property_readonly(\"e\",pybind11::overload_cast<>(&::n::I::extra,pybind11::const_))"}}},
    {true, {}, {}}}},
}};
RegE R0({"C13.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
