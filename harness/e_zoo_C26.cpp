// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
#include <type_traits>
namespace n GENPYBIND(visible) {
struct X { int a;
  GENPYBIND_MANUAL({ parent.def("one", [](GENPYBIND_PARENT_TYPE &self) { return self.a; }); })
  void f();
  GENPYBIND_MANUAL({
    for (int i = 0; i < 3; ++i) {
      if (i == 1) continue;
      parent.attr("k") = i; // comment ')' "
    }
    auto lam = [&](auto parent2) { parent2.def("two", [](GENPYBIND_PARENT_TYPE &x, int parent) { return x.a + parent; }); };
    lam(parent);
  })
  int b;
  struct In { GENPYBIND(__sel_inp) GENPYBIND_MANUAL({ parent.attr("in") = "te\"x,t)"; }) };
};
void g();
GENPYBIND_MANUAL({ parent.attr("ns") = 1, parent.attr("ns2") = 2; })
void h();
namespace s GENPYBIND(__sel_s) { GENPYBIND_MANUAL({ parent.attr("sub") = true; }) void i(); }
struct GENPYBIND(__sel_h) H { GENPYBIND_MANUAL({ parent.attr("hidden_class") = 1; }) };
struct GENPYBIND(__sel_d) D : X { int d; };
class P { GENPYBIND_MANUAL({ parent.attr("private_manual") = 1; }) public: GENPYBIND_MANUAL({ parent.attr("public_manual") = 1; }) };
template <typename T> struct Tp { T t; GENPYBIND_MANUAL({ parent.attr("tp") = sizeof(T); }) };
extern template struct GENPYBIND(__sel_tp) Tp<int>;
}
namespace r GENPYBIND(__sel_r) { void rf(); GENPYBIND(__sel_rp) GENPYBIND_MANUAL({ parent.attr("r") = 1; }) }
GENPYBIND(__sel_root) GENPYBIND_MANUAL({ parent.attr("root") = 1; })
GENPYBIND(postamble)
GENPYBIND_MANUAL({ parent.attr("post") = 1; })
struct GENPYBIND(visible) Between { int z; };
GENPYBIND(__sel_post2) GENPYBIND_MANUAL({ parent.attr("post2") = 1; })
namespace n GENPYBIND(visible) { void tail(); }
)zoo";
const Zoo Z0{{
  "|class<::n::X>(\"X\")",
  ".X|class<::n::X::In>(\"In\")",
  "|class<::n::H>(\"H\")",
  "|class<::n::D,::n::X>(\"D\")",
  "|class<::n::P>(\"P\")",
  "|class<::n::Tp<int>>(\"Tp_int_\")",
  "|class<::Between>(\"Between\")",
  "|[](auto&parent){parent.attr(\"root\")=1;}(context)",
  "|context.def(\"g\",pybind11::overload_cast<>(&::n::g),\"\")",
  "|[](auto&parent){parent.attr(\"ns\")=1,parent.attr(\"ns2\")=2;}(context)",
  "|context.def(\"h\",pybind11::overload_cast<>(&::n::h),\"\")",
  "|context.def(\"tail\",pybind11::overload_cast<>(&::n::tail),\"\")",
  ".X|context.def(pybind11::init<>(),\"\")",
  ".X|context.def(pybind11::init<const::n::X&>(),\"\",pybind11::arg(\"\"))",
  ".X|context.def_readwrite(\"a\",&::n::X::a)",
  ".X|[](auto&parent){parent.def(\"one\",[](typenamestd::remove_reference_t<decltype(parent)>::type&self){returnself.a;});}(context)",
  ".X|context.def(\"f\",pybind11::overload_cast<>(&::n::X::f),\"\")",
  ".X|[](auto&parent){for(inti=0;i<3;++i){if(i==1)continue;parent.attr(\"k\")=i;}autolam=[&](autoparent2){parent2.def(\"two\",[](typenamestd::remove_reference_t<decltype(parent)>::type&x,intparent){returnx.a+parent;});};lam(parent);}(context)",
  ".X|context.def_readwrite(\"b\",&::n::X::b)",
  ".X.In|context.def(pybind11::init<>(),\"\")",
  ".X.In|context.def(pybind11::init<const::n::X::In&>(),\"\",pybind11::arg(\"\"))",
  ".X.In|[](auto&parent){parent.attr(\"in\")=\"te\\\"x,t)\";}(context)",
  "|[](auto&parent){parent.attr(\"sub\")=true;}(context)",
  "|context.def(\"i\",pybind11::overload_cast<>(&::n::s::i),\"\")",
  ".H|context.def(pybind11::init<>(),\"\")",
  ".H|context.def(pybind11::init<const::n::H&>(),\"\",pybind11::arg(\"\"))",
  ".H|[](auto&parent){parent.attr(\"hidden_class\")=1;}(context)",
  ".D|context.def(pybind11::init<>(),\"\")",
  ".D|context.def(pybind11::init<const::n::D&>(),\"\",pybind11::arg(\"\"))",
  ".D|context.def_readwrite(\"d\",&::n::D::d)",
  ".P|context.def(pybind11::init<>(),\"\")",
  ".P|context.def(pybind11::init<const::n::P&>(),\"\",pybind11::arg(\"\"))",
  ".P|[](auto&parent){parent.attr(\"public_manual\")=1;}(context)",
  ".Tp_int_|context.def_readwrite(\"t\",&::n::Tp<int>::t)",
  ".Tp_int_|[](auto&parent){parent.attr(\"tp\")=sizeof(int);}(context)",
  ".Tp_int_|context.def(pybind11::init<>(),\"\")",
  ".Tp_int_|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))",
  "|[](auto&parent){parent.attr(\"r\")=1;}(context)",
  ".Between|context.def(pybind11::init<>(),\"\")",
  ".Between|context.def(pybind11::init<const::Between&>(),\"\",pybind11::arg(\"\"))",
  ".Between|context.def_readwrite(\"z\",&::Between::z)",
  "*|[](auto&parent){parent.attr(\"post\")=1;}(context)",
  "*|[](auto&parent){parent.attr(\"post2\")=1;}(context)"
}, {
  {"inp", 0, {nullptr, "postamble", "hidden"}, {
    {false, {}, {}},
    {true, {}, {}},
    {false, {21}, {}}}},
  {"s", 0, {nullptr, "module", "hidden", "module(\"zz\")"}, {
    {false, {}, {}},
    {false, {22, 23}, {{2, "|submodule<>(\"s\")"}, {22, ".s|[](auto&parent){parent.attr(\"sub\")=true;}(context)"}, {22, ".s|context.def(\"i\",pybind11::overload_cast<>(&::n::s::i),\"\")"}}},
    {false, {23}, {}},
    {false, {22, 23}, {{2, "|submodule<>(\"zz\")"}, {22, ".zz|[](auto&parent){parent.attr(\"sub\")=true;}(context)"}, {22, ".zz|context.def(\"i\",pybind11::overload_cast<>(&::n::s::i),\"\")"}}}}},
  {"h", 0, {nullptr, "hidden", "expose_as(Hh)"}, {
    {false, {}, {}},
    {false, {2, 24, 25, 26}, {}},
    {false, {2, 24, 25, 26}, {{2, "|class<::n::H>(\"Hh\")"}, {24, ".Hh|context.def(pybind11::init<>(),\"\")"}, {24, ".Hh|context.def(pybind11::init<const::n::H&>(),\"\",pybind11::arg(\"\"))"}, {24, ".Hh|[](auto&parent){parent.attr(\"hidden_class\")=1;}(context)"}}}}},
  {"d", 0, {nullptr, "inline_base", "hide_base"}, {
    {false, {}, {}},
    {false, {3}, {{3, "|class<::n::D>(\"D\")"}, {27, ".D|context.def_readwrite(\"a\",&::n::X::a)"}, {27, ".D|[](auto&parent){parent.def(\"one\",[](typenamestd::remove_reference_t<decltype(parent)>::type&self){returnself.a;});}(context)"}, {27, ".D|context.def(\"f\",pybind11::overload_cast<>(&::n::X::f),\"\")"}, {27, ".D|[](auto&parent){for(inti=0;i<3;++i){if(i==1)continue;parent.attr(\"k\")=i;}autolam=[&](autoparent2){parent2.def(\"two\",[](typenamestd::remove_reference_t<decltype(parent)>::type&x,intparent){returnx.a+parent;});};lam(parent);}(context)"}, {27, ".D|context.def_readwrite(\"b\",&::n::X::b)"}}},
    {false, {3}, {{3, "|class<::n::D>(\"D\")"}}}}},
  {"tp", 0, {"visible", "hidden", "expose_as(TpI)"}, {
    {false, {}, {}},
    {false, {5, 33, 34, 35, 36}, {}},
    {false, {5, 33, 34, 35, 36}, {{5, "|class<::n::Tp<int>>(\"TpI\")"}, {33, ".TpI|context.def_readwrite(\"t\",&::n::Tp<int>::t)"}, {33, ".TpI|[](auto&parent){parent.attr(\"tp\")=sizeof(int);}(context)"}, {33, ".TpI|context.def(pybind11::init<>(),\"\")"}, {33, ".TpI|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"r", 0, {nullptr, "visible", "module, visible", "module"}, {
    {false, {}, {}},
    {false, {}, {{37, "|context.def(\"rf\",pybind11::overload_cast<>(&::r::rf),\"\")"}}},
    {false, {37}, {{6, "|submodule<>(\"r\")"}, {37, ".r|context.def(\"rf\",pybind11::overload_cast<>(&::r::rf),\"\")"}, {37, ".r|[](auto&parent){parent.attr(\"r\")=1;}(context)"}}},
    {false, {37}, {{6, "|submodule<>(\"r\")"}, {37, ".r|[](auto&parent){parent.attr(\"r\")=1;}(context)"}}}}},
  {"rp", 0, {nullptr, "postamble", "hidden"}, {
    {false, {}, {}},
    {true, {}, {}},
    {false, {37}, {}}}},
  {"root", 0, {nullptr, "postamble", "hidden", "visible", "expose_as(ignored)"}, {
    {false, {}, {}},
    {false, {7}, {{41, "*|[](auto&parent){parent.attr(\"root\")=1;}(context)"}}},
    {false, {7}, {}},
    {false, {}, {}},
    {false, {}, {}}}},
  {"post2", 0, {"postamble", nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {42}, {{8, "|[](auto&parent){parent.attr(\"post2\")=1;}(context)"}}},
    {false, {42}, {}}}},
}};
RegE R0({"C26.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
