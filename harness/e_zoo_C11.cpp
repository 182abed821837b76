// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace std { template <typename T> struct char_traits; template <typename T, typename U = char_traits<T>> struct basic_ostream {}; typedef basic_ostream<char> ostream; typedef basic_ostream<wchar_t> wostream; }
namespace n GENPYBIND(visible) {
struct Other { int o; };
struct S {
  S operator+(S const &) const GENPYBIND(__sel_add);
  S operator+(int) const GENPYBIND(__sel_addi);
  S operator+() const GENPYBIND(__sel_pos);
  S operator-(S) const; S operator-() const GENPYBIND(__sel_neg);
  S operator*(S *) const; S operator/(S &); S operator%(double) volatile; S operator^(S const &) const &;
  bool operator==(S const &) const GENPYBIND(__sel_eq); bool operator!=(Other const &) const; bool operator<(S const &) const noexcept; bool operator>=(int) const;
  S &operator+=(S const &); S &operator<<=(int); S operator<<(int) const; S operator>>(Other) const;
  S operator~() const; bool operator!() const; bool operator&&(S) const; S operator,(S) const; S *operator->(); S &operator*(); S *operator&();
  S &operator++(); S operator++(int); S &operator=(int); int operator[](int) const; int operator()(int); int operator()(Other, int = 2) const;
  void *operator new(unsigned long); void operator delete(void *);
  S operator|(S const &) const = delete;
  template <typename T> S operator|(T) const;
protected: S operator%(S) const;
private: S operator-(Other) const GENPYBIND(visible);
public:
  friend S operator+(Other const &, S const &) GENPYBIND(__sel_fr1);
  friend S operator-(S const &a, Other b) { return a; }
  friend bool operator<=(S const &, S const &) GENPYBIND(__sel_le) { return true; }
  friend std::ostream &operator<<(std::ostream &, S const &) GENPYBIND(__sel_os);
};
bool operator>(S const &, S const &) GENPYBIND(__sel_gt);
S operator*(int, S const &) GENPYBIND(__sel_mul);
S operator/(S, int) GENPYBIND(__sel_div);
S operator-(Other) GENPYBIND(hidden);
Other operator%(Other const &, S &) GENPYBIND(__sel_mod);
S operator&(S const *, Other) GENPYBIND(__sel_ptr);
bool operator==(Other, Other) GENPYBIND(__sel_oeq);
template <typename T> struct Tp { T x; Tp operator+(Tp const &) const; bool operator==(T) const; friend bool operator<(Tp const &, Tp const &) { return true; } friend Tp operator*(T, Tp const &) { return {}; } };
template struct GENPYBIND(visible) Tp<int>;
struct D : S { bool operator==(D const &) const GENPYBIND(__sel_deq); using S::operator+; };
struct GENPYBIND(inline_base(S)) Inl : S {};
enum class E { a, b }; E operator|(E, E) GENPYBIND(__sel_enum); bool operator!(E) GENPYBIND(hidden);
std::ostream &operator<<(std::ostream &, Other const &) GENPYBIND(__sel_os2);
int operator<<(Other const &, std::ostream &) GENPYBIND(__sel_os4);
struct Hid { friend bool operator==(Hid, Hid) GENPYBIND(__sel_hid) { return true; } };
}
namespace m { n::S operator>>(n::S const &, n::Hid) GENPYBIND(__sel_mns); struct GENPYBIND(visible) M { bool operator<(n::S const &) const; }; bool operator>(M, n::S) GENPYBIND(__sel_mgt); }
)zoo";
const Zoo Z0{{
  "|class<::n::Other>(\"Other\")",
  "|class<::n::S>(\"S\")",
  "|class<::n::Tp<int>>(\"Tp_int_\")",
  "|class<::n::D,::n::S>(\"D\")",
  "|class<::n::Inl>(\"Inl\")",
  "|enum<::n::E>(\"E\")",
  "|class<::n::Hid>(\"Hid\")",
  "|class<::m::M>(\"M\")",
  ".Other|context.def(pybind11::init<>(),\"\")",
  ".Other|context.def(pybind11::init<const::n::Other&>(),\"\",pybind11::arg(\"\"))",
  ".Other|context.def_readwrite(\"o\",&::n::Other::o)",
  ".S|context.def(pybind11::init<>(),\"\")",
  ".S|context.def(pybind11::init<const::n::S&>(),\"\",pybind11::arg(\"\"))",
  ".S|context.def(\"__add__\",[](const::n::S&lhs,const::n::S&rhs)->::n::S{returnlhs+rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__add__\",[](const::n::S&lhs,intrhs)->::n::S{returnlhs+rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__pos__\",[](const::n::S&lhs)->::n::S{return+lhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__sub__\",[](const::n::S&lhs,::n::Srhs)->::n::S{returnlhs-rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__neg__\",[](const::n::S&lhs)->::n::S{return-lhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__mul__\",[](const::n::S&lhs,::n::S*rhs)->::n::S{returnlhs*rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__truediv__\",[](::n::S&lhs,::n::S&rhs)->::n::S{returnlhs/rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__mod__\",[](::n::S&lhs,doublerhs)->::n::S{returnlhs%rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__xor__\",[](const::n::S&lhs,const::n::S&rhs)->::n::S{returnlhs^rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__eq__\",[](const::n::S&lhs,const::n::S&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__ne__\",[](const::n::S&lhs,const::n::Other&rhs)->bool{returnlhs!=rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__lt__\",[](const::n::S&lhs,const::n::S&rhs)->bool{returnlhs<rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__ge__\",[](const::n::S&lhs,intrhs)->bool{returnlhs>=rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__iadd__\",[](::n::S&lhs,const::n::S&rhs)->::n::S&{returnlhs+=rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__ilshift__\",[](::n::S&lhs,intrhs)->::n::S&{returnlhs<<=rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__lshift__\",[](const::n::S&lhs,intrhs)->::n::S{returnlhs<<rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__rshift__\",[](const::n::S&lhs,::n::Otherrhs)->::n::S{returnlhs>>rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__invert__\",[](const::n::S&lhs)->::n::S{return~lhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))",
  ".S|context.def(\"__call__\",pybind11::overload_cast<::n::Other,int>(&::n::S::operator(),pybind11::const_),\"\",pybind11::arg(\"\"),pybind11::arg(\"\")=2)",
  ".S|context.def(\"__radd__\",[](const::n::S&lhs,const::n::Other&rhs)->::n::S{returnrhs+lhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__sub__\",[](const::n::S&lhs,::n::Otherrhs)->::n::S{returnlhs-rhs;},\"\",pybind11::is_operator())",
  ".S|context.def(\"__le__\",[](const::n::S&lhs,const::n::S&rhs)->bool{returnlhs<=rhs;},\"\",pybind11::is_operator())",
  ".Tp_int_|context.def_readwrite(\"x\",&::n::Tp<int>::x)",
  ".Tp_int_|context.def(\"__add__\",[](const::n::Tp<int>&lhs,const::n::Tp<int>&rhs)->::n::Tp<int>{returnlhs+rhs;},\"\",pybind11::is_operator())",
  ".Tp_int_|context.def(\"__eq__\",[](const::n::Tp<int>&lhs,intrhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())",
  ".Tp_int_|context.def(pybind11::init<>(),\"\")",
  ".Tp_int_|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))",
  ".Tp_int_|context.def(\"__rmul__\",[](const::n::Tp<int>&lhs,intrhs)->::n::Tp<int>{returnrhs*lhs;},\"\",pybind11::is_operator())",
  ".Tp_int_|context.def(\"__lt__\",[](const::n::Tp<int>&lhs,const::n::Tp<int>&rhs)->bool{returnlhs<rhs;},\"\",pybind11::is_operator())",
  ".D|context.def(\"__add__\",[](const::n::D&lhs,const::n::S&rhs)->::n::S{returnlhs+rhs;},\"\",pybind11::is_operator())",
  ".D|context.def(\"__add__\",[](const::n::D&lhs,intrhs)->::n::S{returnlhs+rhs;},\"\",pybind11::is_operator())",
  ".D|context.def(\"__pos__\",[](const::n::D&lhs)->::n::S{return+lhs;},\"\",pybind11::is_operator())",
  ".D|context.def(pybind11::init<>(),\"\")",
  ".D|context.def(pybind11::init<const::n::D&>(),\"\",pybind11::arg(\"\"))",
  ".D|context.def(\"__eq__\",[](const::n::D&lhs,const::n::D&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__add__\",[](const::n::Inl&lhs,const::n::S&rhs)->::n::S{returnlhs+rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__add__\",[](const::n::Inl&lhs,intrhs)->::n::S{returnlhs+rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__pos__\",[](const::n::Inl&lhs)->::n::S{return+lhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__sub__\",[](const::n::Inl&lhs,::n::Srhs)->::n::S{returnlhs-rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__neg__\",[](const::n::Inl&lhs)->::n::S{return-lhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__mul__\",[](const::n::Inl&lhs,::n::S*rhs)->::n::S{returnlhs*rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__truediv__\",[](::n::Inl&lhs,::n::S&rhs)->::n::S{returnlhs/rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__mod__\",[](::n::Inl&lhs,doublerhs)->::n::S{returnlhs%rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__xor__\",[](const::n::Inl&lhs,const::n::S&rhs)->::n::S{returnlhs^rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__eq__\",[](const::n::Inl&lhs,const::n::S&rhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__ne__\",[](const::n::Inl&lhs,const::n::Other&rhs)->bool{returnlhs!=rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__lt__\",[](const::n::Inl&lhs,const::n::S&rhs)->bool{returnlhs<rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__ge__\",[](const::n::Inl&lhs,intrhs)->bool{returnlhs>=rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__iadd__\",[](::n::Inl&lhs,const::n::S&rhs)->::n::S&{returnlhs+=rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__ilshift__\",[](::n::Inl&lhs,intrhs)->::n::S&{returnlhs<<=rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__lshift__\",[](const::n::Inl&lhs,intrhs)->::n::S{returnlhs<<rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__rshift__\",[](const::n::Inl&lhs,::n::Otherrhs)->::n::S{returnlhs>>rhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__invert__\",[](const::n::Inl&lhs)->::n::S{return~lhs;},\"\",pybind11::is_operator())",
  ".Inl|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::S::operator()),\"\",pybind11::arg(\"\"))",
  ".Inl|context.def(\"__call__\",pybind11::overload_cast<::n::Other,int>(&::n::S::operator(),pybind11::const_),\"\",pybind11::arg(\"\"),pybind11::arg(\"\")=2)",
  ".Inl|context.def(pybind11::init<>(),\"\")",
  ".Inl|context.def(pybind11::init<const::n::Inl&>(),\"\",pybind11::arg(\"\"))",
  ".E|context.value(\"a\",::n::E::a)",
  ".E|context.value(\"b\",::n::E::b)",
  ".Hid|context.def(pybind11::init<>(),\"\")",
  ".Hid|context.def(pybind11::init<const::n::Hid&>(),\"\",pybind11::arg(\"\"))",
  ".Hid|context.def(\"__eq__\",[](::n::Hidlhs,::n::Hidrhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())",
  ".M|context.def(pybind11::init<>(),\"\")",
  ".M|context.def(pybind11::init<const::m::M&>(),\"\",pybind11::arg(\"\"))",
  ".M|context.def(\"__lt__\",[](const::m::M&lhs,const::n::S&rhs)->bool{returnlhs<rhs;},\"\",pybind11::is_operator())",
  ".M|context.def(\"__gt__\",[](::m::Mlhs,::n::Srhs)->bool{returnlhs>rhs;},\"\",pybind11::is_operator())"
}, {
  {"add", 0, {nullptr, "hidden", "visible(false)"}, {
    {false, {}, {}},
    {false, {13, 43, 49}, {}},
    {false, {13, 43, 49}, {}}}},
  {"addi", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {14, 44, 50}, {}}}},
  {"pos", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {15, 45, 51}, {}}}},
  {"neg", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {17, 53}, {}}}},
  {"eq", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {22, 58}, {}}}},
  {"fr1", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {33}, {}}}},
  {"le", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {35}, {}}}},
  {"os", 0, {nullptr, "expose_as(__str__)", "expose_as(__repr__)", "expose_as(other)", "hidden", "visible", "hidden, expose_as(__str__)", "expose_as(__repr__), expose_as(__str__)"}, {
    {false, {}, {}},
    {false, {}, {{35, ".S|context.def(\"__str__\",::genpybind::string_from_lshift<::n::S>)"}}},
    {false, {}, {{35, ".S|context.def(\"__repr__\",::genpybind::string_from_lshift<::n::S>)"}}},
    {false, {}, {{35, ".S|context.def(\"other\",::genpybind::string_from_lshift<::n::S>)"}}},
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {}},
    {false, {}, {{35, ".S|context.def(\"__str__\",::genpybind::string_from_lshift<::n::S>)"}}}}},
  {"gt", 0, {"hidden", nullptr}, {
    {false, {}, {}},
    {false, {}, {{8, "|context.def(\"operator_\",pybind11::overload_cast<const::n::S&,const::n::S&>(&::n::operator>),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {35, ".S|context.def(\"__gt__\",[](const::n::S&lhs,const::n::S&rhs)->bool{returnlhs>rhs;},\"\",pybind11::is_operator())"}}}}},
  {"mul", 0, {"hidden", nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{8, "|context.def(\"operator_\",pybind11::overload_cast<int,const::n::S&>(&::n::operator*),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {35, ".S|context.def(\"__rmul__\",[](const::n::S&lhs,intrhs)->::n::S{returnrhs*lhs;},\"\",pybind11::is_operator())"}}},
    {false, {}, {{8, "|context.def(\"operator_\",pybind11::overload_cast<int,const::n::S&>(&::n::operator*),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {35, ".S|context.def(\"__rmul__\",[](const::n::S&lhs,intrhs)->::n::S{returnrhs*lhs;},\"\",pybind11::is_operator())"}}}}},
  {"div", 0, {"hidden", nullptr}, {
    {false, {}, {}},
    {false, {}, {{8, "|context.def(\"operator_\",pybind11::overload_cast<::n::S,int>(&::n::operator/),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {35, ".S|context.def(\"__truediv__\",[](::n::Slhs,intrhs)->::n::S{returnlhs/rhs;},\"\",pybind11::is_operator())"}}}}},
  {"mod", 0, {"hidden", nullptr}, {
    {false, {}, {}},
    {false, {}, {{8, "|context.def(\"operator_\",pybind11::overload_cast<const::n::Other&,::n::S&>(&::n::operator%),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {11, ".Other|context.def(\"__mod__\",[](const::n::Other&lhs,::n::S&rhs)->::n::Other{returnlhs%rhs;},\"\",pybind11::is_operator())"}, {35, ".S|context.def(\"__rmod__\",[](::n::S&lhs,const::n::Other&rhs)->::n::Other{returnrhs%lhs;},\"\",pybind11::is_operator())"}}}}},
  {"ptr", 0, {"hidden", nullptr}, {
    {false, {}, {}},
    {false, {}, {{8, "|context.def(\"operator_\",pybind11::overload_cast<const::n::S*,::n::Other>(&::n::operator&),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {11, ".Other|context.def(\"__rand__\",[](::n::Otherlhs,const::n::S*rhs)->::n::S{returnrhs&lhs;},\"\",pybind11::is_operator())"}}}}},
  {"oeq", 0, {"hidden", nullptr}, {
    {false, {}, {}},
    {false, {}, {{8, "|context.def(\"operator_\",pybind11::overload_cast<::n::Other,::n::Other>(&::n::operator==),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {11, ".Other|context.def(\"__eq__\",[](::n::Otherlhs,::n::Otherrhs)->bool{returnlhs==rhs;},\"\",pybind11::is_operator())"}}}}},
  {"deq", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {48}, {}}}},
  {"enum", 0, {"hidden", nullptr}, {
    {false, {}, {}},
    {false, {}, {{8, "|context.def(\"operator_\",pybind11::overload_cast<::n::E,::n::E>(&::n::operator|),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}}}}},
  {"os2", 0, {"hidden", nullptr, "expose_as(__str__)", "expose_as(__repr__)", "expose_as(name)"}, {
    {false, {}, {}},
    {false, {}, {{8, "|context.def(\"operator_\",pybind11::overload_cast<::std::ostream&,const::n::Other&>(&::n::operator<<),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}}},
    {false, {}, {{8, "|context.def(\"__str__\",pybind11::overload_cast<::std::ostream&,const::n::Other&>(&::n::operator<<),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {11, ".Other|context.def(\"__str__\",::genpybind::string_from_lshift<::n::Other>)"}}},
    {false, {}, {{8, "|context.def(\"__repr__\",pybind11::overload_cast<::std::ostream&,const::n::Other&>(&::n::operator<<),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {11, ".Other|context.def(\"__repr__\",::genpybind::string_from_lshift<::n::Other>)"}}},
    {false, {}, {{8, "|context.def(\"name\",pybind11::overload_cast<::std::ostream&,const::n::Other&>(&::n::operator<<),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {11, ".Other|context.def(\"name\",::genpybind::string_from_lshift<::n::Other>)"}}}}},
  {"os4", 0, {"hidden", nullptr}, {
    {false, {}, {}},
    {false, {}, {{8, "|context.def(\"operator_\",pybind11::overload_cast<const::n::Other&,::std::ostream&>(&::n::operator<<),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}, {11, ".Other|context.def(\"__lshift__\",[](const::n::Other&lhs,::std::ostream&rhs)->int{returnlhs<<rhs;},\"\",pybind11::is_operator())"}}}}},
  {"hid", 0, {nullptr, "hidden"}, {
    {false, {}, {}},
    {false, {75}, {}}}},
  {"mns", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{76, "|context.def(\"operator_\",pybind11::overload_cast<const::n::S&,::n::Hid>(&::m::operator>>),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}}}}},
  {"mgt", 0, {nullptr, "visible"}, {
    {false, {}, {}},
    {false, {}, {{76, "|context.def(\"operator_\",pybind11::overload_cast<::m::M,::n::S>(&::m::operator>),\"\",pybind11::arg(\"\"),pybind11::arg(\"\"))"}}}}},
}};
RegE R0({"C11.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
