// Generated by mkzoo.py from zoo/*.zoo; reviewed by hand.
#include "e_lib.h"
namespace {
const char *const H0 = R"zoo(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
/// First line.
/// Second "line" \n.
///
/// Second paragraph.
void para(int);
/// \brief Brief command.
/// Details.
void brief(int);
/** Block comment
 *  with stars. */
void block(int);
/*! Qt block. */ void qt(int);
// Ordinary comment.
void ordinary(int);
/* Ordinary block. */ void ordinary2(int);
void redecl(int);
/// Doc of second declaration.
void redecl(int);
/// Overload one.
void ov(int);
void ov(double);
/// Overload three.
void ov(char);
/// Template.
template <typename T> void tpl(T);
template <> void tpl<int>(int) GENPYBIND(__sel_ti);
/// Specialisation.
template <> void tpl<char>(char) GENPYBIND(__sel_tc);
extern template GENPYBIND(__sel_td) void tpl<double>(double);
/// Base class doc.
struct GENPYBIND(__sel_base) Base {
  /// Default constructor.
  Base();
  /// From int.
  Base(int);
  Base(double);
  /// Virtual method.
  virtual void v();
  /// Inherited method.
  void inh(int);
  /// Static method.
  static void st();
  /// Field.
  int field;
  /// Static field.
  static int sfield;
  /// Call.
  int operator()(int);
  int operator()(char);
  /// Equality.
  bool operator==(Base const &) const;
  bool operator!=(Base const &) const;
  /// Friend plus.
  friend Base operator+(Base const &, int);
  friend Base operator-(Base const &, int);
  /// Getter.
  int get() const GENPYBIND(__sel_get);
  /// Conversion.
  operator int() const;
};
struct GENPYBIND(__sel_der) Der : Base {
  void v() override;
  /// Using.
  using Base::inh;
  /// Nested.
  struct Nested {};
  struct Undoc {};
  /// Nested enum.
  enum E {
    /// Enumerator a.
    a,
    b, ///< Trailing b.
    c,
    d GENPYBIND(__sel_d) ///< Trailing d.
  };
  enum class U { x };
  /// Alias.
  using A GENPYBIND(__sel_alias) = Nested;
};
/// Manual.
struct GENPYBIND(visible) Last {
  /// Manual doc.
  GENPYBIND_MANUAL({ parent.def("m", []{}); })
  /// Escapes: \\ " % \t end.
  void esc();
  /// Ünïcödé ☃.
  void uni();
  /// ??/ trigraph */ /* end.
  void tri();
};
/// Class template doc.
template <typename T> struct Tp { /// Member of template.
  void m(T); };
extern template struct GENPYBIND(__sel_tp) Tp<int>;
/// Namespace doc.
namespace sub GENPYBIND(__sel_sub) {
/// In namespace.
void f();
}
/// Variable doc.
extern int var;
/// Partial.
/// \param x Something.
/// \return Something.
int params(int x);
/// \return Only return.
int onlyret();
/// \short Short command.
void shrt();
struct Tm {
  /// Constructor template.
  template <typename T> explicit Tm(T *x);
  template <typename T> Tm(T *x, T *y);
  /// Method template.
  template <typename T> void mt(T) const;
  /// Operator template.
  template <typename T> bool operator<(T const &) const;
  template <typename T> bool operator>(T const &) const;
  /// Call template.
  template <typename T> bool operator()(T const &) const;
};
extern template GENPYBIND(visible) Tm::Tm(int *);
extern template GENPYBIND(visible) Tm::Tm(int *, int *);
extern template GENPYBIND(visible) void Tm::mt<int>(int) const;
extern template GENPYBIND(visible) bool Tm::operator< <int>(int const &) const;
extern template GENPYBIND(visible) bool Tm::operator> <int>(int const &) const;
extern template GENPYBIND(visible) bool Tm::operator()<int>(int const &) const;
/// Free operator template.
template <typename T> Tm operator*(Tm const &, T);
extern template GENPYBIND(visible) Tm operator* <int>(Tm const &, int);
/// Scoped enumeration.
enum class Sc { /// Scoped enumerator.
  x };
/// Fixed enumeration.
enum Fx : char { fx, /// Fixed enumerator.
  fy };
/// Opaque enumeration.
enum class Op : int; enum class Op : int { op };
enum class Op2 : short;
/// Defined later.
enum class GENPYBIND(__sel_op2) Op2 : short { /** Value. */ op2 };
/// Forward.
struct Fw; struct Fw { };
struct Fw2;
/// Definition.
struct GENPYBIND(__sel_fw2) Fw2 { struct N1; /// Union.
  union Un { int a; float b; }; };
/// Out of line.
struct Fw2::N1 { };
/// Final class.
class Fi final { };
}
)zoo";
const Zoo Z0{{
  "|class<::n::Base>(\"Base\",\"Base class doc.\")",
  "|class<::n::Der,::n::Base>(\"Der\")",
  ".Der|class<::n::Der::Nested>(\"Nested\",\"Nested.\")",
  ".Der|class<::n::Der::Undoc>(\"Undoc\")",
  ".Der|enum<::n::Der::E>(\"E\",\"Nested enum.\")",
  ".Der|enum<::n::Der::U>(\"U\")",
  "|class<::n::Last>(\"Last\",\"Manual.\")",
  "|class<::n::Tp<int>>(\"Tp_int_\")",
  "|class<::n::Tm>(\"Tm\")",
  "|enum<::n::Sc>(\"Sc\",\"Scoped enumeration.\")",
  "|enum<::n::Fx>(\"Fx\",\"Fixed enumeration.\")",
  "|enum<::n::Op>(\"Op\",\"Opaque enumeration.\")",
  "|enum<::n::Op2>(\"Op2\",\"Defined later.\")",
  "|class<::n::Fw>(\"Fw\",\"Forward.\")",
  "|class<::n::Fw2>(\"Fw2\",\"Definition.\")",
  ".Fw2|class<::n::Fw2::Un>(\"Un\",\"Union.\")",
  ".Fw2|class<::n::Fw2::N1>(\"N1\",\"Out of line.\")",
  "|class<::n::Fi>(\"Fi\",\"Final class.\")",
  "|context.def(\"para\",pybind11::overload_cast<int>(&::n::para),\"First line. Second \\\"line\\\" .\",pybind11::arg(\"\"))",
  "|context.def(\"brief\",pybind11::overload_cast<int>(&::n::brief),\"Brief command. Details.\",pybind11::arg(\"\"))",
  "|context.def(\"block\",pybind11::overload_cast<int>(&::n::block),\"Block comment with stars.\",pybind11::arg(\"\"))",
  "|context.def(\"qt\",pybind11::overload_cast<int>(&::n::qt),\"Qt block.\",pybind11::arg(\"\"))",
  "|context.def(\"ordinary\",pybind11::overload_cast<int>(&::n::ordinary),\"\",pybind11::arg(\"\"))",
  "|context.def(\"ordinary2\",pybind11::overload_cast<int>(&::n::ordinary2),\"\",pybind11::arg(\"\"))",
  "|context.def(\"redecl\",pybind11::overload_cast<int>(&::n::redecl),\"Doc of second declaration.\",pybind11::arg(\"\"))",
  "|context.def(\"ov\",pybind11::overload_cast<int>(&::n::ov),\"Overload one.\",pybind11::arg(\"\"))",
  "|context.def(\"ov\",pybind11::overload_cast<double>(&::n::ov),\"\",pybind11::arg(\"\"))",
  "|context.def(\"ov\",pybind11::overload_cast<char>(&::n::ov),\"Overload three.\",pybind11::arg(\"\"))",
  "|context.def(\"tpl\",pybind11::overload_cast<int>(&::n::tpl<int>),\"Template.\",pybind11::arg(\"\"))",
  "|context.def(\"tpl\",pybind11::overload_cast<char>(&::n::tpl<char>),\"Specialisation.\",pybind11::arg(\"\"))",
  "|context.def(\"tpl\",pybind11::overload_cast<double>(&::n::tpl<double>),\"Template.\",pybind11::arg(\"\"))",
  "|context.attr(\"var\")=::n::var",
  "|context.def(\"params\",pybind11::overload_cast<int>(&::n::params),\"Partial.\",pybind11::arg(\"x\"))",
  "|context.def(\"onlyret\",pybind11::overload_cast<>(&::n::onlyret),\"Returns Only return.\")",
  "|context.def(\"shrt\",pybind11::overload_cast<>(&::n::shrt),\"Short command.\")",
  "|context.def(\"operator_\",pybind11::overload_cast<const::n::Tm&,int>(&::n::operator*<int>),\"Free operator template.\",pybind11::arg(\"\"),pybind11::arg(\"\"))",
  ".Base|context.def(pybind11::init<const::n::Base&>(),\"\",pybind11::arg(\"\"))",
  ".Base|context.def(pybind11::init<>(),\"Default constructor.\")",
  ".Base|context.def(pybind11::init<int>(),\"From int.\",pybind11::arg(\"\"))",
  ".Base|context.def(pybind11::init<double>(),\"\",pybind11::arg(\"\"))",
  ".Base|context.def(\"v\",pybind11::overload_cast<>(&::n::Base::v),\"Virtual method.\")",
  ".Base|context.def(\"inh\",pybind11::overload_cast<int>(&::n::Base::inh),\"Inherited method.\",pybind11::arg(\"\"))",
  ".Base|context.def_static(\"st\",pybind11::overload_cast<>(&::n::Base::st),\"Static method.\")",
  ".Base|context.def_readwrite(\"field\",&::n::Base::field)",
  ".Base|context.def_readwrite_static(\"sfield\",&::n::Base::sfield)",
  ".Base|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::Base::operator()),\"Call.\",pybind11::arg(\"\"))",
  ".Base|context.def(\"__call__\",pybind11::overload_cast<char>(&::n::Base::operator()),\"\",pybind11::arg(\"\"))",
  ".Base|context.def(\"__eq__\",[](const::n::Base&lhs,const::n::Base&rhs)->bool{returnlhs==rhs;},\"Equality.\",pybind11::is_operator())",
  ".Base|context.def(\"__ne__\",[](const::n::Base&lhs,const::n::Base&rhs)->bool{returnlhs!=rhs;},\"\",pybind11::is_operator())",
  ".Base|context.def(\"get\",pybind11::overload_cast<>(&::n::Base::get,pybind11::const_),\"Getter.\")",
  ".Base|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Base::operatorint,pybind11::const_),\"Conversion.\")",
  ".Base|context.def(\"__add__\",[](const::n::Base&lhs,intrhs)->::n::Base{returnlhs+rhs;},\"Friend plus.\",pybind11::is_operator())",
  ".Base|context.def(\"__sub__\",[](const::n::Base&lhs,intrhs)->::n::Base{returnlhs-rhs;},\"\",pybind11::is_operator())",
  ".Der|context.def(\"inh\",pybind11::overload_cast<int>(&::n::Base::inh),\"Inherited method.\",pybind11::arg(\"\"))",
  ".Der|context.def(pybind11::init<>(),\"\")",
  ".Der|context.def(pybind11::init<const::n::Der&>(),\"\",pybind11::arg(\"\"))",
  ".Der|context.def(\"v\",pybind11::overload_cast<>(&::n::Der::v),\"\")",
  ".Der.Nested|context.def(pybind11::init<>(),\"\")",
  ".Der.Nested|context.def(pybind11::init<const::n::Der::Nested&>(),\"\",pybind11::arg(\"\"))",
  ".Der.Undoc|context.def(pybind11::init<>(),\"\")",
  ".Der.Undoc|context.def(pybind11::init<const::n::Der::Undoc&>(),\"\",pybind11::arg(\"\"))",
  ".Der.E|context.value(\"a\",::n::Der::E::a,\"Enumerator a.\")",
  ".Der.E|context.value(\"b\",::n::Der::E::b,\"Trailing b.\")",
  ".Der.E|context.value(\"c\",::n::Der::E::c)",
  ".Der.E|context.value(\"d\",::n::Der::E::d,\"Trailing d.\")",
  ".Der.E|context.export_values()",
  ".Der.U|context.value(\"x\",::n::Der::U::x)",
  ".Last|context.def(pybind11::init<>(),\"\")",
  ".Last|context.def(pybind11::init<const::n::Last&>(),\"\",pybind11::arg(\"\"))",
  ".Last|[](auto&parent){parent.def(\"m\",[]{});}(context)",
  ".Last|context.def(\"esc\",pybind11::overload_cast<>(&::n::Last::esc),\"Escapes: \\\\ \\\" % end.\")",
  ".Last|context.def(\"uni\",pybind11::overload_cast<>(&::n::Last::uni),\"\\303\\234n\\303\\257c\\303\\266d\\303\\251 \\342\\230\\203.\")",
  ".Last|context.def(\"tri\",pybind11::overload_cast<>(&::n::Last::tri),\"??/ trigraph */ /* end.\")",
  ".Tp_int_|context.def(\"m\",pybind11::overload_cast<int>(&::n::Tp<int>::m),\"Member of template.\",pybind11::arg(\"\"))",
  ".Tp_int_|context.def(pybind11::init<>(),\"\")",
  ".Tp_int_|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))",
  "|context.def(\"f\",pybind11::overload_cast<>(&::n::sub::f),\"In namespace.\")",
  ".Tm|context.def(pybind11::init<const::n::Tm&>(),\"\",pybind11::arg(\"\"))",
  ".Tm|context.def(pybind11::init<int*>(),\"Constructor template.\",pybind11::arg(\"x\"))",
  ".Tm|context.def(pybind11::init<int*,int*>(),\"\",pybind11::arg(\"x\"),pybind11::arg(\"y\"))",
  ".Tm|context.def(\"mt\",pybind11::overload_cast<int>(&::n::Tm::mt<int>,pybind11::const_),\"Method template.\",pybind11::arg(\"\"))",
  ".Tm|context.def(\"__lt__\",[](const::n::Tm&lhs,constint&rhs)->bool{returnlhs<rhs;},\"Operator template.\",pybind11::is_operator())",
  ".Tm|context.def(\"__gt__\",[](const::n::Tm&lhs,constint&rhs)->bool{returnlhs>rhs;},\"\",pybind11::is_operator())",
  ".Tm|context.def(\"__call__\",pybind11::overload_cast<constint&>(&::n::Tm::operator()<int>,pybind11::const_),\"Call template.\",pybind11::arg(\"\"))",
  ".Tm|context.def(\"__mul__\",[](const::n::Tm&lhs,intrhs)->::n::Tm{returnlhs*rhs;},\"Free operator template.\",pybind11::is_operator())",
  ".Sc|context.value(\"x\",::n::Sc::x,\"Scoped enumerator.\")",
  ".Fx|context.value(\"fx\",::n::Fx::fx)",
  ".Fx|context.value(\"fy\",::n::Fx::fy,\"Fixed enumerator.\")",
  ".Fx|context.export_values()",
  ".Op|context.value(\"op\",::n::Op::op)",
  ".Op2|context.value(\"op2\",::n::Op2::op2,\"Value.\")",
  ".Fw|context.def(pybind11::init<>(),\"\")",
  ".Fw|context.def(pybind11::init<const::n::Fw&>(),\"\",pybind11::arg(\"\"))",
  ".Fw2|context.def(pybind11::init<>(),\"\")",
  ".Fw2|context.def(pybind11::init<const::n::Fw2&>(),\"\",pybind11::arg(\"\"))",
  ".Fw2.Un|context.def(pybind11::init<>(),\"\")",
  ".Fw2.Un|context.def(pybind11::init<const::n::Fw2::Un&>(),\"\",pybind11::arg(\"\"))",
  ".Fw2.Un|context.def_readwrite(\"a\",&::n::Fw2::Un::a)",
  ".Fw2.Un|context.def_readwrite(\"b\",&::n::Fw2::Un::b)",
  ".Fw2.N1|context.def(pybind11::init<>(),\"\")",
  ".Fw2.N1|context.def(pybind11::init<const::n::Fw2::N1&>(),\"\",pybind11::arg(\"\"))",
  ".Fi|context.def(pybind11::init<>(),\"\")",
  ".Fi|context.def(pybind11::init<const::n::Fi&>(),\"\",pybind11::arg(\"\"))"
}, {
  {"ti", 0, {"visible", "hidden", "expose_as(tpl_int)"}, {
    {false, {}, {}},
    {false, {28}, {}},
    {false, {28}, {{28, "|context.def(\"tpl_int\",pybind11::overload_cast<int>(&::n::tpl<int>),\"Template.\",pybind11::arg(\"\"))"}}}}},
  {"tc", 0, {"visible", "hidden"}, {
    {false, {}, {}},
    {false, {29}, {}}}},
  {"td", 0, {"visible", "expose_as(tpl_d)", "hidden"}, {
    {false, {}, {}},
    {false, {30}, {{30, "|context.def(\"tpl_d\",pybind11::overload_cast<double>(&::n::tpl<double>),\"Template.\",pybind11::arg(\"\"))"}}},
    {false, {30}, {}}}},
  {"base", 0, {nullptr, "hidden", "expose_as(Other)"}, {
    {false, {}, {}},
    {false, {0, 1, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52}, {{0, "|class<::n::Der>(\"Der\")"}}},
    {false, {0, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52}, {{0, "|class<::n::Base>(\"Other\",\"Base class doc.\")"}, {36, ".Other|context.def(pybind11::init<const::n::Base&>(),\"\",pybind11::arg(\"\"))"}, {36, ".Other|context.def(pybind11::init<>(),\"Default constructor.\")"}, {36, ".Other|context.def(pybind11::init<int>(),\"From int.\",pybind11::arg(\"\"))"}, {36, ".Other|context.def(pybind11::init<double>(),\"\",pybind11::arg(\"\"))"}, {36, ".Other|context.def(\"v\",pybind11::overload_cast<>(&::n::Base::v),\"Virtual method.\")"}, {36, ".Other|context.def(\"inh\",pybind11::overload_cast<int>(&::n::Base::inh),\"Inherited method.\",pybind11::arg(\"\"))"}, {36, ".Other|context.def_static(\"st\",pybind11::overload_cast<>(&::n::Base::st),\"Static method.\")"}, {36, ".Other|context.def_readwrite(\"field\",&::n::Base::field)"}, {36, ".Other|context.def_readwrite_static(\"sfield\",&::n::Base::sfield)"}, {36, ".Other|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::Base::operator()),\"Call.\",pybind11::arg(\"\"))"}, {36, ".Other|context.def(\"__call__\",pybind11::overload_cast<char>(&::n::Base::operator()),\"\",pybind11::arg(\"\"))"}, {36, ".Other|context.def(\"__eq__\",[](const::n::Base&lhs,const::n::Base&rhs)->bool{returnlhs==rhs;},\"Equality.\",pybind11::is_operator())"}, {36, ".Other|context.def(\"__ne__\",[](const::n::Base&lhs,const::n::Base&rhs)->bool{returnlhs!=rhs;},\"\",pybind11::is_operator())"}, {36, ".Other|context.def(\"get\",pybind11::overload_cast<>(&::n::Base::get,pybind11::const_),\"Getter.\")"}, {36, ".Other|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Base::operatorint,pybind11::const_),\"Conversion.\")"}, {36, ".Other|context.def(\"__add__\",[](const::n::Base&lhs,intrhs)->::n::Base{returnlhs+rhs;},\"Friend plus.\",pybind11::is_operator())"}, {36, ".Other|context.def(\"__sub__\",[](const::n::Base&lhs,intrhs)->::n::Base{returnlhs-rhs;},\"\",pybind11::is_operator())"}}}}},
  {"get", 0, {nullptr, "getter_for(p)", "hidden", "expose_as(g)"}, {
    {false, {}, {}},
    {false, {49}, {{53, ".Base|context.def_property_readonly(\"p\",pybind11::overload_cast<>(&::n::Base::get,pybind11::const_))"}}},
    {false, {49}, {}},
    {false, {49}, {{49, ".Base|context.def(\"g\",pybind11::overload_cast<>(&::n::Base::get,pybind11::const_),\"Getter.\")"}}}}},
  {"der", 0, {nullptr, "inline_base", "inline_base(Base)", "hide_base", "hidden"}, {
    {false, {}, {}},
    {false, {1}, {{1, "|class<::n::Der>(\"Der\")"}, {54, ".Der|context.def_static(\"st\",pybind11::overload_cast<>(&::n::Base::st),\"Static method.\")"}, {54, ".Der|context.def_readwrite(\"field\",&::n::Base::field)"}, {54, ".Der|context.def_readwrite_static(\"sfield\",&::n::Base::sfield)"}, {54, ".Der|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::Base::operator()),\"Call.\",pybind11::arg(\"\"))"}, {54, ".Der|context.def(\"__call__\",pybind11::overload_cast<char>(&::n::Base::operator()),\"\",pybind11::arg(\"\"))"}, {54, ".Der|context.def(\"__eq__\",[](const::n::Der&lhs,const::n::Base&rhs)->bool{returnlhs==rhs;},\"Equality.\",pybind11::is_operator())"}, {54, ".Der|context.def(\"__ne__\",[](const::n::Der&lhs,const::n::Base&rhs)->bool{returnlhs!=rhs;},\"\",pybind11::is_operator())"}, {54, ".Der|context.def(\"get\",pybind11::overload_cast<>(&::n::Base::get,pybind11::const_),\"Getter.\")"}, {54, ".Der|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Base::operatorint,pybind11::const_),\"Conversion.\")"}}},
    {false, {1}, {{1, "|class<::n::Der>(\"Der\")"}, {54, ".Der|context.def_static(\"st\",pybind11::overload_cast<>(&::n::Base::st),\"Static method.\")"}, {54, ".Der|context.def_readwrite(\"field\",&::n::Base::field)"}, {54, ".Der|context.def_readwrite_static(\"sfield\",&::n::Base::sfield)"}, {54, ".Der|context.def(\"__call__\",pybind11::overload_cast<int>(&::n::Base::operator()),\"Call.\",pybind11::arg(\"\"))"}, {54, ".Der|context.def(\"__call__\",pybind11::overload_cast<char>(&::n::Base::operator()),\"\",pybind11::arg(\"\"))"}, {54, ".Der|context.def(\"__eq__\",[](const::n::Der&lhs,const::n::Base&rhs)->bool{returnlhs==rhs;},\"Equality.\",pybind11::is_operator())"}, {54, ".Der|context.def(\"__ne__\",[](const::n::Der&lhs,const::n::Base&rhs)->bool{returnlhs!=rhs;},\"\",pybind11::is_operator())"}, {54, ".Der|context.def(\"get\",pybind11::overload_cast<>(&::n::Base::get,pybind11::const_),\"Getter.\")"}, {54, ".Der|context.def(\"operator_int\",pybind11::overload_cast<>(&::n::Base::operatorint,pybind11::const_),\"Conversion.\")"}}},
    {false, {1}, {{1, "|class<::n::Der>(\"Der\")"}}},
    {false, {1, 2, 3, 4, 5, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66}, {}}}},
  {"d", 0, {nullptr, "hidden", "expose_as(dd)"}, {
    {false, {}, {}},
    {false, {64}, {}},
    {false, {64}, {{64, ".Der.E|context.value(\"dd\",::n::Der::E::d,\"Trailing d.\")"}}}}},
  {"alias", 0, {nullptr, "visible", "expose_here"}, {
    {false, {}, {}},
    {false, {}, {{57, ".Der|context.attr(\"A\")=::genpybind::getObjectForType<::n::Der::Nested>()"}}},
    {false, {2, 57, 58}, {{2, ".Der|class<::n::Der::Nested>(\"A\",\"Nested.\")"}, {57, ".Der.A|context.def(pybind11::init<>(),\"\")"}, {57, ".Der.A|context.def(pybind11::init<const::n::Der::Nested&>(),\"\",pybind11::arg(\"\"))"}}}}},
  {"tp", 0, {"visible", "expose_as(TpInt)", "hidden"}, {
    {false, {}, {}},
    {false, {7, 73, 74, 75}, {{7, "|class<::n::Tp<int>>(\"TpInt\")"}, {73, ".TpInt|context.def(\"m\",pybind11::overload_cast<int>(&::n::Tp<int>::m),\"Member of template.\",pybind11::arg(\"\"))"}, {73, ".TpInt|context.def(pybind11::init<>(),\"\")"}, {73, ".TpInt|context.def(pybind11::init<const::n::Tp<int>&>(),\"\",pybind11::arg(\"\"))"}}},
    {false, {7, 73, 74, 75}, {}}}},
  {"sub", 0, {nullptr, "module", "hidden", "module(x)"}, {
    {false, {}, {}},
    {false, {76}, {{8, "|submodule<>(\"sub\")"}, {76, ".sub|context.def(\"f\",pybind11::overload_cast<>(&::n::sub::f),\"In namespace.\")"}}},
    {false, {76}, {}},
    {false, {76}, {{8, "|submodule<>(\"x\")"}, {76, ".x|context.def(\"f\",pybind11::overload_cast<>(&::n::sub::f),\"In namespace.\")"}}}}},
  {"op2", 0, {nullptr, "hidden", "expose_as(Op3)"}, {
    {false, {}, {}},
    {false, {12, 90}, {}},
    {false, {12, 90}, {{12, "|enum<::n::Op2>(\"Op3\",\"Defined later.\")"}, {90, ".Op3|context.value(\"op2\",::n::Op2::op2,\"Value.\")"}}}}},
  {"fw2", 0, {nullptr, "expose_as(Fw3)"}, {
    {false, {}, {}},
    {false, {14, 15, 16, 93, 94, 95, 96, 97, 98, 99, 100}, {{14, "|class<::n::Fw2>(\"Fw3\",\"Definition.\")"}, {14, ".Fw3|class<::n::Fw2::Un>(\"Un\",\"Union.\")"}, {14, ".Fw3|class<::n::Fw2::N1>(\"N1\",\"Out of line.\")"}, {93, ".Fw3|context.def(pybind11::init<>(),\"\")"}, {93, ".Fw3|context.def(pybind11::init<const::n::Fw2&>(),\"\",pybind11::arg(\"\"))"}, {93, ".Fw3.Un|context.def(pybind11::init<>(),\"\")"}, {93, ".Fw3.Un|context.def(pybind11::init<const::n::Fw2::Un&>(),\"\",pybind11::arg(\"\"))"}, {93, ".Fw3.Un|context.def_readwrite(\"a\",&::n::Fw2::Un::a)"}, {93, ".Fw3.Un|context.def_readwrite(\"b\",&::n::Fw2::Un::b)"}, {93, ".Fw3.N1|context.def(pybind11::init<>(),\"\")"}, {93, ".Fw3.N1|context.def(pybind11::init<const::n::Fw2::N1&>(),\"\",pybind11::arg(\"\"))"}}}}},
}};
RegE R0({"C17.q.zoo", H0, {}, [](Env &e) { zooSetup(e, Z0); }, [](Env &e, const Result &r) { zooOracle(e, r, Z0); }});
} // namespace
