// C17: docstrings.
#include "e_lib.h"
namespace {
using Strs = std::vector<std::string>;
#define HDR(D) R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
/// )" D("F") R"(
void f(int a);
void undocumented(int a);
/// )" D("C") R"(
struct S {
  /// )" D("K") R"(
  S(int a);
  /// )" D("M") R"(
  int m(int a) const;
  /// )" D("T") R"(
  static int s();
  /// )" D("O") R"(
  int operator()(int a);
  void plain();
};
struct P { P(); };
/// )" D("E") R"(
enum E {
  w,
  /// )" D("V") R"(
  v };
enum class Q { q };
/// )" D("X") R"(
template <typename T> void x(T a) {}
template void x<int>(int);
/// )" D("Y") R"(
template <typename T> struct Y {
  /// )" D("Z") R"(
  void z(T a); };
using YI GENPYBIND(expose_here) = Y<int>;
}
)"
/// Decodes a string literal; false if it is not one.
bool decode(const std::string &l, std::string &out) {
  if (l.size() < 2 || l[0] != '"' || l[l.size() - 1] != '"') return false;
  for (size_t i = 1; i + 1 < l.size();) {
    char c = l[i++];
    if (c == '"') return false;
    if (c != '\\') { if ((unsigned char)c < 0x20) return false; out += c; continue; }
    if (i + 1 >= l.size()) return false;
    c = l[i++];
    if (c >= '0' && c <= '7') { unsigned v = c - '0'; for (int k = 0; k < 2 && i + 1 < l.size() && l[i] >= '0' && l[i] <= '7'; k++) v = v * 8 + (unsigned)(l[i++] - '0'); out += (char)v; continue; }
    if (c == 'n') out += '\n'; else if (c == 't') out += '\t'; else if (c == '\\' || c == '"' || c == '\'' || c == '?') out += c; else return false;
  }
  return true;
}
bool same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool e = true; for (size_t i = 0; i < a.size(); i++) e = e & (a[i] == b[i]); return e; }
void isDoc(const std::string &lit, const std::string &want) { std::string d; bool ok = decode(lit, d); gs_assert(ok, "docstring is a well-formed string literal"); if (ok) gs_assert(same(d, want), "docstring is exactly the documentation of its declaration"); }
void fnDoc(const GenModel &m, const std::string &ref, const std::string &want) {
  auto r = m.refs(ref); gs_assert(r.size() == 1 && r[0].call->args.size() >= 3, "function exposed with docstring"); if (r.size() != 1 || r[0].call->args.size() < 3) return;
  isDoc(r[0].call->args[2], want);
}
void initDoc(const GenCtx *c, const std::string &init, const std::string &want) {
  size_t n = 0; for (auto &k : c->calls) if (!k.args.empty() && k.args[0] == init) { n++; gs_assert(k.args.size() >= 2, "constructor has docstring"); if (k.args.size() >= 2) isDoc(k.args[1], want); }
  gs_assert(n == 1, "constructor exposed");
}
void ctxDoc(const GenCtx *c, const std::string &want) {
  gs_assert(c != nullptr, "exposed"); if (!c) return;
  gs_assert(c->extra.size() == (size_t)!want.empty(), "docstring present iff documented"); if (c->extra.size() == 1) isDoc(c->extra[0], want);
}
void valDoc(const GenCtx *c, const std::string &name, const std::string &want) {
  size_t n = 0; for (auto &k : c->calls) if (k.fn == "value" && !k.args.empty() && k.args[0] == q(name)) { n++; gs_assert(k.args.size() == 2 + (size_t)!want.empty(), "docstring present iff documented"); if (k.args.size() == 3) isDoc(k.args[2], want); }
  gs_assert(n == 1, "enumerator exposed");
}
struct Docs { std::string F, C, K, M, T, O, E, V, X, Y, Z; };
void check(const Result &r, const Docs &d) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *S = m.byType("::n::S"), *P = m.byType("::n::P"), *E = m.byType("::n::E"), *Q = m.byType("::n::Q"), *Y = m.byType("::n::Y<int>");
  ctxDoc(S, d.C); ctxDoc(P, ""); ctxDoc(E, d.E); ctxDoc(Q, ""); ctxDoc(Y, d.Y); if (!S || !P || !E || !Q || !Y) return;
  fnDoc(m, "&::n::f)", d.F); fnDoc(m, "&::n::undocumented)", ""); fnDoc(m, "&::n::S::m,", d.M); fnDoc(m, "&::n::S::s)", d.T); fnDoc(m, "&::n::S::operator()", d.O);
  fnDoc(m, "&::n::S::plain)", ""); fnDoc(m, "&::n::x<int>)", d.X); fnDoc(m, "&::n::Y<int>::z)", d.Z);
  initDoc(S, "pybind11::init<int>()", d.K); initDoc(S, "pybind11::init<const::n::S&>()", ""); initDoc(P, "pybind11::init<>()", "");
  valDoc(E, "v", d.V); valDoc(E, "w", ""); valDoc(Q, "q", "");
}
// ---------------------------------------------------------------- any bytes
#define ALL(n) "/*@doc*/aa/*@*/"
bool okDoc(const char *p, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) { unsigned char c = p[i]; r = r & (bool)((c != 0) & ((c < 9) | (c > 13)) & (c != ' ')); } return r; }
std::string text;
template <int N> void setup(Env &e) { text = e.docBytes("doc", "x", N, "y", okDoc); text = text; }
void oracle(Env &, const Result &r) { Docs d; for (auto p : {&d.F, &d.C, &d.K, &d.M, &d.T, &d.O, &d.E, &d.V, &d.X, &d.Y, &d.Z}) *p = text; check(r, d); gs_cover("docs"); }
// ---------------------------------------------------------------- presence
#define OWN(n) "/*@" n "*/aa/*@*/"
uint8_t s[11]; const char *const nm[] = {"F", "C", "K", "M", "T", "O", "E", "V", "X", "Y", "Z"};
const char *const tx[] = {"doc F", "doc C", "doc K", "doc M", "doc T", "doc O", "doc E", "doc V", "doc X", "doc Y", "doc Z"};
template <int N> void setupP(Env &e) { for (int i = 0; i < 11; i++) { if (i < N || i >= 8) s[i] = e.doc(nm[i], {tx[i], ""}); else s[i] = e.doc(nm[i], {tx[i]}); } }
void oracleP(Env &, const Result &r) { Docs d; int i = 0; for (auto p : {&d.F, &d.C, &d.K, &d.M, &d.T, &d.O, &d.E, &d.V, &d.X, &d.Y, &d.Z}) { *p = gs_concrete(s[i]) ? "" : tx[i]; i++; } check(r, d); gs_cover("presence"); }
#define HDRB HDR(ALL)
#define HDRP HDR(OWN)
RegE R2({"C17.q.bytes2", HDRB, {}, setup<2>, oracle});
RegE R3({"C17.q.bytes3", HDRB, {}, setup<3>, oracle});
RegE R4({"C17.t.bytes4", HDRB, {}, setup<4>, oracle});
RegE RP({"C17.q.presence", HDRP, {}, setupP<6>, oracleP});
RegE RPP({"C17.t.presence", HDRP, {}, setupP<8>, oracleP});

// ---------------------------------------------------------------- redeclarations, specialisations, overloads, operators
const char *const dn[] = {"F1", "F2", "FO", "C1", "C2", "M1", "M2", "EQ", "AD", "MU", "GT", "NE", "MT", "MI", "X", "XI", "V"};
constexpr int ND = 17;
std::string dt[ND]; uint8_t ds[ND];
template <int K> void setupD(Env &e) { for (int i = 0; i < ND; i++) { dt[i] = std::string("doc ") + dn[i]; bool free = K == 0 ? i >= 12 : K == 1 ? i < 6 : i >= 5 && i < 12; ds[i] = free ? e.doc(dn[i], {dt[i].c_str(), ""}) : e.doc(dn[i], {dt[i].c_str()}); } }
void lamDoc(const GenModel &m, const GenCtx *c, const std::string &name, const std::string &want) {
  auto f = m.named(c, name); gs_assert(f.size() == 1 && f[0]->args.size() >= 3, "operator exposed with docstring"); if (f.size() == 1 && f[0]->args.size() >= 3) isDoc(f[0]->args[2], want);
}
void oracleD(Env &, const Result &r) {
  std::string d[ND]; for (int i = 0; i < ND; i++) d[i] = gs_concrete(ds[i]) ? "" : dt[i];
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *S = m.byType("::n::S"), *U = m.byType("::n::U"), *D = m.byType("::n::D"); ctxDoc(S, d[3]); ctxDoc(U, d[4]); ctxDoc(D, ""); if (!S || !U || !D) return;
  fnDoc(m, "overload_cast<int>(&::n::f)", d[0]); fnDoc(m, "overload_cast<long>(&::n::f)", d[1]); fnDoc(m, "overload_cast<double>(&::n::f)", d[2]); fnDoc(m, "overload_cast<char>(&::n::f)", "");
  fnDoc(m, "&::n::S::m1)", d[5]); fnDoc(m, "&::n::S::m2)", d[6]);
  lamDoc(m, S, "\"__eq__\"", d[7]); lamDoc(m, S, "\"__add__\"", d[8]); lamDoc(m, S, "\"__mul__\"", d[9]); lamDoc(m, S, "\"__gt__\"", d[10]); lamDoc(m, S, "\"__neg__\"", d[11]);
  fnDoc(m, "&::n::S::mt<int>)", d[13].empty() ? d[12] : d[13]); fnDoc(m, "&::n::S::mt<bool>)", d[12]);
  fnDoc(m, "&::n::x<int>)", d[15].empty() ? d[14] : d[15]); fnDoc(m, "&::n::x<bool>)", d[14]);
  fnDoc(m, "&::n::S::v)", d[16]); fnDoc(m, "&::n::D::v)", "");
  gs_cover("redeclared");
}
#define HDRD R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
/// )" OWN("F1") R"(
void f(int a);
/// )" OWN("FO") R"(
void f(double a);
void f(char a);
void f(int a);
void f(long a);
/// )" OWN("F2") R"(
void f(long a);
/// )" OWN("C1") R"(
struct S;
struct U;
struct S {
  /// )" OWN("M1") R"(
  int m1(int a);
  int m2(int a);
  /// )" OWN("EQ") R"(
  bool operator==(const S &) const;
  /// )" OWN("AD") R"(
  friend S operator+(const S &, const S &);
  /// )" OWN("NE") R"(
  S operator-() const;
  /// )" OWN("GT") R"(
  friend int operator<(int, const S &);
  /// )" OWN("MT") R"(
  template <typename T> void mt(T) {}
  /// )" OWN("V") R"(
  virtual void v();
};
/// )" OWN("MI") R"(
template <> void S::mt<int>(int);
template <> void S::mt<bool>(bool);
/// )" OWN("C2") R"(
struct U {};
inline int S::m1(int a) { return 0; }
/// )" OWN("M2") R"(
inline int S::m2(int a) { return 0; }
/// )" OWN("MU") R"(
S operator*(const S &, const S &);
/// )" OWN("X") R"(
template <typename T> T x(T a);
/// )" OWN("XI") R"(
template <> int x<int>(int);
template <> bool x<bool>(bool);
struct D : S { void v() override; };
struct S;
}
)"
RegE RD0({"C17.q.redecl0", HDRD, {}, setupD<0>, oracleD});
RegE RD1({"C17.q.redecl1", HDRD, {}, setupD<1>, oracleD});
RegE RD2({"C17.t.redecl2", HDRD, {}, setupD<2>, oracleD});
} // namespace
