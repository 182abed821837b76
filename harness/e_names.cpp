// C05: names of exposed entities.
#include "e_lib.h"
#include <cstring>
namespace {
// ------------------------------------------------------------ arbitrary identifiers
bool word(unsigned char c) { return (bool)((c == '_') | ((unsigned char)(c - 'a') < 26) | ((unsigned char)(c - 'A') < 26) | ((unsigned char)(c - '0') < 10)); }
bool digit(unsigned char c) { return (unsigned char)(c - '0') < 10; }
bool okIdent(const char *p, size_t n) {
  bool r = !digit(p[0]);
  for (size_t i = 0; i < n; i++) r = r & word(p[i]);
  // not one of the words that have a meaning of their own
  if (n == 4) r = r & (memcmp(p, "true", 4) != 0);
  if (n == 5) r = r & (memcmp(p, "false", 5) != 0);
  return r;
}
std::string id;
#define HDR R"(#pragma once
#include <genpybind/genpybind.h>
#include <iosfwd>
namespace n GENPYBIND(visible) {
struct GENPYBIND(__sel_X) A {
  struct GENPYBIND(__sel_X) In {};
  void m() GENPYBIND(__sel_X);
  static void s() GENPYBIND(__sel_X);
  int f GENPYBIND(__sel_X);
  static int sf GENPYBIND(__sel_X);
  int operator()(int) GENPYBIND(__sel_X);
  operator int() const GENPYBIND(__sel_X);
};
enum class GENPYBIND(__sel_X) E { e1 GENPYBIND(__sel_X) };
void ff() GENPYBIND(__sel_X);
extern int v GENPYBIND(__sel_X);
typedef A T GENPYBIND(__sel_X);
template <typename T> struct Tp {};
template struct GENPYBIND(__sel_X) Tp<int>;
struct R {};
using RR GENPYBIND(__sel_H) = R;
std::ostream &operator<<(std::ostream &, const A &) GENPYBIND(__sel_X);
}
namespace mod GENPYBIND(__sel_M) { struct GENPYBIND(visible) Z {}; }
)"
template <int N, bool Quoted> void setupId(Env &e) {
  id = e.annoBytes("X", Quoted ? "expose_as(\"" : "expose_as(", N, Quoted ? "\")" : ")", okIdent);
  e.annoText("M", std::string(Quoted ? "visible, module(\"" : "visible, module(") + id + (Quoted ? "\")" : ")"));
  e.annoText("H", std::string("expose_as(") + id + "), expose_here");
}
void same(const std::string &got, const std::string &want, const char *what) {
  gs_assert(got.size() == want.size(), what);
  if (got.size() != want.size()) return;
  bool eq = true;
  for (size_t i = 0; i < got.size(); i++) eq = eq & (got[i] == want[i]);
  gs_assert(eq, what);
}
void findBy(const GenModel &m, const GenCtx *c, const char *fn, const char *ref, const std::string &want, const char *what) {
  unsigned n = 0;
  if (c) for (auto &k : c->calls)
    if (contains(k.text, ref) && k.fn == fn) { n++; same(k.args.empty() ? "" : k.args[0], want, what); }
  gs_assert(n == 1, what);
}
void oracleId(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "an identifier is an acceptable name");
  GenModel m = model(r);
  gs_assert(m.ok, "output has the shape of a module");
  if (!m.ok) return;
  std::string w = q(id);
  auto cls = [&](const char *t, const char *what) {
    const GenCtx *c = m.byType(t); gs_assert(c != nullptr, what); if (c) same(c->pyname, w, what); return c; };
  const GenCtx *A = cls("::n::A", "class name"); cls("::n::A::In", "nested class name");
  const GenCtx *E = cls("::n::E", "enum name"); cls("::n::Tp<int>", "template instantiation name"); cls("::n::R", "name given by expose_here alias");
  findBy(m, A, "def", "&::n::A::m", w, "method name");
  findBy(m, A, "def_static", "&::n::A::s", w, "static method name");
  findBy(m, A, "def_readwrite", "&::n::A::f", w, "field name");
  findBy(m, A, "def_readwrite_static", "&::n::A::sf", w, "static variable name");
  findBy(m, A, "def", "&::n::A::operator()", w, "call operator name");
  findBy(m, A, "def", "&::n::A::operatorint", w, "conversion function name");
  findBy(m, A, "def", "string_from_lshift", w, "stream operator name");
  findBy(m, E, "value", "::n::E::e1", w, "enumerator name");
  auto fref = m.refs("&::n::ff"); const GenCtx *n = fref.size() == 1 ? fref[0].ctx : nullptr;
  findBy(m, n, "def", "&::n::ff", w, "free function name");
  unsigned at = 0;
  if (n) for (auto &s : n->stmts) if (s.rfind("context.attr(", 0) == 0) {
    at++;
    size_t e = s.find(")=");
    gs_assert(e != std::string::npos, "attribute assignment");
    if (e != std::string::npos) same(s.substr(13, e - 13), w, "variable and type alias names");
  }
  gs_assert(at == 2, "variable and type alias are attributes");
  const GenCtx *Z = m.byType("::mod::Z");
  const GenCtx *sub = Z ? m.scope(m.byVar(Z->parent)) : nullptr;
  gs_assert(sub && sub->kind == "submodule", "module namespace is a submodule");
  if (sub) same(sub->pyname, w, "submodule name");
  gs_cover("names checked");
}
RegE I1({"C05.q.ident1", HDR, {}, setupId<1, false>, oracleId});
RegE I2({"C05.q.ident2", HDR, {}, setupId<2, false>, oracleId});
RegE I2Q({"C05.q.ident2quoted", HDR, {}, setupId<2, true>, oracleId});
RegE I4({"C05.t.ident4", HDR, {}, setupId<4, false>, oracleId});
RegE I5({"C05.t.ident5", HDR, {}, setupId<5, true>, oracleId});

// ------------------------------------------------------------ names that are not identifiers
std::string raw;
bool okRaw(const char *p, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r = r & ((unsigned char)p[i] >= ' ') & ((unsigned char)p[i] < 127) & (p[i] != '"'); return r; }
#define HDRBAD R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(__sel_Z) {
struct GENPYBIND(visible) A { int f GENPYBIND(__sel_X); int g() const GENPYBIND(__sel_Y); };
}
)"
template <int N, int W> void setupBad(Env &e) {
  raw = e.annoBytes(W == 0 ? "X" : W == 1 ? "Y" : "Z", W == 0 ? "expose_as(\"" : W == 1 ? "getter_for(\"" : "module(\"", N, "\")", okRaw);
  for (int k = 0; k < 3; k++) if (k != W) e.anno(k == 0 ? "X" : k == 1 ? "Y" : "Z", {nullptr});
}
template <int N, int W> void oracleBad(Env &, const Result &r) {
  bool ok = N > 0 && !digit(raw[0]);
  for (int i = 0; i < N; i++) ok = ok & word(raw[i]);
  gs_assert((r.exit_code == 0) == ok, "a quoted name is accepted exactly when it is an identifier");
  gs_assert(ok || r.created == 0, "no output for an invalid name");
  if (!ok) { gs_cover("rejected"); return; }
  gs_cover("accepted");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *A = m.byType("::n::A");
  gs_assert(A != nullptr, "class exposed");
  if (W == 0) findBy(m, A, "def_readwrite", "&::n::A::f", q(raw), "field name");
  if (W == 1) findBy(m, A, "def_property_readonly", "&::n::A::g", q(raw), "property name");
  if (W == 2 && A) { const GenCtx *s = m.byVar(A->parent); gs_assert(s && s->kind == "submodule", "submodule"); if (s) same(s->pyname, q(raw), "submodule name"); }
}
RegE B10({"C05.q.bad1", HDRBAD, {}, setupBad<1, 0>, oracleBad<1, 0>});
RegE B20({"C05.q.bad2", HDRBAD, {}, setupBad<2, 0>, oracleBad<2, 0>});
RegE B21({"C05.q.badprop2", HDRBAD, {}, setupBad<2, 1>, oracleBad<2, 1>});
RegE B22({"C05.q.badmod2", HDRBAD, {}, setupBad<2, 2>, oracleBad<2, 2>});
RegE B30({"C05.t.bad3", HDRBAD, {}, setupBad<3, 0>, oracleBad<3, 0>});
RegE B31({"C05.t.badprop3", HDRBAD, {}, setupBad<3, 1>, oracleBad<3, 1>});
RegE B32({"C05.t.badmod3", HDRBAD, {}, setupBad<3, 2>, oracleBad<3, 2>});

// ------------------------------------------------------------ default names and resets
uint8_t sC, sM;
const std::vector<const char *> alts{"visible", "expose_as(nm)", "expose_as(default)", "expose_as(nm), expose_as(default)", "expose_as(one), expose_as(nm)", "expose_as(default), expose_as(nm)", "expose_as(nm), visible(true)"};
bool renamed(unsigned s) { return s == 1 || s >= 4; }
#define HDRDEF R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct GENPYBIND(__sel_C) A {
  struct GENPYBIND(__sel_C) In {};
  void meth() GENPYBIND(__sel_M);
  static void stat() GENPYBIND(__sel_M);
  int fld GENPYBIND(__sel_M);
  int operator()(int) GENPYBIND(__sel_M);
  operator int() const GENPYBIND(__sel_M);
  operator const char *() const GENPYBIND(__sel_M);
};
enum class GENPYBIND(__sel_C) E { e1 GENPYBIND(__sel_M) };
void ff() GENPYBIND(__sel_M);
extern int v GENPYBIND(__sel_M);
template <typename T, int N> struct Tp {};
template struct GENPYBIND(__sel_C) Tp<int, 3>;
struct R {};
typedef R Alias GENPYBIND(__sel_H);
}
)"
uint8_t sH;
void setupDef(Env &e) { sC = e.anno("C", alts); sM = e.anno("M", alts); sH = e.anno("H", {"expose_here", "expose_as(nm), expose_here", "expose_here, expose_as(nm), expose_as(default)"}); }
void oracleDef(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  bool c = renamed(gs_concrete(sC)), k = renamed(gs_concrete(sM));
  auto cls = [&](const char *t, const char *d, bool ren) { const GenCtx *x = m.byType(t); gs_assert(x && x->pyname == q(ren ? "nm" : d), "type name is the given or the declared one"); return x; };
  const GenCtx *A = cls("::n::A", "A", c); cls("::n::A::In", "In", c); const GenCtx *E = cls("::n::E", "E", c);
  cls("::n::Tp<int,3>", "Tp_int_3_", c); cls("::n::R", "Alias", gs_concrete(sH) == 1);
  auto N = [&](const char *d) { return q(k ? "nm" : d); };
  findBy(m, A, "def", "&::n::A::meth", N("meth"), "method name");
  findBy(m, A, "def_static", "&::n::A::stat", N("stat"), "static method name");
  findBy(m, A, "def_readwrite", "&::n::A::fld", N("fld"), "field name");
  findBy(m, A, "def", "&::n::A::operator()", N("__call__"), "call operator name");
  findBy(m, A, "def", "&::n::A::operatorint", N("operator_int"), "conversion function name");
  findBy(m, A, "def", "&::n::A::operatorconstchar*", N("operator_const_char_"), "conversion function name");
  findBy(m, E, "value", "::n::E::e1", N("e1"), "enumerator name");
  auto fref = m.refs("&::n::ff"); const GenCtx *n = fref.size() == 1 ? fref[0].ctx : nullptr;
  findBy(m, n, "def", "&::n::ff", N("ff"), "free function name");
  gs_assert(n && contains(squeeze(r.out()), "context.attr(" + N("v") + ")=::n::v;"), "variable name");
  if (c && k) gs_cover("renamed"); else if (!c && !k) gs_cover("default");
}
RegE D0({"C05.q.default", HDRDEF, {}, setupDef, oracleDef});
} // namespace
