// C07: where in the Python module things end up. C10: only_expose_in. C24: reopened namespaces.
#include "e_lib.h"
#include <cstring>
namespace {
using Alts = std::vector<const char *>;
struct M { const char *text; const char *mod; }; // mod: submodule name, "" = C++ name, nullptr = transparent
std::string mods(const std::vector<M> &t, uint8_t s, const char *own) { const M &m = t[s]; return m.mod ? std::string(".") + (*m.mod ? m.mod : own) : ""; }
Alts texts(const std::vector<M> &a) { Alts r; for (auto &x : a) r.push_back(x.text); return r; }
const std::vector<M> nsA{{nullptr, nullptr}, {"visible", nullptr}, {"module", ""}, {"module(q)", "q"}, {"hidden, module", ""}, {"module, expose_as(r)", "r"}, {"expose_as(w)", nullptr}};
const std::vector<M> nsB{{nullptr, nullptr}, {"module", ""}, {"module(p), visible", "p"}, {"module(x), module(y)", "y"}, {"hidden", nullptr}};
const std::vector<M> nsD{{nullptr, nullptr}, {"module(d2)", "d2"}};
uint8_t sA, sB, sD;
#define HDR R"(#pragma once
#include <genpybind/genpybind.h>
struct GENPYBIND(visible) Top { enum GENPYBIND(visible) TE { te }; };
void topf() GENPYBIND(visible);
namespace a GENPYBIND(__sel_A) {
namespace b GENPYBIND(__sel_B) {
struct GENPYBIND(visible) S {
  struct GENPYBIND(visible) T { enum class GENPYBIND(visible) E { e }; void tm() GENPYBIND(visible); };
  void sm() GENPYBIND(visible);
  int fld GENPYBIND(visible);
};
enum class GENPYBIND(visible) G { g };
void f() GENPYBIND(visible);
extern int v GENPYBIND(visible);
using Al GENPYBIND(visible) = S;
}
struct GENPYBIND(visible) U {};
void uf() GENPYBIND(visible);
extern "C++" { void lf() GENPYBIND(visible); struct GENPYBIND(visible) L { void lm() GENPYBIND(visible); }; }
namespace d GENPYBIND(__sel_D) { struct GENPYBIND(visible) W {}; void df() GENPYBIND(visible); }
}
extern "C++" { namespace g { void gf() GENPYBIND(visible); } }
)"
void setup(Env &e) { sA = e.anno("A", texts(nsA)); sB = e.anno("B", texts(nsB)); sD = e.anno("D", texts(nsD)); }
void at(const GenModel &m, const std::string &type, const std::string &path, const std::string &name, const char *what) {
  const GenCtx *c = m.byType(type);
  gs_assert(c != nullptr, "every visible type is exposed");
  if (c) gs_assert(m.path(c) == path + "." + name, what);
}
void stmt(const GenModel &m, const std::string &needle, const std::string &path, const char *what) {
  auto r = m.refs(needle);
  gs_assert(r.size() == 1, "every visible function, variable and alias is exposed exactly once");
  for (auto &x : r) gs_assert(m.path(x.ctx) == path, what);
}
void oracle(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  std::string a = mods(nsA, gs_concrete(sA), "a"), b = a + mods(nsB, gs_concrete(sB), "b"), d = a + mods(nsD, gs_concrete(sD), "d");
  at(m, "::Top", "", "Top", "global class is an attribute of the module");
  at(m, "::Top::TE", ".Top", "TE", "enum inside class");
  at(m, "::a::b::S", b, "S", "class is placed in the innermost enclosing submodule");
  at(m, "::a::b::S::T", b + ".S", "T", "nested class is placed in its class");
  at(m, "::a::b::S::T::E", b + ".S.T", "E", "nested enum is placed in its class");
  at(m, "::a::b::G", b, "G", "enum is placed in the innermost enclosing submodule");
  at(m, "::a::U", a, "U", "class is placed in the innermost enclosing submodule");
  at(m, "::a::d::W", d, "W", "class is placed in the innermost enclosing submodule");
  stmt(m, "&::topf", "", "global function");
  stmt(m, "&::a::b::S::T::tm", b + ".S.T", "method belongs to its class");
  stmt(m, "&::a::b::S::sm", b + ".S", "method belongs to its class");
  stmt(m, "&::a::b::S::fld", b + ".S", "field belongs to its class");
  stmt(m, "::a::b::G::g", b + ".G", "enumerator belongs to its enum");
  stmt(m, "&::a::b::f)", b, "function is placed in the innermost enclosing submodule");
  stmt(m, "=::a::b::v", b, "variable is placed in the innermost enclosing submodule");
  stmt(m, "attr(\"Al\")", b, "type alias is placed in the innermost enclosing submodule");
  stmt(m, "&::a::uf", a, "function is placed in the innermost enclosing submodule");
  stmt(m, "&::a::d::df", d, "function is placed in the innermost enclosing submodule");
  stmt(m, "&::a::lf", a, "function in a linkage specification");
  stmt(m, "&::g::gf", "", "namespace in a linkage specification");
  { auto l = m.refs("L::lm"); gs_assert(l.size() == 1 && m.path(l[0].ctx) == a + ".L", "class in a linkage specification"); }
  size_t subs = 0; for (auto &c : m.ctxs) subs += c.kind == "submodule";
  gs_assert(subs == (size_t)(!a.empty()) + (b != a) + (d != a), "one submodule per 'module' namespace");
  if (!a.empty() && b != a && d != a) gs_cover("nested submodules"); else if (b.empty()) gs_cover("all transparent");
}
RegE R0({"C07.q.modules", HDR, {}, setup, oracle});

// Names of submodules with symbolic bytes: equal to the C++ name, to each other, to the module, ...
std::string mn, mo;
bool okMod(const char *p, size_t n) {
  bool ok = true;
  for (size_t i = 0; i < n; i++) {
    unsigned char c = p[i];
    bool letter = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_'), digit = (c >= '0') & (c <= '9');
    ok = ok & (letter | ((i > 0) & digit));
  }
  return ok;
}
template <int N, int K> void setupM(Env &e) {
  mn = e.annoBytes("M", K ? "visible, module(\"" : "module(", N, K ? "\")" : ")", okMod);
  mo = e.annoBytes("O", "module(", N, ")", okMod);
}
void eqBytes(const std::string &got, const std::string &want, const char *what) {
  gs_assert(got.size() == want.size(), what); if (got.size() != want.size()) return;
  bool eq = true; for (size_t i = 0; i < got.size(); i++) eq = eq & (got[i] == want[i]);
  gs_assert(eq, what);
}
void oracleM(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  auto up = [&](const GenCtx *c) { return c ? m.scope(m.byVar(c->parent)) : nullptr; };
  auto sub = [&](const GenCtx *c, const std::string &name, const char *what) { gs_assert(c && c->kind == "submodule", what); if (c) eqBytes(c->pyname, q(name), what); };
  const GenCtx *A = up(m.byType("::a::A")), *B = up(m.byType("::a::b::B")), *C = up(m.byType("::c::C"));
  sub(A, mn, "class is placed in the submodule of its namespace"); sub(B, mo, "class is placed in the submodule of its namespace");
  sub(C, mo, "class is placed in the submodule of its namespace");
  gs_assert(up(B) == A && A != B, "submodules are nested like their namespaces");
  const GenCtx *top = up(A); gs_assert(top && top->kind == "module" && up(C) == top && C != A && C != B, "outermost submodules belong to the module");
  size_t subs = 0; for (auto &c : m.ctxs) subs += c.kind == "submodule";
  gs_assert(subs == 3, "one submodule per 'module' namespace");
  auto f = m.refs("&::a::b::f"), h = m.refs("&::a::h");
  gs_assert(f.size() == 1 && m.scope(f[0].ctx) == B, "function is placed in the submodule of its namespace");
  gs_assert(h.size() == 1 && m.scope(h[0].ctx) == A, "function is placed in the submodule of its namespace");
  gs_cover("submodules");
}
#define HDRM R"(#pragma once
#include <genpybind/genpybind.h>
namespace a GENPYBIND(__sel_M) { struct GENPYBIND(visible) A {}; namespace b GENPYBIND(__sel_O) { struct GENPYBIND(visible) B {}; void f() GENPYBIND(visible); } void h() GENPYBIND(visible); }
namespace c GENPYBIND(__sel_O) { struct GENPYBIND(visible) C {}; }
)"
RegE M1({"C07.q.names1", HDRM, {}, setupM<1, 0>, oracleM}), M2({"C07.q.names2", HDRM, {}, setupM<1, 1>, oracleM}), M3({"C07.q.names3", HDRM, {}, setupM<2, 0>, oracleM}), M4({"C07.t.names4", HDRM, {}, setupM<6, 0>, oracleM});

// ---------------------------------------------------------------- C24 reopened namespaces
struct Ns { const char *text; int vis; const char *mod; }; // settings of one opening; text==nullptr: no annotation
const std::vector<Ns> op{{nullptr, 0, nullptr}, {"visible", 1, nullptr}, {"hidden", 2, nullptr}, {"module", 0, "n"}, {"module(q)", 0, "q"}, {"visible(true)", 1, nullptr}, {"module, visible", 1, "n"}};
Alts ops() { Alts r; for (auto &o : op) r.push_back(o.text); return r; }
uint8_t s1, s2, s3;
#define HDR24 R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(__sel_1) { struct GENPYBIND(visible) A { void am() GENPYBIND(visible); }; void f1() GENPYBIND(visible); }
namespace k GENPYBIND(visible) { void kf(); }
namespace n GENPYBIND(__sel_2) { struct GENPYBIND(visible) B {}; void f2() GENPYBIND(visible); void d2(); }
namespace n GENPYBIND(__sel_3) { enum class GENPYBIND(visible) E { e }; extern int v3 GENPYBIND(visible); }
)"
bool same(const Ns &a, const Ns &b) { return a.vis == b.vis && std::string(a.mod ? a.mod : "-") == (b.mod ? b.mod : "-"); }
void setup24(Env &e) { s1 = e.anno("1", ops()); s2 = e.anno("2", ops()); s3 = e.anno("3", ops()); }
void oracle24(Env &, const Result &r) {
  const Ns &a = op[gs_concrete(s1)], &b = op[gs_concrete(s2)], &c = op[gs_concrete(s3)];
  bool ok = same(a, b) && same(a, c);
  gs_assert((r.exit_code == 0) == ok, "conflicting settings of a reopened namespace are rejected, agreeing ones accepted");
  gs_assert(r.errors.empty() == ok, "an error is reported exactly for conflicting settings");
  gs_assert(ok || r.created == 0, "no output for conflicting settings");
  if (!ok) { gs_cover("conflict"); return; }
  gs_cover("agree");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  std::string p = a.mod ? std::string(".") + a.mod : "";
  at(m, "::n::A", p, "A", "first opening"); at(m, "::n::B", p, "B", "second opening"); at(m, "::n::E", p, "E", "third opening");
  stmt(m, "&::n::f1", p, "first opening"); stmt(m, "&::n::f2", p, "second opening"); stmt(m, "=::n::v3", p, "third opening");
  stmt(m, "&::k::kf", "", "other namespace");
  gs_assert(m.refs("&::n::d2").size() == (size_t)(a.vis == 1), "all openings share the default visibility");
  size_t subs = 0; for (auto &x : m.ctxs) subs += x.kind == "submodule";
  gs_assert(subs == (size_t)(a.mod != nullptr), "one submodule for all openings");
}
RegE R24({"C24.q.reopen", HDR24, {}, setup24, oracle24});

// ---------------------------------------------------------------- C10 only_expose_in
bool word(unsigned char c) { return (bool)((c == '_') | ((unsigned char)(c - 'a') < 26) | ((unsigned char)(c - 'A') < 26) | ((unsigned char)(c - '0') < 10)); }
bool okName(const char *p, size_t n) { bool r = !((unsigned char)(p[0] - '0') < 10); for (size_t i = 0; i < n; i++) r = r & word(p[i]);
  if (n == 4) r = r & (memcmp(p, "true", 4) != 0);
  if (n == 5) r = r & (memcmp(p, "false", 5) != 0);
  return r; }
std::string nm;
uint8_t sX, sV;
#define HDR10 R"(#pragma once
#include <genpybind/genpybind.h>
namespace o GENPYBIND(visible) {
namespace n GENPYBIND(__sel_N) {
struct GENPYBIND(visible) A { struct GENPYBIND(visible) I { void im(); }; void am(); };
enum class GENPYBIND(visible) E { e };
void f() GENPYBIND(visible);
extern int v GENPYBIND(visible);
namespace deep GENPYBIND(__sel_X) { struct GENPYBIND(visible) D {}; void df() GENPYBIND(visible); }
struct R {};
}
using RR GENPYBIND(expose_here) = n::R;
struct K {};
void kf();
}
)"
enum { ModLen = 4 }; // the module is called "mod_"
template <int N, int L> void setup10(Env &e) {
  const char *pre = L == 0 ? "only_expose_in(" : L == 1 ? "only_expose_in(other, " : "visible, only_expose_in(";
  const char *post = L == 2 ? ", zzzz)" : L == 3 ? ", mod)" : ")";
  nm = e.annoBytes("N", pre, N, post, okName);
  sX = e.anno("X", L == 0 ? Alts{nullptr, "only_expose_in(mod_)", "only_expose_in(other)", "only_expose_in(other, mod_), module"} : Alts{nullptr});
}
template <int N, int L> void oracle10(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  static const char want[] = "mod_";
  bool in = N == ModLen;
  for (int i = 0; i < N && i < ModLen; i++) in = in & (nm[i] == want[i]);
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  unsigned x = gs_concrete(sX);
  bool deep = in && x != 2;
  auto has = [&](const char *t, bool w, const char *what) { gs_assert((m.byType(t) != nullptr) == w, what); };
  auto ref = [&](const char *t, bool w, const char *what) { gs_assert(m.refs(t).size() == (size_t)w, what); };
  has("::o::n::A", in, "class in a namespace restricted to certain modules is exposed iff this is one of them");
  has("::o::n::A::I", in, "nested class follows the namespace");
  has("::o::n::E", in, "enum follows the namespace");
  ref("&::o::n::f", in, "function follows the namespace"); ref("=::o::n::v", in, "variable follows the namespace");
  ref("&::o::n::A::am", in, "method follows the namespace"); ref("&::o::n::A::I::im", in, "nested method follows the namespace");
  has("::o::n::deep::D", deep, "nested namespace is restricted by both annotations"); ref("&::o::n::deep::df", deep, "function in nested namespace");
  has("::o::K", true, "siblings are unaffected"); ref("&::o::kf", true, "sibling functions are unaffected");
  has("::o::n::R", true, "a declaration relocated out of the namespace is unaffected");
  if (in) gs_cover("in this module"); else gs_cover("in another module");
}
#define R10(N, L, T) RegE X##N##L({"C10." T ".len" #N "_" #L, HDR10, {"--module-name", "mod_"}, setup10<N, L>, oracle10<N, L>});
R10(4, 0, "q") R10(4, 1, "q") R10(4, 2, "q") R10(3, 0, "q") R10(5, 0, "q") R10(4, 3, "t") R10(1, 0, "t") R10(3, 1, "t") R10(5, 1, "t") R10(8, 0, "t")
} // namespace
