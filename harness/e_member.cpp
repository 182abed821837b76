// C18: enums. C19: fields and variables. C26: manual bindings. C04: class options.
#include "e_lib.h"
#include <algorithm>
#include <cstring>
namespace {
using Alts = std::vector<const char *>;
using Strs = std::vector<std::string>;
// ---------------------------------------------------------------- C18 enums
#define HDRE R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
enum GENPYBIND(__sel_U) U { ua, ub GENPYBIND(__sel_UB), uc = 7 };
enum class GENPYBIND(__sel_C) C : short { ca, cb GENPYBIND(__sel_CB) = -3 };
struct S { enum GENPYBIND(__sel_N) N { na, nb = na }; enum P { pa }; enum class Q { qa }; };
}
)"
struct EA { const char *text; int ev; int ar; }; // ev: 0 default 1 true 2 false
const std::vector<EA> EV{{nullptr, 0, 0}, {"export_values", 1, 0}, {"export_values(false)", 2, 0}, {"arithmetic", 0, 1}, {"arithmetic, export_values(true)", 1, 1},
  {"export_values(true), export_values(false), arithmetic(true)", 2, 1}, {"arithmetic(true), arithmetic(false)", 0, 0}, {"visible, export_values(false), export_values", 1, 0}};
Alts evs(size_t n = 8) { Alts r; for (size_t i = 0; i < n; i++) r.push_back(EV[i].text); return r; }
uint8_t eU, eC, eN, eUB, eCB;
void setupE(Env &e) {
  eU = e.anno("U", evs()); eC = e.anno("C", evs()); eN = e.anno("N", evs(4));
  eUB = e.anno("UB", {nullptr, "hidden", "expose_as(ren)"}); eCB = e.anno("CB", {nullptr, "visible(false)"});
}
struct EVal { std::string py, cpp; };
void checkEnum(const GenModel &m, const char *type, const EA &a, bool scoped, const std::vector<EVal> &vals) {
  const GenCtx *c = m.byType(type);
  gs_assert(c && c->kind == "enum", "enum is exposed as enum"); if (!c) return;
  std::vector<EVal> got; size_t exports = 0, other = 0;
  for (auto &k : c->calls) {
    if (k.fn == "value" && k.args.size() == 2) got.push_back({k.args[0], k.args[1]});
    else if (k.fn == "export_values" && k.args.empty()) exports++; else other++;
  }
  bool same = got.size() == vals.size();
  for (size_t i = 0; same && i < vals.size(); i++) same = got[i].py == q(vals[i].py) && got[i].cpp == std::string(type) + "::" + vals[i].cpp;
  gs_assert(same && !other, "exactly the visible enumerators, in order, each under its name with its own value");
  bool want = a.ev == 1 || (a.ev == 0 && !scoped);
  gs_assert(exports == (size_t)want, "values are exported into the enclosing scope iff requested, by default for unscoped enums");
  gs_assert(c->calls.empty() || !want || c->calls.back().fn == "export_values", "values are exported after all of them are defined");
  gs_assert(c->extra == (a.ar ? Strs{"pybind11::arithmetic()"} : Strs{}), "arithmetic iff requested");
}
void oracleE(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  unsigned ub = gs_concrete(eUB), cb = gs_concrete(eCB);
  std::vector<EVal> u{{"ua", "ua"}}; if (ub == 0) u.push_back({"ub", "ub"}); if (ub == 2) u.push_back({"ren", "ub"}); u.push_back({"uc", "uc"});
  std::vector<EVal> c{{"ca", "ca"}}; if (cb == 0) c.push_back({"cb", "cb"});
  checkEnum(m, "::n::U", EV[gs_concrete(eU)], false, u);
  checkEnum(m, "::n::C", EV[gs_concrete(eC)], true, c);
  checkEnum(m, "::n::S::N", EV[gs_concrete(eN)], false, {{"na", "na"}, {"nb", "nb"}});
  checkEnum(m, "::n::S::P", EV[0], false, {{"pa", "pa"}});
  checkEnum(m, "::n::S::Q", EV[0], true, {{"qa", "qa"}});
  gs_cover("enums");
}
RegE RE({"C18.q.enums", HDRE, {}, setupE, oracleE});

// ---------------------------------------------------------------- C19 fields and variables
#define HDRF R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct S {
  int a GENPYBIND(__sel_A);
  const int b GENPYBIND(__sel_B) = 1;
  static int c GENPYBIND(__sel_C);
  static const int d GENPYBIND(__sel_B);
  static constexpr int e = 2;
  const int *f; int *const g = nullptr; int (*fp)(int);
/*@acc*/public/*@*/:
  int h GENPYBIND(__sel_H);
  static int k GENPYBIND(__sel_H);
};
template <typename T> struct Tp { T x; const T y; static T z; };
using Ti GENPYBIND(expose_here) = Tp<int>;
union Un { int i; const float *j; };
extern int v GENPYBIND(__sel_V);
extern const int w;
}
)"
struct FA { const char *text; bool vis, ro; const char *name; };
const std::vector<FA> FV{{nullptr, true, false, nullptr}, {"readonly", true, true, nullptr}, {"readonly(true), readonly(false)", true, false, nullptr}, {"hidden", false, false, nullptr}, {"expose_as(z)", true, false, "z"}, {"expose_as(z), readonly(false), readonly", true, true, "z"}};
Alts fvs(size_t n) { Alts r; for (size_t i = 0; i < n; i++) r.push_back(FV[i].text); return r; }
uint8_t fA, fB, fC, fH, fV, fAcc;
void setupF(Env &e) {
  fA = e.anno("A", fvs(6)); fB = e.anno("B", {nullptr, "readonly(false)"}); fC = e.anno("C", fvs(6)); fH = e.anno("H", fvs(2));
  fAcc = e.access("acc", {"n::S::h", "n::S::k"}); fV = e.anno("V", {nullptr, "hidden", "expose_as(vv)"});
}
void checkField(const GenModel &m, const GenCtx *c, const std::string &cpp, const char *own, bool isStatic, bool isConst, const FA &a) {
  size_t n = 0; const Call *k = nullptr;
  for (auto &x : c->calls) for (auto &y : x.args) if (y == "&" + cpp) { n++; k = &x; }
  gs_assert(n == (size_t)a.vis, "a data member is exposed exactly once iff visible");
  if (n != 1 || !a.vis) return;
  std::string fn = (isConst || a.ro) ? "def_readonly" : "def_readwrite"; if (isStatic) fn += "_static";
  gs_assert(k->fn == fn, "writable iff neither const nor marked readonly; static iff static");
  gs_assert(k->args.size() == 2 && k->args[0] == q(a.name ? a.name : own) && k->recv == "context", "under its name");
}
void oracleF(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *S = m.byType("::n::S"), *T = m.byType("::n::Tp<int>"), *U = m.byType("::n::Un");
  gs_assert(S && T && U, "classes exposed"); if (!S || !T || !U) return;
  const FA &d = FV[0]; FA h = FV[gs_concrete(fH)]; if (gs_concrete(fAcc) != 0) h.vis = false;
  checkField(m, S, "::n::S::a", "a", false, false, FV[gs_concrete(fA)]);
  checkField(m, S, "::n::S::b", "b", false, true, d);
  checkField(m, S, "::n::S::c", "c", true, false, FV[gs_concrete(fC)]);
  checkField(m, S, "::n::S::d", "d", true, true, d);
  checkField(m, S, "::n::S::e", "e", true, true, d);
  checkField(m, S, "::n::S::f", "f", false, false, d);
  checkField(m, S, "::n::S::g", "g", false, true, d);
  checkField(m, S, "::n::S::fp", "fp", false, false, d);
  checkField(m, S, "::n::S::h", "h", false, false, h);
  checkField(m, S, "::n::S::k", "k", true, false, h);
  checkField(m, T, "::n::Tp<int>::x", "x", false, false, d);
  checkField(m, T, "::n::Tp<int>::y", "y", false, true, d);
  checkField(m, T, "::n::Tp<int>::z", "z", true, false, d);
  checkField(m, U, "::n::Un::i", "i", false, false, d);
  checkField(m, U, "::n::Un::j", "j", false, false, d);
  unsigned v = gs_concrete(fV);
  Strs got; for (auto &c : m.ctxs) for (auto &s : c.stmts) if (s.rfind("context.attr(", 0) == 0) { got.push_back(s); gs_assert(m.path(&c).empty(), "variables live in their scope"); }
  Strs want; if (v == 0) want.push_back("context.attr(\"v\")=::n::v"); if (v == 2) want.push_back("context.attr(\"vv\")=::n::v");
  want.push_back("context.attr(\"w\")=::n::w");
  gs_assert(got == want, "variables are exposed as attributes holding their value");
  gs_cover("fields");
}
RegE RF({"C19.q.fields", HDRF, {}, setupF, oracleF});

// ---------------------------------------------------------------- C26 manual bindings
#define HDRM R"(#pragma once
#include <genpybind/genpybind.h>
void print(const char *, int = 0);
void before() GENPYBIND(visible);
GENPYBIND(__sel_1) GENPYBIND_MANUAL({ parent.attr("mark1") = 1; })
GENPYBIND(__sel_2) GENPYBIND_MANUAL({ auto x = 5; print("mark2", x); if (x > 3) { print("mark2b"); } })
namespace n GENPYBIND(__sel_N) {
struct GENPYBIND(__sel_S) S {
  void first() GENPYBIND(visible);
  GENPYBIND(__sel_3) GENPYBIND_MANUAL({ using T = GENPYBIND_PARENT_TYPE; parent.def("mark3", [](T &self) { return &self; }); })
  GENPYBIND(__sel_4) GENPYBIND_MANUAL({ parent.def("mark4", 4); })
  void last() GENPYBIND(visible);
};
GENPYBIND(__sel_5) GENPYBIND_MANUAL({ parent.attr("mark5") = 5; })
}
void after() GENPYBIND(visible);
GENPYBIND(__sel_6) GENPYBIND_MANUAL({ parent.attr("mark6") = 6; })
)"
uint8_t mm[8], mN, mS;
void setupM(Env &e) {
  mm[1] = e.anno("1", {nullptr, "postamble", "hidden"}); mm[2] = e.anno("2", {nullptr, "postamble", "visible(default)"});
  mm[3] = e.anno("3", {nullptr, "hidden"}); mm[4] = e.anno("4", {nullptr, "visible"});
  mm[5] = e.anno("5", {nullptr, "hidden"}); mm[6] = e.anno("6", {nullptr, "postamble"});
  mN = e.anno("N", {"visible", "module", "hidden"}); mS = e.anno("S", {"visible", "hidden", "expose_as(R)"});
}
void oracleM(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  unsigned s[8]; for (int i = 1; i <= 6; i++) s[i] = gs_concrete(mm[i]);
  unsigned N = gs_concrete(mN), S = gs_concrete(mS);
  std::string mod = N == 1 ? ".n" : "", cls = mod + (S == 2 ? ".R" : ".S");
  bool post[8] = {}, on[8] = {};
  for (int i : {1, 2, 6}) post[i] = s[i] == 1;
  on[1] = s[1] == 0; on[2] = s[2] == 0; on[3] = s[3] == 0 && S != 1; on[4] = S != 1; on[5] = s[5] == 0; on[6] = s[6] == 0;
  const std::string where[8] = {"", "", "", cls, cls, mod, ""};
  static const char *const mark[] = {"", "\"mark1\"", "\"mark2\"", "\"mark3\"", "\"mark4\"", "\"mark5\"", "\"mark6\""};
  for (int i = 1; i <= 6; i++) {
    size_t n = 0, t = 0; std::string text;
    for (auto &c : m.ctxs) for (auto &st : c.stmts) if (contains(st, mark[i])) { n++; text = st; gs_assert(m.path(&c) == where[i], "manual bindings act on the scope they are written in"); }
    for (auto &st : m.tail) if (contains(st, mark[i])) { t++; text = st; }
    gs_assert(n == (size_t)on[i], "manual bindings are part of their scope's bindings iff visible");
    gs_assert(t == (size_t)post[i], "postamble bindings, and only those, come after everything else");
    if (n + t == 1) {
      if (i != 2) gs_assert(text.rfind("[](auto&parent){", 0) == 0 && text.size() > 10 && text.substr(text.size() - 10) == "}(context)", "manual bindings are applied to their context");
      else gs_assert(text.rfind("{autox=5;", 0) == 0 && contains(text, "\"mark2b\"") && text.back() == '}', "manual code is emitted completely");
    }
  }
  // relative order
  auto order = [&](const std::vector<std::string> &st, const Strs &marks) {
    size_t last = 0; bool ok = true;
    for (auto &k : marks) for (size_t j = 0; j < st.size(); j++) if (contains(st[j], k)) { if (j < last) ok = false; last = j; }
    return ok;
  };
  gs_assert(order(m.tail, {mark[1], mark[2], mark[6]}), "postamble bindings keep their order");
  for (auto &c : m.ctxs) {
    gs_assert(order(c.stmts, {"&::before", mark[1], mark[2], "&::after", mark[6]}), "manual bindings keep their place among the declarations");
    gs_assert(order(c.stmts, {"S::first", mark[3], mark[4], "S::last"}), "manual bindings keep their place among the declarations");
  }
  if (post[1] && post[2] && post[6]) gs_cover("all postamble"); else if (S == 1) gs_cover("hidden class"); else gs_cover("other");
}
RegE RM({"C26.q.manual", HDRM, {}, setupM, oracleM});

// ---------------------------------------------------------------- C04 class options
#define HDRO R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct GENPYBIND(__sel_A) A {};
struct GENPYBIND(__sel_B) B : A { struct GENPYBIND(__sel_I) I {}; };
template <typename T> struct GENPYBIND(__sel_T) T1 {};
template struct T1<int>;
struct Plain {};
}
)"
struct OA { const char *text; bool dyn; const char *holder; };
const std::vector<OA> OV{{nullptr, false, ""}, {"dynamic_attr", true, ""}, {"dynamic_attr(true), dynamic_attr(false)", false, ""}, {"holder_type(\"std::shared_ptr<n::A>\")", false, "std::shared_ptr<n::A>"},
  {"dynamic_attr(false), holder_type(\"H<1,2>\"), dynamic_attr", true, "H<1,2>"}, {"holder_type(\"X\"), holder_type(\"Y\")", false, "Y"}};
Alts ovs(size_t n) { Alts r; for (size_t i = 0; i < n; i++) r.push_back(OV[i].text); return r; }
uint8_t oA, oB, oI, oT;
void setupO(Env &e) { oA = e.anno("A", ovs(6)); oB = e.anno("B", ovs(6)); oI = e.anno("I", ovs(4)); oT = e.anno("T", {"visible", "dynamic_attr, holder_type(\"std::shared_ptr<n::A>\")"}); }
void checkOpt(const GenModel &m, const char *type, const OA &a, Strs bases) {
  const GenCtx *c = m.byType(type); gs_assert(c != nullptr, "class exposed"); if (!c) return;
  Strs want{type}; for (auto &b : bases) want.push_back(b); if (*a.holder) want.push_back(a.holder);
  gs_assert(c->tmpl == want, "the class uses exactly its bases and the requested holder");
  gs_assert(c->extra == (a.dyn ? Strs{"pybind11::dynamic_attr()"} : Strs{}), "dynamic attributes iff requested");
}
void oracleO(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  checkOpt(m, "::n::A", OV[gs_concrete(oA)], {}); checkOpt(m, "::n::B", OV[gs_concrete(oB)], {"::n::A"}); checkOpt(m, "::n::B::I", OV[gs_concrete(oI)], {});
  static const OA both{"", true, "std::shared_ptr<n::A>"};
  checkOpt(m, "::n::T1<int>", gs_concrete(oT) ? both : OV[0], {}); checkOpt(m, "::n::Plain", OV[0], {});
  gs_cover("options");
}
RegE RO({"C04.q.options", HDRO, {}, setupO, oracleO});
// holder types of any text
#define HDRO2 R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct A {}; struct GENPYBIND(__sel_B) B : A {};
}
)"
std::string ht;
bool okHolder(const char *p, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) { unsigned char c = p[i]; r = r & (bool)((c == '_') | (c == ':') | ((unsigned char)(c - 'a') < 26) | ((unsigned char)(c - 'A') < 26) | ((unsigned char)(c - '0') < 10)); } return r; }
template <int N> void setupH(Env &e) { ht = e.annoBytes("B", "holder_type(\"", N, "\")", okHolder); }
template <int N> void oracleH(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  const std::string pre = "::pybind11::class_<::n::B, ::n::A, ";
  size_t p = r.out().find(pre), cnt = 0;
  gs_assert(p != std::string::npos, "holder follows the bases"); if (p == std::string::npos) return;
  for (; p != std::string::npos; p = r.out().find(pre, p + 1)) {
    cnt++;
    bool eq = true; for (int i = 0; i < N; i++) eq = eq & (r.out()[p + pre.size() + i] == ht[i]);
    gs_assert(eq && r.out()[p + pre.size() + N] == '>', "the holder is exactly the requested text");
  }
  gs_cover("holder");
}
RegE RH3({"C04.q.holder3", HDRO2, {}, setupH<3>, oracleH<3>});
RegE RH8({"C04.t.holder8", HDRO2, {}, setupH<8>, oracleH<8>});
} // namespace
