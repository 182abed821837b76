// C02: every annotation that is malformed, unknown, not applicable to the
// declaration or given wrong arguments is an error with no output; every
// valid one is accepted.
#include "e_lib.h"
#include <cstring>
#include <string>
namespace {
// Argument forms.
enum Form : uint8_t { None, Empty, True, Default, Ident, Ident2, Spaced, Number, Neg, Unclosed, TwoBool, Mixed, NForms };
const char *const forms[NForms] = {"", "()", "(true)", "(default)", "(x)", "(x, y)", "(\"x y\")", "(12)", "(-1)", "(x", "(true, false)", "(x, true)"};
bool wellFormed(uint8_t f) { return f != Neg && f != Unclosed; }
unsigned nstr(uint8_t f) { return f == Ident || f == Spaced ? 1 : f == Ident2 ? 2 : 0; } // all arguments are strings
bool none(uint8_t f) { return f == None || f == Empty; }
bool noneOrBool(uint8_t f) { return none(f) || f == True; }

enum Kind : uint8_t { KNamespace, KRecord, KEnum, KEnumerator, KAlias, KField, KStatic, KVar, KMethod, KGetter, KCtor, KCtor2, KFunc, KOper, KConv, NKinds };
const char *const kw[] = {"visible", "hidden", "expose_as", "module", "only_expose_in", "arithmetic", "export_values", "dynamic_attr", "hide_base", "inline_base",
  "holder_type", "encourage", "expose_here", "return_value_policy", "keep_alive", "noconvert", "required", "getter_for", "setter_for", "implicit_conversion", "readonly", "postamble", "manual", "bogus"};
const unsigned NKW = sizeof(kw) / sizeof(*kw);
bool isFn(uint8_t k) { return k == KMethod || k == KGetter || k == KCtor || k == KCtor2 || k == KFunc || k == KOper || k == KConv; }
// All function-like declarations below (except KGetter/KConv) have parameters named x (and y where stated).
bool hasX(uint8_t k) { return k == KMethod || k == KCtor || k == KCtor2 || k == KFunc || k == KOper; }
bool hasY(uint8_t k) { return k == KCtor2 || k == KFunc; }
/// Specification: is keyword w with argument form f acceptable on kind k?
bool accepted(uint8_t k, unsigned w, uint8_t f) {
  if (!wellFormed(f)) return false;
  std::string n = kw[w];
  if (n == "visible") return noneOrBool(f) || f == Default;
  if (n == "hidden") return none(f);
  if (n == "expose_as") return f == Default || f == Ident;
  if (n == "module") return k == KNamespace && (none(f) || f == Ident);
  if (n == "only_expose_in") return k == KNamespace && nstr(f) > 0;
  if (n == "arithmetic" || n == "export_values") return k == KEnum && noneOrBool(f);
  if (n == "dynamic_attr") return k == KRecord && noneOrBool(f);
  if (n == "hide_base" || n == "inline_base") return k == KRecord && (none(f) || nstr(f) > 0);
  if (n == "holder_type") return k == KRecord && nstr(f) == 1;
  if (n == "encourage" || n == "expose_here") return k == KAlias && none(f);
  if (n == "return_value_policy") return isFn(k) && nstr(f) == 1;
  if (n == "keep_alive") return isFn(k) && f == Ident2 && hasX(k) && hasY(k);
  if (n == "noconvert" || n == "required") return isFn(k) && ((f == Ident && hasX(k)) || (f == Ident2 && hasX(k) && hasY(k)));
  if (n == "getter_for") return k == KGetter && (f == Ident || f == Ident2);
  if (n == "setter_for") return k == KMethod && (f == Ident || f == Ident2);
  if (n == "implicit_conversion") return k == KCtor && noneOrBool(f);
  if (n == "readonly") return (k == KField || k == KStatic || k == KVar) && noneOrBool(f);
  return false; // postamble/manual need a lambda; bogus is unknown
}
struct Case { std::string text; bool ok; };
const std::vector<Case> &cases(uint8_t k, unsigned part) { // two halves, each below 256 alternatives
  static std::vector<Case> v[NKinds][2];
  auto &c = v[k][part];
  if (c.empty())
    for (unsigned w = part * NKW / 2; w < (part + 1) * NKW / 2; w++)
      for (uint8_t f = 0; f < NForms; f++) {
        c.push_back({std::string(kw[w]) + forms[f], accepted(k, w, f)});
      }
  return c;
}
const char *const site[NKinds] = {"NS", "REC", "ENUM", "ENUMERATOR", "ALIAS", "FIELD", "STATIC", "VAR", "METHOD", "GETTER", "CTOR", "CTOR2", "FUNC", "OPER", "CONV"};
#define HDR() R"(#pragma once
#include <genpybind/genpybind.h>
namespace n {
namespace m GENPYBIND(__sel_NS) { struct GENPYBIND(visible) Q {}; }
struct x {}; struct y {};
struct GENPYBIND(__sel_REC) A : x, y {
  A(int x) GENPYBIND(__sel_CTOR);
  A(int x, int y) GENPYBIND(__sel_CTOR2);
  int f GENPYBIND(__sel_FIELD);
  static int sf GENPYBIND(__sel_STATIC);
  void m(int x) GENPYBIND(__sel_METHOD);
  int g() const GENPYBIND(__sel_GETTER);
  bool operator<(A const &x) const GENPYBIND(__sel_OPER);
  operator int() const GENPYBIND(__sel_CONV);
};
enum class GENPYBIND(__sel_ENUM) E { e0 GENPYBIND(__sel_ENUMERATOR) };
extern int v GENPYBIND(__sel_VAR);
using T GENPYBIND(__sel_ALIAS) = E;
int ff(int x, int y) GENPYBIND(__sel_FUNC);
}
)"
uint8_t sel[2];
template <int K, int P> void setup(Env &e) {
  for (int k = 0; k < NKinds; k++) {
    if (k == K) {
      std::vector<const char *> a;
      for (auto &c : cases(K, P)) a.push_back(c.text.c_str());
      sel[0] = e.anno(site[k], a);
    } else e.anno(site[k], {k == KRecord && K == KAlias ? "visible" : nullptr});
  }
}
template <int K, int P> void oracle(Env &, const Result &r) {
  unsigned s = gs_concrete(sel[0]);
  const Case &c = cases(K, P)[s];
  bool ok = c.ok;
  // A setter without a getter is diagnosed later; only when the class is exposed.
  gs_assert((r.exit_code == 0) == ok, "annotation accepted exactly when it is valid for the declaration");
  gs_assert(r.errors.empty() == ok, "an error is reported exactly when the annotation is invalid");
  gs_assert(!ok || r.created == 1, "valid input produces the output file");
  if (!ok) {
    gs_assert(r.errors.size() >= 1 && r.errors.size() <= 2, "one error per mistake");
    gs_assert(r.created == 0, "no output file is created when an annotation is invalid");
    gs_assert(contains(r.errors[0], std::string(kw[P * NKW / 2 + s / NForms])) || !wellFormed(s % NForms), "the error names the annotation");
    gs_cover("rejected");
  } else gs_cover("accepted");
}
// ---------------------------------------------------------------- special: conditions on the declaration itself; one setting at a time
struct Sp { const char *site; std::vector<std::pair<const char *, bool>> alts; };
const std::vector<Sp> specials{
  {"A1", {{"visible", true}, {"encourage", true}, {"expose_here", true}, {"encourage, expose_here", false}, {"expose_here, visible(true), encourage", false}}},                 // alias of a class
  {"A2", {{"visible", false}, {"encourage", false}, {"expose_here", false}, {"hidden", false}}},                                             // alias of int
  {"A3", {{"expose_here", false}, {"visible", false}}},                                                                                    // alias of an incomplete class
  {"A4", {{"encourage", false}}},                                                                                                          // alias of a pointer to a class
  {"A5", {{"visible", true}, {"expose_here", true}}},                                                                                      // alias of a template instance
  {"G1", {{"getter_for(r)", true}, {"setter_for(p)", true}, {"getter_for(r), setter_for(p)", true}, {"getter_for(q, r, true)", false}, {"getter_for(q, r, s, t)", true}, {"getter_for(q, r, s, t, 1)", false}}},                                      // int (int = 1)
  {"G2", {{"getter_for(r)", false}, {"setter_for(p)", true}}},                                                                             // int (int, int = 1)
  {"G3", {{"getter_for(r)", false}, {"setter_for(p)", false}}},                                                                            // void ()
  {"G4", {{"getter_for(r)", false}, {"setter_for(p)", false}}},                                                                            // int (int, int)
  {"G5", {{"getter_for(r)", true}, {"setter_for(p)", true}}},                                                                              // int (int = 1, int = 2) const
  {"G6", {{"getter_for(r)", false}, {"setter_for(p)", true}}},                                                                             // void (int = 1)
  {"C0", {{"implicit_conversion", false}, {"implicit_conversion(false)", false}}},                                                         // ()
  {"C1", {{"implicit_conversion", true}, {"implicit_conversion(false)", true}}},                                                           // explicit (double)
  {"C2", {{"implicit_conversion", false}}},                                                                                                // (char, int = 1)
  {"C3", {{"implicit_conversion", true}}},                                                                                                 // (short = 1)
  {"C4", {{"implicit_conversion", false}}},                                                                                                // (short, short)
  {"K1", {{"keep_alive(this, x)", true}, {"keep_alive(x, this)", true}, {"keep_alive(return, x)", true}, {"keep_alive(x)", false}, {"keep_alive(x, x, x)", false}, {"keep_alive(x, z)", false}, {"keep_alive(z, x)", false}, {"noconvert(this)", false}, {"required(return)", false}, {"keep_alive(x, this), keep_alive(x, return)", true}}}, // method
  {"K2", {{"keep_alive(this, x)", false}, {"keep_alive(x, this)", false}, {"keep_alive(return, x)", true}}},                               // static method
  {"K3", {{"keep_alive(this, x)", false}, {"keep_alive(x, this)", false}, {"keep_alive(return, x)", true}, {"noconvert(x), noconvert(z)", false}, {"noconvert(x, z)", false}, {"required(x), required(z)", false}, {"required(x, x)", true}, {"required(x, x, true)", false}, {"noconvert(x, x, x, 1)", false}, {"noconvert(x, x, x, x)", true}}},                               // free function
  {"C5", {{"keep_alive(this, x)", true}, {"keep_alive(x, this)", true}}},                                                                  // constructor
  {"M1", {{"visible", true}, {"hidden", true}, {"postamble", true}, {"expose_as(x)", true}, {"postamble(true)", false}, {"module", false}, {"readonly(1)", false}, {"postamble(x)", false}, {"manual(x)", false}}}, // global manual binding
  {"M2", {{"visible", true}, {"hidden", true}, {"postamble", false}}},                                                                      // in a namespace
  {"M3", {{"visible", true}, {"hidden", true}, {"postamble", false}}},                                                                      // in a class
  {"V1", {{"manual", false}, {"visible", true}}},                                                                                          // plain variable
  {"V2", {{"manual", true}}},                                                                                                              // generic lambda with one parameter
  {"V3", {{"manual", false}}},                                                                                                             // lambda without parameters
  {"V4", {{"manual", false}}},                                                                                                             // lambda with two parameters
  {"U1", {{"dynamic_attr", true}, {"holder_type(H)", true}, {"hide_base", true}, {"arithmetic", false}, {"module", false}, {"hide_base(a, b, true)", false}, {"inline_base(a, b, c, 1)", false}, {"holder_type(a, b, c)", false}}},               // union
  {"T1", {{"dynamic_attr", true}, {"expose_here", false}, {"readonly", false}, {"hidden", true}, {"dynamic_attr(x)", false}}},             // explicit instantiation
  {"F1", {{"readonly", false}, {"visible", true}, {"noconvert(x)", true}, {"implicit_conversion", false}, {"getter_for(p)", false}}},      // function template instance
  {"O1", {{"getter_for(p)", false}, {"implicit_conversion", false}, {"required(x)", true}}},                                               // call operator
  {"F2", {{"keep_alive(return, x), module", false}, {"visible, bogus", false}, {"bogus, visible", false}, {"visible, required(z)", false}, {"hidden, required(z)", false}, {"visible(false), return_value_policy", false}}}, // mistakes are found anywhere in the list and even on hidden declarations
  {"D1", {{"readonly(false), readonly(x)", false}, {"expose_as(a), expose_as(\"a b\")", false}, {"expose_as(\"\")", false}, {"expose_as(a, b)", false}, {"readonly(default)", false}}},
};
uint8_t spSel;
#define HDRS R"(#pragma once
#include <genpybind/genpybind.h>
struct H;
struct Tgt {}; struct Inc; template <typename T> struct Tmp {};
using A1 GENPYBIND(__sel_A1) = Tgt;
using A2 GENPYBIND(__sel_A2) = int;
using A3 GENPYBIND(__sel_A3) = Inc;
using A4 GENPYBIND(__sel_A4) = Tgt *;
template struct Tmp<int>;
using A5 GENPYBIND(__sel_A5) = Tmp<int>;
auto M1 GENPYBIND(manual) GENPYBIND(__sel_M1) = [](auto &parent) {};
namespace n GENPYBIND(visible) {
struct S {
  S() GENPYBIND(__sel_C0);
  explicit S(double) GENPYBIND(__sel_C1);
  S(char, int = 1) GENPYBIND(__sel_C2);
  S(short = 1) GENPYBIND(__sel_C3);
  S(short, short) GENPYBIND(__sel_C4);
  S(int *x) GENPYBIND(__sel_C5);
  int g() const GENPYBIND(getter_for(p));
  int g1(int a = 1) GENPYBIND(__sel_G1);
  int g2(int a, int b = 1) GENPYBIND(__sel_G2);
  void g3() GENPYBIND(__sel_G3);
  int g4(int a, int b) GENPYBIND(__sel_G4);
  int g5(int a = 1, int b = 1) const GENPYBIND(__sel_G5);
  void g6(int a = 1) GENPYBIND(__sel_G6);
  int *k1(int *x) GENPYBIND(__sel_K1);
  static int *k2(int *x) GENPYBIND(__sel_K2);
  int operator()(int *x) GENPYBIND(__sel_O1);
  static constexpr auto M3 GENPYBIND(manual) GENPYBIND(__sel_M3) = [](auto &parent) {};
  int d1 GENPYBIND(__sel_D1);
};
auto M2 GENPYBIND(manual) GENPYBIND(__sel_M2) = [](auto &parent) {};
int *k3(int *x) GENPYBIND(__sel_K3);
int v1 GENPYBIND(__sel_V1) = 0;
auto v2 GENPYBIND(hidden) GENPYBIND(__sel_V2) = [](auto &parent) {};
auto v3 GENPYBIND(hidden) GENPYBIND(__sel_V3) = []() {};
auto v4 GENPYBIND(hidden) GENPYBIND(__sel_V4) = [](auto &parent, int x) {};
union GENPYBIND(__sel_U1) U { int i; };
template <typename T> struct T1 {};
template struct GENPYBIND(__sel_T1) T1<int>;
template <typename T> void f1(T x) GENPYBIND(__sel_F1);
extern template void f1<int>(int);
int *f2(int *x) GENPYBIND(__sel_F2);
}
)"
uint8_t spMaster;
void setupS(Env &e) {
  unsigned n = 1; for (auto &x : specials) n += x.alts.size();
  spMaster = gs_range("case", n, 0);
  unsigned at = 1;
  for (auto &x : specials) {
    std::vector<const char *> a{nullptr}; uint8_t tab[256]; memset(tab, 0, sizeof tab);
    for (auto &y : x.alts) { tab[at++] = (uint8_t)a.size(); a.push_back(y.first); }
    uint8_t v; gs_table(&v, spMaster, tab);
    e.annoSel(x.site, a, v);
  }
}
void oracleS(Env &, const Result &r) {
  unsigned c = gs_concrete(spMaster), at = 1; bool ok = true;
  for (auto &x : specials) for (auto &y : x.alts) if (at++ == c) { ok = y.second; gs_note(x.site, y.first); }
  gs_assert((r.exit_code == 0) == ok, "annotation accepted exactly when it is valid for the declaration");
  gs_assert(r.errors.empty() == ok, "an error is reported exactly when the annotation is invalid");
  gs_assert((r.created == 1) == ok, "output file is created exactly when the annotations are valid");
  if (ok) gs_cover("accepted"); else gs_cover("rejected");
}
// ---------------------------------------------------------------- several mistakes: each of them is reported
struct Tw { const char *text; unsigned errors; };
const std::vector<Tw> twoRec{{"visible", 0}, {"bogus", 1}, {"module, arithmetic", 2}, {"hidden(1)", 1}}, twoFn{{"visible", 0}, {"readonly", 1}, {"noconvert(q)", 1}, {"dynamic_attr, visible, getter_for(p)", 2}},
    twoEn{{"visible", 0}, {"export_values(3)", 1}, {"required(x), expose_as(1)", 2}};
uint8_t twoSel[3];
void setupT(Env &e) {
  auto texts = [](const std::vector<Tw> &v) { std::vector<const char *> a; for (auto &x : v) a.push_back(x.text); return a; };
  twoSel[0] = e.anno("REC", texts(twoRec)); twoSel[1] = e.anno("FN", texts(twoFn)); twoSel[2] = e.anno("EN", texts(twoEn));
}
void oracleT(Env &, const Result &r) {
  unsigned n = twoRec[gs_concrete(twoSel[0])].errors + twoFn[gs_concrete(twoSel[1])].errors + twoEn[gs_concrete(twoSel[2])].errors;
  gs_assert((r.exit_code == 0) == (n == 0) && (r.created == 1) == (n == 0), "output exactly when there is no mistake");
  gs_assert(r.errors.size() == n, "every invalid annotation is reported");
  if (n > 1) gs_cover("several mistakes");
}
RegE RT({"C02.q.several", R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct GENPYBIND(__sel_REC) A {};
int f(int x) GENPYBIND(__sel_FN);
enum class GENPYBIND(__sel_EN) E { e };
}
)", {}, setupT, oracleT});
RegE RS({"C02.q.special", HDRS, {}, setupS, oracleS});
#define REGT(K, T) RegE R##K##0({"C02." T "." #K "0", HDR(), {}, setup<K, 0>, oracle<K, 0>}); RegE R##K##1({"C02." T "." #K "1", HDR(), {}, setup<K, 1>, oracle<K, 1>});
#define REG(K) REGT(K, "q")
REG(KNamespace) REG(KRecord) REG(KEnum) REG(KEnumerator) REG(KAlias) REG(KField) REG(KStatic) REG(KVar) REG(KMethod) REG(KGetter) REG(KCtor) REG(KCtor2) REG(KFunc) REG(KOper) REG(KConv)
} // namespace
