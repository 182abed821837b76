// C15: several output files. C22: unique identifiers. C25: no output on failure.
#include "e_lib.h"
#include <algorithm>
#include <map>
#include <set>
namespace {
using Alts = std::vector<const char *>;
using Strs = std::vector<std::string>;
// ---------------------------------------------------------------- a light-weight view of one output file
struct Item { bool def; std::string sig, body; };
struct File { Strs pre; std::vector<Item> items; bool ok = true; };
File parse(const std::string &o) {
  File f; std::string cur; int d = 0; std::string sig;
  for (size_t i = 0; i < o.size(); i++) {
    char c = o[i];
    if (c == '"') { size_t e = i + 1; while (e < o.size() && o[e] != '"') e += o[e] == '\\' ? 2 : 1; cur += o.substr(i, e - i + 1); i = e; continue; }
    if (d == 0 && c == '#') { size_t e = o.find('\n', i); if (e == std::string::npos) e = o.size(); if (!f.items.empty() || !squeeze(cur).empty()) f.ok = false; f.pre.push_back(o.substr(i, e - i)); i = e; continue; }
    if (c == '{' && d++ == 0) { sig = squeeze(cur); cur.clear(); continue; }
    if (c == '}' && --d == 0) { f.items.push_back({true, sig, squeeze(cur)}); cur.clear(); continue; }
    if (c == ';' && d == 0) { f.items.push_back({false, squeeze(cur), ""}); cur.clear(); continue; }
    cur += c;
  }
  if (!squeeze(cur).empty() || d) f.ok = false;
  return f;
}
std::string fname(const std::string &sig) { size_t p = sig.find('('); std::string n = sig.substr(0, p); return n.rfind("void", 0) == 0 ? n.substr(4) : "?" + n; }
bool validId(const std::string &s) { bool r = !s.empty() && !(s[0] >= '0' && s[0] <= '9'); for (char c : s) r = r && (c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')); return r; }
/// Checks common to C15 and C22. Returns the functions in the order the module calls them.
Strs checkSplit(const Result &r, unsigned n) {
  Strs called;
  gs_assert(r.outs.size() == n, "every requested file is written"); if (r.outs.size() != n) return called;
  std::vector<File> fs; for (auto &o : r.outs) fs.push_back(parse(o));
  std::map<std::string, unsigned> defs; std::map<std::string, std::string> sigs; size_t modules = 0; std::string mod;
  size_t mn = ~0ul, mx = 0;
  for (unsigned i = 0; i < n; i++) {
    gs_assert(fs[i].ok, "file has the shape of a translation unit");
    gs_assert(fs[i].pre == fs[0].pre && !fs[i].pre.empty() && contains(fs[i].pre[0], "example.h"), "every file includes the header and the same support headers first");
    std::set<std::string> declared; size_t cnt = 0;
    for (auto &it : fs[i].items) {
      if (it.sig.rfind("PYBIND11_MODULE(", 0) == 0) {
        modules++; mod = it.body; gs_assert(i == 0, "the module definition is in the first file");
        // everything it calls has been declared before
        for (size_t p = 0; (p = mod.find("expose_", p)) != std::string::npos; p++) { size_t e = p; while (e < mod.size() && mod[e] != '(') e++; std::string f = mod.substr(p, e - p); called.push_back(f); gs_assert(declared.count(f) != 0, "functions are declared before the module uses them"); }
        continue;
      }
      std::string f = fname(it.sig);
      gs_assert(validId(f), "generated functions have valid names");
      if (it.def) { defs[f]++; cnt++; gs_assert(declared.count(f) != 0, "every function is declared before its definition"); }
      declared.insert(f);
      auto &s = sigs[f]; if (s.empty()) s = it.sig; gs_assert(s == it.sig, "all declarations of a function agree");
    }
    mn = std::min(mn, cnt); mx = std::max(mx, cnt);
  }
  gs_assert(modules == 1, "exactly one module definition");
  gs_assert(called.size() == defs.size() && std::set<std::string>(called.begin(), called.end()).size() == called.size(), "the module calls every function exactly once");
  for (auto &f : called) gs_assert(defs[f] == 1, "every function is defined exactly once over all files");
  gs_assert(sigs.size() == defs.size(), "no function is declared without being defined");
  gs_assert(mx - mn <= 1, "the functions are spread evenly over the files");
  return called;
}
#define HDR R"(#pragma once
#include <genpybind/genpybind.h>
#pragma genpybind include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct GENPYBIND(__sel_A) A { void ma(); };
struct GENPYBIND(__sel_B) B : A { void mb(); enum GENPYBIND(__sel_E) E { e1 }; };
struct GENPYBIND(__sel_C) C { void mc(); };
void fn();
}
namespace m GENPYBIND(__sel_M) { struct GENPYBIND(__sel_D) D { void md(); }; void fm() GENPYBIND(visible); }
GENPYBIND(__sel_P) GENPYBIND_MANUAL({ parent.attr("mark") = 1; })
)"
uint8_t sA, sB, sC, sD, sE, sM, sP;
const Alts vh{nullptr, "hidden"};
void setup(Env &e) {
  sA = e.anno("A", vh); sB = e.anno("B", vh); sC = e.anno("C", vh); sD = e.anno("D", {"visible", "hidden"}); sE = e.anno("E", vh);
  sM = e.anno("M", {"module", "visible", "hidden"}); sP = e.anno("P", {nullptr, "postamble"});
}
template <unsigned N> void oracle(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  Strs called = checkSplit(r, N);
  GenModel m = model(r); gs_assert(m.ok, "the files together define the module"); if (!m.ok) return;
  bool A = !gs_concrete(sA), B = !gs_concrete(sB), C = !gs_concrete(sC), D = !gs_concrete(sD), E = !gs_concrete(sE); unsigned M = gs_concrete(sM), P = gs_concrete(sP);
  auto at = [&](const char *t, bool want, const std::string &path, const char *ref) {
    const GenCtx *c = m.byType(t);
    gs_assert((c != nullptr) == want, "class exposed iff visible");
    if (c) gs_assert(m.path(c) == path && c->called, "class placed and populated");
    auto refs = m.refs(ref); gs_assert(refs.size() == (size_t)want && (!want || refs[0].ctx == c), "members are defined in their own class");
  };
  at("::n::A", A, ".A", "&::n::A::ma"); at("::n::B", B, ".B", "&::n::B::mb"); at("::n::C", C, ".C", "&::n::C::mc");
  at("::n::B::E", B && E, ".B.E", "::n::B::E::e1"); at("::m::D", D, M == 0 ? ".m.D" : ".D", "&::m::D::md");
  auto f = m.refs("&::n::fn"), g = m.refs("&::m::fm");
  gs_assert(f.size() == 1 && m.path(f[0].ctx) == "", "function in its scope"); gs_assert(g.size() == 1 && m.path(g[0].ctx) == (M == 0 ? ".m" : ""), "function in its scope");
  size_t marks = 0; for (auto &o : r.outs) marks += countOf(o, "\"mark\""); size_t tail = 0; for (auto &s : m.tail) tail += contains(s, "\"mark\"");
  gs_assert(marks == 1 && tail == (size_t)P, "manual code appears once, postamble in the module body");
  if (called.size() < N) gs_cover("fewer functions than files"); else gs_cover("split");
}
RegE R1({"C15.q.one", HDR, {}, setup, oracle<1>, 1});
RegE R2({"C15.q.two", HDR, {}, setup, oracle<2>, 2});
RegE R3({"C15.q.three", HDR, {}, setup, oracle<3>, 3});
RegE R7({"C15.q.seven", HDR, {}, setup, oracle<7>, 7});
RegE R4({"C15.t.four", HDR, {}, setup, oracle<4>, 4});
RegE R5({"C15.t.five", HDR, {}, setup, oracle<5>, 5});
RegE R6({"C15.t.six", HDR, {}, setup, oracle<6>, 6});
RegE R12({"C15.t.twelve", HDR, {}, setup, oracle<12>, 12});

// ---------------------------------------------------------------- C22
#define HDRU R"(#pragma once
#include <genpybind/genpybind.h>
template <typename T> struct GENPYBIND(visible) W { T m; }; template struct W<int>; template struct W<int *>; template struct W<int **>; template struct W<const int>;
struct GENPYBIND(__sel_1) n_A { int m1; };
namespace n GENPYBIND(visible) {
struct GENPYBIND(__sel_2) A { int m2; };
struct GENPYBIND(__sel_3) A_2 { int m3; };
struct GENPYBIND(__sel_4) A_3 { int m4; };
struct A_ { struct GENPYBIND(__sel_5) A { int m5; }; };
namespace A_2_ { void fA_2_(); }
}
namespace n_ GENPYBIND(__sel_6) { struct GENPYBIND(visible) A { int m6; }; void fn_(); }
namespace n_A_ GENPYBIND(__sel_7) { struct _3 { int m7; }; void fn_A_(); }
namespace root GENPYBIND(__sel_8) { struct context { int m8; }; void froot(); }
)"
uint8_t u[9];
template <bool Q> void setupU(Env &e) { static const char *const nm[] = {"", "1", "2", "3", "4", "5", "6", "7", "8"}; for (int i = 1; i <= 8; i++) { Alts a{i >= 6 ? "module" : "visible", "hidden", i >= 6 ? "visible" : "expose_as(Z)"}; if (Q && i < 6) a.pop_back(); u[i] = e.anno(nm[i], a); } }
template <int N> void oracleU(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  checkSplit(r, N);
  GenModel m = model(r); gs_assert(m.ok, "all generated names are distinct"); if (!m.ok) return;
  std::set<std::string> vars{"root"};
  for (auto &c : m.ctxs) { gs_assert(validId(c.var) && vars.insert(c.var).second, "context objects have distinct, valid names"); gs_assert(c.called, "every context is populated"); }
  unsigned s[9]; for (int i = 1; i <= 8; i++) s[i] = gs_concrete(u[i]);
  static const char *const T[] = {"", "::n_A", "::n::A", "::n::A_2", "::n::A_3", "::n::A_::A", "::n_::A", "::n_A_::_3", "::root::context"};
  for (int i = 1; i <= 8; i++) {
    bool on = i == 6 || s[i] != 1; if (i == 8 || i == 7) on = s[i] == 2; // module alone does not make visible
    const GenCtx *c = m.byType(T[i]);
    gs_assert((c != nullptr) == on, "exposed iff visible"); if (!c) continue;
    auto refs = m.refs(std::string("&") + T[i] + "::m" + std::to_string(i));
    gs_assert(refs.size() == 1 && refs[0].ctx == c, "members end up in their own class");
  }
  for (const char *t : {"int", "int*", "int**", "constint"}) { const GenCtx *c = m.byType(std::string("::W<") + t + ">"); gs_assert(c != nullptr, "template instance exposed"); if (c) { auto refs = m.refs(std::string("&::W<") + t + ">::m"); gs_assert(refs.size() == 1u && (refs.empty() || refs[0].ctx == c), "members end up in their own class"); } }
  gs_cover("unique");
}
RegE U1({"C22.q.unique", HDRU, {}, setupU<true>, oracleU<1>, 1});
RegE U3({"C22.t.unique3", HDRU, {}, setupU<false>, oracleU<3>, 3});

// ---------------------------------------------------------------- C25
#define HDRX R"(#pragma once
#include <genpybind/genpybind.h>
/*@syntax*//*@*/
namespace n GENPYBIND(__sel_N) {
struct GENPYBIND(__sel_A) A { int g() const GENPYBIND(__sel_G); void s(int x) GENPYBIND(__sel_S); };
struct GENPYBIND(__sel_B) B : A { struct I {}; };
using T GENPYBIND(__sel_T) = A;
using U GENPYBIND(__sel_U) = A;
}
namespace n GENPYBIND(__sel_M) { void f(int x) GENPYBIND(__sel_F); }
)"
uint8_t xN, xM, xA, xG, xS, xB, xT, xU, xF, xfail;
void setupX(Env &e) {
  xN = e.anno("N", {"visible", "visible, module"}); xM = e.anno("M", {"visible", "hidden"});
  xA = e.anno("A", {nullptr, "bogus", "visible("}); xG = e.anno("G", {nullptr, "getter_for(p)"}); xS = e.anno("S", {nullptr, "setter_for(p)"});
  xB = e.anno("B", {nullptr, "holder_type(3)"}); xT = e.anno("T", {nullptr, "expose_here"}); xU = e.anno("U", {"hidden", "expose_here"});
  xF = e.anno("F", {nullptr, "noconvert(y)"});
}
/// Number of mistakes in the input.
unsigned mistakes() {
  unsigned a = gs_concrete(xA);
  bool same = (gs_concrete(xN) == 0) == (gs_concrete(xM) == 0) && gs_concrete(xN) == 0;
  unsigned g = gs_concrete(xG), s = gs_concrete(xS);
  return (a != 0) + !same + (s && !g) + (gs_concrete(xB) != 0) + (gs_concrete(xT) && gs_concrete(xU)) + (gs_concrete(xF) != 0);
}
void setupO1(Env &e) {
  xA = e.anno("A", {nullptr, "bogus"}); xG = e.anno("G", {nullptr, "getter_for(p)"}); xS = e.anno("S", {nullptr, "setter_for(p)"}); xN = e.anno("N", {"visible"}); xM = e.anno("M", {"visible"});
  xB = e.anno("B", {nullptr}); xT = e.anno("T", {nullptr}); xU = e.anno("U", {"hidden"}); xF = e.anno("F", {nullptr, "noconvert(y)"});
}
template <unsigned N, bool Keep, bool XFail> void oracleX(Env &, const Result &r) {
  bool bad = mistakes() != 0;
  gs_assert(r.exists.size() == N, "files looked at");
  gs_assert((r.exit_code != 0) == (bad != XFail), "exit status tells whether the module was generated");
  gs_assert((r.errors.size() != 0) == bad, "an error is reported iff the input is invalid");
  if (bad) {
    if (!Keep) for (bool x : r.exists) gs_assert(!x, "no output file remains after an error");
    gs_cover("failure");
  } else {
    for (bool x : r.exists) gs_assert(x, "every output file exists after success");
    checkSplit(r, N); GenModel m = model(r); gs_assert(m.ok && m.byType("::n::A") && m.byType("::n::B"), "the module is complete");
    gs_cover("success");
  }
}
RegE X1({"C25.q.one", HDRX, {}, setupX, oracleX<1, false, false>, 1, true});
RegE X3({"C25.q.three", HDRX, {}, setupX, oracleX<3, false, false>, 3, true});
RegE X2({"C25.t.xfail2", HDRX, {"--xfail"}, setupX, oracleX<2, false, true>, 2, true});
RegE XF({"C25.q.xfail", HDRX, {"--xfail"}, setupO1, oracleX<1, false, true>, 1, true});
// the header itself does not compile
void oracleB(Env &, const Result &r) {
  gs_assert(r.exit_code != 0, "exit status tells that the header does not compile");
  for (bool x : r.exists) gs_assert(!x, "no output file remains after an error");
  gs_cover("failure");
}
#define BROKEN(decl) "#pragma once\n#include <genpybind/genpybind.h>\n" decl "\nnamespace n GENPYBIND(visible) { struct GENPYBIND(__sel_A) A { int f(); }; void g() GENPYBIND(__sel_F); }\n"
void setupB(Env &e) { e.anno("A", {nullptr, "visible", "hidden", "dynamic_attr"}); e.anno("F", {nullptr, "hidden"}); }
RegE XB1({"C25.q.broken", BROKEN("int oops = undeclared_name;"), {}, setupB, oracleB, 2, true, {}, "example.h", true});
RegE XB2({"C25.q.missing", BROKEN("struct S; S s;"), {}, setupB, oracleB, 1, true, {}, "example.h", true});
// opening one of the files fails
void setupO(Env &e) {
  xA = e.anno("A", {nullptr, "bogus"}); xG = e.anno("G", {nullptr}); xS = e.anno("S", {nullptr, "setter_for(p)"}); xN = e.anno("N", {"visible"}); xM = e.anno("M", {"visible"});
  xB = e.anno("B", {nullptr}); xT = e.anno("T", {nullptr, "expose_here"}); xU = e.anno("U", {"hidden"}); xF = e.anno("F", {nullptr});
  xfail = gs_range("failing file", 4, 3); g_fail_open = (int)gs_concrete(xfail);
}
void oracleO(Env &, const Result &r) {
  unsigned k = gs_concrete(xfail); bool bad = mistakes() != 0 || k < 3;
  gs_assert((r.exit_code != 0) == bad, "exit status tells whether the module was generated");
  gs_assert((r.errors.size() != 0) == bad, "an error is reported iff something failed");
  if (bad) { for (bool x : r.exists) gs_assert(!x, "no output file remains after a failure"); gs_cover("failure"); }
  else { for (bool x : r.exists) gs_assert(x, "every output file exists after success"); checkSplit(r, 3); gs_cover("success"); }
}
RegE XO({"C25.q.open", HDRX, {}, setupO, oracleO, 3, true});
} // namespace
