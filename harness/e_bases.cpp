// C14: base classes: listed, hidden or inlined.
#include "e_lib.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <set>
namespace {
using Alts = std::vector<const char *>;
using Strs = std::vector<std::string>;
using Set = std::set<std::string>;
struct Anno { const char *text; bool visible = true; const char *hide = nullptr, *inl = nullptr; }; // hide/inl: "*" = all, else one letter per base, "" = none matched
struct Base { char cls; bool pub; };
struct Cls { char name; std::vector<Base> bases; Anno a; };
struct World {
  std::map<char, Cls> c;
  const Cls &at(char x) const { return c.at(x); }
  void allBases(char x, Set &r) const { for (auto &b : at(x).bases) { r.insert(std::string(1, b.cls)); allBases(b.cls, r); } }
  static bool has(const Set &s, char x) { return s.count(std::string(1, x)) != 0; }
  Set hides(char x) const { Set r; if (auto *h = at(x).a.hide) for (auto &b : at(x).bases) if (*h == '*' || strchr(h, b.cls)) r.insert(std::string(1, b.cls)); return r; }
  Set inlines(char x) const { Set r, all; allBases(x, all); if (auto *h = at(x).a.inl) for (auto &b : all) if (*h == '*' || strchr(h, b[0])) r.insert(b); return r; }
  void policy(char x, Set &hidden, Set &inl) const { // annotations of inlined classes apply as well
    Set cand, done; std::vector<char> todo{x};
    while (!todo.empty()) { char y = todo.back(); todo.pop_back(); for (auto &h : hides(y)) hidden.insert(h); for (auto &i : inlines(y)) if (cand.insert(i).second) todo.push_back(i[0]); }
    // only along public paths without hidden classes
    std::function<void(char)> reach = [&](char y) { for (auto &b : at(y).bases) if (b.pub && !has(hidden, b.cls)) { if (has(cand, b.cls)) inl.insert(std::string(1, b.cls)); reach(b.cls); } };
    reach(x);
  }
  void listed(char x, const Set &hidden, const Set &inl, Strs &out) const {
    for (auto &b : at(x).bases) {
      if (!b.pub || has(hidden, b.cls)) continue;
      if (has(inl, b.cls)) listed(b.cls, hidden, inl, out);
      else if (at(b.cls).a.visible) { std::string t = std::string("::n::") + b.cls; if (std::find(out.begin(), out.end(), t) == out.end()) out.push_back(t); }
    }
  }
};
void check(const GenModel &m, const World &w, size_t warnings, const Result &r) {
  size_t wantWarn = 0;
  for (auto &[k, c] : w.c) {
    const std::string type = std::string("::n::") + k;
    const GenCtx *x = m.byType(type);
    if (c.a.hide && w.hides(k).empty()) wantWarn++;
    if (c.a.inl && w.inlines(k).empty()) wantWarn++;
    gs_assert((x != nullptr) == c.a.visible, "class exposed iff visible"); if (!x) continue;
    Set hidden, inl; w.policy(k, hidden, inl);
    Strs want; w.listed(k, hidden, inl, want);
    gs_assert(Strs(x->tmpl.begin() + 1, x->tmpl.end()) == want, "exactly the exposed, public, not hidden bases are listed, once, in order, inlined ones replaced by theirs");
    for (auto &[k2, c2] : w.c) {
      bool own = k == k2, in = own || World::has(inl, k2);
      const std::string p = std::string("&::n::") + k2 + "::", suf(1, k2);
      auto cnt = [&](const std::string &what) { size_t n = 0; for (auto &y : x->calls) for (auto &a : y.args) if (contains(a, p + what) && !(contains(a, p + what + "_"))) n++; return n; };
      gs_assert(cnt("m" + suf) == (size_t)in, "members of inlined bases, and only those, are part of the class, once");
      gs_assert(cnt("f" + suf) == (size_t)in, "fields of inlined bases are part of the class");
      gs_assert(cnt("h" + suf) == 0 && cnt("p" + suf) == 0, "hidden and inaccessible members are never exposed");
      gs_assert(cnt("dup") <= 1, "at most one dup");
      if (own) gs_assert(cnt("dup") == 1, "own members hide those of inlined bases");
      else gs_assert(cnt("dup") == 0, "hidden names of inlined bases are not exposed");
    }
    size_t inits = 0; for (auto &y : x->calls) if (!y.args.empty() && y.args[0].rfind("pybind11::init<", 0) == 0) { inits++; }
    gs_assert(inits == 2, "constructors of inlined bases are not constructors of the class");
  }
  gs_assert(r.warnings.size() == wantWarn, "a warning for every list of bases that matches nothing");
}
#define BODY(X) "void m" X "(); int f" X "; void dup(); void h" X "() GENPYBIND(hidden); protected: void p" X "(); };\n"
#define HDR "#pragma once\n#include <genpybind/genpybind.h>\nnamespace n GENPYBIND(visible) {\n" \
  "struct GENPYBIND(__sel_A) A { " BODY("A") \
  "struct GENPYBIND(__sel_L) L : virtual A { " BODY("L") \
  "struct GENPYBIND(__sel_R) R : virtual A { " BODY("R") \
  "struct GENPYBIND(__sel_D) D : L, R { " BODY("D") \
  "struct GENPYBIND(__sel_E) E : D { " BODY("E") "}\n"
const std::vector<Anno> aA{{nullptr}, {"hidden", false}};
const std::vector<Anno> aL{{nullptr}, {"inline_base", true, nullptr, "*"}, {"hide_base(A)", true, "A"}, {"hidden", false}, {"hidden, inline_base(\"n::A\")", false, nullptr, "A"}};
const std::vector<Anno> aD{{nullptr}, {"inline_base(L)", true, nullptr, "L"}, {"inline_base(L, \"::n::R\")", true, nullptr, "LR"}, {"inline_base", true, nullptr, "*"}, {"hide_base(R)", true, "R"}, {"hide_base", true, "*"},
  {"inline_base(A)", true, nullptr, "A"}, {"inline_base, hide_base(R)", true, "R", "*"}, {"inline_base(A), hide_base(L)", true, "L", "A"}, {"inline_base(Nope)", true, nullptr, "?"}, {"hide_base(A)", true, "?"}, {"hide_base(L), hide_base(R), inline_base(A)", true, "LR", "A"}};
const std::vector<Anno> aE{{nullptr}, {"inline_base(D)", true, nullptr, "D"}, {"inline_base", true, nullptr, "*"}, {"hide_base(D), inline_base(L)", true, "D", "L"}};
Alts texts(const std::vector<Anno> &v) { Alts r; for (auto &x : v) r.push_back(x.text); return r; }
uint8_t sA, sL, sR, sD, sE;
void setup(Env &e) { sA = e.anno("A", texts(aA)); sL = e.anno("L", texts(aL)); sR = e.anno("R", texts(aA)); sD = e.anno("D", texts(aD)); sE = e.anno("E", texts(aE)); }
void oracle(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  World w;
  w.c['A'] = {'A', {}, aA[gs_concrete(sA)]}; w.c['L'] = {'L', {{'A', true}}, aL[gs_concrete(sL)]}; w.c['R'] = {'R', {{'A', true}}, aA[gs_concrete(sR)]};
  w.c['D'] = {'D', {{'L', true}, {'R', true}}, aD[gs_concrete(sD)]}; w.c['E'] = {'E', {{'D', true}}, aE[gs_concrete(sE)]};
  check(m, w, 0, r);
  const GenCtx *D = m.byType("::n::D");
  if (D && D->tmpl.size() > 2) gs_cover("several bases"); else gs_cover("few bases");
}
RegE R0({"C14.q.diamond", HDR, {}, setup, oracle});

#define HDRX "#pragma once\n#include <genpybind/genpybind.h>\nnamespace n GENPYBIND(visible) {\n" \
  "struct GENPYBIND(__sel_A) A { " BODY("A") "struct GENPYBIND(__sel_B) B { " BODY("B") \
  "struct GENPYBIND(__sel_X) X : private A, public B { " BODY("X") \
  "struct GENPYBIND(__sel_Y) Y : protected X { " BODY("Y") \
  "class GENPYBIND(__sel_Z) Z : A, public X { public: Z(); " BODY("Z") "}\n"
const std::vector<Anno> aX{{nullptr}, {"inline_base(A)", true, nullptr, "A"}, {"inline_base(B)", true, nullptr, "B"}, {"inline_base", true, nullptr, "*"}, {"hide_base(A)", true, "A"}, {"hide_base(B)", true, "B"}, {"hide_base(B), inline_base", true, "B", "*"}};
const std::vector<Anno> aY{{nullptr}, {"inline_base", true, nullptr, "*"}, {"inline_base(X)", true, nullptr, "X"}};
const std::vector<Anno> aZ{{nullptr}, {"inline_base(X)", true, nullptr, "X"}, {"inline_base", true, nullptr, "*"}, {"inline_base(B)", true, nullptr, "B"}};
uint8_t xB, xX, xY, xZ;
void setupX(Env &e) { sA = e.anno("A", texts(aA)); xB = e.anno("B", texts(aA)); xX = e.anno("X", texts(aX)); xY = e.anno("Y", texts(aY)); xZ = e.anno("Z", texts(aZ)); }
void oracleX(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  World w;
  w.c['A'] = {'A', {}, aA[gs_concrete(sA)]}; w.c['B'] = {'B', {}, aA[gs_concrete(xB)]};
  w.c['X'] = {'X', {{'A', false}, {'B', true}}, aX[gs_concrete(xX)]}; w.c['Y'] = {'Y', {{'X', false}}, aY[gs_concrete(xY)]}; w.c['Z'] = {'Z', {{'A', false}, {'X', true}}, aZ[gs_concrete(xZ)]};
  check(m, w, 0, r);
  gs_cover("non-public bases");
}
RegE RX({"C14.q.access", HDRX, {}, setupX, oracleX});
} // namespace
