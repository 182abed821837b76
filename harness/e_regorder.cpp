// C32: bindings that share a Python name are registered in the order of declaration.
#include "e_lib.h"
namespace {
using Strs = std::vector<std::string>;
uint8_t sA, sB, sC, sD, sE, sI, sF, sG, sH;
const std::vector<const char *> method{nullptr, "hidden", "expose_as(other)"}, renamed{nullptr, "expose_as(m)"}, plain{nullptr, "hidden"}, func{nullptr, "expose_as(f)"};
void setup(Env &e) {
  sA = e.anno("A", method); sB = e.anno("B", renamed); sC = e.anno("C", plain); sD = e.anno("D", plain); sE = e.anno("E", renamed);
  sI = e.anno("I", plain);
  sF = e.anno("F", plain); sG = e.anno("G", func); sH = e.anno("H", plain);
}
// What the calls of a scope bind under `name`, in order: the parameter types of each overload.
Strs order(const GenCtx *c, const std::string &name) {
  Strs r;
  for (auto &x : c->calls) {
    if (x.args.empty()) continue;
    std::string a = x.args[0], sig;
    if (name == "init") { if (a.find("init<") == std::string::npos) continue; sig = a; }
    else { if (a != q(name) || x.args.size() < 2) continue; sig = x.args[1]; }
    size_t b = sig.find('<'), e = sig.find('>');
    r.push_back(b == std::string::npos || e == std::string::npos ? sig : sig.substr(b + 1, e - b - 1));
  }
  return r;
}
void oracle(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input is accepted");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *A = m.byType("::n::A"); gs_assert(A != nullptr, "class is exposed"); if (!A) return;
  Strs wm, wo, wk, ws, wi;
  auto a = gs_concrete(sA); (a == 0 ? wm : wo).push_back("char"); if (a == 1) wo.clear(); // first opening: inlined base
  bool b = gs_concrete(sB), e = gs_concrete(sE);
  (b ? wm : wk).push_back("int,int");
  wm.push_back("bool,bool"); wm.push_back("char,char"); // instantiations of a member template, where it is declared
  if (!gs_concrete(sC)) wi.push_back("int");
  if (!gs_concrete(sD)) wm.push_back("long");
  if (!gs_concrete(sI)) wi.push_back("constchar*");
  (e ? wm : ws).push_back("float");
  wm.push_back("short");
  wi.push_back("double");
  gs_assert(order(A, "m") == wm, "overloads of a method are registered in the order of declaration");
  gs_assert(order(A, "other") == wo && order(A, "k") == wk && order(A, "s") == ws, "renamed methods are registered under their name only");
  Strs gi; for (auto &x : order(A, "init")) if (x.find("::n::A") == std::string::npos && !x.empty()) gi.push_back(x);
  gs_assert(gi == wi, "constructors are registered in the order of declaration");
  Strs wf, wg;
  if (!gs_concrete(sF)) wf.push_back("int");
  (gs_concrete(sG) ? wf : wg).push_back("char");
  wf.push_back("unsignedint,int");
  if (!gs_concrete(sH)) wf.push_back("float");
  wf.push_back("double");
  // all openings of the namespace are one scope
  Strs gf, gg;
  for (auto &c : m.ctxs) if (m.path(&c).empty()) { for (auto &x : order(&c, "f")) gf.push_back(x); for (auto &x : order(&c, "g")) gg.push_back(x); }
  gs_assert(gf == wf, "overloads of a function are registered in the order of declaration, also over several openings of a namespace");
  gs_assert(gg == wg, "the other function is registered under its own name");
  gs_cover("order");
}
RegE reg({"C32.q.order", R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct GENPYBIND(hidden) Z { void m(char) GENPYBIND(__sel_A); };
void f(int) GENPYBIND(__sel_F);
struct GENPYBIND(inline_base("Z")) A : Z {
  using Z::m;
  void k(int, int) GENPYBIND(__sel_B);
  template <typename T> void m(T, T);
  A(int) GENPYBIND(__sel_C);
  void m(long) GENPYBIND(__sel_D);
  A(const char *) GENPYBIND(__sel_I);
  void s(float) const GENPYBIND(__sel_E);
  void m(short);
  A(double);
};
}
namespace n GENPYBIND(visible) {
void g(char) GENPYBIND(__sel_G);
template <typename T> void f(T, int);
extern template void f<unsigned int>(unsigned int, int);
void f(float) GENPYBIND(__sel_H);
extern template void A::m<bool>(bool, bool);
extern template void A::m<char>(char, char);
}
namespace n {
void f(double);
}
)", {}, setup, oracle});
} // namespace
