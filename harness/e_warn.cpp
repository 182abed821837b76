// C33: classes, unions and enumerations which are not exposed although they
// contain something visible are reported by a warning, and nothing else is.
#include "e_lib.h"
namespace {
enum V : uint8_t { Dflt, Vis, Hid };
struct Alt { const char *text; V v; };
bool eff(V v, bool parent) { return v == Vis || (v == Dflt && parent); }
std::vector<const char *> texts(const std::vector<Alt> &a) { std::vector<const char *> r; for (auto &x : a) r.push_back(x.text); return r; }
const std::vector<Alt> tri{{nullptr, Dflt}, {"visible", Vis}, {"hidden", Hid}};
const std::vector<Alt> cls{{nullptr, Dflt}, {"visible", Vis}, {"hidden", Hid}, {"expose_as(Q)", Vis}};
const std::vector<Alt> ali{{"expose_here", Vis}, {"expose_here, hidden", Hid}, {"expose_here, visible(default)", Dflt}};
V at(const std::vector<Alt> &t, uint8_t s) { return t[gs_concrete(s)].v; }
size_t about(const Result &r, const std::string &name) { size_t n = 0; for (auto &w : r.warnings) n += contains(w, "'" + name + "'"); return n; }

uint8_t N, A, B, F, G, acc;
void setup(Env &e) {
  N = e.anno("N", texts(tri)); A = e.anno("A", texts(cls)); B = e.anno("B", texts(tri));
  F = e.anno("F", texts(tri)); G = e.anno("G", texts(tri));
  acc = e.access("acc", {"n::A::B", "n::A::f"});
}
void oracle(Env &, const Result &r) {
  bool pub = acc == 0;
  bool n = eff(at(tri, N), false), a = eff(at(cls, A), n);
  V vb = at(tri, B); bool b = vb == Vis || (vb == Dflt && a && pub);
  bool f = eff(at(tri, F), a) && pub, g = eff(at(tri, G), b);
  bool wa = !a && (b || f), wb = !(a && b) && g;
  gs_assert(r.exit_code == 0, "exit status 0 for a valid input");
  gs_assert(about(r, "n::A") == (size_t)wa, "a class is reported iff it contains visible declarations but is not exposed");
  gs_assert(about(r, "n::A::B") == (size_t)wb, "a nested class is reported iff it contains visible declarations but is not exposed");
  gs_assert(r.warnings.size() == (size_t)wa + wb, "there are no further warnings");
  if (wa && wb) gs_cover("both classes are concealed");
  if (!wa && wb) gs_cover("nested class is concealed");
  if (!wa && !wb) gs_cover("no warning");
}
RegE R0({"C33.q.nest", R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(__sel_N) {
struct GENPYBIND(__sel_A) A {
/*@acc*/public/*@*/:
  struct GENPYBIND(__sel_B) B { void g() GENPYBIND(__sel_G); };
  void f() GENPYBIND(__sel_F);
};
}
)", {}, setup, oracle});

// Relocated classes are reported at the alias, enumerations and unions like classes.
uint8_t M, X, Y, E, U, P, R, C;
void setup2(Env &e) {
  M = e.anno("M", texts(tri)); C = e.anno("C", texts(tri)); X = e.anno("X", texts(ali)); P = e.anno("P", texts(tri));
  E = e.anno("E", texts(tri)); Y = e.anno("Y", texts(tri));
}
void oracle2(Env &, const Result &r) {
  bool m = eff(at(tri, M), false), c = eff(at(tri, C), m);
  bool x = eff(at(ali, X), c), p = eff(at(tri, P), x);
  bool e = eff(at(tri, E), c), y = eff(at(tri, Y), e);
  bool wc = !c && (x || e), wx = !(c && x) && p, we = !(c && e) && y;
  gs_assert(r.exit_code == 0, "exit status 0 for a valid input");
  gs_assert(about(r, "n::C") == (size_t)wc, "a class is reported iff it contains visible types but is not exposed");
  gs_assert(about(r, "n::C::Moved") == (size_t)wx && about(r, "impl::T") == 0, "a relocated class is reported at its alias");
  gs_assert(about(r, "n::C::E") == (size_t)we, "an enumeration is reported iff it contains visible declarations but is not exposed");
  gs_assert(r.warnings.size() == (size_t)wc + wx + we, "there are no further warnings");
  GenModel g = model(r);
  gs_assert(g.ok && (g.byType("::impl::T") != nullptr) == (c && x) && (g.byType("::n::C::E") != nullptr) == (c && e), "what is not reported is exposed");
  if (wx) gs_cover("relocated class is concealed");
  if (we) gs_cover("enumeration is concealed");
}
RegE R1({"C33.q.moved", R"(#pragma once
#include <genpybind/genpybind.h>
namespace impl { struct T { int p GENPYBIND(__sel_P); }; }
namespace n GENPYBIND(__sel_M) {
struct GENPYBIND(__sel_C) C {
  typedef impl::T Moved GENPYBIND(__sel_X);
  enum class GENPYBIND(__sel_E) E { Y GENPYBIND(__sel_Y) };
};
}
)", {}, setup2, oracle2});

// Restricted namespaces belong to another module; nothing in them is reported.
uint8_t Rn, Rc, Ri, Rf;
const std::vector<const char *> only{"visible", "visible, only_expose_in(other)", "hidden, only_expose_in(other)", "visible, only_expose_in(example)", "hidden"};
void setup3(Env &e) {
  Rn = e.anno("N", only); Rc = e.anno("C", texts(tri)); Ri = e.anno("I", texts(tri)); Rf = e.anno("F", texts(tri));
}
void oracle3(Env &, const Result &r) {
  uint8_t s = gs_concrete(Rn);
  bool away = s == 1 || s == 2, n = s == 0 || s == 1 || s == 3;
  bool c = eff(at(tri, Rc), n), i = eff(at(tri, Ri), c), f = eff(at(tri, Rf), i);
  bool wc = !away && !c && i, wi = !away && !(c && i) && f;
  gs_assert(r.exit_code == 0, "exit status 0 for a valid input");
  gs_assert(about(r, "n::C") == (size_t)wc && about(r, "n::C::I") == (size_t)wi, "classes of namespaces restricted to other modules are not reported");
  gs_assert(r.warnings.size() == (size_t)wc + wi, "there are no further warnings");
  if (away) gs_cover("namespace of another module");
  if (wi) gs_cover("concealed");
}
RegE R2({"C33.q.away", R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(__sel_N) {
struct GENPYBIND(__sel_C) C { struct GENPYBIND(__sel_I) I { void f() GENPYBIND(__sel_F); }; };
}
)", {}, setup3, oracle3});

// Relocated enumerations and unions are reported like relocated classes.
uint8_t Kc, Kq, Kw, Kxq, Kxw;
void setup4(Env &e) {
  Kc = e.anno("C", texts(tri)); Kq = e.anno("Q", texts(tri)); Kw = e.anno("W", texts(tri)); Kxq = e.anno("XQ", texts(ali)); Kxw = e.anno("XW", texts(ali));
}
void oracle4(Env &, const Result &r) {
  bool c = eff(at(tri, Kc), true), xq = eff(at(ali, Kxq), c), xw = eff(at(ali, Kxw), c), q = eff(at(tri, Kq), xq), w = eff(at(tri, Kw), xw);
  bool wc = !c && (xq || xw), wq = !(c && xq) && q, ww = !(c && xw) && w;
  gs_assert(r.exit_code == 0, "exit status 0 for a valid input");
  gs_assert(about(r, "n::C") == (size_t)wc, "a class is reported iff it contains visible types but is not exposed");
  gs_assert(about(r, "n::C::MQ") == (size_t)wq && about(r, "impl::Q") == 0, "a relocated enumeration is reported at its alias");
  gs_assert(about(r, "n::C::MW") == (size_t)ww && about(r, "impl::W") == 0, "a relocated union is reported at its alias");
  gs_assert(r.warnings.size() == (size_t)wc + wq + ww, "there are no further warnings");
  if (wq && ww) gs_cover("relocated enumeration and union are concealed");
}
RegE R3({"C33.q.kinds", R"(#pragma once
#include <genpybind/genpybind.h>
namespace impl { enum class Q { q GENPYBIND(__sel_Q) }; union W { int w GENPYBIND(__sel_W); }; }
namespace n GENPYBIND(visible) {
struct GENPYBIND(__sel_C) C {
  using MQ GENPYBIND(__sel_XQ) = impl::Q;
  typedef impl::W MW GENPYBIND(__sel_XW);
};
}
)", {}, setup4, oracle4});
} // namespace
