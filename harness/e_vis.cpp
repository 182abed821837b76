// C03: which declarations are exposed (visibility defaults, inheritance,
// access specifiers, explicit and implicit annotations, concealment).
#include "e_lib.h"
namespace {
using Alts = std::vector<const char *>;
// Effective visibility of a declaration according to the documentation.
enum V : uint8_t { Dflt, Vis, Hid };
struct Alt { const char *text; V v; };
bool eff(V v, bool parent, bool accessible) { return v == Vis || (v == Dflt && parent && accessible); }
Alts texts(const std::vector<Alt> &a) { Alts r; for (auto &x : a) r.push_back(x.text); return r; }
// Any annotation on something that is not a namespace makes it visible unless it says otherwise.
const std::vector<Alt> full{{nullptr, Dflt}, {"visible", Vis}, {"hidden", Hid}, {"visible(default)", Dflt}, {"expose_as(Q)", Vis}, {"visible(true)", Vis}, {"visible(false)", Hid}};
const std::vector<Alt> nsfull{{nullptr, Dflt}, {"visible", Vis}, {"hidden", Hid}, {"visible(default)", Dflt}, {"module", Dflt}};
const std::vector<Alt> some{{nullptr, Dflt}, {"visible", Vis}, {"hidden", Hid}, {"visible(default)", Dflt}, {"expose_as(Q)", Vis}};
const std::vector<Alt> tri{{nullptr, Dflt}, {"visible", Vis}, {"hidden", Hid}};

// ---------------------------------------------------------------- nest
uint8_t sN, sA, sB, sF, sG, acc;
template <int K> void setup(Env &e) {
  sN = e.anno("N", texts(K == 0 ? nsfull : tri));
  sA = e.anno("A", texts(K == 0 ? full : tri));
  sB = e.anno("B", texts(K == 0 ? full : tri));
  sF = e.anno("F", texts(K == 0 ? std::vector<Alt>{{nullptr, Dflt}} : K == 1 ? some : full));
  sG = e.anno("G", texts(K == 2 ? full : tri));
  acc = e.access("acc", {"n::A::B", "n::A::f"});
}
template <int K> void oracle(Env &, const Result &r) {
  auto at = [](const std::vector<Alt> &t, uint8_t s) { return t[gs_concrete(s)].v; };
  bool pub = acc == 0;
  bool n = eff(at(K == 0 ? nsfull : tri, sN), false, true);
  bool a = eff(at(K == 0 ? full : tri, sA), n, true);
  bool b = eff(at(K == 0 ? full : tri, sB), a, pub);
  bool f = eff(K == 0 ? Dflt : at(K == 1 ? some : full, sF), a, pub);
  bool g = eff(at(K == 2 ? full : tri, sG), b, true);
  gs_assert(r.exit_code == 0, "exit status 0 for a valid input");
  GenModel m = model(r);
  gs_assert(m.ok, "output has the shape of a module");
  if (!m.ok) return;
  const GenCtx *A = m.byType("::n::A"), *B = m.byType("::n::A::B");
  gs_assert((A != nullptr) == a, "class is exposed iff it is visible");
  gs_assert((B != nullptr) == (a && b), "nested class is exposed iff visible and not concealed by its parent");
  const char *fn = K != 0 && sF == 4 ? "\"Q\"" : "\"f\"", *gn = K == 2 && sG == 4 ? "\"Q\"" : "\"g\"";
  gs_assert(m.named(A, fn).size() == (size_t)(a && f && pub), "method is exposed iff visible, accessible and not concealed");
  gs_assert(m.named(B, gn).size() == (size_t)(a && b && g), "method of nested class is exposed iff visible");
  std::string o = squeeze(r.out());
  gs_assert(contains(o, "&::n::A::f") == (a && f && pub), "hidden method is not referenced");
  gs_assert(contains(o, "&::n::A::B::g") == (a && b && g), "hidden nested method is not referenced");
  gs_assert(contains(o, "n::A::B") == (a && b), "hidden nested class is not referenced");
  if (a && b && f && g) gs_cover("everything exposed");
  if (!a) gs_cover("nothing exposed");
  if (a && !b) gs_cover("nested concealed");
}
#define HDR R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(__sel_N) {
struct GENPYBIND(__sel_A) A {
/*@acc*/public/*@*/:
  struct GENPYBIND(__sel_B) B { void g() GENPYBIND(__sel_G); };
  void f() GENPYBIND(__sel_F);
};
}
)"

// ---------------------------------------------------------------- members: every kind of class member
uint8_t mA, mM, mAcc;
const std::vector<Alt> own{{nullptr, Dflt}, {"visible", Vis}, {"hidden", Hid}, {"visible(default)", Dflt}, {"visible(false)", Hid}, {"visible(true)", Vis}};
const std::vector<Alt> owner{{nullptr, Dflt}, {"visible", Vis}, {"hidden", Hid}, {"expose_as(Other), visible(default)", Dflt}, {"visible(default), expose_as(Other)", Dflt}, {"hidden, expose_as(Other)", Hid}, {"expose_as(Other), hidden", Hid}, {"dynamic_attr(true)", Vis}, {"expose_as(Other)", Vis}};
uint8_t mN;
void setupM(Env &e) {
  mN = e.anno("N", texts(tri));
  mA = e.anno("A", texts(owner), 1);
  mM = e.anno("M", texts(own));
  mAcc = e.access("acc", {"n::A::A", "n::A::field", "n::A::sfield", "n::A::cfield", "n::A::method", "n::A::smethod", "n::A::vmethod", "n::A::operator bool", "n::A::operator()",
                          "n::A::operator==", "n::A::operator-", "n::A::tm", "n::A::deleted", "n::A::E", "n::A::EC", "n::A::U", "n::A::C", "n::A::S", "n::A::TA", "n::A::UA", "n::A::u", "n::A::w", "n::A::I"});
}
void oracleM(Env &, const Result &r) {
  bool pub = mAcc == 0;
  bool n = eff(tri[gs_concrete(mN)].v, false, true);
  bool a = eff(owner[gs_concrete(mA)].v, n, true);
  V own_v = own[gs_concrete(mM)].v;
  bool v = a && eff(own_v, a, true) && pub, c = a && eff(own_v, a, pub);
  gs_assert(r.exit_code == 0, "exit status 0 for a valid input");
  GenModel m = model(r);
  gs_assert(m.ok, "output has the shape of a module");
  if (!m.ok) return;
  const GenCtx *A = m.byType("::n::A");
  gs_assert((A != nullptr) == a, "class is exposed iff it is visible");
  std::string o = squeeze(r.out());
  for (const char *x : {"field", "sfield", "cfield", "method", "smethod", "vmethod", "operator_bool", "__call__", "__eq__", "__neg__", "tm"})
    gs_assert(m.named(A, q(x)).size() == (size_t)v, "member is exposed once iff visible, accessible and not concealed");
  for (const char *x : {"&::n::A::field", "&::n::A::sfield", "&::n::A::cfield", "&::n::A::method", "&::n::A::smethod", "&::n::A::vmethod", "&::n::A::operatorbool", "&::n::A::operator()", "lhs==rhs", "-lhs", "&::n::A::tm<int>", "init<int>"})
    gs_assert(contains(o, x) == v, "member is referenced iff exposed");
  gs_assert(!contains(o, "deleted"), "deleted functions are not exposed");
  bool al = a && own_v == Vis && pub;
  gs_assert(m.refs("attr(\"TA\")").size() == (size_t)al && m.refs("attr(\"UA\")").size() == (size_t)al, "alias is exposed iff explicitly visible and accessible");
  gs_assert(m.named(A, "\"u\"").size() == (size_t)(a && pub) && m.named(A, "\"w\"").size() == (size_t)(a && pub), "members named by using-declarations are exposed iff the using-declaration is accessible");
  gs_assert(!contains(o, "n::Z>") || al, "hidden class is not mentioned unless by an alias");
  for (const char *x : {"::n::A::E", "::n::A::EC", "::n::A::U", "::n::A::C", "::n::A::S", "::n::A::I<int>"})
    gs_assert((m.byType(x) != nullptr) == c, "nested type is exposed iff visible and not concealed, by default only if accessible");
  if (v) gs_cover("members exposed");
  if (c && !v) gs_cover("inaccessible nested types made visible");
  if (a && !c) gs_cover("members hidden");
}
RegE RM({"C03.q.members", R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(__sel_N) {
struct GENPYBIND(hidden) Z { int u; void w(); };
struct GENPYBIND(__sel_A) A : Z {
/*@acc*/public/*@*/:
  A(int) GENPYBIND(__sel_M);
  int field GENPYBIND(__sel_M);
  static int sfield GENPYBIND(__sel_M);
  static constexpr int cfield GENPYBIND(__sel_M) = 3;
  void method() GENPYBIND(__sel_M);
  static void smethod() GENPYBIND(__sel_M);
  virtual void vmethod() const GENPYBIND(__sel_M);
  operator bool() const GENPYBIND(__sel_M);
  int operator()(int) GENPYBIND(__sel_M);
  bool operator==(const A &) const GENPYBIND(__sel_M);
  int operator-() const GENPYBIND(__sel_M);
  template <typename T> void tm(T) GENPYBIND(__sel_M);
  void deleted() GENPYBIND(__sel_M) = delete;
  enum GENPYBIND(__sel_M) E { X };
  enum class GENPYBIND(__sel_M) EC { Y };
  union GENPYBIND(__sel_M) U { int i; };
  class GENPYBIND(__sel_M) C { public: int j; };
  struct GENPYBIND(__sel_M) S { };
  template <typename T> struct GENPYBIND(__sel_M) I { T i; };
  typedef Z TA GENPYBIND(__sel_M);
  using UA GENPYBIND(__sel_M) = Z;
  using Z::u;
  using Z::w;
};
extern template void A::tm<int>(int);
extern template struct A::I<int>;
}
)", {}, setupM, oracleM});

// ---------------------------------------------------------------- scope: every kind of namespace member
uint8_t cN, cI, cM;
const std::vector<Alt> nsalts{{nullptr, Dflt}, {"visible", Vis}, {"hidden", Hid}, {"visible(default)", Dflt}, {"module", Dflt}, {"visible(false)", Hid}};
void setupC(Env &e) {
  cN = e.anno("N", texts(nsalts));
  cI = e.anno("I", texts(nsalts));
  cM = e.anno("M", texts(own));
}
void oracleC(Env &, const Result &r) {
  bool n = eff(nsalts[gs_concrete(cN)].v, false, true);
  bool i = eff(nsalts[gs_concrete(cI)].v, n, true);
  V own_v = own[gs_concrete(cM)].v;
  bool v = eff(own_v, i, true);
  gs_assert(r.exit_code == 0, "exit status 0 for a valid input");
  GenModel m = model(r);
  gs_assert(m.ok, "output has the shape of a module");
  if (!m.ok) return;
  std::string o = squeeze(r.out());
  std::string where = std::string(cN == 4 ? ".n" : "") + (cI == 4 ? ".i" : "");
  auto once = [&](const char *what, bool expect, const char *msg) {
    auto f = m.refs(what);
    gs_assert(f.size() == (size_t)expect, msg);
    for (auto &x : f) gs_assert(m.path(x.ctx) == where, "declaration is exposed in its own scope");
  };
  for (const char *x : {"\"fun\"", "\"cf\"", "\"ft\"", "attr(\"var\")", "attr(\"cvar\")"}) once(x, v, "function or variable is exposed once iff visible");
  for (const char *x : {"attr(\"TA\")", "attr(\"UA\")"}) once(x, own_v == Vis, "alias is exposed iff explicitly visible");
  for (const char *x : {"\"of\"", "attr(\"ov\")"}) once(x, i, "declarations named by using-declarations are exposed iff their scope is visible");
  for (const char *x : {"\"ilf\"", "\"uf\"", "attr(\"ilv\")"}) once(x, false, "declarations of hidden namespaces are not exposed via using directives or inline namespaces");
  for (const char *x : {"\"vlf\"", "attr(\"vlv\")"}) once(x, true, "declarations of visible inline namespaces are exposed once");
  for (const char *x : {"::n::i::E", "::n::i::EC", "::n::i::U", "::n::i::C", "::n::i::T2<int>", "::n::i::T2<bool>", "::n::i::CS"})
    gs_assert((m.byType(x) != nullptr) == v, "type is exposed iff visible");
  gs_assert(!m.byType("::o::Z") && !m.byType("::o::OZ") && !contains(o, "OZ"), "types named by using-declarations are not exposed again");
  gs_assert(!m.byType("::n::i::ILS") && m.byType("::n::i::VLS"), "types of inline namespaces follow the visibility of that namespace");
  for (const char *x : {"nope", "::std::", "__detail"}) gs_assert(!contains(o, x), "contents of std and reserved namespaces are not exposed");
  if (v && i) gs_cover("everything visible");
  if (v && !i) gs_cover("visible in hidden namespace");
  if (!v && i) gs_cover("hidden in visible namespace");
}
RegE RC({"C03.q.scope", R"(#pragma once
#include <genpybind/genpybind.h>
namespace o { struct Z {}; void of(); struct OZ {}; extern int ov; }
namespace p { void uf(); }
namespace std { void nope(int) GENPYBIND(visible); struct GENPYBIND(visible) nope2 {}; }
namespace __detail GENPYBIND(visible) { void nope3(); struct nope4 {}; }
namespace n GENPYBIND(__sel_N) {
namespace i GENPYBIND(__sel_I) {
  void fun() GENPYBIND(__sel_M);
  extern int var GENPYBIND(__sel_M);
  constexpr int cvar GENPYBIND(__sel_M) = 3;
  enum GENPYBIND(__sel_M) E { X };
  enum class GENPYBIND(__sel_M) EC { Y };
  union GENPYBIND(__sel_M) U { int i; };
  class GENPYBIND(__sel_M) C { public: int j; };
  template <typename T> struct GENPYBIND(__sel_M) T2 { T t; };
  extern template struct T2<int>;
  template <> struct GENPYBIND(__sel_M) T2<bool> { int k; };
  template <typename T> void ft(T) GENPYBIND(__sel_M);
  extern template void ft<int>(int);
  typedef o::Z TA GENPYBIND(__sel_M);
  using UA GENPYBIND(__sel_M) = o::Z;
  using o::of;
  using o::OZ;
  using o::ov;
  using namespace p;
  inline namespace il GENPYBIND(hidden) { void ilf(); struct ILS {}; extern int ilv; }
  inline namespace vl GENPYBIND(visible) { void vlf(); struct VLS {}; extern int vlv; }
  extern "C" { void cf() GENPYBIND(__sel_M); struct GENPYBIND(__sel_M) CS { int j; }; }
  namespace na = o;
}
}
)", {}, setupC, oracleC});
RegE R0({"C03.q.nest0", HDR, {}, setup<0>, oracle<0>});
RegE R1({"C03.q.nest1", HDR, {}, setup<1>, oracle<1>});
RegE R2({"C03.t.nest2", HDR, {}, setup<2>, oracle<2>});
} // namespace
