// C08: order in which the types of a module are set up. C09: expose_here / encourage.
#include "e_lib.h"
#include <cstring>
#include <map>
namespace {
using Alts = std::vector<const char *>;
struct Node { std::string key; std::vector<std::string> deps; }; // in source order
/// Expected order: among the types whose dependencies are met, the one declared first.
std::vector<std::string> expected(const std::vector<Node> &n) {
  std::vector<std::string> r; std::vector<bool> done(n.size());
  for (size_t k = 0; k < n.size(); k++)
    for (size_t i = 0; i < n.size(); i++) {
      if (done[i]) continue;
      bool ready = true;
      for (auto &d : n[i].deps) { for (size_t j = 0; j < n.size(); j++) if (n[j].key == d && !done[j]) ready = false; }
      if (ready) { done[i] = true; r.push_back(n[i].key); break; }
    }
  return r;
}
// ---------------------------------------------------------------- C08.q.moves
#define HDR R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct GENPYBIND(__sel_A) A {};
struct GENPYBIND(__sel_B) B : A { struct GENPYBIND(visible) BI {}; };
enum E { e };
struct C : B {};
}
struct GENPYBIND(visible) H : n::A { using Z GENPYBIND(__sel_hz) = n::B; };
namespace p GENPYBIND(__sel_p) {
using PA GENPYBIND(__sel_pa) = n::A;
using PE GENPYBIND(__sel_pe) = n::E;
struct GENPYBIND(visible) Q : n::C {};
using PC GENPYBIND(__sel_pc) = n::C;
}
)"
uint8_t sA, sB, hz, sp, pa, pe, pc;
void setup(Env &e) {
  sA = e.anno("A", {nullptr, "hidden"}); sB = e.anno("B", {nullptr, "hidden"});
  hz = e.anno("hz", {nullptr, "expose_here"}); sp = e.anno("p", {"visible", "module"});
  pa = e.anno("pa", {nullptr, "expose_here"}); pe = e.anno("pe", {nullptr, "expose_here"}); pc = e.anno("pc", {nullptr, "expose_here"});
}
void oracle(Env &, const Result &r) {
  bool mod = gs_concrete(sp) == 1, mA = gs_concrete(pa), mE = gs_concrete(pe), mC = gs_concrete(pc), mB = gs_concrete(hz);
  bool vA = mA || !gs_concrete(sA), vB = mB || !gs_concrete(sB);
  gs_assert(r.exit_code == 0, "no cycle: valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  setUpOrder(m);
  std::string P = mod ? "p" : "";
  std::vector<Node> all;
  auto add = [&](bool v, const char *k, std::vector<std::string> d) { if (v) all.push_back({k, d}); };
  add(vA, "::n::A", {mA ? P : ""});
  add(vB, "::n::B", {mB ? "::H" : "", "::n::A"});
  add(vB, "::n::B::BI", {"::n::B"});
  add(true, "::n::E", {mE ? P : ""});
  add(true, "::n::C", {mC ? P : "", "::n::B"});
  add(true, "::H", {"::n::A"});
  add(mod, "p", {});
  add(true, "::p::Q", {P, "::n::C"});
  std::string want, got;
  for (auto &k : expected(all)) if (k != "p") want += k + " ";
  for (auto &c : m.ctxs) if (!c.type.empty()) got += c.type + " ";
  gs_assert(want == got, "types are set up in source order except where a dependency demands otherwise");
  if (mod && mA && mB) gs_cover("moved bases"); else gs_cover("other");
}
RegE R0({"C08.q.moves", HDR, {}, setup, oracle});

// ---------------------------------------------------------------- C08.q.multi: several bases, access, forward declarations
#define HDRM R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct Y; struct X;
struct A {};
struct B { enum class BE { x }; };
struct K {};
struct D : K, B, A { };
struct Y : D {};
struct X {};
template <typename T> struct Tp : K {};
struct V : virtual A, X {};
}
namespace s1 GENPYBIND(module) { using U1 GENPYBIND(__sel_1) = n::A; struct GENPYBIND(visible) S { using U2 GENPYBIND(__sel_2) = n::K; }; }
namespace s2 GENPYBIND(module) {
using U3 GENPYBIND(__sel_3) = n::B;
using U4 GENPYBIND(__sel_4) = n::X;
using U5 GENPYBIND(__sel_5) = n::Tp<int>;
namespace s3 GENPYBIND(module) { using U6 GENPYBIND(__sel_6) = n::B::BE; using U7 GENPYBIND(__sel_7) = n::D; }
}
)"
uint8_t u[8];
void setupM(Env &e) { for (int i = 1; i <= 7; i++) { static const char *nm[] = {"", "1", "2", "3", "4", "5", "6", "7"}; u[i] = e.anno(nm[i], i == 5 ? Alts{"expose_here", "encourage"} : Alts{nullptr, "expose_here"}); } }
void oracleM(Env &, const Result &r) {
  bool b[8]; for (int i = 1; i <= 7; i++) b[i] = gs_concrete(u[i]) == (i == 5 ? 0 : 1);
  gs_assert(r.exit_code == 0, "no cycle: valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  setUpOrder(m);
  std::vector<Node> all{{"::n::A", {b[1] ? "s1" : ""}}, {"::n::B", {b[3] ? "s2" : ""}}, {"::n::B::BE", {b[6] ? "s3" : "::n::B"}}, {"::n::K", {b[2] ? "::s1::S" : ""}},
    {"::n::D", {b[7] ? "s3" : "", "::n::A", "::n::B", "::n::K"}}, {"::n::Y", {"::n::D"}}, {"::n::X", {b[4] ? "s2" : ""}}, {"::n::Tp<int>", {b[5] ? "s2" : "", "::n::K"}},
    {"::n::V", {"::n::A", "::n::X"}}, {"s1", {}}, {"::s1::S", {"s1"}}, {"s2", {}}, {"s3", {"s2"}}};
  auto pos = [&](const char *t) { const GenCtx *c = m.byType(t); return c ? c->order : 999; };
  std::string want, got;
  for (auto &k : expected(all)) if (k[0] == ':' && k != "::n::Tp<int>") want += k + " ";
  for (auto &c : m.ctxs) if (!c.type.empty() && c.type != "::n::Tp<int>") got += c.type + " ";
  gs_assert(want == got, "types are set up in source order except where a dependency demands otherwise");
  gs_assert(pos("::n::Tp<int>") < 999 && pos("::n::K") < pos("::n::Tp<int>"), "instantiation after its base");
  if (b[1] && b[2] && b[3] && b[7]) gs_cover("many moved"); else gs_cover("other");
}
RegE RM({"C08.q.multi", HDRM, {}, setupM, oracleM});

// ---------------------------------------------------------------- C08.q.inlined: bases reached through inlined bases
#define HDRI R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct A {};
struct B {};
struct GENPYBIND(__sel_M) M : A, B {};
struct GENPYBIND(__sel_L) L : M {};
struct GENPYBIND(__sel_D) D : L {};
struct Z : D {};
}
namespace p GENPYBIND(module) { using PA GENPYBIND(__sel_pa) = n::A; using PB GENPYBIND(__sel_pb) = n::B; using PM GENPYBIND(__sel_pm) = n::M; }
)"
uint8_t iM, iL, iD;
void setupI(Env &e) {
  iM = e.anno("M", {nullptr, "hidden"}); iL = e.anno("L", {"hidden", "visible", "hidden, inline_base(M)", "hidden, hide_base(M)"});
  iD = e.anno("D", {nullptr, "inline_base(L)", "inline_base(L, M)", "inline_base(M)", "inline_base", "inline_base, hide_base(B)", "hide_base(L)"});
  pa = e.anno("pa", {nullptr, "expose_here"}); pc = e.anno("pb", {nullptr, "expose_here"}); pe = e.anno("pm", {nullptr, "expose_here"});
}
void oracleI(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "no cycle: valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  setUpOrder(m);
  gs_assert(m.byType("::n::D") && m.byType("::n::Z") && m.byType("::n::A") && m.byType("::n::B"), "all types are set up");
  const GenCtx *D = m.byType("::n::D");
  if (D && D->tmpl.size() > 2) gs_cover("several inherited bases"); else gs_cover("few bases");
}
RegE RI({"C08.q.inlined", HDRI, {}, setupI, oracleI});

// ---------------------------------------------------------------- C09.q.aliases
#define HDR9 R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(__sel_N) {
struct GENPYBIND(__sel_T) T { struct GENPYBIND(visible) I {}; void tm(); };
using A1 GENPYBIND(__sel_1) = T;
}
namespace m GENPYBIND(module) {
typedef n::T A2 GENPYBIND(__sel_2);
struct GENPYBIND(visible) W { using A3 GENPYBIND(__sel_3) = const n::A1; };
}
)"
enum { Plain, VisibleA, Encourage, Here, HereAs, As, EncourageAs };
const char *const al[] = {nullptr, "visible", "encourage", "expose_here", "expose_as(nm), expose_here", "expose_as(nm)", "encourage, expose_as(nm)"};
uint8_t sN, sT, a1, a2, a3;
void setup9(Env &e) {
  sN = e.anno("N", {"visible", nullptr}); sT = e.anno("T", {nullptr, "visible", "hidden", "expose_as(own)"});
  a1 = e.anno("1", Alts(al, al + 7)); a2 = e.anno("2", Alts(al, al + 7)); a3 = e.anno("3", Alts(al, al + 4));
}
void oracle9(Env &, const Result &r) {
  unsigned s[3] = {(unsigned)gs_concrete(a1), (unsigned)gs_concrete(a2), (unsigned)gs_concrete(a3)};
  static const char *const scope[] = {"", ".m", ".m.W"}, *const name[] = {"A1", "A2", "A3"};
  unsigned nhere = 0; int here = -1; bool enc = false;
  for (int i = 0; i < 3; i++) { if (s[i] == Here || s[i] == HereAs) { nhere++; here = i; } enc = enc || s[i] == Encourage || s[i] == EncourageAs; }
  gs_assert((r.exit_code == 0) == (nhere <= 1), "a type may be relocated at most once");
  if (nhere > 1) {
    gs_assert(r.errors.size() == nhere - 1 && r.created == 0, "every further expose_here is an error and nothing is generated");
    gs_cover("duplicate"); return;
  }
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  unsigned t = gs_concrete(sT);
  bool vis = here >= 0 || enc || t == 1 || t == 3 || (t == 0 && gs_concrete(sN) == 0);
  std::string path = here >= 0 ? std::string(scope[here]) + "." + (s[here] == HereAs ? "nm" : name[here]) : t == 3 ? ".own" : ".T";
  const GenCtx *T = m.byType("::n::T"), *I = m.byType("::n::T::I");
  gs_assert((T != nullptr) == vis, "the target is exposed iff it is visible, encouraged or relocated");
  if (T) gs_assert(m.path(T) == path, "the target is exposed in the right place under the right name");
  gs_assert((I != nullptr) == vis, "nested types follow");
  if (I) gs_assert(m.path(I) == path + ".I", "nested types move along");
  gs_assert(m.refs("&::n::T::tm").size() == (size_t)vis, "members follow");
  for (int i = 0; i < 3; i++) {
    bool nm = s[i] == As || s[i] == EncourageAs;
    bool want = s[i] == VisibleA || s[i] == Encourage || nm;
    unsigned n = 0;
    for (auto &c : m.ctxs) if (m.path(&c) == scope[i])
      for (auto &st : c.stmts) if (st == "context.attr(" + q(nm ? "nm" : name[i]) + ")=::genpybind::getObjectForType<::n::T>()") n++;
    gs_assert(n == (want ? 1u : 0u), "a type alias is exposed as attribute iff it is annotated and does not relocate its target");
  }
  size_t objs = 0; for (auto &c : m.ctxs) for (auto &st : c.stmts) objs += contains(st, "getObjectForType");
  size_t wantObjs = 0; for (int i = 0; i < 3; i++) wantObjs += s[i] == VisibleA || s[i] == Encourage || s[i] == As || s[i] == EncourageAs;
  gs_assert(objs == wantObjs, "no other alias attributes");
  if (here >= 0) gs_cover("relocated"); else if (enc) gs_cover("encouraged"); else gs_cover("other");
}
RegE R9({"C09.q.aliases", HDR9, {}, setup9, oracle9});

// ---------------------------------------------------------------- C09.q.cycles
#define HDRC R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct Y; struct Z;
struct X { using a GENPYBIND(__sel_1) = Y; };
struct Y { using b GENPYBIND(__sel_2) = Z; };
struct Z { using c GENPYBIND(__sel_3) = X; };
struct S { using d GENPYBIND(__sel_4) = S; };
struct K { struct KK { using e GENPYBIND(__sel_5) = K; }; };
struct F {};
struct G : F { using f GENPYBIND(__sel_6) = F; };
}
)"
uint8_t cy[7];
void setupC(Env &e) { static const char *nm[] = {"", "1", "2", "3", "4", "5", "6"}; for (int i = 1; i <= 6; i++) cy[i] = e.anno(nm[i], {nullptr, "expose_here"}); }
void oracleC(Env &, const Result &r) {
  bool c[7]; for (int i = 1; i <= 6; i++) c[i] = gs_concrete(cy[i]);
  bool bad = (c[1] && c[2] && c[3]) || c[4] || c[5] || c[6];
  gs_assert((r.exit_code == 0) == !bad, "relocations that form a cycle are rejected, others accepted");
  gs_assert(r.errors.empty() == !bad, "an error is reported exactly for cycles");
  gs_assert(r.exists[0] == !bad, "output exists exactly if there is no cycle");
  if (bad) { gs_assert(anyContains(r.errors, "cycle"), "the error names the cycle"); gs_cover("cycle"); return; }
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  setUpOrder(m);
  auto p = [&](const char *t) { const GenCtx *x = m.byType(t); return x ? m.path(x) : std::string("-"); };
  // at most two of the three relocations are active
  std::string X, Y, Z;
  if (!c[3]) { X = ".X"; Y = c[1] ? X + ".a" : ".Y"; Z = c[2] ? Y + ".b" : ".Z"; }
  else if (!c[2]) { Z = ".Z"; X = Z + ".c"; Y = c[1] ? X + ".a" : ".Y"; }
  else { Y = ".Y"; Z = Y + ".b"; X = Z + ".c"; }
  gs_assert(p("::n::X") == X && p("::n::Y") == Y && p("::n::Z") == Z, "chained relocations compose");
  gs_assert(p("::n::S") == ".S" && p("::n::K::KK") == ".K.KK" && p("::n::F") == ".F", "others stay in place");
  gs_cover("no cycle");
}
RegE RC({"C09.q.cycles", HDRC, {}, setupC, oracleC, 1, true});
} // namespace
