// C34: the dumped declaration context graph is the one the module is generated from.
#include "e_lib.h"
#include <algorithm>
#include <map>
#include <set>
#include <sstream>
namespace {
enum V : uint8_t { Dflt, Vis, Hid };
struct Alt { const char *text; V v; const char *as; };
std::vector<const char *> texts(const std::vector<Alt> &a) { std::vector<const char *> r; for (auto &x : a) r.push_back(x.text); return r; }
const std::vector<Alt> tri{{nullptr, Dflt, ""}, {"visible", Vis, ""}, {"hidden", Hid, ""}};
const std::vector<Alt> nsp{{nullptr, Dflt, ""}, {"visible", Vis, ""}, {"module", Dflt, ""}, {"visible, module(m)", Vis, "m"}, {"visible, only_expose_in(other)", Vis, ""}};
const std::vector<Alt> cls{{nullptr, Dflt, ""}, {"visible", Vis, ""}, {"hidden", Hid, ""}, {"expose_as(QA), visible(default)", Dflt, "QA"}, {"expose_as(A_), hidden", Hid, "A_"}};
const std::vector<Alt> enu{{nullptr, Dflt, ""}, {"hidden", Hid, ""}, {"expose_as(F)", Vis, "F"}, {"expose_as(E), visible(false)", Hid, "E"}, {"expose_as(EF)", Vis, "EF"}};
const std::vector<Alt> ali{{nullptr, Dflt, nullptr}, {"expose_here", Vis, "Here"}, {"expose_here, visible(default)", Dflt, "Here"}, {"expose_here, hidden, expose_as(a)", Hid, "a"}};
const Alt &at(const std::vector<Alt> &t, uint8_t s) { return t[gs_concrete(s)]; }
bool eff(V v, bool parent) { return v == Vis || (v == Dflt && parent); }

/// One line of a dump: "<label of the enclosing contexts> / <label>" -> how often.
using Tree = std::map<std::string, int>;
bool parse(const std::string &err, const std::string &title, Tree &tree, size_t &nodes) {
  std::istringstream is(err); std::string l; bool in = false, seen = false; std::vector<std::string> stack;
  while (std::getline(is, l)) {
    if (l == title) { if (seen) return false; in = seen = true; continue; }
    if (!in) continue;
    size_t d = 0;
    while (d + 1 < l.size() && (l[d] == '|' || l[d] == '`' || l[d] == ' ') && (l[d + 1] == ' ' || l[d + 1] == '-')) { d += 2; if (l[d - 1] == '-') break; }
    if (d == 0 || l[d - 1] != '-') { in = false; continue; }
    size_t depth = d / 2 - 1;
    if (depth > stack.size()) return false;
    stack.resize(depth); stack.push_back(l.substr(d));
    std::string p; for (auto &x : stack) p += "/" + x;
    tree[p]++; nodes++;
  }
  return seen;
}
const char *const T1 = "Declaration context graph (unpruned) with visibility of all nodes:", *const T2 = "Declaration context graph after pruning:";

uint8_t N, A, B, E, K, X, H, M;
void setup(Env &e) {
  N = e.anno("N", texts(nsp)); A = e.anno("A", texts(cls)); B = e.anno("B", texts(tri)); 
  X = e.anno("X", texts(ali)); H = e.anno("H", texts(tri));
  for (const char *x : {"E", "K", "M"}) e.anno(x, {nullptr});
}
void setup2(Env &e) {
  N = e.anno("N", texts(nsp)); A = e.anno("A", {nullptr}); B = e.anno("B", {nullptr}); X = e.anno("X", {nullptr}); H = e.anno("H", texts(tri));
  E = e.anno("E", texts(enu)); K = e.anno("K", texts(nsp)); M = e.anno("M", texts(tri));
}
std::string label(const char *kind, const std::string &name, const std::string &as, bool vis) {
  size_t k = name.rfind(':'); std::string own = k == std::string::npos ? name : name.substr(k + 1);
  return std::string("/") + kind + " '" + name + "'" + (as.empty() || as == own ? "" : " as '" + as + "'") + (vis ? ": visible" : ": hidden");
}
template <bool Second> void oracle(Env &, const Result &r) {
  const Alt &an = at(nsp, N), &ab = at(tri, B), &ah = at(tri, H), &ax = at(ali, X), &ae = at(enu, Second ? E : 0), &ak = at(nsp, Second ? K : 0), &am = at(tri, Second ? M : 0);
  Alt aa = at(cls, A);
  bool moved = ax.as != nullptr;
  if (moved) aa = {"", ax.v, ax.as};
  bool n = eff(an.v, false), h = eff(ah.v, false);
  std::string ln = label("Namespace", "n", an.as, n), lh = label("CXXRecord", "H", "", h);
  Tree want; 
  want[ln] += 1; want[lh]++;
  // An opening without annotations shares the settings of the first one.
  std::string ln2 = ln; want[ln2] += 1; 
  std::string pa = moved ? lh : ln; bool va = moved ? h : n;
  bool a = eff(aa.v, va), b = eff(ab.v, a);
  std::string la = pa + label("CXXRecord", "n::A", aa.as, a), lb = la + label("CXXRecord", "n::A::B", "", b);
  want[la]++; want[lb]++; want[la + label("CXXRecord", "n::A::P", "", false)]++;
  bool e = eff(ae.v, n); want[ln + label("Enum", "n::EF", ae.as, e)]++;
  bool k = eff(ak.v, n); std::string lk = ln + label("Namespace", "n::km", ak.as, k); want[lk]++;
  bool m = eff(am.v, k); want[lk + label("CXXRecord", "n::km::M", "", m)]++;
  bool o = n; want[ln2 + label("CXXRecord", "n::O", "", o)]++;
  gs_assert(r.exit_code == 0 && r.created == 1, "dumping the graph does not affect status and output");
  Tree got; size_t nodes = 0;
  gs_assert(parse(r.err, T1, got, nodes), "the unpruned graph is dumped once");
  gs_assert(got == want, "the dumped graph has every declaration context once, below the one it belongs to, with name, Python name and visibility");
  // What is left after pruning is what is generated.
  Tree pr; size_t np = 0;
  gs_assert(parse(r.err, T2, pr, np), "the pruned graph is dumped once");
  GenModel g = model(r);
  gs_assert(g.ok, "generated code is well formed");
  bool away = an.text && contains(an.text, "only_expose_in"), kaway = away || (ak.text && contains(ak.text, "only_expose_in"));
  if (away && !moved) a = b = false;
  if (away) e = o = m = false;
  if (kaway) m = false;
  if (moved) a = a && h;
  b = b && a;
  std::set<std::string> exp, dumped, gen;
  if (h) exp.insert("H"); if (a) exp.insert("n::A"); if (b) exp.insert("n::A::B"); if (e) exp.insert("n::EF"); if (m) exp.insert("n::km::M"); if (o) exp.insert("n::O");
  for (auto &t : pr) {
    size_t at = t.first.rfind('/'); std::string l = t.first.substr(at + 1);
    size_t s = l.find('\''), q = l.find('\'', s + 1);
    if (l.rfind("Namespace", 0) != 0) { gs_assert(dumped.insert(l.substr(s + 1, q - s - 1)).second && t.second == 1, "a class or enumeration is dumped once"); gs_assert(contains(l, ": visible"), "hidden classes are pruned"); }
    gs_assert(want.count(t.first) || away || kaway, "pruning removes contexts only");
  }
  for (auto &c : g.ctxs) if (c.kind == "class" || c.kind == "enum") gen.insert(c.type.substr(2));
  gs_assert(dumped == exp, "the pruned graph has exactly the exposed classes and enumerations");
  gs_assert(gen == dumped, "the module has exactly the contexts of the pruned graph");
  size_t subs = 0; for (auto &c : g.ctxs) subs += c.kind == "submodule";
  auto isSub = [&](const std::string &name, const Alt &x) { if (!x.text || !contains(x.text, "module")) return 0; for (auto &t : pr) if (contains(t.first.substr(t.first.rfind('/')), "/Namespace '" + name + "'")) return 1; return 0; };
  gs_assert(subs == (size_t)(isSub("n", an) + isSub("n::km", ak)), "the module has exactly the submodules of the pruned graph");
  if (moved && a) gs_cover("relocated class");
  if (!h && !a && !e && !m && !o) gs_cover("nothing left");
}
#define HDR R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(__sel_N) {
struct GENPYBIND(__sel_A) A { struct GENPYBIND(__sel_B) B {}; private: struct P {}; };
enum class GENPYBIND(__sel_E) EF { e };
namespace km GENPYBIND(__sel_K) { struct GENPYBIND(__sel_M) M {}; }
}
namespace n {
struct O {};
}
struct GENPYBIND(__sel_H) H { using Here GENPYBIND(__sel_X) = n::A; };
)"
RegE R0({"C34.q.moved", HDR, {"--dump-graph=visibility", "--dump-graph=pruned"}, setup, oracle<false>, 1, false, {}, "example.h", false, false, {}, true});
RegE R1({"C34.q.nested", HDR, {"--dump-graph=visibility", "--dump-graph=pruned"}, setup2, oracle<true>, 1, false, {}, "example.h", false, false, {}, true});
} // namespace
