// C12: parameters and call policies. C13: properties. C20: constructors.
#include "e_lib.h"
#include <algorithm>
#include <cstring>
#include <set>
namespace {
using Alts = std::vector<const char *>;
using Strs = std::vector<std::string>;
Strs sorted(Strs v) { std::sort(v.begin(), v.end()); return v; }
/// `pybind11::arg("a").noconvert().none(false)=x` -> name, sorted modifiers, default
struct Arg { std::string name, dflt; Strs mods; bool ok = false; };
Arg parseArg(const std::string &s) {
  Arg a;
  const std::string p = "pybind11::arg(\"";
  if (s.compare(0, p.size(), p) != 0) return a;
  size_t e = s.find("\")", p.size());
  if (e == std::string::npos) return a;
  a.name = s.substr(p.size(), e - p.size());
  size_t i = e + 2;
  while (i < s.size() && s[i] == '.') { size_t c = s.find(')', i); if (c == std::string::npos) return a; a.mods.push_back(s.substr(i, c + 1 - i)); i = c + 1; }
  a.mods = sorted(a.mods);
  if (i < s.size()) { if (s[i] != '=') return a; a.dflt = s.substr(i + 1); }
  a.ok = true;
  return a;
}
struct Spec { std::string name, dflt; bool noconvert, required; };
/// Checks the arguments of a def() from index `from` on (after the docstring).
void checkArgs(const Call &c, size_t from, const std::vector<Spec> &params, const Strs &extras) {
  size_t i = from;
  for (auto &p : params) {
    gs_assert(i < c.args.size(), "every parameter is described");
    if (i >= c.args.size()) return;
    Arg a = parseArg(c.args[i++]);
    gs_assert(a.ok && a.name == p.name, "parameters are described in order under their names");
    Strs want; if (p.noconvert) want.push_back(".noconvert()"); if (p.required) want.push_back(".none(false)");
    gs_assert(a.mods == want, "noconvert and required apply to exactly the parameters they name");
    gs_assert(a.dflt == p.dflt, "default arguments belong to their parameter");
  }
  Strs rest(c.args.begin() + std::min(i, c.args.size()), c.args.end());
  gs_assert(sorted(rest) == sorted(extras), "exactly the requested call policies are applied");
}
// ---------------------------------------------------------------- C12.q.policies
#define HDR R"(#pragma once
#include <genpybind/genpybind.h>
namespace pybind11 { class args {}; class kwargs {}; }
namespace n GENPYBIND(visible) {
#define ALL GENPYBIND(__sel_NC) GENPYBIND(__sel_RQ) GENPYBIND(__sel_KA) GENPYBIND(__sel_RP)
int *f(int *a, int *b, int *c = nullptr) ALL;
int *fa(int *a, pybind11::args w, int *b, int *c) ALL;
int *fk(pybind11::args const &w, int *a, int *b, int *c, pybind11::kwargs k) ALL;
struct S {
  S(int *a, int *b, int *c) ALL;
  int *m(int *a, int *b = nullptr, int *c = nullptr) const ALL;
  static int *s(int *a, int *b, int *c) ALL;
  int *operator()(int *a, int *b, int *c) ALL;
};
template <typename T> T *t(T *a, T *b, T *c) ALL;
extern template int *t<int>(int *, int *, int *);
}
)"
struct Names { const char *text; const char *set; };
const std::vector<Names> NC{{nullptr, ""}, {"noconvert(a)", "a"}, {"noconvert(c)", "c"}, {"noconvert(b, a)", "ab"}, {"noconvert(a, b, c)", "abc"}, {"noconvert(c), noconvert(b)", "bc"}};
const std::vector<Names> RQ{{nullptr, ""}, {"required(b)", "b"}, {"required(c)", "c"}, {"required(c, a)", "ac"}, {"required(a, a)", "a"}};
const std::vector<Names> KA{{nullptr, ""}, {"keep_alive(a, b)", "ab"}, {"keep_alive(return, c)", "rc"}, {"keep_alive(c, a), keep_alive(b, return)", "cabr"}};
const std::vector<Names> RP{{nullptr, ""}, {"return_value_policy(copy)", "copy"}, {"return_value_policy(copy), return_value_policy(reference_internal)", "reference_internal"}};
Alts texts(const std::vector<Names> &v) { Alts r; for (auto &x : v) r.push_back(x.text); return r; }
uint8_t nc, rq, ka, rp;
void setup(Env &e) { nc = e.anno("NC", texts(NC)); rq = e.anno("RQ", texts(RQ)); ka = e.anno("KA", texts(KA)); rp = e.anno("RP", texts(RP)); }
bool in(const char *set, char c) { return strchr(set, c) != nullptr; }
const Call *one(const GenModel &m, const char *needle) {
  auto r = m.refs(needle);
  gs_assert(r.size() == 1, "exposed exactly once");
  return r.size() == 1 ? r[0].call : nullptr;
}
void checkFn(const Call *c, size_t from, bool self, const std::vector<std::pair<char, const char *>> &params, const char *ncs, const char *rqs, const char *kas, const char *rps) {
  if (!c) return;
  std::vector<Spec> sp; std::string order = self ? "rs" : "r"; // keep_alive numbering: 0 = return value, then implicit object, then all parameters
  for (auto &p : params) { order += p.first; if (p.first != '*') sp.push_back({p.first == '-' ? std::string() : std::string(1, p.first), p.second, in(ncs, p.first), in(rqs, p.first)}); }
  Strs ex;
  if (*rps) ex.push_back(std::string("pybind11::return_value_policy::") + rps);
  for (size_t i = 0; kas[i]; i += 2) ex.push_back("pybind11::keep_alive<" + std::to_string(order.find(kas[i])) + "," + std::to_string(order.find(kas[i + 1])) + ">()");
  checkArgs(*c, from, sp, ex);
}
void oracle(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const char *a = NC[gs_concrete(nc)].set, *b = RQ[gs_concrete(rq)].set, *c = KA[gs_concrete(ka)].set, *d = RP[gs_concrete(rp)].set;
  checkFn(one(m, "&::n::f)"), 3, false, {{'a', ""}, {'b', ""}, {'c', "nullptr"}}, a, b, c, d);
  checkFn(one(m, "&::n::fa)"), 3, false, {{'a', ""}, {'*', ""}, {'b', ""}, {'c', ""}}, a, b, c, d);
  checkFn(one(m, "&::n::fk)"), 3, false, {{'*', ""}, {'a', ""}, {'b', ""}, {'c', ""}, {'*', ""}}, a, b, c, d);
  checkFn(one(m, "&::n::S::m,"), 3, true, {{'a', ""}, {'b', "nullptr"}, {'c', "nullptr"}}, a, b, c, d);
  checkFn(one(m, "&::n::S::s)"), 3, false, {{'a', ""}, {'b', ""}, {'c', ""}}, a, b, c, d);
  checkFn(one(m, "&::n::S::operator()"), 3, true, {{'a', ""}, {'b', ""}, {'c', ""}}, a, b, c, d);
  checkFn(one(m, "pybind11::init<int*,int*,int*>"), 2, true, {{'a', ""}, {'b', ""}, {'c', ""}}, a, b, c, d);
  if (*a && *b && *c && *d) gs_cover("all policies"); else gs_cover("some policies");
}
RegE R0({"C12.q.policies", HDR, {}, setup, oracle});

// ---------------------------------------------------------------- C12.q.keep: several keep_alive relations, implicit object, all return value policies
#define HDRKA R"(#pragma once
#include <genpybind/genpybind.h>
namespace pybind11 { class args {}; class kwargs {}; }
namespace n GENPYBIND(visible) {
struct S {
  S(int *a, int *b, int *c) GENPYBIND(__sel_K);
  int *m(int *a, pybind11::args w, int *b, int *c) GENPYBIND(__sel_K) GENPYBIND(__sel_R);
  virtual int *v(int *c, int *b = nullptr, int *a = nullptr) const GENPYBIND(__sel_K) GENPYBIND(__sel_R);
  int *operator()(int *, int *a, int *b, int *c, pybind11::kwargs const &k) const GENPYBIND(__sel_K) GENPYBIND(__sel_R);
  static int *s(int *b, int *c, int *a) GENPYBIND(__sel_F) GENPYBIND(__sel_R);
};
int *f(pybind11::args w, int *a, int *b, int *c) GENPYBIND(__sel_F) GENPYBIND(__sel_R);
}
)"
const std::vector<Names> KM{{nullptr, ""}, {"keep_alive(this, a), keep_alive(this, b)", "sasb"}, {"keep_alive(a, this), keep_alive(b, this)", "asbs"}, {"keep_alive(return, this), keep_alive(return, a)", "rsra"},
  {"keep_alive(a, b), keep_alive(a, c)", "abac"}, {"keep_alive(a, c), keep_alive(b, c)", "acbc"}, {"keep_alive(a, b), keep_alive(b, a)", "abba"}, {"keep_alive(this, return)", "sr"}, {"keep_alive(c, c)", "cc"}, {"keep_alive(b, a), keep_alive(c, b), keep_alive(this, c), keep_alive(return, this)", "bacbscrs"}};
const std::vector<Names> KF{{nullptr, ""}, {"keep_alive(a, b), keep_alive(a, c)", "abac"}, {"keep_alive(return, a), keep_alive(return, b), keep_alive(return, c)", "rarbrc"}, {"keep_alive(b, return), keep_alive(c, return)", "brcr"}};
const std::vector<Names> PR{{nullptr, ""}, {"return_value_policy(take_ownership)", "take_ownership"}, {"return_value_policy(automatic)", "automatic"}, {"return_value_policy(automatic_reference)", "automatic_reference"}, {"return_value_policy(\"move\")", "move"},
  {"return_value_policy(reference)", "reference"}, {"return_value_policy(reference_internal)", "reference_internal"}, {"return_value_policy(reference), return_value_policy(copy)", "copy"}};
uint8_t km, kf, pr;
void setupKA(Env &e) { km = e.anno("K", texts(KM)); kf = e.anno("F", texts(KF)); pr = e.anno("R", texts(PR)); }
void oracleKA(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const char *c = KM[gs_concrete(km)].set, *f = KF[gs_concrete(kf)].set, *d = PR[gs_concrete(pr)].set;
  checkFn(one(m, "pybind11::init<int*,int*,int*>"), 2, true, {{'a', ""}, {'b', ""}, {'c', ""}}, "", "", c, "");
  checkFn(one(m, "&::n::S::m)"), 3, true, {{'a', ""}, {'*', ""}, {'b', ""}, {'c', ""}}, "", "", c, d);
  checkFn(one(m, "&::n::S::v,"), 3, true, {{'c', ""}, {'b', "nullptr"}, {'a', "nullptr"}}, "", "", c, d);
  checkFn(one(m, "&::n::S::operator()"), 3, true, {{'-', ""}, {'a', ""}, {'b', ""}, {'c', ""}, {'*', ""}}, "", "", c, d);
  checkFn(one(m, "&::n::S::s)"), 3, false, {{'b', ""}, {'c', ""}, {'a', ""}}, "", "", f, d);
  checkFn(one(m, "&::n::f)"), 3, false, {{'*', ""}, {'a', ""}, {'b', ""}, {'c', ""}}, "", "", f, d);
  if (*c && *f && *d) gs_cover("relations"); else gs_cover("some");
}
RegE RKA({"C12.q.keep", HDRKA, {}, setupKA, oracleKA});

// ---------------------------------------------------------------- C12.q.kwargs: nothing may follow kwargs
#define HDRKW R"(#pragma once
#include <genpybind/genpybind.h>
namespace pybind11 { class args {}; class kwargs {}; }
namespace n {
void g0(pybind11::kwargs k, int a) GENPYBIND(__sel_0);
void g1(pybind11::args w, pybind11::kwargs k) GENPYBIND(__sel_1);
void g2(const pybind11::kwargs &k, pybind11::args w) GENPYBIND(__sel_2);
void g3(int a, pybind11::kwargs k) GENPYBIND(__sel_3);
struct GENPYBIND(visible) S {
  S(pybind11::kwargs k, int a) GENPYBIND(__sel_4);
  void g5(int a, pybind11::kwargs k, int b, int c) GENPYBIND(__sel_5);
  static void g6(pybind11::args w, int a, int b, pybind11::kwargs k) GENPYBIND(__sel_6);
  void g7(pybind11::args w, int a, int b, pybind11::kwargs k, pybind11::kwargs l) GENPYBIND(__sel_7);
};
}
)"
uint8_t kw[8];
void setupKW(Env &e) { static const char *nm[] = {"0", "1", "2", "3", "4", "5", "6", "7"}; for (int i = 0; i < 8; i++) kw[i] = e.anno(nm[i], {"hidden", "visible"}); }
void oracleKW(Env &, const Result &r) {
  unsigned bad = 0, on[8]; for (int i = 0; i < 8; i++) { on[i] = gs_concrete(kw[i]); if (on[i] && (i == 0 || i == 2 || i == 4 || i == 5 || i == 7)) bad++; }
  gs_assert((r.exit_code == 0) == !bad && r.exists[0] == !bad, "parameters after kwargs are an error without output, everything else is accepted");
  gs_assert(r.errors.size() == bad, "one error per function");
  if (bad) { gs_cover("trailing parameters"); return; }
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  if (on[1]) checkFn(one(m, "&::n::g1)"), 3, false, {{'*', ""}, {'*', ""}}, "", "", "", "");
  if (on[3]) checkFn(one(m, "&::n::g3)"), 3, false, {{'a', ""}, {'*', ""}}, "", "", "", "");
  if (on[6]) checkFn(one(m, "&::n::S::g6)"), 3, false, {{'*', ""}, {'a', ""}, {'b', ""}, {'*', ""}}, "", "", "", "");
  gs_cover("accepted");
}
RegE RKW({"C12.q.kwargs", HDRKW, {}, setupKW, oracleKW, 1, true});

// ---------------------------------------------------------------- C12.q.names: arbitrary names in keep_alive / noconvert / required
#define HDRN R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
int *f(int *a, int *bc, int *ret) GENPYBIND(__sel_F);
struct S { int *m(int *a, int *bc, int *ret) GENPYBIND(__sel_M); static int *s(int *a, int *bc, int *ret) GENPYBIND(__sel_S); };
}
)"
bool word(unsigned char c) { return (bool)((c == '_') | ((unsigned char)(c - 'a') < 26) | ((unsigned char)(c - 'A') < 26) | ((unsigned char)(c - '0') < 10)); }
bool okName(const char *p, size_t n) { bool r = !((unsigned char)(p[0] - '0') < 10); for (size_t i = 0; i < n; i++) r = r & word(p[i]);
  if (n == 4) r = r & (memcmp(p, "true", 4) != 0);
  return r; }
std::string nm;
template <int N, int W, int K> void setupN(Env &e) { // W: where (0 f, 1 m, 2 s), K: which annotation
  static const char *pre[] = {"noconvert(", "required(", "keep_alive(", "keep_alive(bc, "}, *post[] = {")", ")", ", bc)", ")"};
  static const char *site[] = {"F", "M", "S"};
  for (int i = 0; i < 3; i++) if (i == W) nm = e.annoBytes(site[i], pre[K], N, post[K], okName); else e.anno(site[i], {nullptr});
}
template <int N, int W, int K> void oracleN(Env &, const Result &r) {
  std::vector<std::string> ok{"a", "bc", "ret"};
  if (K >= 2) { ok.push_back("return"); if (W == 1) ok.push_back("this"); }
  int which = -1;
  for (size_t k = 0; k < ok.size(); k++) if (ok[k].size() == N) {
    bool eq = true; for (int i = 0; i < N; i++) eq = eq & (nm[i] == ok[k][i]);
    if (eq) which = (int)k;
  }
  gs_assert((r.exit_code == 0) == (which >= 0), "a parameter name is accepted iff there is such a parameter");
  if (which < 0) { gs_assert(r.created == 0 && r.errors.size() == 1, "unknown parameter name is an error"); gs_cover("unknown name"); return; }
  gs_cover("known name");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const Call *c = one(m, W == 0 ? "&::n::f" : W == 1 ? "&::n::S::m" : "&::n::S::s"); if (!c) return;
  int base = W == 1 ? 2 : 1, idx = which < 3 ? base + which : which == 3 ? 0 : 1, bc = base + 1;
  std::vector<Spec> sp; for (int k = 0; k < 3; k++) sp.push_back({ok[k], "", K == 0 && k == which, K == 1 && k == which});
  Strs ex; if (K == 2) ex.push_back("pybind11::keep_alive<" + std::to_string(idx) + "," + std::to_string(bc) + ">()");
  if (K == 3) ex.push_back("pybind11::keep_alive<" + std::to_string(bc) + "," + std::to_string(idx) + ">()");
  checkArgs(*c, 3, sp, ex);
}
#define RN(N, W, K, T) RegE NM##N##W##K({"C12." T ".names" #N #W #K, HDRN, {}, setupN<N, W, K>, oracleN<N, W, K>});
RN(1, 0, 0, "q") RN(2, 1, 1, "q") RN(3, 2, 0, "q") RN(6, 0, 2, "q") RN(4, 1, 2, "q") RN(4, 2, 3, "q") RN(2, 2, 2, "q") RN(6, 1, 3, "q")
RN(1, 1, 3, "t") RN(1, 2, 1, "t") RN(3, 0, 1, "t") RN(3, 1, 2, "t") RN(4, 0, 2, "t") RN(6, 2, 3, "t") RN(2, 0, 3, "t")

// ---------------------------------------------------------------- C13 properties
#define HDRP R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct S {
  int g1() const GENPYBIND(__sel_1);
  int g2(int x = 1) GENPYBIND(__sel_2);
  void s1(int v) GENPYBIND(__sel_3);
  int &s2(int v, int w = 0) GENPYBIND(__sel_4);
};
}
)"
uint8_t p[5];
const char *const gt[] = {nullptr, "getter_for(p)", "getter_for(q)", "getter_for(p, q)"}, *const st[] = {nullptr, "setter_for(p)", "setter_for(q)", "setter_for(q, p)"};
void setupP(Env &e) { static const char *nm[] = {"", "1", "2", "3", "4"}; for (int i = 1; i <= 4; i++) p[i] = e.anno(nm[i], i <= 2 ? Alts(gt, gt + 4) : Alts(st, st + 4)); }
void oracleP(Env &, const Result &r) {
  unsigned s[5]; for (int i = 1; i <= 4; i++) s[i] = gs_concrete(p[i]);
  bool dup = false, noget = false;
  int get[2], set[2];
  for (int k = 0; k < 2; k++) { // property p, q
    bool a = s[1] & (1 << k), b = s[2] & (1 << k), c = s[3] & (1 << k), d = s[4] & (1 << k);
    dup = dup || (a && b) || (c && d);
    noget = noget || (!a && !b && (c || d));
    get[k] = a ? 1 : b ? 2 : 0; set[k] = c ? 1 : d ? 2 : 0;
  }
  bool bad = dup || noget;
  gs_assert((r.exit_code == 0) == !bad, "a property needs exactly one getter and at most one setter");
  gs_assert(r.errors.empty() == !bad && r.exists[0] == !bad, "error and no output exactly for inconsistent properties");
  if (bad) { gs_cover(dup ? "duplicate" : "no getter"); return; }
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *S = m.byType("::n::S"); gs_assert(S != nullptr, "class exposed"); if (!S) return;
  static const char *const G[] = {"", "pybind11::overload_cast<>(&::n::S::g1,pybind11::const_)", "pybind11::overload_cast<int>(&::n::S::g2)"};
  static const char *const T[] = {"", "pybind11::overload_cast<int>(&::n::S::s1)", "pybind11::overload_cast<int,int>(&::n::S::s2)"};
  static const char *const N[] = {"\"p\"", "\"q\""};
  for (int k = 0; k < 2; k++) {
    auto c = m.named(S, N[k]);
    gs_assert(c.size() == (size_t)(get[k] != 0), "property exists iff it has a getter");
    if (c.size() != 1 || !get[k]) continue;
    gs_assert(c[0]->fn == (set[k] ? "def_property" : "def_property_readonly"), "property is writable iff it has a setter");
    gs_assert(c[0]->args.size() == (set[k] ? 3u : 2u) && c[0]->args[1] == G[get[k]] && (!set[k] || c[0]->args[2] == T[set[k]]), "property uses its own getter and setter");
  }
  static const char *const M[] = {"", "\"g1\"", "\"g2\"", "\"s1\"", "\"s2\""};
  for (int i = 1; i <= 4; i++) gs_assert(m.calls(S, "def", M[i]).size() == (size_t)(s[i] == 0), "accessors are not exposed as methods, other methods are");
  gs_cover("consistent");
}
RegE RP0({"C13.q.pairs", HDRP, {}, setupP, oracleP, 1, true});

// one method in both roles, several properties per method, setters declared before getters
#define HDRB R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
template <typename T> struct S {
  void put(T v) GENPYBIND(__sel_1);
  virtual T &both(T v = 0) GENPYBIND(__sel_2);
  T get() const noexcept GENPYBIND(__sel_3);
};
extern template struct S<int>;
}
)"
uint8_t pb[4];
void setupB(Env &e) {
  pb[1] = e.anno("1", {nullptr, "setter_for(p)", "setter_for(q)", "setter_for(p), setter_for(q)", "setter_for(p, q), noconvert(v)"});
  pb[2] = e.anno("2", {nullptr, "getter_for(p)", "setter_for(p)", "getter_for(p), setter_for(p)", "setter_for(p), getter_for(p)", "setter_for(p), getter_for(q)", "getter_for(p, q), setter_for(q, p)"});
  pb[3] = e.anno("3", {nullptr, "getter_for(p)", "getter_for(q)", "getter_for(p), getter_for(q)", "getter_for(p), expose_as(z)"});
}
void oracleB(Env &, const Result &r) {
  // bit 0: p, bit 1: q
  static const uint8_t putset[] = {0, 1, 2, 3, 3}, bothget[] = {0, 1, 0, 1, 1, 2, 3}, bothset[] = {0, 0, 1, 1, 1, 1, 3}, getget[] = {0, 1, 2, 3, 1};
  unsigned a = gs_concrete(pb[1]), b = gs_concrete(pb[2]), c = gs_concrete(pb[3]);
  bool bad = false;
  for (int k = 0; k < 2; k++) { bool g1 = bothget[b] >> k & 1, g2 = getget[c] >> k & 1, s1 = putset[a] >> k & 1, s2 = bothset[b] >> k & 1; bad = bad || (g1 && g2) || (s1 && s2) || ((s1 || s2) && !g1 && !g2); }
  gs_assert((r.exit_code == 0) == !bad, "a property needs exactly one getter and at most one setter");
  gs_assert(r.errors.empty() == !bad && r.exists[0] == !bad, "error and no output exactly for inconsistent properties");
  if (bad) { gs_cover("inconsistent"); return; }
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *S = m.byType("::n::S<int>"); gs_assert(S != nullptr, "class exposed"); if (!S) return;
  static const char *const N[] = {"\"p\"", "\"q\""};
  const std::string P = "pybind11::overload_cast<int>(&::n::S<int>::put)", B = "pybind11::overload_cast<int>(&::n::S<int>::both)", G = "pybind11::overload_cast<>(&::n::S<int>::get,pybind11::const_)";
  for (int k = 0; k < 2; k++) {
    bool g1 = bothget[b] >> k & 1, g2 = getget[c] >> k & 1, s1 = putset[a] >> k & 1, s2 = bothset[b] >> k & 1;
    auto f = m.named(S, N[k]);
    gs_assert(f.size() == (size_t)(g1 || g2), "property exists iff it has a getter");
    if (f.size() != 1 || !(g1 || g2)) continue;
    gs_assert(f[0]->fn == (s1 || s2 ? "def_property" : "def_property_readonly"), "property is writable iff it has a setter");
    gs_assert(f[0]->args.size() == (s1 || s2 ? 3u : 2u) && f[0]->args[1] == (g1 ? B : G) && (!(s1 || s2) || f[0]->args[2] == (s1 ? P : B)), "property uses its own getter and setter");
  }
  gs_assert(m.calls(S, "def", "\"put\"").size() == (size_t)(a == 0) && m.calls(S, "def", "\"both\"").size() == (size_t)(b == 0) && m.calls(S, "def", "\"get\"").size() == (size_t)(c == 0), "accessors are not exposed as methods, other methods are");
  if (b >= 3 && b != 5) gs_cover("own setter"); else gs_cover("consistent");
}
RegE RPB({"C13.q.both", HDRB, {}, setupB, oracleB, 1, true});

// getter/setter on methods with unsuitable signatures; inherited accessors; hidden ones
#define HDRQ R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct GENPYBIND(hidden) B { int bg() const GENPYBIND(__sel_BG); void bs(int) GENPYBIND(__sel_BS); };
struct GENPYBIND(inline_base(B)) S : B {
  int own() const GENPYBIND(__sel_G);
  void put(int) GENPYBIND(__sel_S);
/*@acc*/public/*@*/:
  void pput(int) GENPYBIND(__sel_P);
};
}
)"
uint8_t q5[6];
void setupQ(Env &e) {
  q5[0] = e.anno("BG", {nullptr, "getter_for(p)", "getter_for(p), hidden"});
  q5[1] = e.anno("BS", {nullptr, "setter_for(p)"});
  q5[2] = e.anno("G", {nullptr, "getter_for(p)", "getter_for(\"p\")", "hidden, getter_for(p)"});
  q5[3] = e.anno("S", {nullptr, "setter_for(p)", "setter_for(p), hidden"});
  q5[4] = e.anno("P", {nullptr, "setter_for(p)"});
  q5[5] = e.access("acc", {"n::S::pput"});
}
void oracleQ(Env &, const Result &r) {
  unsigned s[6]; for (int i = 0; i < 6; i++) s[i] = gs_concrete(q5[i]);
  int gets = (s[0] == 1) + (s[2] == 1 || s[2] == 2), sets = (s[1] == 1) + (s[3] == 1) + (s[4] == 1 && s[5] == 0);
  bool bad = gets > 1 || sets > 1 || (gets == 0 && sets > 0);
  gs_assert((r.exit_code == 0) == !bad, "a property needs exactly one visible, accessible getter and at most one setter");
  gs_assert(r.exists[0] == !bad, "no output for inconsistent properties");
  if (bad) { gs_cover("inconsistent"); return; }
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *S = m.byType("::n::S"); gs_assert(S != nullptr, "class exposed");
  auto c = m.named(S, "\"p\"");
  gs_assert(c.size() == (size_t)gets, "property exists iff it has a getter");
  if (c.size() == 1) {
    gs_assert(c[0]->fn == (sets ? "def_property" : "def_property_readonly"), "property is writable iff it has a setter");
    gs_assert(contains(c[0]->text, s[0] == 1 ? "&::n::B::bg" : "&::n::S::own"), "getter");
    if (sets) gs_assert(contains(c[0]->text, s[1] == 1 ? "&::n::B::bs" : s[3] == 1 ? "&::n::S::put" : "&::n::S::pput"), "setter");
  }
  gs_cover("consistent");
}
RegE RQ0({"C13.q.sources", HDRQ, {}, setupQ, oracleQ, 1, true});

// ---------------------------------------------------------------- C20 constructors
#define HDRK R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct O {};
struct S {
  S() GENPYBIND(__sel_D);
  S(S const &) GENPYBIND(__sel_C);
  S(S &&) GENPYBIND(__sel_M);
  S(int, double) GENPYBIND(__sel_A);
/*@acc*/public/*@*/:
  S(O const &o) GENPYBIND(__sel_X);
  explicit S(int i) GENPYBIND(__sel_E);
};
struct Plain { int x; };
struct NoCopy { NoCopy(NoCopy const &) = delete; };
struct Abs { Abs(int) GENPYBIND(__sel_A); virtual void f() = 0; };
struct Conc : Abs { using Abs::Abs; Conc(double) GENPYBIND(__sel_A); void f() override; };
}
)"
uint8_t k[7];
void setupK(Env &e) {
  Alts v{nullptr, "hidden"}, x{nullptr, "implicit_conversion", "hidden, implicit_conversion", "implicit_conversion(true), implicit_conversion(false)", "implicit_conversion(true)"};
  k[0] = e.anno("D", {nullptr, "hidden"}); k[1] = e.anno("C", {nullptr, "visible", "hidden"}); k[2] = e.anno("M", {nullptr, "visible"});
  k[3] = e.anno("A", v); k[4] = e.anno("X", x); k[5] = e.anno("E", Alts(x.begin(), x.begin() + 3)); k[6] = e.access("acc", {"n::S::S#5", "n::S::S#6"});
}
Strs inits(const GenCtx *c) { Strs r; if (c) for (auto &x : c->calls) if (x.fn == "def" && !x.args.empty() && x.args[0].rfind("pybind11::init<", 0) == 0) r.push_back(x.args[0].substr(15, x.args[0].size() - 18)); return sorted(r); }
void oracleK(Env &, const Result &r) {
  unsigned s[7]; for (int i = 0; i < 7; i++) s[i] = gs_concrete(k[i]);
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *S = m.byType("::n::S"), *P = m.byType("::n::Plain"), *N = m.byType("::n::NoCopy"), *A = m.byType("::n::Abs"), *C = m.byType("::n::Conc");
  gs_assert(S && P && N && A && C, "classes exposed");
  bool pub = s[6] == 0, X = pub && s[4] != 2, E = pub && s[5] != 2;
  Strs want;
  if (s[0] == 0) want.push_back("");
  if (s[1] != 2) want.push_back("const::n::S&");
  if (s[3] == 0) want.push_back("int,double");
  if (X) want.push_back("const::n::O&");
  if (E) want.push_back("int");
  gs_assert(inits(S) == sorted(want), "exactly the visible, accessible, non-move constructors are exposed");
  Strs conv, gotConv;
  if (X && (s[4] == 1 || s[4] == 4)) conv.push_back("const::n::O&,::n::S");
  if (E && (s[5] == 1 || s[5] == 4)) conv.push_back("int,::n::S");
  if (S) for (auto &c : S->calls) if (c.fn == "pybind11::implicitly_convertible") gotConv.push_back(c.tmpl);
  gs_assert(sorted(gotConv) == sorted(conv), "implicit conversions are registered exactly where requested");
  gs_assert(inits(P) == (Strs{"", "const::n::Plain&"}), "implicit default and copy constructors are exposed");
  gs_assert(inits(N).empty(), "deleted constructors are not exposed");
  gs_assert(inits(A).empty(), "constructors of abstract classes are not exposed");
  Strs c = inits(C); // constructors of the derived class itself
  gs_assert((std::find(c.begin(), c.end(), "double") != c.end()) == (s[3] == 0), "constructors of concrete classes are exposed");
  if (X && E) gs_cover("all"); else if (!pub) gs_cover("inaccessible"); else gs_cover("other");
}
RegE RK({"C20.q.ctors", HDRK, {}, setupK, oracleK});

// which constructors may request an implicit conversion
#define HDRI R"(#pragma once
#include <genpybind/genpybind.h>
namespace n GENPYBIND(visible) {
struct O {};
struct S {
  S() GENPYBIND(__sel_0);
  S(O, int) GENPYBIND(__sel_1);
  S(O, int, int = 1) GENPYBIND(__sel_2);
  explicit S(int) GENPYBIND(__sel_3);
  S(O const &) GENPYBIND(__sel_4);
  explicit S(double, int = 1) GENPYBIND(__sel_5);
};
}
)"
uint8_t which, form;
void setupI(Env &e) {
  which = e.anno("0", {"implicit_conversion", nullptr}, 1);
  static uint8_t b[6]; static const char *nm[] = {"0", "1", "2", "3", "4", "5"};
  b[0] = which;
  for (int i = 1; i < 6; i++) b[i] = e.anno(nm[i], {"implicit_conversion", nullptr}, 1);
  which = 0; for (int i = 0; i < 6; i++) which = which | (uint8_t)((uint8_t)(1 - b[i]) << i);
}
void oracleI(Env &, const Result &r) {
  unsigned w = gs_concrete(which);
  bool bad = w & 0b100111; // only constructors with exactly one parameter convert
  gs_assert((r.exit_code == 0) == !bad, "implicit conversions may be requested exactly on constructors with one parameter");
  if (bad) { gs_assert(r.created == 0 && r.errors.size() == (size_t)__builtin_popcount(w & 0b100111), "one error per misuse"); gs_cover("misuse"); return; }
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *S = m.byType("::n::S"); gs_assert(S != nullptr, "class exposed"); if (!S) return;
  Strs got, want; for (auto &c : S->calls) if (c.fn == "pybind11::implicitly_convertible") got.push_back(c.tmpl);
  if (w & 8) want.push_back("int,::n::S"); if (w & 16) want.push_back("const::n::O&,::n::S");
  gs_assert(sorted(got) == sorted(want), "implicit conversions are registered exactly where requested");
  gs_cover("accepted");
}
RegE RI({"C20.q.convert", HDRI, {}, setupI, oracleI});
} // namespace
