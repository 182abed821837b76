// C21: LiteralValue behaves as a value for every history of operations.
#include "e_lib.h"
#include "genpybind/annotations/literal_value.h"
#include <llvm/ADT/StringRef.h>
#include <new>
#include <string>
#include <utility>
using genpybind::annotations::LiteralValue;
using genpybind::annotations::toString;
namespace {
enum K { Nothing, Str, Unsigned, Boolean, Default, NK };
struct Ref { K k = Nothing; std::string s; unsigned u = 0; bool b = false; bool known = true; };
const unsigned NS = 2;
int counter;
std::string text() {
  bool lng = (counter & 1) != 0;
  std::string n = "c" + std::to_string(counter++);
  std::string t = lng ? "a rather long string value " : "";
  char c = 'x'; gs_bytes(n.c_str(), &c, 1);
  t += c;
  return t;
}
unsigned number() { return gs_u32(("u" + std::to_string(counter++)).c_str(), 7); }
bool boolean() { return (gs_u8(("b" + std::to_string(counter++)).c_str(), 1) & 1) != 0; }
bool strKind(const Ref &r) { return r.k == Str; }
bool same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool e = true; for (size_t i = 0; i < a.size(); i++) e = e & (a[i] == b[i]); return e; }
void set(LiteralValue &v, Ref &r, unsigned k) {
  r = Ref(); r.k = (K)k;
  switch (k) {
  case Nothing: v.setNothing(); break;
  case Str: r.s = text(); v.setString(r.s); break;
  case Unsigned: r.u = number(); v.setUnsigned(r.u); break;
  case Boolean: r.b = boolean(); v.setBoolean(r.b); break;
  default: v.setDefault(); break;
  }
}
LiteralValue make(Ref &r, unsigned k) {
  r = Ref(); r.k = (K)k;
  switch (k) {
  case Str: r.s = text(); return LiteralValue::createString(r.s);
  case Unsigned: r.u = number(); return LiteralValue::createUnsigned(r.u);
  case Boolean: r.b = boolean(); return LiteralValue::createBoolean(r.b);
  case Default: return LiteralValue::createDefault();
  default: return LiteralValue();
  }
}
void check(const LiteralValue &v, const Ref &r) {
  unsigned kinds = v.isNothing() + v.isString() + v.isUnsigned() + v.isBoolean() + v.isDefault();
  gs_assert(kinds == 1, "a value has exactly one kind");
  gs_assert(v.hasValue() == !v.isNothing() && (bool)v == v.hasValue(), "hasValue");
  if (!r.known) { if (v.isString()) gs_assert(v.getString().size() < 100, "moved-from value is usable"); return; }
  gs_assert(v.isNothing() == (r.k == Nothing) && v.isString() == strKind(r) && v.isUnsigned() == (r.k == Unsigned) && v.isBoolean() == (r.k == Boolean) && v.isDefault() == (r.k == Default), "value has the kind it was given");
  if (v.isString() && strKind(r)) gs_assert(same(v.getString(), r.s), "string value is unchanged");
  if (v.isUnsigned()) gs_assert(v.getUnsigned() == r.u, "number is unchanged");
  if (v.isBoolean()) gs_assert(v.getBoolean() == r.b, "boolean is unchanged");
}
bool equal(const Ref &a, const Ref &b) {
  if (strKind(a) && strKind(b)) return same(a.s, b.s);
  if (a.k != b.k) return false;
  return a.k == Unsigned ? a.u == b.u : a.k == Boolean ? a.b == b.b : true;
}
void checkAll(LiteralValue *v, Ref *r) {
  for (unsigned i = 0; i < NS; i++) check(v[i], r[i]);
  for (unsigned i = 0; i < NS; i++) for (unsigned j = 0; j < NS; j++) if (r[i].known && r[j].known) {
    bool e = equal(r[i], r[j]);
    gs_assert((v[i] == v[j]) == e, "equality compares kind and value");
    gs_assert((v[i] != v[j]) == !e, "inequality is the negation of equality");
  }
}
// operations: set (6 kinds), copy assignment, move assignment, copy construction, move construction (each from either slot), own substring
const unsigned NOPS = NK + 4 * NS + 1;
void op(LiteralValue *v, Ref *r, unsigned d, unsigned o) {
  if (o < NK) { set(v[d], r[d], o); return; }
  o -= NK;
  if (o == 4 * NS) { // the value's own text
    if (r[d].known && strKind(r[d])) { v[d].setString(llvm::StringRef(v[d].getString()).drop_front(0)); }
    return;
  }
  unsigned s = o % NS;
  switch (o / NS) {
  case 0: v[d] = v[s]; r[d] = Ref(r[s]); break;
  case 1: {
    v[d] = std::move(v[s]); if (s != d) { r[d] = r[s]; r[s].known = false; } else r[d].known = false; break; }
  case 2: { LiteralValue t(v[s]); check(t, r[s]); check(v[s], r[s]); v[d].~LiteralValue(); new (&v[d]) LiteralValue(t); r[d] = Ref(r[s]); break; }
  default: {
    LiteralValue t(std::move(v[s])); Ref q = r[s]; check(t, q); r[s].known = false; check(v[s], r[s]);
    v[d].~LiteralValue(); new (&v[d]) LiteralValue(std::move(t)); r[d] = q; if (s == d) r[d] = q; break; }
  }
}
template <unsigned OPS, bool Any> void run() {
  LiteralValue v[NS]; Ref r[NS];
  for (unsigned i = 0; i < NS; i++) { unsigned k = gs_concrete(gs_range(i ? "k1" : "k0", NK, 0)); v[i] = make(r[i], k); }
  for (unsigned i = 0; i < OPS; i++) {
    std::string n = std::to_string(i);
    unsigned d = i == 0 && !Any ? 0 : gs_concrete(gs_range(("d" + n).c_str(), NS, 0));
    unsigned o = gs_concrete(gs_range(("o" + n).c_str(), NOPS, 0));
    op(v, r, d, o);
    for (unsigned j = 0; j < NS; j++) check(v[j], r[j]);
  }
  checkAll(v, r);
  gs_cover("end");
}
RegU R2("C21.q.ops2", run<2, false>);
RegU R3("C21.t.ops3", run<3, true>);
// ---------------------------------------------------------------- printing
bool unescape(const std::string &o, size_t &p, unsigned char &c) {
  if (p >= o.size()) return false;
  if (o[p] != '\\') { c = o[p++]; return true; }
  if (++p >= o.size()) return false;
  char e = o[p++];
  if (e >= '0' && e <= '7') { unsigned v = e - '0'; for (int k = 0; k < 2 && p < o.size() && o[p] >= '0' && o[p] <= '7'; k++) v = v * 8 + (o[p++] - '0'); c = (unsigned char)v; return true; }
  c = e == 'n' ? '\n' : e == 't' ? '\t' : e; return e == 'n' || e == 't' || e == '\\' || e == '"';
}
template <unsigned N> void print() {
  unsigned k = gs_concrete(gs_range("kind", NK, Str));
  if (k == Str) {
    std::string s(N, 'x'); gs_bytes("s", &s[0], N);
    LiteralValue v = LiteralValue::createString(s);
    std::string o = toString(v);
    gs_assert(o.size() >= 2 && o[0] == '"' && o[o.size() - 1] == '"', "string is quoted");
    size_t p = 1;
    for (unsigned i = 0; i < N; i++) { unsigned char c = 0; bool ok = unescape(o, p, c); gs_assert(ok && c == (unsigned char)s[i], "printed text denotes the same string"); if (!ok) return; }
    gs_assert(p == o.size() - 1, "printed text ends with the closing quote");
    gs_cover("string");
  } else {
    Ref r; LiteralValue v = make(r, k);
    if (k == Unsigned) return; // formatting of numbers is LLVM's
    std::string o = toString(v), w = k == Nothing ? "nothing" : k == Default ? "default" : r.b ? "true" : "false";
    gs_assert(o == w, "printed keyword");
    gs_cover("keyword");
  }
}
RegU P2("C21.q.print2", print<2>);
RegU P4("C21.t.print4", print<4>);
} // namespace
