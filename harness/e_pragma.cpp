// C28: headers requested by #pragma genpybind include.
#include "e_lib.h"
#include <cstring>
namespace {
using Strs = std::vector<std::string>;
bool lowercase(const char *p, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r &= (unsigned char)(p[i] - 'a') < 26; return r; }
bool fileChar(const char *p, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) { unsigned char c = (unsigned char)p[i]; r &= ((unsigned char)(c - 'a') < 26) | ((unsigned char)(c - 'A') < 26) | ((unsigned char)(c - '0') < 10) | (c == '_') | (c == '-') | (c == '+') | (c == '.') | (c == ',') | (c == '=') | (c == ' ') | (c == '%') | (c == '\'') | (c == '#') | (c == '~'); } return r; }
Strs want;
void add(Env &e, const char *name, const char *placeholder, size_t off, size_t n, bool (*ok)(const char *, size_t)) {
  std::string t = e.tokenBytes(name, placeholder, off, n, ok);
  if (gs_replaying()) e.files.push_back(t.substr(1, t.size() - 2));
  want.push_back(t);
}
/// The directives of a file: everything in front of the first line that is none, without "#include ".
Strs includes(const std::string &o) {
  Strs r; static const char I[] = "#include "; size_t L = sizeof I - 1;
  for (size_t p = 0; p + L < o.size() && memcmp(o.data() + p, I, L) == 0;) { size_t e = p; while (e < o.size() && o[e] != '\n') e++; r.push_back(o.substr(p + L, e - p - L)); p = e + 1; }
  return r;
}
bool same(const std::string &a, const std::string &b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
Strs unique(const Strs &v) { Strs r; for (auto &s : v) { bool dup = false; for (auto &x : r) dup = dup || same(x, s); if (!dup) r.push_back(s); } return r; }
template <unsigned N> void oracle(Env &, const Result &r) {
  gs_assert(r.exit_code == 0 && r.outs.size() == N, "valid input"); if (r.outs.size() != N) return;
  for (auto &o : r.outs) {
    Strs got = includes(o);
    // the header itself and the support headers come first
    const size_t K = 3; bool main = false;
    for (size_t i = 0; i < K && i < got.size(); i++) main = main || contains(got[i], "example.h\"");
    gs_assert(got.size() >= K && main, "the header is included first"); if (got.size() < K) return;
    Strs rest(got.begin() + K, got.end());
    if (rest.size() == want.size()) { bool ok = true; for (size_t i = 0; i < want.size(); i++) ok &= same(rest[i], want[i]); gs_assert(ok, "requested headers are included in order, spelled as written"); }
    else gs_assert(unique(rest) == unique(want), "requested headers are included in order, spelled as written");
    gs_assert(gs_replaying() || o.size() > 200, "the module follows");
  }
  gs_cover("included");
}
#define HDR R"(#pragma once
#pragma genpybind include <inc-000.h>
#include <genpybind/genpybind.h>
#include "inner.h"
namespace n GENPYBIND(visible) {
#pragma genpybind   include "loc-000.h"  // comment
void f();
}
#if 0
#pragma genpybind include <inc-skipped.h>
#endif
#ifdef __GENPYBIND__
#  pragma genpybind include <inc-111.h>
#endif
)"
const std::vector<std::pair<const char *, const char *>> extra{{"inc-000.h", ""}, {"loc-000.h", ""}, {"inc-111.h", ""}, {"loc-111.h", ""}, {"inner.h", "#pragma once\n#pragma genpybind include \"loc-111.h\"\nstruct Inner;\n"}};
template <bool Odd> void setup(Env &e) {
  want.clear();
  auto ok = Odd ? fileChar : lowercase;
  add(e, "p0", "<inc-000.h>", 5, 3, ok);
  want.push_back("\"loc-111.h\"");
  add(e, "p1", "\"loc-000.h\"", Odd ? 5 : 1, 3, ok);
  add(e, "p2", "<inc-111.h>", 5, 3, ok);
}
RegE A({"C28.q.names", HDR, {}, setup<false>, oracle<1>, 1, false, {}, "example.h", false, true, extra});
RegE B({"C28.q.odd", HDR, {}, setup<true>, oracle<2>, 2, false, {}, "example.h", false, true, extra});
} // namespace
