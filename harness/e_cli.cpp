// C16: the compiler command line is adjusted as promised for every command line.
#include "e_lib.h"
#include <algorithm>
namespace {
using Strs = std::vector<std::string>;
bool same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool e = true; for (size_t i = 0; i < a.size(); i++) e = e & (a[i] == b[i]); return e; }
bool starts(const std::string &a, const char *p) { size_t n = 0; while (p[n]) n++; if (a.size() < n) return false; bool e = true; for (size_t i = 0; i < n; i++) e = e & (a[i] == p[i]); return e; }
bool isResource(const std::string &a) { const size_t n = 13; return starts(a, "-resource-dir") && (a.size() == n || a[n] == '='); }
/// Standard given by a -std= argument: C++20 or later?
bool later(const std::string &a) { for (size_t i = 5; i + 2 < a.size(); i++) if ((a[i] == '+') & (a[i + 1] == '+')) return a[i + 2] == '2'; return false; }
void check(const Strs &in) {
  Strs out = adjustArguments(in);
  size_t end = in.size(); for (size_t i = 1; i < in.size(); i++) if (same(in[i], "--")) { end = i; break; }
  for (size_t i = end; i < in.size(); i++) gs_assume(!isResource(in[i]));
  // what has to be kept, in order; the language standard that was asked for
  Strs keep; const std::string *std_ = nullptr; bool resource = false;
  for (size_t i = 1; i < end; i++) {
    if (starts(in[i], "-x")) {
      if (in[i].size() == 2) { if (i + 1 == in.size() || i + 1 == end) gs_assume(false); /* no language given: not a valid command line */ gs_assume(!isResource(in[i + 1])); i++; }
      continue;
    }
    if (starts(in[i], "-std=")) { std_ = &in[i]; continue; }
    if (isResource(in[i])) resource = true;
    keep.push_back(in[i]);
  }
  gs_assert(!out.empty() && same(out[0], in[0]), "the program name stays first"); if (out.empty()) return;
  size_t oend = out.size(); for (size_t i = 1; i < out.size(); i++) if (same(out[i], "--")) { oend = i; break; }
  size_t lang = 0, firstOther = 0, k = 0, res = 0; const std::string *last = nullptr; bool order = true;
  for (size_t i = 1; i < oend; i++) {
    const std::string &a = out[i];
    if (starts(a, "-x")) { lang++; gs_assert(same(a, "-xc++"), "the input is parsed as C++"); gs_assert(!firstOther, "the language applies to all inputs"); continue; }
    firstOther = 1;
    if (starts(a, "-std=")) { last = &a; continue; }
    if (k < keep.size() && same(a, keep[k])) { k++; continue; }
    if (!resource && isResource(a)) { res++; continue; }
    order = false;
  }
  gs_assert(lang == 1, "the language is given exactly once");
  gs_assert(order && k == keep.size(), "all other arguments are kept, in order, and nothing else is added");
  gs_assert(res == (size_t)!resource, "the resource directory is added iff none was given");
  gs_assert(last != nullptr, "a language standard is given"); if (!last) return;
  if (std_ && later(*std_)) gs_assert(same(*last, *std_), "a standard later than C++17 is kept");
  else gs_assert(same(*last, std_ && starts(*std_, "-std=gnu") ? "-std=gnu++17" : "-std=c++17"), "otherwise C++17 is used, with GNU extensions iff asked for");
  Strs tail(in.begin() + (long)end, in.end()), otail(out.begin() + (long)oend, out.end());
  bool eq = tail.size() == otail.size(); for (size_t i = 0; eq && i < tail.size(); i++) eq = same(tail[i], otail[i]);
  gs_assert(eq, "arguments after -- are untouched");
  gs_cover("adjusted");
}
bool noNul(const std::string &s) { bool r = true; for (char c : s) r = r & (c != 0); return r; }
std::string sym(const char *name, const char *prefix, size_t n) { std::string b(n, 'a'); if (n) gs_bytes(name, &b[0], n); gs_assume(noNul(b)); return prefix + b; }
/// k-th kind of argument, with n free bytes where it has any
std::string arg(const char *name, unsigned kind, unsigned n) {
  switch (kind) {
  case 0: return sym(name, "-std=", n + 3);
  case 1: return sym(name, "-std=c++", n);
  case 2: return sym(name, "-x", n - 1);
  case 3: return sym(name, "-resource-dir", 1);
  case 4: return "-resource-dir";
  case 5: return "--";
  case 6: return sym(name, "-", n);
  default: return sym(name, "", n);
  }
}
template <unsigned N, unsigned Kinds, unsigned Bytes> void oracleArgs(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  Strs in{"clang++"}; static const char *const nm[] = {"a0", "a1", "a2", "a3"}, *const kn[] = {"k0", "k1", "k2", "k3"};
  for (unsigned i = 0; i < N; i++) in.push_back(arg(nm[i], (unsigned)gs_concrete(gs_range(kn[i], Kinds, 0)), Bytes));
  in.push_back("-DLAST");
  check(in);
}
// two standards and a language
template <unsigned N> void oracleStd(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  unsigned len = (unsigned)gs_concrete(gs_range("length", N + 1, N));
  Strs in{"clang++", "-Wall", sym("first", "-std=", 6), "-x", "c", sym("second", "-std=", len), "--", "-std=c++03", "-xc"};
  check(in);
}
#define HDR "#pragma once\n#include <genpybind/genpybind.h>\nvoid f() GENPYBIND(visible);\n"
RegE R2({"C16.q.args2", HDR, {}, nullptr, oracleArgs<2, 8, 2>});
RegE RS({"C16.q.std", HDR, {}, nullptr, oracleStd<7>});
RegE R3({"C16.t.args3", HDR, {}, nullptr, oracleArgs<3, 8, 2>});
RegE R23({"C16.q.args2x3", HDR, {}, nullptr, oracleArgs<2, 8, 3>});
RegE RSS({"C16.q.std10", HDR, {}, nullptr, oracleStd<10>});
} // namespace
