// C01: the annotation mini-language.  Reference recogniser vs. Parser, for all
// byte strings of the shapes below.
#include "e_lib.h"
#include "genpybind/annotations/parser.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
using namespace genpybind::annotations;

namespace ref {
static const char *const names[] = {
#define ANNOTATION_KIND(Enum, Spelling) #Spelling,
#include "kinds.def"
};
static const AnnotationKind kinds[] = {
#define ANNOTATION_KIND(Enum, Spelling) AnnotationKind::Enum,
#include "kinds.def"
};
enum { NK = sizeof(names) / sizeof(names[0]) };

enum class T { End, Ident, Num, Str, Open, Close, Comma, Bad };
struct Tok { T t; size_t b, e; unsigned long long v; };
struct Val { char k; unsigned u; size_t b, e; }; // k: s,u,t,f,d
struct Ann { AnnotationKind kind; std::vector<Val> args; };
static bool head(unsigned char c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c == '_'); }
static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }

// Kept out of line so that reference and model denote digits by the same term.
__attribute__((noinline)) static unsigned long long digit_value(unsigned char c) { return (unsigned long long)c - '0'; }
static Tok lex(const char *s, size_t n, size_t p) {
  while (p < n && ((s[p] == ' ') | (s[p] == '\t') | (s[p] == '\f') | (s[p] == '\v'))) p++;
  if (p >= n) return {T::End, n, n, 0};
  unsigned char c = (unsigned char)s[p];
  if (c == '(') return {T::Open, p, p + 1, 0};
  if (c == ')') return {T::Close, p, p + 1, 0};
  if (c == ',') return {T::Comma, p, p + 1, 0};
  if (digit(c)) {
    size_t e = p; unsigned long long v = 0;
    bool big = false; // more than 19 digits are certainly out of range
    while (e < n && digit((unsigned char)s[e])) {
      if (e - p < 19) v = v * 10 + digit_value((unsigned char)s[e]);
      else big = big | (v != 0);
      e++;
    }
    return {(big | (v > 0xffffffffull)) ? T::Bad : T::Num, p, e, v};
  }
  if (c == '"') {
    size_t e = p + 1;
    while (e < n) {
      if (s[e] == '\\') { e += 2; continue; }
      if (s[e] == '"') return {T::Str, p, e + 1, 0};
      e++;
    }
    return {T::Bad, p, n, 0};
  }
  if (head(c)) {
    size_t e = p;
    while (e < n && (head((unsigned char)s[e]) | digit((unsigned char)s[e]))) e++;
    return {T::Ident, p, e, 0};
  }
  return {T::Bad, p, p + 1, 0};
}
static bool is(const char *s, Tok t, const char *w) {
  size_t l = strlen(w);
  return t.e - t.b == l && memcmp(s + t.b, w, l) == 0;
}
// returns true on success
static bool parse(const char *s, size_t n, std::vector<Ann> &out, Parser::Error::Kind &ek, Tok &et) {
  size_t p = 0;
  Tok t = lex(s, n, p);
  while (t.t == T::Ident) {
    int k = -1;
    for (int i = 0; i < NK; i++) if (is(s, t, names[i])) { k = i; break; }
    if (k < 0) { ek = Parser::Error::Kind::InvalidAnnotation; et = t; return false; }
    Ann a{kinds[k], {}};
    t = lex(s, n, t.e);
    if (t.t == T::Open) {
      t = lex(s, n, t.e);
      for (;;) {
        if (t.t == T::Num) a.args.push_back({'u', (unsigned)t.v, 0, 0});
        else if (t.t == T::Str) a.args.push_back({'s', 0, t.b + 1, t.e - 1});
        else if (t.t == T::Ident) {
          if (is(s, t, "true")) a.args.push_back({'t', 0, 0, 0});
          else if (is(s, t, "false")) a.args.push_back({'f', 0, 0, 0});
          else if (is(s, t, "default")) a.args.push_back({'d', 0, 0, 0});
          else a.args.push_back({'s', 0, t.b, t.e});
        } else break;
        t = lex(s, n, t.e);
        if (t.t != T::Comma) break;
        t = lex(s, n, t.e);
      }
      if (t.t != T::Close) { ek = t.t == T::Bad ? Parser::Error::Kind::InvalidToken : Parser::Error::Kind::MissingClosingParen; et = t; return false; }
      t = lex(s, n, t.e);
    }
    out.push_back(std::move(a));
    if (t.t != T::Comma) break;
    t = lex(s, n, t.e);
  }
  if (t.t != T::End) { ek = Parser::Error::Kind::InvalidToken; et = t; return false; }
  return true;
}
} // namespace ref

static void check(const char *s, size_t n) {
  std::vector<ref::Ann> want;
  Parser::Error::Kind ek{};
  ref::Tok et{};
  bool ok = ref::parse(s, n, want, ek, et);
  auto got = Parser::parseAnnotations(llvm::StringRef(s, n));
  if (!got) {
    bool seen = false;
    llvm::handleAllErrors(got.takeError(), [&](const Parser::Error &e) {
      seen = true;
      gs_assert(!ok, "well-formed annotation text is rejected");
      gs_assert(e.getKind() == ek, "wrong kind of parse error");
      gs_assert(e.getToken().size() == et.e - et.b, "parse error names the wrong token");
      gs_assert(e.getToken().empty() || memcmp(e.getToken().data(), s + et.b, et.e - et.b) == 0, "parse error names the wrong token text");
      gs_cover("rejected");
    });
    gs_assert(seen, "parse error of unexpected type");
    return;
  }
  gs_assert(ok, "ill-formed annotation text is accepted");
  gs_assert(got->size() == want.size(), "wrong number of annotations");
  for (size_t i = 0; i < want.size() && i < got->size(); i++) {
    const Annotation &g = (*got)[i];
    const ref::Ann &w = want[i];
    gs_assert(g.getKind().value() == w.kind, "wrong annotation kind");
    auto args = g.getArguments();
    gs_assert(args.size() == w.args.size(), "wrong number of arguments");
    for (size_t k = 0; k < w.args.size() && k < args.size(); k++) {
      const LiteralValue &v = args[k];
      const ref::Val &x = w.args[k];
      switch (x.k) {
      case 'u': gs_assert(v.isUnsigned() && v.getUnsigned() == x.u, "wrong unsigned argument"); gs_cover("unsigned"); break;
      case 't': gs_assert(v.isBoolean() && v.getBoolean(), "wrong boolean argument"); break;
      case 'f': gs_assert(v.isBoolean() && !v.getBoolean(), "wrong boolean argument"); break;
      case 'd': gs_assert(v.isDefault(), "wrong default argument"); break;
      default:
        gs_assert(v.isString(), "wrong string argument kind");
        if (v.isString()) {
          const std::string &str = v.getString();
          gs_assert(str.size() == x.e - x.b, "wrong string argument length");
          gs_assert(str.size() != x.e - x.b || memcmp(str.data(), s + x.b, str.size()) == 0, "wrong string argument");
        }
        gs_cover("string");
      }
    }
  }
  if (want.size() >= 1) gs_cover("accepted");
}

// Right-align the selected word in a field of width w (left filled with blanks).
static void put_word(char *at, size_t w, const char *const *words, unsigned n, unsigned char sel) {
  for (size_t i = 0; i < w; i++) {
    uint8_t tab[256];
    memset(tab, ' ', sizeof tab);
    for (unsigned k = 0; k < n; k++) {
      size_t l = strlen(words[k]);
      if (i + l >= w) tab[k] = (uint8_t)words[k][i + l - w];
    }
    gs_table(at + i, sel, tab);
  }
}

template <size_t N> static void any() { // any N bytes
  char s[N + 1]; memset(s, 'a', N);
  gs_bytes("b", s, N);
  size_t n = gs_concrete(gs_range("len", N + 1, N));
  check(s, n);
}
template <size_t N> static void keyword() { // any annotation keyword followed by any N bytes
  char s[20 + N]; memset(s, ' ', sizeof s);
  unsigned char sel = gs_range("kw", ref::NK, 0);
  put_word(s, 20, ref::names, ref::NK, sel);
  gs_bytes("b", s + 20, N);
  check(s, 20 + N);
}
template <size_t N> static void args() { // argument list of any N bytes
  char s[8 + N]; memcpy(s, "visible(", 8);
  memset(s + 8, ' ', N);
  gs_bytes("b", s + 8, N);
  check(s, 8 + N);
}
template <size_t N> static void number() { // numbers of up to N digits
  char s[8 + N + 1]; memcpy(s, "visible(", 8);
  memset(s + 8, '1', N);
  gs_bytes("b", s + 8, N);
  for (size_t i = 0; i < N; i++) gs_assume((s[8 + i] >= '0') & (s[8 + i] <= '9'));
  size_t n = gs_concrete(gs_range("len", N + 1, N));
  s[8 + n] = ')';
  check(s, 8 + n + 1);
}
static const char *const words[] = {"true", "false", "default", "x", "truex", "fals", "nothing", "True", "\"true\"", "\"a\\\"b\"", "4294967295", "4294967296", "visible", ""};
enum { NW = sizeof(words) / sizeof(words[0]) };
template <bool TWO> static void special() { // argument words that must (not) be special, separators from the token set
  char s[40]; memset(s, ' ', sizeof s);
  memcpy(s, "noconvert(", 10);
  unsigned char w1 = gs_range("w1", NW, 0);
  put_word(s + 10, 10, words, NW, w1);
  gs_bytes("c1", s + 20, 1);
  gs_assume((s[20] == ',') | (s[20] == ' ') | (s[20] == ')') | (s[20] == '('));
  if (TWO) {
    unsigned char w2 = gs_range("w2", NW, 1);
    put_word(s + 21, 10, words, NW, w2);
  } else memcpy(s + 27, "7", 1);
  gs_bytes("c2", s + 31, 1);
  gs_assume((s[31] == ',') | (s[31] == ' ') | (s[31] == ')') | (s[31] == '('));
  check(s, 32);
}
template <bool TWO> static void sequence() { // several annotations, any separators between the keywords
  char s[64]; memset(s, ' ', sizeof s);
  unsigned char k1 = gs_range("kw1", ref::NK, 0), k2 = gs_range("kw2", TWO ? ref::NK : 3, 1);
  put_word(s, 20, ref::names, ref::NK, k1);
  static const char seps[] = ",() \"x;0";
  for (int i : {20, 41, 42}) {
    uint8_t tab[256]; memset(tab, ' ', sizeof tab); memcpy(tab, seps, sizeof seps - 1);
    gs_table(s + i, gs_range("c", 8, 0), tab);
  }
  put_word(s + 21, 20, ref::names, ref::NK, k2);
  check(s, 43);
}
template <size_t N> static void longid() { // any identifier of N bytes as argument
  char s[32]; memcpy(s, "expose_as(", 10);
  memset(s + 10, 'a', N);
  gs_bytes("b", s + 10, N);
  for (size_t i = 0; i < N; i++) { unsigned char c = s[10 + i]; gs_assume(ref::head(c) | ref::digit(c)); }
  gs_assume(!ref::digit(s[10]));
  s[10 + N] = ')';
  check(s, 11 + N);
}
static void name() { // any identifier of up to 20 bytes as annotation
  char s[32]; memset(s, 'a', 20);
  gs_bytes("b", s, 20);
  for (int i = 0; i < 20; i++) { unsigned char c = s[i]; gs_assume(ref::head(c) | ref::digit(c)); }
  gs_assume(!ref::digit(s[0]));
  size_t n = gs_concrete(gs_range("len", 20, 6)) + 1;
  check(s, n);
}
static RegU R7("C01.q.arg9", longid<9>), R9("C01.q.arg4", longid<4>), R10("C01.q.arg5", longid<5>), R11("C01.q.arg7", longid<7>), R12("C01.q.name", name), R13("C01.t.arg12", longid<12>),
    R1("C01.q.any4", any<4>), R2("C01.q.keyword2", keyword<2>), R3("C01.q.args4", args<4>), R4("C01.q.number11", number<11>),
    R5("C01.q.special", special<false>), R8("C01.q.sequence", sequence<false>), R6("C01.t.sequence", sequence<true>),
    T1("C01.t.any6", any<6>), T2("C01.t.keyword4", keyword<4>), T3("C01.t.args6", args<6>), T4("C01.t.number22", number<22>), T5("C01.t.special2", special<true>);
