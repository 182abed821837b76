// C11: operators.
#include "e_lib.h"
#include <algorithm>
#include <map>
namespace {
using Alts = std::vector<const char *>;
using Strs = std::vector<std::string>;
struct Op { const char *cpp, *fwd, *rev; };
// Python data model: forward and reflected method of each C++ operator
const Op BIN[] = {{"+", "__add__", "__radd__"}, {"-", "__sub__", "__rsub__"}, {"*", "__mul__", "__rmul__"}, {"/", "__truediv__", "__rtruediv__"}, {"%", "__mod__", "__rmod__"},
  {"^", "__xor__", "__rxor__"}, {"&", "__and__", "__rand__"}, {"|", "__or__", "__ror__"}, {"<<", "__lshift__", "__rlshift__"}, {">>", "__rshift__", "__rrshift__"},
  {"==", "__eq__", "__eq__"}, {"!=", "__ne__", "__ne__"}, {"<", "__lt__", "__gt__"}, {">", "__gt__", "__lt__"}, {"<=", "__le__", "__ge__"}, {">=", "__ge__", "__le__"}};
const Op INP[] = {{"+=", "__iadd__", 0}, {"-=", "__isub__", 0}, {"*=", "__imul__", 0}, {"/=", "__itruediv__", 0}, {"%=", "__imod__", 0}, {"^=", "__ixor__", 0}, {"&=", "__iand__", 0}, {"|=", "__ior__", 0}, {"<<=", "__ilshift__", 0}, {">>=", "__irshift__", 0}};
const Op UN[] = {{"+", "__pos__", 0}, {"-", "__neg__", 0}, {"~", "__invert__", 0}};
#define EACH(X) X(+) X(-) X(*) X(/) X(%) X(^) X(&) X(|) X(<<) X(>>) X(==) X(!=) X(<) X(>) X(<=) X(>=)
#define EACHI(X) X(+=) X(-=) X(*=) X(/=) X(%=) X(^=) X(&=) X(|=) X(<<=) X(>>=)
#define STR1(...) #__VA_ARGS__
#define STR(...) STR1(__VA_ARGS__)
#define MEM(op) int operator op(int) const GENPYBIND(__sel_M);
#define MEMN(op) S operator op(S const &) GENPYBIND(__sel_N);
#define MEMI(op) S &operator op(O) GENPYBIND(__sel_I);
#define FWD(op) O operator op(S const &, O const &) GENPYBIND(__sel_F);
#define REV(op) O *operator op(O const &, S const &) GENPYBIND(__sel_R);
#define INF(op) S &operator op(S &, double) GENPYBIND(__sel_I); S &operator op(double &, S) GENPYBIND(__sel_I);
#define HDR "#pragma once\n#include <genpybind/genpybind.h>\nnamespace n GENPYBIND(visible) {\nstruct O {};\nstruct P {};\nstruct GENPYBIND(__sel_S) S {\n" \
  STR(EACH(MEM)) "\n" STR(EACH(MEMN)) "\n" STR(EACHI(MEMI)) "\n" \
  STR(S operator+() const GENPYBIND(__sel_U); S operator-() GENPYBIND(__sel_U); S operator~() const GENPYBIND(__sel_U); S operator*() const; S *operator&(); bool operator!() const;) "\n" \
  STR(S &operator++(); S operator++(int); S &operator--(); S operator--(int); S &operator,(int); bool operator&&(int); bool operator||(int); int *operator->*(int); S *operator->(); int operator[](int);) "\n" \
  STR(void *operator new(decltype(sizeof(0))); void operator delete(void *); void *operator new[](decltype(sizeof(0))); void operator delete[](void *); S &operator=(S const &); S &operator=(S &&) GENPYBIND(visible); S &operator=(int);) "\n" \
  STR(S(S const &); int operator+(long) const = delete; friend S operator+(S, float); friend S operator-(float, S);) "\n};\n" \
  STR(EACH(FWD)) "\n" STR(EACH(REV)) "\n" STR(EACHI(INF)) "\n" \
  STR(bool operator!(P const &);) "\n" \
  STR(template <typename T> struct W { W operator+(W const &) const; }; template <typename T> bool operator==(W<T> const &, W<T> const &); template struct W<int>; extern template bool operator==<int>(W<int> const &, W<int> const &);) "\n" \
  "S operator+(S const &, P const &) = delete;\n}\nnamespace other GENPYBIND(visible) { int operator+(n::S, n::P); }\n"
uint8_t sM, sN, sI, sF, sR, sU, sS;
void setup(Env &e) {
  sM = e.anno("M", {nullptr, "hidden"}); sN = e.anno("N", {"visible", "hidden"}); sI = e.anno("I", {nullptr, "hidden", "visible(true)"});
  sF = e.anno("F", {nullptr, "hidden", "visible"}); sR = e.anno("R", {nullptr, "hidden", "visible"}); sU = e.anno("U", {nullptr, "visible(false)"});
  sS = e.anno("S", {nullptr, "expose_as(T)"});
}
/// One exposed operator in terms of what calling it does: python name, left type, operator, right type, result type.
struct Got { std::string py, l, op, r, ret; bool operator<(const Got &o) const { return std::tie(py, l, op, r, ret) < std::tie(o.py, o.l, o.op, o.r, o.ret); } bool operator==(const Got &o) const { return std::tie(py, l, op, r, ret) == std::tie(o.py, o.l, o.op, o.r, o.ret); } };
bool isId(const std::string &s) { for (char c : s) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_')) return false; return !s.empty(); }
/// Matches the lambda against an expected operator; `self` is the type of the first Python operand.
bool matches(const Call &c, const Got &w, bool reflected, bool unary) {
  if (c.fn != "def" || c.args.size() < 2 || c.args[0] != q(w.py)) return false;
  const std::string &t = c.args[1];
  if (t.rfind("[](", 0) != 0) return false;
  int d = 0; size_t e = 2; for (; e < t.size(); e++) { if (t[e] == '(') d++; if (t[e] == ')' && --d == 0) break; }
  Strs ps = splitArgs(t.substr(3, e - 3));
  const std::string t0 = reflected ? w.r : w.l, t1 = reflected ? w.l : w.r;
  if (ps.size() != (unary ? 1u : 2u)) return false;
  auto name = [](const std::string &p, const std::string &ty) { return p.rfind(ty, 0) == 0 ? p.substr(ty.size()) : std::string(); };
  std::string n0 = name(ps[0], t0), n1 = unary ? "" : name(ps[1], t1);
  if (!isId(n0) || (!unary && (!isId(n1) || n0 == n1))) return false;
  std::string body = unary ? w.op + n0 : reflected ? n1 + w.op + n0 : n0 + w.op + n1;
  return t.substr(e + 1) == "->" + w.ret + "{return" + body + ";}" && std::find(c.args.begin(), c.args.end(), "pybind11::is_operator()") != c.args.end();
}
void need(const GenCtx *c, bool want, const Got &w, bool reflected = false, bool unary = false) {
  size_t n = 0; for (auto &k : c->calls) n += matches(k, w, reflected, unary);
  gs_assert(n == (size_t)want, "each visible operator is exposed once under the Python name that computes the same thing, hidden ones are not");
}
void oracle(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *S = m.byType("::n::S"), *O = m.byType("::n::O"), *P = m.byType("::n::P"), *W = m.byType("::n::W<int>");
  gs_assert(S && O && P && W, "classes exposed"); if (!S || !O || !P || !W) return;
  bool M = !gs_concrete(sM), N = gs_concrete(sN) != 1, I = gs_concrete(sI) != 1, F = gs_concrete(sF) != 1, R = gs_concrete(sR) != 1, U = !gs_concrete(sU);
  gs_concrete(sS);
  const std::string s = "::n::S", o = "::n::O", cs = "const::n::S&", co = "const::n::O&";
  size_t total = 0;
  for (auto &b : BIN) {
    need(S, M, {b.fwd, cs, b.cpp, "int", "int"});
    need(S, N, {b.fwd, "::n::S&", b.cpp, cs, s});
    need(S, F, {b.fwd, cs, b.cpp, co, o}); need(O, F, {b.rev, cs, b.cpp, co, o}, true);
    need(S, R, {b.rev, co, b.cpp, cs, o + "*"}, true); need(O, R, {b.fwd, co, b.cpp, cs, o + "*"});
    total += M + N + F + R;
  }
  for (auto &b : INP) {
    need(S, I, {b.fwd, "::n::S&", b.cpp, o, "::n::S&"});
    need(S, I, {b.fwd, "::n::S&", b.cpp, "double", "::n::S&"});
    total += 2 * I;
  }
  for (auto &u : UN) { need(S, U, {u.fwd, std::string(u.cpp) == "-" ? "::n::S&" : cs, u.cpp, "", s}, false, true); total += U; }
  need(S, true, {"__add__", s, "+", "float", s}); need(S, true, {"__rsub__", "float", "-", s, s}, true); total += 2;
  need(W, true, {"__add__", "const::n::W<int>&", "+", "const::n::W<int>&", "::n::W<int>"}); need(W, true, {"__eq__", "const::n::W<int>&", "==", "const::n::W<int>&", "bool"});
  // nothing else
  auto ops = [&](const GenCtx *c) { size_t n = 0; for (auto &k : c->calls) { bool init = !k.args.empty() && k.args[0].rfind("pybind11::init<", 0) == 0; n += !init; } return n; };
  gs_assert(ops(S) == total, "operators without Python counterpart, deleted ones and assignments are not exposed");
  gs_assert(ops(O) == (size_t)(16 * F + 16 * R) && ops(P) == 0 && ops(W) == 2, "operators are attached to exactly the classes taking part");
  if (M && N && I && F && R && U) gs_cover("all"); else gs_cover("some");
}
RegE R0({"C11.q.operators", HDR, {}, setup, oracle});

// ---------------------------------------------------------------- stream insertion, visibility of the class
#define HDRS R"(#pragma once
#include <genpybind/genpybind.h>
namespace std { template <typename C> class basic_ostream {}; using ostream = basic_ostream<char>; }
namespace fake { struct basic_ostream {}; }
typedef struct {} Unnamed;
namespace n GENPYBIND(__sel_N) {
struct GENPYBIND(visible) A { int operator-(A) const; };
std::ostream &operator<<(std::ostream &, A const &) GENPYBIND(__sel_1);
struct GENPYBIND(visible) B { friend std::ostream &operator<<(std::ostream &, B const &) GENPYBIND(__sel_2); };
int operator<<(fake::basic_ostream &, B const &) GENPYBIND(__sel_3);
int operator<<(Unnamed &, B const &) GENPYBIND(__sel_3);
struct GENPYBIND(visible) D : A {};
struct GENPYBIND(hidden) H { int operator+(H) const GENPYBIND(visible); };
int operator+(H, A) GENPYBIND(visible);
/*@dummy*//*@*/
}
)"
uint8_t oN, o1, o2, o3;
void setupS(Env &e) { oN = e.anno("N", {"visible", nullptr, "hidden"}); o1 = e.anno("1", {nullptr, "expose_as(__str__)", "visible", "hidden, expose_as(__repr__)"}); o2 = e.anno("2", {nullptr, "expose_as(__repr__)", "hidden"}); o3 = e.anno("3", {nullptr, "visible", "hidden"}); }
void oracleS(Env &, const Result &r) {
  gs_assert(r.exit_code == 0, "valid input");
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  const GenCtx *A = m.byType("::n::A"), *B = m.byType("::n::B"), *D = m.byType("::n::D");
  gs_assert(A && B && D && !m.byType("::n::H"), "visible classes exposed"); if (!A || !B || !D) return;
  unsigned a = gs_concrete(o1), b = gs_concrete(o2), c = gs_concrete(o3); gs_concrete(oN);
  auto str = [&](const GenCtx *x, const char *type) { Strs v; for (auto &k : x->calls) for (auto &y : k.args) if (contains(y, "string_from_lshift")) { gs_assert(k.fn == "def" && k.args.size() == 2 && y == std::string("::genpybind::string_from_lshift<") + type + ">", "stream insertion uses the class itself"); v.push_back(k.args[0]); } return v; };
  gs_assert(str(A, "::n::A") == (a == 1 ? Strs{"\"__str__\""} : Strs{}), "stream insertion is exposed iff a name was requested");
  gs_assert(str(B, "::n::B") == (b == 1 ? Strs{"\"__repr__\""} : Strs{}), "stream insertion is exposed iff a name was requested");
  gs_assert(str(D, "::n::D").empty(), "operators of a base class belong to the base class");
  size_t shl = 0; for (auto &k : B->calls) if (!k.args.empty() && k.args[0] == "\"__rlshift__\"") shl++;
  gs_assert(shl == (size_t)(c != 2 ? 2 : 0), "left shifts by other types are ordinary operators");
  for (auto &k : A->calls) gs_assert(k.args.empty() || k.args[0] != "\"__lshift__\"", "stream insertion is no left shift");
  need(A, true, {"__sub__", "const::n::A&", "-", "::n::A", "int"});
  for (auto &k : A->calls) if (!k.args.empty() && k.args[0] == "\"__radd__\"") gs_cover("operator with hidden operand");
  gs_cover("streams");
}
RegE RS({"C11.q.streams", HDRS, {}, setupS, oracleS});
} // namespace
