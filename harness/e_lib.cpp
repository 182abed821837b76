#include "e_lib.h"
#include "e_ast.h"
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/Decl.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/Basic/Diagnostic.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Frontend/MultiplexConsumer.h>
#include <clang/Sema/Sema.h>
#include <clang/Sema/SemaConsumer.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <cstdio>
#include <iterator>
#include <dlfcn.h>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <sys/personality.h>

static std::vector<ECheck> &echecks() { static std::vector<ECheck> v; return v; }
static std::vector<UCheck> &uchecks() { static std::vector<UCheck> v; return v; }
void regE(const ECheck &c) { echecks().push_back(c); }
void regU(const UCheck &c) { uchecks().push_back(c); }

static Env g_env;
static Result g_res;
static const ECheck *g_check;
static std::string g_dir;
static bool g_hooked;
static int slurpTag;
int g_fail_open = -1;

static const std::string kLozenge = "\xE2\x97\x8A";

void Env::replaceRegion(const char *name, const std::string &by) {
  std::string open = std::string("/*@") + name + "*/", close = "/*@*/";
  size_t p = 0;
  while ((p = header.find(open, p)) != std::string::npos) {
    size_t e = header.find(close, p);
    header.replace(p, e + close.size() - p, by);
    p += by.size();
  }
}
void Env::replaceAnno(const char *name, const char *by) {
  std::string ph = std::string("GENPYBIND(__sel_") + name + ")";
  std::string to = by ? std::string("GENPYBIND(") + by + ")" : "";
  if (by) {
    // Text the preprocessor would not hand through unchanged: write the attribute out.
    int depth = 0; bool plain = true;
    for (const char *c = by; *c; c++) {
      if (*c == '(') depth++;
      if (*c == ')' && --depth < 0) plain = false;
      if (!isalnum((unsigned char)*c) && !strchr("_(), ", *c)) plain = false;
    }
    if (!plain || depth || strstr(by, "  ")) {
      std::string esc;
      for (const char *c = by; *c; c++) {
        if (*c == '"' || *c == '\\') { esc += '\\'; esc += *c; }
        else if (*c == '\n') esc += "\\n";
        else esc += *c;
      }
      to = "__attribute__((annotate(\"" + kLozenge + esc + "\")))";
    }
  }
  size_t p = 0;
  while ((p = header.find(ph, p)) != std::string::npos) { header.replace(p, ph.size(), to); p += to.size(); }
}

uint8_t Env::anno(const char *name, const std::vector<const char *> &alts, unsigned init) {
  uint8_t sel = gs_range(name, (unsigned)alts.size(), init);
  gs_note(name, alts[sel] ? alts[sel] : "<none>");
  annoSel(name, alts, sel);
  return sel;
}
void Env::annoSel(const char *name, const std::vector<const char *> &alts, uint8_t sel) {
  if (gs_replaying()) { replaceAnno(name, alts[sel]); return; }
  size_t maxlen = 0;
  std::vector<std::string> txt;
  for (const char *a : alts) { txt.push_back(a ? kLozenge + a : ""); maxlen = std::max(maxlen, txt.back().size()); }
  for (auto &slot : findAnno(*ctx, name, maxlen)) {
    for (size_t i = 0; i < maxlen; i++) {
      uint8_t tab[256]; memset(tab, ' ', sizeof tab);
      for (size_t k = 0; k < txt.size(); k++) if (i < txt[k].size()) tab[k] = (uint8_t)txt[k][i];
      gs_table(slot.data + i, sel, tab);
    }
    uint64_t lt[256]; memset(lt, 0, sizeof lt);
    for (size_t k = 0; k < txt.size(); k++) lt[k] = txt[k].size();
    uint64_t tmp; gs_table64(&tmp, sel, lt);
    *slot.len = (unsigned)tmp;
  }
}

uint8_t Env::text(const char *name, const std::vector<const char *> &alts, const std::function<void(uint8_t)> &apply, unsigned init) {
  uint8_t sel = gs_range(name, (unsigned)alts.size(), init);
  gs_note(name, alts[sel]);
  if (gs_replaying()) { replaceRegion(name, alts[sel]); return sel; }
  if (apply) apply(sel);
  return sel;
}

uint8_t Env::pick(const char *name, const std::vector<const char *> &alts, const std::function<void(uint8_t)> &apply, unsigned init) {
  uint8_t sel = gs_range(name, (unsigned)alts.size(), init);
  sel = (uint8_t)gs_concrete(sel);
  gs_note(name, alts[sel]);
  if (gs_replaying()) { replaceRegion(name, alts[sel]); return sel; }
  if (apply) apply(sel);
  return sel;
}

std::string Env::annoBytes(const char *name, const char *prefix, size_t n, const char *suffix, bool (*ok)(const char *, size_t)) {
  std::string bytes(n, 'a');
  gs_bytes(name, &bytes[0], n);
  gs_assume(ok(bytes.data(), n));
  if (gs_replaying()) { replaceAnno(name, (prefix + bytes + suffix).c_str()); return bytes; }
  std::string full = kLozenge + prefix + bytes + suffix;
  for (auto &slot : findAnno(*ctx, name, full.size())) memcpy(slot.data, full.data(), full.size());
  return bytes;
}

std::string Env::fileBytes(size_t off, size_t n, bool (*ok)(const char *, size_t)) {
  std::string bytes = file.substr(off, n);
  gs_bytes("file", &bytes[0], n);
  gs_assume(ok(bytes.data(), n));
  if (gs_replaying()) file.replace(off, n, bytes);
  else {
    auto &sm = ctx->getSourceManager();
    llvm::StringRef name = sm.getFileEntryRefForID(sm.getMainFileID())->getName();
    memcpy(const_cast<char *>(name.data()) + name.size() - file.size() + off, bytes.data(), n);
  }
  return bytes;
}

std::string Env::tokenBytes(const char *name, const char *placeholder, size_t off, size_t n, bool (*ok)(const char *, size_t)) {
  std::string t = placeholder;
  gs_bytes(name, &t[off], n);
  gs_assume(ok(&t[off], n));
  if (gs_replaying()) for (size_t p = 0; (p = header.find(placeholder, p)) != std::string::npos; p += t.size()) header.replace(p, t.size(), t);
  tokens.push_back({placeholder, t}); g_tokens.push_back(placeholder);
  return t;
}
/// Called by the model of clang::Lexer::getSpelling().
static bool g_read[16];
extern "C" const std::string *_gs_token(int i) { g_read[i] = true; return &g_env.tokens[i].second; }

void Env::annoText(const char *name, const std::string &text) {
  if (gs_replaying()) { replaceAnno(name, text.c_str()); return; }
  std::string full = kLozenge + text;
  for (auto &slot : findAnno(*ctx, name, full.size())) memcpy(slot.data, full.data(), full.size());
}

/// Comment source that clang's comment parser turns into the given text.
static std::string commentText(const std::string &t) { std::string r; for (char c : t) { if (strchr("\\@<&", c) && c) r += '\\'; r += c; } return r; }
std::string Env::docBytes(const char *name, const char *prefix, size_t n, const char *suffix, bool (*ok)(const char *, size_t)) {
  std::string bytes(n, 'a');
  gs_bytes(name, &bytes[0], n);
  gs_assume(ok(bytes.data(), n));
  std::string full = prefix + bytes + suffix;
  if (gs_replaying()) { replaceRegion(name, commentText(full)); return full; }
  for (char *b : findBrief(*ctx, name, full.size())) memcpy(b, full.data(), full.size());
  return full;
}
uint8_t Env::doc(const char *name, const std::vector<const char *> &alts) {
  uint8_t sel = gs_range(name, (unsigned)alts.size(), 0);
  gs_note(name, alts[sel]);
  if (gs_replaying()) { replaceRegion(name, commentText(alts[sel])); return sel; }
  size_t mx = 0; for (auto a : alts) mx = std::max(mx, strlen(a));
  for (char *b : findBrief(*ctx, name, mx)) for (size_t i = 0; i < mx; i++) {
    uint8_t tab[256]; memset(tab, 0, sizeof tab);
    for (size_t k = 0; k < alts.size(); k++) if (i < strlen(alts[k])) tab[k] = (uint8_t)alts[k][i];
    gs_table(b + i, sel, tab);
  }
  return sel;
}

clang::NamedDecl *Env::find(const char *q, unsigned nth) {
  auto v = findDecls(*ctx, q);
  if (v.size() <= nth) { fprintf(stderr, "no decl %s\n", q); abort(); }
  return v[nth];
}
uint8_t Env::access(const char *name, const std::vector<const char *> &decls, unsigned init) {
  return text(name, {"public", "protected", "private"}, [&](uint8_t sel) {
    for (const char *d : decls)
      for (auto *x : findDecls(*ctx, d)) x->setAccess((clang::AccessSpecifier)sel);
  }, init);
}

// ---------------------------------------------------------------- hook
namespace {
class Rec : public clang::DiagnosticConsumer {
public:
  explicit Rec(unsigned errors) { NumErrors = errors; }
  void HandleDiagnostic(clang::DiagnosticsEngine::Level l, const clang::Diagnostic &i) override {
    clang::DiagnosticConsumer::HandleDiagnostic(l, i);
    llvm::SmallString<256> m; i.FormatDiagnostic(m);
    if (l >= clang::DiagnosticsEngine::Error) g_res.errors.push_back(m.str().str());
    else if (l == clang::DiagnosticsEngine::Warning) g_res.warnings.push_back(m.str().str());
    if (getenv("GS_DEBUG")) fprintf(stderr, "diag %d: %s\n", (int)l, m.c_str());
  }
};
int g_stderr = -1;
std::string errFile() { return g_dir + "/err." + std::to_string(getpid()); }
class Hook : public clang::SemaConsumer {
  clang::CompilerInstance &ci; clang::Sema *sema = nullptr;
public:
  explicit Hook(clang::CompilerInstance &ci) : ci(ci) {}
  void InitializeSema(clang::Sema &s) override { sema = &s; }
  void ForgetSema() override { sema = nullptr; }
  void HandleTranslationUnit(clang::ASTContext &ctx) override {
    if (gs_replaying()) return;
    if (ci.getDiagnostics().hasErrorOccurred() && !g_check->broken) { fprintf(stderr, "template does not parse\n"); _exit(90); }
    g_env.ctx = &ctx; g_env.sema = sema; g_env.ci = &ci;
    if (!g_check->early) gs_start();
    g_hooked = true;
    if (g_check->capture) { fflush(stderr); g_stderr = dup(2); int fd = open(errFile().c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(fd, 2); close(fd); }
    ci.getDiagnostics().setClient(new Rec(ci.getDiagnostics().getClient()->getNumErrors()), true);
    if (g_check->early) {
      // Not read by way of Lexer::getSpelling(): make the token symbolic wherever there is a copy of it.
      for (size_t i = 0; i < g_env.tokens.size(); i++) if (!g_read[i]) { auto &t = g_env.tokens[i]; for (char *p : findHeap(t.first, g_env.header)) memcpy(p, t.second.data(), t.second.size()); }
    } else if (g_check->setup) g_check->setup(g_env);
  }
};
class HookAction : public clang::WrapperFrontendAction {
public:
  using WrapperFrontendAction::WrapperFrontendAction;
  std::unique_ptr<clang::ASTConsumer> CreateASTConsumer(clang::CompilerInstance &ci, llvm::StringRef f) override {
    std::vector<std::unique_ptr<clang::ASTConsumer>> v;
    v.push_back(std::make_unique<Hook>(ci));
    v.push_back(WrapperFrontendAction::CreateASTConsumer(ci, f));
    return std::make_unique<clang::MultiplexConsumer>(std::move(v));
  }
};
class HookFactory : public clang::tooling::FrontendActionFactory {
  clang::tooling::FrontendActionFactory *inner;
public:
  explicit HookFactory(clang::tooling::FrontendActionFactory *i) : inner(i) {}
  std::unique_ptr<clang::FrontendAction> create() override { return std::make_unique<HookAction>(inner->create()); }
};
/// Memory stream that keeps the shadows of the bytes written to it.
class MemStream : public llvm::raw_pwrite_stream {
  size_t idx; uint64_t pos = 0;
  void write_impl(const char *p, size_t n) override { g_res.outs[idx].append(p, n); pos += n; }
  void pwrite_impl(const char *, size_t, uint64_t) override { abort(); }
  uint64_t current_pos() const override { return pos; }
public:
  explicit MemStream(size_t i) : raw_pwrite_stream(true), idx(i) {}
  ~MemStream() override {}
};
} // namespace

extern "C" int __real__ZN5clang7tooling9ClangTool3runEPNS0_10ToolActionE(clang::tooling::ClangTool *t, clang::tooling::ToolAction *a);
extern "C" int __wrap__ZN5clang7tooling9ClangTool3runEPNS0_10ToolActionE(clang::tooling::ClangTool *t, clang::tooling::ToolAction *a) {
  if (!gs_replaying() && g_check && g_check->early) { gs_start(); if (g_check->setup) g_check->setup(g_env); }
  HookFactory f(static_cast<clang::tooling::FrontendActionFactory *>(a));
  return __real__ZN5clang7tooling9ClangTool3runEPNS0_10ToolActionE(t, &f);
}
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
extern "C" std::unique_ptr<llvm::raw_pwrite_stream> __real__ZN5clang16CompilerInstance16createOutputFileEN4llvm9StringRefEbbbb(clang::CompilerInstance *, llvm::StringRef, bool, bool, bool, bool);
extern "C" std::unique_ptr<llvm::raw_pwrite_stream> __wrap__ZN5clang16CompilerInstance16createOutputFileEN4llvm9StringRefEbbbb(clang::CompilerInstance *ci, llvm::StringRef path, bool b, bool r, bool t, bool m) {
  int idx = (int)g_res.created++;
  if (idx == g_fail_open) return __real__ZN5clang16CompilerInstance16createOutputFileEN4llvm9StringRefEbbbb(ci, g_dir + "/no/such/dir/out", b, r, t, m);
  if (gs_replaying() || !g_check || g_check->real_files) {
    std::string p = path.str();
    if (!gs_replaying()) { size_t k = p.rfind('/'); std::string d = g_dir + "/" + std::to_string(getpid()); mkdir(d.c_str(), 0700); p = d + p.substr(k); }
    return __real__ZN5clang16CompilerInstance16createOutputFileEN4llvm9StringRefEbbbb(ci, p, b, r, t, m);
  }
  g_res.outs.emplace_back();
  return std::make_unique<MemStream>(g_res.outs.size() - 1);
}

static std::vector<clang::tooling::ArgumentsAdjuster> g_adjusters;
#define ADJ _ZN5clang7tooling9ClangTool23appendArgumentsAdjusterESt8functionIFSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS9_EERKSB_N4llvm9StringRefEEE
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" void CAT(__real_, ADJ)(clang::tooling::ClangTool *, clang::tooling::ArgumentsAdjuster);
extern "C" void CAT(__wrap_, ADJ)(clang::tooling::ClangTool *t, clang::tooling::ArgumentsAdjuster a) {
  void *inv; memcpy(&inv, (char *)&a + 24, 8); // libstdc++: the invoker
  Dl_info i{}, self{}; dladdr(inv, &i); dladdr((void *)&slurpTag, &self);
  if (i.dli_fbase == self.dli_fbase) g_adjusters.push_back(a); // implemented by genpybind rather than by clang
  CAT(__real_, ADJ)(t, std::move(a));
}
std::vector<std::string> adjustArguments(std::vector<std::string> args) {
  for (auto &a : g_adjusters) args = a(args, "example.h");
  return args;
}
int genpybind_main(int argc, const char **argv);

static std::string slurp(const std::string &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

static int runTool(const std::string &hdr) {
  std::vector<std::string> a{"genpybind-tool", hdr};
  for (unsigned i = 0; i < g_check->nouts; i++) { a.push_back("-o"); a.push_back(g_dir + "/out" + std::to_string(i)); }
  for (auto &x : g_check->args) a.push_back(x);
  a.push_back("--");
  a.push_back("-I" GPV_REPO "/public");
  if (!g_check->extra.empty()) a.push_back("-I" + g_dir);
  for (auto &x : g_check->clang_args) a.push_back(x);
  std::vector<const char *> v;
  for (auto &x : a) v.push_back(x.c_str());
  return genpybind_main((int)v.size(), v.data());
}

int main(int argc, char **argv) {
  if (argc < 3) { 
    for (auto &c : uchecks()) printf("U %s\n", c.id);
    for (auto &c : echecks()) printf("E %s\n", c.id);
    return 2; }
  if (!gs_replaying()) { // fixed addresses: the exploration does not vary from run to run
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string id = argv[1];
  g_dir = argv[2]; // scratch directory
  ECheck dump{"@dump", nullptr, {}, nullptr, [](Env &, const Result &r) {
    if (r.exit_code) { printf("DUMP error\n"); return; }
    GenModel m = model(r); if (!m.ok) { printf("DUMP bad %s\n", m.why.c_str()); return; }
    for (auto &b : bindings(m)) printf("DUMP |%s\n", b.c_str());
    for (auto &w : r.warnings) printf("WARN %s\n", w.c_str());
  }};
  std::string dumped;
  if (id == "@dump") { dumped = slurp(argv[3]); dump.header = dumped.c_str(); for (int i = 4; i < argc; i++) dump.args.push_back(argv[i]); g_check = &dump; }
  for (auto &c : uchecks()) if (id == c.id) { gs_start(); c.run(); gs_finish(); }
  for (auto &c : echecks()) if (id == c.id) g_check = &c;
  if (!g_check) { fprintf(stderr, "unknown check %s\n", id.c_str()); return 91; }
  g_env.header = g_check->header;
  g_env.file = g_check->file;
  if (gs_replaying() && g_check->setup) g_check->setup(g_env);
  std::string hdr = g_dir + "/" + g_env.file;
  for (auto &x : g_check->extra) std::ofstream(g_dir + "/" + x.first) << x.second;
  for (auto &x : g_env.files) std::ofstream(g_dir + "/" + x).flush();
  if (gs_replaying()) {
    { std::ofstream f(hdr); f << g_env.header; }
    std::string ef = g_dir + "/stderr.txt";
    fflush(stderr);
    int old = dup(2), fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    g_res.exit_code = runTool(hdr);
    fflush(stderr); dup2(old, 2);
    g_res.err = slurp(ef);
    std::istringstream es(g_res.err); std::string l;
    while (std::getline(es, l)) {
      size_t p;
      if ((p = l.find(": fatal error: ")) != std::string::npos) g_res.errors.push_back(l.substr(p + 15));
      else if ((p = l.find(": error: ")) != std::string::npos) g_res.errors.push_back(l.substr(p + 9));
      else if (l.rfind("error: ", 0) == 0) g_res.errors.push_back(l.substr(7));
      else if ((p = l.find(": warning: ")) != std::string::npos) g_res.warnings.push_back(l.substr(p + 11));
    }
    for (unsigned i = 0; i < g_check->nouts; i++) {
      std::string p = g_dir + "/out" + std::to_string(i);
      bool ex = access(p.c_str(), F_OK) == 0;
      g_res.exists.push_back(ex);
      if (i < g_res.created) g_res.outs.push_back(slurp(p));
    }
    printf("REPLAY header:\n%s\nREPLAY exit=%d\n", g_env.header.c_str(), g_res.exit_code);
    for (auto &e : g_res.errors) printf("REPLAY error: %s\n", e.c_str());
  } else {
    std::ofstream(hdr) << g_env.header;
    g_res.exit_code = runTool(hdr);
    if (g_stderr != -1) { fflush(stderr); dup2(g_stderr, 2); g_res.err = slurp(errFile()); unlink(errFile().c_str()); }
    if (!g_hooked) { fprintf(stderr, "tool never reached the translation unit\n"); _exit(92); }
    if (g_check->real_files)
      for (unsigned i = 0; i < g_check->nouts; i++) {
        std::string d = g_dir + "/" + std::to_string(getpid()), p = d + "/out" + std::to_string(i);
        g_res.exists.push_back(access(p.c_str(), F_OK) == 0);
        if (i < g_res.created) g_res.outs.push_back(slurp(p));
        unlink(p.c_str());
        rmdir(d.c_str());
      }
    if (getenv("GS_DEBUG")) { for (auto &o : g_res.outs) fprintf(stderr, "--- out\n%s\n", o.c_str()); for (auto &e : g_res.errors) fprintf(stderr, "error: %s\n", e.c_str()); }
  }
  g_check->oracle(g_env, g_res);
  gs_finish();
}

// ---------------------------------------------------------------- oracle helpers
bool contains(const std::string &h, const std::string &n) { return countOf(h, n) > 0; }
size_t countOf(const std::string &h, const std::string &n) {
  size_t c = 0;
  if (h.size() < n.size()) return 0;
  for (size_t i = 0; i + n.size() <= h.size(); i++) if (h[i] == n[0] && memcmp(h.data() + i, n.data(), n.size()) == 0) c++;
  return c;
}
bool anyContains(const std::vector<std::string> &v, const std::string &n) { for (auto &s : v) if (contains(s, n)) return true; return false; }
std::string squeeze(const std::string &s) {
  std::string r; bool q = false;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (q) { r += c; if (c == '\\' && i + 1 < s.size()) r += s[++i]; else if (c == '"') q = false; continue; }
    if (c == '"') { q = true; r += c; continue; }
    if (c == ' ' || c == '\n' || c == '\t') continue;
    r += c;
  }
  return r;
}

static bool ident(unsigned char c) { return (bool)((c == '_') | ((unsigned char)(c - 'a') < 26) | ((unsigned char)(c - 'A') < 26) | ((unsigned char)(c - '0') < 10)); }
std::string q(const std::string &s) { return "\"" + s + "\""; }
static size_t skipStr(const std::string &s, size_t i) { // s[i]=='"'
  for (++i; i < s.size(); i++) { if (s[i] == '\\') i++; else if (s[i] == '"') return i; }
  return s.size();
}
std::vector<std::string> splitArgs(const std::string &s) {
  std::vector<std::string> r; std::string cur; int par = 0, ang = 0;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (c == '"') { size_t e = skipStr(s, i); cur += s.substr(i, e - i + 1); i = e; continue; }
    if (c == '(' || c == '[' || c == '{') par++;
    if (c == ')' || c == ']' || c == '}') par--;
    if (par == 0) {
      // Angle brackets only count where they open a template argument list.
      if (c == '<' && i && ident(s[i - 1])) ang++;
      else if (c == '>' && ang && s[i - 1] != '-') ang--;
    }
    if (c == ',' && par == 0 && ang == 0) { r.push_back(cur); cur.clear(); continue; }
    cur += c;
  }
  if (!cur.empty() || !r.empty()) r.push_back(cur);
  return r;
}
static void replaceAll(std::string &s, const std::string &a, const std::string &b) {
  for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b);
}
// normalise: pybind11 always spelled `pybind11::`
static std::string norm(const std::string &x) { std::string s = squeeze(x); replaceAll(s, "::pybind11::", "pybind11::"); return s; }
Call parseCall(const std::string &t) {
  Call c; c.text = t;
  size_t i = 0;
  // receiver.method
  size_t b = 0;
  while (i < t.size() && (ident(t[i]) || t[i] == ':' || t[i] == '.')) { if (t[i] == '.') { c.recv = t.substr(0, i); b = i + 1; } i++; }
  c.fn = t.substr(b, i - b);
  if (i < t.size() && t[i] == '<') {
    int d = 0; size_t s = i + 1;
    for (; i < t.size(); i++) { if (t[i] == '<') d++; if (t[i] == '>' && --d == 0) break; }
    c.tmpl = t.substr(s, i - s); i++;
  }
  if (i >= t.size() || t[i] != '(' || t.back() != ')') return c;
  c.args = splitArgs(t.substr(i + 1, t.size() - i - 2));
  c.ok = true;
  return c;
}
namespace { struct GenFn { std::string sig; std::vector<std::string> stmts; }; }
static std::vector<GenFn> genFns(const std::string &out, std::vector<std::string> &includes) {
  std::vector<GenFn> r; int depth = 0, par = 0; std::string cur;
  for (size_t i = 0; i < out.size(); i++) {
    char c = out[i];
    if (c == '"') { size_t e = skipStr(out, i); cur += out.substr(i, e - i + 1); i = e; continue; }
    if (depth == 0 && c == '#') { size_t s = i; while (i < out.size() && out[i] != '\n') i++; includes.push_back(out.substr(s, i - s)); continue; }
    if (c == '(') par++;
    if (c == ')') par--;
    if (c == '{') { depth++; if (depth == 1) { r.push_back({norm(cur), {}}); cur.clear(); continue; } }
    if (c == '}') { depth--; if (depth == 0) { if (!norm(cur).empty()) r.back().stmts.push_back(norm(cur)); cur.clear(); continue; } }
    if (c == '}' && depth == 1 && par == 0) { // a bare block is a statement of its own
      std::string b = norm(cur + c);
      if (b[0] == '{') { r.back().stmts.push_back(b); cur.clear(); continue; }
    }
    if (c == ';' && depth == 1 && par == 0) { r.back().stmts.push_back(norm(cur)); cur.clear(); continue; }
    if (c == ';' && depth == 0) { cur.clear(); continue; }
    cur += c;
  }
  return r;
}
GenModel model(const Result &res) {
  GenModel m; std::map<std::string, std::vector<std::string>> fns; const GenFn *mod = nullptr;
  std::vector<std::vector<GenFn>> all;
  for (auto &o : res.outs) all.push_back(genFns(o, m.includes));
  for (auto &v : all) for (auto &f : v) {
    if (f.sig.rfind("PYBIND11_MODULE(", 0) == 0) {
      if (mod) { m.why = "more than one module definition"; return m; }
      mod = &f; size_t e = f.sig.find(','); m.module = f.sig.substr(16, e - 16);
    } else {
      size_t p = f.sig.find('('), b = p;
      if (p == std::string::npos) { m.why = "strange function " + f.sig; return m; }
      while (b && ident(f.sig[b - 1])) b--;
      std::string n = f.sig.substr(b, p - b);
      if (n.rfind("void", 0) == 0) n = n.substr(4); // "voidexpose_context" after squeezing
      if (fns.count(n)) { m.why = "function defined twice: " + n; return m; }
      fns[n] = f.stmts;
    }
  }
  if (!mod) { m.why = "no module definition"; return m; }
  size_t callno = 0;
  for (auto &s : mod->stmts) {
    if (s.rfind("auto", 0) == 0 && s.find('=') != std::string::npos) {
      GenCtx c; size_t e = s.find('=');
      c.var = s.substr(4, e - 4); c.init = s.substr(e + 1); c.order = m.ctxs.size();
      Call k = parseCall(c.init);
      if (!k.ok) { c.kind = c.init == "root" ? "module" : "alias"; c.parent = c.init; }
      else if (k.fn == "pybind11::class_" || k.fn == "pybind11::enum_" || k.fn == "pybind11::exception") {
        c.kind = k.fn.substr(10); if (c.kind.back() == '_') c.kind.pop_back();
        c.tmpl = splitArgs(k.tmpl); c.type = c.tmpl.empty() ? "" : c.tmpl[0];
        if (k.args.size() > 0) c.parent = k.args[0];
        if (k.args.size() > 1) c.pyname = k.args[1];
        for (size_t i = 2; i < k.args.size(); i++) c.extra.push_back(k.args[i]);
      } else if (k.fn == "def_submodule") { c.kind = "submodule"; c.parent = k.recv; if (!k.args.empty()) c.pyname = k.args[0]; }
      else { c.kind = "?"; }
      m.ctxs.push_back(c);
      continue;
    }
    Call k = parseCall(s);
    bool hit = false;
    if (k.ok && fns.count(k.fn) && !k.args.empty())
      for (auto &c : m.ctxs) if (c.var == k.args[0]) {
        if (c.called) { m.why = "context populated twice: " + c.var; return m; }
        c.called = true; c.call_order = callno++; c.stmts = fns[k.fn]; hit = true; break;
      }
    if (!hit) m.tail.push_back(s);
  }
  for (auto &c : m.ctxs) for (auto &s : c.stmts) if (s != "(void)context") c.calls.push_back(parseCall(s));
  m.ok = true;
  return m;
}
const GenCtx *GenModel::byType(const std::string &t) const { const GenCtx *r = nullptr; for (auto &c : ctxs) if (c.type == t) { if (r) { gs_assert(false, "type has two context objects"); } r = &c; } return r; }
const GenCtx *GenModel::byVar(const std::string &v) const { for (auto &c : ctxs) if (c.var == v) return &c; return nullptr; }
const GenCtx *GenModel::scope(const GenCtx *c) const { while (c && c->kind == "alias") c = byVar(c->parent); return c; }
std::vector<const Call *> GenModel::calls(const GenCtx *c, const std::string &fn, const std::string &name) const {
  std::vector<const Call *> r; if (!c) return r;
  for (auto &k : c->calls) if (k.fn == fn && !k.args.empty() && k.args[0] == name) r.push_back(&k);
  return r;
}
std::vector<const Call *> GenModel::named(const GenCtx *c, const std::string &name) const {
  std::vector<const Call *> r; if (!c) return r;
  for (auto &k : c->calls) if (!k.args.empty() && k.args[0] == name) r.push_back(&k);
  return r;
}
std::string GenModel::path(const GenCtx *c) const {
  c = scope(c);
  if (!c || c->kind == "module") return "";
  return path(byVar(c->parent)) + "." + (c->pyname.size() >= 2 ? c->pyname.substr(1, c->pyname.size() - 2) : c->pyname);
}
std::vector<GenModel::Ref> GenModel::refs(const std::string &n) const {
  std::vector<Ref> r;
  for (auto &c : ctxs) for (auto &k : c.calls) if (contains(k.text, n)) r.push_back({&c, &k});
  return r;
}

std::vector<std::string> bindings(const GenModel &m) {
  std::vector<std::string> r;
  for (auto &c : m.ctxs) {
    if (c.kind == "class" || c.kind == "enum" || c.kind == "submodule" || c.kind == "exception" || c.kind == "?") {
      std::string e = m.path(m.byVar(c.parent)) + "|" + c.kind + "<";
      for (auto &t : c.tmpl) e += (&t == &c.tmpl[0] ? "" : ",") + t;
      e += ">(" + c.pyname; for (auto &x : c.extra) e += "," + x;
      r.push_back(e + ")");
    }
  }
  for (auto &c : m.ctxs) for (auto &s : c.stmts) if (s != "(void)context") r.push_back(m.path(&c) + "|" + s);
  for (auto &s : m.tail) r.push_back("*|" + s);
  return r;
}
static std::vector<uint8_t> zooSel;
void zooSetup(Env &e, const Zoo &z) {
  unsigned groups = 0; for (auto &s : z.sites) groups = std::max(groups, s.group + 1);
  zooSel.clear();
  for (unsigned g = 0; g < groups; g++) {
    unsigned n = 1; for (auto &s : z.sites) if (s.group == g) n += (unsigned)s.alts.size() - 1;
    std::string nm = "case" + std::to_string(g);
    uint8_t master = gs_range(strdup(nm.c_str()), n, 0);
    zooSel.push_back(master);
    unsigned at = 1;
    for (auto &s : z.sites) if (s.group == g) {
      uint8_t tab[256]; memset(tab, 0, sizeof tab);
      for (size_t i = 1; i < s.alts.size(); i++) tab[at++] = (uint8_t)i;
      uint8_t v; gs_table(&v, master, tab);
      e.annoSel(s.name, s.alts, v);
    }
  }
}
static std::string zooKey(const std::string &e) { // bindings with the same key are overloads: their order matters
  size_t b = e.find('|'); Call c = parseCall(e.substr(b + 1));
  if (c.recv != "context" || c.args.empty()) return "";
  return e.substr(0, b) + "|" + (c.args[0][0] == '"' ? c.args[0] : "init");
}
void zooOracle(Env &, const Result &r, const Zoo &z) {
  std::vector<bool> gone(z.base.size(), false); std::multimap<int, const char *> add; bool error = false;
  for (unsigned g = 0; g < zooSel.size(); g++) {
    unsigned c = (unsigned)gs_concrete(zooSel[g]), at = 1;
    for (auto &s : z.sites) if (s.group == g) for (size_t i = 1; i < s.alts.size(); i++) if (at++ == c) {
      gs_note(s.name, s.alts[i] ? s.alts[i] : "<none>");
      const ZDelta &d = s.deltas[i]; error |= d.error;
      for (int k : d.removed) gone[k] = true;
      for (auto &k : d.added) add.insert({k.first, k.second});
    }
  }
  if (error) {
    gs_assert(r.exit_code != 0 && !r.errors.empty(), "the mistake is reported and the exit status tells");
    gs_cover("error"); return;
  }
  gs_assert(r.exit_code == 0 && r.errors.empty(), "valid input is accepted"); if (r.exit_code) return;
  GenModel m = model(r); gs_assert(m.ok, "module shape"); if (!m.ok) return;
  std::vector<std::string> want, got = bindings(m);
  for (int i = 0; i <= (int)z.base.size(); i++) {
    for (auto k = add.lower_bound(i); k != add.upper_bound(i); ++k) want.push_back(k->second);
    if (i < (int)z.base.size() && !gone[i]) want.push_back(z.base[i]);
  }
  auto sorted = [](std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; };
  auto a = sorted(want), b = sorted(got);
  if (a != b) {
    std::vector<std::string> d; std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d));
    if (!d.empty()) gs_note("missing", d[0].c_str());
    d.clear(); std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(d));
    if (!d.empty()) gs_note("unexpected", d[0].c_str());
  }
  gs_assert(a == b, "the module binds exactly what the annotations ask for");
  std::map<std::string, std::vector<std::string>> wk, gk;
  for (auto &x : want) if (auto k = zooKey(x); !k.empty()) wk[k].push_back(x);
  for (auto &x : got) if (auto k = zooKey(x); !k.empty()) gk[k].push_back(x);
  gs_assert(wk == gk, "overloads are registered in the order of their declarations");
  gs_cover("bindings");
}
void setUpOrder(const GenModel &m) {
  for (auto &c : m.ctxs) {
    if (c.kind == "module") continue;
    const GenCtx *p = m.byVar(c.parent);
    gs_assert(p && p->order < c.order, "enclosing scope is created before what it contains");
    for (size_t i = 1; i < c.tmpl.size(); i++) {
      const GenCtx *b = m.byType(c.tmpl[i]);
      gs_assert(!b || b->order < c.order, "base class is registered before the derived class");
    }
    gs_assert(c.called, "every context is populated");
  }
}
