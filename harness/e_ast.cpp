// AST lookups for the end-to-end harness.  Compiled without instrumentation in
// both builds: it only ever sees concrete data.
#include "e_ast.h"
#include <clang/AST/ASTContext.h>
#include <clang/AST/Attr.h>
#include <clang/AST/RawCommentList.h>
#include <clang/Basic/SourceManager.h>
#include <clang/AST/Decl.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <clang/Lex/Preprocessor.h>

template <typename Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
struct LenTag { typedef unsigned clang::AnnotateAttr::*type; friend type get(LenTag); };
template struct Rob<LenTag, &clang::AnnotateAttr::annotationLength>;

struct BriefTag { typedef const char *clang::RawComment::*type; friend type get(BriefTag); };
template struct Rob<BriefTag, &clang::RawComment::BriefText>;
namespace {
struct AttrFinder : clang::RecursiveASTVisitor<AttrFinder> {
  std::string want; std::vector<clang::AnnotateAttr *> found;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitDecl(clang::Decl *d) {
    for (auto *a : d->specific_attrs<clang::AnnotateAttr>())
      if (a->getAnnotation() == want && std::find(found.begin(), found.end(), a) == found.end()) found.push_back(a);
    return true;
  }
};
struct DeclFinder : clang::RecursiveASTVisitor<DeclFinder> {
  std::string want; std::vector<clang::NamedDecl *> found;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitNamedDecl(clang::NamedDecl *d) { if (d->getQualifiedNameAsString() == want) found.push_back(d); return true; }
};
} // namespace

std::vector<AnnoSlot> findAnno(clang::ASTContext &ctx, const char *name, size_t maxlen) {
  AttrFinder f; f.want = std::string("\xE2\x97\x8A__sel_") + name;
  f.TraverseDecl(ctx.getTranslationUnitDecl());
  if (f.found.empty()) { fprintf(stderr, "no placeholder %s\n", name); abort(); }
  std::vector<AnnoSlot> r;
  for (auto *a : f.found) {
    a->setAnnotation(ctx, std::string(maxlen, ' '));
    r.push_back({const_cast<char *>(a->getAnnotation().data()), &(a->*get(LenTag()))});
  }
  return r;
}
std::vector<std::string> g_tokens;
std::vector<char *> findHeap(const std::string &text, const std::string &except) {
  std::vector<char *> r; FILE *f = fopen("/proc/self/maps", "r"); char line[512];
  while (f && fgets(line, sizeof line, f)) {
    if (!strstr(line, "[heap]")) continue;
    unsigned long b, e; if (sscanf(line, "%lx-%lx", &b, &e) != 2) continue;
    for (char *p = (char *)b; (p = (char *)memmem(p, (char *)e - p, text.data(), text.size())); p += text.size())
      if (p != text.data() && !(p >= except.data() && p < except.data() + except.size())) r.push_back(p);
  }
  if (f) fclose(f);
  return r;
}
std::vector<clang::NamedDecl *> findDecls(clang::ASTContext &ctx, const char *q) {
  // "name#k": only the k-th declaration of that name
  DeclFinder f; f.want = q; size_t h = f.want.find('#'); int nth = -1;
  if (h != std::string::npos) { nth = atoi(f.want.c_str() + h + 1); f.want.resize(h); }
  f.TraverseDecl(ctx.getTranslationUnitDecl());
  if (nth >= 0) { if ((size_t)nth < f.found.size()) f.found = {f.found[nth]}; else f.found.clear(); }
  if (f.found.empty()) { fprintf(stderr, "no decl %s\n", q); abort(); }
  return f.found;
}
std::vector<char *> findBrief(clang::ASTContext &ctx, const char *name, size_t maxlen) {
  std::vector<char *> r; std::string mark = std::string("/*@") + name + "*/";
  auto &sm = ctx.getSourceManager();
  if (auto *cs = ctx.Comments.getCommentsInFile(sm.getMainFileID()))
    for (auto &kv : *cs) {
      clang::RawComment *c = kv.second;
      if (!c->getRawText(sm).contains(mark)) continue;
      c->getBriefText(ctx);
      char *b = (char *)ctx.Allocate(maxlen + 1, 1); for (size_t i = 0; i <= maxlen; i++) b[i] = 0;
      c->*get(BriefTag()) = b; r.push_back(b);
    }
  if (r.empty()) { fprintf(stderr, "no comment %s\n", name); abort(); }
  return r;
}
extern "C" {
llvm::raw_ostream &_gs_raw_write(llvm::raw_ostream *os, const char *p, size_t n) { return os->write(p, n); }
int _gs_token_index(const clang::Token &t, const clang::SourceManager &sm, const clang::LangOptions &lo) {
  std::string s = clang::Lexer::getSpelling(t, sm, lo);
  for (size_t i = 0; i < g_tokens.size(); i++) if (g_tokens[i] == s) return (int)i;
  return -1;
}
typedef std::string (*Spelling)(const clang::Token &, const clang::SourceManager &, const clang::LangOptions &, bool *);
Spelling _gs_spelling() { return &clang::Lexer::getSpelling; }
bool _gs_consumeint(llvm::StringRef &Str, unsigned Radix, unsigned long long &Result) { return llvm::consumeUnsignedInteger(Str, Radix, Result); }
bool _gs_getint(llvm::StringRef Str, unsigned Radix, unsigned long long &Result) { return llvm::getAsUnsignedInteger(Str, Radix, Result); }
}
