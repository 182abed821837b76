// End-to-end harness: runs the real genpybind-tool main() on a header template
// whose annotations (and other AST facts) are symbolic.
#pragma once
#include "gs.h"
#include <functional>
#include <string>
#include <vector>

namespace clang { class ASTContext; class Sema; class NamedDecl; class Decl; class CompilerInstance; }

struct Result {
  int exit_code = -1;
  std::vector<std::string> outs;     // text written to each -o file (in order of creation)
  std::vector<std::string> errors;   // messages of error diagnostics
  std::vector<std::string> warnings;
  std::string err;                   // standard error (ECheck::capture only)
  unsigned created = 0;              // output files created
  std::vector<bool> exists;          // real-file mode: file present after the run
  const std::string &out() const { static const std::string e; return outs.empty() ? e : outs[0]; }
};

struct Env {
  clang::ASTContext *ctx = nullptr;   // null while replaying
  clang::Sema *sema = nullptr;
  clang::CompilerInstance *ci = nullptr;
  std::string header;                 // template text; replay substitutes into it

  /// Annotation placeholder GENPYBIND(__sel_<name>): symbolic choice of text.
  /// nullptr = declaration carries no annotation.
  uint8_t anno(const char *name, const std::vector<const char *> &alts, unsigned init = 0);
  /// Same, with the choice given.
  void annoSel(const char *name, const std::vector<const char *> &alts, uint8_t sel);
  /// Text region /*@name*/default/*@*/ with alternatives; `apply` makes the
  /// already parsed AST symbolic accordingly (may be null: region irrelevant to AST).
  uint8_t text(const char *name, const std::vector<const char *> &alts,
               const std::function<void(uint8_t)> &apply, unsigned init = 0);
  /// Annotation whose text has symbolic bytes: GENPYBIND(__sel_name)
  /// prefix + n symbolic bytes (assumed by `ok`) + suffix.
  std::string annoBytes(const char *name, const char *prefix, size_t n, const char *suffix, bool (*ok)(const char *, size_t));
  /// Makes the n characters of the header's file name from `off` on symbolic (assumed by `ok`).
  std::string fileBytes(size_t off, size_t n, bool (*ok)(const char *, size_t));
  std::string file;                   // file name of the header
  /// Annotation with the given (possibly symbolic) text.
  void annoText(const char *name, const std::string &text);
  /// Symbolic access specifier of the named declarations; region /*@name*/public/*@*/.
  uint8_t access(const char *name, const std::vector<const char *> &decls, unsigned init = 0); // 0 public 1 protected 2 private
  /// Same as text(), but the choice is case-split by the solver first so that
  /// `apply` may change AST facts which clang's own (uninstrumented) code reads.
  uint8_t pick(const char *name, const std::vector<const char *> &alts,
               const std::function<void(uint8_t)> &apply, unsigned init = 0);
  /// Comment text /*@name*/.../*@*/ with the given prefix, n symbolic bytes and suffix.
  std::string docBytes(const char *name, const char *prefix, size_t n, const char *suffix, bool (*ok)(const char *, size_t));
  uint8_t doc(const char *name, const std::vector<const char *> &alts);
  /// Text that the tool reads off tokens (spelling `placeholder`): the n bytes from `off` on become symbolic
  /// (checks with ECheck::early only). Returns the spelling.
  std::string tokenBytes(const char *name, const char *placeholder, size_t off, size_t n, bool (*ok)(const char *, size_t));
  std::vector<std::pair<std::string, std::string>> tokens; // placeholder, spelling
  std::vector<std::string> files;     // further (empty) files, relative to the header
  clang::NamedDecl *find(const char *qualified, unsigned nth = 0);
  void replaceRegion(const char *name, const std::string &by);
  void replaceAnno(const char *name, const char *by);
};

struct ECheck {
  const char *id;
  const char *header;
  std::vector<std::string> args; // extra tool arguments (before "--")
  void (*setup)(Env &);
  void (*oracle)(Env &, const Result &);
  unsigned nouts = 1;
  bool real_files = false;
  std::vector<std::string> clang_args = {};
  const char *file = "example.h"; // name of the header
  bool broken = false;            // the header has compile errors
  bool early = false;             // exploration starts before the header is parsed (Env::ctx is null in setup)
  std::vector<std::pair<const char *, const char *>> extra = {}; // further files, in the include path
  bool capture = false;           // record standard error in Result::err
};
struct UCheck { const char *id; void (*run)(); };
void regE(const ECheck &);
void regU(const UCheck &);
struct RegE { RegE(ECheck c) { regE(c); } };
struct RegU { RegU(const char *id, void (*f)()) { regU({id, f}); } };

/// Applies the command line adjusters that genpybind itself implements, in the order they are registered.
std::vector<std::string> adjustArguments(std::vector<std::string> args);
/// Injected fault: opening the n-th output file fails (its directory does not exist); -1: none.
extern int g_fail_open;

// helpers for oracles
bool contains(const std::string &hay, const std::string &needle);
size_t countOf(const std::string &hay, const std::string &needle);
/// Remove all blanks/newlines outside of string literals.
std::string squeeze(const std::string &s);
/// A call statement of generated code: [recv.]method[<tmpl>](args...)
struct Call {
  std::string text;              // whole statement, squeezed
  std::string recv, fn, tmpl;
  std::vector<std::string> args; // squeezed, top-level comma separated
  bool ok = false;
};
Call parseCall(const std::string &squeezed);
/// A context object of the generated module.
struct GenCtx {
  std::string var;     // `context_n_A`
  std::string init;    // initialiser, squeezed and normalised
  std::string kind;    // "module", "class", "enum", "alias" (transparent namespace), "submodule"
  std::string type;    // `::n::A`
  std::vector<std::string> tmpl; // all template arguments of class_<...>
  std::string parent;  // variable the context is attached to
  std::string pyname;  // literal, with quotes
  std::vector<std::string> extra; // remaining initialiser arguments
  size_t order = 0;
  std::vector<std::string> stmts; // statements of its expose function
  std::vector<Call> calls;
  bool called = false; size_t call_order = 0;
};
struct GenModel {
  bool ok = false; std::string why;
  std::string module;            // name given to PYBIND11_MODULE
  std::vector<GenCtx> ctxs;      // in construction order
  std::vector<std::string> tail; // other statements of the module body
  std::vector<std::string> includes;
  const GenCtx *byType(const std::string &cpp) const; // nullptr if absent
  const GenCtx *byVar(const std::string &v) const;
  /// Scope a context's statements end up in when transparent namespaces are skipped.
  const GenCtx *scope(const GenCtx *c) const;
  /// all calls in every context whose function is `fn` and first argument `name` (quoted)
  std::vector<const Call *> calls(const GenCtx *c, const std::string &fn, const std::string &name) const;
  std::vector<const Call *> named(const GenCtx *c, const std::string &name) const;
  /// Python path of a context below the module, e.g. ".sub.A" ("" for the module itself).
  std::string path(const GenCtx *c) const;
  /// Every statement (of any context) that mentions `needle`, with its context.
  struct Ref { const GenCtx *ctx; const Call *call; };
  std::vector<Ref> refs(const std::string &needle) const;
};
GenModel model(const Result &);
std::vector<std::string> splitArgs(const std::string &s);
std::string q(const std::string &s); // quoted
bool anyContains(const std::vector<std::string> &v, const std::string &needle);

// ---------------------------------------------------------------- zoo: exact bindings of a fixed header under symbolic annotations
/// Canonical list of everything the module binds: "path|statement".
std::vector<std::string> bindings(const GenModel &);
struct ZDelta { bool error; std::vector<int> removed; std::vector<std::pair<int, const char *>> added; }; // relative to the base list
struct ZSite { const char *name; unsigned group; std::vector<const char *> alts; std::vector<ZDelta> deltas; };
struct Zoo { std::vector<const char *> base; std::vector<ZSite> sites; };
void zooSetup(Env &, const Zoo &);
void zooOracle(Env &, const Result &, const Zoo &);
/// Every context is created after its scope and its bases and is populated.
void setUpOrder(const GenModel &);
