From 1bdd2f08b6a2580646d2784753c6162f91bb03d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:30 +0000
Subject: [PATCH 01/28] fix: make identifiers of generated contexts unique

A discriminated identifier (`context_a_b_2` for a second `context_a_b`) could
coincide with the identifier of another type (`a_b_2`), which led to
redeclared variables and functions in the generated code.
---
 src/expose.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 022342f..6248b85 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -44,6 +44,7 @@
 #include <llvm/ADT/SmallVector.h>
 #include <llvm/ADT/StringExtras.h>
 #include <llvm/ADT/StringMap.h>
+#include <llvm/ADT/StringSet.h>
 #include <llvm/ADT/iterator.h>
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/ErrorHandling.h>
@@ -63,14 +64,14 @@ namespace {
 
 class DiscriminateIdentifiers {
   llvm::StringMap<unsigned> discriminators;
+  llvm::StringSet<> used;
 
 public:
   std::string discriminate(llvm::StringRef name) {
-    auto it = discriminators.try_emplace(name, 0).first;
-    const unsigned discriminator = ++it->getValue();
     std::string result{name};
-    if (discriminator != 1)
-      result += "_" + llvm::utostr(discriminator);
+    // The name with discriminator may itself coincide with another identifier.
+    while (!used.insert(result).second)
+      result = name.str() + "_" + llvm::utostr(++discriminators[name] + 1);
     return result;
   }
 };
-- 
2.43.0


From adeadfd6dd3a614c9b3e10896f90cd138b9dd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:30 +0000
Subject: [PATCH 02/28] fix: apply noconvert and required to the named
 parameter after args

The parameter index was not advanced for `pybind11::args` and
`pybind11::kwargs` parameters, so the annotation was applied to a different
parameter or got lost.
---
 src/expose.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 6248b85..e223dff 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -340,8 +340,10 @@ static void emitParameters(llvm::raw_ostream &os,
     if (llvm::StringRef kind = getPybind11ArgsType(param->getType());
         kind == "kwargs") {
       last_kwargs_param = param;
+      ++index;
       continue;
     } else if (!kind.empty()) {
+      ++index;
       continue;
     }
     if (last_kwargs_param != nullptr) {
-- 
2.43.0


From ef1c31be28661e304b5acd073e4068098bf635e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:30 +0000
Subject: [PATCH 03/28] fix: do not count 'this' for keep_alive on static
 member functions

There is no implicit object parameter, so the indices passed to pybind11
referred to the wrong arguments.
---
 src/annotated_decl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index 66583bd..fec2b43 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -627,8 +627,10 @@ bool genpybind::processAnnotation(const clang::NamedDecl *decl,
     return dispatch
         .binary(LiteralValue::Kind::String,
                 [&](const LiteralValue &first, const LiteralValue &second) {
+                  const auto *method =
+                      llvm::dyn_cast<clang::CXXMethodDecl>(function_decl);
                   auto lookup = make_parameter_indices_lookup(
-                      true, llvm::isa<clang::CXXMethodDecl>(function_decl));
+                      true, method != nullptr && !method->isStatic());
                   auto first_idx = lookup(first.getString());
                   auto second_idx = lookup(second.getString());
                   if (!first_idx.has_value()) {
-- 
2.43.0


From 036c4720eca421c182fbd767a3c5050696749037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:30 +0000
Subject: [PATCH 04/28] fix: leave moved-from LiteralValue in a valid state

Move assignment from a string value to a non-string value left the source
with kind `String` but without a string.
---
 src/annotations/literal_value.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/annotations/literal_value.cpp b/src/annotations/literal_value.cpp
index dbb8a98..ea73ead 100644
--- a/src/annotations/literal_value.cpp
+++ b/src/annotations/literal_value.cpp
@@ -86,6 +86,7 @@ LiteralValue &LiteralValue::operator=(LiteralValue &&other) noexcept {
     if (!isString()) {
       kind = Kind::String;
       string = nullptr;
+      other.kind = Kind::Nothing;
     }
     std::swap(string, other.string);
   } else {
-- 
2.43.0


From 242c1bcfb7080f5b6117412179c1db65d7f28e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:31 +0000
Subject: [PATCH 05/28] fix: allow LiteralValue::setString to be called with
 its own string

The old string was freed before its contents were copied.
---
 src/annotations/literal_value.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/annotations/literal_value.cpp b/src/annotations/literal_value.cpp
index ea73ead..04b020d 100644
--- a/src/annotations/literal_value.cpp
+++ b/src/annotations/literal_value.cpp
@@ -103,9 +103,11 @@ void LiteralValue::setNothing() {
 }
 
 void LiteralValue::setString(llvm::StringRef value) {
+  // `value` might refer to the current string.
+  auto *new_string = new std::string(value);
   setNothing();
   kind = Kind::String;
-  string = new std::string(value);
+  string = new_string;
 }
 
 void LiteralValue::setUnsigned(unsigned value) {
-- 
2.43.0


From 2835754fdfb3de09ae8164e00d7b8921a13f94e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:31 +0000
Subject: [PATCH 06/28] fix: do not expose operators without counterpart in
 Python

`operator!` and augmented assignments with the record as right operand were
exposed as methods with an empty name.
---
 src/expose.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index e223dff..73d7277 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1175,10 +1175,14 @@ void RecordExposer::emitOperator(llvm::raw_ostream &os,
       lhs_param_type = lhs_param_type->getPointeeType();
     return !ast_context.hasSameUnqualifiedType(lhs_param_type, record_type);
   }();
+  // Skip operators that have no counterpart in Python.
+  const llvm::StringRef name =
+      unary ? pythonUnaryOperatorName(kind)
+            : pythonBinaryOperatorName(kind, reverse_parameters);
+  if (name.empty())
+    return;
   os << "context.def(";
-  emitStringLiteral(os,
-                    unary ? pythonUnaryOperatorName(kind)
-                          : pythonBinaryOperatorName(kind, reverse_parameters));
+  emitStringLiteral(os, name);
   os << ", ";
   emitOperatorDefinition(os, ast_context, kind, parameter_types,
                          function->getReturnType(), reverse_parameters);
-- 
2.43.0


From a5cc13c03a810f4af7111c215b99f3bce0b102af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:31 +0000
Subject: [PATCH 07/28] fix: handle C language standards when selecting the C++
 standard

E.g. `-std=c11` was turned into the invalid `-std=c11++17`.
---
 src/tool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tool.cpp b/src/tool.cpp
index 9967562..90e2e1e 100644
--- a/src/tool.cpp
+++ b/src/tool.cpp
@@ -407,7 +407,8 @@ clang::tooling::ArgumentsAdjuster getCpp17OrLaterAdjuster() {
       if (arg.consume_front("-std=")) {
         // HACK: Simplistic check to also allow, e.g., gnu++2a.
         auto parts = arg.split("++");
-        language_standard_prefix = parts.first;
+        language_standard_prefix =
+            parts.first.starts_with("gnu") ? "gnu" : "c";
         uses_later_standard = parts.second.starts_with("2");
         if (!uses_later_standard)
           continue;
-- 
2.43.0


From fba2047d37f9f1615a66c7a056fc1c69bb85bbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:31 +0000
Subject: [PATCH 08/28] fix: expose bases of inlined bases before the derived
 class

Bases of inlined bases are passed to `pybind11::class_`, but were not taken
into account when sorting contexts, so that a relocated base could be
registered after the derived class (which fails when the module is imported).
---
 .../genpybind/decl_context_graph_processing.h |  1 +
 src/decl_context_graph_processing.cpp         | 34 +++++++++++++------
 src/expose.cpp                                |  2 +-
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/genpybind/decl_context_graph_processing.h b/include/genpybind/decl_context_graph_processing.h
index 2296bf1..4b170f3 100644
--- a/include/genpybind/decl_context_graph_processing.h
+++ b/include/genpybind/decl_context_graph_processing.h
@@ -112,6 +112,7 @@ void reportUnreachableVisibleDeclContexts(
 /// `cycle` is set to one declaration context on this cycle.
 llvm::SmallVector<const clang::DeclContext *, 0>
 declContextsSortedByDependencies(const DeclContextGraph &graph,
+                                 const AnnotationStorage &annotations,
                                  const EnclosingScopeMap &parents,
                                  const clang::SourceManager &source_manager,
                                  const clang::DeclContext **cycle);
diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index fb48b58..9b6e9f2 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -442,7 +442,8 @@ lexicographicalTopologicalSort(const GraphType &graph,
 
 llvm::SmallVector<const clang::DeclContext *, 0>
 genpybind::declContextsSortedByDependencies(
-    const DeclContextGraph &graph, const EnclosingScopeMap &parents,
+    const DeclContextGraph &graph, const AnnotationStorage &annotations,
+    const EnclosingScopeMap &parents,
     const clang::SourceManager &source_manager,
     const clang::DeclContext **cycle) {
   auto find_predecessors = [&](const DeclContextNode *node,
@@ -456,17 +457,28 @@ genpybind::declContextsSortedByDependencies(
       add_predecessor(parent_node);
     }
     // Add all exposed (i.e. part of graph) public bases as dependencies.
-    if (const auto *decl = llvm::dyn_cast<clang::CXXRecordDecl>(decl_context)) {
-      for (const clang::CXXBaseSpecifier &base : decl->bases()) {
-        if (base.getAccessSpecifier() != clang::AS_public)
-          continue;
-        const clang::TagDecl *base_decl = base.getType()->getAsTagDecl();
-        if (const DeclContextNode *base_node =
-                graph.getNode(base_decl->getDefinition())) {
-          assert(base_node != nullptr && "base should be in graph");
-          add_predecessor(base_node);
+    // This includes the bases of inlined bases (see `RecordExposer`).
+    if (const auto *record =
+            llvm::dyn_cast<clang::CXXRecordDecl>(decl_context)) {
+      const auto inlining_policy =
+          RecordInliningPolicy::createFromAnnotations(annotations, record);
+      auto add_bases = [&](const clang::CXXRecordDecl *decl,
+                           auto &&recurse) -> void {
+        for (const clang::CXXBaseSpecifier &base : decl->bases()) {
+          const clang::TagDecl *base_decl =
+              base.getType()->getAsTagDecl()->getDefinition();
+          if (base.getAccessSpecifier() != clang::AS_public ||
+              inlining_policy.shouldHide(base_decl))
+            continue;
+          if (const DeclContextNode *base_node = graph.getNode(base_decl))
+            add_predecessor(base_node);
+          if (!inlining_policy.shouldInline(base_decl))
+            continue;
+          if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
+            recurse(rd, recurse);
         }
-      }
+      };
+      add_bases(record, add_bases);
     }
   };
 
diff --git a/src/expose.cpp b/src/expose.cpp
index 73d7277..e8c1761 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -653,7 +653,7 @@ void TranslationUnitExposer::emitModule(
 
   const clang::DeclContext *cycle = nullptr;
   const auto sorted_contexts = declContextsSortedByDependencies(
-      graph, parents, sema.getSourceManager(), &cycle);
+      graph, annotations, parents, sema.getSourceManager(), &cycle);
   if (cycle != nullptr) {
     // TODO: Report this before any other output, ideally pointing to the
     // typedef name decl for `expose_here` cycles.
-- 
2.43.0


From aea6b526047c9256b3384321cedbd152d361e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:59 +0000
Subject: [PATCH 09/28] fix: do not dereference the missing name of an unnamed
 left operand of operator<<

---
 src/expose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index e8c1761..f767830 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -622,7 +622,8 @@ static bool isOstreamOperator(const clang::FunctionDecl *function) {
   assert(function->getNumParams() >= 1);
   if (const clang::CXXRecordDecl *record =
           function->getParamDecl(0)->getType()->getPointeeCXXRecordDecl()) {
-    if (!record->getIdentifier()->isStr("basic_ostream"))
+    const clang::IdentifierInfo *identifier = record->getIdentifier();
+    if (identifier == nullptr || !identifier->isStr("basic_ostream"))
       return false;
     clang::ast_matchers::internal::HasNameMatcher matcher(
         {"::std::basic_ostream"});
-- 
2.43.0


From 76921dd047032c73e61caa001ad5dff1a377f80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:49 +0000
Subject: [PATCH 10/28] fix: export values of unscoped enums that inherit their
 visibility

---
 src/expose.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index f767830..e8066ef 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1020,11 +1020,11 @@ void EnumExposer::emitIntroducer(llvm::raw_ostream &os,
 }
 
 void EnumExposer::finalizeDefinition(llvm::raw_ostream &os) {
-  if (const auto attrs = annotations.get<EnumDeclAttrs>(enum_decl);
-      attrs.has_value() &&
-      attrs->export_values.value_or(!enum_decl->isScoped())) {
+  // Enums without any annotations (i.e. those that inherit their visibility)
+  // are not part of the annotation storage, but the same default applies.
+  const auto attrs = annotations.lookup<EnumDeclAttrs>(enum_decl);
+  if (attrs.export_values.value_or(!enum_decl->isScoped()))
     os << "context.export_values();\n";
-  }
 }
 
 void EnumExposer::emitType(llvm::raw_ostream &os) {
-- 
2.43.0


From 5c082d9757e4f06b492c100200a53b972c125e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:03 +0000
Subject: [PATCH 11/28] fix: list a base class that is reached through several
 inlined bases only once

---
 src/expose.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index e8066ef..8888ced 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -39,6 +39,7 @@
 #include <llvm/ADT/DenseMap.h>
 #include <llvm/ADT/STLExtras.h>
 #include <llvm/ADT/Sequence.h>
+#include <llvm/ADT/SmallPtrSet.h>
 #include <llvm/ADT/SmallSet.h>
 #include <llvm/ADT/SmallString.h>
 #include <llvm/ADT/SmallVector.h>
@@ -1238,7 +1239,8 @@ void RecordExposer::emitType(llvm::raw_ostream &os) {
 
   // Add all exposed (i.e. part of graph) public bases as arguments.
   // This is called recursively, since bases of inlined bases also need to
-  // be emitted.
+  // be emitted.  A base that can be reached in several ways is only listed once.
+  llvm::SmallPtrSet<const clang::TagDecl *, 4> emitted_bases;
   auto maybe_emit_bases = [&](const clang::CXXRecordDecl *decl,
                               auto &&recurse) -> void {
     for (const clang::CXXBaseSpecifier &base : decl->bases()) {
@@ -1250,7 +1252,8 @@ void RecordExposer::emitType(llvm::raw_ostream &os) {
       if (inlining_policy.shouldInline(base_decl)) {
         if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
           recurse(rd, recurse);
-      } else if (graph.getNode(base_decl) != nullptr) {
+      } else if (graph.getNode(base_decl) != nullptr &&
+                 emitted_bases.insert(base_decl).second) {
         os << ", " << getFullyQualifiedName(base_decl);
       }
     }
-- 
2.43.0


From ad443f2dadeb0d92b48c4f92390b820231733348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:55 +0000
Subject: [PATCH 12/28] fix: do not expose declarations of inline or nominated
 namespaces in the surrounding scope

Name lookup in a namespace also finds declarations of its inline namespaces
and of namespaces nominated by using directives.  These were exposed a second
time, subject to the visibility of the surrounding instead of their own
namespace, e.g. even if the inline namespace is hidden.
---
 src/visible_decls.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/visible_decls.cpp b/src/visible_decls.cpp
index ad80a10..8585e5a 100644
--- a/src/visible_decls.cpp
+++ b/src/visible_decls.cpp
@@ -30,6 +30,7 @@ using namespace genpybind;
 namespace {
 
 class ExposableDeclConsumer : public clang::VisibleDeclConsumer {
+  const clang::DeclContext *decl_context;
   std::optional<RecordInliningPolicy> inlining_policy;
   std::vector<const clang::NamedDecl *> &decls;
 
@@ -40,9 +41,20 @@ class ExposableDeclConsumer : public clang::VisibleDeclConsumer {
   }
 
 public:
-  ExposableDeclConsumer(std::optional<RecordInliningPolicy> inlining_policy,
+  ExposableDeclConsumer(const clang::DeclContext *decl_context,
+                        std::optional<RecordInliningPolicy> inlining_policy,
                         std::vector<const clang::NamedDecl *> &decls)
-      : inlining_policy(std::move(inlining_policy)), decls(decls) {}
+      : decl_context(decl_context), inlining_policy(std::move(inlining_policy)),
+        decls(decls) {}
+
+  /// Whether the declaration belongs to a different namespace, i.e. has been
+  /// found via a using directive or because that namespace is inline.
+  bool belongsToOtherNamespace(const clang::NamedDecl *proposed_decl) const {
+    const clang::DeclContext *parent =
+        proposed_decl->getDeclContext()->getRedeclContext();
+    return parent->isFileContext() &&
+           !parent->Equals(decl_context->getRedeclContext());
+  }
 
   bool shouldInlineDecl(clang::NamedDecl *proposed_decl) {
     // TODO: What about using declarations? Where should they be resolved?
@@ -67,6 +79,10 @@ public:
     if (!is_visible_in_scope || !is_accessible)
       return;
 
+    // Those are exposed as part of the namespace they belong to (if visible).
+    if (belongsToOtherNamespace(proposed_decl))
+      return;
+
     if (in_base_class && !shouldInlineDecl(proposed_decl))
       return;
 
@@ -163,7 +179,8 @@ genpybind::collectVisibleDeclsFromDeclContext(
     clang::Sema &sema, const clang::DeclContext *decl_context,
     std::optional<RecordInliningPolicy> inlining_policy) {
   std::vector<const clang::NamedDecl *> decls;
-  ExposableDeclConsumer consumer(std::move(inlining_policy), decls);
+  ExposableDeclConsumer consumer(decl_context, std::move(inlining_policy),
+                                 decls);
   // Include global scope *iff* looking up decls in the TU decl context.
   bool include_global_scope = llvm::dyn_cast<clang::Decl>(decl_context) ==
                               sema.getASTContext().getTranslationUnitDecl();
-- 
2.43.0


From dbdfe67c1800a23720206ce9ec39cb427288a03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:55 +0000
Subject: [PATCH 13/28] fix: report args and kwargs parameters that follow a
 kwargs parameter

They were accepted although kwargs has to be the last parameter, which only
showed when compiling the generated code.
---
 src/expose.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 8888ced..a427264 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -336,6 +336,11 @@ static void emitParameters(llvm::raw_ostream &os,
   unsigned index = 0;
   const clang::ParmVarDecl *last_kwargs_param = nullptr;
   for (const clang::ParmVarDecl *param : function->parameters()) {
+    if (last_kwargs_param != nullptr) {
+      Diagnostics::report(last_kwargs_param,
+                          Diagnostics::Kind::TrailingParametersError);
+      break;
+    }
     // `arg()` should not be emitted for `pybind11::args` or `pybind11::kwargs`
     // parameters.  `kwargs` needs to be the last parameter of the function.
     if (llvm::StringRef kind = getPybind11ArgsType(param->getType());
@@ -347,11 +352,6 @@ static void emitParameters(llvm::raw_ostream &os,
       ++index;
       continue;
     }
-    if (last_kwargs_param != nullptr) {
-      Diagnostics::report(last_kwargs_param,
-                          Diagnostics::Kind::TrailingParametersError);
-      break;
-    }
     os << ", ::pybind11::arg(";
     emitStringLiteral(os, param->getName());
     os << ")";
-- 
2.43.0


From 7de3398237897d767c9f6261ad1a3a1911d845c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:12 +0000
Subject: [PATCH 14/28] fix: make the order of generated code deterministic

Declarations with equal source locations (implicit members, instantiations of
one template) were ordered by an unstable sort or by pointer values.
---
 src/decl_context_graph_processing.cpp | 12 +++++++++++-
 src/expose.cpp                        |  5 ++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index 9b6e9f2..be70ef1 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -484,12 +484,22 @@ genpybind::declContextsSortedByDependencies(
 
   IsBeforeInTranslationUnit is_before(source_manager);
 
+  // Instantiations of the same template share their location, so fall back to
+  // the position in a depth-first traversal, which is deterministic.
+  llvm::DenseMap<const DeclContextNode *, unsigned> positions(graph.size());
+  for (const DeclContextNode *node : llvm::depth_first(&graph))
+    positions.try_emplace(node, positions.size());
+
   auto nodes = lexicographicalTopologicalSort(
       &graph, find_predecessors,
       [&](const DeclContextNode *lhs, const DeclContextNode *rhs) {
         // Note: Larger elements are sorted earlier, thus the arguments are
         // swapped here.
-        return is_before(rhs->getDecl(), lhs->getDecl());
+        if (is_before(rhs->getDecl(), lhs->getDecl()))
+          return true;
+        if (is_before(lhs->getDecl(), rhs->getDecl()))
+          return false;
+        return positions.lookup(rhs) < positions.lookup(lhs);
       });
 
   bool cycle_detected = nodes.size() != graph.size();
diff --git a/src/expose.cpp b/src/expose.cpp
index a427264..8b51949 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -814,7 +814,10 @@ void TranslationUnitExposer::emitModule(
     std::vector<const clang::NamedDecl *> decls =
         collectVisibleDeclsFromDeclContext(sema, item.decl_context,
                                            item.exposer->inliningPolicy());
-    llvm::sort(decls, IsBeforeInTranslationUnit(sema.getSourceManager()));
+    // Implicit members share the location of their class, so preserve the order
+    // of decls with equal locations to obtain deterministic output.
+    llvm::stable_sort(decls,
+                      IsBeforeInTranslationUnit(sema.getSourceManager()));
 
     // Inject operators from a record's associated namespace (found via ADL),
     // as these need to be exposed as methods of the record.  Only user-defined
-- 
2.43.0


From 7a92d0d0f372038300dbe38d7b45d7c668d5c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:12 +0000
Subject: [PATCH 15/28] fix: treat all openings of a namespace alike

Openings without annotations of an annotated namespace were ignored.
---
 include/genpybind/lookup_context_collector.h |  5 +++++
 src/decl_context_graph_builder.cpp           | 19 +++++++++++++++++++
 src/lookup_context_collector.cpp             |  5 +++++
 3 files changed, 29 insertions(+)

diff --git a/include/genpybind/lookup_context_collector.h b/include/genpybind/lookup_context_collector.h
index 468620a..afd4120 100644
--- a/include/genpybind/lookup_context_collector.h
+++ b/include/genpybind/lookup_context_collector.h
@@ -89,6 +89,11 @@ public:
 
   void errorIfAnnotationsDoNotMatchFirstDecl(const clang::NamedDecl *decl);
 
+  /// Returns the opening of a namespace whose annotations the others have to
+  /// match, if there is one.
+  const clang::NamedDecl *
+  findFirstCheckedDecl(const clang::NamespaceDecl *decl) const;
+
   bool VisitTypedefNameDecl(const clang::TypedefNameDecl *decl) {
     // Only typedefs with explicit annotations are considered.
     if (!hasAnnotations(decl) || decl->getDeclContext()->isDependentContext())
diff --git a/src/decl_context_graph_builder.cpp b/src/decl_context_graph_builder.cpp
index 7f42781..c1ed913 100644
--- a/src/decl_context_graph_builder.cpp
+++ b/src/decl_context_graph_builder.cpp
@@ -56,6 +56,25 @@ std::optional<DeclContextGraph> DeclContextGraphBuilder::buildGraph() {
   if (trap.hasErrorOccurred())
     return std::nullopt;
 
+  // Openings of a namespace that neither are annotated themselves nor contain
+  // annotated declarations do not have to repeat the annotations of the other
+  // openings.  As all of them form a single lookup context, they are treated as
+  // if they had been annotated accordingly.
+  for (const clang::DeclContext *decl_context : visitor.lookup_contexts) {
+    const auto *decl = llvm::dyn_cast<clang::NamespaceDecl>(decl_context);
+    if (decl == nullptr || annotations.has(decl))
+      continue;
+    const clang::NamedDecl *first_decl = visitor.findFirstCheckedDecl(decl);
+    if (first_decl == nullptr || !annotations.has(first_decl))
+      continue;
+    annotations.update<NamedDeclAttrs>(decl, [&](auto &attrs) {
+      attrs = annotations.lookup<NamedDeclAttrs>(first_decl);
+    });
+    annotations.update<NamespaceDeclAttrs>(decl, [&](auto &attrs) {
+      attrs = annotations.lookup<NamespaceDeclAttrs>(first_decl);
+    });
+  }
+
   for (const clang::TypedefNameDecl *alias_decl : visitor.aliases) {
     const auto attrs = annotations.get<TypedefNameDeclAttrs>(alias_decl);
     assert(attrs.has_value());
diff --git a/src/lookup_context_collector.cpp b/src/lookup_context_collector.cpp
index b4d6e72..6b15c34 100644
--- a/src/lookup_context_collector.cpp
+++ b/src/lookup_context_collector.cpp
@@ -35,3 +35,8 @@ void LookupContextCollector::errorIfAnnotationsDoNotMatchFirstDecl(
     Diagnostics::report(first_decl, clang::diag::note_declared_at);
   }
 }
+
+const clang::NamedDecl *LookupContextCollector::findFirstCheckedDecl(
+    const clang::NamespaceDecl *decl) const {
+  return first_decls.lookup(decl->getCanonicalDecl());
+}
-- 
2.43.0


From b2747ee8c4cbfcb5140aac2ed80c88741698fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:12 +0000
Subject: [PATCH 16/28] fix: do not expose inherited copy constructors

They are not viable for constructing the derived class, the generated code did
not compile.
---
 src/expose.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 8b51949..6019d75 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1282,6 +1282,12 @@ void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,
         record_decl->isAbstract())
       return;
 
+    // Copy constructors inherited from a base class are not viable for the
+    // construction of objects of the derived class.
+    if (constructor->isCopyConstructor() && constructor->getNumParams() == 1 &&
+        !declaresSameEntity(constructor->getParent(), record_decl))
+      return;
+
     if (attrs->implicit_conversion) {
       clang::QualType from_qual_type = constructor->getParamDecl(0)->getType();
       clang::QualType to_qual_type = ast_context.getTypeDeclType(record_decl);
-- 
2.43.0


From 4b86a33de5e057d727dd60e8a275f5a732bcf161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:12 +0000
Subject: [PATCH 17/28] fix: respect the access of member templates

Specializations have no access specifier of their own, so those of private and
protected member templates were exposed by default.
---
 src/decl_context_graph_processing.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index be70ef1..9c5bc71 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -11,6 +11,7 @@
 
 #include <clang/AST/Decl.h>
 #include <clang/AST/DeclCXX.h>
+#include <clang/AST/DeclTemplate.h>
 #include <clang/AST/Type.h>
 #include <clang/Basic/Diagnostic.h>
 #include <clang/Basic/Specifiers.h>
@@ -83,6 +84,15 @@ genpybind::findEnclosingScopes(const DeclContextGraph &graph,
   return result;
 }
 
+/// Returns the access specifier of the declaration.  Specializations do not have
+/// one of their own, they are as accessible as the specialized template.
+static clang::AccessSpecifier getDeclAccess(const clang::Decl *decl) {
+  if (const auto *specialization =
+          llvm::dyn_cast<clang::ClassTemplateSpecializationDecl>(decl))
+    return specialization->getSpecializedTemplate()->getAccess();
+  return decl->getAccess();
+}
+
 EffectiveVisibilityMap
 genpybind::deriveEffectiveVisibility(const DeclContextGraph &graph,
                                      const AnnotationStorage &annotations) {
@@ -107,7 +117,7 @@ genpybind::deriveEffectiveVisibility(const DeclContextGraph &graph,
     }
 
     // Declarations with protected and private access specifiers are hidden.
-    switch (decl->getAccess()) {
+    switch (getDeclAccess(decl)) {
     case clang::AS_protected:
     case clang::AS_private:
       is_visible = false;
-- 
2.43.0


From cce8ba1a1a4a9a024011acef591438e233544fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:32 +0000
Subject: [PATCH 18/28] fix: print type of braced functional casts in default
 arguments only once

---
 src/expose.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 6019d75..bbfea06 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -49,6 +49,7 @@
 #include <llvm/ADT/iterator.h>
 #include <llvm/Support/Casting.h>
 #include <llvm/Support/ErrorHandling.h>
+#include <llvm/Support/SaveAndRestore.h>
 #include <llvm/Support/raw_ostream.h>
 
 #include <cassert>
@@ -175,11 +176,15 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
 
     if (const auto *cast = llvm::dyn_cast<clang::CXXFunctionalCastExpr>(expr)) {
       print_fully_qualified_name(cast->getType());
-      if (cast->getLParenLoc().isValid())
+      if (cast->getLParenLoc().isValid()) {
         os << '(';
-      print_recursively(cast->getSubExpr());
-      if (cast->getLParenLoc().isValid())
+        print_recursively(cast->getSubExpr());
         os << ')';
+      } else {
+        // The type of the braced initializer has just been printed.
+        llvm::SaveAndRestore<bool> guard(within_braced_initializer, true);
+        print_recursively(cast->getSubExpr());
+      }
       return true;
     }
 
-- 
2.43.0


From 43c765ce64f1a4a2337f65fb574769b0e4685ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:32 +0000
Subject: [PATCH 19/28] fix: null pointer constants as default arguments

---
 src/expose.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index bbfea06..fb7f88d 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -366,8 +366,15 @@ static void emitParameters(llvm::raw_ostream &os,
       os << ".none(false)";
     if (const clang::Expr *expr = param->getDefaultArg()) {
       os << " = ";
-      expr->printPretty(os, &printer_helper, printing_policy, /*Indentation=*/0,
-                        /*NewlineSymbol=*/"\n", &context);
+      // Other null pointer constants would be converted to an integer.
+      if (param->getType()->isPointerType() &&
+          expr->isNullPointerConstant(
+              function->getASTContext(),
+              clang::Expr::NPC_NeverValueDependent) != clang::Expr::NPCK_NotNull)
+        os << "nullptr";
+      else
+        expr->printPretty(os, &printer_helper, printing_policy,
+                          /*Indentation=*/0, /*NewlineSymbol=*/"\n", &context);
     }
     ++index;
   }
-- 
2.43.0


From 09fdcce7ed75a079a8f3cd005b9322cde9b3c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:32 +0000
Subject: [PATCH 20/28] fix: qualify types in value initializations and sizeof
 expressions

---
 src/expose.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index fb7f88d..1b72447 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -33,6 +33,7 @@
 #include <clang/Basic/OperatorKinds.h>
 #include <clang/Basic/SourceLocation.h>
 #include <clang/Basic/Specifiers.h>
+#include <clang/Basic/TypeTraits.h>
 #include <clang/Sema/Lookup.h>
 #include <clang/Sema/Sema.h>
 #include <llvm/ADT/ArrayRef.h>
@@ -143,7 +144,6 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     // - BuiltinBitCastExpr
     // - CXXTypeidExpr
     // - CXXUuidofExpr
-    // - CXXScalarValueInitExpr
     // - CXXUnresolvedConstructExpr
     // - TypeTraitExpr
     // - RequiresExpr
@@ -188,6 +188,21 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       return true;
     }
 
+    if (const auto *init = llvm::dyn_cast<clang::CXXScalarValueInitExpr>(expr)) {
+      print_fully_qualified_name(init->getType());
+      os << "()";
+      return true;
+    }
+
+    if (const auto *trait =
+            llvm::dyn_cast<clang::UnaryExprOrTypeTraitExpr>(expr);
+        trait != nullptr && trait->isArgumentType()) {
+      os << clang::getTraitSpelling(trait->getKind()) << '(';
+      print_fully_qualified_name(trait->getArgumentType());
+      os << ')';
+      return true;
+    }
+
     if (const auto *temporary =
             llvm::dyn_cast<clang::CXXTemporaryObjectExpr>(expr)) {
       print_fully_qualified_name(temporary->getType());
-- 
2.43.0


From 2369071ce16e8c128f8c27319572c006840bb033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:58 +0000
Subject: [PATCH 21/28] fix: do not qualify local names in lambda expressions
 used as default arguments

---
 src/expose.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index 1b72447..402ef10 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -234,6 +234,9 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     // `getQualifier()` in `StmtPrinter`, which have to be re-defined.
 
     if (const auto *decl_ref = llvm::dyn_cast<clang::DeclRefExpr>(expr)) {
+      // Parameters and variables of lambda expressions cannot be qualified.
+      if (decl_ref->getDecl()->getParentFunctionOrMethod() != nullptr)
+        return false;
       os << "::";
       decl_ref->getFoundDecl()->printNestedNameSpecifier(os, printing_policy);
       if (decl_ref->hasTemplateKeyword())
-- 
2.43.0


From 4dd3b385bb8a832ae8a738aab27befee00a3b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:58 +0000
Subject: [PATCH 22/28] fix: members of anonymous structs and unions in default
 arguments

---
 src/expose.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 402ef10..c706a06 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -265,8 +265,15 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       if (!suppress_member_access_operator)
         os << (member->isArrow() ? "->" : ".");
 
-      os << "::";
-      member->getFoundDecl()->printNestedNameSpecifier(os, printing_policy);
+      // Members of anonymous structs and unions are named without the latter.
+      if (const auto *field =
+              llvm::dyn_cast<clang::FieldDecl>(member->getMemberDecl()))
+        if (field->isAnonymousStructOrUnion())
+          return true;
+      if (!suppress_member_access_operator) {
+        os << "::";
+        member->getFoundDecl()->printNestedNameSpecifier(os, printing_policy);
+      }
       if (member->hasTemplateKeyword())
         os << "template ";
       os << member->getMemberNameInfo();
-- 
2.43.0


From 41e4050b71765b442bbbe567dd1de1fcdd3335f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:58 +0000
Subject: [PATCH 23/28] fix: qualify template arguments in default arguments

---
 src/expose.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index c706a06..8a725bc 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -24,6 +24,7 @@
 #include <clang/AST/QualTypeNames.h>
 #include <clang/AST/RawCommentList.h>
 #include <clang/AST/Stmt.h>
+#include <clang/AST/TemplateBase.h>
 #include <clang/AST/Type.h>
 #include <clang/ASTMatchers/ASTMatchersInternal.h>
 #include <clang/Basic/Diagnostic.h>
@@ -157,6 +158,19 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
                                                    /*WithGlobalNsPrefix=*/true);
     };
 
+    auto print_template_arguments =
+        [&](llvm::ArrayRef<clang::TemplateArgumentLoc> arguments) {
+          llvm::SmallVector<clang::TemplateArgument, 4> qualified;
+          for (const clang::TemplateArgumentLoc &location : arguments) {
+            clang::TemplateArgument argument = location.getArgument();
+            if (argument.getKind() == clang::TemplateArgument::Type)
+              argument = clang::TypeName::getFullyQualifiedType(
+                  argument.getAsType(), context, /*WithGlobalNsPrefix=*/true);
+            qualified.push_back(argument);
+          }
+          clang::printTemplateArgumentList(os, qualified, printing_policy);
+        };
+
     if (const auto *cast = llvm::dyn_cast<clang::CStyleCastExpr>(expr)) {
       os << '(';
       print_fully_qualified_name(cast->getType());
@@ -243,8 +257,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
         os << "template ";
       os << decl_ref->getNameInfo();
       if (decl_ref->hasExplicitTemplateArgs())
-        clang::printTemplateArgumentList(os, decl_ref->template_arguments(),
-                                         printing_policy);
+        print_template_arguments(decl_ref->template_arguments());
       return true;
     }
 
@@ -278,8 +291,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
         os << "template ";
       os << member->getMemberNameInfo();
       if (member->hasExplicitTemplateArgs())
-        clang::printTemplateArgumentList(os, member->template_arguments(),
-                                         printing_policy);
+        print_template_arguments(member->template_arguments());
       return true;
     }
 
-- 
2.43.0


From 9f800ca11a25f70c9a222d44a5055022d0925855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:49 +0000
Subject: [PATCH 24/28] fix: braced default arguments of const reference
 parameters

---
 src/expose.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 8a725bc..d4284be 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -121,9 +121,9 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     }();
 
     if (should_prepend_qualified_type_to_braced_initializer) {
-      os << clang::TypeName::getFullyQualifiedName(expr->getType(), context,
-                                                   printing_policy,
-                                                   /*WithGlobalNsPrefix=*/true);
+      os << clang::TypeName::getFullyQualifiedName(
+          expr->getType().getUnqualifiedType(), context, printing_policy,
+          /*WithGlobalNsPrefix=*/true);
       within_braced_initializer = true;
       print_recursively(expr);
       within_braced_initializer = false;
-- 
2.43.0


From 14679a76ffa621902928173b401931d9c9d85a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:49 +0000
Subject: [PATCH 25/28] fix: do not expose unnamed classes and enumerations by
 default

---
 src/decl_context_graph_processing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index 9c5bc71..d80d6fa 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -128,6 +128,10 @@ genpybind::deriveEffectiveVisibility(const DeclContextGraph &graph,
       break;
     }
 
+    // Unnamed classes and enumerations cannot be referred to in the bindings.
+    if (const auto *tag_decl = llvm::dyn_cast<clang::TagDecl>(decl))
+      is_visible = is_visible && tag_decl->hasNameForLinkage();
+
     // Retrieve value from annotations, if specified explicitly.
     const auto *named_decl = llvm::dyn_cast<clang::NamedDecl>(decl);
     if (const auto attrs = annotations.get<NamedDeclAttrs>(named_decl))
-- 
2.43.0


From c392df4750255ec10c878e36714d20a0d48866c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:05 +0000
Subject: [PATCH 26/28] fix: classes and enumerations named by a typedef

---
 src/annotated_decl.cpp |  3 +++
 src/expose.cpp         | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index fec2b43..d27e42e 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -322,6 +322,9 @@ std::string genpybind::getSpelling(const clang::NamedDecl *decl) {
       decl->getASTContext().getPrintingPolicy();
 
   clang::DeclarationName name = decl->getDeclName();
+  if (const auto *tag_decl = llvm::dyn_cast<clang::TagDecl>(decl))
+    if (const auto *typedef_decl = tag_decl->getTypedefNameForAnonDecl())
+      name = typedef_decl->getDeclName();
   name.print(os, policy);
 
   if (!name.isIdentifier())
diff --git a/src/expose.cpp b/src/expose.cpp
index d4284be..ab0bbd8 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1437,8 +1437,15 @@ void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,
     os << (readonly ? "context.def_readonly" : "context.def_readwrite");
     os << (llvm::isa<clang::VarDecl>(decl) ? "_static(" : "(");
     emitSpelling(os, decl, annotations.lookup<NamedDeclAttrs>(decl));
-    os << ", &::";
-    decl->printQualifiedName(os, printing_policy);
+    os << ", &";
+    const auto *parent =
+        llvm::dyn_cast<clang::TagDecl>(decl->getDeclContext());
+    if (parent != nullptr && parent->getTypedefNameForAnonDecl() != nullptr) {
+      os << getFullyQualifiedName(parent) << "::" << decl->getName();
+    } else {
+      os << "::";
+      decl->printQualifiedName(os, printing_policy);
+    }
     os << ");\n";
     return;
   }
-- 
2.43.0


From b8b744dead26f5508afb3842c7252d4b6713b0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:16 +0000
Subject: [PATCH 27/28] fix: casts to reference types in default arguments

The type of a cast expression is never a reference, const_cast<A &>(a)
was emitted as const_cast<A>(a).  Use the type as written.
---
 src/expose.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index ab0bbd8..a533d05 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -173,7 +173,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
 
     if (const auto *cast = llvm::dyn_cast<clang::CStyleCastExpr>(expr)) {
       os << '(';
-      print_fully_qualified_name(cast->getType());
+      print_fully_qualified_name(cast->getTypeAsWritten());
       os << ')';
       print_recursively(cast->getSubExpr());
       return true;
@@ -181,7 +181,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
 
     if (const auto *cast = llvm::dyn_cast<clang::CXXNamedCastExpr>(expr)) {
       os << cast->getCastName() << '<';
-      print_fully_qualified_name(cast->getType());
+      print_fully_qualified_name(cast->getTypeAsWritten());
       os << ">(";
       print_recursively(cast->getSubExpr());
       os << ')';
@@ -189,7 +189,7 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     }
 
     if (const auto *cast = llvm::dyn_cast<clang::CXXFunctionalCastExpr>(expr)) {
-      print_fully_qualified_name(cast->getType());
+      print_fully_qualified_name(cast->getTypeAsWritten());
       if (cast->getLParenLoc().isValid()) {
         os << '(';
         print_recursively(cast->getSubExpr());
-- 
2.43.0


From 3bb7d285aac408845926b34e57f5e80f7b59282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:47 +0000
Subject: [PATCH 28/28] fix: functional casts to types without a simple name in
 default arguments

In instantiated templates `T()`, `T(x)` and `T{x}` were emitted as e.g.
`unsigned long()` or `n::S *(x)`, which is not valid C++.
---
 src/expose.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/expose.cpp b/src/expose.cpp
index a533d05..6795a0e 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -188,6 +188,35 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
       return true;
     }
 
+    // Functional notation needs a type with a simple name, but in a template
+    // `T(x)` or `T()` might stand for e.g. `unsigned int` or a pointer type.
+    auto print_functional_cast = [&](clang::QualType qual_type,
+                                     const clang::Expr *value) {
+      const std::string name = clang::TypeName::getFullyQualifiedName(
+          qual_type, context, printing_policy, /*WithGlobalNsPrefix=*/true);
+      if (!qual_type->isScalarType() ||
+          llvm::StringRef(name).find_first_of(" *") == llvm::StringRef::npos)
+        return false;
+      os << "((" << name << ")(";
+      if (value != nullptr)
+        print_recursively(value);
+      else
+        os << (qual_type->isAnyPointerType() || qual_type->isMemberPointerType()
+                   ? "nullptr"
+                   : "0");
+      os << "))";
+      return true;
+    };
+
+    if (const auto *cast = llvm::dyn_cast<clang::CXXFunctionalCastExpr>(expr)) {
+      const clang::Expr *value = cast->getSubExpr();
+      if (const auto *list =
+              llvm::dyn_cast<clang::InitListExpr>(value->IgnoreImplicit()))
+        value = list->getNumInits() != 0 ? list->getInit(0) : nullptr;
+      if (print_functional_cast(cast->getTypeAsWritten(), value))
+        return true;
+    }
+
     if (const auto *cast = llvm::dyn_cast<clang::CXXFunctionalCastExpr>(expr)) {
       print_fully_qualified_name(cast->getTypeAsWritten());
       if (cast->getLParenLoc().isValid()) {
@@ -203,6 +232,8 @@ struct AttemptFullQualificationPrinter : clang::PrinterHelper {
     }
 
     if (const auto *init = llvm::dyn_cast<clang::CXXScalarValueInitExpr>(expr)) {
+      if (print_functional_cast(init->getType(), nullptr))
+        return true;
       print_fully_qualified_name(init->getType());
       os << "()";
       return true;
-- 
2.43.0

