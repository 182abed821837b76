#!/usr/bin/env python3
"""Source of properties.jsonl, MANIFEST.json and checks.json (run: ./props.py)."""
import glob, json, re
P = []
def zoo(id):
    n = 0
    for f in glob.glob(f"zoo/{id}.*.zoo"): n += 1 + sum(len(m[2].split("|")) - 1 for m in re.findall(r"GENPYBIND\(@(\d)\.(\w+):((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)", open(f).read()))
    return f"; the exact list of bindings of a larger fixed header (zoo/{id}.*.zoo) for each of {n} annotation settings, one site at a time" if n else ""
def prop(id, title, statement, over, text, why, files, mech, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **k))

prop("C01", "Annotation text: exact grammar and exact values",
 "An annotation text is accepted exactly when it is a comma-separated list of known keywords, each optionally followed by a parenthesised comma-separated list of literals (true, false, default, unsigned decimal number up to 4294967295, double-quoted string, bare identifier; blanks between tokens are insignificant; a trailing comma and an empty argument list are allowed). When accepted, the annotations and their argument values (kind, order, number value, string text) are exactly the ones written. When rejected, the error names the offending token. Several annotations on one declaration and on its redeclarations add up as if written in one list; annotations of other tools are ignored.",
 ["inputs"], "every annotation text up to the stated number of free bytes, in the stated surroundings (any bytes; any keyword followed by any bytes; any argument-list bytes; numbers of any digits; every identifier of 1 to 20 bytes as keyword and of 4, 5, 7, 9 (thorough: 12) bytes as argument; sequences of keywords)",
 "the parser tests check about thirty literal strings; the accepted language is infinite and mistakes live in single byte values and adjacencies",
 ["src/annotations/parser.cpp", "src/annotations/annotation.cpp", "src/annotations/literal_value.cpp", "include/genpybind/annotations/annotations.def"],
 [("Parser::parseAnnotations", "src/annotations/parser.cpp"), ("Tokenizer::tokenize", "src/annotations/parser.cpp")])
prop("C02", "Invalid annotations are rejected, valid ones accepted",
 "Every annotation that is malformed, unknown, not applicable to the kind of declaration it is attached to, or given the wrong number or type of arguments leads to an error diagnostic, a non-zero exit status and no generated output; every applicable, well-formed annotation is accepted without error.",
 ["inputs", "programs"], "all 24 keywords (one unknown) x 12 argument forms x 15 kinds of declarations; 105 further site/annotation cases with particular signatures (default arguments, variadics, operators, templates); all combinations of mistakes on three declarations, each of which is reported",
 "the tests cover a sample of the keyword/kind/argument matrix; an annotation that is silently ignored yields bindings without the protection the author asked for",
 ["src/annotated_decl.cpp", "src/annotations/parser.cpp", "src/tool.cpp"],
 [("AnnotatedDecl::processAnnotation and specialisations", "src/annotated_decl.cpp"), ("AnnotationStorage", "src/annotated_decl.cpp")])
prop("C03", "Exposed set equals the visible set",
 "A declaration is exposed in the generated module exactly when it is visible, accessible and not inside a hidden class or enum. Visible means: the translation unit is hidden, a declaration without its own setting inherits the visibility of its parent unless it is protected or private or an unnamed class or enum (then hidden), an explicit visible/hidden/visible(bool) setting wins, visible(default) restores the default, and any other annotation on something that is not a namespace makes it visible. Hidden declarations are not mentioned in the output.",
 ["inputs", "programs"], "all combinations of the annotations and access specifiers on nested namespaces, classes, enums and members of the header templates (nesting, members of every kind, using-declarations, inline and nominated namespaces, linkage specifications)",
 "the tests sample a few combinations; the rule is a product of inheritance, access, explicit and implicit settings over nesting",
 ["src/decl_context_graph_processing.cpp", "src/visible_decls.cpp", "src/annotated_decl.cpp", "src/expose.cpp"],
 [("deriveEffectiveVisibility, pruneGraph", "src/decl_context_graph_processing.cpp"), ("collectVisibleDeclsFromDeclContext", "src/visible_decls.cpp"), ("NamedDeclAttrs", "src/annotated_decl.cpp")])
prop("C05", "Python names are exactly the C++ names or the requested names",
 "Every exposed declaration other than an operator (see C11) is bound under its C++ name (for an unnamed class or enum defined in a typedef, the name of the typedef), or under exactly the identifier given by expose_as / getter_for / setter_for / module(...), character by character; a requested name that is not an identifier is rejected with an error and no output.",
 ["inputs"], "every identifier of 1, 2 (thorough: up to 5) bytes on every kind of declaration; every non-identifier of 1 or 2 bytes (thorough: 3)",
 "tests use a few fixed names",
 ["src/annotated_decl.cpp", "src/expose.cpp", "src/string_utils.cpp"],
 [("NamedDeclAttrs::spelling, getSpelling", "src/annotated_decl.cpp"), ("Exposer::emit*", "src/expose.cpp")])
prop("C06", "Identifiers derived from arbitrary names are valid",
 "Without --module-name the module is named after the header: its file name without directory and last extension, turned into an identifier. Turning an arbitrary text into an identifier (this name, names of generated functions) keeps every character that may occur at its place, replaces each maximal run of characters that may not by one underscore, leaves valid identifiers unchanged and always yields a valid C++ identifier for non-empty input; validity is judged exactly (letters, digits, underscore, not starting with a digit).",
 ["inputs"], "every byte string up to 5 (thorough: 8) bytes; header file names with 2 (thorough: 4) arbitrary bytes at the start, between dots and without extension",
 "the unit test checks a handful of strings out of 256^n",
 ["src/string_utils.cpp", "src/tool.cpp"], [("makeValidIdentifier, isValidIdentifier", "src/string_utils.cpp"), ("GenpybindASTConsumer::HandleTranslationUnit (module name)", "src/tool.cpp")])
prop("C07", "Modules, submodules and opaque names appear where requested",
 "Every exposed declaration ends up in exactly one Python scope: the scope of its nearest enclosing class or submodule; namespaces without a module name are transparent; module on a namespace opens a submodule of the given (or the namespace's) name under the nearest enclosing submodule; expose_as renames; reopened namespaces share one submodule.",
 ["inputs", "programs"], "all combinations of module(...)/visible/hidden/expose_as annotations on the namespaces and classes of the header templates (nesting depth 3, reopened namespaces)",
 "the tests have a few fixed nestings", ["src/decl_context_graph_builder.cpp", "src/decl_context_graph.cpp", "src/expose.cpp", "src/annotated_decl.cpp"],
 [("TranslationUnitExposer::emitModule", "src/expose.cpp"), ("NamespaceExposer", "src/expose.cpp")])
prop("C08", "Definition order respects dependencies",
 "In the generated module every class is introduced after all of its exposed bases (also those reached through inlined bases), after the scope it is placed in, and every scope is populated only after all contexts have been introduced; this holds for every relocation by expose_here aliases and every choice of hidden or inlined bases.",
 ["inputs", "programs"], "all combinations of visibility, base handling and relocation annotations on the header templates (inheritance depth up to 4, multiple bases, base relocated into its derived class or a sibling)",
 "the order emerges from a graph traversal; tests contain a few graphs", ["src/decl_context_graph_processing.cpp", "src/expose.cpp"],
 [("declContextsSortedByDependencies", "src/decl_context_graph_processing.cpp")])
prop("C09", "Relocation through expose_here aliases",
 "A class or enum named by a type alias annotated expose_here appears exactly once, in the scope of the alias and under the alias' name, together with everything nested in it; a declaration relocated by two aliases, or into itself, or a cycle of relocations or of bases through placement, is reported as an error and produces no output; other exposed aliases are bound to the already registered type.",
 ["inputs", "programs"], "all combinations of expose_here / encourage / visible annotations on the aliases of the header templates, including cyclic ones",
 "tests have a handful of aliases", ["src/decl_context_graph_builder.cpp", "src/decl_context_graph_processing.cpp"],
 [("DeclContextGraphBuilder::buildGraph", "src/decl_context_graph_builder.cpp"), ("reportExposeHereCycles", "src/decl_context_graph_processing.cpp")])
prop("C10", "only_expose_in restricts a namespace to the listed modules",
 "Everything inside a namespace annotated only_expose_in(m1, ...) is exposed exactly when the module being generated is one of the listed ones (compared exactly); nested restrictions accumulate; siblings and declarations relocated out of the namespace are unaffected.",
 ["inputs", "programs"], "every identifier of 3, 4 or 5 bytes (thorough: 1 to 8) as listed name, at every list position, with nested restrictions",
 "tests use two fixed names", ["src/decl_context_graph_builder.cpp", "src/annotated_decl.cpp", "src/decl_context_graph_processing.cpp"],
 [("NamespaceDeclAttrs::only_expose_in", "src/annotated_decl.cpp"), ("DeclContextGraphBuilder / pruneGraph", "src/decl_context_graph_processing.cpp")])
prop("C12", "Parameters and call policies",
 "Each exposed function, method, constructor and call operator describes its parameters in order under their own names with their own default arguments; noconvert and required apply to exactly the named parameters (also around args/kwargs); keep_alive refers to exactly the named parameters, return value or implicit object by the right number; the return value policy is the requested one; a name that is no parameter is an error without output.",
 ["inputs", "programs"], "all combinations of 6 noconvert x 5 required x 4 keep_alive x 3 return_value_policy settings on seven kinds of callables; every identifier of 1, 2, 3, 4 or 6 bytes as parameter name; several keep_alive settings on one function; all placements of args/kwargs settings",
 "tests cover individual settings; index arithmetic errors only show in combinations", ["src/annotated_decl.cpp", "src/expose.cpp"],
 [("emitParameters, emitPolicies", "src/expose.cpp"), ("FunctionDeclAttrs", "src/annotated_decl.cpp")])
prop("C13", "Properties",
 "A property exists exactly when a visible, accessible method is annotated as its getter; it is writable exactly when it has a setter, uses precisely these methods, and its accessors are not exposed as methods; two getters, two setters or a setter without getter are reported as error without output.",
 ["inputs", "programs"], "all combinations of getter_for/setter_for annotations over two properties and four methods; accessors from an inlined base, hidden and inaccessible accessors; methods that are both getter and setter",
 "tests contain a few fixed classes", ["src/annotated_decl.cpp", "src/expose.cpp"], [("RecordExposer::handleDeclImpl / finalizeDefinition", "src/expose.cpp")])
prop("C20", "Constructors and implicit conversions",
 "For every exposed concrete class exactly the visible, accessible, non-deleted, non-move constructors are exposed, with their parameter types (implicitly declared default and copy constructors and constructors inherited through using-declarations included, inherited copy constructors excepted); none for abstract classes; implicit conversions are registered exactly where requested, and requesting one on a constructor that does not have exactly one parameter is an error.",
 ["inputs", "programs"], "all combinations of visibility, access and implicit_conversion settings on the constructors of the header templates",
 "tests sample few combinations", ["src/expose.cpp", "src/annotated_decl.cpp", "src/visible_decls.cpp"], [("RecordExposer::handleDeclImpl", "src/expose.cpp"), ("ConstructorDeclAttrs", "src/annotated_decl.cpp")])
prop("C24", "All openings of a namespace are one scope",
 "The openings of one namespace are treated as one scope: declarations of every opening end up in the same place and share the default visibility, submodule and restrictions, also those of openings that have neither annotations nor annotated declarations; annotated openings (or openings with annotated declarations) whose settings disagree are reported as an error and nothing is generated.",
 ["inputs", "programs"], "all combinations of 7 settings on each of three openings, interleaved with another namespace",
 "tests have two openings with one setting", ["src/decl_context_graph_builder.cpp", "src/annotated_decl.cpp"],
 [("canonical declaration lookup", "src/decl_context_graph_builder.cpp"), ("NamespaceDeclAttrs comparison", "src/decl_context_graph_builder.cpp")])
prop("C04", "Class options: holder and dynamic attributes",
 "Every exposed class names exactly its own type, its listed bases and, if requested, the holder type given by holder_type(...) character by character (also for instantiated templates); it allows dynamic attributes exactly when the last dynamic_attr setting says so; classes without these annotations, including nested, derived and base classes of annotated ones, are unaffected.",
 ["inputs", "programs"], "all combinations of 6 option settings on a class, its derived class, a nested class and a template; every holder text of 3 (thorough: 8) letters, digits, underscores and colons",
 "tests have one class per option", ["src/expose.cpp", "src/annotated_decl.cpp"], [("RecordExposer::emitIntroducer", "src/expose.cpp"), ("RecordDeclAttrs", "src/annotated_decl.cpp")])
prop("C11", "Operators",
 "Every visible, accessible overloaded operator that has a Python counterpart is exposed under the Python special method that computes the same expression with the same operand types and result type: once for the class of a member operator, for free and friend operators found by argument-dependent lookup once as forward method of the class of the left operand and once as reflected method (operands swapped back) of the class of the right operand; unary and binary forms are told apart; hidden, deleted and assignment operators and those without counterpart are not exposed; a free operator without annotation has the default visibility of the class it is exposed on; stream insertion is exposed exactly when expose_as(__str__) or expose_as(__repr__) asks for it.",
 ["inputs", "programs"], "all 27 exposed operators as member, free, friend and reflected form with all combinations of visibility settings; stream insertion with all combinations of settings",
 "tests check a few operators by calling them; each operator/form/operand order is a separate case in the code", ["src/expose.cpp", "src/decl_context_graph_processing.cpp", "src/visible_decls.cpp"],
 [("RecordExposer::emitOperator", "src/expose.cpp"), ("expose_friends / associated operators", "src/visible_decls.cpp")])
prop("C14", "Base classes: listed, hidden and inlined",
 "Every exposed class lists exactly its exposed public bases, each once and in order, except those named by hide_base; a base named by inline_base is not listed but replaced by its own bases (with the same rules), and its visible, accessible members that are not hidden by a member of the same name become members of the class exactly once, constructors excepted; annotations of inlined classes apply as well; bases behind a non-public or hidden base are not inlined; a list of bases that matches nothing is reported by a warning.",
 ["inputs", "programs"], "all combinations of hide_base / inline_base / hidden settings over a five-class diamond hierarchy with virtual bases and over a hierarchy with private and protected bases",
 "tests have a few fixed hierarchies", ["src/visible_decls.cpp", "src/annotated_decl.cpp", "src/decl_context_graph_processing.cpp", "src/expose.cpp"],
 [("RecordInliningPolicy", "src/decl_context_graph_processing.cpp"), ("RecordExposer::inlineBases", "src/expose.cpp")])
prop("C18", "Enumerations",
 "Every exposed enumeration binds exactly its visible enumerators, in order, each under its own or requested name with its own value; its values are exported to the enclosing scope after all of them are bound exactly when export_values says so, by default for unscoped enumerations only; it supports arithmetic exactly when requested.",
 ["inputs", "programs"], "all combinations of 8 settings on unscoped, scoped and nested enumerations and of visibility and renaming of enumerators",
 "tests have a few fixed enums", ["src/expose.cpp", "src/annotated_decl.cpp"], [("EnumExposer", "src/expose.cpp"), ("EnumDeclAttrs", "src/annotated_decl.cpp")])
prop("C19", "Data members and variables",
 "Every visible, accessible data member is exposed exactly once under its name, as static exactly when it is static, and is writable from Python exactly when it is neither const nor marked readonly; namespace-scope variables become attributes of their scope; hidden or inaccessible ones are not mentioned.",
 ["inputs", "programs"], "all combinations of readonly / hidden / expose_as / access settings on plain, const, static, constexpr, pointer and function pointer members of classes, class templates and unions and on variables",
 "tests have a few fixed members", ["src/expose.cpp", "src/annotated_decl.cpp", "src/visible_decls.cpp"], [("RecordExposer::handleDeclImpl", "src/expose.cpp"), ("DeclContextExposer::handleDecl", "src/expose.cpp")])
prop("C26", "Manual bindings and postamble",
 "The code of every visible manual binding is emitted completely and exactly once, applied to the scope it is written in and at its place among the other declarations; postamble code, and only that, runs after everything else has been exposed, in the order written.",
 ["inputs", "programs"], "all combinations of visible / hidden / postamble settings on six manual bindings in the global scope, a namespace and a class, and of the settings of their scopes",
 "tests have a few fixed manual bindings", ["src/expose.cpp", "src/annotated_decl.cpp"], [("DeclContextExposer::handleDecl (manual bindings)", "src/expose.cpp"), ("TranslationUnitExposer::emitModule (postamble)", "src/expose.cpp")])
prop("C15", "Splitting the module over several files loses and duplicates nothing",
 "For every number of output files, all files together define the same module as a single file: the module definition is in the first file, every function it calls is declared before and defined exactly once over all files (declared before its definition, with the same signature everywhere), every file begins with the same includes (the header, the support headers and those requested by pragma), and the functions are spread evenly.",
 ["inputs", "programs"], "1, 2, 3, 7 (thorough: also 4, 5, 6, 12) files x all combinations of the visibility settings of 7 contexts, i.e. 3 to 8 generated functions",
 "tests use one or two files", ["src/expose.cpp", "src/tool.cpp"], [("TranslationUnitExposer::emitModule", "src/expose.cpp"), ("GenpybindASTConsumer::HandleTranslationUnit", "src/tool.cpp")])
prop("C16", "Compiler command line: C++17 or later, everything else preserved",
 "Whatever compiler command line is given, the header is parsed as C++ (language given exactly once, before all other arguments) and with the last requested standard if it is C++20 or later, otherwise with C++17, with GNU extensions exactly if the last requested standard has them; a resource directory is added exactly when none was given; all other arguments are kept in order and those after -- are untouched.",
 ["inputs"], "every pair (thorough: triple) of arguments of the kinds -std=, -std=c++, -x, -resource-dir, --, and arbitrary texts of 2 or 3 bytes; every two -std= values of up to 10 bytes",
 "tests cover a few fixed command lines", ["src/tool.cpp"], [("getCpp17OrLaterAdjuster, getDefaultResourceDirAdjuster", "src/tool.cpp")], observe=["compiler command line handed to clang"])
prop("C17", "Documentation is carried over exactly",
 "The docstring of every function, method, constructor, call operator, class, enumeration and enumerator denotes exactly the brief documentation of that declaration (for function templates that of the template), byte by byte, and is a well-formed string literal for any text; undocumented classes, enumerations and enumerators have none, undocumented functions an empty one.",
 ["inputs"], "every documentation text with 2 or 3 (thorough: 4) arbitrary bytes other than blanks and control characters that separate words, on 11 kinds of declarations; all combinations of documented and undocumented declarations, redeclarations and operators",
 "tests have a few plain comments", ["src/expose.cpp"], [("getBriefText, getDocstring, emitStringLiteral", "src/expose.cpp")])
prop("C21", "Annotation arguments are values",
 "Annotation argument values keep kind and contents through every sequence of assignments, copies and moves between them, including from themselves and of their own text; values that were moved from stay usable; equality holds exactly for equal kind and contents; printing a string yields a literal that denotes it.",
 ["histories", "inputs"], "all pairs of initial values, followed by every sequence of 2 (thorough: 3) of 14 operations on two values, symbolic numbers, booleans and string bytes; printing of every string of 2 (thorough: 4) bytes",
 "tests cover single operations; mistakes in ownership show only after certain sequences", ["src/annotations/literal_value.cpp", "include/genpybind/annotations/literal_value.h"],
 [("LiteralValue", "src/annotations/literal_value.cpp")], observe=["LiteralValue interface"])
prop("C22", "Generated names never clash",
 "All functions and objects of the generated module have distinct, valid identifiers, whatever the names of the exposed classes and namespaces, and the members of each class end up in the function of that class.",
 ["inputs", "programs"], "all combinations of visibility and module settings on 8 classes and namespaces (and four template instances) whose names coincide or become equal to each other's numbered variants when turned into identifiers",
 "clashes need particular names that tests do not contain", ["src/expose.cpp", "src/string_utils.cpp"], [("DiscriminateIdentifiers", "src/expose.cpp"), ("TranslationUnitExposer::emitModule", "src/expose.cpp")])
prop("C25", "All or nothing: no output files after a failure",
 "If anything is wrong with the input, whenever it is detected, or an output file cannot be created, the tool reports an error, exits with non-zero status and none of the requested output files is created; otherwise it exits with status 0 and all of them exist and are complete; --xfail only reverses the exit status.",
 ["inputs", "fault_sequences"], "all combinations of 6 kinds of mistakes (detected in every phase) with 1 and 3 output files; failure to open any one of 3 output files; two headers that do not compile, under all visibility settings",
 "tests check a few single mistakes with one output file", ["src/tool.cpp", "src/expose.cpp", "src/decl_context_graph_builder.cpp", "src/annotated_decl.cpp"],
 [("GenpybindASTConsumer::HandleTranslationUnit", "src/tool.cpp"), ("GenpybindAction::shouldEraseOutputFiles", "src/tool.cpp")], observe=["output files", "exit status", "diagnostics"])
prop("C23", "Determinism",
 "Two runs on the same input produce the same output, independent of address space layout.", ["schedules"], "all memory layouts",
 "a test observes a handful of layouts", ["src/expose.cpp", "src/decl_context_graph_processing.cpp"], [("iteration over pointer-keyed containers", "src/decl_context_graph_processing.cpp")])
prop("C27", "Default arguments keep their meaning",
 "Every default argument of an exposed function, method or constructor (also of instantiated templates) is emitted with the parameter it belongs to, as an expression that denotes the same value at the scope of the generated code: literals, operators and the order of evaluation are preserved, names, types and enumerators are fully qualified, braced initialisers carry their type exactly once, null pointer constants stay null pointers; independently of the other settings of the function. Conversions to the parameter type (left to pybind11), declarations inside of lambda expressions, new-expressions, user-defined literals and members of unnamed namespaces are not part of this.",
 ["inputs", "programs"], "annotations of 32 functions, methods, constructors and templates of a fixed header with about 190 default argument expressions of every supported kind",
 "tests have some forty expressions without other settings; each kind of expression is qualified by code of its own", ["src/expose.cpp", "src/instantiate_default_arguments.cpp"], [("AttemptFullQualificationPrinter", "src/expose.cpp"), ("emitParameters", "src/expose.cpp")])
prop("C28", "Pragma includes",
 "Every header requested by #pragma genpybind include - in the header itself or in one it includes, inside or outside of namespaces, but not in skipped sections - is included by every generated file, spelled exactly as written, in the order of the directives, after the header and the support headers.",
 ["inputs", "programs"], "four directives, three of them with symbolic file names (3 letters or 3 arbitrary file name characters each) and both kinds of delimiters, one or two output files; malformed directives are diagnosed by clang's lexer code, which is not encoded",
 "tests use two names", ["src/pragmas.cpp", "src/tool.cpp"], [("PragmaGenpybindHandler::HandlePragma", "src/pragmas.cpp"), ("GenpybindASTConsumer::HandleTranslationUnit", "src/tool.cpp")])
prop("C32", "Overloads are registered in the order of declaration",
 "Functions, methods and constructors that end up under the same Python name in the same scope (overloads, also through renaming, inlined bases, using-declarations and several openings of a namespace) are registered in the order in which they are declared in the header, each once, because pybind11 tries overloads in this order.",
 ["inputs", "programs"], "all combinations of hidden / renamed settings on methods, constructors, functions of three openings of a namespace and a member of an inlined base that is also named by a using-declaration",
 "the tests look for the presence of overloads; which one is called depends on their order",
 ["src/expose.cpp", "src/sort_decls.cpp", "src/visible_decls.cpp"],
 [("TranslationUnitExposer::emitModule", "src/expose.cpp"), ("IsBeforeInTranslationUnit", "src/sort_decls.cpp")])
prop("C33", "What is visible but concealed is reported",
 "A class, union or enumeration which contains a visible declaration (an accessible member, or a nested or relocated type) but is not exposed itself, because it or an enclosing class is hidden, is reported by exactly one warning, at the expose_here alias if it was relocated; nothing else is reported: neither exposed declarations nor the contents of namespaces restricted to other modules.",
 ["inputs", "programs"], "all combinations of visible / hidden / default settings and access specifiers on three levels of nesting, relocated classes, enumerations and restricted namespaces",
 "tests have a handful of combinations; whether something gets lost silently depends on all levels together",
 ["src/decl_context_graph_processing.cpp"],
 [("reportUnreachableVisibleDeclContexts", "src/decl_context_graph_processing.cpp"), ("declContextsWithVisibleNamedDecls", "src/decl_context_graph_processing.cpp"), ("pruneGraph", "src/decl_context_graph_processing.cpp")])
prop("C34", "The dumped graph is the one used for generation",
 "--dump-graph=visibility prints every namespace opening, class and enumeration of the header exactly once, below the context it belongs to (that of the expose_here alias for relocated ones), with its name, its Python name if that is different, and its effective visibility (openings of a namespace share these); --dump-graph=pruned prints exactly those contexts that the generated module has; dumping affects neither the generated code nor the exit status.",
 ["inputs", "programs"], "all combinations of annotations on the contexts of a fixed header with two openings of a namespace, nested, private and relocated classes, an enumeration and a nested namespace",
 "the dumps are the only means to debug visibility; tests compare them for a few fixed headers",
 ["src/inspect_graph.cpp", "src/tool.cpp"],
 [("GraphPrinter", "src/inspect_graph.cpp"), ("inspectGraph", "src/tool.cpp"), ("DeclContextGraphBuilder::buildGraph", "src/decl_context_graph_builder.cpp")])
prop("C29", "Annotated templates are instantiated completely",
 "Every class template specialisation that is named by an annotated type alias, also through other aliases, nested templates or aliases inside another such specialisation, or explicitly instantiated with an annotation is exposed (where its visibility says so, or at the alias for expose_here) once, with all its members and nested classes, the primary, partial or explicit specialisation being the one C++ selects; specialisations only named by unannotated aliases are not instantiated; an error in a member of an instantiated template is reported and nothing is generated.",
 ["inputs", "programs"], "annotations of 16 aliases and 3 explicit instantiations of 8 class templates of a fixed header, each under every alternative",
 "tests have a few aliases of one template", ["src/instantiate_annotated_templates.cpp", "src/expose.cpp"], [("InstantiateAnnotatedTemplatesASTConsumer", "src/instantiate_annotated_templates.cpp")])
prop("C30", "The annotation macros are neutral for other compilers",
 "Without __GENPYBIND__ the annotation macros expand to nothing that affects the program.", ["programs"], "all annotated headers",
 "infinitely many headers", ["public/genpybind/genpybind.h"], [("GENPYBIND macros", "public/genpybind/genpybind.h")])
prop("C31", "Generated code compiles",
 "For every accepted header the generated source compiles against pybind11 and the module can be imported.", ["programs"], "all headers",
 "infinitely many headers", ["src/expose.cpp"], [("Exposers", "src/expose.cpp")])
NA = [
 ("C23", "needs two runs with a symbolic memory layout; addresses are concrete in the engine (hash tables keyed by pointers are native clang/LLVM containers), so the solver has nothing to vary"),
 ("C30", "a fact about macro text processed by the C++ preprocessor of other compilers; no code of genpybind runs"),
 ("C31", "acceptance by a C++ compiler and CPython cannot be expressed as an assertion over encoded code; its decidable parts (order, uniqueness, literals, single definitions) are C08, C15, C17, C22"),
]
if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"] + zoo(p["id"])},
                                "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                "observe_at": p.get("observe", ["generated module source", "exit status", "diagnostics"])}}) + "\n")
    na = {n[0] for n in NA}
    T = "bounded symbolic execution of the real code (LLVM IR instrumentation) with z3; counterexamples replayed on a plain build"
    m = {"version": 1, "setup_cmd": "python3 gpv setup", "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA],
         "notes": "All checks share one engine (engine/), one harness library (harness/) and one driver (gpv). See DESIGN.md."}
    c = {}
    for p in P:
        if p["id"] in na: continue
        m["checks"].append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick python3 gpv check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 gpv check {p['id']}",
                            "technique": T, "level": "model_checking",
                            "level_note": p.get("note", "") or "Holds for every value of the symbolic inputs within the stated bounds; trusts clang's front end on the fixed templates, the instrumentation (validated by replays) and z3."})
        c[p["id"]] = {"bounds": p["text"] + zoo(p["id"]), "quick_s": p.get("quick_s", 300), "thorough_s": p.get("thorough_s", 2400)}
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    json.dump(c, open("checks.json", "w"), indent=1)
