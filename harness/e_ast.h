#pragma once
#include <string>
#include <vector>
namespace clang { class ASTContext; class NamedDecl; }
struct AnnoSlot { char *data; unsigned *len; };
/// Attributes carrying GENPYBIND(__sel_<name>); text storage is made maxlen long.
std::vector<AnnoSlot> findAnno(clang::ASTContext &, const char *name, size_t maxlen);
std::vector<clang::NamedDecl *> findDecls(clang::ASTContext &, const char *qualified);
/// Brief texts of all comments that contain /*@name*/; the storage is made maxlen+1 long.
std::vector<char *> findBrief(clang::ASTContext &, const char *name, size_t maxlen);
/// Placeholders of symbolic tokens, and where they are on the heap.
extern std::vector<std::string> g_tokens;
std::vector<char *> findHeap(const std::string &text, const std::string &except);
