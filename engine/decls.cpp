// Lists every function / external variable declaration and enum constant of a translation unit (libclang), as JSON lines.
#include <clang-c/Index.h>
#include <cstdio>
#include <string>
#include <vector>
static std::string str(CXString s) { const char *c = clang_getCString(s); std::string r = c ? c : ""; clang_disposeString(s); return r; }
static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((unsigned char)c < 32) { o += ' '; continue; } o += c; } return o; }
static std::string where(CXCursor c, bool &sys) {
  CXSourceLocation l = clang_getCursorLocation(c); sys = clang_Location_isInSystemHeader(l);
  CXFile f; unsigned ln; clang_getExpansionLocation(l, &f, &ln, nullptr, nullptr);
  std::string n = str(clang_getFileName(f)); size_t p = n.rfind('/');
  return n.substr(p == std::string::npos ? 0 : p + 1) + ":" + std::to_string(ln);
}
static std::string ty(CXType t) { return str(clang_getTypeSpelling(clang_getCanonicalType(t))); }
static std::vector<std::string> stack;
static CXChildVisitResult visit(CXCursor c, CXCursor parent, CXClientData) {
  CXCursorKind k = clang_getCursorKind(c);
  bool sys; std::string w = where(c, sys);
  if (sys && clang_getCursorKind(parent) == CXCursor_TranslationUnit) return CXChildVisit_Continue;
  if (k == CXCursor_FunctionDecl) {
    CXType t = clang_getCursorType(c);
    int n = clang_Cursor_getNumArguments(c);
    bool noproto = clang_getCanonicalType(t).kind == CXType_FunctionNoProto;
    printf("{\"kind\":\"function\",\"name\":\"%s\",\"result\":\"%s\",\"noproto\":%s,\"definition\":%s,\"static\":%s,\"where\":\"%s\",\"in\":\"%s\",\"params\":[", str(clang_getCursorSpelling(c)).c_str(), esc(ty(clang_getResultType(t))).c_str(),
           noproto ? "true" : "false", clang_isCursorDefinition(c) ? "true" : "false", clang_getCursorLinkage(c) == CXLinkage_Internal ? "true" : "false", w.c_str(), stack.empty() ? "" : stack.back().c_str());
    for (int i = 0; i < n; i++) { CXCursor a = clang_Cursor_getArgument(c, i); printf("%s[\"%s\",\"%s\"]", i ? "," : "", esc(ty(clang_getCursorType(a))).c_str(), esc(str(clang_getCursorSpelling(a))).c_str()); }
    printf("]}\n");
    if (clang_isCursorDefinition(c)) { stack.push_back(str(clang_getCursorSpelling(c))); clang_visitChildren(c, visit, nullptr); stack.pop_back(); }
    return CXChildVisit_Continue;
  }
  if (k == CXCursor_VarDecl && clang_getCursorLinkage(c) == CXLinkage_External) {
    bool ext = clang_Cursor_getStorageClass(c) == CX_SC_Extern;
    printf("{\"kind\":\"variable\",\"name\":\"%s\",\"type\":\"%s\",\"definition\":%s,\"where\":\"%s\"}\n", str(clang_getCursorSpelling(c)).c_str(), esc(ty(clang_getCursorType(c))).c_str(), ext ? "false" : "true", w.c_str());
    return CXChildVisit_Continue;
  }
  if (k == CXCursor_StructDecl && clang_isCursorDefinition(c)) {
    CXType t = clang_getCursorType(c);
    std::string fields; 
    clang_visitChildren(c, [](CXCursor f, CXCursor, CXClientData d) { if (clang_getCursorKind(f) == CXCursor_FieldDecl) *(std::string *)d += ty(clang_getCursorType(f)) + " " + str(clang_getCursorSpelling(f)) + "; "; return CXChildVisit_Continue; }, &fields);
    printf("{\"kind\":\"struct\",\"name\":\"%s\",\"fields\":\"%s\",\"where\":\"%s\"}\n", esc(str(clang_getTypeSpelling(t))).c_str(), esc(fields).c_str(), w.c_str());
    return CXChildVisit_Continue;
  }
  if (k == CXCursor_EnumConstantDecl) { printf("{\"kind\":\"enum\",\"name\":\"%s\",\"value\":%lld,\"where\":\"%s\"}\n", str(clang_getCursorSpelling(c)).c_str(), clang_getEnumConstantDeclValue(c), w.c_str()); return CXChildVisit_Continue; }
  if (k == CXCursor_InitListExpr) return CXChildVisit_Continue;
  return CXChildVisit_Recurse;
}
int main(int argc, char **argv) {
  CXIndex ix = clang_createIndex(0, 0);
  CXTranslationUnit tu = nullptr;
  CXErrorCode e = clang_parseTranslationUnit2(ix, argv[1], argv + 2, argc - 2, nullptr, 0, CXTranslationUnit_KeepGoing, &tu);
  if (e != CXError_Success || !tu) { fprintf(stderr, "cannot parse %s\n", argv[1]); return 2; }
  clang_visitChildren(clang_getTranslationUnitCursor(tu), visit, nullptr);
  unsigned nd = clang_getNumDiagnostics(tu);
  for (unsigned i = 0; i < nd; i++) {
    CXDiagnostic d = clang_getDiagnostic(tu, i);
    CXSourceLocation l = clang_getDiagnosticLocation(d); CXFile f; unsigned ln; clang_getExpansionLocation(l, &f, &ln, nullptr, nullptr);
    std::string n = str(clang_getFileName(f)); size_t p = n.rfind('/');
    printf("{\"kind\":\"diag\",\"severity\":%d,\"option\":\"%s\",\"text\":\"%s\",\"where\":\"%s:%u\"}\n", clang_getDiagnosticSeverity(d), str(clang_getDiagnosticOption(d, nullptr)).c_str(), esc(str(clang_getDiagnosticSpelling(d))).c_str(), n.substr(p == std::string::npos ? 0 : p + 1).c_str(), ln);
  }
  return 0;
}
