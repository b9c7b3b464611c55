// Lists the namespace-scope declarations of the library in a translation unit: name, signature, exported or not.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Frontend/ASTUnit.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
using namespace clang;
static std::string root;
static void walk(const DeclContext* dc, ASTContext& c) {
    const auto& sm = c.getSourceManager();
    for (const Decl* d : dc->decls()) {
        if (isa<NamespaceDecl>(d) || isa<ExportDecl>(d) || isa<LinkageSpecDecl>(d)) { walk(cast<DeclContext>(d), c); continue; }
        auto at = sm.getFileLoc(d->getLocation());
        auto file = sm.getFilename(at).str();
        if (file.compare(0, root.size(), root) != 0) continue;
        const Decl* e = d;
        if (auto* u = dyn_cast<UsingShadowDecl>(d)) continue;
        if (auto* t = dyn_cast<ClassTemplateSpecializationDecl>(d)) continue;
        if (auto* t = dyn_cast<VarTemplateSpecializationDecl>(d)) continue;
        auto* n = dyn_cast<NamedDecl>(e);
        if (!n || isa<UsingDirectiveDecl>(e)) continue;
        if (!n->getLexicalDeclContext()->getRedeclContext()->isFileContext() || !n->getDeclContext()->getRedeclContext()->isFileContext()) continue;
        const FunctionDecl* f = dyn_cast<FunctionDecl>(e);
        if (auto* t = dyn_cast<FunctionTemplateDecl>(e)) f = t->getTemplatedDecl();
        if (f && f->getTemplateSpecializationKind() == TSK_ExplicitSpecialization) continue;
        std::string sig = f ? f->getType().getAsString() : std::string(e->getDeclKindName());
        bool fwd = isa<TagDecl>(e) && !cast<TagDecl>(e)->isThisDeclarationADefinition();
        if (auto* t = dyn_cast<ClassTemplateDecl>(e)) fwd = !t->isThisDeclarationADefinition();
        // a declaration is visible to importers when any of its redeclarations is exported
        bool exported = false;
        for (const Decl* r : n->redecls()) exported |= r->isInExportDeclContext();
        llvm::outs() << n->getQualifiedNameAsString() << "\t" << sig << "\t" << (exported ? 1 : 0) << "\t" << (fwd ? 1 : 0) << "\t" << file.substr(root.size()) << ":" << sm.getSpellingLineNumber(at) << "\t"
                     << (n->isInAnonymousNamespace() || n->getFormalLinkage() == Linkage::Internal ? 1 : 0) << "\n";
    }
}
int main(int argc, char** argv) {
    root = argv[1];
    std::string file = argv[2];
    std::ifstream in(file);
    std::stringstream ss;
    ss << in.rdbuf();
    std::vector<std::string> args(argv + 3, argv + argc);
    auto u = tooling::buildASTFromCodeWithArgs(ss.str(), args, file, "clang++");
    if (!u || u->getDiagnostics().hasErrorOccurred()) return 2;
    walk(u->getASTContext().getTranslationUnitDecl(), u->getASTContext());
    return 0;
}
