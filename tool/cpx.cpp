// cpx: extracts the resolved (type-checked, template-instantiated) program of one
// translation unit as JSON.  Only declarations whose spelling lies under the
// given roots are emitted with bodies.  Nothing is executed.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/Decl.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Lexer.h>
#include <clang/Lex/MacroInfo.h>
#include <clang/Lex/PPCallbacks.h>
#include <clang/Lex/Preprocessor.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using llvm::raw_ostream;

static std::vector<std::string> Roots;
static std::string OutPath;
static bool EmitDep = false; // also emit uninstantiated template patterns

static std::string esc(llvm::StringRef s) {
    std::string r;
    r.reserve(s.size() + 2);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

struct MacroRec { std::string name, file; int line; bool undef; bool fnlike; };

struct Extractor : RecursiveASTVisitor<Extractor> {
    ASTContext& Ctx;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const void*, int> declIds;
    std::map<const void*, int> typeIds;
    std::vector<std::string> typeRecs;
    std::map<std::string, int> fileIds;
    std::vector<std::string> files;
    std::vector<std::string> funcs, vars, recs, decls, patterns;
    std::set<const void*> doneFuncs, doneVars, doneRecs, doneDecls, donePatterns;
    std::vector<const FunctionDecl*> queue;
    std::vector<const CXXRecordDecl*> recQueue;
    const FunctionDecl* curFn = nullptr;

    Extractor(ASTContext& C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
        PP.FullyQualifiedName = true;
        PP.SuppressTagKeyword = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }

    int fileId(llvm::StringRef f) {
        auto it = fileIds.find(f.str());
        if (it != fileIds.end()) return it->second;
        int n = files.size();
        files.push_back(f.str());
        fileIds[f.str()] = n;
        return n;
    }
    std::string fname(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        return SM.getFilename(L).str();
    }
    bool inRoots(SourceLocation L) {
        std::string f = fname(L);
        for (auto& r : Roots) if (f.rfind(r, 0) == 0) return true;
        return false;
    }
    std::string loc(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "[-1,0,0]";
        return "[" + std::to_string(fileId(SM.getFilename(L))) + "," + std::to_string(SM.getSpellingLineNumber(L)) + "," + std::to_string(SM.getSpellingColumnNumber(L)) + "]";
    }
    int line(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return 0;
        return SM.getSpellingLineNumber(L);
    }
    int id(const void* p) {
        auto it = declIds.find(p);
        if (it != declIds.end()) return it->second;
        int n = declIds.size() + 1;
        declIds[p] = n;
        return n;
    }
    int did(const Decl* D) {
        if (auto* F = dyn_cast<FunctionDecl>(D)) {
            const FunctionDecl* Def = nullptr;
            if (F->isDefined(Def)) return id(Def->getCanonicalDecl());
        }
        return id(D->getCanonicalDecl());
    }
    int type(QualType T) {
        if (T.isNull()) return -1;
        T = T.getCanonicalType();
        const void* k = T.getAsOpaquePtr();
        auto it = typeIds.find(k);
        if (it != typeIds.end()) return it->second;
        int n = typeRecs.size();
        typeIds[k] = n;
        typeRecs.push_back("");
        std::string s = "{\"s\":\"" + esc(T.getAsString(PP)) + "\"";
        if (T.isConstQualified()) s += ",\"c\":1";
        if (T->isDependentType()) s += ",\"dep\":1";
        if (auto* R = T->getAs<ReferenceType>()) {
            s += std::string(",\"ref\":") + (T->isRValueReferenceType() ? "2" : "1") + ",\"of\":" + std::to_string(type(R->getPointeeType()));
        } else if (auto* P = T->getAs<PointerType>()) {
            s += ",\"ptr\":1,\"of\":" + std::to_string(type(P->getPointeeType()));
        } else if (auto* A = Ctx.getAsArrayType(T)) {
            s += ",\"arr\":1,\"of\":" + std::to_string(type(A->getElementType()));
            if (auto* CA = dyn_cast<ConstantArrayType>(A)) s += ",\"n\":" + std::to_string(CA->getSize().getZExtValue());
        } else if (auto* RD = T->getAsCXXRecordDecl()) {
            const CXXRecordDecl* D = RD->getDefinition() ? RD->getDefinition() : RD;
            s += ",\"rec\":" + std::to_string(id(D->getCanonicalDecl()));
            record(D);
        } else if (!T->isDependentType() && T->isIntegralOrEnumerationType() && !T->isIncompleteType()) {
            s += ",\"int\":" + std::to_string(Ctx.getIntWidth(T)) + ",\"sg\":" + (T->isSignedIntegerOrEnumerationType() ? "1" : "0");
            if (T->isEnumeralType()) s += ",\"enum\":1";
            if (T->isBooleanType()) s += ",\"bool\":1";
        } else if (!T->isDependentType() && T->isFloatingType()) {
            s += ",\"flt\":" + std::to_string(Ctx.getTypeSize(T));
        } else if (T->isVoidType()) s += ",\"void\":1";
        s += "}";
        typeRecs[n] = s;
        return n;
    }
    static const char* acc(AccessSpecifier A) {
        switch (A) { case AS_public: return "public"; case AS_protected: return "protected"; case AS_private: return "private"; default: return "none"; }
    }
    std::string qual(const NamedDecl* D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    // a template-argument-free qualified name: stable key for tables
    std::string plainQual(const NamedDecl* D) {
        std::string s = D->getDeclName().getAsString();
        if (auto* C = dyn_cast<CXXRecordDecl>(D)) if (C->isLambda()) s = "(lambda)";
        if (isa<CXXConstructorDecl>(D)) s = "(ctor)";
        if (isa<CXXDestructorDecl>(D)) s = "(dtor)";
        if (isa<CXXConversionDecl>(D)) s = "operator(conv)";
        const DeclContext* DC = D->getDeclContext();
        while (DC) {
            if (auto* N = dyn_cast<NamespaceDecl>(DC)) {
                if (!N->isInline() || N->getName().str().rfind("__", 0) != 0) if (!N->isAnonymousNamespace()) s = N->getName().str() + "::" + s;
            } else if (auto* R = dyn_cast<RecordDecl>(DC)) {
                auto* CR = dyn_cast<CXXRecordDecl>(R);
                s = (CR && CR->isLambda() ? std::string("(lambda)") : R->getName().empty() ? std::string("(anon)") : R->getName().str()) + "::" + s;
            } else if (auto* F = dyn_cast<FunctionDecl>(DC)) {
                std::string n = isa<CXXConstructorDecl>(F) ? "(ctor)" : F->getDeclName().getAsString();
                s = n + "()::" + s;
            }
            DC = DC->getParent();
        }
        return s;
    }
    void declInfo(const FunctionDecl* F) {
        int i = did(F);
        if (!doneDecls.insert((void*)(intptr_t)i).second) return;
        std::string s = "{\"id\":" + std::to_string(i) + ",\"n\":\"" + esc(F->getDeclName().getAsString()) + "\",\"q\":\"" + esc(plainQual(F)) + "\"";
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            s += ",\"cls\":" + std::to_string(id(M->getParent()->getCanonicalDecl()));
            if (M->isConst()) s += ",\"const\":1";
            if (M->isStatic()) s += ",\"static\":1";
            if (isa<CXXConstructorDecl>(M)) s += std::string(",\"ctor\":\"") + (cast<CXXConstructorDecl>(M)->isCopyConstructor() ? "copy" : cast<CXXConstructorDecl>(M)->isMoveConstructor() ? "move" : cast<CXXConstructorDecl>(M)->isDefaultConstructor() ? "default" : "user") + "\"";
            if (isa<CXXDestructorDecl>(M)) s += ",\"dtor\":1";
            if (isa<CXXConversionDecl>(M)) s += ",\"conv\":1";
            if (M->isImplicit() || M->isDefaulted()) s += ",\"dflt\":1";
            if (M->isCopyAssignmentOperator()) s += ",\"cpasgn\":1";
            if (M->isMoveAssignmentOperator()) s += ",\"mvasgn\":1";
        }
        if (F->isOverloadedOperator()) s += std::string(",\"op\":\"") + esc(getOperatorSpelling(F->getOverloadedOperator())) + "\"";
        s += ",\"ret\":" + std::to_string(type(F->getReturnType())) + ",\"pt\":[";
        for (unsigned k = 0; k < F->getNumParams(); k++) s += (k ? "," : "") + std::to_string(type(F->getParamDecl(k)->getType()));
        s += "]";
        if (F->isVariadic()) s += ",\"va\":1";
        bool lib = inRoots(F->getLocation());
        if (lib) s += ",\"lib\":1";
        const FunctionDecl* Def = nullptr;
        if (F->isDefined(Def) && !Def->isDependentContext()) { s += ",\"body\":1"; if (lib) enqueue(Def); }
        s += ",\"loc\":" + loc(F->getLocation()) + "}";
        decls.push_back(s);
    }
    void enqueue(const FunctionDecl* F) {
        if (!F->doesThisDeclarationHaveABody() && !(F->isDefaulted())) return;
        if (F->isDependentContext() && !EmitDep) return;
        if (!inRoots(F->getLocation())) return;
        if (doneFuncs.insert(F->getCanonicalDecl()).second) queue.push_back(F);
    }
    void record(const CXXRecordDecl* D) {
        if (!doneRecs.insert(D->getCanonicalDecl()).second) return;
        recQueue.push_back(D);
    }
    void emitRecord(const CXXRecordDecl* D) {
        std::string s = "{\"id\":" + std::to_string(id(D->getCanonicalDecl())) + ",\"n\":\"" + esc(D->isLambda() ? "(lambda)" : D->getName()) + "\",\"q\":\"" + esc(plainQual(D)) + "\",\"full\":\"" + esc(Ctx.getRecordType(D).getAsString(PP)) + "\"";
        bool lib = inRoots(D->getLocation());
        bool pat = lib;
        SourceLocation PL = D->getLocation();
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
            if (auto* P = S->getTemplateInstantiationPattern()) PL = P->getLocation();
            pat = lib || inRoots(PL);
        }
        if (lib) s += ",\"lib\":1";
        s += ",\"loc\":" + loc(pat ? PL : D->getLocation());
        if (D->isLambda()) s += ",\"lambda\":1";
        if (D->isUnion()) s += ",\"union\":1";
        s += std::string(",\"acc\":\"") + acc(D->getAccess()) + "\"";
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
            s += ",\"targs\":[";
            bool first = true;
            for (auto& A : S->getTemplateArgs().asArray()) {
                std::string as;
                llvm::raw_string_ostream os(as);
                A.print(PP, os, true);
                s += (first ? "\"" : ",\"") + esc(os.str()) + "\"";
                first = false;
            }
            s += "]";
        }
        if (D->isDependentContext()) s += ",\"dep\":1";
        if (D->hasDefinition() && (EmitDep || !D->isDependentContext())) {
            auto* Def = D->getDefinition();
            if (lib || Def->getNumBases()) {
                s += ",\"bases\":[";
                bool first = true;
                for (auto& B : Def->bases()) { s += (first ? "" : ",") + std::to_string(type(B.getType())); first = false; }
                s += "]";
            }
            if (lib || true) {
                s += ",\"fields\":[";
                bool first = true;
                int fi = 0;
                for (auto* F : Def->fields()) {
                    if (!first) s += ",";
                    first = false;
                    s += "{\"id\":" + std::to_string(did(F)) + ",\"n\":\"" + esc(F->getName()) + "\",\"i\":" + std::to_string(fi++);
                    if (pat) s += ",\"t\":" + std::to_string(type(F->getType()));
                    s += std::string(",\"acc\":\"") + acc(F->getAccess()) + "\"";
                    if (F->hasInClassInitializer()) s += ",\"init\":1";
                    if (F->getType()->isReferenceType()) s += ",\"isref\":1";
                    if (F->isMutable()) s += ",\"mut\":1";
                    s += ",\"line\":" + std::to_string(line(F->getLocation())) + "}";
                }
                s += "]";
                if (lib && D->isLambda()) {
                    llvm::DenseMap<const ValueDecl*, FieldDecl*> caps;
                    FieldDecl* thisCap = nullptr;
                    Def->getCaptureFields(caps, thisCap);
                    s += ",\"caps\":[";
                    bool fst = true;
                    for (auto& C : Def->captures()) {
                        if (!fst) s += ",";
                        fst = false;
                        if (C.capturesThis()) s += std::string("{\"this\":1") + (C.getCaptureKind() == LCK_StarThis ? ",\"copy\":1" : "") + "}";
                        else if (C.capturesVariable()) s += "{\"v\":" + std::to_string(did(C.getCapturedVar())) + ",\"ref\":" + (C.getCaptureKind() == LCK_ByRef ? "1" : "0") + "}";
                        else s += "{}";
                    }
                    s += "]";
                }
            }
            if (pat) {
                if (Def->hasUserDeclaredDestructor()) s += ",\"udtor\":1";
                if (Def->hasUserDeclaredCopyConstructor()) s += ",\"ucopy\":1";
                if (Def->hasUserDeclaredCopyAssignment()) s += ",\"uassign\":1";
                if (Def->hasUserDeclaredMoveConstructor()) s += ",\"umove\":1";
                if (Def->hasUserDeclaredMoveAssignment()) s += ",\"umassign\":1";
                bool delCopy = false, delAssign = false;
                for (auto* C : Def->ctors()) if (C->isCopyConstructor() && C->isDeleted()) delCopy = true;
                for (auto* M : Def->methods()) if (M->isCopyAssignmentOperator() && M->isDeleted()) delAssign = true;
                if (delCopy || (!D->isDependentContext() && Def->defaultedCopyConstructorIsDeleted())) s += ",\"delcopy\":1";
                if (delAssign) s += ",\"delassign\":1";
                if (Def->isAggregate()) s += ",\"agg\":1";
                if (Def->hasDefaultConstructor()) s += ",\"hasdef\":1";
                if (Def->hasUserProvidedDefaultConstructor()) s += ",\"udef\":1";
                if (Def->needsImplicitDefaultConstructor()) s += ",\"impdef\":1";
                for (auto* C : Def->ctors()) if (C->isDefaultConstructor() && C->isExplicitlyDefaulted() && !C->isDeleted()) s += ",\"defdef\":" + std::to_string(line(C->getLocation()));
                std::string fr;
                for (auto* M : Def->methods()) {
                    if (!M->isImplicit()) { if (!fr.empty()) fr += ","; fr += "{\"id\":" + std::to_string(did(M)) + ",\"n\":\"" + esc(M->getDeclName().getAsString()) + "\",\"acc\":\"" + acc(M->getAccess()) + "\"" + (M->isDeleted() ? ",\"del\":1" : "") + "}"; }
                }
                if (lib) s += ",\"methods\":[" + fr + "]";
            }
        }
        s += "}";
        recs.push_back(s);
    }

    // ---------- expressions ----------
    std::string J(const char* k, const Stmt* S) {
        std::string s = "{\"k\":\"" + std::string(k) + "\",\"l\":" + std::to_string(line(S->getBeginLoc()));
        return s;
    }
    std::string cv(const Expr* E) {
        if (E->isValueDependent() || E->isTypeDependent()) return "";
        QualType T = E->getType();
        if (!T->isIntegralOrEnumerationType() || E->isGLValue()) return "";
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
            llvm::SmallString<40> b;
            R.Val.getInt().toString(b, 10);
            return ",\"cv\":\"" + b.str().str() + "\"";
        }
        return "";
    }
    const Expr* strip(const Expr* E) {
        while (true) {
            if (auto* P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
            else if (auto* P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
            else if (auto* P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
            else if (auto* P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
            else if (auto* P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
            else if (auto* P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
            else if (auto* P = dyn_cast<FullExpr>(E)) E = P->getSubExpr();
            else if (auto* P = dyn_cast<ImplicitCastExpr>(E)) {
                switch (P->getCastKind()) {
                    case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
                    case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_ArrayToPointerDecay:
                        E = P->getSubExpr(); continue;
                    default: return E;
                }
            } else if (auto* P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
            else if (auto* P = dyn_cast<CXXDefaultInitExpr>(E)) { if (!P->getExpr()) return E; E = P->getExpr(); }
            else if (auto* P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
            else return E;
        }
    }
    std::string qn(const NestedNameSpecifier* Q) {
        if (!Q) return "";
        std::string b; llvm::raw_string_ostream os(b); Q->print(os, Ctx.getPrintingPolicy());
        return ",\"qn\":\"" + esc(os.str()) + "\"";
    }
    std::string args(llvm::ArrayRef<const Expr*> A) {
        std::string s = "[";
        bool f = true;
        for (auto* a : A) { if (!f) s += ","; f = false; s += expr(a); }
        return s + "]";
    }
    template <class It> std::string argsIt(It b, It e) {
        std::string s = "[";
        bool f = true;
        for (; b != e; ++b) { if (!f) s += ","; f = false; s += expr(*b); }
        return s + "]";
    }
    std::string expr(const Expr* E0) {
        if (!E0) return "null";
        const Expr* E = strip(E0);
        std::string T = ",\"t\":" + std::to_string(type(E->getType()));
        if (E->isLValue()) T += ",\"lv\":1";
        else if (E->isXValue()) T += ",\"lv\":2";
        if (auto* L = dyn_cast<IntegerLiteral>(E)) return J("int", L) + T + cv(L) + "}";
        if (auto* L = dyn_cast<CXXBoolLiteralExpr>(E)) return J("int", L) + T + ",\"cv\":\"" + (L->getValue() ? "1" : "0") + "\"}";
        if (auto* L = dyn_cast<CharacterLiteral>(E)) return J("int", L) + T + ",\"cv\":\"" + std::to_string(L->getValue()) + "\"}";
        if (auto* L = dyn_cast<FloatingLiteral>(E)) { llvm::SmallString<40> b; L->getValue().toString(b); return J("float", L) + T + ",\"v\":\"" + b.str().str() + "\"}"; }
        if (auto* L = dyn_cast<StringLiteral>(E)) return J("str", L) + T + (L->getCharByteWidth() == 1 ? ",\"v\":\"" + esc(L->getString()) + "\"" : "") + "}";
        if (isa<CXXNullPtrLiteralExpr>(E)) return J("null", E) + T + "}";
        if (auto* D = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl* V = D->getDecl();
            std::string s = J("ref", E) + T + ",\"d\":" + std::to_string(did(V)) + ",\"n\":\"" + esc(V->getNameAsString()) + "\"";
            if (auto* F = dyn_cast<FunctionDecl>(V)) { declInfo(F); s += ",\"dk\":\"fn\""; }
            else if (auto* VD = dyn_cast<VarDecl>(V)) {
                if (VD->hasGlobalStorage()) { s += ",\"dk\":\"gvar\""; noteVar(VD); }
                else if (isa<ParmVarDecl>(VD)) s += ",\"dk\":\"parm\"";
                else s += ",\"dk\":\"var\"";
                s += cv(E);
                if (VD->hasGlobalStorage() || VD->isConstexpr() || VD->getType().isConstQualified()) {
                    if (E->getType()->isIntegralOrEnumerationType()) {
                        Expr::EvalResult R;
                        if (!E->isValueDependent() && E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
                            llvm::SmallString<40> b; R.Val.getInt().toString(b, 10);
                            s += ",\"cv\":\"" + b.str().str() + "\"";
                        }
                    }
                }
            }
            else if (isa<BindingDecl>(V)) s += ",\"dk\":\"bind\"";
            else if (auto* EC = dyn_cast<EnumConstantDecl>(V)) { llvm::SmallString<40> b; EC->getInitVal().toString(b, 10); s += ",\"dk\":\"enum\",\"cv\":\"" + b.str().str() + "\""; }
            else s += ",\"dk\":\"other\"";
            return s + "}";
        }
        if (auto* M = dyn_cast<MemberExpr>(E)) {
            const ValueDecl* V = M->getMemberDecl();
            std::string s = J("mem", E) + T + ",\"d\":" + std::to_string(did(V)) + ",\"n\":\"" + esc(V->getNameAsString()) + "\"" + (M->isArrow() ? ",\"ar\":1" : "");
            if (auto* F = dyn_cast<FunctionDecl>(V)) { declInfo(F); s += ",\"dk\":\"fn\""; }
            else if (auto* VD = dyn_cast<VarDecl>(V)) { s += ",\"dk\":\"gvar\""; noteVar(VD); s += cv(E); }
            else s += ",\"dk\":\"field\"";
            s += ",\"b\":" + expr(M->getBase()) + "}";
            return s;
        }
        if (isa<CXXThisExpr>(E)) return J("this", E) + T + "}";
        if (auto* U = dyn_cast<UnaryOperator>(E)) {
            std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) op += "post";
            return J("un", E) + T + ",\"op\":\"" + esc(op) + "\"" + cv(E) + ",\"e\":" + expr(U->getSubExpr()) + "}";
        }
        if (auto* B = dyn_cast<BinaryOperator>(E)) {
            std::string s = J("bin", E) + T + ",\"op\":\"" + esc(B->getOpcodeStr()) + "\"" + cv(E);
            if (auto* C = dyn_cast<CompoundAssignOperator>(B)) s += ",\"ct\":" + std::to_string(type(C->getComputationResultType())) + ",\"clt\":" + std::to_string(type(C->getComputationLHSType()));
            return s + ",\"a\":" + expr(B->getLHS()) + ",\"b\":" + expr(B->getRHS()) + "}";
        }
        if (auto* C = dyn_cast<AbstractConditionalOperator>(E)) return J("cond", E) + T + cv(E) + ",\"c\":" + expr(C->getCond()) + ",\"a\":" + expr(C->getTrueExpr()) + ",\"b\":" + expr(C->getFalseExpr()) + "}";
        if (auto* A = dyn_cast<ArraySubscriptExpr>(E)) {
            bool dep = A->getLHS()->isTypeDependent() || A->getRHS()->isTypeDependent();
            return J("idx", E) + T + ",\"a\":" + expr(dep ? A->getLHS() : A->getBase()) + ",\"i\":" + expr(dep ? A->getRHS() : A->getIdx()) + "}";
        }
        if (auto* C = dyn_cast<LambdaExpr>(E)) {
            const CXXRecordDecl* R = C->getLambdaClass();
            record(R);
            std::string s = J("lambda", E) + T + ",\"rec\":" + std::to_string(id(R->getCanonicalDecl())) + ",\"ops\":[";
            CXXMethodDecl* Op = C->getCallOperator();
            bool f = true;
            if (auto* FT = Op->getDescribedFunctionTemplate()) {
                for (auto* Sp : FT->specializations()) {
                    enqueueForce(Sp);
                    if (!f) s += ","; f = false;
                    s += std::to_string(did(Sp));
                }
                if (f && EmitDep) { enqueueForce(Op); s += std::to_string(did(Op)); }
                s += "],\"generic\":1";
            } else { enqueueForce(Op); s += std::to_string(did(Op)) + "]"; }
            if (C->getCaptureDefault() != LCD_None) s += std::string(",\"dflt\":\"") + (C->getCaptureDefault() == LCD_ByRef ? "&" : "=") + "\"";
            s += ",\"inits\":[";
            f = true;
            auto ci = C->capture_inits().begin();
            for (auto& Cap : C->captures()) {
                if (!f) s += ","; f = false;
                if (Cap.capturesThis()) s += std::string("{\"this\":1") + (Cap.getCaptureKind() == LCK_StarThis ? ",\"copy\":1" : "") + "}";
                else if (Cap.capturesVariable()) {
                    s += "{\"v\":" + std::to_string(did(Cap.getCapturedVar())) + ",\"n\":\"" + esc(Cap.getCapturedVar()->getNameAsString()) + "\",\"ref\":" + (Cap.getCaptureKind() == LCK_ByRef ? "1" : "0") + ",\"e\":" + expr(*ci) + "}";
                } else s += "{}";
                ++ci;
            }
            return s + "]}";
        }
        if (auto* C = dyn_cast<CXXOperatorCallExpr>(E)) return call(C, E, T, true);
        if (auto* C = dyn_cast<CallExpr>(E)) return call(C, E, T, false);
        if (auto* C = dyn_cast<CXXConstructExpr>(E)) {
            // elide pure copies/moves of prvalues of the same type
            const CXXConstructorDecl* CD = C->getConstructor();
            declInfo(CD);
            std::string s = J("ctor", E) + T + ",\"f\":" + std::to_string(did(CD));
            if (CD->isCopyConstructor()) s += ",\"cp\":1"; else if (CD->isMoveConstructor()) s += ",\"cp\":2";
            if (isa<CXXTemporaryObjectExpr>(C)) s += ",\"tmp\":1";
            if (C->requiresZeroInitialization()) s += ",\"zi\":1";
            return s + ",\"a\":" + argsIt(C->arg_begin(), C->arg_end()) + "}";
        }
        if (auto* C = dyn_cast<CXXInheritedCtorInitExpr>(E)) { declInfo(C->getConstructor()); return J("ctor", E) + T + ",\"inh\":1,\"f\":" + std::to_string(did(C->getConstructor())) + ",\"a\":[]}"; }
        if (auto* C = dyn_cast<CXXStdInitializerListExpr>(E)) return J("stdinit", E) + T + ",\"e\":" + expr(C->getSubExpr()) + "}";
        if (auto* C = dyn_cast<InitListExpr>(E)) {
            const InitListExpr* S = C->isSemanticForm() ? C : (C->getSemanticForm() ? C->getSemanticForm() : C);
            std::string s = J("init", E) + T;
            if (S->getNumInits() > 64) { // constant tables: values only
                std::string v;
                bool ok = true;
                for (unsigned i = 0; i < S->getNumInits() && ok; i++) {
                    Expr::EvalResult R;
                    if (!S->getInit(i)->isValueDependent() && S->getInit(i)->getType()->isIntegralOrEnumerationType() && S->getInit(i)->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
                        llvm::SmallString<40> b; R.Val.getInt().toString(b, 10);
                        v += (i ? "," : "") + ("\"" + b.str().str() + "\"");
                    } else ok = false;
                }
                if (ok) return s + ",\"vals\":[" + v + "],\"a\":[]}";
            }
            s += ",\"a\":[";
            bool f = true;
            for (unsigned i = 0; i < S->getNumInits(); i++) { if (!f) s += ","; f = false; s += expr(S->getInit(i)); }
            s += "]";
            if (S->hasArrayFiller()) s += ",\"fill\":1";
            return s + "}";
        }
        if (auto* C = dyn_cast<CXXParenListInitExpr>(E)) { std::string s = J("init", E) + T + ",\"a\":["; bool f = true; for (auto* x : C->getInitExprs()) { if (!f) s += ","; f = false; s += expr(x); } return s + "]}"; }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return J("zero", E) + T + "}";
        if (auto* C = dyn_cast<CastExpr>(E)) {
            std::string s = J("cast", E) + T + ",\"ck\":\"" + C->getCastKindName() + "\"";
            if (isa<ImplicitCastExpr>(C)) s += ",\"imp\":1";
            else if (C->getBeginLoc().isMacroID()) s += ",\"mac\":1";
            return s + cv(E) + ",\"e\":" + expr(C->getSubExpr()) + "}";
        }
        if (auto* C = dyn_cast<CXXNewExpr>(E)) {
            std::string s = J("new", E) + T + ",\"at\":" + std::to_string(type(C->getAllocatedType()));
            if (C->isArray()) s += ",\"arr\":1,\"sz\":" + (C->getArraySize() ? expr(*C->getArraySize()) : std::string("null"));
            if (C->getNumPlacementArgs()) s += ",\"plc\":" + argsIt(C->placement_arg_begin(), C->placement_arg_end());
            s += ",\"e\":" + expr(C->getInitializer());
            return s + "}";
        }
        if (auto* C = dyn_cast<CXXDeleteExpr>(E)) return J("delete", E) + T + (C->isArrayForm() ? ",\"arr\":1" : "") + ",\"e\":" + expr(C->getArgument()) + "}";
        if (auto* C = dyn_cast<CXXThrowExpr>(E)) return J("throw", E) + T + ",\"e\":" + expr(C->getSubExpr()) + "}";
        if (isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E) || isa<SizeOfPackExpr>(E) || isa<ExpressionTraitExpr>(E)) return J("int", E) + T + cv(E) + "}";
        if (auto* C = dyn_cast<ArrayInitLoopExpr>(E)) return J("arrcopy", E) + T + ",\"e\":" + expr(C->getCommonExpr()->getSourceExpr()) + "}";
        if (auto* C = dyn_cast<OpaqueValueExpr>(E)) return C->getSourceExpr() ? expr(C->getSourceExpr()) : J("opaque", E) + T + "}";
        if (auto* C = dyn_cast<PseudoObjectExpr>(E)) return expr(C->getResultExpr());
        if (auto* C = dyn_cast<StmtExpr>(E)) return J("stmtexpr", E) + T + ",\"s\":" + stmt(C->getSubStmt()) + "}";
        if (isa<PredefinedExpr>(E)) return J("str", E) + T + "}";
        if (auto* C = dyn_cast<CXXTypeidExpr>(E)) return J("opaque", E) + T + "}";
        if (auto* C = dyn_cast<CXXDependentScopeMemberExpr>(E)) return J("mem", E) + T + ",\"dk\":\"dep\",\"n\":\"" + esc(C->getMember().getAsString()) + "\",\"b\":" + (C->isImplicitAccess() ? std::string("null") : expr(C->getBase())) + "}";
        if (auto* C = dyn_cast<UnresolvedMemberExpr>(E)) return J("mem", E) + T + ",\"dk\":\"dep\",\"n\":\"" + esc(C->getMemberName().getAsString()) + "\",\"b\":" + (C->isImplicitAccess() ? std::string("null") : expr(C->getBase())) + "}";
        if (auto* C = dyn_cast<UnresolvedLookupExpr>(E)) return J("ref", E) + T + ",\"dk\":\"dep\",\"n\":\"" + esc(C->getName().getAsString()) + "\"" + qn(C->getQualifier()) + "}";
        if (auto* C = dyn_cast<DependentScopeDeclRefExpr>(E)) return J("ref", E) + T + ",\"dk\":\"dep\",\"n\":\"" + esc(C->getDeclName().getAsString()) + "\"" + qn(C->getQualifier()) + "}";
        std::string s = J("x", E) + T + ",\"cls\":\"" + E->getStmtClassName() + "\",\"a\":[";
        bool f = true;
        for (auto* c : E->children()) if (c) if (auto* ce = dyn_cast<Expr>(c)) { if (!f) s += ","; f = false; s += expr(ce); }
        return s + "]}";
    }
    void enqueueForce(const FunctionDecl* F) {
        const FunctionDecl* Def = nullptr;
        if (!F->isDefined(Def)) return;
        if (Def->isDependentContext() && !EmitDep) return;
        if (!inRoots(Def->getLocation())) return;
        if (doneFuncs.insert(Def->getCanonicalDecl()).second) queue.push_back(Def);
        declInfo(F);
    }
    std::string call(const CallExpr* C, const Expr* E, const std::string& T, bool op) {
        std::string s = J("call", E) + T + cv(E);
        const FunctionDecl* F = C->getDirectCallee();
        if (F) {
            s += ",\"f\":" + std::to_string(did(F)) + ",\"n\":\"" + esc(F->getDeclName().getAsString()) + "\"";
            declInfo(F);
        }
        if (op) {
            s += std::string(",\"opc\":\"") + esc(getOperatorSpelling(cast<CXXOperatorCallExpr>(C)->getOperator())) + "\"";
            bool member = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
            if (member) {
                s += ",\"o\":" + expr(C->getArg(0)) + ",\"a\":" + argsIt(C->arg_begin() + 1, C->arg_end()) + "}";
            } else s += ",\"a\":" + argsIt(C->arg_begin(), C->arg_end()) + "}";
            return s;
        }
        if (auto* MC = dyn_cast<CXXMemberCallExpr>(C)) {
            const Expr* Cal = strip(MC->getCallee());
            if (auto* ME = dyn_cast<MemberExpr>(Cal)) {
                s += ",\"o\":" + expr(ME->getBase()) + (ME->isArrow() ? ",\"ar\":1" : "");
            } else s += ",\"fe\":" + expr(MC->getCallee());
            return s + ",\"a\":" + argsIt(C->arg_begin(), C->arg_end()) + "}";
        }
        if (!F) s += ",\"fe\":" + expr(C->getCallee());
        return s + ",\"a\":" + argsIt(C->arg_begin(), C->arg_end()) + "}";
    }
    // ---------- vars ----------
    void noteVar(const VarDecl* V) {
        if (!V->hasGlobalStorage()) return;
        if (!inRoots(V->getLocation())) return;
        if (V->getDeclContext()->isDependentContext() && !EmitDep) return;
        const VarDecl* D = V->getDefinition() ? V->getDefinition() : V->getCanonicalDecl();
        if (!doneVars.insert(V->getCanonicalDecl()).second) return;
        std::string s = "{\"id\":" + std::to_string(did(V)) + ",\"n\":\"" + esc(V->getNameAsString()) + "\",\"q\":\"" + esc(plainQual(V)) + "\",\"t\":" + std::to_string(type(V->getType()));
        s += ",\"loc\":" + loc(V->getLocation());
        if (V->getDeclContext()->isDependentContext() || V->isTemplated()) s += ",\"dep\":1";
        if (V->isStaticLocal()) s += ",\"st\":\"local\"";
        else if (V->isStaticDataMember()) s += std::string(",\"st\":\"member\",\"acc\":\"") + acc(V->getAccess()) + "\"";
        else s += ",\"st\":\"ns\"";
        if (V->getTLSKind() != VarDecl::TLS_None) s += ",\"tls\":1";
        if (V->getType().isConstQualified()) s += ",\"const\":1";
        if (V->isConstexpr()) s += ",\"constexpr\":1";
        if (V->isInline()) s += ",\"inline\":1";
        if (V->getFormalLinkage() == Linkage::External) s += ",\"ext\":1";
        if (D->isTemplated() || isa<VarTemplateSpecializationDecl>(D) || (V->isStaticDataMember() && cast<CXXRecordDecl>(V->getDeclContext())->getTemplateInstantiationPattern())) s += ",\"templ\":1";
        if (D->isThisDeclarationADefinition()) s += ",\"def\":1";
        if (auto* R = V->getType()->getBaseElementTypeUnsafe()->getAsCXXRecordDecl()) { if (R->hasDefinition() && R->hasMutableFields()) s += ",\"mutf\":1"; }
        const Expr* I = D->getInit();
        if (I && !I->isValueDependent()) s += ",\"init\":" + expr(I);
        s += "}";
        vars.push_back(s);
    }
    // ---------- statements ----------
    std::string varDecl(const VarDecl* V) {
        std::string s = "{\"id\":" + std::to_string(did(V)) + ",\"n\":\"" + esc(V->getNameAsString()) + "\",\"t\":" + std::to_string(type(V->getType())) + ",\"l\":" + std::to_string(line(V->getLocation()));
        if (V->isStaticLocal()) { s += ",\"static\":1"; noteVar(V); }
        if (V->isConstexpr()) s += ",\"cx\":1";
        if (auto* D = dyn_cast<DecompositionDecl>(V)) {
            s += ",\"binds\":[";
            bool f = true;
            for (auto* B : D->bindings()) {
                if (!f) s += ","; f = false;
                s += "{\"id\":" + std::to_string(did(B)) + ",\"n\":\"" + esc(B->getNameAsString()) + "\",\"t\":" + std::to_string(type(B->getType()));
                if (auto* HV = B->getHoldingVar()) s += ",\"hold\":1,\"ht\":" + std::to_string(type(HV->getType()));
                s += "}";
            }
            s += "]";
        }
        if (V->getInit()) s += ",\"e\":" + expr(V->getInit());
        return s + "}";
    }
    std::string stmt(const Stmt* S) {
        if (!S) return "null";
        if (auto* E = dyn_cast<Expr>(S)) return J("expr", S) + ",\"e\":" + expr(E) + "}";
        if (auto* C = dyn_cast<CompoundStmt>(S)) {
            std::string s = J("block", S) + ",\"s\":[";
            bool f = true;
            for (auto* c : C->body()) { if (!f) s += ","; f = false; s += stmt(c); }
            return s + "],\"le\":" + std::to_string(line(C->getRBracLoc())) + "}";
        }
        if (auto* D = dyn_cast<DeclStmt>(S)) {
            std::string s = J("decl", S) + ",\"v\":[";
            bool f = true;
            for (auto* d : D->decls()) {
                if (auto* V = dyn_cast<VarDecl>(d)) { if (!f) s += ","; f = false; s += varDecl(V); }
            }
            return s + "]}";
        }
        if (auto* I = dyn_cast<IfStmt>(S)) {
            std::string s = J("if", S);
            if (I->isConstexpr()) s += ",\"cx\":1";
            if (I->getInit()) s += ",\"init\":" + stmt(I->getInit());
            if (I->getConditionVariable()) s += ",\"cv\":" + varDecl(I->getConditionVariable());
            s += ",\"c\":" + expr(I->getCond());
            const Stmt *Th = I->getThen(), *El = I->getElse();
            return s + ",\"a\":" + stmt(Th) + ",\"b\":" + stmt(El) + "}";
        }
        if (auto* W = dyn_cast<WhileStmt>(S)) {
            std::string s = J("while", S);
            if (W->getConditionVariable()) s += ",\"cv\":" + varDecl(W->getConditionVariable());
            return s + ",\"c\":" + expr(W->getCond()) + ",\"s\":" + stmt(W->getBody()) + "}";
        }
        if (auto* W = dyn_cast<DoStmt>(S)) return J("do", S) + ",\"c\":" + expr(W->getCond()) + ",\"s\":" + stmt(W->getBody()) + "}";
        if (auto* F = dyn_cast<ForStmt>(S)) {
            return J("for", S) + ",\"init\":" + stmt(F->getInit()) + (F->getConditionVariable() ? ",\"cv\":" + varDecl(F->getConditionVariable()) : std::string()) + ",\"c\":" + expr(F->getCond()) + ",\"inc\":" + expr(F->getInc()) + ",\"s\":" + stmt(F->getBody()) + "}";
        }
        if (auto* F = dyn_cast<CXXForRangeStmt>(S)) {
            std::string s = J("rfor", S);
            if (F->getInit()) s += ",\"init\":" + stmt(F->getInit());
            return s + ",\"v\":" + varDecl(F->getLoopVariable()) + ",\"r\":" + expr(F->getRangeInit()) + ",\"s\":" + stmt(F->getBody()) + "}";
        }
        if (auto* R = dyn_cast<ReturnStmt>(S)) return J("ret", S) + ",\"e\":" + expr(R->getRetValue()) + "}";
        if (isa<BreakStmt>(S)) return J("break", S) + "}";
        if (isa<ContinueStmt>(S)) return J("cont", S) + "}";
        if (isa<NullStmt>(S)) return J("nop", S) + "}";
        if (auto* W = dyn_cast<SwitchStmt>(S)) return J("switch", S) + (W->getInit() ? ",\"init\":" + stmt(W->getInit()) : std::string()) + ",\"c\":" + expr(W->getCond()) + ",\"s\":" + stmt(W->getBody()) + "}";
        if (auto* C = dyn_cast<CaseStmt>(S)) return J("case", S) + ",\"c\":" + expr(C->getLHS()) + ",\"s\":" + stmt(C->getSubStmt()) + "}";
        if (auto* C = dyn_cast<DefaultStmt>(S)) return J("default", S) + ",\"s\":" + stmt(C->getSubStmt()) + "}";
        if (auto* L = dyn_cast<LabelStmt>(S)) return J("label", S) + ",\"n\":\"" + esc(L->getName()) + "\",\"s\":" + stmt(L->getSubStmt()) + "}";
        if (auto* G = dyn_cast<GotoStmt>(S)) return J("goto", S) + ",\"n\":\"" + esc(G->getLabel()->getName()) + "\"}";
        if (auto* A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
        if (auto* T = dyn_cast<CXXTryStmt>(S)) return stmt(T->getTryBlock());
        return J("xs", S) + ",\"cls\":\"" + S->getStmtClassName() + "\"}";
    }
    void emitFunc(const FunctionDecl* F) {
        curFn = F;
        std::string s = "{\"id\":" + std::to_string(did(F)) + ",\"n\":\"" + esc(F->getDeclName().getAsString()) + "\",\"q\":\"" + esc(plainQual(F)) + "\",\"full\":\"" + esc(qual(F)) + "\"";
        s += ",\"loc\":" + loc(F->getLocation());
        const FunctionDecl* Pat = F->getTemplateInstantiationPattern();
        if (Pat) s += ",\"pat\":" + loc(Pat->getLocation());
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            s += ",\"cls\":" + std::to_string(id(M->getParent()->getCanonicalDecl()));
            record(M->getParent());
            if (M->isStatic()) s += ",\"static\":1";
            if (M->isConst()) s += ",\"const\":1";
            if (isa<CXXConstructorDecl>(M)) s += ",\"ctor\":1";
            if (isa<CXXDestructorDecl>(M)) s += ",\"dtor\":1";
            if (M->isDefaulted()) s += ",\"dflt\":1";
            if (M->isCopyAssignmentOperator()) s += ",\"cpasgn\":1";
            if (M->isMoveAssignmentOperator()) s += ",\"mvasgn\":1";
            if (M->getParent()->isLambda()) s += ",\"lambda\":1";
            s += std::string(",\"acc\":\"") + acc(M->getAccess()) + "\"";
        } else {
            s += std::string(",\"acc\":\"public\"");
            if (F->getFriendObjectKind() != Decl::FOK_None) s += ",\"friend\":1";
        }
        if (F->isOverloadedOperator()) s += std::string(",\"op\":\"") + esc(getOperatorSpelling(F->getOverloadedOperator())) + "\"";
        if (F->isConstexpr()) s += ",\"cx\":1";
        if (F->isImplicit()) s += ",\"imp\":1";
        if (F->isDependentContext()) s += ",\"dep\":1";
        if (F->isStatic()) s += ",\"sstatic\":1";
        if (F->isTemplated() || F->getDescribedFunctionTemplate()) s += ",\"templd\":1";
        if (F->isInlined()) s += ",\"inline\":1";
        if (Pat || F->isTemplateInstantiation()) s += ",\"inst\":1";
        if (F->getFormalLinkage() == Linkage::External) s += ",\"ext\":1";
        s += ",\"ret\":" + std::to_string(type(F->getReturnType())) + ",\"p\":[";
        for (unsigned i = 0; i < F->getNumParams(); i++) {
            auto* P = F->getParamDecl(i);
            s += (i ? "," : "") + std::string("{\"id\":") + std::to_string(did(P)) + ",\"n\":\"" + esc(P->getNameAsString()) + "\",\"t\":" + std::to_string(type(P->getType())) + "}";
        }
        s += "]";
        if (auto* C = dyn_cast<CXXConstructorDecl>(F)) {
            s += ",\"inits\":[";
            bool f = true;
            for (auto* I : C->inits()) {
                if (!f) s += ","; f = false;
                s += "{";
                if (I->isMemberInitializer()) s += "\"m\":" + std::to_string(did(I->getMember())) + ",\"n\":\"" + esc(I->getMember()->getName()) + "\"";
                else if (I->isIndirectMemberInitializer()) s += "\"m\":" + std::to_string(did(I->getIndirectMember())) + ",\"n\":\"" + esc(I->getIndirectMember()->getName()) + "\"";
                else if (I->isDelegatingInitializer()) s += "\"deleg\":1";
                else s += "\"base\":" + std::to_string(type(QualType(I->getBaseClass(), 0)));
                if (I->isWritten()) s += ",\"wr\":1";
                if (I->isInClassMemberInitializer()) s += ",\"ic\":1";
                s += ",\"l\":" + std::to_string(line(I->getSourceLocation()));
                s += ",\"e\":" + expr(I->getInit()) + "}";
            }
            s += "]";
        }
        s += ",\"body\":" + (F->getBody() ? stmt(F->getBody()) : std::string("null"));
        s += "}";
        funcs.push_back(s);
        curFn = nullptr;
    }
    // ---------- visitor ----------
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (!inRoots(F->getLocation())) return true;
        if (F->isThisDeclarationADefinition() || F->isDefaulted()) {
            if (F->isDependentContext()) {
                // template pattern: for coverage accounting
                if (donePatterns.insert(F->getCanonicalDecl()).second && F->doesThisDeclarationHaveABody()) {
                    auto* M = dyn_cast<CXXMethodDecl>(F);
                    if (!(M && M->getParent()->isLambda()))
                        patterns.push_back("{\"q\":\"" + esc(plainQual(F)) + "\",\"loc\":" + loc(F->getLocation()) + ",\"acc\":\"" + (M ? acc(M->getAccess()) : "public") + "\"}");
                }
                if (EmitDep) enqueue(F);
            } else enqueue(F);
        }
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if (V->hasGlobalStorage()) noteVar(V);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (inRoots(R->getLocation()) && R->hasDefinition() && (EmitDep || !R->isDependentContext())) record(R->getDefinition());
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* L) { return true; }
    void drain() {
        size_t qi = 0, ri = 0;
        while (qi < queue.size() || ri < recQueue.size()) {
            if (ri < recQueue.size()) { emitRecord(recQueue[ri++]); continue; }
            emitFunc(queue[qi++]);
        }
    }
    void write(const std::vector<MacroRec>& macros, raw_ostream& os, int errors) {
        os << "{\"errors\":" << errors << ",\"files\":[";
        // collect everything first
        auto list = [&](const char* n, std::vector<std::string>& v) {
            os << ",\n\"" << n << "\":[";
            for (size_t i = 0; i < v.size(); i++) os << (i ? ",\n" : "") << v[i];
            os << "]";
        };
        std::string ms;
        for (size_t i = 0; i < macros.size(); i++) ms += (i ? ",\n" : "") + std::string("{\"n\":\"") + esc(macros[i].name) + "\",\"f\":" + std::to_string(fileId(macros[i].file)) + ",\"l\":" + std::to_string(macros[i].line) + (macros[i].undef ? ",\"undef\":1" : "") + "}";
        for (size_t i = 0; i < files.size(); i++) os << (i ? "," : "") << "\"" << esc(files[i]) << "\"";
        os << "]";
        list("types", typeRecs);
        list("records", recs);
        list("funcs", funcs);
        list("vars", vars);
        list("decls", decls);
        list("patterns", patterns);
        os << ",\n\"macros\":[" << ms << "]}\n";
    }
};

struct PPC : PPCallbacks {
    SourceManager& SM;
    std::vector<MacroRec>& M;
    PPC(SourceManager& S, std::vector<MacroRec>& m) : SM(S), M(m) {}
    void add(const Token& T, SourceLocation L, bool undef, bool fn) {
        if (L.isInvalid() || !L.isFileID()) return;
        std::string f = SM.getFilename(L).str();
        for (auto& r : Roots) if (f.rfind(r, 0) == 0) { M.push_back({ T.getIdentifierInfo()->getName().str(), f, (int)SM.getSpellingLineNumber(L), undef, fn }); return; }
    }
    void MacroDefined(const Token& T, const MacroDirective* D) override { add(T, D->getLocation(), false, D->getMacroInfo()->isFunctionLike()); }
    void MacroUndefined(const Token& T, const MacroDefinition&, const MacroDirective*) override { add(T, T.getLocation(), true, false); }
};

static std::vector<MacroRec> Macros;
struct Consumer : ASTConsumer {
    CompilerInstance& CI;
    Consumer(CompilerInstance& C) : CI(C) {}
    std::vector<Decl*> tops; // declarations parsed in this unit (not the precompiled standard library)
    bool HandleTopLevelDecl(DeclGroupRef D) override { for (auto* d : D) tops.push_back(d); return true; }
    void HandleTranslationUnit(ASTContext& Ctx) override {
        Extractor X(Ctx);
        std::vector<Decl*> ds = tops; // (deserialisation may append while we traverse)
        for (auto* d : ds) X.TraverseDecl(d);
        X.drain();
        std::error_code ec;
        llvm::raw_fd_ostream os(OutPath, ec);
        X.write(Macros, os, CI.getDiagnostics().getClient()->getNumErrors());
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override {
        CI.getPreprocessor().addPPCallbacks(std::make_unique<PPC>(CI.getSourceManager(), Macros));
        return std::make_unique<Consumer>(CI);
    }
};

int main(int argc, const char** argv) {
    // cpx OUT ROOT[:ROOT...] SRC -- flags
    if (argc < 4) return 2;
    OutPath = argv[1];
    if (OutPath.rfind("dep:", 0) == 0) { EmitDep = true; OutPath = OutPath.substr(4); }
    std::string r = argv[2];
    size_t p = 0;
    while (p <= r.size()) { size_t q = r.find(':', p); if (q == std::string::npos) q = r.size(); if (q > p) Roots.push_back(r.substr(p, q - p)); p = q + 1; }
    std::string src = argv[3];
    std::vector<std::string> flags;
    llvm::IntrusiveRefCntPtr<llvm::vfs::FileSystem> FS = llvm::vfs::getRealFileSystem();
    for (int i = 4; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--") continue;
        if (a == "-ivfsoverlay" && i + 1 < argc) {
            auto buf = llvm::MemoryBuffer::getFile(argv[++i]);
            if (!buf) { llvm::errs() << "cannot read overlay\n"; return 2; }
            auto o = llvm::vfs::getVFSFromYAML(std::move(*buf), nullptr, argv[i], nullptr, FS);
            if (!o) { llvm::errs() << "bad overlay\n"; return 2; }
            llvm::IntrusiveRefCntPtr<llvm::vfs::OverlayFileSystem> ov(new llvm::vfs::OverlayFileSystem(FS));
            ov->pushOverlay(std::move(o)); FS = ov;
            continue;
        }
        flags.push_back(a);
    }
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool Tool(DB, { src }, std::make_shared<PCHContainerOperations>(), FS);
    struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } fac;
    int rc = Tool.run(&fac);
    return rc;
}
