// cppdump: dump the type-checked program (resolved callees, instantiated templates, types)
// of one translation unit as JSON, for the analyses in ../lib.  It runs no code of the program.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> RepoPrefixes;   // bodies under these path prefixes are always emitted
static std::string OutPath;
static bool OnlyScalarDouble = false;

namespace {
struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    ASTNameGenerator NG;
    PrintingPolicy PP;

    std::map<const Decl *, int> funIds, recIds, varIds, fieldIds;
    std::map<const void *, int> typeIds;
    std::vector<json::Value> types;
    std::map<int, json::Value> funs, recs, vars;
    std::deque<std::function<void()>> work;
    std::map<std::string, int> fileIds;
    std::vector<std::string> files;
    std::set<const Decl *> emitted;

    explicit Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), NG(C), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
    }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        auto F = SM.getFilename(L);
        llvm::SmallString<256> P(F);
        if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
            auto R = FE->getFileEntry().tryGetRealPathName();
            if (!R.empty()) return R.str();
        }
        return P.str().str();
    }

    json::Value loc(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return nullptr;
        std::string f = fileOf(L);
        auto it = fileIds.find(f);
        int id;
        if (it == fileIds.end()) { id = files.size(); fileIds[f] = id; files.push_back(f); }
        else id = it->second;
        return json::Array{id, (int64_t) SM.getExpansionLineNumber(L)};
    }

    bool inRepo(SourceLocation L) {
        std::string f = fileOf(L);
        for (auto &p: RepoPrefixes)
            if (f.rfind(p, 0) == 0) return true;
        return false;
    }

    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }

    json::Value tmplArgs(llvm::ArrayRef<TemplateArgument> args) {
        json::Array a;
        for (auto &x: args) {
            switch (x.getKind()) {
                case TemplateArgument::Type:
                    a.push_back(json::Object{{"t", type(x.getAsType())}});
                    break;
                case TemplateArgument::Integral: {
                    llvm::SmallString<32> S;
                    x.getAsIntegral().toString(S, 10);
                    a.push_back(json::Object{{"i", std::stoll(S.str().str())}});
                    break;
                }
                case TemplateArgument::Pack:
                    for (auto &y: x.pack_elements()) {
                        json::Value v = tmplArgs({y});
                        for (auto &z: *v.getAsArray()) a.push_back(z);
                    }
                    break;
                default:
                    a.push_back(json::Object{{"o", "other"}});
            }
        }
        return a;
    }

    int type(QualType T) {
        T = T.getCanonicalType();
        void *key = T.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = types.size();
        typeIds[key] = id;
        types.push_back(nullptr);
        json::Object o;
        o["s"] = T.getAsString(PP);
        if (T.isConstQualified()) o["const"] = true;
        const clang::Type *t = T.getTypePtr();
        if (auto *b = dyn_cast<BuiltinType>(t)) {
            o["k"] = "b";
            o["n"] = b->getName(PP).str();
        } else if (auto *p = dyn_cast<clang::PointerType>(t)) {
            o["k"] = "p";
            o["e"] = type(p->getPointeeType());
        } else if (auto *r = dyn_cast<ReferenceType>(t)) {
            o["k"] = isa<RValueReferenceType>(r) ? "rr" : "r";
            o["e"] = type(r->getPointeeType());
        } else if (auto *rt = dyn_cast<RecordType>(t)) {
            o["k"] = "rec";
            o["n"] = qname(rt->getDecl());
            o["r"] = rec(cast<RecordDecl>(rt->getDecl()));
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(rt->getDecl()))
                o["a"] = tmplArgs(S->getTemplateArgs().asArray());
        } else if (auto *et = dyn_cast<clang::EnumType>(t)) {
            o["k"] = "enum";
            o["n"] = qname(et->getDecl());
        } else if (auto *ca = dyn_cast<ConstantArrayType>(t)) {
            o["k"] = "arr";
            o["e"] = type(ca->getElementType());
            o["size"] = (int64_t) ca->getSize().getZExtValue();
        } else if (auto *fp = dyn_cast<FunctionProtoType>(t)) {
            o["k"] = "fn";
            o["ret"] = type(fp->getReturnType());
            json::Array ps;
            for (auto p: fp->param_types()) ps.push_back(type(p));
            o["ps"] = std::move(ps);
        } else if (auto *mp = dyn_cast<MemberPointerType>(t)) {
            o["k"] = "mp";
            o["e"] = type(mp->getPointeeType());
        } else {
            o["k"] = "other";
        }
        types[id] = std::move(o);
        return id;
    }

    int rec(const RecordDecl *R0) {
        const RecordDecl *R = R0->getDefinition() ? R0->getDefinition() : R0;
        auto it = recIds.find(R);
        if (it != recIds.end()) return it->second;
        int id = recIds.size();
        recIds[R] = id;
        work.push_back([this, R, id] { emitRec(R, id); });
        return id;
    }

    int field(const FieldDecl *F) {
        auto it = fieldIds.find(F);
        if (it != fieldIds.end()) return it->second;
        int id = fieldIds.size();
        fieldIds[F] = id;
        return id;
    }

    void emitRec(const RecordDecl *R, int id) {
        json::Object o;
        o["n"] = qname(R);
        o["loc"] = loc(R->getLocation());
        o["def"] = R->isCompleteDefinition();
        bool repo = inRepo(R->getLocation());
        o["repo"] = repo;
        o["lambda"] = isa<CXXRecordDecl>(R) && cast<CXXRecordDecl>(R)->isLambda();
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R))
            o["a"] = tmplArgs(S->getTemplateArgs().asArray());
        if (R->isCompleteDefinition() && !R->isDependentType()) {
            bool lam = isa<CXXRecordDecl>(R) && cast<CXXRecordDecl>(R)->isLambda();
            json::Array fs;
            for (auto *F: R->fields()) {
                json::Object f;
                f["n"] = F->getNameAsString();
                f["id"] = field(F);
                f["t"] = type(F->getType());
                f["dt"] = F->getType().getAsString();
                if (F->isMutable()) f["mutable"] = true;
                f["acc"] = (int) F->getAccess();
                if (repo && F->hasInClassInitializer() && F->getInClassInitializer())
                    f["init"] = expr(F->getInClassInitializer());
                fs.push_back(std::move(f));
            }
            o["fields"] = std::move(fs);
            if (auto *CR = dyn_cast<CXXRecordDecl>(R)) {
                json::Array bs;
                for (auto &B: CR->bases()) {
                    auto *br = B.getType()->getAsCXXRecordDecl();
                    if (br) bs.push_back(rec(br));
                }
                o["bases"] = std::move(bs);
                o["poly"] = CR->isPolymorphic();
                if (CR->isPolymorphic()) o["abstract"] = CR->isAbstract();
                if (auto *D = CR->getDestructor()) {
                    o["vdtor"] = D->isVirtual();
                    if (repo) o["dtor"] = fun(D);
                } else o["vdtor"] = false;
                o["outer"] = -1;
                if (auto *P = dyn_cast<RecordDecl>(CR->getDeclContext())) if (!lam) o["outer"] = rec(P);
                if (repo) {
                    json::Array ms;
                    for (auto *M: CR->methods()) ms.push_back(fun(M));
                    o["methods"] = std::move(ms);
                }
            }
        }
        recs.insert_or_assign(id, json::Value(std::move(o)));
    }

    const FunctionDecl *canonFun(const FunctionDecl *F) {
        return F->getCanonicalDecl();
    }

    int fun(const FunctionDecl *F) {
        const FunctionDecl *K = canonFun(F);
        auto it = funIds.find(K);
        if (it != funIds.end()) return it->second;
        int id = funIds.size();
        funIds[K] = id;
        work.push_back([this, K, id] { emitFun(K, id); });
        return id;
    }

    int var(const VarDecl *V) {
        const VarDecl *K = V->getCanonicalDecl();
        auto it = varIds.find(K);
        if (it != varIds.end()) return it->second;
        int id = varIds.size();
        varIds[K] = id;
        if (!V->isLocalVarDeclOrParm() || V->isStaticLocal())
            work.push_back([this, K, id] { emitVar(K, id); });
        return id;
    }

    void emitVar(const VarDecl *V, int id) {
        json::Object o;
        o["n"] = qname(V);
        o["t"] = type(V->getType());
        o["loc"] = loc(V->getLocation());
        o["static_local"] = V->isStaticLocal();
        if (auto *S = dyn_cast<VarTemplateSpecializationDecl>(V)) o["a"] = tmplArgs(S->getTemplateArgs().asArray());
        const VarDecl *D = V->getDefinition();
        const VarDecl *W = nullptr;
        const Expr *I = V->getAnyInitializer(W);
        if (I && !I->isValueDependent() && inRepo((D ? D : V)->getLocation())) {
            o["repo"] = true;
            o["init"] = expr(I);
        }
        vars.insert_or_assign(id, json::Value(std::move(o)));
    }

    bool wantBody(const FunctionDecl *Def) {
        if (inRepo(Def->getLocation())) return true;
        std::string f = fileOf(Def->getLocation());
        static const char *ok[] = {"bits/stl_algo.h", "bits/stl_algobase.h", "bits/stl_numeric.h", "bits/predefined_ops.h"};
        for (auto *s: ok) if (f.find(s) != std::string::npos) return true;
        return false;
    }

    void emitFun(const FunctionDecl *F, int id) {
        json::Object o;
        o["qn"] = qname(F);
        o["n"] = F->getNameAsString();
        if (!F->isDependentContext()) o["mn"] = NG.getName(F);
        o["loc"] = loc(F->getLocation());
        const FunctionDecl *Def = nullptr;
        bool has = F->hasBody(Def);
        if (!has) Def = F->getDefinition();
        const FunctionDecl *X = Def ? Def : F;
        o["dloc"] = loc(X->getLocation());
        bool repo = inRepo(X->getLocation());
        o["repo"] = repo;
        o["ret"] = type(X->getReturnType());
        if (auto *ta = X->getTemplateSpecializationArgs()) o["a"] = tmplArgs(ta->asArray());
        json::Array ps;
        for (auto *P: X->parameters()) {
            json::Object p{{"n", P->getNameAsString()}, {"id", var(P)}, {"t", type(P->getType())}};
            if (repo && P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && P->getDefaultArg())
                p["def"] = expr(P->getDefaultArg());
            ps.push_back(std::move(p));
        }
        o["ps"] = std::move(ps);
        if (X->isVariadic()) o["variadic"] = true;
        const auto *FPT = X->getType()->getAs<FunctionProtoType>();
        if (FPT) {
            auto est = FPT->getExceptionSpecType();
            o["noexcept"] = est == EST_BasicNoexcept || est == EST_NoexceptTrue || est == EST_NoThrow || est == EST_DynamicNone;
        }
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = rec(M->getParent());
            o["const"] = M->isConst();
            o["static"] = M->isStatic();
            o["virtual"] = M->isVirtual();
            o["pure"] = M->isPureVirtual();
            o["acc"] = (int) M->getAccess();
            json::Array ov;
            for (auto *B: M->overridden_methods()) ov.push_back(fun(B));
            o["overrides"] = std::move(ov);
            if (isa<CXXConstructorDecl>(M)) {
                o["kind"] = "ctor";
                auto *K = cast<CXXConstructorDecl>(M);
                o["copy"] = K->isCopyConstructor();
                o["move"] = K->isMoveConstructor();
                o["defaultctor"] = K->isDefaultConstructor();
            } else if (isa<CXXDestructorDecl>(M)) o["kind"] = "dtor";
            else if (isa<CXXConversionDecl>(M)) o["kind"] = "conv";
            else o["kind"] = "method";
            if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
            if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
        } else o["kind"] = "fn";
        if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        o["defaulted"] = X->isDefaulted();
        o["deleted"] = X->isDeleted();
        o["implicit"] = X->isImplicit();
        o["trivial"] = X->isTrivial();
        o["constexpr"] = X->isConstexpr();
        if (has && Def && !Def->isDependentContext() && wantBody(Def) && Def->getBody() &&
            !(X->isDefaulted())) {
            if (auto *K = dyn_cast<CXXConstructorDecl>(Def)) {
                json::Array inits;
                for (auto *I: K->inits()) {
                    json::Object j;
                    j["written"] = I->isWritten();
                    if (I->isAnyMemberInitializer()) {
                        j["field"] = I->getAnyMember()->getNameAsString();
                        j["fid"] = field(I->getAnyMember());
                    } else if (I->isBaseInitializer()) {
                        if (auto *br = QualType(I->getBaseClass(), 0)->getAsCXXRecordDecl()) j["base"] = rec(br);
                    } else if (I->isDelegatingInitializer()) j["delegate"] = true;
                    j["e"] = expr(I->getInit());
                    inits.push_back(std::move(j));
                }
                o["inits"] = std::move(inits);
            }
            o["body"] = stmt(Def->getBody());
        }
        funs.insert_or_assign(id, json::Value(std::move(o)));
    }

    // ------------------------------------------------------------------ statements
    json::Value localVar(const VarDecl *V) {
        json::Object o;
        o["n"] = V->getNameAsString();
        o["id"] = var(V);
        o["t"] = type(V->getType());
        o["l"] = loc(V->getLocation());
        if (V->isStaticLocal()) o["static"] = true;
        if (V->hasInit()) {
            o["init"] = expr(V->getInit());
            if (V->getInitStyle() == VarDecl::CallInit) o["style"] = "call";
        }
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
            json::Array bs;
            for (auto *B: D->bindings()) {
                json::Object b;
                b["n"] = B->getNameAsString();
                b["id"] = bindingId(B);
                if (auto *HV = B->getHoldingVar()) {
                    b["hold"] = var(HV);
                    b["holdinit"] = HV->getInit() ? expr(HV->getInit()) : json::Value(nullptr);
                }
                if (B->getBinding()) b["e"] = expr(B->getBinding());
                bs.push_back(std::move(b));
            }
            o["bindings"] = std::move(bs);
        }
        return o;
    }

    std::map<const Decl *, int> bindIds;
    int bindingId(const BindingDecl *B) {
        auto it = bindIds.find(B);
        if (it != bindIds.end()) return it->second;
        int id = bindIds.size();
        bindIds[B] = id;
        return id;
    }

    json::Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) {
            json::Object o{{"k", "expr"}, {"l", loc(E->getBeginLoc())}, {"e", expr(E)}};
            return o;
        }
        json::Object o;
        o["l"] = loc(S->getBeginLoc());
        switch (S->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                o["k"] = "block";
                json::Array a;
                for (auto *c: cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
                o["b"] = std::move(a);
                o["end"] = loc(S->getEndLoc());
                return o;
            }
            case Stmt::DeclStmtClass: {
                o["k"] = "decl";
                json::Array a;
                for (auto *D: cast<DeclStmt>(S)->decls())
                    if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(localVar(V));
                o["d"] = std::move(a);
                return o;
            }
            case Stmt::IfStmtClass: {
                auto *I = cast<IfStmt>(S);
                o["k"] = "if";
                o["init"] = stmt(I->getInit());
                if (I->getConditionVariable()) o["cvar"] = localVar(I->getConditionVariable());
                if (I->isConstexpr()) o["constexpr"] = true;
                if (I->getCond()) o["c"] = expr(I->getCond());
                o["then"] = stmt(I->getThen());
                o["else"] = stmt(I->getElse());
                return o;
            }
            case Stmt::ForStmtClass: {
                auto *I = cast<ForStmt>(S);
                o["k"] = "for";
                o["init"] = stmt(I->getInit());
                if (I->getCond()) o["c"] = expr(I->getCond());
                if (I->getConditionVariable()) o["cvar"] = localVar(I->getConditionVariable());
                if (I->getInc()) o["inc"] = expr(I->getInc());
                o["body"] = stmt(I->getBody());
                return o;
            }
            case Stmt::WhileStmtClass: {
                auto *I = cast<WhileStmt>(S);
                o["k"] = "while";
                o["c"] = expr(I->getCond());
                if (I->getConditionVariable()) o["cvar"] = localVar(I->getConditionVariable());
                o["body"] = stmt(I->getBody());
                return o;
            }
            case Stmt::DoStmtClass: {
                auto *I = cast<DoStmt>(S);
                o["k"] = "do";
                o["c"] = expr(I->getCond());
                o["body"] = stmt(I->getBody());
                return o;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto *I = cast<CXXForRangeStmt>(S);
                o["k"] = "rfor";
                o["init"] = stmt(I->getInit());
                o["range"] = expr(I->getRangeInit());
                o["rangeStmt"] = stmt(I->getRangeStmt());
                o["beginStmt"] = stmt(I->getBeginStmt());
                o["endStmt"] = stmt(I->getEndStmt());
                o["c"] = I->getCond() ? expr(I->getCond()) : json::Value(nullptr);
                o["inc"] = I->getInc() ? expr(I->getInc()) : json::Value(nullptr);
                o["var"] = localVar(I->getLoopVariable());
                o["body"] = stmt(I->getBody());
                return o;
            }
            case Stmt::ReturnStmtClass: {
                o["k"] = "ret";
                auto *R = cast<ReturnStmt>(S);
                if (R->getRetValue()) o["e"] = expr(R->getRetValue());
                return o;
            }
            case Stmt::BreakStmtClass: o["k"] = "break"; return o;
            case Stmt::ContinueStmtClass: o["k"] = "continue"; return o;
            case Stmt::NullStmtClass: o["k"] = "null"; return o;
            case Stmt::SwitchStmtClass: {
                auto *I = cast<SwitchStmt>(S);
                o["k"] = "switch";
                o["init"] = stmt(I->getInit());
                o["c"] = expr(I->getCond());
                o["body"] = stmt(I->getBody());
                return o;
            }
            case Stmt::CaseStmtClass: {
                auto *I = cast<CaseStmt>(S);
                o["k"] = "case";
                o["v"] = expr(I->getLHS());
                o["s"] = stmt(I->getSubStmt());
                return o;
            }
            case Stmt::DefaultStmtClass:
                o["k"] = "default";
                o["s"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
                return o;
            case Stmt::GotoStmtClass:
                o["k"] = "goto";
                o["label"] = cast<GotoStmt>(S)->getLabel()->getNameAsString();
                return o;
            case Stmt::LabelStmtClass:
                o["k"] = "label";
                o["label"] = cast<LabelStmt>(S)->getDecl()->getNameAsString();
                o["s"] = stmt(cast<LabelStmt>(S)->getSubStmt());
                return o;
            case Stmt::CXXTryStmtClass: {
                auto *I = cast<CXXTryStmt>(S);
                o["k"] = "try";
                o["body"] = stmt(I->getTryBlock());
                json::Array hs;
                for (unsigned i = 0; i < I->getNumHandlers(); ++i) {
                    auto *H = I->getHandler(i);
                    json::Object h;
                    h["t"] = H->getCaughtType().isNull() ? json::Value(nullptr) : json::Value(type(H->getCaughtType()));
                    h["body"] = stmt(H->getHandlerBlock());
                    hs.push_back(std::move(h));
                }
                o["handlers"] = std::move(hs);
                return o;
            }
            case Stmt::AttributedStmtClass:
                return stmt(cast<AttributedStmt>(S)->getSubStmt());
            default:
                o["k"] = "unk";
                o["cls"] = S->getStmtClassName();
                return o;
        }
    }

    // ------------------------------------------------------------------ expressions
    json::Value aps(const llvm::APSInt &v) {
        llvm::SmallString<40> S;
        v.toString(S, 10);
        return json::Object{{"v", S.str().str()}};
    }

    json::Value expr(const Expr *E) {
        if (!E) return nullptr;
        bool tmp = false;
        json::Value v = expr0(E, tmp);
        // an object that dies at the end of the full expression
        if (tmp) if (auto *o = v.getAsObject()) (*o)["tmp"] = true;
        return v;
    }

    json::Value expr0(const Expr *E, bool &tmp) {
        // transparent wrappers
        for (;;) {
            if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) {
                if (P->getStorageDuration() == SD_FullExpression) tmp = true;
                E = P->getSubExpr();
            }
            else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
            else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
            else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
                json::Object o{{"k", "stdinit"}, {"t", type(E->getType())}, {"e", expr(P->getSubExpr())}};
                return o;
            } else break;
        }
        json::Object o;
        o["t"] = type(E->getType());
        o["l"] = loc(E->getBeginLoc());
        if (E->isLValue()) o["lv"] = true;
        else if (E->isXValue()) o["lv"] = 2;
        // integer constant folding
        if (!E->isGLValue() && E->getType()->isIntegralOrEnumerationType() && !E->isValueDependent()) {
            Expr::EvalResult R;
            if (E->isCXX11ConstantExpr(C, nullptr) && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
                o["k"] = "int";
                llvm::SmallString<40> S;
                R.Val.getInt().toString(S, 10);
                o["v"] = S.str().str();
                if (auto *DR = dyn_cast<DeclRefExpr>(E->IgnoreParenImpCasts())) o["nm"] = DR->getDecl()->getNameAsString();
                return o;
            }
        }
        switch (E->getStmtClass()) {
            case Stmt::IntegerLiteralClass: {
                o["k"] = "int";
                llvm::SmallString<40> S;
                cast<IntegerLiteral>(E)->getValue().toString(S, 10, false);
                o["v"] = S.str().str();
                return o;
            }
            case Stmt::FloatingLiteralClass: {
                o["k"] = "flt";
                auto *L = cast<FloatingLiteral>(E);
                char buf[128];
                auto v = L->getValue();
                v.convertToHexString(buf, 0, false, llvm::APFloat::rmNearestTiesToEven);
                o["v"] = std::string(buf);
                o["src"] = Lexer::getSourceText(CharSourceRange::getTokenRange(SM.getSpellingLoc(E->getBeginLoc()), SM.getSpellingLoc(E->getEndLoc())), SM, C.getLangOpts()).str();
                return o;
            }
            case Stmt::CXXBoolLiteralExprClass:
                o["k"] = "int"; o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue() ? "1" : "0"; return o;
            case Stmt::StringLiteralClass:
                o["k"] = "str"; o["v"] = cast<StringLiteral>(E)->isOrdinary() ? llvm::json::fixUTF8(cast<StringLiteral>(E)->getString()) : std::string(""); return o;
            case Stmt::CXXNullPtrLiteralExprClass:
            case Stmt::GNUNullExprClass: o["k"] = "null"; return o;
            case Stmt::CXXThisExprClass: o["k"] = "this"; return o;
            case Stmt::DeclRefExprClass: {
                auto *D = cast<DeclRefExpr>(E)->getDecl();
                o["n"] = D->getNameAsString();
                if (auto *V = dyn_cast<VarDecl>(D)) {
                    o["k"] = "var"; o["id"] = var(V);
                    o["global"] = !(V->isLocalVarDeclOrParm() && !V->isStaticLocal());
                    if (cast<DeclRefExpr>(E)->refersToEnclosingVariableOrCapture()) o["cap"] = true;
                } else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fun"; o["f"] = fun(F); }
                else if (auto *B = dyn_cast<BindingDecl>(D)) { o["k"] = "bind"; o["id"] = bindingId(B); }
                else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                    o["k"] = "int"; llvm::SmallString<40> S; EC->getInitVal().toString(S, 10); o["v"] = S.str().str();
                } else if (auto *FD = dyn_cast<FieldDecl>(D)) { o["k"] = "fieldref"; o["fid"] = field(FD); o["f"] = FD->getNameAsString(); }
                else { o["k"] = "unk"; o["cls"] = "DeclRef"; }
                return o;
            }
            case Stmt::MemberExprClass: {
                auto *M = cast<MemberExpr>(E);
                auto *D = M->getMemberDecl();
                if (auto *F = dyn_cast<FieldDecl>(D)) {
                    o["k"] = "mem"; o["f"] = F->getNameAsString(); o["fid"] = field(F);
                } else if (auto *V = dyn_cast<VarDecl>(D)) {
                    o["k"] = "var"; o["id"] = var(V); o["n"] = V->getNameAsString(); o["global"] = true;
                    return o;
                } else if (auto *Fn = dyn_cast<FunctionDecl>(D)) {
                    o["k"] = "memfun"; o["f"] = fun(Fn);
                } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                    o["k"] = "int"; llvm::SmallString<40> S; EC->getInitVal().toString(S, 10); o["v"] = S.str().str();
                    return o;
                }
                o["arrow"] = M->isArrow();
                o["b"] = expr(M->getBase());
                return o;
            }
            case Stmt::ArraySubscriptExprClass: {
                auto *A = cast<ArraySubscriptExpr>(E);
                o["k"] = "idx"; o["b"] = expr(A->getBase()); o["i"] = expr(A->getIdx());
                return o;
            }
            case Stmt::UnaryOperatorClass: {
                auto *U = cast<UnaryOperator>(E);
                o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
                o["post"] = U->isPostfix();
                o["e"] = expr(U->getSubExpr());
                return o;
            }
            case Stmt::BinaryOperatorClass:
            case Stmt::CompoundAssignOperatorClass: {
                auto *B = cast<BinaryOperator>(E);
                o["k"] = "bin"; o["op"] = B->getOpcodeStr().str();
                o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS());
                if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) {
                    o["ct"] = type(CA->getComputationResultType());
                    o["clt"] = type(CA->getComputationLHSType());
                }
                return o;
            }
            case Stmt::ConditionalOperatorClass: {
                auto *B = cast<ConditionalOperator>(E);
                o["k"] = "cond"; o["c"] = expr(B->getCond()); o["a"] = expr(B->getTrueExpr()); o["b"] = expr(B->getFalseExpr());
                return o;
            }
            case Stmt::ImplicitCastExprClass:
            case Stmt::CStyleCastExprClass:
            case Stmt::CXXStaticCastExprClass:
            case Stmt::CXXFunctionalCastExprClass:
            case Stmt::CXXConstCastExprClass:
            case Stmt::CXXReinterpretCastExprClass:
            case Stmt::CXXDynamicCastExprClass: {
                auto *X = cast<CastExpr>(E);
                auto ck = X->getCastKind();
                bool impl = isa<ImplicitCastExpr>(E);
                if (impl && (ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr))
                    return expr(X->getSubExpr());
                o["k"] = "cast"; o["ck"] = X->getCastKindName();
                if (!impl) o["ex"] = X->getStmtClassName();
                if (auto *cf = X->getConversionFunction()) if (auto *cfd = dyn_cast<FunctionDecl>(cf)) o["conv"] = fun(cfd);
                o["e"] = expr(X->getSubExpr());
                return o;
            }
            case Stmt::CXXOperatorCallExprClass:
            case Stmt::CallExprClass:
            case Stmt::CXXMemberCallExprClass:
            case Stmt::UserDefinedLiteralClass: {
                auto *X = cast<CallExpr>(E);
                o["k"] = "call";
                if (isa<CXXOperatorCallExpr>(E)) o["opcall"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(E)->getOperator());
                if (auto *F = X->getDirectCallee()) o["f"] = fun(F);
                else o["fe"] = expr(X->getCallee());
                if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
                    o["this"] = MC->getImplicitObjectArgument() ? expr(MC->getImplicitObjectArgument()) : json::Value(nullptr);
                    if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts())) {
                        o["arrow"] = ME->isArrow();
                        o["devirt"] = ME->hasQualifier();
                    } else o["fe"] = expr(X->getCallee());
                }
                json::Array as;
                for (auto *a: X->arguments()) as.push_back(expr(a));
                o["args"] = std::move(as);
                return o;
            }
            case Stmt::CXXConstructExprClass:
            case Stmt::CXXTemporaryObjectExprClass: {
                auto *X = cast<CXXConstructExpr>(E);
                o["k"] = "ctor"; o["f"] = fun(X->getConstructor());
                if (X->isElidable()) o["elide"] = true;
                if (X->requiresZeroInitialization()) o["zero"] = true;
                if (X->isListInitialization()) o["list"] = true;
                json::Array as;
                for (auto *a: X->arguments()) as.push_back(expr(a));
                o["args"] = std::move(as);
                return o;
            }
            case Stmt::CXXInheritedCtorInitExprClass: {
                o["k"] = "inhctor"; o["f"] = fun(cast<CXXInheritedCtorInitExpr>(E)->getConstructor());
                return o;
            }
            case Stmt::InitListExprClass: {
                auto *X = cast<InitListExpr>(E);
                if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
                o["k"] = "ilist";
                json::Array as;
                for (auto *a: X->inits()) as.push_back(expr(a));
                o["args"] = std::move(as);
                if (X->hasArrayFiller()) o["filler"] = expr(X->getArrayFiller());
                return o;
            }
            case Stmt::LambdaExprClass: {
                auto *X = cast<LambdaExpr>(E);
                o["k"] = "lambda";
                o["rec"] = rec(X->getLambdaClass());
                o["f"] = fun(X->getCallOperator());
                // generic lambda: list instantiations
                if (auto *FT = X->getCallOperator()->getDescribedFunctionTemplate()) {
                    json::Array sp;
                    for (auto *S: FT->specializations()) sp.push_back(fun(S));
                    o["specs"] = std::move(sp);
                }
                json::Array cs;
                auto initIt = X->capture_init_begin();
                for (auto &c: X->captures()) {
                    json::Object j;
                    if (c.capturesThis()) {
                        j["this"] = true;
                        if (c.getCaptureKind() == LCK_StarThis) j["copy"] = true;
                    } else if (c.capturesVariable()) {
                        auto *CV = c.getCapturedVar();
                        if (auto *VD = dyn_cast<VarDecl>(CV)) j["id"] = var(VD);
                        else if (auto *BD = dyn_cast<BindingDecl>(CV)) j["bid"] = bindingId(BD);
                        j["byref"] = c.getCaptureKind() == LCK_ByRef;
                        j["n"] = CV->getNameAsString();
                        if (X->isInitCapture(&c)) j["initcap"] = true;
                        if (*initIt) j["init"] = expr(*initIt);
                    }
                    cs.push_back(std::move(j));
                    ++initIt;
                }
                o["caps"] = std::move(cs);
                return o;
            }
            case Stmt::CXXDefaultArgExprClass:
                return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
            case Stmt::CXXDefaultInitExprClass:
                return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
            case Stmt::CXXScalarValueInitExprClass:
            case Stmt::ImplicitValueInitExprClass:
                o["k"] = "zero"; return o;
            case Stmt::CXXNewExprClass: {
                auto *X = cast<CXXNewExpr>(E);
                o["k"] = "new"; o["at"] = type(X->getAllocatedType());
                if (X->isArray()) o["arr"] = X->getArraySize() ? expr(*X->getArraySize()) : json::Value(nullptr);
                if (X->getInitializer()) o["init"] = expr(X->getInitializer());
                if (X->getNumPlacementArgs()) o["placement"] = true;
                return o;
            }
            case Stmt::CXXDeleteExprClass: {
                auto *X = cast<CXXDeleteExpr>(E);
                o["k"] = "delete"; o["e"] = expr(X->getArgument());
                o["dt"] = type(X->getDestroyedType());
                return o;
            }
            case Stmt::CXXThrowExprClass: {
                o["k"] = "throw";
                if (cast<CXXThrowExpr>(E)->getSubExpr()) o["e"] = expr(cast<CXXThrowExpr>(E)->getSubExpr());
                return o;
            }
            case Stmt::UnaryExprOrTypeTraitExprClass: o["k"] = "sizeof"; return o;
            case Stmt::CXXPseudoDestructorExprClass: o["k"] = "pseudodtor"; return o;
            case Stmt::OpaqueValueExprClass:
                return expr(cast<OpaqueValueExpr>(E)->getSourceExpr());
            case Stmt::CXXRewrittenBinaryOperatorClass:
                return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
            case Stmt::StmtExprClass:
                o["k"] = "stmtexpr"; o["b"] = stmt(cast<StmtExpr>(E)->getSubStmt()); return o;
            case Stmt::PredefinedExprClass: o["k"] = "str"; o["v"] = "__func__"; return o;
            case Stmt::CXXNoexceptExprClass:
            case Stmt::TypeTraitExprClass: o["k"] = "unk"; o["cls"] = E->getStmtClassName(); return o;
            default:
                o["k"] = "unk"; o["cls"] = E->getStmtClassName();
                return o;
        }
    }

    void drain() {
        while (!work.empty()) {
            auto f = std::move(work.front());
            work.pop_front();
            f();
        }
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper &D;
    explicit Visitor(Dumper &D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isDependentContext()) return true;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) return true;
        if (!D.inRepo(Def->getLocation())) return true;
        D.fun(F);
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (V->isLocalVarDeclOrParm()) return true;
        if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
        if (isa<VarTemplatePartialSpecializationDecl>(V)) return true;
        if (V->getDescribedVarTemplate()) return true;
        if (!D.inRepo(V->getLocation())) return true;
        D.var(V);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isDependentContext() || !R->isCompleteDefinition()) return true;
        if (!D.inRepo(R->getLocation())) return true;
        D.rec(R);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        Dumper D(C);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        D.drain();
        json::Object o;
        json::Object fs, rs, vs;
        for (auto &p: D.funs) fs[std::to_string(p.first)] = std::move(p.second);
        for (auto &p: D.recs) rs[std::to_string(p.first)] = std::move(p.second);
        for (auto &p: D.vars) vs[std::to_string(p.first)] = std::move(p.second);
        json::Array ty, fl;
        for (auto &t: D.types) ty.push_back(std::move(t));
        for (auto &f: D.files) fl.push_back(f);
        o["funs"] = std::move(fs);
        o["recs"] = std::move(rs);
        o["vars"] = std::move(vs);
        o["types"] = std::move(ty);
        o["files"] = std::move(fl);
        o["errors"] = (int64_t) C.getDiagnostics().hasErrorOccurred();
        std::error_code EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        os << json::Value(std::move(o));
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
        return std::make_unique<Consumer>();
    }
};
}

// usage: cppdump OUT PREFIX[:PREFIX...] SOURCE -- FLAGS...
int main(int argc, const char **argv) {
    if (argc < 5) { llvm::errs() << "usage: cppdump OUT PREFIXES SOURCE -- FLAGS\n"; return 2; }
    OutPath = argv[1];
    std::string p = argv[2];
    size_t i = 0;
    while (i <= p.size()) {
        size_t j = p.find(':', i);
        if (j == std::string::npos) j = p.size();
        if (j > i) RepoPrefixes.push_back(p.substr(i, j - i));
        i = j + 1;
    }
    std::string src = argv[3];
    std::vector<std::string> flags;
    for (int k = 5; k < argc; ++k) flags.push_back(argv[k]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool Tool(DB, {src});
    return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
