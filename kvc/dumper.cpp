// kvc-dump: extracts the typed syntax trees of the functions under contract (and of every /repo function they
// reach) from the real sources with clang's own front end, as JSON.  Nothing is rewritten: templates are dumped as
// instantiated, implicit conversions, default arguments and implicit constructor initialisers included.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Sema/Sema.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <deque>
#include <map>
#include <regex>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string OutFile;
static std::string RepoPrefix = "/repo/";
static std::vector<std::regex> Roots;
static std::vector<std::string> LocalPrefixes = {"kvc_root", "knp_gen_headers/"};

static std::string qn(const NamedDecl *D)
{
    std::string s = D->getNameAsString();
    for (const DeclContext *X = D->getDeclContext(); X; X = X->getParent())
    {
        if (auto *N = dyn_cast<NamespaceDecl>(X))
        {
            if (N->isInline()) continue;
            s = (N->isAnonymousNamespace() ? std::string("(anon)") : N->getNameAsString()) + "::" + s;
        }
        else if (auto *R = dyn_cast<TagDecl>(X))
            s = (R->getNameAsString().empty() ? std::string("(unnamed)") : R->getNameAsString()) + "::" + s;
        else if (auto *F = dyn_cast<FunctionDecl>(X))
            s = F->getNameAsString() + "::" + s;
    }
    return s;
}

struct Dumper
{
    ASTContext &C;
    PrintingPolicy PP;
    CompilerInstance &CI;
    std::map<const Type *, int> typeIds;
    json::Array types;
    std::map<const FunctionDecl *, int> fnIds;
    std::vector<const FunctionDecl *> fnList;
    std::deque<const FunctionDecl *> work;
    std::set<const FunctionDecl *> dumped;
    json::Object fnOut;
    std::map<const CXXRecordDecl *, int> recIds;
    json::Object recOut;
    std::deque<const CXXRecordDecl *> recWork;
    std::map<const Decl *, int> declIds;
    json::Object globals;

    Dumper(ASTContext &c, CompilerInstance &ci) : C(c), PP(c.getPrintingPolicy()), CI(ci)
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    std::string fileOf(SourceLocation L)
    {
        auto &SM = C.getSourceManager();
        L = SM.getExpansionLoc(L);
        auto P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return "";
        return P.getFilename();
    }
    bool inRepo(const Decl *D)
    {
        auto f = fileOf(D->getLocation());
        if (f.rfind(RepoPrefix, 0) == 0) return true;
        for (auto &p : LocalPrefixes)
            if (f.find(p) != std::string::npos) return true;
        return false;
    }
    int declId(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end()) return it->second;
        int id = (int)declIds.size() + 1;
        declIds[D] = id;
        return id;
    }

    json::Value targ(const TemplateArgument &A)
    {
        switch (A.getKind())
        {
            case TemplateArgument::Type:
                return json::Object{{"t", typeId(A.getAsType())}};
            case TemplateArgument::Integral:
                return json::Object{{"i", llvm::toString(A.getAsIntegral(), 10)}};
            case TemplateArgument::Pack:
            {
                json::Array a;
                for (auto &x : A.pack_elements()) a.push_back(targ(x));
                return json::Object{{"pack", std::move(a)}};
            }
            case TemplateArgument::Declaration:
                return json::Object{{"d", qn(A.getAsDecl())}};
            case TemplateArgument::Template:
            {
                std::string s;
                if (auto *td = A.getAsTemplate().getAsTemplateDecl()) s = qn(td);
                return json::Object{{"tpl", s}};
            }
            default:
                return json::Object{{"other", true}};
        }
    }
    json::Array targs(const TemplateArgumentList &L)
    {
        json::Array a;
        for (auto &x : L.asArray()) a.push_back(targ(x));
        return a;
    }
    json::Array targsFlat(const TemplateArgumentList *L)
    {
        json::Array a;
        if (L)
            for (auto &x : L->asArray()) a.push_back(targ(x));
        return a;
    }

    int typeId(QualType Q)
    {
        Q = Q.getCanonicalType();
        bool cst = Q.isConstQualified();
        QualType U = Q.getUnqualifiedType();
        const Type *T = U.getTypePtr();
        int base;
        auto it = typeIds.find(T);
        if (it != typeIds.end())
            base = it->second;
        else
        {
            base = (int)types.size();
            types.push_back(json::Object{});
            typeIds[T] = base;
            json::Object o = typeObj(U);
            o["s"] = U.getAsString(PP);
            types[base] = std::move(o);
        }
        (void)cst;
        return base;
    }

    json::Object typeObj(QualType U)
    {
        const Type *T = U.getTypePtr();
        json::Object o;
        if (auto *R = T->getAs<ReferenceType>())
        {
            o["k"] = "ref";
            o["to"] = typeId(R->getPointeeType());
            o["rv"] = isa<RValueReferenceType>(R);
            o["const"] = R->getPointeeType().isConstQualified();
            return o;
        }
        if (T->isPointerType())
        {
            o["k"] = "ptr";
            o["to"] = typeId(T->getPointeeType());
            return o;
        }
        if (T->isBooleanType())
        {
            o["k"] = "bool";
            return o;
        }
        if (T->isVoidType())
        {
            o["k"] = "void";
            return o;
        }
        if (T->isNullPtrType())
        {
            o["k"] = "nullptr";
            return o;
        }
        if (auto *E = T->getAs<EnumType>())
        {
            o["k"] = "int";
            QualType it = E->getDecl()->getIntegerType();
            if (it.isNull()) it = C.IntTy;
            o["w"] = (int64_t)C.getTypeSize(it);
            o["sg"] = it->isSignedIntegerType();
            o["enum"] = qn(E->getDecl());
            json::Array ev;
            for (auto *C : E->getDecl()->enumerators()) ev.push_back(llvm::toString(C->getInitVal(), 10));
            o["ev"] = std::move(ev);
            return o;
        }
        if (T->isIntegerType())
        {
            o["k"] = "int";
            o["w"] = (int64_t)C.getTypeSize(U);
            o["sg"] = T->isSignedIntegerType();
            return o;
        }
        if (T->isRealFloatingType())
        {
            o["k"] = "float";
            o["w"] = (int64_t)C.getTypeSize(U);
            return o;
        }
        if (auto *A = C.getAsConstantArrayType(U))
        {
            o["k"] = "carr";
            o["el"] = typeId(A->getElementType());
            o["n"] = (int64_t)A->getSize().getZExtValue();
            return o;
        }
        if (T->isFunctionType())
        {
            o["k"] = "fn";
            return o;
        }
        if (auto *RD = T->getAsCXXRecordDecl())
        {
            o["k"] = "rec";
            o["n"] = qn(RD);
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) o["ta"] = targs(S->getTemplateArgs());
            o["r"] = recId(RD);
            if (RD->isLambda()) o["lambda"] = true;
            return o;
        }
        o["k"] = "other";
        o["cls"] = T->getTypeClassName();
        return o;
    }

    int recId(const CXXRecordDecl *R)
    {
        R = R->getCanonicalDecl();
        auto it = recIds.find(R);
        if (it != recIds.end()) return it->second;
        int id = (int)recIds.size();
        recIds[R] = id;
        recWork.push_back(R);
        return id;
    }

    void dumpRec(const CXXRecordDecl *R0)
    {
        int id = recIds[R0];
        json::Object o;
        o["n"] = qn(R0);
        const CXXRecordDecl *R = R0->getDefinition();
        bool repo = inRepo(R0) || (R && inRepo(R));
        o["repo"] = repo;
        if (R && (repo || R->isLambda()))
        {
            json::Array fs;
            for (auto *F : R->fields())
            {
                json::Object f;
                f["n"] = F->getNameAsString();
                f["id"] = declId(F);
                f["t"] = typeId(F->getType());
                if (F->isMutable()) f["mutable"] = true;
                if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
                fs.push_back(std::move(f));
            }
            o["fields"] = std::move(fs);
            json::Array bs;
            for (auto &B : R->bases()) bs.push_back(typeId(B.getType()));
            o["bases"] = std::move(bs);
            o["agg"] = R->isAggregate();
            o["poly"] = R->isPolymorphic();
            if (R->isLambda())
            {
                json::Array ms;
                for (auto *D : R->decls())
                {
                    if (auto *M = dyn_cast<CXXMethodDecl>(D))
                    {
                        if (M->getOverloadedOperator() == OO_Call && !M->isDependentContext())
                            ms.push_back(fnId(M));
                    }
                    else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D))
                    {
                        if (FT->getTemplatedDecl()->getOverloadedOperator() == OO_Call)
                            for (auto *S : FT->specializations()) ms.push_back(fnId(S));
                    }
                }
                o["calls"] = std::move(ms);
            }
            else
            {
                json::Array ms;
                for (auto *M : R->methods())
                    if (M->isVirtual() || M->getOverloadedOperator() == OO_Call || M->getOverloadedOperator() == OO_Less ||
                        M->getOverloadedOperator() == OO_EqualEqual)
                    {
                        json::Object m;
                        m["n"] = M->getNameAsString();
                        m["fn"] = fnId(M);
                        m["virt"] = M->isVirtual();
                        ms.push_back(std::move(m));
                    }
                o["methods"] = std::move(ms);
            }
        }
        recOut[std::to_string(id)] = std::move(o);
    }

    int fnId(const FunctionDecl *F)
    {
        const FunctionDecl *K = F->getCanonicalDecl();
        auto it = fnIds.find(K);
        if (it != fnIds.end()) return it->second;
        int id = (int)fnList.size();
        fnIds[K] = id;
        fnList.push_back(K);
        work.push_back(K);
        return id;
    }

    const FunctionDecl *bodyOf(const FunctionDecl *F)
    {
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def)) return Def;
        if (auto *P = F->getTemplateInstantiationPattern())
        {
            const FunctionDecl *PD = nullptr;
            if (P->hasBody(PD))
            {
                auto *NF = const_cast<FunctionDecl *>(F);
                if (!NF->isInvalidDecl() && CI.hasSema())
                {
                    CI.getSema().InstantiateFunctionDefinition(F->getLocation(), NF, true, true, true);
                    if (F->hasBody(Def)) return Def;
                }
            }
        }
        return nullptr;
    }

    void dumpFn(const FunctionDecl *F)
    {
        int id = fnIds[F];
        json::Object o;
        o["n"] = qn(F);
        o["sn"] = F->getNameAsString();
        o["ret"] = typeId(F->getReturnType());
        if (auto *TA = F->getTemplateSpecializationArgs()) o["ta"] = targsFlat(TA);
        const FunctionDecl *B = nullptr;
        bool repo = inRepo(F);
        if (!repo)
            if (auto *P = F->getTemplateInstantiationPattern()) repo = inRepo(P);
        if (repo) B = bodyOf(F);
        if (B && !repo) repo = inRepo(B);
        const FunctionDecl *S = B ? B : F;
        o["repo"] = repo;
        o["file"] = fileOf(S->getLocation());
        {
            auto PL = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(S->getLocation()));
            if (PL.isValid()) o["line"] = (int64_t)PL.getLine();
        }
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
        {
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            o["cls"] = typeId(C.getRecordType(M->getParent()));
            o["virt"] = M->isVirtual();
        }
        if (isa<CXXConstructorDecl>(F)) o["ctor"] = true;
        if (isa<CXXConversionDecl>(F)) o["conv"] = true;
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
        {
            o["copyctor"] = CD->isCopyConstructor();
            o["movector"] = CD->isMoveConstructor();
            o["defaultctor"] = CD->isDefaultConstructor();
        }
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
        {
            o["copyasg"] = M->isCopyAssignmentOperator();
            o["moveasg"] = M->isMoveAssignmentOperator();
        }
        o["defaulted"] = S->isDefaulted();
        o["variadic"] = F->isVariadic();
        json::Array ps;
        for (auto *P : S->parameters())
        {
            json::Object p;
            p["n"] = P->getNameAsString();
            p["id"] = declId(P);
            p["t"] = typeId(P->getType());
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (B && (!B->isDefaulted() || isa<CXXConstructorDecl>(B)))
        {
            if (auto *CD = dyn_cast<CXXConstructorDecl>(B))
            {
                json::Array is;
                for (auto *I : CD->inits())
                {
                    json::Object i;
                    if (I->isAnyMemberInitializer())
                    {
                        i["f"] = I->getAnyMember()->getNameAsString();
                        i["fid"] = declId(I->getAnyMember());
                        i["ft"] = typeId(I->getAnyMember()->getType());
                    }
                    else if (I->isBaseInitializer())
                        i["base"] = typeId(QualType(I->getBaseClass(), 0));
                    else
                        i["deleg"] = true;
                    i["e"] = expr(I->getInit());
                    is.push_back(std::move(i));
                }
                o["inits"] = std::move(is);
            }
            o["body"] = stmt(B->getBody());
        }
        fnOut[std::to_string(id)] = std::move(o);
    }

    json::Value varDecl(const VarDecl *V)
    {
        json::Object o;
        o["k"] = "Var";
        o["n"] = V->getNameAsString();
        o["id"] = declId(V);
        o["t"] = typeId(V->getType());
        o["const"] = V->getType().isConstQualified();
        if (V->isStaticLocal()) o["static"] = true;
        if (V->hasInit() && V->getInit()) o["init"] = expr(V->getInit());
        if (auto *D = dyn_cast<DecompositionDecl>(V))
        {
            json::Array bs;
            for (auto *B : D->bindings())
            {
                json::Object b;
                b["n"] = B->getNameAsString();
                b["id"] = declId(B);
                b["t"] = typeId(B->getType());
                if (auto *H = B->getHoldingVar())
                    b["hold"] = varDecl(H);
                else if (B->getBinding())
                    b["e"] = expr(B->getBinding());
                bs.push_back(std::move(b));
            }
            o["bindings"] = std::move(bs);
        }
        return o;
    }

    json::Value stmtOrNull(const Stmt *S) { return S ? stmt(S) : json::Value(nullptr); }

    void addLine(json::Object &o, const Stmt *S)
    {
        auto &SM = C.getSourceManager();
        auto PL = SM.getPresumedLoc(SM.getExpansionLoc(S->getBeginLoc()));
        if (PL.isValid()) o["ln"] = (int64_t)PL.getLine();
    }

    json::Value stmt(const Stmt *S)
    {
        if (auto *E = dyn_cast<Expr>(S)) return expr(E);
        json::Object o;
        addLine(o, S);
        if (auto *X = dyn_cast<CompoundStmt>(S))
        {
            o["k"] = "Block";
            json::Array a;
            for (auto *c : X->body()) a.push_back(stmt(c));
            o["b"] = std::move(a);
        }
        else if (auto *X = dyn_cast<DeclStmt>(S))
        {
            o["k"] = "Decl";
            json::Array a;
            for (auto *d : X->decls())
                if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(varDecl(v));
            o["ds"] = std::move(a);
        }
        else if (auto *X = dyn_cast<IfStmt>(S))
        {
            o["k"] = "If";
            o["constexpr"] = X->isConstexpr();
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt()) o["var"] = stmt(X->getConditionVariableDeclStmt());
            if (X->isConstexpr())
            {
                Expr::EvalResult R;
                if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsInt(R, C))
                {
                    bool v = R.Val.getInt().getBoolValue();
                    o["cv"] = v;
                    if (v)
                        o["th"] = stmtOrNull(X->getThen());
                    else
                        o["el"] = stmtOrNull(X->getElse());
                    return o;
                }
            }
            o["c"] = expr(X->getCond());
            o["th"] = stmtOrNull(X->getThen());
            o["el"] = stmtOrNull(X->getElse());
        }
        else if (auto *X = dyn_cast<ForStmt>(S))
        {
            o["k"] = "For";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getCond()) o["c"] = expr(X->getCond());
            if (X->getInc()) o["inc"] = expr(X->getInc());
            o["b"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<CXXForRangeStmt>(S))
        {
            o["k"] = "ForRange";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            o["rng"] = expr(X->getRangeInit());
            o["rngvar"] = stmt(X->getRangeStmt());
            o["begin"] = stmt(X->getBeginStmt());
            o["var"] = varDecl(X->getLoopVariable());
            o["b"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<WhileStmt>(S))
        {
            o["k"] = "While";
            if (X->getConditionVariableDeclStmt()) o["var"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<DoStmt>(S))
        {
            o["k"] = "Do";
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<ReturnStmt>(S))
        {
            o["k"] = "Return";
            if (X->getRetValue()) o["e"] = expr(X->getRetValue());
        }
        else if (isa<BreakStmt>(S))
            o["k"] = "Break";
        else if (isa<ContinueStmt>(S))
            o["k"] = "Continue";
        else if (isa<NullStmt>(S))
            o["k"] = "Null";
        else if (auto *X = dyn_cast<SwitchStmt>(S))
        {
            o["k"] = "Switch";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariableDeclStmt()) o["var"] = stmt(X->getConditionVariableDeclStmt());
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
        }
        else if (auto *X = dyn_cast<CaseStmt>(S))
        {
            o["k"] = "Case";
            o["v"] = expr(X->getLHS());
            o["b"] = stmt(X->getSubStmt());
        }
        else if (auto *X = dyn_cast<DefaultStmt>(S))
        {
            o["k"] = "Default";
            o["b"] = stmt(X->getSubStmt());
        }
        else if (auto *X = dyn_cast<CXXTryStmt>(S))
        {
            o["k"] = "Try";
            o["b"] = stmt(X->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i)
            {
                json::Object h;
                auto *H = X->getHandler(i);
                if (H->getExceptionDecl())
                {
                    h["var"] = varDecl(H->getExceptionDecl());
                }
                h["b"] = stmt(H->getHandlerBlock());
                hs.push_back(std::move(h));
            }
            o["h"] = std::move(hs);
        }
        else if (auto *X = dyn_cast<AttributedStmt>(S))
            return stmt(X->getSubStmt());
        else
        {
            o["k"] = "Unsupported";
            o["cls"] = S->getStmtClassName();
        }
        return o;
    }

    bool constInt(const Expr *E, std::string &out)
    {
        if (E->isValueDependent() || E->isTypeDependent()) return false;
        if (!E->getType()->isIntegralOrEnumerationType()) return false;
        Expr::EvalResult R;
        if (!E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) return false;
        if (!R.Val.isInt()) return false;
        out = llvm::toString(R.Val.getInt(), 10);
        return true;
    }
    bool constFloat(const Expr *E, json::Object &o)
    {
        if (E->isValueDependent() || E->isTypeDependent()) return false;
        if (!E->getType()->isRealFloatingType()) return false;
        Expr::EvalResult R;
        if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects || !R.Val.isFloat()) return false;
        auto &V = R.Val.getFloat();
        llvm::SmallString<32> s;
        V.bitcastToAPInt().toString(s, 16, false);
        o["k"] = "Float";
        o["bits"] = std::string(s.str());
        return true;
    }

    json::Array exprs(llvm::iterator_range<CallExpr::const_arg_iterator> r)
    {
        json::Array a;
        for (auto *e : r) a.push_back(expr(e));
        return a;
    }

    json::Value expr(const Expr *E)
    {
        // Transparent wrappers.
        for (;;)
        {
            if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
            else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
            else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
            else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
            else break;
        }
        json::Object o;
        o["t"] = typeId(E->getType());
        if (E->isLValue()) o["vc"] = "l";
        else if (E->isXValue()) o["vc"] = "x";
        else o["vc"] = "p";
        addLine(o, E);

        if (!isa<MaterializeTemporaryExpr>(E))
        {
            std::string ci;
            bool prval = E->isPRValue() || isa<DeclRefExpr>(E) || isa<MemberExpr>(E);
            if (prval && constInt(E, ci))
            {
                bool ok = true;
                if (auto *D = dyn_cast<DeclRefExpr>(E))
                    if (auto *V = dyn_cast<VarDecl>(D->getDecl()))
                        if (!V->isConstexpr() && !V->getType().isConstQualified()) ok = false;
                if (ok)
                {
                    o["k"] = "Int";
                    o["v"] = ci;
                    return o;
                }
            }
            if (prval && (isa<DeclRefExpr>(E) || isa<FloatingLiteral>(E) || isa<CastExpr>(E) || isa<UnaryOperator>(E) ||
                          isa<BinaryOperator>(E) || isa<CallExpr>(E)))
            {
                bool ok = true;
                if (auto *D = dyn_cast<DeclRefExpr>(E))
                    if (auto *V = dyn_cast<VarDecl>(D->getDecl()))
                        if (!V->isConstexpr() && !V->getType().isConstQualified()) ok = false;
                if (ok && constFloat(E, o)) return o;
            }
        }

        if (auto *X = dyn_cast<IntegerLiteral>(E))
        {
            o["k"] = "Int";
            o["v"] = llvm::toString(X->getValue(), 10, E->getType()->isSignedIntegerType());
        }
        else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
        {
            o["k"] = "Temp";
            o["e"] = expr(X->getSubExpr());
        }
        else if (auto *X = dyn_cast<StringLiteral>(E))
        {
            o["k"] = "Str";
            if (X->getCharByteWidth() == 1)
            {
                std::string s = X->getString().str();
                if (!json::isUTF8(s)) s = json::fixUTF8(s);
                o["v"] = s;
            }
        }
        else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
            o["k"] = "Null";
        else if (auto *X = dyn_cast<DeclRefExpr>(E))
        {
            auto *D = X->getDecl();
            o["k"] = "Ref";
            o["n"] = D->getNameAsString();
            if (auto *F = dyn_cast<FunctionDecl>(D))
            {
                o["fn"] = fnId(F);
            }
            else
            {
                o["d"] = declId(D);
                if (auto *V = dyn_cast<VarDecl>(D))
                    if (V->hasGlobalStorage() && !V->isStaticLocal())
                    {
                        o["global"] = qn(V);
                        std::string key = std::to_string(declId(D));
                        if (!globals.get(key))
                        {
                            globals[key] = nullptr;
                            json::Object g;
                            g["n"] = qn(V);
                            g["t"] = typeId(V->getType());
                            const VarDecl *Def = nullptr;
                            if (auto *I = V->getAnyInitializer(Def))
                                if (!I->isValueDependent() && inRepo(V)) g["init"] = expr(I);
                            globals[key] = std::move(g);
                        }
                    }
            }
        }
        else if (auto *X = dyn_cast<MemberExpr>(E))
        {
            o["k"] = "Mem";
            o["b"] = expr(X->getBase());
            o["arrow"] = X->isArrow();
            o["f"] = X->getMemberDecl()->getNameAsString();
            if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl()))
                o["fn"] = fnId(F);
            else
                o["fid"] = declId(X->getMemberDecl());
            if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) o["staticmem"] = qn(V);
        }
        else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E))
        {
            o["k"] = "OpCall";
            o["op"] = getOperatorSpelling(X->getOperator());
            if (auto *F = X->getDirectCallee()) o["fn"] = fnId(F);
            o["a"] = exprs(X->arguments());
        }
        else if (auto *X = dyn_cast<CXXMemberCallExpr>(E))
        {
            o["k"] = "MCall";
            if (auto *F = X->getMethodDecl()) o["fn"] = fnId(F);
            if (auto *M = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
            {
                o["obj"] = expr(M->getBase());
                o["arrow"] = M->isArrow();
                o["qual"] = M->hasQualifier();
            }
            else
                o["callee"] = expr(X->getCallee());
            o["a"] = exprs(X->arguments());
        }
        else if (auto *X = dyn_cast<CallExpr>(E))
        {
            o["k"] = "Call";
            if (auto *F = X->getDirectCallee())
                o["fn"] = fnId(F);
            else
                o["callee"] = expr(X->getCallee());
            o["a"] = exprs(X->arguments());
        }
        else if (auto *X = dyn_cast<CXXConstructExpr>(E))
        {
            o["k"] = "Ctor";
            o["fn"] = fnId(X->getConstructor());
            json::Array a;
            for (auto *e : X->arguments()) a.push_back(expr(e));
            o["a"] = std::move(a);
            o["list"] = X->isListInitialization();
            o["zero"] = X->requiresZeroInitialization();
        }
        else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E))
        {
            o["k"] = "InhCtor";
            o["fn"] = fnId(X->getConstructor());
        }
        else if (auto *X = dyn_cast<CastExpr>(E))
        {
            o["k"] = "Cast";
            o["ck"] = X->getCastKindName();
            o["e"] = expr(X->getSubExpr());
            if (auto *F = X->getConversionFunction())
                if (auto *FF = dyn_cast<FunctionDecl>(F)) o["fn"] = fnId(FF);
        }
        else if (auto *X = dyn_cast<LambdaExpr>(E))
        {
            o["k"] = "Lambda";
            auto *R = X->getLambdaClass();
            o["r"] = recId(R);
            json::Array cs;
            auto fi = R->field_begin();
            auto ii = X->capture_init_begin();
            for (auto &cap : X->captures())
            {
                json::Object c;
                c["fid"] = declId(*fi);
                c["ft"] = typeId((*fi)->getType());
                if (cap.capturesThis())
                    c["this"] = true;
                else if (cap.capturesVariable())
                {
                    c["d"] = declId(cap.getCapturedVar());
                    c["n"] = cap.getCapturedVar()->getNameAsString();
                }
                c["ref"] = cap.getCaptureKind() == LCK_ByRef;
                c["starthis"] = cap.getCaptureKind() == LCK_StarThis;
                c["init"] = *ii ? expr(*ii) : json::Value(nullptr);
                cs.push_back(std::move(c));
                ++fi;
                ++ii;
            }
            o["caps"] = std::move(cs);
            o["mutable"] = X->isMutable();
        }
        else if (auto *X = dyn_cast<InitListExpr>(E))
        {
            if (!X->isSemanticForm() && X->getSemanticForm()) X = X->getSemanticForm();
            o["k"] = "InitList";
            json::Array a;
            for (auto *e : X->inits()) a.push_back(expr(e));
            o["a"] = std::move(a);
            if (X->hasArrayFiller()) o["filler"] = true;
            if (auto *FD = X->getInitializedFieldInUnion()) o["uf"] = FD->getNameAsString();
        }
        else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
            o["k"] = "ValueInit";
        else if (isa<CXXThisExpr>(E))
            o["k"] = "This";
        else if (auto *X = dyn_cast<ConditionalOperator>(E))
        {
            o["k"] = "Cond";
            o["c"] = expr(X->getCond());
            o["x"] = expr(X->getTrueExpr());
            o["y"] = expr(X->getFalseExpr());
        }
        else if (auto *X = dyn_cast<CompoundAssignOperator>(E))
        {
            o["k"] = "CAsg";
            o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(X->getOpcode()));
            o["l"] = expr(X->getLHS());
            o["r"] = expr(X->getRHS());
            o["ct"] = typeId(X->getComputationLHSType());
            o["crt"] = typeId(X->getComputationResultType());
        }
        else if (auto *X = dyn_cast<BinaryOperator>(E))
        {
            o["k"] = "Bin";
            o["op"] = X->getOpcodeStr();
            o["l"] = expr(X->getLHS());
            o["r"] = expr(X->getRHS());
        }
        else if (auto *X = dyn_cast<UnaryOperator>(E))
        {
            o["k"] = "Un";
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
            o["post"] = X->isPostfix();
            o["e"] = expr(X->getSubExpr());
        }
        else if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
        {
            o["k"] = "Sub";
            o["b"] = expr(X->getBase());
            o["i"] = expr(X->getIdx());
        }
        else if (auto *X = dyn_cast<CXXThrowExpr>(E))
        {
            o["k"] = "Throw";
            if (X->getSubExpr()) o["e"] = expr(X->getSubExpr());
        }
        else if (auto *X = dyn_cast<CXXTypeidExpr>(E))
        {
            o["k"] = "Typeid";
            if (!X->isTypeOperand())
                o["e"] = expr(X->getExprOperand());
        }
        else if (auto *X = dyn_cast<CXXNewExpr>(E))
        {
            o["k"] = "New";
            o["nt"] = typeId(X->getAllocatedType());
            if (X->getInitializer()) o["init"] = expr(X->getInitializer());
        }
        else
        {
            o["k"] = "Unsupported";
            o["cls"] = E->getStmtClassName();
        }
        return o;
    }
};

struct RootFinder : RecursiveASTVisitor<RootFinder>
{
    Dumper &D;
    explicit RootFinder(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if (F->isDependentContext() || F->getDescribedFunctionTemplate()) return true;
        auto q = qn(F);
        for (auto &r : Roots)
            if (std::regex_match(q, r))
            {
                D.fnId(F);
                break;
            }
        return true;
    }
};

struct Consumer : ASTConsumer
{
    CompilerInstance &CI;
    explicit Consumer(CompilerInstance &ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C, CI);
        RootFinder R(D);
        R.TraverseDecl(C.getTranslationUnitDecl());
        while (!D.work.empty() || !D.recWork.empty())
        {
            while (!D.work.empty())
            {
                auto *F = D.work.front();
                D.work.pop_front();
                D.dumpFn(F);
            }
            while (!D.recWork.empty())
            {
                auto *X = D.recWork.front();
                D.recWork.pop_front();
                D.dumpRec(X);
            }
        }
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        json::Object top;
        top["types"] = std::move(D.types);
        top["fns"] = std::move(D.fnOut);
        top["recs"] = std::move(D.recOut);
        top["globals"] = std::move(D.globals);
        os << json::Value(std::move(top));
    }
};
struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};

// kvc-dump OUT ROOTREGEX[,ROOTREGEX...] REPOPREFIX SRC -- flags
int main(int argc, const char **argv)
{
    if (argc < 5) return 2;
    OutFile = argv[1];
    std::string roots = argv[2];
    RepoPrefix = argv[3];
    std::string src = argv[4];
    size_t p = 0;
    while (p <= roots.size())
    {
        size_t q = roots.find(',', p);
        if (q == std::string::npos) q = roots.size();
        if (q > p) Roots.emplace_back(roots.substr(p, q - p));
        p = q + 1;
    }
    std::string err;
    auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(argc, argv, err);
    if (!db) return 2;
    tooling::ClangTool t(*db, {src});
    return t.run(tooling::newFrontendActionFactory<Action>().get());
}
