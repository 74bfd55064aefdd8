// astdump: writes the resolved program (one translation unit) as JSON.
//
// For every function of the analysed repository that has a body in this unit
// - plain functions, methods, constructors with their initialiser lists,
// template instantiations and lambda bodies, including every specialisation of
// generic lambdas - the statement and expression tree is written with callees,
// types, constants and declarations resolved by clang.  Library code is not
// written; calls to it keep the qualified name and template arguments.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string gTu, gOut;
static std::vector<std::string> gRoots;

namespace {

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    std::unique_ptr<MangleContext> MC;
    Object funcs, records, vars;
    Array types;
    std::map<const void*, int> typeIds;
    std::map<const Decl*, std::string> declIds;
    std::set<const Decl*> doneFn, doneRec, doneVar;
    std::deque<const FunctionDecl*> work;
    unsigned counter = 0;
    std::map<std::string, unsigned> unknown;

    explicit Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), MC(C.createMangleContext()) {}

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto P = SM.getPresumedLoc(L);
        return P.isValid() ? P.getFilename() : "";
    }
    unsigned lineOf(SourceLocation L) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? P.getLine() : 0;
    }
    bool inRepo(SourceLocation L) {
        if (L.isInvalid()) return false;
        auto F = fileOf(L);
        for (auto& r : gRoots)
            if (F.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    bool inRepo(const Decl* D) { return inRepo(D->getLocation()); }

    // ---- identities -----------------------------------------------------
    static const Decl* canon(const Decl* D) { return D->getCanonicalDecl(); }

    std::string declId(const NamedDecl* D) {
        auto* K = canon(D);
        auto it = declIds.find(K);
        if (it != declIds.end()) return it->second;
        std::string id;
        bool ext = D->isExternallyVisible();
        if (auto* F = dyn_cast<FunctionDecl>(D)) {
            if (ext && !F->isDependentContext()) {
                std::string s;
                llvm::raw_string_ostream os(s);
                GlobalDecl GD;
                if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(CD, Ctor_Complete);
                else if (auto* DD = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(DD, Dtor_Complete);
                else GD = GlobalDecl(F);
                if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, os);
                else os << F->getNameAsString();
                os.flush();
                id = s;
            } else
                id = "f" + std::to_string(++counter) + "@" + gTu;
        } else if (auto* V = dyn_cast<VarDecl>(D)) {
            if (ext && V->hasGlobalStorage() && !V->isStaticLocal()) {
                id = "v:" + V->getQualifiedNameAsString();
                if (V->getDeclContext()->isRecord() || isa<VarTemplateSpecializationDecl>(V)) {
                    std::string s;
                    llvm::raw_string_ostream os(s);
                    if (MC->shouldMangleDeclName(V)) MC->mangleName(GlobalDecl(V), os);
                    os.flush();
                    if (!s.empty()) id = "v:" + s;
                }
            } else
                id = "v" + std::to_string(++counter) + "@" + gTu;
        } else if (auto* R = dyn_cast<CXXRecordDecl>(D)) {
            if (ext && !R->isLambda() && !R->isDependentContext()) {
                id = "r:" + C.getTypeDeclType(R).getCanonicalType().getAsString();
                // the printed name does not tell lambdas of different instantiations apart
                if (id.find("(lambda") != std::string::npos || id.find("(anonymous") != std::string::npos || id.find("(unnamed") != std::string::npos) {
                    std::string s;
                    llvm::raw_string_ostream os(s);
                    MC->mangleCanonicalTypeName(C.getTypeDeclType(R).getCanonicalType(), os);
                    os.flush();
                    id += "#" + s;
                }
                // local classes may share a printed name
                if (R->isLocalClass()) id += "#" + std::to_string(++counter) + "@" + gTu;
            } else
                id = "r" + std::to_string(++counter) + "@" + gTu;
        } else
            id = "d" + std::to_string(++counter) + "@" + gTu;
        declIds[K] = id;
        return id;
    }

    // ---- types ----------------------------------------------------------
    Value targ(const TemplateArgument& A) {
        switch (A.getKind()) {
        case TemplateArgument::Type: return Object{{"t", ty(A.getAsType())}};
        case TemplateArgument::Integral: {
            llvm::SmallString<32> s;
            A.getAsIntegral().toString(s);
            return Object{{"v", s.str().str()}};
        }
        case TemplateArgument::Pack: {
            Array a;
            for (auto& p : A.pack_elements()) a.push_back(targ(p));
            return Object{{"p", std::move(a)}};
        }
        case TemplateArgument::Declaration:
            return Object{{"d", A.getAsDecl()->getQualifiedNameAsString()}};
        default: return Object{{"x", "other"}};
        }
    }

    int ty(QualType Q) {
        if (Q.isNull()) return -1;
        Q = Q.getCanonicalType();
        const void* key = Q.getAsOpaquePtr();
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int id = (int)types.size();
        typeIds[key] = id;
        types.push_back(nullptr);
        Object o;
        if (Q.isConstQualified()) o["c"] = 1;
        QualType U = Q.getUnqualifiedType();
        const Type* T = U.getTypePtr();
        if (auto* B = dyn_cast<BuiltinType>(T)) {
            o["k"] = "b";
            o["n"] = U.getAsString(C.getPrintingPolicy());
            if (B->isInteger()) {
                o["w"] = (int64_t)C.getTypeSize(U);
                o["s"] = B->isSignedInteger() ? 1 : 0;
                o["i"] = 1;
            } else if (B->isFloatingPoint()) {
                o["w"] = (int64_t)C.getTypeSize(U);
                o["f"] = 1;
            }
        } else if (auto* P = dyn_cast<PointerType>(T)) {
            o["k"] = "p";
            o["to"] = ty(P->getPointeeType());
        } else if (auto* R = dyn_cast<LValueReferenceType>(T)) {
            o["k"] = "l";
            o["to"] = ty(R->getPointeeType());
        } else if (auto* R = dyn_cast<RValueReferenceType>(T)) {
            o["k"] = "r";
            o["to"] = ty(R->getPointeeType());
        } else if (auto* E = dyn_cast<EnumType>(T)) {
            o["k"] = "e";
            o["n"] = E->getDecl()->getQualifiedNameAsString();
            Object ev;
            if (inRepo(E->getDecl()))
                for (auto* c : E->getDecl()->enumerators()) ev[c->getNameAsString()] = c->getInitVal().getExtValue();
            o["ev"] = std::move(ev);
            if (E->getDecl()->getIntegerType().isNull()) {
                o["w"] = 32;
                o["s"] = 1;
            } else {
                o["w"] = (int64_t)C.getTypeSize(E->getDecl()->getIntegerType());
                o["s"] = E->getDecl()->getIntegerType()->isSignedIntegerType() ? 1 : 0;
            }
        } else if (auto* R = dyn_cast<RecordType>(T)) {
            o["k"] = "o";
            auto* D = cast<RecordDecl>(R->getDecl());
            o["n"] = D->getQualifiedNameAsString();
            if (auto* CR = dyn_cast<CXXRecordDecl>(D)) {
                o["id"] = declId(CR);
                if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(CR)) {
                    Array a;
                    for (auto& x : S->getTemplateArgs().asArray()) a.push_back(targ(x));
                    o["a"] = std::move(a);
                }
                if (auto* Def = CR->getDefinition()) record(Def);
            }
        } else if (auto* A = dyn_cast<ConstantArrayType>(T)) {
            o["k"] = "a";
            o["of"] = ty(A->getElementType());
            o["sz"] = (int64_t)A->getSize().getZExtValue();
        } else if (auto* A = dyn_cast<clang::ArrayType>(T)) {
            o["k"] = "a";
            o["of"] = ty(A->getElementType());
        } else if (auto* F = dyn_cast<FunctionProtoType>(T)) {
            o["k"] = "f";
            o["ret"] = ty(F->getReturnType());
            Array a;
            for (auto p : F->getParamTypes()) a.push_back(ty(p));
            o["ps"] = std::move(a);
        } else if (auto* M = dyn_cast<MemberPointerType>(T)) {
            o["k"] = "m";
            o["to"] = ty(M->getPointeeType());
        } else {
            o["k"] = "x";
            o["n"] = U.getAsString();
        }
        types[id] = std::move(o);
        return id;
    }

    // ---- records --------------------------------------------------------
    bool lambdaInRepo(const CXXRecordDecl* R) { return R->isLambda() && inRepo(R); }

    void record(const CXXRecordDecl* R) {
        if (R->isDependentContext()) return;
        if (!doneRec.insert(canon(R)).second) return;
        bool repo = inRepo(R);
        Object o;
        o["n"] = R->getQualifiedNameAsString();
        o["repo"] = repo;
        if (R->isUnion()) o["union"] = 1;
        Array bs;
        for (auto& b : R->bases()) bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        if (R->isPolymorphic()) o["poly"] = 1;
        if (repo) {
            o["f"] = fileOf(R->getLocation());
            o["l"] = lineOf(R->getLocation());
            if (R->isAbstract()) o["abs"] = 1;
            Array fs;
            for (auto* F : R->fields()) {
                Object fo{{"n", fieldName(F)}, {"t", ty(F->getType())}, {"l", lineOf(F->getLocation())}};
                if (F->isMutable()) fo["mut"] = 1;
                if (F->hasInClassInitializer())
                    if (auto* I = F->getInClassInitializer()) fo["init"] = expr(I);
                fs.push_back(std::move(fo));
            }
            o["fields"] = std::move(fs);
            Array ms;
            for (auto* M : R->methods()) {
                Object mo{{"n", M->getNameAsString()}, {"id", declId(M)}};
                if (M->isVirtual()) mo["v"] = 1;
                if (M->isPureVirtual()) mo["pure"] = 1;
                if (M->isConst()) mo["const"] = 1;
                if (M->isDeleted()) mo["del"] = 1;
                if (M->isDefaulted()) mo["dflt"] = 1;
                if (M->isImplicit()) mo["impl"] = 1;
                if (M->isUserProvided()) mo["up"] = 1;
                if (isa<CXXDestructorDecl>(M)) mo["dtor"] = 1;
                if (auto* K = dyn_cast<CXXConstructorDecl>(M)) {
                    mo["ctor"] = 1;
                    if (K->isCopyConstructor()) mo["cc"] = 1;
                    if (K->isMoveConstructor()) mo["mc"] = 1;
                }
                if (M->isCopyAssignmentOperator()) mo["ca"] = 1;
                if (M->isMoveAssignmentOperator()) mo["ma"] = 1;
                mo["acc"] = M->getAccess() == AS_public ? "pub" : M->getAccess() == AS_protected ? "prot" : "priv";
                Array ov;
                for (auto* X : M->overridden_methods()) ov.push_back(declId(X));
                if (!ov.empty()) mo["ov"] = std::move(ov);
                if (!M->isDependentContext() && !M->getType().isNull() && !R->isLambda()) mo["ty"] = ty(M->getType());
                ms.push_back(std::move(mo));
                enqueue(M);
            }
            for (auto* D : R->decls()) {
                auto* T = dyn_cast<FunctionTemplateDecl>(D);
                if (!T || !isa<CXXConstructorDecl>(T->getTemplatedDecl())) continue;
                for (auto* S : T->specializations()) {
                    if (S->isDependentContext()) continue;
                    ms.push_back(Object{{"n", S->getNameAsString()}, {"id", declId(S)}, {"ctor", 1}, {"up", 1}, {"tmpl", 1}, {"acc", "pub"}});
                    enqueue(S);
                }
            }
            o["methods"] = std::move(ms);
            if (R->isLambda()) {
                o["lambda"] = 1;
                Array ops;
                if (auto* T = R->getDependentLambdaCallOperator()) {
                    for (auto* S : T->specializations()) {
                        ops.push_back(declId(S));
                        enqueue(S);
                    }
                } else if (auto* M = R->getLambdaCallOperator()) {
                    ops.push_back(declId(M));
                    enqueue(M);
                }
                o["ops"] = std::move(ops);
            }
        }
        records[declId(R)] = std::move(o);
    }

    std::string fieldName(const FieldDecl* F) {
        auto n = F->getNameAsString();
        if (n.empty()) return "#" + std::to_string(F->getFieldIndex());
        return n;
    }

    // ---- functions ------------------------------------------------------
    void enqueue(const FunctionDecl* F) {
        if (!F || F->isDependentContext()) return;
        const FunctionDecl* D = nullptr;
        if (!F->hasBody(D)) {
            // still: implicit/defaulted functions have no body until used
            return;
        }
        if (!inRepo(D)) return;
        if (!doneFn.insert(canon(D)).second) return;
        work.push_back(D);
    }

    Object calleeInfo(const FunctionDecl* F) {
        Object o;
        o["id"] = declId(F);
        o["n"] = F->getQualifiedNameAsString();
        enqueue(F);
        bool repo = inRepo(F);
        if (repo) o["repo"] = 1;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = ty(C.getTypeDeclType(M->getParent()));
            if (M->isVirtual()) o["v"] = 1;
            if (M->isStatic()) o["st"] = 1;
            if (M->isConst()) o["const"] = 1;
        }
        if (auto* A = F->getTemplateSpecializationArgs()) {
            Array a;
            for (auto& x : A->asArray()) a.push_back(targ(x));
            o["ta"] = std::move(a);
        }
        if (!repo) {
            Array ps;
            for (auto* p : F->parameters()) ps.push_back(ty(p->getType()));
            o["ps"] = std::move(ps);
            o["rt"] = ty(F->getReturnType());
        }
        if (F->isNoReturn()) o["nr"] = 1;
        return o;
    }

    void function(const FunctionDecl* F) {
        Object o;
        o["n"] = F->getQualifiedNameAsString();
        o["f"] = fileOf(F->getLocation());
        o["l"] = lineOf(F->getLocation());
        o["el"] = lineOf(F->getEndLoc());
        o["rt"] = ty(F->getReturnType());
        Array ps;
        for (auto* p : F->parameters())
            ps.push_back(Object{{"id", declId(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}});
        o["ps"] = std::move(ps);
        if (F->isVariadic()) o["va"] = 1;
        if (F->isDefaulted()) o["dflt"] = 1;
        if (F->isImplicit()) o["impl"] = 1;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = declId(M->getParent());
            if (M->isStatic()) o["st"] = 1;
            if (M->isVirtual()) o["v"] = 1;
            if (M->isConst()) o["const"] = 1;
        }
        if (auto* A = F->getTemplateSpecializationArgs()) {
            Array a;
            for (auto& x : A->asArray()) a.push_back(targ(x));
            o["ta"] = std::move(a);
        }
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = 1;
            if (K->isCopyConstructor()) o["cc"] = 1;
            if (K->isMoveConstructor()) o["mc"] = 1;
            Array is;
            for (auto* I : K->inits()) {
                Object io;
                if (I->isAnyMemberInitializer()) {
                    if (I->getAnyMember()) io["m"] = fieldName(I->getAnyMember());
                } else if (I->isBaseInitializer())
                    io["b"] = ty(QualType(I->getBaseClass(), 0));
                else if (I->isDelegatingInitializer())
                    io["d"] = 1;
                if (I->isWritten()) io["w"] = 1;
                io["e"] = expr(I->getInit());
                io["l"] = lineOf(I->getSourceLocation());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = 1;
        o["body"] = stmt(F->getBody());
        funcs[declId(F)] = std::move(o);
    }

    // ---- statements -----------------------------------------------------
    void var(const VarDecl* V) {
        if (!doneVar.insert(canon(V)).second) return;
        auto* Def = V->getDefinition();
        if (!Def) Def = V->getActingDefinition();
        if (!Def) Def = const_cast<VarDecl*>(V);
        Object o{{"n", V->getQualifiedNameAsString()}, {"t", ty(V->getType())}, {"f", fileOf(Def->getLocation())}, {"l", lineOf(Def->getLocation())}};
        if (inRepo(Def)) o["repo"] = 1;
        const VarDecl* WithInit = nullptr;
        if (auto* I = Def->getAnyInitializer(WithInit)) {
            if (!I->isValueDependent() && inRepo(Def)) o["init"] = expr(I);
            else if (!I->isValueDependent())
                if (auto* A = const_cast<VarDecl*>(WithInit)->evaluateValue())
                    if (A->isInt()) {
                        llvm::SmallString<32> s;
                        A->getInt().toString(s);
                        o["cv"] = s.str().str();
                    }
        }
        if (Def->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) o["decl"] = 1;
        if (Def->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
        vars[declId(V)] = std::move(o);
    }

    Value declStmt(const Decl* D) {
        if (auto* DD = dyn_cast<DecompositionDecl>(D)) {
            Object o{{"k", "decomp"}, {"id", declId(DD)}, {"t", ty(DD->getType())}, {"l", lineOf(DD->getLocation())}};
            if (DD->getInit()) o["init"] = expr(DD->getInit());
            Array bs;
            for (auto* B : DD->bindings()) {
                Object b{{"id", declId(B)}, {"n", B->getNameAsString()}};
                if (auto* HV = B->getHoldingVar()) {
                    b["hv"] = declId(HV);
                    if (HV->getInit()) b["init"] = expr(HV->getInit());
                } else if (B->getBinding())
                    b["e"] = expr(B->getBinding());
                bs.push_back(std::move(b));
            }
            o["bs"] = std::move(bs);
            return o;
        }
        if (auto* V = dyn_cast<VarDecl>(D)) {
            Object o{{"k", "var"}, {"id", declId(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())}, {"l", lineOf(V->getLocation())}};
            if (V->isStaticLocal()) o["static"] = 1;
            if (V->hasInit()) o["init"] = expr(V->getInit());
            if (V->isStaticLocal()) var(V);
            return o;
        }
        if (auto* R = dyn_cast<CXXRecordDecl>(D)) {
            if (auto* Def = R->getDefinition()) record(Def);
            return nullptr;
        }
        return nullptr;
    }

    Value stmt(const Stmt* S) {
        if (!S) return nullptr;
        if (auto* E = dyn_cast<Expr>(S)) return Object{{"k", "expr"}, {"e", expr(E)}, {"l", lineOf(S->getBeginLoc())}};
        Object o;
        o["l"] = lineOf(S->getBeginLoc());
        switch (S->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            Array a;
            for (auto* c : cast<CompoundStmt>(S)->body()) a.push_back(stmt(c));
            o["k"] = "block";
            o["b"] = std::move(a);
            o["el"] = lineOf(S->getEndLoc());
            return o;
        }
        case Stmt::DeclStmtClass: {
            Array a;
            for (auto* d : cast<DeclStmt>(S)->decls()) {
                auto v = declStmt(d);
                if (v.kind() != Value::Null) a.push_back(std::move(v));
            }
            o["k"] = "decl";
            o["d"] = std::move(a);
            return o;
        }
        case Stmt::IfStmtClass: {
            auto* I = cast<IfStmt>(S);
            o["k"] = "if";
            if (I->getInit()) o["init"] = stmt(I->getInit());
            if (auto* DS = I->getConditionVariableDeclStmt()) o["cv"] = stmt(DS);
            if (I->isConsteval()) {
                o["c"] = Object{{"k", "lit"}, {"v", I->isNegatedConsteval()}, {"t", ty(C.BoolTy)}};
            } else if (I->isConstexpr()) {
                if (auto r = const_cast<IfStmt*>(I)->getNondiscardedCase(C)) {
                    o["k"] = "block";
                    Array a;
                    if (I->getInit()) a.push_back(stmt(I->getInit()));
                    if (*r) a.push_back(stmt(*r));
                    o["b"] = std::move(a);
                    return o;
                }
                o["c"] = expr(I->getCond());
            } else
                o["c"] = expr(I->getCond());
            o["t"] = stmt(I->getThen());
            if (I->getElse()) o["e"] = stmt(I->getElse());
            return o;
        }
        case Stmt::ForStmtClass: {
            auto* F = cast<ForStmt>(S);
            o["k"] = "for";
            if (F->getInit()) o["init"] = stmt(F->getInit());
            if (auto* DS = F->getConditionVariableDeclStmt()) o["cv"] = stmt(DS);
            if (F->getCond()) o["c"] = expr(F->getCond());
            if (F->getInc()) o["inc"] = expr(F->getInc());
            o["b"] = stmt(F->getBody());
            return o;
        }
        case Stmt::WhileStmtClass: {
            auto* W = cast<WhileStmt>(S);
            o["k"] = "while";
            if (auto* DS = W->getConditionVariableDeclStmt()) o["cv"] = stmt(DS);
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::DoStmtClass: {
            auto* W = cast<DoStmt>(S);
            o["k"] = "do";
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto* F = cast<CXXForRangeStmt>(S);
            o["k"] = "rfor";
            if (F->getInit()) o["init"] = stmt(F->getInit());
            o["range"] = stmt(F->getRangeStmt());
            o["begin"] = stmt(F->getBeginStmt());
            o["end"] = stmt(F->getEndStmt());
            o["c"] = expr(F->getCond());
            o["inc"] = expr(F->getInc());
            o["var"] = stmt(F->getLoopVarStmt());
            o["b"] = stmt(F->getBody());
            return o;
        }
        case Stmt::SwitchStmtClass: {
            auto* W = cast<SwitchStmt>(S);
            o["k"] = "switch";
            if (W->getInit()) o["init"] = stmt(W->getInit());
            if (auto* DS = W->getConditionVariableDeclStmt()) o["cv"] = stmt(DS);
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        case Stmt::CaseStmtClass: {
            auto* K = cast<CaseStmt>(S);
            o["k"] = "case";
            Expr::EvalResult R;
            if (K->getLHS()->EvaluateAsInt(R, C)) o["v"] = R.Val.getInt().getExtValue();
            if (K->getRHS() && K->getRHS()->EvaluateAsInt(R, C)) o["v2"] = R.Val.getInt().getExtValue();
            o["s"] = stmt(K->getSubStmt());
            return o;
        }
        case Stmt::DefaultStmtClass:
            o["k"] = "default";
            o["s"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
            return o;
        case Stmt::BreakStmtClass: o["k"] = "break"; return o;
        case Stmt::ContinueStmtClass: o["k"] = "continue"; return o;
        case Stmt::NullStmtClass: o["k"] = "null"; return o;
        case Stmt::ReturnStmtClass: {
            o["k"] = "ret";
            if (auto* E = cast<ReturnStmt>(S)->getRetValue()) o["e"] = expr(E);
            return o;
        }
        case Stmt::CXXTryStmtClass: {
            auto* T = cast<CXXTryStmt>(S);
            o["k"] = "try";
            o["b"] = stmt(T->getTryBlock());
            Array a;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
                auto* H = T->getHandler(i);
                Object h;
                if (auto* V = H->getExceptionDecl()) {
                    h["id"] = declId(V);
                    h["t"] = ty(V->getType());
                } else
                    h["all"] = 1;
                h["b"] = stmt(H->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
            return o;
        }
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
        case Stmt::LabelStmtClass: return stmt(cast<LabelStmt>(S)->getSubStmt());
        default:
            unknown[S->getStmtClassName()]++;
            o["k"] = "?";
            o["n"] = S->getStmtClassName();
            return o;
        }
    }

    // ---- expressions ----------------------------------------------------
    Value args(llvm::ArrayRef<const Expr*> as) {
        Array a;
        for (auto* x : as) a.push_back(expr(x));
        return a;
    }
    template <class It>
    Array argv(It b, It e) {
        Array a;
        for (; b != e; ++b) a.push_back(expr(*b));
        return a;
    }

    Object mk(const Expr* E, const char* k) {
        Object o{{"k", k}, {"t", ty(E->getType())}, {"l", lineOf(E->getExprLoc())}};
        if (E->isLValue()) o["lv"] = 1;
        else if (E->isXValue()) o["lv"] = 2;
        return o;
    }

    Value constant(const Expr* E, const llvm::APSInt& I) {
        auto o = mk(E, "lit");
        llvm::SmallString<32> s;
        I.toString(s);
        if (E->getType()->isBooleanType()) o["v"] = I.getBoolValue();
        else if (I.isRepresentableByInt64()) o["v"] = I.getExtValue();
        else o["vs"] = s.str().str();
        return o;
    }

    Value expr(const Expr* E) {
        if (!E) return nullptr;
        switch (E->getStmtClass()) {
        // transparent wrappers
        case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
        case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
        case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
        case Stmt::CXXDefaultInitExprClass: {
            auto o = mk(E, "dinit");
            o["e"] = expr(cast<CXXDefaultInitExpr>(E)->getExpr());
            return o;
        }
        case Stmt::CXXStdInitializerListExprClass: {
            auto o = mk(E, "ilist");
            o["e"] = expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
            return o;
        }
        case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(E)->getSemanticForm());
        case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(E)->getSourceExpr());
        case Stmt::MaterializeTemporaryExprClass: {
            auto o = mk(E, "temp");
            o["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
            return o;
        }
        // constants
        case Stmt::IntegerLiteralClass: {
            llvm::APSInt I(cast<IntegerLiteral>(E)->getValue(), !E->getType()->isSignedIntegerType());
            return constant(E, I);
        }
        case Stmt::CharacterLiteralClass: {
            auto o = mk(E, "lit");
            o["v"] = (int64_t)(int8_t)cast<CharacterLiteral>(E)->getValue();
            if (cast<CharacterLiteral>(E)->getValue() > 255) o["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue();
            return o;
        }
        case Stmt::CXXBoolLiteralExprClass: {
            auto o = mk(E, "lit");
            o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue();
            return o;
        }
        case Stmt::FloatingLiteralClass: {
            auto o = mk(E, "flit");
            llvm::SmallString<32> s;
            cast<FloatingLiteral>(E)->getValue().toString(s, 17);
            o["v"] = s.str().str();
            return o;
        }
        case Stmt::StringLiteralClass: {
            auto o = mk(E, "str");
            auto* L = cast<StringLiteral>(E);
            std::string hex;
            static const char* d = "0123456789abcdef";
            if (L->getCharByteWidth() == 1)
                for (unsigned char c : L->getBytes()) {
                    hex += d[c >> 4];
                    hex += d[c & 15];
                }
            o["h"] = hex;
            return o;
        }
        case Stmt::PredefinedExprClass: {
            auto* P = cast<PredefinedExpr>(E);
            if (P->getFunctionName()) return expr(P->getFunctionName());
            return mk(E, "?");
        }
        case Stmt::CXXNullPtrLiteralExprClass:
        case Stmt::GNUNullExprClass: return mk(E, "nullptr");
        case Stmt::CXXScalarValueInitExprClass:
        case Stmt::ImplicitValueInitExprClass: return mk(E, "zero");
        case Stmt::UnaryExprOrTypeTraitExprClass:
        case Stmt::TypeTraitExprClass:
        case Stmt::CXXNoexceptExprClass:
        case Stmt::SizeOfPackExprClass:
        case Stmt::ConceptSpecializationExprClass:
        case Stmt::RequiresExprClass:
        case Stmt::OffsetOfExprClass: {
            Expr::EvalResult R;
            if (!E->isValueDependent() && E->EvaluateAsRValue(R, C) && R.Val.isInt()) return constant(E, R.Val.getInt());
            return mk(E, "?");
        }
        case Stmt::SourceLocExprClass: return mk(E, "?");
        case Stmt::CXXThisExprClass: return mk(E, "this");
        // names
        case Stmt::DeclRefExprClass: {
            auto* D = cast<DeclRefExpr>(E)->getDecl();
            if (auto* K = dyn_cast<EnumConstantDecl>(D)) {
                auto v = constant(E, K->getInitVal());
                (*v.getAsObject())["en"] = K->getQualifiedNameAsString();
                return v;
            }
            auto o = mk(E, "ref");
            o["n"] = D->getQualifiedNameAsString();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                o["k"] = "fn";
                o["fn"] = calleeInfo(F);
                return o;
            }
            o["id"] = declId(D);
            if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->hasGlobalStorage()) {
                    o["g"] = 1;
                    var(V);
                }
                if (V->isConstexpr() || (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType())) {
                    Expr::EvalResult R;
                    if (!E->isValueDependent() && E->EvaluateAsRValue(R, C) && R.Val.isInt()) {
                        llvm::SmallString<32> s;
                        R.Val.getInt().toString(s);
                        o["cv"] = s.str().str();
                    }
                }
            }
            if (isa<BindingDecl>(D)) o["bind"] = 1;
            if (isa<NonTypeTemplateParmDecl>(D) || isa<TemplateParamObjectDecl>(D)) o["k"] = "?";
            return o;
        }
        case Stmt::MemberExprClass: {
            auto* M = cast<MemberExpr>(E);
            auto* D = M->getMemberDecl();
            if (auto* F = dyn_cast<FieldDecl>(D)) {
                auto o = mk(E, "mem");
                o["b"] = expr(M->getBase());
                if (M->isArrow()) o["ar"] = 1;
                o["n"] = fieldName(F);
                o["rec"] = declId(cast<CXXRecordDecl>(F->getParent()));
                o["rn"] = F->getParent()->getQualifiedNameAsString();
                return o;
            }
            if (auto* V = dyn_cast<VarDecl>(D)) {
                auto o = mk(E, "ref");
                o["n"] = V->getQualifiedNameAsString();
                o["id"] = declId(V);
                o["g"] = 1;
                var(V);
                Expr::EvalResult R;
                if (V->isConstexpr() && !E->isValueDependent() && E->EvaluateAsRValue(R, C) && R.Val.isInt()) {
                    llvm::SmallString<32> s;
                    R.Val.getInt().toString(s);
                    o["cv"] = s.str().str();
                }
                return o;
            }
            if (auto* K = dyn_cast<EnumConstantDecl>(D)) return constant(E, K->getInitVal());
            auto o = mk(E, "memfn");
            o["b"] = expr(M->getBase());
            if (M->isArrow()) o["ar"] = 1;
            if (M->hasQualifier()) o["q"] = 1;
            if (auto* F = dyn_cast<FunctionDecl>(D)) o["fn"] = calleeInfo(F);
            return o;
        }
        case Stmt::ArraySubscriptExprClass: {
            auto* A = cast<ArraySubscriptExpr>(E);
            auto o = mk(E, "idx");
            o["b"] = expr(A->getBase());
            o["i"] = expr(A->getIdx());
            return o;
        }
        // casts
        case Stmt::ImplicitCastExprClass:
        case Stmt::CStyleCastExprClass:
        case Stmt::CXXFunctionalCastExprClass:
        case Stmt::CXXStaticCastExprClass:
        case Stmt::CXXConstCastExprClass:
        case Stmt::CXXReinterpretCastExprClass:
        case Stmt::CXXDynamicCastExprClass: {
            auto* K = cast<CastExpr>(E);
            auto ck = K->getCastKind();
            if (ck == CK_NoOp || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion || ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr)
                return expr(K->getSubExpr());
            if (ck == CK_ToVoid) {
                auto o = mk(E, "void");
                o["e"] = expr(K->getSubExpr());
                return o;
            }
            auto o = mk(E, "cast");
            o["ck"] = K->getCastKindName();
            if (isa<ExplicitCastExpr>(E)) o["ex"] = 1;
            o["e"] = expr(K->getSubExpr());
            return o;
        }
        // operators
        case Stmt::UnaryOperatorClass: {
            auto* U = cast<UnaryOperator>(E);
            if (U->getOpcode() == UO_Extension || U->getOpcode() == UO_Plus) return expr(U->getSubExpr());
            auto o = mk(E, "un");
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) o["post"] = 1;
            o["e"] = expr(U->getSubExpr());
            return o;
        }
        case Stmt::BinaryOperatorClass: {
            auto* B = cast<BinaryOperator>(E);
            auto o = mk(E, "bin");
            o["op"] = B->getOpcodeStr().str();
            o["a"] = expr(B->getLHS());
            o["b"] = expr(B->getRHS());
            return o;
        }
        case Stmt::CompoundAssignOperatorClass: {
            auto* B = cast<CompoundAssignOperator>(E);
            auto o = mk(E, "cas");
            auto s = B->getOpcodeStr().str();
            o["op"] = s.substr(0, s.size() - 1);
            o["ct"] = ty(B->getComputationLHSType());
            o["a"] = expr(B->getLHS());
            o["b"] = expr(B->getRHS());
            return o;
        }
        case Stmt::ConditionalOperatorClass: {
            auto* K = cast<ConditionalOperator>(E);
            auto o = mk(E, "cond");
            o["c"] = expr(K->getCond());
            o["a"] = expr(K->getTrueExpr());
            o["b"] = expr(K->getFalseExpr());
            return o;
        }
        // calls
        case Stmt::CXXOperatorCallExprClass:
        case Stmt::UserDefinedLiteralClass:
        case Stmt::CXXMemberCallExprClass:
        case Stmt::CallExprClass: {
            auto* K = cast<CallExpr>(E);
            auto o = mk(E, "call");
            if (isa<CXXOperatorCallExpr>(E)) {
                o["oc"] = getOperatorSpelling(cast<CXXOperatorCallExpr>(E)->getOperator());
            }
            if (auto* MCE = dyn_cast<CXXMemberCallExpr>(E)) {
                auto* callee = MCE->getCallee()->IgnoreParens();
                if (auto* ME = dyn_cast<MemberExpr>(callee)) {
                    o["obj"] = expr(ME->getBase());
                    if (ME->isArrow()) o["ar"] = 1;
                    if (ME->hasQualifier()) o["q"] = 1;
                    if (auto* F = dyn_cast<FunctionDecl>(ME->getMemberDecl())) o["fn"] = calleeInfo(F);
                } else
                    o["ce"] = expr(callee);
            } else if (auto* F = K->getDirectCallee())
                o["fn"] = calleeInfo(F);
            else
                o["ce"] = expr(K->getCallee());
            o["as"] = argv(K->arg_begin(), K->arg_end());
            return o;
        }
        case Stmt::CXXConstructExprClass:
        case Stmt::CXXTemporaryObjectExprClass: {
            auto* K = cast<CXXConstructExpr>(E);
            auto o = mk(E, "ctor");
            auto* D = K->getConstructor();
            o["fn"] = calleeInfo(D);
            if (D->isCopyConstructor()) o["cc"] = 1;
            if (D->isMoveConstructor()) o["mc"] = 1;
            if (D->isDefaultConstructor()) o["dc"] = 1;
            if (D->isUserProvided()) o["up"] = 1;
            if (K->isElidable()) o["el"] = 1;
            if (K->requiresZeroInitialization()) o["zi"] = 1;
            if (K->isListInitialization()) o["li"] = 1;
            if (K->isStdInitListInitialization()) o["sil"] = 1;
            o["as"] = argv(K->arg_begin(), K->arg_end());
            return o;
        }
        case Stmt::CXXInheritedCtorInitExprClass: {
            auto* K = cast<CXXInheritedCtorInitExpr>(E);
            auto o = mk(E, "inhctor");
            o["fn"] = calleeInfo(K->getConstructor());
            return o;
        }
        case Stmt::InitListExprClass: {
            auto* L = cast<InitListExpr>(E);
            if (L->isSemanticForm() == false && L->getSemanticForm()) L = L->getSemanticForm();
            if (L->isTransparent()) return expr(L->getInit(0));
            auto o = mk(E, "init");
            o["as"] = args(const_cast<InitListExpr*>(L)->inits());
            if (L->getArrayFiller()) o["filler"] = expr(L->getArrayFiller());
            return o;
        }
        case Stmt::CXXParenListInitExprClass: {
            auto* L = cast<CXXParenListInitExpr>(E);
            auto o = mk(E, "init");
            Array a;
            for (auto* x : L->getInitExprs()) a.push_back(expr(x));
            o["as"] = std::move(a);
            return o;
        }
        case Stmt::ArrayInitLoopExprClass:
        case Stmt::ArrayInitIndexExprClass: return mk(E, "?");
        case Stmt::LambdaExprClass: {
            auto* L = cast<LambdaExpr>(E);
            auto* R = L->getLambdaClass();
            record(R);
            auto o = mk(E, "lambda");
            o["rec"] = declId(R);
            Array cs;
            auto fi = R->field_begin();
            auto ii = L->capture_init_begin();
            for (auto& c : L->captures()) {
                Object co;
                co["f"] = fieldName(*fi);
                if (c.capturesThis()) {
                    co["this"] = 1;
                    if (c.getCaptureKind() == LCK_StarThis) co["val"] = 1;
                } else if (c.capturesVariable()) {
                    co["id"] = declId(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    if (c.getCaptureKind() == LCK_ByRef) co["ref"] = 1;
                    if (L->isInitCapture(&c)) co["ic"] = 1;
                }
                co["e"] = expr(*ii);
                cs.push_back(std::move(co));
                ++fi;
                ++ii;
            }
            o["cs"] = std::move(cs);
            if (L->isMutable()) o["mut"] = 1;
            return o;
        }
        case Stmt::CXXNewExprClass: {
            auto* N = cast<CXXNewExpr>(E);
            auto o = mk(E, "new");
            o["at"] = ty(N->getAllocatedType());
            if (N->getInitializer()) o["init"] = expr(N->getInitializer());
            if (N->isArray()) o["arr"] = 1;
            Array a;
            for (unsigned i = 0; i < N->getNumPlacementArgs(); ++i) a.push_back(expr(N->getPlacementArg(i)));
            if (!a.empty()) o["pl"] = std::move(a);
            return o;
        }
        case Stmt::CXXDeleteExprClass: {
            auto o = mk(E, "delete");
            o["e"] = expr(cast<CXXDeleteExpr>(E)->getArgument());
            if (cast<CXXDeleteExpr>(E)->isArrayForm()) o["arr"] = 1;
            return o;
        }
        case Stmt::CXXThrowExprClass: {
            auto o = mk(E, "throw");
            if (auto* S = cast<CXXThrowExpr>(E)->getSubExpr()) o["e"] = expr(S);
            return o;
        }
        case Stmt::CXXTypeidExprClass: {
            auto* T = cast<CXXTypeidExpr>(E);
            auto o = mk(E, "typeid");
            if (T->isTypeOperand()) o["of"] = ty(T->getTypeOperand(C));
            else o["e"] = expr(T->getExprOperand());
            return o;
        }
        case Stmt::CXXPseudoDestructorExprClass: return mk(E, "pdtor");
        case Stmt::StmtExprClass: {
            auto o = mk(E, "stmtexpr");
            o["s"] = stmt(cast<StmtExpr>(E)->getSubStmt());
            return o;
        }
        default: {
            unknown[E->getStmtClassName()]++;
            auto o = mk(E, "?");
            o["n"] = E->getStmtClassName();
            return o;
        }
        }
    }

    // ---- driver ---------------------------------------------------------
    struct Collect : RecursiveASTVisitor<Collect> {
        Dumper& D;
        explicit Collect(Dumper& D) : D(D) {}
        bool shouldVisitTemplateInstantiations() const { return true; }
        bool shouldVisitImplicitCode() const { return true; }
        bool TraverseDecl(Decl* X) {
            if (!X) return true;
            // skip library declarations quickly (but not namespaces/TU)
            if (!isa<TranslationUnitDecl>(X) && !isa<NamespaceDecl>(X) && !isa<LinkageSpecDecl>(X)) {
                if (X->getLocation().isValid() && !D.inRepo(X)) return true;
            }
            return RecursiveASTVisitor::TraverseDecl(X);
        }
        bool VisitFunctionDecl(FunctionDecl* F) {
            if (!F->isDependentContext() && F->doesThisDeclarationHaveABody()) D.enqueue(F);
            return true;
        }
        bool VisitCXXRecordDecl(CXXRecordDecl* R) {
            if (!R->isDependentContext() && R->isThisDeclarationADefinition()) D.record(R);
            return true;
        }
        bool VisitVarDecl(VarDecl* V) {
            if (V->hasGlobalStorage() && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType()) D.var(V);
            return true;
        }
    };

    void run() {
        Collect c(*this);
        c.TraverseDecl(C.getTranslationUnitDecl());
        while (!work.empty()) {
            auto* F = work.front();
            work.pop_front();
            function(F);
        }
        Object root;
        root["tu"] = gTu;
        root["types"] = std::move(types);
        root["records"] = std::move(records);
        root["funcs"] = std::move(funcs);
        root["vars"] = std::move(vars);
        Object u;
        for (auto& [k, v] : unknown) u[k] = (int64_t)v;
        root["unknown"] = std::move(u);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << Value(std::move(root));
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance& CI;
    explicit Consumer(CompilerInstance& CI) : CI(CI) {}
    void HandleTranslationUnit(ASTContext& C) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        Dumper d(C);
        d.run();
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override {
        return std::make_unique<Consumer>(CI);
    }
};
}

// usage: astdump OUT.json TUNAME ROOT[:ROOT...] SOURCE [compiler args...]
int main(int argc, char** argv)
{
    if (argc < 5) return 2;
    gOut = argv[1];
    gTu = argv[2];
    {
        std::stringstream ss(argv[3]);
        std::string r;
        while (std::getline(ss, r, ':')) gRoots.push_back(r);
    }
    std::string src = argv[4];
    std::ifstream in(src);
    if (!in) return 2;
    std::stringstream buf;
    buf << in.rdbuf();
    std::vector<std::string> args(argv + 5, argv + argc);
    bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), buf.str(), args, src, "astdump");
    return ok ? 0 : 1;
}
