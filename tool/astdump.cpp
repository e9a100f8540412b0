// Typed-AST extractor for the ENigMA headers (clang 18 libTooling).
//
// Parses one translation unit that includes every public header, instantiates
// every class template of the library with Real = double, and writes the
// resolved program (callees, field references, types, constants, source
// positions) of all functions located under the given source roots as JSON.
// It never generates or executes code.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Sema/Sema.h"
#include "clang/Sema/SemaConsumer.h"
#include "clang/Sema/Template.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {

class Dumper {
public:
    Dumper(ASTContext &C, Sema &S) : Ctx(C), S(S), SM(C.getSourceManager()) {}

    ASTContext &Ctx;
    Sema &S;
    SourceManager &SM;

    std::map<const Decl *, int> FnIds;
    std::vector<const FunctionDecl *> Fns;
    std::map<std::string, int> TypeIds;
    std::vector<std::string> Types;
    std::map<std::string, int> NameIds;
    std::vector<std::string> Names;
    std::map<std::string, int> FileIds;
    std::vector<std::string> Files;
    std::map<const Decl *, int> VarIds;
    std::map<const CXXRecordDecl *, int> RecIds;
    std::vector<const CXXRecordDecl *> Recs;
    std::map<const VarDecl *, int> GlobIds;
    std::vector<const VarDecl *> Globs;
    int NextVar = 0;

    std::string fileOf(SourceLocation L) {
        if (L.isInvalid()) return "";
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return "";
        return P.getFilename();
    }
    int lineOf(SourceLocation L) {
        if (L.isInvalid()) return 0;
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L);
        return P.isInvalid() ? 0 : (int)P.getLine();
    }
    bool inRoots(const Decl *D) {
        std::string F = fileOf(D->getLocation());
        for (auto &R : Roots)
            if (F.compare(0, R.size(), R) == 0) return true;
        return false;
    }
    int fileId(const std::string &F) {
        auto It = FileIds.find(F);
        if (It != FileIds.end()) return It->second;
        int I = Files.size(); Files.push_back(F); FileIds[F] = I; return I;
    }
    int typeId(const std::string &F) {
        auto It = TypeIds.find(F);
        if (It != TypeIds.end()) return It->second;
        int I = Types.size(); Types.push_back(F); TypeIds[F] = I; return I;
    }

    std::string argStr(const TemplateArgument &A, int Depth) {
        switch (A.getKind()) {
        case TemplateArgument::Type: return typeStr(A.getAsType(), Depth + 1);
        case TemplateArgument::Integral: { return llvm::toString(A.getAsIntegral(), 10); }
        case TemplateArgument::Pack: {
            std::string R; bool F = true;
            for (auto &P : A.pack_elements()) { if (!F) R += ","; F = false; R += argStr(P, Depth); }
            return R;
        }
        default: return "?";
        }
    }
    std::string recName(const RecordDecl *RD, int Depth) {
        std::string N = RD->getQualifiedNameAsString();
        if (auto *CS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
            if (Depth > 4) return N + "<...>";
            bool Eig = N.compare(0, 7, "Eigen::") == 0;
            if (Eig && N != "Eigen::Matrix" && N != "Eigen::SparseMatrix") return N + "<...>";
            bool Std = N.compare(0, 5, "std::") == 0;
            N += "<";
            bool F = true; int K = 0;
            for (auto &A : CS->getTemplateArgs().asArray()) {
                ++K;
                if (Eig && K > 3) break;
                if (Std && K > 2) break;
                if (Std && K == 2 && (N.find("vector<") != std::string::npos || N.find("basic_string<") != std::string::npos || N.find("deque<") != std::string::npos || N.find("set<") != std::string::npos || N.find("list<") != std::string::npos)) break;
                if (!F) N += ","; F = false;
                N += argStr(A, Depth);
            }
            N += ">";
        }
        return N;
    }
    std::string typeStr(QualType T, int Depth = 0) {
        if (T.isNull()) return "?";
        T = T.getCanonicalType();
        if (Depth > 6) return "...";
        std::string Q = T.isConstQualified() ? "const " : "";
        const Type *P = T.getTypePtr();
        if (auto *R = dyn_cast<ReferenceType>(P)) return typeStr(R->getPointeeType(), Depth) + "&";
        if (auto *R = dyn_cast<PointerType>(P)) return typeStr(R->getPointeeType(), Depth) + "*";
        if (auto *R = dyn_cast<RecordType>(P)) return Q + recName(R->getDecl(), Depth);
        if (auto *R = dyn_cast<EnumType>(P)) return Q + "enum " + R->getDecl()->getQualifiedNameAsString();
        if (auto *R = dyn_cast<ConstantArrayType>(P)) return typeStr(R->getElementType(), Depth) + "[" + llvm::toString(R->getSize(), 10, false) + "]";
        if (isa<BuiltinType>(P)) return T.getAsString(PrintingPolicy(Ctx.getLangOpts()));
        std::string X = T.getAsString(PrintingPolicy(Ctx.getLangOpts()));
        if (X.size() > 120) X = X.substr(0, 120);
        return X;
    }
    int ty(QualType T) { return typeId(typeStr(T)); }

    const FunctionDecl *canonFn(const FunctionDecl *F) {
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def) && Def) return Def;
        return F->getCanonicalDecl();
    }
    int fnId(const FunctionDecl *F) {
        const FunctionDecl *D = cast<FunctionDecl>(F->getCanonicalDecl());
        auto It = FnIds.find(D);
        if (It != FnIds.end()) return It->second;
        int I = Fns.size(); FnIds[D] = I; Fns.push_back(D); return I;
    }
    int recId(const CXXRecordDecl *R) {
        R = R->getCanonicalDecl();
        auto It = RecIds.find(R);
        if (It != RecIds.end()) return It->second;
        int I = Recs.size(); RecIds[R] = I; Recs.push_back(R); return I;
    }
    int varId(const Decl *V) {
        V = V->getCanonicalDecl();
        auto It = VarIds.find(V);
        if (It != VarIds.end()) return It->second;
        int I = NextVar++; VarIds[V] = I; return I;
    }
    static bool isOur(const std::string &N) { return N.compare(0, 8, "ENigMA::") == 0; }

    std::string fnName(const FunctionDecl *F) {
        std::string N;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            N = recName(M->getParent(), 0) + "::" + (isa<CXXConstructorDecl>(F) ? std::string("<ctor>") : isa<CXXDestructorDecl>(F) ? std::string("<dtor>") : F->getNameAsString());
        } else {
            N = F->getQualifiedNameAsString();
        }
        return N;
    }

    json::Value E(const Expr *X) {
        if (!X) return nullptr;
        for (;;) {
            if (auto *P = dyn_cast<ParenExpr>(X)) { X = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<FullExpr>(X)) { X = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) { X = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) { X = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) { X = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<CXXDefaultArgExpr>(X)) { X = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXDefaultInitExpr>(X)) { X = P->getExpr(); continue; }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X)) { X = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<ImplicitCastExpr>(X)) {
                auto K = P->getCastKind();
                if (K == CK_IntegralToFloating || K == CK_FloatingToIntegral || K == CK_UncheckedDerivedToBase || K == CK_DerivedToBase || K == CK_IntegralToBoolean || K == CK_FloatingToBoolean || K == CK_PointerToBoolean) break;
                X = P->getSubExpr(); continue;
            }
            break;
        }
        int L = lineOf(X->getExprLoc());
        if (auto *P = dyn_cast<CastExpr>(X)) {
            const char *K = "other";
            switch (P->getCastKind()) {
            case CK_IntegralToFloating: K = "i2f"; break;
            case CK_FloatingToIntegral: K = "f2i"; break;
            case CK_DerivedToBase: case CK_UncheckedDerivedToBase: K = "d2b"; break;
            case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean: K = "bool"; break;
            case CK_BaseToDerived: case CK_Dynamic: K = "b2d"; break;
            case CK_ToVoid: K = "void"; break;
            case CK_IntegralCast: K = "i2i"; break;
            case CK_FloatingCast: case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion: return E(P->getSubExpr());
            default: break;
            }
            return json::Array{"cast", K, E(P->getSubExpr()), ty(X->getType())};
        }
        if (auto *P = dyn_cast<IntegerLiteral>(X)) {
            llvm::SmallString<32> Sx; P->getValue().toString(Sx, 10, true);
            return json::Array{"int", (int64_t)P->getValue().getLimitedValue(INT64_MAX)};
        }
        if (auto *P = dyn_cast<FloatingLiteral>(X)) {
            // exact source spelling, so constants stay exact rationals
            bool Inv = false;
            llvm::StringRef T = Lexer::getSourceText(CharSourceRange::getTokenRange(P->getSourceRange()), SM, Ctx.getLangOpts(), &Inv);
            std::string Sx = Inv ? std::string() : T.str();
            bool Ok = !Sx.empty();
            for (char c : Sx) if (!(isdigit(c) || c == '.' || c == 'e' || c == 'E' || c == '+' || c == '-' || c == 'f' || c == 'F' || c == 'l' || c == 'L')) Ok = false;
            if (!Ok) { llvm::SmallString<64> B; P->getValue().toString(B, 0, 0); Sx = std::string(B.str()); }
            while (!Sx.empty() && (Sx.back() == 'f' || Sx.back() == 'F' || Sx.back() == 'l' || Sx.back() == 'L')) Sx.pop_back();
            return json::Array{"flt", Sx};
        }
        if (auto *P = dyn_cast<CXXBoolLiteralExpr>(X)) return json::Array{"bool", P->getValue()};
        if (auto *P = dyn_cast<clang::StringLiteral>(X)) return json::Array{"str", P->isOrdinary() ? sanitize(P->getString()) : std::string("?")};
        if (auto *P = dyn_cast<CharacterLiteral>(X)) return json::Array{"chr", (int64_t)P->getValue()};
        if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) return json::Array{"null"};
        if (isa<CXXThisExpr>(X)) return json::Array{"this"};
        if (auto *P = dyn_cast<DeclRefExpr>(X)) {
            const ValueDecl *D = P->getDecl();
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                std::string EN = cast<EnumDecl>(EC->getDeclContext())->getNameAsString();
                return json::Array{"enum", EC->getNameAsString(), (int64_t)EC->getInitVal().getExtValue(), EN};
            }
            if (auto *F = dyn_cast<FunctionDecl>(D)) return json::Array{"fn", fnName(F), fnId(F)};
            if (auto *V = dyn_cast<VarDecl>(D)) {
                if (V->hasGlobalStorage() && !V->isStaticLocal()) {
                    const VarDecl *C = V->getCanonicalDecl();
                    if (!GlobIds.count(C)) { GlobIds[C] = Globs.size(); Globs.push_back(V); }
                    return json::Array{"glob", GlobIds[C], V->getQualifiedNameAsString()};
                }
                return json::Array{"var", varId(V), V->getNameAsString(), ty(V->getType())};
            }
            if (auto *B = dyn_cast<BindingDecl>(D)) return json::Array{"var", varId(B), B->getNameAsString(), ty(B->getType())};
            return json::Array{"ref", D->getQualifiedNameAsString()};
        }
        if (auto *P = dyn_cast<MemberExpr>(X)) {
            const ValueDecl *D = P->getMemberDecl();
            if (auto *V = dyn_cast<VarDecl>(D)) {
                const VarDecl *C = V->getCanonicalDecl();
                if (!GlobIds.count(C)) { GlobIds[C] = Globs.size(); Globs.push_back(V); }
                return json::Array{"glob", GlobIds[C], V->getQualifiedNameAsString()};
            }
            return json::Array{"mem", E(P->getBase()), D->getNameAsString(), ty(X->getType()), L};
        }
        if (auto *P = dyn_cast<CXXOperatorCallExpr>(X)) {
            json::Array A;
            for (auto *Y : P->arguments()) A.push_back(E(Y));
            const FunctionDecl *F = P->getDirectCallee();
            if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                json::Value O = std::move(A[0]);
                json::Array B; for (size_t i = 1; i < A.size(); ++i) B.push_back(std::move(A[i]));
                return json::Array{"call", fnName(F), fnId(F), std::move(O), std::move(B), ty(X->getType()), L};
            }
            if (F) return json::Array{"call", fnName(F), fnId(F), nullptr, std::move(A), ty(X->getType()), L};
            return json::Array{"unk", "opcall", std::move(A), L};
        }
        if (auto *P = dyn_cast<CXXMemberCallExpr>(X)) {
            json::Array A;
            for (auto *Y : P->arguments()) A.push_back(E(Y));
            const CXXMethodDecl *M = P->getMethodDecl();
            if (M) {
                bool Q = false;
                if (auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens())) Q = ME->hasQualifier();
                if (Q) return json::Array{"call", fnName(M), fnId(M), E(P->getImplicitObjectArgument()), std::move(A), ty(X->getType()), L, "q"};
                return json::Array{"call", fnName(M), fnId(M), E(P->getImplicitObjectArgument()), std::move(A), ty(X->getType()), L};
            }
            return json::Array{"unk", "mcall", std::move(A), L};
        }
        if (auto *P = dyn_cast<CallExpr>(X)) {
            json::Array A;
            for (auto *Y : P->arguments()) A.push_back(E(Y));
            const FunctionDecl *F = P->getDirectCallee();
            if (F) return json::Array{"call", fnName(F), fnId(F), nullptr, std::move(A), ty(X->getType()), L};
            return json::Array{"unk", "call", std::move(A), L};
        }
        if (auto *P = dyn_cast<CXXConstructExpr>(X)) {
            json::Array A;
            for (auto *Y : P->arguments()) A.push_back(E(Y));
            const CXXConstructorDecl *C = P->getConstructor();
            return json::Array{"new", recName(C->getParent(), 0), fnId(C), std::move(A), ty(X->getType()), L,
                               C->isCopyOrMoveConstructor() ? "copy" : C->isDefaultConstructor() ? "default" : "other"};
        }
        if (auto *P = dyn_cast<CXXNewExpr>(X)) {
            json::Value Sz = nullptr;
            if (P->isArray() && P->getArraySize()) Sz = E(*P->getArraySize());
            return json::Array{"heap", ty(P->getAllocatedType()), P->getConstructExpr() ? E(P->getConstructExpr()) : json::Value(nullptr), std::move(Sz), L};
        }
        if (auto *P = dyn_cast<CXXDeleteExpr>(X)) return json::Array{"delete", E(P->getArgument()), P->isArrayForm(), L};
        if (auto *P = dyn_cast<UnaryOperator>(X)) return json::Array{"un", UnaryOperator::getOpcodeStr(P->getOpcode()).str() + (P->isPostfix() ? "post" : ""), E(P->getSubExpr()), L};
        if (auto *P = dyn_cast<BinaryOperator>(X)) {
            return json::Array{P->isAssignmentOp() ? "asg" : "bin", P->getOpcodeStr().str(), E(P->getLHS()), E(P->getRHS()), L, ty(X->getType())};
        }
        if (auto *P = dyn_cast<ConditionalOperator>(X)) return json::Array{"cond", E(P->getCond()), E(P->getTrueExpr()), E(P->getFalseExpr()), L};
        if (auto *P = dyn_cast<ArraySubscriptExpr>(X)) return json::Array{"idx", E(P->getBase()), E(P->getIdx()), L};
        if (auto *P = dyn_cast<InitListExpr>(X)) {
            json::Array A;
            const InitListExpr *SL = P->isSemanticForm() ? P : P->getSemanticForm();
            if (!SL) SL = P;
            for (auto *Y : SL->inits()) A.push_back(E(Y));
            return json::Array{"list", std::move(A), ty(X->getType()), L};
        }
        if (auto *P = dyn_cast<CXXScalarValueInitExpr>(X)) { (void)P; return json::Array{"zero", ty(X->getType())}; }
        if (isa<ImplicitValueInitExpr>(X)) return json::Array{"zero", ty(X->getType())};
        if (auto *P = dyn_cast<CXXTemporaryObjectExpr>(X)) (void)P;
        if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
            Expr::EvalResult R;
            if (!P->isValueDependent() && P->EvaluateAsInt(R, Ctx)) return json::Array{"int", (int64_t)R.Val.getInt().getExtValue()};
        }
        if (auto *P = dyn_cast<CXXThrowExpr>(X)) return json::Array{"throw", P->getSubExpr() ? E(P->getSubExpr()) : json::Value(nullptr), L};
        if (auto *P = dyn_cast<LambdaExpr>(X)) {
            const CXXMethodDecl *M = P->getCallOperator();
            return json::Array{"lambda", fnId(M), L};
        }
        json::Array A;
        for (const Stmt *Y : X->children()) if (auto *Z = dyn_cast_or_null<Expr>(Y)) A.push_back(E(Z));
        return json::Array{"unk", X->getStmtClassName(), std::move(A), L};
    }

    static std::string sanitize(llvm::StringRef Sx) {
        if (json::isUTF8(Sx)) return Sx.str();
        return json::fixUTF8(Sx);
    }

    json::Value D(const VarDecl *V) {
        std::string St = V->isStaticLocal() ? "static" : "";
        return json::Array{varId(V), V->getNameAsString(), ty(V->getType()), V->hasInit() ? E(V->getInit()) : json::Value(nullptr), lineOf(V->getLocation()), St};
    }

    json::Value B(const Stmt *X) {
        if (!X) return nullptr;
        int L = lineOf(X->getBeginLoc());
        if (auto *P = dyn_cast<CompoundStmt>(X)) {
            json::Array A;
            for (auto *Y : P->body()) A.push_back(B(Y));
            return json::Array{"{", std::move(A)};
        }
        if (auto *P = dyn_cast<DeclStmt>(X)) {
            json::Array A;
            for (auto *Y : P->decls()) if (auto *V = dyn_cast<VarDecl>(Y)) A.push_back(D(V));
            return json::Array{"decl", std::move(A), L};
        }
        if (auto *P = dyn_cast<IfStmt>(X)) {
            json::Value I = P->getInit() ? B(P->getInit()) : json::Value(nullptr);
            if (P->getConditionVariable()) I = json::Array{"decl", json::Array{D(P->getConditionVariable())}, L};
            return json::Array{"if", E(P->getCond()), B(P->getThen()), B(P->getElse()), L, std::move(I)};
        }
        if (auto *P = dyn_cast<ForStmt>(X)) return json::Array{"for", B(P->getInit()), P->getCond() ? E(P->getCond()) : json::Value(nullptr), P->getInc() ? E(P->getInc()) : json::Value(nullptr), B(P->getBody()), L};
        if (auto *P = dyn_cast<WhileStmt>(X)) return json::Array{"while", E(P->getCond()), B(P->getBody()), L};
        if (auto *P = dyn_cast<DoStmt>(X)) return json::Array{"do", E(P->getCond()), B(P->getBody()), L};
        if (auto *P = dyn_cast<CXXForRangeStmt>(X)) return json::Array{"range", D(P->getLoopVariable()), E(P->getRangeInit()), B(P->getBody()), L};
        if (auto *P = dyn_cast<SwitchStmt>(X)) return json::Array{"switch", E(P->getCond()), B(P->getBody()), L, enumCount(P->getCond())};
        if (auto *P = dyn_cast<CaseStmt>(X)) return json::Array{"case", E(P->getLHS()), B(P->getSubStmt()), L};
        if (auto *P = dyn_cast<DefaultStmt>(X)) return json::Array{"default", B(P->getSubStmt()), L};
        if (isa<BreakStmt>(X)) return json::Array{"break", L};
        if (isa<ContinueStmt>(X)) return json::Array{"continue", L};
        if (isa<NullStmt>(X)) return json::Array{"{", json::Array{}};
        if (auto *P = dyn_cast<ReturnStmt>(X)) return json::Array{"ret", P->getRetValue() ? E(P->getRetValue()) : json::Value(nullptr), L};
        if (auto *P = dyn_cast<CXXTryStmt>(X)) {
            json::Array A;
            for (unsigned i = 0; i < P->getNumHandlers(); ++i) A.push_back(B(P->getHandler(i)->getHandlerBlock()));
            return json::Array{"try", B(P->getTryBlock()), std::move(A), L};
        }
        if (auto *P = dyn_cast<Expr>(X)) return json::Array{"x", E(P), L};
        json::Array A;
        for (const Stmt *Y : X->children()) A.push_back(B(Y));
        return json::Array{"unkS", X->getStmtClassName(), std::move(A), L};
    }
    int enumCount(const Expr *) { return 0; }

    json::Value F(const FunctionDecl *FD, int Id) {
        const FunctionDecl *Def = nullptr;
        bool Has = FD->hasBody(Def);
        if (!Has) Def = FD;
        json::Object O;
        O["id"] = Id;
        O["name"] = fnName(Def);
        std::string Fl = fileOf(Def->getLocation());
        bool In = inRoots(Def);
        O["ret"] = ty(Def->getReturnType());
        json::Array Ps;
        for (auto *P : Def->parameters()) Ps.push_back(json::Array{In ? varId(P) : -1, P->getNameAsString(), ty(P->getType())});
        O["params"] = std::move(Ps);
        if (auto *M = dyn_cast<CXXMethodDecl>(Def)) {
            O["cls"] = recName(M->getParent(), 0);
            if (M->isStatic()) O["static"] = true;
            if (M->isConst()) O["const"] = true;
            if (M->isVirtual()) O["virtual"] = true;
            O["access"] = (int)M->getAccess();
        }
        O["kind"] = isa<CXXConstructorDecl>(Def) ? "ctor" : isa<CXXDestructorDecl>(Def) ? "dtor" : isa<CXXMethodDecl>(Def) ? "method" : "func";
        if (auto *C = dyn_cast<CXXConstructorDecl>(Def)) O["ctorkind"] = C->isCopyConstructor() ? "copy" : C->isMoveConstructor() ? "move" : C->isDefaultConstructor() ? "default" : "other";
        if (!In) return std::move(O);
        O["file"] = fileId(Fl);
        O["line"] = lineOf(Def->getLocation());
        if (Def->isImplicit()) O["implicit"] = true;
        if (Has && !Def->isInvalidDecl()) {
            if (auto *C = dyn_cast<CXXConstructorDecl>(Def)) {
                json::Array I;
                for (auto *In : C->inits()) {
                    if (In->isAnyMemberInitializer()) I.push_back(json::Array{"field", In->getAnyMember()->getNameAsString(), E(In->getInit()), In->isWritten()});
                    else if (In->isBaseInitializer()) I.push_back(json::Array{"base", typeStr(QualType(In->getBaseClass(), 0)), E(In->getInit()), In->isWritten()});
                    else I.push_back(json::Array{"deleg", "", E(In->getInit()), true});
                }
                O["inits"] = std::move(I);
            }
            O["body"] = B(Def->getBody());
        }
        return std::move(O);
    }

    json::Value R(const CXXRecordDecl *RD0) {
        const CXXRecordDecl *RD = RD0->getDefinition();
        json::Object O;
        O["name"] = recName(RD0, 0);
        if (!RD) return std::move(O);
        O["file"] = fileId(fileOf(RD->getLocation()));
        O["line"] = lineOf(RD->getLocation());
        json::Array Bs;
        for (auto &Bx : RD->bases()) Bs.push_back(typeStr(Bx.getType()));
        O["bases"] = std::move(Bs);
        json::Array Fs;
        for (auto *Fd : RD->fields()) Fs.push_back(json::Array{Fd->getNameAsString(), ty(Fd->getType()), Fd->hasInClassInitializer() && Fd->getInClassInitializer() ? E(Fd->getInClassInitializer()) : json::Value(nullptr), (int)Fd->getAccess(), lineOf(Fd->getLocation())});
        O["fields"] = std::move(Fs);
        json::Array Ms;
        for (auto *M : RD->methods()) Ms.push_back(fnId(M));
        for (auto *Dd : RD->decls()) if (auto *FT = dyn_cast<FunctionTemplateDecl>(Dd)) for (auto *Sp : FT->specializations()) Ms.push_back(fnId(Sp));
        O["methods"] = std::move(Ms);
        return std::move(O);
    }
};

class Collector : public RecursiveASTVisitor<Collector> {
public:
    explicit Collector(Dumper &D) : D(D) {}
    Dumper &D;
    std::vector<const EnumDecl *> Enums;
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (F->isDependentContext()) return true;
        if (!F->doesThisDeclarationHaveABody()) return true;
        if (!D.inRoots(F)) return true;
        D.fnId(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isDependentContext() || !D.inRoots(R)) return true;
        if (R->isLambda()) return true;
        if (!R->isThisDeclarationADefinition()) return true;
        D.recId(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (E->isDependentContext() || !D.inRoots(E) || !E->isThisDeclarationADefinition()) return true;
        Enums.push_back(E);
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (V->isFileVarDecl() && !V->getDeclContext()->isDependentContext() && D.inRoots(V) && !V->getType()->isDependentType()) {
            const VarDecl *C = V->getCanonicalDecl();
            if (!D.GlobIds.count(C)) { D.GlobIds[C] = D.Globs.size(); D.Globs.push_back(V); }
        }
        return true;
    }
};

class Consumer : public SemaConsumer {
public:
    Sema *S = nullptr;
    void InitializeSema(Sema &X) override { S = &X; }
    void ForgetSema() override {}

    void instantiateAll(ASTContext &Ctx, Dumper &D) {
        std::vector<ClassTemplateDecl *> T;
        struct V : RecursiveASTVisitor<V> {
            std::vector<ClassTemplateDecl *> &T; Dumper &D;
            V(std::vector<ClassTemplateDecl *> &T, Dumper &D) : T(T), D(D) {}
            bool VisitClassTemplateDecl(ClassTemplateDecl *C) {
                if (C->isThisDeclarationADefinition() && D.inRoots(C) && !C->getDeclContext()->isDependentContext()) T.push_back(C);
                return true;
            }
        } Vis(T, D);
        Vis.TraverseDecl(Ctx.getTranslationUnitDecl());
        // namespace-scope function templates over a single type parameter
        std::vector<FunctionTemplateDecl *> FT;
        struct VF : RecursiveASTVisitor<VF> {
            std::vector<FunctionTemplateDecl *> &T; Dumper &D;
            VF(std::vector<FunctionTemplateDecl *> &T, Dumper &D) : T(T), D(D) {}
            bool VisitFunctionTemplateDecl(FunctionTemplateDecl *C) {
                if (D.inRoots(C) && !C->getDeclContext()->isRecord() && !C->getDeclContext()->isDependentContext() && C->getTemplateParameters()->size() == 1 && isa<TemplateTypeParmDecl>(C->getTemplateParameters()->getParam(0))) T.push_back(C);
                return true;
            }
        } VisF(FT, D);
        VisF.TraverseDecl(Ctx.getTranslationUnitDecl());
        std::set<const Decl *> SeenFT;
        for (auto *C : FT) {
            if (!SeenFT.insert(C->getCanonicalDecl()).second) continue;
            if (!C->getTemplatedDecl()->isDefined()) continue;
            auto *TAL = TemplateArgumentList::CreateCopy(Ctx, {TemplateArgument(Ctx.DoubleTy)});
            SourceLocation Loc = C->getLocation();
            FunctionDecl *F = S->InstantiateFunctionDeclaration(C->getCanonicalDecl(), TAL, Loc);
            if (F && !F->isDefined()) S->InstantiateFunctionDefinition(Loc, F, true, false, false);
        }
        for (auto *C : T) {
            auto *PL = C->getTemplateParameters();
            // collect candidate argument lists
            std::vector<std::vector<TemplateArgument>> Combos(1);
            bool Ok = true;
            int K = 0;
            for (auto *P : *PL) {
                ++K;
                std::vector<std::vector<TemplateArgument>> Next;
                if (auto *TP = dyn_cast<TemplateTypeParmDecl>(P)) {
                    if (TP->hasDefaultArgument() && K > 1) break;
                    if (K > 1) { Ok = false; break; }
                    for (auto &X : Combos) { auto Y = X; Y.push_back(TemplateArgument(Ctx.DoubleTy)); Next.push_back(Y); }
                } else { Ok = false; break; }
                Combos = Next;
            }
            if (!Ok) {
                // templates over <Real, integers...>: one instance per partial specialisation
                Combos.clear();
                llvm::SmallVector<ClassTemplatePartialSpecializationDecl *, 4> PS;
                C->getPartialSpecializations(PS);
                for (auto *Q : PS) {
                    std::vector<TemplateArgument> Y; bool Good = true;
                    for (auto &A : Q->getTemplateArgs().asArray()) {
                        if (A.getKind() == TemplateArgument::Type) {
                            if (A.getAsType()->isDependentType()) Y.push_back(TemplateArgument(Ctx.DoubleTy)); else Y.push_back(A);
                        } else if (A.getKind() == TemplateArgument::Expression && !A.getAsExpr()->isValueDependent()) {
                            Expr::EvalResult R;
                            if (A.getAsExpr()->EvaluateAsInt(R, Ctx)) Y.push_back(TemplateArgument(Ctx, R.Val.getInt(), Ctx.IntTy)); else Good = false;
                        } else if (A.getKind() == TemplateArgument::Integral) Y.push_back(A);
                        else Good = false;
                    }
                    if (Good) Combos.push_back(Y);
                }
            }
            for (auto &A : Combos) {
                if (A.size() != PL->size()) continue;
                void *Pos = nullptr;
                ClassTemplateSpecializationDecl *Spec = C->findSpecialization(A, Pos);
                SourceLocation Loc = C->getLocation();
                if (!Spec) {
                    Spec = ClassTemplateSpecializationDecl::Create(Ctx, C->getTemplatedDecl()->getTagKind(), C->getDeclContext(), C->getTemplatedDecl()->getBeginLoc(), C->getLocation(), C, A, nullptr);
                    C->AddSpecialization(Spec, Pos);
                }
                if (Spec->getSpecializationKind() == TSK_ExplicitSpecialization) continue;
                if (!Spec->hasDefinition())
                    S->InstantiateClassTemplateSpecialization(Loc, Spec, TSK_ImplicitInstantiation, false);
                if (Spec->hasDefinition())
                    S->InstantiateClassTemplateSpecializationMembers(Loc, cast<ClassTemplateSpecializationDecl>(Spec->getDefinition()), TSK_ExplicitInstantiationDefinition);
            }
        }
    }

    // The generated unit ends with a sentinel declaration: instantiate while
    // the translation-unit scope is still open.
    bool HandleTopLevelDecl(DeclGroupRef G) override {
        for (Decl *X : G)
            if (auto *V = dyn_cast<VarDecl>(X))
                if (V->getName() == "enigma_sa_sentinel") { Dumper D(V->getASTContext(), *S); instantiateAll(V->getASTContext(), D); }
        return true;
    }

    void HandleTranslationUnit(ASTContext &Ctx) override {
        Dumper D(Ctx, *S);
        Collector C(D);
        C.TraverseDecl(Ctx.getTranslationUnitDecl());
        std::error_code EC;
        llvm::raw_fd_ostream OS(OutFile, EC);
        if (EC) { llvm::errs() << "cannot write " << OutFile << "\n"; exit(2); }
        OS << "{\"funcs\":[\n";
        // Fns grows while bodies are dumped (callees get ids)
        for (size_t i = 0; i < D.Fns.size(); ++i) {
            if (i) OS << ",\n";
            OS << D.F(D.Fns[i], (int)i);
        }
        OS << "],\n\"records\":[\n";
        for (size_t i = 0; i < D.Recs.size(); ++i) {
            if (i) OS << ",\n";
            OS << D.R(D.Recs[i]);
        }
        OS << "],\n\"enums\":[\n";
        bool First = true;
        for (auto *E : C.Enums) {
            json::Array A;
            for (auto *K : E->enumerators()) A.push_back(json::Array{K->getNameAsString(), (int64_t)K->getInitVal().getExtValue()});
            if (!First) OS << ",\n"; First = false;
            OS << json::Value(json::Array{E->getQualifiedNameAsString(), std::move(A)});
        }
        OS << "],\n\"globals\":[\n";
        for (size_t i = 0; i < D.Globs.size(); ++i) {
            const VarDecl *V = D.Globs[i];
            const VarDecl *Def = nullptr;
            const Expr *I = V->getAnyInitializer(Def);
            if (i) OS << ",\n";
            OS << json::Value(json::Array{V->getQualifiedNameAsString(), D.ty(V->getType()), I && D.inRoots(V) && !I->isInstantiationDependent() ? D.E(I) : json::Value(nullptr)});
        }
        OS << "],\n\"types\":";
        json::Array T; for (auto &X : D.Types) T.push_back(Dumper::sanitize(X));
        OS << json::Value(std::move(T)) << ",\n\"files\":";
        json::Array Fi; for (auto &X : D.Files) Fi.push_back(X);
        OS << json::Value(std::move(Fi)) << ",\n\"errors\":" << Ctx.getDiagnostics().getClient()->getNumErrors() << "}\n";
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

class DiagOut : public DiagnosticConsumer {
public:
    void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
        DiagnosticConsumer::HandleDiagnostic(L, I);
        if (L < DiagnosticsEngine::Error) return;
        llvm::SmallString<256> M; I.FormatDiagnostic(M);
        std::string F = "?"; unsigned Ln = 0;
        if (I.hasSourceManager() && I.getLocation().isValid()) { auto P = I.getSourceManager().getPresumedLoc(I.getSourceManager().getExpansionLoc(I.getLocation())); if (P.isValid()) { F = P.getFilename(); Ln = P.getLine(); } }
        llvm::errs() << F << ":" << Ln << ": error: " << M << "\n";
    }
};
} // namespace

// usage: astdump OUT.json ROOT[,ROOT...] SOURCE -- compiler args
int main(int argc, const char **argv) {
    if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
    OutFile = argv[1];
    { std::string R = argv[2]; size_t p = 0; while (p <= R.size()) { size_t q = R.find(',', p); if (q == std::string::npos) q = R.size(); Roots.push_back(R.substr(p, q - p)); p = q + 1; } }
    std::vector<std::string> Args;
    for (int i = 5; i < argc; ++i) Args.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", Args);
    tooling::ClangTool Tool(DB, {std::string(argv[3])});
    DiagOut DC;
    Tool.setDiagnosticConsumer(&DC);
    int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
    (void)rc; // members that do not instantiate are reported as errors and skipped
    return 0;
}
