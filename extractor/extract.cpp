// Typed-AST extractor.  Parses one translation unit with clang and writes every function definition, record,
// enumeration and variable that is *defined under the given source root* as compact JSON with resolved callees,
// declarations, types and integer constants.  Template instantiations and lambda bodies are written as functions
// of their own; uninstantiated template patterns are not.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;    // source root, with trailing '/'
static std::string ExtraRoot; // instantiation TU root

namespace {
class Emitter
{
    ASTContext& C;
    SourceManager& SM;
    ASTNameGenerator NG;
    PrintingPolicy PP;
    std::map<std::string, int> TypeIdx;
    Array Types;
    std::map<std::string, bool> FDeclSeen;
    Object FDecls;
    std::set<std::string> RecSeen, EnumSeen, GlobSeen, FunSeen;
    Array Recs, Enums, Globs, Funs;

  public:
    explicit Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()), NG(c), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }
    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto PL = SM.getPresumedLoc(L);
        if (PL.isInvalid()) { return ""; }
        std::string F = PL.getFilename();
        llvm::SmallString<256> P(F);
        SM.getFileManager().makeAbsolutePath(P);
        llvm::sys::path::remove_dots(P, true);
        return std::string(P);
    }
    bool inRoot(SourceLocation L)
    {
        auto F = fileOf(L);
        return F.rfind(Root, 0) == 0 || (!ExtraRoot.empty() && F.rfind(ExtraRoot, 0) == 0);
    }
    std::string rel(SourceLocation L)
    {
        auto F = fileOf(L);
        if (F.rfind(Root, 0) == 0) { return F.substr(Root.size()); }
        return F;
    }
    unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    std::string loc(SourceLocation L)
    {
        auto E = SM.getExpansionLoc(L);
        return rel(L) + ":" + std::to_string(SM.getExpansionLineNumber(E)) + ":" + std::to_string(SM.getExpansionColumnNumber(E));
    }
    std::string declId(const ValueDecl* D)
    {
        std::string S = D->getNameAsString() + "@" + loc(D->getLocation());
        // the parameters an expanded pack stands for share their name and place
        if (auto* P = dyn_cast<ParmVarDecl>(D))
        {
            if (auto* F = dyn_cast_or_null<FunctionDecl>(P->getDeclContext()))
            {
                unsigned Before = 0;
                for (auto* O : F->parameters())
                {
                    if (O == P) { break; }
                    if (O->getLocation() == P->getLocation()) { ++Before; }
                }
                if (Before) { S += "#" + std::to_string(Before); }
            }
        }
        return S;
    }
    std::string qn(const NamedDecl* D)
    {
        std::string S;
        llvm::raw_string_ostream O(S);
        D->printQualifiedName(O);
        return O.str();
    }
    std::string recId(const RecordDecl* R) { return C.getTypeDeclType(R).getCanonicalType().getAsString(PP) + (R->isLambda() || R->getDeclName().isEmpty() ? "@" + loc(R->getLocation()) : ""); }

    int type(QualType T)
    {
        if (T.isNull()) { return -1; }
        QualType Q = T.getCanonicalType();
        std::string S = Q.getAsString(PP);
        std::string K = S;
        if (auto* R = Q->getAsRecordDecl()) { K = S + "|" + recId(R); }
        auto It = TypeIdx.find(K);
        if (It != TypeIdx.end()) { return It->second; }
        int I = (int)Types.size();
        TypeIdx[K] = I;
        Types.push_back(Object{});
        Object O;
        O["s"] = S;
        if (Q.isConstQualified()) { O["const"] = 1; }
        const Type* P = Q.getTypePtr();
        if (P->isDependentType()) { O["k"] = "dep"; }
        else if (P->isBooleanType()) { O["k"] = "bool"; O["w"] = 1; O["sz"] = 1; }
        else if (auto* ET = P->getAs<EnumType>())
        {
            O["k"] = "enum";
            O["q"] = qn(ET->getDecl());
            if (ET->getDecl()->isComplete())
            {
                O["w"] = (int64_t)C.getTypeSize(Q);
                O["u"] = ET->getDecl()->getIntegerType()->isUnsignedIntegerType() ? 1 : 0;
                O["sz"] = (int64_t)C.getTypeSizeInChars(Q).getQuantity();
            }
            if (ET->getDecl()->isScoped()) { O["scoped"] = 1; }
            emitEnum(ET->getDecl());
        }
        else if (P->isIntegerType())
        {
            O["k"] = "int";
            O["w"] = (int64_t)C.getTypeSize(Q);
            O["u"] = P->isUnsignedIntegerType() ? 1 : 0;
            O["sz"] = (int64_t)C.getTypeSizeInChars(Q).getQuantity();
        }
        else if (P->isRealFloatingType()) { O["k"] = "float"; O["w"] = (int64_t)C.getTypeSize(Q); O["sz"] = (int64_t)C.getTypeSizeInChars(Q).getQuantity(); }
        else if (P->isVoidType()) { O["k"] = "void"; }
        else if (P->isNullPtrType()) { O["k"] = "nullptr"; }
        else if (P->isPointerType()) { O["k"] = "ptr"; O["to"] = type(P->getPointeeType()); O["sz"] = 8; }
        else if (P->isReferenceType()) { O["k"] = "ref"; O["to"] = type(P->getPointeeType()); if (P->isRValueReferenceType()) { O["rv"] = 1; } }
        else if (auto* AT = C.getAsConstantArrayType(Q))
        {
            O["k"] = "array";
            O["to"] = type(AT->getElementType());
            O["n"] = (int64_t)AT->getSize().getZExtValue();
            O["sz"] = (int64_t)C.getTypeSizeInChars(Q).getQuantity();
        }
        else if (auto* IT = C.getAsIncompleteArrayType(Q))
        {
            O["k"] = "uarray";
            O["to"] = type(IT->getElementType());
        }
        else if (P->isFunctionType()) { O["k"] = "func"; }
        else if (auto* R = P->getAsRecordDecl())
        {
            O["k"] = "rec";
            O["rec"] = recId(R);
            O["q"] = qn(R);
            if (R->isLambda()) { O["lambda"] = 1; }
            if (R->isCompleteDefinition() && !R->isDependentType() && !R->isInvalidDecl()) { O["sz"] = (int64_t)C.getTypeSizeInChars(Q).getQuantity(); }
            if (auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(R)) { O["ta"] = targs(TS->getTemplateArgs().asArray()); }
            emitRecord(R);
        }
        else if (P->isMemberPointerType()) { O["k"] = "memptr"; }
        else { O["k"] = "other"; }
        Types[I] = std::move(O);
        return I;
    }
    Array targs(llvm::ArrayRef<TemplateArgument> As)
    {
        Array R;
        for (auto& A : As)
        {
            switch (A.getKind())
            {
            case TemplateArgument::Type: R.push_back(Object{{"t", type(A.getAsType())}}); break;
            case TemplateArgument::Integral: R.push_back(Object{{"v", num(A.getAsIntegral())}}); break;
            case TemplateArgument::Declaration: R.push_back(Object{{"d", declId(A.getAsDecl())}, {"q", qn(A.getAsDecl())}}); break;
            case TemplateArgument::Pack:
                for (auto& B : targs(A.getPackAsArray())) { R.push_back(B); }
                break;
            default: R.push_back(nullptr);
            }
        }
        return R;
    }
    Value num(const llvm::APSInt& V)
    {
        llvm::SmallString<32> S;
        V.toString(S, 10);
        if (V.isSigned() ? V.getSignificantBits() <= 53 : V.getActiveBits() <= 53) { return Value(V.isSigned() ? V.getSExtValue() : (int64_t)V.getZExtValue()); }
        return Value("#" + std::string(S));
    }
    std::string fid(const FunctionDecl* F)
    {
        F = F->getCanonicalDecl();
        std::string N;
        bool isC = isa<CXXConstructorDecl>(F), isD = isa<CXXDestructorDecl>(F);
        if (isC || isD)
        {
            auto V = NG.getAllManglings(F);
            N = V.empty() ? "" : V[0];
        }
        else { N = NG.getName(F); }
        bool lam = false;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) { lam = M->getParent()->isLambda() ; }
        // lambdas are numbered per TU; anything with a lambda in its signature or internal linkage needs a location
        if (N.empty() || lam || !F->isExternallyVisible())
        {
            const FunctionDecl* P = F->getTemplateInstantiationPattern() ? F->getTemplateInstantiationPattern() : F;
            std::string A;
            if (auto* TA = F->getTemplateSpecializationArgs())
            {
                llvm::raw_string_ostream O(A);
                for (auto& X : TA->asArray()) { X.print(PP, O, true); O << ","; }
            }
            std::string PT;
            for (auto* Q : F->parameters()) { PT += Q->getType().getCanonicalType().getAsString(PP) + ","; }
            std::string Encl;
            for (const DeclContext* DC = F->getDeclContext(); DC; DC = DC->getParent())
            {
                if (auto* EF = dyn_cast<FunctionDecl>(DC))
                {
                    if (auto* TA = EF->getTemplateSpecializationArgs())
                    {
                        llvm::raw_string_ostream O(Encl);
                        for (auto& X : TA->asArray()) { X.print(PP, O, true); O << ","; }
                    }
                }
                else if (auto* TS = dyn_cast<ClassTemplateSpecializationDecl>(DC)) { Encl += TS->getNameAsString() + "{" + C.getTypeDeclType(TS).getAsString(PP) + "}"; }
            }
            return F->getNameAsString() + "<" + A + ">(" + PT + ")" + Encl + "@" + loc(P->getLocation());
        }
        return N;
    }
    std::string fdecl(const FunctionDecl* F)
    {
        auto I = fid(F);
        if (FDeclSeen.insert({I, true}).second)
        {
            Object O;
            O["q"] = qn(F);
            O["n"] = F->getNameAsString();
            if (F->isOverloadedOperator()) { O["op"] = getOperatorSpelling(F->getOverloadedOperator()); }
            Array P;
            for (auto* Q : F->parameters()) { P.push_back(type(Q->getType())); }
            O["p"] = std::move(P);
            O["r"] = type(F->getReturnType());
            if (F->hasAttr<WarnUnusedResultAttr>()) { O["nodiscard"] = 1; }
            if (inRoot(F->getLocation())) { O["repo"] = 1; }
            O["loc"] = loc(F->getLocation());
            if (F->isVariadic()) { O["variadic"] = 1; }
            if (F->isNoReturn()) { O["noreturn"] = 1; }
            if (auto* M = dyn_cast<CXXMethodDecl>(F))
            {
                O["cls"] = recId(M->getParent());
                if (M->isConst()) { O["const"] = 1; }
                if (M->isStatic()) { O["static"] = 1; }
                if (M->isVirtual()) { O["virtual"] = 1; }
                if (M->isPureVirtual()) { O["pure"] = 1; }
                Array Ov;
                for (auto* X : M->overridden_methods()) { Ov.push_back(fdecl(X)); }
                if (!Ov.empty()) { O["ov"] = std::move(Ov); }
                const char* A = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
                O["acc"] = A;
                if (isa<CXXConstructorDecl>(M)) { O["ctor"] = 1; if (cast<CXXConstructorDecl>(M)->isCopyConstructor()) { O["copy"] = 1; } if (cast<CXXConstructorDecl>(M)->isMoveConstructor()) { O["move"] = 1; } }
                if (isa<CXXDestructorDecl>(M)) { O["dtor"] = 1; }
                if (M->isCopyAssignmentOperator()) { O["copyasg"] = 1; }
                if (M->isMoveAssignmentOperator()) { O["moveasg"] = 1; }
                if (isa<CXXConversionDecl>(M)) { O["conv"] = 1; }
            }
            if (F->isDefaulted()) { O["defaulted"] = 1; }
            if (F->isDeleted()) { O["deleted"] = 1; }
            if (F->isImplicit()) { O["implicit"] = 1; }
            if (auto* TA = F->getTemplateSpecializationArgs()) { O["ta"] = targs(TA->asArray()); }
            FDecls[I] = std::move(O);
        }
        return I;
    }
    void emitEnum(const EnumDecl* E)
    {
        E = E->getDefinition();
        if (!E) { return; }
        if (!inRoot(E->getLocation())) { return; }
        auto Q = qn(E) + "@" + loc(E->getLocation());
        if (!EnumSeen.insert(Q).second) { return; }
        Array Es;
        for (auto* X : E->enumerators()) { Es.push_back(Array{X->getNameAsString(), num(X->getInitVal())}); }
        Enums.push_back(Object{{"q", qn(E)}, {"file", rel(E->getLocation())}, {"line", line(E->getLocation())}, {"e", std::move(Es)}});
    }
    void emitRecord(const RecordDecl* R)
    {
        R = R->getDefinition();
        if (!R || R->isDependentType() || R->isInvalidDecl()) { return; }
        auto I = recId(R);
        if (!RecSeen.insert(I).second) { return; }
        bool in = inRoot(R->getLocation());
        Object O;
        O["id"] = I;
        O["q"] = qn(R);
        O["n"] = R->getNameAsString();
        if (in) { O["repo"] = 1; }
        O["file"] = rel(R->getLocation());
        O["line"] = line(R->getLocation());
        if (R->isUnion()) { O["union"] = 1; }
        if (in)
        {
            O["sz"] = (int64_t)C.getTypeSizeInChars(C.getTypeDeclType(R)).getQuantity();
            const ASTRecordLayout& L = C.getASTRecordLayout(R);
            Array Fs;
            for (auto* F : R->fields())
            {
                Object FO{{"id", declId(F)}, {"n", F->getNameAsString()}, {"t", type(F->getType())}, {"off", (int64_t)L.getFieldOffset(F->getFieldIndex())}};
                if (F->isBitField()) { FO["bits"] = (int64_t)F->getBitWidthValue(C); }
                if (F->isMutable()) { FO["mutable"] = 1; }
                if (F->hasInClassInitializer() && F->getInClassInitializer()) { FO["init"] = expr(F->getInClassInitializer()); }
                FO["acc"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
                Fs.push_back(std::move(FO));
            }
            O["f"] = std::move(Fs);
            if (auto* CR = dyn_cast<CXXRecordDecl>(R))
            {
                Array Bs;
                for (auto& B : CR->bases()) { Bs.push_back(type(B.getType())); }
                O["b"] = std::move(Bs);
                Array Ms;
                for (auto* M : CR->methods())
                {
                    if (!M->isImplicit() || M->isDefaulted()) { Ms.push_back(fdecl(M)); }
                }
                O["m"] = std::move(Ms);
                if (CR->isPolymorphic()) { O["poly"] = 1; }
            }
        }
        Recs.push_back(std::move(O));
    }
    Value constVal(const Expr* E)
    {
        if (!E || E->isValueDependent() || E->isTypeDependent()) { return nullptr; }
        QualType T = E->getType();
        if (!(T->isIntegralOrEnumerationType())) { return nullptr; }
        Expr::EvalResult R;
        if (E->isLValue() && !isa<DeclRefExpr>(E)) { return nullptr; }
        if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isInt()) { return num(R.Val.getInt()); }
        return nullptr;
    }
    Value apv(const APValue& V, QualType T, int depth = 0)
    {
        if (V.isInt()) { return num(V.getInt()); }
        if (V.isFloat()) { return V.getFloat().convertToDouble(); }
        if (V.isArray() && depth < 4)
        {
            Array A;
            for (unsigned i = 0; i < V.getArrayInitializedElts(); i++) { A.push_back(apv(V.getArrayInitializedElt(i), QualType(), depth + 1)); }
            if (V.hasArrayFiller())
            {
                for (unsigned i = V.getArrayInitializedElts(); i < V.getArraySize() && i < 70000; i++) { A.push_back(apv(V.getArrayFiller(), QualType(), depth + 1)); }
            }
            return std::move(A);
        }
        if (V.isStruct() && depth < 6)
        {
            Array A;
            for (unsigned i = 0; i < V.getStructNumBases(); i++) { A.push_back(apv(V.getStructBase(i), QualType(), depth + 1)); }
            for (unsigned i = 0; i < V.getStructNumFields(); i++) { A.push_back(apv(V.getStructField(i), QualType(), depth + 1)); }
            return std::move(A);
        }
        if (V.isLValue())
        {
            if (V.isNullPointer()) { return nullptr; }
            Object O;
            if (auto* E = V.getLValueBase().dyn_cast<const Expr*>())
            {
                if (auto* S = dyn_cast<StringLiteral>(E->IgnoreParenImpCasts())) { if (S->getCharByteWidth() == 1) { O["str"] = llvm::json::fixUTF8(S->getString()); } }
            }
            else if (auto* D = V.getLValueBase().dyn_cast<const ValueDecl*>()) { O["d"] = declId(D); O["q"] = qn(D); if (auto* VD = dyn_cast<VarDecl>(D)) { emitGlobal(VD); } }
            O["off"] = (int64_t)V.getLValueOffset().getQuantity();
            return std::move(O);
        }
        return nullptr;
    }
    void emitGlobal(const VarDecl* V)
    {
        if (!V->hasGlobalStorage()) { return; }
        const VarDecl* D = V->getDefinition();
        if (!D) { D = V; }
        if (!inRoot(D->getLocation()) || D->getType()->isDependentType()) { return; }
        if (D->getDeclContext()->isDependentContext()) { return; }
        auto I = declId(V);
        std::string Key = I;
        if (auto* VS = dyn_cast<VarTemplateSpecializationDecl>(V)) { std::string A; llvm::raw_string_ostream O(A); for (auto& X : VS->getTemplateArgs().asArray()) { X.print(PP, O, true); O << ","; } Key += "<" + O.str() + ">"; }
        if (!GlobSeen.insert(Key).second) { return; }
        Object O{{"id", Key}, {"n", V->getNameAsString()}, {"q", qn(V)}, {"file", rel(D->getLocation())}, {"line", line(D->getLocation())}, {"t", type(D->getType())}};
        if (D->isConstexpr()) { O["constexpr"] = 1; }
        if (D->isStaticLocal()) { O["local"] = 1; }
        if (D->hasInit() && !D->getInit()->isValueDependent())
        {
            if (!(D->getInit()->getType()->isDependentType())) { O["init"] = expr(D->getInit()); }
            if (D->getType().isConstQualified() || D->isConstexpr())
            {
                if (auto* AV = D->evaluateValue()) { O["val"] = apv(*AV, D->getType()); }
            }
        }
        Globs.push_back(std::move(O));
    }
    std::string varId(const VarDecl* V)
    {
        if (auto* VS = dyn_cast<VarTemplateSpecializationDecl>(V))
        {
            std::string A;
            llvm::raw_string_ostream O(A);
            for (auto& X : VS->getTemplateArgs().asArray()) { X.print(PP, O, true); O << ","; }
            return declId(V) + "<" + O.str() + ">";
        }
        return declId(V);
    }

    Value exprs(llvm::ArrayRef<const Expr*> Es)
    {
        Array A;
        for (auto* E : Es) { A.push_back(expr(E)); }
        return std::move(A);
    }
    template <class It> Array argsOf(It B, It E)
    {
        Array A;
        for (; B != E; ++B) { A.push_back(expr(*B)); }
        return A;
    }
    Value expr(const Expr* E)
    {
        if (!E) { return nullptr; }
        if (auto* X = dyn_cast<ParenExpr>(E)) { return expr(X->getSubExpr()); }
        if (auto* X = dyn_cast<ExprWithCleanups>(E)) { return expr(X->getSubExpr()); }
        if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) { return expr(X->getSubExpr()); }
        if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) { return expr(X->getSubExpr()); }
        if (auto* X = dyn_cast<ConstantExpr>(E)) { return expr(X->getSubExpr()); }
        if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { return expr(X->getReplacement()); }
        if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) { Value V = expr(X->getExpr()); return V; }
        if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) { return expr(X->getExpr()); }
        if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) { return Object{{"k", "StdInit"}, {"s", expr(X->getSubExpr())}, {"t", type(E->getType())}, {"l", line(E->getExprLoc())}}; }
        if (auto* X = dyn_cast<OpaqueValueExpr>(E)) { return expr(X->getSourceExpr()); }
        Object O;
        O["l"] = line(E->getExprLoc());
        O["t"] = type(E->getType());
        if (E->isLValue() || (E->isXValue() && isa<CallExpr>(E) && !E->getType()->isRecordType() && !E->getType()->isArrayType())) { O["lv"] = 1; }
        Value CV = constVal(E);
        if (CV.kind() != Value::Null) { O["cv"] = std::move(CV); }
        if (auto* X = dyn_cast<IntegerLiteral>(E)) { O["k"] = "Int"; }
        else if (isa<CXXBoolLiteralExpr>(E) || isa<CharacterLiteral>(E)) { O["k"] = "Int"; }
        else if (auto* X = dyn_cast<FloatingLiteral>(E)) { O["k"] = "Flt"; O["v"] = X->getValueAsApproximateDouble(); }
        else if (auto* X = dyn_cast<StringLiteral>(E)) { O["k"] = "Str"; O["n"] = (int64_t)X->getLength(); if (X->getCharByteWidth() == 1) { O["v"] = llvm::json::fixUTF8(X->getString()); } }
        else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { O["k"] = "Null"; }
        else if (isa<CXXThisExpr>(E)) { O["k"] = "This"; }
        else if (auto* X = dyn_cast<DeclRefExpr>(E))
        {
            const ValueDecl* D = X->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) { O["k"] = "Fn"; O["fn"] = fdecl(F); }
            else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) { O["k"] = "Enum"; O["n"] = EC->getNameAsString(); O["q"] = qn(EC); O["cv"] = num(EC->getInitVal()); }
            else if (auto* B = dyn_cast<BindingDecl>(D))
            {
                O["k"] = "Bind";
                O["id"] = declId(B);
                O["n"] = B->getNameAsString();
                if (B->getBinding()) { O["b"] = B->getHoldingVar() ? Value(Object{{"k", "Var"}, {"id", declId(B->getHoldingVar())}, {"n", B->getNameAsString()}, {"dk", "local"}, {"t", type(B->getHoldingVar()->getType())}}) : expr(B->getBinding()); }
            }
            else
            {
                O["k"] = "Var";
                O["n"] = D->getNameAsString();
                if (auto* V = dyn_cast<VarDecl>(D))
                {
                    O["id"] = varId(V);
                    const char* DK = isa<ParmVarDecl>(V) ? "param" : (V->isLocalVarDecl() && !V->isStaticLocal()) ? "local" : V->isStaticLocal() ? "slocal" : "global";
                    O["dk"] = DK;
                    O["vt"] = type(V->getType());
                    if (V->hasGlobalStorage()) { O["q"] = qn(V); emitGlobal(V); if (V->isConstexpr()) { O["cx"] = 1; } }
                }
                else { O["id"] = declId(D); O["dk"] = "other"; }
            }
        }
        else if (auto* X = dyn_cast<MemberExpr>(E))
        {
            const ValueDecl* D = X->getMemberDecl();
            if (auto* F = dyn_cast<FieldDecl>(D))
            {
                O["k"] = "Mem";
                O["b"] = expr(X->getBase());
                if (X->isArrow()) { O["arrow"] = 1; }
                O["f"] = declId(F);
                O["n"] = F->getNameAsString();
                O["ft"] = type(F->getType());
                O["cls"] = recId(F->getParent());
            }
            else if (auto* V = dyn_cast<VarDecl>(D)) { O["k"] = "Var"; O["id"] = varId(V); O["n"] = V->getNameAsString(); O["dk"] = "global"; O["q"] = qn(V); O["vt"] = type(V->getType()); emitGlobal(V); }
            else if (auto* F = dyn_cast<FunctionDecl>(D)) { O["k"] = "MFn"; O["b"] = expr(X->getBase()); if (X->isArrow()) { O["arrow"] = 1; } O["fn"] = fdecl(F); }
            else { O["k"] = "MemOther"; O["n"] = D->getNameAsString(); }
        }
        else if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "Idx"; O["b"] = expr(X->getBase()); O["i"] = expr(X->getIdx()); }
        else if (auto* X = dyn_cast<UnaryOperator>(E)) { O["k"] = "Un"; O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if (X->isPostfix()) { O["post"] = 1; } O["s"] = expr(X->getSubExpr()); }
        else if (auto* X = dyn_cast<CompoundAssignOperator>(E)) { O["k"] = "Asg"; O["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str(); O["a"] = expr(X->getLHS()); O["b"] = expr(X->getRHS()); O["ct"] = type(X->getComputationResultType()); O["clt"] = type(X->getComputationLHSType()); }
        else if (auto* X = dyn_cast<BinaryOperator>(E))
        {
            if (X->getOpcode() == BO_Assign) { O["k"] = "Asg"; O["op"] = "="; }
            else { O["k"] = "Bin"; O["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str(); }
            O["a"] = expr(X->getLHS());
            O["b"] = expr(X->getRHS());
        }
        else if (auto* X = dyn_cast<ConditionalOperator>(E)) { O["k"] = "Cond"; O["c"] = expr(X->getCond()); O["a"] = expr(X->getTrueExpr()); O["b"] = expr(X->getFalseExpr()); }
        else if (auto* X = dyn_cast<CastExpr>(E))
        {
            O["k"] = "Cast";
            O["ck"] = X->getCastKindName();
            O["s"] = expr(X->getSubExpr());
            if (isa<ExplicitCastExpr>(X))
            {
                O["ex"] = 1;
                O["cn"] = isa<CXXDynamicCastExpr>(X) ? "dynamic" : isa<CXXReinterpretCastExpr>(X) ? "reinterpret" : isa<CXXConstCastExpr>(X) ? "const" : isa<CXXStaticCastExpr>(X) ? "static" : "c";
            }
        }
        else if (auto* X = dyn_cast<CXXOperatorCallExpr>(E))
        {
            O["k"] = "Call";
            O["oc"] = getOperatorSpelling(X->getOperator());
            auto* F = X->getDirectCallee();
            Array A = argsOf(X->arg_begin(), X->arg_end());
            if (F)
            {
                O["fn"] = fdecl(F);
                if (auto* M = dyn_cast<CXXMethodDecl>(F); M && !M->isStatic())
                {
                    O["obj"] = std::move(A[0]);
                    Array A2;
                    for (size_t i = 1; i < A.size(); i++) { A2.push_back(std::move(A[i])); }
                    O["args"] = std::move(A2);
                    return std::move(O);
                }
            }
            O["args"] = std::move(A);
        }
        else if (auto* X = dyn_cast<CXXMemberCallExpr>(E))
        {
            O["k"] = "Call";
            if (auto* F = X->getMethodDecl()) { O["fn"] = fdecl(F); }
            if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
            {
                O["obj"] = expr(ME->getBase());
                if (ME->isArrow()) { O["arrow"] = 1; }
                if (auto* M = X->getMethodDecl())
                {
                    if (M->isVirtual() && !ME->hasQualifier()) { O["vcall"] = 1; }
                }
            }
            else { O["callee"] = expr(X->getCallee()); }
            O["args"] = argsOf(X->arg_begin(), X->arg_end());
        }
        else if (auto* X = dyn_cast<CallExpr>(E))
        {
            O["k"] = "Call";
            if (auto* F = X->getDirectCallee()) { O["fn"] = fdecl(F); }
            else { O["callee"] = expr(X->getCallee()); }
            O["args"] = argsOf(X->arg_begin(), X->arg_end());
        }
        else if (auto* X = dyn_cast<CXXConstructExpr>(E))
        {
            O["k"] = "Ctor";
            O["fn"] = fdecl(X->getConstructor());
            if (X->isElidable()) { O["elide"] = 1; }
            if (X->isListInitialization()) { O["list"] = 1; }
            if (X->requiresZeroInitialization()) { O["zero"] = 1; }
            O["args"] = argsOf(X->arg_begin(), X->arg_end());
        }
        else if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { O["k"] = "Ctor"; O["inh"] = 1; O["fn"] = fdecl(X->getConstructor()); O["args"] = Array{}; }
        else if (auto* X = dyn_cast<CXXNewExpr>(E)) { O["k"] = "New"; O["at"] = type(X->getAllocatedType()); if (X->isArray() && X->getArraySize()) { O["n"] = expr(*X->getArraySize()); } if (X->getInitializer()) { O["init"] = expr(X->getInitializer()); } Array P; for (auto* A : X->placement_arguments()) { P.push_back(expr(A)); } if (!P.empty()) { O["place"] = std::move(P); } }
        else if (auto* X = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "Del"; O["s"] = expr(X->getArgument()); }
        else if (auto* X = dyn_cast<LambdaExpr>(E))
        {
            O["k"] = "Lambda";
            auto* Op = X->getCallOperator();
            if (X->isGenericLambda())
            {
                O["generic"] = 1;
                Array S;
                if (auto* FT = Op->getDescribedFunctionTemplate())
                {
                    for (auto* Sp : FT->specializations()) { S.push_back(fdecl(Sp)); }
                }
                O["specs"] = std::move(S);
            }
            else { O["fn"] = fdecl(Op); }
            O["rec"] = recId(X->getLambdaClass());
            Array Cs;
            for (auto& Cp : X->captures())
            {
                Object CO;
                if (Cp.capturesThis()) { CO["this"] = 1; if (Cp.getCaptureKind() == LCK_StarThis) { CO["star"] = 1; } }
                else if (Cp.capturesVariable())
                {
                    CO["id"] = declId(Cp.getCapturedVar());
                    CO["n"] = Cp.getCapturedVar()->getNameAsString();
                    CO["ref"] = Cp.getCaptureKind() == LCK_ByRef;
                    if (auto* VD = dyn_cast<VarDecl>(Cp.getCapturedVar()); VD && VD->isInitCapture() && VD->getInit()) { CO["init"] = expr(VD->getInit()); }
                }
                Cs.push_back(std::move(CO));
            }
            O["caps"] = std::move(Cs);
        }
        else if (auto* X = dyn_cast<InitListExpr>(E))
        {
            const InitListExpr* S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
            O["k"] = "Init";
            Array A;
            for (unsigned i = 0; i < S->getNumInits(); i++) { A.push_back(expr(S->getInit(i))); }
            O["e"] = std::move(A);
            if (S->hasArrayFiller()) { O["fill"] = expr(S->getArrayFiller()); }
        }
        else if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { O["k"] = "SizeOf"; if (X->isArgumentType()) { O["at"] = type(X->getArgumentType()); } }
        else if (auto* X = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "Throw"; O["s"] = expr(X->getSubExpr()); }
        else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { O["k"] = "Zero"; }
        else if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) { O["k"] = "ArrCopy"; O["s"] = expr(X->getCommonExpr()); }
        else if (auto* X = dyn_cast<CXXPseudoDestructorExpr>(E)) { O["k"] = "PDtor"; }
        else
        {
            O["k"] = "Other";
            O["cls"] = E->getStmtClassName();
            Array A;
            for (auto* Ch : E->children())
            {
                if (auto* CE = dyn_cast_or_null<Expr>(Ch)) { A.push_back(expr(CE)); }
            }
            O["ch"] = std::move(A);
        }
        return std::move(O);
    }
    Value var(const VarDecl* V)
    {
        Object O{{"id", varId(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())}, {"l", line(V->getLocation())}};
        if (V->isStaticLocal()) { O["static"] = 1; emitGlobal(V); }
        if (V->hasInit()) { O["init"] = expr(V->getInit()); }
        if (V->isConstexpr()) { O["constexpr"] = 1; }
        if (auto* D = dyn_cast<DecompositionDecl>(V))
        {
            Array B;
            for (auto* X : D->bindings())
            {
                Object BO{{"id", declId(X)}, {"n", X->getNameAsString()}, {"t", type(X->getType())}};
                if (X->getHoldingVar()) { BO["hv"] = var(X->getHoldingVar()); }
                else if (X->getBinding()) { BO["b"] = expr(X->getBinding()); }
                B.push_back(std::move(BO));
            }
            O["bind"] = std::move(B);
        }
        return std::move(O);
    }
    Value stmt(const Stmt* S)
    {
        if (!S) { return nullptr; }
        if (auto* E = dyn_cast<Expr>(S)) { return Object{{"k", "Expr"}, {"e", expr(E)}, {"l", line(E->getExprLoc())}}; }
        Object O;
        O["l"] = line(S->getBeginLoc());
        if (auto* X = dyn_cast<CompoundStmt>(S))
        {
            O["k"] = "Block";
            Array A;
            for (auto* Ch : X->body()) { A.push_back(stmt(Ch)); }
            O["b"] = std::move(A);
            O["le"] = line(X->getRBracLoc());
        }
        else if (auto* X = dyn_cast<DeclStmt>(S))
        {
            O["k"] = "Decl";
            Array A;
            for (auto* D : X->decls())
            {
                if (auto* V = dyn_cast<VarDecl>(D)) { A.push_back(var(V)); }
            }
            O["v"] = std::move(A);
        }
        else if (auto* X = dyn_cast<IfStmt>(S))
        {
            O["k"] = "If";
            if (X->getInit()) { O["init"] = stmt(X->getInit()); }
            if (X->getConditionVariable()) { O["cv"] = var(X->getConditionVariable()); }
            O["c"] = expr(X->getCond());
            O["a"] = stmt(X->getThen());
            O["b"] = stmt(X->getElse());
            if (X->isConstexpr()) { O["cx"] = 1; }
        }
        else if (auto* X = dyn_cast<WhileStmt>(S)) { O["k"] = "While"; if (X->getConditionVariable()) { O["cv"] = var(X->getConditionVariable()); } O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); }
        else if (auto* X = dyn_cast<DoStmt>(S)) { O["k"] = "Do"; O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); }
        else if (auto* X = dyn_cast<ForStmt>(S))
        {
            O["k"] = "For";
            O["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) { O["cv"] = var(X->getConditionVariable()); }
            O["c"] = expr(X->getCond());
            O["inc"] = expr(X->getInc());
            O["b"] = stmt(X->getBody());
        }
        else if (auto* X = dyn_cast<CXXForRangeStmt>(S))
        {
            O["k"] = "RFor";
            if (X->getInit()) { O["init"] = stmt(X->getInit()); }
            O["v"] = var(X->getLoopVariable());
            O["r"] = expr(X->getRangeInit());
            O["b"] = stmt(X->getBody());
        }
        else if (auto* X = dyn_cast<SwitchStmt>(S)) { O["k"] = "Switch"; if (X->getInit()) { O["init"] = stmt(X->getInit()); } if (X->getConditionVariable()) { O["cv"] = var(X->getConditionVariable()); } O["c"] = expr(X->getCond()); O["b"] = stmt(X->getBody()); }
        else if (auto* X = dyn_cast<CaseStmt>(S)) { O["k"] = "Case"; O["lo"] = expr(X->getLHS()); if (X->getRHS()) { O["hi"] = expr(X->getRHS()); } O["s"] = stmt(X->getSubStmt()); }
        else if (auto* X = dyn_cast<DefaultStmt>(S)) { O["k"] = "Default"; O["s"] = stmt(X->getSubStmt()); }
        else if (isa<BreakStmt>(S)) { O["k"] = "Break"; }
        else if (isa<ContinueStmt>(S)) { O["k"] = "Continue"; }
        else if (auto* X = dyn_cast<ReturnStmt>(S)) { O["k"] = "Return"; if (X->getRetValue()) { O["e"] = expr(X->getRetValue()); } }
        else if (auto* X = dyn_cast<CXXTryStmt>(S))
        {
            O["k"] = "Try";
            O["b"] = stmt(X->getTryBlock());
            Array H;
            for (unsigned i = 0; i < X->getNumHandlers(); i++)
            {
                auto* Hd = X->getHandler(i);
                Object HO{{"b", stmt(Hd->getHandlerBlock())}, {"l", line(Hd->getBeginLoc())}};
                if (Hd->getExceptionDecl()) { HO["v"] = var(Hd->getExceptionDecl()); }
                H.push_back(std::move(HO));
            }
            O["h"] = std::move(H);
        }
        else if (isa<NullStmt>(S)) { O["k"] = "Nop"; }
        else if (auto* X = dyn_cast<AttributedStmt>(S)) { return stmt(X->getSubStmt()); }
        else if (auto* X = dyn_cast<LabelStmt>(S)) { O["k"] = "Label"; O["n"] = X->getDecl()->getNameAsString(); O["s"] = stmt(X->getSubStmt()); }
        else if (auto* X = dyn_cast<GotoStmt>(S)) { O["k"] = "Goto"; O["n"] = X->getLabel()->getNameAsString(); }
        else { O["k"] = "OtherStmt"; O["cls"] = S->getStmtClassName(); }
        return std::move(O);
    }
    void function(const FunctionDecl* F)
    {
        if (!F->isThisDeclarationADefinition() || F->isDependentContext() || F->isInvalidDecl()) { return; }
        if (F->getDescribedFunctionTemplate()) { return; }
        if (!inRoot(F->getLocation())) { return; }
        const Stmt* B = F->getBody();
        auto I = fdecl(F);
        if (!FunSeen.insert(I).second) { return; }
        if (F->isDefaulted() && !F->doesThisDeclarationHaveABody()) { return; }
        if (!B) { return; }
        Object O;
        O["id"] = I;
        O["file"] = rel(F->getLocation());
        O["line"] = line(F->getLocation());
        O["end"] = line(F->getEndLoc());
        Array P;
        for (auto* Q : F->parameters())
        {
            Object PO{{"id", declId(Q)}, {"n", Q->getNameAsString()}, {"t", type(Q->getType())}};
            if (Q->hasAttr<UnusedAttr>()) { PO["unused"] = 1; }
            P.push_back(std::move(PO));
        }
        O["params"] = std::move(P);
        if (auto* Ct = dyn_cast<CXXConstructorDecl>(F))
        {
            Array Is;
            for (auto* X : Ct->inits())
            {
                Object IO{{"e", expr(X->getInit())}};
                if (X->isMemberInitializer()) { IO["f"] = declId(X->getMember()); IO["n"] = X->getMember()->getNameAsString(); }
                else if (X->isBaseInitializer()) { IO["base"] = type(QualType(X->getBaseClass(), 0)); }
                else if (X->isDelegatingInitializer()) { IO["deleg"] = 1; }
                else if (X->isIndirectMemberInitializer()) { IO["f"] = declId(X->getIndirectMember()); IO["n"] = X->getIndirectMember()->getNameAsString(); }
                if (X->isWritten()) { IO["w"] = 1; }
                Is.push_back(std::move(IO));
            }
            O["inits"] = std::move(Is);
        }
        O["body"] = stmt(B);
        Funs.push_back(std::move(O));
    }
    void record(const RecordDecl* R)
    {
        if (R->isThisDeclarationADefinition() && !R->isDependentType() && inRoot(R->getLocation())) { type(C.getTypeDeclType(R)); emitRecord(R); }
    }
    void enumd(const EnumDecl* E)
    {
        if (E->isThisDeclarationADefinition() && !E->isDependentType()) { emitEnum(E); }
    }
    void global(const VarDecl* V)
    {
        if (V->hasGlobalStorage() && V->isThisDeclarationADefinition() && !isa<VarTemplatePartialSpecializationDecl>(V) && !V->getDescribedVarTemplate()) { emitGlobal(V); }
    }
    Value finish() { return Object{{"types", std::move(Types)}, {"fdecls", std::move(FDecls)}, {"recs", std::move(Recs)}, {"enums", std::move(Enums)}, {"globs", std::move(Globs)}, {"funs", std::move(Funs)}}; }
};

class V : public RecursiveASTVisitor<V>
{
    Emitter& E;
  public:
    explicit V(Emitter& e) : E(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F) { E.function(F); return true; }
    bool VisitLambdaExpr(LambdaExpr* L)
    {
        if (auto* FT = L->getCallOperator()->getDescribedFunctionTemplate())
        {
            for (auto* S : FT->specializations()) { E.function(S); }
        }
        else { E.function(L->getCallOperator()); }
        return true;
    }
    bool VisitRecordDecl(RecordDecl* R) { E.record(R); return true; }
    bool VisitEnumDecl(EnumDecl* D) { E.enumd(D); return true; }
    bool VisitVarDecl(VarDecl* D) { E.global(D); return true; }
};
class Consumer : public ASTConsumer
{
    std::string Out;
  public:
    explicit Consumer(std::string O) : Out(std::move(O)) {}
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) { return; }
        Emitter E(C);
        V(E).TraverseDecl(C.getTranslationUnitDecl());
        std::error_code EC;
        llvm::raw_fd_ostream O(Out, EC);
        O << E.finish();
    }
};
class Action : public ASTFrontendAction
{
    std::string Out;
  public:
    explicit Action(std::string O) : Out(std::move(O)) {}
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(Out); }
};
} // namespace

// usage: extract ROOT EXTRAROOT OUT FILE -- clang args
int main(int argc, char** argv)
{
    if (argc < 6) { llvm::errs() << "usage\n"; return 2; }
    Root = argv[1];
    if (Root.back() != '/') { Root += '/'; }
    ExtraRoot = argv[2];
    std::string Out = argv[3], File = argv[4];
    std::vector<std::string> Args;
    for (int i = 6; i < argc; i++) { Args.push_back(argv[i]); }
    std::unique_ptr<llvm::MemoryBuffer> Buf;
    auto B = llvm::MemoryBuffer::getFile(File);
    if (!B) { llvm::errs() << "cannot read " << File << "\n"; return 2; }
    bool ok = clang::tooling::runToolOnCodeWithArgs(std::make_unique<Action>(Out), (*B)->getBuffer(), Args, File, "verif-extract");
    return ok ? 0 : 1;
}
