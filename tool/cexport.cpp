// cexport: a libTooling exporter.
// Parses one translation unit exactly as the build does and writes the resolved
// program (function bodies with resolved callees, declarations, types, template
// instantiations, records, enums, globals) as JSON for the analyses in /verif/lib.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
using namespace clang::tooling;

static llvm::cl::OptionCategory Cat("cexport");
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Prefixes("prefix", llvm::cl::desc("comma separated path prefixes exported"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Excludes("exclude", llvm::cl::cat(Cat));

static std::vector<std::string> split(const std::string &s)
{
    std::vector<std::string> r; std::string c;
    for(char ch : s) { if(ch == ',') { if(!c.empty()) r.push_back(c); c.clear(); } else c += ch; }
    if(!c.empty()) r.push_back(c);
    return r;
}
static std::string q(llvm::StringRef s)
{
    std::string r = "\"";
    for(unsigned char c : s)
    {
        switch(c)
        {
        case '"': r += "\\\""; break;
        case '\\': r += "\\\\"; break;
        case '\n': r += "\\n"; break;
        case '\r': r += "\\r"; break;
        case '\t': r += "\\t"; break;
        default:
            if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
    }
    return r + "\"";
}

class Exporter : public RecursiveASTVisitor<Exporter>
{
public:
    ASTContext &C; SourceManager &SM; PrintingPolicy PP;
    std::vector<std::string> inc, exc;
    std::map<std::string,int> types; std::vector<std::string> typeList;
    std::map<std::string,int> funcs; std::vector<std::string> funcList;
    std::map<const Decl*,int> vars;  
    std::map<std::string,int> files; std::vector<std::string> fileList;
    std::set<const Decl*> done;
    std::vector<std::string> bodies, records, enums, globals, decls;

    Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true; PP.SuppressScope = false; PP.FullyQualifiedName = true;
        PP.SuppressUnwrittenScope = true; PP.PrintCanonicalTypes = true; PP.Bool = true;
        inc = split(Prefixes); exc = split(Excludes);
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        if(L.isInvalid()) return "";
        auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
        if(!FE) return "";
        llvm::StringRef rp = FE->getFileEntry().tryGetRealPathName();
        return rp.empty() ? FE->getName().str() : rp.str();
    }
    unsigned lineOf(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }
    bool wanted(SourceLocation L)
    {
        std::string f = fileOf(L);
        if(f.empty()) return false;
        for(auto &e : exc) if(f.find(e) != std::string::npos) return false;
        for(auto &p : inc) if(f.compare(0, p.size(), p) == 0) return true;
        return false;
    }
    int ty(QualType T)
    {
        std::string s = T.isNull() ? "" : T.getCanonicalType().getAsString(PP);
        auto it = types.find(s);
        if(it != types.end()) return it->second;
        int i = typeList.size(); types[s] = i; typeList.push_back(s); return i;
    }
    int fileIdx(const std::string &f)
    {
        auto it = files.find(f);
        if(it != files.end()) return it->second;
        int i = fileList.size(); files[f] = i; fileList.push_back(f); return i;
    }
    int var(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto it = vars.find(D);
        if(it != vars.end()) return it->second;
        int i = vars.size() + 1; vars[D] = i; return i;
    }
    std::string qn(const NamedDecl *D)
    {
        std::string s; llvm::raw_string_ostream os(s);
        PrintingPolicy P2 = PP; 
        D->printQualifiedName(os, P2);
        return os.str();
    }
    std::string targs(const TemplateArgumentList *L)
    {
        std::string s = "[";
        if(L) for(unsigned i = 0; i < L->size(); i++)
        {
            if(i) s += ",";
            std::string t; llvm::raw_string_ostream os(t);
            L->get(i).print(PP, os, true);
            s += q(os.str());
        }
        return s + "]";
    }
    int fref(const FunctionDecl *F)
    {
        llvm::SmallString<128> usr;
        index::generateUSRForDecl(F, usr);
        std::string u = usr.str().str();
        auto it = funcs.find(u);
        if(it != funcs.end()) return it->second;
        int i = funcList.size(); funcs[u] = i; funcList.push_back("");
        std::string s = "{\"usr\":" + q(u) + ",\"qn\":" + q(qn(F)) + ",\"name\":" + q(F->getNameAsString());
        if(auto *M = dyn_cast<CXXMethodDecl>(F))
        {
            s += ",\"cls\":" + q(C.getTypeDeclType(M->getParent()).getCanonicalType().getAsString(PP));
            if(M->isConst()) s += ",\"const\":1";
            if(M->isStatic()) s += ",\"static\":1";
            if(M->isVirtual()) s += ",\"virtual\":1";
        }
        if(auto *K = dyn_cast<CXXConstructorDecl>(F))
        {
            s += ",\"ctor\":" + std::string(K->isCopyConstructor() ? "\"copy\"" : K->isMoveConstructor() ? "\"move\"" : K->isDefaultConstructor() ? "\"default\"" : "\"other\"");
        }
        if(isa<CXXDestructorDecl>(F)) s += ",\"dtor\":1";
        if(isa<CXXConversionDecl>(F)) s += ",\"conv\":1";
        if(F->isOverloadedOperator()) s += ",\"op\":" + q(getOperatorSpelling(F->getOverloadedOperator()));
        if(F->isExternC()) s += ",\"externc\":1";
        if(F->isNoReturn()) s += ",\"noreturn\":1";
        if(F->isVariadic()) s += ",\"variadic\":1";
        if(auto *TA = F->getTemplateSpecializationArgs()) s += ",\"targs\":" + targs(TA);
        s += ",\"ret\":" + std::to_string(ty(F->getReturnType())) + ",\"params\":[";
        for(unsigned k = 0; k < F->getNumParams(); k++)
        {
            if(k) s += ",";
            auto *P = F->getParamDecl(k);
            s += "[" + q(P->getNameAsString()) + "," + std::to_string(ty(P->getType())) + "]";
        }
        s += "],\"file\":" + std::to_string(fileIdx(fileOf(F->getLocation()))) + ",\"line\":" + std::to_string(lineOf(F->getLocation())) + "}";
        funcList[i] = s;
        return i;
    }

    // ---- statements ----
    std::string N(const char *k, const Stmt *S, int t, const std::string &d, const std::vector<std::string> &ch)
    {
        std::string s = "[\"";
        s += k; s += "\","; s += std::to_string(S ? lineOf(S->getBeginLoc()) : 0); s += ","; s += std::to_string(t); s += ","; s += d; s += ",[";
        for(size_t i = 0; i < ch.size(); i++) { if(i) s += ","; s += ch[i]; }
        return s + "]]";
    }
    std::string varDecl(const VarDecl *V)
    {
        std::string d = "[" + q(V->getNameAsString()) + "," + std::to_string(var(V)) + "," + (V->isStaticLocal() ? "1" : "0") + "]";
        std::vector<std::string> ch;
        if(V->getInit()) ch.push_back(E(V->getInit()));
        std::string s = "[\"Var\"," + std::to_string(lineOf(V->getLocation())) + "," + std::to_string(ty(V->getType())) + "," + d + ",[";
        if(!ch.empty()) s += ch[0];
        return s + "]]";
    }
    std::string refData(const ValueDecl *D)
    {
        if(auto *F = dyn_cast<FunctionDecl>(D)) return "[\"f\"," + std::to_string(fref(F)) + "]";
        if(auto *EC = dyn_cast<EnumConstantDecl>(D))
        {
            llvm::SmallString<32> v; EC->getInitVal().toString(v, 10);
            return "[\"e\"," + q(EC->getNameAsString()) + "," + v.str().str() + "," + q(qn(EC)) + "]";
        }
        const char *k = isa<ParmVarDecl>(D) ? "p" : "v";
        if(auto *V = dyn_cast<VarDecl>(D)) if(V->hasGlobalStorage() && !V->isStaticLocal()) k = "g";
        std::string s = std::string("[\"") + k + "\"," + q(D->getNameAsString()) + "," + std::to_string(var(D));
        if(k[0] == 'g')
        {
            s += "," + q(qn(D));
            // constant-foldable globals carry their value
            if(auto *V = dyn_cast<VarDecl>(D))
            {
                const VarDecl *Def = nullptr;
                const Expr *I = V->getAnyInitializer(Def);
                if(I && Def && !I->isValueDependent() && V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType())
                {
                    Expr::EvalResult R;
                    if(I->EvaluateAsInt(R, C)) { llvm::SmallString<32> v; R.Val.getInt().toString(v, 10); s += "," + v.str().str(); }
                }
            }
        }
        return s + "]";
    }
    std::string E(const Stmt *S0)
    {
        const Stmt *S = S0;
        if(!S) return "null";
        // peel
        for(;;)
        {
            if(auto *P = dyn_cast<ParenExpr>(S)) { S = P->getSubExpr(); continue; }
            if(auto *P = dyn_cast<ExprWithCleanups>(S)) { S = P->getSubExpr(); continue; }
            if(auto *P = dyn_cast<ConstantExpr>(S)) { S = P->getSubExpr(); continue; }
            if(auto *P = dyn_cast<MaterializeTemporaryExpr>(S)) { S = P->getSubExpr(); continue; }
            if(auto *P = dyn_cast<CXXBindTemporaryExpr>(S)) { S = P->getSubExpr(); continue; }
            if(auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) { S = P->getReplacement(); continue; }
            if(auto *P = dyn_cast<CXXDefaultInitExpr>(S)) { S = P->getExpr(); continue; }
            if(auto *P = dyn_cast<CXXStdInitializerListExpr>(S)) { S = P->getSubExpr(); continue; }
            if(auto *P = dyn_cast<OpaqueValueExpr>(S)) { if(P->getSourceExpr()) { S = P->getSourceExpr(); continue; } }
            if(auto *P = dyn_cast<CXXRewrittenBinaryOperator>(S)) { S = P->getSemanticForm(); continue; }
            if(auto *P = dyn_cast<AttributedStmt>(S)) { S = P->getSubStmt(); continue; }
            if(auto *P = dyn_cast<LabelStmt>(S)) { S = P->getSubStmt(); continue; }
            if(auto *P = dyn_cast<ImplicitCastExpr>(S))
            {
                switch(P->getCastKind())
                {
                case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
                case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_DerivedToBase:
                case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr: case CK_LValueBitCast: case CK_ToVoid:
                    S = P->getSubExpr(); continue;
                default: break;
                }
            }
            else if(auto *P = dyn_cast<ExplicitCastExpr>(S))
            {
                switch(P->getCastKind())
                {
                case CK_UserDefinedConversion: case CK_ConstructorConversion: S = P->getSubExpr(); continue;
                default: break;
                }
            }
            break;
        }
        int t = -1;
        if(auto *X = dyn_cast<Expr>(S)) t = ty(X->getType());
        std::vector<std::string> ch;
        auto kids = [&](const Stmt *P) { for(auto *c : P->children()) ch.push_back(E(c)); };

        if(auto *X = dyn_cast<CompoundStmt>(S)) { kids(X); return N("Block", S, t, "null", ch); }
        if(auto *X = dyn_cast<DeclStmt>(S))
        {
            for(auto *D : X->decls()) if(auto *V = dyn_cast<VarDecl>(D)) ch.push_back(varDecl(V));
            return N("Decl", S, t, "null", ch);
        }
        if(auto *X = dyn_cast<IfStmt>(S))
        {
            ch.push_back(X->getInit() ? E(X->getInit()) : "null");
            if(X->getConditionVariable()) ch.push_back(varDecl(X->getConditionVariable())); else ch.push_back(E(X->getCond()));
            ch.push_back(E(X->getThen())); ch.push_back(X->getElse() ? E(X->getElse()) : "null");
            return N("If", S, t, "null", ch);
        }
        if(auto *X = dyn_cast<WhileStmt>(S)) { ch = { X->getConditionVariable() ? varDecl(X->getConditionVariable()) : E(X->getCond()), E(X->getBody()) }; return N("While", S, t, "null", ch); }
        if(auto *X = dyn_cast<DoStmt>(S)) { ch = { E(X->getBody()), E(X->getCond()) }; return N("Do", S, t, "null", ch); }
        if(auto *X = dyn_cast<ForStmt>(S)) { ch = { E(X->getInit()), E(X->getCond()), E(X->getInc()), E(X->getBody()) }; return N("For", S, t, "null", ch); }
        if(auto *X = dyn_cast<CXXForRangeStmt>(S))
        {
            ch = { E(X->getRangeInit()), varDecl(X->getLoopVariable()), E(X->getBody()) };
            return N("RangeFor", S, t, "null", ch);
        }
        if(auto *X = dyn_cast<SwitchStmt>(S)) { ch = { E(X->getCond()), E(X->getBody()) }; return N("Switch", S, t, "null", ch); }
        if(auto *X = dyn_cast<CaseStmt>(S))
        {
            Expr::EvalResult R; std::string v = "null";
            if(!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); v = b.str().str(); }
            ch = { E(X->getLHS()), E(X->getSubStmt()) };
            return N("Case", S, t, v, ch);
        }
        if(auto *X = dyn_cast<DefaultStmt>(S)) { ch = { E(X->getSubStmt()) }; return N("Default", S, t, "null", ch); }
        if(isa<BreakStmt>(S)) return N("Break", S, t, "null", ch);
        if(isa<ContinueStmt>(S)) return N("Continue", S, t, "null", ch);
        if(isa<NullStmt>(S)) return N("Null", S, t, "null", ch);
        if(auto *X = dyn_cast<ReturnStmt>(S)) { if(X->getRetValue()) ch.push_back(E(X->getRetValue())); return N("Return", S, t, "null", ch); }
        if(auto *X = dyn_cast<CXXTryStmt>(S))
        {
            ch.push_back(E(X->getTryBlock()));
            for(unsigned i = 0; i < X->getNumHandlers(); i++)
            {
                auto *H = X->getHandler(i);
                std::vector<std::string> hc; hc.push_back(E(H->getHandlerBlock()));
                std::string d = "null";
                if(H->getExceptionDecl()) d = "[" + q(H->getExceptionDecl()->getNameAsString()) + "," + std::to_string(var(H->getExceptionDecl())) + "]";
                ch.push_back(N("Catch", H, H->getExceptionDecl() ? ty(H->getCaughtType()) : -1, d, hc));
            }
            return N("Try", S, t, "null", ch);
        }
        if(auto *X = dyn_cast<CXXThrowExpr>(S)) { if(X->getSubExpr()) ch.push_back(E(X->getSubExpr())); return N("Throw", S, t, "null", ch); }

        // expressions
        if(auto *X = dyn_cast<CXXDefaultArgExpr>(S)) { ch.push_back(E(X->getExpr())); return N("DefArg", S, t, "null", ch); }
        if(auto *X = dyn_cast<DeclRefExpr>(S)) return N("Ref", S, t, refData(X->getDecl()), ch);
        if(auto *X = dyn_cast<MemberExpr>(S))
        {
            auto *D = X->getMemberDecl();
            std::string d;
            if(auto *F = dyn_cast<FunctionDecl>(D)) d = "[\"f\"," + std::to_string(fref(F)) + "]";
            else if(auto *FD = dyn_cast<FieldDecl>(D)) d = "[\"m\"," + q(D->getNameAsString()) + "," + q(qn(FD)) + "]";
            else d = refData(D);
            ch.push_back(E(X->getBase()));
            return N("Member", S, t, d, ch);
        }
        if(auto *X = dyn_cast<CXXMemberCallExpr>(S))
        {
            const CXXMethodDecl *M = X->getMethodDecl();
            const Expr *O = X->getImplicitObjectArgument();
            std::string d = M ? "[" + std::to_string(fref(M)) + "]" : "[-1]";
            if(M && O) ch.push_back(E(O)); else { ch.push_back(E(X->getCallee())); }
            for(auto *a : X->arguments()) ch.push_back(E(a));
            return N("MCall", S, t, d, ch);
        }
        if(auto *X = dyn_cast<CXXOperatorCallExpr>(S))
        {
            const FunctionDecl *F = X->getDirectCallee();
            std::string d = "[" + std::to_string(F ? fref(F) : -1) + "," + q(getOperatorSpelling(X->getOperator())) + "," + (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() ? "1" : "0") + "]";
            for(auto *a : X->arguments()) ch.push_back(E(a));
            return N("OpCall", S, t, d, ch);
        }
        if(auto *X = dyn_cast<CallExpr>(S))
        {
            const FunctionDecl *F = X->getDirectCallee();
            std::string d = "[" + std::to_string(F ? fref(F) : -1) + "]";
            if(!F) ch.push_back(E(X->getCallee()));
            for(auto *a : X->arguments()) ch.push_back(E(a));
            return N(F ? "Call" : "ICall", S, t, d, ch);
        }
        if(auto *X = dyn_cast<CXXConstructExpr>(S))
        {
            std::string d = "[" + std::to_string(fref(X->getConstructor())) + "," + (X->isElidable() ? "1" : "0") + "]";
            for(auto *a : X->arguments()) ch.push_back(E(a));
            return N("Construct", S, t, d, ch);
        }
        if(auto *X = dyn_cast<CXXNewExpr>(S))
        {
            std::string d = "[" + std::to_string(ty(X->getAllocatedType())) + "," + (X->isArray() ? "1" : "0") + "]";
            for(unsigned i = 0; i < X->getNumPlacementArgs(); i++) ch.push_back(E(X->getPlacementArg(i)));
            if(X->isArray() && X->getArraySize()) ch.push_back(E(*X->getArraySize()));
            if(X->getInitializer()) ch.push_back(E(X->getInitializer()));
            return N("New", S, t, d, ch);
        }
        if(auto *X = dyn_cast<CXXDeleteExpr>(S)) { ch.push_back(E(X->getArgument())); return N("Delete", S, t, X->isArrayForm() ? "1" : "0", ch); }
        if(auto *X = dyn_cast<BinaryOperator>(S))
        {
            ch = { E(X->getLHS()), E(X->getRHS()) };
            return N(X->isCompoundAssignmentOp() ? "OpAssign" : X->isAssignmentOp() ? "Assign" : "Bin", S, t, q(X->getOpcodeStr()), ch);
        }
        if(auto *X = dyn_cast<UnaryOperator>(S))
        {
            ch = { E(X->getSubExpr()) };
            std::string o = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
            if(X->isPostfix()) o = "p" + o;
            return N("Un", S, t, q(o), ch);
        }
        if(auto *X = dyn_cast<ConditionalOperator>(S)) { ch = { E(X->getCond()), E(X->getTrueExpr()), E(X->getFalseExpr()) }; return N("Cond", S, t, "null", ch); }
        if(auto *X = dyn_cast<BinaryConditionalOperator>(S)) { ch = { E(X->getCommon()), E(X->getCommon()), E(X->getFalseExpr()) }; return N("Cond", S, t, "null", ch); }
        if(auto *X = dyn_cast<ArraySubscriptExpr>(S)) { ch = { E(X->getBase()), E(X->getIdx()) }; return N("Index", S, t, "null", ch); }
        if(auto *X = dyn_cast<CastExpr>(S))
        {
            ch = { E(X->getSubExpr()) };
            std::string d = "[" + q(X->getCastKindName()) + "," + (isa<ImplicitCastExpr>(X) ? "0" : "1") + "," + q(X->getStmtClassName()) + "]";
            return N("Cast", S, t, d, ch);
        }
        if(auto *X = dyn_cast<IntegerLiteral>(S)) { llvm::SmallString<32> v; X->getValue().toString(v, 10, X->getType()->isSignedIntegerType()); return N("Int", S, t, v.str().str(), ch); }
        if(auto *X = dyn_cast<CharacterLiteral>(S)) return N("Int", S, t, std::to_string(X->getValue()), ch);
        if(auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) return N("Bool", S, t, X->getValue() ? "true" : "false", ch);
        if(auto *X = dyn_cast<FloatingLiteral>(S)) { llvm::SmallString<32> v; X->getValue().toString(v); return N("Float", S, t, q(v), ch); }
        if(auto *X = dyn_cast<StringLiteral>(S)) return N("Str", S, t, q(X->getBytes()), ch);
        if(isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) return N("Nullptr", S, t, "null", ch);
        if(isa<CXXThisExpr>(S)) return N("This", S, t, "null", ch);
        if(auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S))
        {
            Expr::EvalResult R; std::string v = "null";
            if(!X->isValueDependent() && X->EvaluateAsInt(R, C)) { llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); v = b.str().str(); }
            return N("Sizeof", S, t, "[" + v + "," + std::to_string(ty(X->getTypeOfArgument())) + "]", ch);
        }
        if(auto *X = dyn_cast<LambdaExpr>(S))
        {
            std::string d = "[" + std::to_string(fref(X->getCallOperator())) + ",[";
            for(unsigned k = 0; k < X->getCallOperator()->getNumParams(); k++)
            {
                auto *P = X->getCallOperator()->getParamDecl(k);
                d += std::string(k ? "," : "") + "[" + q(P->getNameAsString()) + "," + std::to_string(var(P)) + "," + std::to_string(ty(P->getType())) + "]";
            }
            d += "]]";
            if(X->getCallOperator()->hasBody()) ch.push_back(E(X->getBody()));
            return N("Lambda", S, t, d, ch);
        }
        if(auto *X = dyn_cast<InitListExpr>(S))
        {
            const InitListExpr *SF = X->isSemanticForm() ? X : X->getSemanticForm();
            if(SF) X = SF;
            for(auto *i : X->inits()) ch.push_back(E(i));
            return N("InitList", S, t, "null", ch);
        }
        if(auto *X = dyn_cast<CXXTemporaryObjectExpr>(S)) { kids(X); return N("Construct", S, t, "[-1,0]", ch); }
        if(isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) return N("ZeroInit", S, t, "null", ch);
        if(auto *X = dyn_cast<CXXInheritedCtorInitExpr>(S)) { (void)X; return N("Other", S, t, q("inhctor"), ch); }
        kids(S);
        return N("Other", S, t, q(S->getStmtClassName()), ch);
    }

    void emitFunc(FunctionDecl *F)
    {
        if(F->isDependentContext() || F->isTemplated()) return;
        if(!F->doesThisDeclarationHaveABody()) 
        {
            if(!F->isImplicit() && wanted(F->getLocation())) { if(done.insert(F).second) decls.push_back(std::to_string(fref(F))); }
            return;
        }
        if(!wanted(F->getLocation())) return;
        if(!done.insert(F).second) return;
        if(auto *M = dyn_cast<CXXMethodDecl>(F)) if(M->getParent()->isLambda()) return;
        int fi = fref(F);
        std::string s = "{\"f\":" + std::to_string(fi) + ",\"file\":" + std::to_string(fileIdx(fileOf(F->getBody()->getBeginLoc()))) +
            ",\"line\":" + std::to_string(lineOf(F->getLocation())) + ",\"end\":" + std::to_string(lineOf(F->getBody()->getEndLoc())) + ",\"params\":[";
        for(unsigned k = 0; k < F->getNumParams(); k++)
        {
            if(k) s += ",";
            auto *P = F->getParamDecl(k);
            s += "[" + q(P->getNameAsString()) + "," + std::to_string(var(P)) + "," + std::to_string(ty(P->getType())) + "]";
        }
        s += "]";
        if(F->isDefaulted()) s += ",\"defaulted\":1";
        if(F->isTemplateInstantiation()) s += ",\"inst\":1";
        if(F->getAccess() == AS_private || F->getAccess() == AS_protected) s += ",\"private\":1";
        if(F->getFormalLinkage() != Linkage::External) s += ",\"internal\":1";
        if(auto *K = dyn_cast<CXXConstructorDecl>(F))
        {
            s += ",\"inits\":[";
            bool first = true;
            for(auto *I : K->inits())
            {
                if(!first) s += ","; first = false;
                std::string nm = I->isAnyMemberInitializer() ? I->getAnyMember()->getNameAsString() : I->isBaseInitializer() ? "<base>" : "<delegate>";
                s += "[" + q(nm) + "," + (I->isWritten() ? "1" : "0") + "," + E(I->getInit()) + "]";
            }
            s += "]";
        }
        s += ",\"body\":" + E(F->getBody()) + "}";
        bodies.push_back(s);
    }
    bool VisitFunctionDecl(FunctionDecl *F) { emitFunc(F); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *R)
    {
        if(!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || R->isImplicit()) return true;
        if(!wanted(R->getLocation())) return true;
        std::string s = "{\"qn\":" + q(C.getTypeDeclType(R).getCanonicalType().getAsString(PP)) + ",\"file\":" + std::to_string(fileIdx(fileOf(R->getLocation()))) + ",\"line\":" + std::to_string(lineOf(R->getLocation())) + ",\"fields\":[";
        bool first = true;
        for(auto *F : R->fields())
        {
            if(!first) s += ","; first = false;
            s += "[" + q(F->getNameAsString()) + "," + std::to_string(ty(F->getType())) + "," + std::to_string(lineOf(F->getLocation())) + "," + (F->hasInClassInitializer() ? "1" : "0") + "]";
        }
        s += "],\"bases\":[";
        first = true;
        for(auto &B : R->bases()) { if(!first) s += ","; first = false; s += std::to_string(ty(B.getType())); }
        s += "],\"methods\":[";
        first = true;
        for(auto *M : R->methods()) { if(M->isImplicit()) continue; if(!first) s += ","; first = false; s += "[" + std::to_string(fref(M)) + "," + std::to_string((int)M->getAccess()) + "]"; }
        s += "]}";
        records.push_back(s);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *D)
    {
        if(!D->isThisDeclarationADefinition() || !wanted(D->getLocation()) || D->isDependentContext()) return true;
        std::string s = "{\"qn\":" + q(qn(D)) + ",\"consts\":[";
        bool first = true;
        for(auto *c : D->enumerators()) { if(!first) s += ","; first = false; llvm::SmallString<32> v; c->getInitVal().toString(v, 10); s += "[" + q(c->getNameAsString()) + "," + v.str().str() + "]"; }
        s += "]}";
        enums.push_back(s);
        return true;
    }
    bool VisitVarDecl(VarDecl *V)
    {
        if(isa<ParmVarDecl>(V) || V->isLocalVarDecl() || !V->hasGlobalStorage()) return true;
        if(V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
        if(!wanted(V->getLocation())) return true;
        if(!V->getInit() || V->getInit()->isValueDependent()) return true;
        std::string s = "{\"qn\":" + q(qn(V)) + ",\"file\":" + std::to_string(fileIdx(fileOf(V->getLocation()))) + ",\"line\":" + std::to_string(lineOf(V->getLocation())) + ",\"ty\":" + std::to_string(ty(V->getType())) + ",\"init\":" + E(V->getInit()) + "}";
        globals.push_back(s);
        return true;
    }
    static void list(llvm::raw_ostream &o, const char *k, const std::vector<std::string> &v, bool quote = false)
    {
        o << "\"" << k << "\":[";
        for(size_t i = 0; i < v.size(); i++) { if(i) o << ",\n"; if(quote) o << q(v[i]); else o << v[i]; }
        o << "]";
    }
    void write()
    {
        std::error_code ec; llvm::raw_fd_ostream o(OutFile, ec);
        o << "{"; list(o, "types", typeList, true); o << ",\n"; list(o, "files", fileList, true); o << ",\n"; list(o, "funcs", funcList); o << ",\n";
        list(o, "records", records); o << ",\n"; list(o, "enums", enums); o << ",\n"; list(o, "globals", globals); o << ",\n"; list(o, "decls", decls); o << ",\n"; list(o, "bodies", bodies); o << "}\n";
    }
};

class Consumer : public ASTConsumer
{
    CompilerInstance &CI;
public:
    Consumer(CompilerInstance &c) : CI(c) {}
    void HandleTranslationUnit(ASTContext &Ctx) override
    {
        if(CI.getDiagnostics().hasErrorOccurred()) return;
        Exporter X(Ctx); X.TraverseDecl(Ctx.getTranslationUnitDecl()); X.write();
    }
};
class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, const char **argv)
{
    auto P = CommonOptionsParser::create(argc, argv, Cat, llvm::cl::OneOrMore);
    if(!P) { llvm::errs() << llvm::toString(P.takeError()); return 2; }
    ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(newFrontendActionFactory<Action>().get());
}
