// Cottontail fact extractor: parses one translation unit with Clang and emits,
// as JSON lines, every function defined in the repository as a control-flow
// graph over resolved expression nodes, plus class and enum facts.
// It never runs any code of the analysed program.
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/Expr.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMap.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string g_root = "/repo/";
static llvm::raw_ostream *g_out = nullptr;

namespace {

static void emit(const char *kind, const std::string &key, json::Object o) {
  *g_out << kind << "\t" << key << "\t" << json::Value(std::move(o)) << "\n";
}

class Extractor {
public:
  Extractor(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = false;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    return f.compare(0, g_root.size(), g_root) == 0 &&
           f.find("/external/") == std::string::npos &&
           f.find("/test/") == std::string::npos;
  }
  std::string rel(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.compare(0, g_root.size(), g_root) == 0) f = f.substr(g_root.size());
    return f;
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  std::string typeStr(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }

  std::string funcKey(const FunctionDecl *FD) {
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
      if (MD->getParent()->isLambda()) {
        SourceLocation L = SM.getExpansionLoc(MD->getParent()->getBeginLoc());
        return "lambda@" + rel(L) + ":" + std::to_string(line(L)) + ":" +
               std::to_string(SM.getExpansionColumnNumber(L)) +
               (isa<CXXConversionDecl>(MD) ? "#conv" : "") +
               (MD->getOverloadedOperator() == OO_Call ? "" : "#" + MD->getNameAsString());
      }
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(FD->getCanonicalDecl(), buf))
      return "?" + FD->getQualifiedNameAsString();
    return buf.str().str();
  }
  std::string qname(const NamedDecl *D) { return D->getQualifiedNameAsString(); }

  std::string declKey(const ValueDecl *D) {
    if (auto *VD = dyn_cast<VarDecl>(D))
      if (VD->hasGlobalStorage() && !VD->isStaticLocal())
        return "g:" + qname(VD);
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    std::string sp;
    if (L.isValid())
      sp = std::to_string(line(L)) + ":" + std::to_string(SM.getExpansionColumnNumber(L));
    return D->getNameAsString() + "@" + sp;
  }

  bool inAssert(SourceLocation L) {
    while (L.isMacroID()) {
      StringRef N = Lexer::getImmediateMacroName(L, SM, Ctx.getLangOpts());
      if (N == "assert") return true;
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return false;
  }

  const Expr *strip(const Expr *E) {
    for (;;) {
      if (!E) return E;
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      return E;
    }
  }

  // ---- per function -------------------------------------------------------
  std::unordered_map<const Stmt *, int> ids;
  std::vector<json::Value> nodes;
  std::map<std::string, int> types;
  std::vector<std::string> typeList;
  std::unique_ptr<ParentMap> PM;
  std::unordered_map<const Stmt *, int> tryOf;
  std::map<const Stmt *, int> tryIds;
  std::vector<const LambdaExpr *> lambdas;

  int typeId(QualType T) {
    std::string s = typeStr(T);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int id = typeList.size();
    types[s] = id;
    typeList.push_back(s);
    return id;
  }

  static std::string refMode(QualType T) {
    if (T->isLValueReferenceType())
      return T->getPointeeType().isConstQualified() ? "CREF" : "REF";
    if (T->isRValueReferenceType()) return "RREF";
    return "R";
  }

  // How is the lvalue denoted by E used by its context?
  std::string access(const Expr *E) {
    const Stmt *cur = E;
    for (int guard = 0; guard < 64; guard++) {
      const Stmt *par = PM->getParent(cur);
      if (!par) return "X";
      if (isa<ParenExpr>(par) || isa<FullExpr>(par) || isa<MaterializeTemporaryExpr>(par) ||
          isa<CXXBindTemporaryExpr>(par)) { cur = par; continue; }
      if (auto *IC = dyn_cast<CastExpr>(par)) {
        switch (IC->getCastKind()) {
        case CK_LValueToRValue: return "R";
        case CK_ArrayToPointerDecay: {
          cur = par; // a[i] for arrays: climb
          const Stmt *pp = PM->getParent(par);
          while (pp && isa<ParenExpr>(pp)) { cur = pp; pp = PM->getParent(pp); }
          if (pp && isa<ArraySubscriptExpr>(pp)) { cur = pp; continue; }
          return "DECAY";
        }
        case CK_NoOp: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
        case CK_BaseToDerived: case CK_ConstructorConversion: case CK_UserDefinedConversion:
          cur = par; continue;
        case CK_ToVoid: return "V";
        default: cur = par; continue;
        }
      }
      if (auto *ME = dyn_cast<MemberExpr>(par)) {
        if (auto *MD = dyn_cast<CXXMethodDecl>(ME->getMemberDecl())) {
          if (ME->isArrow()) return "R";
          if (MD->isStatic()) return "R";
          return MD->isConst() ? "CALLC" : "CALLM";
        }
        if (ME->isArrow()) return "R";
        cur = par; continue;
      }
      if (auto *BO = dyn_cast<BinaryOperator>(par)) {
        if (BO->isAssignmentOp() && BO->getLHS() == cur)
          return BO->isCompoundAssignmentOp() ? "RW" : "W";
        if (BO->getOpcode() == BO_Comma) {
          if (BO->getRHS() == cur) { cur = par; continue; }
          return "V";
        }
        return "R";
      }
      if (auto *UO = dyn_cast<UnaryOperator>(par)) {
        if (UO->isIncrementDecrementOp()) return "RW";
        if (UO->getOpcode() == UO_AddrOf) return "ADDR";
        return "R";
      }
      if (auto *CO = dyn_cast<ConditionalOperator>(par)) {
        if (CO->getCond() == cur) return "R";
        cur = par; continue;
      }
      if (auto *CE = dyn_cast<CallExpr>(par)) {
        const FunctionDecl *FD = CE->getDirectCallee();
        if (CE->getCallee() == cur) return "R";
        for (unsigned i = 0; i < CE->getNumArgs(); i++) {
          if (CE->getArg(i) != cur) continue;
          unsigned pi = i;
          if (isa<CXXOperatorCallExpr>(CE) && FD && isa<CXXMethodDecl>(FD) &&
              !cast<CXXMethodDecl>(FD)->isStatic()) {
            if (i == 0) {
              if (cast<CXXMethodDecl>(FD)->isConst()) return "CALLC";
              if (FD->getOverloadedOperator() == OO_Equal) return "W";
              return "CALLM";
            }
            pi = i - 1;
          }
          if (!FD) return "R";
          if (pi >= FD->getNumParams()) return "R";
          return refMode(FD->getParamDecl(pi)->getType());
        }
        return "R";
      }
      if (auto *CC = dyn_cast<CXXConstructExpr>(par)) {
        for (unsigned i = 0; i < CC->getNumArgs(); i++)
          if (CC->getArg(i) == cur && i < CC->getConstructor()->getNumParams())
            return refMode(CC->getConstructor()->getParamDecl(i)->getType());
        return "R";
      }
      if (auto *DS = dyn_cast<DeclStmt>(par)) {
        for (auto *D : DS->decls())
          if (auto *VD = dyn_cast<VarDecl>(D))
            if (VD->getInit() && (VD->getInit() == cur || PM->getParent(VD->getInit()) == DS) ) {
              const Expr *I = VD->getInit();
              if (I == cur || strip(I) == cur || strip(I) == strip(cast<Expr>(cur)))
                return refMode(VD->getType());
            }
        return "R";
      }
      if (isa<ReturnStmt>(par)) return "RET";
      if (isa<ArraySubscriptExpr>(par)) return "R";
      if (isa<LambdaExpr>(par)) return "CAPTURE";
      if (isa<InitListExpr>(par)) return "R";
      if (isa<Expr>(par)) return "R";
      return "V";
    }
    return "X";
  }

  static int calleeLoc(int) { return 0; }

  json::Value idOrNull(const Expr *E) {
    if (!E) return nullptr;
    E = strip(E);
    if (!E) return nullptr;
    return node(E);
  }

  json::Array argIds(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    json::Array a;
    for (const Expr *E : R) a.push_back(idOrNull(E));
    return a;
  }

  int node(const Stmt *S) {
    if (auto *E = dyn_cast<Expr>(S)) S = strip(E);
    auto it = ids.find(S);
    if (it != ids.end()) return it->second;
    int id = nodes.size();
    ids[S] = id;
    nodes.push_back(nullptr);
    json::Object o = build(S);
    o["l"] = (int64_t)line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"] = typeId(E->getType());
      if (E->isGLValue()) o["lv"] = 1;
    }
    if (S->getBeginLoc().isMacroID() && inAssert(S->getBeginLoc())) o["as"] = 1;
    auto tr = tryOf.find(S);
    if (tr != tryOf.end()) o["tr"] = tr->second;
    nodes[id] = json::Value(std::move(o));
    return id;
  }

  json::Array childIds(const Stmt *S) {
    json::Array a;
    for (const Stmt *c : S->children())
      if (c) a.push_back(node(c));
    return a;
  }

  json::Object build(const Stmt *S) {
    json::Object o;
    if (auto *D = dyn_cast<DeclRefExpr>(S)) {
      o["k"] = "ref";
      const ValueDecl *V = D->getDecl();
      o["n"] = V->getNameAsString();
      if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
        o["dk"] = "enum";
        o["d"] = qname(EC);
        o["v"] = EC->getInitVal().getExtValue();
      } else if (auto *FD = dyn_cast<FunctionDecl>(V)) {
        o["dk"] = "func";
        o["d"] = funcKey(FD);
        o["qn"] = qname(FD);
      } else if (auto *VD = dyn_cast<VarDecl>(V)) {
        o["dk"] = isa<ParmVarDecl>(VD) ? "param"
                  : VD->isStaticLocal() ? "slocal"
                  : VD->hasGlobalStorage() ? "global" : "local";
        o["d"] = declKey(VD);
        if (VD->hasGlobalStorage() && VD->getType().isConstQualified()) {
          o["const"] = 1;
          if (VD->getType()->isIntegralOrEnumerationType() && VD->getAnyInitializer() &&
              !VD->getAnyInitializer()->isValueDependent()) {
            Expr::EvalResult R;
            if (VD->getAnyInitializer()->EvaluateAsInt(R, Ctx))
              o["v"] = llvm::toString(R.Val.getInt(), 10);
          }
        }
        if (D->refersToEnclosingVariableOrCapture()) o["cap"] = 1;
        if (VD->getType()->isReferenceType()) o["isref"] = 1;
        o["acc"] = access(D);
      } else {
        o["dk"] = "other";
        o["d"] = declKey(V);
        o["acc"] = access(D);
      }
      return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(S)) {
      if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        o["k"] = "mem";
        o["f"] = qname(FD->getParent()) + "::" + FD->getNameAsString();
        o["b"] = idOrNull(M->getBase());
        if (M->isArrow()) o["ar"] = 1;
        if (FD->getType()->isReferenceType()) o["isref"] = 1;
        o["acc"] = access(M);
      } else if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) {
        o["k"] = "ref";
        o["dk"] = "global";
        o["n"] = VD->getNameAsString();
        o["d"] = declKey(VD);
        o["acc"] = access(M);
      } else {
        o["k"] = "method";
        o["b"] = idOrNull(M->getBase());
        if (auto *MD = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) {
          o["d"] = funcKey(MD);
          o["qn"] = qname(MD);
        }
        if (M->isArrow()) o["ar"] = 1;
      }
      return o;
    }
    if (isa<CXXThisExpr>(S)) { o["k"] = "this"; return o; }
    if (auto *C = dyn_cast<CallExpr>(S)) {
      o["k"] = "call";
      const FunctionDecl *FD = C->getDirectCallee();
      if (FD) {
        o["c"] = funcKey(FD);
        o["cn"] = qname(FD);
        if (FD->isNoReturn()) o["noret"] = 1;
        json::Array pm;
        for (auto *P : FD->parameters()) pm.push_back(refMode(P->getType()));
        o["pm"] = std::move(pm);
        if (FD->isVariadic()) o["variadic"] = 1;
      } else {
        o["c"] = nullptr;
        o["fe"] = idOrNull(C->getCallee());
      }
      if (auto *MC = dyn_cast<CXXMemberCallExpr>(C)) {
        if (const Expr *R = MC->getImplicitObjectArgument()) {
          o["recv"] = idOrNull(R);
          if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
            if (ME->isArrow()) o["ar"] = 1;
            if (auto *MD = dyn_cast<CXXMethodDecl>(ME->getMemberDecl())) {
              if (MD->isVirtual() && !ME->hasQualifier()) o["virt"] = 1;
              if (MD->isConst()) o["cm"] = 1;
            }
          }
        }
        o["args"] = argIds(C->arguments());
      } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(C)) {
        o["op"] = getOperatorSpelling(OC->getOperator());
        auto *MD = FD ? dyn_cast<CXXMethodDecl>(FD) : nullptr;
        json::Array a;
        unsigned i = 0;
        if (MD && !MD->isStatic()) {
          o["recv"] = idOrNull(OC->getArg(0));
          if (MD->isConst()) o["cm"] = 1;
          i = 1;
        }
        for (; i < OC->getNumArgs(); i++) a.push_back(idOrNull(OC->getArg(i)));
        o["args"] = std::move(a);
      } else {
        o["args"] = argIds(C->arguments());
      }
      return o;
    }
    if (auto *C = dyn_cast<CXXConstructExpr>(S)) {
      o["k"] = "ctor";
      o["c"] = funcKey(C->getConstructor());
      o["cn"] = qname(C->getConstructor()->getParent());
      json::Array a, pm;
      for (auto *E : C->arguments()) a.push_back(idOrNull(E));
      for (auto *P : C->getConstructor()->parameters()) pm.push_back(refMode(P->getType()));
      o["args"] = std::move(a);
      o["pm"] = std::move(pm);
      if (C->getConstructor()->isCopyConstructor()) o["cp"] = "copy";
      else if (C->getConstructor()->isMoveConstructor()) o["cp"] = "move";
      else if (C->getConstructor()->isDefaultConstructor()) o["cp"] = "default";
      return o;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(S)) {
      o["k"] = "new";
      o["nt"] = typeId(N->getAllocatedType());
      if (N->isArray()) {
        o["arr"] = 1;
        if (N->getArraySize()) o["size"] = idOrNull(*N->getArraySize());
      }
      if (N->getNumPlacementArgs() > 0) {
        json::Array a;
        for (auto *E : N->placement_arguments()) a.push_back(idOrNull(E));
        o["pl"] = std::move(a);
      }
      if (N->getInitializer()) o["init"] = idOrNull(N->getInitializer());
      return o;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(S)) {
      o["k"] = "del";
      if (D->isArrayForm()) o["arr"] = 1;
      o["e"] = idOrNull(D->getArgument());
      return o;
    }
    if (auto *B = dyn_cast<BinaryOperator>(S)) {
      o["k"] = "bin";
      o["op"] = B->getOpcodeStr().str();
      o["a"] = idOrNull(B->getLHS());
      o["b"] = idOrNull(B->getRHS());
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(S)) {
      o["k"] = "un";
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) op = "post" + op;
      o["op"] = op;
      o["e"] = idOrNull(U->getSubExpr());
      if (U->getOpcode() == UO_Deref) o["acc"] = access(U);
      return o;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(S)) {
      o["k"] = "idx";
      o["b"] = idOrNull(A->getBase());
      o["i"] = idOrNull(A->getIdx());
      o["acc"] = access(A);
      return o;
    }
    if (auto *C = dyn_cast<AbstractConditionalOperator>(S)) {
      o["k"] = "cond";
      o["c"] = idOrNull(C->getCond());
      o["a"] = idOrNull(C->getTrueExpr());
      o["b"] = idOrNull(C->getFalseExpr());
      return o;
    }
    if (auto *L = dyn_cast<IntegerLiteral>(S)) {
      o["k"] = "lit"; o["lk"] = "int"; o["v"] = llvm::toString(L->getValue(), 10, true); return o;
    }
    if (auto *L = dyn_cast<CharacterLiteral>(S)) {
      o["k"] = "lit"; o["lk"] = "char"; o["v"] = std::to_string(L->getValue()); return o;
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o["k"] = "lit"; o["lk"] = "bool"; o["v"] = L->getValue() ? "1" : "0"; return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      o["k"] = "lit"; o["lk"] = "null"; o["v"] = "0"; return o;
    }
    if (auto *L = dyn_cast<StringLiteral>(S)) {
      o["k"] = "lit"; o["lk"] = "str";
      std::string s = L->getCharByteWidth() == 1 ? L->getString().str() : "";
      if (!json::isUTF8(s)) s = json::fixUTF8(s);
      o["v"] = s; return o;
    }
    if (auto *L = dyn_cast<FloatingLiteral>(S)) {
      o["k"] = "lit"; o["lk"] = "float"; o["v"] = std::to_string(L->getValueAsApproximateDouble()); return o;
    }
    if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) {
      o["k"] = "lit"; o["lk"] = "zero"; o["v"] = "0"; return o;
    }
    if (auto *C = dyn_cast<ExplicitCastExpr>(S)) {
      o["k"] = "cast";
      o["ck"] = isa<CXXStaticCastExpr>(C) ? "static" : isa<CXXDynamicCastExpr>(C) ? "dynamic"
                : isa<CXXReinterpretCastExpr>(C) ? "reinterpret" : isa<CXXConstCastExpr>(C) ? "const"
                : isa<CXXFunctionalCastExpr>(C) ? "func" : "c";
      o["kind"] = C->getCastKindName();
      o["e"] = idOrNull(C->getSubExpr());
      return o;
    }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      o["k"] = "sizeof";
      Expr::EvalResult R;
      if (!U->isValueDependent() && U->EvaluateAsInt(R, Ctx))
        o["v"] = llvm::toString(R.Val.getInt(), 10);
      if (U->isArgumentType()) o["of"] = typeStr(U->getArgumentType());
      else { o["of"] = typeStr(U->getArgumentExpr()->getType()); }
      return o;
    }
    if (auto *L = dyn_cast<LambdaExpr>(S)) {
      o["k"] = "lambda";
      o["fn"] = funcKey(L->getCallOperator());
      json::Array caps;
      auto ii = L->capture_init_begin();
      for (auto &c : L->captures()) {
        json::Object co;
        if (c.capturesVariable()) {
          co["d"] = declKey(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["t"] = typeId(c.getCapturedVar()->getType());
          co["ref"] = c.getCaptureKind() == LCK_ByRef ? 1 : 0;
          if (auto *VD = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (VD->isInitCapture() && VD->getInit()) co["init"] = idOrNull(VD->getInit());
        } else if (c.capturesThis()) {
          co["d"] = "this";
          co["ref"] = c.getCaptureKind() == LCK_StarThis ? 0 : 1;
        }
        if (ii != L->capture_init_end()) ++ii;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      lambdas.push_back(L);
      return o;
    }
    if (auto *I = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *Sem = I->isSemanticForm() ? I : I->getSemanticForm();
      if (!Sem) Sem = I;
      o["k"] = "init";
      json::Array a;
      for (auto *E : Sem->inits()) a.push_back(idOrNull(E));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "ret";
      if (R->getRetValue()) o["e"] = idOrNull(R->getRetValue());
      return o;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl";
      json::Array vs;
      for (auto *d : D->decls())
        if (auto *VD = dyn_cast<VarDecl>(d)) {
          json::Object v;
          v["d"] = declKey(VD);
          v["n"] = VD->getNameAsString();
          v["t"] = typeId(VD->getType());
          if (VD->getType()->isReferenceType()) v["isref"] = 1;
          if (VD->isStaticLocal()) v["static"] = 1;
          if (VD->getInit()) v["init"] = idOrNull(VD->getInit());
          if (auto *DD = dyn_cast<DecompositionDecl>(VD)) {
            json::Array bs;
            for (auto *B : DD->bindings()) bs.push_back(declKey(B));
            v["bind"] = std::move(bs);
          }
          vs.push_back(std::move(v));
        }
      o["vars"] = std::move(vs);
      return o;
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(S)) {
      o["k"] = "throw";
      if (T->getSubExpr()) o["e"] = idOrNull(T->getSubExpr());
      return o;
    }
    if (auto *T = dyn_cast<ArrayInitLoopExpr>(S)) {
      o["k"] = "other"; o["cls"] = "ArrayInitLoopExpr"; return o;
    }
    o["k"] = "other";
    o["cls"] = S->getStmtClassName();
    o["ch"] = childIds(S);
    return o;
  }

  void collectTry(const Stmt *S, int cur) {
    if (!S) return;
    if (cur >= 0) tryOf[S] = cur;
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      int id = tryIds.size();
      tryIds[T] = id;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) tryIds[T->getHandler(i)] = id;
      collectTry(T->getTryBlock(), id);
      for (unsigned i = 0; i < T->getNumHandlers(); i++)
        collectTry(T->getHandler(i)->getHandlerBlock(), cur);
      return;
    }
    if (isa<LambdaExpr>(S)) return;
    for (const Stmt *c : S->children()) collectTry(c, cur);
  }

  std::set<std::string> done;

  void emitFunction(const FunctionDecl *FD, const std::string &parent) {
    if (!FD->doesThisDeclarationHaveABody() && !isa<CXXConstructorDecl>(FD)) return;
    if (!FD->hasBody() || FD->isDependentContext()) return;
    const Stmt *Body = FD->getBody();
    if (!Body) return;
    std::string key = funcKey(FD);
    if (!done.insert(key).second) return;
    ids.clear(); nodes.clear(); types.clear(); typeList.clear();
    tryOf.clear(); tryIds.clear(); lambdas.clear();
    PM = std::make_unique<ParentMap>(const_cast<Stmt *>(Body));
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD))
      for (auto *I : CD->inits())
        if (I->getInit()) PM->addStmt(I->getInit());
    collectTry(Body, -1);

    json::Object f;
    f["kind"] = "function";
    f["key"] = key;
    f["qn"] = qname(FD);
    f["name"] = FD->getNameAsString();
    f["file"] = rel(FD->getLocation());
    f["line"] = (int64_t)line(FD->getLocation());
    f["endline"] = (int64_t)line(FD->getEndLoc());
    f["ret"] = typeId(FD->getReturnType());
    if (!parent.empty()) f["parent"] = parent;
    if (FD->isStatic()) f["static"] = 1;
    if (FD->getStorageClass() == SC_Static) f["filestatic"] = 1;
    if (FD->isInAnonymousNamespace()) f["anon"] = 1;
    json::Array ps;
    for (auto *P : FD->parameters()) {
      json::Object p;
      p["d"] = declKey(P); p["n"] = P->getNameAsString(); p["t"] = typeId(P->getType());
      p["m"] = refMode(P->getType());
      if (P->hasDefaultArg()) p["def"] = 1;
      ps.push_back(std::move(p));
    }
    f["params"] = std::move(ps);
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      f["cls"] = qname(MD->getParent());
      if (MD->isVirtual()) f["virtual"] = 1;
      if (MD->isConst()) f["const"] = 1;
      if (MD->isStatic()) f["smethod"] = 1;
      f["access"] = MD->getAccess() == AS_public ? "public" : MD->getAccess() == AS_protected ? "protected" : "private";
      json::Array ov;
      for (auto *O : MD->overridden_methods()) ov.push_back(funcKey(O));
      f["overrides"] = std::move(ov);
      if (isa<CXXConstructorDecl>(MD)) f["ctor"] = 1;
      if (isa<CXXDestructorDecl>(MD)) f["dtor"] = 1;
      if (MD->getParent()->isLambda()) f["lambda"] = 1;
    }

    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddImplicitDtors = true;
    BO.AddInitializers = true;
    BO.PruneTriviallyFalseEdges = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, const_cast<Stmt *>(Body), &Ctx, BO);
    if (!G) {
      f["nocfg"] = 1;
    } else {
      json::Array blocks;
      for (const CFGBlock *B : *G) {
        json::Object b;
        b["id"] = (int64_t)B->getBlockID();
        json::Array el;
        for (const CFGElement &E : *B) {
          if (auto SE = E.getAs<CFGStmt>()) {
            const Stmt *S = SE->getStmt();
            if (auto *X = dyn_cast<Expr>(S)) {
              if (strip(X) != X) continue;
              if (auto *DR = dyn_cast<DeclRefExpr>(X))
                if (isa<FunctionDecl>(DR->getDecl())) continue;
              if (auto *ME = dyn_cast<MemberExpr>(X))
                if (isa<CXXMethodDecl>(ME->getMemberDecl())) continue;
            }
            el.push_back(node(S));
          } else if (auto D = E.getAs<CFGAutomaticObjDtor>()) {
            json::Object o;
            o["dt"] = declKey(D->getVarDecl());
            o["t"] = typeId(D->getVarDecl()->getType());
            const SourceLocation L = D->getTriggerStmt() ? D->getTriggerStmt()->getEndLoc() : FD->getEndLoc();
            o["l"] = (int64_t)line(L);
            el.push_back(std::move(o));
          } else if (auto I = E.getAs<CFGInitializer>()) {
            const CXXCtorInitializer *CI = I->getInitializer();
            json::Object o;
            if (CI->isAnyMemberInitializer())
              o["init"] = qname(CI->getAnyMember()->getParent()) + "::" + CI->getAnyMember()->getNameAsString();
            else if (CI->isBaseInitializer())
              o["initbase"] = typeStr(QualType(CI->getBaseClass(), 0));
            else if (CI->isDelegatingInitializer())
              o["deleg"] = 1;
            if (CI->getInit()) o["e"] = idOrNull(CI->getInit());
            if (CI->isWritten()) o["written"] = 1;
            o["l"] = (int64_t)line(CI->getSourceLocation().isValid() ? CI->getSourceLocation() : FD->getLocation());
            el.push_back(std::move(o));
          }
        }
        b["e"] = std::move(el);
        if (const Stmt *T = B->getTerminatorStmt()) {
          json::Object t;
          t["k"] = T->getStmtClassName();
          if (auto *BOp = dyn_cast<BinaryOperator>(T)) { t["k"] = BOp->getOpcodeStr().str(); t["n"] = node(BOp); }
          if (isa<AbstractConditionalOperator>(T)) t["n"] = node(T);
          if (const Expr *C = B->getLastCondition()) t["c"] = idOrNull(C);
          else if (const Stmt *TC = B->getTerminatorCondition()) t["c"] = node(TC);
          t["l"] = (int64_t)line(T->getBeginLoc());
          if (T->getBeginLoc().isMacroID() && inAssert(T->getBeginLoc())) t["as"] = 1;
          b["t"] = std::move(t);
        }
        if (const Stmt *L = B->getLabel()) {
          json::Object lo;
          lo["k"] = L->getStmtClassName();
          if (auto *CS = dyn_cast<CaseStmt>(L)) {
            json::Array vals;
            // consecutive case labels share the block through sub-statements
            Expr::EvalResult R;
            if (!CS->getLHS()->isValueDependent() && CS->getLHS()->EvaluateAsInt(R, Ctx))
              vals.push_back(llvm::toString(R.Val.getInt(), 10));
            lo["v"] = std::move(vals);
          }
          auto it = tryIds.find(L);
          if (it != tryIds.end()) lo["try"] = it->second;
          b["lab"] = std::move(lo);
        }
        json::Array su;
        for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
          if (const CFGBlock *T = I->getReachableBlock()) su.push_back((int64_t)T->getBlockID());
          else su.push_back(nullptr);
        }
        b["s"] = std::move(su);
        if (B->hasNoReturnElement()) b["noret"] = 1;
        blocks.push_back(std::move(b));
      }
      f["entry"] = (int64_t)G->getEntry().getBlockID();
      f["exit"] = (int64_t)G->getExit().getBlockID();
      f["blocks"] = std::move(blocks);
    }
    json::Array ns;
    for (auto &n : nodes) ns.push_back(std::move(n));
    f["nodes"] = std::move(ns);
    json::Array ts;
    for (auto &t : typeList) ts.push_back(t);
    f["types"] = std::move(ts);
    emit("F", key, std::move(f));
    auto todo = lambdas;
    for (const LambdaExpr *L : todo)
      emitFunction(L->getCallOperator(), key);
  }

  void emitRecord(const CXXRecordDecl *RD) {
    if (!RD->isThisDeclarationADefinition() || RD->isDependentContext() || RD->isLambda()) return;
    json::Object o;
    o["kind"] = "record";
    o["qn"] = qname(RD);
    o["file"] = rel(RD->getLocation());
    o["line"] = (int64_t)line(RD->getLocation());
    json::Array bases;
    for (auto &B : RD->bases()) bases.push_back(typeStr(B.getType()));
    o["bases"] = std::move(bases);
    json::Array fs;
    for (auto *F : RD->fields()) {
      json::Object fo;
      fo["n"] = F->getNameAsString();
      fo["f"] = qname(RD) + "::" + F->getNameAsString();
      fo["t"] = typeStr(F->getType());
      fo["line"] = (int64_t)line(F->getLocation());
      fo["init"] = F->hasInClassInitializer() ? 1 : 0;
      QualType T = F->getType();
      const Type *E = T->getBaseElementTypeUnsafe();
      fo["scalar"] = (E->isScalarType() && !T->isReferenceType()) ? 1 : 0;
      if (T->isArrayType()) fo["array"] = 1;
      fo["access"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
      if (F->isMutable()) fo["mutable"] = 1;
      if (T.isConstQualified()) fo["const"] = 1;
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array sm;
    for (auto *D : RD->decls())
      if (auto *VD = dyn_cast<VarDecl>(D)) sm.push_back(VD->getNameAsString());
    o["statics"] = std::move(sm);
    json::Array ms;
    for (auto *M : RD->methods()) {
      json::Object mo;
      mo["key"] = funcKey(M);
      mo["n"] = M->getNameAsString();
      mo["qn"] = qname(M);
      if (M->isVirtual()) mo["virtual"] = 1;
      if (M->isPureVirtual()) mo["pure"] = 1;
      if (M->isDeleted()) mo["deleted"] = 1;
      if (M->isStatic()) mo["static"] = 1;
      if (M->isImplicit()) mo["implicit"] = 1;
      if (M->isDefaulted()) mo["defaulted"] = 1;
      if (isa<CXXConstructorDecl>(M)) mo["ctor"] = 1;
      if (isa<CXXDestructorDecl>(M)) mo["dtor"] = 1;
      mo["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      json::Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(funcKey(O));
      mo["overrides"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    if (RD->isPolymorphic()) o["poly"] = 1;
    if (RD->isAbstract()) o["abstract"] = 1;
    if (RD->isTrivial()) o["trivial"] = 1;
    if (RD->isAggregate()) o["aggregate"] = 1;
    emit("O", "", std::move(o));
  }

  void emitEnum(const EnumDecl *ED) {
    json::Object o;
    o["kind"] = "enum";
    o["qn"] = qname(ED);
    o["file"] = rel(ED->getLocation());
    o["line"] = (int64_t)line(ED->getLocation());
    json::Array es;
    for (auto *E : ED->enumerators()) {
      json::Object eo;
      eo["n"] = qname(E);
      eo["v"] = E->getInitVal().getExtValue();
      es.push_back(std::move(eo));
    }
    o["enumerators"] = std::move(es);
    emit("O", "", std::move(o));
  }

  void emitGlobal(const VarDecl *VD) {
    json::Object o;
    o["kind"] = "global";
    o["d"] = declKey(VD);
    o["qn"] = qname(VD);
    o["t"] = typeStr(VD->getType());
    o["file"] = rel(VD->getLocation());
    o["line"] = (int64_t)line(VD->getLocation());
    if (VD->getType().isConstQualified()) o["const"] = 1;
    if (VD->getInit() && !VD->getInit()->isValueDependent()) {
      json::Array rows;
      tableRows(VD->getInit(), rows, 0);
      if (!rows.empty()) o["rows"] = std::move(rows);
    }
    emit("O", "", std::move(o));
  }

  // the constants of a table: rows of literals and enumerators
  json::Value leaf(const Expr *E) {
    E = E->IgnoreParenCasts();
    for (;;) {
      if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) E = M->getSubExpr()->IgnoreParenCasts();
      else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(E)) E = B->getSubExpr()->IgnoreParenCasts();
      else if (auto *W = dyn_cast<ExprWithCleanups>(E)) E = W->getSubExpr()->IgnoreParenCasts();
      else if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
        if (C->getNumArgs() < 1) break;
        E = C->getArg(0)->IgnoreParenCasts();
      } else break;
    }
    json::Object o;
    if (auto *S = dyn_cast<StringLiteral>(E)) {
      o["s"] = S->isOrdinary() ? S->getString().str() : std::string();
    } else {
      if (auto *R = dyn_cast<DeclRefExpr>(E)) o["n"] = qname(R->getDecl());
      Expr::EvalResult r;
      if (!E->isValueDependent() && E->EvaluateAsInt(r, Ctx)) o["v"] = r.Val.getInt().getExtValue();
    }
    return json::Value(std::move(o));
  }

  void tableRows(const Stmt *S, json::Array &rows, int depth) {
    if (!S || depth > 12) return;
    if (auto *C = dyn_cast<CXXConstructExpr>(S)) {
      if (C->getNumArgs() >= 2 && C->getConstructor()->getParent()->getName() == "pair") {
        json::Array r;
        r.push_back(leaf(C->getArg(0)));
        r.push_back(leaf(C->getArg(1)));
        rows.push_back(std::move(r));
        return;
      }
    }
    for (const Stmt *c : S->children()) tableRows(c, rows, depth + 1);
  }

  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Visitor(Extractor &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->isThisDeclarationADefinition()) return true;
    if (!X.inRepo(FD->getLocation())) return true;
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
      if (MD->getParent()->isLambda()) return true;
    if (FD->isDependentContext()) return true;
    if (FD->isDefaulted() || FD->isDeleted()) return true;
    X.emitFunction(FD, "");
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (RD->isThisDeclarationADefinition() && X.inRepo(RD->getLocation())) X.emitRecord(RD);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ED) {
    if (X.inRepo(ED->getLocation())) X.emitEnum(ED);
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (VD->hasGlobalStorage() && !isa<ParmVarDecl>(VD) && X.inRepo(VD->getLocation()) &&
        !VD->getDeclContext()->isDependentContext())
      X.emitGlobal(VD);
    return true;
  }
  Extractor &X;
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Extractor X(C);
    Visitor V(X);
    // only top-level declarations located in the repository
    for (Decl *D : C.getTranslationUnitDecl()->decls())
      if (X.inRepo(D->getLocation())) V.TraverseDecl(D);
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

} // namespace

int main(int argc, char **argv) {
  // extract ROOT OUT FILE -- flags...
  if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT FILE -- flags\n"; return 2; }
  g_root = argv[1];
  if (g_root.back() != '/') g_root += '/';
  std::string out = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  std::error_code ec;
  llvm::raw_fd_ostream os(out, ec);
  if (ec) { llvm::errs() << ec.message() << "\n"; return 2; }
  g_out = &os;
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool Tool(DB, {file});
  int rc = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  os.flush();
  return rc;
}
