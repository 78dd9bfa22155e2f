// grazer-export: dumps the type-resolved program (classes, functions with
// bodies as a simplified syntax tree, globals) of one translation unit as JSON.
// Only declarations located under --root are dumped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace J = llvm::json;

static std::string Root;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  J::Array types;
  std::map<std::string, int> typeIdx;
  J::Object funcs, records, globals, enums;
  std::set<std::string> seenF, seenR;
  std::map<const VarDecl *, int> varIds;
  std::map<const BindingDecl *, int> bindIds;
  std::vector<const CXXRecordDecl *> pendingLambda;
  int nextVar = 0;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.FullyQualifiedName = true;
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }
  int ty(QualType T) {
    std::string s = T.isNull() ? "" : T.getCanonicalType().getAsString(PP);
    auto it = typeIdx.find(s);
    if (it != typeIdx.end()) return it->second;
    int i = (int)typeIdx.size();
    typeIdx[s] = i;
    types.push_back(s);
    return i;
  }
  static std::string fix(std::string s) {
    if (!J::isUTF8(s)) s = J::fixUTF8(s);
    return s;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> buf;
    if (index::generateUSRForDecl(D, buf)) {
      if (auto *ND = dyn_cast<NamedDecl>(D)) return "?" + ND->getQualifiedNameAsString();
      return "?";
    }
    return std::string(buf.str());
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      auto rp = FE->getFileEntry().tryGetRealPathName();
      if (!rp.empty()) return rp.str();
    }
    return P.getFilename();
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  bool inRoot(const Decl *D) {
    std::string f = file(D->getLocation());
    return f.compare(0, Root.size(), Root) == 0;
  }
  std::string qname(const NamedDecl *D) {
    return D->getQualifiedNameAsString();
  }
  std::string recName(const CXXRecordDecl *R) {
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }

  J::Value nullV() { return nullptr; }

  J::Object mk(const char *k, const Stmt *S) {
    J::Object o;
    o["k"] = k;
    if (S) o["l"] = line(S->getBeginLoc());
    return o;
  }
  int varId(const VarDecl *V) {
    V = V->getCanonicalDecl();
    auto it = varIds.find(V);
    if (it != varIds.end()) return it->second;
    return varIds[V] = nextVar++;
  }
  int bindId(const BindingDecl *B) {
    auto it = bindIds.find(B);
    if (it != bindIds.end()) return it->second;
    return bindIds[B] = nextVar++;
  }

  J::Value arr(llvm::ArrayRef<const Expr *> es) {
    J::Array a;
    for (auto *e : es) a.push_back(expr(e));
    return a;
  }

  static const char *pk(QualType T) {
    if (T->isLValueReferenceType()) {
      return T->getPointeeType().isConstQualified() ? "c" : "r";
    }
    if (T->isRValueReferenceType()) return "m";
    if (T->isPointerType())
      return T->getPointeeType().isConstQualified() ? "q" : "p";
    return "v";
  }

  void fillCallee(J::Object &o, const FunctionDecl *FD) {
    if (!FD) return;
    o["q"] = qname(FD);
    const FunctionDecl *Def = nullptr;
    FD->hasBody(Def);
    o["fn"] = usr(FD->getCanonicalDecl());
    std::string pr;
    for (auto *P : FD->parameters()) pr += pk(P->getType());
    if (FD->isVariadic()) pr += "*";
    o["pr"] = pr;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["rc"] = ty(C.getTypeDeclType(M->getParent()));
      if (M->isConst()) o["mc"] = true;
      if (M->isStatic()) o["ms"] = true;
    }
    o["rt"] = ty(FD->getReturnType());
    if (inRoot(FD)) o["in"] = true;
  }

  J::Value expr(const Expr *E) {
    if (!E) return nullV();
    J::Object o = expr1(E);
    if (!o.get("t")) o["t"] = ty(E->getType());
    return std::move(o);
  }
  J::Object sub(const Expr *E) {
    J::Value v = expr(E);
    if (auto *p = v.getAsObject()) return std::move(*p);
    return mk("null", E);
  }

  J::Object expr1(const Expr *E) {
    if (auto *P = dyn_cast<ParenExpr>(E)) return sub(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E)) return sub(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return sub(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return sub(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return sub(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return sub(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return sub(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) {
      J::Object o = mk("stdinit", E);
      const Expr *s = P->getSubExpr();
      o["e"] = expr(s);
      return o;
    }
    if (auto *P = dyn_cast<CastExpr>(E)) {
      auto ck = P->getCastKind();
      bool dyn = ck == CK_Dynamic;
      if (dyn) {
        J::Object o = mk("dyncast", E);
        o["e"] = expr(P->getSubExpr());
        return o;
      }
      switch (ck) {
      case CK_IntegralToFloating:
      case CK_FloatingToIntegral:
      case CK_IntegralToBoolean:
      case CK_FloatingToBoolean:
      case CK_PointerToBoolean:
      case CK_ToVoid: {
        J::Object o = mk("cast", E);
        o["ck"] = CastExpr::getCastKindName(ck);
        o["e"] = expr(P->getSubExpr());
        return o;
      }
      case CK_IntegralCast: {
        QualType a = P->getSubExpr()->getType(), b = P->getType();
        J::Object s = sub(P->getSubExpr());
        if (a->isEnumeralType() && !b->isEnumeralType()) {
          J::Object o = mk("cast", E);
          o["ck"] = "EnumToInt";
          o["e"] = std::move(s);
          return o;
        }
        if (C.getTypeSize(a) > C.getTypeSize(b)) {
          J::Object o = mk("cast", E);
          o["ck"] = "IntegralNarrow";
          o["e"] = std::move(s);
          return o;
        }
        return s;
      }
      case CK_LValueToRValue: {
        return sub(P->getSubExpr());
      }
      default: {
        if (isa<CXXConstCastExpr>(E)) {
          J::Object o = mk("constcast", E);
          o["e"] = expr(P->getSubExpr());
          return o;
        }
        if (isa<CXXReinterpretCastExpr>(E)) {
          J::Object o = mk("reinterpret", E);
          o["e"] = expr(P->getSubExpr());
          return o;
        }
        return sub(P->getSubExpr());
      }
      }
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      J::Object o = mk("int", E);
      llvm::SmallString<32> s;
      L->getValue().toString(s, 10, L->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
      return o;
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      J::Object o = mk("float", E);
      // source spelling, exact rational is derived from it
      llvm::SmallString<64> s;
      bool inv = false;
      SourceLocation loc = SM.getSpellingLoc(L->getLocation());
      llvm::StringRef sp = Lexer::getSpelling(loc, s, SM, C.getLangOpts(), &inv);
      o["s"] = fix(sp.str());
      llvm::SmallString<64> v;
      L->getValue().toString(v, 40, 0);
      o["v"] = std::string(v.str());
      return o;
    }
    if (auto *L = dyn_cast<StringLiteral>(E)) {
      J::Object o = mk("str", E);
      o["v"] = L->isOrdinary() || L->isUTF8() ? fix(L->getBytes().str()) : std::string("?");
      return o;
    }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) {
      J::Object o = mk("int", E);
      o["v"] = std::to_string(L->getValue());
      o["ch"] = true;
      return o;
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      J::Object o = mk("bool", E);
      o["v"] = L->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk("nullptr", E);
    if (isa<CXXThisExpr>(E)) return mk("this", E);
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *VD = D->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(VD)) {
        J::Object o = mk("enum", E);
        o["n"] = qname(EC);
        llvm::SmallString<32> s;
        EC->getInitVal().toString(s, 10);
        o["v"] = std::string(s.str());
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(VD)) {
        if (V->isConstexpr() && V->hasGlobalStorage() && !inRoot(V) && V->getType()->isBooleanType() && !E->isValueDependent()) {
          // std::is_base_of_v<...> and the like
          Expr::EvalResult R;
          if (E->EvaluateAsRValue(R, V->getASTContext()) && R.Val.isInt()) {
            J::Object o = mk("bool", E);
            o["v"] = R.Val.getInt().getBoolValue();
            return o;
          }
        }
        J::Object o = mk("var", E);
        o["n"] = V->getNameAsString();
        if (V->hasGlobalStorage() && !V->isStaticLocal()) {
          o["g"] = qname(V);
          if (inRoot(V)) dumpGlobal(V);
        } else {
          if (V->isStaticLocal()) o["sl"] = true;
          o["id"] = varId(V);
        }
        return o;
      }
      if (auto *B = dyn_cast<BindingDecl>(VD)) {
        if (auto *HV = B->getHoldingVar()) {
          J::Object o = mk("var", E);
          o["n"] = B->getNameAsString();
          o["id"] = varId(HV);
          return o;
        }
        J::Object o = mk("var", E);
        o["n"] = B->getNameAsString();
        o["id"] = bindId(B);
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(VD)) {
        J::Object o = mk("fnref", E);
        fillCallee(o, F);
        return o;
      }
      J::Object o = mk("ref", E);
      o["n"] = qname(VD);
      return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *VD = M->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(VD)) {
        J::Object o = mk("field", E);
        o["n"] = F->getNameAsString();
        if (F->getNameAsString().empty()) o["n"] = "anon" + std::to_string(F->getFieldIndex());
        o["rc"] = ty(C.getTypeDeclType(F->getParent()));
        if (inRoot(F)) o["in"] = true;
        if (M->isArrow()) o["arrow"] = true;
        o["e"] = expr(M->getBase());
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(VD)) {
        J::Object o = mk("var", E);
        o["n"] = V->getNameAsString();
        o["g"] = qname(V);
        if (inRoot(V)) dumpGlobal(V);
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(VD)) {
        J::Object o = mk("fnref", E);
        fillCallee(o, F);
        o["e"] = expr(M->getBase());
        return o;
      }
    }
    if (auto *CE = dyn_cast<CXXOperatorCallExpr>(E)) {
      J::Object o = mk("opcall", E);
      o["op"] = getOperatorSpelling(CE->getOperator());
      fillCallee(o, CE->getDirectCallee());
      J::Array a;
      for (auto *x : CE->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      if (auto *M = dyn_cast_or_null<CXXMethodDecl>(CE->getDirectCallee()))
        if (!M->isStatic()) {
          o["opm"] = true; // first arg is the object
          if (M->isVirtual()) o["virt"] = true;
        }
      return o;
    }
    if (auto *CE = dyn_cast<CXXMemberCallExpr>(E)) {
      J::Object o = mk("mcall", E);
      const CXXMethodDecl *M = CE->getMethodDecl();
      fillCallee(o, M);
      if (M) {
        o["n"] = M->getNameAsString();
        bool qual = false;
        if (auto *ME = dyn_cast<MemberExpr>(CE->getCallee()->IgnoreParens())) qual = ME->hasQualifier();
        if (M->isVirtual() && !qual) o["virt"] = true;
        if (isa<CXXConversionDecl>(M)) o["conv"] = true;
      }
      o["e"] = expr(CE->getImplicitObjectArgument());
      J::Array a;
      for (auto *x : CE->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *U = dyn_cast<UserDefinedLiteral>(E)) {
      J::Object o = mk("call", E);
      fillCallee(o, U->getDirectCallee());
      o["udl"] = true;
      J::Array a;
      for (auto *x : U->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      J::Object o = mk("call", E);
      if (auto *F = CE->getDirectCallee()) {
        fillCallee(o, F);
        o["n"] = F->getNameAsString();
        if (F->isTemplateInstantiation()) {
          if (auto *TA = F->getTemplateSpecializationArgs()) {
            J::Array ta;
            for (auto &x : TA->asArray()) {
              std::string s;
              llvm::raw_string_ostream os(s);
              x.print(PP, os, true);
              ta.push_back(fix(os.str()));
            }
            o["ta"] = std::move(ta);
          }
        }
      } else
        o["callee"] = expr(CE->getCallee());
      J::Array a;
      for (auto *x : CE->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *CE = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      J::Object o = mk("ctor", E);
      fillCallee(o, CE->getConstructor());
      o["a"] = J::Array();
      o["inherited"] = true;
      return o;
    }
    if (auto *CE = dyn_cast<CXXConstructExpr>(E)) {
      J::Object o = mk("ctor", E);
      fillCallee(o, CE->getConstructor());
      J::Array a;
      for (auto *x : CE->arguments()) a.push_back(expr(x));
      o["a"] = std::move(a);
      auto *CD = CE->getConstructor();
      if (CD->isCopyConstructor()) o["copy"] = true;
      if (CD->isMoveConstructor()) o["move"] = true;
      if (CE->isListInitialization()) o["list"] = true;
      if (isa<CXXTemporaryObjectExpr>(E)) o["tmp"] = true;
      return o;
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
      J::Object o = mk("init", E);
      J::Array a;
      for (auto *x : I->inits()) a.push_back(expr(x));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *B = dyn_cast<CXXRewrittenBinaryOperator>(E)) return sub(B->getSemanticForm());
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      J::Object o = mk(B->isAssignmentOp() ? "assign" : "bin", E);
      o["op"] = BinaryOperator::getOpcodeStr(B->getOpcode()).str();
      o["x"] = expr(B->getLHS());
      o["y"] = expr(B->getRHS());
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      J::Object o = mk("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) o["post"] = true;
      o["e"] = expr(U->getSubExpr());
      return o;
    }
    if (auto *Q = dyn_cast<AbstractConditionalOperator>(E)) {
      J::Object o = mk("cond", E);
      o["c"] = expr(Q->getCond());
      o["x"] = expr(Q->getTrueExpr());
      o["y"] = expr(Q->getFalseExpr());
      return o;
    }
    if (auto *S = dyn_cast<ArraySubscriptExpr>(E)) {
      J::Object o = mk("index", E);
      o["x"] = expr(S->getBase());
      o["y"] = expr(S->getIdx());
      return o;
    }
    if (auto *L = dyn_cast<LambdaExpr>(E)) {
      J::Object o = mk("lambda", E);
      J::Array ps;
      CXXMethodDecl const *op = L->getCallOperator();
      Stmt const *lbody = L->getBody();
      if (auto *FT = op->getDescribedFunctionTemplate()) {
        // a generic lambda: the one instance the program uses
        CXXMethodDecl const *only = nullptr;
        int n = 0;
        for (auto *S : FT->specializations())
          if (S->hasBody()) { only = dyn_cast<CXXMethodDecl>(S); ++n; }
        if (n == 1 && only) { op = only; lbody = only->getBody(); }
        else {
          o["generic"] = n;
          J::Array is;
          for (auto *S : FT->specializations())
            if (S->hasBody()) {
              J::Object i;
              J::Array ip;
              for (auto *P : S->parameters()) ip.push_back(param(P));
              i["p"] = std::move(ip);
              i["fn"] = usr(S->getCanonicalDecl());
              i["b"] = stmt(S->getBody());
              is.push_back(std::move(i));
            }
          o["insts"] = std::move(is);
          if (only) { op = only; lbody = only->getBody(); }
        }
      }
      for (auto *P : op->parameters()) ps.push_back(param(P));
      o["p"] = std::move(ps);
      J::Array cs;
      auto ci = L->capture_init_begin();
      for (auto &cap : L->captures()) {
        J::Object c;
        if (cap.capturesThis()) c["this"] = true;
        else if (cap.capturesVariable()) {
          if (auto *V = dyn_cast<VarDecl>(cap.getCapturedVar())) {
            c["id"] = varId(V);
            c["n"] = V->getNameAsString();
            if (V->isInitCapture()) c["init"] = expr(V->getInit());
          } else if (auto *B = dyn_cast<BindingDecl>(cap.getCapturedVar())) {
            c["id"] = B->getHoldingVar() ? varId(B->getHoldingVar()) : bindId(B);
            c["n"] = B->getNameAsString();
          }
        }
        c["by"] = cap.getCaptureKind() == LCK_ByRef || cap.getCaptureKind() == LCK_This ? "ref" : "copy";
        cs.push_back(std::move(c));
        ++ci;
      }
      o["cap"] = std::move(cs);
      o["b"] = stmt(lbody);
      return o;
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      J::Object o = mk("throw", E);
      o["e"] = expr(T->getSubExpr());
      return o;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      J::Object o = mk("new", E);
      o["at"] = ty(N->getAllocatedType());
      o["e"] = expr(N->getInitializer());
      return o;
    }
    if (auto *N = dyn_cast<CXXDeleteExpr>(E)) {
      J::Object o = mk("delete", E);
      o["e"] = expr(N->getArgument());
      return o;
    }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J::Object o = mk("sizeof", E);
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return mk("zero", E);
    if (auto *T = dyn_cast<TypeTraitExpr>(E)) {
      J::Object o = mk("bool", E);
      o["v"] = T->isValueDependent() ? false : T->getValue();
      return o;
    }
    if (auto *T = dyn_cast<CXXTypeidExpr>(E)) {
      J::Object o = mk("typeid", E);
      if (!T->isTypeOperand()) o["e"] = expr(T->getExprOperand());
      return o;
    }
    if (auto *T = dyn_cast<PredefinedExpr>(E)) return T->getFunctionName() ? sub(T->getFunctionName()) : mk("str", E);
    if (auto *T = dyn_cast<CXXPseudoDestructorExpr>(E)) return mk("pseudodtor", E);
    J::Object o = mk("other", E);
    o["cls"] = E->getStmtClassName();
    J::Array a;
    for (auto *ch : E->children())
      if (auto *ce = dyn_cast_or_null<Expr>(ch)) a.push_back(expr(ce));
    o["a"] = std::move(a);
    return o;
  }

  J::Object param(const ParmVarDecl *P) {
    J::Object p;
    p["n"] = P->getNameAsString();
    p["id"] = varId(P);
    p["t"] = ty(P->getType());
    p["by"] = pk(P->getType());
    if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg()) p["def"] = expr(P->getDefaultArg());
    return p;
  }

  J::Object varDecl(const VarDecl *V) {
    J::Object d;
    d["n"] = V->getNameAsString();
    d["id"] = varId(V);
    d["t"] = ty(V->getType());
    d["l"] = line(V->getLocation());
    if (V->isStaticLocal()) d["static"] = true;
    if (V->getType()->isReferenceType()) d["ref"] = true;
    if (V->getInit()) d["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      J::Array bs;
      for (auto *B : DD->bindings()) {
        J::Object b;
        b["n"] = B->getNameAsString();
        if (auto *HV = B->getHoldingVar()) {
          b["id"] = varId(HV);
        } else {
          b["id"] = bindId(B);
        }
        b["t"] = ty(B->getType());
        bs.push_back(std::move(b));
      }
      d["bind"] = std::move(bs);
    }
    return d;
  }

  J::Value stmt(const Stmt *S) {
    if (!S) return nullV();
    if (auto *E = dyn_cast<Expr>(S)) {
      J::Object o = mk("expr", S);
      o["e"] = expr(E);
      return std::move(o);
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      J::Object o = mk("block", S);
      J::Array a;
      for (auto *c : X->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
      o["el"] = line(X->getRBracLoc());
      return std::move(o);
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      J::Object o = mk("decl", S);
      J::Array a;
      for (auto *d : D->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
      o["d"] = std::move(a);
      return std::move(o);
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      J::Object o = mk("if", S);
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
      if (I->isConstexpr()) o["cx"] = true;
      o["c"] = expr(I->getCond());
      o["x"] = stmt(I->getThen());
      o["y"] = stmt(I->getElse());
      return std::move(o);
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      J::Object o = mk("for", S);
      o["init"] = stmt(F->getInit());
      o["c"] = F->getCond() ? expr(F->getCond()) : nullV();
      o["inc"] = F->getInc() ? expr(F->getInc()) : nullV();
      o["b"] = stmt(F->getBody());
      return std::move(o);
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      J::Object o = mk("rfor", S);
      o["range"] = expr(F->getRangeInit());
      o["v"] = varDecl(F->getLoopVariable());
      o["b"] = stmt(F->getBody());
      return std::move(o);
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      J::Object o = mk("while", S);
      if (W->getConditionVariable()) o["cv"] = varDecl(W->getConditionVariable());
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return std::move(o);
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      J::Object o = mk("do", S);
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return std::move(o);
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      J::Object o = mk("return", S);
      o["e"] = R->getRetValue() ? expr(R->getRetValue()) : nullV();
      return std::move(o);
    }
    if (isa<BreakStmt>(S)) return mk("break", S);
    if (isa<ContinueStmt>(S)) return mk("continue", S);
    if (isa<NullStmt>(S)) return mk("nop", S);
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      J::Object o = mk("switch", S);
      o["c"] = expr(W->getCond());
      o["b"] = stmt(W->getBody());
      return std::move(o);
    }
    if (auto *W = dyn_cast<CaseStmt>(S)) {
      J::Object o = mk("case", S);
      o["e"] = expr(W->getLHS());
      o["b"] = stmt(W->getSubStmt());
      return std::move(o);
    }
    if (auto *W = dyn_cast<DefaultStmt>(S)) {
      J::Object o = mk("default", S);
      o["b"] = stmt(W->getSubStmt());
      return std::move(o);
    }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      J::Object o = mk("try", S);
      o["b"] = stmt(T->getTryBlock());
      J::Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        J::Object h = mk("catch", H);
        if (H->getExceptionDecl()) {
          h["v"] = varDecl(H->getExceptionDecl());
          h["ct"] = ty(H->getCaughtType());
        } else
          h["all"] = true;
        h["b"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      return std::move(o);
    }
    J::Object o = mk("otherstmt", S);
    o["cls"] = S->getStmtClassName();
    return std::move(o);
  }

  void dumpGlobal(const VarDecl *V) {
    V = V->getCanonicalDecl();
    std::string q = qname(V);
    if (globals.get(q)) return;
    const VarDecl *Def = V->getDefinition(C);
    if (Def && Def->getInit() && Def->getInit()->isValueDependent()) return;
    J::Object g;
    g["file"] = file((Def ? Def : V)->getLocation());
    g["l"] = line((Def ? Def : V)->getLocation());
    g["t"] = ty(V->getType());
    g["const"] = V->getType().isConstQualified() || V->isConstexpr();
    globals[q] = nullptr; // recursion guard
    if (Def && Def->getInit()) g["init"] = expr(Def->getInit());
    globals[q] = std::move(g);
  }

  void dumpFunction(const FunctionDecl *FD) {
    if (FD->isDependentContext()) return;
    if (!FD->doesThisDeclarationHaveABody() && !FD->isDefaulted()) return;
    if (FD->isDefaulted() && !FD->doesThisDeclarationHaveABody()) return;
    if (!inRoot(FD)) return;
    std::string key = usr(FD->getCanonicalDecl());
    if (!seenF.insert(key).second) return;
    J::Object f;
    f["key"] = key;
    f["q"] = qname(FD);
    f["n"] = FD->getNameAsString();
    f["file"] = file(FD->getLocation());
    f["l"] = line(FD->getLocation());
    f["rt"] = ty(FD->getReturnType());
    f["sig"] = ty(FD->getType());
    J::Array ps;
    for (auto *P : FD->parameters()) ps.push_back(param(P));
    f["p"] = std::move(ps);
    if (FD->isImplicit()) f["implicit"] = true;
    if (FD->isDefaulted()) f["defaulted"] = true;
    if (FD->isTemplateInstantiation()) f["inst"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      f["rc"] = ty(C.getTypeDeclType(M->getParent()));
      if (M->isConst()) f["mc"] = true;
      if (M->isStatic()) f["ms"] = true;
      if (M->isVirtual()) f["virt"] = true;
      if (M->getParent()->isLambda()) f["lambda"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      f["ctor"] = true;
      J::Array is;
      for (auto *I : CD->inits()) {
        J::Object i;
        if (I->isAnyMemberInitializer()) i["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) i["deleg"] = true;
        i["e"] = expr(I->getInit());
        i["l"] = line(I->getSourceLocation());
        is.push_back(std::move(i));
      }
      f["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(FD)) f["dtor"] = true;
    f["b"] = stmt(FD->getBody());
    funcs[key] = std::move(f);
  }

  void dumpRecord(const CXXRecordDecl *R) {
    if (!R->isCompleteDefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R)) return;
    std::string name = recName(R);
    if (!seenR.insert(name).second) return;
    J::Object r;
    r["name"] = name;
    r["file"] = file(R->getLocation());
    r["l"] = line(R->getLocation());
    r["t"] = ty(C.getTypeDeclType(R));
    r["abstract"] = R->isAbstract();
    r["final"] = R->isEffectivelyFinal();
    J::Array bs;
    for (auto &B : R->bases()) {
      J::Object b;
      b["t"] = ty(B.getType());
      b["virt"] = B.isVirtual();
      b["acc"] = (int)B.getAccessSpecifier();
      bs.push_back(std::move(b));
    }
    r["bases"] = std::move(bs);
    J::Array fs;
    for (auto *F : R->fields()) {
      J::Object f;
      f["n"] = F->getNameAsString();
      f["t"] = ty(F->getType());
      f["l"] = line(F->getLocation());
      f["acc"] = (int)F->getAccess();
      if (F->isMutable()) f["mutable"] = true;
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    r["fields"] = std::move(fs);
    J::Array ms;
    auto addM = [&](const CXXMethodDecl *M) {
      J::Object m;
      m["n"] = M->getNameAsString();
      m["key"] = usr(M->getCanonicalDecl());
      m["virt"] = M->isVirtual();
      m["pure"] = M->isPureVirtual();
      m["const"] = M->isConst();
      m["static"] = M->isStatic();
      m["deleted"] = M->isDeleted();
      m["defaulted"] = M->isDefaulted();
      m["acc"] = (int)M->getAccess();
      m["l"] = line(M->getLocation());
      m["rt"] = ty(M->getReturnType());
      m["sig"] = ty(M->getType());
      J::Array ps;
      for (auto *P : M->parameters()) ps.push_back(param(P));
      m["p"] = std::move(ps);
      if (isa<CXXConstructorDecl>(M)) m["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
      J::Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(usr(O->getCanonicalDecl()));
      m["over"] = std::move(ov);
      ms.push_back(std::move(m));
    };
    for (auto *M : R->methods()) addM(M);
    for (auto *D : R->decls())
      if (auto *FT = dyn_cast<FunctionTemplateDecl>(D))
        for (auto *S : FT->specializations())
          if (auto *M = dyn_cast<CXXMethodDecl>(S)) addM(M);
    r["methods"] = std::move(ms);
    // special members
    r["copyable"] = R->hasSimpleCopyConstructor() || (!R->defaultedCopyConstructorIsDeleted() && !R->hasUserDeclaredCopyConstructor());
    records[name] = std::move(r);
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Dumper &D;
  explicit V(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  // declarations of third-party headers are not walked
  bool TraverseDecl(Decl *X) {
    if (X && !isa<TranslationUnitDecl>(X) && X->getDeclContext() && X->getLexicalDeclContext()->isTranslationUnit() && X->getLocation().isValid() && !D.inRoot(X))
      return true;
    return RecursiveASTVisitor<V>::TraverseDecl(X);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    D.dumpFunction(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    D.dumpRecord(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *Va) {
    if (Va->hasGlobalStorage() && !Va->isStaticLocal() && !Va->getDeclContext()->isDependentContext() && D.inRoot(Va)
        && !isa<ParmVarDecl>(Va) && !Va->getType()->isDependentType() && !Va->isTemplated())
      D.dumpGlobal(Va);
    return true;
  }
};

static std::string OutPath;
static int Errors = 0;

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    J::Object out;
    out["types"] = std::move(D.types);
    out["functions"] = std::move(D.funcs);
    out["records"] = std::move(D.records);
    out["globals"] = std::move(D.globals);
    out["errors"] = (int)C.getDiagnostics().getNumErrors();
    // files under root that were read
    J::Array fl;
    auto &SM = C.getSourceManager();
    std::set<std::string> s;
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      std::string rp = it->first.getFileEntry().tryGetRealPathName().str();
      if (rp.compare(0, Root.size(), Root) == 0) s.insert(rp);
    }
    for (auto &x : s) fl.push_back(x);
    out["files"] = std::move(fl);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << J::Value(std::move(out));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

// usage: grazer-export ROOT OUT FILE flags...
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  Root = argv[1];
  OutPath = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
