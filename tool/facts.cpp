// facts: a libTooling extractor. It parses one translation unit with the project's flags and prints, as one JSON
// object, the type-resolved syntax of every function, record, enum and variable that is defined below a given root
// directory. Nothing is decided here; the deciding analyses (../lib) work on this output.
//
//   facts ROOT FILE -- FLAGS...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;

namespace {

class Dumper {
 public:
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> Ids;
  explicit Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
  }

  int id(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }

  std::string usr(const Decl* D) {
    llvm::SmallString<128> Buf;
    if (index::generateUSRForDecl(D->getCanonicalDecl(), Buf)) return "?" + std::to_string(id(D));
    return std::string(Buf.str());
  }

  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string rec(QualType T) {  // qualified name of the record a type denotes (references stripped), or ""
    if (T.isNull()) return "";
    T = T.getNonReferenceType();
    if (const auto* R = T->getAsCXXRecordDecl()) return R->getQualifiedNameAsString();
    return "";
  }

  bool inRoot(const Decl* D) {
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    if (L.isInvalid()) return false;
    // the physical file: #line directives do not matter here
    StringRef F = SM.getFilename(L);
    return F.starts_with(Root);
  }

  void loc(Object& O, SourceLocation L) {
    if (L.isInvalid()) return;
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return;
    O["l"] = (int64_t)P.getLine();
    O["f"] = std::string(P.getFilename());
  }
  void line(Object& O, SourceLocation L) {
    if (L.isInvalid()) return;
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isValid()) O["l"] = (int64_t)P.getLine();
  }

  void refDecl(Object& O, const ValueDecl* D) {
    O["name"] = D->getNameAsString();
    if (const auto* E = dyn_cast<EnumConstantDecl>(D)) {
      O["dk"] = "enum";
      llvm::SmallString<32> S;
      E->getInitVal().toString(S, 10);
      O["v"] = std::string(S.str());
      O["en"] = cast<EnumDecl>(E->getDeclContext())->getQualifiedNameAsString();
    } else if (const auto* F = dyn_cast<FunctionDecl>(D)) {
      O["dk"] = "fn";
      O["usr"] = usr(F);
      O["qn"] = F->getQualifiedNameAsString();
      O["own"] = inRootAny(F);
    } else if (const auto* V = dyn_cast<VarDecl>(D)) {
      O["dk"] = "var";
      O["id"] = id(V);
      if (V->hasGlobalStorage()) {
        O["glob"] = true;
        O["qn"] = V->getQualifiedNameAsString();
        O["gu"] = usr(V);
        O["own"] = inRoot(V);
      }
    } else if (isa<BindingDecl>(D)) {
      O["dk"] = "binding";
      O["id"] = id(D);
    } else {
      O["dk"] = D->getDeclKindName();
      O["id"] = id(D);
    }
  }

  bool inRootAny(const FunctionDecl* F) {
    for (const auto* R : F->redecls())
      if (inRoot(R)) return true;
    if (const auto* P = F->getTemplateInstantiationPattern())
      return inRoot(P);
    return false;
  }

  Value varDecl(const VarDecl* V) {
    Object O;
    O["k"] = "Var";
    O["name"] = V->getNameAsString();
    O["id"] = id(V);
    O["t"] = ty(V->getType());
    O["rec"] = rec(V->getType());
    line(O, V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->hasGlobalStorage()) {
      O["gu"] = usr(V);
      O["qn"] = V->getQualifiedNameAsString();
    }
    if (V->getType().getNonReferenceType().isConstQualified() || V->isConstexpr()) O["const"] = true;
    if (V->getType()->isReferenceType()) O["ref"] = true;
    if (const auto* AT = C.getAsConstantArrayType(V->getType())) {
      O["arr"] = (int64_t)AT->getSize().getZExtValue();
      O["elt"] = ty(AT->getElementType());
    }
    if (V->hasInit()) {
      O["init"] = stmt(V->getInit());
      O["istyle"] = (int64_t)V->getInitStyle();
    }
    if (const auto* D = dyn_cast<DecompositionDecl>(V)) {
      Array B;
      for (const auto* b : D->bindings()) {
        Object bo;
        bo["name"] = b->getNameAsString();
        bo["id"] = id(b);
        if (b->getBinding()) bo["expr"] = stmt(b->getBinding());
        if (b->getHoldingVar()) bo["var"] = varDecl(b->getHoldingVar());
        B.push_back(std::move(bo));
      }
      O["bindings"] = std::move(B);
    }
    return O;
  }

  Value stmt(const Stmt* S) {
    if (!S) return nullptr;
    // transparent wrappers
    if (const auto* E = dyn_cast<ExprWithCleanups>(S)) return stmt(E->getSubExpr());
    if (const auto* E = dyn_cast<ParenExpr>(S)) return stmt(E->getSubExpr());
    if (const auto* E = dyn_cast<MaterializeTemporaryExpr>(S)) return stmt(E->getSubExpr());
    if (const auto* E = dyn_cast<CXXBindTemporaryExpr>(S)) return stmt(E->getSubExpr());
    if (const auto* E = dyn_cast<ConstantExpr>(S)) return stmt(E->getSubExpr());
    if (const auto* E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return stmt(E->getReplacement());
    if (const auto* E = dyn_cast<CXXDefaultArgExpr>(S)) return stmt(E->getExpr());
    if (const auto* E = dyn_cast<CXXDefaultInitExpr>(S)) return stmt(E->getExpr());
    if (const auto* E = dyn_cast<CXXStdInitializerListExpr>(S)) return stmt(E->getSubExpr());
    if (const auto* E = dyn_cast<AttributedStmt>(S)) return stmt(E->getSubStmt());
    if (const auto* E = dyn_cast<OpaqueValueExpr>(S))
      if (E->getSourceExpr()) return stmt(E->getSourceExpr());

    Object O;
    line(O, S->getBeginLoc());
    if (const auto* E = dyn_cast<Expr>(S)) {
      O["t"] = ty(E->getType());
      std::string r = rec(E->getType());
      if (!r.empty()) O["rec"] = r;
      if (E->isGLValue()) O["lv"] = true;
      if (E->isPRValue() && !E->isValueDependent() && !isa<IntegerLiteral>(E) && E->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> Str;
          R.Val.getInt().toString(Str, 10);
          O["cv"] = std::string(Str.str());
        }
      }
    }
    auto child = [&](const char* key, const Stmt* X) {
      if (X) O[key] = stmt(X);
    };
    auto list = [&](auto&& Rg) {
      Array A;
      for (const Stmt* X : Rg) A.push_back(stmt(X));
      return A;
    };

    if (const auto* X = dyn_cast<CompoundStmt>(S)) {
      O["k"] = "Block";
      O["c"] = list(X->body());
      PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(X->getEndLoc()));
      if (P.isValid()) O["el"] = (int64_t)P.getLine();
    } else if (const auto* X = dyn_cast<DeclStmt>(S)) {
      O["k"] = "Decl";
      Array A;
      for (const Decl* D : X->decls())
        if (const auto* V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["c"] = std::move(A);
    } else if (const auto* X = dyn_cast<IfStmt>(S)) {
      O["k"] = "If";
      child("init", X->getInit());
      if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable());
      child("cond", X->getCond());
      child("then", X->getThen());
      child("else", X->getElse());
    } else if (const auto* X = dyn_cast<WhileStmt>(S)) {
      O["k"] = "While";
      if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable());
      child("cond", X->getCond());
      child("body", X->getBody());
    } else if (const auto* X = dyn_cast<DoStmt>(S)) {
      O["k"] = "Do";
      child("cond", X->getCond());
      child("body", X->getBody());
    } else if (const auto* X = dyn_cast<ForStmt>(S)) {
      O["k"] = "For";
      child("init", X->getInit());
      if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable());
      child("cond", X->getCond());
      child("inc", X->getInc());
      child("body", X->getBody());
    } else if (const auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      O["k"] = "RangeFor";
      O["var"] = varDecl(X->getLoopVariable());
      child("range", X->getRangeInit());
      child("body", X->getBody());
    } else if (const auto* X = dyn_cast<SwitchStmt>(S)) {
      O["k"] = "Switch";
      child("init", X->getInit());
      if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable());
      child("cond", X->getCond());
      child("body", X->getBody());
    } else if (const auto* X = dyn_cast<CaseStmt>(S)) {
      O["k"] = "Case";
      Expr::EvalResult R;
      if (X->getLHS()->EvaluateAsInt(R, C)) {
        llvm::SmallString<32> Str;
        R.Val.getInt().toString(Str, 10);
        O["v"] = std::string(Str.str());
      }
      if (X->getRHS()) {
        Expr::EvalResult R2;
        if (X->getRHS()->EvaluateAsInt(R2, C)) {
          llvm::SmallString<32> Str;
          R2.Val.getInt().toString(Str, 10);
          O["v2"] = std::string(Str.str());
        }
      }
      child("sub", X->getSubStmt());
    } else if (const auto* X = dyn_cast<DefaultStmt>(S)) {
      O["k"] = "Default";
      child("sub", X->getSubStmt());
    } else if (isa<BreakStmt>(S)) {
      O["k"] = "Break";
    } else if (isa<ContinueStmt>(S)) {
      O["k"] = "Continue";
    } else if (isa<NullStmt>(S)) {
      O["k"] = "Null";
    } else if (const auto* X = dyn_cast<GotoStmt>(S)) {
      O["k"] = "Goto";
      O["label"] = X->getLabel()->getNameAsString();
    } else if (const auto* X = dyn_cast<LabelStmt>(S)) {
      O["k"] = "Label";
      O["label"] = X->getDecl()->getNameAsString();
      child("sub", X->getSubStmt());
    } else if (const auto* X = dyn_cast<ReturnStmt>(S)) {
      O["k"] = "Return";
      child("e", X->getRetValue());
    } else if (const auto* X = dyn_cast<CXXTryStmt>(S)) {
      O["k"] = "Try";
      child("body", X->getTryBlock());
      Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) A.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
      O["handlers"] = std::move(A);
    } else if (const auto* X = dyn_cast<IntegerLiteral>(S)) {
      O["k"] = "Int";
      llvm::SmallString<32> Str;
      X->getValue().toString(Str, 10, X->getType()->isSignedIntegerType());
      O["v"] = std::string(Str.str());
    } else if (const auto* X = dyn_cast<CharacterLiteral>(S)) {
      O["k"] = "Int";
      O["v"] = std::to_string(X->getValue());
      O["char"] = true;
    } else if (const auto* X = dyn_cast<CXXBoolLiteralExpr>(S)) {
      O["k"] = "Bool";
      O["v"] = X->getValue();
    } else if (const auto* X = dyn_cast<FloatingLiteral>(S)) {
      O["k"] = "Float";
      llvm::SmallString<32> Str;
      X->getValue().toString(Str);
      O["v"] = std::string(Str.str());
    } else if (const auto* X = dyn_cast<clang::StringLiteral>(S)) {
      O["k"] = "Str";
      if (X->getCharByteWidth() == 1) {
        std::string B = X->getBytes().str();
        O["v"] = llvm::json::isUTF8(B) ? B : llvm::json::fixUTF8(B);
      }
    } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) {
      O["k"] = "Nullptr";
    } else if (isa<CXXThisExpr>(S)) {
      O["k"] = "This";
    } else if (const auto* X = dyn_cast<DeclRefExpr>(S)) {
      O["k"] = "Ref";
      refDecl(O, X->getDecl());
    } else if (const auto* X = dyn_cast<MemberExpr>(S)) {
      O["k"] = "Member";
      O["name"] = X->getMemberDecl()->getNameAsString();
      O["arrow"] = X->isArrow();
      child("b", X->getBase());
      if (const auto* F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        O["parent"] = F->getParent()->getQualifiedNameAsString();
        O["field"] = true;
      } else {
        refDecl(O, X->getMemberDecl());
      }
    } else if (const auto* X = dyn_cast<CXXConstructExpr>(S)) {
      O["k"] = "Construct";
      O["usr"] = usr(X->getConstructor());
      O["cls"] = X->getConstructor()->getParent()->getQualifiedNameAsString();
      O["own"] = inRoot(X->getConstructor()->getParent());
      O["copy"] = X->getConstructor()->isCopyConstructor();
      O["move"] = X->getConstructor()->isMoveConstructor();
      O["deflt"] = X->getConstructor()->isDefaultConstructor();
      O["trivial"] = X->getConstructor()->isTrivial();
      O["implicit"] = X->getConstructor()->isImplicit() || X->getConstructor()->isDefaulted();
      if (X->requiresZeroInitialization()) O["zero"] = true;
      O["c"] = list(X->arguments());
    } else if (const auto* X = dyn_cast<LambdaExpr>(S)) {
      O["k"] = "Lambda";
      Array Ps;
      for (const ParmVarDecl* P : X->getCallOperator()->parameters()) Ps.push_back(varDecl(P));
      O["params"] = std::move(Ps);
      O["usr"] = usr(X->getCallOperator());
      child("body", X->getBody());
      Array Cs;
      for (const auto& Cp : X->captures()) {
        Object co;
        co["this"] = Cp.capturesThis();
        if (Cp.capturesVariable()) {
          co["id"] = id(Cp.getCapturedVar());
          co["byref"] = Cp.getCaptureKind() == LCK_ByRef;
          if (const auto* V = dyn_cast<VarDecl>(Cp.getCapturedVar()))
            if (V->isInitCapture() && V->getInit()) co["init"] = stmt(V->getInit());
        }
        Cs.push_back(std::move(co));
      }
      O["caps"] = std::move(Cs);
    } else if (const auto* X = dyn_cast<CallExpr>(S)) {
      O["k"] = "Call";
      const FunctionDecl* F = X->getDirectCallee();
      if (F) {
        O["usr"] = usr(F);
        O["qn"] = F->getQualifiedNameAsString();
        O["fn"] = F->getNameAsString();
        O["own"] = inRootAny(F);
        if (F->isNoReturn()) O["noreturn"] = true;
        if (const auto* M = dyn_cast<CXXMethodDecl>(F)) {
          O["cls"] = M->getParent()->getQualifiedNameAsString();
          if (M->isStatic()) O["smeth"] = true;
          if (M->isVirtual()) O["virtual"] = true;
        }
      } else {
        child("callee", X->getCallee());
      }
      if (const auto* M = dyn_cast<CXXMemberCallExpr>(S)) {
        child("obj", M->getImplicitObjectArgument());
        if (const auto* ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) O["arrow"] = ME->isArrow();
      }
      if (const auto* OC = dyn_cast<CXXOperatorCallExpr>(S)) {
        O["op"] = getOperatorSpelling(OC->getOperator());
        if (F && isa<CXXMethodDecl>(F)) O["opmem"] = true;
      }
      O["c"] = list(X->arguments());
    } else if (const auto* X = dyn_cast<CXXPseudoDestructorExpr>(S)) {
      O["k"] = "PseudoDtor";
      child("e", X->getBase());
    } else if (const auto* X = dyn_cast<CXXNewExpr>(S)) {
      O["k"] = "New";
      O["at"] = ty(X->getAllocatedType());
      O["arec"] = rec(X->getAllocatedType());
      if (X->isArray()) O["array"] = true;
      if (X->getNumPlacementArgs()) O["placement"] = true;
      child("init", X->getInitializer());
    } else if (const auto* X = dyn_cast<CXXDeleteExpr>(S)) {
      O["k"] = "Delete";
      O["at"] = ty(X->getDestroyedType());
      O["arec"] = rec(X->getDestroyedType());
      if (X->isArrayForm()) O["array"] = true;
      child("e", X->getArgument());
    } else if (const auto* X = dyn_cast<CompoundAssignOperator>(S)) {
      O["k"] = "CAssign";
      O["op"] = X->getOpcodeStr().str();
      child("a", X->getLHS());
      child("b", X->getRHS());
    } else if (const auto* X = dyn_cast<BinaryOperator>(S)) {
      O["k"] = X->isAssignmentOp() ? "Assign" : "Bin";
      O["op"] = X->getOpcodeStr().str();
      child("a", X->getLHS());
      child("b", X->getRHS());
    } else if (const auto* X = dyn_cast<UnaryOperator>(S)) {
      O["k"] = "Un";
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) O["post"] = true;
      child("e", X->getSubExpr());
    } else if (const auto* X = dyn_cast<ConditionalOperator>(S)) {
      O["k"] = "Cond";
      child("cond", X->getCond());
      child("a", X->getTrueExpr());
      child("b", X->getFalseExpr());
    } else if (const auto* X = dyn_cast<BinaryConditionalOperator>(S)) {
      O["k"] = "Elvis";
      child("a", X->getCommon());
      child("b", X->getFalseExpr());
    } else if (const auto* X = dyn_cast<ArraySubscriptExpr>(S)) {
      O["k"] = "Index";
      child("a", X->getBase());
      child("b", X->getIdx());
    } else if (const auto* X = dyn_cast<CastExpr>(S)) {
      O["k"] = "Cast";
      O["ck"] = X->getCastKindName();
      O["impl"] = isa<ImplicitCastExpr>(X);
      if (isa<CXXDynamicCastExpr>(X)) O["dyn"] = true;
      if (X->getType()->isPointerType()) {
        std::string r = rec(X->getType()->getPointeeType());
        if (!r.empty()) O["prec"] = r;
      }
      child("e", X->getSubExpr());
    } else if (const auto* X = dyn_cast<InitListExpr>(S)) {
      const InitListExpr* Sem = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      O["k"] = "InitList";
      O["c"] = list(Sem->inits());
      if (const auto* R = Sem->getType()->getAsCXXRecordDecl()) {
        Array Fs;
        for (const auto* F : R->fields()) Fs.push_back(F->getNameAsString());
        O["fields"] = std::move(Fs);
        O["cls"] = R->getQualifiedNameAsString();
      }
      if (Sem->hasArrayFiller()) child("filler", Sem->getArrayFiller());
    } else if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) {
      O["k"] = "ZeroInit";
    } else if (isa<UnaryExprOrTypeTraitExpr>(S)) {
      O["k"] = "SizeOf";
    } else if (const auto* X = dyn_cast<CXXThrowExpr>(S)) {
      O["k"] = "Throw";
      child("e", X->getSubExpr());
    } else if (const auto* X = dyn_cast<PredefinedExpr>(S)) {
      O["k"] = "Str";
      O["v"] = "";
    } else {
      O["k"] = "Other";
      O["cls"] = S->getStmtClassName();
      Array A;
      for (const Stmt* X : S->children()) A.push_back(stmt(X));
      O["c"] = std::move(A);
    }
    return O;
  }

  Value function(const FunctionDecl* F) {
    Object O;
    O["usr"] = usr(F);
    O["qn"] = F->getQualifiedNameAsString();
    O["name"] = F->getNameAsString();
    O["ret"] = ty(F->getReturnType());
    O["sig"] = ty(F->getType());
    loc(O, F->getLocation());
    Array Ps;
    for (const ParmVarDecl* P : F->parameters()) Ps.push_back(varDecl(P));
    O["params"] = std::move(Ps);
    if (F->isTemplateInstantiation()) O["inst"] = true;
    if (const auto* M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = M->getParent()->getQualifiedNameAsString();
      O["static"] = M->isStatic();
      O["virtual"] = M->isVirtual();
      O["const"] = M->isConst();
    } else {
      O["internal"] = !F->isExternallyVisible();
    }
    O["defaulted"] = F->isDefaulted();
    if (const auto* K = dyn_cast<CXXConstructorDecl>(F)) {
      O["kind"] = "ctor";
      O["copy"] = K->isCopyConstructor();
      O["move"] = K->isMoveConstructor();
      O["deflt"] = K->isDefaultConstructor();
      Array Is;
      for (const CXXCtorInitializer* I : K->inits()) {
        Object io;
        if (I->isAnyMemberInitializer()) io["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) io["base"] = rec(QualType(I->getBaseClass(), 0));
        else io["delegating"] = true;
        io["written"] = I->isWritten();
        io["init"] = stmt(I->getInit());
        line(io, I->getSourceLocation());
        Is.push_back(std::move(io));
      }
      O["inits"] = std::move(Is);
    } else if (isa<CXXDestructorDecl>(F)) {
      O["kind"] = "dtor";
    } else {
      O["kind"] = "fn";
    }
    O["body"] = stmt(F->getBody());
    return O;
  }

  Value record(const CXXRecordDecl* R) {
    Object O;
    O["qn"] = R->getQualifiedNameAsString();
    loc(O, R->getLocation());
    O["union"] = R->isUnion();
    Array Bs;
    for (const auto& B : R->bases()) Bs.push_back(rec(B.getType()));
    O["bases"] = std::move(Bs);
    Array Fs;
    for (const FieldDecl* F : R->fields()) {
      Object fo;
      fo["name"] = F->getNameAsString();
      fo["t"] = ty(F->getType());
      fo["rec"] = rec(F->getType());
      if (F->getType()->isPointerType()) fo["prec"] = rec(F->getType()->getPointeeType());
      if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = stmt(F->getInClassInitializer());
      line(fo, F->getLocation());
      Fs.push_back(std::move(fo));
    }
    O["fields"] = std::move(Fs);
    Array St;
    for (const Decl* D : R->decls())
      if (const auto* V = dyn_cast<VarDecl>(D)) St.push_back(varDecl(V));
    O["statics"] = std::move(St);
    if (const CXXDestructorDecl* D = R->getDestructor()) {
      O["dtor"] = usr(D);
      O["dtor_user"] = D->isUserProvided();
      O["dtor_virtual"] = D->isVirtual();
    }
    O["polymorphic"] = R->isPolymorphic();
    O["aggregate"] = R->isAggregate();
    O["copyctor_deleted"] = R->defaultedCopyConstructorIsDeleted();
    bool uc = false, um = false;
    for (const auto* K : R->ctors()) {
      if (K->isCopyConstructor() && K->isUserProvided()) uc = true;
      if (K->isMoveConstructor() && K->isUserProvided()) um = true;
    }
    O["user_copy"] = uc;
    O["user_move"] = um;
    return O;
  }

  Value enumeration(const EnumDecl* E) {
    Object O;
    O["qn"] = E->getQualifiedNameAsString();
    loc(O, E->getLocation());
    Array A;
    for (const auto* K : E->enumerators()) {
      llvm::SmallString<32> S;
      K->getInitVal().toString(S, 10);
      A.push_back(Array{K->getNameAsString(), std::string(S.str())});
    }
    O["consts"] = std::move(A);
    return O;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Dumper& D;
  Array Functions, Records, Enums, Vars, Decls;
  std::set<const Decl*> Seen;
  explicit Visitor(Dumper& D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool VisitFunctionDecl(FunctionDecl* F) {
    if (F->isDependentContext()) return true;
    if (const auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (!F->isThisDeclarationADefinition() || !F->hasBody()) return true;
    if (!D.inRoot(F) && !D.inRootAny(F)) return true;
    if (!Seen.insert(F).second) return true;
    Functions.push_back(D.function(F));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !D.inRoot(R)) return true;
    if (!Seen.insert(R).second) return true;
    Records.push_back(D.record(R));
    return true;
  }
  bool VisitEnumDecl(EnumDecl* E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !D.inRoot(E)) return true;
    Enums.push_back(D.enumeration(E));
    return true;
  }
  bool VisitVarDecl(VarDecl* V) {
    if (!V->hasGlobalStorage() || V->getDeclContext()->isDependentContext() || !D.inRoot(V)) return true;
    if (isa<ParmVarDecl>(V)) return true;
    Value O = D.varDecl(V);
    Object& Ob = *O.getAsObject();
    D.loc(Ob, V->getLocation());
    Ob["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    Vars.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& C) override {
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    Object O;
    O["functions"] = std::move(V.Functions);
    O["records"] = std::move(V.Records);
    O["enums"] = std::move(V.Enums);
    O["vars"] = std::move(V.Vars);
    O["errors"] = C.getDiagnostics().hasErrorOccurred();
    llvm::outs() << Value(std::move(O)) << "\n";
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
}  // namespace

int main(int argc, const char** argv) {
  if (argc < 4) return 2;
  Root = argv[1];
  std::string File = argv[2];
  int n = argc - 3;
  std::string Err;
  auto DB = tooling::FixedCompilationDatabase::loadFromCommandLine(n, argv + 3, Err);
  if (!DB) {
    llvm::errs() << "flags? " << Err << "\n";
    return 2;
  }
  tooling::ClangTool Tool(*DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
