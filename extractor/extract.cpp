// Clang plugin: exports, as JSON, the type-resolved syntax of every function body
// that lives under a given source root (template instantiations included), with
// resolved callees, the record layouts and the type table.  It takes no decision;
// the analyses in vfa/ do.
//
// usage: clang++ -fsyntax-only -fplugin=libextract.so -Xclang -plugin-arg-vfx
//        -Xclang root=/repo -Xclang -plugin-arg-vfx -Xclang out=FILE  x.cpp
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

namespace {

static Value apv(const llvm::APSInt &I) {
  if (I.isRepresentableByInt64()) return Value(I.getExtValue());
  return Value(llvm::toString(I, 10));
}

struct Ctx {
  ASTContext *AC = nullptr;
  SourceManager *SM = nullptr;
  std::string root, root2;
  std::map<const void *, int64_t> declIds;
  std::map<std::string, int64_t> typeIds;
  std::vector<Value> types;
  std::map<std::string, int64_t> fileIds;
  std::vector<Value> files;
  std::map<std::string, bool> recDone;
  std::vector<Value> records;
  std::set<std::string> fnDone;
  std::vector<Value> functions;
  std::vector<const FunctionDecl *> lambdaQueue;
  PrintingPolicy PP = PrintingPolicy(LangOptions());

  int64_t declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int64_t n = declIds.size() + 1;
    declIds[D] = n;
    return n;
  }
  std::string fileOf(SourceLocation L) {
    L = SM->getExpansionLoc(L);
    PresumedLoc P = SM->getPresumedLoc(L);
    if (P.isInvalid()) return "";
    std::string f = P.getFilename();
    llvm::SmallString<256> buf(f);
    SM->getFileManager().makeAbsolutePath(buf);
    llvm::sys::path::remove_dots(buf, true);
    return std::string(buf.str());
  }
  int64_t fileId(const std::string &f) {
    auto it = fileIds.find(f);
    if (it != fileIds.end()) return it->second;
    int64_t n = files.size();
    fileIds[f] = n;
    files.push_back(f);
    return n;
  }
  unsigned lineOf(SourceLocation L) {
    return SM->getExpansionLineNumber(L);
  }
  unsigned colOf(SourceLocation L) { return SM->getExpansionColumnNumber(L); }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return f.compare(0, root.size(), root) == 0 || (!root2.empty() && f.compare(0, root2.size(), root2) == 0);
  }

  std::string plainQual(const NamedDecl *D) {
    // qualified name without template arguments / inline namespaces
    std::string out = D->getNameAsString();
    if (auto *CD = dyn_cast<CXXConstructorDecl>(D)) out = CD->getParent()->getNameAsString();
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(D)) out = "~" + DD->getParent()->getNameAsString();
    else if (auto *CV = dyn_cast<CXXConversionDecl>(D)) { (void)CV; out = "operator conv"; }
    if (auto *RD = dyn_cast<CXXRecordDecl>(D)) if (RD->isLambda()) out = "(lambda)";
    const DeclContext *DC = D->getDeclContext();
    while (DC && !DC->isTranslationUnit()) {
      if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
        if (!NS->isInline() && !NS->isAnonymousNamespace()) out = NS->getNameAsString() + "::" + out;
      } else if (auto *RD = dyn_cast<CXXRecordDecl>(DC)) {
        if (RD->isLambda()) out = "(lambda)::" + out;
        else out = RD->getNameAsString() + "::" + out;
      } else if (auto *ED = dyn_cast<EnumDecl>(DC)) {
        if (!ED->getNameAsString().empty()) out = ED->getNameAsString() + "::" + out;
      } else if (auto *FD = dyn_cast<FunctionDecl>(DC)) {
        out = FD->getNameAsString() + "()::" + out;
      }
      DC = DC->getParent();
    }
    return out;
  }

  int64_t type(QualType Q) {
    if (Q.isNull()) return -1;
    QualType C = Q.getCanonicalType();
    std::string s = C.getAsString(PP);
    // lambdas print alike: make unique
    if (auto *RD = C->getAsCXXRecordDecl())
      if (RD->isLambda()) s = "lambda@" + std::to_string(declId(RD));
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    int64_t id = types.size();
    typeIds[s] = id;
    types.push_back(nullptr);
    Object o;
    o["s"] = s;
    if (C.isConstQualified()) o["const"] = true;
    const Type *T = C.getTypePtr();
    if (auto *R = dyn_cast<ReferenceType>(T)) {
      o["k"] = isa<RValueReferenceType>(R) ? "rref" : "ref";
      o["e"] = type(R->getPointeeType());
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      o["k"] = "ptr";
      o["e"] = type(P->getPointeeType());
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) {
      o["k"] = "array";
      o["e"] = type(A->getElementType());
      o["n"] = (int64_t)A->getSize().getZExtValue();
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      o["k"] = "array";
      o["e"] = type(A->getElementType());
    } else if (T->isBooleanType()) o["k"] = "bool";
    else if (T->isEnumeralType()) {
      o["k"] = "enum";
      auto *ED = cast<EnumType>(T)->getDecl();
      o["rec"] = plainQual(ED);
    } else if (T->isAnyCharacterType()) {
      o["k"] = "char";
      if (T->isUnsignedIntegerType()) o["u"] = true;
    } else if (T->isIntegerType()) {
      o["k"] = T->isUnsignedIntegerType() ? "uint" : "int";
      o["bits"] = (int64_t)AC->getTypeSize(T);
    } else if (T->isFloatingType()) {
      o["k"] = "float";
      o["bits"] = (int64_t)AC->getTypeSize(T);
    } else if (T->isVoidType()) o["k"] = "void";
    else if (T->isNullPtrType()) o["k"] = "nullptr";
    else if (auto *RD = T->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["rec"] = plainQual(RD);
      if (RD->isLambda()) { o["lambda"] = declId(RD); }
      if (auto *CTS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
        Array a;
        for (auto &TA : CTS->getTemplateArgs().asArray()) tmplArg(TA, a);
        o["args"] = std::move(a);
      }
      types[id] = Value(nullptr);
      record(RD);
    } else if (T->isMemberPointerType()) o["k"] = "memptr";
    else if (T->isFunctionType()) o["k"] = "fn";
    else o["k"] = "other";
    types[id] = std::move(o);
    return id;
  }
  void tmplArg(const TemplateArgument &TA, Array &a) {
    switch (TA.getKind()) {
    case TemplateArgument::Type: a.push_back(Object{{"t", type(TA.getAsType())}}); break;
    case TemplateArgument::Integral: a.push_back(Object{{"i", apv(TA.getAsIntegral())}}); break;
    case TemplateArgument::Pack:
      for (auto &X : TA.pack_elements()) tmplArg(X, a);
      break;
    default: a.push_back(nullptr);
    }
  }
  std::string recKey(const CXXRecordDecl *RD) {
    if (RD->isLambda()) return "lambda@" + std::to_string(declId(RD));
    return AC->getRecordType(RD).getCanonicalType().getAsString(PP);
  }
  void record(const CXXRecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD) return;
    if (!inRoot(RD->getLocation()) ) return;
    if (RD->isDependentType()) return;
    std::string key = recKey(RD);
    if (recDone.count(key)) return;
    recDone[key] = true;
    Object o;
    o["s"] = key;
    o["q"] = plainQual(RD);
    o["file"] = fileId(fileOf(RD->getLocation()));
    o["line"] = (int64_t)lineOf(RD->getLocation());
    if (RD->isLambda()) o["lambda"] = declId(RD);
    Array fs;
    for (auto *F : RD->fields()) {
      Object f;
      f["n"] = F->getNameAsString();
      f["t"] = type(F->getType());
      f["id"] = declId(F);
      f["mut"] = F->isMutable();
      f["acc"] = (int64_t)F->getAccess();
      f["line"] = (int64_t)lineOf(F->getLocation());
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        f["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    Array bs;
    for (auto &B : RD->bases()) bs.push_back(Object{{"t", type(B.getType())}});
    o["bases"] = std::move(bs);
    Array ms;
    for (auto *M : RD->methods()) {
      if (M->isImplicit()) continue;
      ms.push_back(Object{{"n", M->getNameAsString()}, {"id", fnKey(M)}, {"const", M->isConst()},
                          {"virt", M->isVirtual()}, {"static", M->isStatic()}, {"acc", (int64_t)M->getAccess()},
                          {"del", M->isDeleted()}});
    }
    o["methods"] = std::move(ms);
    records.push_back(std::move(o));
  }

  std::string fnKey(const FunctionDecl *FD) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      if (MD->getParent()->isLambda()) {
        os << "lambda@" << fileOf(MD->getLocation()) << ":" << lineOf(MD->getParent()->getLocation()) << ":"
           << colOf(MD->getParent()->getLocation()) << ":";
      } else os << recKey(MD->getParent()) << "::";
    }
    os << plainQual(FD) << " ";
    if (auto *TA = FD->getTemplateSpecializationArgs()) {
      os << "<";
      for (auto &A : TA->asArray()) { A.print(PP, os, true); os << ","; }
      os << ">";
    }
    os << FD->getType().getCanonicalType().getAsString(PP);
    return os.str();
  }
  Object fnRef(const FunctionDecl *FD) {
    Object o;
    o["q"] = plainQual(FD);
    o["n"] = FD->getNameAsString();
    const FunctionDecl *Def = FD->getDefinition();
    o["id"] = fnKey(FD);
    Array ps;
    for (auto *P : FD->parameters()) ps.push_back(type(P->getType()));
    o["pt"] = std::move(ps);
    if (auto *TSA = FD->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &TA : TSA->asArray()) tmplArg(TA, a);
      o["targs"] = std::move(a);
    }
    o["rt"] = type(FD->getReturnType());
    if (FD->isVariadic()) o["var"] = true;
    o["repo"] = Def ? inRoot(Def->getLocation()) : inRoot(FD->getLocation());
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      o["rec"] = plainQual(MD->getParent());
      o["recT"] = type(AC->getRecordType(MD->getParent()));
      if (MD->isConst()) o["const"] = true;
      if (MD->isStatic()) o["static"] = true;
      if (MD->isVirtual()) o["virt"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(MD)) {
        if (CD->isCopyOrMoveConstructor()) o["copy"] = true;
        if (CD->isDefaultConstructor()) o["defc"] = true;
        if (auto IC = CD->getInheritedConstructor()) o["inh"] = fnKey(IC.getConstructor());
      }
      if (MD->isDefaulted() || MD->isImplicit()) o["defaulted"] = true;
      if (MD->isCopyAssignmentOperator() || MD->isMoveAssignmentOperator()) o["assign"] = true;
    }
    return o;
  }

  void pos(Object &o, SourceLocation L) {
    if (L.isInvalid()) return;
    o["l"] = (int64_t)lineOf(L);
    o["f"] = fileId(fileOf(L));
  }
  Value exprs(const Expr *E) { return E ? expr(E) : Value(nullptr); }

  Object varDecl(const VarDecl *V) {
    Object v;
    v["k"] = "Var";
    v["id"] = declId(V);
    v["n"] = V->getNameAsString();
    v["t"] = type(V->getType());
    pos(v, V->getLocation());
    if (V->isStaticLocal()) v["static"] = true;
    if (V->hasGlobalStorage() && !V->isStaticLocal()) v["global"] = true;
    if (V->getInit()) v["init"] = expr(V->getInit());
    return v;
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // strip wrappers
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = X->getSemanticForm();
      else if (auto *X = dyn_cast<ChooseExpr>(E)) E = X->getChosenSubExpr();
      else break;
      if (!E) return nullptr;
    }
    Object o;
    pos(o, E->getExprLoc());
    o["t"] = type(E->getType());
    if (E->isLValue()) o["lv"] = true;
    else if (E->isXValue()) o["xv"] = true;
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      o["k"] = "Mat";
      o["c"] = Array{expr(X->getSubExpr())};
    } else if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "Int";
      o["v"] = X->getValue().isIntN(63) ? Value((int64_t)X->getValue().getZExtValue())
                                        : Value(llvm::toString(X->getValue(), 10, false));
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "Float";
      llvm::SmallString<64> b;
      X->getValue().toString(b, 25);
      o["v"] = std::string(b.str());
      // source spelling
      SourceLocation B = SM->getSpellingLoc(X->getBeginLoc());
      unsigned n = Lexer::MeasureTokenLength(B, *SM, AC->getLangOpts());
      const char *p = SM->getCharacterData(B);
      o["src"] = std::string(p, n);
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "Bool";
      o["v"] = X->getValue();
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "Char";
      o["v"] = (int64_t)X->getValue();
    } else if (auto *X = dyn_cast<clang::StringLiteral>(E)) {
      o["k"] = "Str";
      std::string s = X->getCharByteWidth() == 1 ? X->getString().str() : std::string("?");
      if (!json::isUTF8(s)) {
        std::string h;
        for (unsigned char c : s) { char b[8]; snprintf(b, 8, "\\x%02x", c); h += b; }
        o["hex"] = true;
        s = h;
      }
      o["v"] = s;
      o["len"] = (int64_t)X->getLength();
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "Null";
    } else if (isa<CXXThisExpr>(E)) {
      o["k"] = "This";
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "EnumC";
        o["v"] = apv(EC->getInitVal());
        o["n"] = EC->getNameAsString();
        o["q"] = plainQual(EC);
      } else if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "FnRef";
        o["fn"] = fnRef(FD);
      } else {
        o["k"] = "Ref";
        o["id"] = declId(D);
        o["n"] = D->getNameAsString();
        o["vt"] = type(D->getType());
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (V->hasGlobalStorage()) {
            o["global"] = true;
            o["q"] = plainQual(V);
            if (V->isStaticLocal()) o["static"] = true;
            gconst(o, V);
          }
          if (isa<ParmVarDecl>(V)) o["param"] = true;
        } else if (auto *B = dyn_cast<BindingDecl>(D)) {
          o["binding"] = exprs(B->getBinding());
        }
      }
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      o["k"] = "Mem";
      o["arrow"] = X->isArrow();
      o["n"] = D->getNameAsString();
      o["c"] = Array{expr(X->getBase())};
      if (auto *F = dyn_cast<FieldDecl>(D)) {
        o["id"] = declId(F);
        o["rec"] = plainQual(cast<NamedDecl>(F->getParent()));
        o["vt"] = type(F->getType());
      } else if (auto *FD = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "MemFn";
        o["fn"] = fnRef(FD);
      } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "EnumC";
        o["v"] = apv(EC->getInitVal());
        o["n"] = EC->getNameAsString();
        o["q"] = plainQual(EC);
      } else {
        o["k"] = "Ref";
        o["global"] = true;
        o["id"] = declId(D);
        o["q"] = plainQual(D);
        if (auto *V = dyn_cast<VarDecl>(D))
          gconst(o, V);
      }
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      call(o, X->getDirectCallee(), nullptr, X->getCallee(), X->arguments(), true);
      o["op"] = getOperatorSpelling(X->getOperator());
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      call(o, X->getMethodDecl(), X->getImplicitObjectArgument(), X->getCallee(), X->arguments(), false);
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
        if (ME->isArrow()) o["arrow"] = true;
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      call(o, X->getDirectCallee(), nullptr, X->getCallee(), X->arguments(), false);
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "Ctor";
      o["fn"] = fnRef(X->getConstructor());
      if (X->isListInitialization()) o["list"] = true;
      if (X->isElidable()) o["elidable"] = true;
      if (isa<CXXTemporaryObjectExpr>(E)) o["tmp"] = true;
      Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["args"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "InhCtor";
      o["fn"] = fnRef(X->getConstructor());
    } else if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) {
      cast_(o, X);
      o["style"] = "fun";
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      cast_(o, X);
      if (isa<ImplicitCastExpr>(E)) o["style"] = "imp";
      else o["style"] = "exp";
      if (isa<CXXDynamicCastExpr>(E)) o["style"] = "dyn";
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "CAssign";
      std::string s = BinaryOperator::getOpcodeStr(X->getOpcode()).str();
      s.pop_back();
      o["op"] = s;
      o["ct"] = type(X->getComputationResultType());
      o["c"] = Array{expr(X->getLHS()), expr(X->getRHS())};
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = "Bin";
      o["op"] = X->getOpcodeStr().str();
      o["c"] = Array{expr(X->getLHS()), expr(X->getRHS())};
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "Un";
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      // pointer-to-member / function address
      o["c"] = Array{expr(X->getSubExpr())};
    } else if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      o["k"] = "Cond";
      o["c"] = Array{expr(X->getCond()), expr(X->getTrueExpr()), expr(X->getFalseExpr())};
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "Sub";
      o["c"] = Array{expr(X->getBase()), expr(X->getIdx())};
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      o["k"] = "InitList";
      Array a;
      for (auto *A : X->inits()) a.push_back(expr(A));
      o["args"] = std::move(a);
      if (X->hasArrayFiller()) o["filler"] = expr(X->getArrayFiller());
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      o["k"] = "ValInit";
    } else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      o["k"] = "StdIL";
      o["c"] = Array{expr(X->getSubExpr())};
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "New";
      o["at"] = type(X->getAllocatedType());
      if (X->isArray()) {
        o["arr"] = true;
        if (auto sz = X->getArraySize()) o["size"] = exprs(*sz);
      }
      if (X->getInitializer()) o["init"] = expr(X->getInitializer());
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "Delete";
      o["arr"] = X->isArrayForm();
      o["c"] = Array{expr(X->getArgument())};
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "Throw";
      o["c"] = Array{exprs(X->getSubExpr())};
      if (X->getSubExpr()) o["tt"] = type(X->getSubExpr()->getType());
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "Lambda";
      const CXXMethodDecl *M = X->getCallOperator();
      Array caps;
      auto fi = X->getLambdaClass()->field_begin();
      auto ii = X->capture_init_begin();
      for (auto &C : X->captures()) {
        Object c;
        c["byref"] = C.getCaptureKind() == LCK_ByRef;
        if (C.capturesThis()) c["this"] = true;
        else if (C.capturesVariable()) {
          c["id"] = declId(C.getCapturedVar());
          c["n"] = C.getCapturedVar()->getNameAsString();
          if (X->isInitCapture(&C)) c["init"] = exprs(*ii);
        }
        caps.push_back(std::move(c));
        ++ii;
        (void)fi;
      }
      o["caps"] = std::move(caps);
      if (X->isGenericLambda()) o["generic"] = true;
      o["fn"] = fnRef(M);
      if (!M->isDependentContext()) function(M, true);
    } else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      o["k"] = "SizeOf";
      Expr::EvalResult R;
      if (!E->isValueDependent() && X->EvaluateAsInt(R, *AC)) o["v"] = apv(R.Val.getInt());
    } else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr()) return expr(X->getSourceExpr());
      o["k"] = "Opaque";
    } else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      o["k"] = "ArrCopy";
      o["c"] = Array{expr(X->getCommonExpr())};
    } else if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      (void)X;
      o["k"] = "Other";
      o["cls"] = E->getStmtClassName();
    } else {
      o["k"] = "Other";
      o["cls"] = E->getStmtClassName();
      Array a;
      for (auto *S : E->children())
        if (auto *SE = dyn_cast_or_null<Expr>(S)) a.push_back(expr(SE));
      o["c"] = std::move(a);
    }
    return o;
  }
  void gconst(Object &o, const VarDecl *V) {
    const VarDecl *D2 = nullptr;
    if (!V->getType().isConstQualified() || !V->getType()->isArithmeticType()) return;
    const Expr *I = V->getAnyInitializer(D2);
    if (!I || !D2 || I->isValueDependent() || !D2->getInit()) return;
    if (auto *AV = D2->evaluateValue()) constVal(o, *AV);
  }
  void constVal(Object &o, const APValue &AV) {
    if (AV.isInt()) o["cv"] = apv(AV.getInt());
    else if (AV.isFloat()) {
      llvm::SmallString<64> b;
      AV.getFloat().toString(b, 25);
      o["cvf"] = std::string(b.str());
    }
  }
  void cast_(Object &o, const CastExpr *X) {
    o["k"] = "Cast";
    o["ck"] = X->getCastKindName();
    o["c"] = Array{expr(X->getSubExpr())};
  }
  template <class R>
  void call(Object &o, const FunctionDecl *FD, const Expr *obj, const Expr *callee, R args, bool isOp) {
    o["k"] = "Call";
    Array a;
    for (const Expr *A : args) a.push_back(expr(A));
    o["args"] = std::move(a);
    if (FD) {
      o["fn"] = fnRef(FD);
      if (isOp && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) o["opm"] = true;
      if (auto *MD = dyn_cast<CXXMethodDecl>(FD))
        if (MD->getParent()->isLambda()) function(MD, true);
    } else o["fexpr"] = exprs(callee);
    if (obj) o["obj"] = expr(obj);
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      Object o;
      o["k"] = "Expr";
      pos(o, S->getBeginLoc());
      o["e"] = expr(E);
      return o;
    }
    Object o;
    pos(o, S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "Block";
      Array a;
      for (auto *C : X->body()) a.push_back(stmt(C));
      o["c"] = std::move(a);
      o["le"] = (int64_t)lineOf(X->getRBracLoc());
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "Decl";
      Array a;
      for (auto *D : X->decls()) {
        if (auto *DD = dyn_cast<DecompositionDecl>(D)) {
          Object v = varDecl(DD);
          Array bs;
          for (auto *B : DD->bindings())
            bs.push_back(Object{{"id", declId(B)}, {"n", B->getNameAsString()}, {"e", exprs(B->getBinding())}});
          v["bindings"] = std::move(bs);
          a.push_back(std::move(v));
        } else if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
      }
      o["c"] = std::move(a);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "If";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
      o["cond"] = expr(X->getCond());
      o["then"] = stmt(X->getThen());
      o["else"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "For";
      o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
      o["cond"] = exprs(X->getCond());
      o["inc"] = exprs(X->getInc());
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "While";
      if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
      o["cond"] = exprs(X->getCond());
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "Do";
      o["cond"] = exprs(X->getCond());
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "RangeFor";
      o["range"] = exprs(X->getRangeInit());
      o["var"] = varDecl(X->getLoopVariable());
      if (auto *DD = dyn_cast<DecompositionDecl>(X->getLoopVariable())) {
        Array bs;
        for (auto *B : DD->bindings())
          bs.push_back(Object{{"id", declId(B)}, {"n", B->getNameAsString()}, {"e", exprs(B->getBinding())}});
        o["bindings"] = std::move(bs);
      }
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "Return";
      o["e"] = exprs(X->getRetValue());
    } else if (isa<BreakStmt>(S)) o["k"] = "Break";
    else if (isa<ContinueStmt>(S)) o["k"] = "Continue";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "Switch";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cvar"] = varDecl(X->getConditionVariable());
      o["cond"] = exprs(X->getCond());
      o["body"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "Case";
      o["e"] = exprs(X->getLHS());
      Expr::EvalResult R;
      if (X->getLHS() && !X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, *AC))
        o["v"] = apv(R.Val.getInt());
      if (X->getRHS()) o["range"] = true;
      o["body"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "Default";
      o["body"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "Try";
      o["body"] = stmt(X->getTryBlock());
      Array a;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto *H = X->getHandler(i);
        Object h;
        pos(h, H->getBeginLoc());
        if (H->getExceptionDecl()) h["var"] = varDecl(H->getExceptionDecl());
        else h["all"] = true;
        if (!H->getCaughtType().isNull()) h["ct"] = type(H->getCaughtType());
        h["body"] = stmt(H->getHandlerBlock());
        a.push_back(std::move(h));
      }
      o["handlers"] = std::move(a);
    } else if (isa<NullStmt>(S)) o["k"] = "Null";
    else if (auto *X = dyn_cast<LabelStmt>(S)) {
      o["k"] = "Label";
      o["n"] = X->getName();
      o["body"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<GotoStmt>(S)) {
      o["k"] = "Goto";
      o["n"] = X->getLabel()->getNameAsString();
    } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
      return stmt(X->getSubStmt());
    } else {
      o["k"] = "OtherS";
      o["cls"] = S->getStmtClassName();
    }
    return o;
  }

  void function(const FunctionDecl *FD, bool lambda = false) {
    const FunctionDecl *Def = nullptr;
    if (!FD->hasBody(Def) || !Def) return;
    FD = Def;
    if (FD->isDependentContext()) return;
    if (!inRoot(FD->getLocation())) return;
    if (FD->isDefaulted() && !FD->isUserProvided()) return;
    std::string key = fnKey(FD);
    if (fnDone.count(key)) return;
    fnDone.insert(key);
    Object o = fnRef(FD);
    o["file"] = fileId(fileOf(FD->getLocation()));
    o["line"] = (int64_t)lineOf(FD->getLocation());
    o["lend"] = (int64_t)lineOf(FD->getEndLoc());
    o["acc"] = (int64_t)FD->getAccess();
    if (lambda) o["lambda"] = true;
    if (isa<CXXConstructorDecl>(FD)) o["kind"] = "ctor";
    else if (isa<CXXDestructorDecl>(FD)) o["kind"] = "dtor";
    else if (isa<CXXMethodDecl>(FD)) o["kind"] = "method";
    else o["kind"] = "fn";
    Array ps;
    for (auto *P : FD->parameters()) ps.push_back(varDecl(P));
    o["params"] = std::move(ps);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      Array is;
      for (auto *I : CD->inits()) {
        Object i;
        if (I->isAnyMemberInitializer()) {
          i["m"] = I->getAnyMember()->getNameAsString();
          i["vt"] = type(I->getAnyMember()->getType());
        } else if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) i["deleg"] = true;
        if (I->isWritten()) i["w"] = true;
        i["e"] = exprs(I->getInit());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(FD->getBody());
    functions.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Ctx &C;
  std::vector<Value> globals;
  V(Ctx &c) : C(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (FD->isThisDeclarationADefinition()) C.function(FD);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *RD) {
    if (RD->isThisDeclarationADefinition() && !RD->isDependentType()) C.record(RD);
    return true;
  }
  bool VisitVarDecl(VarDecl *VD) {
    if (VD->hasGlobalStorage() && !VD->isStaticLocal() && VD->isThisDeclarationADefinition() &&
        C.inRoot(VD->getLocation()) && !VD->getDeclContext()->isDependentContext()) {
      Object v = C.varDecl(VD);
      v["q"] = C.plainQual(VD);
      globals.push_back(std::move(v));
    }
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  std::string root, root2, out;
  CompilerInstance &CI;
  Consumer(CompilerInstance &ci, std::string r, std::string r2, std::string o) : root(r), root2(r2), out(o), CI(ci) {}
  void HandleTranslationUnit(ASTContext &AC) override {
    Ctx C;
    C.AC = &AC;
    C.SM = &AC.getSourceManager();
    C.root = root;
    C.root2 = root2;
    C.PP = PrintingPolicy(AC.getLangOpts());
    C.PP.SuppressTagKeyword = true;
    V v(C);
    v.TraverseDecl(AC.getTranslationUnitDecl());
    Object o;
    o["functions"] = std::move(C.functions);
    o["records"] = std::move(C.records);
    o["types"] = std::move(C.types);
    o["files"] = std::move(C.files);
    o["globals"] = std::move(v.globals);
    o["errors"] = (int64_t)CI.getDiagnostics().hasErrorOccurred();
    std::error_code EC;
    llvm::raw_fd_ostream os(out, EC);
    os << Value(std::move(o));
  }
};

class Action : public PluginASTAction {
  std::string root = "/repo", root2, out = "out.json";
protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Consumer>(CI, root, root2, out);
  }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &args) override {
    for (auto &a : args) {
      if (a.compare(0, 5, "root=") == 0) root = a.substr(5);
      if (a.compare(0, 6, "root2=") == 0) root2 = a.substr(6);
      if (a.compare(0, 4, "out=") == 0) out = a.substr(4);
    }
    if (!root.empty() && root.back() != '/') root += '/';
    return true;
  }
  PluginASTAction::ActionType getActionType() override { return ReplaceAction; }
};
} // namespace
static FrontendPluginRegistry::Add<Action> X("vfx", "export type-resolved syntax as JSON");
