// Dumps, for one translation unit, every function with a body that is defined
// under the given source root (template instantiations, lambdas and implicit
// members included) as a three-address view of clang's own CFG, together with
// the record declarations. The output is one JSON document on stdout.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <unordered_map>

using namespace clang;
using namespace llvm;
typedef json::Value JV;
typedef json::Array JA;
typedef json::Object JO;

static std::string theRoot;
static std::string theExtraRoot;

static JV Num(const APSInt& i)
{
	if (i.isRepresentableByInt64()) return i.getExtValue();
	return (uint64_t)*i.getRawData();
}

static const Stmt* Strip(const Stmt* s)
{
	while (s != nullptr) {
		if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
		else if (auto* e = dyn_cast<FullExpr>(s)) s = e->getSubExpr();
		else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
		else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) s = e->getExpr();
		else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) s = e->getExpr();
		else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
		else if (auto* e = dyn_cast<GenericSelectionExpr>(s)) s = e->getResultExpr();
		else if (auto* e = dyn_cast<OpaqueValueExpr>(s)) { if (e->getSourceExpr() == nullptr) break; s = e->getSourceExpr(); }
		else break;
	}
	return s;
}

static const Stmt* StripForCtor(const Stmt* s)
{
	while (true) {
		const Stmt* n = Strip(s);
		if (n == nullptr) return nullptr;
		if (auto* e = dyn_cast<CXXBindTemporaryExpr>(n)) n = e->getSubExpr();
		else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(n)) n = e->getSubExpr();
		else if (auto* e = dyn_cast<ImplicitCastExpr>(n)) {
			if (e->getCastKind() == CK_NoOp || e->getCastKind() == CK_ConstructorConversion || e->getCastKind() == CK_UserDefinedConversion)
				n = e->getSubExpr();
		} else if (auto* e = dyn_cast<CXXFunctionalCastExpr>(n)) {
			if (e->getCastKind() == CK_NoOp || e->getCastKind() == CK_ConstructorConversion)
				n = e->getSubExpr();
		}
		if (n == s) return s;
		s = n;
	}
}

struct Dumper
{
	ASTContext& ctx;
	SourceManager& sm;
	PrintingPolicy pp;
	JO out;
	JA funcs;
	JA records;
	JA globals;
	std::set<std::string> seenFuncs;
	std::set<std::string> seenRecords;

	// Per function.
	std::unordered_map<const Stmt*, int> sids;
	std::unordered_map<const Decl*, int> dids;
	std::unordered_map<const Stmt*, JV*> ctorTargets;
	std::unordered_map<const Stmt*, json::Value> targets;
	const FunctionDecl* curFn = nullptr;
	std::string curFile;

	Dumper(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts())
	{
		pp.SuppressTagKeyword = true;
		pp.Bool = true;
		pp.SuppressUnwrittenScope = true;
		pp.AnonymousTagLocations = false;
	}

	std::string USR(const Decl* d)
	{
		SmallString<256> buf;
		index::generateUSRForDecl(d, buf);
		std::string r = buf.str().str();
		// Closure types have USRs which depend on locations. Good enough.
		return r;
	}
	std::string QN(const NamedDecl* d)
	{
		std::string s;
		raw_string_ostream os(s);
		d->printQualifiedName(os, pp);
		return os.str();
	}
	// Pointers sharing one place in a union are the same thing.
	std::string FieldName(const FieldDecl* f)
	{
		const RecordDecl* r = f->getParent();
		if (!r->isUnion()) return f->getNameAsString();
		std::string res;
		for (auto* x : r->fields()) {
			if (!x->getType()->isPointerType()) return f->getNameAsString();
			if (res.empty()) res = x->getNameAsString();
		}
		return res;
	}

	std::string RecName(const CXXRecordDecl* r)
	{
		if (r == nullptr) return "";
		if (r->isLambda()) {
			PresumedLoc pl = sm.getPresumedLoc(sm.getExpansionLoc(r->getLocation()));
			return "lambda@" + std::to_string(pl.isValid() ? pl.getLine() : 0) + ":" + std::to_string(pl.isValid() ? pl.getColumn() : 0);
		}
		std::string s = QualType(r->getTypeForDecl(), 0).getCanonicalType().getAsString(pp);
		return s;
	}
	std::string TN(QualType t)
	{
		if (t.isNull()) return "";
		return t.getCanonicalType().getAsString(pp);
	}
	std::string FileOf(SourceLocation l)
	{
		PresumedLoc pl = sm.getPresumedLoc(sm.getExpansionLoc(l));
		return pl.isValid() ? std::string(pl.getFilename()) : std::string();
	}
	int LineOf(SourceLocation l)
	{
		PresumedLoc pl = sm.getPresumedLoc(sm.getExpansionLoc(l));
		return pl.isValid() ? (int)pl.getLine() : 0;
	}
	bool InRoot(SourceLocation l)
	{
		std::string f = FileOf(l);
		return StringRef(f).starts_with(theRoot) || (!theExtraRoot.empty() && StringRef(f).starts_with(theExtraRoot));
	}
	int Did(const Decl* d)
	{
		d = d->getCanonicalDecl();
		auto it = dids.find(d);
		if (it != dids.end()) return it->second;
		int id = (int)dids.size() + 1;
		dids[d] = id;
		return id;
	}
	JV Ref(const Stmt* s)
	{
		s = Strip(s);
		if (s == nullptr) return nullptr;
		auto it = sids.find(s);
		if (it != sids.end()) return it->second;
		return Ex(s);
	}
	JV Args(CallExpr::const_arg_range r)
	{
		JA a;
		for (const Expr* e : r) a.push_back(Ref(e));
		return a;
	}
	JO FnRef(const FunctionDecl* f)
	{
		JO o;
		o["id"] = USR(f);
		o["qn"] = QN(f);
		o["n"] = f->getNameAsString();
		if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
			o["cls"] = RecName(m->getParent());
			if (m->isStatic()) o["static"] = true;
			if (m->isConst()) o["const"] = true;
		}
		if (f->isNoReturn()) o["noret"] = true;
		if (f->isVariadic()) o["variadic"] = true;
		return o;
	}
	void ParamKinds(JO& o, const FunctionDecl* f)
	{
		JA a;
		for (const ParmVarDecl* p : f->parameters()) {
			QualType t = p->getType();
			std::string k = "v";
			if (t->isReferenceType()) {
				k = t->getPointeeType().isConstQualified() ? "cr" : "r";
			} else if (t->isPointerType()) {
				k = t->getPointeeType().isConstQualified() ? "cp" : "p";
			} else if (t->isRecordType()) k = "o";
			a.push_back(k);
		}
		o["pk"] = std::move(a);
	}
	JV VarRef(const VarDecl* v, bool cap)
	{
		if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) {
			JA a{ "var", Did(v), v->getNameAsString() };
			a.push_back(cap ? 1 : 0);
			a.push_back(v->getType()->isReferenceType() ? 1 : 0);
			if (v->isInitCapture()) {}
			return a;
		}
		JA a{ "gvar", QN(v), v->getType()->isReferenceType() ? 1 : 0, TN(v->getType()) };
		if (v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType()) {
			if (v->hasInit()) {
				const Expr* init = v->getAnyInitializer();
				Expr::EvalResult r;
				if (init && !init->isValueDependent() && init->EvaluateAsInt(r, ctx))
					a.push_back(Num(r.Val.getInt()));
			}
		} else if (v->getType().isConstQualified() && v->getType()->isRecordType() && v->hasInit()) {
			const Expr* init = v->getAnyInitializer();
			const RecordDecl* rd = v->getType()->getAs<RecordType>()->getDecl();
			if (init && !init->isValueDependent() && !rd->isUnion()) {
				const APValue* val = v->evaluateValue();
				JA fields;
				if (val && val->isStruct()) {
					for (const FieldDecl* fd : rd->fields()) {
						const APValue& x = val->getStructField(fd->getFieldIndex());
						if (x.isInt())
							fields.push_back(JA{ fd->getNameAsString(), Num(x.getInt()) });
					}
				}
				if (!fields.empty())
					a.push_back(std::move(fields));
			}
		}
		return a;
	}
	JV TypeInfo(QualType t)
	{
		JA a;
		a.push_back(TN(t));
		if (t->isIntegralOrEnumerationType() && !t->isIncompleteType() && !t->isDependentType()) {
			a.push_back((int64_t)ctx.getTypeSize(t));
			a.push_back(t->isUnsignedIntegerOrEnumerationType() ? 0 : 1);
		}
		return a;
	}
	// Value of an expression as json. The children are referenced by id when
	// they are CFG elements on their own.
	JV Ex(const Stmt* s)
	{
		if (auto* e = dyn_cast<Expr>(s)) {
			if (!e->isValueDependent() && !isa<CXXConstructExpr>(e) && !isa<CallExpr>(e) && !isa<InitListExpr>(e)) {
				if (isa<IntegerLiteral>(e) || isa<CharacterLiteral>(e) || isa<CXXBoolLiteralExpr>(e) ||
					isa<UnaryExprOrTypeTraitExpr>(e) || isa<TypeTraitExpr>(e) || isa<OffsetOfExpr>(e) ||
					isa<CXXNoexceptExpr>(e) || isa<SizeOfPackExpr>(e) || isa<ConceptSpecializationExpr>(e)) {
					Expr::EvalResult r;
					if (e->EvaluateAsInt(r, ctx)) {
						if (auto* u = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
							if (u->getKind() == UETT_SizeOf)
								return JA{ "int", Num(r.Val.getInt()), "sizeof", TN(u->getTypeOfArgument()) };
						}
						APSInt v = r.Val.getInt();
						if (v.isUnsigned() && v.getActiveBits() > 63)
							return JA{ "int", std::string("u") + toString(v, 10) };
						return JA{ "int", Num(v) };
					}
				}
			}
		}
		if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) return JA{ "null" };
		if (auto* e = dyn_cast<clang::StringLiteral>(s)) {
			if (e->isOrdinary() || e->isUTF8()) {
				std::string str = e->getString().str();
				if (!json::isUTF8(str)) str = json::fixUTF8(str);
				return JA{ "str", str };
			}
			return JA{ "str", "" };
		}
		if (isa<PredefinedExpr>(s)) return JA{ "str", "func" };
		if (isa<FloatingLiteral>(s)) return JA{ "opaque", "float" };
		if (auto* e = dyn_cast<DeclRefExpr>(s)) {
			if (auto* v = dyn_cast<VarDecl>(e->getDecl()))
				return VarRef(v, e->refersToEnclosingVariableOrCapture());
			if (auto* c = dyn_cast<EnumConstantDecl>(e->getDecl()))
				return JA{ "int", Num(c->getInitVal()), QN(c) };
			if (auto* f = dyn_cast<FunctionDecl>(e->getDecl())) {
				return JA{ "fn", FnRef(f) };
			}
			if (auto* b = dyn_cast<BindingDecl>(e->getDecl()))
				return JA{ "var", Did(b), b->getNameAsString(), 0, 1 };
			return JA{ "opaque", "declref" };
		}
		if (auto* e = dyn_cast<MemberExpr>(s)) {
			if (auto* f = dyn_cast<FieldDecl>(e->getMemberDecl())) {
				// Members of anonymous structs and unions belong to the outer one.
				while (auto* o = dyn_cast<MemberExpr>(e->getBase()->IgnoreParens())) {
					auto* of = dyn_cast<FieldDecl>(o->getMemberDecl());
					if (of == nullptr || !of->isAnonymousStructOrUnion()) break;
					e = o;
				}
				return JA{ "fld", Ref(e->getBase()), e->isArrow() ? 1 : 0, FieldName(f),
					RecName(dyn_cast<CXXRecordDecl>(f->getParent())), TN(f->getType()), f->getType()->isReferenceType() ? 1 : 0 };
			}
			if (auto* v = dyn_cast<VarDecl>(e->getMemberDecl()))
				return VarRef(v, false);
			if (auto* c = dyn_cast<EnumConstantDecl>(e->getMemberDecl()))
				return JA{ "int", Num(c->getInitVal()), QN(c) };
			if (auto* m = dyn_cast<CXXMethodDecl>(e->getMemberDecl()))
				return JA{ "mfn", Ref(e->getBase()), e->isArrow() ? 1 : 0, FnRef(m) };
			return JA{ "opaque", "member" };
		}
		if (auto* e = dyn_cast<CastExpr>(s)) {
			JV sub = Ref(e->getSubExpr());
			switch (e->getCastKind()) {
			case CK_LValueToRValue:
				return JA{ "load", std::move(sub), TypeInfo(e->getType()) };
			case CK_DerivedToBase:
			case CK_UncheckedDerivedToBase:
			case CK_BaseToDerived:
			case CK_Dynamic: {
				QualType t = e->getType();
				if (t->isPointerType() || t->isReferenceType()) t = t->getPointeeType();
				return JA{ "bcast", std::move(sub), e->getCastKind() == CK_BaseToDerived ? "down" :
					(e->getCastKind() == CK_Dynamic ? "dyn" : "up"), TN(t.getUnqualifiedType()), e->getType()->isPointerType() ? 1 : 0 };
			}
			case CK_ArrayToPointerDecay:
				return JA{ "decay", std::move(sub) };
			case CK_NullToPointer:
				return JA{ "null" };
			case CK_PointerToBoolean:
			case CK_IntegralToBoolean:
				return JA{ "tobool", std::move(sub) };
			case CK_IntegralCast:
			case CK_BooleanToSignedIntegral:
				return JA{ "icast", std::move(sub), TypeInfo(e->getType()), TypeInfo(e->getSubExpr()->getType()) };
			case CK_ToVoid:
				return JA{ "void", std::move(sub) };
			case CK_BitCast:
			case CK_ReinterpretMemberPointer:
			case CK_LValueBitCast:
			case CK_IntegralToPointer:
			case CK_PointerToIntegral:
				return JA{ "rcast", std::move(sub), TN(e->getType()) };
			default:
				return JA{ "pass", std::move(sub) };
			}
		}
		if (auto* e = dyn_cast<UnaryOperator>(s)) {
			JV sub = Ref(e->getSubExpr());
			switch (e->getOpcode()) {
			case UO_AddrOf: return JA{ "addr", std::move(sub) };
			case UO_Deref: return JA{ "deref", std::move(sub) };
			case UO_LNot: return JA{ "not", std::move(sub) };
			case UO_PreInc: return JA{ "incdec", "+", std::move(sub), 1, TypeInfo(e->getType()) };
			case UO_PostInc: return JA{ "incdec", "+", std::move(sub), 0, TypeInfo(e->getType()) };
			case UO_PreDec: return JA{ "incdec", "-", std::move(sub), 1, TypeInfo(e->getType()) };
			case UO_PostDec: return JA{ "incdec", "-", std::move(sub), 0, TypeInfo(e->getType()) };
			case UO_Extension: case UO_Plus: return JA{ "pass", std::move(sub) };
			default: return JA{ "un", UnaryOperator::getOpcodeStr(e->getOpcode()).str(), std::move(sub), TypeInfo(e->getType()) };
			}
		}
		if (auto* e = dyn_cast<BinaryOperator>(s)) {
			JV l = Ref(e->getLHS());
			if (e->isPtrMemOp()) {
				const Expr* m = e->getRHS();
				for (;;) {
					m = m->IgnoreParenImpCasts();
					if (auto* n = dyn_cast<SubstNonTypeTemplateParmExpr>(m)) { m = n->getReplacement(); continue; }
					if (auto* n = dyn_cast<ConstantExpr>(m)) { m = n->getSubExpr(); continue; }
					if (auto* n = dyn_cast<UnaryOperator>(m)) { if (n->getOpcode() == UO_AddrOf) { m = n->getSubExpr(); continue; } }
					break;
				}
				if (auto* n = dyn_cast<DeclRefExpr>(m))
					if (auto* f = dyn_cast<FieldDecl>(n->getDecl()))
						return JA{ "fld", std::move(l), e->getOpcode() == BO_PtrMemI ? 1 : 0, f->getNameAsString(),
							RecName(dyn_cast<CXXRecordDecl>(f->getParent())), TN(f->getType()), f->getType()->isReferenceType() ? 1 : 0 };
			}
			JV r = Ref(e->getRHS());
			if (e->getOpcode() == BO_Assign) return JA{ "assign", std::move(l), std::move(r), TypeInfo(e->getType()) };
			if (e->isCompoundAssignmentOp())
				return JA{ "cassign", BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(e->getOpcode())).str(), std::move(l), std::move(r), TypeInfo(e->getType()) };
			if (e->getOpcode() == BO_Comma) return JA{ "comma", std::move(l), std::move(r) };
			if (e->isLogicalOp()) return JA{ "logic", e->getOpcodeStr().str(), std::move(l), std::move(r) };
			return JA{ "bin", e->getOpcodeStr().str(), std::move(l), std::move(r), TypeInfo(e->getLHS()->getType()), TypeInfo(e->getType()) };
		}
		if (isa<CXXThisExpr>(s)) {
			bool cap = false;
			if (auto* m = dyn_cast_or_null<CXXMethodDecl>(curFn)) cap = m->getParent()->isLambda();
			return JA{ "this", cap ? 1 : 0 };
		}
		if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
			const CXXConstructorDecl* c = e->getConstructor();
			JO o = FnRef(c);
			ParamKinds(o, c);
			JA a;
			for (const Expr* x : e->arguments()) a.push_back(Ref(x));
			o["args"] = std::move(a);
			o["type"] = TN(e->getType().getUnqualifiedType());
			if (e->isElidable()) o["elide"] = true;
			if (c->isCopyConstructor()) o["copy"] = true;
			if (c->isMoveConstructor()) o["move"] = true;
			if (c->isDefaulted()) o["defaulted"] = true;
			if (c->isTrivial()) o["trivial"] = true;
			if (e->requiresZeroInitialization()) o["zero"] = true;
			auto it = targets.find(s);
			if (it != targets.end()) o["target"] = it->second;
			return JA{ "ctor", std::move(o) };
		}
		if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
			JO o = FnRef(e->getConstructor());
			o["args"] = JA();
			o["type"] = TN(e->getType());
			o["inherited"] = true;
			return JA{ "ctor", std::move(o) };
		}
		if (auto* e = dyn_cast<CallExpr>(s)) {
			JO o;
			const FunctionDecl* f = e->getDirectCallee();
			if (f != nullptr) {
				o = FnRef(f);
				ParamKinds(o, f);
			}
			unsigned argStart = 0;
			if (auto* m = dyn_cast<CXXMemberCallExpr>(e)) {
				const Expr* ob = m->getImplicitObjectArgument();
				if (ob != nullptr) o["obj"] = Ref(ob);
				if (ob != nullptr && ob->getType()->isPointerType()) o["arrow"] = true;
				if (auto* md = m->getMethodDecl()) {
					if (md->isVirtual()) {
						bool qualified = false;
						if (auto* me = dyn_cast<MemberExpr>(Strip(m->getCallee()))) qualified = me->hasQualifier();
						if (!qualified) o["virt"] = true;
					}
				} else {
					o["fp"] = Ref(m->getCallee());
				}
			} else if (auto* oc = dyn_cast<CXXOperatorCallExpr>(e)) {
				if (f != nullptr && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) {
					o["obj"] = Ref(oc->getArg(0));
					argStart = 1;
					if (cast<CXXMethodDecl>(f)->isVirtual()) o["virt"] = true;
				}
			} else if (f == nullptr) {
				o["fp"] = Ref(e->getCallee());
				o["fpt"] = TN(e->getCallee()->getType());
			}
			JA a;
			for (unsigned i = argStart; i < e->getNumArgs(); ++i) a.push_back(Ref(e->getArg(i)));
			o["args"] = std::move(a);
			o["type"] = TN(e->getType());
			o["ti"] = TypeInfo(e->getType());
			if (e->isGLValue()) o["lv"] = true;
			return JA{ "call", std::move(o) };
		}
		if (auto* e = dyn_cast<CXXNewExpr>(s)) {
			JA pl;
			for (unsigned i = 0; i < e->getNumPlacementArgs(); ++i) pl.push_back(Ref(e->getPlacementArg(i)));
			JO o{ { "type", TN(e->getAllocatedType()) }, { "place", std::move(pl) }, { "arr", e->isArray() } };
			if (e->getInitializer()) o["init"] = Ref(e->getInitializer());
			if (e->isArray() && e->getArraySize()) o["size"] = Ref(*e->getArraySize());
			if (e->getOperatorNew()) o["op"] = QN(e->getOperatorNew());
			return JA{ "new", std::move(o) };
		}
		if (auto* e = dyn_cast<CXXDeleteExpr>(s)) {
			JO o{ { "arg", Ref(e->getArgument()) }, { "type", TN(e->getDestroyedType()) }, { "arr", e->isArrayForm() } };
			if (auto* r = e->getDestroyedType()->getAsCXXRecordDecl()) {
				if (r->hasDefinition()) {
					if (auto* d = r->getDestructor()) {
						o["dtor"] = FnRef(d);
						if (d->isVirtual()) o["virt"] = true;
					}
				}
			}
			return JA{ "delete", std::move(o) };
		}
		if (auto* e = dyn_cast<ArraySubscriptExpr>(s))
			return JA{ "idx", Ref(e->getBase()), Ref(e->getIdx()) };
		if (auto* e = dyn_cast<AbstractConditionalOperator>(s))
			return JA{ "cond", Ref(e->getCond()), Ref(e->getTrueExpr()), Ref(e->getFalseExpr()) };
		if (auto* e = dyn_cast<InitListExpr>(s)) {
			JA a;
			for (const Expr* x : e->inits()) a.push_back(Ref(x));
			JA fl;
			if (auto* r = e->getType()->getAsCXXRecordDecl())
				for (auto* f : r->fields()) fl.push_back(f->getNameAsString());
			return JA{ "initlist", std::move(a), TN(e->getType()), std::move(fl) };
		}
		if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s))
			return JA{ "zero", TN(cast<Expr>(s)->getType()) };
		if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s))
			return JA{ "mat", Ref(e->getSubExpr()), TN(e->getType()) };
		if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s))
			return JA{ "pass", Ref(e->getSubExpr()) };
		if (auto* e = dyn_cast<LambdaExpr>(s)) {
			JA caps;
			auto init = e->capture_init_begin();
			for (auto& c : e->captures()) {
				JA one;
				if (c.capturesThis()) one = JA{ "this", c.getCaptureKind() == LCK_StarThis ? 0 : 1 };
				else if (c.capturesVariable()) {
					auto* v = c.getCapturedVar();
					one = JA{ v->getNameAsString(), c.getCaptureKind() == LCK_ByRef ? 1 : 0 };
				} else one = JA{ "", 0 };
				if (*init) one.push_back(Ref(*init));
				caps.push_back(std::move(one));
				++init;
			}
			return JA{ "lambda", RecName(e->getLambdaClass()), std::move(caps), FnRef(e->getCallOperator()) };
		}
		if (auto* e = dyn_cast<CoroutineSuspendExpr>(s)) {
			return JA{ isa<CoawaitExpr>(s) ? "coawait" : "coyield", Ref(e->getOperand()) };
		}
		if (auto* r = dyn_cast<ReturnStmt>(s)) {
			if (r->getRetValue()) return JA{ "ret", Ref(r->getRetValue()) };
			return JA{ "ret" };
		}
		if (auto* d = dyn_cast<DeclStmt>(s)) {
			JA l;
			for (auto* x : d->decls()) {
				auto* v = dyn_cast<VarDecl>(x);
				if (v == nullptr) continue;
				JA one{ Did(v), v->getNameAsString(), TN(v->getType()), v->getType()->isReferenceType() ? 1 : 0, v->isStaticLocal() ? 1 : 0 };
				if (v->getInit()) one.push_back(Ref(v->getInit()));
				else one.push_back(nullptr);
				one.push_back(v->isStaticLocal() ? QN(v) : std::string());
				l.push_back(std::move(one));
			}
			return JA{ "decl", std::move(l) };
		}
		if (auto* e = dyn_cast<CXXThrowExpr>(s)) { (void)e; return JA{ "throw" }; }
		if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s))
			return JA{ "pass", Ref(e->getSemanticForm()) };
		if (auto* e = dyn_cast<VAArgExpr>(s)) { (void)e; return JA{ "opaque", "va_arg" }; }
		if (auto* e = dyn_cast<Expr>(s)) {
			Expr::EvalResult r;
			if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, ctx))
				return JA{ "int", Num(r.Val.getInt()) };
		}
		JA kids;
		for (const Stmt* c : s->children())
			if (c) kids.push_back(Ref(c));
		return JA{ "opaque", s->getStmtClassName(), std::move(kids) };
	}
	void CollectTargets(const FunctionDecl* f)
	{
		struct V : RecursiveASTVisitor<V> {
			Dumper* d;
			bool shouldVisitImplicitCode() const { return true; }
			bool TraverseLambdaExpr(LambdaExpr* e)
			{
				for (Expr* i : e->capture_inits()) if (i) TraverseStmt(i);
				return true;
			}
			void Bind(const Expr* init, json::Value v)
			{
				if (init == nullptr) return;
				const Stmt* c = StripForCtor(init);
				if (c && isa<CXXConstructExpr>(c)) d->targets.emplace(c, std::move(v));
			}
			bool VisitDeclStmt(DeclStmt* s)
			{
				for (auto* x : s->decls())
					if (auto* v = dyn_cast<VarDecl>(x))
						if (v->getInit() && !v->getType()->isReferenceType() && !v->isStaticLocal())
							Bind(v->getInit(), JA{ "var", d->Did(v) });
				return true;
			}
			bool VisitCXXNewExpr(CXXNewExpr* e)
			{
				if (e->getInitializer()) Bind(e->getInitializer(), JA{ "new", d->TN(e->getAllocatedType()) });
				return true;
			}
		} v;
		v.d = this;
		v.TraverseStmt(f->getBody());
		if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
			for (auto* i : c->inits()) {
				if (i->isAnyMemberInitializer()) v.Bind(i->getInit(), JA{ "field", FieldName(i->getAnyMember()), RecName(c->getParent()) });
				else if (i->isBaseInitializer()) v.Bind(i->getInit(), JA{ "base", TN(QualType(i->getBaseClass(), 0)) });
				else if (i->isDelegatingInitializer()) v.Bind(i->getInit(), JA{ "base", "self" });
				v.TraverseStmt(i->getInit());
			}
		}
	}
	void DumpFunction(const FunctionDecl* f)
	{
		if (!f->doesThisDeclarationHaveABody() || f->isDependentContext()) return;
		if (f->isTemplated() && !f->isTemplateInstantiation()) {
			// Members of templates proper, not of their instantiations.
			if (f->isDependentContext()) return;
		}
		SourceLocation loc = f->getLocation();
		if (!InRoot(loc)) return;
		std::string id = USR(f);
		if (!seenFuncs.insert(id).second) return;
		sids.clear();
		dids.clear();
		targets.clear();
		curFn = f;
		JO o = FnRef(f);
		ParamKinds(o, f);
		o["file"] = FileOf(loc);
		o["line"] = LineOf(loc);
		o["ret"] = TN(f->getReturnType());
		o["implicit"] = f->isImplicit() || f->isDefaulted();
		std::string kind = "fn";
		if (isa<CXXConstructorDecl>(f)) kind = "ctor";
		else if (isa<CXXDestructorDecl>(f)) kind = "dtor";
		else if (auto* m = dyn_cast<CXXMethodDecl>(f)) kind = m->getParent()->isLambda() ? "lambda" : "method";
		o["kind"] = kind;
		o["intern"] = f->getFormalLinkage() == Linkage::Internal || f->isInAnonymousNamespace();
		if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
			o["virt"] = m->isVirtual();
			o["access"] = (int)m->getAccess();
			JA ov;
			for (auto* b : m->overridden_methods()) ov.push_back(USR(b));
			o["over"] = std::move(ov);
			if (m->getParent()->isLambda()) {
				if (auto* pf = dyn_cast_or_null<FunctionDecl>(m->getParent()->getParent()))
					o["outer"] = USR(pf);
			}
		}
		JA ps;
		for (auto* p : f->parameters())
			ps.push_back(JA{ Did(p), p->getNameAsString(), TN(p->getType()), p->getType()->isReferenceType() ? 1 : 0 });
		o["params"] = std::move(ps);
		CollectTargets(f);

		CFG::BuildOptions bo;
		bo.setAllAlwaysAdd();
		bo.AddImplicitDtors = true;
		bo.AddTemporaryDtors = true;
		bo.AddInitializers = true;
		bo.AddEHEdges = false;
		bo.AddStaticInitBranches = false;
		bo.PruneTriviallyFalseEdges = true;
		bo.AddCXXNewAllocator = false;
		std::unique_ptr<CFG> cfg = CFG::buildCFG(f, f->getBody(), &ctx, bo);
		if (cfg == nullptr) {
			o["nocfg"] = true;
			funcs.push_back(std::move(o));
			return;
		}
		int next = 1;
		for (CFGBlock* b : *cfg)
			for (const CFGElement& el : *b)
				if (auto cs = el.getAs<CFGStmt>()) {
					const Stmt* st = Strip(cs->getStmt());
					if (sids.find(st) == sids.end()) sids[st] = next++;
				}
		JA blocks;
		for (CFGBlock* b : *cfg) {
			JO bj;
			bj["id"] = (int)b->getBlockID();
			JA insts;
			std::set<const Stmt*> emitted;
			for (const CFGElement& el : *b) {
				if (auto cs = el.getAs<CFGStmt>()) {
					const Stmt* st = Strip(cs->getStmt());
					int id = sids[st];
					// Ex() must not return own id.
					insts.push_back(JA{ id, Ex(st), LineOf(st->getBeginLoc()) });
					if (auto* e = dyn_cast<CXXMemberCallExpr>(st)) (void)e;
				} else if (auto in = el.getAs<CFGInitializer>()) {
					const CXXCtorInitializer* i = in->getInitializer();
					JA x{ "init" };
					if (i->isAnyMemberInitializer()) {
						x.push_back("field");
						x.push_back(FieldName(i->getAnyMember()));
						x.push_back(RecName(dyn_cast<CXXRecordDecl>(i->getAnyMember()->getParent())));
						x.push_back(TN(i->getAnyMember()->getType()));
						x.push_back(i->getAnyMember()->getType()->isReferenceType() ? 1 : 0);
					} else if (i->isBaseInitializer()) {
						x.push_back("base");
						x.push_back(TN(QualType(i->getBaseClass(), 0)));
						x.push_back("");
						x.push_back("");
						x.push_back(0);
					} else {
						x.push_back("self");
						x.push_back("");
						x.push_back("");
						x.push_back("");
						x.push_back(0);
					}
					x.push_back(Ref(i->getInit()));
					insts.push_back(JA{ 0, std::move(x), LineOf(i->getSourceLocation()) });
				} else if (auto dt = el.getAs<CFGImplicitDtor>()) {
					JA x{ "dtor" };
					const CXXDestructorDecl* dd = nullptr;
					int line = 0;
					if (auto a = el.getAs<CFGAutomaticObjDtor>()) {
						dd = a->getDestructorDecl(ctx);
						x.push_back("var");
						x.push_back(Did(a->getVarDecl()));
						line = LineOf(a->getTriggerStmt() ? a->getTriggerStmt()->getEndLoc() : a->getVarDecl()->getLocation());
					} else if (auto a = el.getAs<CFGDeleteDtor>()) {
						continue;
					} else if (auto a = el.getAs<CFGTemporaryDtor>()) {
						dd = a->getDestructorDecl(ctx);
						x.push_back("temp");
						x.push_back(Ref(a->getBindTemporaryExpr()));
						line = LineOf(a->getBindTemporaryExpr()->getEndLoc());
					} else if (auto a = el.getAs<CFGMemberDtor>()) {
						dd = a->getDestructorDecl(ctx);
						x.push_back("field");
						x.push_back(FieldName(a->getFieldDecl()));
					} else if (auto a = el.getAs<CFGBaseDtor>()) {
						dd = a->getDestructorDecl(ctx);
						x.push_back("base");
						x.push_back(TN(a->getBaseSpecifier()->getType()));
					} else continue;
					if (dd == nullptr) continue;
					x.push_back(FnRef(dd));
					if (line == 0) line = LineOf(f->getEndLoc());
					insts.push_back(JA{ 0, std::move(x), line });
				}
			}
			bj["i"] = std::move(insts);
			if (b->hasNoReturnElement()) bj["noret"] = true;
			CFGTerminator t = b->getTerminator();
			if (t.isValid()) {
				const Stmt* ts = t.getStmt();
				JO tj;
				tj["k"] = t.isStmtBranch() ? std::string(ts->getStmtClassName()) :
					(t.isTemporaryDtorsBranch() ? std::string("TempDtor") : std::string("VirtBase"));
				if (t.isTemporaryDtorsBranch()) {
					tj["s"] = Ref(ts);
				}
				tj["line"] = LineOf(ts->getBeginLoc());
				if (auto* bo2 = dyn_cast<BinaryOperator>(ts)) {
					if (bo2->isLogicalOp()) {
						tj["k"] = bo2->getOpcode() == BO_LAnd ? "&&" : "||";
						auto it = sids.find(Strip(ts));
						if (it != sids.end()) tj["s"] = it->second;
					}
				} else if (isa<AbstractConditionalOperator>(ts)) {
					auto it = sids.find(Strip(ts));
					if (it != sids.end()) tj["s"] = it->second;
				}
				if (const Stmt* c = b->getTerminatorCondition()) tj["c"] = Ref(c);
				if (isa<SwitchStmt>(ts)) {
					JA cases;
					int idx = 0;
					for (auto it = b->succ_begin(); it != b->succ_end(); ++it, ++idx) {
						const CFGBlock* sb = it->getReachableBlock();
						if (sb == nullptr) sb = it->getPossiblyUnreachableBlock();
						JA cj;
						const Stmt* lab = sb ? sb->getLabel() : nullptr;
						if (auto* cs = dyn_cast_or_null<CaseStmt>(lab)) {
							Expr::EvalResult r1, r2;
							cs->getLHS()->EvaluateAsInt(r1, ctx);
							cj.push_back(Num(r1.Val.getInt()));
							if (cs->getRHS() && cs->getRHS()->EvaluateAsInt(r2, ctx)) cj.push_back(Num(r2.Val.getInt()));
							else cj.push_back(Num(r1.Val.getInt()));
						} else cj.push_back("default");
						cases.push_back(std::move(cj));
					}
					tj["cases"] = std::move(cases);
				}
				bj["t"] = std::move(tj);
			}
			JA succ;
			for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
				const CFGBlock* sb = it->getReachableBlock();
				if (sb == nullptr) succ.push_back(nullptr);
				else succ.push_back((int)sb->getBlockID());
			}
			bj["s"] = std::move(succ);
			blocks.push_back(std::move(bj));
		}
		o["entry"] = (int)cfg->getEntry().getBlockID();
		o["exit"] = (int)cfg->getExit().getBlockID();
		o["blocks"] = std::move(blocks);
		funcs.push_back(std::move(o));
	}
	void DumpRecord(const CXXRecordDecl* r)
	{
		if (!r->isCompleteDefinition() || r->isDependentContext() || !InRoot(r->getLocation())) return;
		std::string n = RecName(r);
		if (!seenRecords.insert(n).second) return;
		JO o;
		o["n"] = n;
		o["qn"] = QN(r);
		o["file"] = FileOf(r->getLocation());
		o["line"] = LineOf(r->getLocation());
		o["final"] = r->hasAttr<FinalAttr>();
		o["union"] = r->isUnion();
		JA bases;
		for (auto& b : r->bases()) bases.push_back(JA{ TN(b.getType()), (int)b.getAccessSpecifier() });
		o["bases"] = std::move(bases);
		JA fields;
		for (auto* f : r->fields()) fields.push_back(JA{ f->getNameAsString(), TN(f->getType()), (int)f->getAccess(), LineOf(f->getLocation()), f->isMutable() });
		o["fields"] = std::move(fields);
		JA ms;
		for (auto* m : r->methods()) {
			JO mo = FnRef(m);
			mo["access"] = (int)m->getAccess();
			mo["virt"] = m->isVirtual();
			mo["pure"] = m->isPureVirtual();
			mo["deleted"] = m->isDeleted();
			mo["implicit"] = m->isImplicit();
			mo["ret"] = TN(m->getReturnType());
			JA pt;
			for (auto* p : m->parameters()) pt.push_back(TN(p->getType()));
			mo["pt"] = std::move(pt);
			JA ov;
			for (auto* b : m->overridden_methods()) ov.push_back(USR(b));
			mo["over"] = std::move(ov);
			ms.push_back(std::move(mo));
		}
		o["methods"] = std::move(ms);
		records.push_back(std::move(o));
	}
	JA enums;
	void DumpEnum(const EnumDecl* e)
	{
		if (!e->isCompleteDefinition() || e->isDependentContext() || !InRoot(e->getLocation())) return;
		JA vals;
		for (auto* c : e->enumerators()) vals.push_back(JA{ c->getNameAsString(), Num(c->getInitVal()) });
		enums.push_back(JO{ { "n", QN(e) }, { "vals", std::move(vals) } });
	}
	void DumpGlobal(const VarDecl* v)
	{
		if (!v->hasGlobalStorage() || v->isStaticLocal() || !InRoot(v->getLocation()) || v->getType()->isDependentType()) return;
		JO o{ { "n", QN(v) }, { "t", TN(v->getType()) }, { "line", LineOf(v->getLocation()) }, { "file", FileOf(v->getLocation()) },
			{ "const", v->getType().isConstQualified() }, { "tls", v->getTLSKind() != VarDecl::TLS_None } };
		globals.push_back(std::move(o));
	}
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
	Dumper& d;
	Visitor(Dumper& x) : d(x) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool shouldVisitLambdaBody() const { return true; }
	std::vector<const FunctionDecl*> fs;
	bool VisitFunctionDecl(FunctionDecl* f)
	{
		if (f->doesThisDeclarationHaveABody()) fs.push_back(f);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* r)
	{
		d.DumpRecord(r);
		return true;
	}
	bool VisitEnumDecl(EnumDecl* e)
	{
		d.DumpEnum(e);
		return true;
	}
	bool VisitVarDecl(VarDecl* v)
	{
		d.DumpGlobal(v);
		return true;
	}
	bool VisitLambdaExpr(LambdaExpr* l)
	{
		if (l->getCallOperator() && l->getCallOperator()->doesThisDeclarationHaveABody()) fs.push_back(l->getCallOperator());
		return true;
	}
};

struct Consumer : ASTConsumer
{
	void HandleTranslationUnit(ASTContext& ctx) override
	{
		if (ctx.getDiagnostics().hasErrorOccurred()) return;
		Dumper d(ctx);
		Visitor v(d);
		v.TraverseDecl(ctx.getTranslationUnitDecl());
		for (auto* f : v.fs) d.DumpFunction(f);
		JO o;
		o["funcs"] = std::move(d.funcs);
		o["records"] = std::move(d.records);
		o["enums"] = std::move(d.enums);
		o["globals"] = std::move(d.globals);
		outs() << JV(std::move(o)) << "\n";
	}
};
struct Action : ASTFrontendAction
{
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char** argv)
{
	// extract ROOT EXTRAROOT FILE -- flags...
	if (argc < 5) { errs() << "usage: extract ROOT EXTRAROOT FILE -- flags\n"; return 2; }
	theRoot = argv[1];
	theExtraRoot = argv[2];
	std::string file = argv[3];
	std::vector<std::string> flags;
	for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, { file });
	return tool.run(tooling::newFrontendActionFactory<Action>().get()) == 0 ? 0 : 3;
}
