// irdump: dump an LLVM module (IR already produced by clang from /repo's current sources) as JSON.
// No analysis happens here; this is only the front end of the Python analyses in ../sa.
//   irdump in.bc out.json PREFIX...     (functions whose source file starts with a PREFIX are dumped with bodies)
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
namespace js = llvm::json;

static const DataLayout *DL;
static std::map<const Value*,int> ids;
static std::map<const MDNode*,int> typeIds;
static std::vector<const DIType*> typeList;

static std::string tyStr(Type *t) {
	std::string s; raw_string_ostream o(s); t->print(o,false,true); return o.str();
}
static int tid(const DIType *t) {
	if (!t) return -1;
	auto it = typeIds.find(t);
	if (it != typeIds.end()) return it->second;
	int n = typeList.size(); typeIds[t] = n; typeList.push_back(t); return n;
}
static js::Value operand(const Value *v);
static js::Value constInit(const Constant *c);

static std::string apstr(const APInt &a) { SmallString<32> s; a.toStringSigned(s); return std::string(s); }

static js::Value constVal(const Constant *c) {
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		return js::Array{"c", apstr(ci->getValue()), (int64_t)ci->getBitWidth()};
	}
	if (isa<ConstantPointerNull>(c)) return js::Array{"n"};
	if (isa<PoisonValue>(c) || isa<UndefValue>(c)) return js::Array{"u", tyStr(c->getType())};
	if (auto *f = dyn_cast<ConstantFP>(c)) {
		double d;
		if (&f->getValueAPF().getSemantics() == &APFloat::IEEEdouble()) d = f->getValueAPF().convertToDouble();
		else if (&f->getValueAPF().getSemantics() == &APFloat::IEEEsingle()) d = f->getValueAPF().convertToFloat();
		else { SmallString<32> s; f->getValueAPF().toString(s); return js::Array{"f", std::string(s)}; }
		std::string s; raw_string_ostream o(s); o << format("%.17g", d); return js::Array{"f", o.str()};
	}
	if (auto *al = dyn_cast<GlobalAlias>(c))
		if (auto *ao = al->getAliaseeObject()) return js::Array{"g", ao->getName().str(), 0};
	if (auto *g = dyn_cast<GlobalValue>(c)) return js::Array{"g", g->getName().str(), 0};
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		if (auto *gep = dyn_cast<GEPOperator>(ce)) {
			APInt off(64,0);
			if (gep->accumulateConstantOffset(*DL,off)) {
				js::Value b = operand(gep->getPointerOperand());
				js::Array *a = b.getAsArray();
				if (a && (*a)[0].getAsString() == StringRef("g")) {
					(*a)[2] = *(*a)[2].getAsInteger() + off.getSExtValue();
					return b;
				}
				if (a && (*a)[0].getAsString() == StringRef("n")) return js::Array{"c", std::to_string(off.getSExtValue()), 64};
			}
		}
		js::Array ops; for (auto &o : ce->operands()) ops.push_back(operand(o.get()));
		return js::Array{"ce", std::string(ce->getOpcodeName()), std::move(ops), tyStr(ce->getType())};
	}
	if (isa<ConstantAggregateZero>(c)) return js::Array{"z", tyStr(c->getType())};
	return js::Array{"agg", constInit(c)};
}
static js::Value operand(const Value *v) {
	if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
	if (auto *a = dyn_cast<Argument>(v)) return js::Array{"a", (int64_t)a->getArgNo()};
	if (isa<BasicBlock>(v)) return js::Array{"b", ids[v]};
	if (isa<MetadataAsValue>(v)) return js::Array{"m"};
	if (isa<InlineAsm>(v)) return js::Array{"asm"};
	auto it = ids.find(v);
	return js::Array{"i", it == ids.end() ? -1 : it->second};
}
static void flatten(const Constant *c, uint64_t off, js::Array &out) {
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
		out.push_back(js::Array{(int64_t)off, (int64_t)DL->getTypeAllocSize(t).getFixedValue(), js::Array{"z"}}); return;
	}
	if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
		uint64_t es = DL->getTypeAllocSize(cds->getElementType()).getFixedValue();
		if (cds->isString() || es == 1) {
			std::string h; for (unsigned char ch : cds->getRawDataValues()) { static const char *x="0123456789abcdef"; h += x[ch>>4]; h += x[ch&15]; }
			out.push_back(js::Array{(int64_t)off, (int64_t)cds->getRawDataValues().size(), js::Array{"bytes", h}}); return;
		}
		for (unsigned i = 0; i < cds->getNumElements(); i++) flatten(cds->getElementAsConstant(i), off+i*es, out);
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
		for (unsigned i = 0; i < ca->getNumOperands(); i++) flatten(ca->getOperand(i), off+i*es, out);
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		const StructLayout *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++) flatten(cs->getOperand(i), off+sl->getElementOffset(i).getFixedValue(), out);
		return;
	}
	out.push_back(js::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(t).getFixedValue(), constVal(c)});
}
static js::Value constInit(const Constant *c) { js::Array a; flatten(c,0,a); return std::move(a); }

static js::Value locOf(const Instruction &I) {
	const DebugLoc &d = I.getDebugLoc();
	if (!d) return nullptr;
	std::string f = d->getFilename().str();
	return js::Array{f, (int64_t)d.getLine(), (int64_t)d.getCol()};
}
static void gepInfo(const GEPOperator *g, js::Object &o) {
	MapVector<Value*,APInt> var; APInt c(64,0);
	o["src"] = tyStr(g->getSourceElementType());
	if (g->collectOffset(*DL,64,var,c)) {
		o["off"] = c.getSExtValue();
		js::Array vs; for (auto &p : var) vs.push_back(js::Array{operand(p.first), p.second.getSExtValue()});
		o["var"] = std::move(vs);
	} else o["bad"] = true;
	o["inb"] = g->isInBounds();
	// sizes of the (constant size) arrays indexed, with the index operand: for bounds rules
	js::Array arr;
	Type *t = g->getSourceElementType(); 
	auto it = g->idx_begin(); ++it;
	for (; it != g->idx_end(); ++it) {
		if (auto *at = dyn_cast<ArrayType>(t)) {
			arr.push_back(js::Array{operand(it->get()), (int64_t)at->getNumElements(), (int64_t)DL->getTypeAllocSize(at->getElementType()).getFixedValue()});
			t = at->getElementType();
		} else if (auto *st = dyn_cast<StructType>(t)) {
			t = st->getElementType(cast<ConstantInt>(it->get())->getZExtValue());
		} else break;
	}
	if (!arr.empty()) o["arr"] = std::move(arr);
}

int main(int argc, char **argv) {
	if (argc < 4) return 2;
	LLVMContext ctx; SMDiagnostic err;
	std::unique_ptr<Module> M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print(argv[0], errs()); return 2; }
	std::vector<std::string> prefixes(argv+3, argv+argc);
	DL = &M->getDataLayout();
	auto inRepo = [&](const DISubprogram *sp) {
		if (!sp || !sp->getFile()) return false;
		std::string f = sp->getFilename().str();
		if (f.size() && f[0] != '/') f = sp->getDirectory().str() + "/" + f;
		for (auto &p : prefixes) if (f.compare(0,p.size(),p)==0) return true;
		return false;
	};
	// SSA construction for the dumped functions.
	{
		LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
		PassBuilder PB;
		PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
		PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
		FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
		for (Function &F : *M) if (!F.isDeclaration() && inRepo(F.getSubprogram())) { F.removeFnAttr(Attribute::OptimizeNone); FPM.run(F,FAM); }
	}
	DebugInfoFinder DIF; DIF.processModule(*M);
	std::error_code ec; raw_fd_ostream os(argv[2], ec); 
	js::Array funcs, globals;
	for (Function &F : *M) {
		if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
		js::Object fo;
		fo["name"] = F.getName().str();
		fo["dem"] = demangle(F.getName().str());
		fo["decl"] = F.isDeclaration();
		fo["noret"] = F.doesNotReturn();
		fo["nounwind"] = F.doesNotThrow();
		fo["vararg"] = F.isVarArg();
		fo["ret"] = tyStr(F.getReturnType());
		fo["internal"] = F.hasLocalLinkage();
		const DISubprogram *sp = F.getSubprogram();
		bool repo = inRepo(sp) && !F.isDeclaration();
		fo["repo"] = repo;
		if (sp) {
			fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine();
			fo["short"] = sp->getName().str();
			if (auto *st = sp->getType()) {
				js::Array ts; for (auto *t : st->getTypeArray()) ts.push_back(tid(cast_or_null<DIType>(t)));
				fo["ditypes"] = std::move(ts);
			}
			{
				auto *dc = sp->getDeclaration() ? sp->getDeclaration() : sp;
				unsigned acc = dc->getFlags() & DINode::FlagAccessibility;
				fo["acc"] = acc == DINode::FlagPrivate ? "private" : acc == DINode::FlagProtected ? "protected" : acc == DINode::FlagPublic ? "public" : "";
				auto *sct = dyn_cast_or_null<DICompositeType>(dc->getScope());
				if (acc == 0 && sct && sct->getTag() == dwarf::DW_TAG_class_type) fo["acc"] = "private";
			}
			if (auto *sc = dyn_cast_or_null<DIType>(sp->getScope())) fo["cls"] = tid(sc);
			else if (sp->getDeclaration()) if (auto *sc2 = dyn_cast_or_null<DIType>(sp->getDeclaration()->getScope())) fo["cls"] = tid(sc2);
		}
		js::Array args;
		for (Argument &a : F.args()) {
			js::Object ao; ao["name"] = a.getName().str(); ao["ty"] = tyStr(a.getType());
			if (a.hasStructRetAttr()) ao["sret"] = true;
			if (a.hasByValAttr()) ao["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType()).getFixedValue();
			args.push_back(std::move(ao));
		}
		fo["args"] = std::move(args);
		if (repo) {
			int n = 0; ids.clear();
			for (BasicBlock &B : F) { ids[&B] = n++; }
			int k = 0;
			for (BasicBlock &B : F) for (Instruction &I : B) ids[&I] = k++;
			// debug variables for allocas and values
			js::Array blocks;
			for (BasicBlock &B : F) {
				js::Array insts;
				for (Instruction &I : B) {
					js::Object o;
					if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
						o["op"] = "dbg"; o["var"] = dv->getVariable()->getName().str();
						o["vt"] = tid(dv->getVariable()->getType());
						o["arg"] = (int64_t)dv->getVariable()->getArg();
						o["decl"] = isa<DbgDeclareInst>(dv);
						if (dv->getNumVariableLocationOps() >= 1) { Value *lv = dv->getVariableLocationOp(0); o["ops"] = js::Array{lv ? operand(lv) : js::Value(js::Array{"u",""})}; }
						o["expr"] = (int64_t)dv->getExpression()->getNumElements();
						insts.push_back(std::move(o)); continue;
					}
					if (isa<DbgInfoIntrinsic>(&I)) continue;
					o["op"] = I.getOpcodeName();
					o["id"] = ids[&I];
					o["ty"] = tyStr(I.getType());
					if (I.getType()->isIntegerTy()) o["w"] = (int64_t)I.getType()->getIntegerBitWidth();
					js::Value l = locOf(I); if (!l.getAsNull()) o["loc"] = std::move(l);
					js::Array ops;
					if (auto *pn = dyn_cast<PHINode>(&I)) {
						js::Array inc;
						for (unsigned i = 0; i < pn->getNumIncomingValues(); i++) inc.push_back(js::Array{ids[pn->getIncomingBlock(i)], operand(pn->getIncomingValue(i))});
						o["inc"] = std::move(inc);
					} else if (auto *cb = dyn_cast<CallBase>(&I)) {
						for (auto &a : cb->args()) ops.push_back(operand(a.get()));
						o["callee"] = operand(cb->getCalledOperand());
						if (auto *iv = dyn_cast<InvokeInst>(&I)) { o["normal"] = ids[iv->getNormalDest()]; o["unwind"] = ids[iv->getUnwindDest()]; }
						if (cb->hasFnAttr(Attribute::NoReturn)) o["noret"] = true;
						if (cb->doesNotThrow()) o["nounwind"] = true;
						if (auto *mi = dyn_cast<MemIntrinsic>(&I)) { (void)mi; o["mem"] = true; }
						js::Array sx; for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->paramHasAttr(i,Attribute::ByVal)) sx.push_back((int64_t)i);
						if (!sx.empty()) o["byval"] = std::move(sx);
					} else {
						for (auto &a : I.operands()) ops.push_back(operand(a.get()));
						if (auto *ci = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(ci->getPredicate()).str(); o["ow"] = ci->getOperand(0)->getType()->isIntegerTy() ? (int64_t)ci->getOperand(0)->getType()->getIntegerBitWidth() : (int64_t)64; }
						if (auto *g = dyn_cast<GEPOperator>(&I)) gepInfo(g,o);
						if (auto *al = dyn_cast<AllocaInst>(&I)) {
							o["aty"] = tyStr(al->getAllocatedType()); o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue();
							o["name"] = al->getName().str();
						}
						if (auto *ld = dyn_cast<LoadInst>(&I)) { o["size"] = (int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue(); }
						if (auto *st = dyn_cast<StoreInst>(&I)) { o["size"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); o["vty"] = tyStr(st->getValueOperand()->getType()); }
						if (auto *bo = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = bo->hasNoSignedWrap(); o["nuw"] = bo->hasNoUnsignedWrap(); }
						if (auto *cs = dyn_cast<CastInst>(&I)) { o["sw"] = cs->getSrcTy()->isIntegerTy() ? (int64_t)cs->getSrcTy()->getIntegerBitWidth() : (int64_t)64; o["sty"] = tyStr(cs->getSrcTy()); }
						if (auto *sw = dyn_cast<SwitchInst>(&I)) {
							ops.clear(); ops.push_back(operand(sw->getCondition()));
							js::Array cs; for (auto &c : sw->cases()) cs.push_back(js::Array{apstr(c.getCaseValue()->getValue()), ids[c.getCaseSuccessor()]});
							o["cases"] = std::move(cs); o["default"] = ids[sw->getDefaultDest()];
						}
						if (auto *br = dyn_cast<BranchInst>(&I)) {
							ops.clear(); if (br->isConditional()) ops.push_back(operand(br->getCondition()));
							js::Array ss; for (unsigned i = 0; i < br->getNumSuccessors(); i++) ss.push_back(ids[br->getSuccessor(i)]);
							o["succ"] = std::move(ss);
						}
						if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { js::Array x; for (unsigned i : ev->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x); }
						if (auto *iv = dyn_cast<InsertValueInst>(&I)) { js::Array x; for (unsigned i : iv->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x); }
						if (auto *lp = dyn_cast<LandingPadInst>(&I)) { o["cleanup"] = lp->isCleanup(); o["nclauses"] = (int64_t)lp->getNumClauses(); }
					}
					o["ops"] = std::move(ops);
					insts.push_back(std::move(o));
				}
				blocks.push_back(js::Object{{"id", ids[&B]}, {"name", B.getName().str()}, {"insts", std::move(insts)}});
			}
			fo["blocks"] = std::move(blocks);
		}
		funcs.push_back(std::move(fo));
	}
	for (GlobalVariable &G : M->globals()) {
		js::Object go; go["name"] = G.getName().str(); go["dem"] = demangle(G.getName().str());
		go["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType()).getFixedValue();
		go["const"] = G.isConstant(); go["ty"] = tyStr(G.getValueType()); go["decl"] = G.isDeclaration();
		go["tls"] = G.isThreadLocal();
		SmallVector<DIGlobalVariableExpression*,1> ges; G.getDebugInfo(ges);
		for (auto *ge : ges) { auto *gv = ge->getVariable(); go["file"] = gv->getFilename().str(); go["line"] = (int64_t)gv->getLine(); go["dity"] = tid(gv->getType()); go["src"] = gv->getName().str(); if (auto *sc = dyn_cast_or_null<DISubprogram>(gv->getScope())) go["infn"] = sc->getLinkageName().str().empty() ? sc->getName().str() : sc->getLinkageName().str(); }
		if (G.hasInitializer()) go["init"] = constInit(G.getInitializer());
		globals.push_back(std::move(go));
	}
	for (auto *t : DIF.types()) tid(cast<DIType>(t));
	js::Array types;
	for (size_t i = 0; i < typeList.size(); i++) {
		const DIType *t = typeList[i]; js::Object o;
		o["tag"] = dwarf::TagString(t->getTag()).str(); o["name"] = t->getName().str();
		o["size"] = (int64_t)t->getSizeInBits();
		o["file"] = t->getFilename().str(); o["line"] = (int64_t)t->getLine();
		o["fwd"] = (bool)(t->getFlags() & DINode::FlagFwdDecl);
		if (auto *d = dyn_cast<DIDerivedType>(t)) { o["base"] = tid(d->getBaseType()); o["off"] = (int64_t)d->getOffsetInBits(); o["static"] = d->isStaticMember(); }
		if (auto *b = dyn_cast<DIBasicType>(t)) o["enc"] = dwarf::AttributeEncodingString(b->getEncoding()).str();
		if (auto *c = dyn_cast<DICompositeType>(t)) {
			o["base"] = tid(c->getBaseType()); o["ident"] = c->getIdentifier().str();
			if (auto *sc = dyn_cast_or_null<DIType>(c->getScope())) o["scope"] = tid(sc);
			js::Array mem, en, meth; 
			for (auto *e : c->getElements()) {
				if (auto *et = dyn_cast<DIDerivedType>(e)) mem.push_back(tid(et));
				else if (auto *ee = dyn_cast<DIEnumerator>(e)) en.push_back(js::Array{ee->getName().str(), apstr(ee->getValue())});
				else if (auto *sr = dyn_cast<DISubrange>(e)) { if (auto *ci = dyn_cast_if_present<ConstantInt*>(sr->getCount())) o["count"] = ci->getSExtValue(); }
				else if (auto *spm = dyn_cast<DISubprogram>(e)) { 
					js::Array ts; if (spm->getType()) for (auto *tt : spm->getType()->getTypeArray()) ts.push_back(tid(cast_or_null<DIType>(tt)));
					meth.push_back(js::Object{{"name", spm->getName().str()}, {"lname", spm->getLinkageName().str()}, {"line", (int64_t)spm->getLine()}, {"virtual", spm->getVirtuality()!=0}, {"vidx", (int64_t)(spm->getVirtuality()? spm->getVirtualIndex():-1)}, {"types", std::move(ts)}, {"access", (int64_t)(spm->getFlags() & DINode::FlagAccessibility)}, {"deleted", spm->isDeleted()}, {"artificial", spm->isArtificial()}}); }
			}
			o["members"] = std::move(mem); o["enums"] = std::move(en); o["methods"] = std::move(meth);
		}
		types.push_back(std::move(o));
	}
	os << js::Value(js::Object{{"funcs", std::move(funcs)}, {"globals", std::move(globals)}, {"types", std::move(types)}});
	return 0;
}
