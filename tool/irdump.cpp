// irdump: dump LLVM IR (already mem2reg'd, with debug info) as compact JSON for the Python analyses.
// usage: irdump in.bc out.json
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <string>
#include <set>
using namespace llvm;
static const DataLayout *DL;
static std::string base(StringRef n){
	if(n.starts_with("struct.")) n = n.drop_front(7);
	else if(n.starts_with("union.")) n = n.drop_front(6);
	size_t p = n.rfind('.');
	if(p != StringRef::npos && p + 1 < n.size() && n.substr(p+1).find_first_not_of("0123456789") == StringRef::npos) n = n.substr(0, p);
	return n.str();
}
static std::string tyname(Type *t){
	if(auto *s = dyn_cast<StructType>(t)) return s->hasName() ? "S:" + base(s->getName()) : "S:";
	if(t->isPointerTy()) return "p";
	if(t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
	if(auto *a = dyn_cast<ArrayType>(t)) return "A" + std::to_string(a->getNumElements()) + ":" + tyname(a->getElementType());
	if(t->isVoidTy()) return "v";
	if(t->isX86_FP80Ty()) return "x80";
	if(t->isDoubleTy()) return "d";
	if(t->isFloatTy()) return "f";
	return "?";
}
static std::map<const Value*, int> ids;
static json::Value cst(const Constant *c, int depth = 0);
static json::Array gepinfo(const GEPOperator *g, bool &constoff, int64_t &off){
	// list of steps: ["f", struct, idx] or ["i", operand]
	json::Array a;
	Type *t = g->getSourceElementType();
	bool first = true;
	for(auto it = g->idx_begin(); it != g->idx_end(); ++it){
		const Value *v = it->get();
		if(first){
			first = false;
			if(auto *ci = dyn_cast<ConstantInt>(v); ci && ci->isZero()) continue;
			a.push_back(json::Array{"i", (int64_t)DL->getTypeAllocSize(t), nullptr});
			continue;
		}
		if(auto *s = dyn_cast<StructType>(t)){
			unsigned i = cast<ConstantInt>(v)->getZExtValue();
			a.push_back(json::Array{"f", s->hasName() ? base(s->getName()) : std::string(""), (int64_t)i, (int64_t)DL->getStructLayout(s)->getElementOffset(i)});
			t = s->getElementType(i);
		}else{
			t = cast<ArrayType>(t)->getElementType();
			a.push_back(json::Array{"i", (int64_t)DL->getTypeAllocSize(t), nullptr});
		}
	}
	APInt ap(64, 0);
	constoff = g->accumulateConstantOffset(*DL, ap);
	off = constoff ? ap.getSExtValue() : 0;
	return a;
}
static json::Value cst(const Constant *c, int depth){
	if(auto *ci = dyn_cast<ConstantInt>(c)){
		if(ci->getBitWidth() <= 64) return json::Array{"c", ci->getSExtValue(), (int64_t)ci->getBitWidth()};
		return json::Array{"big"};
	}
	if(auto *cf = dyn_cast<ConstantFP>(c)){
		SmallString<32> s; cf->getValueAPF().toString(s);
		return json::Array{"fp", s.str().str(), tyname(c->getType())};
	}
	if(isa<ConstantPointerNull>(c)) return json::Array{"null"};
	if(isa<UndefValue>(c)) return json::Array{"undef"};
	if(isa<ConstantAggregateZero>(c)) return json::Array{"zero", (int64_t)DL->getTypeAllocSize(c->getType())};
	if(auto *gv = dyn_cast<GlobalVariable>(c)) return json::Array{"g", gv->getName().str()};
	if(auto *f = dyn_cast<Function>(c)) return json::Array{"fn", f->getName().str()};
	if(auto *cds = dyn_cast<ConstantDataSequential>(c)){
		if(cds->isString() || cds->getElementType()->isIntegerTy(8)){
			// hex string, to be safe for non utf8
			json::Array bytes;
			std::string h; static const char *hx = "0123456789abcdef";
			for(unsigned char ch : cds->getRawDataValues()){ h += hx[ch>>4]; h += hx[ch&15]; }
			return json::Array{"str", h};
		}
		json::Array a;
		for(unsigned i = 0; i < cds->getNumElements(); i++) a.push_back(cst(cds->getElementAsConstant(i), depth+1));
		return json::Array{"arr", (int64_t)DL->getTypeAllocSize(cds->getElementType()), std::move(a)};
	}
	if(auto *ca = dyn_cast<ConstantArray>(c)){
		json::Array a;
		for(auto &o : ca->operands()) a.push_back(cst(cast<Constant>(o.get()), depth+1));
		return json::Array{"arr", (int64_t)DL->getTypeAllocSize(cast<ArrayType>(c->getType())->getElementType()), std::move(a)};
	}
	if(auto *cs = dyn_cast<ConstantStruct>(c)){
		json::Array a;
		auto *L = DL->getStructLayout(cs->getType());
		unsigned i = 0;
		for(auto &o : cs->operands()){ a.push_back(json::Array{(int64_t)(uint64_t)L->getElementOffset(i), cst(cast<Constant>(o.get()), depth+1)}); i++; }
		return json::Array{"st", cs->getType()->hasName() ? base(cs->getType()->getName()) : "", std::move(a), (int64_t)DL->getTypeAllocSize(c->getType())};
	}
	if(auto *ce = dyn_cast<ConstantExpr>(c)){
		if(auto *g = dyn_cast<GEPOperator>(ce)){
			bool k; int64_t off; auto st = gepinfo(g, k, off);
			return json::Array{"cgep", cst(cast<Constant>(g->getPointerOperand()), depth+1), k ? json::Value(off) : json::Value(nullptr), std::move(st)};
		}
		json::Array a;
		for(auto &o : ce->operands()) a.push_back(cst(cast<Constant>(o.get()), depth+1));
		return json::Array{"ce", ce->getOpcodeName(), std::move(a)};
	}
	return json::Array{"?"};
}
static json::Value opnd(const Value *v){
	if(auto *a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
	if(isa<Instruction>(v)){ return json::Value((int64_t)ids.at(v)); }
	if(auto *c = dyn_cast<Constant>(v)) return cst(c);
	if(auto *m = dyn_cast<MetadataAsValue>(v)) return json::Array{"md"};
	if(isa<InlineAsm>(v)) return json::Array{"asm"};
	return json::Array{"?"};
}
int main(int argc, char **argv){
	if(argc < 3) return 2;
	LLVMContext ctx; SMDiagnostic err;
	auto m = parseIRFile(argv[1], err, ctx);
	if(!m){ err.print(argv[0], errs()); return 2; }
	DL = &m->getDataLayout();
	std::error_code ec; raw_fd_ostream os(argv[2], ec);
	json::Object root;
	json::Object funcs, globs, enums, structs;
	for(auto &g : m->globals()){
		json::Object o;
		if(g.hasInitializer()) o["init"] = cst(g.getInitializer());
		o["const"] = g.isConstant(); o["internal"] = g.hasLocalLinkage();
		o["decl"] = g.isDeclaration();
		o["type"] = tyname(g.getValueType());
		o["size"] = (int64_t)(g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()) : 0);
		SmallVector<DIGlobalVariableExpression*, 1> dis; g.getDebugInfo(dis);
		if(!dis.empty()){ auto *v = dis[0]->getVariable(); o["src"] = v->getName().str(); o["file"] = v->getFile() ? v->getFile()->getFilename().str() : ""; o["line"] = (int64_t)v->getLine(); }
		globs[g.getName().str()] = std::move(o);
	}
	for(auto &f : *m){
		json::Object o;
		o["internal"] = f.hasLocalLinkage(); o["noreturn"] = f.doesNotReturn();
		o["nargs"] = (int64_t)f.arg_size(); o["vararg"] = f.isVarArg();
		o["ret"] = tyname(f.getReturnType());
		json::Array at; for(auto &a : f.args()) at.push_back(tyname(a.getType()));
		o["at"] = std::move(at);
		if(auto *sp = f.getSubprogram()){
			o["src"] = sp->getName().str(); o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine();
			json::Array an; for(auto *n : sp->getRetainedNodes()) (void)n;
		}
		if(f.isDeclaration()){ o["decl"] = true; funcs[f.getName().str()] = std::move(o); continue; }
		// argument names
		json::Array an; for(auto &a : f.args()) an.push_back(a.getName().str());
		o["an"] = std::move(an);
		ids.clear(); int n = 0; std::map<const BasicBlock*, int> bid; int nb = 0;
		for(auto &b : f){ bid[&b] = nb++; for(auto &i : b) ids[&i] = n++; }
		json::Array blocks;
		for(auto &b : f){
			json::Array insts;
			for(auto &i : b){
				if(isa<DbgInfoIntrinsic>(i)) continue;
				json::Object e;
				e["id"] = (int64_t)ids[&i]; e["op"] = i.getOpcodeName();
				if(!i.getType()->isVoidTy()) e["t"] = tyname(i.getType());
				if(auto &dl = i.getDebugLoc()){
					e["l"] = (int64_t)dl.getLine();
					// file may differ (headers/def includes)
					auto *sc = dyn_cast<DIScope>(dl.getScope());
					if(sc && f.getSubprogram() && sc->getFilename() != f.getSubprogram()->getFilename()) e["lf"] = sc->getFilename().str();
				}
				if(auto *c = dyn_cast<CallBase>(&i)){
					if(auto *ii = dyn_cast<IntrinsicInst>(&i)){
						if(ii->getIntrinsicID() == Intrinsic::lifetime_start || ii->getIntrinsicID() == Intrinsic::lifetime_end) continue;
					}
					json::Array a; for(auto &x : c->args()) a.push_back(opnd(x.get()));
					e["a"] = std::move(a); e["callee"] = opnd(c->getCalledOperand());
					if(c->doesNotReturn()) e["nr"] = true;
				}else if(auto *p = dyn_cast<PHINode>(&i)){
					json::Array a; for(unsigned k = 0; k < p->getNumIncomingValues(); k++) a.push_back(json::Array{opnd(p->getIncomingValue(k)), (int64_t)bid[p->getIncomingBlock(k)]});
					e["a"] = std::move(a);
				}else if(auto *br = dyn_cast<BranchInst>(&i)){
					json::Array s; for(unsigned q = 0; q < br->getNumSuccessors(); q++) s.push_back((int64_t)bid[br->getSuccessor(q)]);
					e["s"] = std::move(s);
					if(br->isConditional()) e["a"] = json::Array{opnd(br->getCondition())};
				}else if(auto *sw = dyn_cast<SwitchInst>(&i)){
					json::Array s; s.push_back((int64_t)bid[sw->getDefaultDest()]);
					json::Array cs; for(auto &k : sw->cases()){ s.push_back((int64_t)bid[k.getCaseSuccessor()]); cs.push_back(k.getCaseValue()->getSExtValue()); }
					e["s"] = std::move(s); e["cs"] = std::move(cs); e["a"] = json::Array{opnd(sw->getCondition())};
				}else{
					json::Array a; for(auto &x : i.operands()) a.push_back(opnd(x.get()));
					e["a"] = std::move(a);
					if(auto *cm = dyn_cast<CmpInst>(&i)) e["p"] = CmpInst::getPredicateName(cm->getPredicate()).str();
					if(auto *g = dyn_cast<GetElementPtrInst>(&i)){
						bool k; int64_t off; auto st = gepinfo(cast<GEPOperator>(g), k, off);
						e["g"] = std::move(st); if(k) e["off"] = off;
						e["gt"] = tyname(g->getSourceElementType());
						e["gs"] = (int64_t)DL->getTypeAllocSize(g->getSourceElementType());
						// per-index strides
					}
					if(auto *al = dyn_cast<AllocaInst>(&i)){ e["at"] = tyname(al->getAllocatedType()); e["sz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()); e["n"] = al->getName().str(); }
					if(auto *st = dyn_cast<StoreInst>(&i)) e["vt"] = tyname(st->getValueOperand()->getType());
					if(auto *ca = dyn_cast<CastInst>(&i)) e["ft"] = tyname(ca->getSrcTy());
					if(auto *ex = dyn_cast<ExtractValueInst>(&i)) e["idx"] = (int64_t)ex->getIndices()[0];
					if(auto *ex = dyn_cast<InsertValueInst>(&i)) e["idx"] = (int64_t)ex->getIndices()[0];
					if(isa<ReturnInst>(i)) {}
				}
				insts.push_back(std::move(e));
			}
			blocks.push_back(std::move(insts));
		}
		o["b"] = std::move(blocks);
		funcs[f.getName().str()] = std::move(o);
	}
	DebugInfoFinder dif; dif.processModule(*m);
	for(auto *t : dif.types()){
		auto *ct = dyn_cast<DICompositeType>(t); if(!ct) continue;
		if(ct->getTag() == dwarf::DW_TAG_enumeration_type){
			json::Object e;
			for(auto *x : ct->getElements()) if(auto *en = dyn_cast<DIEnumerator>(x)) e[en->getName().str()] = en->getValue().getSExtValue();
			std::string nm = ct->getName().str();
			if(nm.empty()) nm = "@" + ct->getFilename().str() + ":" + std::to_string(ct->getLine());
			enums[nm] = std::move(e);
		}else if((ct->getTag() == dwarf::DW_TAG_structure_type || ct->getTag() == dwarf::DW_TAG_union_type) && !ct->isForwardDecl()){
			json::Array a;
			for(auto *x : ct->getElements()) if(auto *mem = dyn_cast<DIDerivedType>(x)){
				std::string bt = mem->getBaseType() ? mem->getBaseType()->getName().str() : "";
				std::string ck; const DIType *u = mem->getBaseType();
				while(auto *dt = dyn_cast_or_null<DIDerivedType>(u)){
					unsigned tg = dt->getTag();
					if(tg != dwarf::DW_TAG_typedef && tg != dwarf::DW_TAG_const_type && tg != dwarf::DW_TAG_volatile_type) break;
					u = dt->getBaseType();
				}
				if(auto *uc = dyn_cast_or_null<DICompositeType>(u)){
					ck = uc->getName().str();
					if(ck.empty()) ck = "@" + uc->getFilename().str() + ":" + std::to_string(uc->getLine());
				}
				a.push_back(json::Array{mem->getName().str(), (int64_t)(mem->getOffsetInBits()/8), (int64_t)mem->getSizeInBits(), bt, (int64_t)(mem->getOffsetInBits()), mem->isBitField(), ck});
			}
			std::string nm = ct->getName().str();
			if(nm.empty()) nm = "@" + ct->getFilename().str() + ":" + std::to_string(ct->getLine());
			structs[nm] = std::move(a);
		}
	}
	root["funcs"] = std::move(funcs); root["globals"] = std::move(globs); root["enums"] = std::move(enums); root["structs"] = std::move(structs);
	os << json::Value(std::move(root));
	return 0;
}
