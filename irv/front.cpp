// irv front end: takes the bitcode clang produced from a contract file plus the real /repo headers, and for every
// contract harness (vf_proof_*) writes the closed, inlined, SSA form of the code to JSON for the VC generator.
// Nothing is edited by hand: the functions of /repo reach the verifier exactly as clang lowered them; what is done
// here is (1) calls of functions that the harness declares as "verified separately" are redirected to the stub that
// states their contract, (2) everything else is inlined, (3) a fixed list of LLVM's scalar simplifications is run.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Verifier.h"
#include <map>
#include <set>
#include <regex>
using namespace llvm;

static std::string tstr(Type* t)
{
	std::string s;
	raw_string_ostream os(s);
	t->print(os, false, true);
	return os.str();
}

struct Dumper
{
	Module& M;
	const DataLayout& DL;
	std::set<std::string> needGlobals;
	std::set<Function*> needFuncs;
	std::vector<Function*> queue;
	std::set<std::string> repoFns;
	std::vector<GlobalVariable*> gq;
	std::set<GlobalVariable*> gseen;
	Dumper(Module& m) : M(m), DL(m.getDataLayout()) {}

	void useFunc(Function* f)
	{
		if (!f->isDeclaration() && needFuncs.insert(f).second)
			queue.push_back(f);
	}
	void useGlobal(GlobalVariable* g)
	{
		if (gseen.insert(g).second)
			gq.push_back(g);
	}
	std::map<const Value*, int>* ids = nullptr;

	json::Value typ(Type* t) { return tstr(t); }

	json::Value constant(Constant* c)
	{
		Type* t = c->getType();
		if (auto* ci = dyn_cast<ConstantInt>(c)) {
			SmallString<40> s;
			ci->getValue().toStringUnsigned(s);
			return json::Object{ { "k", "i" }, { "w", (int64_t)ci->getBitWidth() }, { "v", std::string(s.str()) } };
		}
		if (auto* cf = dyn_cast<ConstantFP>(c)) {
			APInt b = cf->getValueAPF().bitcastToAPInt();
			SmallString<40> s;
			b.toStringUnsigned(s);
			return json::Object{ { "k", "f" }, { "t", typ(t) }, { "w", (int64_t)b.getBitWidth() }, { "v", std::string(s.str()) } };
		}
		if (isa<ConstantPointerNull>(c))
			return json::Object{ { "k", "null" } };
		if (isa<PoisonValue>(c) || isa<UndefValue>(c))
			return json::Object{ { "k", "undef" }, { "t", typ(t) } };
		if (auto* f = dyn_cast<Function>(c)) {
			useFunc(f);
			return json::Object{ { "k", "fn" }, { "n", f->getName().str() } };
		}
		if (auto* g = dyn_cast<GlobalVariable>(c)) {
			useGlobal(g);
			return json::Object{ { "k", "g" }, { "n", g->getName().str() }, { "o", 0 } };
		}
		if (auto* ga = dyn_cast<GlobalAlias>(c))
			return constant(ga->getAliasee());
		if (isa<ConstantAggregateZero>(c)) {
			if (auto* vt = dyn_cast<FixedVectorType>(t)) {
				json::Array a;
				for (unsigned i = 0; i < vt->getNumElements(); ++i)
					a.push_back(constant(Constant::getNullValue(vt->getElementType())));
				return json::Object{ { "k", "agg" }, { "e", std::move(a) } };
			}
			if (auto* st = dyn_cast<StructType>(t)) {
				json::Array a;
				for (unsigned i = 0; i < st->getNumElements(); ++i)
					a.push_back(constant(Constant::getNullValue(st->getElementType(i))));
				return json::Object{ { "k", "agg" }, { "e", std::move(a) } };
			}
			if (auto* at = dyn_cast<ArrayType>(t)) {
				json::Array a;
				for (unsigned i = 0; i < at->getNumElements(); ++i)
					a.push_back(constant(Constant::getNullValue(at->getElementType())));
				return json::Object{ { "k", "agg" }, { "e", std::move(a) } };
			}
		}
		if (auto* cv = dyn_cast<ConstantDataSequential>(c)) {
			json::Array a;
			for (unsigned i = 0; i < cv->getNumElements(); ++i)
				a.push_back(constant(cv->getElementAsConstant(i)));
			return json::Object{ { "k", "agg" }, { "e", std::move(a) } };
		}
		if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
			json::Array a;
			for (unsigned i = 0; i < ca->getNumOperands(); ++i)
				a.push_back(constant(cast<Constant>(ca->getOperand(i))));
			return json::Object{ { "k", "agg" }, { "e", std::move(a) } };
		}
		if (auto* ce = dyn_cast<ConstantExpr>(c)) {
			if (t->isPointerTy()) {
				APInt off(DL.getIndexTypeSizeInBits(t), 0);
				Value* b = c->stripAndAccumulateConstantOffsets(DL, off, true);
				if (auto* g = dyn_cast<GlobalVariable>(b)) {
					useGlobal(g);
					return json::Object{ { "k", "g" }, { "n", g->getName().str() }, { "o", off.getSExtValue() } };
				}
				if (isa<ConstantPointerNull>(b))
					return json::Object{ { "k", "null" }, { "o", off.getSExtValue() } };
			}
			json::Array ops;
			for (unsigned i = 0; i < ce->getNumOperands(); ++i)
				ops.push_back(constant(ce->getOperand(i)));
			return json::Object{ { "k", "ce" }, { "op", ce->getOpcodeName() }, { "t", typ(t) }, { "ops", std::move(ops) } };
		}
		std::string s;
		raw_string_ostream os(s);
		c->print(os);
		return json::Object{ { "k", "unknown" }, { "s", os.str() } };
	}
	json::Value val(Value* v)
	{
		if (auto* c = dyn_cast<Constant>(v))
			return constant(c);
		if (auto* ia = dyn_cast<InlineAsm>(v))
			return json::Object{ { "k", "asm" }, { "s", ia->getAsmString() }, { "c", ia->getConstraintString() } };
		if (auto* bb = dyn_cast<BasicBlock>(v))
			return json::Object{ { "k", "bb" }, { "v", (*ids)[bb] } };
		if (isa<MetadataAsValue>(v))
			return json::Object{ { "k", "md" } };
		auto it = ids->find(v);
		return json::Object{ { "k", "r" }, { "v", it == ids->end() ? -1 : it->second } };
	}

	bool flatten(Constant* c, std::vector<json::Value>& out)
	{
		// bytes of an initializer: ints, or {"p":global/fn,...} for 8-byte pointers
		Type* t = c->getType();
		uint64_t sz = DL.getTypeAllocSize(t);
		if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) {
			for (uint64_t i = 0; i < sz; ++i)
				out.push_back(0);
			return true;
		}
		if (auto* ci = dyn_cast<ConstantInt>(c)) {
			APInt v = ci->getValue().zext(std::max<unsigned>(ci->getBitWidth(), sz * 8));
			for (uint64_t i = 0; i < sz; ++i)
				out.push_back((int64_t)v.extractBitsAsZExtValue(8, i * 8));
			return true;
		}
		if (auto* cf = dyn_cast<ConstantFP>(c)) {
			APInt v = cf->getValueAPF().bitcastToAPInt();
			v = v.zext(std::max<unsigned>(v.getBitWidth(), sz * 8));
			for (uint64_t i = 0; i < sz; ++i)
				out.push_back((int64_t)v.extractBitsAsZExtValue(8, i * 8));
			return true;
		}
		if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
			for (unsigned i = 0; i < cd->getNumElements(); ++i)
				if (!flatten(cd->getElementAsConstant(i), out))
					return false;
			return true;
		}
		if (auto* st = dyn_cast<ConstantStruct>(c)) {
			const StructLayout* sl = DL.getStructLayout(cast<StructType>(t));
			uint64_t base = out.size();
			for (unsigned i = 0; i < st->getNumOperands(); ++i) {
				while (out.size() - base < sl->getElementOffset(i))
					out.push_back(0);
				if (!flatten(st->getOperand(i), out))
					return false;
			}
			while (out.size() - base < sz)
				out.push_back(0);
			return true;
		}
		if (auto* ca = dyn_cast<ConstantArray>(c)) {
			for (unsigned i = 0; i < ca->getNumOperands(); ++i)
				if (!flatten(ca->getOperand(i), out))
					return false;
			return true;
		}
		if (t->isPointerTy()) {
			out.push_back(json::Object{ { "p", constant(c) } });
			for (int i = 1; i < 8; ++i)
				out.push_back(nullptr);
			return true;
		}
		return false;
	}

	void loc(Instruction& I, json::Object& o)
	{
		if (DILocation* d = I.getDebugLoc().get()) {
			o["ln"] = (int64_t)d->getLine();
			if (auto* sp = d->getScope()->getSubprogram()) {
				o["fl"] = sp->getFilename().str();
				o["fn"] = sp->getName().str();
			}
			for (DILocation* x = d; x; x = x->getInlinedAt())
				if (auto* sp = x->getScope()->getSubprogram())
					if (sp->getFilename().contains("seq/") && !sp->getFilename().contains("verif"))
						repoFns.insert(sp->getFilename().str() + "|" + (sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str())));
		}
	}

	json::Value function(Function& F)
	{
		std::map<const Value*, int> local;
		ids = &local;
		int n = 0;
		json::Object fo;
		json::Array args;
		for (auto& a : F.args()) {
			local[&a] = n;
			json::Object ao{ { "id", n }, { "t", typ(a.getType()) } };
			if (a.hasByValAttr())
				ao["byval"] = (int64_t)DL.getTypeAllocSize(a.getParamByValType());
			args.push_back(std::move(ao));
			++n;
		}
		int b = 0;
		for (auto& bb : F)
			local[&bb] = b++;
		for (auto& bb : F)
			for (auto& I : bb)
				local[&I] = n++;
		json::Array blocks;
		for (auto& bb : F) {
			json::Array ins;
			for (auto& I : bb) {
				if (isa<DbgInfoIntrinsic>(&I))
					continue;
				json::Object o;
				o["id"] = local[&I];
				o["op"] = I.getOpcodeName();
				o["t"] = typ(I.getType());
				loc(I, o);
				json::Array ops;
				if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
					MapVector<Value*, APInt> vars;
					APInt off(64, 0);
					if (gep->getType()->isVectorTy() || !cast<GEPOperator>(gep)->collectOffset(DL, 64, vars, off)) {
						o["bad"] = 1;
					}
					o["base"] = val(gep->getPointerOperand());
					o["off"] = off.getSExtValue();
					json::Array vs;
					for (auto& kv : vars)
						vs.push_back(json::Array{ val(kv.first), kv.second.getSExtValue(), typ(kv.first->getType()) });
					o["vars"] = std::move(vs);
					ins.push_back(std::move(o));
					continue;
				}
				if (auto* ph = dyn_cast<PHINode>(&I)) {
					json::Array inc;
					for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
						inc.push_back(json::Array{ local[ph->getIncomingBlock(i)], val(ph->getIncomingValue(i)) });
					o["inc"] = std::move(inc);
					ins.push_back(std::move(o));
					continue;
				}
				if (auto* sw = dyn_cast<SwitchInst>(&I)) {
					o["c"] = val(sw->getCondition());
					o["def"] = local[sw->getDefaultDest()];
					json::Array cs;
					for (auto& c : sw->cases())
						cs.push_back(json::Array{ constant(c.getCaseValue()), local[c.getCaseSuccessor()] });
					o["cases"] = std::move(cs);
					ins.push_back(std::move(o));
					continue;
				}
				if (auto* al = dyn_cast<AllocaInst>(&I)) {
					o["sz"] = (int64_t)DL.getTypeAllocSize(al->getAllocatedType());
					o["cnt"] = val(al->getArraySize());
					ins.push_back(std::move(o));
					continue;
				}
				if (auto* cb = dyn_cast<CallBase>(&I)) {
					for (auto& a : cb->args())
						ops.push_back(val(a.get()));
					json::Array ats;
					for (auto& a : cb->args())
						ats.push_back(typ(a.get()->getType()));
					o["args"] = std::move(ops);
					o["ats"] = std::move(ats);
					o["callee"] = val(cb->getCalledOperand());
					if (auto* iv = dyn_cast<InvokeInst>(&I)) {
						o["nd"] = local[iv->getNormalDest()];
						o["ud"] = local[iv->getUnwindDest()];
					}
					ins.push_back(std::move(o));
					continue;
				}
				if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
					o["cleanup"] = lp->isCleanup();
					json::Array cl;
					for (unsigned i = 0; i < lp->getNumClauses(); ++i)
						cl.push_back(json::Array{ lp->isCatch(i) ? "catch" : "filter", constant(lp->getClause(i)) });
					o["clauses"] = std::move(cl);
					ins.push_back(std::move(o));
					continue;
				}
				if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
					json::Array ix;
					for (unsigned i : ev->indices())
						ix.push_back((int64_t)i);
					o["idx"] = std::move(ix);
				}
				if (auto* ev = dyn_cast<InsertValueInst>(&I)) {
					json::Array ix;
					for (unsigned i : ev->indices())
						ix.push_back((int64_t)i);
					o["idx"] = std::move(ix);
				}
				if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
					json::Array m;
					for (int i : sv->getShuffleMask())
						m.push_back((int64_t)i);
					o["mask"] = std::move(m);
				}
				if (auto* cmp = dyn_cast<CmpInst>(&I))
					o["pred"] = CmpInst::getPredicateName(cmp->getPredicate()).str();
				if (auto* bo = dyn_cast<OverflowingBinaryOperator>(&I)) {
					if (bo->hasNoSignedWrap())
						o["nsw"] = 1;
					if (bo->hasNoUnsignedWrap())
						o["nuw"] = 1;
				}
				if (auto* ld = dyn_cast<LoadInst>(&I)) {
					o["sz"] = (int64_t)DL.getTypeStoreSize(ld->getType());
					if (ld->isAtomic())
						o["ord"] = toIRString(ld->getOrdering());
				}
				if (auto* st = dyn_cast<StoreInst>(&I)) {
					o["sz"] = (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType());
					o["vt"] = typ(st->getValueOperand()->getType());
					if (st->isAtomic())
						o["ord"] = toIRString(st->getOrdering());
				}
				if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) {
					o["rmw"] = AtomicRMWInst::getOperationName(rmw->getOperation()).str();
					o["ord"] = toIRString(rmw->getOrdering());
				}
				if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
					o["ord"] = toIRString(cx->getSuccessOrdering());
					o["ford"] = toIRString(cx->getFailureOrdering());
					o["vt"] = typ(cx->getCompareOperand()->getType());
				}
				if (isa<CastInst>(&I))
					o["st"] = typ(I.getOperand(0)->getType());
				if (isa<CmpInst>(&I) || isa<BinaryOperator>(&I))
					o["st"] = typ(I.getOperand(0)->getType());
				for (auto& op : I.operands())
					ops.push_back(val(op.get()));
				o["ops"] = std::move(ops);
				ins.push_back(std::move(o));
			}
			blocks.push_back(std::move(ins));
		}
		DominatorTree DT(F);
		LoopInfo LI(DT);
		AssumptionCache AC(F);
		TargetLibraryInfoImpl TLII(Triple(M.getTargetTriple()));
		TargetLibraryInfo TLI(TLII);
		ScalarEvolution SE(F, TLI, AC, DT, LI);
		json::Array loops;
		for (Loop* L : LI.getLoopsInPreorder()) {
			json::Array bl;
			for (BasicBlock* x : L->blocks())
				bl.push_back(local[x]);
			loops.push_back(json::Object{ { "header", local[L->getHeader()] }, { "blocks", std::move(bl) }, { "depth", (int64_t)L->getLoopDepth() }, { "trip", (int64_t)SE.getSmallConstantMaxTripCount(L) } });
		}
		fo["name"] = F.getName().str();
		fo["dem"] = demangle(F.getName().str());
		fo["args"] = std::move(args);
		fo["blocks"] = std::move(blocks);
		fo["loops"] = std::move(loops);
		fo["ret"] = typ(F.getReturnType());
		ids = nullptr;
		return fo;
	}
};

static void optimize(Module& M, const std::string& pipe)
{
	LoopAnalysisManager LAM;
	FunctionAnalysisManager FAM;
	CGSCCAnalysisManager CGAM;
	ModuleAnalysisManager MAM;
	PipelineTuningOptions pto;
	PassBuilder PB(nullptr, pto);
	PB.registerModuleAnalyses(MAM);
	PB.registerCGSCCAnalyses(CGAM);
	PB.registerFunctionAnalyses(FAM);
	PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	if (auto e = PB.parsePassPipeline(MPM, pipe)) {
		errs() << "bad pipeline " << toString(std::move(e)) << "\n";
		exit(3);
	}
	MPM.run(M, MAM);
}

static std::string constStr(Value* v)
{
	v = v->stripPointerCasts();
	if (auto* g = dyn_cast<GlobalVariable>(v))
		if (g->hasInitializer())
			if (auto* d = dyn_cast<ConstantDataArray>(g->getInitializer()))
				if (d->isCString())
					return d->getAsCString().str();
	return "";
}

int main(int argc, char** argv)
{
	if (argc < 3)
		return 2;
	LLVMContext ctx;
	SMDiagnostic err;
	auto M0 = parseIRFile(argv[1], err, ctx);
	if (!M0) {
		err.print("front", errs());
		return 3;
	}
	std::string outdir = argv[2];
	std::string only = argc > 3 ? argv[3] : "";
	std::vector<std::string> names;
	for (auto& F : *M0)
		if (!F.isDeclaration() && F.getName().starts_with("vf_proof_"))
			if (only.empty() || std::regex_match(F.getName().substr(9).str(), std::regex(only)))
				names.push_back(F.getName().str());
	for (auto& nm : names) {
		auto M = CloneModule(*M0);
		Function* H = M->getFunction(nm);
		json::Array replaced;
		// contract replacement
		std::vector<CallBase*> calls;
		for (auto& bb : *H)
			for (auto& I : bb)
				if (auto* cb = dyn_cast<CallBase>(&I))
					if (cb->getCalledFunction() && (cb->getCalledFunction()->getName() == "vf_replace"))
						calls.push_back(cb);
		std::vector<std::pair<Function*, std::string>> stubs;
		for (auto* cb : calls) {
			std::string rx = constStr(cb->getArgOperand(0));
			auto* stub = dyn_cast<Function>(cb->getArgOperand(1)->stripPointerCasts());
			if (!stub || rx.empty()) {
				errs() << "bad vf_replace in " << nm << "\n";
				return 4;
			}
			stubs.push_back({ stub, rx });
		}
		std::set<Function*> stubset;
		for (auto& s : stubs)
			stubset.insert(s.first);
		for (auto& [stub, rx] : stubs) {
			int cnt = 0, bad = 0;
			std::regex re(rx);
			for (auto& F : *M) {
				if (stubset.count(&F) || &F == H)
					continue;
				std::string d = demangle(F.getName().str());
				if (!std::regex_search(d, re))
					continue;
				if (F.getFunctionType() != stub->getFunctionType()) {
					++bad;
					continue;
				}
				F.replaceAllUsesWith(stub);
				++cnt;
			}
			replaced.push_back(json::Object{ { "rx", rx }, { "n", cnt }, { "bad", bad }, { "stub", demangle(stub->getName().str()) } });
		}
		for (auto* cb : calls) {
			if (auto* iv = dyn_cast<InvokeInst>(cb)) {
				BranchInst::Create(iv->getNormalDest(), iv);
				iv->getUnwindDest()->removePredecessor(iv->getParent());
			}
			cb->eraseFromParent();
		}
		std::string pipe = "always-inline,globaldce,function(sroa<modify-cfg>,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa<modify-cfg>,early-cse<memssa>,"
				   "instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,loop-mssa(licm),early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,adce,loop-simplify),globaldce";
		std::set<Function*> hints;
		for (auto& F : *M) {
			if (F.isDeclaration())
				continue;
			if (&F == H) {
				F.removeFnAttr(Attribute::OptimizeNone);
				F.removeFnAttr(Attribute::NoInline);
				continue;
			}
			F.removeFnAttr(Attribute::OptimizeNone);
			F.removeFnAttr(Attribute::NoInline);
			if (!F.getName().starts_with("vf_hintfn") && !F.getName().starts_with("vf_keep"))
				F.addFnAttr(Attribute::AlwaysInline);
			else
				F.addFnAttr(Attribute::NoInline);
			if (F.getName().starts_with("vf_proof_"))
				F.removeFnAttr(Attribute::AlwaysInline);
			F.setLinkage(GlobalValue::InternalLinkage);
			F.setComdat(nullptr);
		}
		optimize(*M, pipe);
		if (verifyModule(*M, &errs()))
			return 5;
		Dumper D(*M);
		json::Object root;
		json::Array funcs;
		D.useFunc(H);
		for (size_t i = 0; i < D.queue.size(); ++i)
			funcs.push_back(D.function(*D.queue[i]));
		json::Array globs;
		std::map<const Value*, int> dummy;
		D.ids = &dummy;
		for (size_t i = 0; i < D.gq.size(); ++i) {
			GlobalVariable* g = D.gq[i];
			json::Object go;
			go["n"] = g->getName().str();
			go["const"] = g->isConstant();
			go["sz"] = g->getValueType()->isSized() ? (int64_t)D.DL.getTypeAllocSize(g->getValueType()) : (int64_t)0;
			if (g->hasInitializer()) {
				std::vector<json::Value> by;
				if (D.flatten(g->getInitializer(), by)) {
					json::Array a;
					for (auto& x : by)
						a.push_back(std::move(x));
					go["init"] = std::move(a);
				}
			}
			globs.push_back(std::move(go));
		}
		for (size_t i = funcs.size(); i < D.queue.size(); ++i)
			funcs.push_back(D.function(*D.queue[i]));
		root["harness"] = nm;
		root["funcs"] = std::move(funcs);
		root["globals"] = std::move(globs);
		root["replaced"] = std::move(replaced);
		json::Array rf;
		for (auto& s : D.repoFns)
			rf.push_back(s);
		root["repo_functions"] = std::move(rf);
		std::error_code ec;
		raw_fd_ostream os(outdir + "/" + nm + ".json", ec);
		os << json::Value(std::move(root));
		if (getenv("IRV_LL")) {
			raw_fd_ostream ls(outdir + "/" + nm + ".ll", ec);
			H->print(ls);
		}
		outs() << nm << "\n";
	}
	return 0;
}
