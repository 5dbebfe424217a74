// irdump: link bitcode modules, run SROA/mem2reg, dump the program as JSON.
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*, int> ids;

static std::string tyStr(Type *T) {
    std::string s; raw_string_ostream os(s); T->print(os, false, true); return s;
}

static json::Value operand(const Value *V);

static json::Value constant(const Constant *C) {
    if (auto *I = dyn_cast<ConstantInt>(C)) {
        SmallString<40> S; I->getValue().toStringUnsigned(S);
        return json::Array{"i", S.str().str(), (int64_t)I->getBitWidth()};
    }
    if (auto *F = dyn_cast<ConstantFP>(C)) {
        const APFloat &A = F->getValueAPF();
        double d = 0; bool ok = true;
        if (&A.getSemantics() == &APFloat::IEEEdouble()) d = A.convertToDouble();
        else if (&A.getSemantics() == &APFloat::IEEEsingle()) d = A.convertToFloat();
        else ok = false;
        SmallString<40> S; A.toString(S, 0, 0);
        char buf[64]; snprintf(buf, sizeof buf, "%a", d);
        return json::Array{"f", ok ? std::string(buf) : S.str().str(), tyStr(C->getType())};
    }
    if (isa<ConstantPointerNull>(C)) return json::Array{"n"};
    if (isa<PoisonValue>(C) || isa<UndefValue>(C)) return json::Array{"u"};
    if (auto *A = dyn_cast<GlobalAlias>(C)) return constant(A->getAliasee());
    if (auto *G = dyn_cast<GlobalValue>(C)) return json::Array{"g", G->getName().str(), 0};
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        if (CE->getOpcode() == Instruction::GetElementPtr) {
            APInt Off(64, 0);
            if (cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, Off)) {
                json::Value b = constant(CE->getOperand(0));
                if (auto *a = b.getAsArray())
                    if ((*a)[0].getAsString() && *(*a)[0].getAsString() == "g") {
                        int64_t o = *(*a)[2].getAsInteger();
                        return json::Array{"g", (*a)[1], o + Off.getSExtValue()};
                    }
            }
        }
        return json::Array{"ce", tyStr(C->getType())};
    }
    if (isa<ConstantAggregateZero>(C)) return json::Array{"z", tyStr(C->getType())};
    return json::Array{"c?", tyStr(C->getType())};
}

static json::Value operand(const Value *V) {
    if (auto *C = dyn_cast<Constant>(V)) return constant(C);
    auto it = ids.find(V);
    if (it != ids.end()) return json::Array{"v", it->second};
    return json::Array{"?"};
}

static void flatten(const Constant *C, uint64_t off, json::Array &out) {
    Type *T = C->getType();
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
        if (D->isString(8) || D->isCString()) {
            out.push_back(json::Array{(int64_t)off, "str", json::fixUTF8(D->getRawDataValues())});
            return;
        }
        uint64_t sz = DL->getTypeAllocSize(D->getElementType());
        for (unsigned i = 0; i < D->getNumElements(); ++i) flatten(D->getElementAsConstant(i), off + i * sz, out);
        return;
    }
    if (isa<ConstantAggregateZero>(C)) {
        out.push_back(json::Array{(int64_t)off, "zero", (int64_t)DL->getTypeAllocSize(T)});
        return;
    }
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
        auto *L = DL->getStructLayout(S->getType());
        for (unsigned i = 0; i < S->getNumOperands(); ++i) flatten(S->getOperand(i), off + L->getElementOffset(i), out);
        return;
    }
    if (auto *A = dyn_cast<ConstantArray>(C)) {
        uint64_t sz = DL->getTypeAllocSize(A->getType()->getElementType());
        for (unsigned i = 0; i < A->getNumOperands(); ++i) flatten(A->getOperand(i), off + i * sz, out);
        return;
    }
    out.push_back(json::Array{(int64_t)off, "val", constant(C), (int64_t)DL->getTypeAllocSize(T)});
}

static json::Value locOf(const Instruction &I) {
    const DILocation *L = I.getDebugLoc().get();
    if (!L) return nullptr;
    std::string f = L->getFilename().str();
    if (!f.empty() && f[0] != '/') f = L->getDirectory().str() + "/" + f;
    return json::Array{f, (int64_t)L->getLine(), (int64_t)L->getColumn()};
}

int main(int argc, char **argv) {
    // irdump OUT passes in.bc...
    LLVMContext Ctx;
    std::unique_ptr<Module> M;
    for (int i = 3; i < argc; ++i) {
        SMDiagnostic Err;
        auto N = parseIRFile(argv[i], Err, Ctx);
        if (!N) { Err.print(argv[0], errs()); return 2; }
        if (!M) M = std::move(N);
        else if (Linker::linkModules(*M, std::move(N))) { errs() << "link failed\n"; return 2; }
    }
    DL = &M->getDataLayout();
    {
        for (Function &F : *M) {
            F.removeFnAttr(Attribute::OptimizeNone);
            if (F.isDeclaration()) continue;
            StringRef N = F.getName();
            bool tiny = N.starts_with("_ZN9BNIntTypeI") || N.starts_with("_ZNK9BNIntTypeI")
                || N.starts_with("_ZN9__gnu_cxx17__normal_iteratorI") || N.starts_with("_ZNK9__gnu_cxx17__normal_iteratorI")
                || (N.starts_with("_ZN9__gnu_cxx") && N.contains("17__normal_iteratorI") && !N.starts_with("_ZN9__gnu_cxx1"))
                || N.starts_with("_ZSt4move") || N.starts_with("_ZSt7forward")
                || N.starts_with("_ZNSt16initializer_listI") || N.starts_with("_ZNKSt16initializer_listI")
                || N.starts_with("_ZSt5beginI") || N.starts_with("_ZSt3endI");
            if (tiny) {
                F.removeFnAttr(Attribute::NoInline);
                F.addFnAttr(Attribute::AlwaysInline);
            }
        }
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto E = PB.parsePassPipeline(MPM, argv[2])) { errs() << toString(std::move(E)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    json::Object root;
    json::Object funcs, globs, structs;
    for (StructType *S : M->getIdentifiedStructTypes()) {
        if (S->isOpaque() || !S->isSized()) continue;
        json::Array el;
        auto *L = DL->getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); ++i)
            el.push_back(json::Array{(int64_t)L->getElementOffset(i), tyStr(S->getElementType(i))});
        structs[S->getName().str()] = json::Object{{"size", (int64_t)L->getSizeInBytes()}, {"elems", std::move(el)}};
    }
    for (GlobalVariable &G : M->globals()) {
        json::Object g;
        g["const"] = G.isConstant(); g["decl"] = G.isDeclaration(); g["ty"] = tyStr(G.getValueType());
        g["dem"] = demangle(G.getName().str()); g["tls"] = G.isThreadLocal();
        g["link"] = (int64_t)G.getLinkage();
        SmallVector<DIGlobalVariableExpression*, 1> gs; G.getDebugInfo(gs);
        if (!gs.empty()) {
            auto *d = gs[0]->getVariable();
            std::string f = d->getFilename().str();
            if (!f.empty() && f[0] != '/') f = d->getDirectory().str() + "/" + f;
            g["loc"] = json::Array{f, (int64_t)d->getLine()};
        }
        if (G.hasInitializer() && G.isConstant()) { json::Array a; flatten(G.getInitializer(), 0, a); g["init"] = std::move(a); }
        globs[G.getName().str()] = std::move(g);
    }
    for (Function &F : *M) {
        json::Object f;
        f["dem"] = demangle(F.getName().str());
        f["decl"] = F.isDeclaration(); f["nounwind"] = F.doesNotThrow(); f["noreturn"] = F.doesNotReturn();
        f["link"] = (int64_t)F.getLinkage();
        if (auto *SP = F.getSubprogram()) {
            std::string fn = SP->getFilename().str();
            if (!fn.empty() && fn[0] != '/') fn = SP->getDirectory().str() + "/" + fn;
            f["file"] = fn; f["line"] = (int64_t)SP->getLine(); f["dname"] = SP->getName().str();
        }
        f["ret"] = tyStr(F.getReturnType());
        json::Array args; ids.clear(); int n = 0;
        for (Argument &A : F.args()) {
            ids[&A] = n++;
            json::Object a; a["ty"] = tyStr(A.getType());
            if (A.hasStructRetAttr()) a["sret"] = tyStr(A.getParamStructRetType());
            if (A.hasByValAttr()) a["byval"] = tyStr(A.getParamByValType());
            a["name"] = A.getName().str();
            uint64_t d = A.getDereferenceableBytes(); if (d) a["deref"] = (int64_t)d;
            args.push_back(std::move(a));
        }
        f["args"] = std::move(args);
        std::map<const BasicBlock*, int> bbs; int bn = 0;
        for (BasicBlock &B : F) { bbs[&B] = bn++; for (Instruction &I : B) ids[&I] = n++; }
        json::Array blocks;
        for (BasicBlock &B : F) {
            json::Array insts;
            for (Instruction &I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                json::Object o;
                o["op"] = I.getOpcodeName(); o["id"] = ids[&I];
                if (!I.getType()->isVoidTy()) o["ty"] = tyStr(I.getType());
                auto lv = locOf(I); if (lv.getAsArray()) o["loc"] = std::move(lv);
                json::Array ops;
                if (auto *CB = dyn_cast<CallBase>(&I)) {
                    for (auto &A : CB->args()) ops.push_back(operand(A));
                    const Value *cv = CB->getCalledOperand()->stripPointerCasts();
                    if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee();
                    o["callee"] = operand(cv);
                    o["nounwind"] = CB->doesNotThrow();
                    if (auto *IV = dyn_cast<InvokeInst>(&I)) {
                        o["normal"] = bbs[IV->getNormalDest()]; o["unwind"] = bbs[IV->getUnwindDest()];
                    }
                } else if (auto *P = dyn_cast<PHINode>(&I)) {
                    json::Array inc;
                    for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
                        inc.push_back(json::Array{bbs[P->getIncomingBlock(i)], operand(P->getIncomingValue(i))});
                    o["inc"] = std::move(inc);
                } else if (auto *BI = dyn_cast<BranchInst>(&I)) {
                    if (BI->isConditional()) { ops.push_back(operand(BI->getCondition())); o["succ"] = json::Array{bbs[BI->getSuccessor(0)], bbs[BI->getSuccessor(1)]}; }
                    else o["succ"] = json::Array{bbs[BI->getSuccessor(0)]};
                } else if (auto *SI = dyn_cast<SwitchInst>(&I)) {
                    ops.push_back(operand(SI->getCondition()));
                    json::Array cs;
                    for (auto &c : SI->cases()) cs.push_back(json::Array{constant(c.getCaseValue()), bbs[c.getCaseSuccessor()]});
                    o["cases"] = std::move(cs); o["default"] = bbs[SI->getDefaultDest()];
                } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                    ops.push_back(operand(G->getPointerOperand()));
                    MapVector<Value*, APInt> VO; APInt CO(64, 0);
                    if (G->collectOffset(*DL, 64, VO, CO)) {
                        o["off"] = (int64_t)CO.getSExtValue();
                        json::Array vs;
                        for (auto &kv : VO) vs.push_back(json::Array{operand(kv.first), (int64_t)kv.second.getSExtValue(), tyStr(kv.first->getType())});
                        o["var"] = std::move(vs);
                    }
                    o["inbounds"] = G->isInBounds();
                    o["srcty"] = tyStr(G->getSourceElementType());
                } else {
                    for (auto &U : I.operands()) ops.push_back(operand(U));
                }
                if (auto *C = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(C->getPredicate()).str(); o["cty"] = tyStr(C->getOperand(0)->getType()); }
                if (auto *C = dyn_cast<CastInst>(&I)) o["from"] = tyStr(C->getSrcTy());
                if (auto *A = dyn_cast<AllocaInst>(&I)) {
                    o["aty"] = tyStr(A->getAllocatedType());
                    o["size"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType());
                }
                if (isa<LoadInst>(I) || isa<StoreInst>(I)) {
                    Type *T = isa<LoadInst>(I) ? I.getType() : cast<StoreInst>(I).getValueOperand()->getType();
                    o["mty"] = tyStr(T); o["msize"] = (int64_t)DL->getTypeStoreSize(T);
                }
                if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = OB->hasNoSignedWrap(); o["nuw"] = OB->hasNoUnsignedWrap(); }
                if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
                    o["cleanup"] = LP->isCleanup();
                    json::Array cl;
                    for (unsigned i = 0; i < LP->getNumClauses(); ++i) cl.push_back(json::Array{LP->isCatch(i) ? "catch" : "filter", constant(LP->getClause(i))});
                    o["clauses"] = std::move(cl);
                }
                if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (unsigned i : E->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x); }
                if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (unsigned i : E->indices()) x.push_back((int64_t)i); o["idx"] = std::move(x); }
                o["ops"] = std::move(ops);
                insts.push_back(std::move(o));
            }
            blocks.push_back(std::move(insts));
        }
        f["blocks"] = std::move(blocks);
        funcs[F.getName().str()] = std::move(f);
    }
    root["functions"] = std::move(funcs); root["globals"] = std::move(globs); root["structs"] = std::move(structs);
    std::error_code EC; raw_fd_ostream os(argv[1], EC);
    if (EC) { errs() << EC.message() << "\n"; return 2; }
    os << json::Value(std::move(root));
    return 0;
}
