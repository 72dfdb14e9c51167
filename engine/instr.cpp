// Prepares the linked bitcode for the native replay: environment redirection, scheduling points, allocation counting, ASan.
#include "fine.h"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
int main(int argc, char** argv)
{
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("instr", errs()); return 3; }
    std::vector<std::pair<Function*, Function*>> red;
    for (auto& F : *M) if (F.getName().starts_with("symrt_") && !F.isDeclaration()) if (Function* o = M->getFunction(F.getName().substr(6))) red.push_back({o, &F});
    for (auto& r : red) r.first->replaceAllUsesWith(r.second);
    if (argc > 3 && std::string(argv[3]) == "--fine") insertFine(*M);
    // shared_ptr reference counts: the same (plain) path as in the engine
    if (auto* g = M->getGlobalVariable("__libc_single_threaded"); g && g->isDeclaration()) {
        auto* n = new GlobalVariable(*M, g->getValueType(), true, GlobalValue::InternalLinkage, ConstantInt::get(g->getValueType(), 1), "replay_single_threaded");
        g->replaceAllUsesWith(n);
    }
    // count the allocations of the code under test
    const char* al[][2] = {{"_Znwm", "symn_new"}, {"_Znam", "symn_new"}, {"_ZnwmRKSt9nothrow_t", "symn_new_nt"}, {"_ZnwmSt11align_val_t", "symn_new_al"}, {"malloc", "symn_new"},
        {"_ZdlPv", "symn_del"}, {"_ZdaPv", "symn_del"}, {"free", "symn_del"}, {"_ZdlPvm", "symn_del2"}, {"_ZdaPvm", "symn_del2"}, {"_ZdlPvSt11align_val_t", "symn_del2"}, {"_ZdlPvmSt11align_val_t", "symn_del3"}, {"_ZnamSt11align_val_t", "symn_new_al"}, {"_ZdaPvSt11align_val_t", "symn_del2"}, {"_ZdaPvmSt11align_val_t", "symn_del3"}};
    for (auto& a : al) if (Function* f = M->getFunction(a[0])) if (f->isDeclaration()) {
        auto* g = cast<Function>(M->getOrInsertFunction(a[1], f->getFunctionType()).getCallee());
        f->replaceAllUsesWith(g);
    }
    auto pt = M->getOrInsertFunction("sym_sched_point", Type::getVoidTy(ctx));
    for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        if (F.hasLinkOnceLinkage() || F.hasWeakLinkage()) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); } // not to be replaced by the runtime's copies
        F.addFnAttr(Attribute::SanitizeAddress);
        std::vector<Instruction*> at;
        for (auto& B : F) for (auto& I : B) if (auto* fe = dyn_cast<FenceInst>(&I); fe ? fe->getOrdering() == AtomicOrdering::Acquire : I.isAtomic()) at.push_back(&I);
        for (auto* I : at) { IRBuilder<> b(I); b.CreateCall(pt); }
    }
    std::error_code ec;
    raw_fd_ostream o(argv[2], ec);
    WriteBitcodeToFile(*M, o);
    return 0;
}
