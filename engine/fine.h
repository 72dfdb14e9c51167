// --fine: a scheduling point after every atomic instruction as well, so that the plain accesses that follow it are
// interleaved with other threads (use after free and lost updates on non-atomic memory become visible).
#pragma once
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
inline void insertFine(llvm::Module& M)
{
    using namespace llvm;
    auto pt = M.getOrInsertFunction("sym_sched_point", Type::getVoidTy(M.getContext()));
    for (auto& F : M) {
        if (F.isDeclaration() || F.getName().starts_with("symrt_") || F.getName().starts_with("sym_")) continue;
        std::vector<Instruction*> at;
        for (auto& B : F) for (auto& I : B) if (I.isAtomic() && !isa<FenceInst>(I)) {
            bool need = false;
            auto* x = I.getNextNode();
            for (; x && !need; x = x->getNextNode()) {
                if (x->isAtomic() && !isa<FenceInst>(x)) break;
                if (auto* c = dyn_cast<CallBase>(x)) need = !isa<IntrinsicInst>(c);
                else need = x->mayReadOrWriteMemory() || x->isTerminator();
            }
            if (need) at.push_back(&I);
        }
        for (auto* I : at) { IRBuilder<> b(I->getNextNode()); b.CreateCall(pt); }
    }
}
