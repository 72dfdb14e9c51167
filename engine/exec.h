// Symbolic executor over LLVM IR: state representation.
#pragma once
#include "solver.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

struct Val {
    E e = nullptr;
    std::shared_ptr<std::vector<Val>> agg;
    Val() = default;
    Val(E x) : e(x) {}
};

enum ObjKind : uint8_t { K_Global, K_Heap, K_Stack, K_Tls };
struct Obj {
    uint64_t addr; uint32_t size; ObjKind kind; bool freed = false, ro = false;
    uint32_t owner = 0; uint32_t allocSite = 0;
    std::vector<uint8_t> b;
    std::vector<E> s; // empty, or one entry per byte; null entry = concrete byte, else byte b[i] of that term
    mutable uint64_t h0 = 0, h1 = 0; // content hash, 0 = stale
};
using ObjRef = std::shared_ptr<Obj>;

struct Chunk { ObjRef o[32]; mutable uint64_t h0 = 0, h1 = 0; };
struct Arena { std::vector<std::shared_ptr<Chunk>> ch; };

struct KInst { llvm::Instruction* I; int dest; std::vector<int> ops; uint8_t vis; };
struct KFunc {
    llvm::Function* F; unsigned id; uint64_t addr;
    std::vector<KInst> insts; std::vector<Val> consts;
    unsigned nregs = 0, nargs = 0;
    std::vector<unsigned> bbStart, bbOf;           // block index -> first inst, inst -> block
    std::unordered_map<const llvm::BasicBlock*, unsigned> bbIdx;
    std::unordered_map<const llvm::Value*, int> regOf;
    std::vector<std::vector<bool>> liveOut; bool liveDone = false;
    std::unordered_map<uint64_t, std::vector<bool>> liveAt; // (pc, after?) -> live regs
    uint64_t hits = 0;
};

struct Frame {
    KFunc* f; unsigned pc = 0; unsigned spBase = 0; std::vector<Val> regs; std::vector<Val> varargs;
};
using FrameRef = std::shared_ptr<Frame>;

struct Thread {
    std::vector<FrameRef> st;
    bool done = false, paused = false, stale = false;
    uint32_t sp = 0, symCnt = 0, loopCnt = 0;
    std::vector<uint16_t> heapCnt; // allocations so far, by site
};

// A node of the path condition.  Scheduling choices are recorded but not part of the condition (a choice never constrains the
// inputs); a merge node joins two paths: data that differs is selected by the guard g (an input condition when the paths are
// separated by one, otherwise a fresh selector symbol).
struct PCNode {
    std::shared_ptr<PCNode> up; E c; E all; unsigned depth;
    int sd = -1, st = 0; E sc = nullptr;            // scheduling choice: depth, thread, its condition over s_<depth>
    std::shared_ptr<PCNode> l, r; E g = nullptr; bool fresh = false; // merge
};
using PCRef = std::shared_ptr<PCNode>;

struct State {
    std::vector<Thread> th;
    std::vector<Arena> ar;
    PCRef pc;
    uint64_t liveHash = 0; uint32_t liveHeap = 0;
    uint32_t steps = 0, preempt = 0; int last = 0; // last scheduled thread
    bool ended = false;
    std::set<uint64_t> reached;
    uint32_t progress = 0;
};
using StateP = std::unique_ptr<State>;
