std::string jesc(const std::string& m)
{
    std::string e;
    for (char c : m) {
        if (c == '"' || c == '\\') { e += '\\'; e += c; }
        else if (c == '\n') e += "\\n";
        else if ((unsigned char)c < 32) e += ' ';
        else e += c;
    }
    return e;
}
int main(int argc, char** argv)
{
    bool fine = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--bc") opt.bc = nx();
        else if (a == "--entry") opt.entry = nx();
        else if (a == "--out") opt.out = nx();
        else if (a == "--max-depth") opt.maxSteps = std::stoul(nx());
        else if (a == "--max-preempt") opt.maxPreempt = std::stoul(nx());
        else if (a == "--max-states") opt.maxStates = std::stoul(nx());
        else if (a == "--max-instr") opt.maxInstr = std::stoull(nx());
        else if (a == "--time") opt.timeLimit = std::stod(nx());
        else if (a == "--no-merge") opt.merge = false;
        else if (a == "--merge-ptr") opt.mergePtr = std::stoi(nx());
        else if (a == "--merge-max") opt.mergeMax = std::stoi(nx());
        else if (a == "--cut-ok") opt.cutOk = true;
        else if (a == "--max-viol") opt.maxViol = std::stoul(nx());
        else if (a == "--model") opt.replayModel = nx();
        else if (a == "--fine") fine = true;
        else if (a == "-v") opt.verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    SMDiagnostic err;
    M = parseIRFile(opt.bc, err, ctx);
    if (!M) { err.print("symexec", errs()); return 3; }
    DL = &M->getDataLayout();
    if (fine) insertFine(*M);
    // redirect environment functions to their models:  f -> symrt_f
    std::vector<std::pair<Function*, Function*>> red;
    for (auto& F : *M) if (F.getName().starts_with("symrt_") && !F.isDeclaration()) if (Function* o = M->getFunction(F.getName().substr(6))) red.push_back({o, &F});
    for (auto& r : red) { r.first->replaceAllUsesWith(r.second); }
    for (auto& F : *M) F.setPersonalityFn(F.hasPersonalityFn() ? F.getPersonalityFn() : nullptr);
    StateP s = std::make_unique<State>();
    s->ar.resize(0x60);
    // globals
    uint64_t slot = 1;
    for (auto& g : M->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        uint64_t sz = DL->getTypeAllocSize(g.getValueType());
        uint64_t a = (1ull << 32) | (slot << 16);
        slot += 1 + (sz >> 16);
        gAddr[&g] = a; gvAt[a] = &g;
        if (g.isThreadLocal()) { tlsIdx[&g] = tlsVars.size(); tlsVars.push_back(&g); }
    }
    for (auto& g : M->globals()) {
        if (!gAddr.count(&g)) continue;
        uint64_t a = gAddr[&g], sz = DL->getTypeAllocSize(g.getValueType());
        allocAt(*s, a, sz, K_Global, 0);
        if (g.hasInitializer()) writeConst(findW(*s, a), 0, g.getInitializer());
        if (g.isConstant()) findW(*s, a)->ro = true;
        if (g.getName() == "__libc_single_threaded") findW(*s, a)->b[0] = 1;
    }
    if (!opt.replayModel.empty()) {
        rm = std::make_shared<Model>();
        std::ifstream in(opt.replayModel);
        std::string nm; unsigned w; uint64_t v;
        while (in >> nm >> w >> v) { E e = mkSym(nm, w); rm->v[e->val] = v; }
    }
    Function* main = M->getFunction(opt.entry);
    if (!main || main->isDeclaration()) fatal("no entry " + opt.entry);
    // constructors run first, on the main thread
    s->th.emplace_back();
    std::vector<Function*> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer())
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<uint64_t, Function*>> v;
            for (auto& o : ca->operands()) {
                auto* cs = cast<ConstantStruct>(o);
                if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
            }
            std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
            for (auto& x : v) ctors.push_back(x.second);
        }
    for (auto* c : ctors) {
        if (c->isDeclaration()) continue;
        pushFrame(*s, 0, lower(c), {});
        std::vector<StateP> out;
        runThread(std::move(s), 0, out);
        if (out.size() != 1) fatal("constructor forks");
        s = std::move(out[0]);
        s->ended = false;
        auto hc = s->th[0].heapCnt;
        s->th[0] = Thread();
        s->th[0].heapCnt = hc; // what the constructors allocated stays
    }
    s->th[0].done = false; s->ended = false;
    s->liveHeap = 0; s->liveHash = 0;
    pushFrame(*s, 0, lower(main), {});
    explore(std::move(s));
    checkExhaustive();
    std::string status = viols.size() ? "violation" : incomplete ? "incomplete" : "ok";
    double wall = now() - t0;
    std::string o = "{\n \"status\":\"" + status + "\",\n \"incomplete\":\"" + jesc(incompleteWhy) + "\",\n";
    o += " \"stats\":{\"states\":" + std::to_string(nStates) + ",\"transitions\":" + std::to_string(nTrans) + ",\"merged\":" + std::to_string(nMerged) + ",\"merged_identical\":" + std::to_string(nMergeSame) + ",\"same_state\":" + std::to_string(nSubsumed) + ",\"forks\":" + std::to_string(nForks)
       + ",\"paths_ended\":" + std::to_string(nPaths) + ",\"cut\":" + std::to_string(nCut) + ",\"instructions\":" + std::to_string(nInstr) + ",\"exprs\":" + std::to_string(exprCount()) + ",\"symbols\":" + std::to_string(symCount())
       + ",\"queries\":" + std::to_string(sol.st.queries) + ",\"sat\":" + std::to_string(sol.st.sat) + ",\"unsat\":" + std::to_string(sol.st.unsat) + ",\"query_cache_hits\":" + std::to_string(sol.st.cacheHits) + ",\"model_reuse\":" + std::to_string(sol.st.modelHits)
       + ",\"solver_s\":" + std::to_string(sol.st.time) + ",\"solver_max_s\":" + std::to_string(sol.st.maxTime) + ",\"wall_s\":" + std::to_string(wall) + "},\n";
    o += " \"exhaustive\":\"" + exhaustive + "\",\n \"leaves\":" + std::to_string(leaves.size()) + ",\n \"samples\":[";
    { bool f1 = true; for (auto& m : samples) { o += std::string(f1 ? "" : ",") + "["; f1 = false; bool f2 = true;
        for (uint64_t i = 0; i < symCount(); i++) { auto it = m->v.find(i); if (it == m->v.end()) continue;
            o += std::string(f2 ? "" : ",") + "[\"" + symName(i) + "\"," + std::to_string(symWidth(i)) + "," + std::to_string(it->second) + "]"; f2 = false; }
        o += "]"; } }
    o += "],\n \"reached\":[";
    bool fst = true;
    for (auto r : reached) { o += (fst ? "" : ",") + std::to_string(r); fst = false; }
    o += "],\n \"asserts\":{"; fst = true;
    for (auto& r : reachNames) { o += std::string(fst ? "" : ",") + "\"" + jesc(r.first.substr(7)) + "\":" + std::to_string(r.second); fst = false; }
    o += "},\n \"functions\":["; fst = true;
    std::set<std::string> fn;
    for (auto& k : funcs) if (k->hits) fn.insert(demangle(k->F->getName().str()));
    for (auto& x : fn) if (x.find("coro::") != std::string::npos) { o += std::string(fst ? "" : ",") + "\"" + jesc(x.substr(0, 200)) + "\""; fst = false; }
    o += "],\n \"functions_total\":" + std::to_string(fn.size()) + ",\n \"violations\":["; fst = true;
    for (auto& v : viols) {
        o += std::string(fst ? "" : ",") + "\n  {\"kind\":\"" + v.kind + "\",\"msg\":\"" + jesc(v.msg) + "\",\"where\":\"" + jesc(v.where) + "\",\"steps\":" + std::to_string(v.steps) + ",\"stack\":\"" + jesc(v.stack) + "\",\"model\":[";
        bool f2 = true;
        if (v.model) for (uint64_t i = 0; i < symCount(); i++) {
            auto it = v.model->v.find(i);
            if (it == v.model->v.end()) continue;
            o += std::string(f2 ? "" : ",") + "[\"" + symName(i) + "\"," + std::to_string(symWidth(i)) + "," + std::to_string(it->second) + "]"; f2 = false;
        }
        o += "]}"; fst = false;
    }
    o += "\n ],\n \"sched\":["; fst = true;
    for (int x : schedLog) { o += (fst ? "" : ",") + std::to_string(x); fst = false; }
    o += "],\n \"inputs\":["; fst = true;
    for (auto& x : inputLog) { o += std::string(fst ? "" : ",") + "\"" + x + "\""; fst = false; }
    o += "],\n \"log\":["; fst = true;
    for (auto& x : logLog) { o += std::string(fst ? "" : ",") + "\"" + x + "\""; fst = false; }
    o += "]\n}\n";
    if (opt.out.empty()) fputs(o.c_str(), stdout);
    else { std::ofstream of(opt.out); of << o; }
    if (opt.verbose) fprintf(stderr, "status %s %s; %.1fs\n", status.c_str(), incompleteWhy.c_str(), wall);
    fflush(stdout);
    _exit(viols.size() ? 1 : incomplete ? 2 : 0);
}
