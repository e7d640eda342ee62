// ------------------------------------------------------------------ driver
static string jsonEsc(const string& s) { string r; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r; }
static void setupSolver() {
    Z = new z3::context(); SOL = new z3::solver(*Z, z3::solver::simple()); z3::params p(*Z); p.set("rlimit", opt.branchRlimit); p.set("random_seed", opt.seed); SOL->set(p); PC = new vector<z3::expr>();
}
static void runThreads() {
    while (true) {
        Thread& t = TH[curT]; step(t);
        if (needSched) { if (TH[0].state == T_DONE) return; schedule(); }
        if (TH[0].state == T_DONE) return;
    }
}
static void runFn(FnInfo* f) {
    TH[0].state = T_RUN; TH[0].st.clear(); pushFrame(TH[0], f, {}); runThreads();
}
static void explore() {
    TH.emplace_back(); TH[0].id = 0; PEND.resize(1); GRANT.resize(1); curT = 0; if (opt.race) vcTick(TH[0]);
    initGlobals();
    if (auto* g = M->getNamedGlobal("__libc_single_threaded")) findObj(GADDR[g])->data[0] = 0;
    // global constructors
    if (auto* g = M->getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* arr = L::dyn_cast<L::ConstantArray>(g->getInitializer())) {
        vector<pair<uint64_t, const L::Function*>> cs;
        for (unsigned i = 0; i < arr->getNumOperands(); i++) { auto* s = L::cast<L::ConstantStruct>(arr->getOperand(i)); if (auto* F = L::dyn_cast<L::Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({L::cast<L::ConstantInt>(s->getOperand(0))->getZExtValue(), F}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) runFn(fnInfo(c.second));
    }
    auto* E = M->getFunction(opt.entry); if (!E) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); endPath(END_UNSUP, "no entry function"); }
    runFn(fnInfo(E));
    endPath(END_OK);
}
int main(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "--out") opt.out = nx(); else if (a == "--entry") opt.entry = nx(); else if (a == "--timeout") opt.timeout = stod(nx()); else if (a == "--hard") opt.hardTimeout = stod(nx()); else if (a == "--jobs") opt.jobs = stoi(nx());
        else if (a == "--preempt") opt.preempt = stoi(nx()); else if (a == "--concrete") opt.concrete = nx(); else if (a == "--steps") opt.maxSteps = stoull(nx()); else if (a == "--maxcex") opt.maxCex = stoi(nx()); else if (a == "--refine") opt.refine = stoi(nx());
        else if (a == "--rlimit") opt.branchRlimit = stoul(nx()); else if (a == "--samples") opt.samples = stoi(nx()); else if (a == "--race") opt.race = true; else if (a == "--unlock") opt.unlockPt = true; else if (a == "-v") opt.verbose = true; else if (a == "--seed") opt.seed = stoul(nx()); else opt.bc = a;
    }
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->tokens = opt.jobs - 1; double t0 = nowS(); S->deadline = t0 + opt.timeout;
    L::LLVMContext ctx; auto mb = L::MemoryBuffer::getFile(opt.bc); if (!mb) { fprintf(stderr, "cannot read %s\n", opt.bc.c_str()); return 2; }
    auto mod = L::parseBitcodeFile((*mb)->getMemBufferRef(), ctx); if (!mod) { fprintf(stderr, "cannot parse %s\n", opt.bc.c_str()); return 2; }
    M = mod->get(); DL = &M->getDataLayout(); regExts(); for (auto& F : *M) fnInfo(&F);
    if (!opt.concrete.empty()) {
        concreteMode = true; std::ifstream f(opt.concrete); string l; while (getline(f, l)) { if (l.empty() || l[0] == '!') continue; std::istringstream is(l); string n, ty, v; is >> n >> ty >> v; if (!n.empty()) concreteVals[n] = {ty.empty() ? 'i' : ty[0], v}; }
    }
    prctl(PR_SET_CHILD_SUBREAPER, 1, 0, 0, 0);
    fflush(nullptr);
    pid_t root = fork();
    if (root == 0) { setpgid(0, 0); struct rlimit rl { (rlim_t)20ull << 30, (rlim_t)20ull << 30 }; setrlimit(RLIMIT_AS, &rl); setupSolver(); explore(); _exit(0); }
    setpgid(root, root);
    bool killed = false; double hardDl = S->deadline + opt.hardTimeout * 2 + 20;
    while (true) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p < 0 && errno == ECHILD) break;
        if (p > 0) { if (WIFSIGNALED(st) && !killed) { addStr(S->nunsup, S->unsup, "path process killed by signal " + std::to_string(WTERMSIG(st))); S->ends[END_UNSUP]++; S->tokens++; } continue; }
        if (nowS() > hardDl && !killed) { killed = true; kill(-root, SIGKILL); addStr(S->nunsup, S->unsup, "paths killed at the time limit"); S->ends[END_TIME]++; }
        usleep(500);
    }
    double el = nowS() - t0; std::ofstream f(opt.out + "/result.json");
    const char* en[] = {"ok", "assume", "violation", "steps", "unsupported", "time", "unknown", "dup"};
    f << "{\n \"entry\": \"" << opt.entry << "\",\n \"seconds\": " << el << ",\n \"solver_seconds\": " << S->solverUs / 1e6 << ",\n \"paths\": " << S->paths << ",\n \"ends\": {"; for (int i = 0; i < END_N; i++) f << (i ? ", " : "") << "\"" << en[i] << "\": " << S->ends[i];
    f << "},\n \"steps\": " << S->steps << ",\n \"queries\": " << S->queries << ", \"sat\": " << S->qsat << ", \"unsat\": " << S->qunsat << ", \"unknown\": " << S->qunk << ", \"hard_queries\": " << S->hard << ", \"hard_unknown\": " << S->hardUnk << ", \"refine_rounds\": " << S->refineRounds << ",\n \"forks\": " << S->forks << ", \"sched_points\": " << S->schedPoints << ", \"threads\": " << S->threadsMax << ", \"max_fork_depth\": " << S->maxDepth << ", \"undef_uses\": " << S->undefUsed << ", \"race_checked_accesses\": " << S->memOps << ",\n \"preempt_bound\": " << opt.preempt << ", \"race\": " << (opt.race ? "true" : "false") << ",\n";
    f << " \"cex\": " << std::min<uint64_t>(S->cexN, opt.maxCex) << ",\n \"sites\": [";
    for (int i = 0; i < S->nsites; i++) f << (i ? ",\n  " : "\n  ") << "{\"msg\": \"" << jsonEsc(S->sites[i].msg) << "\", \"proven\": " << S->sites[i].proven << ", \"concrete\": " << S->sites[i].trivially << ", \"violated\": " << S->sites[i].violated << ", \"unknown\": " << S->sites[i].unknown << "}";
    f << "],\n \"reach\": ["; for (int i = 0; i < S->nreach; i++) f << (i ? ", " : "") << "\"" << jsonEsc(S->reach[i]) << "\"";
    f << "],\n \"incomplete\": ["; for (int i = 0; i < S->nunsup; i++) f << (i ? ", " : "") << "\"" << jsonEsc(S->unsup[i]) << "\"";
    f << "],\n \"notes\": ["; for (int i = 0; i < S->nnote; i++) f << (i ? ", " : "") << "\"" << jsonEsc(S->note[i]) << "\"";
    f << "],\n \"functions\": ["; bool first = true; for (auto* fn : FNS) if (fn->id < 65536 && S->fnSeen[fn->id]) { string d = demangle(fn->name); f << (first ? "" : ",\n  ") << "\"" << jsonEsc(d.substr(0, 240)) << "\""; first = false; }
    f << "]\n}\n"; f.close();
    printf("vsym: %s paths=%lu ok=%lu viol=%lu incomplete=%lu queries=%lu solver=%.1fs time=%.1fs\n", opt.entry.c_str(), (unsigned long)S->paths, (unsigned long)S->ends[END_OK], (unsigned long)S->ends[END_VIOL], (unsigned long)(S->ends[END_STEPS] + S->ends[END_UNSUP] + S->ends[END_TIME] + S->ends[END_UNKNOWN]), (unsigned long)S->queries, S->solverUs / 1e6, el);
    return 0;
}
