// Path exploration, workers, reporting.
#pragma once

static void resetPath()
{
    freezeOff();
    guardDepth = 0;
    // heap back to the snapshot
    if (htop > hsnap) memset(FL(hsnap), 0, htop - hsnap);
    for (u64 a : symBytes) *FL(a) &= ~2;
    symBytes.clear();
    htop = hsnap;
    hobjs.resize(hobjSnap);
    if (!himage.empty()) {
        memcpy((void*)HBASE, himage.data(), himage.size());
        memcpy(FL(HBASE), hflagsImage.data(), hflagsImage.size());
        for (auto& o : hobjs) o.alive = *FL(o.addr) & 1;
    }
    heapLive = heapLiveSnap;
    // stack
    if (stop_ > SBASE) memset(FL(SBASE), 0, stop_ - SBASE);
    stop_ = SBASE;
    sobjs.clear();
    // globals
    size_t k = 0;
    for (auto& g : wglobals) { memcpy((void*)g.first, gimage.data() + k, g.second); k += g.second; }
    frames.clear();
    regtop = 0;
    nvars = 0; varNames.clear();
    choiceNo = 0; instCount = 0;
    exns.clear(); caught.clear(); uncaughtExn = 0;
    observed.clear();
    S.resetPath();
    if (P.count > 250000) S.resetPool();
}
static void writeSample(FILE* f)
{
    fprintf(f, "ok ");
    if (!nvars) fprintf(f, "-");
    for (u32 i = 0; i < nvars; i++) fprintf(f, "%02x", model[i]);
    for (u64 o : observed) fprintf(f, " %llu", (unsigned long long)o);
    fprintf(f, "\n");
}
static FILE* sampleFile;
static u64 completeCount = 0;
static void runPath(const WItem& it, DFunc* entry)
{
    resetPath();
    memcpy(model, it.model, MAXVARS);
    bound = it.bound;
    ws->paths++;
    try {
        pushFrame(entry, nullptr, 1);
        interp();
    }
    catch (PathEnd& e) {
        ws->insts += instCount;
        ws->choices += choiceNo;
        if (choiceNo > ws->maxChoices) ws->maxChoices = choiceNo;
        switch (e.why) {
        case W_DONE: {
            ws->complete++;
            completeCount++;
            // samples: the first few, then ever sparser
            if (completeCount <= 4 || (sampleSeq < opt.samples && (rnd() % (1 + completeCount / 16)) == 0)) { sampleSeq++; if (sampleFile) writeSample(sampleFile); }
            break;
        }
        case W_ASSUME: ws->assumeFail++; break;
        case W_VIOL: ws->violating++; break;
        default: ws->incomplete++; break;
        }
    }
}
static void syncStats()
{
    ws->queries = S.st.queries; ws->hits = S.st.cache_hits; ws->z3 = S.st.z3_calls; ws->sat = S.st.sat; ws->unsat = S.st.unsat; ws->unknown = S.st.unknown;
    ws->z3time = S.st.z3_time; ws->maxq = S.st.max_time;
}
static void worker(DFunc* entry, double deadline)
{
    ws = &sh->w[wid];
    rngState += wid * 0x9e3779b97f4a7c15ull;
    S.init();
    if (opt.dumpEvery) { S.dump_every = opt.dumpEvery; S.dump_dir = opt.out; }
    char fn[600];
    snprintf(fn, sizeof fn, "%s/samples_%d.txt", opt.out.c_str(), wid);
    sampleFile = fopen(fn, "w");
    bool idle = false;
    for (;;) {
        if (sh->stop) break;
        if (now_s() > deadline) { sh->timeup = 1; sh->stop = 1; break; }
        if (opt.maxPaths && ws->paths * opt.workers > opt.maxPaths) { sh->timeup = 1; sh->stop = 1; break; }
        WItem it;
        bool have = false;
        if (!localStack.empty()) { it = localStack.back(); localStack.pop_back(); have = true; }
        else {
            Lock l;
            if (sh->qn) { it = sh->q[--sh->qn]; have = true; if (idle) { idle = false; sh->idle--; } }
            else if (!idle) { idle = true; sh->idle++; }
            if (!have && sh->idle == opt.workers && sh->qn == 0) break;
        }
        if (!have) { usleep(200); continue; }
        runPath(it, entry);
        if (localStack.size() > 1 && sh->qn < opt.workers) {
            Lock l;
            size_t give = std::min<size_t>(localStack.size() / 2, 16);
            for (size_t i = 0; i < give && sh->qn < QMAX; i++) sh->q[sh->qn++] = localStack[i];
            localStack.erase(localStack.begin(), localStack.begin() + give);
        }
    }
    syncStats();
    { Lock l; sh->pendingAtStop += localStack.size(); }
    if (sampleFile) fclose(sampleFile);
}
static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
int main(int argc, char** argv)
{
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--bc") opt.bc = nx();
        else if (a == "--entry") opt.entry = nx();
        else if (a == "--out") opt.out = nx();
        else if (a == "--params") { std::string p = nx(); for (size_t k = 0; k <= p.size() && !p.empty();) { size_t c = p.find(',', k); if (c == std::string::npos) c = p.size(); opt.params.push_back(atoll(p.substr(k, c - k).c_str())); k = c + 1; } }
        else if (a == "--workers") opt.workers = atoi(nx());
        else if (a == "--time") opt.time = atof(nx());
        else if (a == "--max-inst") opt.maxInst = atoll(nx());
        else if (a == "--max-viol") opt.maxViol = atoi(nx());
        else if (a == "--samples") opt.samples = atoi(nx());
        else if (a == "--dump-every") opt.dumpEvery = atoll(nx());
        else if (a == "--max-paths") opt.maxPaths = atoll(nx());
        else if (a == "--seed") rngState ^= mix64(atoll(nx()) + 1);
        else if (a == "--model") opt.model = nx();
        else if (a == "-v") opt.verbose = true;
        else if (a == "--trace") opt.trace = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (opt.workers > MAXW) opt.workers = MAXW;
    double t0 = now_s();
    mkdir(opt.out.c_str(), 0777);
    SMDiagnostic err;
    M = parseIRFile(opt.bc, err, llctx);
    if (!M) { err.print("symx", errs()); return 2; }
    DL = &M->getDataLayout();
    void* p = mmap((void*)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ABASE) { perror("mmap arena"); return 2; }
    flags = (u8*)mmap(nullptr, ASIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (Expr**)mmap(nullptr, ASIZE * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pthread_mutexattr_t ma;
    pthread_mutexattr_init(&ma);
    pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
    pthread_mutex_init(&sh->mu, &ma);
    ws = &sh->w[0];
    regfile.resize(1 << 21);
    frames.reserve(20010);
    // globals
    gtop += 16;
    for (auto& g : M->globals()) globalAddr(&g);
    errnoAddr = gtop + 64;
    gtop = errnoAddr + 16;
    memset(FL(errnoAddr), 1, 4);
    gobjs.push_back({ errnoAddr, 4, true, 'g' });
    wglobals.push_back({ errnoAddr, 4 });
    vtSI = symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE");
    vtVMI = symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    for (auto& g : M->globals())
        if (g.hasInitializer()) storeConst(g.getInitializer(), gaddr[&g]);
        else if (g.getName() == "__libc_single_threaded") *(u8*)gaddr[&g] = 1;
    if (opt.single < 0) {}
    Function* ef = M->getFunction(opt.entry);
    if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry function %s\n", opt.entry.c_str()); return 2; }
    for (auto& F : *M) dfunc(&F);
    for (auto& F : *M) if (!F.isDeclaration()) decode(dfunc(&F));
    covBlocks = (u8*)mmap(nullptr, totalBlocks + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    covFuncs = (u8*)mmap(nullptr, funcs.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // static constructors, concretely
    inInit = true;
    bound = ~0u;
    if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
            for (auto& o : ca->operands()) {
                auto* f = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1));
                if (!f) continue;
                try { pushFrame(dfunc(f), nullptr, 1); interp(); }
                catch (PathEnd& e) { if (e.why != W_DONE) { fprintf(stderr, "static initialisation did not finish\n"); return 2; } }
                frames.clear(); regtop = 0;
            }
    inInit = false;
    std::vector<WItem> none;
    localStack.clear();
    memset((void*)&sh->w[0], 0, sizeof(WStats));
    for (auto& g : wglobals) gimage.insert(gimage.end(), (u8*)g.first, (u8*)g.first + g.second);
    hsnap = (htop + 15) & ~15ull;
    htop = hsnap;
    hobjSnap = hobjs.size();
    heapLiveSnap = heapLive;
    himage.assign((u8*)HBASE, (u8*)hsnap);
    hflagsImage.assign(FL(HBASE), FL(hsnap));
    DFunc* entry = dfunc(ef);
    double tload = now_s() - t0;

    WItem first;
    memset(&first, 0, sizeof first);
    if (!opt.model.empty()) {
        for (size_t i = 0; i + 1 < opt.model.size() && i / 2 < MAXVARS; i += 2) first.model[i / 2] = strtol(opt.model.substr(i, 2).c_str(), nullptr, 16);
        first.bound = ~0u;
        opt.workers = 1;
    }
    sh->q[sh->qn++] = first;
    double deadline = now_s() + opt.time;
    std::vector<pid_t> pids;
    if (opt.workers == 1) worker(entry, deadline);
    else {
        for (int i = 0; i < opt.workers; i++) {
            pid_t pid = fork();
            if (pid == 0) { wid = i; worker(entry, deadline); fflush(nullptr); _exit(0); }
            pids.push_back(pid);
        }
        for (int k = 0; k < opt.workers; k++) {
            int st = 0;
            pid_t pid = wait(&st);
            (void)pid;
            if (!WIFEXITED(st) || WEXITSTATUS(st)) {
                noteReason("a worker ended abnormally");
                sh->timeup = 1; sh->stop = 1;
            }
        }
    }
    WStats t;
    memset(&t, 0, sizeof t);
    for (int i = 0; i < opt.workers; i++) {
        WStats& w = sh->w[i];
        t.paths += w.paths; t.complete += w.complete; t.violating += w.violating; t.assumeFail += w.assumeFail; t.incomplete += w.incomplete; t.insts += w.insts;
        t.choices += w.choices; t.decisions += w.decisions; t.checks += w.checks; t.checksSym += w.checksSym; t.queries += w.queries; t.hits += w.hits; t.z3 += w.z3;
        t.sat += w.sat; t.unsat += w.unsat; t.unknown += w.unknown; t.selfchecks += w.selfchecks; t.selffail += w.selffail; t.forks += w.forks; t.throws_ += w.throws_;
        t.z3time += w.z3time; t.maxq = std::max(t.maxq, w.maxq); t.maxChoices = std::max(t.maxChoices, w.maxChoices); t.concr += w.concr;
    }
    bool exhaustive = !sh->timeup && sh->qn == 0 && !sh->pendingAtStop && !sh->stop && t.incomplete == 0 && sh->nreason == 0;
    u64 nb = 0, nbc = 0, nf = 0;
    std::vector<std::string> repo;
    for (auto* f : funcs) {
        if (!covFuncs[f->id]) continue;
        nf++;
        if (!f->repo) continue;
        u32 c = 0;
        for (u32 b = 0; b < f->nblocks; b++) c += covBlocks[f->blockBase + b];
        nb += f->nblocks; nbc += c;
        std::string d = f->dname;
        char bb[64];
        snprintf(bb, sizeof bb, " [%u/%u blocks]", c, f->nblocks);
        repo.push_back(d.substr(0, 160) + bb);
    }
    std::string fn = opt.out + "/summary.json";
    FILE* f = fopen(fn.c_str(), "w");
    fprintf(f, "{\"entry\": %s, \"params\": [", jstr(opt.entry).c_str());
    for (size_t i = 0; i < opt.params.size(); i++) fprintf(f, "%s%lld", i ? ", " : "", (long long)opt.params[i]);
    fprintf(f, "], \"exhaustive\": %s, \"timeup\": %s, \"pending\": %llu, \"candidates\": %d,\n", exhaustive ? "true" : "false", sh->timeup ? "true" : "false", (unsigned long long)(sh->pendingAtStop + sh->qn), sh->nviol);
#define U(n, v) fprintf(f, "\"%s\": %llu, ", n, (unsigned long long)(v))
    U("paths", t.paths); U("complete", t.complete); U("violating", t.violating); U("assume_rejected", t.assumeFail); U("incomplete", t.incomplete); U("instructions", t.insts);
    U("choices", t.choices); U("decisions", t.decisions); U("concretisations", t.concr); U("checks", t.checks); U("symbolic_checks", t.checksSym); U("queries", t.queries); U("cache_hits", t.hits); U("z3_calls", t.z3);
    U("sat", t.sat); U("unsat", t.unsat); U("unknown", t.unknown); U("selfchecks", t.selfchecks); U("selfcheck_failures", t.selffail); U("forks", t.forks); U("throws", t.throws_); U("max_choices", t.maxChoices);
    U("functions_executed", nf); U("repo_blocks", nb); U("repo_blocks_covered", nbc);
    fprintf(f, "\n\"z3_time\": %.3f, \"z3_max_query\": %.3f, \"load_s\": %.2f, \"wall_s\": %.2f,\n\"reach\": {", t.z3time, t.maxq, tload, now_s() - t0);
    for (int i = 0; i < sh->nlab; i++) fprintf(f, "%s%s: %llu", i ? ", " : "", jstr(sh->lab[i].name).c_str(), (unsigned long long)sh->lab[i].count);
    fprintf(f, "},\n\"reasons\": {");
    for (int i = 0; i < sh->nreason; i++) fprintf(f, "%s%s: %llu", i ? ", " : "", jstr(sh->reason[i].name).c_str(), (unsigned long long)sh->reason[i].count);
    fprintf(f, "},\n\"repo_functions\": [");
    for (size_t i = 0; i < repo.size(); i++) fprintf(f, "%s\n%s", i ? "," : "", jstr(repo[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    return 0;
}
