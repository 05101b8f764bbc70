static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }
void rootFinish() {
  sem_post(&SH->tok);
  for (;;) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; } if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->engineErr++; incomplete("a worker process died abnormally (status " + std::to_string(st) + ")"); sem_post(&SH->tok); } }
  FILE* f = fopen((optOut + "/result.json").c_str(), "w"); if (!f) { perror("result"); return; }
  fprintf(f, "{\n \"paths\": %llu, \"forks\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"truth_table_queries\": %llu, \"cached_queries\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f, \"steps\": %llu, \"asserts\": %llu, \"asserts_symbolic\": %llu, \"asserts_proved_unsat\": %llu, \"assume_killed\": %llu, \"concretization_forks\": %llu, \"symbolic_bytes\": %llu, \"max_path_steps\": %llu, \"faults\": %llu,\n", (unsigned long long)SH->paths, (unsigned long long)SH->forks, (unsigned long long)SH->queries, (unsigned long long)SH->satq, (unsigned long long)SH->unsatq, (unsigned long long)SH->unkq, (unsigned long long)SH->tableq, (unsigned long long)SH->cacheq, SH->solverNs * 1e-9, now() - (deadline - optTime), (unsigned long long)SH->steps, (unsigned long long)SH->asserts, (unsigned long long)SH->assertsSym, (unsigned long long)SH->unsatAsserts, (unsigned long long)SH->assumeKill, (unsigned long long)SH->concForks, (unsigned long long)SH->symInputs, (unsigned long long)SH->maxPathSteps, (unsigned long long)SH->faults);
  fprintf(f, " \"stop\": %d, \"incomplete\": %d, \"engine_errors\": %d, \"incomplete_why\": \"%s\", \"samples\": %d,\n", (int)SH->stop, (int)SH->incomplete, (int)SH->engineErr, jesc(SH->incompleteWhy).c_str(), std::min((int)SH->samples, optSamples));
  fprintf(f, " \"violations\": ["); bool first = true; for (int i = 0; i < SH_MAXV; i++) if (SH->viol[i].used == 2) { ShViol& v = SH->viol[i]; fprintf(f, "%s\n  {\"kind\": \"%s\", \"msg\": \"%s\", \"loc\": \"%s\", \"file\": \"%s\"}", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str(), jesc(v.file).c_str()); first = false; }
  fprintf(f, "],\n \"reach\": {"); first = true; for (int i = 0; i < SH_MAXR; i++) if (SH->reach[i].used == 2) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jesc(SH->reach[i].name).c_str(), (unsigned long long)SH->reach[i].n); first = false; }
  fprintf(f, "},\n \"functions\": ["); first = true; for (Func* x : funcs) if (x->id < SH_MAXF && SH->fcov[x->id]) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jesc(x->name).c_str()); first = false; }
  fprintf(f, "]\n}\n"); fclose(f);
}
int main(int argc, char** argv) {
  std::vector<std::pair<std::string, std::string>> stubs;
  std::vector<std::string> in;
  for (int i = 1; i < argc; i++) { std::string s = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (s == "-o") optOut = nx(); else if (s == "-entry") optEntry = nx(); else if (s == "-j") optJobs = atoi(nx().c_str()); else if (s == "-t") optTime = atoi(nx().c_str()); else if (s == "-v") optVerbose++; else if (s == "-max-conc") optMaxConc = atoi(nx().c_str()); else if (s == "-path-steps") optPathSteps = strtoull(nx().c_str(), 0, 10); else if (s == "-samples") optSamples = atoi(nx().c_str()); else if (s == "-allow") allowSet.insert(nx()); else if (s == "-abort-ok") optAbortOk = true; else if (s == "-depth") optDepth = atoi(nx().c_str()); else if (s == "-max-viol") optMaxViol = atoi(nx().c_str()); else if (s == "-rlimit") optRlimit = strtoull(nx().c_str(), 0, 10); else if (s == "-stdout") optStdout = true; else if (s == "-stub") { std::string t = nx(); size_t q = t.find('='); stubs.push_back({t.substr(0, q), t.substr(q + 1)}); } else in.push_back(s); }
  if (in.size() != 1) { fprintf(stderr, "usage: symx [opts] file.bc\n"); return 2; }
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512u << 20) && !getenv("SYMX_REEXEC")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (rlim_t)(1u << 30) : rl.rlim_max; if (setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("SYMX_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
  { std::string c = optOut; if (access(c.c_str(), 0)) { std::string cmd = "mkdir -p '" + c + "'"; if (system(cmd.c_str())) return 2; } }
  rootPid = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1);
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)SH, 0, sizeof *SH); sem_init(&SH->tok, 1, optJobs - 1);
  auto mm = [&](u64 a, u64 n) { void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void*)a) { perror("mmap"); exit(2); } };
  mm(ARENA, ASIZE); mm(FLAGS, ASIZE); mm(SHADOW, ASIZE * 8); RF = (Val*)mmap(0, sizeof(Val) * (65ull << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  deadline = now() + optTime;
  SMDiagnostic err; auto mod = parseIRFile(in[0], err, LC); if (!mod) { err.print("symx", errs()); return 2; } M = mod.get(); DL = &M->getDataLayout();
  for (Function& F : *M) if (!F.isDeclaration() && !lowerWide(F)) F.deleteBody();
  for (const char** p = NATIVE_OK; *p; p++) allowSet.insert(*p);
  u32 id = 0;
  for (Function& F : *M) { Func* f = new Func; f->F = &F; f->name = F.getName().str(); f->id = id++; funcs.push_back(f); fmap[&F] = f; fbyname[f->name] = f; f->addr = codeTop; codeTop += 16; faddr[f->addr] = f; if (codeTop > HEAP0 - 64) return 2; }
  for (auto& st : stubs) { auto a = fbyname.find(st.first), b = fbyname.find(st.second); if (a != fbyname.end() && b != fbyname.end()) { a->second->F = b->second->F; a->second->name = st.first + "=" + st.second; } }
  for (Func* f : funcs) { ModelFn m = findModel(f->name); if (f->F->isDeclaration() || (m && f->name.compare(0, 5, "llvm."))) {
      if (!m) { auto it = fbyname.find("__sxc_" + f->name); if (it != fbyname.end() && !it->second->F->isDeclaration()) { // alias to the interpreted model
          f->F = it->second->F; f->name = it->second->name; continue; } }
      f->ext = new Ext{f->name, m, nullptr, false}; if (!m) { f->ext->nat = dlsym(RTLD_DEFAULT, f->name.c_str()); f->ext->allowed = f->ext->nat && allowSet.count(f->name); } } }
  for (GlobalVariable& g : M->globals()) { if (g.isDeclaration()) { void* p = dlsym(RTLD_DEFAULT, g.getName().str().c_str()); u64 a = (u64)p; if (!p) { a = arenaAlloc(64, 64); memset((void*)a, 0, 64); } gaddr[&g] = a; continue; }
    u64 sz = DL->getTypeAllocSize(g.getValueType()); u64 al = g.getAlign().valueOrOne().value(); u64 a = arenaAlloc(sz, al, false); if (!a) { fprintf(stderr, "globals too large\n"); return 2; } gaddr[&g] = a; objs[a] = Obj{sz, true, false}; }
  for (GlobalVariable& g : M->globals()) if (!g.isDeclaration() && g.hasInitializer()) { if (g.getName().starts_with("llvm.")) continue; initMem(g.getInitializer(), gaddr[&g]); }
  for (GlobalVariable& g : M->globals()) if (!g.isDeclaration() && g.isConstant()) memset(FL(gaddr[&g]), FG_OK | FG_RO, objs[gaddr[&g]].size);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0); sa.sa_flags |= SA_ONSTACK; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
  solverInit(); cacheInit(); frames.reserve(100000);
  nextCheck = 2000000;
  if (GlobalVariable* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) { enter(fmap.at(fn), nullptr, nullptr, 0); run(0); } }
  auto it = fbyname.find(optEntry); if (it == fbyname.end() || it->second->F->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", optEntry.c_str()); return 2; }
  Val margs[3] = {{1, 0}, {0, 0}, {0, 0}}; // argc=1, argv=heap array
  { u64 av = arenaAlloc(16, 16), s = arenaAlloc(8, 16); strcpy((char*)s, "prog"); ((u64*)av)[0] = s; ((u64*)av)[1] = 0; margs[1].c = av; u64 en = arenaAlloc(8, 16); *(u64*)en = 0; margs[2].c = en; }
  heapLive = 0;
  enter(it->second, nullptr, margs, 3); run(0);
  endPath("done");
}
