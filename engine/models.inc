// ---------------------------------------------------------------- models of externals
static std::string cstr(u64 a, const char* why, u64 max = 1 << 20) { std::string s; for (u64 i = 0; i < max; i++) { Val v = loadConcAddr(a + i, 1, 8); u8 c = (u8)(v.e ? concretize(v.e, why) : v.c); if (v.e && inArena(a + i)) memStoreByte(a + i, mkC(c, 8)); if (!c) break; s += (char)c; } return s; }
static u64 heapLive = 0;
static u64 heapAlloc(u64 n, u64 al = 16) { if (n > (1u << 30)) return 0; u64 a = arenaAlloc(n, al); if (!a) { incomplete("engine heap exhausted"); endPath("oom"); } objs[a] = Obj{n, true, true}; heapLive++; return a; }
static void heapFree(u64 p) { if (!p) return; auto it = objs.find(p); if (it == objs.end() || !it->second.heap) { std::string d; describe(p, d); fault("bad-free", "free of a pointer that is not a heap block: " + d); } if (!it->second.live) fault("double-free", "free of a freed block of size " + std::to_string(it->second.size)); it->second.live = false; heapLive--; memset(FL(p), 0, it->second.size); }
#define MODEL(n) static bool n(CallSite& cs, Val* a, Val* r)
static void pushCall(Func* f, CallSite& cs, Val* a, unsigned na);
MODEL(m_malloc) { u64 n = concV(a[0], "malloc size"); *r = Val{heapAlloc(n), 0}; if (r->c) memset((void*)r->c, 0xA5, n); return true; }
MODEL(m_calloc) { u64 n = concV(a[0], "calloc size"), k = concV(a[1], "calloc size"); u64 t; if (__builtin_mul_overflow(n, k, &t)) { *r = Val{0, 0}; return true; } *r = Val{heapAlloc(t), 0}; if (r->c) memset((void*)r->c, 0, t); return true; }
MODEL(m_aligned) { u64 al = concV(a[0], "align"), n = concV(a[1], "size"); *r = Val{heapAlloc(n, al), 0}; return true; }
MODEL(m_free) { heapFree(concV(a[0], "free pointer")); return true; }
MODEL(m_realloc) { u64 p = concV(a[0], "realloc pointer"), n = concV(a[1], "realloc size"); if (!p) { *r = Val{heapAlloc(n), 0}; if (r->c) memset((void*)r->c, 0xA5, n); return true; }
  auto it = objs.find(p); if (it == objs.end() || !it->second.heap) fault("bad-free", "realloc of a pointer that is not a heap block"); if (!it->second.live) fault("double-free", "realloc of a freed block");
  u64 q = heapAlloc(n); if (!q) { *r = Val{0, 0}; return true; } memset((void*)q, 0xA5, n); memCopy(q, p, std::min(n, objs[p].size)); heapFree(p); *r = Val{q, 0}; return true; }
MODEL(m_usable) { u64 p = concV(a[0], "pointer"); auto it = objs.find(p); *r = Val{it == objs.end() ? 0 : it->second.size, 0}; return true; }
MODEL(m_memcpy) { u64 d = concV(a[0], "memcpy dst");
  if (a[1].e && !a[2].e && a[2].c <= 8) { Val t[8]; for (u64 i = 0; i < a[2].c; i++) { Expr* e = i ? mk(E_ADD, a[1].e, mkC(i, 64)) : a[1].e; t[i] = isC(e) ? loadConcAddr(e->k, 1, 8) : loadSym(e, 1, 8); } for (u64 i = 0; i < a[2].c; i++) storeConcAddr(d + i, t[i], 1, 8); *r = Val{d, 0}; return true; }
  u64 s = concV(a[1], "memcpy src"), n = concV(a[2], "memcpy size"); memCopy(d, s, n); *r = Val{d, 0}; return true; }
MODEL(m_memset) { u64 d = concV(a[0], "memset dst"), n = concV(a[2], "memset size"); memSet(d, a[1], n); *r = Val{d, 0}; return true; }
// symbolic-length memcpy with small bounds would fork here; harnesses keep lengths small
static bool redirect(const char* n, CallSite& cs, Val* a, unsigned na) { auto it = fbyname.find(std::string("__sxc_") + n); if (it == fbyname.end()) { incomplete(std::string("no model for ") + n); endPath("unmodelled"); } pushCall(it->second, cs, a, na); return false; }
MODEL(m_strlen) { if (!a[0].e) { u64 p = a[0].c, n = 0; if (inArena(p)) { for (;; n++) { u8 f = *FL(p + n); if ((f & (FG_OK | FG_SYM)) != FG_OK) { if (f & FG_SYM) return redirect("strlen", cs, a, 1); checkAccess(p + n, 1, false); } if (!*(u8*)(p + n)) { *r = Val{n, 0}; return true; } } }
    if (p < 0x10000) checkAccess(p, 1, false); *r = Val{strlen((char*)p), 0}; return true; } return redirect("strlen", cs, a, 1); }
static bool concRegion(u64 p, u64 n, bool str) { for (u64 i = 0; i < n; i++) { if (inArena(p + i)) { u8 f = *FL(p + i); if (f & FG_SYM) return false; if (!(f & FG_OK)) checkAccess(p + i, 1, false); } else if (p + i < 0x10000) checkAccess(p + i, 1, false); if (str && !*(u8*)(p + i)) return true; } return true; }
static int cmpConc(u64 x, u64 y, u64 n, bool str, bool& sym) { sym = false; for (u64 i = 0; i < n; i++) { for (u64 p : {x + i, y + i}) if (inArena(p)) { u8 f = *FL(p); if (f & FG_SYM) { sym = true; return 0; } if (!(f & FG_OK)) checkAccess(p, 1, false); } else if (p < 0x10000) checkAccess(p, 1, false); u8 c = *(u8*)(x + i), d = *(u8*)(y + i); if (c != d) return c < d ? -1 : 1; if (str && !c) return 0; } return 0; }
MODEL(m_memcmp) { if (!a[0].e && !a[1].e && !a[2].e) { bool s; int k = cmpConc(a[0].c, a[1].c, a[2].c, false, s); if (!s) { *r = Val{(u64)k & maskw(32), 0}; return true; } } return redirect("memcmp", cs, a, 3); }
MODEL(m_strcmp) { if (!a[0].e && !a[1].e) { bool s; int k = cmpConc(a[0].c, a[1].c, ~0ull, true, s); if (!s) { *r = Val{(u64)k & maskw(32), 0}; return true; } } return redirect("strcmp", cs, a, 2); }
MODEL(m_strncmp) { if (!a[0].e && !a[1].e && !a[2].e) { bool s; int k = cmpConc(a[0].c, a[1].c, a[2].c, true, s); if (!s) { *r = Val{(u64)k & maskw(32), 0}; return true; } } return redirect("strncmp", cs, a, 3); }
MODEL(m_abort) { if (optAbortOk) endPath("exit"); fault("abort", "abort() called"); }
MODEL(m_exit) { endPath("exit"); }
MODEL(m_assertfail) { std::string s = cstr(a[0].c, "assert"); fault("assert", "C assertion failed: " + s); }
MODEL(m_trap) { fault("trap", "trap instruction / sanitizer check failed"); }
static std::vector<std::pair<u64, u64>> stdCalls;
struct JB { u32 depth, pc, base; i32 ret; Func* f; }; static std::unordered_map<u64, JB> jbs;
MODEL(m_setjmp) { u64 p = concV(a[0], "jmp_buf"); Frame& fr = frames.back(); jbs[p] = JB{(u32)frames.size(), fr.pc, fr.base, cs.ret, fr.f}; *r = Val{0, 0}; return true; }
MODEL(m_longjmp);
MODEL(m_zero) { *r = Val{0, 0}; return true; }
MODEL(m_noop) { if (cs.nret) *r = Val{0, 0}; return true; }
MODEL(m_one) { *r = Val{1, 0}; return true; }
// ---- harness API
static u32 reachIdx(const std::string& n) { for (int i = 0; i < SH_MAXR; i++) { int u = SH->reach[i].used; if (u == 2 && n == SH->reach[i].name) return i; if (u == 0) { int z = 0; if (SH->reach[i].used.compare_exchange_strong(z, 1)) { snprintf(SH->reach[i].name, sizeof SH->reach[i].name, "%s", n.c_str()); SH->reach[i].used = 2; return i; } i--; continue; } while (SH->reach[i].used == 1) usleep(1); if (n == SH->reach[i].name) return i; } return SH_MAXR - 1; }
MODEL(m_sx_make) { u64 p = concV(a[0], "p"), n = concV(a[1], "n"); std::string nm = cstr(a[2].c, "name"); checkAccess(p, n, true); if (!symRecs.size()) symStepsBase = steps; symRecs.push_back(SymRec{nm, nvars, (u32)n}); for (u64 i = 0; i < n; i++) { memStoreByte(p + i, EP.var(nvars++)); model.v.push_back(0); } evalNewGen(); u64 sb = SH->symInputs, nv = nvars; while (nv > sb && !SH->symInputs.compare_exchange_weak(sb, nv)) {} return true; }
MODEL(m_sx_assume) { Val c = a[0]; Expr* e = c.e ? mkNot(mk(E_EQ, c.e, mkC(0, c.e->w))) : mkC(c.c != 0, 1); assumeTrue(e); return true; }
MODEL(m_sx_assert) { std::string m = cstr(a[1].c, "msg"); SH->asserts++; Val c = a[0]; if (c.e) SH->assertsSym++; Expr* e = c.e ? mkNot(mk(E_EQ, c.e, mkC(0, c.e->w))) : mkC(c.c != 0, 1); require(e, "assert", m); return true; }
MODEL(m_sx_fail) { SH->asserts++; fault("assert", cstr(a[0].c, "msg")); }
MODEL(m_sx_reach) { SH->reach[reachIdx(cstr(a[0].c, "name"))].n++; return true; }
MODEL(m_sx_observe) { ObsRec o; o.name = cstr(a[0].c, "name"); o.e = a[1].e; o.c = a[1].c; o.w = 64; obs.push_back(o); return true; }
MODEL(m_sx_pick) { *r = Val{concV(a[0], "sx_pick"), 0}; return true; }
MODEL(m_sx_issym) { *r = Val{a[0].e != nullptr, 0}; return true; }
MODEL(m_sx_done) { endPath("done"); }
MODEL(m_sx_live) { *r = Val{heapLive, 0}; return true; }
MODEL(m_sx_islive) { u64 p = concV(a[0], "p"); auto it = objs.find(p); *r = Val{it != objs.end() && it->second.heap && it->second.live, 0}; return true; }
MODEL(m_sx_readable) { u64 p = concV(a[0], "p"), n = concV(a[1], "n"); *r = Val{(u64)accOk(p, n, false), 0}; return true; }
MODEL(m_sx_native) { *r = Val{0, 0}; return true; }
MODEL(m_sx_feasible) { Expr* e = asE(a[0], 32); Expr* c = mkNot(mk(E_EQ, e, mkC(0, e->w))); bool v; if (isC(c)) v = c->k; else if (ev(c)) v = true; else { Model m2; v = checkSat(c, &m2) != 0; } *r = Val{v, 0}; return true; }
MODEL(m_sx_ite) { Val c = a[0]; if (!c.e) { *r = c.c ? a[1] : a[2]; return true; } Expr* k = mkNot(mk(E_EQ, c.e, mkC(0, c.e->w))); *r = fromE(mkIte(k, asE(a[1], 64), asE(a[2], 64))); return true; }
MODEL(m_sx_log) { std::string s = cstr(a[0].c, "log"); if (optVerbose) fprintf(stderr, "[log] %s %s\n", s.c_str(), a[1].e ? "<sym>" : std::to_string((i64)a[1].c).c_str()); if (optVerbose && a[1].e) { printExpr(stderr, a[1].e, 6); fprintf(stderr, "\n"); } return true; }
MODEL(m_sx_concstr) { cstr(concV(a[0], "p"), "sx_concretize_str"); return true; }
MODEL(m_sx_fwrite) { u64 p = concV(a[1], "p"), n = concV(a[2], "n"); if (optStdout || optVerbose) { std::string s; for (u64 i = 0; i < n; i++) { Val v = loadConcAddr(p + i, 1, 8); s += v.e ? '?' : (char)v.c; } fwrite(s.data(), 1, s.size(), stderr); } return true; }
MODEL(m_sx_unmodelled) { std::string s = cstr(a[0].c, "name"); incomplete("unmodelled external " + s); endPath("unmodelled"); }
MODEL(m_sx_dtoa) { // (char* out, size, fmt, double)
  u64 o = concV(a[0], "p"), n = concV(a[1], "n"); std::string f = cstr(a[2].c, "fmt"); u64 d = concV(a[3], "floating-point value to format"); double x; memcpy(&x, &d, 8); char b[512]; int k = snprintf(b, sizeof b, f.c_str(), x); std::string s(b, std::min(k, 511)); for (u64 i = 0; i <= s.size() && i < n; i++) storeConcAddr(o + i, Val{(u8)(i < s.size() ? s[i] : 0), 0}, 1, 8); *r = Val{(u64)k & maskw(32), 0}; return true; }
MODEL(m_strtod) { u64 p = concV(a[0], "p"), e = concV(a[1], "p"); std::string s = cstr(p, "string converted to a floating-point number"); char* en; double x = strtod(s.c_str(), &en); if (e) storeConcAddr(e, Val{p + (en - s.c_str()), 0}, 8, 64); memcpy(&r->c, &x, 8); r->e = 0; return true; }
MODEL(m_bswap) { unsigned w = cs.retW; if (!a[0].e) { u64 v = a[0].c, o = 0; for (unsigned i = 0; i < w; i += 8) o |= ((v >> i) & 255) << (w - 8 - i); *r = Val{o, 0}; } else { Expr* e = mkExtract(a[0].e, 0, 8); for (unsigned i = 8; i < w; i += 8) e = mkConcat(e, mkExtract(a[0].e, i, 8)); *r = fromE(e); } return true; }
MODEL(m_ctpop) { unsigned w = cs.retW; if (!a[0].e) { *r = Val{(u64)__builtin_popcountll(a[0].c), 0}; return true; } Expr* s = mkC(0, w); for (unsigned i = 0; i < w; i++) s = mk(E_ADD, s, mkZext(mkExtract(a[0].e, i, 1), w)); *r = fromE(s); return true; }
MODEL(m_ctlz) { unsigned w = cs.retW; if (!a[0].e) { *r = Val{a[0].c ? (u64)__builtin_clzll(a[0].c) - (64 - w) : w, 0}; return true; } Expr* s = mkC(w, w); for (unsigned i = 0; i < w; i++) s = mkIte(mkExtract(a[0].e, i, 1), mkC(w - 1 - i, w), s); *r = fromE(s); return true; }
MODEL(m_cttz) { unsigned w = cs.retW; if (!a[0].e) { *r = Val{a[0].c ? (u64)__builtin_ctzll(a[0].c) : w, 0}; return true; } Expr* s = mkC(w, w); for (unsigned i = w; i-- > 0;) s = mkIte(mkExtract(a[0].e, i, 1), mkC(i, w), s); *r = fromE(s); return true; }
static bool fsh(CallSite& cs, Val* a, Val* r, bool left) { unsigned w = cs.retW; if (!a[0].e && !a[1].e && !a[2].e) { unsigned s = a[2].c % w; u64 x = a[0].c, y = a[1].c; *r = Val{(left ? (s ? (x << s) | (y >> (w - s)) : x) : (s ? (x << (w - s)) | (y >> s) : y)) & maskw(w), 0}; return true; }
  Expr *x = asE(a[0], w), *y = asE(a[1], w); u64 s = concV(a[2], "funnel shift amount") % w; if (!s) { *r = fromE(left ? x : y); return true; } unsigned sl = left ? s : w - s; *r = fromE(mkConcat(mkExtract(x, 0, w - sl), mkExtract(y, w - sl, sl))); return true; }
MODEL(m_fshl) { return fsh(cs, a, r, true); } MODEL(m_fshr) { return fsh(cs, a, r, false); }
static bool mulov(CallSite& cs, Val* a, Val* r, bool sg) { if (!a[0].e && !a[1].e) { if (sg) { i64 x; r[1] = Val{(u64)__builtin_mul_overflow((i64)a[0].c, (i64)a[1].c, &x), 0}; r[0] = Val{(u64)x, 0}; } else { u64 x; r[1] = Val{(u64)__builtin_mul_overflow(a[0].c, a[1].c, &x), 0}; r[0] = Val{x, 0}; } return true; }
  Expr *x = asE(a[0], 64), *y = asE(a[1], 64), *p = mk(E_MUL, x, y); r[0] = fromE(p);
  if (sg) { // overflow iff x!=0 && (p/x != y || (x==-1 && y==MIN))
    Expr* nz = mkNot(mk(E_EQ, x, mkC(0, 64))); Expr* sx = mkIte(nz, x, mkC(1, 64)); Expr* o = mk(E_OR, mkNot(mk(E_EQ, mk(E_SDIV, p, sx), y)), mk(E_AND, mk(E_EQ, x, mkC(~0ull, 64)), mk(E_EQ, y, mkC(1ull << 63, 64)))); r[1] = fromE(mk(E_AND, nz, o)); }
  else { Expr* nz = mkNot(mk(E_EQ, x, mkC(0, 64))); Expr* sx = mkIte(nz, x, mkC(1, 64)); r[1] = fromE(mk(E_AND, nz, mkNot(mk(E_EQ, mk(E_UDIV, p, sx), y)))); } return true; }
MODEL(m_umulo) { return mulov(cs, a, r, false); } MODEL(m_smulo) { return mulov(cs, a, r, true); }
static u64 d2u(double d) { u64 u; memcpy(&u, &d, 8); return u; } static double u2d(u64 u) { double d; memcpy(&d, &u, 8); return d; }
MODEL(m_fabs) { if (cs.retW == 32) { if (a[0].e) *r = fromE(mk(E_AND, a[0].e, mkC(0x7fffffff, 32))); else *r = Val{a[0].c & 0x7fffffff, 0}; } else { if (a[0].e) *r = fromE(mk(E_AND, a[0].e, mkC(~0ull >> 1, 64))); else *r = Val{a[0].c & (~0ull >> 1), 0}; } return true; }
MODEL(m_stacksave) { *r = Val{stackTop, 0}; return true; }
MODEL(m_stackrestore) { u64 p = a[0].c; if (p < stackTop) { memset(FL(p), 0, stackTop - p); stackTop = p; } return true; }
static void* natErrno() { return __errno_location(); }
static const std::unordered_map<std::string, ModelFn> MODELS = {
  {"malloc", m_malloc}, {"calloc", m_calloc}, {"realloc", m_realloc}, {"free", m_free}, {"cfree", m_free}, {"aligned_alloc", m_aligned}, {"memalign", m_aligned}, {"malloc_usable_size", m_usable},
  {"memcpy", m_memcpy}, {"memmove", m_memcpy}, {"memset", m_memset}, {"strlen", m_strlen}, {"memcmp", m_memcmp}, {"bcmp", m_memcmp}, {"strcmp", m_strcmp}, {"strncmp", m_strncmp},
  {"abort", m_abort}, {"exit", m_exit}, {"_exit", m_exit}, {"__assert_fail", m_assertfail}, {"_setjmp", m_setjmp}, {"setjmp", m_setjmp}, {"__sigsetjmp", m_setjmp}, {"longjmp", m_longjmp}, {"_longjmp", m_longjmp}, {"siglongjmp", m_longjmp},
  {"sx_make_symbolic", m_sx_make}, {"sx_assume", m_sx_assume}, {"sx_assert", m_sx_assert}, {"sx_fail", m_sx_fail}, {"sx_reach", m_sx_reach}, {"sx_observe", m_sx_observe}, {"sx_pick", m_sx_pick}, {"sx_is_symbolic", m_sx_issym}, {"sx_done", m_sx_done}, {"sx_live_objects", m_sx_live}, {"sx_is_live", m_sx_islive}, {"sx_readable", m_sx_readable}, {"sx_is_native", m_sx_native}, {"sx_ite", m_sx_ite}, {"sx_feasible", m_sx_feasible}, {"sx_log", m_sx_log}, {"sx_concretize_str", m_sx_concstr}, {"__sx_fwrite", m_sx_fwrite}, {"__sx_unmodelled", m_sx_unmodelled}, {"__sx_dtoa", m_sx_dtoa}, {"strtod", m_strtod},
  {"atexit", m_zero}, {"fflush", m_zero}, {"setvbuf", m_zero}, {"signal", m_zero}, {"sigaction", m_zero}, {"setlocale", m_zero}, {"isatty", m_zero},
};
static ModelFn findModel(const std::string& n) {
  auto it = MODELS.find(n); if (it != MODELS.end()) return it->second;
  auto st = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  if (st("llvm.memcpy") || st("llvm.memmove")) return m_memcpy; if (st("llvm.memset")) return m_memset;
  if (st("llvm.bswap")) return m_bswap; if (st("llvm.ctpop")) return m_ctpop; if (st("llvm.ctlz")) return m_ctlz; if (st("llvm.cttz")) return m_cttz; if (st("llvm.fshl")) return m_fshl; if (st("llvm.fshr")) return m_fshr;
  if (st("llvm.umul.with.overflow.i64")) return m_umulo; if (st("llvm.smul.with.overflow.i64")) return m_smulo; if (st("llvm.fabs")) return m_fabs;
  if (st("llvm.stacksave")) return m_stacksave; if (st("llvm.stackrestore")) return m_stackrestore; if (st("llvm.trap") || st("llvm.ubsantrap") || st("llvm.debugtrap")) return m_trap;
  if (st("llvm.va_copy")) { return [](CallSite&, Val* a, Val*) { memCopy(a[0].c, a[1].c, 24); return true; }; }
  if (st("llvm.frameaddress") || st("llvm.returnaddress")) return m_zero;
  return nullptr;
}
static const char* NATIVE_OK[] = {"getenv", "secure_getenv", "getcwd", "access", "stat", "fstat", "lstat", "fopen", "fopen64", "fclose", "fread", "fseek", "ftell", "fileno", "time", "clock", "clock_gettime", "gettimeofday", "getpid", "sysconf", "realpath", "strerror", "__errno_location", "open", "close", "read", "usleep", "sleep", "nanosleep", "gmtime", "gmtime_r", "localtime", "localtime_r", "mktime", "timegm", "strftime", "tzset", "uname", "gethostname", "getpagesize", "rewind", "fgetc", "feof", "ferror", "unlink", "remove",
  "sqrt", "pow", "floor", "ceil", "fmod", "log", "log2", "log10", "exp", "sin", "cos", "tan", "round", "trunc", "fabs", "ldexp", "frexp", "modf", "sqrtf", "powf", "floorf", "ceilf", "roundf", "rint", "nearbyint", "isnan", "isinf", "__isnan", "__isinf", "llround", "lround", "atan", "atan2", "acos", "asin", "cbrt", "hypot", nullptr};
static u64 callNative(void* fn, CallSite& cs, Val* a) {
  u64 gi[6] = {0}; double fd[8] = {0}; u64 stk[16] = {0}; int ni = 0, nf = 0, nst = 0; Val* p = a;
  for (auto& d : cs.args) { for (int k = 0; k < d.n; k++, p++) { u64 v = concV(*p, "argument of an external call"); if (d.kind == 1 || d.kind == 2) { if (nf < 8) memcpy(&fd[nf++], &v, 8); else stk[nst++] = v; } else {
      if (inArena(v) && (*FL(v) & FG_OK)) for (u64 q = v; q < v + 4096 && (*FL(q) & FG_OK); q++) { if (*FL(q) & FG_SYM) memStoreByte(q, mkC(concretize(SX(q), "memory passed to an external call"), 8)); else if (!*(u8*)q) break; }
      if (ni < 6) gi[ni++] = v; else if (nst < 16) stk[nst++] = v; } } }
  #define NA gi[0], gi[1], gi[2], gi[3], gi[4], gi[5], fd[0], fd[1], fd[2], fd[3], fd[4], fd[5], fd[6], fd[7], stk[0], stk[1], stk[2], stk[3], stk[4], stk[5], stk[6], stk[7]
  if (cs.retKind == 1) { double d = ((double (*)(u64, ...))fn)(NA); return d2u(d); }
  if (cs.retKind == 2) { double d = ((double (*)(u64, ...))fn)(NA); return d2u(d) & maskw(32); }
  return ((u64(*)(u64, ...))fn)(NA);
}
