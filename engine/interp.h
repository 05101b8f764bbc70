#pragma once
#include "expr.h"
#include <string>
#include <atomic>
#include <semaphore.h>
struct Val { u64 c; Expr* e; };
struct Func; struct CallSite;
typedef bool (*ModelFn)(CallSite& cs, Val* a, Val* r);   // return false => redirected (frame pushed)
enum { SH_MAXF = 8192, SH_MAXV = 64, SH_MAXR = 256 };
struct ShViol { std::atomic<int> used; char kind[32]; char msg[512]; char loc[1024]; char file[256]; };
struct ShReach { std::atomic<int> used; char name[120]; std::atomic<u64> n; };
struct Shared {
  sem_t tok; std::atomic<int> stop, incomplete, nviol, engineErr, samples, procs; char incompleteWhy[512]; std::atomic<int> incompleteSet;
  std::atomic<u64> paths, forks, queries, satq, unsatq, unkq, solverNs, steps, asserts, assertsSym, assumeKill, concForks, vmax, symInputs, maxPathSteps, modelHits, unsatAsserts, errPaths, faults, tableq, cacheq;
  std::atomic<u8> fcov[SH_MAXF]; ShViol viol[SH_MAXV]; ShReach reach[SH_MAXR];
};
extern Shared* SH;
