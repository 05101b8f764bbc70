// The compiler's hash containers behave as a finite map for every history of operations and every hash function.
#include "sx.h"
#include <string.h>
#include <stdlib.h>
#include "core/htable.h"
#include "core/hmap.h"
typedef struct { uint32_t key, val; } El;
static bool eqEl(const void *a, const void *b) { return ((const El *)a)->key == ((const El *)b)->key; }
#ifndef NK
#define NK 5
#endif
static uint32_t H[256]; static int in_[256]; static uint32_t val[256]; static unsigned nin;
static HashCode hEl(const void *d) { return H[((const El *)d)->key]; }
#if defined(HTABLE)
static HashTable T;
static void mInit(void) { T = newHashTable(sizeof(El)); }
static bool mPut(El e) { return insertInHashTable(&T, &e, H[e.key], sizeof(El), eqEl); }
static El *mGet(uint32_t k) { El e = {k, 0}; return findInHashTable(&T, &e, H[k], sizeof(El), eqEl); }
static void mDel(uint32_t k) { El *p = mGet(k); if (p) removeFromHashTable(&T, p, sizeof(El)); }
static size_t mSize(void) { return T.size; }
static void mClear(void) { clearHashTable(&T); }
static unsigned seen[256]; static unsigned nseen;
static bool visit(void *c, const void *e) { const El *p = e; sx_assert(p->key < 256 && in_[p->key], "iteration yields an element that is not in the table"); sx_assert(p->val == val[p->key], "iteration yields a wrong value"); seen[p->key]++; nseen++; return true; }
static void mIter(void) {
    memset(seen, 0, sizeof seen); nseen = 0; enumerateHashTable(&T, 0, visit, sizeof(El)); sx_assert(nseen == nin, "enumeration visits every element once"); for (unsigned i = 0; i < 256; i++) sx_assert(seen[i] == (unsigned)in_[i], "enumeration visits every element exactly once");
    memset(seen, 0, sizeof seen); nseen = 0; HashtableIt it = newHashTableIt(&T, sizeof(El)); while (hashTableItHasNext(&it)) { El *e = hashTableItNext(&it); sx_assert(e != 0, "an iterator that has a next element yields it"); visit(0, e); } sx_assert(!hashTableItNext(&it), "a finished iterator yields nothing"); sx_assert(nseen == nin, "an iterator visits every element once"); for (unsigned i = 0; i < 256; i++) sx_assert(seen[i] == (unsigned)in_[i], "an iterator visits every element exactly once"); }
static void mFree(void) { freeHashTable(&T); }
#define REPLACES 0
#else
static Hmap M;
static void mInit(void) { hmapInitWithCapacity(&M, sizeof(El), hEl, eqEl, sx_choice(2, "cap") * 3); }
static bool mPut(El e) { HmapStatus s = hmapPut(&M, &e); El *p = hmapGet(&M, s.f); sx_assert(p && p->key == e.key && p->val == e.val, "the position a put returns holds the element"); return s.s; }
static El *mGet(uint32_t k) { El e = {k, 0}; El *p = hmapGet(&M, &e); if (p) sx_assert(hmapGet(&M, p) == p, "a found element is found by its own address"); return p; }
static void mDel(uint32_t k) { El e = {k, 0}; hmapRemove(&M, &e); }
static size_t mSize(void) { return M.nitems; }
static void mClear(void) { hmapClear(&M); }
static void mIter(void) { HmapIterator it = hmapIterator(&M); unsigned n = 0; static unsigned seen[256]; memset(seen, 0, sizeof seen); El *e; while ((e = hmapNext(&it))) { sx_assert(e->key < 256 && in_[e->key] && val[e->key] == e->val, "iteration yields an element that is not in the map"); seen[e->key]++; n++; } sx_assert(n == nin, "iteration visits every element once"); for (unsigned i = 0; i < 256; i++) sx_assert(seen[i] == (unsigned)in_[i], "iteration visits every element exactly once"); }
static void mFree(void) { hmapDestroy(&M); }
#define REPLACES 1
#endif
static void put(uint32_t k) { uint32_t v = sx_u32("val"); bool fresh = mPut((El){k, v}); sx_assert(fresh == !in_[k], "put reports whether the key was new"); if (fresh || REPLACES) val[k] = v; if (!in_[k]) { in_[k] = 1; nin++; } }
static void del(uint32_t k) { if (in_[k]) { in_[k] = 0; nin--; } mDel(k); }
static void check(unsigned nk) {
    for (unsigned k = 0; k < nk; k++) { El *p = mGet(k); sx_assert((p != 0) == in_[k], in_[k] ? "an element that was put and not removed is found" : "an absent element is not found"); if (p) { sx_assert(p->key == k, "find yields the element asked for"); sx_assert(p->val == val[k], "find yields the value last stored"); } }
    sx_assert(mSize() == nin, "size counts the elements"); }
void sx_harness(void) {
#if defined(GROW)
    unsigned form = sx_choice(4, "hashes");
    unsigned n = GROW; for (unsigned i = 0; i < n; i++) H[i] = form == 0 ? i * 2654435761u : form == 1 ? 7 : form == 2 ? i * 7 : i;
    mInit(); for (unsigned i = 0; i < n; i++) put(i);
    check(n); mIter(); sx_reach("grown");
    unsigned step = 2 + sx_choice(3, "step"), off = sx_choice(2, "off"); for (unsigned i = off; i < n; i += step) del(i);
    check(n); mIter(); for (unsigned i = off; i < n; i += step) put(i); check(n); mClear(); memset(in_, 0, sizeof in_); nin = 0; check(n); mIter(); put(1); put(2); check(n); mFree(); sx_reach("end");
#else
    for (unsigned i = 0; i < NK; i++) 
#ifdef FREE
        { H[i] = FREE == 32 ? sx_u32("hash") : FREE == 16 ? sx_u16("hash") : sx_u8("hash"); }
#else
        H[i] = sx_choice(NH, "hash") * HM + HB;
#endif
       
    mInit(); for (unsigned i = 0; i < NP; i++) put(i);
    check(NK);
    for (unsigned i = 0; i < NO; i++) { unsigned o = sx_choice(NK, "key"); if (in_[o]) { del(o); sx_reach("removed"); } else put(o); check(NK); }
    mIter(); mFree(); sx_reach("end");
#endif
}
