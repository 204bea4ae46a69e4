// Scheduler, instrumentation hooks, OpenMP run time, pthread / clock / exit seams.
#include "rt.hpp"
#include <cmath>
#include <cstdarg>
#include <climits>
#include <algorithm>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>

namespace qs {
const char* whatName[NWHAT] = {"EIO", "ENOSPC", "EINTR", "short", "crash", "torn-crash", "EACCES", "cut-file",
    "disk-full-at", "alloc-fail", "clock-jump", "fewer-threads", "stalled-thread", "extreme-draw", "small-list", "EMFILE", "ENOENT"};
const char* clsName[NCLS] = {"other", "output", "input", "table", "summary"};
const char* opName[NOP] = {"open", "read", "write", "truncate", "close", "sync"};

double Rng::logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
u64 fnv(const void* p, size_t n, u64 h)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

Shared* sh;
Runtime rt;
__thread SimThread* self;
SimThread thr[MAXT];
char *arenaB, *arenaE;
void* appHandle[MAXR];

static const u64 STK0 = 0x180000000000ull, STKSZ = 16ull << 20;
static u64 nextForced[MAXT];     // next forced local step per thread
static size_t forcedPos[MAXT];
static std::vector<std::vector<Forced>>* forcedBy;
static unsigned char *shArena, *shStk;
static char *modB[MAXR], *modE[MAXR];
static unsigned char* shMod[MAXR];
static char *codeB[MAXR], *codeE[MAXR];
static u64 pctMin;

static void fwait(volatile int* p)
{
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void fwake(volatile int* p)
{
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

void note(const char* fmt, ...)
{
    if (sh->msg[0]) return;
    va_list a; va_start(a, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, a); va_end(a);
}
void fired(int idx)
{
    if (sh->nfired < MAXFIRED) { sh->fired[sh->nfired].idx = (u32)idx; sh->fired[sh->nfired].step = sh->steps; sh->nfired++; }
}
bool inApp() { return self && rt.active && self->depth == 0; }

void endRun(int code)
{
    rt.active = false;
    sh->simtime = rt.now;
    fflush(NULL);
    _exit(code);
}

// ---------------------------------------------------------------- scheduling
static void newBudget()
{
    const Sched& s = rt.spec->sched;
    switch (rt.forced ? (int)P_NONE : s.pol)
    {
    case P_RAND: case P_HOT: case P_STALL:
        { double u = rt.rng.uni(); rt.budget = 1 + (long)(-std::log(1 - u) * s.mean); break; }
    case P_LOCK: rt.budget = (long)s.mean < 1 ? 1 : (long)s.mean; break;
    case P_PCT:
        if (!rt.pctpoints->empty()) { rt.budget = (long)rt.pctpoints->back(); rt.pctpoints->pop_back(); if (rt.budget < 1) rt.budget = 1; }
        else rt.budget = 2000000;
        break;
    default: rt.budget = 2000000;
    }
}

static bool runnable(SimThread* t)
{
    if (t->st == S_WAIT && t->pred && t->pred(t)) { t->st = S_RUN; t->pred = NULL; }
    return t->st == S_RUN && t->wake <= rt.now;
}

static double nextMpiEvent();
static double (*mpiNext)() = NULL;
void setMpiNext(double (*f)()) { mpiNext = f; }
static double nextMpiEvent() { return mpiNext ? mpiNext() : 1e300; }

static SimThread* choose(SimThread* me, bool voluntary)
{
    SimThread* c[MAXT]; int n = 0;
    for (;;)
    {
        n = 0;
        for (int i = 0; i < rt.nthreads; i++)
            if (runnable(&thr[i])) c[n++] = &thr[i];
        if (n) break;
        double e = nextMpiEvent();
        for (int i = 0; i < rt.nthreads; i++)
            if (thr[i].st == S_RUN && thr[i].wake > rt.now && thr[i].wake < e) e = thr[i].wake;
        if (e > 1e299)
        {
            sh->deadlock = 1;
            for (int i = 0; i < rt.nthreads; i++)
                if (thr[i].st == S_WAIT) note("deadlock: all threads wait (thread %d of process %d among them)", thr[i].omptid, thr[i].rank);
            endRun(99);
        }
        if (e > rt.now) rt.now = e;
    }
    sh->decisions++;
    bool meOk = false;
    for (int i = 0; i < n; i++) if (c[i] == me) meOk = true;
    SimThread* def = c[0];
    if (voluntary && meOk && !me->yielded) def = me;
    else
    {
        for (int i = 0; i < n; i++) if (c[i]->id > me->id) { def = c[i]; break; }
        if (def == me && n > 1) def = c[0] == me ? c[1] : c[0];
    }
    SimThread* to = def;
    const Sched& s = rt.spec->sched;
    if (rt.forced)
    {
        std::vector<Forced>& v = (*forcedBy)[me->id];
        size_t& p = forcedPos[me->id];
        while (p < v.size() && v[p].lstep < me->lstep) p++;
        if (p < v.size() && v[p].lstep == me->lstep)
        {
            for (int i = 0; i < n; i++) if ((u32)c[i]->id == v[p].to) to = c[i];
            p++;
        }
        nextForced[me->id] = p < v.size() ? v[p].lstep : ~0ull;
    }
    else if (n > 1) switch (s.pol)
    {
    case P_RAND: case P_HOT: case P_STALL:
        {
            SimThread* d[MAXT]; int m = 0;
            for (int i = 0; i < n; i++) if (c[i] != me) d[m++] = c[i];
            to = d[rt.rng.below(m)];
            break;
        }
    case P_LOCK: case P_RR:
        if (!(voluntary && s.pol == P_RR && !me->yielded))
        {
            to = NULL;
            for (int i = 0; i < n; i++) if (c[i]->id > me->id) { to = c[i]; break; }
            if (!to) to = c[0];
        }
        break;
    case P_PCT:
        if (me->yielded) me->prio = pctMin--;
        to = c[0];
        for (int i = 1; i < n; i++) if (c[i]->prio > to->prio) to = c[i];
        break;
    default: break;
    }
    me->yielded = false;
    if (to != def)
    {
        if (sh->nrec < MAXREC)
        {
            SwitchRec& r = sh->rec[sh->nrec++];
            r.tid = me->id; r.to = to->id; r.lstep = me->lstep;
        } else { sh->overflow = 1; to = def; }
    }
    return to;
}

static void switchTo(SimThread* me, SimThread* to, u64 pc)
{
    newBudget();
    if (to == me) return;
    sh->switches++;
    sh->ilhash = mix(sh->ilhash, pc, ((u64)me->id << 32) | to->id);
    rt.cur = to;
    fwake(&to->go);
    fwait(&me->go);
}

static void slowpoint(SimThread* me, u64 pc, bool hot)
{
    me->depth++;
    const Sched& s = rt.spec->sched;
    if (rt.spec->sched.pol == P_PCT && !rt.forced) me->prio = pctMin--;
    bool maystall = s.pol == P_STALL && !rt.forced && hot;
    if (maystall && rt.rng.chance(0.02)) me->wake = rt.now + 1e-8 * rt.rng.logu(100, 2e5);
    SimThread* to = choose(me, true);
    if (to != me) sh->preempts++;
    switchTo(me, to, pc);
    me->depth--;
}

static inline u32 hotIdx(u64 pc) { return (u32)(mix(pc) & (4096 * 2 - 1)); }

void point(u64 pc)
{
    SimThread* me = self;
    if (!me || !rt.active || me->depth) return;
    me->lstep++;
    rt.now += 1e-8;
    if (++sh->steps > rt.spec->steplimit) { sh->steplimit = 1; note("no end after %llu steps", (unsigned long long)sh->steps); endRun(98); }
    if (!rt.multi || rt.noswitch) return;
    sh->parallel_steps++;
    if (rt.forced)
    {
        if (me->lstep >= nextForced[me->id] || --rt.budget <= 0)
        {
            if (rt.budget <= 0) me->yielded = true;
            slowpoint(me, pc, false);
        }
        return;
    }
    if (rt.hotp && rt.hotmask[hotIdx(pc)] && (rt.rng.next() < rt.hotthr)) { slowpoint(me, pc, true); return; }
    if (--rt.budget <= 0)
    {
        if (rt.spec->sched.pol == P_NONE || rt.spec->sched.pol == P_RR) me->yielded = true;
        slowpoint(me, pc, false);
    }
}

void blockUntil(bool (*pred)(SimThread*), void* arg)
{
    SimThread* me = self;
    me->depth++;
    me->lstep++;
    me->pred = pred; me->parg = arg;
    if (pred(me)) { me->pred = NULL; me->depth--; return; }
    me->st = S_WAIT;
    SimThread* to = choose(me, false);
    switchTo(me, to, 1);
    me->st = S_RUN; me->pred = NULL;
    me->depth--;
}

void yieldNow()
{
    SimThread* me = self;
    me->depth++;
    me->lstep++;
    rt.now += 1e-7;
    if (++sh->steps > rt.spec->steplimit) { sh->steplimit = 1; note("no end: a thread waits for something that never happens"); endRun(98); }
    me->yielded = true;
    SimThread* to = choose(me, true);
    switchTo(me, to, 2);
    me->depth--;
}
void reeval() {}

static void parkSelf(St st)
{
    SimThread* me = self;
    me->depth++;
    me->lstep++;
    me->st = st;
    SimThread* to = choose(me, false);
    newBudget();
    sh->switches++;
    sh->ilhash = mix(sh->ilhash, 3, ((u64)me->id << 32) | to->id);
    rt.cur = to;
    fwake(&to->go);
    if (st == S_DONE) { me->depth--; return; }
    fwait(&me->go);
    me->depth--;
}

static void countMulti()
{
    int n = 0;
    for (int i = 0; i < rt.nthreads; i++) if (thr[i].st == S_RUN || thr[i].st == S_WAIT) n++;
    rt.multi = n > 1;
}

static void* threadMain(void* a)
{
    SimThread* t = (SimThread*)a;
    self = t;
    fwait(&t->go);
    if (t->isPool)
    {
        for (;;)
        {
            void (*fn)(void*) = t->fn;
            fn(t->arg);
            t->team = NULL;
            t->depth++; countMulti(); t->depth--;
            parkSelf(S_PARK);
        }
    }
    if (t->pstart) t->pret = t->pstart(t->arg);
    else t->fn(t->arg);
    parkSelf(S_DONE);
    return NULL;
}

typedef int (*pcreate_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static pcreate_t realCreate() { static pcreate_t f = (pcreate_t)dlsym(RTLD_NEXT, "pthread_create"); return f; }

static SimThread* newThread(int rank)
{
    if (rt.nthreads == MAXT) { note("too many threads"); endRun(97); }
    SimThread* t = &thr[rt.nthreads];
    memset(t, 0, sizeof *t);
    t->id = rt.nthreads++;
    t->rank = rank;
    t->stk = (char*)(STK0 + (u64)t->id * STKSZ);
    t->stke = t->stk + STKSZ;
    void* p = mmap(t->stk, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (p != t->stk) { note("stack"); endRun(97); }
    t->prio = mix(rt.spec->sched.seed, 77, t->id) | (1ull << 63);
    nextForced[t->id] = ~0ull; forcedPos[t->id] = 0;
    if (forcedBy && (*forcedBy)[t->id].size()) nextForced[t->id] = (*forcedBy)[t->id][0].lstep;
    return t;
}
static void startThread(SimThread* t)
{
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, t->stk + 4096, STKSZ - 4096);
    t->st = S_RUN;
    if (realCreate()(&t->th, &a, threadMain, t)) { note("thread creation"); endRun(97); }
}

int rtSpawnRank(int rank, void (*fn)(void*), void* arg)
{
    SimThread* t = newThread(rank);
    t->fn = fn; t->arg = arg;
    startThread(t);
    return t->id;
}
void rtGo()
{
    rt.active = true;
    countMulti();
    newBudget();
    SimThread* first = &thr[0];
    if (!rt.forced && rt.nthreads > 1 && rt.spec->sched.pol != P_NONE)
    {   // recorded as a decision of thread MAXT-1 at step 0
        first = &thr[rt.rng.below(rt.nthreads)];
        if (first->id) { SwitchRec& r = sh->rec[sh->nrec++]; r.tid = MAXT - 1; r.to = first->id; r.lstep = 0; }
    }
    if (rt.forced && (*forcedBy)[MAXT - 1].size()) first = &thr[(*forcedBy)[MAXT - 1][0].to % rt.nthreads];
    rt.cur = first;
    fwake(&first->go);
    volatile int never = 0;
    for (;;) fwait(&never);
}

void rtInit(const RunSpec& s)
{
    memset((void*)&rt, 0, sizeof rt);
    rt.spec = &s;
    rt.rng = Rng(mix(s.sched.seed, 0x5eed));
    for (int r = 0; r < MAXR; r++) rt.icv[r] = s.threads;
    rt.nextEvent = 1e300;
    pctMin = 1ull << 40;
    forcedBy = new std::vector<std::vector<Forced>>(MAXT);
    rt.pctpoints = new std::vector<u64>;
    if (s.sched.forced)
    {
        rt.forced = &s.sched.list;
        for (const Forced& f : s.sched.list) if (f.tid < MAXT) (*forcedBy)[f.tid].push_back(f);
    }
    if (s.sched.pol == P_PCT)
    {
        std::vector<u64> p;
        for (int i = 0; i < s.sched.depth; i++) p.push_back(rt.rng.below(s.sched.len));
        std::sort(p.begin(), p.end());
        u64 last = 0; std::vector<u64> d;
        for (u64 x : p) { d.push_back(x - last); last = x; }
        std::reverse(d.begin(), d.end());
        *rt.pctpoints = d;
    }
    if (!s.sched.forced && (s.sched.pol == P_HOT || s.sched.pol == P_STALL))
    {
        for (u64 pc : s.sched.hot) { rt.hotmask[hotIdx(pc)] = 1; rt.hotp = true; }
        rt.hotthr = (u64)(s.sched.hotp * 18446744073709551615.0);
    }
    rt.profile = s.sched.profile && !s.sched.forced;
    if (rt.profile)
    {
        int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
        shArena = (unsigned char*)mmap(NULL, (arenaE - arenaB) / 8, PROT_READ | PROT_WRITE, fl, -1, 0);
        shStk = (unsigned char*)mmap(NULL, MAXT * STKSZ / 8, PROT_READ | PROT_WRITE, fl, -1, 0);
        if (shArena == MAP_FAILED || shStk == MAP_FAILED) { note("shadow"); endRun(97); }
    }
}

// ------------------------------------------------------- conflicts (profile)
struct ModQ { const char* base; int rank; };
static int modCb(struct dl_phdr_info* i, size_t, void* a)
{
    ModQ* q = (ModQ*)a;
    if ((const char*)i->dlpi_addr != q->base) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
    {
        const ElfW(Phdr)& p = i->dlpi_phdr[k];
        if (p.p_type != PT_LOAD) continue;
        char *b = (char*)i->dlpi_addr + p.p_vaddr, *e = b + p.p_memsz;
        if (p.p_flags & PF_W) { modB[q->rank] = b; modE[q->rank] = e; }
        if (!codeB[q->rank] || b < codeB[q->rank]) codeB[q->rank] = (char*)i->dlpi_addr;
        if (e > codeE[q->rank]) codeE[q->rank] = e;
    }
    return 1;
}
void modRange(int rank, void* handle)
{
    struct link_map* lm = NULL;
    dlinfo(handle, RTLD_DI_LINKMAP, &lm);
    ModQ q = {(const char*)lm->l_addr, rank};
    dl_iterate_phdr(modCb, &q);
    if (rt.profile && modB[rank])
        shMod[rank] = (unsigned char*)calloc((modE[rank] - modB[rank]) / 8 + 2, 1);
}
void shadowFree(void* p, size_t n)
{
    if (!rt.profile || !rt.active || !shArena) return;
    unsigned char* s = shArena + ((char*)p - arenaB) / 8;
    size_t m = (n + 7) / 8;
    if (m > 16384)
    {
        unsigned char *a = (unsigned char*)(((u64)s + 4095) & ~4095ull), *b = (unsigned char*)((u64)(s + m) & ~4095ull);
        memset(s, 0, a - s); madvise(a, b - a, MADV_DONTNEED); memset(b, 0, s + m - b);
    } else memset(s, 0, m);
}
static inline u64 relpc(void* pc)
{
    int r = self ? self->rank : 0;
    return (u64)((char*)pc - codeB[r]);
}
static inline void addHot(u64 pc)
{
    u32 i = hotIdx(pc);
    if (rt.hotmask[i]) return;
    rt.hotmask[i] = 1;
    if (sh->nhot < MAXHOT) sh->hot[sh->nhot++] = pc;
}
// shadow byte: low 6 bits first accessor + 1, bit 6 another thread came, bit 7 written
static inline void track(char* a, u64 pc, bool write)
{
    unsigned char* s = NULL;
    if (a >= arenaB && a < arenaE) s = shArena + (a - arenaB) / 8;
    else if ((u64)a >= STK0 && (u64)a < STK0 + MAXT * STKSZ) s = shStk + ((u64)a - STK0) / 8;
    else
    {
        int r = self->rank;
        if (shMod[r] && a >= modB[r] && a < modE[r]) s = shMod[r] + (a - modB[r]) / 8;
        else return;
    }
    unsigned char me = (unsigned char)(self->id + 1), v = *s;
    if (!(v & 63)) v = me;
    if ((v & 63) != me) v |= 64;
    if (write) v |= 128;
    *s = v;
    if ((v & 192) == 192) { sh->conflicts++; addHot(pc); }
}

static inline __attribute__((always_inline)) void access(void* addr, void* ra, bool write)
{
    SimThread* me = self;
    if (!me || !rt.active || me->depth) return;
    char* a = (char*)addr;
    if (a >= me->stk && a < me->stke) return;
    u64 pc = relpc(ra);
    if (rt.profile && rt.multi) track(a, pc, write);
    point(pc);
}

// Also counts accesses while one thread is alive, so that steps measure work.
}
using namespace qs;
static char critKey;
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
void __tsan_read##n(void* a) { access(a, RA, false); } \
void __tsan_write##n(void* a) { access(a, RA, true); } \
void __tsan_unaligned_read##n(void* a) { access(a, RA, false); } \
void __tsan_unaligned_write##n(void* a) { access(a, RA, true); } \
void __tsan_volatile_read##n(void* a) { access(a, RA, false); } \
void __tsan_volatile_write##n(void* a) { access(a, RA, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long) { access(a, RA, false); }
void __tsan_write_range(void* a, unsigned long) { access(a, RA, true); }
void __tsan_vptr_update(void** a, void*) { access(a, RA, true); }
void __tsan_vptr_read(void** a) { access(a, RA, false); }
void __tsan_read1_pc(void* a, void*) { access(a, RA, false); }

#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int) { access((void*)a, RA, false); return __atomic_load_n(a, 5); } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access((void*)a, RA, true); __atomic_store_n(a, v, 5); } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access((void*)a, RA, true); return __atomic_exchange_n(a, v, 5); } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access((void*)a, RA, true); return __atomic_fetch_add(a, v, 5); } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access((void*)a, RA, true); return __atomic_fetch_sub(a, v, 5); } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access((void*)a, RA, true); return __atomic_fetch_and(a, v, 5); } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access((void*)a, RA, true); return __atomic_fetch_or(a, v, 5); } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { access((void*)a, RA, true); return __atomic_fetch_xor(a, v, 5); } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { access((void*)a, RA, true); return __atomic_fetch_nand(a, v, 5); } \
bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { access((void*)a, RA, true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { access((void*)a, RA, true); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { access((void*)a, RA, true); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- OpenMP
namespace qs {
struct WS { long next, end, incr, chunk; unsigned long unext, uend, uincr, uchunk; bool up, inited, single; int sect, nsect; };
struct Team
{
    int n, rank, done;
    u64 gen; int arrived;
    std::vector<WS>* ws;
};
struct Lock { bool held; int owner, count; };
static std::map<std::pair<int, const void*>, Lock>* locks;
static Lock& lockOf(const void* p)
{
    if (!locks) locks = new std::map<std::pair<int, const void*>, Lock>;
    return (*locks)[std::make_pair(self->rank, p)];
}
static bool lockFree(SimThread* t) { return !((Lock*)t->parg)->held; }
static void lockGet(const void* p)
{
    point((u64)11);
    Lock* l;
    { Guard g; l = &lockOf(p); }
    while (l->held) blockUntil(lockFree, l);
    l->held = true; l->owner = self->id;
}
static void lockPut(const void* p)
{
    { Guard g; Lock& l = lockOf(p); l.held = false; }
    point((u64)12);
}
static bool allDone(SimThread* t) { return ((Team*)t->parg)->done == ((Team*)t->parg)->n - 1; }
struct WorkArg { void (*fn)(void*); void* data; Team* team; };
static void worker(void* a)
{
    WorkArg* w = (WorkArg*)a;
    Team* t = w->team;
    w->fn(w->data);
    t->done++;
}
static SimThread* poolThread(int rank, int k)
{
    int c = 0;
    for (int i = 0; i < rt.nthreads; i++)
        if (thr[i].isPool && thr[i].rank == rank && c++ == k) return &thr[i];
    SimThread* t = newThread(rank);
    t->isPool = true;
    t->omptid = k + 1; t->lidx = k + 1;
    t->st = S_PARK;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, t->stk + 4096, STKSZ - 4096);
    if (realCreate()(&t->th, &a, threadMain, t)) { note("thread creation"); endRun(97); }
    return t;
}
static void parallel(void (*fn)(void*), void* data, unsigned n, int wsn, WS* w0)
{
    SimThread* me = self;
    if (!me || !rt.active) { fn(data); return; }
    if (n == 0) n = rt.icv[me->rank];
    if (me->team) n = 1;
    if (rt.spec->grant > 0 && (int)n > rt.spec->grant) n = rt.spec->grant;
    if (n > 16) n = 16;
    if (n < 1) n = 1;
    Team team; WorkArg wa[16];
    Team* outer = me->team; int otid = me->omptid; u32 owc = me->wscount;
    {
        Guard g;
        team.n = n; team.rank = me->rank; team.done = 0; team.gen = 0; team.arrived = 0;
        team.ws = new std::vector<WS>;
        team.ws->reserve(4096);
        if (w0) team.ws->push_back(*w0);
        if (n > 1) sh->teams++;
        for (unsigned i = 1; i < n; i++)
        {
            SimThread* t = poolThread(me->rank, i - 1);
            wa[i].fn = fn; wa[i].data = data; wa[i].team = &team;
            t->fn = worker; t->arg = &wa[i]; t->team = &team; t->wscount = wsn; t->st = S_RUN;
        }
        me->team = &team; me->omptid = 0; me->wscount = wsn;
        countMulti();
    }
    point(13);
    fn(data);
    if (n > 1) blockUntil(allDone, &team);
    {
        Guard g;
        // the workers are about to park: let them
        delete team.ws;
        me->team = outer; me->omptid = otid; me->wscount = owc;
        countMulti();
    }
}
struct BarArg { Team* t; u64 gen; };
static bool barGone(SimThread* t) { BarArg* b = (BarArg*)t->parg; return b->t->gen != b->gen; }
static void barrier()
{
    SimThread* me = self;
    if (!me || !me->team || me->team->n == 1) return;
    point(14);
    Team* t = me->team;
    BarArg b = {t, t->gen};
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; return; }
    blockUntil(barGone, &b);
}
static WS soloWS;
static WS* wsNew(SimThread* me, bool& fresh)
{
    fresh = false;
    if (!me || !me->team) { fresh = true; soloWS = WS(); return &soloWS; }
    Guard g;
    std::vector<WS>& v = *me->team->ws;
    u32 k = me->wscount++;
    if (k >= v.size()) { v.resize(k + 1); }
    if (!v[k].inited) { v[k].inited = true; fresh = true; }
    return &v[k];
}
static WS* wsCur(SimThread* me) { if (!me || !me->team) return &soloWS; return &(*me->team->ws)[me->wscount - 1]; }
static bool wsNext(WS* w, long* s, long* e)
{
    point(15);
    bool more = w->incr > 0 ? w->next < w->end : w->next > w->end;
    if (!more) return false;
    long a = w->next, b = a + w->chunk * w->incr;
    if (w->incr > 0 ? b > w->end : b < w->end) b = w->end;
    *s = a; *e = b; w->next = b;
    return true;
}
static bool wsNextU(WS* w, unsigned long* s, unsigned long* e)
{
    point(15);
    if (w->up ? w->unext >= w->uend : w->unext <= w->uend) return false;
    unsigned long a = w->unext, step = w->uchunk * w->uincr, b = a + step;
    if (w->up ? (b > w->uend || b < a) : (b < w->uend || b > a)) b = w->uend;
    *s = a; *e = b; w->unext = b;
    return true;
}
static long chunkOr(long c) { return c > 0 ? c : 1; }
static bool loopStart(long s, long e, long i, long c, long* a, long* b)
{
    bool f; WS* w = wsNew(self, f);
    if (f) { w->next = s; w->end = e; w->incr = i; w->chunk = chunkOr(c); }
    return wsNext(w, a, b);
}
static bool loopStartU(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long* a, unsigned long* b)
{
    bool f; WS* w = wsNew(self, f);
    if (f) { w->up = up; w->unext = s; w->uend = e; w->uincr = i; w->uchunk = c ? c : 1; }
    return wsNextU(w, a, b);
}
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, 0, NULL); }
void GOMP_barrier() { if (self && rt.active) barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
#define LOOPS(kind) \
bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, a, b); } \
bool GOMP_loop_##kind##_next(long* a, long* b) { return wsNext(wsCur(self), a, b); } \
bool GOMP_loop_ull_##kind##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long* a, unsigned long* b) { return loopStartU(up, s, e, i, c, a, b); } \
bool GOMP_loop_ull_##kind##_next(unsigned long* a, unsigned long* b) { return wsNextU(wsCur(self), a, b); } \
void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) \
{ WS w = WS(); w.inited = true; w.next = s; w.end = e; w.incr = i; w.chunk = chunkOr(c); parallel(fn, d, n, 1, &w); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
#define RLOOPS(kind) \
bool GOMP_loop_##kind##_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, a, b); } \
bool GOMP_loop_##kind##_next(long* a, long* b) { return wsNext(wsCur(self), a, b); } \
void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) \
{ WS w = WS(); w.inited = true; w.next = s; w.end = e; w.incr = i; w.chunk = 1; parallel(fn, d, n, 1, &w); } \
bool GOMP_loop_ull_##kind##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long* a, unsigned long* b) { return loopStartU(up, s, e, i, 1, a, b); } \
bool GOMP_loop_ull_##kind##_next(unsigned long* a, unsigned long* b) { return wsNextU(wsCur(self), a, b); }
RLOOPS(runtime) RLOOPS(maybe_nonmonotonic_runtime) RLOOPS(nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { GOMP_barrier(); return false; }
unsigned GOMP_sections_start(unsigned n)
{
    bool f; WS* w = wsNew(self, f);
    if (f) { w->sect = 0; w->nsect = n; }
    point(16);
    return w->sect < w->nsect ? ++w->sect : 0;
}
unsigned GOMP_sections_next() { point(16); WS* w = wsCur(self); return w->sect < w->nsect ? ++w->sect : 0; }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned)
{ WS w = WS(); w.inited = true; w.nsect = cnt; parallel(fn, d, n, 1, &w); }
bool GOMP_single_start() { point(17); bool f; wsNew(self, f); return f; }
void GOMP_critical_start() { if (self && rt.active) lockGet(&critKey); }
void GOMP_critical_end() { if (self && rt.active) lockPut(&critKey); }
void GOMP_critical_name_start(void** p) { if (self && rt.active) lockGet(p); }
void GOMP_critical_name_end(void** p) { if (self && rt.active) lockPut(p); }
static char atomicKey;
void GOMP_atomic_start() { if (self && rt.active) lockGet(&atomicKey); }
void GOMP_atomic_end() { if (self && rt.active) lockPut(&atomicKey); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*)
{
    if (cpy)
    {
        std::vector<char> b(sz + al);
        char* p = (char*)(((u64)b.data() + al - 1) & ~(u64)(al - 1));
        cpy(p, data); fn(p);
    } else fn(data);
}
int omp_get_thread_num() { return self && self->team ? self->omptid : 0; }
int omp_get_num_threads() { return self && self->team ? self->team->n : 1; }
int omp_get_max_threads() { return self ? rt.icv[self->rank] : 1; }
void omp_set_num_threads(int n) { if (self && n > 0) rt.icv[self->rank] = n > 16 ? 16 : n; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return self && self->team && self->team->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { return self && self->team ? 1 : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_thread_limit() { return 16; }
void omp_set_schedule(int, int) {}
double omp_get_wtime() { return clockNow(); }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void** l) { *l = NULL; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { if (self && rt.active) lockGet(l); }
void omp_unset_lock(void** l) { if (self && rt.active) lockPut(l); }
int omp_test_lock(void** l)
{
    point(18);
    Guard g; Lock& k = lockOf(l);
    if (k.held) return 0;
    k.held = true; return 1;
}
void omp_init_nest_lock(void** l) { *l = NULL; }
void omp_destroy_nest_lock(void**) {}
void omp_set_nest_lock(void** l)
{
    point(18);
    Lock* k; { Guard g; k = &lockOf(l); }
    if (k->held && k->owner == self->id) { k->count++; return; }
    while (k->held) blockUntil(lockFree, k);
    k->held = true; k->owner = self->id; k->count = 1;
}
void omp_unset_nest_lock(void** l)
{
    { Guard g; Lock& k = lockOf(l); if (--k.count == 0) k.held = false; }
    point(18);
}
}



// ---------------------------------------------------------------- clock
namespace qs {
double clockNow()
{
    if (!rt.spec) return 0;
    sh->clockreads++;
    point(20);
    int idx = 0;
    for (const Fault& f : rt.spec->faults)
    {
        if (f.what == W_CLOCK && sh->clockreads == f.n) { rt.clockoff += f.arg; fired(idx); }
        idx++;
    }
    return rt.spec->clock0 + rt.now + rt.clockoff;
}
}
extern "C" {
time_t time(time_t* t)
{
    time_t v;
    if (self && rt.active) v = (time_t)clockNow();
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (self && rt.active)
    {
        double v = (c == CLOCK_MONOTONIC || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) ? 1000 + rt.now : clockNow();
        ts->tv_sec = (time_t)v; ts->tv_nsec = (long)((v - std::floor(v)) * 1e9);
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem)
{
    if (inApp()) { self->wake = rt.now + r->tv_sec + r->tv_nsec * 1e-9; yieldNow(); return 0; }
    return (int)syscall(SYS_nanosleep, r, rem);
}
int usleep(useconds_t u) { struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, NULL); }
unsigned sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; nanosleep(&t, NULL); return 0; }
int sched_yield() { if (inApp()) { yieldNow(); return 0; } return (int)syscall(SYS_sched_yield); }

// ---------------------------------------------------------------- pthread seam
int pthread_mutex_lock(pthread_mutex_t* m)
{
    typedef int (*F)(pthread_mutex_t*);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (!self || !rt.active) return real(m);
    if (self->depth == 0) point(21);
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) yieldNow();
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    typedef int (*F)(pthread_cond_t*, pthread_mutex_t*);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (!self || !rt.active) return real(c, m);
    pthread_mutex_unlock(m);
    yieldNow();
    return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    if (!self || !rt.active) return real(c, m, ts);
    pthread_mutex_unlock(m);
    yieldNow();
    pthread_mutex_lock(m);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    typedef int (*F)(pthread_once_t*, void (*)());
    static F real = (F)dlsym(RTLD_NEXT, "pthread_once");
    if (!self || !rt.active) return real(o, fn);
    volatile int* s = (volatile int*)o;
    for (;;)
    {
        if (*s == 2) return 0;
        if (*s == 0) break;
        yieldNow();
    }
    *s = 1;
    try { fn(); } catch (...) { *s = 0; throw; }
    *s = 2;
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (!self || !rt.active) return realCreate()(t, a, fn, arg);
    SimThread* n;
    {
        Guard g;
        n = newThread(self->rank);
        n->pstart = fn; n->arg = arg; n->lidx = 100 + n->id;
        startThread(n);
        *t = n->th;
        countMulti();
    }
    point(22);
    return 0;
}
static bool thrDone(SimThread* t) { return ((SimThread*)t->parg)->st == S_DONE; }
int pthread_join(pthread_t t, void** ret)
{
    typedef int (*F)(pthread_t, void**);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_join");
    if (!self || !rt.active) return real(t, ret);
    for (int i = 0; i < rt.nthreads; i++)
        if (thr[i].th == t && thr[i].pstart)
        {
            blockUntil(thrDone, &thr[i]);
            { Guard g; countMulti(); }
            if (ret) *ret = thr[i].pret;
            return 0;
        }
    return real(t, ret);
}

// function-local statics
int __cxa_guard_acquire(long long int* g)
{
    unsigned char* b = (unsigned char*)g;
    for (;;)
    {
        if (__atomic_load_n(&b[0], __ATOMIC_ACQUIRE)) return 0;
        if (!b[1]) { b[1] = 1; return 1; }
        if (self && rt.active) yieldNow(); else syscall(SYS_sched_yield);
    }
}
void __cxa_guard_release(long long int* g) { unsigned char* b = (unsigned char*)g; b[1] = 0; __atomic_store_n(&b[0], 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(long long int* g) { ((unsigned char*)g)[1] = 0; }

// ---------------------------------------------------------------- end of a process
void exit(int code)
{
    typedef void (*F)(int);
    static F real = (F)dlsym(RTLD_NEXT, "exit");
    if (self && rt.active)
    {
        if (!sh->exit_called) { sh->exit_called = 1; sh->exit_code = code & 255; }
        if (mpiOnExit(code)) { parkSelf(S_DONE); for (;;) pause(); }
        rt.noswitch = true;
        sh->simtime = rt.now;
    }
    real(code);
    _exit(code);
}
}

