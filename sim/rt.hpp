// Deterministic simulator: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <pthread.h>

namespace qs {
typedef uint64_t u64;
typedef uint32_t u32;

inline u64 mix(u64 z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline u64 mix(u64 a, u64 b) { return mix(a ^ mix(b)); }
inline u64 mix(u64 a, u64 b, u64 c) { return mix(mix(a, b), c); }
inline u64 mix(u64 a, u64 b, u64 c, u64 d) { return mix(mix(a, b, c), d); }
struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix(seed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    double logu(double a, double b);
    bool chance(double p) { return uni() < p; }
};
u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ull);

enum { MAXT = 64, MAXR = 12 };
enum Cls { C_NONE, C_OUT, C_INI, C_TAB, C_CHK, NCLS };
enum Op { OP_OPEN, OP_READ, OP_WRITE, OP_TRUNC, OP_CLOSE, OP_SYNC, NOP };
enum What { W_EIO, W_ENOSPC, W_EINTR, W_SHORT, W_CRASH, W_TORN, W_EACCES, W_EOF, W_CAP, W_ALLOC,
            W_CLOCK, W_TEAM, W_STALL, W_RARE, W_CAPLIST, W_EMFILE, W_ENOENT, NWHAT };
extern const char* whatName[NWHAT];
extern const char* clsName[NCLS];
extern const char* opName[NOP];

// One injected fault. Operations are counted per rank, class and operation from 1.
struct Fault
{
    int what = 0, cls = 0, op = 0, rank = -1; // rank -1: any (counted over all)
    u64 n = 0;      // which operation / allocation / clock reading
    int sticky = 0; // also fails all later ones
    double arg = 0; // short fraction, capacity, clock jump, cut offset, ...
    std::string name; // table file
};

struct Forced { u32 tid, to; u64 lstep; };

enum Pol { P_NONE, P_RAND, P_LOCK, P_PCT, P_HOT, P_STALL, P_RR };
struct Sched
{
    int pol = P_NONE;
    double mean = 100;      // mean accesses between switches
    double hotp = 0.2;      // switch probability at a conflicting access
    int depth = 3;          // PCT change points
    u64 len = 100000;       // PCT length estimate
    u64 seed = 1;
    bool profile = false;   // collect conflicting accesses
    bool forced = false;    // replay: follow the list
    std::vector<Forced> list;
    std::vector<u64> hot;   // conflicting accesses (module offsets)
};

struct MpiNet
{
    u64 seed = 1;
    double rendezvous = 0.3; // probability that a send waits for its receive
    int alleager = 0, allsync = 0;
    double delay = 1e-4;     // mean delivery delay, simulated seconds
    double slowlink = 0;     // probability of a very slow message
};

struct RunSpec
{
    std::string variant = "omp"; // omp, ser, mpi, py
    int threads = 1, ranks = 1, rankbase = 0;
    int grant = 0;               // >0: at most this many threads in a team
    u64 seed = 1;
    int cap = 0;                 // particle list capacity, 0: as shipped
    u64 evdraw = 0;              // >0: seed of the random numbers of each event
    double rare = 0;             // probability of an extreme draw
    int poison = 1;
    double bgshort = 0, bgeintr = 0; // background short / interrupted transfers
    double clock0 = 1.7e9;
    Sched sched;
    MpiNet net;
    std::vector<Fault> faults;
    std::string ini;             // input file, or script of the Python session
    u64 steplimit = 400000000ull;
    std::map<std::string, double> cfg; // case parameters (kept for the oracle and replays)
    std::string cfgs;            // case parameters, text form
};

struct SwitchRec { u32 tid, to; u64 lstep; };
enum { MAXREC = 1 << 16, MAXHOT = 4096, MAXFIRED = 4096 };
struct Shared
{
    int started, deadlock, steplimit, job_abort, abort_rank, abort_code, crash_fired, finished, mpierr;
    int ranks_done, finalized_mask, exit_called, exit_code, overflow, stopped_yield;
    u64 steps, switches, preempts, decisions, parallel_steps;
    u32 nrec;
    double simtime;
    u64 ilhash, msgs, eager, rdv, reordered, draws, dupdraws, clockreads, extreme, evdraws, unkeyed;
    u64 allocs, liveblocks, livebytes, peakbytes, doublefree, teams, ev0new, ev0malloc;
    u64 ops[MAXR][NCLS][NOP];
    u64 bgfired[NWHAT];
    u32 nfired;
    struct { u32 idx; u64 step; } fired[MAXFIRED];
    u32 nhot;
    u64 hot[MAXHOT];
    u64 conflicts;
    u64 drawhash[MAXR], draw1[MAXR];
    u64 mark[16];  // live bytes at script marks
    u32 nmark;
    char msg[512];
    SwitchRec rec[MAXREC];
};
extern Shared* sh;

// ---- runtime internals
struct Team;
enum St { S_UNUSED, S_RUN, S_WAIT, S_PARK, S_DONE };
struct SimThread
{
    int id, rank, omptid, lidx;
    St st;
    volatile int go;
    pthread_t th;
    char *stk, *stke;
    u64 lstep, drawn, rdcalls, prio, evkey, evdrawn;
    bool yielded;
    Team* team;
    u32 wscount;
    void (*fn)(void*);
    void* arg;
    bool (*pred)(SimThread*);
    void* parg;
    void* (*pstart)(void*);
    void* pret;
    bool detached, isPool;
    double wake;        // not scheduled before this simulated time
    int depth;          // inside the runtime
};
struct Runtime
{
    volatile bool active;
    bool noswitch;
    const RunSpec* spec;
    SimThread* cur;
    int nthreads, nrun;
    long budget;
    u64 pctleft;
    std::vector<u64>* pctpoints;
    double now;
    Rng rng;
    int loading_rank;
    int icv[MAXR];
    u32 hotmask[4096 * 2];
    bool hotp;
    u64 hotthr;
    bool multi;         // more than one thread may run
    bool profile;
    double nextEvent;
    const std::vector<Forced>* forced;
    double clockoff;
};
extern Runtime rt;
extern __thread SimThread* self;
extern SimThread thr[MAXT];

void rtInit(const RunSpec& s);
int rtSpawnRank(int rank, void (*fn)(void*), void* arg);
void rtGo();                     // hands the baton to the first thread
void point(u64 pc);              // scheduling point
void blockUntil(bool (*pred)(SimThread*), void* arg); // deschedule until pred holds
void yieldNow();                 // let others run first
void reeval();                   // some predicate may have become true
[[noreturn]] void endRun(int code);
void note(const char* fmt, ...);
void fired(int idx);
bool inApp();
struct Guard { SimThread* t; Guard() : t(self) { if (t) t->depth++; } ~Guard() { if (t) t->depth--; } };
inline int myRank() { return self ? self->rank : rt.loading_rank; }

void memInit();
void memRun();
void ioInit();
void ioRun(const RunSpec& s);
void ioCrashState(u64 seed, double lose);
void mpiRun(const RunSpec& s);
double clockNow();
void setMpiNext(double (*f)());
void memCounts(u64& news, u64& mallocs);
bool mpiOnExit(int code);
void shadowReset();
void shadowFree(void* p, size_t n);
void modRange(int rank, void* handle);
extern char *arenaB, *arenaE;
extern void* appHandle[MAXR];
}
