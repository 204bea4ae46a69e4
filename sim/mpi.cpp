// Simulated MPI transport: every process is a rank thread with its own copy of the code;
// message timing, buffering and progress are decided by the run's network seed.
#include "rt.hpp"
#include "mpi/mpi.h"
#include <cmath>
#include <deque>
#include <cstdarg>
#include <algorithm>

namespace qs {
struct Req;
struct Msg
{
    int src, dst, tag, comm; u64 bytes, seq; double arr; bool sync, arrived, matched, late;
    std::string data; const void* buf; Req* sreq;
};
struct Req
{
    bool done, isRecv, cancelled; int owner;
    void* buf; u64 cap; int src, tag, comm;
    MPI_Status st;
};
struct Coll { int kind, root; u64 bytes; int arrived, left; bool in[MAXR]; std::string data[MAXR]; void* rbuf[MAXR]; };
static std::vector<Req*>* reqs;
static std::deque<Msg*>* flight;          // not yet arrived
static std::deque<Msg*> *unexp;           // per destination
static std::deque<Req*> *posted;
static std::map<std::pair<int, u64>, Coll>* colls;
static u64 seqNo, pairSeq[MAXR][MAXR], collNo[MAXR][64];
static double lastArr[MAXR][MAXR];
static int nR, initd[MAXR], finald[MAXR], rdone[MAXR], tlevel[MAXR], nextComm;
static int dupNo[MAXR];

static double netNext();
static double uhash(u64 a, u64 b, u64 c) { return (mix(rt.spec->net.seed, a, b, c) >> 11) * 0x1p-53; }

void mpiRun(const RunSpec& s)
{
    reqs = new std::vector<Req*>(1, (Req*)NULL);
    flight = new std::deque<Msg*>;
    unexp = new std::deque<Msg*>[MAXR];
    posted = new std::deque<Req*>[MAXR];
    colls = new std::map<std::pair<int, u64>, Coll>;
    nR = s.ranks; nextComm = 3;
    setMpiNext(netNext);
}
static double netNext()
{
    double e = 1e300;
    for (Msg* m : *flight) if (m->arr > rt.now && m->arr < e) e = m->arr;
    return e;
}
static void fail(int code, const char* fmt, ...)
{
    va_list a; va_start(a, fmt);
    char b[256]; vsnprintf(b, sizeof b, fmt, a); va_end(a);
    note("MPI: %s", b);
    sh->mpierr++; sh->job_abort = 1; sh->abort_rank = myRank(); sh->abort_code = code;
    endRun(code);
}
static bool fits(Req* r, Msg* m)
{ return r->comm == m->comm && (r->src == MPI_ANY_SOURCE || r->src == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
static void deliver(Req* r, Msg* m)
{
    if (m->bytes > r->cap) fail(15, "message of %llu bytes truncated to %llu (process %d from %d, tag %d)",
        (unsigned long long)m->bytes, (unsigned long long)r->cap, m->dst, m->src, m->tag);
    const void* s = m->buf ? m->buf : (const void*)m->data.data();
    if (m->bytes) memcpy(r->buf, s, m->bytes);
    r->st.MPI_SOURCE = m->src; r->st.MPI_TAG = m->tag; r->st.MPI_ERROR = 0; r->st.bytes = m->bytes;
    r->done = true;
    if (m->sreq) m->sreq->done = true;
    sh->ilhash = mix(sh->ilhash, 40, (u64)m->src * 64 + m->dst);
    delete m;
}
// Lets everything that is due arrive.
static void progress()
{
    for (;;)
    {
        Msg* best = NULL; size_t bi = 0;
        for (size_t i = 0; i < flight->size(); i++)
        {
            Msg* m = (*flight)[i];
            if (m->arr <= rt.now && (!best || m->arr < best->arr || (m->arr == best->arr && m->seq < best->seq))) { best = m; bi = i; }
        }
        if (!best) return;
        for (Msg* m : *flight) if (m->seq < best->seq) { sh->reordered++; break; }
        flight->erase(flight->begin() + bi);
        std::deque<Req*>& p = posted[best->dst];
        bool hit = false;
        for (size_t i = 0; i < p.size(); i++)
            if (fits(p[i], best)) { Req* r = p[i]; p.erase(p.begin() + i); deliver(r, best); hit = true; break; }
        if (!hit) unexp[best->dst].push_back(best);
    }
}
static Req* newReq(bool recv, int& h)
{
    Req* r = new Req(); r->isRecv = recv; r->owner = myRank();
    reqs->push_back(r); h = (int)reqs->size() - 1;
    return r;
}
static bool reqDone(SimThread* t) { progress(); return ((Req*)t->parg)->done; }
static bool initDone(int r) { return initd[r] && !finald[r]; }
static void enter(const char* fn)
{
    point(50);
    if (!self) return;
    if (!initDone(self->rank)) { Guard g; fail(16, "%s called %s", fn, finald[self->rank] ? "after MPI_Finalize" : "before MPI_Init"); }
    if (self->team && self->omptid != 0 && tlevel[self->rank] < 2) { Guard g; fail(16, "%s called from a worker thread", fn); }
}
static int commOf(int c) { return c; }
static u64 tsize(int t) { return t & 63; }
static Req* startSend(const void* b, u64 bytes, int dst, int tag, int comm, int mode, int& h)
{   // mode 0 standard, 1 synchronous, 2 buffered, 4 non-blocking
    Guard g;
    int me = self->rank;
    Req* r = newReq(false, h);
    if (dst == MPI_PROC_NULL) { r->done = true; return r; }
    if (dst < 0 || dst >= nR) fail(6, "send to process %d of %d", dst, nR);
    const MpiNet& n = rt.spec->net;
    u64 k = ++pairSeq[me][dst];
    bool sync = (mode & 1) || (!(mode & 2) && !n.alleager && (n.allsync || uhash(1, me * 64 + dst, k) < n.rendezvous));
    Msg* m = new Msg();
    m->src = me; m->dst = dst; m->tag = tag; m->comm = commOf(comm); m->bytes = bytes; m->seq = ++seqNo; m->sync = sync;
    double d = -std::log(1 - uhash(2, me * 64 + dst, k)) * n.delay;
    if (uhash(3, me * 64 + dst, k) < n.slowlink) d *= 1000;
    m->arr = std::max(rt.now + d, lastArr[me][dst]);
    lastArr[me][dst] = m->arr;
    sh->msgs++;
    if (sync) { sh->rdv++; m->buf = b; m->sreq = r; }
    else
    {
        sh->eager++;
        if ((mode & 4) && uhash(4, me * 64 + dst, k) < 0.5) { m->buf = b; m->sreq = r; } // buffer read late
        else { m->data.assign((const char*)b, bytes); r->done = true; }
    }
    flight->push_back(m);
    progress();
    return r;
}
static Req* startRecv(void* b, u64 cap, int src, int tag, int comm, int& h)
{
    Guard g;
    int me = self->rank;
    Req* r = newReq(true, h);
    r->buf = b; r->cap = cap; r->src = src; r->tag = tag; r->comm = commOf(comm);
    if (src == MPI_PROC_NULL) { r->done = true; r->st.MPI_SOURCE = MPI_PROC_NULL; r->st.MPI_TAG = MPI_ANY_TAG; return r; }
    if (src >= nR || src < -1) fail(6, "receive from process %d of %d", src, nR);
    progress();
    std::deque<Msg*>& u = unexp[me];
    for (size_t i = 0; i < u.size(); i++)
        if (fits(r, u[i])) { Msg* m = u[i]; u.erase(u.begin() + i); deliver(r, m); return r; }
    posted[me].push_back(r);
    return r;
}
static void wait(Req* r)
{
    blockUntil(reqDone, r);
    point(51);
}
static void setSt(MPI_Status* s, Req* r) { if (s && r->isRecv) *s = r->st; }

struct ProbeArg { int me, src, tag, comm; };
static Msg* findUnexp(ProbeArg* p)
{
    progress();
    for (Msg* m : unexp[p->me])
        if (m->comm == p->comm && (p->src == MPI_ANY_SOURCE || p->src == m->src) && (p->tag == MPI_ANY_TAG || p->tag == m->tag)) return m;
    return NULL;
}
static bool probed(SimThread* t) { return findUnexp((ProbeArg*)t->parg) != NULL; }

// ---- collectives
enum { K_BARRIER, K_BCAST, K_REDUCE, K_ALLREDUCE, K_GATHER, K_ALLGATHER, K_SCATTER, K_ALLTOALL, K_FINALIZE };
static const char* kname[] = {"MPI_Barrier", "MPI_Bcast", "MPI_Reduce", "MPI_Allreduce", "MPI_Gather", "MPI_Allgather", "MPI_Scatter", "MPI_Alltoall", "MPI_Finalize"};
struct CollArg { Coll* c; int want; }; // want -1: all, else that rank
static bool collReady(SimThread* t)
{
    progress();
    CollArg* a = (CollArg*)t->parg;
    return a->want < 0 ? a->c->arrived == nR : a->c->in[a->want];
}
static Coll* collEnter(int kind, int root, int comm, const void* data, u64 bytes, std::pair<int, u64>& key)
{
    Guard g;
    int me = self->rank;
    key = std::make_pair(comm, ++collNo[me][comm & 63]);
    Coll& c = (*colls)[key];
    if (!c.arrived) { c.kind = kind; c.root = root; }
    else if (c.kind != kind || c.root != root)
        fail(17, "processes disagree on a collective call: %s and %s", kname[c.kind], kname[kind]);
    c.in[me] = true; c.arrived++;
    if (data && bytes) c.data[me].assign((const char*)data, bytes);
    return &c;
}
static void collWait(Coll* c, int want) { CollArg a = {c, want}; blockUntil(collReady, &a); }
static void collLeave(std::pair<int, u64> key)
{
    { Guard g; Coll& c = (*colls)[key]; if (++c.left == nR) colls->erase(key); }
    point(52);
}
static bool syncColl(u64 n) { const MpiNet& k = rt.spec->net; return !k.alleager && (k.allsync || uhash(5, self->rank, n) < k.rendezvous); }

template <class T> static void red(T* d, const T* s, u64 n, int op)
{
    for (u64 i = 0; i < n; i++) switch (op)
    {
    case MPI_SUM: d[i] = d[i] + s[i]; break;
    case MPI_MAX: if (s[i] > d[i]) d[i] = s[i]; break;
    case MPI_MIN: if (s[i] < d[i]) d[i] = s[i]; break;
    case MPI_PROD: d[i] = d[i] * s[i]; break;
    case MPI_LAND: d[i] = d[i] && s[i]; break;
    case MPI_LOR: d[i] = d[i] || s[i]; break;
    case MPI_BAND: d[i] = (T)((long)d[i] & (long)s[i]); break;
    case MPI_BOR: d[i] = (T)((long)d[i] | (long)s[i]); break;
    }
}
static void reduceInto(void* d, const void* s, u64 n, int t, int op)
{
    switch (t)
    {
    case MPI_DOUBLE: red((double*)d, (const double*)s, n, op); break;
    case MPI_FLOAT: red((float*)d, (const float*)s, n, op); break;
    case MPI_INT: red((int*)d, (const int*)s, n, op); break;
    case MPI_UNSIGNED: red((unsigned*)d, (const unsigned*)s, n, op); break;
    case MPI_LONG: red((long*)d, (const long*)s, n, op); break;
    case MPI_UNSIGNED_LONG: red((unsigned long*)d, (const unsigned long*)s, n, op); break;
    case MPI_BYTE: red((unsigned char*)d, (const unsigned char*)s, n, op); break;
    default: red((char*)d, (const char*)s, n * tsize(t), op);
    }
}
static std::string reduceAll(Coll* c, u64 n, int t, int op)
{
    std::string r = c->data[0];
    for (int i = 1; i < nR; i++)
    {
        if (c->data[i].size() != r.size()) fail(17, "processes disagree on the length of a reduction");
        reduceInto(&r[0], c->data[i].data(), n, t, op);
    }
    return r;
}

// A rank's process ends. True: other processes still run, park this one.
bool mpiOnExit(int code)
{
    if (rt.spec->variant != "mpi") return false;
    int me = self->rank;
    Guard g;
    if (code != 0 || (initd[me] && !finald[me]))
    {
        sh->job_abort = 1; sh->abort_rank = me; sh->abort_code = code ? code & 255 : 1;
        if (!code) { note("process %d ended without MPI_Finalize", me); sh->mpierr++; }
        endRun(sh->abort_code ? sh->abort_code : 1);
    }
    rdone[me] = 1;
    sh->ranks_done++;
    if (sh->ranks_done < nR) return true;
    u64 left = flight->size();
    for (int r = 0; r < nR; r++) left += unexp[r].size() + posted[r].size();
    if (left) { note("%llu messages or receives left unmatched at the end", (unsigned long long)left); sh->mpierr++; }
    return false;
}
}
using namespace qs;
extern "C" {
int MPI_Init_thread(int*, char***, int req, int* prov)
{
    point(53);
    if (!self) return MPI_SUCCESS;
    if (initd[self->rank]) { Guard g; fail(16, "MPI_Init called twice"); }
    initd[self->rank] = 1; tlevel[self->rank] = req; if (prov) *prov = req;
    return MPI_SUCCESS;
}
int MPI_Init(int* a, char*** b) { return MPI_Init_thread(a, b, 0, NULL); }
int MPI_Query_thread(int* p) { *p = tlevel[self->rank]; return 0; }
int MPI_Initialized(int* f) { *f = self ? initd[self->rank] : 0; return 0; }
int MPI_Finalized(int* f) { *f = self ? finald[self->rank] : 0; return 0; }
int MPI_Finalize()
{
    enter("MPI_Finalize");
    std::pair<int, u64> key;
    Coll* c = collEnter(K_FINALIZE, 0, MPI_COMM_WORLD, NULL, 0, key);
    if (syncColl(key.second)) collWait(c, -1);
    collLeave(key);
    finald[self->rank] = 1; sh->finalized_mask |= 1 << self->rank;
    return 0;
}
int MPI_Abort(MPI_Comm, int code)
{
    point(54);
    sh->job_abort = 1; sh->abort_rank = myRank(); sh->abort_code = code & 255;
    endRun(code & 255 ? code & 255 : 1);
}
int MPI_Comm_rank(MPI_Comm c, int* r) { enter("MPI_Comm_rank"); *r = c == MPI_COMM_SELF ? 0 : self->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { enter("MPI_Comm_size"); *n = c == MPI_COMM_SELF ? 1 : nR; return 0; }
int MPI_Comm_dup(MPI_Comm, MPI_Comm* o) { enter("MPI_Comm_dup"); *o = 3 + dupNo[self->rank]++; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Error_string(int e, char* s, int* n) { *n = sprintf(s, "error %d", e); return 0; }
int MPI_Get_processor_name(char* s, int* n) { *n = sprintf(s, "node%d", myRank()); return 0; }
double MPI_Wtime() { return clockNow(); }
double MPI_Wtick() { return 1e-9; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = (int)tsize(t); return 0; }
static int sendMode(const void* b, int n, int t, int d, int tag, int c, int mode)
{
    if (n < 0) { Guard g; fail(2, "negative count in a send"); }
    int h; Req* r = startSend(b, (u64)n * tsize(t), d, tag, c, mode, h);
    wait(r);
    return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { enter("MPI_Send"); return sendMode(b, n, t, d, tag, c, 0); }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { enter("MPI_Ssend"); return sendMode(b, n, t, d, tag, c, 1); }
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { enter("MPI_Bsend"); return sendMode(b, n, t, d, tag, c, 2); }
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { enter("MPI_Rsend"); return sendMode(b, n, t, d, tag, c, 0); }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q)
{ enter("MPI_Isend"); startSend(b, (u64)n * tsize(t), d, tag, c, 4, *q); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q)
{ enter("MPI_Issend"); startSend(b, (u64)n * tsize(t), d, tag, c, 5, *q); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st)
{
    enter("MPI_Recv");
    if (n < 0) { Guard g; fail(2, "negative count in a receive"); }
    int h; Req* r = startRecv(b, (u64)n * tsize(t), s, tag, c, h);
    wait(r); setSt(st, r);
    return 0;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q)
{ enter("MPI_Irecv"); startRecv(b, (u64)n * tsize(t), s, tag, c, *q); return 0; }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stt, int d, int stag, void* rb, int rn, MPI_Datatype rt_, int s, int rtag, MPI_Comm c, MPI_Status* st)
{
    enter("MPI_Sendrecv");
    int h1, h2;
    Req* a = startRecv(rb, (u64)rn * tsize(rt_), s, rtag, c, h1);
    Req* b = startSend(sb, (u64)sn * tsize(stt), d, stag, c, 0, h2);
    wait(b); wait(a); setSt(st, a);
    return 0;
}
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
    enter("MPI_Wait");
    if (*q == MPI_REQUEST_NULL) return 0;
    Req* r = (*reqs)[*q]; wait(r); setSt(st, r); *q = MPI_REQUEST_NULL;
    return 0;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(&q[i], st ? &st[i] : NULL); return 0; }
struct AnyArg { int n; MPI_Request* q; };
static bool anyDone(SimThread* t)
{
    progress(); AnyArg* a = (AnyArg*)t->parg; bool live = false;
    for (int i = 0; i < a->n; i++) if (a->q[i]) { live = true; if ((*reqs)[a->q[i]]->done) return true; }
    return !live;
}
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st)
{
    enter("MPI_Waitany");
    AnyArg a = {n, q}; blockUntil(anyDone, &a);
    for (int i = 0; i < n; i++) if (q[i] && (*reqs)[q[i]]->done) { *idx = i; setSt(st, (*reqs)[q[i]]); q[i] = MPI_REQUEST_NULL; return 0; }
    *idx = MPI_UNDEFINED;
    return 0;
}
int MPI_Test(MPI_Request* q, int* f, MPI_Status* st)
{
    enter("MPI_Test");
    if (*q == MPI_REQUEST_NULL) { *f = 1; return 0; }
    Req* r = (*reqs)[*q]; bool d; { Guard g; progress(); d = r->done; }
    *f = d; if (d) { setSt(st, r); *q = MPI_REQUEST_NULL; } else yieldNow();
    return 0;
}
int MPI_Testall(int n, MPI_Request* q, int* f, MPI_Status* st)
{
    enter("MPI_Testall");
    bool d = true; { Guard g; progress(); for (int i = 0; i < n; i++) if (q[i] && !(*reqs)[q[i]]->done) d = false; }
    *f = d; if (d) MPI_Waitall(n, q, st); else yieldNow();
    return 0;
}
int MPI_Request_free(MPI_Request* q) { *q = MPI_REQUEST_NULL; return 0; }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st)
{
    enter("MPI_Probe");
    ProbeArg a = {self->rank, s, tag, c};
    blockUntil(probed, &a);
    Guard g;
    Msg* m = findUnexp(&a);
    if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->bytes = m->bytes; }
    return 0;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* f, MPI_Status* st)
{
    enter("MPI_Iprobe");
    ProbeArg a = {self->rank, s, tag, c};
    Msg* m; { Guard g; m = findUnexp(&a); }
    *f = m != NULL;
    if (m && st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->bytes = m->bytes; }
    if (!m) yieldNow();
    return 0;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n)
{ u64 k = tsize(t); *n = s->bytes % k ? MPI_UNDEFINED : (int)(s->bytes / k); return 0; }
int MPI_Buffer_attach(void*, int) { return 0; }
int MPI_Buffer_detach(void*, int*) { return 0; }

int MPI_Barrier(MPI_Comm cm)
{
    enter("MPI_Barrier");
    if (cm == MPI_COMM_SELF) return 0;
    std::pair<int, u64> k; Coll* c = collEnter(K_BARRIER, 0, cm, NULL, 0, k);
    collWait(c, -1); collLeave(k);
    return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm cm)
{
    enter("MPI_Bcast");
    std::pair<int, u64> k; bool me = self->rank == root;
    Coll* c = collEnter(K_BCAST, root, cm, me ? b : NULL, me ? (u64)n * tsize(t) : 0, k);
    if (me) { if (syncColl(k.second)) collWait(c, -1); }
    else
    {
        collWait(c, root);
        Guard g;
        if (c->data[root].size() > (u64)n * tsize(t)) fail(15, "broadcast truncated");
        memcpy(b, c->data[root].data(), c->data[root].size());
    }
    collLeave(k);
    return 0;
}
int MPI_Reduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm cm)
{
    enter("MPI_Reduce");
    std::pair<int, u64> k; bool me = self->rank == root;
    const void* src = s == MPI_IN_PLACE ? d : s;
    Coll* c = collEnter(K_REDUCE, root, cm, src, (u64)n * tsize(t), k);
    if (me) { collWait(c, -1); Guard g; std::string r = reduceAll(c, n, t, op); memcpy(d, r.data(), r.size()); }
    else if (syncColl(k.second)) collWait(c, root);
    collLeave(k);
    return 0;
}
int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cm)
{
    enter("MPI_Allreduce");
    std::pair<int, u64> k; const void* src = s == MPI_IN_PLACE ? d : s;
    Coll* c = collEnter(K_ALLREDUCE, 0, cm, src, (u64)n * tsize(t), k);
    collWait(c, -1);
    { Guard g; std::string r = reduceAll(c, n, t, op); memcpy(d, r.data(), r.size()); }
    collLeave(k);
    return 0;
}
static void place(Coll* c, void* rb, const int* cnt, const int* dis, int one, u64 ts, int me, bool inplace)
{
    for (int i = 0; i < nR; i++)
    {
        u64 off = cnt ? (u64)dis[i] * ts : (u64)i * one * ts, cap = cnt ? (u64)cnt[i] * ts : (u64)one * ts;
        if (inplace && i == me) continue;
        if (c->data[i].size() > cap) fail(15, "gather truncated: %zu bytes from process %d, room for %llu", c->data[i].size(), i, (unsigned long long)cap);
        memcpy((char*)rb + off, c->data[i].data(), c->data[i].size());
    }
}
static int gather(const void* s, int sn, int st, void* r, const int* cnt, const int* dis, int rn, int rt_, int root, int cm)
{
    std::pair<int, u64> k; bool me = self->rank == root, ip = s == MPI_IN_PLACE;
    Coll* c = collEnter(K_GATHER, root, cm, ip ? NULL : s, ip ? 0 : (u64)sn * tsize(st), k);
    if (me) { collWait(c, -1); Guard g; place(c, r, cnt, dis, rn, tsize(rt_), root, ip); }
    else if (syncColl(k.second)) collWait(c, root);
    collLeave(k);
    return 0;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt_, int root, MPI_Comm cm)
{ enter("MPI_Gather"); return gather(s, sn, st, r, NULL, NULL, rn, rt_, root, cm); }
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* cnt, const int* dis, MPI_Datatype rt_, int root, MPI_Comm cm)
{ enter("MPI_Gatherv"); return gather(s, sn, st, r, cnt, dis, 0, rt_, root, cm); }
static int allgather(const void* s, int sn, int st, void* r, const int* cnt, const int* dis, int rn, int rt_, int cm)
{
    int me = self->rank; u64 ts = tsize(rt_);
    std::pair<int, u64> k; bool ip = s == MPI_IN_PLACE;
    const void* src = ip ? (char*)r + (cnt ? dis[me] : me * rn) * ts : s;
    Coll* c = collEnter(K_ALLGATHER, 0, cm, src, ip ? (cnt ? cnt[me] : rn) * ts : (u64)sn * tsize(st), k);
    collWait(c, -1);
    { Guard g; place(c, r, cnt, dis, rn, ts, me, ip); }
    collLeave(k);
    return 0;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt_, MPI_Comm cm)
{ enter("MPI_Allgather"); return allgather(s, sn, st, r, NULL, NULL, rn, rt_, cm); }
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* cnt, const int* dis, MPI_Datatype rt_, MPI_Comm cm)
{ enter("MPI_Allgatherv"); return allgather(s, sn, st, r, cnt, dis, 0, rt_, cm); }
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt_, int root, MPI_Comm cm)
{
    enter("MPI_Scatter");
    int me = self->rank; std::pair<int, u64> k;
    Coll* c = collEnter(K_SCATTER, root, cm, me == root ? s : NULL, me == root ? (u64)sn * tsize(st) * nR : 0, k);
    if (me == root) { if (syncColl(k.second)) collWait(c, -1); } else collWait(c, root);
    if (r != MPI_IN_PLACE)
    {
        Guard g; u64 one = c->data[root].size() / nR;
        if (one > (u64)rn * tsize(rt_)) fail(15, "scatter truncated");
        memcpy(r, c->data[root].data() + me * one, one);
    }
    collLeave(k);
    return 0;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt_, MPI_Comm cm)
{
    enter("MPI_Alltoall");
    int me = self->rank; std::pair<int, u64> k; u64 one = (u64)sn * tsize(st);
    Coll* c = collEnter(K_ALLTOALL, 0, cm, s, one * nR, k);
    collWait(c, -1);
    { Guard g; for (int i = 0; i < nR; i++) memcpy((char*)r + (u64)i * rn * tsize(rt_), c->data[i].data() + me * one, one); }
    collLeave(k);
    return 0;
}
}
