// Simulation server: reads run descriptions on stdin, executes each in a forked child
// under the simulator, and answers with one JSON line per run.
#include "rt.hpp"
#include <cmath>
#include <set>
#include <unordered_set>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <hdf5.h>
#ifdef QS_PY
#include <Python.h>
#endif

using namespace qs;

// ---------------------------------------------------------------- randomness
static std::unordered_set<u64>* drawSet;
extern "C" {
// std::random_device: machine entropy of the simulated process
unsigned qs_entropy()
{
    if (!rt.spec) return 4;
    Guard g;
    int r = myRank(); u64 t = self ? self->lidx : 999, k = self ? self->rdcalls++ : (u64)rt.loading_rank;
    return (unsigned)mix(mix(rt.spec->seed, 0x7a11), r + rt.spec->rankbase, t, k);
}
unsigned _ZNSt13random_device9_M_getvalEv(void*) { return qs_entropy(); }
unsigned _ZNSt13random_device16_M_getval_pretr1Ev(void*) { return qs_entropy(); }
double qs_draw(double lo, double hi, double v)
{
    SimThread* me = self;
    if (!me || !rt.active) return v;
    Guard g;
    me->drawn++;
    sh->draws++;
    int r = me->rank + rt.spec->rankbase;
    if (r >= 0 && r < MAXR)
    {
        u64 b; memcpy(&b, &v, 8);
        sh->drawhash[r] = mix(sh->drawhash[r], b);
    }
    if (rt.spec->evdraw && me->evkey)
    {
        // the same random numbers for an event, whichever thread simulates it
        u64 h = mix(mix(rt.spec->evdraw, (u64)r), me->evkey, ++me->evdrawn);
        v = lo + (hi - lo) * ((h >> 11) * 0x1p-53);
        sh->evdraws++;
    }
    else if (rt.spec->evdraw && rt.multi) sh->unkeyed++;
    if (hi > lo && !rt.spec->evdraw)
    {
        u64 a[3]; memcpy(a, &v, 8); memcpy(a + 1, &lo, 8); memcpy(a + 2, &hi, 8);
        if (!drawSet->insert(mix(a[0], a[1], a[2])).second) sh->dupdraws++;
    }
    if (rt.spec->rare > 0)
    {
        u64 h = mix(mix(rt.spec->seed, 0x2a2e, r), me->lidx, me->drawn);
        if ((h >> 11) * 0x1p-53 < rt.spec->rare)
        {
            sh->extreme++; sh->bgfired[W_RARE]++;
            v = (h & 1) ? lo + (hi - lo) * 1e-9 : hi - (hi - lo) * 1e-9;
        }
    }
    return v;
}
void qs_event(const char* name)
{
    if (!self || !rt.active || !rt.spec->evdraw) return;
    u64 h = 0x3e7e;
    for (const char* p = name; *p; p++) h = mix(h, (u64)(unsigned char)*p);
    self->evkey = h | 1; self->evdrawn = 0;
}
unsigned qs_cap(unsigned n)
{
    if (self && rt.active && !sh->ev0new) { u64 a, b; memCounts(a, b); sh->ev0new = a + 1; sh->ev0malloc = b + 1; }
    if (self && rt.active && rt.spec->cap > 0) { sh->bgfired[W_CAPLIST]++; return (unsigned)rt.spec->cap; }
    return n;
}
}

// ---------------------------------------------------------------- one run
static std::string libDir;
typedef int (*main_t)(int, char**);
static main_t appMain[MAXR];
static void rankMain(void* a)
{
    int r = (int)(long)a;
    static char prog[] = "QEDCASC", in[] = "input.ini";
    char* argv[3] = {prog, in, NULL};
    int code;
    try { code = appMain[r](2, argv); }
    catch (...) { { Guard g; note("uncaught exception"); } abort(); }
    exit(code);
}
#ifdef QS_PY
static void pyMain(void*)
{
    PyGILState_STATE st = PyGILState_Ensure();
    (void)st;
    FILE* f;
    { Guard g; f = fopen("script.py", "r"); }
    int rc = f ? PyRun_SimpleFileEx(f, "script.py", 1) : 97;
    // The interpreter stays up: leaving it is no part of the simulation.
    fflush(stdout); fflush(stderr);
    rt.noswitch = true;
    sh->simtime = rt.now;
    sh->finished = 1;
    endRun(rc == 0 ? 0 : 1);
}
static PyObject* qsMark(PyObject*, PyObject*)
{
    if (sh->nmark < 16) sh->mark[sh->nmark++] = sh->livebytes;
    Py_RETURN_NONE;
}
static PyObject* qsLive(PyObject*, PyObject*)
{
    u64 n, m; memCounts(n, m);
    return Py_BuildValue("(KKK)", (unsigned long long)sh->livebytes, (unsigned long long)sh->liveblocks, (unsigned long long)n);
}
static PyMethodDef qsMethods[] = {{"mark", qsMark, METH_NOARGS, ""}, {"live", qsLive, METH_NOARGS, ""}, {NULL, NULL, 0, NULL}};
static PyModuleDef qsDef = {PyModuleDef_HEAD_INIT, "_qsim", NULL, -1, qsMethods, NULL, NULL, NULL, NULL};
static PyObject* qsInit() { return PyModule_Create(&qsDef); }
static PyObject* casc()
{
    typedef PyObject* (*F)();
    F f = (F)dlsym(appHandle[0], "PyInit_QEDCascPy");
    if (!f) { fprintf(stderr, "no PyInit_QEDCascPy\n"); return NULL; }
    return f();
}
static PyObject* cascInit() { return casc(); }
#endif

static void child(RunSpec& s, const std::string& dir)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (chdir(dir.c_str())) { note("chdir"); _exit(97); }
    int fo = open("stdout.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644), fe = open("stderr.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fo, 1); dup2(fe, 2); close(fo); close(fe);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    sh->started = 1;
    rtInit(s);
    memRun(); ioRun(s); mpiRun(s);
    drawSet = new std::unordered_set<u64>;
    int n = s.variant == "mpi" ? s.ranks : 1;
    for (int r = 0; r < n; r++)
    {
        rt.loading_rank = r;
        std::string p = libDir + "/" + s.variant + "/app" + std::to_string(r) + ".so";
        void* h = dlopen(p.c_str(), RTLD_LAZY | RTLD_LOCAL);
        if (!h) { fprintf(stderr, "%s\n", dlerror()); note("cannot load the code under test: %s", dlerror()); _exit(96); }
        appHandle[r] = h;
        modRange(r, h);
        if (s.variant.compare(0, 2, "py") != 0)
        {
            appMain[r] = (main_t)dlsym(h, "app_main");
            if (!appMain[r]) { note("no main"); _exit(96); }
        }
    }
    rt.loading_rank = 0;
    for (int r = 0; r < n; r++)
    {
#ifdef QS_PY
        if (s.variant.compare(0, 2, "py") == 0) { rtSpawnRank(r, pyMain, NULL); continue; }
#endif
        rtSpawnRank(r, rankMain, (void*)(long)r);
    }
    rtGo();
}

// ---------------------------------------------------------------- reading output files
static FILE* dumpF;
static int dumpN;
static herr_t visit(hid_t o, const char* name, const H5O_info_t* info, void*)
{
    if (info->type != H5O_TYPE_DATASET) return 0;
    hid_t d = H5Dopen2(o, name, H5P_DEFAULT);
    if (d < 0) return -1;
    hid_t sp = H5Dget_space(d);
    int nd = H5Sget_simple_extent_ndims(sp);
    hsize_t dim[8] = {0}; H5Sget_simple_extent_dims(sp, dim, NULL);
    hssize_t n = H5Sget_simple_extent_npoints(sp);
    std::vector<double> v(n > 0 ? n : 0);
    if (n > 0 && H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) return -1;
    int64_t h[11] = {(int64_t)strlen(name), nd};
    for (int i = 0; i < nd && i < 8; i++) h[2 + i] = (int64_t)dim[i];
    h[10] = n;
    fwrite(h, 8, 11, dumpF); fwrite(name, 1, strlen(name), dumpF);
    fwrite(v.data(), 8, v.size(), dumpF);
    dumpN++;
    H5Sclose(sp); H5Dclose(d);
    return 0;
}
// 0: fine, 1: not readable
static void reader(const std::string& file, const std::string& to)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    dumpF = fopen(to.c_str(), "w");
    hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) _exit(1);
    if (H5Ovisit2(f, H5_INDEX_NAME, H5_ITER_NATIVE, visit, NULL, H5O_INFO_BASIC) < 0) _exit(1);
    fclose(dumpF);
    _exit(0);
}

static int waitFor(pid_t p, double limit, bool& killed)
{
    killed = false;
    int fd = (int)syscall(SYS_pidfd_open, p, 0);
    struct pollfd pf = {fd, POLLIN, 0};
    if (poll(&pf, 1, (int)(limit * 1000)) <= 0) { killed = true; kill(p, SIGKILL); }
    close(fd);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return st;
}

static std::string esc(const char* s)
{
    std::string o;
    for (; *s; s++)
    {
        if (*s == '"' || *s == '\\') { o += '\\'; o += *s; }
        else if ((unsigned char)*s < 32) o += ' ';
        else o += *s;
    }
    return o;
}

int main(int argc, char** argv)
{
    // The same addresses in every process, where the system allows it.
    if (!getenv("QS_FIXED"))
    {
        setenv("QS_FIXED", "1", 1);
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(cur | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    libDir = argc > 1 ? argv[1] : ".";
    signal(SIGPIPE, SIG_IGN);
    memInit(); ioInit();
    sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#ifdef QS_PY
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    PyImport_AppendInittab("_qsim", qsInit);
    PyImport_AppendInittab("QEDCascPy", cascInit);
    PyConfig c; PyConfig_InitPythonConfig(&c);
    c.use_hash_seed = 1; c.hash_seed = 0; c.write_bytecode = 0; c.user_site_directory = 0; c.install_signal_handlers = 0;
    PyStatus ps = Py_InitializeFromConfig(&c);
    if (PyStatus_Exception(ps)) { fprintf(stderr, "python init\n"); return 96; }
    if (PyRun_SimpleString("import sys\nsys.path.insert(0,'/opt/vp/pyenv/lib/python3.12/site-packages')\n"
        "import numpy, json, _qsim, gc\nimport numpy.random\ngc.disable()\n")) return 96;
    PyEval_SaveThread();
#endif
    std::string line;
    char buf[1 << 16];
    RunSpec s; std::string dir, tables; double wall = 60;
    std::vector<std::string> reads;
    printf("READY\n"); fflush(stdout);
    while (fgets(buf, sizeof buf, stdin))
    {
        char k[64]; int off = 0;
        if (sscanf(buf, "%63s %n", k, &off) < 1) continue;
        std::string key = k; char* v = buf + off;
        size_t L = strlen(v); while (L && (v[L - 1] == '\n')) v[--L] = 0;
        if (key == "BEGIN") { s = RunSpec(); reads.clear(); dir = v; wall = 60; tables.clear(); }
        else if (key == "variant") s.variant = v;
        else if (key == "threads") s.threads = atoi(v);
        else if (key == "ranks") s.ranks = atoi(v);
        else if (key == "rankbase") s.rankbase = atoi(v);
        else if (key == "grant") s.grant = atoi(v);
        else if (key == "seed") s.seed = strtoull(v, NULL, 10);
        else if (key == "cap") s.cap = atoi(v);
        else if (key == "evdraw") s.evdraw = strtoull(v, NULL, 10);
        else if (key == "rare") s.rare = atof(v);
        else if (key == "poison") s.poison = atoi(v);
        else if (key == "bgshort") s.bgshort = atof(v);
        else if (key == "bgeintr") s.bgeintr = atof(v);
        else if (key == "clock0") s.clock0 = atof(v);
        else if (key == "pol") s.sched.pol = atoi(v);
        else if (key == "mean") s.sched.mean = atof(v);
        else if (key == "hotp") s.sched.hotp = atof(v);
        else if (key == "depth") s.sched.depth = atoi(v);
        else if (key == "len") s.sched.len = strtoull(v, NULL, 10);
        else if (key == "sseed") s.sched.seed = strtoull(v, NULL, 10);
        else if (key == "profile") s.sched.profile = atoi(v);
        else if (key == "forced") s.sched.forced = atoi(v);
        else if (key == "sw") { Forced f; unsigned a, b; unsigned long long c; if (sscanf(v, "%u %u %llu", &a, &b, &c) == 3) { f.tid = a; f.to = b; f.lstep = c; s.sched.list.push_back(f); } }
        else if (key == "hot") s.sched.hot.push_back(strtoull(v, NULL, 16));
        else if (key == "netseed") s.net.seed = strtoull(v, NULL, 10);
        else if (key == "rdv") s.net.rendezvous = atof(v);
        else if (key == "alleager") s.net.alleager = atoi(v);
        else if (key == "allsync") s.net.allsync = atoi(v);
        else if (key == "delay") s.net.delay = atof(v);
        else if (key == "slowlink") s.net.slowlink = atof(v);
        else if (key == "steplimit") s.steplimit = strtoull(v, NULL, 10);
        else if (key == "wall") wall = atof(v);
        else if (key == "read") reads.push_back(v);
        else if (key == "tables") tables = v;
        else if (key == "fault")
        {
            Fault f; char nm[128] = ""; unsigned long long n;
            if (sscanf(v, "%d %d %d %d %llu %d %lf %127s", &f.what, &f.cls, &f.op, &f.rank, &n, &f.sticky, &f.arg, nm) >= 7)
            { f.n = n; f.name = nm; s.faults.push_back(f); }
        }
        else if (key == "GO")
        {
            memset((void*)sh, 0, offsetof(Shared, rec));
            struct timespec t0, t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
            pid_t p = fork();
            if (!p) { close(0); if (!tables.empty()) setenv("QED_TABLES_PATH", tables.c_str(), 1); child(s, dir); _exit(97); }
            bool killed; int st = waitFor(p, wall, killed);
            std::string rd;
            for (size_t i = 0; i < reads.size(); i++)
            {
                std::string src = dir + "/" + reads[i], dst = dir + "/" + reads[i] + ".bin";
                int code = 2;
                if (!access(src.c_str(), F_OK))
                {
                    pid_t q = fork();
                    if (!q) reader(src, dst);
                    bool k2; int s2 = waitFor(q, 30, k2);
                    code = WIFEXITED(s2) ? WEXITSTATUS(s2) : 1;
                }
                rd += (i ? "," : "") + std::to_string(code);
            }
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
            double el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9;
            printf("{\"exit\":%d,\"signal\":%d,\"killed\":%d,\"wall\":%.4f,\"reads\":[%s],", WIFEXITED(st) ? WEXITSTATUS(st) : -1,
                WIFSIGNALED(st) ? WTERMSIG(st) : 0, killed, el, rd.c_str());
            printf("\"started\":%d,\"deadlock\":%d,\"steplimit\":%d,\"job_abort\":%d,\"abort_rank\":%d,\"abort_code\":%d,\"crash\":%d,\"finished\":%d,\"mpierr\":%d,\"ranks_done\":%d,\"overflow\":%d,",
                sh->started, sh->deadlock, sh->steplimit, sh->job_abort, sh->abort_rank, sh->abort_code, sh->crash_fired, sh->finished, sh->mpierr, sh->ranks_done, sh->overflow);
#define U(x) printf("\"" #x "\":%llu,", (unsigned long long)sh->x)
            U(steps); U(switches); U(preempts); U(decisions); U(parallel_steps); U(ilhash); U(msgs); U(eager); U(rdv); U(reordered);
            U(draws); U(evdraws); U(unkeyed); U(dupdraws); U(clockreads); U(extreme); U(allocs); U(liveblocks); U(livebytes); U(peakbytes); U(doublefree); U(ev0new); U(ev0malloc); U(teams); U(conflicts);
            printf("\"simtime\":%.9g,\"msg\":\"%s\",", sh->simtime, esc(sh->msg).c_str());
            printf("\"ops\":{");
            bool first = true;
            for (int r = 0; r < MAXR; r++) for (int c = 0; c < NCLS; c++) for (int o = 0; o < NOP; o++)
                if (sh->ops[r][c][o]) { printf("%s\"%d.%d.%d\":%llu", first ? "" : ",", r, c, o, (unsigned long long)sh->ops[r][c][o]); first = false; }
            printf("},\"bg\":{"); first = true;
            for (int w = 0; w < NWHAT; w++) if (sh->bgfired[w]) { printf("%s\"%s\":%llu", first ? "" : ",", whatName[w], (unsigned long long)sh->bgfired[w]); first = false; }
            printf("},\"fired\":[");
            for (u32 i = 0; i < sh->nfired && i < 64; i++) printf("%s%u", i ? "," : "", sh->fired[i].idx);
            printf("],\"nfired\":%u,\"drawhash\":[", sh->nfired);
            for (int r = 0; r < MAXR; r++) printf("%s%llu", r ? "," : "", (unsigned long long)sh->drawhash[r]);
            printf("],\"marks\":[");
            for (u32 i = 0; i < sh->nmark; i++) printf("%s%llu", i ? "," : "", (unsigned long long)sh->mark[i]);
            printf("],\"hot\":[");
            for (u32 i = 0; i < sh->nhot; i++) printf("%s\"%llx\"", i ? "," : "", (unsigned long long)sh->hot[i]);
            printf("],\"rec\":[");
            for (u32 i = 0; i < sh->nrec; i++) printf("%s[%u,%u,%llu]", i ? "," : "", sh->rec[i].tid, sh->rec[i].to, (unsigned long long)sh->rec[i].lstep);
            printf("]}\n"); fflush(stdout);
        }
    }
    return 0;
}
