// File seam: counts every operation of the code under test and its libraries on the
// run's files, injects faults, and keeps the write log from which crash states are built.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt.hpp"
#include <cstdarg>
#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>

namespace qs {
struct FdInfo { unsigned char cls; int path; bool wr; };
static FdInfo fds[1024];
static std::string fdname[1024];
struct LogOp { int path; int kind; long off; std::string data; }; // kind 0 write, 1 truncate to off, 2 sync
struct PathInfo { std::string name; bool existed; std::string before; long end; };
static std::vector<PathInfo>* paths;
static std::vector<LogOp>* wlog;
static bool logging, capped;
static long used;
static char *cxxB, *cxxE;

static ssize_t rawRead(int fd, void* b, size_t n) { return syscall(SYS_read, fd, b, n); }
static ssize_t rawWrite(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }

static bool ends(const char* p, const char* s)
{
    size_t a = strlen(p), b = strlen(s);
    return a >= b && !strcmp(p + a - b, s);
}
static bool on() { return self && rt.active && self->depth == 0; }
static int classify(const char* p, int flags)
{
    if (ends(p, ".table")) return C_TAB;
    if (ends(p, ".ini")) return C_INI;
    if (ends(p, "input-check.txt")) return C_CHK;
    if (!strncmp(p, "/proc", 5) || !strncmp(p, "/dev", 4) || !strncmp(p, "/sys", 4)) return C_NONE;
    if (ends(p, ".h5")) return C_OUT;
    if (flags & (O_WRONLY | O_RDWR)) return p[0] == '/' && strncmp(p, "/tmp", 4) && strncmp(p, "/verif", 6) ? C_NONE : C_OUT;
    return C_NONE;
}
void ioInit()
{
    Dl_info di;
    if (void* f = dlsym(RTLD_DEFAULT, "_ZNSt13basic_filebufIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode"))
        if (dladdr(f, &di)) { cxxB = (char*)di.dli_fbase; cxxE = cxxB + (8 << 20); }
}
void ioRun(const RunSpec& s)
{
    memset(fds, 0, sizeof fds);
    paths = new std::vector<PathInfo>; wlog = new std::vector<LogOp>;
    logging = capped = false; used = 0;
    for (const Fault& f : s.faults)
    {
        if (f.what == W_CRASH || f.what == W_TORN) logging = true;
        if (f.what == W_CAP) capped = true;
    }
}
static int pathId(const char* name)
{
    for (size_t i = 0; i < paths->size(); i++) if ((*paths)[i].name == name) return (int)i;
    PathInfo p; p.name = name; p.existed = false; p.end = 0;
    struct stat st;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, name, O_RDONLY, 0);
    if (fd >= 0)
    {
        p.existed = true;
        if (!fstat(fd, &st)) p.end = st.st_size;
        if (logging)
        {
            char b[65536]; ssize_t r;
            while ((r = rawRead(fd, b, sizeof b)) > 0) p.before.append(b, r);
        }
        syscall(SYS_close, fd);
    }
    used += p.end;
    paths->push_back(p);
    return (int)paths->size() - 1;
}

// The disk after a machine crash: writes since the last sync survive in any subset.
void ioCrashState(u64 seed, double lose)
{
    Rng r(seed);
    for (size_t i = 0; i < paths->size(); i++)
    {
        PathInfo& p = (*paths)[i];
        size_t lastSync = 0;
        for (size_t k = 0; k < wlog->size(); k++) if ((*wlog)[k].path == (int)i && (*wlog)[k].kind == 2) lastSync = k + 1;
        bool exists = p.existed; std::string c = p.before;
        for (size_t k = 0; k < wlog->size(); k++)
        {
            LogOp& o = (*wlog)[k];
            if (o.path != (int)i) continue;
            bool keep = k < lastSync || !r.chance(lose);
            double u = r.uni(); bool tear = k >= lastSync && r.chance(lose * 0.3);
            if (!keep) continue;
            exists = true;
            if (o.kind == 1) c.resize(o.off);
            else if (o.kind == 0)
            {
                size_t n = o.data.size();
                if (tear) n = (size_t)(u * n);
                if (c.size() < (size_t)o.off + n) c.resize(o.off + n);
                memcpy(&c[o.off], o.data.data(), n);
            }
        }
        if (!exists) { unlink(p.name.c_str()); continue; }
        int fd = (int)syscall(SYS_openat, AT_FDCWD, p.name.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd < 0) continue;
        size_t d = 0; while (d < c.size()) { ssize_t w = rawWrite(fd, c.data() + d, c.size() - d); if (w <= 0) break; d += w; }
        syscall(SYS_close, fd);
    }
}

struct Verdict { int err; size_t n; };
// Decides one operation: err > 0 fails it, n is the number of bytes to transfer.
static Verdict decide(int cls, int op, size_t n, int fd, const char* name)
{
    Verdict v = {0, n};
    int rank = myRank();
    u64 k = ++sh->ops[rank][cls][op];
    u64 any = 0;
    for (int r = 0; r < MAXR; r++) any += sh->ops[r][cls][op];
    sh->ilhash = mix(sh->ilhash, cls * 16 + op, k);
    const RunSpec& s = *rt.spec;
    int idx = -1;
    for (const Fault& f : s.faults)
    {
        idx++;
        if (f.what == W_ALLOC || f.what == W_CLOCK || f.what == W_CAP || f.what == W_EOF) continue;
        if (f.cls != cls || f.op != op) continue;
        u64 c = f.rank < 0 ? any : k;
        if (f.rank >= 0 && f.rank != rank) continue;
        if (f.name[0] && f.name != "-" && !strstr(name ? name : fdname[fd].c_str(), f.name.c_str())) continue;
        if (!(c == f.n || (f.sticky && c > f.n))) continue;
        fired(idx);
        switch (f.what)
        {
        case W_EIO: v.err = EIO; break;
        case W_ENOSPC: v.err = ENOSPC; break;
        case W_EINTR: v.err = EINTR; break;
        case W_EACCES: v.err = EACCES; break;
        case W_EMFILE: v.err = EMFILE; break;
        case W_ENOENT: v.err = ENOENT; break;
        case W_SHORT: if (n > 1) { v.n = (size_t)(n * f.arg); if (!v.n) v.n = 1; if (v.n >= n) v.n = n - 1; } break;
        case W_CRASH: case W_TORN:
            {
                Guard g;
                sh->crash_fired = 1;
                if (f.what == W_TORN) ioCrashState(mix(s.seed, f.n, 0xc4a5), f.arg);
                endRun(137);
            }
        }
    }
    if (!v.err && (op == OP_READ || op == OP_WRITE))
    {
        u64 h = mix(mix(s.seed, 0xb9), rank * 64 + cls * 8 + op, k);
        if (s.bgeintr > 0 && cls != C_INI && (mix(h, 1) >> 11) * 0x1p-53 < s.bgeintr) { v.err = EINTR; sh->bgfired[W_EINTR]++; }
        else if (s.bgshort > 0 && n > 1 && (mix(h, 2) >> 11) * 0x1p-53 < s.bgshort)
        { v.n = 1 + (size_t)(mix(h, 3) % (n - 1)); sh->bgfired[W_SHORT]++; }
    }
    return v;
}
// Disk-full: how much of a write at offset off fits.
static bool capacity(int fd, long off, size_t& n)
{
    if (!capped || fds[fd].cls != C_OUT) return true;
    PathInfo& p = (*paths)[fds[fd].path];
    int idx = -1;
    for (const Fault& f : rt.spec->faults)
    {
        idx++;
        if (f.what != W_CAP) continue;
        long room = (long)f.arg - used, ext = off + (long)n - p.end;
        if (ext > 0 && ext > room)
        {
            fired(idx);
            long fit = (long)n - (ext - (room > 0 ? room : 0));
            if (fit <= 0) return false;
            n = (size_t)fit;
        }
    }
    long ext = off + (long)n - p.end;
    if (ext > 0) { used += ext; p.end += ext; }
    return true;
}
static void logWrite(int fd, long off, const void* b, size_t n)
{
    PathInfo& p = (*paths)[fds[fd].path];
    if (off + (long)n > p.end) { used += off + (long)n - p.end; p.end = off + (long)n; }
    if (!logging) return;
    LogOp o; o.path = fds[fd].path; o.kind = 0; o.off = off; o.data.assign((const char*)b, n);
    wlog->push_back(o);
}
static void logTrunc(int path, long n)
{
    PathInfo& p = (*paths)[path];
    used += n - p.end; p.end = n;
    if (!logging) return;
    LogOp o; o.path = path; o.kind = 1; o.off = n;
    wlog->push_back(o);
}
static int doOpen(const char* p, int flags, int mode)
{
    int cls = on() ? classify(p, flags) : C_NONE;
    if (cls == C_NONE)
    {
        int fd = (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
        if (fd >= 0 && fd < 1024) fds[fd].cls = C_NONE;
        return fd;
    }
    point(30);
    Guard g;
    Verdict v = decide(cls, OP_OPEN, 0, -1, p);
    if (v.err) { errno = v.err; return -1; }
    bool wr = (flags & (O_WRONLY | O_RDWR)) != 0;
    int id = wr ? pathId(p) : -1;
    bool ex = wr ? (*paths)[id].existed : true;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
    if (fd >= 1024) { note("too many open files"); endRun(97); }
    if (fd >= 0)
    {
        fds[fd].cls = cls; fds[fd].path = id; fds[fd].wr = wr; fdname[fd] = p;
        if (wr && ((flags & O_TRUNC) || !ex)) logTrunc(id, (flags & O_TRUNC) ? 0 : (*paths)[id].end);
    }
    return fd;
}
static inline int clsOf(int fd) { return fd >= 0 && fd < 1024 && on() ? fds[fd].cls : C_NONE; }

struct Cookie { int fd; };
static ssize_t ckRead(void* c, char* b, size_t n) { return read(((Cookie*)c)->fd, b, n); }
static ssize_t ckWrite(void* c, const char* b, size_t n)
{
    size_t d = 0;
    while (d < n) { ssize_t r = write(((Cookie*)c)->fd, b + d, n - d); if (r <= 0) return (ssize_t)d; d += r; }
    return (ssize_t)d;
}
static int ckSeek(void* c, off64_t* o, int w) { off64_t r = lseek64(((Cookie*)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* c) { int r = close(((Cookie*)c)->fd); free(c); return r; }

static FILE* doFopen(const char* p, const char* m, void* ra)
{
    typedef FILE* (*F)(const char*, const char*);
    static F real = (F)dlsym(RTLD_NEXT, "fopen64");
    int flags = strchr(m, '+') ? O_RDWR : (m[0] == 'r' ? O_RDONLY : O_WRONLY);
    if (m[0] == 'w') flags |= O_CREAT | O_TRUNC;
    if (m[0] == 'a') flags |= O_CREAT | O_APPEND;
    int cls = on() ? classify(p, flags) : C_NONE;
    if (cls == C_NONE)
    {
        FILE* f = real(p, m);
        if (f && fileno(f) >= 0 && fileno(f) < 1024) fds[fileno(f)].cls = C_NONE;
        return f;
    }
    int fd = doOpen(p, flags, 0666);
    if (fd < 0) return NULL;
    Guard g;
    if ((char*)ra >= cxxB && (char*)ra < cxxE) // the stream library transfers on the descriptor itself
    {
        FILE* f = fdopen(fd, m);
        return f;
    }
    Cookie* c = (Cookie*)malloc(sizeof(Cookie)); c->fd = fd;
    cookie_io_functions_t fn = {ckRead, ckWrite, ckSeek, ckClose};
    return fopencookie(c, m, fn);
}
}
using namespace qs;
extern "C" {
int open(const char* p, int flags, ...)
{
    int mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
    return doOpen(p, flags, mode);
}
int open64(const char* p, int flags, ...)
{
    int mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
    return doOpen(p, flags, mode);
}
int openat(int d, const char* p, int flags, ...)
{
    int mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
    if (d == AT_FDCWD || p[0] == '/') return doOpen(p, flags, mode);
    return (int)syscall(SYS_openat, d, p, flags, mode);
}
int creat(const char* p, mode_t m) { return doOpen(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
FILE* fopen(const char* p, const char* m) { return doFopen(p, m, __builtin_return_address(0)); }
FILE* fopen64(const char* p, const char* m) { return doFopen(p, m, __builtin_return_address(0)); }
int close(int fd)
{
    int c = clsOf(fd);
    if (c == C_NONE) { if (fd >= 0 && fd < 1024) fds[fd].cls = C_NONE; return (int)syscall(SYS_close, fd); }
    Guard g;
    Verdict v = decide(c, OP_CLOSE, 0, fd, NULL);
    fds[fd].cls = C_NONE;
    // A close that fails has lost data that was still to be written.
    if (v.err && c == C_OUT && fds[fd].wr)
    {
        long len = (long)syscall(SYS_lseek, fd, 0, SEEK_END);
        if (len > 0) syscall(SYS_ftruncate, fd, (long)(len * 0.6));
    }
    int r = (int)syscall(SYS_close, fd);
    if (v.err) { errno = v.err; return -1; }
    return r;
}
ssize_t read(int fd, void* b, size_t n)
{
    int c = clsOf(fd);
    if (c == C_NONE) return rawRead(fd, b, n);
    Guard g;
    Verdict v = decide(c, OP_READ, n, fd, NULL);
    if (v.err) { errno = v.err; return -1; }
    return rawRead(fd, b, v.n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    int c = clsOf(fd);
    if (c == C_NONE) return syscall(SYS_pread64, fd, b, n, o);
    Guard g;
    Verdict v = decide(c, OP_READ, n, fd, NULL);
    if (v.err) { errno = v.err; return -1; }
    return syscall(SYS_pread64, fd, b, v.n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t __pread_chk(int fd, void* b, size_t n, off_t o, size_t) { return pread(fd, b, n, o); }
ssize_t __pread64_chk(int fd, void* b, size_t n, off64_t o, size_t) { return pread(fd, b, n, o); }
int __open_2(const char* p, int flags) { return doOpen(p, flags, 0); }
int __open64_2(const char* p, int flags) { return doOpen(p, flags, 0); }
ssize_t write(int fd, const void* b, size_t n)
{
    int c = clsOf(fd);
    if (c == C_NONE) return rawWrite(fd, b, n);
    Guard g;
    Verdict v = decide(c, OP_WRITE, n, fd, NULL);
    if (v.err) { errno = v.err; return -1; }
    long off = (long)syscall(SYS_lseek, fd, 0, SEEK_CUR);
    if (!capacity(fd, off, v.n)) { errno = ENOSPC; return -1; }
    ssize_t r = rawWrite(fd, b, v.n);
    if (r > 0 && fds[fd].path >= 0) logWrite(fd, off, b, r);
    return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    int c = clsOf(fd);
    if (c == C_NONE) return syscall(SYS_pwrite64, fd, b, n, o);
    Guard g;
    Verdict v = decide(c, OP_WRITE, n, fd, NULL);
    if (v.err) { errno = v.err; return -1; }
    if (!capacity(fd, o, v.n)) { errno = ENOSPC; return -1; }
    ssize_t r = syscall(SYS_pwrite64, fd, b, v.n, o);
    if (r > 0 && fds[fd].path >= 0) logWrite(fd, o, b, r);
    return r;
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int n)
{
    if (clsOf(fd) == C_NONE) return syscall(SYS_writev, fd, v, n);
    std::string s;
    { Guard g; for (int i = 0; i < n; i++) s.append((const char*)v[i].iov_base, v[i].iov_len); }
    return write(fd, s.data(), s.size());
}
int ftruncate(int fd, off_t n)
{
    int c = clsOf(fd);
    if (c == C_NONE) return (int)syscall(SYS_ftruncate, fd, n);
    Guard g;
    Verdict v = decide(c, OP_TRUNC, 0, fd, NULL);
    if (v.err) { errno = v.err; return -1; }
    int r = (int)syscall(SYS_ftruncate, fd, n);
    if (!r && fds[fd].path >= 0) logTrunc(fds[fd].path, n);
    return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
static int sync_(int fd, int nr)
{
    int c = clsOf(fd);
    if (c == C_NONE) return (int)syscall(nr, fd);
    Guard g;
    Verdict v = decide(c, OP_SYNC, 0, fd, NULL);
    if (v.err) { errno = v.err; return -1; }
    if (logging && fds[fd].path >= 0) { LogOp o; o.path = fds[fd].path; o.kind = 2; o.off = 0; wlog->push_back(o); }
    return 0;
}
int fsync(int fd) { return sync_(fd, SYS_fsync); }
int fdatasync(int fd) { return sync_(fd, SYS_fdatasync); }
}
