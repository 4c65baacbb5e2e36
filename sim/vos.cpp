#include "vos.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <algorithm>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <dirent.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>

#define REAL(ret, name, ...) \
    typedef ret (*name##_real_t)(__VA_ARGS__); \
    static name##_real_t real_##name() { static name##_real_t f = 0; if (!f) f = (name##_real_t)dlsym(RTLD_NEXT, #name); return f; }

// with simulated threads (thr_rt.cpp)
extern "C" void simYield() __attribute__((weak));
extern "C" void simLoader() __attribute__((weak));
static thread_local bool gDlHas;
static thread_local char gDlErr[300];

namespace sim { extern int gInSut; extern int gNoTrack; }
using sim::Host;
using sim::str;
using sim::u64;

REAL(int, open, const char*, int, ...)
REAL(int, openat, int, const char*, int, ...)
REAL(FILE*, fopen, const char*, const char*)
REAL(FILE*, fopencookie, void*, const char*, cookie_io_functions_t)
REAL(FILE*, fdopen, int, const char*)
REAL(int, fclose, FILE*)
REAL(int, fileno, FILE*)
REAL(ssize_t, read, int, void*, size_t)
REAL(ssize_t, write, int, const void*, size_t)
REAL(ssize_t, readv, int, const struct iovec*, int)
REAL(ssize_t, writev, int, const struct iovec*, int)
REAL(ssize_t, pread, int, void*, size_t, off_t)
REAL(ssize_t, pwrite, int, const void*, size_t, off_t)
REAL(off_t, lseek, int, off_t, int)
REAL(int, close, int)
REAL(int, fstat, int, struct stat*)
REAL(int, stat, const char*, struct stat*)
REAL(int, lstat, const char*, struct stat*)
REAL(int, fstatat, int, const char*, struct stat*, int)
REAL(int, access, const char*, int)
REAL(int, faccessat, int, const char*, int, int)
REAL(int, unlink, const char*)
REAL(int, remove, const char*)
REAL(int, rename, const char*, const char*)
REAL(int, mkdir, const char*, mode_t)
REAL(int, fsync, int)
REAL(int, fdatasync, int)
REAL(int, ftruncate, int, off_t)
REAL(DIR*, opendir, const char*)
REAL(DIR*, fdopendir, int)
REAL(struct dirent*, readdir, DIR*)
REAL(int, closedir, DIR*)
REAL(int, dirfd, DIR*)
REAL(char*, getcwd, char*, size_t)
REAL(char*, realpath, const char*, char*)
REAL(ssize_t, readlink, const char*, char*, size_t)
REAL(FILE*, popen, const char*, const char*)
REAL(int, pclose, FILE*)
REAL(int, clock_gettime, clockid_t, struct timespec*)
REAL(int, gettimeofday, struct timeval*, void*)
REAL(time_t, time, time_t*)
REAL(int, nanosleep, const struct timespec*, struct timespec*)
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec*, struct timespec*)
REAL(int, usleep, useconds_t)
REAL(void*, dlopen, const char*, int)
REAL(int, dlclose, void*)
REAL(char*, dlerror, void)
REAL(int, backtrace, void**, int)
REAL(char**, backtrace_symbols, void* const*, int)
REAL(char*, __cxa_demangle, const char*, char*, size_t*, int*)

namespace vos
{
    enum { REG, DIRN, PIPEW, SOCK, CTLPIPE, LNK };
    static const int VFD = 1000, NFD = 400;
    struct Node { int kind = REG; str data; std::map<str, std::shared_ptr<Node>> kids; u64 ino = 0; };
    typedef std::shared_ptr<Node> N;
    struct Ofd { bool open = false; bool wasOpen = false; int kind = REG; N node; off_t pos = 0; int flags = 0; std::shared_ptr<Child> child; void* net = 0; str path; };
    struct FaultSpec { str cls; long nth; str kind; long arg; bool spent; };
    struct VDir { int fd; std::vector<std::pair<str, int>> ents; size_t at; struct dirent de; bool open; };
    struct DlHandle { bool open; void* real; str name; };

    struct State
    {
        N root;
        u64 ino = 10;
        Ofd fd[NFD];
        std::map<FILE*, int> files;
        std::set<FILE*> popened;
        std::vector<VDir*> dirs;
        std::vector<FaultSpec> faults;
        std::map<str, long> calls;
        long fired = 0, firedBenign = 0;
        u64 start = 0, now = 0, jump = 0;
        long long wall = 0;
        std::vector<int> rch, wch;
        size_t rat = 0, wat = 0;
        long space = -1;
        u64 orderSeed = 0;
        bool unknownTypes = false;
        str cwd;
        size_t misuse = 0;
        str misuseWhat;
        std::vector<std::shared_ptr<Child>> kids;
        long childStop = -1;
        std::vector<DlHandle*> dl;
        std::vector<DlEvent> dlev;
        void* probe = 0;
        std::vector<str> symbols;
        bool symFail = false, stackReal = false;
        u64 sys = 0, sysCap = 300000, atN = 0;
        std::function<void()> at;
        long writes = 0;
    };
    static State* S = 0;
    static bool gActive = false;
    static str modDir;

    bool active() { return gActive; }
    void init()
    {
        char b[4096];
        ssize_t n = real_readlink()("/proc/self/exe", b, sizeof b - 1);
        if (n < 0) n = 0;
        b[n] = 0;
        modDir = b;
        modDir = modDir.substr(0, modDir.rfind('/')) + "/mods/";
    }
    void begin(u64 seed)
    {
        delete S;
        S = new State;
        S->root = N(new Node);
        S->root->kind = DIRN;
        S->start = S->now = 1000000000000ull + (seed % 1000) * 1000000ull;
        S->wall = 1600000000ll * 1000000000ll;
        mkdirs("/sim");
        net::reset();
        gDlHas = false;
        gActive = true;
    }
    void end() { gActive = false; }
    u64 nowNs() { return S->now; }
    u64 elapsed() { return S ? S->now - S->start : 0; }
    u64 jumped() { return S ? S->jump : 0; }
    void advance(u64 ns) { S->now += ns; S->jump += ns; }
    void wallJump(long long ns) { S->wall += ns; }
    void realClock(struct timespec* t) { real_clock_gettime()(CLOCK_MONOTONIC, t); }
    void realSleep(const struct timespec* t) { real_nanosleep()(t, 0); }
    u64 syscalls() { return S->sys; }
    void syscallCap(u64 n) { S->sysCap = n; }
    void atCall(u64 n, std::function<void()> f) { S->atN = S->sys + n; S->at = f; }

    static void tick(const char* what)
    {
        if (simYield) simYield();
        S->now += 1000;
        S->sys++;
        if (S->at && S->sys >= S->atN) { auto f = S->at; S->at = nullptr; f(); }
        if (S->sys > S->sysCap)
            sim::fail("runaway-io", "more than %llu calls of the operating system in one run (last: %s)", (unsigned long long)S->sysCap, what);
    }

    // ------------------------------------------------------------ faults
    void fault(const str& cls, long nth, const str& kind, long arg)
    {
        S->faults.push_back({ cls, S->calls[cls] + nth, kind, arg, false });
    }
    void clearFaults() { S->faults.clear(); S->fired = S->firedBenign = 0; }
    long fired() { return S->fired; }
    long firedBenign() { return S->firedBenign; }
    void benign(const char* n) { S->firedBenign++; sim::count(("fault." + str(n)).c_str()); }
    void hard(const char* n) { S->fired++; sim::count(("fault." + str(n)).c_str()); }
    FaultHit check(const char* cls)
    {
        FaultHit h;
        long n = ++S->calls[cls], any = ++S->calls["any"];
        for (auto& f : S->faults)
            if (!f.spent && f.cls == "any" && f.nth == any)
            {
                f.spent = true;
                // libsndfile closes again when that is interrupted
                if (!strcmp(cls, "close") && f.kind == "eintr") break;
                h.hit = true;
                h.kind = f.kind;
                h.arg = f.arg;
                sim::trace("vos fault any #%ld (%s) %s %ld", any, cls, h.kind.c_str(), h.arg);
                return h;
            }
        for (auto& f : S->faults)
            if (!f.spent && f.cls == cls && (f.nth == n || (f.nth < n && f.kind.back() == '+')))
            {
                bool sticky = f.kind.back() == '+';
                if (!sticky) f.spent = true;
                h.hit = true;
                h.kind = sticky ? f.kind.substr(0, f.kind.size() - 1) : f.kind;
                h.arg = f.arg;
                sim::trace("vos fault %s #%ld %s %ld", cls, n, h.kind.c_str(), h.arg);
                return h;
            }
        return h;
    }
    static int errOf(const str& k)
    {
        static const std::map<str, int> m = { { "eio", EIO }, { "enoent", ENOENT }, { "eacces", EACCES }, { "emfile", EMFILE },
            { "enospc", ENOSPC }, { "eintr", EINTR }, { "enomem", ENOMEM }, { "epipe", EPIPE }, { "efbig", EFBIG },
            { "edquot", EDQUOT }, { "eisdir", EISDIR }, { "eagain", EAGAIN }, { "econnreset", ECONNRESET }, { "econnrefused", ECONNREFUSED },
            { "enetunreach", ENETUNREACH }, { "espipe", ESPIPE }, { "eloop", ELOOP } };
        auto i = m.find(k);
        return i == m.end() ? 0 : i->second;
    }
    // hard error fault for simple calls; true if errno was set
    static bool simple(const char* cls)
    {
        FaultHit h = check(cls);
        if (!h.hit) return false;
        if (h.kind == "delay") { S->now += (u64)h.arg * 1000000; benign((str(cls) + ".delay").c_str()); return false; }
        int e = errOf(h.kind);
        if (!e) return false;
        hard((str(cls) + "." + h.kind).c_str());
        errno = e;
        return true;
    }

    // ------------------------------------------------------------ tree
    static str absolute(const str& p) { return (!p.empty() && p[0] == '/') ? p : (S->cwd.empty() ? p : S->cwd + "/" + p); }
    static bool mine(const char* p)
    {
        if (!gActive || !p) return false;
        if (!strncmp(p, "/sim", 4) && (p[4] == '/' || !p[4])) return true;
        return p[0] != '/' && !S->cwd.empty();
    }
    static std::vector<str> parts(const str& path)
    {
        std::vector<str> r;
        str a = absolute(path), w;
        for (size_t i = 0; i <= a.size(); i++)
            if (i == a.size() || a[i] == '/')
            {
                if (w == "..") { if (!r.empty()) r.pop_back(); }
                else if (!w.empty() && w != ".") r.push_back(w);
                w.clear();
            }
            else w += a[i];
        return r;
    }
    // Symbolic links hold where they lead in their data
    static N lookup(const str& path, int* err = 0, bool last = true, int depth = 0)
    {
        N n = S->root;
        str at;
        auto ps = parts(path);
        for (size_t i = 0; i < ps.size(); i++)
        {
            if (n->kind != DIRN) { if (err) *err = ENOTDIR; return N(); }
            auto it = n->kids.find(ps[i]);
            if (it == n->kids.end()) { if (err) *err = ENOENT; return N(); }
            n = it->second;
            if (n->kind == LNK && (last || i + 1 < ps.size() || path.back() == '/'))
            {
                if (depth >= 40) { if (err) *err = ELOOP; return N(); }
                n = lookup(n->data[0] == '/' ? n->data : at + "/" + n->data, err, true, depth + 1);
                if (!n) return N();
            }
            at += "/" + ps[i];
        }
        if (!path.empty() && path.back() == '/' && n->kind != DIRN) { if (err) *err = ENOTDIR; return N(); }
        return n;
    }
    void mkdirs(const str& path)
    {
        N n = S->root;
        for (auto& p : parts(path))
        {
            N& k = n->kids[p];
            if (!k) { k = N(new Node); k->kind = DIRN; k->ino = S->ino++; }
            n = k;
        }
    }
    static N parentOf(const str& path, str& leaf)
    {
        auto v = parts(path);
        if (v.empty()) return N();
        leaf = v.back();
        N n = S->root;
        for (size_t i = 0; i + 1 < v.size(); i++)
        {
            auto it = n->kids.find(v[i]);
            if (it == n->kids.end() || it->second->kind != DIRN) return N();
            n = it->second;
        }
        return n;
    }
    void put(const str& path, const str& data)
    {
        str leaf;
        N d = parentOf(path, leaf);
        if (!d) { mkdirs(path.substr(0, path.rfind('/'))); d = parentOf(path, leaf); }
        N n(new Node);
        n->data = data;
        n->ino = S->ino++;
        d->kids[leaf] = n;
    }
    void link(const str& path, const str& target)
    {
        put(path, target);
        str leaf;
        parentOf(path, leaf)->kids[leaf]->kind = LNK;
    }
    bool get(const str& path, str& data)
    {
        N n = lookup(path);
        if (!n || n->kind != REG) return false;
        data = n->data;
        return true;
    }
    void removePath(const str& path)
    {
        str leaf;
        N d = parentOf(path, leaf);
        if (d) d->kids.erase(leaf);
    }
    void dirOrder(u64 seed, bool unk) { S->orderSeed = seed; S->unknownTypes = unk; }
    void cwd(const str& p) { S->cwd = p; }
    void chunks(const std::vector<int>& r, const std::vector<int>& w) { S->rch = r; S->wch = w; S->rat = S->wat = 0; }
    void diskSpace(long b) { S->space = b; }
    long writesSeen() { return S->writes; }

    // ------------------------------------------------------------ descriptors
    static Ofd* ofd(int fd, const char* what)
    {
        if (fd < VFD || fd >= VFD + NFD) return 0;
        Ofd* o = &S->fd[fd - VFD];
        if (!o->open)
        {
            S->misuse++;
            if (S->misuseWhat.size() < 500) S->misuseWhat += str(what) + " on a closed descriptor (" + o->path + "); ";
            errno = EBADF;
            return 0;
        }
        return o;
    }
    int newFd(int kind, void* n)
    {
        // like the real thing: the lowest free one
        for (int i = 0; i < NFD; i++)
            if (!S->fd[i].open)
            {
                Ofd& o = S->fd[i];
                o = Ofd();
                o.open = o.wasOpen = true;
                o.kind = kind;
                o.net = n;
                if (kind == SOCK) o.path = "socket";
                return VFD + i;
            }
        errno = EMFILE;
        return -1;
    }
    size_t openHandles(str* what)
    {
        size_t n = 0;
        for (int i = 0; i < NFD; i++)
            if (S->fd[i].open) { n++; if (what) *what += "descriptor of " + S->fd[i].path + "; "; }
        for (auto& f : S->files) { bool dup = f.second >= 0 && S->fd[f.second - VFD].open; if (!dup) { n++; if (what) *what += "stream; "; } }
        for (auto d : S->dirs) if (d->open && !S->fd[d->fd - VFD].open) { n++; if (what) *what += "directory; "; }
        for (auto d : S->dl) if (d->open) { n++; if (what) *what += "library " + d->name + "; "; }
        return n;
    }
    size_t misuse(str* what) { if (what) *what = S->misuseWhat; return S->misuse; }
    std::vector<std::shared_ptr<Child>>& children() { return S->kids; }
    void childStopsAfter(long b) { S->childStop = b; }
    std::vector<DlEvent>& dlEvents() { return S->dlev; }
    void probeFactory(void* f) { S->probe = f; }
    void stack(const std::vector<str>& s, bool f) { S->symbols = s; S->symFail = f; S->stackReal = false; }
    void stackReal() { S->stackReal = true; }

    static int vopenNode(const char* path, N n, int flags)
    {
        int fd = newFd(n->kind, 0);
        if (fd < 0) return -1;
        Ofd& o = S->fd[fd - VFD];
        o.node = n;
        o.flags = flags;
        o.path = path;
        if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) n->data.clear();
        return fd;
    }
    static int vopen(const char* path, int flags, const char* cls = "open")
    {
        Host h;
        tick("open");
        sim::trace("open %s", path);
        if (simple(cls)) return -1;
        int err = ENOENT;
        N n = lookup(path, &err, !(flags & O_NOFOLLOW));
        if (n && n->kind == LNK) { errno = ELOOP; return -1; }
        if (!n)
        {
            if (!(flags & O_CREAT) || err != ENOENT) { errno = err; return -1; }
            str leaf;
            N d = parentOf(path, leaf);
            if (!d || d->kind != DIRN) { errno = ENOENT; return -1; }
            n = N(new Node);
            n->ino = S->ino++;
            d->kids[leaf] = n;
        }
        else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (n->kind == DIRN && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
        if (n->kind != DIRN && (flags & O_DIRECTORY)) { errno = ENOTDIR; return -1; }
        return vopenNode(path, n, flags);
    }
    static ssize_t vread(int fd, void* buf, size_t n, off_t at = -1)
    {
        Host h;
        tick("read");
        Ofd* o = ofd(fd, "read");
        if (!o) return -1;
        if (o->kind == SOCK) return net::sread(o->net, (char*)buf, n, false);
        if (o->kind == DIRN) { errno = EISDIR; return -1; }
        if (o->kind != REG || (o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
        FaultHit f = check("read");
        size_t lim = n;
        if (f.hit)
        {
            if (f.kind == "eintr") { benign("read.eintr"); errno = EINTR; return -1; }
            if (f.kind == "short") { lim = std::min<size_t>(n, std::max(1l, f.arg)); benign("read.short"); }
            else if (f.kind == "delay") { S->now += (u64)f.arg * 1000000; benign("read.delay"); }
            else if (int e = errOf(f.kind)) { hard(("read." + f.kind).c_str()); errno = e; return -1; }
        }
        if (!S->rch.empty()) { lim = std::min<size_t>(lim, S->rch[S->rat++ % S->rch.size()]); if (lim < n) sim::count("fault.read.fragment"); }
        off_t pos = at >= 0 ? at : o->pos;
        if (pos >= (off_t)o->node->data.size()) return 0;
        size_t k = std::min(lim, o->node->data.size() - pos);
        memcpy(buf, o->node->data.data() + pos, k);
        if (at < 0) o->pos += k;
        return k;
    }
    static ssize_t vwrite(int fd, const void* buf, size_t n, off_t at = -1)
    {
        Host h;
        tick("write");
        Ofd* o = ofd(fd, "write");
        if (!o) return -1;
        if (o->kind == SOCK) return net::swrite(o->net, (const char*)buf, n);
        if (o->kind == CTLPIPE) return n;
        FaultHit f = check(o->kind == PIPEW ? "pipe" : "write");
        size_t lim = n;
        const char* nm = o->kind == PIPEW ? "pipe." : "write.";
        if (f.hit)
        {
            if (f.kind == "eintr") { benign((str(nm) + "eintr").c_str()); errno = EINTR; return -1; }
            if (f.kind == "short") { lim = std::min<size_t>(n, std::max(1l, f.arg)); benign((str(nm) + "short").c_str()); }
            else if (f.kind == "delay") { S->now += (u64)f.arg * 1000000; benign((str(nm) + "delay").c_str()); }
            else if (int e = errOf(f.kind)) { hard((nm + f.kind).c_str()); errno = e; return -1; }
        }
        S->writes++;
        if (o->kind == PIPEW)
        {
            Child& c = *o->child;
            if (c.stopsAfter >= 0)
            {
                long room = c.stopsAfter - (long)c.input.size();
                if (room <= 0) { hard("pipe.reader-gone"); errno = EPIPE; return -1; }
                lim = std::min<size_t>(lim, room);
            }
            if (!S->wch.empty()) { lim = std::min<size_t>(lim, S->wch[S->wat++ % S->wch.size()]); if (lim < n) sim::count("fault.pipe.fragment"); }
            c.input.append((const char*)buf, lim);
            return lim;
        }
        if (o->kind != REG || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
        if (!S->wch.empty()) { lim = std::min<size_t>(lim, S->wch[S->wat++ % S->wch.size()]); if (lim < n) sim::count("fault.write.fragment"); }
        str& d = o->node->data;
        off_t pos = at >= 0 ? at : (o->flags & O_APPEND) ? (off_t)d.size() : o->pos;
        if (S->space >= 0)
        {
            size_t grow = pos + lim > d.size() ? pos + lim - d.size() : 0;
            if ((long)grow > S->space)
            {
                lim -= std::min(lim, grow - (size_t)S->space);
                if (!lim) { hard("write.disk-full"); errno = ENOSPC; return -1; }
            }
            grow = pos + lim > d.size() ? pos + lim - d.size() : 0;
            S->space -= grow;
        }
        if (pos + lim > d.size()) d.resize(pos + lim);
        memcpy(&d[pos], buf, lim);
        if (at < 0) o->pos = pos + lim;
        return lim;
    }
    static int vclose(int fd)
    {
        Host h;
        tick("close");
        Ofd* o = ofd(fd, "close");
        if (!o) return -1;
        o->open = false;
        if (o->kind == SOCK) return net::sclose(o->net);
        if (o->kind == PIPEW) { o->child->closed = true; o->child->closes++; }
        FaultHit f = check("close");
        o->node.reset();
        if (f.hit)
            if (int e = errOf(f.kind)) { hard(("close." + f.kind).c_str()); errno = e; return -1; }
        return 0;
    }
    static off_t vseek(int fd, off_t off, int wh)
    {
        Host h;
        tick("lseek");
        Ofd* o = ofd(fd, "lseek");
        if (!o) return -1;
        if (o->kind != REG) { errno = ESPIPE; return -1; }
        if (simple("seek")) return -1;
        off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (off_t)o->node->data.size();
        if (b + off < 0) { errno = EINVAL; return -1; }
        return o->pos = b + off;
    }
    static void fill(N n, struct stat* st)
    {
        memset(st, 0, sizeof *st);
        st->st_mode = (n->kind == DIRN ? S_IFDIR | 0755 : n->kind == LNK ? S_IFLNK | 0777 : S_IFREG | 0644);
        st->st_size = n->kind == DIRN ? 4096 : n->data.size();
        st->st_ino = n->ino;
        st->st_dev = 77;
        st->st_nlink = 1;
        st->st_blksize = 4096;
        st->st_blocks = (st->st_size + 511) / 512;
    }
    static int vstat(const str& path, struct stat* st, bool follow = true)
    {
        Host h;
        tick("stat");
        if (simple("stat")) return -1;
        int err = ENOENT;
        N n = lookup(path, &err, follow);
        if (!n) { errno = err; return -1; }
        fill(n, st);
        return 0;
    }
    static int vfstat(int fd, struct stat* st)
    {
        Host h;
        tick("fstat");
        Ofd* o = ofd(fd, "fstat");
        if (!o) return -1;
        if (simple("fstat")) return -1;
        if (o->node) fill(o->node, st);
        else { memset(st, 0, sizeof *st); st->st_mode = o->kind == PIPEW ? S_IFIFO : S_IFSOCK; }
        return 0;
    }

    void* netOf(int fd, int* kind)
    {
        *kind = -1;
        if (!gActive || fd < VFD || fd >= VFD + NFD) return 0;
        *kind = S->fd[fd - VFD].kind;
        if (!S->fd[fd - VFD].open) { Host h; ofd(fd, "use"); return 0; }
        return S->fd[fd - VFD].net;
    }
    bool simpleFault(const char* cls) { return simple(cls); }
    u64 tickNet(const char* w) { tick(w); return 0; }

    // ------------------------------------------------------------ streams (FILE*) over descriptors
    static ssize_t ckRead(void* c, char* b, size_t n) { return vread((int)(long)c, b, n); }
    static ssize_t ckWrite(void* c, const char* b, size_t n)
    {
        // stdio retries nothing on a short cookie write; a pipe does not return short to a blocking writer
        size_t done = 0;
        while (done < n)
        {
            ssize_t k = vwrite((int)(long)c, b + done, n - done);
            if (k < 0) { if (errno == EINTR) continue; return done ? done : 0; }
            done += k;
        }
        return done;
    }
    static int ckSeek(void* c, off64_t* off, int wh) { off_t r = vseek((int)(long)c, *off, wh); if (r < 0) return -1; *off = r; return 0; }
    static int ckClose(void* c) { return vclose((int)(long)c); }
    static FILE* stream(int fd, const char* mode, bool pipe)
    {
        cookie_io_functions_t io = { ckRead, ckWrite, pipe ? (cookie_seek_function_t*)0 : ckSeek, ckClose };
        FILE* f = real_fopencookie()((void*)(long)fd, mode, io);
        Host h;
        if (f) S->files[f] = fd;
        return f;
    }
    static int streamFd(FILE* f)
    {
        if (!gActive || !f) return -1;
        auto it = S->files.find(f);
        return it == S->files.end() ? -1 : it->second;
    }
    static VDir* vdir(DIR* d)
    {
        if (!gActive) return 0;
        for (auto v : S->dirs) if ((DIR*)v == d) return v;
        return 0;
    }
    static DIR* makeDir(int fd)
    {
        Ofd& o = S->fd[fd - VFD];
        VDir* v = new VDir;
        v->fd = fd;
        v->at = 0;
        v->open = true;
        std::vector<std::pair<u64, std::pair<str, int>>> e;
        auto add = [&](const str& n, int k) {
            int t = S->unknownTypes && sim::mix(S->orderSeed, sim::hash(n)) % 3 == 0 ? DT_UNKNOWN : k == DIRN ? DT_DIR : k == LNK ? DT_LNK : DT_REG;
            e.push_back({ S->orderSeed ? sim::mix(S->orderSeed + o.node->ino, sim::hash(n)) : e.size(), { n, t } });
        };
        add(".", DIRN);
        add("..", DIRN);
        for (auto& k : o.node->kids) add(k.first, k.second->kind);
        std::sort(e.begin(), e.end());
        for (auto& x : e) v->ents.push_back(x.second);
        S->dirs.push_back(v);
        return (DIR*)v;
    }
}

using namespace vos;
#define VFDP(fd) (vos::gActive && (fd) >= vos::VFD && (fd) < vos::VFD + vos::NFD)

extern "C"
{
    int open(const char* p, int fl, ...)
    {
        va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
        if (mine(p)) return vopen(p, fl, (fl & O_DIRECTORY) ? "opendir" : "open");
        return real_open()(p, fl, m);
    }
    int open64(const char* p, int fl, ...)
    {
        va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
        if (mine(p)) return vopen(p, fl, (fl & O_DIRECTORY) ? "opendir" : "open");
        return real_open()(p, fl | O_LARGEFILE, m);
    }
    int openat(int d, const char* p, int fl, ...)
    {
        va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
        if (mine(p) && (p[0] == '/' || d == AT_FDCWD)) return vopen(p, fl, (fl & O_DIRECTORY) ? "opendir" : "open");
        if (VFDP(d))
        {
            str full;
            { Host h; Ofd* o = ofd(d, "openat"); if (!o) return -1; full = o->path + "/" + p; }
            int r = vopen(full.c_str(), fl, (fl & O_DIRECTORY) ? "opendir" : "open");
            Host h;
            str().swap(full);
            return r;
        }
        return real_openat()(d, p, fl, m);
    }
    int openat64(int d, const char* p, int fl, ...)
    {
        va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
        return openat(d, p, fl, m);
    }
    int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
    FILE* fopen(const char* p, const char* mode)
    {
        if (!mine(p)) return real_fopen()(p, mode);
        int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
        if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
        int fd = vopen(p, fl);
        if (fd < 0) return 0;
        return stream(fd, mode, false);
    }
    FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
    FILE* fdopen(int fd, const char* mode) { if (VFDP(fd)) return stream(fd, mode, false); return real_fdopen()(fd, mode); }
    int fclose(FILE* f)
    {
        if (streamFd(f) >= 0) { { Host h; S->files.erase(f); S->popened.erase(f); } return real_fclose()(f); }
        return real_fclose()(f);
    }
    int fileno(FILE* f) { int d = streamFd(f); return d >= 0 ? d : real_fileno()(f); }
    int fileno_unlocked(FILE* f) { return fileno(f); }
    ssize_t read(int fd, void* b, size_t n) { return VFDP(fd) ? vread(fd, b, n) : real_read()(fd, b, n); }
    ssize_t write(int fd, const void* b, size_t n) { return VFDP(fd) ? vwrite(fd, b, n) : real_write()(fd, b, n); }
    ssize_t pread(int fd, void* b, size_t n, off_t o) { return VFDP(fd) ? vread(fd, b, n, o) : real_pread()(fd, b, n, o); }
    ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
    ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return VFDP(fd) ? vwrite(fd, b, n, o) : real_pwrite()(fd, b, n, o); }
    ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
    ssize_t writev(int fd, const struct iovec* v, int c)
    {
        if (!VFDP(fd)) return real_writev()(fd, v, c);
        // one call of the operating system: a single fault decision for the joined data
        str all;
        { Host h; for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len); }
        ssize_t r = vwrite(fd, all.data(), all.size());
        int e = errno;
        { Host h; str().swap(all); }
        errno = e;
        return r;
    }
    ssize_t readv(int fd, const struct iovec* v, int c)
    {
        if (!VFDP(fd)) return real_readv()(fd, v, c);
        return c ? vread(fd, v[0].iov_base, v[0].iov_len) : 0;
    }
    off_t lseek(int fd, off_t o, int w) { return VFDP(fd) ? vseek(fd, o, w) : real_lseek()(fd, o, w); }
    off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
    int close(int fd) { return VFDP(fd) ? vclose(fd) : real_close()(fd); }
    int fstat(int fd, struct stat* st) { return VFDP(fd) ? vfstat(fd, st) : real_fstat()(fd, st); }
    int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
    int stat(const char* p, struct stat* st) { return mine(p) ? vstat(p, st) : real_stat()(p, st); }
    int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
    int lstat(const char* p, struct stat* st) { return mine(p) ? vstat(p, st, false) : real_lstat()(p, st); }
    int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
    int fstatat(int d, const char* p, struct stat* st, int fl)
    {
        if (mine(p) && (p[0] == '/' || d == AT_FDCWD)) return vstat(p, st, !(fl & AT_SYMLINK_NOFOLLOW));
        if (VFDP(d))
        {
            if (!p[0]) return vfstat(d, st);
            Host h;
            Ofd* o = ofd(d, "fstatat");
            if (!o) return -1;
            return vstat(o->path + "/" + p, st, !(fl & AT_SYMLINK_NOFOLLOW));
        }
        return real_fstatat()(d, p, st, fl);
    }
    int fstatat64(int d, const char* p, struct stat64* st, int fl) { return fstatat(d, p, (struct stat*)st, fl); }
    int access(const char* p, int m)
    {
        if (!mine(p)) return real_access()(p, m);
        struct stat st;
        return vstat(p, &st);
    }
    int faccessat(int d, const char* p, int m, int fl)
    {
        if (!mine(p)) return real_faccessat()(d, p, m, fl);
        struct stat st;
        return vstat(p, &st);
    }
    int unlink(const char* p)
    {
        if (!mine(p)) return real_unlink()(p);
        Host h;
        tick("unlink");
        if (!lookup(p)) { errno = ENOENT; return -1; }
        removePath(p);
        return 0;
    }
    int remove(const char* p) { return mine(p) ? unlink(p) : real_remove()(p); }
    int rename(const char* a, const char* b)
    {
        if (!mine(a) || !mine(b)) return real_rename()(a, b);
        Host h;
        tick("rename");
        if (simple("rename")) return -1;
        N n = lookup(a);
        str leaf;
        N d = parentOf(b, leaf);
        if (!n || !d) { errno = ENOENT; return -1; }
        removePath(a);
        d->kids[leaf] = n;
        return 0;
    }
    int mkdir(const char* p, mode_t m) { if (!mine(p)) return real_mkdir()(p, m); Host h; tick("mkdir"); mkdirs(p); return 0; }
    int fsync(int fd) { if (!VFDP(fd)) return real_fsync()(fd); Host h; tick("fsync"); return simple("fsync") ? -1 : 0; }
    int fdatasync(int fd) { if (!VFDP(fd)) return real_fdatasync()(fd); return fsync(fd); }
    int ftruncate(int fd, off_t n)
    {
        if (!VFDP(fd)) return real_ftruncate()(fd, n);
        Host h;
        tick("ftruncate");
        Ofd* o = ofd(fd, "ftruncate");
        if (!o || !o->node) return -1;
        if (simple("truncate")) return -1;
        o->node->data.resize(n);
        return 0;
    }
    int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }

    // ------------------------------------------------------------ directories
    DIR* opendir(const char* p)
    {
        if (!mine(p)) return real_opendir()(p);
        int fd = vopen(p, O_RDONLY | O_DIRECTORY, "opendir");
        if (fd < 0) return 0;
        Host h;
        return makeDir(fd);
    }
    DIR* fdopendir(int fd)
    {
        if (!VFDP(fd)) return real_fdopendir()(fd);
        Host h;
        Ofd* o = ofd(fd, "fdopendir");
        if (!o) return 0;
        if (simple("fdopendir")) return 0;
        return makeDir(fd);
    }
    struct dirent* readdir(DIR* d)
    {
        VDir* v = vdir(d);
        if (!v) return real_readdir()(d);
        Host h;
        tick("readdir");
        if (!v->open) { S->misuse++; S->misuseWhat += "readdir on a closed directory; "; return 0; }
        if (simple("readdir")) return 0;
        if (v->at >= v->ents.size()) return 0;
        memset(&v->de, 0, sizeof v->de);
        snprintf(v->de.d_name, sizeof v->de.d_name, "%s", v->ents[v->at].first.c_str());
        v->de.d_type = v->ents[v->at].second;
        v->de.d_ino = v->at + 100;
        v->at++;
        return &v->de;
    }
    struct dirent64* readdir64(DIR* d) { return (struct dirent64*)readdir(d); }
    int closedir(DIR* d)
    {
        VDir* v = vdir(d);
        if (!v) return real_closedir()(d);
        Host h;
        if (!v->open) { S->misuse++; S->misuseWhat += "closedir twice; "; return -1; }
        v->open = false;
        return vclose(v->fd);
    }
    int dirfd(DIR* d) { VDir* v = vdir(d); return v ? v->fd : real_dirfd()(d); }
    char* getcwd(char* b, size_t n)
    {
        if (!vos::gActive || S->cwd.empty()) return real_getcwd()(b, n);
        { Host h; tick("getcwd"); if (simple("getcwd")) return 0; }
        if (!b) return strdup(S->cwd.c_str());
        if (S->cwd.size() + 1 > n) { errno = ERANGE; return 0; }
        return strcpy(b, S->cwd.c_str());
    }
    char* realpath(const char* p, char* out)
    {
        if (!mine(p)) return real_realpath()(p, out);
        str r;
        {
            Host h;
            if (!lookup(p)) { errno = ENOENT; return 0; }
            for (auto& w : parts(p)) r += "/" + w;
        }
        char* o = out ? strcpy(out, r.c_str()) : strdup(r.c_str());
        Host h;
        str().swap(r);
        return o;
    }
    ssize_t readlink(const char* p, char* b, size_t n)
    {
        if (!mine(p)) return real_readlink()(p, b, n);
        Host h;
        errno = lookup(p) ? EINVAL : ENOENT;
        return -1;
    }

    // ------------------------------------------------------------ children
    FILE* popen(const char* cmd, const char* mode)
    {
        if (!vos::gActive) return real_popen()(cmd, mode);
        int fd;
        {
            Host h;
            tick("popen");
            sim::trace("popen %s", cmd);
            if (simple("popen")) return 0;
            fd = newFd(PIPEW, 0);
            if (fd < 0) return 0;
            auto c = std::make_shared<Child>();
            c->command = cmd;
            c->stopsAfter = S->childStop;
            S->childStop = -1;
            S->kids.push_back(c);
            S->fd[fd - VFD].child = c;
            S->fd[fd - VFD].path = "pipe to " + str(cmd);
        }
        FILE* f = stream(fd, mode, true);
        Host h;
        S->popened.insert(f);
        return f;
    }
    int pclose(FILE* f)
    {
        if (!vos::gActive) return real_pclose()(f);
        int fd = streamFd(f);
        if (fd < 0) { Host h; S->misuse++; S->misuseWhat += "pclose of something not open; "; errno = EBADF; return -1; }
        { Host h; if (!S->popened.count(f)) { S->misuse++; S->misuseWhat += "pclose of an ordinary stream; "; } S->files.erase(f); S->popened.erase(f); }
        return real_fclose()(f);
    }

    // ------------------------------------------------------------ clocks
    int clock_gettime(clockid_t c, struct timespec* t)
    {
        if (!vos::gActive || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return real_clock_gettime()(c, t);
        long long n = S->now;
        if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) n += S->wall;
        if (n < 0) n = 0;
        t->tv_sec = n / 1000000000;
        t->tv_nsec = n % 1000000000;
        return 0;
    }
    int gettimeofday(struct timeval* t, void* z)
    {
        if (!vos::gActive) return real_gettimeofday()(t, z);
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        t->tv_sec = ts.tv_sec;
        t->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    time_t time(time_t* o)
    {
        if (!vos::gActive) return real_time()(o);
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        if (o) *o = ts.tv_sec;
        return ts.tv_sec;
    }
    int nanosleep(const struct timespec* a, struct timespec* b)
    {
        if (!vos::gActive) return real_nanosleep()(a, b);
        vos::advance(a->tv_sec * 1000000000ull + a->tv_nsec);
        return 0;
    }
    int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b)
    {
        if (!vos::gActive) return real_clock_nanosleep()(c, fl, a, b);
        vos::advance(a->tv_sec * 1000000000ull + a->tv_nsec);
        return 0;
    }
    int usleep(useconds_t u) { if (!vos::gActive) return real_usleep()(u); vos::advance(u * 1000ull); return 0; }

    // ------------------------------------------------------------ dynamic loader
    void* dlopen(const char* p, int fl)
    {
        if (!vos::gActive || !p || strncmp(p, "lib", 3) || strchr(p, '/')) return real_dlopen()(p, fl);
        Host h;
        tick("dlopen");
        sim::trace("dlopen %s", p);
        gDlHas = false;
        DlHandle* d = 0;
        if (simple("dlopen"))
        {
            snprintf(gDlErr, sizeof gDlErr, "%s", str(str(p) + ": cannot open shared object file: simulated").c_str());
            gDlHas = true;
            S->dlev.push_back({ "openfail", p });
            return 0;
        }
        if (!strncmp(p, "libprobe", 8) || !strncmp(p, "libnofactory", 12))
            d = new DlHandle{ true, 0, p };
        else
        {
            str full = modDir + p;
            void* r;
            {
                sim::gNoTrack++;
                r = real_dlopen()(full.c_str(), fl);
                sim::gNoTrack--;
                if (simLoader) simLoader();
            }
            if (!r)
            {
                snprintf(gDlErr, sizeof gDlErr, "%s", str(str(p) + ": cannot open shared object file: No such file or directory").c_str());
                gDlHas = true;
                real_dlerror()();
                S->dlev.push_back({ "openfail", p });
                return 0;
            }
            d = new DlHandle{ true, r, p };
        }
        S->dl.push_back(d);
        S->dlev.push_back({ "open", p });
        return d;
    }
    int dlclose(void* hd)
    {
        if (!vos::gActive) return real_dlclose()(hd);
        for (auto d : S->dl)
            if (d == hd)
            {
                Host h;
                tick("dlclose");
                if (!d->open) { S->misuse++; S->misuseWhat += "dlclose twice of " + d->name + "; "; return -1; }
                d->open = false;
                S->dlev.push_back({ "close", d->name });
                sim::trace("dlclose %s", d->name.c_str());
                if (d->real) { if (simLoader) simLoader(); sim::gNoTrack++; real_dlclose()(d->real); sim::gNoTrack--; }
                return 0;
            }
        if (!hd) { Host h; S->misuse++; S->misuseWhat += "dlclose of nothing; "; return -1; }
        return real_dlclose()(hd);
    }
    char* dlerror(void)
    {
        if (!vos::gActive) return real_dlerror()();
        if (gDlHas) { gDlHas = false; return gDlErr; }
        return 0;
    }

    // ------------------------------------------------------------ stack walker
    int backtrace(void** b, int n)
    {
        if (!vos::gActive || S->stackReal) return real_backtrace()(b, n);
        int k = std::min<int>(n, S->symbols.size());
        for (int i = 0; i < k; i++) b[i] = (void*)(0x1000l + i);
        return k;
    }
    char** backtrace_symbols(void* const* b, int n)
    {
        if (!vos::gActive || S->stackReal) return real_backtrace_symbols()(b, n);
        if (S->symFail) { sim::count("fault.backtrace_symbols.null"); S->fired++; return 0; }
        size_t tot = n * sizeof(char*);
        for (int i = 0; i < n; i++) tot += S->symbols[i].size() + 1;
        char** r = (char**)malloc(tot ? tot : 1);
        char* at = (char*)(r + n);
        for (int i = 0; i < n; i++)
        {
            r[i] = at;
            strcpy(at, S->symbols[i].c_str());
            at += S->symbols[i].size() + 1;
        }
        return r;
    }
    char* __cxa_demangle(const char* m, char* buf, size_t* n, int* st)
    {
        if (vos::gActive && !S->stackReal)
        {
            Host h;
            FaultHit f = check("demangle");
            if (f.hit) { hard("demangle.nomem"); if (st) *st = -1; return 0; }
        }
        return real___cxa_demangle()(m, buf, n, st);
    }
}

// The library is compiled with -Ddlsym=sim_dlsym (build.py): the real dlsym cannot be interposed
// without breaking RTLD_NEXT for everybody else.
extern "C" void* sim_dlsym(void* hd, const char* name)
{
    if (!vos::gActive) return dlsym(hd, name);
    for (auto d : S->dl)
        if (d == hd)
        {
            Host h;
            tick("dlsym");
            gDlHas = false;
            if (!d->open) { S->misuse++; S->misuseWhat += "dlsym after dlclose of " + d->name + "; "; }
            if (simple("dlsym") || !d->name.compare(0, 12, "libnofactory") || (!d->name.compare(0, 8, "libprobe") && strcmp(name, "factory")))
            {
                snprintf(gDlErr, sizeof gDlErr, "%s", str(d->name + ": undefined symbol: " + name).c_str());
                gDlHas = true;
                return 0;
            }
            if (!d->name.compare(0, 8, "libprobe")) return S->probe;
            void* r = dlsym(d->real, name);
            if (!r) { snprintf(gDlErr, sizeof gDlErr, "%s", str(d->name + ": undefined symbol: " + name).c_str()); gDlHas = true; real_dlerror()(); }
            return r;
        }
    return dlsym(hd, name);
}
