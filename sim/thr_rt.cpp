// Runtime of the simulated threads.  The library is compiled with -fsanitize=thread, but what its
// instrumentation calls is defined here: every call is a point at which the schedule may switch to
// another thread, every access to tracked memory (what the library allocated, and its own static
// data) is checked for being ordered after conflicting accesses by what the threads synchronised
// on (vector clocks), and for falling into live memory.
#include "thr.h"
#include "vos.h"
#include <cerrno>
#include <cxxabi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <clocale>
#include <map>
#include <new>
#include <set>
#include <vector>
#include <dlfcn.h>
#include <execinfo.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

using sim::str;
using sim::u64;
typedef uint32_t u32;

namespace sim
{
    int gInSut = 0;
    int gNoTrack = 0;
}
using sim::gInSut;
using sim::gNoTrack;
using thr::MAXT;

namespace
{
    // ------------------------------------------------------------ tracked memory
    struct Cell { u32 w; u32 r[MAXT]; unsigned char wt; unsigned char st; };   // one byte of it
    enum { NOMEM = 0, LIVE = 1, FREED = 2 };
    struct Area { char* lo; char* hi; Cell* c; bool heap; char name[80]; };
    static const size_t ARENA = 256u << 20;
    static Area gArea[40];
    static int nArea = 0;
    static char* gArena = 0;
    static char* gTop = 0;
    static bool gTrack = false;
    struct Head { size_t n; int kind; int tid; void* pc[4]; u32 magic; u32 pad; };
    static size_t gLive, gLiveBytes, gNews, gSeq;

    Cell* cells(size_t n) { return (Cell*)mmap(0, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    void makeArena()
    {
        if (gArena) return;
        gArena = (char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        gTop = gArena;
        gArea[0].lo = gArena; gArea[0].hi = gArena + ARENA; gArea[0].c = cells(ARENA); gArea[0].heap = true;
        nArea = 1;
    }
    // where code of the library lies, so that places in it have the same name in every process
    struct Code { char* lo; char* hi; char* base; u64 name; };
    static Code gCode[24];
    static int nCode = 0;
    void addCode(char* base, size_t at, size_t n, const char* name)
    {
        int k = 0;
        while (k < nCode && gCode[k].lo != base + at) k++;
        if (k == 24) return;
        if (k == nCode) nCode++;
        u64 h = 0;
        for (; *name; name++) h = h * 131 + *name;
        gCode[k] = { base + at, base + at + n, base, h };
    }
    u64 codePlace(const void* p)
    {
        for (int k = 0; k < nCode; k++) if ((char*)p >= gCode[k].lo && (char*)p < gCode[k].hi) return sim::mix(gCode[k].name, (char*)p - gCode[k].base);
        return 0;
    }
    int onSeg(struct dl_phdr_info* i, size_t, void*)
    {
        const char* n = i->dlpi_name ? i->dlpi_name : "";
        const char* b = strrchr(n, '/');
        b = b ? b + 1 : n;
        if (strcmp(b, "libube.so") && !strstr(n, "/mods/")) return 0;
        for (int k = 0; k < i->dlpi_phnum; k++)
        {
            const ElfW(Phdr)& p = i->dlpi_phdr[k];
            if (p.p_type == PT_LOAD && (p.p_flags & PF_X)) addCode((char*)i->dlpi_addr, p.p_vaddr, p.p_memsz, b);
            if (p.p_type != PT_LOAD || !(p.p_flags & PF_W) || nArea >= 40) continue;
            char* lo = (char*)i->dlpi_addr + p.p_vaddr;
            char* hi = lo + p.p_memsz;
            int a = 1;
            while (a < nArea && gArea[a].lo != lo) a++;
            if (a < nArea && gArea[a].hi == hi && !strcmp(gArea[a].name, b)) continue;
            if (a == nArea) nArea++;
            else munmap(gArea[a].c, (gArea[a].hi - gArea[a].lo) * sizeof(Cell));
            gArea[a].lo = lo; gArea[a].hi = hi; gArea[a].c = cells(hi - lo); gArea[a].heap = false;
            snprintf(gArea[a].name, sizeof gArea[a].name, "%s", b);
        }
        return 0;
    }

    // ------------------------------------------------------------ threads
    struct Clock { u32 t[MAXT] = { 0, 0, 0, 0 }; };
    struct Thread
    {
        sem_t sem;
        pthread_t th;
        bool done = false;
        const void* waits = 0;
        int inSut = 0, noTrack = 0;
        long failFrom = 0, failBurst = 0, nFailed = 0, nNews = 0;
        Clock c;
        std::function<void()> body;
        u64 at = 0;           // where in the library it was stopped
    };
    static const void* gAt = 0;
    static Thread* gT = 0;
    static int gN = 0, gCur = -1;
    static bool gRun = false;
    static u64 gEvents, gSwitches, gPairs, gSince;
    static std::vector<thr::Switch> gSched;
    static size_t gNext;
    static long gEvery;
    static sem_t gMain;
    static std::map<const void*, Clock>* gSync;
    struct Mutex { int owner = -1; int depth = 0; int readers = 0; };
    static std::map<const void*, Mutex>* gMutex;

    void join(Clock& a, const Clock& b) { for (int i = 0; i < MAXT; i++) if (b.t[i] > a.t[i]) a.t[i] = b.t[i]; }

    void switchTo(int to)
    {
        // to the next one that can run, beginning with the one asked for
        int k = -1;
        for (int i = 0; i < gN; i++)
        {
            int c = (to + i) % gN;
            if (!gT[c].done && !gT[c].waits) { k = c; break; }
        }
        int me = gCur;
        if (k < 0)
        {
            bool all = true;
            for (int i = 0; i < gN; i++) if (!gT[i].done) all = false;
            if (all) { gRun = false; sem_post(&gMain); return; }
            sim::fail("deadlock", "every thread waits for another");
        }
        if (k == me) return;
        gSwitches++;
        gPairs |= 1ull << (me * MAXT + k);
        gT[me].at = codePlace(gAt);
        if (gSwitches < 1000) sim::state(sim::mix(gT[me].at, gT[k].at));
        gT[me].inSut = gInSut;
        gT[me].noTrack = gNoTrack;
        gCur = k;
        gInSut = gT[k].inSut;
        gNoTrack = gT[k].noTrack;
        sem_post(&gT[k].sem);
        if (!gT[me].done) while (sem_wait(&gT[me].sem)) {}
    }
    void* body(void* p)
    {
        long me = (long)p;
        while (sem_wait(&gT[me].sem)) {}
        gT[me].body();
        gInSut = 0;
        gT[me].done = true;
        switchTo((me + 1) % gN);
        return 0;
    }
    inline void event()
    {
        gEvents++;
        gSince++;
        if (gNoTrack) return;
        if (gNext < gSched.size())
        {
            if ((long)gSince >= gSched[gNext].after)
            {
                int to = gSched[gNext++].to;
                gSince = 0;
                switchTo(to % gN);
            }
        }
        else if (gEvery > 0 && (long)gSince >= gEvery)
        {
            gSince = 0;
            switchTo((gCur + 1) % gN);
        }
        else if (gSince > 3000000) { gSince = 0; switchTo((gCur + 1) % gN); }
    }
    void block(const void* on)
    {
        gT[gCur].waits = on;
        switchTo((gCur + 1) % gN);
    }
    void wake(const void* on) { for (int i = 0; i < gN; i++) if (gT[i].waits == on) gT[i].waits = 0; }
    // the current thread has seen / shows what happened on this object
    void acquire(const void* p)
    {
        int s = gInSut; gInSut = 0;
        join(gT[gCur].c, (*gSync)[p]);
        gInSut = s;
    }
    void release(const void* p)
    {
        int s = gInSut; gInSut = 0;
        join((*gSync)[p], gT[gCur].c);
        gT[gCur].c.t[gCur]++;
        gInSut = s;
    }
    str place(const void* pc)
    {
        Dl_info d;
        if (!pc || !dladdr(pc, &d)) return "?";
        str r;
        char b[300];
        if (d.dli_sname)
        {
            int st = 0;
            snprintf(b, sizeof b, "%s+%lx", d.dli_sname, (long)((char*)pc - (char*)d.dli_saddr));
            r = b;
        }
        const char* f = d.dli_fname ? strrchr(d.dli_fname, '/') : 0;
        snprintf(b, sizeof b, "(%s+%lx)", f ? f + 1 : "?", (long)((char*)pc - (char*)d.dli_fbase));
        return r + b;
    }
    static str stackOf(void* fp0)
    {
        str r;
        void** fp = (void**)fp0;
        for (int d = 0; d < 8 && fp; d++)
        {
            r += place(fp[1]) + " < ";
            void** nx = (void**)fp[0];
            if (nx <= fp || (char*)nx - (char*)fp > 100000) break;
            fp = nx;
        }
        return r;
    }
    [[noreturn]] __attribute__((noinline)) void bad(const char* cls, Area& a, char* p, bool write, const char* how, void* fp)
    {
        gInSut = 0;
        str where = a.heap ? "allocated memory" : str("static data of ") + a.name;
        if (!a.heap) { Dl_info d; if (dladdr(p, &d) && d.dli_sname) where += str(" ") + d.dli_sname; char b[40]; snprintf(b, sizeof b, " +%lx", (long)(p - a.lo)); where += b; }
        else
        {
            // the block it lies in
            for (char* q = p; q > a.lo && p - q < 70000; q -= 8)
            {
                Head* h = (Head*)((u64)q & ~7ull);
                if (h->magic == 0x51a7b10c && (char*)(h + 1) <= p && p < (char*)(h + 1) + h->n + 16)
                {
                    char b[100];
                    snprintf(b, sizeof b, ", byte %ld of a block of %zu made by thread %d at ", (long)(p - (char*)(h + 1)), h->n, h->tid);
                    where += b;
                    for (auto x : h->pc) where += place(x) + " < ";
                    break;
                }
            }
        }
        sim::fail(cls, "thread %d %s %s: %s; at %s", gCur, write ? "writes" : "reads", where.c_str(), how, stackOf(fp).c_str());
    }
    static const int RACEMSG = 200;
    inline Area* areaOf(char* p)
    {
        for (int i = 0; i < nArea; i++) if (p >= gArea[i].lo && p < gArea[i].hi) return &gArea[i];
        return 0;
    }
    __attribute__((noinline)) void check(char* p, size_t n, bool write, void* fp, bool atomic = false)
    {
        Area* a = areaOf(p);
        if (!a) return;
        if (p + n > a->hi) n = a->hi - p;
        Cell* c = a->c + (p - a->lo);
        Clock& me = gT[gCur].c;
        for (size_t i = 0; i < n; i++, c++)
        {
            if (a->heap && c->st != LIVE)
                bad(c->st == FREED ? "use-after-release" : "out-of-bounds", *a, p + i, write, c->st == FREED ? "released before" : "outside of any block", fp);
            if (atomic) continue;
            if (c->w && c->wt != gCur && me.t[c->wt] < c->w)
            {
                char b[RACEMSG];
                snprintf(b, sizeof b, "thread %d wrote it without any order between the two", c->wt);
                bad("data-race", *a, p + i, write, b, fp);
            }
            if (write)
            {
                for (int t = 0; t < gN; t++)
                    if (t != gCur && c->r[t] && me.t[t] < c->r[t])
                    {
                        char b[RACEMSG];
                        snprintf(b, sizeof b, "thread %d read it without any order between the two", t);
                        bad("data-race", *a, p + i, write, b, fp);
                    }
                c->w = me.t[gCur];
                c->wt = gCur;
            }
            else c->r[gCur] = me.t[gCur];
        }
    }
    // Hidden state of the C library, as memory of its own
    static char gHidden[64];
    static Cell gHiddenCell[64];
    void hidden(int k, bool write, const char* what)
    {
        if (!gRun || !gInSut) return;
        Cell& c = gHiddenCell[k];
        Clock& me = gT[gCur].c;
        bool race = c.w && c.wt != gCur && me.t[c.wt] < c.w;
        if (write) for (int t = 0; t < gN; t++) if (t != gCur && c.r[t] && me.t[t] < c.r[t]) race = true;
        if (race) { str s = stackOf(__builtin_frame_address(0)); gInSut = 0; sim::fail("data-race", "two threads use the hidden state of %s without any order between them; at %s", what, s.c_str()); }
        if (write) { c.w = me.t[gCur]; c.wt = gCur; }
        else c.r[gCur] = me.t[gCur];
        event();
    }
    inline void access(void* p, size_t n, bool write, void* fp)
    {
        if (!gRun || !gInSut) return;
        gAt = ((void**)fp)[1];
        event();
        if (gTrack && !gNoTrack) check((char*)p, n, write, fp);
    }
}

// what happens between threads inside the loader is ordered by its lock
extern "C" void simYield()
{
    if (gRun && gCur >= 0 && !gNoTrack) { int s = gInSut; gInSut = 0; event(); gInSut = s; }
}
extern "C" void simLoader()
{
    if (!gRun) return;
    static char lock;
    acquire(&lock);
    release(&lock);
    // what was mapped may have changed
    int s = gInSut; gInSut = 0;
    dl_iterate_phdr(onSeg, 0);
    gInSut = s;
}

namespace thr
{
    void run(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& schedule, long every)
    {
        static Thread* threads = new Thread[MAXT];
        gT = threads;
        gN = bodies.size();
        gSched = schedule;
        gNext = 0;
        gEvery = every;
        gEvents = gSwitches = gPairs = gSince = 0;
        if (!gSync) gSync = new std::map<const void*, Clock>;
        if (!gMutex) gMutex = new std::map<const void*, Mutex>;
        gSync->clear();
        gMutex->clear();
        makeArena();
        dl_iterate_phdr(onSeg, 0);
        sem_init(&gMain, 0, 0);
        for (int i = 0; i < gN; i++)
        {
            gT[i] = Thread();
            gT[i].body = bodies[i];
            sem_init(&gT[i].sem, 0, 0);
            for (int k = 0; k < MAXT; k++) gT[i].c.t[k] = 1;    // all see what happened before
            gT[i].c.t[i] = 2;
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 4 << 20);
            if (pthread_create(&gT[i].th, &at, body, (void*)(long)i)) sim::harness("no thread");
        }
        gTrack = true;
        gCur = 0;
        gRun = true;
        sem_post(&gT[0].sem);
        while (sem_wait(&gMain)) {}
        gRun = false;
        gCur = -1;
        for (int i = 0; i < gN; i++) pthread_join(gT[i].th, 0);
        gInSut = gNoTrack = 0;
        gTrack = false;
    }
    int self() { return gRun ? gCur : -1; }
    static Thread gSolo;
    static Thread& me() { return gRun ? gT[gCur] : gSolo; }
    void failAt(long nth, long burst) { Thread& t = me(); t.failFrom = t.nNews + nth; t.failBurst = burst; t.nFailed = 0; }
    void heal() { me().failFrom = 0; }
    long failed() { return me().nFailed; }
    u64 events() { return gEvents; }
    u64 switches() { return gSwitches; }
    u64 overlap() { return gPairs; }
    static bool refuse()
    {
        Thread& t = me();
        ++t.nNews;
        if (t.failFrom && t.nNews >= t.failFrom && (t.failBurst < 0 || t.nNews < t.failFrom + t.failBurst)) { t.nFailed++; sim::count("fault.alloc"); return true; }
        return false;
    }
}

// ------------------------------------------------------------ allocator
namespace sim { namespace alloc {
    void begin(u64) { makeArena(); gNews = gSeq = 0; gLive = gLiveBytes = 0; }
    void failAt(long n, long b) { thr::failAt(n, b); }
    void heal() { thr::heal(); }
    long failed() { return thr::failed(); }
    long news() { return gNews; }
    size_t liveBlocks() { return gLive; }
    size_t liveBytes() { return gLiveBytes; }
    size_t mark() { return gSeq; }
    void setCap(size_t) {}
    void forget() { gLive = gLiveBytes = 0; }
    // Boost keeps up to sixteen of its work blocks for the next expression
    size_t liveKept()
    {
        size_t n = 0;
        for (char* q = gArena; q < gTop; )
        {
            Head* h = (Head*)q;
            if (gArea[0].c[q + sizeof(Head) - gArena].st == LIVE && h->n == 4096)
                for (auto x : h->pc) if (place(x).find("boost") != str::npos) { n++; break; }
            q += sizeof(Head) + (h->n + 16 + 15) / 16 * 16;
        }
        return n > 16 ? 16 : n;
    }
    str liveList(int max)
    {
        str r;
        for (char* q = gArena; q < gTop && max > 0; )
        {
            Head* h = (Head*)q;
            if (gArea[0].c[q + sizeof(Head) - gArena].st == LIVE)
            {
                char b[100];
                snprintf(b, sizeof b, "[%zu bytes made by thread %d at ", h->n, h->tid);
                r += b;
                for (auto x : h->pc) r += place(x) + " < ";
                r += "] ";
                max--;
            }
            q += sizeof(Head) + (h->n + 16 + 15) / 16 * 16;
        }
        return r;
    }
} }
namespace
{
    void* get(size_t n, int kind)
    {
        if (!gInSut) return malloc(n ? n : 1);
        gNews++;
        if (thr::refuse()) return 0;
        if (n > (16u << 20)) return 0;
        size_t whole = sizeof(Head) + (n + 16 + 15) / 16 * 16;
        if (gTop + whole > gArena + ARENA) { gInSut = 0; sim::fail("runaway-memory", "more than %zu bytes allocated", ARENA); }
        Head* h = (Head*)gTop;
        gTop += whole;
        h->n = n; h->kind = kind; h->tid = gCur; h->magic = 0x51a7b10c;
        void** fp = (void**)__builtin_frame_address(0);
        for (int d = 0; d < 5 && fp; d++)
        {
            if (d) h->pc[d - 1] = fp[1];
            void** nx = (void**)fp[0];
            if (nx <= fp || (char*)nx - (char*)fp > 100000) break;
            fp = nx;
        }
        char* p = (char*)(h + 1);
        memset(p, 0xc5, n);
        Cell* c = gArea[0].c + (p - gArena);
        u32 now = gRun ? gT[gCur].c.t[gCur] : 0;
        for (size_t i = 0; i < n; i++) { c[i].st = LIVE; c[i].w = now; c[i].wt = gRun ? gCur : 0; }
        if (!n) c[0].st = LIVE;
        gLive++; gLiveBytes += n; gSeq++;
        return p;
    }
    void put(void* p, int kind)
    {
        if (!p) return;
        if (!gArena || (char*)p < gArena || (char*)p >= gArena + ARENA) { free(p); return; }
        Head* h = (Head*)p - 1;
        Cell* c = gArea[0].c + ((char*)p - gArena);
        if (h->magic != 0x51a7b10c) { gInSut = 0; sim::fail("bad-release", "release of something that is no block"); }
        if (c->st == FREED) bad("released-twice", gArea[0], (char*)p, true, "released before", __builtin_frame_address(0));
        if (h->kind != kind) { gInSut = 0; sim::fail("mismatched-release", "block obtained as kind %d released as kind %d", h->kind, kind); }
        if (gRun && gTrack && gInSut && !gNoTrack) check((char*)p, h->n, true, __builtin_frame_address(0));
        for (size_t i = 0; i < h->n; i++) c[i].st = FREED;
        if (!h->n) c->st = FREED;
        memset(p, 0xdd, h->n);
        gLive--; gLiveBytes -= h->n;
    }
    void* getOrThrow(size_t n, int kind) { void* p = get(n, kind); if (!p) throw std::bad_alloc(); return p; }
}
void* operator new(size_t n) { return getOrThrow(n, 1); }
void* operator new[](size_t n) { return getOrThrow(n, 2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 2); }
void operator delete(void* p) noexcept { put(p, 1); }
void operator delete[](void* p) noexcept { put(p, 2); }
void operator delete(void* p, size_t) noexcept { put(p, 1); }
void operator delete[](void* p, size_t) noexcept { put(p, 2); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p, 1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p, 2); }

// ------------------------------------------------------------ instrumentation
#define FP __builtin_frame_address(0)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) { if (gRun && gInSut) event(); }
    void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, FP); } \
    void __tsan_write##n(void* p) { access(p, n, true, FP); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, FP); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, FP); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, FP); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, FP); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, size_t n) { access(p, n, false, FP); }
    void __tsan_write_range(void* p, size_t n) { access(p, n, true, FP); }
    void __tsan_vptr_update(void** p, void*) { access(p, sizeof(void*), true, FP); }
    void __tsan_vptr_read(void** p) { access(p, sizeof(void*), false, FP); }

    static inline void atomic(const volatile void* p, size_t n)
    {
        if (!gRun || !gInSut) return;
        event();
        if (gTrack && !gNoTrack) check((char*)p, n, true, FP, true);
        acquire((const void*)p);
        release((const void*)p);
    }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { atomic(a, sizeof(T)); return *a; } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { atomic(a, sizeof(T)); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { atomic(a, sizeof(T)); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { atomic(a, sizeof(T)); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { atomic(a, sizeof(T)); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { atomic(a, sizeof(T)); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { atomic(a, sizeof(T)); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { atomic(a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { atomic(a, sizeof(T)); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atomic(a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atomic(a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atomic(a, sizeof(T)); T o = *a; if (o == c) *a = v; return o; }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
    AT(128, unsigned __int128)
    static char gFence;
    void __tsan_atomic_thread_fence(int) { atomic(&gFence, 1); }
    void __tsan_atomic_signal_fence(int) {}

    // ------------------------------------------------------------ block operations (the objects' references are renamed)
    void* sim_memcpy(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false, FP); access(d, n, true, FP); } return memcpy(d, s, n); }
    void* sim_memmove(void* d, const void* s, size_t n) { if (n) { access((void*)s, n, false, FP); access(d, n, true, FP); } return memmove(d, s, n); }
    void* sim_memset(void* d, int c, size_t n) { if (n) access(d, n, true, FP); return memset(d, c, n); }
    size_t sim_strlen(const char* s) { size_t n = strlen(s); access((void*)s, n + 1, false, FP); return n; }
    char* sim_strcpy(char* d, const char* s) { size_t n = strlen(s) + 1; access((void*)s, n, false, FP); access(d, n, true, FP); return strcpy(d, s); }
    int sim_memcmp(const void* a, const void* b, size_t n) { if (n) { access((void*)a, n, false, FP); access((void*)b, n, false, FP); } return memcmp(a, b, n); }

    // ------------------------------------------------------------ what the C library keeps between calls
    char* sim_strtok(char* s, const char* d) { hidden(0, true, "strtok"); return strtok(s, d); }
    struct tm* sim_localtime(const time_t* t) { hidden(1, true, "localtime"); return localtime(t); }
    struct tm* sim_gmtime(const time_t* t) { hidden(1, true, "gmtime"); return gmtime(t); }
    char* sim_asctime(const struct tm* t) { hidden(2, true, "asctime"); return asctime(t); }
    char* sim_ctime(const time_t* t) { hidden(1, true, "ctime"); hidden(2, true, "ctime"); return ctime(t); }
    char* sim_setlocale(int c, const char* l) { hidden(3, l != 0, "setlocale"); return setlocale(c, l); }
    int sim_setenv(const char* n, const char* v, int o) { hidden(4, true, "setenv"); return setenv(n, v, o); }
    int sim_putenv(char* s) { hidden(4, true, "putenv"); return putenv(s); }
    char* sim_getenv(const char* n) { hidden(4, false, "getenv"); return getenv(n); }
    int sim_rand() { hidden(5, true, "rand"); return rand(); }
    void sim_srand(unsigned s) { hidden(5, true, "srand"); srand(s); }
    double sim_drand48() { hidden(7, true, "drand48"); return drand48(); }

    // ------------------------------------------------------------ synchronisation
#define REALF(ret, name, ...) static ret (*real_##name(void))(__VA_ARGS__) { static ret (*f)(__VA_ARGS__) = 0; if (!f) f = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name); return f; }
    REALF(int, pthread_mutex_lock, pthread_mutex_t*)
    REALF(int, pthread_mutex_trylock, pthread_mutex_t*)
    REALF(int, pthread_mutex_unlock, pthread_mutex_t*)
    REALF(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
    REALF(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
    REALF(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*)
    REALF(int, pthread_rwlock_trywrlock, pthread_rwlock_t*)
    REALF(int, pthread_rwlock_unlock, pthread_rwlock_t*)
    REALF(int, pthread_once, pthread_once_t*, void (*)(void))
    REALF(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
    REALF(int, pthread_cond_signal, pthread_cond_t*)
    REALF(int, pthread_cond_broadcast, pthread_cond_t*)

    static Mutex& mu(const void* m) { int s = gInSut; gInSut = 0; Mutex& r = (*gMutex)[m]; gInSut = s; return r; }
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!gRun) return real_pthread_mutex_lock()(m);
        if (gInSut) event();
        Mutex& x = mu(m);
        int kind = m->__data.__kind & 3;
        if (x.owner == gCur)
        {
            if (kind == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; }
            if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        }
        while (x.owner >= 0) block(m);
        x.owner = gCur; x.depth = 1;
        acquire(m);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!gRun) return real_pthread_mutex_trylock()(m);
        if (gInSut) event();
        Mutex& x = mu(m);
        if (x.owner == gCur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; }
        if (x.owner >= 0) return EBUSY;
        x.owner = gCur; x.depth = 1;
        acquire(m);
        return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (!gRun) return real_pthread_mutex_unlock()(m);
        Mutex& x = mu(m);
        if (x.owner != gCur) return real_pthread_mutex_unlock()(m);
        if (--x.depth) return 0;
        release(m);
        x.owner = -1;
        wake(m);
        if (gInSut) event();
        return 0;
    }
    static int rw(pthread_rwlock_t* m, bool write, bool wait)
    {
        if (gInSut) event();
        Mutex& x = mu(m);
        while (x.owner >= 0 || (write && x.readers)) { if (!wait) return EBUSY; block(m); }
        if (write) x.owner = gCur; else x.readers++;
        acquire(m);
        return 0;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return gRun ? rw(m, false, true) : real_pthread_rwlock_rdlock()(m); }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return gRun ? rw(m, true, true) : real_pthread_rwlock_wrlock()(m); }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return gRun ? rw(m, false, false) : real_pthread_rwlock_tryrdlock()(m); }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return gRun ? rw(m, true, false) : real_pthread_rwlock_trywrlock()(m); }
    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        if (!gRun) return real_pthread_rwlock_unlock()(m);
        Mutex& x = mu(m);
        release(m);
        if (x.owner == gCur) x.owner = -1; else if (x.readers) x.readers--;
        wake(m);
        return 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!gRun) return real_pthread_cond_wait()(c, m);
        pthread_mutex_unlock(m);
        block(c);
        return pthread_mutex_lock(m);
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        if (!gRun) return real_pthread_cond_signal()(c);
        for (int i = 0; i < gN; i++) if (gT[i].waits == c) { gT[i].waits = 0; break; }
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if (!gRun) return real_pthread_cond_broadcast()(c);
        wake(c);
        return 0;
    }
    int pthread_once(pthread_once_t* o, void (*f)(void))
    {
        if (!gRun) return real_pthread_once()(o, f);
        if (gInSut) event();
        // kept in the object itself: 2 is done for the real one too; 1 (with 4) in progress
        while (*o == 1) block(o);
        if (*o == 2) { acquire(o); return 0; }
        *o = 1;
        try { f(); } catch (...) { *o = 0; wake(o); throw; }
        *o = 2;
        release(o);
        wake(o);
        return 0;
    }

}
namespace __cxxabiv1 { extern "C" {
    // Initialisation of local statics
    int __cxa_guard_acquire(__cxxabiv1::__guard* g)
    {
        char* b = (char*)g;
        if (gRun && gInSut) event();
        for (;;)
        {
            if (b[0]) { if (gRun) acquire(g); return 0; }
            if (!b[1]) { b[1] = 1; if (gRun) b[2] = gCur; return 1; }
            if (!gRun || b[2] == gCur) { gInSut = 0; sim::fail("deadlock", "a static is initialised from within its own initialisation"); }
            block(g);
        }
    }
    void __cxa_guard_release(__guard* g) throw()
    {
        char* b = (char*)g;
        b[0] = 1; b[1] = 0;
        if (gRun) { release(g); wake(g); }
    }
    void __cxa_guard_abort(__guard* g) throw()
    {
        char* b = (char*)g;
        b[1] = 0;
        if (gRun) { release(g); wake(g); }
    }
} }
