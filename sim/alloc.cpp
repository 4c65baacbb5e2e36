// Allocator seam: operator new/delete are ours (over ASan's malloc, so that every access stays
// checked).  Blocks allocated while the code under test runs are tracked, filled with seeded junk,
// and may be made to fail.
#include "sim.h"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>
#include <execinfo.h>
#include <sys/mman.h>
#include <dlfcn.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));

namespace sim
{
    int gInSut = 0;
    int gNoTrack = 0;      // inside library calls whose caches we do not account for

    namespace alloc
    {
        struct Slot { const void* p; size_t n; size_t seq; int kind; void* pc[6]; };
        static const size_t CAP = 1 << 17;
        static Slot* tab = 0;
        static size_t nLive, bLive, seqNo, total;
        static long nNews, failFrom, failBurst, nFailed;
        static size_t capBytes = (size_t)1 << 30;
        static u64 junk;
        static bool hooked;
        static int curKind;    // 0 malloc, 1 new, 2 new[]

        static size_t slotOf(const void* p) { return mix((u64)p, 77) & (CAP - 1); }
        static Slot* find(const void* p)
        {
            for (size_t i = slotOf(p);; i = (i + 1) & (CAP - 1))
            {
                if (!tab[i].p) return 0;
                if (tab[i].p == p) return &tab[i];
            }
        }
        static void insert(const void* p, size_t n)
        {
            if (nLive > CAP / 2) fail("runaway-blocks", "more than %zu live blocks", nLive);
            size_t i = slotOf(p);
            while (tab[i].p) i = (i + 1) & (CAP - 1);
            Slot& s = tab[i];
            s.p = p; s.n = n; s.seq = ++seqNo; s.kind = curKind;
            memset(s.pc, 0, sizeof s.pc);
            // cheap frame pointer walk: enough to name the site of a leak
            void** fp = (void**)__builtin_frame_address(0);
            for (int d = 0; d < 6 && fp; d++)
            {
                s.pc[d] = fp[1];
                void** nx = (void**)fp[0];
                if (nx <= fp || (char*)nx - (char*)fp > 100000) break;
                fp = nx;
            }
            nLive++; bLive += n;
        }
        static void erase(Slot* s)
        {
            nLive--; bLive -= s->n;
            size_t i = s - tab;
            for (;;)
            {
                tab[i].p = 0;
                size_t j = i;
                for (;;)
                {
                    j = (j + 1) & (CAP - 1);
                    if (!tab[j].p) return;
                    size_t k = slotOf(tab[j].p);
                    if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
                    break;
                }
                tab[i] = tab[j];
                i = j;
            }
        }
        static void mallocHook(const volatile void* p, size_t n)
        {
            if (!gInSut || gNoTrack || !p) return;
            total += n;
            if (bLive + n > capBytes || total > 16 * capBytes)
            {
                gInSut = 0;
                fail("runaway-memory", "live %zu + %zu bytes, %zu in all", bLive, n, total);
            }
            insert((const void*)p, n);
        }
        static void freeHook(const volatile void* p)
        {
            if (!tab || !nLive || !p) return;
            Slot* s = find((const void*)p);
            if (s) erase(s);
        }

        void begin(u64 junkSeed)
        {
            if (!tab)
                tab = (Slot*)mmap(0, CAP * sizeof(Slot), PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (!hooked) { __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook); hooked = true; }
            forget();
            seqNo = total = 0; nNews = 0; failFrom = 0; failBurst = 0; nFailed = 0;
            junk = junkSeed;
            capBytes = (size_t)512 << 20;
        }
        void forget()
        {
            if (nLive) madvise(tab, CAP * sizeof(Slot), MADV_DONTNEED);
            nLive = bLive = 0;
        }
        void failAt(long nth, long burst) { failFrom = nNews + nth; failBurst = burst; nFailed = 0; }
        void heal() { failFrom = 0; }
        long failed() { return nFailed; }
        long news() { return nNews; }
        size_t liveBlocks() { return nLive; }
        size_t liveBytes() { return bLive; }
        size_t mark() { return seqNo; }
        void setCap(size_t b) { capBytes = b; }
        str liveList(int max)
        {
            str r;
            for (size_t i = 0; i < CAP && max > 0; i++)
                if (tab[i].p)
                {
                    char b[200];
                    snprintf(b, sizeof b, "[%zu bytes, #%zu of the run, from", tab[i].n, tab[i].seq);
                    r += b;
                    for (int d = 1; d < 6 && tab[i].pc[d]; d++)
                    {
                        Dl_info di;
                        if (dladdr(tab[i].pc[d], &di) && di.dli_sname) { r += " "; r += di.dli_sname; }
                        else if (dladdr(tab[i].pc[d], &di) && di.dli_fname)
                        {
                            const char* f = strrchr(di.dli_fname, '/');
                            snprintf(b, sizeof b, " %s+%lx", f ? f + 1 : di.dli_fname,
                                     (long)((char*)tab[i].pc[d] - (char*)di.dli_fbase));
                            r += b;
                        }
                    }
                    r += "] ";
                    max--;
                }
            return r;
        }

        static void* get(size_t n, int kind, size_t align = 0)
        {
            if (gInSut)
            {
                ++nNews;
                if (failFrom && nNews >= failFrom && (failBurst < 0 || nNews < failFrom + failBurst))
                {
                    nFailed++;
                    count("fault.alloc");
                    return 0;
                }
                // Runaway sizes are refused like a real system would refuse them
                if (n > ((size_t)1 << 32)) return 0;
            }
            curKind = kind;
            void* p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
            curKind = 0;
            if (p && gInSut)
            {
                u64 j = mix(junk, nNews);
                unsigned char* c = (unsigned char*)p;
                size_t lim = n < 4096 ? n : 4096;
                for (size_t i = 0; i < lim; i++) { c[i] = (unsigned char)(j >> ((i & 7) * 8)); if ((i & 7) == 7) j = j * 6364136223846793005ull + 1442695040888963407ull; }
            }
            return p;
        }
        static void* getOrThrow(size_t n, int kind, size_t align = 0)
        {
            void* p = get(n, kind, align);
            if (!p) throw std::bad_alloc();
            return p;
        }
        static void put(void* p, int kind)
        {
            if (!p) return;
            if (nLive)
            {
                Slot* s = find(p);
                if (s && s->kind != kind)
                {
                    gInSut = 0;
                    fail("mismatched-release", "block obtained as kind %d released as kind %d", s->kind, kind);
                }
            }
            free(p);
        }
    }
}

using namespace sim::alloc;
void* operator new(size_t n) { return getOrThrow(n, 1); }
void* operator new[](size_t n) { return getOrThrow(n, 2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 2); }
void operator delete(void* p) noexcept { put(p, 1); }
void operator delete[](void* p) noexcept { put(p, 2); }
void operator delete(void* p, size_t) noexcept { put(p, 1); }
void operator delete[](void* p, size_t) noexcept { put(p, 2); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p, 1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p, 2); }
void* operator new(size_t n, std::align_val_t a) { return getOrThrow(n, 1, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return getOrThrow(n, 2, (size_t)a); }
void operator delete(void* p, std::align_val_t) noexcept { put(p, 1); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p, 2); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p, 1); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p, 2); }
