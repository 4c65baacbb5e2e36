// Plans, seeded execution in forked children, batches over seeds, replay and minimisation.
#include "sim.h"
#include "vos.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <regex>
#include <streambuf>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <csignal>
#include <unistd.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <time.h>

#ifndef SIM_THR
extern "C" void __asan_set_error_report_callback(void (*cb)(const char*));
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=77:symbolize=0:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=197:"
           "quarantine_size_mb=16:malloc_context_size=6:detect_odr_violation=0:print_legend=0:"
           "handle_abort=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:log_path=/dev/null";
}
#endif

namespace sim
{
    extern int gInSut;
    static bool gVerbose = false;

    u64 mix(u64 a, u64 b)
    {
        u64 x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
        x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
        return x;
    }
    u64 hash(const void* p, size_t n, u64 h)
    {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
        return h ^ (h >> 29);
    }
    u64 Rng::next()
    {
        s += 0x9e3779b97f4a7c15ull;
        u64 z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    // ---------------------------------------------------------------- plans
    str enc(const str& s)
    {
        if (s.empty()) return "%";
        str r;
        char b[8];
        for (unsigned char c : s)
            if (c > 32 && c < 127 && c != '%') r += (char)c;
            else { snprintf(b, sizeof b, "%%%02x", c); r += b; }
        return r;
    }
    str dec(const str& s)
    {
        if (s == "%") return "";
        str r;
        for (size_t i = 0; i < s.size(); i++)
            if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
            else r += s[i];
        return r;
    }
    str num(long v) { return std::to_string(v); }
    str dnum(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
    bool keptLine(const Line& l) { return l.empty() || l[0] == "param"; }
    str Plan::text() const
    {
        str r = "scenario " + scenario + "\nseed " + std::to_string(seed) + "\n";
        for (auto& l : lines)
        {
            for (size_t i = 0; i < l.size(); i++) { if (i) r += " "; r += l[i]; }
            r += "\n";
        }
        return r;
    }
    Plan Plan::parse(const str& t)
    {
        Plan p;
        std::istringstream is(t);
        str ln;
        while (std::getline(is, ln))
        {
            std::istringstream ls(ln);
            Line l;
            str w;
            while (ls >> w) l.push_back(w);
            if (l.empty() || l[0][0] == '#') continue;
            if (l[0] == "scenario") p.scenario = l[1];
            else if (l[0] == "seed") p.seed = strtoull(l[1].c_str(), 0, 10);
            else p.lines.push_back(l);
        }
        return p;
    }
    // A file may hold several plans, run one after the other in one process
    static std::vector<Plan> parseAll(const str& t)
    {
        std::vector<str> parts;
        std::istringstream is(t);
        str ln;
        while (std::getline(is, ln))
        {
            if (ln.compare(0, 9, "scenario ") == 0 || parts.empty()) { if (parts.empty() || parts.back().find("scenario ") != str::npos) parts.push_back(""); }
            parts.back() += ln + "\n";
        }
        std::vector<Plan> v;
        for (auto& e : parts) { Plan p = Plan::parse(e); if (!p.scenario.empty()) v.push_back(p); }
        return v;
    }
    static str textAll(const std::vector<Plan>& v) { str r; for (auto& p : v) r += p.text(); return r; }
    str Plan::param(const str& key, const str& def) const
    {
        for (auto& l : lines) if (l[0] == "param" && l.size() > 2 && l[1] == key) return l[2];
        return def;
    }
    long Plan::iparam(const str& key, long def) const { str v = param(key); return v.empty() ? def : toi(v); }

    static std::map<str, Scenario>& scenarios() { static std::map<str, Scenario> m; return m; }
    void registerScenario(const Scenario& s) { scenarios()[s.name] = s; }

    // ---------------------------------------------------------------- shared record of a child
    enum { ST_NONE, ST_OK, ST_FAIL, ST_CRASH, ST_HARNESS };
    static const size_t SETCAP = 1 << 20;
    struct Slot
    {
        volatile u64 cur;        // index being run
        volatile u64 done;       // indices completed
        volatile int status;
        char cls[120];
        char detail[6000];
        u64 hash;
        u64 simNs;
        u64 fastNs;
        u64 runs;
        u64 ops;
        struct { char name[40]; u64 n; } c[256];
        u64 nset, set[SETCAP];
        u64 nrun, rset[SETCAP];
    };
    static Slot* gSlot = 0;
    static u64 gHash = 0;
    static u64 gSeed = 0;
    static bool gMute = false;

    static bool addSet(u64* s, u64& n, u64 h)
    {
        if (!h) h = 1;
        if (n > SETCAP * 3 / 4) return false;
        size_t i = h & (SETCAP - 1);
        while (s[i]) { if (s[i] == h) return false; i = (i + 1) & (SETCAP - 1); }
        s[i] = h; n++;
        return true;
    }

    static void record(int st, const char* cls, const char* det)
    {
        if (!gSlot || gSlot->status > ST_OK) return;
        gSlot->status = st;
        snprintf(gSlot->cls, sizeof gSlot->cls, "%s", cls);
        snprintf(gSlot->detail, sizeof gSlot->detail, "%s", det);
        gSlot->hash = gHash;
    }
    void fail(const char* cls, const char* fmt, ...)
    {
        gInSut = 0;
        char b[5000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        note(hash(cls, strlen(cls)));
        record(ST_FAIL, cls, b);
        _exit(101);
    }
    void harness(const char* fmt, ...)
    {
        gInSut = 0;
        char b[5000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        record(ST_HARNESS, "harness", b);
        _exit(103);
    }
    bool verbose() { return gVerbose; }
    u64 runSeed() { return gSeed; }
    void note(u64 h) { gHash = mix(gHash, h); }
    void trace(const char* fmt, ...)
    {
        int save = gInSut;
        gInSut = 0;
        char b[2000];
        va_list ap;
        va_start(ap, fmt);
        int n = vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (n > (int)sizeof b - 1) n = sizeof b - 1;
        gHash = hash(b, n, gHash);
        if (gVerbose) { fwrite(b, 1, n, stderr); fputc('\n', stderr); }
        gInSut = save;
    }
    void state(u64 h) { if (gSlot && !gMute) addSet(gSlot->set, gSlot->nset, h); }
    void count(const char* name, u64 n)
    {
        if (!gSlot || gMute) return;
        for (auto& e : gSlot->c)
        {
            if (!e.name[0]) snprintf(e.name, sizeof e.name, "%s", name);
            if (!strncmp(e.name, name, sizeof e.name - 1)) { e.n += n; return; }
        }
    }

    // ---------------------------------------------------------------- scope of the code under test
    Host::Host() : save(gInSut) { gInSut = 0; }
    Host::~Host() { gInSut = save; }
    Enter::Enter() : save(gInSut) { gInSut = 1; }
    Enter::~Enter() { gInSut = save; }

    Outcome sut(const std::function<void()>& f)
    {
        Outcome o;
        {
            Enter e;
            try { f(); }
            catch (const std::bad_alloc& x) { Host h; o.kind = NOMEM; o.what = x.what(); o.type = "bad_alloc"; }
            catch (const std::exception& x)
            {
                Host h;
                o.kind = THREW;
                const char* w = x.what();
                o.what = w ? w : "(null)";
                o.type = typeid(x).name();
            }
            catch (abi::__forced_unwind&) { throw; }
            catch (...) { Host h; o.kind = THREW; o.type = "unknown"; o.what = "not a std::exception"; }
        }
        return o;
    }

    // ---------------------------------------------------------------- captured std::cout
    struct Capture : std::streambuf
    {
        char buf[1 << 20];
        size_t n = 0;
        int overflow(int c) override { if (c != EOF && n < sizeof buf) buf[n++] = (char)c; return c == EOF ? 0 : c; }
        std::streamsize xsputn(const char* s, std::streamsize k) override
        {
            size_t m = std::min((size_t)k, sizeof buf - n);
            memcpy(buf + n, s, m);
            n += m;
            return k;
        }
    };
    static Capture gCap;
    str takeOutput() { str r(gCap.buf, gCap.n); gCap.n = 0; return r; }

    // ---------------------------------------------------------------- running one plan in this process
    static void cpuTimer(long secs)
    {
        struct itimerval it;
        memset(&it, 0, sizeof it);
        it.it_value.tv_sec = secs;
        setitimer(ITIMER_VIRTUAL, &it, 0);
    }
    static void onTimer(int) { gInSut = 0; record(ST_FAIL, "hang", "no result within 8 s of processor time"); _exit(101); }
    static void onTerminate()
    {
        gInSut = 0;
        const char* w = "terminate called";
        std::exception_ptr p = std::current_exception();
        static char b[600];
        if (p) { try { std::rethrow_exception(p); } catch (std::exception& e) { snprintf(b, sizeof b, "terminate: %s", e.what()); w = b; } catch (...) { w = "terminate: foreign exception"; } }
        record(ST_CRASH, "terminate", w);
        _exit(102);
    }
    static void onAsan(const char* text)
    {
        gInSut = 0;
        char cls[120] = "crash:asan";
        const char* e = strstr(text, "AddressSanitizer: ");
        if (e)
        {
            e += 18;
            int n = 0;
            snprintf(cls, sizeof cls, "crash:");
            n = 6;
            while (*e && *e != ' ' && *e != '\n' && n < 100) cls[n++] = *e++;
            cls[n] = 0;
        }
        record(ST_CRASH, cls, text);
    }
    static void onAbort(int s)
    {
        gInSut = 0;
        record(ST_CRASH, s == SIGABRT ? "crash:abort" : "crash:signal", "signal");
        _exit(102);
    }

    static void once(const Scenario& sc, const Plan& p)
    {
        gHash = hash(p.scenario);
        gSeed = p.seed;
        gCap.n = 0;
        alloc::begin(p.seed);
        vos::begin(p.seed);
        cpuTimer(8);
        sc.run(p);
        cpuTimer(0);
        gInSut = 0;
        vos::end();
        alloc::heal();
    }

    // Runs a plan; does not return if it fails.
    static std::vector<void (*)()>& warms() { static std::vector<void (*)()> w; return w; }
    void registerWarm(void (*f)()) { warms().push_back(f); }
    static void execute(const Plan& p)
    {
        auto it = scenarios().find(p.scenario);
        if (it == scenarios().end()) harness("no scenario %s", p.scenario.c_str());
        const Scenario& sc = it->second;
        once(sc, p);
        if (sc.leakCheck && alloc::liveBlocks())
        {
            // Anything the library sets up once and keeps is not a leak: only what a second
            // identical run leaves behind again is.
            u64 h = gHash;
            bool m = gMute;
            gMute = true;
            once(sc, p);
            gMute = m;
            if (alloc::liveBlocks())
            {
                str l = alloc::liveList(4);
                fail("leak", "%zu blocks (%zu bytes) not released: %s", alloc::liveBlocks(), alloc::liveBytes(), l.c_str());
            }
            gHash = h;
        }
        gSlot->hash = gHash;
        gSlot->simNs += vos::elapsed();
        gSlot->fastNs += vos::jumped();
        gSlot->runs++;
        addSet(gSlot->rset, gSlot->nrun, gHash);
    }

    static void childSetup()
    {
        static std::streambuf* old = std::cout.rdbuf(&gCap);
        (void)old;
        std::set_terminate(onTerminate);
#ifndef SIM_THR
        __asan_set_error_report_callback(onAsan);
#endif
        signal(SIGVTALRM, onTimer);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = onAbort;
        sigaction(SIGABRT, &sa, 0);
        struct rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        alloc::begin(1);
        vos::begin(1);
        for (auto f : warms()) sut(f);
        gInSut = 0;
        vos::end();
        takeOutput();
        alloc::forget();
    }

    // ---------------------------------------------------------------- parent side
    static Slot* newSlot()
    {
        return (Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    struct Result { int status; str cls, detail; u64 hash; };
    static double now()
    {
        struct timespec t;
        vos::realClock(&t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }
    static void afterExit(Slot* s, int w)
    {
        // The child is gone; make sure there is a verdict.
        if (WIFEXITED(w) && WEXITSTATUS(w) == 0) return;
        if (s->status > ST_OK) return;
        s->status = ST_CRASH;
        if (WIFSIGNALED(w)) snprintf(s->cls, sizeof s->cls, "crash:signal-%d", WTERMSIG(w));
        else snprintf(s->cls, sizeof s->cls, "crash:exit-%d", WEXITSTATUS(w));
        snprintf(s->detail, sizeof s->detail, "the process ended by itself");
    }
    // Plans in a fresh child
    static Result runOne(const Plan& p, bool quiet = true);
    static Result runSeq(const std::vector<Plan>& ps, bool quiet = true)
    {
        static Slot* s = newSlot();
        s->status = ST_NONE;
        s->hash = 0;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0)
        {
            gSlot = s;
            childSetup();
            gMute = quiet;
            for (auto& p : ps) execute(p);
            s->status = ST_OK;
            _exit(0);
        }
        int w = 0;
        double t0 = now();
        while (waitpid(pid, &w, WNOHANG) == 0)
        {
            if (now() - t0 > 90) { kill(pid, SIGKILL); waitpid(pid, &w, 0); snprintf(s->cls, sizeof s->cls, "hang"); snprintf(s->detail, sizeof s->detail, "blocked"); s->status = ST_FAIL; break; }
            struct timespec ts = { 0, 300000 };
            vos::realSleep(&ts);
        }
        afterExit(s, w);
        Result r;
        r.status = s->status;
        r.cls = s->status > ST_OK ? s->cls : "";
        r.detail = s->status > ST_OK ? s->detail : "";
        r.hash = s->hash;
        return r;
    }

    static Result runOne(const Plan& p, bool quiet) { return runSeq({ p }, quiet); }

    struct Spec { str scen, variant; int weight; };
    static std::vector<Spec> parseSpecs(const str& t)
    {
        std::vector<Spec> v;
        std::istringstream is(t);
        str e;
        while (std::getline(is, e, ','))
        {
            std::istringstream es(e);
            Spec s;
            str w;
            std::getline(es, s.scen, ':');
            std::getline(es, s.variant, ':');
            std::getline(es, w, ':');
            s.weight = w.empty() ? 1 : atoi(w.c_str());
            v.push_back(s);
        }
        return v;
    }
    // The plan without its faults of one kind: lines, or parameters, whose name holds a word
    static Plan strip(const Plan& p, const str& word)
    {
        Plan q = p;
        q.lines.clear();
        for (auto& l : p.lines)
            if (l[0].find(word) == str::npos && !(l[0] == "param" && l.size() > 1 && l[1].find(word) != str::npos)) q.lines.push_back(l);
        return q;
    }
    // A property may own only some kinds of failure, or only those which need faults of one kind
    static str gNeeds, gClasses;
    static bool owned(const std::vector<Plan>& seq, const Result& r)
    {
        if (r.status == ST_HARNESS) return true;
        if (!gClasses.empty() && !std::regex_match(r.cls, std::regex(gClasses))) return false;
        if (gNeeds.empty()) return true;
        std::vector<Plan> q;
        for (auto& p : seq) q.push_back(strip(p, gNeeds));
        return runSeq(q).status == ST_OK;
    }
    static Plan makePlan(const std::vector<Spec>& sp, u64 base, u64 index)
    {
        int tot = 0;
        for (auto& s : sp) tot += s.weight;
        int k = (int)(index % tot);
        const Spec* c = &sp[0];
        for (auto& s : sp) { if (k < s.weight) { c = &s; break; } k -= s.weight; }
        auto it = scenarios().find(c->scen);
        if (it == scenarios().end()) { fprintf(stderr, "no scenario %s\n", c->scen.c_str()); exit(2); }
        Plan p;
        for (int k = 0; k < 40; k++)
        {
            p = Plan();
            p.scenario = c->scen;
            p.seed = mix(base + k * 7919ull, index) & 0x7fffffffffffffffull;
            Rng r(p.seed);
            it->second.gen(r, p, c->variant);
            // variant oom: only plans in which some allocation fails
            if (c->variant != "oom" || strip(p, "oom").lines.size() < p.lines.size()) break;
        }
        return p;
    }
    static bool isolated(const std::vector<Spec>& sp)
    {
        for (auto& s : sp) if (scenarios().count(s.scen) && scenarios()[s.scen].isolate) return true;
        return false;
    }

    static str jesc(const str& s)
    {
        str r;
        char b[8];
        for (unsigned char c : s)
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        return r;
    }

    static str sameClass(const str& c) { return c; }

    // ddmin over the removable lines, then shrinking of arguments
    static Plan minimiseAt(const std::vector<Plan>& seq, size_t which, const std::function<bool(const std::vector<Plan>&)>& stillSeq, const std::function<bool()>& over);
    static std::vector<Plan> minimise(std::vector<Plan> seq, const Result& want, int budget, double secs)
    {
        double end = now() + secs;
        int used = 0;
        auto stillSeq = [&](const std::vector<Plan>& q) {
            if (used >= budget || now() > end) return false;
            used++;
            Result r = runSeq(q);
            return r.status == want.status && sameClass(r.cls) == sameClass(want.cls) && owned(q, r);
        };
        // plans before the failing one
        for (size_t chunk = seq.size() - 1; chunk >= 1; chunk = chunk == 1 ? 0 : (chunk + 1) / 2)
            for (long at = (long)seq.size() - 1 - (long)chunk; at > -(long)chunk; at -= chunk)
            {
                size_t lo = std::max(0l, at), hi = std::min(seq.size() - 1, (size_t)(at + chunk));
                if (lo >= hi) continue;
                std::vector<Plan> q = seq;
                q.erase(q.begin() + lo, q.begin() + hi);
                if (stillSeq(q)) seq = q;
            }
        for (size_t which = seq.size(); which-- > 0; ) seq[which] = minimiseAt(seq, which, stillSeq, [&] { return used >= budget || now() > end; });
        return seq;
    }
    static Plan minimiseAt(const std::vector<Plan>& seq, size_t which, const std::function<bool(const std::vector<Plan>&)>& stillSeq, const std::function<bool()>& over)
    {
        Plan p = seq[which];
        auto still = [&](const Plan& q) { std::vector<Plan> v = seq; v[which] = q; return stillSeq(v); };
        auto removable = [&](const Plan& q) {
            std::vector<size_t> v;
            for (size_t i = 0; i < q.lines.size(); i++) if (!keptLine(q.lines[i])) v.push_back(i);
            return v;
        };
        size_t chunk = std::max<size_t>(1, removable(p).size() / 2);
        while (chunk >= 1)
        {
            bool any = false;
            std::vector<size_t> v = removable(p);
            // from the end: later lines first
            for (long at = (long)v.size() - (long)chunk; at > -(long)chunk; at -= chunk)
            {
                size_t lo = std::max(0l, at), hi = std::min(v.size(), (size_t)(at + chunk));
                if (lo >= hi) continue;
                Plan q = p;
                q.lines.clear();
                std::set<size_t> drop(v.begin() + lo, v.begin() + hi);
                for (size_t i = 0; i < p.lines.size(); i++) if (!drop.count(i)) q.lines.push_back(p.lines[i]);
                if (still(q))
                {
                    p = q;
                    any = true;
                    v = removable(p);
                    if (at > (long)v.size()) at = v.size();
                }
            }
            if (chunk == 1) { if (!any) break; }
            else chunk /= 2;
            if (over()) break;
        }
        // arguments
        for (size_t i = 0; i < p.lines.size(); i++)
            for (size_t j = 1; j < p.lines[i].size(); j++)
            {
                if (over()) return p;
                str t = p.lines[i][j];
                char* e;
                long v = strtol(t.c_str(), &e, 10);
                if (!*e && v > 1)
                {
                    for (long c : { 0l, 1l, v / 2, v - 1 })
                    {
                        if (c >= v) continue;
                        Plan q = p;
                        q.lines[i][j] = num(c);
                        if (still(q)) { p = q; break; }
                    }
                }
                else if (*e && t.size() > 24)
                {
                    bool more = true;
                    while (more && t.size() > 8)
                    {
                        more = false;
                        str d = dec(t);
                        for (int half = 0; half < 2; half++)
                        {
                            Plan q = p;
                            q.lines[i][j] = enc(half ? d.substr(0, d.size() / 2) : d.substr(d.size() / 2));
                            if (still(q)) { p = q; t = q.lines[i][j]; more = true; break; }
                        }
                    }
                }
            }
        return p;
    }

    static int cmdBatch(std::map<str, str>& a)
    {
        std::vector<Spec> sp = parseSpecs(a["scen"]);
        u64 base = strtoull(a["base"].c_str(), 0, 10), total = strtoull(a["count"].c_str(), 0, 10);
        int jobs = a.count("jobs") ? atoi(a["jobs"].c_str()) : 8;
        double secs = a.count("secs") ? atof(a["secs"].c_str()) : 60;
        int per = a.count("per") ? atoi(a["per"].c_str()) : 100;
        int maxFail = a.count("maxfail") ? atoi(a["maxfail"].c_str()) : 8;
        if (isolated(sp)) per = 1;
        // warm up: statics of the library and of what it uses are set up before forking
        double t0 = now();
        struct W { pid_t pid = 0; Slot* s = 0; u64 from = 0, to = 0; double t = 0; };
        std::vector<W> w(jobs);
        for (auto& x : w) x.s = newSlot();
        u64 next = 0, doneRuns = 0;
        struct F { u64 index; Result r; u64 from; };
        std::vector<F> fails;
        std::map<str, int> perClass;
        std::vector<std::pair<u64, u64>> redo;   // ranges to finish after a failure
        std::map<u64, u64> sampleHash;
        u64 harnessErr = 0, foreign = 0;
        str harnessTxt, foreignTxt;
        bool stop = false;
        for (;;)
        {
            bool busy = false;
            if (now() - t0 > secs) stop = true;
            for (auto& x : w)
            {
                if (x.pid)
                {
                    int st = 0;
                    pid_t r = waitpid(x.pid, &st, WNOHANG);
                    if (r == 0)
                    {
                        busy = true;
                        if (now() - x.t > 150 + per)
                        {
                            kill(x.pid, SIGKILL);
                        }
                        continue;
                    }
                    afterExit(x.s, st);
                    x.pid = 0;
                    doneRuns += x.s->done;
                    if (x.s->status > ST_OK)
                    {
                        u64 idx = x.s->cur;
                        Result res;
                        res.status = x.s->status; res.cls = x.s->cls; res.detail = x.s->detail; res.hash = x.s->hash;
                        if (res.status == ST_HARNESS) { harnessErr++; harnessTxt = res.detail; }
                        else if (gClasses.empty() && gNeeds.empty() ? true : foreign < 400 && owned({ makePlan(sp, base, idx) }, res))
                        {
                            if (perClass[res.cls]++ < 3) fails.push_back({ idx, res, x.from });
                        }
                        else { foreign++; foreignTxt = res.cls + ": " + res.detail.substr(0, 300); }
                        if ((int)fails.size() >= maxFail) stop = true;
                        if (idx + 1 < x.to) redo.push_back({ idx + 1, x.to });
                    }
                    else sampleHash[x.to - 1] = x.s->hash;
                }
                if (!stop)
                {
                    u64 from, to;
                    if (!redo.empty()) { from = redo.back().first; to = redo.back().second; redo.pop_back(); }
                    else if (next < total) { from = next; to = std::min(total, next + per); next = to; }
                    else continue;
                    x.from = from; x.to = to; x.t = now();
                    x.s->status = ST_NONE; x.s->done = 0; x.s->cur = from;
                    fflush(stdout); fflush(stderr);
                    x.pid = fork();
                    if (x.pid == 0)
                    {
                        gSlot = x.s;
                        childSetup();
                        for (u64 i = from; i < to; i++)
                        {
                            x.s->cur = i;
                            Plan p = makePlan(sp, base, i);
                            x.s->ops += p.lines.size();
                            execute(p);
                            x.s->done = i - from + 1;
                            if (i % 64 == 63 && per > 1)
                            {
                                u64 h = gSlot->hash;
                                gMute = true;
                                execute(p);
                                gMute = false;
                                if (gSlot->hash != h)
                                    harness("plan %llu is not deterministic within one process", (unsigned long long)i);
                            }
                        }
                        x.s->status = ST_OK;
                        _exit(0);
                    }
                    busy = true;
                }
            }
            if (!busy && (stop || (next >= total && redo.empty()))) break;
            struct timespec ts = { 0, 300000 };
            vos::realSleep(&ts);
        }
        double wall = now() - t0;
        // Determinism sample: the last plan of some children, again in a fresh process
        u64 detN = 0, detBad = 0;
        for (auto& e : sampleHash)
        {
            if (detN >= 40) break;
            detN++;
            Result r = runOne(makePlan(sp, base, e.first));
            if (r.status != ST_OK || r.hash != e.second)
            {
                detBad++;
                harnessTxt = "plan " + std::to_string(e.first) + " gave another trace in a fresh process: " + r.cls + " " + r.detail;
            }
        }
        // Gate the failures: twice the same in fresh processes
        std::ostringstream js;
        js << "{\"runs\": " << doneRuns << ", \"requested\": " << total << ", \"wall\": " << wall
           << ", \"determinism_checked\": " << detN << ", \"determinism_bad\": " << detBad
           << ", \"harness_errors\": " << harnessErr << ", \"harness_text\": \"" << jesc(harnessTxt) << "\""
           << ", \"foreign\": " << foreign << ", \"foreign_text\": \"" << jesc(foreignTxt) << "\"";
        u64 simNs = 0, fastNs = 0, ops = 0;
        std::map<str, u64> cnt;
        std::vector<u64> st, rs;
        bool sat = false;
        for (auto& x : w)
        {
            simNs += x.s->simNs; fastNs += x.s->fastNs; ops += x.s->ops;
            for (auto& e : x.s->c) if (e.name[0]) cnt[e.name] += e.n;
            for (size_t i = 0; i < SETCAP; i++) { if (x.s->set[i]) st.push_back(x.s->set[i]); if (x.s->rset[i]) rs.push_back(x.s->rset[i]); }
            if (x.s->nset > SETCAP * 3 / 4) sat = true;
        }
        std::sort(st.begin(), st.end());
        std::sort(rs.begin(), rs.end());
        u64 nst = std::unique(st.begin(), st.end()) - st.begin(), nrs = std::unique(rs.begin(), rs.end()) - rs.begin();
        js << ", \"sim_ns\": " << simNs << ", \"jumped_ns\": " << fastNs << ", \"plan_lines\": " << ops << ", \"distinct_states\": " << nst << ", \"states_saturated\": " << (sat ? "true" : "false")
           << ", \"distinct_runs\": " << nrs << ", \"counters\": {";
        bool first = true;
        for (auto& e : cnt) { js << (first ? "" : ", ") << "\"" << jesc(e.first) << "\": " << e.second; first = false; }
        js << "}, \"failures\": [";
        first = true;
        for (auto& f : fails)
        {
            Plan p = makePlan(sp, base, f.index);
            Result r1 = runOne(p), r2 = runOne(p);
            bool same = r1.status == f.r.status && r1.cls == f.r.cls && r2.cls == r1.cls;
            str text = p.text();
            if (!same && f.from < f.index)
            {
                // It may need what earlier plans left behind in the process
                std::vector<Plan> seq;
                for (u64 i = f.from; i <= f.index; i++)
                {
                    seq.push_back(makePlan(sp, base, i));
                    if (i % 64 == 63 && i < f.index) seq.push_back(seq.back());
                }
                r1 = runSeq(seq);
                r2 = runSeq(seq);
                same = r1.status == f.r.status && r1.cls == f.r.cls && r2.cls == r1.cls;
                if (same) text = textAll(seq);
            }
            js << (first ? "" : ", ") << "{\"index\": " << f.index << ", \"seed\": " << p.seed << ", \"class\": \"" << jesc(f.r.cls)
               << "\", \"detail\": \"" << jesc(f.r.detail.substr(0, 3000)) << "\", \"again\": \"" << jesc(r1.cls) << "\", \"reproduced\": " << (same ? "true" : "false")
               << ", \"plan\": \"" << jesc(text) << "\"}";
            first = false;
        }
        js << "], \"samples\": [";
        for (u64 i = 0; i < 2; i++) js << (i ? ", " : "") << "\"" << jesc(makePlan(sp, base, i * 7 + 1).text()) << "\"";
        js << "]}";
        std::ofstream(a["out"]) << js.str() << "\n";
        return 0;
    }
}

using namespace sim;
int main(int argc, char** argv)
{
    // Same addresses in every process
    if (!getenv("SIM_CHILD"))
    {
        setenv("SIM_CHILD", "1", 1);
        setenv("MKL_CBWR", "COMPATIBLE", 1);
        setenv("MKL_NUM_THREADS", "1", 1);
        setenv("MKL_DISABLE_FAST_MM", "1", 1);
        setenv("LC_ALL", "C", 1);
        setenv("TZ", "UTC", 1);
        for (const char* v : { "http_proxy", "https_proxy", "all_proxy", "ALL_PROXY", "HTTP_PROXY", "NO_PROXY", "no_proxy" }) unsetenv(v);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    vos::init();
    if (argc < 2) return 2;
    str cmd = argv[1];
    std::map<str, str> a;
    std::vector<str> pos;
    for (int i = 2; i < argc; i++)
    {
        str t = argv[i];
        if (t == "-v") gVerbose = true;
        else if (t.substr(0, 2) == "--" && i + 1 < argc) { a[t.substr(2)] = argv[i + 1]; i++; }
        else pos.push_back(t);
    }
    if (a.count("needs")) gNeeds = a["needs"];
    if (a.count("classes")) gClasses = a["classes"];
    if (cmd == "batch") return cmdBatch(a);
    if (cmd == "gen")   // scenario:variant base index
    {
        printf("%s", makePlan(parseSpecs(pos[0]), strtoull(pos[1].c_str(), 0, 10), strtoull(pos[2].c_str(), 0, 10)).text().c_str());
        return 0;
    }
    if (cmd == "run" || cmd == "min")
    {
        std::ifstream f(pos[0]);
        if (!f) { fprintf(stderr, "cannot read %s\n", pos[0].c_str()); return 2; }
        std::stringstream ss;
        ss << f.rdbuf();
        std::vector<Plan> seq = parseAll(ss.str());
        if (seq.empty()) { fprintf(stderr, "no plan in %s\n", pos[0].c_str()); return 2; }
        if (cmd == "min")
        {
            Result r = runSeq(seq);
            if (r.status == ST_OK || r.status == ST_HARNESS) { printf("RESULT %s\n", r.status == ST_OK ? "ok" : "harness"); return 2; }
            int before = 0, after = 0;
            for (auto& p : seq) before += p.lines.size();
            seq = minimise(seq, r, a.count("budget") ? atoi(a["budget"].c_str()) : 3000, a.count("secs") ? atof(a["secs"].c_str()) : 60);
            for (auto& p : seq) after += p.lines.size();
            Result r1 = runSeq(seq), r2 = runSeq(seq);
            bool same = r1.cls == r.cls && r2.cls == r1.cls;
            std::ofstream o(pos[1]);
            o << "# replay: sim run <this file>   violation: " << r.cls << "\n# hash " << r1.hash << "\n";
            std::istringstream ds(r1.detail);
            str ln;
            for (int k = 0; k < 12 && std::getline(ds, ln); k++) o << "# " << ln << "\n";
            o << textAll(seq);
            printf("RESULT %s lines %d -> %d hash %llu\n%s\n", same ? "reproduced" : "unstable", before, after, (unsigned long long)r1.hash, r1.detail.c_str());
            return same ? 0 : 2;
        }
        Result r = runSeq(seq, false);
        const char* names[] = { "none", "ok", "violation", "violation", "harness" };
        printf("RESULT %s class=%s hash=%llu\n%s\n", names[r.status], r.cls.c_str(), (unsigned long long)r.hash, r.detail.c_str());
        return r.status == ST_OK ? 0 : r.status == ST_HARNESS ? 2 : 1;
    }
    return 2;
}
