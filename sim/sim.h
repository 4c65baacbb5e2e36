// Core of the simulator: seeded plans, their execution, and what scenarios may use.
#ifndef SIM_H
#define SIM_H
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
    typedef uint64_t u64;
    typedef std::string str;

    u64 mix(u64 a, u64 b);
    u64 hash(const void* p, size_t n, u64 h = 0xcbf29ce484222325ull);
    inline u64 hash(const str& s, u64 h = 0xcbf29ce484222325ull) { return hash(s.data(), s.size(), h); }

    struct Rng
    {
        u64 s;
        explicit Rng(u64 seed) : s(mix(seed, 0x9e3779b97f4a7c15ull)) {}
        u64 next();
        unsigned below(unsigned n) { return n ? (unsigned)(next() % n) : 0; }
        int range(int lo, int hi) { return lo + (int)below((unsigned)(hi - lo + 1)); }
        bool chance(int num, int den) { return (int)below(den) < num; }
        template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    };

    // A plan is everything a run depends on besides the code: one line per parameter, operation or fault.
    typedef std::vector<str> Line;
    struct Plan
    {
        str scenario;
        u64 seed = 0;
        std::vector<Line> lines;
        void add(const Line& l) { lines.push_back(l); }
        str text() const;
        static Plan parse(const str& text);
        // first line "<key> value..." or def
        str param(const str& key, const str& def = "") const;
        long iparam(const str& key, long def = 0) const;
    };
    str enc(const str& s);            // one plan token from any bytes
    str dec(const str& s);
    str num(long v);
    str dnum(double v);
    inline long toi(const str& s) { return strtol(s.c_str(), 0, 10); }

    // Line heads which minimisation never removes
    bool keptLine(const Line& l);

    // Reporting, callable from anywhere in a run
    [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // The run itself could not be decided (a limit of the harness): an error, never a violation
    [[noreturn]] void harness(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    void note(u64 h);                  // into the run's hash
    void state(u64 h);                 // a state reached (coverage measure)
    void count(const char* name, u64 n = 1);
    bool verbose();
    u64 runSeed();

    // ---- the code under test runs inside a scope; the harness outside of it
    enum Kind { OK, THREW, NOMEM };    // THREW: any std::exception but bad_alloc
    struct Outcome
    {
        Kind kind = OK;
        str what;
        str type;
        bool ok() const { return kind == OK; }
    };
    Outcome sut(const std::function<void()>& f);
    struct Host { int save; Host(); ~Host(); };    // leaves the scope temporarily (callbacks)
    struct Enter { int save; Enter(); ~Enter(); }; // enters it without catching

    // ---- allocator seam (alloc.cpp)
    namespace alloc
    {
        void begin(u64 junkSeed);              // start of a run
        void failAt(long nth, long burst);     // nth operator new from now (1-based) fails, burst of them; burst<0: until heal
        void heal();
        long failed();                         // how many were failed since failAt
        long news();                           // operator new calls in scope since begin
        size_t liveBlocks();                   // blocks allocated in scope since begin and not released
        size_t liveBytes();
        str liveList(int max);                 // describes them
        void forget();                         // stop tracking what is live (warm-up)
        size_t mark();                         // current sequence number: blocks allocated before it are older
        void setCap(size_t bytes);
        void onTopOf();                        // internal
    }

    struct Scenario
    {
        const char* name;
        void (*gen)(Rng&, Plan&, const str& variant);
        void (*run)(const Plan&);
        bool isolate;                          // one process per plan (global state in the library)
        bool leakCheck;
    };
    void registerScenario(const Scenario& s);
    // What the library sets up on first use is set up before the first run of a process, so that
    // a run does not depend on those before it
    void registerWarm(void (*f)());
    struct Warm { Warm(void (*f)()) { registerWarm(f); } };
    struct Register { Register(const Scenario& s) { registerScenario(s); } };

    // std::cout of the library, captured for the current run
    str takeOutput();
}
#endif
