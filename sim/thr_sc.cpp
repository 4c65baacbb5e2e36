// Threads working on values of their own under every kind of interleaving (C21).
#include "thr.h"
#include "vos.h"
#include <algorithm>
#include <cstring>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace sim;
namespace sim { namespace alloc { size_t liveKept(); } }

namespace
{
    struct Step { str op; u64 seed; long oom, burst; };
    struct Result { std::vector<std::vector<str>> out; std::vector<std::vector<long>> failed; std::vector<str> kids; size_t live = 0, bytes = 0; };
    typedef std::vector<std::vector<Step>> Prog;

    Prog parse(const Plan& p, int n)
    {
        Prog g(n);
        for (auto& l : p.lines)
            if (l[0] == "do" && l.size() > 3)
            {
                Step s{ l[2], strtoull(l[3].c_str(), 0, 10), 0, 1 };
                if (l.size() > 5) { s.oom = toi(l[4]); s.burst = toi(l[5]); }
                g[toi(l[1]) % n].push_back(s);
            }
        return g;
    }
    void program(const std::vector<Step>& s, int tid, bool faults, Result& r)
    {
        for (size_t i = 0; i < s.size(); i++)
        {
            trace("thread %d begins %s", tid, s[i].op.c_str());
            if (faults && s[i].oom && s[i].op != "path") thr::failAt(s[i].oom, s[i].burst);  // libstdc++ terminates when memory runs out in a directory listing
            str o = work::op(s[i].op, s[i].seed, tid, i);
            r.failed[tid][i] = faults && s[i].oom && s[i].op != "path" ? thr::failed() : 0;
            thr::heal();
            trace("thread %d ends %s: %016llx%s", tid, s[i].op.c_str(), (unsigned long long)hash(o), verbose() ? (" " + o.substr(0, 300)).c_str() : "");
            r.out[tid][i] = o;
        }
    }
    void prepare(const Plan& p, const Prog& g, Result& r)
    {
        r.out.resize(g.size());
        r.failed.resize(g.size());
        for (size_t t = 0; t < g.size(); t++) { work::files(t); r.out[t].resize(g[t].size()); r.failed[t].resize(g[t].size()); }
        std::vector<int> ch;
        for (auto& l : p.lines) if (l[0] == "chunk" && l.size() > 1) ch.push_back(std::max(1l, toi(l[1])));
        vos::chunks(ch, ch);
    }
    void finish(Result& r)
    {
        for (auto& k : vos::children()) r.kids.push_back(k->input + (k->closed ? "" : " not closed"));
        std::sort(r.kids.begin(), r.kids.end());
        r.live = alloc::liveBlocks() - alloc::liveKept();
        r.bytes = alloc::liveBytes();
    }
    void put(str& o, const str& s) { o += num(s.size()) + ":" + s; }
    str get(const str& s, size_t& at)
    {
        size_t e = s.find(':', at);
        if (e == str::npos) return "";
        size_t n = toi(s.substr(at, e - at));
        str r = s.substr(e + 1, n);
        at = e + 1 + n;
        return r;
    }
    // The same programs one after the other, in a process of their own
    bool reference(const Plan& p, const Prog& g, Result& r)
    {
        static const size_t CAP = 8 << 20;
        char* shared = (char*)mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0)
        {
            Result q;
            prepare(p, g, q);
            for (size_t t = 0; t < g.size(); t++) program(g[t], t, false, q);
            finish(q);
            str o;
            for (auto& v : q.out) for (auto& s : v) put(o, s);
            put(o, num(q.kids.size()));
            for (auto& k : q.kids) put(o, k);
            put(o, num(q.live));
            put(o, num(q.bytes));
            o += "end";
            if (o.size() + 8 <= CAP) { *(size_t*)shared = o.size(); memcpy(shared + 8, o.data(), o.size()); }
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        str o(shared + 8, *(size_t*)shared);
        munmap(shared, CAP);
        trace("reference %zu bytes, status %x", o.size(), st);
        if (o.size() < 3 || o.substr(o.size() - 3) != "end") return false;
        size_t at = 0;
        prepare(p, g, r);
        for (auto& v : r.out) for (auto& s : v) s = get(o, at);
        r.kids.resize(toi(get(o, at)));
        for (auto& s : r.kids) s = get(o, at);
        r.live = toi(get(o, at));
        r.bytes = toi(get(o, at));
        return true;
    }
    void run(const Plan& p)
    {
        int n = std::max(2l, std::min<long>(thr::MAXT, p.iparam("threads", 2)));
        Prog g = parse(p, n);
        Result want, got;
        vos::stack({}, false);
        if (!reference(p, g, want))
        {
            // not even one after the other: another property's business
            count("reference.failed");
            note(7);
            return;
        }
        std::vector<thr::Switch> sw;
        for (auto& l : p.lines) if (l[0] == "sw" && l.size() > 2) sw.push_back({ std::max(1l, toi(l[1])), (int)std::max(0l, toi(l[2])) });
        prepare(p, g, got);
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < n; t++) bodies.push_back([&, t] { program(g[t], t, true, got); });
        thr::run(bodies, sw, p.iparam("every"));
        finish(got);
        bool faulted = false;
        str all;
        for (int t = 0; t < n; t++)
            for (size_t i = 0; i < g[t].size(); i++)
            {
                const str &a = got.out[t][i], &b = want.out[t][i];
                note(hash(a));
                if (got.failed[t][i]) faulted = true;
                if (a == b) continue;
                if (got.failed[t][i])
                {
                    // it ran out of memory: it says so, however far it came
                    if (a.find('!') != str::npos || a.find("refused") != str::npos || a.find("raised") != str::npos || a.find("absent") != str::npos || a.find("no module") != str::npos || g[t][i].op == "error" || g[t][i].op == "stream" || g[t][i].op == "getline") continue;
                }
                fail("interference", "operation %zu of thread %d (%s) gave %s; alone it gives %s", i, t, g[t][i].op.c_str(), enc(a.substr(0, 700)).c_str(), enc(b.substr(0, 700)).c_str());
            }
        if (!faulted && got.kids != want.kids) fail("interference", "the plotting programs received something else");
        str w;
        if (vos::openHandles(&w)) fail("handle-leak", "%s", w.c_str());
        if (vos::misuse(&w)) fail("handle-misuse", "%s", w.c_str());
        if (got.live > want.live + (faulted ? 0 : 0) || (!faulted && got.live < want.live))
            fail(got.live > want.live ? "leak" : "lost", "%zu blocks (%zu bytes) are left where the same operations one after the other leave %zu (%zu bytes): %s", got.live, got.bytes, want.live, want.bytes, alloc::liveList(6).c_str());
        count("thread.events", thr::events());
        count("thread.switches", thr::switches());
        count(("threads." + num(n)).c_str());
        note(thr::events());
        note(thr::switches());
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        int n = r.chance(2, 3) ? 2 : r.range(3, thr::MAXT);
        p.add({ "param", "threads", num(n) });
        std::vector<str> names = work::names();
        // often the same few operations in every thread: what is shared is shared between equals
        std::vector<str> few;
        for (int i = 0, k = r.range(1, 3); i < k; i++) few.push_back(r.pick(names));
        bool same = r.chance(2, 3);
        bool oom = r.chance(1, 5);
        long seed = r.below(1000);
        for (int t = 0; t < n; t++)
            for (int i = 0, k = r.range(1, 4); i < k; i++)
            {
                Line l = { "do", num(t), same ? r.pick(few) : r.pick(names), num(r.chance(1, 2) ? seed : r.below(100000)) };
                if (oom && l[2] != "path" && r.chance(1, 3)) { l.push_back(num(1 + r.below(r.chance(1, 2) ? 10 : 80))); l.push_back(r.chance(1, 4) ? "-1" : "1"); }
                p.add(l);
            }
        int mode = r.below(4);
        auto dist = [&] { int b = r.below(15); return (long)(1 + r.below(1u << b)); };
        if (mode == 0) { int k = r.range(1, 4); for (int i = 0; i < k; i++) p.add({ "sw", num(dist()), num(r.below(n)) }); }
        else if (mode == 1) { int k = r.range(5, 60); for (int i = 0; i < k; i++) p.add({ "sw", num(dist()), num(r.below(n)) }); }
        else if (mode == 2) p.add({ "param", "every", num(1 + r.below(r.chance(1, 2) ? 20 : 2000)) });
        else { int k = r.range(1, 20); for (int i = 0; i < k; i++) p.add({ "sw", num(dist()), num(r.below(n)) }); p.add({ "param", "every", num(1 + r.below(5000)) }); }
        if (r.chance(1, 3)) for (int i = 0, k = r.range(1, 4); i < k; i++) p.add({ "chunk", num(1 + r.below(40)) });
    }
    Register reg({ "threads", gen, run, true, false });
}
