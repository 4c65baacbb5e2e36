// Timers under a simulated clock whose wall time jumps (C22).
#include "files.h"
#include <cmath>
#include <cstdlib>
#include <memory>
using namespace libube;
using namespace files;

namespace
{
    struct T { std::unique_ptr<timer> t; str name; sim::u64 lo, hi; };
    void advance(const Line& l)
    {
        if (l.size() < 2) return;
        if (l[0] == "sleep") vos::advance(strtoull(l[1].c_str(), 0, 10));
        else if (l[0] == "jump") { vos::wallJump(strtoll(l[1].c_str(), 0, 10)); sim::count(l[1][0] == '-' ? "fault.clock.back" : "fault.clock.forward"); }
        else if (l[0] == "busy")
        {
            // the program looks at clocks and files meanwhile
            sim::sut([&] { var v; for (long i = toi(l[1]) % 50; i > 0; i--) v[0] = (int)i; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); });
        }
    }
    // a name can be anything
    var nameOf(const str& n)
    {
        if (n.compare(0, 2, "\x01i") == 0) return var((int)toi(n.substr(2)));
        if (n.compare(0, 2, "\x01""d") == 0) return var(atof(n.c_str() + 2));
        if (n.compare(0, 2, "\x01""a") == 0) { var v; v[0] = S(n.substr(2)); v[1] = 7; return v; }
        return S(n);
    }
    // "<name>: <ms> ms", the time between the two bounds
    void check(const str& out, const str& name, sim::u64 lo, sim::u64 hi)
    {
        // the name in its text form
        str head;
        sim::sut([&] { varstream vs; vs << nameOf(name); head = bytes(var(vs)); });
        head += ": ";
        if (out.compare(0, head.size(), head)) sim::fail("report", "timer %s says %s", files::show(name).c_str(), files::show(out).c_str());
        char* e;
        const char* q = out.c_str() + head.size();
        double ms = strtod(q, &e);
        if (e == q || str(e) != " ms\n") sim::fail("report", "timer %s says %s", files::show(name).c_str(), files::show(out).c_str());
        double a = lo / 1e6, b = hi / 1e6, tol = 6e-6;
        if (ms < a - a * tol || ms > b + b * tol) sim::fail("elapsed", "timer %s reports %.17g ms when %.17g ms had passed", files::show(name).c_str(), ms, a);
    }
    void nested(const Plan& p, size_t at, int depth, bool thrown)
    {
        // timers on the stack, left in order or by an exception
        if (depth == 0) { if (thrown) throw error("left"); return; }
        str name;
        { sim::Host h; name = "n" + num(depth); }
        timer t(S(name));
        {
            sim::Host h;
            advance(p.lines[at + depth < p.lines.size() ? at + depth : at]);
        }
        nested(p, at, depth - 1, thrown);
    }
    void run(const Plan& p)
    {
        std::vector<T> live;
        sim::takeOutput();
        for (size_t at = 0; at < p.lines.size(); at++)
        {
            auto& l = p.lines[at];
            if (l[0] == "begin" && l.size() > 1)
            {
                T t;
                t.name = sim::dec(l[1]).substr(1);
                t.lo = vos::nowNs();
                sim::Outcome o = sim::sut([&] { t.t.reset(new timer(nameOf(t.name))); });
                t.hi = vos::nowNs();
                if (!o.ok()) sim::fail("unexpected-exception", "a timer raised %s", o.what.substr(0, 100).c_str());
                live.push_back(std::move(t));
                sim::count("op.begin");
            }
            else if (l[0] == "end" && l.size() > 1)
            {
                if (live.empty()) continue;
                size_t i = toi(l[1]) % live.size();
                if (!sim::takeOutput().empty()) sim::fail("report", "something was printed before the timer went");
                sim::u64 a = vos::nowNs();
                sim::Outcome o = sim::sut([&] { live[i].t.reset(); });
                sim::u64 b = vos::nowNs();
                if (!o.ok()) sim::fail("unexpected-exception", "a timer raised %s", o.what.substr(0, 100).c_str());
                str out = sim::takeOutput();
                sim::trace("%s", out.c_str());
                sim::note(sim::hash(out));
                sim::state(sim::mix(sim::hash(out), live.size()));
                check(out, live[i].name, a - live[i].hi, b - live[i].lo);
                live.erase(live.begin() + i);
                sim::count("op.end");
            }
            else if (l[0] == "nest" && l.size() > 2)
            {
                int depth = 1 + toi(l[1]) % 6;
                bool thrown = toi(l[2]);
                if (!sim::takeOutput().empty()) sim::fail("report", "something was printed before a timer went");
                sim::u64 t0 = vos::nowNs();
                sim::Outcome o = sim::sut([&] { nested(p, at, depth, thrown); });
                if (o.ok() == thrown) sim::fail("unexpected-exception", "nested timers raised %s", o.what.substr(0, 100).c_str());
                sim::u64 t1 = vos::nowNs();
                str out = sim::takeOutput();
                sim::note(sim::hash(out));
                // the innermost goes first; its share of the time is bounded by the whole
                double last = -1;
                for (int d = 1; d <= depth; d++)
                {
                    size_t e = out.find('\n');
                    if (e == str::npos) sim::fail("report", "%d of %d nested timers reported", d - 1, depth);
                    str line = out.substr(0, e + 1);
                    out = out.substr(e + 1);
                    check(line, "n" + num(d), d == depth ? t1 - t0 : 0, t1 - t0);
                    double ms = atof(line.c_str() + line.find(": ") + 2);
                    if (ms < last * (1 - 1e-5)) sim::fail("elapsed", "an inner timer reports %g ms and the outer one %g", last, ms);
                    last = ms;
                }
                if (!out.empty()) sim::fail("report", "nested timers said %s besides", files::show(out).c_str());
                sim::count("op.nest");
            }
            else advance(l);
        }
        while (!live.empty())
        {
            sim::u64 a = vos::nowNs();
            sim::sut([&] { live.back().t.reset(); });
            check(sim::takeOutput(), live.back().name, a - live.back().hi, vos::nowNs() - live.back().lo);
            live.pop_back();
        }
        handles("at the end");
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        int n = r.range(3, 40);
        auto span = [&](Rng& r) {
            static const sim::u64 unit[] = { 1, 1000, 1000000, 1000000000ull, 60000000000ull, 3600000000000ull, 86400000000000ull };
            return unit[r.below(7)] * (1 + r.below(r.chance(1, 4) ? 1000 : 60));
        };
        for (int i = 0; i < n; i++)
        {
            int k = i == 0 ? 0 : r.below(12);
            if (k < 3)
            {
                str name = "s";
                int len = r.chance(1, 10) ? r.range(100, 500) : r.below(12);
                while ((int)name.size() < len) name += (char)(32 + r.below(95));
                if (r.chance(1, 5)) { int q = r.below(3); name = q == 0 ? "s\x01i" + num(r.range(-100, 100000)) : q == 1 ? str("s\x01""d0.5") : "s\x01""a" + name.substr(1); }
                p.add({ "begin", sim::enc(name) });
            }
            else if (k < 6) p.add({ "end", num(r.below(10)) });
            else if (k < 9) p.add({ "sleep", std::to_string(span(r)) });
            else if (k < 10) p.add({ "jump", (r.chance(1, 2) ? "-" : "") + std::to_string(span(r)) });
            else if (k < 11) p.add({ "busy", num(r.below(50)) });
            else p.add({ "nest", num(r.below(6)), num(r.below(2)) });
        }
    }
    sim::Register reg({ "timer", gen, run, false, true });
}
