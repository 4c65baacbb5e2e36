// Plotting through a simulated child process which starts or not, reads all, some or nothing (C17).
#include "files.h"
#include <cmath>
#include <cstring>
#include <memory>
using namespace libube;
using namespace files;

namespace
{
    // What is sent by one write
    struct Item { char kind; str s; int type, dim, a, b; std::vector<double> x; };
    struct Write { str file; bool hasFile = false; std::vector<Item> items; bool bad = false; };
    // item tokens: c<text> | v<type>:<n>:<seed> | m<type>:<rows>:<cols>:<seed> | s<type>:<seed> | x<what>
    const int TYPES = 4;
    double value(Rng& r, int type)
    {
        if (type < 2) return r.range(-100000, 100000);
        // all of these have at most six digits
        double m = r.range(-999, 999), e[] = { 1, 0.5, 0.25, 0.125, 1000, 1e10, 1e-3 };
        return type == 2 ? (double)(float)(m * e[r.below(6)]) : m * e[r.below(7)];
    }
    Write parse(const Line& l)
    {
        Write w;
        // plot <obj> <file|-> items...
        if (l[2] != "-") { w.hasFile = true; w.file = sim::dec(l[2]); }
        for (size_t i = 3; i < l.size(); i++)
        {
            Item t;
            t.kind = l[i][0];
            t.type = t.dim = t.a = t.b = 0;
            str rest = l[i].substr(1);
            long f[4] = { 0, 0, 0, 0 };
            if (t.kind == 'c') t.s = sim::dec(rest);
            else if (t.kind == 'x') { t.type = atoi(rest.c_str()); w.bad = true; }
            else
            {
                sscanf(rest.c_str(), "%ld:%ld:%ld:%ld", f, f + 1, f + 2, f + 3);
                t.type = f[0] & 3;
                if (t.kind == 's') { t.a = 1; t.b = 1; f[3] = f[1]; }
                else if (t.kind == 'v') { t.a = f[1]; t.b = 1; f[3] = f[2]; }
                else { t.a = f[1]; t.b = f[2]; }
                Rng r(f[3]);
                for (int j = 0; j < t.a * t.b; j++) t.x.push_back(value(r, t.type));
            }
            w.items.push_back(t);
        }
        return w;
    }
    template <class T> var arr(const Item& t)
    {
        var v;
        if (t.kind == 's') return var((T)t.x[0]);
        if (t.kind == 'm')
        {
            v = view({ t.a, t.b }, (T)0);
            for (int i = 0; i < t.a; i++) for (int j = 0; j < t.b; j++) v(i, j) = (T)t.x[i * t.b + j];
        }
        else
        {
            v = (T)t.x[0];
            v.array();
            for (size_t i = 1; i < t.x.size(); i++) v.push((T)t.x[i]);
        }
        return v;
    }
    var make(const Item& t)
    {
        switch (t.kind)
        {
        case 'c': return S(t.s);
        case 'x':
        {
            var v;
            if (t.type == 0) return v;
            if (t.type == 1) { v[0] = "a"; v[1] = 2; return v; }
            if (t.type == 2) return view({ 2, 2, 2 }, 1.0f);
            v["k"] = 1;
            return v;
        }
        default:
            return t.type == 0 ? arr<int>(t) : t.type == 1 ? arr<long>(t) : t.type == 2 ? arr<float>(t) : arr<double>(t);
        }
    }
    // Reads what arrived as the program would; fails unless it is exactly this
    void program(const Write& w, const str& in)
    {
        size_t at = 0;
        auto line = [&](str& l) {
            if (at >= in.size()) return false;
            size_t e = in.find('\n', at);
            if (e == str::npos) sim::fail("received", "the last line is not ended: %s", files::show(in.substr(at)).c_str());
            l = in.substr(at, e - at);
            at = e + 1;
            return true;
        };
        str l;
        if (w.hasFile)
        {
            if (!line(l) || l != "set term post eps") sim::fail("received", "the terminal was set by %s", files::show(l).c_str());
            if (!line(l) || l != "set output \"" + w.file + "\"") sim::fail("received", "the output file was set by %s", files::show(l).c_str());
        }
        for (auto& t : w.items)
        {
            if (t.kind == 'c')
            {
                str want = t.s + "\n";
                if (in.compare(at, want.size(), want)) sim::fail("received", "command %s arrived as %s", files::show(t.s).c_str(), files::show(in.substr(at, want.size() + 20)).c_str());
                at += want.size();
                continue;
            }
            int rows = t.kind == 'm' ? t.b : t.a, cols = t.kind == 'm' ? t.a : 1;
            for (int r = 0; r < rows; r++)
            {
                if (!line(l)) sim::fail("received", "%d rows of %d arrived", r, rows);
                const char* q = l.c_str();
                for (int c = 0; c < cols; c++)
                {
                    char* e;
                    double x = strtod(q, &e), y = t.kind == 'm' ? t.x[c * t.b + r] : t.x[r];
                    if (e == q) sim::fail("received", "row %d is %s instead of %d numbers", r, files::show(l).c_str(), cols);
                    if (std::fabs(x - y) > (t.type == 2 ? 1e-6 : 1e-9) * std::fabs(y)) sim::fail("received", "row %d column %d is %.17g instead of %.17g: %s", r, c, x, y, files::show(l).c_str());
                    q = e;
                }
                while (*q == ' ' || *q == '\t') q++;
                if (*q) sim::fail("received", "row %d is %s instead of %d numbers", r, files::show(l).c_str(), cols);
            }
            do { if (!line(l)) sim::fail("received", "the end of the data did not arrive"); } while (l.empty());
            if (l != "e") sim::fail("received", "%s arrived instead of the end of the data", files::show(l).c_str());
        }
        if (at != in.size()) sim::fail("received", "%s arrived besides", files::show(in.substr(at)).c_str());
    }
    void run(const Plan& p)
    {
        struct Obj { file* f = 0; vos::Child* child = 0; std::shared_ptr<vos::Child> keep; int mod = 0; bool lost = false; };
        std::unique_ptr<filemodule> mods[2];
        std::vector<Obj> objs;
        int step = 0;
        auto shut = [&](Obj& o) {
            if (o.keep && (!o.keep->closed || o.keep->closes != 1)) sim::fail("not-waited", "the program was closed %d times when its module went", o.keep->closes);
            o.f = 0;
        };
        for (auto& l : p.lines)
        {
            if (l[0] == "start" && l.size() > 1)
            {
                // start <module> [stops after]
                step++;
                int m = toi(l[1]) % 2;
                long stops = p.iparam("stop" + num(step), -1);
                if (stops >= 0) vos::childStopsAfter(stops);
                vos::clearFaults();
                faults(p, ("fault" + num(step)).c_str());
                long oom = p.iparam("oom" + num(step));
                size_t before = vos::children().size();
                Obj o;
                o.mod = m;
                if (oom) sim::alloc::failAt(oom, 1);
                sim::Outcome q = sim::sut([&] { if (!mods[m]) mods[m].reset(new filemodule("gnuplot")); o.f = &mods[m]->create(); });
                bool nomem = oom && sim::alloc::failed();
                sim::alloc::heal();
                bool broken = vos::fired() > 0;
                vos::clearFaults();
                vos::childStopsAfter(-1);
                size_t after = vos::children().size();
                sim::note(q.kind);
                if (!q.ok())
                {
                    if (!broken && !nomem) sim::fail("unexpected-exception", "starting raised %s", q.what.substr(0, 200).c_str());
                    for (size_t i = before; i < after; i++) if (!vos::children()[i]->closed) sim::fail("handle-leak", "the program was started and left although making the object raised");
                    sim::count("op.start.refused");
                    continue;
                }
                if (broken) sim::fail("unreported", "the program did not start and no error was raised");
                if (after != before + 1) sim::fail("received", "%zu programs were started", after - before);
                o.keep = vos::children().back();
                if (o.keep->command.compare(0, 7, "gnuplot")) sim::fail("received", "the program started is %s", o.keep->command.c_str());
                objs.push_back(o);
                sim::count("op.start");
            }
            else if (l[0] == "stop" && l.size() > 1)
            {
                int m = toi(l[1]) % 2;
                sim::Outcome q = sim::sut([&] { mods[m].reset(); });
                if (!q.ok()) sim::fail("unexpected-exception", "dropping the module raised %s", q.what.substr(0, 200).c_str());
                for (auto& o : objs) if (o.f && o.mod == m) shut(o);
                sim::count("op.stop");
            }
            else if ((l[0] == "plot" || l[0] == "read") && l.size() > 1)
            {
                step++;
                if (objs.empty()) continue;
                Obj& o = objs[toi(l[1]) % objs.size()];
                if (!o.f) continue;
                if (l[0] == "read")
                {
                    sim::Outcome q = sim::sut([&] { var v = o.f->read("x"); });
                    if (q.ok()) sim::fail("unreported", "reading from a plot succeeded");
                    continue;
                }
                if (l.size() < 3) continue;
                Write w = parse(l);
                vos::clearFaults();
                vos::chunks({}, p.iparam("frag" + num(step)) ? std::vector<int>{ (int)p.iparam("frag" + num(step)) } : std::vector<int>());
                std::vector<str> others;
                for (auto& x : objs) others.push_back(x.keep->input);
                str had = o.keep->input;
                long oom = p.iparam("oom" + num(step));
                var v;
                sim::Outcome mk = sim::sut([&] { for (size_t i = 0; i < w.items.size(); i++) v[(int)i] = make(w.items[i]); if (w.items.empty()) { v = 0; v.array(); v.pop(); } });
                if (!mk.ok()) sim::harness("making the argument raised %s", mk.what.c_str());
                faults(p, ("fault" + num(step)).c_str());
                var fl;
                sim::sut([&] { if (w.hasFile) fl = S(w.file); });
                if (oom) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
                sim::Outcome q = sim::sut([&] { o.f->write(fl, v); });
                bool nomem = oom && sim::alloc::failed();
                sim::alloc::heal();
                bool broken = vos::fired() > 0;
                vos::clearFaults();
                sim::sut([&] { v = nil; fl = nil; });
                str in = o.keep->input;
                for (size_t i = 0; i < objs.size(); i++) if (&objs[i] != &o && objs[i].keep->input != others[i]) sim::fail("received", "another program received something");
                if (in.compare(0, had.size(), had)) sim::fail("received", "what was received before has changed");
                str got = in.substr(had.size());
                sim::note(sim::mix(sim::hash(got), q.kind));
                sim::state(sim::mix(sim::hash(got), q.kind * 8 + broken * 4 + nomem * 2 + w.bad));
                sim::trace("write %d: %s, %zu bytes: %s", step, q.ok() ? "returned" : q.what.substr(0, 60).c_str(), got.size(), files::show(got).c_str());
                if (q.ok())
                {
                    if (broken) sim::fail("unreported", "the data could not be sent and no error was raised (%zu bytes arrived)", got.size());
                    if (w.bad) sim::fail("unreported", "data which cannot be plotted gave no error");
                    // whatever was cut off before must not be completed by this
                    if (o.lost && !had.empty() && had.back() != '\n' && !got.empty()) sim::fail("received", "what follows a line cut off by a failure was taken for the rest of it");
                    program(w, got);
                    sim::count("op.write");
                }
                else
                {
                    if (!broken && !nomem && !w.bad && !o.lost) sim::fail("unexpected-exception", "writing raised %s", q.what.substr(0, 200).c_str());
                    if (!broken && !got.empty()) sim::fail("partial", "%zu bytes arrived of data that were refused for another reason", got.size());
                    if (q.kind == sim::THREW && q.what.empty()) sim::fail("no-reason", "the error has no text");
                    if (broken) o.lost = true;
                    sim::count(broken ? "op.write.broken" : "op.write.refused");
                }
            }
        }
        for (int m = 0; m < 2; m++)
        {
            sim::sut([&] { mods[m].reset(); });
            for (auto& o : objs) if (o.f && o.mod == m) shut(o);
        }
        for (auto& c : vos::children()) if (!c->closed || c->closes != 1) sim::fail("not-waited", "a program was closed %d times", c->closes);
        handles("at the end");
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        p.add({ "start", "0" });
        int n = r.range(1, 8), step = 1, live = 1;
        auto fault = [&](bool start) {
            str f = "fault" + num(step);
            if (start)
            {
                int k = r.below(4);
                if (k == 0) p.add({ f, "popen", "1", r.chance(1, 2) ? "emfile" : "enomem" });
                else if (k == 1) p.add({ "param", "stop" + num(step), num(r.chance(1, 2) ? 0 : r.below(300)) });
                else if (k == 2) p.add({ "param", "oom" + num(step), num(1 + r.below(6)) });
                return;
            }
            static const char* q[] = { "eio", "epipe", "epipe+", "eintr", "short", "delay" };
            if (r.chance(1, 4)) { p.add({ "param", "oom" + num(step), num(1 + r.below(r.chance(1, 2) ? 10 : 60)) }); if (r.chance(1, 4)) p.add({ "param", "oomburst", "-1" }); }
            else p.add({ f, "pipe", num(1 + r.below(r.chance(1, 2) ? 2 : 8)), q[r.below(6)], num(1 + r.below(40)) });
            if (r.chance(1, 3)) p.add({ "param", "frag" + num(step), num(1 + r.below(50)) });
        };
        if (r.chance(1, 3)) fault(true);
        for (int i = 0; i < n; i++)
        {
            int k = r.below(20);
            if (k == 0) { p.add({ "start", num(r.below(2)) }); step++; if (r.chance(1, 3)) fault(true); live++; continue; }
            if (k == 1 && i > 2) { p.add({ "stop", num(r.below(2)) }); continue; }
            if (k == 2) { p.add({ "read", "0" }); step++; continue; }
            Line l = { "plot", num(r.below(live)), r.chance(1, 3) ? sim::enc(str("out") + num(r.below(100)) + ".eps") : str("-") };
            int m = r.chance(1, 10) ? 0 : r.range(1, 6);
            for (int j = 0; j < m; j++)
            {
                int q = r.below(10);
                if (q < 4)
                {
                    str c;
                    int len = r.chance(1, 12) ? r.range(1000, 9000) : r.below(40);
                    while ((int)c.size() < len) c += r.chance(1, 30) ? '\n' : r.chance(1, 20) ? (char)(128 + r.below(128)) : (char)(32 + r.below(95));
                    l.push_back("c" + sim::enc(c));
                }
                else if (q < 7) l.push_back("v" + num(r.below(4)) + ":" + num(r.chance(1, 15) ? r.range(300, 3000) : r.range(1, 12)) + ":" + num(r.below(100000)));
                else if (q < 9) l.push_back("m" + num(r.below(4)) + ":" + num(r.range(1, 5)) + ":" + num(r.chance(1, 15) ? r.range(100, 600) : r.range(1, 6)) + ":" + num(r.below(100000)));
                else l.push_back("s" + num(r.below(4)) + ":" + num(r.below(100000)));
            }
            if (r.chance(1, 12)) l.insert(l.begin() + 3 + r.below(l.size() - 2), "x" + num(r.below(4)));
            p.add(l);
            step++;
            if (r.chance(1, 3)) fault(false);
        }
    }
    sim::Register reg({ "gnuplot", gen, run, false, true });
}
