// Everything that opens anything, with failures anywhere, again and again (C20).
#include "files.h"
#include "wavmodel.h"
#include <lube/curl.h>
#include <lube/path.h>
#include <lube/graph.h>
#include <map>
#include <memory>
using namespace libube;
using namespace files;

namespace
{
    const char* XML = "<?xml version=\"1.0\"?><a x=\"1\"><b>text</b><c/>tail</a>";
    const char* GED = "0 HEAD\n1 SOUR x\n1 CHAR UTF-8\n0 @I1@ INDI\n1 NAME A /B/\n1 SEX M\n0 @F1@ FAM\n1 HUSB @I1@\n0 TRLR\n";
    str contents(const str& type, Rng& r)
    {
        if (type == "xml") return XML;
        if (type == "ged") return GED;
        if (type == "ini") return "top = 1\n[sec]\nkey = value\nother = 2\n";
        if (type == "txt") { str s; for (int i = r.below(40); i >= 0; i--) s += str(r.below(200), 'x') + "\n"; return s; }
        wavm::Signal s, q;
        s.ch = 1 + r.below(2);
        s.rate = 8000;
        int n = 1 + r.below(200);
        for (int c = 0; c < s.ch; c++) s.x.push_back(std::vector<float>(n, 0.25f));
        size_t e;
        return wavm::wav(s, 16, q, r, false, &e);
    }
    struct Kept
    {
        std::map<str, std::unique_ptr<module>> m;
        std::map<str, libube::file*> f;
        curl* c = 0;
        graph* g = 0;
        path* p = 0;
        void drop(str t) { m[t].reset(); m.erase(t); f.erase(t); if (t == "curl") c = 0; if (t == "graph") g = 0; if (t == "path") p = 0; }
    };
    // what there is to save
    var value(const str& type)
    {
        var v;
        if (type == "txt") { v.array(); v.resize(0); v.push("one"); v.push("two"); v.push(3); }
        else if (type == "ini") { v["s"]["k"] = "v"; v[""]["t"] = "u"; }
        else if (type == "xml") { v["name"] = "a"; v["data"] = "text"; }
        else if (type == "snd") v = view({ 20 }, 0.5f);
        else if (type == "gnuplot") { v[0] = "plot '-'"; v[1] = view({ 3 }, 1.5f); v[2] = "pause 1"; }
        return v;
    }
    struct Did { bool ok = false, nomem = false; str what; };
    // one operation on the objects of k; raises what the library raises
    void perform(Kept& k, const str& type, const str& what, const str& path)
    {
        auto fileOf = [&](const str& t) -> libube::file& {
            if (!k.f.count(t))
            {
                std::unique_ptr<filemodule> m(new filemodule(S(t)));
                var a;
                if (t == "snd") a["rate"] = 8000;
                libube::file* f = &m->create(a);
                sim::Host h;
                k.f[t] = f;
                k.m[t] = std::move(m);
            }
            return *k.f[t];
        };
        if (type == "curl")
        {
            if (!k.c) { std::unique_ptr<curlmodule> m(new curlmodule); curl* c = &m->create(); sim::Host h; k.c = c; k.m[type] = std::move(m); }
            var v = k.c->transfer("http://10.0.0.1/f");
        }
        else if (type == "path")
        {
            std::unique_ptr<pathmodule> m(new pathmodule);
            libube::path& p = m->create(S(path));
            var v = what == "0" ? p.dir() : what == "1" ? p.rdir() : p.tree();
        }
        else if (type == "graph")
        {
            std::unique_ptr<graphmodule> m(new graphmodule);
            graph& g = m->create();
            g.addVertex();
            g.addVertex();
            g.addEdge(0, 1);
            g.writeGraphViz(S(path));
        }
        else if (what == "write") { var v = value(type); fileOf(type).write(type == "gnuplot" ? var(nil) : S(path), v); }
        else { var v = fileOf(type).read(S(path)); }
    }
    void run(const Plan& p)
    {
        Rng r(p.iparam("seed", 1));
        static const char* types[] = { "txt", "ini", "xml", "ged", "snd" };
        for (auto t : types) vos::put(str("/sim/ok.") + t, contents(t, r));
        vos::put("/sim/d/one", "1");
        vos::put("/sim/d/e/two", "2");
        vos::put("/sim/d/e/f/three", "3");
        vos::mkdirs("/sim/d/g");
        vos::mkdirs("/sim/out");
        Kept kept;
        int step = 0;
        auto serve = [&](int kind, Rng& d) {
            net::Response s;
            str b(d.below(3000), 'b'), t = "HTTP/1.1 200 OK\r\nContent-Length: " + num(b.size()) + "\r\n\r\n" + b;
            s.end = kind == 0 ? "close" : kind == 1 ? "reset" : "close";
            if (kind == 2) t.resize(d.below(t.size()));
            if (kind == 3) s.connect = "refused";
            for (size_t i = 0; i < t.size(); i += 700) s.pieces.push_back({ t.substr(i, 700), 0 });
            net::server().script.assign(1, s);
            net::server().next = 0;
        };
        auto check = [&](const char* when) {
            str w;
            size_t pipes = 0;
            for (auto& c : vos::children()) if (!c->closed) pipes++;
            size_t allowed = kept.f.count("gnuplot") ? 1 : 0;
            if (pipes > allowed) sim::fail("handle-leak", "%s: %zu pipes to programs are open instead of %zu", when, pipes, allowed);
            for (auto& c : vos::children()) if (c->closes > 1) sim::fail("handle-misuse", "%s: a pipe was closed %d times", when, c->closes);
            vos::openHandles(&w);
            str o;
            size_t libs = 0;
            for (size_t i = 0; i < w.size(); )
            {
                size_t e = std::min(w.find("; ", i), w.size());
                str x = w.substr(i, e - i);
                if (!x.compare(0, 8, "library ")) libs++;
                else if (x.find("pipe to") == str::npos) o += x + "; ";
                i = e + 2;
            }
            if (!o.empty()) sim::fail("handle-leak", "%s: %s", when, o.c_str());
            if (libs > kept.m.size()) sim::fail("handle-leak", "%s: %zu libraries are loaded and %zu modules exist: %s", when, libs, kept.m.size(), w.c_str());
            if (vos::misuse(&w)) sim::fail("handle-misuse", "%s: %s", when, w.c_str());
        };
        for (auto& l : p.lines)
        {
            if (l[0] != "op" || l.size() < 6) continue;
            // op <type> <what> <path> <fresh> <times>
            step++;
            str type = l[1], what = l[2], path = sim::dec(l[3]), when;
            bool fresh = toi(l[4]);
            int times = 1 + toi(l[5]) % 40;
            if (path.compare(0, 9, "/sim/bad.") == 0)
            {
                // a damaged file of the type
                Rng d(toi(p.param("dmg" + num(step), "1")));
                str b = contents(path.substr(9), d);
                if (d.chance(1, 2)) b.resize(d.below(b.size() + 1));
                else for (int i = 1 + d.below(4); i > 0 && !b.empty(); i--) b[d.below(b.size())] = (char)d.below(256);
                vos::put(path, b);
            }
            if (fresh) sim::sut([&] { kept.drop(type); });
            Rng d(step);
            int okay = 0;
            for (int t = 0; t < times; t++)
            {
                if (type == "curl") serve(p.iparam("net" + num(step)), d);
                vos::clearFaults();
                faults(p, ("fault" + num(step)).c_str());
                vos::diskSpace(p.iparam("space" + num(step), -1));
                long stop = p.iparam("stop" + num(step), -1);
                if (type == "gnuplot" && stop >= 0) vos::childStopsAfter(stop);
                long oom = type == "path" ? 0 : p.iparam("oom" + num(step));
                if (oom) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
                sim::Outcome o = sim::sut([&] { perform(kept, type, what, path); });
                sim::alloc::heal();
                bool fired = vos::fired() > 0;
                vos::clearFaults();
                vos::diskSpace(-1);
                vos::childStopsAfter(-1);
                okay += o.ok();
                when = type + " " + what + (o.ok() ? " returned" : " raised " + o.what.substr(0, 60)) + ", time " + num(t + 1);
                sim::note(sim::mix(o.kind, fired));
                sim::state(sim::mix(sim::hash(type + what + path), sim::mix(vos::syscalls(), o.kind * 2 + fired)));
                sim::count(o.ok() ? "op.returned" : "op.raised");
                check(when.c_str());
                if (fresh) { sim::sut([&] { kept.drop(type); }); check("after dropping the module"); }
            }
        }
        // with everything healthy again, everything works
        for (auto t : types)
        {
            sim::Outcome o = sim::sut([&] { perform(kept, t, "read", str("/sim/ok.") + t); });
            if (!o.ok()) sim::fail("not-repeatable", "%s: after the failures, a healthy file raised %s", t, o.what.substr(0, 150).c_str());
            check("after a healthy read");
        }
        sim::Outcome o = sim::sut([&] { perform(kept, "path", "1", "/sim/d"); });
        if (!o.ok()) sim::fail("not-repeatable", "after the failures, listing raised %s", o.what.substr(0, 150).c_str());
        check("after a healthy listing");
        Rng d(1);
        serve(0, d);
        o = sim::sut([&] { perform(kept, "curl", "", ""); });
        if (!o.ok()) sim::fail("not-repeatable", "after the failures, a transfer raised %s", o.what.substr(0, 150).c_str());
        check("after a healthy transfer");
        while (!kept.m.empty()) sim::sut([&] { kept.drop(kept.m.begin()->first); });
        for (auto& c : vos::children()) if (!c->closed || c->closes != 1) sim::fail("handle-leak", "a program was closed %d times", c->closes);
        handles("at the end");
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        p.add({ "param", "seed", num(r.below(10000)) });
        int n = r.range(1, 6);
        for (int i = 1; i <= n; i++)
        {
            static const char* types[] = { "txt", "txt", "ini", "ini", "xml", "xml", "ged", "snd", "snd", "gnuplot", "curl", "path", "path", "graph" };
            str t = types[r.below(14)], what = "read", path;
            if (t == "path") { what = num(r.below(3)); path = r.chance(1, 8) ? "/sim/none" : r.chance(1, 8) ? "/sim/d/one" : "/sim/d"; }
            else if (t == "graph" || t == "gnuplot") { what = "write"; path = r.chance(1, 8) ? "/sim/none/x" : "/sim/out/g"; }
            else if (t == "curl") { what = "get"; path = "-"; p.add({ "param", "net" + num(i), num(r.below(4)) }); }
            else
            {
                if (t != "ged" && r.chance(1, 2)) { what = "write"; path = r.chance(1, 8) ? "/sim/none/x" : r.chance(1, 8) ? "/sim/out" : "/sim/out/" + t; }
                else
                {
                    int q = r.below(10);
                    str e = t;
                    path = q == 0 ? "/sim/none" : q == 1 ? "/sim/out" : q < 5 ? "/sim/bad." + e : "/sim/ok." + e;
                    if (q == 2) path = "/sim/bad.xml";
                    if (q > 1 && q < 5) p.add({ "param", "dmg" + num(i), num(r.below(100000)) });
                }
            }
            p.add({ "op", t, what, sim::enc(path), num(r.chance(1, 3)), num(r.chance(1, 5) ? r.below(40) : r.below(3)) });
            if (r.chance(1, 8)) continue;
            str f = "fault" + num(i);
            int k = r.below(10);
            static const char* kinds[] = { "eio", "enomem", "emfile", "eacces", "enospc", "eintr", "eio" };
            if (k < 5) { int m = r.range(1, 3); for (int j = 0; j < m; j++) p.add({ f, "any", num(1 + r.below(r.chance(1, 2) ? 6 : 40)), kinds[r.below(7)] }); }
            else if (k < 6)
            {
                static const char* cls[] = { "open", "read", "write", "close", "fstat", "seek", "readdir", "fdopendir", "stat", "popen", "pipe", "socket", "connect", "recv", "send", "dlopen", "dlsym" };
                const char *c = cls[r.below(17)], *q = kinds[r.below(7)]; p.add({ f, c, num(1 + r.below(4)), str(c) == "close" && str(q) == "eintr" ? "eio" : q });
            }
            else if (k < 9) { p.add({ "param", "oom" + num(i), num(1 + r.below(r.chance(1, 2) ? 15 : 120)) }); }
            else p.add({ "param", "space" + num(i), num(r.below(200)) });
            if (t == "gnuplot" && r.chance(1, 2)) p.add({ "param", "stop" + num(i), num(r.below(40)) });
        }
        if (r.chance(1, 6)) p.add({ "param", "oomburst", num(r.chance(1, 2) ? -1 : r.range(2, 4)) });
    }
    // Boost's statics stay for good once a graph was written
    void warm()
    {
        vos::mkdirs("/sim/out");
        Kept k;
        try { perform(k, "graph", "write", "/sim/out/w"); } catch (std::exception&) { }
        try { for (auto t : { "txt", "ini", "xml", "ged", "snd" }) perform(k, t, "read", "/sim/none"); } catch (std::exception&) { }
    }
    sim::Warm w(warm);
    sim::Register reg({ "handles", gen, run, false, false });
}
