// Loading modules, making instances, failing and unloading, on a simulated loader (C18).
#include "files.h"
#include <lube/curl.h>
#include <lube/path.h>
#include <lube/graph.h>
#include <cstring>
#include <exception>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
using namespace libube;
using namespace files;

namespace
{
    struct Inst { int id; str lib; int destroyed = 0; bool afterClose = false; };
    struct World { std::map<int, Inst> inst; int made = 0; bool dead = false; };
    World* W;
    bool isOpen(const str& lib)
    {
        int n = 0;
        for (auto& e : vos::dlEvents()) if (e.lib == lib) { if (e.what == "open") n++; if (e.what == "close") n--; }
        return n > 0;
    }
    // what a simulated library makes
    struct Base
    {
        int id;
        explicit Base(const str& lib) { sim::Host h; id = ++W->made; Inst i; i.id = id; i.lib = lib; W->inst[id] = i; }
        ~Base()
        {
            sim::Host h;
            if (!W) return;
            Inst& i = W->inst[id];
            i.destroyed++;
            if (!isOpen(i.lib)) i.afterClose = true;
        }
    };
    struct ProbeFile : file, Base
    {
        var keep;
        explicit ProbeFile(const str& lib, var a) : Base(lib), keep(a) {}
        var read(var f)
        {
            var v;
            v[0] = id;
            v[1] = f;
            v[2] = keep;
            return v;
        }
        void write(var f, var v) { keep = v; }
    };
    struct ProbeOther : Module, Base { explicit ProbeOther(const str& lib) : Base(lib) {} };
    struct ProbeCurl : curl, Base { explicit ProbeCurl(const str& lib) : Base(lib) {} var transfer(var u) { return id; } };

    void probeFactory(Module** o, var a)
    {
        // the argument says what to do: [mode, library, text]
        var m = a[0], l = a[1];
        str mode = bytes(m), lib = bytes(l);
        if (mode == "null") return;
        if (mode == "error") throw error(a[2]);
        if (mode == "runtime") throw std::runtime_error(bytes(a[2]));
        if (mode == "logic") throw std::logic_error(bytes(a[2]));
        if (mode == "other") { *o = new ProbeOther(lib); return; }
        if (mode == "curl") { *o = new ProbeCurl(lib); return; }
        *o = new ProbeFile(lib, a[2]);
    }
    struct Slot
    {
        str type, kind;            // kind of module object: file, curl, path, graph
        std::unique_ptr<module> m;
        filemodule* fm = 0;
        std::vector<file*> files;
        std::vector<int> ids;      // of probe instances
        std::vector<str> tags;
    };
    void run(const Plan& p)
    {
        World world;
        W = &world;
        vos::probeFactory((void*)(void (*)(Module**, var))probeFactory);
        vos::put("/sim/a.txt", "one\ntwo\n");
        vos::put("/sim/a.ini", "[s]\nk = v\n");
        vos::put("/sim/a.xml", "<a b='c'>text</a>");
        std::vector<Slot> slot(6);
        struct Ex { std::exception_ptr e; str what; };
        std::vector<Ex> kept;
        int step = 0, loads = 0;
        auto check = [&](const char* when) {
            for (auto& i : world.inst)
            {
                if (i.second.destroyed > 1) sim::fail("destroyed-twice", "%s: instance %d of %s was destroyed %d times", when, i.first, i.second.lib.c_str(), i.second.destroyed);
                if (i.second.afterClose) sim::fail("unloaded-first", "%s: instance %d of %s was destroyed after its library was released", when, i.first, i.second.lib.c_str());
            }
            std::map<str, int> n;
            for (auto& e : vos::dlEvents()) { if (e.what == "open") n[e.lib]++; if (e.what == "close") n[e.lib]--; }
            std::map<str, int> want;
            for (auto& s : slot) if (s.m) want["lib" + s.type + ".so"]++;
            for (auto& x : n) if (x.second != (want.count(x.first) ? want[x.first] : 0)) sim::fail("handle-leak", "%s: %s is loaded %d times instead of %d", when, x.first.c_str(), x.second, want.count(x.first) ? want[x.first] : 0);
            str w;
            if (vos::misuse(&w)) sim::fail("handle-misuse", "%s: %s", when, w.c_str());
        };
        auto alive = [&](const char* when) {
            std::set<int> want;
            for (auto& s : slot) for (int id : s.ids) want.insert(id);
            for (auto& i : world.inst)
            {
                if (want.count(i.first) && i.second.destroyed) sim::fail("destroyed-early", "%s: instance %d of %s is gone although its module is there", when, i.first, i.second.lib.c_str());
                if (!want.count(i.first) && !i.second.destroyed) sim::fail("instance-leak", "%s: instance %d of %s was not destroyed", when, i.first, i.second.lib.c_str());
            }
        };
        for (auto& l : p.lines)
        {
            if (l.size() < 2 || l[0] == "param" || !l[0].compare(0, 5, "fault")) continue;
            Slot& s = slot[toi(l[1]) % slot.size()];
            step++;
            long oom = p.iparam("oom" + num(step));
            size_t before = sim::alloc::liveBlocks();
            vos::clearFaults();
            faults(p, ("fault" + num(step)).c_str());
            if (l[0] == "load" && l.size() > 3)
            {
                if (s.m) { vos::clearFaults(); continue; }
                // load <slot> <kind> <type>
                str type = l[3];
                if (type == "probe" || type == "nofactory" || type == "missing") type += num(++loads);
                if (l[2] != "file" && type != l[2]) type = l[2];
                std::unique_ptr<module> m;
                filemodule* fm = 0;
                std::exception_ptr ep;
                sim::Outcome q;
                {
                    var t = S(type);
                    if (oom) sim::alloc::failAt(oom, 1);
                    q = sim::sut([&] {
                        try
                        {
                            if (l[2] == "curl") m.reset(new curlmodule);
                            else if (l[2] == "path") m.reset(new pathmodule);
                            else if (l[2] == "graph") m.reset(new graphmodule);
                            else { fm = new filemodule(t); m.reset(fm); }
                        }
                        catch (...) { ep = std::current_exception(); throw; }
                    });
                }
                bool nomem = oom && sim::alloc::failed(), broken = vos::fired() > 0;
                sim::alloc::heal();
                vos::clearFaults();
                bool bad = type.compare(0, 9, "nofactory") == 0 || type.compare(0, 7, "missing") == 0;
                sim::trace("load %s: %s", type.c_str(), q.ok() ? "ok" : q.what.substr(0, 100).c_str());
                sim::note(sim::mix(sim::hash(type), q.kind));
                if (q.ok())
                {
                    if (bad || broken) sim::fail("unreported", "loading %s succeeded", type.c_str());
                    s = Slot();
                    s.type = type;
                    s.kind = l[2];
                    s.m = std::move(m);
                    s.fm = fm;
                    sim::count("op.load");
                }
                else
                {
                    if (!bad && !broken && !nomem) sim::fail("unexpected-exception", "loading %s raised %s", type.c_str(), q.what.substr(0, 200).c_str());
                    if (!nomem && q.what.find(type) == str::npos) sim::fail("no-reason", "loading %s raised only %s", type.c_str(), q.what.substr(0, 200).c_str());
                    size_t held = sim::alloc::liveBlocks();
                    if (q.kind == sim::THREW && toi(p.param("hold", "0"))) kept.push_back({ ep, q.what });
                    ep = nullptr;
                    size_t now = sim::alloc::liveBlocks();
                    if (kept.empty() && now > before) sim::fail("leak", "a failed load left %zu blocks (%zu while the error lived): %s", now - before, held - before, sim::alloc::liveList(3).c_str());
                    sim::count("op.load.failed");
                }
            }
            else if (l[0] == "create" && l.size() > 2)
            {
                if (!s.m) { vos::clearFaults(); continue; }
                bool probe = s.type.compare(0, 5, "probe") == 0;
                str mode = l[2], tag = "tag" + num(step), lib = "lib" + s.type + ".so";
                var arg;
                if (probe) sim::sut([&] { arg[0] = S(mode); arg[1] = S(lib); arg[2] = S(tag); });
                before = sim::alloc::liveBlocks();
                bool firstOnes = s.files.empty();
                file* f = 0;
                std::exception_ptr ep;
                int made = world.made;
                if (oom) sim::alloc::failAt(oom, 1);
                sim::Outcome q = sim::sut([&] {
                    try
                    {
                        if (s.kind == "file") f = &s.fm->create(arg);
                        else s.m->create(arg);
                    }
                    catch (...) { ep = std::current_exception(); throw; }
                });
                bool nomem = oom && sim::alloc::failed(), broken = vos::fired() > 0;
                sim::alloc::heal();
                vos::clearFaults();
                // "curl" and "graph" loaded as file handlers make things of another type
                bool wrong = probe ? (mode == "other" || mode == "curl") : s.kind == "file" && (s.type == "curl" || s.type == "path" || s.type == "graph");
                bool bad = probe && (mode == "null" || mode == "error" || mode == "runtime" || mode == "logic");
                sim::trace("create %s: %s", s.type.c_str(), q.ok() ? "ok" : q.what.substr(0, 100).c_str());
                sim::note(sim::mix(sim::hash(s.type + mode), q.kind));
                if (q.ok())
                {
                    if (wrong || bad || broken) sim::fail("unreported", "making an instance (%s) of %s succeeded", mode.c_str(), s.type.c_str());
                    s.files.push_back(f);
                    if (probe)
                    {
                        if (world.made != made + 1) sim::fail("instances", "%d instances were made", world.made - made);
                        s.ids.push_back(world.made);
                        s.tags.push_back(tag);
                    }
                    sim::count("op.create");
                }
                else
                {
                    if (!wrong && !bad && !broken && !nomem) sim::fail("unexpected-exception", "making an instance of %s raised %s", s.type.c_str(), q.what.substr(0, 200).c_str());
                    if (q.what.empty()) sim::fail("no-reason", "making an instance raised an error without text");
                    if (bad && !nomem && mode != "null" && q.what.find(tag) == str::npos) sim::fail("no-reason", "the factory's reason %s is missing: %s", tag.c_str(), q.what.substr(0, 200).c_str());
                    if (q.kind == sim::THREW && toi(p.param("hold", "0"))) kept.push_back({ ep, q.what });
                    ep = nullptr;
                    size_t now = sim::alloc::liveBlocks();
                    // (the list of instances may have grown)
                    if (kept.empty() && now > before + firstOnes) sim::fail("leak", "a failed attempt to make an instance of %s left %zu blocks: %s", s.type.c_str(), now - before, sim::alloc::liveList(4).c_str());
                    sim::count("op.create.failed");
                }
            }
            else if (l[0] == "use" && l.size() > 2)
            {
                vos::clearFaults();
                if (!s.m || s.files.empty()) continue;
                size_t i = toi(l[2]) % s.files.size();
                if (!s.ids.empty())
                {
                    var v;
                    str a, b;
                    int id = -1;
                    sim::Outcome q = sim::sut([&] { v = s.files[i]->read(S("f" + num(step))); id = v[0].get<int>(); a = bytes(v[1]); b = bytes(v[2]); });
                    if (!q.ok() || id != s.ids[i] || a != "f" + num(step) || b != s.tags[i]) sim::fail("broken-instance", "instance %d of %s does not work: %d %s %s %s", s.ids[i], s.type.c_str(), id, a.c_str(), b.c_str(), q.what.substr(0, 100).c_str());
                }
                else if (s.kind == "file" && s.files[i] && (s.type == "txt" || s.type == "ini" || s.type == "xml"))
                {
                    bool there = toi(l[2]) % 3;
                    str path = there ? "/sim/a." + s.type : str("/sim/nosuch");
                    std::exception_ptr ep;
                    int n = 0;
                    sim::Outcome q = sim::sut([&] { try { var v = s.files[i]->read(S(path)); n = v.size(); } catch (...) { ep = std::current_exception(); throw; } });
                    if (q.ok() != there) sim::fail("broken-instance", "reading %s gave %d %s", path.c_str(), n, q.what.substr(0, 100).c_str());
                    if (ep && toi(p.param("hold", "0"))) kept.push_back({ ep, q.what });
                }
                else if (s.kind == "path")
                {
                    path* pp = 0;
                    std::exception_ptr ep;
                    bool there = toi(l[2]) % 3;
                    sim::Outcome q = sim::sut([&] {
                        try
                        {
                            pp = &((pathmodule*)s.m.get())->create(S(there ? "/sim" : "/sim/nosuch"));
                            var d = pp->dir();
                        }
                        catch (...) { ep = std::current_exception(); throw; }
                    });
                    if (pp) s.files.push_back(0);
                    if (there && !q.ok()) sim::fail("broken-instance", "listing raised %s", q.what.substr(0, 100).c_str());
                    if (ep && toi(p.param("hold", "0"))) kept.push_back({ ep, q.what });
                }
                else if (s.kind == "graph")
                {
                    std::exception_ptr ep;
                    bool good = toi(l[2]) % 3;
                    graph* g = 0;
                    sim::Outcome q = sim::sut([&] {
                        try
                        {
                            g = &((graphmodule*)s.m.get())->create(nil);
                            if (good) g->addVertex();
                            else { var none; g->writeGraphViz("/nosuchdir/x"); }
                        }
                        catch (...) { ep = std::current_exception(); throw; }
                    });
                    if (g) s.files.push_back(0);
                    if (good && !q.ok()) sim::fail("broken-instance", "a vertex raised %s", q.what.substr(0, 100).c_str());
                    if (ep && toi(p.param("hold", "0"))) kept.push_back({ ep, q.what });
                }
                sim::count("op.use");
            }
            else if (l[0] == "drop")
            {
                vos::clearFaults();
                if (!s.m) continue;
                size_t ev = vos::dlEvents().size();
                if (oom) sim::alloc::failAt(oom, -1);
                sim::Outcome q = sim::sut([&] { s.m.reset(); });
                sim::alloc::heal();
                if (!q.ok()) sim::fail("unexpected-exception", "dropping a module raised %s", q.what.substr(0, 200).c_str());
                s = Slot();
                if (vos::dlEvents().size() != ev + 1) sim::fail("handle-leak", "dropping a module made %zu calls of the loader", vos::dlEvents().size() - ev);
                sim::count("op.drop");
            }
            else if (l[0] == "rethrow")
            {
                vos::clearFaults();
                if (kept.empty()) continue;
                Ex& e = kept[toi(l[1]) % kept.size()];
                sim::Outcome q = sim::sut([&] { std::rethrow_exception(e.e); });
                if (q.what != e.what) sim::fail("message-changed", "an error said %s and now says %s", e.what.substr(0, 100).c_str(), q.what.substr(0, 100).c_str());
                sim::count("op.rethrow");
            }
            else vos::clearFaults();
            check("after a step");
            alive("after a step");
            sim::state(sim::mix(sim::mix(world.inst.size(), sim::hash(l[0])), [&] { sim::u64 h = 0; for (auto& x : slot) h = sim::mix(h, sim::hash(x.kind + (x.type.size() ? x.type.substr(0, 4) : "")) + x.files.size()); return h; }()));
        }
        for (auto& e : kept)
        {
            // all libraries are gone by now in half of the runs
            if (p.iparam("late")) for (auto& s : slot) sim::sut([&] { s.m.reset(); });
            sim::Outcome q = sim::sut([&] { std::rethrow_exception(e.e); });
            if (q.what != e.what) sim::fail("message-changed", "an error said %s and now says %s", e.what.substr(0, 100).c_str(), q.what.substr(0, 100).c_str());
        }
        sim::sut([&] { kept.clear(); });
        for (auto& s : slot) { sim::sut([&] { s.m.reset(); }); s = Slot(); }
        check("at the end");
        alive("at the end");
        W = 0;
        handles("at the end");
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        p.add({ "param", "hold", num(r.chance(1, 2)) });
        p.add({ "param", "late", num(r.chance(1, 2)) });
        int n = r.range(3, 30), slots = r.range(1, 6);
        static const char* types[] = { "probe", "probe", "probe", "probe", "probe", "nofactory", "missing", "txt", "ini", "xml", "ged", "snd", "gnuplot", "curl", "path", "graph" };
        static const char* kinds[] = { "file", "file", "file", "file", "file", "file", "file", "curl", "path", "graph" };
        static const char* modes[] = { "ok", "ok", "ok", "ok", "null", "error", "runtime", "logic", "other", "curl" };
        for (int i = 1; i <= n; i++)
        {
            str s = num(r.below(slots));
            int k = i == 1 ? 0 : r.below(10);
            if (k < 3)
            {
                p.add({ "load", s, kinds[r.below(10)], types[r.below(16)] });
                if (r.chance(1, 6)) p.add({ "fault" + num(i), r.chance(1, 2) ? "dlopen" : "dlsym", "1", "enomem" });
                else if (r.chance(1, 5)) p.add({ "param", "oom" + num(i), num(1 + r.below(r.chance(1, 2) ? 6 : 30)) });
            }
            else if (k < 6)
            {
                p.add({ "create", s, modes[r.below(10)] });
                if (r.chance(1, 4)) p.add({ "param", "oom" + num(i), num(1 + r.below(8)) });
                if (r.chance(1, 10)) p.add({ "fault" + num(i), "popen", "1", "emfile" });
            }
            else if (k < 8) p.add({ "use", s, num(r.below(12)) });
            else if (k < 9) { p.add({ "drop", s }); if (r.chance(1, 4)) p.add({ "param", "oom" + num(i), "1" }); }
            else p.add({ "rethrow", num(r.below(8)) });
        }
    }
    sim::Register reg({ "module", gen, run, false, true });
}
