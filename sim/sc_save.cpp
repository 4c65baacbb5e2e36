// Saves of every kind onto a disk that fills up, fails, interrupts and splits writes (C10).
#include "xmlmodel.h"
#include "wavmodel.h"
#include <lube/graph.h>
#include <algorithm>
#include <map>
#include <memory>
using namespace libube;
using namespace files;

namespace
{
    struct Doc
    {
        str kind;
        // the value and what it is to be
        var v, keep, attr;
        std::vector<str> lines;              // txt: 's'+bytes or 'n'+number
        std::map<str, std::map<str, str>> ini;
        xmlm::T tree;
        wavm::Signal sig;
        int nodes = 0;
        std::vector<std::pair<int, int>> edges;
        std::unique_ptr<module> m;
        libube::file* f = 0;
        graph* g = 0;
    };
    void setup(const Plan& p, Doc& d)
    {
        d.kind = p.param("what", "txt");
        str mod = d.kind;
        for (auto& l : p.lines)
        {
            if (l[0] == "line" && l.size() > 1) d.lines.push_back(sim::dec(l[1]));
            if (l[0] == "entry" && l.size() > 3) d.ini[sim::dec(l[1])][sim::dec(l[2])] = sim::dec(l[3]);
            if (l[0] == "tree" && l.size() > 1) { size_t k = 1; d.tree = xmlm::parse(l, k); xmlm::norm(d.tree); }
            if (l[0] == "edge" && l.size() > 2) d.edges.push_back({ (int)toi(l[1]), (int)toi(l[2]) });
        }
        d.nodes = p.iparam("nodes", 3);
        if (d.kind == "snd") d.sig = wavm::signal(p);
        std::vector<std::pair<int, int>> ok;
        for (auto& e : d.edges) if (e.first < d.nodes && e.second < d.nodes) ok.push_back(e);
        d.edges = ok;
        sim::Outcome o = sim::sut([&] {
            if (d.kind == "graph")
            {
                d.m.reset(new graphmodule());
                d.g = &static_cast<graphmodule&>(*d.m).create();
                for (int i = 0; i < d.nodes; i++) d.g->addVertex();
                for (auto& e : d.edges) d.g->addEdge(e.first, e.second);
                return;
            }
            d.m.reset(new filemodule(mod.c_str()));
            d.attr[nil];
            if (d.kind == "snd") d.attr["rate"] = d.sig.rate;
            d.f = &dynamic_cast<libube::file&>(d.kind == "snd" ? d.m->create(d.attr) : d.m->create());
            if (d.kind == "txt")
            {
                d.v.array();
                d.v.resize(0);
                for (auto& l : d.lines)
                    if (l[0] == 's') d.v.push(S(l.substr(1)));
                    else if (l.find('.') != str::npos) d.v.push(atof(l.c_str() + 1));
                    else d.v.push((int)toi(l.substr(1)));
            }
            else if (d.kind == "ini") { d.v[nil]; for (auto& s : d.ini) for (auto& k : s.second) d.v[S(s.first)][S(k.first)] = S(k.second); }
            else if (d.kind == "xml") d.v = xmlm::build(d.tree);
            else if (d.kind == "snd") d.v = wavm::build(d.sig, p.iparam("form"), d.keep);
            else d.v["anything"] = 1;
        });
        if (!o.ok()) sim::fail("unexpected-exception", "building the value raised %s", o.what.c_str());
    }
    // everything that can be seen of the value
    str dump(Doc& d)
    {
        str r;
        xmlm::T t;
        sim::Outcome o = sim::sut([&] {
            if (d.kind == "txt")
            {
                int n = d.v.size();
                for (int i = 0; i < n; i++)
                {
                    bool is;
                    str b = bytes(d.v.at(i), &is);
                    str x;
                    if (!is) { double q = d.v.at(i).cast<double>(); int ty = d.v.at(i).type(); sim::Host h; x = sim::dnum(q) + ":" + num(ty); }
                    sim::Host h;
                    r += is ? "s" + sim::enc(b) : "n" + x;
                    r += "\n";
                }
            }
            else if (d.kind == "ini")
            {
                int n = d.v.size();
                for (int i = 0; i < n; i++)
                {
                    var e = d.v.at(i);
                    str s = bytes(d.v.key(i));
                    int k = e.size();
                    for (int j = 0; j < k; j++)
                    {
                        str a = bytes(e.key(j)), b = bytes(e.at(j));
                        sim::Host h;
                        r += sim::enc(s) + "/" + sim::enc(a) + "=" + sim::enc(b) + "\n";
                    }
                }
            }
            else if (d.kind == "xml") { xmlm::from(d.v, t); sim::Host h; r = xmlm::show(t, 1000); }
            else if (d.kind == "snd")
            {
                int dim = d.v.dim(), rows = dim > 1 ? d.v.shape(0) : 1;
                const char* q = (const char*)d.keep.ptr<float>();
                int n = d.keep.size();
                sim::Host h;
                r = num(dim) + "," + num(rows) + "," + str(q, n * 4);
            }
        });
        if (!o.ok()) sim::fail("write-modified", "the value cannot be read after saving: %s", o.what.substr(0, 150).c_str());
        return r;
    }
    // fails unless D is the complete document
    void document(Doc& d, const str& D)
    {
        if (d.kind == "txt")
        {
            str e;
            for (auto& l : d.lines) e += l.substr(1) + "\n";
            if (e != D) sim::fail("written", "the text is %s instead of %s", files::show(D).c_str(), files::show(e).c_str());
        }
        else if (d.kind == "xml")
        {
            xmlm::T t;
            if (!xmlm::reference(D, t)) sim::fail("written", "the document is not well formed: %s", files::show(D).c_str());
            if (!xmlm::same(d.tree, t)) sim::fail("written", "tree / written: %s", xmlm::diff(d.tree, t).c_str());
        }
        else if (d.kind == "snd")
        {
            wavm::Signal w;
            str why;
            if (!wavm::parseWav(D, w, why)) sim::fail("written", "not a sound file: %s", why.c_str());
            why = wavm::differs(d.sig, w, 1.6 / 32768);
            if (!why.empty()) sim::fail("written", "the file saved: %s", why.c_str());
        }
        else if (d.kind == "graph")
        {
            // digraph G { 0; 1; 0->1 ; }
            std::vector<int> nodes;
            std::vector<std::pair<int, int>> edges;
            size_t a = D.find('{'), b = D.rfind('}');
            if (a == str::npos || b == str::npos || D.compare(0, 7, "digraph")) sim::fail("written", "not a graph: %s", files::show(D).c_str());
            str in = D.substr(a + 1, b - a - 1);
            for (size_t i = 0; i < in.size(); )
            {
                size_t e = std::min(in.find(';', i), in.size());
                str s = in.substr(i, e - i);
                i = e + 1;
                size_t f = s.find_first_of("0123456789");
                if (f == str::npos) continue;
                size_t ar = s.find("->");
                if (ar == str::npos) nodes.push_back(atoi(s.c_str() + f));
                else edges.push_back({ atoi(s.c_str() + f), atoi(s.c_str() + ar + 2) });
            }
            auto want = d.edges;
            std::sort(want.begin(), want.end());
            std::sort(edges.begin(), edges.end());
            if ((int)nodes.size() != d.nodes || edges != want) sim::fail("written", "the graph has %zu nodes and %zu edges instead of %d and %zu", nodes.size(), edges.size(), d.nodes, want.size());
        }
        else if (d.kind == "ini")
        {
            std::map<str, std::map<str, str>> got;
            str sec;
            auto trim = [](str s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == str::npos ? str() : s.substr(a, b - a + 1); };
            if (!D.empty() && D.back() != '\n') sim::fail("written", "the last line is not ended");
            for (size_t i = 0; i < D.size(); )
            {
                size_t e = D.find('\n', i);
                str l = trim(D.substr(i, e - i));
                i = e + 1;
                if (l.empty()) continue;
                if (l[0] == '[') { sec = l.substr(1, l.find(']') - 1); continue; }
                size_t q = l.find('=');
                if (q == str::npos) sim::fail("written", "not an entry: %s", files::show(l).c_str());
                got[sec][trim(l.substr(0, q))] = trim(l.substr(q + 1));
            }
            if (got != d.ini) sim::fail("written", "the entries written differ from those saved: %s", files::show(D).c_str());
        }
    }
    sim::Outcome save(Doc& d, const str& to)
    {
        return sim::sut([&] { if (d.g) d.g->writeGraphViz(S(to)); else d.f->write(S(to), d.v); });
    }
    void run(const Plan& p)
    {
        Doc d;
        setup(p, d);
        str before = dump(d), ref;
        if (d.kind == "ged")
        {
            // there is no way to save these: it must not look as if there were
            sim::Outcome o = save(d, "/sim/f");
            if (o.ok()) sim::fail("unreported", "a save which is not there succeeded");
            sim::sut([&] { d.v = nil; d.attr = nil; d.m.reset(); });
            handles("at the end");
            return;
        }
        sim::Outcome o = save(d, "/sim/ref");
        if (!o.ok()) sim::fail("unexpected-exception", "saving raised %s", o.what.substr(0, 200).c_str());
        if (!vos::get("/sim/ref", ref)) sim::fail("written", "there is no file after saving");
        sim::trace("document %s", sim::enc(ref.substr(0, 1500)).c_str());
        document(d, ref);
        if (dump(d) != before) sim::fail("write-modified", "saving changed the value");
        int tries = 1 + p.iparam("tries", 1);
        bool small = ref.size() < 20000;
        for (int k = 0; k <= tries; k++)
        {
            if (k == 1 && p.iparam("exists")) vos::put("/sim/f", str(p.iparam("exists"), '#'));
            bool last = k == tries;
            vos::chunks({}, small ? chunkList(p.param("wchunks", "-")) : std::vector<int>());
            long oom = last ? 0 : p.iparam("oom" + num(k));
            if (!last)
            {
                faults(p, ("fault" + num(k)).c_str());
                vos::diskSpace(p.iparam("space" + num(k), -1));
            }
            if (oom) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
            sim::Outcome o = save(d, "/sim/f");
            bool nomem = oom && sim::alloc::failed();
            sim::alloc::heal();
            bool broken = vos::fired() > 0;
            vos::clearFaults();
            vos::diskSpace(-1);
            files::files("after saving");
            sim::count(broken ? "op.save.faulty" : "op.save");
            sim::note(sim::mix(sim::hash(ref), o.kind * 4 + broken * 2 + nomem));
            sim::state(sim::mix(sim::hash(ref), k * 16 + o.kind * 4 + broken * 2 + nomem));
            if (o.ok())
            {
                str D;
                bool there = vos::get("/sim/f", D);
                if (broken) sim::fail("unreported", "the file could not be written and no error was raised (%zu of %zu bytes are there)", there ? D.size() : 0, ref.size());
                if (!there || D != ref) sim::fail("incomplete", "saving returned and the file holds %s instead of %s", files::show(D).c_str(), files::show(ref).c_str());
            }
            else if (!broken && !nomem) sim::fail("unexpected-exception", "saving raised %s", o.what.substr(0, 200).c_str());
            if (dump(d) != before) sim::fail("write-modified", "%s changed the value", o.ok() ? "saving" : "a failed save");
        }
        // what was saved is read back by the same module
        if (d.kind == "txt" || d.kind == "ini")
        {
            bool plain = true;
            for (auto& l : d.lines) if (l[0] != 's' || l.find('\n') != str::npos) plain = false;
            if (plain)
            {
                Doc b;
                b.kind = d.kind;
                sim::Outcome o = sim::sut([&] { b.v = d.f->read("/sim/f"); });
                if (!o.ok()) sim::fail("unreadable", "what was saved is refused: %s", o.what.substr(0, 200).c_str());
                str now = dump(b);
                if (now != before) sim::fail("roundtrip", "saved %s, loaded %s", files::show(before).c_str(), files::show(now).c_str());
                sim::sut([&] { b.v = nil; });
                sim::count("op.readback");
            }
        }
        sim::sut([&] { d.v = nil; d.keep = nil; d.attr = nil; d.m.reset(); });
        handles("at the end");
    }
    str word(Rng& r, int max, const char* no)
    {
        str s;
        int n = r.below(max + 1);
        while ((int)s.size() < n)
        {
            char c = r.chance(1, 10) ? (char)(128 + r.below(128)) : (char)(32 + r.below(95));
            if (!strchr(no, c)) s += c;
        }
        return s;
    }
    str trimmed(str s)
    {
        while (!s.empty() && (s[0] == ' ' || (signed char)s[0] < 0)) s.erase(0, 1);
        while (!s.empty() && (s.back() == ' ' || (signed char)s.back() < 0)) s.pop_back();
        return s;
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        static const char* kinds[] = { "txt", "txt", "ini", "ini", "xml", "xml", "graph", "snd", "snd" };
        str kind = r.chance(1, 100) ? "ged" : kinds[r.below(9)];
        p.add({ "param", "what", kind });
        if (kind == "txt")
        {
            int n = r.chance(1, 10) ? r.range(50, 300) : r.below(12);
            for (int i = 0; i < n; i++)
            {
                int k = r.below(12);
                if (k == 0) p.add({ "line", "n" + num(r.range(-100000, 100000)) });
                else if (k == 1) p.add({ "line", str("n") + (const char*[]){ "1.5", "-0.25", "1000.5", "0.125" }[r.below(4)] });
                else if (k == 2) p.add({ "line", sim::enc("s" + str(r.range(100, 9000), 'a' + r.below(26))) });
                else if (k == 3) { str b = "s"; int m = r.below(30); for (int j = 0; j < m; j++) b += (char)r.below(256); p.add({ "line", sim::enc(b) }); }
                else p.add({ "line", sim::enc("s" + word(r, 30, "")) });
            }
        }
        else if (kind == "ini")
        {
            int n = r.range(1, r.chance(1, 10) ? 150 : 12);
            for (int i = 0; i < n; i++)
            {
                str sec = r.chance(1, 4) ? "" : trimmed(word(r, 8, "[]")), key = trimmed(word(r, 10, "=[;#")), val = trimmed(word(r, r.chance(1, 20) ? 3000 : 20, ""));
                if (key.empty()) key = "k" + num(i);
                p.add({ "entry", sim::enc(sec), sim::enc(key), sim::enc(val) });
            }
        }
        else if (kind == "xml") { Line l = { "tree" }; xmlm::genTree(r, l, 0); p.add(l); }
        else if (kind == "graph")
        {
            int n = r.chance(1, 10) ? r.range(100, 800) : r.range(1, 8), e = r.below(2 * n + 1);
            p.add({ "param", "nodes", num(n) });
            for (int i = 0; i < e; i++) p.add({ "edge", num(r.below(n)), num(r.below(n)) });
        }
        else if (kind == "snd")
        {
            p.add({ "param", "ch", num(r.chance(1, 2) ? 1 : r.range(1, 6)) });
            p.add({ "param", "frames", num(r.chance(1, 6) ? r.range(500, 6000) : r.range(1, 60)) });
            p.add({ "param", "rate", "16000" });
            p.add({ "param", "kind", num(r.below(4)) });
            p.add({ "param", "sigseed", num(r.below(100000)) });
            p.add({ "param", "form", num(r.below(4)) });
        }
        p.add({ "param", "wchunks", genChunks(r) });
        if (r.chance(1, 2)) p.add({ "param", "exists", num(r.chance(1, 3) ? 100000 : r.range(1, 2000)) });
        int tries = r.range(1, 3);
        p.add({ "param", "tries", num(tries) });
        for (int k = 0; k < tries; k++)
        {
            if (r.chance(1, 4)) continue;
            static const char* open[] = { "eacces", "emfile", "enospc", "enoent" };
            static const char* wr[] = { "eio", "enospc", "enospc+", "edquot", "eintr", "short", "delay", "efbig" };
            int q = r.below(12);
            str f = "fault" + num(k);
            if (q < 2) p.add({ f, "open", "1", open[r.below(4)] });
            else if (q < 4) p.add({ f, "close", "1", r.chance(1, 2) ? "eio" : "enospc" });
            else if (q < 6) p.add({ "param", "space" + num(k), num(r.chance(1, 2) ? r.below(60) : r.below(3000)) });
            else if (q < 7) { p.add({ "param", "oom" + num(k), num(1 + r.below(30)) }); if (r.chance(1, 3)) p.add({ "param", "oomburst", "-1" }); }
            else { p.add({ f, "write", num(1 + r.below(r.chance(1, 4) ? 60 : 4)), wr[r.below(8)], num(1 + r.below(40)) }); if (r.chance(1, 4)) p.add({ f, "write", num(1 + r.below(60)), wr[r.below(8)], num(1 + r.below(40)) }); }
        }
    }
    sim::Register reg({ "save", gen, run, false, true });
}
