// Directory trees in any delivery order, failing or changing while they are listed (C15).
#include "files.h"
#include <lube/path.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
using namespace libube;
using namespace files;

namespace
{
    // a link has its own kids, those of the directory it leads to, which only a tree follows
    struct N { bool dir = false; bool unsure = false; str link; std::map<str, N> kids; };
    const str ROOT = "/sim/root";
    // where a plan's entry lies; creates what is on the way
    N* at(N& root, const str& path, bool make)
    {
        N* n = &root;
        for (size_t i = 0; i < path.size() && n; )
        {
            size_t e = std::min(path.find('/', i), path.size());
            str s = path.substr(i, e - i);
            i = e + 1;
            if (s.empty() || s == "." || s == "..") continue;
            if (n != &root && !n->link.empty()) return 0;
            auto k = n->kids.find(s);
            if (k == n->kids.end())
            {
                if (!make) return 0;
                n->dir = true;
                n = &n->kids[s];
            }
            else n = &k->second;
        }
        return n;
    }
    void place(const N& n, const str& path)
    {
        if (!n.link.empty()) vos::link(path, n.link);
        else if (n.dir) { vos::mkdirs(path); for (auto& k : n.kids) place(k.second, path + "/" + k.first); }
        else vos::put(path, "x");
    }
    struct Bits { str parent, stem, ext; };
    Bits bitsOf(const str& parent, const str& name)
    {
        size_t d = name.rfind('.');
        if (d == str::npos || d == 0) return { parent, name, "" };
        return { parent, name.substr(0, d), name.substr(d) };
    }
    typedef std::map<str, Bits> Flat;
    void flat(const N& n, const str& base, bool recurse, Flat& sure, Flat& maybe, bool unsure = false)
    {
        for (auto& k : n.kids)
        {
            str path = (base.empty() || base.back() == '/' ? base : base + "/") + k.first;
            str parent = base;
            while (parent.size() > 1 && parent.back() == '/') parent.pop_back();
            bool u = unsure || k.second.unsure;
            (u ? maybe : sure)[path] = bitsOf(parent, k.first);
            if (recurse && k.second.dir && k.second.link.empty()) flat(k.second, path, true, sure, maybe, u);
        }
    }
    struct Got { bool is; str parent, stem, ext; };
    // inside sut
    std::vector<std::pair<str, Got>> rows(var v, bool& sorted)
    {
        std::vector<std::pair<str, Got>> r;
        v.dereference();
        if (!v) return r;
        int n = v.size();
        for (int i = 0; i < n; i++)
        {
            str k = bytes(v.key(i));
            if (i && !(v.key(i - 1) < v.key(i))) sorted = false;
            var e = v.at(i);
            e.dereference();
            Got g = { false, "", "", "" };
            if (e)
            {
                if (e.size() != 3) throw error("not three parts");
                str a = bytes(e.at(0)), b = bytes(e.at(1)), c = bytes(e.at(2));
                sim::Host h;
                g = { true, a, b, c };
            }
            sim::Host h;
            r.push_back({ k, g });
        }
        return r;
    }
    void nested(var v, const N& n, const str& where, bool& sorted, str& bad, str& dump)
    {
        v.dereference();
        std::set<str> seen;
        int sz = v ? v.size() : 0;
        for (int i = 0; i < sz; i++)
        {
            str k = bytes(v.key(i));
            if (i && !(v.key(i - 1) < v.key(i))) sorted = false;
            bool dir = false;
            const N* sub = 0;
            {
                sim::Host h;
                auto it = n.kids.find(k);
                dump += "(" + sim::enc(k);
                if (it == n.kids.end()) bad = where + " has " + sim::enc(k) + " which is not there";
                else { seen.insert(k); sub = &it->second; dir = sub->dir; }
            }
            var e = v.at(i);
            e.dereference();
            if (!bad.empty()) return;
            if (!dir && e) { sim::Host h; bad = where + "/" + sim::enc(k) + " is no directory and has contents"; return; }
            if (dir) { str w; { sim::Host h; w = where + "/" + sim::enc(k); } nested(e, *sub, w, sorted, bad, dump); if (!bad.empty()) return; }
            sim::Host h;
            dump += ")";
        }
        sim::Host h;
        for (auto& k : n.kids) if (!seen.count(k.first) && !k.second.unsure) bad = where + " is without " + sim::enc(k.first);
    }
    void loosen(N& n) { for (auto& k : n.kids) { k.second.unsure = true; loosen(k.second); } }
    void run(const Plan& p)
    {
        N root;
        root.dir = true;
        bool loops = false;
        for (auto& l : p.lines)
            if (l[0] == "ent" && l.size() > 2)
            {
                str e = sim::dec(l[1]);
                N* n = at(root, e, true);
                if (!n || !n->link.empty()) continue;
                if (n != &root && l[2] == "d") n->dir = true;
                if (n != &root && l[2] == "l" && l.size() > 3 && !n->dir && n->kids.empty())
                {
                    // to a directory elsewhere, a file, nothing at all, or itself
                    n->link = l[3] == "dir" ? "/sim/outside" : l[3] == "rel" ? "../../../../../../../../../../../../../../../../../../../sim/outside/sub" : l[3] == "chain" ? "/sim/chain" : l[3] == "file" ? "/sim/file.txt" : l[3] == "loop" ? ROOT + "/" + e : "/sim/nothing";
                    if (l[3] == "loop") loops = true;
                    if (l[3] == "dir" || l[3] == "chain") { at(*n, "in.txt", true); at(*n, "sub/x", true); at(*n, "sub/y.z", true); }
                    if (l[3] == "rel") { at(*n, "x", true); at(*n, "y.z", true); }
                }
            }
        place(root, ROOT);
        str form = p.param("root", "abs"), base;
        vos::mkdirs("/sim/elsewhere");
        vos::put("/sim/elsewhere/other", "x");
        vos::put("/sim/file.txt", "x");
        vos::mkdirs("/sim/outside/sub");
        vos::put("/sim/outside/in.txt", "x");
        vos::put("/sim/outside/sub/x", "x");
        vos::put("/sim/outside/sub/y.z", "x");
        vos::link("/sim/chain", "outside");
        vos::cwd("/sim");
        if (form == "abs") base = ROOT;
        else if (form == "slash") base = ROOT + "/";
        else if (form == "rel") base = "root";
        else if (form == "up") { base = "../root"; vos::cwd("/sim/elsewhere"); }
        else if (form == "dot") { base = "."; vos::cwd(ROOT); }
        else if (form == "cwd") { base = ROOT; vos::cwd(ROOT); }
        else if (form == "file") base = "/sim/file.txt";
        else base = "/sim/nowhere";
        bool gone = form == "gone", file = form == "file";
        std::unique_ptr<pathmodule> m;
        path* P = 0;
        path* other = 0;
        sim::Outcome o = sim::sut([&] {
            m.reset(new pathmodule());
            P = form == "cwd" ? &m->create() : &m->create(S(base));
            other = &m->create("/sim/elsewhere");
        });
        if (!o.ok()) sim::fail("unexpected-exception", "making the object raised %s", o.what.c_str());
        if (form == "cwd") vos::cwd("/sim/elsewhere");
        std::map<str, str> first;
        bool changed = false;
        int step = 0;
        var kept;
        str keptDump;
        auto text = [](const std::vector<std::pair<str, Got>>& r) { str s; for (auto& x : r) s += sim::enc(x.first) + (x.second.is ? "[" + sim::enc(x.second.parent) + "|" + sim::enc(x.second.stem) + "|" + sim::enc(x.second.ext) + "]" : "") + "\n"; return s; };
        for (auto& l : p.lines)
        {
            if (l[0] != "list" || l.size() < 4) continue;
            str what = l[1];
            bool parts = l[2] == "1";
            vos::dirOrder((sim::u64)toi(l[3]), l.size() > 4 && l[4] == "1");
            step++;
            faults(p, ("fault" + num(step)).c_str());
            long oom = p.iparam("oom" + num(step));
            N snapshot = root;
            for (auto& c : p.lines)
                if (c[0] == "change" + num(step) && c.size() > 3 && !gone && !file)
                {
                    // someone else removes or makes an entry while the listing is going on
                    str e = sim::dec(c[2]);
                    changed = true;
                    if (c[3] == "del")
                    {
                        N* n = at(root, e, false);
                        if (!n || n == &root) continue;
                        N* s = at(snapshot, e, false);
                        s->unsure = true;
                        loosen(*s);
                        vos::atCall(toi(c[1]), [e] { vos::removePath(ROOT + "/" + e); sim::count("fault.removed-meanwhile"); });
                        size_t q = e.rfind('/');
                        N* par = q == str::npos ? &root : at(root, e.substr(0, q), false);
                        par->kids.erase(q == str::npos ? e : e.substr(q + 1));
                    }
                    else
                    {
                        if (at(root, e, false)) continue;
                        size_t q = e.rfind('/');
                        N* par = q == str::npos ? &root : at(root, e.substr(0, q), false);
                        if (!par || !par->dir) continue;
                        at(root, e, true);
                        at(snapshot, e, true)->unsure = true;
                        vos::atCall(toi(c[1]), [e] { vos::put(ROOT + "/" + e, "x"); sim::count("fault.made-meanwhile"); });
                    }
                    break;
                }
            std::vector<std::pair<str, Got>> r;
            bool sorted = true;
            str bad, dump;
            var v;
            if (oom) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
            sim::Outcome o = sim::sut([&] { v = what == "tree" ? P->tree() : what == "rdir" ? P->rdir(parts) : P->dir(parts); });
            bool nomem = oom && sim::alloc::failed();
            sim::alloc::heal();
            bool broken = vos::fired() > 0;
            vos::clearFaults();
            // what the listing did not get to happens now
            vos::atCall(0, [] {});
            for (auto& c : p.lines)
                if (c[0] == "change" + num(step) && c.size() > 3 && !gone && !file)
                {
                    str e = sim::dec(c[2]);
                    if (c[3] == "del") { if (!at(root, e, false)) vos::removePath(ROOT + "/" + e); }
                    else { N* n = at(root, e, false); if (n && !n->dir) vos::put(ROOT + "/" + e, "x"); }
                    break;
                }
            files::files("after listing");
            bool meanwhile = false;
            for (auto& c : p.lines) if (c[0] == "change" + num(step)) meanwhile = true;
            sim::count(("op." + what).c_str());
            if (!o.ok())
            {
                sim::note(sim::mix(step, 7));
                sim::count("op.refused");
                if (gone || (file && what != "rdir") || (loops && what == "tree")) continue;
                if (!broken && !nomem && !meanwhile) sim::fail("refused", "%s raised %s", what.c_str(), o.what.substr(0, 200).c_str());
                continue;
            }
            if (gone) sim::fail("accepted", "%s of a path that does not exist gave a result", what.c_str());
            if (file && what != "rdir") sim::fail("accepted", "%s of a plain file gave a result", what.c_str());
            if (what == "tree")
            {
                sim::Outcome q = sim::sut([&] { nested(v, snapshot, "", sorted, bad, dump); });
                if (!q.ok()) sim::fail("shape", "tree gave something else: %s", q.what.substr(0, 100).c_str());
                if (!bad.empty()) sim::fail(broken ? "unreported" : "tree", "%s", bad.c_str());
            }
            else
            {
                sim::Outcome q = sim::sut([&] { r = rows(v, sorted); });
                if (!q.ok()) sim::fail("shape", "%s gave something else: %s", what.c_str(), q.what.substr(0, 100).c_str());
                Flat sure, maybe;
                if (file) sure[base] = { "/sim", "file", ".txt" };
                else flat(snapshot, base, what == "rdir", sure, maybe);
                std::set<str> seen;
                for (auto& x : r)
                {
                    if (!seen.insert(x.first).second) sim::fail("entries", "%s has %s twice", what.c_str(), sim::enc(x.first).c_str());
                    auto it = sure.find(x.first);
                    if (it == sure.end()) { it = maybe.find(x.first); if (it == maybe.end()) sim::fail("entries", "%s has %s which is not there", what.c_str(), sim::enc(x.first).c_str()); }
                    if (x.second.is != parts) sim::fail("parts", "%s: %s %s parts", what.c_str(), sim::enc(x.first).c_str(), parts ? "without" : "with");
                    if (parts && (x.second.parent != it->second.parent || x.second.stem != it->second.stem || x.second.ext != it->second.ext))
                        sim::fail("parts", "%s: %s has parts %s %s %s", what.c_str(), sim::enc(x.first).c_str(), sim::enc(x.second.parent).c_str(), sim::enc(x.second.stem).c_str(), sim::enc(x.second.ext).c_str());
                }
                for (auto& x : sure) if (!seen.count(x.first)) sim::fail(broken ? "unreported" : "entries", "%s is without %s", what.c_str(), sim::enc(x.first).c_str());
                dump = text(r);
            }
            if (!sorted) sim::fail("order", "%s is not sorted", what.c_str());
            sim::note(sim::hash(dump));
            sim::state(sim::mix(sim::hash(dump), sim::hash(what)));
            // the same whatever the order of delivery
            if (!changed)
            {
                str key = what + l[2];
                if (!first.count(key)) first[key] = dump;
                else if (first[key] != dump) sim::fail("order-dependent", "%s gave %s and then %s", what.c_str(), files::show(first[key]).c_str(), files::show(dump).c_str());
            }
            // and what was given before stays
            if (keptDump.empty() && what != "tree" && !dump.empty()) { sim::sut([&] { kept = v; }); keptDump = dump; }
        }
        if (!keptDump.empty())
        {
            std::vector<std::pair<str, Got>> r;
            bool sorted = true;
            sim::sut([&] { r = rows(kept, sorted); });
            if (text(r) != keptDump) sim::fail("earlier-result", "a listing given earlier changed");
        }
        sim::sut([&] { var q = other->dir(); if (q.size() != 1) { sim::Host h; sim::fail("other", "another path object lists %d entries instead of 1", q.size()); } });
        sim::sut([&] { kept = nil; m.reset(); });
        handles("at the end");
    }
    str name(Rng& r)
    {
        static const char* some[] = { "a", "b", "A", "a.txt", "b.txt", ".hidden", "..x", "a.b.c", "x.", "no ext", "deep", "dir.d", "\xc3\xa9t\xc3\xa9", "\"q\"", "new\nline", "\x01", "\xff\xfe", "-", "~", "a\\b", ".a.b", "..." };
        if (r.chance(2, 3)) return some[r.below(22)];
        str s;
        int n = r.range(1, r.chance(1, 10) ? 200 : 8);
        for (int i = 0; i < n; i++) { char c = (char)(r.chance(1, 8) ? 1 + r.below(255) : "abcxyz.AB0"[r.below(10)]); s += c == '/' ? 'z' : c; }
        return s == "." || s == ".." ? "dots" : s;
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        static const char* roots[] = { "abs", "abs", "abs", "slash", "rel", "up", "dot", "cwd" };
        p.add({ "param", "root", r.chance(1, 40) ? "file" : r.chance(1, 40) ? "gone" : roots[r.below(8)] });
        std::vector<str> dirs = { "" }, all;
        bool links = r.chance(1, 2);
        int n = r.chance(1, 10) ? 0 : r.chance(1, 10) ? r.range(40, 150) : r.range(1, 14);
        for (int i = 0; i < n; i++)
        {
            str d = dirs[r.below(dirs.size())], e = (d.empty() ? "" : d + "/") + name(r);
            if (links && r.chance(1, 4))
            {
                static const char* to[] = { "dir", "dir", "rel", "chain", "file", "nothing", "loop" };
                if (std::find(all.begin(), all.end(), e) != all.end()) continue;
                all.push_back(e);
                p.add({ "ent", sim::enc(e), "l", to[r.below(r.chance(1, 8) ? 7 : 6)] });
                continue;
            }
            bool dir = r.chance(1, 3) && std::count(e.begin(), e.end(), '/') < 12;
            if (std::find(all.begin(), all.end(), e) != all.end()) continue;
            all.push_back(e);
            if (dir) dirs.push_back(e);
            p.add({ "ent", sim::enc(e), dir ? "d" : "f" });
        }
        int m = r.range(1, 5);
        static const char* what[] = { "dir", "rdir", "tree" };
        for (int i = 1; i <= m; i++)
        {
            p.add({ "list", what[r.below(3)], num(r.below(2)), num(r.chance(1, 5) ? 0 : 1 + r.below(100000)), num(r.below(2)) });
            if (r.chance(1, 3))
            {
                static const char* cls[] = { "opendir", "readdir", "readdir", "stat", "fdopendir" };
                static const char* op[] = { "eacces", "emfile", "eio", "delay" };
                static const char* rd[] = { "eio", "delay" };
                const char* c = cls[r.below(5)];
                p.add({ "fault" + num(i), c, num(1 + r.below(r.chance(1, 3) ? 40 : 8)), c[0] == 'r' ? rd[r.below(2)] : op[r.below(4)], "5" });
            }
            // no failing allocations: libstdc++'s directory iterator ends the program on them
            else if (r.chance(1, 6) && !all.empty())
            {
                bool del = r.chance(1, 2);
                str d = dirs[r.below(dirs.size())];
                p.add({ "change" + num(i), num(1 + r.below(30)), sim::enc(del ? all[r.below(all.size())] : (d.empty() ? "" : d + "/") + "fresh" + num(i)), del ? "del" : "new" });
            }
        }
    }
    sim::Register reg({ "path", gen, run, false, true });
}
