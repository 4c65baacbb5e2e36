// Genealogy files: generated records in any order, cut, damaged, failing (C13).
#include "files.h"
#include <algorithm>
#include <map>
#include <memory>
using namespace libube;
using namespace files;

namespace
{
    struct Indi { str xref, name, title, sex; bool hasName = false, hasTitle = false, hasSex = false; };
    struct Fam { str xref; long husb = -1, wife = -1; std::vector<long> chil; std::vector<str> order; };
    struct Tree { std::vector<Indi> indi; std::vector<Fam> fam; };
    str show(const Indi& i) { return i.xref + ":" + (i.hasName ? files::show(i.name) : "-") + "/" + (i.hasTitle ? files::show(i.title) : "-") + "/" + (i.hasSex ? i.sex : "-"); }
    str show(const Fam& f) { str s = num(f.husb) + "+" + num(f.wife) + ":"; for (long c : f.chil) s += num(c) + ","; return s; }

    // what does not count, at a level
    void extra(Rng& r, str& o, int lev, bool fam, bool odd)
    {
        auto line = [&](int l, const str& t) { o += num(l) + " " + t + "\n"; };
        int k = r.below(odd ? 8 : 5);
        if (k == 0) { static const char* t[] = { "BIRT", "DEAT", "CHR", "BURI" }; line(lev, fam ? "MARR" : t[r.below(4)]); if (r.chance(2, 3)) line(lev + 1, "DATE 1 JAN 1900"); if (r.chance(1, 2)) line(lev + 1, "PLAC Here, There"); if (r.chance(1, 3)) { line(lev + 1, "NOTE something"); line(lev + 2, "CONT more"); line(lev + 2, "CONC and more"); if (r.chance(1, 2)) line(lev + 1, "DATE 2 FEB 1901"); } }
        else if (k == 1) { if (fam) line(lev, "DIV"); else line(lev, "OCCU Inspector"); }
        else if (k == 2) { if (fam) line(lev, "MARR"); else { line(lev, "NOTE a note"); if (r.chance(1, 2)) line(lev + 1, "CONT continued"); } }
        else if (k == 3) { if (!fam) line(lev, r.chance(1, 2) ? "FAMS @F1@" : "FAMC @F0@"); }
        else if (k == 4) { if (!fam) { line(lev, "BIRT"); if (r.chance(1, 2)) line(lev + 1, "NOTE born"); } else line(lev, "MARR Y"); }
        else if (k == 5) { line(lev, "RESI"); line(lev + 1, "ADDR somewhere"); line(lev + 2, "CITY there"); }
        else if (k == 6) { line(lev, "SOUR book"); line(lev + 1, fam ? "CHIL @I0@" : "TITL The title of the source"); if (!fam) line(lev + 1, "NAME Not a name"); }
        else { line(lev, fam ? "REFN 12" : "OCCU Plumber"); line(lev + 1, fam ? "HUSB @I0@" : "SEX X"); }
    }
    str build(const Plan& p, Tree& t, Rng& r)
    {
        bool odd = p.iparam("odd"), famFirst = false;
        str head = p.param("head", "full"), o;
        o += "0 HEAD\n";
        if (head != "bare") { o += "1 SOUR A program\n"; if (r.chance(1, 2)) o += "2 VERS 1.0\n2 NAME prog\n"; o += "1 CHAR UTF-8\n"; }
        std::vector<std::pair<str, str>> blocks;
        std::map<str, long> index;
        for (auto& l : p.lines)
            if (l[0] == "indi" && l.size() > 4) index.insert({ l[1], (long)index.size() });
        for (auto& l : p.lines)
        {
            if (l[0] == "subm") o += str("0 @S1@ SUBM\n") + (r.chance(1, 2) ? "1 NAME The submitter\n" : "");
            if (l[0] == "indi" && l.size() > 4)
            {
                if (std::any_of(t.indi.begin(), t.indi.end(), [&](const Indi& i) { return i.xref == l[1]; })) continue;
                Indi i;
                i.xref = l[1];
                o += "0 @" + l[1] + "@ INDI\n";
                std::vector<str> w;
                if (l[2][0] == 'n') { i.hasName = true; i.name = sim::dec(l[2].substr(1)); w.push_back("1 NAME" + (i.name.empty() ? str("") : " " + i.name) + "\n"); }
                if (l[3][0] == 't') { i.hasTitle = true; i.title = sim::dec(l[3].substr(1)); w.push_back("1 TITL " + i.title + "\n"); }
                if (l[4][0] == 's') { i.hasSex = true; i.sex = sim::dec(l[4].substr(1)); w.push_back("1 SEX " + i.sex + "\n"); }
                int n = l.size() > 5 ? toi(l[5]) : 0;
                for (int k = 0; k < n; k++) { str x; extra(r, x, 1, false, odd); w.push_back(x); }
                for (size_t k = w.size(); k > 1; k--) std::swap(w[k - 1], w[r.below(k)]);
                for (auto& x : w) o += x;
                t.indi.push_back(i);
            }
            if (l[0] == "fam" && l.size() > 4)
            {
                Fam f;
                f.xref = l[1];
                o += "0 @" + l[1] + "@ FAM\n";
                std::vector<str> w;
                auto idx = [&](const str& x) -> long { auto i = index.find(x); return i == index.end() ? -1 : i->second; };
                if (l[2] != "-") { f.husb = idx(l[2]); w.push_back("1 HUSB @" + l[2] + "@\n"); }
                if (l[3] != "-") { f.wife = idx(l[3]); w.push_back("1 WIFE @" + l[3] + "@\n"); }
                int n = toi(l[4]);
                for (int k = 0; k < n; k++) { str x; extra(r, x, 1, true, odd); w.push_back(x); }
                std::vector<str> kids;
                for (size_t k = 5; k < l.size(); k++) kids.push_back(l[k]);
                for (auto& k : kids) { w.push_back("1 CHIL @" + k + "@\n"); }
                for (size_t k = w.size(); k > 1; k--) std::swap(w[k - 1], w[r.below(k)]);
                for (auto& x : w)
                {
                    o += x;
                    if (x.compare(0, 8, "1 CHIL @") == 0) { long c = idx(x.substr(8, x.size() - 10)); if (c >= 0) f.chil.push_back(c); }
                }
                t.fam.push_back(f);
            }
        }
        (void)famFirst;
        o += "0 TRLR";
        return o;
    }
    bool take(var v, Tree& t, str& why)
    {
        bool ok = true;
        sim::Outcome o = sim::sut([&] {
            if (!v.defined()) return;
            for (int i = 0; i < v.size(); i++)
            {
                bool is;
                str k = bytes(v.key(i), &is);
                if (!is || (k != "Individual" && k != "Family")) { ok = false; sim::Host h; why = "entry " + k; return; }
            }
            var in = v.at("Individual"), fa = v.at("Family");
            in.dereference();
            fa.dereference();
            if (in.defined())
                for (int i = 0; i < in.size(); i++)
                {
                    var e = in.at(i);
                    Indi d;
                    bool a, b, c;
                    var n = e.at("NAME"), ti = e.at("TITL"), s = e.at("SEX");
                    str x = bytes(n, &a), y = bytes(ti, &b), z = bytes(s, &c);
                    n.dereference(); ti.dereference(); s.dereference();
                    bool nd = n.defined(), td = ti.defined(), sd = s.defined();
                    sim::Host h;
                    if ((nd && !a) || (td && !b) || (sd && !c)) { ok = false; why = "individual " + num(i); return; }
                    d.hasName = nd; d.name = x; d.hasTitle = td; d.title = y; d.hasSex = sd; d.sex = z;
                    t.indi.push_back(d);
                }
            if (fa.defined())
                for (int i = 0; i < fa.size(); i++)
                {
                    var e = fa.at(i);
                    Fam f;
                    var hu = e.at("HUSB"), wi = e.at("WIFE"), ch = e.at("CHIL");
                    hu.dereference(); wi.dereference(); ch.dereference();
                    f.husb = hu.defined() ? hu.get<int>() : -1;
                    f.wife = wi.defined() ? wi.get<int>() : -1;
                    if (ch.defined()) for (int j = 0; j < ch.size(); j++) { long c = ch.at(j).cast<int>(); sim::Host h; f.chil.push_back(c); }
                    sim::Host h;
                    t.fam.push_back(f);
                }
        });
        if (!o.ok()) { why = o.what; return false; }
        return ok;
    }
    void compare(const Tree& want, const Tree& got, const char* when)
    {
        if (want.indi.size() != got.indi.size()) sim::fail("individuals", "%s: %zu individuals instead of %zu", when, got.indi.size(), want.indi.size());
        if (want.fam.size() != got.fam.size()) sim::fail("families", "%s: %zu families instead of %zu", when, got.fam.size(), want.fam.size());
        auto same = [](bool a, const str& x, bool b, const str& y) { return a == b ? x == y : x.empty() && y.empty(); };
        for (size_t i = 0; i < want.indi.size(); i++)
        {
            const Indi &a = want.indi[i], &b = got.indi[i];
            if (!same(a.hasName, a.name, b.hasName, b.name) || !same(a.hasTitle, a.title, b.hasTitle, b.title) || !same(a.hasSex, a.sex, b.hasSex, b.sex))
                sim::fail("individual", "%s: individual %zu is %s instead of %s", when, i, show(b).c_str(), show(a).c_str());
        }
        for (size_t i = 0; i < want.fam.size(); i++)
        {
            const Fam &a = want.fam[i], &b = got.fam[i];
            if (a.husb != b.husb || a.wife != b.wife || a.chil != b.chil)
                sim::fail("family", "%s: family %zu is %s instead of %s", when, i, show(b).c_str(), show(a).c_str());
        }
    }
    void run(const Plan& p)
    {
        Rng r(p.seed ^ 13);
        Tree want;
        str G = build(p, want, r);
        size_t need = G.size();
        if (p.iparam("newline", 1)) G += "\n";
        if (p.iparam("after") && p.iparam("newline", 1)) G += "0 @I99@ INDI\n1 NAME After the trailer\n";
        long cut = p.iparam("cut", -1);
        if (cut >= 0) G.resize(G.size() * std::min(cut, 1000l) / 1000);
        bool complete = G.size() >= need, damaged = false;
        for (auto& l : p.lines)
            if (l[0] == "damage" && l.size() > 3 && !G.empty())
            {
                size_t at = (size_t)toi(l[2]) * G.size() / 1000 % G.size();
                damaged = true;
                if (l[1] == "flip") G[at] ^= 1 << (toi(l[3]) & 7);
                else if (l[1] == "del") G.erase(at, 1 + toi(l[3]) % 5);
                else if (l[1] == "set") G[at] = " \n@0123 A"[toi(l[3]) % 9];
                else if (l[1] == "ins") G.insert(at, 1, " \n@0123 A"[toi(l[3]) % 9]);
                else if (l[1] == "dup") G.insert(at, G.substr(at, 1 + toi(l[3]) % 30));
            }
        sim::trace("file %s", sim::enc(G.substr(0, 1500)).c_str());
        if (!p.iparam("absent")) vos::put("/sim/g.ged", G);
        vos::put("/sim/o.ged", "0 HEAD\n0 @X1@ INDI\n1 NAME Other /One/\n0 @I0@ INDI\n1 SEX F\n0 @XF@ FAM\n1 WIFE @I0@\n1 HUSB @X1@\n0 TRLR\n");
        Tree other;
        { Indi a; a.name = "Other /One/"; a.hasName = true; Indi b; b.sex = "F"; b.hasSex = true; other.indi = { a, b }; Fam f; f.husb = 0; f.wife = 1; other.fam = { f }; }
        vos::chunks(chunkList(p.param("chunks", "-")), {});
        std::unique_ptr<filemodule> m;
        libube::file *g = 0, *g2 = 0;
        sim::sut([&] { m.reset(new filemodule("ged")); g = &m->create(); g2 = &m->create(); });
        var otherV, firstV;
        Tree first;
        bool haveFirst = false;
        if (p.iparam("other"))
            sim::sut([&] { otherV = (p.iparam("other") == 2 ? g2 : g)->read("/sim/o.ged"); });
        int n = 1 + p.iparam("again");
        for (int k = 0; k < n; k++)
        {
            if (!k) faults(p);
            long oom = k ? 0 : p.iparam("oom");
            var v;
            if (oom) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
            sim::Outcome o = sim::sut([&] { v = g->read("/sim/g.ged"); });
            bool nomem = oom && sim::alloc::failed();
            sim::alloc::heal();
            bool broken = vos::fired() > 0 || p.iparam("absent");
            vos::clearFaults();
            sim::takeOutput();
            files::files("after loading");
            sim::count("op.load");
            sim::state(sim::mix(sim::hash(G), k * 16 + o.kind * 2 + broken));
            if (!o.ok())
            {
                sim::count("op.refused");
                if (!nomem && !broken && complete && !damaged) sim::fail("refused", "a complete file is refused: %s", o.what.substr(0, 200).c_str());
                continue;
            }
            if (broken) sim::fail("unreported", "the file could not be read and no error was raised");
            if (!complete && !damaged) sim::fail("partial", "the file ends before its trailer and no error was raised");
            Tree got;
            str why;
            bool shape = take(v, got, why);
            if (damaged) continue;
            if (!shape) sim::fail("shape", "what was loaded is not a genealogy: %s", why.substr(0, 100).c_str());
            compare(want, got, "loaded");
            if (!haveFirst) { haveFirst = true; first = got; sim::sut([&] { firstV = v; }); }
        }
        if (haveFirst) { Tree t; str w; take(firstV, t, w); compare(first, t, "a result kept while loading again"); }
        if (p.iparam("other")) { Tree t; str w; take(otherV, t, w); compare(other, t, "another file loaded before"); }
        // and afterwards another file is as good as new
        var late;
        sim::Outcome o = sim::sut([&] { late = g->read("/sim/o.ged"); });
        if (!o.ok()) sim::fail("unexpected-exception", "another file cannot be loaded afterwards: %s", o.what.substr(0, 200).c_str());
        { Tree t; str w; if (!take(late, t, w)) sim::fail("shape", "another file, loaded afterwards: %s", w.substr(0, 100).c_str()); compare(other, t, "another file loaded afterwards"); }
        if (haveFirst) { Tree t; str w; take(firstV, t, w); compare(first, t, "a result kept while loading another file"); }
        sim::takeOutput();
        sim::sut([&] { firstV = nil; otherV = nil; late = nil; m.reset(); });
        handles("at the end");
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        p.add({ "param", "chunks", genChunks(r) });
        p.add({ "param", "head", r.chance(1, 4) ? "bare" : "full" });
        p.add({ "param", "odd", num(r.chance(1, 2)) });
        p.add({ "param", "newline", num(r.chance(4, 5)) });
        p.add({ "param", "after", num(r.chance(1, 10)) });
        p.add({ "param", "again", num(r.below(2)) });
        p.add({ "param", "other", num(r.below(3)) });
        int ni = r.chance(1, 10) ? 0 : r.range(1, r.chance(1, 40) ? 300 : r.chance(1, 8) ? 40 : 6), nf = r.chance(1, 15) ? r.range(4, 30) : r.below(4);
        std::vector<Line> ls;
        static const char* names[] = { "Homer /Simpson/", "Marge", "/Only/", "A B C D E", "Caf\xc3\xa9 /O'Neil/", "double  space", "trailing ", "@at@", "0 INDI", "", "Mc /\xff/", "Jean-Luc /Picard/ II" };
        for (int i = 0; i < ni; i++)
        {
            Line l = { "indi", "I" + num(i), r.chance(5, 6) ? "n" + sim::enc(r.chance(1, 40) ? str(r.range(50, 4000), 'N') + " /X/" : str(names[r.below(12)])) : "-", r.chance(1, 3) ? "t" + sim::enc(r.chance(1, 2) ? "Dr" : "Duke of  Somewhere") : "-", r.chance(3, 4) ? r.chance(1, 2) ? "sM" : "sF" : "-", num(r.below(4)) };
            ls.push_back(l);
        }
        for (int i = 0; i < nf; i++)
        {
            auto who = [&] { return r.chance(1, 12) ? str("I77") : ni ? "I" + num(r.below(ni)) : str("I0"); };
            Line l = { "fam", "F" + num(i), r.chance(3, 4) ? who() : "-", r.chance(3, 4) ? who() : "-", num(r.below(4)) };
            int n = r.chance(1, 20) ? r.range(5, 40) : r.below(5);
            for (int k = 0; k < n; k++) l.push_back(who());
            ls.push_back(l);
        }
        if (r.chance(1, 4)) ls.push_back({ "subm" });
        int how = r.below(3);
        if (how == 1) std::reverse(ls.begin(), ls.end());
        if (how == 2) for (size_t k = ls.size(); k > 1; k--) std::swap(ls[k - 1], ls[r.below(k)]);
        for (auto& l : ls) p.add(l);
        int k = r.below(10);
        if (k < 2) p.add({ "param", "cut", num(r.below(1001)) });
        else if (k < 4) genReadFault(r, p, 10);
        else if (k < 6)
        {
            static const char* d[] = { "flip", "del", "set", "ins", "dup" };
            int m = r.range(1, 3);
            for (int i = 0; i < m; i++) p.add({ "damage", d[r.below(5)], num(r.below(1000)), num(r.below(40)) });
        }
        else if (k < 7) { p.add({ "param", "oom", num(1 + r.below(80)) }); p.add({ "param", "oomburst", r.chance(1, 3) ? "-1" : num(1 + r.below(3)) }); }
        else if (k < 8 && r.chance(1, 6)) p.add({ "param", "absent", "1" });
    }
    sim::Register reg({ "ged", gen, run, false, true });
}
