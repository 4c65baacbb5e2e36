// Configuration files merged into settings that several objects share (C12).
#include "files.h"
#include <lube/config.h>
#include <algorithm>
#include <map>
#include <memory>
using namespace libube;
using namespace files;

namespace
{
    struct V { char t; str s; };                       // 's' text (of a file or set), 'i', 'd'
    typedef std::map<str, std::map<str, V>> Settings;
    struct File { str text; Settings set; bool bad = false; };
    str trim(const str& s)
    {
        size_t a = s.find_first_not_of(" \t\r\v\f\n"), b = s.find_last_not_of(" \t\r\v\f\n");
        return a == str::npos ? "" : s.substr(a, b - a + 1);
    }
    // file <id> <token>...:  [sec  k<key> <how> v<value>  ;comment  _blank  !raw(malformed)
    File build(const Line& l, Rng& r)
    {
        File f;
        str sec;
        bool crlf = l.size() > 2 && l[2] == "crlf";
        auto pad = [&] { static const char* w[] = { "", "", " ", "\t", "  " }; return str(w[r.below(5)]); };
        for (size_t k = 3; k < l.size(); k++)
        {
            str t = l[k], a = sim::dec(t.substr(1));
            str line;
            if (t[0] == '[') { sec = a; line = pad() + "[" + a + "]" + pad() + (r.chance(1, 10) ? "; what follows" : ""); }
            else if (t[0] == ';') line = pad() + (r.chance(1, 2) ? ";" : "#") + a;
            else if (t[0] == '_') line = pad();
            else if (t[0] == '!') { line = a; f.bad = true; }
            else if (t[0] == 'k' && k + 2 < l.size())
            {
                str sep = l[k + 1], v = sim::dec(l[k + 2].substr(1));
                k += 2;
                if (sep != "=") sep = ":";
                line = pad() + a + pad() + sep + pad() + v + pad();
                f.set[sec][a] = { 's', trim(v) };
            }
            else continue;
            f.text += line;
            if (k + 1 < l.size() || !r.chance(1, 4)) f.text += crlf ? "\r\n" : "\n";
        }
        return f;
    }
    bool numeric(const str& s, bool integer)
    {
        if (s.empty() || s.size() > 8) return false;
        bool digit = false;
        for (size_t i = 0; i < s.size(); i++)
            if (isdigit((unsigned char)s[i])) digit = true;
            else if (!(i == 0 && s[i] == '-') && !(s[i] == '.' && !integer)) return false;
        return digit && std::count(s.begin(), s.end(), '.') < 2;
    }
    void check(const Settings& m, const std::vector<str>& secs, const std::vector<str>& keys, const char* after)
    {
        for (auto& sn : secs)
            for (auto& kn : keys)
            {
                auto si = m.find(sn);
                const V* v = 0;
                if (si != m.end()) { auto ki = si->second.find(kn); if (ki != si->second.end()) v = &ki->second; }
                bool def = false, isS = false;
                str s, s2;
                long n = 0, n2 = 0;
                double d = 0;
                bool num = v && (v->t != 's' || numeric(v->s, true)), real = v && (v->t != 's' || numeric(v->s, false));
                sim::Outcome o = sim::sut([&] {
                    Config c(S(sn));
                    var e = c.config(S(kn));
                    def = e.defined();
                    if (def && (!v || v->t == 's')) { str x = bytes(e, &isS); sim::Host h; s = x; }
                    if (!v || v->t == 's') { const char* q = c.config<const char*>(S(kn), "the default"); sim::Host h; s2 = q; }
                    if (!v || num) { n = c.config<int>(S(kn), -77); n2 = c.config<long>(S(kn), -78l); }
                    if (!v || real) d = c.config<double>(S(kn), -7.5);
                });
                if (!o.ok()) sim::fail("unexpected-exception", "after %s looking up %s/%s raised %s", after, files::show(sn).c_str(), files::show(kn).c_str(), o.what.substr(0, 150).c_str());
                if (def != !!v) sim::fail(v ? "entry-lost" : "entry-invented", "after %s entry %s/%s is %s", after, files::show(sn).c_str(), files::show(kn).c_str(), v ? "not there" : "there");
                if (!v)
                {
                    if (s2 != "the default" || n != -77 || n2 != -78 || d != -7.5) sim::fail("default", "after %s an absent entry %s/%s does not give the default", after, files::show(sn).c_str(), files::show(kn).c_str());
                    continue;
                }
                if (v->t == 's' && (!isS || s != v->s)) sim::fail("altered", "after %s entry %s/%s is %s instead of %s", after, files::show(sn).c_str(), files::show(kn).c_str(), files::show(s).c_str(), files::show(v->s).c_str());
                if (v->t == 's' && s2 != v->s.c_str()) sim::fail("altered", "after %s entry %s/%s is %s as C string instead of %s", after, files::show(sn).c_str(), files::show(kn).c_str(), files::show(s2).c_str(), files::show(v->s).c_str());
                if (num && (n != atol(v->s.c_str()) || n2 != n)) sim::fail("altered", "after %s entry %s/%s is %ld instead of %s", after, files::show(sn).c_str(), files::show(kn).c_str(), n, v->s.c_str());
                if (real && v->t == 's' && d != atof(v->s.c_str())) sim::fail("altered", "after %s entry %s/%s is %g instead of %s", after, files::show(sn).c_str(), files::show(kn).c_str(), d, v->s.c_str());
            }
    }
    void run(const Plan& p)
    {
        Rng r(p.seed ^ 9);
        std::map<str, File> fs;
        Settings m;
        std::vector<str> secs = { "", "zz" }, keys = { "absent" };
        auto know = [&](std::vector<str>& v, const str& s) { if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); };
        vos::chunks(chunkList(p.param("chunks", "-")), {});
        for (auto& l : p.lines)
            if (l[0] == "file" && l.size() > 2)
            {
                File f = build(l, r);
                fs[l[1]] = f;
                vos::put("/sim/" + l[1] + ".ini", f.text);
                for (auto& s : f.set) { know(secs, s.first); for (auto& k : s.second) know(keys, k.first); }
            }
            else if (l[0] == "oset" && l.size() > 3) know(keys, sim::dec(l[2].substr(1)));
            else if (l[0] == "section" && l.size() > 2) { if (l[2][0] == 'n') know(secs, sim::dec(l[2].substr(1))); }
            else if (l[0] == "set" && l.size() > 4) { know(secs, sim::dec(l[1].substr(1))); know(keys, sim::dec(l[2].substr(1))); }
        var tree;            // of a direct read, kept over later operations
        const File* treeOf = 0;
        // objects which live on, each with the section that it is in (or none)
        struct Obj { std::unique_ptr<Config> c; bool some; str sec; };
        std::map<str, Obj> objs;
        auto object = [&](const str& n) -> Obj& {
            Obj& o = objs[n];
            if (!o.c) { o.some = false; sim::sut([&] { o.c.reset(new Config); }); }
            return o;
        };
        auto ask = [&](const char* after) {
            for (auto& x : objs)
                for (auto& kn : keys)
                {
                    Obj& ob = x.second;
                    const V* v = 0;
                    if (ob.some && m.count(ob.sec) && m[ob.sec].count(kn)) v = &m[ob.sec][kn];
                    bool def = false, is = false;
                    str s;
                    float fl = 0;
                    sim::Outcome o = sim::sut([&] {
                        var e = ob.c->config(S(kn));
                        def = e.defined();
                        if (def && v && v->t == 's') { str t = bytes(e, &is); sim::Host h; s = t; }
                        if (!v) fl = ob.c->config<float>(S(kn), 7.5f);
                    });
                    if (!o.ok()) sim::fail("unexpected-exception", "after %s looking up %s by object %s raised %s", after, files::show(kn).c_str(), x.first.c_str(), o.what.substr(0, 150).c_str());
                    if (def != !!v) sim::fail(v ? "entry-lost" : "entry-invented", "after %s entry %s of object %s (section %s) is %s", after, files::show(kn).c_str(), x.first.c_str(), ob.some ? files::show(ob.sec).c_str() : "none", v ? "not there" : "there");
                    if (v && v->t == 's' && (!is || s != v->s)) sim::fail("altered", "after %s entry %s of object %s is %s instead of %s", after, files::show(kn).c_str(), x.first.c_str(), files::show(s).c_str(), files::show(v->s).c_str());
                    if (!v && fl != 7.5f) sim::fail("default", "after %s an absent entry does not give the default", after);
                }
        };
        int step = 0;
        for (auto& l : p.lines)
        {
            str what = l[0];
            if (l[0] == "load" && l.size() > 1)
            {
                bool absent = !fs.count(l[1]);
                File f = absent ? File() : fs[l[1]];
                if (l.size() > 4) vos::fault(l[2], std::max(1l, toi(l[3])), l[4], l.size() > 5 ? toi(l[5]) : 0);
                sim::Outcome o = sim::sut([&] { Config c("Main"); c.configFile(S("/sim/" + l[1] + ".ini")); });
                bool broken = vos::fired() > 0;
                vos::clearFaults();
                sim::count("op.load");
                what = "load " + l[1];
                files::files("after loading");
                if (o.ok())
                {
                    if (broken || absent) sim::fail("unreported", "%s could not be read and no error was raised", l[1].c_str());
                    if (f.bad) sim::fail("accepted", "%s is malformed and was accepted", l[1].c_str());
                    for (auto& s : f.set) for (auto& k : s.second) m[s.first][k.first] = k.second;
                }
                else
                {
                    sim::count("op.refused");
                    if (!broken && !absent && !f.bad) sim::fail("refused", "%s raised %s", l[1].c_str(), o.what.substr(0, 200).c_str());
                    what += " (refused)";
                }
            }
            else if (l[0] == "set" && l.size() > 4)
            {
                str sn = sim::dec(l[1].substr(1)), kn = sim::dec(l[2].substr(1)), v = sim::dec(l[4].substr(1));
                char t = l[3][0];
                sim::Outcome o = sim::sut([&] {
                    Config c(S(sn));
                    if (t == 'i') c.configSet(S(kn), (int)toi(v)); else if (t == 'd') c.configSet(S(kn), atof(v.c_str())); else c.configSet(S(kn), S(v));
                });
                if (!o.ok()) sim::fail("unexpected-exception", "setting %s/%s raised %s", files::show(sn).c_str(), files::show(kn).c_str(), o.what.substr(0, 150).c_str());
                m[sn][kn] = { t, t == 'd' ? sim::dnum(atof(v.c_str())) : t == 'i' ? num((int)toi(v)) : v };
                sim::count("op.set");
            }
            else if (l[0] == "section" && l.size() > 2)
            {
                Obj& ob = object(l[1]);
                str sn = sim::dec(l[2].substr(1));
                bool some = l[2][0] == 'n';
                size_t have = 0, want = some && m.count(sn) ? m[sn].size() : 0;
                sim::Outcome o = sim::sut([&] { var e = some ? ob.c->configSection(S(sn)) : ob.c->configSection(); if (e.defined()) have = e.size(); });
                if (!o.ok()) sim::fail("unexpected-exception", "changing to section %s raised %s", files::show(sn).c_str(), o.what.substr(0, 150).c_str());
                if (have != want) sim::fail("entry-lost", "section %s shows %zu entries instead of %zu", files::show(sn).c_str(), have, want);
                ob.some = some;
                ob.sec = sn;
                sim::count("op.section");
            }
            else if (l[0] == "oset" && l.size() > 3)
            {
                Obj& ob = object(l[1]);
                str kn = sim::dec(l[2].substr(1)), v = sim::dec(l[3].substr(1));
                sim::Outcome o = sim::sut([&] { ob.c->configSet(S(kn), S(v)); });
                if (!o.ok()) sim::fail("unexpected-exception", "setting %s raised %s", files::show(kn).c_str(), o.what.substr(0, 150).c_str());
                if (ob.some) m[ob.sec][kn] = { 's', v };
                sim::count("op.set");
            }
            else if (l[0] == "odel" && l.size() > 1) { Obj& ob = object(l[1]); sim::sut([&] { ob.c.reset(); }); objs.erase(l[1]); }
            else if (l[0] == "read" && l.size() > 1 && fs.count(l[1]))
            {
                File& f = fs[l[1]];
                var v;
                sim::Outcome o = sim::sut([&] { filemodule mod("ini"); libube::file& i = mod.create(); v = i.read(S("/sim/" + l[1] + ".ini")); });
                if (o.ok() == f.bad) sim::fail(f.bad ? "accepted" : "refused", "reading %s: %s", l[1].c_str(), o.what.substr(0, 150).c_str());
                if (o.ok() && !treeOf) { sim::sut([&] { tree = v; }); treeOf = &f; }
                sim::sut([&] { v = nil; });
                sim::count("op.read");
            }
            else continue;
            step++;
            check(m, secs, keys, what.c_str());
            ask(what.c_str());
            str all;
            for (auto& s : m) for (auto& k : s.second) all += s.first + "/" + k.first + "=" + k.second.s + "\n";
            sim::state(sim::hash(all, step));
            sim::note(sim::hash(all));
        }
        if (treeOf)
        {
            // what the module returned is the file, and nothing else
            size_t n = 0, have = 0;
            for (auto& s : treeOf->set) n += s.second.size();
            str bad;
            sim::Outcome o = sim::sut([&] {
                for (int i = 0; i < tree.size(); i++)
                {
                    bool is;
                    str sn = bytes(tree.key(i), &is);
                    var e = tree.at(i);
                    for (int j = 0; j < e.size(); j++)
                    {
                        bool a, b;
                        str k = bytes(e.key(j), &a), v = bytes(e.at(j), &b);
                        sim::Host h;
                        have++;
                        auto x = treeOf->set.find(sn);
                        if (!a || !b || x == treeOf->set.end() || !x->second.count(k) || x->second.at(k).s != v) bad = sn + "/" + k + "=" + v;
                    }
                }
            });
            if (!o.ok() || have != n || !bad.empty()) sim::fail("tree", "the tree of a file has %zu of %zu entries, wrong: %s", have, n, files::show(bad).c_str());
        }
        sim::sut([&] { tree = nil; for (auto& o : objs) o.second.c.reset(); });
        handles("at the end");
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        static const char* secs[] = { "Main", "Test", "a b", "S\xc3\xa9""c", "x:y", "x=y", "UPPER", "1" };
        static const char* keys[] = { "key", "Key", "another key", "integer", "k.2", "\xc3\xa9", "key2", "a-b" };
        p.add({ "param", "chunks", genChunks(r) });
        auto value = [&](bool eq) {
            static const char* v[] = { "val", "23", "-4", "2.5", "some text with words", "1,2,3", "a;b", "# not a comment", "\"quoted\"", "[x]", "0", "\xff\xfe", "caf\xc3\xa9", "/usr/lib:/lib" };
            str s = v[r.below(14)];
            if (r.chance(1, 4)) { s = ""; int n = r.below(r.chance(1, 100) ? 2500 : r.chance(1, 6) ? 300 : 20); for (int i = 0; i < n; i++) s += (char)r.range(32, 126); s = trim(s); }
            if (r.chance(1, 6)) s += eq ? "=b=c" : ":8080/x:y";
            if (!eq) { str t; for (char c : s) if (c != '=') t += c; s = trim(t); }
            return s;
        };
        int nf = r.range(1, 3);
        for (int i = 0; i < nf; i++)
        {
            Line l = { "file", str("f") + num(i), r.chance(1, 6) ? "crlf" : "lf" };
            int n = r.chance(1, 40) ? r.range(20, 80) : r.below(12);
            bool many = n > 12;
            for (int k = 0; k < n; k++)
            {
                int q = r.below(20);
                if (q < 4) l.push_back("[" + sim::enc(secs[r.below(8)]));
                else if (q < 6) l.push_back(";" + sim::enc(r.chance(1, 2) ? " key = value" : "[section]"));
                else if (q < 7) l.push_back("_");
                else if (q < 8 && r.chance(1, 2)) { static const char* w[] = { "no separator here", "[unterminated", "word", "]" }; l.push_back("!" + sim::enc(w[r.below(4)])); }
                else
                {
                    bool eq = r.chance(2, 3);
                    l.push_back("k" + sim::enc(many ? keys[r.below(8)] + num(r.below(60)) : str(keys[r.below(8)])));
                    l.push_back(eq ? "=" : ":");
                    l.push_back("v" + sim::enc(value(eq)));
                }
            }
            p.add(l);
        }
        int n = r.range(1, 9);
        for (int i = 0; i < n; i++)
        {
            int q = r.below(14);
            if (q >= 10)
            {
                static const char* v[] = { "val", "5", "text" };
                str ob = num(r.below(3));
                if (q < 12) p.add({ "section", ob, r.chance(1, 5) ? str("-") : "n" + sim::enc(secs[r.below(8)]) });
                else if (q < 13 || r.chance(2, 3)) p.add({ "oset", ob, "n" + sim::enc(keys[r.below(8)]), "v" + sim::enc(v[r.below(3)]) });
                else p.add({ "odel", ob });
                continue;
            }
            if (q < 5)
            {
                Line l = { "load", r.chance(1, 12) ? "nofile" : str("f") + num(r.below(nf)) };
                if (r.chance(1, 3))
                {
                    static const char* rd[] = { "eio", "eio", "eio+", "eintr", "short", "delay" };
                    static const char* op[] = { "eacces", "emfile", "enoent" };
                    if (r.chance(1, 5)) { l.push_back("open"); l.push_back("1"); l.push_back(op[r.below(3)]); }
                    else { l.push_back("read"); l.push_back(num(1 + r.below(6))); l.push_back(rd[r.below(6)]); l.push_back(num(1 + r.below(20))); }
                }
                p.add(l);
            }
            else if (q < 8)
            {
                static const char* v[] = { "val", "5", "-1", "7.25", "1e3" };
                static const char* t[] = { "s", "i", "d" };
                p.add({ "set", "n" + sim::enc(secs[r.below(8)]), "n" + sim::enc(keys[r.below(8)]), t[r.below(3)], "v" + sim::enc(v[r.below(5)]) });
            }
            else p.add({ "read", str("f") + num(r.below(nf)) });
        }
    }
    sim::Register reg({ "config", gen, run, true, false });
}
