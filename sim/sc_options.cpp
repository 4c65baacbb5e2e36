// Command lines parsed by option objects, one after another (C24).
#include "files.h"
#include <lube/config.h>
#include <csetjmp>
#include <dlfcn.h>
#include <unistd.h>
#include <getopt.h>
#include <map>
#include <memory>
using namespace libube;
using namespace files;

// The program's end, when an option object asks for it, ends the step instead
static jmp_buf gEnd;
static bool gArmed;
extern "C" [[noreturn]] void exit(int code) noexcept
{
    if (gArmed) { gArmed = false; longjmp(gEnd, 1); }
    typedef void (*F)(int);
    ((F)dlsym(RTLD_NEXT, "exit"))(code);
    abort();
}

namespace
{
    // ---- the reference: short options as POSIX and GNU have them, options and other arguments in any order
    struct Got { char c; bool has; str arg; };       // '?': not an option, or its argument is missing
    struct Line2 { std::vector<Got> got; std::vector<str> rest; };
    Line2 reference(const std::vector<str>& av, const std::map<char, bool>& opts)
    {
        Line2 r;
        for (size_t i = 0; i < av.size(); i++)
        {
            if (av[i] == "--") { r.rest.insert(r.rest.end(), av.begin() + i + 1, av.end()); break; }
            if (av[i].size() < 2 || av[i][0] != '-') { r.rest.push_back(av[i]); continue; }
            str w = av[i];
            for (size_t k = 1; k < w.size(); k++)
            {
                auto o = opts.find(w[k]);
                if (o == opts.end()) { r.got.push_back({ '?', false, "" }); continue; }
                if (!o->second) { r.got.push_back({ w[k], false, "" }); continue; }
                if (k + 1 < w.size()) r.got.push_back({ w[k], true, w.substr(k + 1) });
                else if (i + 1 < av.size()) r.got.push_back({ w[k], true, av[++i] });
                else r.got.push_back({ '?', false, "" });
                break;
            }
        }
        return r;
    }
    struct Args                                        // an argv of its own for each command line
    {
        std::vector<std::vector<char>> own;
        std::vector<char*> av;
        Args(const std::vector<str>& a)
        {
            own.push_back({ 'p', 'r', 'o', 'g', 0 });
            for (auto& s : a) { own.push_back(std::vector<char>(s.begin(), s.end())); own.back().push_back(0); }
            for (auto& o : own) av.push_back(o.data());
            av.push_back(0);
        }
        int argc() const { return (int)own.size(); }
    };
    std::vector<str> tail(const Line& l, size_t from)
    {
        std::vector<str> v;
        for (size_t k = from; k < l.size(); k++) v.push_back(sim::dec(l[k].substr(1)));
        return v;
    }
    bool strings(const var& v, std::vector<str>& out)
    {
        bool all = true;
        int n = v.size();
        for (int i = 0; i < n; i++) { bool is; str s = bytes(v.at(i), &is); sim::Host h; out.push_back(s); all = all && is; }
        return all;
    }
    str list(const std::vector<str>& v) { str s; for (auto& x : v) s += "[" + files::show(x) + "]"; return s; }
    // the default of a declared option: n, i<int>, d<double>, s<text>; said as the library says it
    struct Decl { char c; str desc, def; };
    bool takes(const str& d) { return d[0] != 'n'; }   // options with a default take an argument
    var value(const str& d)
    {
        if (d[0] == 'i') return (int)toi(d.substr(1));
        if (d[0] == 'd') return atof(d.c_str() + 1);
        if (d[0] == 's') return S(d.substr(1));
        return nil;
    }
    // is w what an option is expected to be: "f" a flag given, "n.." a default, "a<text>" an argument
    bool is(var w, const str& x)
    {
        w.dereference();
        if (x[0] == 'n') return !w.defined();
        if (x[0] == 'f') return w.defined() && !w.heap() && w.cast<int>() == 1;
        if (x[0] == 'i') return w.defined() && !w.heap() && w.atype() == TYPE_INT && w.cast<int>() == (int)toi(x.substr(1));
        if (x[0] == 'd') return w.defined() && !w.heap() && w.atype() == TYPE_DOUBLE && w.cast<double>() == atof(x.c_str() + 1);
        bool s;
        str t = bytes(w, &s);
        return s && t == x.substr(1);
    }

    void loop(const Line& l, long oom, long burst)
    {
        // loop <optstring> <how many to take, -1 all> <late> args...
        std::map<char, bool> opts;
        str os = sim::dec(l[1].substr(1));
        for (size_t i = 0; i < os.size(); i++) if (os[i] != ':') opts[os[i]] = i + 1 < os.size() && os[i + 1] == ':';
        long take = toi(l[2]);
        std::vector<str> av = tail(l, 3);
        Line2 want = reference(av, opts);
        Args& a = *new Args(av);                        // command lines last as long as the program
        std::unique_ptr<Option> o;
        bool none = false;
        if (oom) { sim::alloc::failAt(oom, burst); }
        sim::Outcome made = sim::sut([&] { Option* x = os.empty() ? new Option(a.argc(), a.av.data()) : new Option(a.argc(), a.av.data(), S(os)); sim::Host h; o.reset(x); });
        if (!made.ok())
        {
            sim::alloc::heal();
            if (made.kind != sim::NOMEM || !oom) sim::fail("unexpected-exception", "making an option object raised %s", made.what.substr(0, 150).c_str());
            return;                                    // the next one starts afresh
        }
        size_t n = 0;
        for (;; n++)
        {
            if (take >= 0 && (long)n >= take) { none = true; break; }
            bool more = false, has = false, threw = false, isS = false;
            int c = 0;
            str arg;
            sim::Outcome q = sim::sut([&] { more = *o; if (more) c = o->get(); });
            if (!q.ok()) { sim::alloc::heal(); if (q.kind == sim::NOMEM && oom) { none = true; break; } sim::fail("unexpected-exception", "taking option %zu raised %s", n, q.what.substr(0, 150).c_str()); }
            if (!more) break;
            if (n >= want.got.size()) sim::fail("option", "option %zu of %s is '%c', there are %zu", n, list(av).c_str(), c, want.got.size());
            const Got& g = want.got[n];
            if (c != g.c) sim::fail("option", "option %zu of %s is '%c' instead of '%c'", n, list(av).c_str(), c, g.c);
            if (g.c == '?') continue;
            for (int again = 0; again < 2; again++)
            {
                has = false;
                q = sim::sut([&] { var x = o->arg(); arg = bytes(x, &isS); has = true; });
                threw = q.kind == sim::THREW;
                if (q.kind != sim::NOMEM) break;
                sim::alloc::heal();
                if (!oom || again) sim::fail("unexpected-exception", "no memory for an argument");
                sim::count("op.retried");
            }
            if (has != g.has || threw == g.has) sim::fail("argument", "option '%c' of %s %s", g.c, list(av).c_str(), has ? "has an argument" : "lacks its argument");
            if (has && (!isS || arg != g.arg)) sim::fail("argument", "the argument of '%c' of %s is %s", g.c, list(av).c_str(), files::show(arg).c_str());
        }
        if (!none)
        {
            if (n != want.got.size()) sim::fail("option", "%s has %zu options instead of %zu", list(av).c_str(), n, want.got.size());
            for (int again = 0; again < 2; again++)
            {
                std::vector<str> rest;
                bool all = false;
                long at = 0;
                sim::Outcome q = sim::sut([&] { var x = o->args(); all = strings(x, rest); at = o->index(); });
                if (q.kind == sim::NOMEM && oom && !again) { sim::alloc::heal(); continue; }
                if (!q.ok()) sim::fail("unexpected-exception", "taking the remaining arguments raised %s", q.what.substr(0, 150).c_str());
                if (!all || rest != want.rest) sim::fail("remaining", "%s leaves %s instead of %s", list(av).c_str(), list(rest).c_str(), list(want.rest).c_str());
                if (at != a.argc() - (long)rest.size()) sim::fail("remaining", "%s: remaining arguments begin at %ld of %d", list(av).c_str(), at, a.argc());
                break;
            }
        }
        sim::alloc::heal();
        sim::count(none ? "op.abandoned" : "op.loop");
        sim::note(sim::hash(list(want.rest), n));
        sim::state(sim::hash(list(av), sim::hash(os, n)));
        sim::sut([&] { o.reset(); });
    }

    // what usage() must contain, each on a line of its own, in this order
    void usage(const str& out, const std::vector<str>& want, const char* when)
    {
        size_t at = 0;
        for (auto& w : want)
        {
            size_t k = out.find("\n" + w + "\n", at);
            if (k == str::npos) sim::fail("usage", "%s does not say (in order) %s: %s", when, files::show(w).c_str(), files::show(out).c_str());
            at = k + w.size() + 1;
        }
    }
    bool declared(const Line& l, const std::vector<Decl>& decl, long oom, long burst)
    {
        // parse <usage first> args...
        std::vector<str> av = tail(l, 2), lines;
        std::map<char, bool> opts;
        std::map<char, str> want;
        for (auto& d : decl)
        {
            if (!d.c) { lines.push_back(d.desc); continue; }
            opts[d.c] = takes(d.def);
            want[d.c] = d.def;
            str s = str(" -") + d.c + " " + d.desc;
            if (takes(d.def))
            {
                sim::sut([&] { varstream v; v << value(d.def); var t(v); str x = bytes(t); sim::Host h; s += " [" + x + "]"; });
            }
            lines.push_back(s);
        }
        Line2 ref = reference(av, opts);
        bool ends = false;
        size_t upto = 0;
        for (; upto < ref.got.size(); upto++)
        {
            const Got& g = ref.got[upto];
            if (g.c == '?') { ends = true; break; }
            want[g.c] = g.has ? "a" + g.arg : "f";
        }
        static Args* a;                                // (across longjmp)
        static std::unique_ptr<Option> o;
        static bool ended;
        a = new Args(av);
        ended = false;
        if (oom) sim::alloc::failAt(oom, burst);
        sim::Outcome made = sim::sut([&] {
            Option* x = new Option(S("The program"));
            { sim::Host h; o.reset(x); }
            for (auto& d : decl)
                if (!d.c) (*o)(S(d.desc));
                else if (d.def == "n") (*o)(d.c, S(d.desc));
                else (*o)(d.c, S(d.desc), value(d.def));
        });
        if (!made.ok())
        {
            sim::alloc::heal();
            if (made.kind != sim::NOMEM || !oom) sim::fail("unexpected-exception", "declaring options raised %s", made.what.substr(0, 150).c_str());
            sim::sut([&] { o.reset(); });
            return false;
        }
        if (l[1] == "1")
        {
            sim::takeOutput();
            sim::Outcome q = sim::sut([&] { o->usage(); });
            str out = sim::takeOutput();
            if (!q.ok()) { if (q.kind != sim::NOMEM || !oom) sim::fail("unexpected-exception", "showing the usage raised %s", q.what.substr(0, 150).c_str()); }
            else usage(out, lines, "the usage");
            sim::count("op.usage");
        }
        sim::takeOutput();
        var* all = new var;
        static sim::Outcome q;
        q = sim::Outcome();
        gArmed = true;
        if (setjmp(gEnd) == 0) q = sim::sut([&] { *all = o->parse(a->argc(), a->av.data()); });
        else { sim::alloc::heal(); static char host[sizeof(sim::Host)]; new (host) sim::Host; ended = true; }
        gArmed = false;
        str out = sim::takeOutput();
        sim::alloc::heal();
        if (ended)
        {
            if (!ends) sim::fail("ended", "the program is ended by %s", list(av).c_str());
            usage(out, lines, "what is shown at the end");
            sim::count("op.ended");
            sim::note(sim::hash(list(av)));
            return true;
        }
        if (!q.ok())
        {
            if (q.kind != sim::NOMEM || !oom) sim::fail("unexpected-exception", "parsing %s raised %s", list(av).c_str(), q.what.substr(0, 150).c_str());
            sim::count("op.refused");
        }
        else
        {
            if (ends) sim::fail("accepted", "%s is accepted", list(av).c_str());
            str bad;
            size_t n = 0;
            std::vector<str> rest;
            bool allS = false;
            sim::Outcome r = sim::sut([&] {
                n = all->size();
                for (auto& d : want)
                {
                    bool a1 = is((*all)[var(d.first)], d.second), a2 = is((*o)[d.first], d.second);
                    if (!a1 || !a2) { sim::Host h; bad = str(1, d.first) + (a1 ? " of the object" : " of the result") + " is not " + d.second; break; }
                }
                var x = o->args();
                allS = strings(x, rest);
            });
            if (!r.ok()) sim::fail("unexpected-exception", "reading the options of %s raised %s", list(av).c_str(), r.what.substr(0, 150).c_str());
            if (!bad.empty()) sim::fail("option", "%s: %s", list(av).c_str(), files::show(bad).c_str());
            if (n != want.size()) sim::fail("option", "%s gives %zu entries for %zu options", list(av).c_str(), n, want.size());
            if (!allS || rest != ref.rest) sim::fail("remaining", "%s leaves %s instead of %s", list(av).c_str(), list(rest).c_str(), list(ref.rest).c_str());
            sim::count("op.parse");
            sim::Outcome u = sim::sut([&] { o->usage(); });
            str s = sim::takeOutput();
            if (!u.ok()) sim::fail("unexpected-exception", "showing the usage raised %s", u.what.substr(0, 150).c_str());
            usage(s, lines, "the usage afterwards");
            sim::note(sim::hash(list(rest), want.size()));
        }
        sim::state(sim::hash(list(av), decl.size()));
        sim::sut([&] { *all = nil; delete all; o.reset(); });
        return false;
    }
    void run(const Plan& p)
    {
        opterr = 0;
        unsetenv("POSIXLY_CORRECT");
        std::vector<Decl> decl;
        long oom = 0, burst = 1;
        for (auto& l : p.lines)
        {
            if (l[0] == "decl" && l.size() > 3)
            {
                str c = sim::dec(l[1].substr(1));
                bool dup = false;
                for (auto& d : decl) if (d.c && d.c == (c.empty() ? 0 : c[0])) dup = true;
                if (!dup) decl.push_back({ c.empty() ? '\0' : c[0], sim::dec(l[2].substr(1)), sim::dec(l[3]) });
            }
            else if (l[0] == "fresh") decl.clear();
            else if (l[0] == "oom" && l.size() > 2) { oom = std::max(1l, toi(l[1])); burst = toi(l[2]); }
            else if (l[0] == "loop" && l.size() > 2) { loop(l, oom, burst); oom = 0; }
            else if (l[0] == "parse" && l.size() > 1) { if (declared(l, decl, oom, burst)) return; oom = 0; }
        }
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        static const char letters[] = "abcvxyzABZ019o";
        static const char* words[] = { "file", "-", "", "a b", "caf\xc3\xa9", "x=y", "1", "0", "-5", "\"q\"", "a-b", "--long", "--", "-a", "'", "\\", "\xff\xfe", "?" };
        auto args = [&](Line& l, const str& os, bool good) {
            int n = r.below(r.chance(1, 8) ? 25 : 8);
            for (int i = 0; i < n; i++)
            {
                str w;
                int q = r.below(12);
                if (q < 7 && !os.empty())
                {
                    w = "-";
                    int k = r.chance(1, 2) ? 1 : r.range(1, 4);
                    for (int j = 0; j < k; j++)
                    {
                        size_t at = r.below(os.size());
                        if (os[at] == ':') at--;
                        if (!good && r.chance(1, 12)) w += r.chance(1, 4) ? ":?W=+;"[r.below(6)] : "qQ7"[r.below(3)];
                        else
                        {
                            w += os[at];
                            if (at + 1 < os.size() && os[at + 1] == ':')
                            {
                                if (r.chance(1, 2)) w += words[r.below(18)];
                                else if (good || r.chance(7, 8)) { l.push_back("w" + sim::enc(w)); w = words[r.below(18)]; }
                                break;
                            }
                        }
                    }
                }
                else if (q == 7 && r.chance(1, 2)) w = "--";
                else { w = words[r.below(r.chance(1, 3) || !good ? 18 : 11)]; if (good && w[0] == '-' && w.size() > 1) w = "5"; }
                l.push_back("w" + sim::enc(w));
            }
        };
        int n = r.range(1, 5);
        for (int i = 0; i < n; i++)
        {
            if (r.chance(1, 4)) p.add({ "oom", num(1 + r.below(r.chance(1, 2) ? 12 : 80)), r.chance(1, 3) ? "-1" : num(1 + r.below(3)) });
            str os;
            int k = r.below(7);
            for (int j = 0; j < k; j++)
            {
                char c = letters[r.below(14)];
                if (os.find(c) != str::npos) continue;
                os += c;
                if (r.chance(2, 5)) os += ':';
            }
            if (r.chance(1, 2))
            {
                Line l = { "loop", "o" + sim::enc(os), r.chance(1, 3) ? num(r.below(5)) : "-1" };
                args(l, os, false);
                p.add(l);
            }
            else
            {
                static const char* desc[] = { "An option", "", "x", "with [brackets]", "several words of description, rather long ones, so that a short string is not enough", "caf\xc3\xa9", "-v" };
                static const char* on[] = { "i5", "i-3", "d2.5", "stext", "sa b", "i1", "d-0.25", "s0", "s-x", "i0", "s", "d0" };
                p.add({ "fresh" });
                for (size_t j = 0; j < os.size(); j++)
                    if (os[j] != ':')
                        p.add({ "decl", "c" + sim::enc(str(1, os[j])), "d" + sim::enc(desc[r.below(7)]), sim::enc(j + 1 < os.size() && os[j + 1] == ':' ? on[r.below(12)] : "n") });
                    else if (r.chance(1, 4)) p.add({ "decl", "c" + sim::enc(""), "d" + sim::enc(desc[r.below(7)]), sim::enc("n") });
                Line l = { "parse", r.chance(1, 4) ? "1" : "0" };
                args(l, os, !r.chance(1, 5));
                p.add(l);
            }
        }
    }
    sim::Register reg({ "options", gen, run, true, false });
}
