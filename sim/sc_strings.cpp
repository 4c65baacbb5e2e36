// String operations on strings and arrays of strings which several handles share, in place, into another
// handle or giving a new value, against their definitions (C23).
#include "model.h"
#include <regex>
#include <cstring>
#include <lube/string.h>
#include <lube/regex.h>
#include <boost/regex.hpp>
using namespace libube;
using namespace model;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::num;
using sim::toi;

namespace
{
    const int NH = 5;
    // The matcher of boost keeps up to 16 blocks of memory for reuse: it has them before the first run
    sim::Warm warm([] {
        void* p[16];
        var("a1").search("([a-z]+)\\d"); var("a").replace("a", "$1");   // and its tables
        for (auto& x : p) x = boost::BOOST_REGEX_DETAIL_NS::get_mem_block();
        for (auto& x : p) boost::BOOST_REGEX_DETAIL_NS::put_mem_block(x);
    });

    struct Refused {};
    bool isStr(const Val& v) { return v.arr() && v.o->type == TYPE_CHAR; }
    bool isList(const Val& v) { return v.arr() && (v.o->type == TYPE_VAR || v.o->type == TYPE_PAIR); }
    str text(const Val& v) { str s; for (auto& e : v.o->e) s += (char)e.i; return s; }
    void setText(Obj& o, const str& s) { o.e.clear(); for (char c : s) { Val x; x.t = TYPE_CHAR; x.i = c; o.e.push_back(x); } }
    bool plain(const str& s) { for (char c : s) if (c < 32) return false; return true; }   // what a dot or \w takes for a character is not in question here
    bool plain(const Val& v) { if (isStr(v)) return plain(text(v)); if (isList(v)) for (auto& e : v.o->e) if (!plain(e)) return false; return true; }
    Val list(const std::vector<str>& v) { Val r = mkArr(TYPE_VAR); for (auto& s : v) r.o->e.push_back(mkStr(s)); return r; }
    bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }

    // ---- definitions
    str caseOf(const str& s, bool up)
    {
        str r = s;
        for (auto& c : r) if (up ? (c >= 'a' && c <= 'z') : (c >= 'A' && c <= 'Z')) c ^= 32;
        return r;
    }
    str stripped(const str& s)
    {
        size_t b = 0, e = s.size();
        while (b < e && space(s[b])) b++;
        while (e > b && space(s[e - 1])) e--;
        return s.substr(b, e - b);
    }
    std::vector<str> parts(const str& s, const str& sep, int max)
    {
        std::vector<str> r;
        size_t at = 0;
        while (max == 0 || (int)r.size() + 1 < max)
        {
            size_t k = s.find(sep, at);
            if (k == str::npos) break;
            r.push_back(s.substr(at, k - at));
            at = k + sep.size();
        }
        r.push_back(s.substr(at));
        return r;
    }
    std::vector<str> words(const str& s, int max)
    {
        std::vector<str> r;
        size_t at = 0;
        for (;;)
        {
            while (at < s.size() && space(s[at])) at++;
            if (at == s.size()) break;
            // the last one takes all that is left
            if (max && (int)r.size() + 1 >= max) { r.push_back(s.substr(at)); break; }
            size_t e = at;
            while (e < s.size() && !space(s[e])) e++;
            r.push_back(s.substr(at, e - at));
            at = e;
        }
        return r;
    }
    bool regex(const str& re, std::regex& out) { try { out = std::regex(re); return true; } catch (std::regex_error&) { return false; } }

    struct Op { str name, form, a, b; int i, j, k; long n; };
    const char* FUNCS[] = { "upper", "lower", "strip" };

    // one string through a functor; unmatched is nil
    Val mapped(const str& name, const str& s, const Op& o)
    {
        if (name == "upper") return mkStr(caseOf(s, true));
        if (name == "lower") return mkStr(caseOf(s, false));
        if (name == "strip") return mkStr(stripped(s));
        std::regex re;
        if (!regex(o.a, re)) throw Refused();
        if (name == "replace") return mkStr(std::regex_replace(s, re, o.b));
        std::smatch m;
        if (!(name == "match" ? std::regex_match(s, m, re) : std::regex_search(s, m, re))) return Val();
        std::vector<str> g;
        for (size_t i = 0; i < m.size(); i++) g.push_back(m[i].str());
        return list(g);
    }
    bool rebinds(const str& name) { return name == "replace" || name == "search" || name == "match"; }

    struct Run
    {
        State m;
        std::vector<var> h;
        Run() : m(NH), h(NH) {}

        str compareAll(const State& want)
        {
            str bad;
            sim::Outcome o = sim::sut([&] {
                sim::Host hs;
                Ident id;
                for (int i = 0; i < NH && bad.empty(); i++) bad = compare(h[i], want[i], id, "handle " + num(i));
            });
            if (!o.ok()) bad = "reading raised " + o.what.substr(0, 200);
            return bad;
        }
        // a functor in place on a value that may be shared
        void inPlace(Val& v, const Op& o, int& budget)
        {
            if (isStr(v))
            {
                if (budget-- <= 0) throw Refused();
                if (rebinds(o.name)) v = mapped(o.name, text(v), o);
                else setText(*v.o, text(mapped(o.name, text(v), o)));
            }
            else if (isList(v)) for (auto& e : v.o->e) inPlace(e, o, budget);
            else throw Refused();
        }
        Val fresh(const Val& v, const Op& o)
        {
            if (isStr(v)) return mapped(o.name, text(v), o);
            if (!isList(v)) throw Refused();
            Val r = mkArr(v.o->type);
            r.o->k = v.o->k;
            for (auto& e : v.o->e) { if (isList(e)) throw 0; if (!isStr(e)) throw Refused(); r.o->e.push_back(mapped(o.name, text(e), o)); }
            return r;
        }
        // What an operation does to the model; at most budget strings are changed in place
        void define(State& s, const Op& o, int budget)
        {
            Val &I = s[o.i], &J = s[o.j], &K = s[o.k];
            if (o.name == "str") I = mkStr(o.a);
            else if (o.name == "list") { I = mkArr(TYPE_VAR); }
            else if (o.name == "map") { I = mkArr(TYPE_PAIR); }
            else if (o.name == "nil") I = Val();
            else if (o.name == "int") I = mkScalar(TYPE_INT, o.n);
            else if (o.name == "share") I = J;
            else if (o.name == "copy") { I = J.arr() ? shallow(J) : J; }
            else if (o.name == "push") { if (!I.arr() || I.o->type != TYPE_VAR || reaches(J, I.o.get())) throw 0; I.o->e.push_back(J); }
            else if (o.name == "put")
            {
                if (!I.arr() || I.o->type != TYPE_PAIR || reaches(J, I.o.get())) throw 0;
                Val key = mkStr(o.a);
                size_t at = lowerKey(*I.o, key);
                if (at < I.o->k.size() && eq(I.o->k[at], key)) I.o->e[at] = J;
                else { I.o->k.insert(I.o->k.begin() + at, key); I.o->e.insert(I.o->e.begin() + at, J); }
            }
            else if (o.name == "take") { if (!isList(J) || J.o->e.empty()) throw 0; Val x = J.o->e[o.n % J.o->e.size()]; I = x; }
            else if (o.name == "append") { if (!isStr(I)) throw 0; setText(*I.o, text(I) + o.a); }
            else if (o.name == "split") { if (!isStr(J)) throw 0; if (o.a.empty()) throw Refused(); I = list(parts(text(J), o.a, o.n)); }
            else if (o.name == "words")
            {
                if (!isStr(J)) throw 0;
                if (o.n == 1) throw 0;      // said to be without use
                std::vector<str> w = words(text(J), o.n);
                I = w.empty() ? Val() : list(w);
            }
            else if (o.name == "join")
            {
                if (isStr(J)) { I = J; return; }
                if (!isList(J)) throw 0;
                for (auto& e : J.o->e) if (!isStr(e)) throw 0;
                str r;
                for (size_t n = 0; n < J.o->e.size(); n++) r += (n ? o.a : str()) + text(J.o->e[n]);
                I = mkStr(r);
            }
            else
            {
                if (rebinds(o.name) && (!plain(J) || !plain(I))) throw 0;
                std::regex re;
                if (rebinds(o.name) && !regex(o.a, re)) throw Refused();
                if (o.form == "new") I = fresh(J, o);
                else if (o.form == "in") inPlace(I, o, budget);
                else if (o.form == "elem")
                {
                    if (!isList(J) || J.o->e.empty()) throw 0;
                    Val& x = J.o->e[o.n % J.o->e.size()];
                    if (!isStr(x)) throw 0;
                    inPlace(x, o, budget);
                }
                else // out: J's result into K
                {
                    if (!isStr(J)) throw 0;
                    if (K.o == J.o) { inPlace(K, o, budget); return; }
                    K = mapped(o.name, text(J), o);
                }
            }
        }
        // one that is used once, or again and again
        std::map<str, std::unique_ptr<StringFunctor>> kept;
        bool keep = false;
        template <class T, class W, class M> void object(const Op& o, const W& with, const M& make)
        {
            std::unique_ptr<StringFunctor> own;
            StringFunctor* f = 0;
            std::unique_ptr<StringFunctor>* at;
            { sim::Host hs; at = &kept[o.name + " " + o.a + " " + (o.name == "replace" ? o.b : "")]; }
            if (keep && *at) { f = at->get(); sim::count("op.object.again"); }
            else { own.reset(make()); f = own.get(); if (keep) *at = std::move(own); }
            with(*f);
        }
        void functor(const Op& o)
        {
            auto with = [&](const StringFunctor& f) {
                if (o.form == "new") h[o.i] = f(h[o.j]);
                else if (o.form == "in") f(h[o.i], h[o.i]);
                else if (o.form == "elem") { var x = h[o.j].at((int)(o.n % h[o.j].size())); f(x, x); }
                else f(h[o.j], h[o.k]);
            };
            if (o.name == "upper") { if (o.form == "in") h[o.i].toupper(); else with(libube::toupper); }
            else if (o.name == "lower") { if (o.form == "in") h[o.i].tolower(); else with(libube::tolower); }
            else if (o.name == "strip") { if (o.form == "in") h[o.i].strip(); else with(libube::strip); }
            else if (o.name == "search") { if (o.form == "new" && o.n % 2) h[o.i] = h[o.j].search(o.a.c_str()); else object<Search>(o, with, [&] { return new Search(o.a.c_str()); }); }
            else if (o.name == "match") { if (o.form == "new" && o.n % 2) h[o.i] = h[o.j].match(o.a.c_str()); else object<Match>(o, with, [&] { return new Match(o.a.c_str()); }); }
            else if (o.name == "replace") { if (o.form == "in") h[o.i].replace(o.a.c_str(), o.b.c_str()); else object<Replace>(o, with, [&] { return new Replace(o.a.c_str(), o.b.c_str()); }); }
        }
        void perform(const Op& o)
        {
            if (o.name == "str") h[o.i] = var((int)o.a.size(), o.a.data());
            else if (o.name == "list") { var v; v.resize(0); h[o.i] = v; }
            else if (o.name == "map") { var v; v[nil]; h[o.i] = v; }
            else if (o.name == "nil") h[o.i] = nil;
            else if (o.name == "int") h[o.i] = (int)o.n;
            else if (o.name == "share") h[o.i] = h[o.j];
            else if (o.name == "copy") h[o.i] = h[o.j].copy();
            else if (o.name == "push") h[o.i].push(h[o.j]);
            else if (o.name == "put") { var k = var((int)o.a.size(), o.a.data()); h[o.i][k] = h[o.j]; }
            else if (o.name == "take") h[o.i] = h[o.j].at((int)(o.n % h[o.j].size()));
            else if (o.name == "append") h[o.i].append(o.a.c_str());
            else if (o.name == "split") h[o.i] = h[o.j].split(o.a.c_str(), o.n);
            else if (o.name == "words") h[o.i] = h[o.j].split((int)o.n);
            else if (o.name == "join") h[o.i] = h[o.j].join(o.a.c_str());
            else functor(o);
        }
        void step(const Line& l)
        {
            auto A = [&](size_t n) -> str { return n < l.size() ? l[n] : str("0"); };
            Op o{ A(1), A(2), sim::dec(A(7)), sim::dec(A(8)), (int)(toi(A(3)) % NH), (int)(toi(A(4)) % NH), (int)(toi(A(5)) % NH), toi(A(6)) };
            if (o.name == "words" || o.name == "split") o.n = o.n % 5;
            long nth = toi(A(9)), burst = l.size() > 10 ? toi(A(10)) : 1;
            bool refused = false;
            State want = clone(m);
            try { define(want, o, 1 << 30); }
            catch (Refused&) { refused = true; }
            catch (int) { return; }
            sim::count("op.executed");
            sim::count(("op." + o.name).c_str());
            if (sim::verbose()) { str u; for (auto& x : l) u += x + " "; sim::trace("%s", u.c_str()); }
            if (nth) sim::alloc::failAt(nth, burst);
            sim::Outcome r = sim::sut([&] { perform(o); });
            bool nomem = nth && sim::alloc::failed();
            sim::alloc::heal();
            sim::note(r.kind);
            if (r.ok())
            {
                if (refused) sim::fail("not-refused", "%s %s did not refuse what it can not do", o.name.c_str(), o.form.c_str());
                str bad = compareAll(want);
                if (!bad.empty()) sim::fail("wrong-string", "after %s %s: %s", o.name.c_str(), o.form.c_str(), bad.c_str());
                m = want;
            }
            else
            {
                if (!refused && !nomem) sim::fail("unexpected-exception", "%s %s raised %s", o.name.c_str(), o.form.c_str(), r.what.substr(0, 200).c_str());
                sim::count("op.refused");
                // nothing was done, except that some of the strings may have been changed in place
                if (o.form == "out" && nomem && m[o.k].o != m[o.j].o)
                {
                    // it was to be overwritten
                    sim::sut([&] { h[o.k] = nil; });
                    m[o.k] = Val();
                }
                str bad = compareAll(m), first = bad;
                if (!bad.empty() && (o.form == "in" || o.form == "out" || o.form == "elem"))
                    for (int n = 1; n < 4000 && !bad.empty(); n++)
                    {
                        State some = clone(m);
                        bool all = true;
                        try { define(some, o, n); } catch (Refused&) { all = false; }
                        bad = compareAll(some);
                        if (bad.empty()) m = some;
                        if (all) break;
                    }
                if (!bad.empty()) sim::fail(nomem ? "corrupted" : "changed-by-refusal", "%s %s raised %s; then %s", o.name.c_str(), o.form.c_str(), r.what.substr(0, 60).c_str(), first.c_str());
                if (nomem && !refused)
                {
                    // with memory there is again it succeeds
                    State again = clone(m);
                    try { define(again, o, 1 << 30); } catch (...) { return; }
                    sim::Outcome q = sim::sut([&] { perform(o); });
                    if (!q.ok()) sim::fail("not-recovered", "%s %s raised %s although there is memory again", o.name.c_str(), o.form.c_str(), q.what.substr(0, 100).c_str());
                    str b2 = compareAll(again);
                    if (!b2.empty()) sim::fail("wrong-string", "after %s %s, repeated: %s", o.name.c_str(), o.form.c_str(), b2.c_str());
                    m = again;
                }
            }
            sim::u64 st = 0;
            for (auto& v : m) st = sim::mix(st, hashOf(v));
            sim::state(st);
            sim::note(st);
        }
    };
    void run(const Plan& p)
    {
        Run* r;
        sim::sut([&] { r = new Run; });
        r->keep = p.iparam("keep");
        for (auto& l : p.lines) if (l[0] == "do") r->step(l);
        sim::sut([&] { delete r; });
    }

    str someText(Rng& r)
    {
        static const char* w[] = { "", " ", "one, two,, three", "  padded\t", "a-b-c", "key=value", "MiXed Case 12", ",", ",,", "aaa", "x y  z ", "\n", " \t\r\n ", "ab12cd", "word" };
        if (r.chance(3, 4)) return w[r.below(15)];
        str s;
        int n = r.below(r.chance(1, 60) ? 5000 : r.chance(1, 4) ? 200 : 10);
        for (int i = 0; i < n; i++) s += r.chance(1, 3) ? " ,\tabAB"[r.below(7)] : (char)(r.chance(1, 10) ? r.range(1, 255) : r.range(32, 126));
        return s;
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        static const char* RE[] = { "[a-z]+", "(\\w+) *(\\w*)", "a|b|c", "[0-9]+", "(\\w+)=(\\w+)", "(b)(x)?", "^\\s+", ",", ".", ".*", "(a)(a)", "[", "(", "a{2}", "zzz", "\\d+$" };
        static const char* FMT[] = { "", "x", "<$1>", "[$&]", "--", "longer than what was there before" };
        const int fav = r.below(16), favb = r.below(6);
        const bool often = r.chance(2, 3);
        static const char* SEP[] = { ",", ", ", " ", "-", "=", "aa", "a", "", "\n", "zzz" };
        int n = r.range(3, 40);
        bool oom = variant == "oom" || r.chance(1, 4);
        int loud = r.range(1, 3);
        if (r.chance(1, 2)) p.add({ "param", "keep", "1" });
        for (int i = 0; i < n; i++)
        {
            str name, form = "new", a, b;
            long k = r.below(7);
            int w = r.below(24);
            bool fault = true;
            if (i < 3 || w < 3) { name = "str"; a = someText(r); }
            else if (w == 3) { name = "list"; }
            else if (w < 7) { name = "push"; fault = false; }
            else if (w == 7) { static const char* z[] = { "nil", "int", "map", "copy", "share", "share" }; name = z[r.below(6)]; }
            else if (w == 8) { name = "put"; a = str(1, 'a' + r.below(4)); fault = false; }
            else if (w < 10) { name = "take"; }
            else if (w == 10) { name = "append"; a = someText(r); fault = false; }
            else if (w < 13) { name = "split"; a = SEP[r.below(r.chance(1, 20) ? 10 : 6)]; if (r.chance(1, 2)) k = 0; }
            else if (w == 13) { name = "words"; if (r.chance(1, 2)) k = 0; }
            else if (w < 16) { name = "join"; a = SEP[r.below(10)]; }
            else
            {
                name = w < 20 ? FUNCS[r.below(3)] : w < 22 ? "search" : w < 23 ? "match" : "replace";
                static const char* F[] = { "new", "new", "in", "in", "out", "elem" };
                form = F[r.below(6)];
                a = RE[often && r.chance(2, 3) ? fav : (int)r.below(16)];
                b = FMT[often && r.chance(2, 3) ? favb : (int)r.below(6)];
            }
            Line l = { "do", name, form, num(r.below(loud == 1 ? 2 : NH)), num(r.below(loud == 1 ? 2 : NH)), num(r.below(NH)), num(k), sim::enc(a), sim::enc(b) };
            if (oom && fault && r.chance(1, 3)) { l.push_back(num(1 + r.below(r.chance(1, 2) ? 6 : 40))); l.push_back(r.chance(1, 4) ? "-1" : "1"); }
            p.add(l);
        }
    }
    sim::Register reg({ "strings", gen, run, false, true });
}
