// Streams over shared strings, by several actors, against a reference stream (C07).
#include "sim.h"
#include <lube/lube.h>
#include <cstring>
#include <istream>
#include <memory>
#include <iomanip>
using namespace libube;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::num;
using sim::str;
using sim::toi;

namespace
{
    const int NK = 3, NST = 3;
    typedef std::shared_ptr<str> SP;

    // What the stream should be: appends on write, a read position of its own
    struct RefBuf : std::streambuf
    {
        SP d;
        long r = 0;
        explicit RefBuf(SP s) : d(s) { setp(0, 0); setg(0, 0, 0); }
        int overflow(int c) override { if (c != traits_type::eof()) d->push_back((char)c); return traits_type::not_eof(c); }
        int underflow() override { return r < (long)d->size() ? (int)(unsigned char)(*d)[r] : traits_type::eof(); }
        int uflow() override { return r < (long)d->size() ? (int)(unsigned char)(*d)[r++] : traits_type::eof(); }
        int pbackfail(int) override { return r > 0 ? (int)(unsigned char)(*d)[--r] : traits_type::eof(); }
        std::streampos seekpos(std::streampos p, std::ios_base::openmode m) override
        {
            if (!(m & std::ios_base::in) || p < 0 || (std::streamoff)p > (long)d->size()) return -1;
            return r = p;
        }
        std::streampos seekoff(std::streamoff o, std::ios_base::seekdir w, std::ios_base::openmode m) override
        {
            return seekpos(o + (w == std::ios_base::cur ? r : w == std::ios_base::end ? (long)d->size() : 0), m);
        }
    };
    struct St
    {
        std::unique_ptr<varstream> a;
        std::unique_ptr<RefBuf> rb;
        std::unique_ptr<std::iostream> m;
    };

    struct Run
    {
        var h[NK];
        SP md[NK];
        St st[NST];
        long oomNth = 0, oomBurst = 0;

        static str bytes(var v) { str r; int n = v.size(); sim::Host hs; r.assign(v.ptr<char>(), n); return r; }
        static str q(const str& s) { return sim::enc(s.substr(0, 120)); }

        void look(const char* op)
        {
            str bad;
            sim::Outcome o = sim::sut([&] {
                for (int i = 0; i < NK && bad.empty(); i++)
                {
                    if (h[i].defined() != !!md[i]) { sim::Host hs; bad = "string " + num(i) + (md[i] ? " is undefined" : " is defined"); continue; }
                    if (!md[i]) continue;
                    str s = bytes(h[i]);
                    sim::Host hs;
                    if (s != *md[i]) bad = "string " + num(i) + " holds " + q(s) + " not " + q(*md[i]);
                }
                for (int i = 0; i < NST && bad.empty(); i++)
                {
                    if (!st[i].a) continue;
                    var v = var(*st[i].a);
                    str s = bytes(v);
                    {
                        sim::Host hs;
                        if (s != *st[i].rb->d) bad = "stream " + num(i) + " holds " + q(s) + " not " + q(*st[i].rb->d);
                        if (st[i].a->rdstate() != st[i].m->rdstate()) bad = "stream " + num(i) + " has state " + num(st[i].a->rdstate()) + " not " + num(st[i].m->rdstate());
                    }
                    long p = st[i].a->rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
                    sim::Host hs;
                    long w = st[i].rb->r <= (long)st[i].rb->d->size() ? st[i].rb->r : -1;
                    if (bad.empty() && p != w) bad = "stream " + num(i) + " is at " + num(p) + " not " + num(w);
                }
            });
            if (!o.ok()) bad = "reading raised " + o.what;
            if (!bad.empty()) sim::fail("wrong-stream", "after %s: %s", op, bad.c_str());
        }

        template <class F> void both(St& s, const char* name, F f)
        {
            // f(stream, out): performs the operation, leaves what it got in out
            str got, want;
            { f(*s.m, want); want += " count " + num(s.m->gcount()); }
            sim::Outcome o = sim::sut([&] { f(*s.a, got); sim::Host hs; got += " count " + num(s.a->gcount()); });
            if (!o.ok()) sim::fail("unexpected-exception", "%s raised %s", name, o.what.c_str());
            if (got != want) sim::fail("wrong-read", "%s gave %s (state %d), not %s (state %d)", name, q(got).c_str(), (int)s.a->rdstate(), q(want).c_str(), (int)s.m->rdstate());
        }

        void step(const Line& l)
        {
            auto A = [&](size_t i) -> str { return i < l.size() ? l[i] : str("0"); };
            str op = A(1);
            int i = toi(A(2)) % NST;
            St& s = st[i];
            int k = toi(A(3)) % NK;
            sim::count("op.executed");
            if (sim::verbose()) { str u; for (auto& x : l) u += x + " "; sim::trace("%s", u.c_str()); }
            if (op == "str")
            {
                str d = sim::dec(A(4));
                sim::Outcome o = sim::sut([&] { h[k] = var((int)d.size(), d.data()); });
                if (!o.ok()) sim::fail("unexpected-exception", "making a string raised %s", o.what.c_str());
                md[k] = SP(new str(d));
            }
            else if (op == "nil") { sim::sut([&] { h[k] = nil; }); md[k].reset(); }
            else if (op == "share")
            {
                int j = toi(A(4)) % NK;
                sim::sut([&] { h[k] = h[j]; });
                md[k] = md[j];
            }
            else if (op == "edit")
            {
                if (!md[k]) return;
                str d = sim::dec(A(4));
                if (d.empty()) { if (md[k]->empty()) return; sim::sut([&] { h[k].pop(); }); md[k]->pop_back(); }
                else { sim::sut([&] { for (char c : d) h[k].push(c); }); *md[k] += d; }
            }
            else if (op == "open")
            {
                sim::sut([&] { s.a.reset(); });
                sim::Outcome o = sim::sut([&] { varstream* p = md[k] ? new varstream(h[k]) : new varstream(); s.a.reset(p); });
                if (!o.ok()) sim::fail("unexpected-exception", "opening a stream raised %s", o.what.c_str());
                s.m.reset();
                s.rb.reset(new RefBuf(md[k] ? md[k] : SP(new str)));
                s.m.reset(new std::iostream(s.rb.get()));
            }
            else if (!s.a) return;
            else if (op == "close") { sim::sut([&] { s.a.reset(); }); s.m.reset(); s.rb.reset(); }
            else if (op == "take")
            {
                sim::sut([&] { h[k] = var(*s.a); });
                md[k] = s.rb->d;
            }
            else if (op == "cstr")
            {
                str got;
                sim::Outcome o = sim::sut([&] { const char* c = s.a->str(); sim::Host hs; got = c; });
                if (!o.ok() || got != s.rb->d->c_str()) sim::fail("wrong-stream", "str() gave %s %s, not %s", q(got).c_str(), o.what.c_str(), q(*s.rb->d).c_str());
            }
            else if (op == "write" || op == "put" || op == "num" || op == "text")
            {
                str d = sim::dec(A(4));
                long v = toi(A(3));
                auto w = [&](std::iostream& o) {
                    if (op == "write") o.write(d.data(), d.size());
                    else if (op == "put") o.put((char)v);
                    else if (op == "num") { if (v % 3 == 0) o << v; else if (v % 3 == 1) o << std::setprecision(3 + v % 12) << v / 7.0; else o << (int)v << ' ' << std::hex << v << std::dec; }
                    else o << d.c_str() << std::flush;
                };
                str before = *s.rb->d;
                auto state = s.m->rdstate();
                w(*s.m);
                str full = *s.rb->d;
                if (oomNth) sim::alloc::failAt(oomNth, oomBurst);
                sim::Outcome o = sim::sut([&] { w(*s.a); });
                long failed = sim::alloc::failed();
                bool had = oomNth;
                sim::alloc::heal();
                if (!o.ok()) sim::fail("unexpected-exception", "%s raised %s", op.c_str(), o.what.c_str());
                if (had && failed)
                {
                    str now;
                    sim::sut([&] { var v = var(*s.a); str t = bytes(v); sim::Host hs; now = t; str().swap(t); });
                    if (now.size() < before.size() || now.size() > full.size() || full.compare(0, now.size(), now))
                        sim::fail("oom-stream", "after a failed allocation in %s the stream holds %s, neither %s nor part of %s", op.c_str(), q(now).c_str(), q(before).c_str(), q(full).c_str());
                    if (now.size() < full.size())
                    {
                        sim::count("oom.cut");
                        if (!s.a->bad()) sim::fail("oom-silent", "a write which lost %zu bytes left the stream in state %d", full.size() - now.size(), (int)s.a->rdstate());
                    }
                    else if (s.a->rdstate() != state) sim::count("oom.late");
                    *s.rb->d = now;
                    sim::sut([&] { s.a->clear(); s.a->width(0); });
                    s.m->clear();
                    s.m->width(0);
                    // the rest can be written once there is memory
                    str rest = full.substr(now.size());
                    s.m->write(rest.data(), rest.size());
                    sim::sut([&] { s.a->write(rest.data(), rest.size()); });
                }
            }
            else if (op == "get") both(s, "get", [](std::iostream& o, str& r) { int c = o.get(); sim::Host hs; r = num(c); });
            else if (op == "getc") both(s, "get(c)", [](std::iostream& o, str& r) { char c = 0; o.get(c); sim::Host hs; r = num(c); });
            else if (op == "peek") both(s, "peek", [](std::iostream& o, str& r) { int c = o.peek(); sim::Host hs; r = num(c); });
            else if (op == "unget") { if (s.rb->r <= (long)s.rb->d->size()) both(s, "unget", [](std::iostream& o, str&) { o.unget(); }); }
            else if (op == "putback")
            {
                if (s.rb->r <= 0 || s.rb->r > (long)s.rb->d->size()) return;
                char c = (*s.rb->d)[s.rb->r - 1];
                both(s, "putback", [c](std::iostream& o, str&) { o.putback(c); });
            }
            else if (op == "read")
            {
                int n = toi(A(3));
                both(s, "read", [n](std::iostream& o, str& r) { char b[256]; o.read(b, n); sim::Host hs; r.assign(b, o.gcount()); });
            }
            else if (op == "ignore")
            {
                int n = toi(A(3)), c = toi(A(4)) ;
                both(s, "ignore", [n, c](std::iostream& o, str&) { o.ignore(n, c); });
            }
            else if (op == "line")
            {
                both(s, "getline", [](std::iostream& o, str& r) { std::string t; std::getline(o, t); sim::Host hs; r = t; });
            }
            else if (op == "cline")
            {
                int n = toi(A(3));
                both(s, "getline", [n](std::iostream& o, str& r) { char b[256]; memset(b, 0, sizeof b); o.getline(b, n + 1); sim::Host hs; r = b; });
            }
            else if (op == "word") both(s, "extracting a word", [](std::iostream& o, str& r) { std::string t; o >> t; sim::Host hs; r = t; });
            else if (op == "int") both(s, "extracting a number", [](std::iostream& o, str& r) { long v = -1; o >> v; sim::Host hs; r = num(v); });
            else if (op == "real") both(s, "extracting a number", [](std::iostream& o, str& r) { double v = -1; o >> v; sim::Host hs; r = sim::dnum(v); });
            else if (op == "iter")
            {
                both(s, "copying the rest", [](std::iostream& o, str& r) {
                    std::istreambuf_iterator<char> a(o), e;
                    for (int n = 0; a != e && n < 5000; ++a, ++n) { char c = *a; sim::Host hs; r += c; }
                });
            }
            else if (op == "seek")
            {
                long v = toi(A(3));
                both(s, "seekg", [v](std::iostream& o, str& r) { o.seekg(v); long p = o.tellg(); sim::Host hs; r = num(p); });
            }
            else if (op == "off")
            {
                long v = toi(A(3)), w = toi(A(4));
                both(s, "seekg", [v, w](std::iostream& o, str& r) { o.seekg(v, w % 3 == 0 ? std::ios_base::beg : w % 3 == 1 ? std::ios_base::cur : std::ios_base::end); long p = o.tellg(); sim::Host hs; r = num(p); });
            }
            else if (op == "clear") both(s, "clear", [](std::iostream& o, str&) { o.clear(); });
            look(op.c_str());
            sim::u64 hs = 7;
            for (auto& x : md) hs = sim::mix(hs, x ? sim::hash(*x) : 1);
            for (auto& x : st) if (x.a) hs = sim::mix(sim::mix(hs, sim::hash(*x.rb->d) + x.rb->r), x.m->rdstate());
            sim::state(hs);
            sim::note(hs);
        }
    };

    void run(const Plan& p)
    {
        Run r;
        for (auto& l : p.lines)
        {
            if (l[0] == "oom" && l.size() > 2) { r.oomNth = toi(l[1]); r.oomBurst = toi(l[2]); continue; }
            if (l[0] != "op" || l.size() < 3) continue;
            r.step(l);
            r.oomNth = 0;
        }
        sim::sut([&] { for (auto& x : r.st) x.a.reset(); for (auto& x : r.h) x = nil; });
    }

    void gen(Rng& r, Plan& p, const str& variant)
    {
        p.add({ "param", "variant", variant });
        static const char* rd[] = { "get", "getc", "peek", "unget", "putback", "read", "ignore", "line", "cline", "word", "int", "real", "iter", "read", "get", "peek", "unget", "read" };
        bool oom = r.chance(1, 3);
        int flavour = r.below(3);
        auto data = [&](int max) {
            int n = r.chance(1, 12) ? 0 : r.chance(1, 30) ? 200 : r.range(1, max);
            str s;
            for (int i = 0; i < n; i++)
            {
                int t = r.below(10);
                if (flavour == 0) s += (char)(t < 4 ? '0' + r.below(10) : t < 7 ? ' ' : t < 8 ? '\n' : t < 9 ? '.' : '-');
                else if (flavour == 1) s += t < 2 ? (char)255 : t < 3 ? (char)0 : t < 4 ? '\n' : (char)r.below(256);
                else s += t < 1 ? '\n' : t < 2 ? ' ' : t < 3 ? (char)(128 + r.below(128)) : (char)('a' + r.below(26));
            }
            return sim::enc(s);
        };
        for (int k = 0; k < NK; k++) if (r.chance(1, 2)) p.add({ "op", "str", "0", num(k), data(30) });
        p.add({ "op", "open", "0", num(r.below(NK)) });
        if (r.chance(2, 3)) p.add({ "op", "open", "1", num(r.below(NK)) });
        int n = r.range(8, 45);
        for (int j = 0; j < n; j++)
        {
            str s = num(r.chance(2, 3) ? 0 : r.below(NST)), k = num(r.below(NK));
            int t = r.below(100);
            if (t < 30)
            {
                if (oom && r.chance(1, 2)) p.add({ "oom", num(1 + r.below(8)), r.chance(1, 4) ? "-1" : num(1 + r.below(3)) });
                static const char* wr[] = { "write", "write", "put", "num", "text" };
                str w = wr[r.below(5)];
                p.add({ "op", w, s, num(w == "put" ? (r.chance(1, 4) ? 255 : r.below(256)) : r.range(-500, 100000)), data(25) });
            }
            else if (t < 72) { str w = rd[r.below(18)]; p.add({ "op", w, s, num(r.chance(1, 10) ? 0 : r.chance(1, 8) ? 200 : r.range(1, 30)), num(r.chance(1, 2) ? -1 : r.chance(1, 2) ? 10 : 255) }); }
            else if (t < 78) p.add({ "op", "seek", s, num(r.chance(1, 10) ? -1 : r.chance(1, 8) ? 300 : r.range(0, 40)) });
            else if (t < 84) p.add({ "op", "off", s, num(r.range(-30, 30)), num(r.below(3)) });
            else if (t < 90) p.add({ "op", "clear", s });
            else if (t < 92) p.add({ "op", "open", s, k });
            else if (t < 93) p.add({ "op", "close", s });
            else if (t < 95) p.add({ "op", "take", s, k });
            else if (t < 96) p.add({ "op", "cstr", s });
            else if (t < 97) p.add({ "op", "share", "0", k, num(r.below(NK)) });
            else if (t < 98) p.add({ "op", r.chance(1, 3) ? "nil" : "str", "0", k, data(20) });
            else p.add({ "op", "edit", "0", k, r.chance(1, 2) ? str("%") : data(6) });
        }
    }
    sim::Register reg({ "stream", gen, run, false, true });
}
