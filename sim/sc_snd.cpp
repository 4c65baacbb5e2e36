// Sound files: written by an independent writer or by the library, loaded in pieces, cut, failing (C14).
#include "wavmodel.h"
#include <memory>
using namespace libube;
using namespace files;
using namespace wavm;

namespace
{
    Signal from(var v, var attr)
    {
        Signal s;
        int dim = v.dim();
        s.rate = attr.at("rate").cast<int>();
        int ch = dim > 1 ? v.shape(0) : 1, n = dim > 1 ? v.shape(1) : v.size();
        { sim::Host h; s.ch = ch; s.x.assign(ch, std::vector<float>(n)); }
        for (int c = 0; c < ch; c++)
            for (int f = 0; f < n; f++)
                s.x[c][f] = dim > 1 ? v(c, f).get<float>() : v.at(f).get<float>();
        return s;
    }
    void run(const Plan& p)
    {
        Rng r(p.seed ^ 21);
        Signal s = signal(p), want = s;
        bool own = p.param("writer") == "own";
        int form = p.iparam("form");
        std::unique_ptr<filemodule> m;
        libube::file* f = 0;
        var attr, v, keep;
        sim::Outcome o0 = sim::sut([&] {
            attr[nil];
            attr["rate"] = s.rate;
            m.reset(new filemodule("snd"));
            f = &dynamic_cast<libube::file&>(m->create(attr));
            if (!own) v = build(s, form, keep);
        });
        if (!o0.ok()) sim::fail("unexpected-exception", "setting up raised %s", o0.what.c_str());
        str D;
        size_t dataEnd = 0;
        double tol = 1e-6;
        if (own)
        {
            int fmt = p.iparam("fmt", 16);
            D = wav(s, fmt, want, r, p.iparam("extra"), &dataEnd);
            if (!s.frames()) dataEnd = D.size();
        }
        else
        {
            // with faults first, then on a good disk
            str before, after;
            if (s.frames() * s.ch < 5000) vos::chunks({}, chunkList(p.param("wchunks", "-")));
            auto dump = [&] { str d; sim::sut([&] { const char* q = (const char*)keep.ptr<float>(); int n = keep.size(); sim::Host h; d.assign(q, n * 4); }); return d; };
            before = dump();
            if (faults(p, "wfault") || p.iparam("space", -1) >= 0)
            {
                vos::diskSpace(p.iparam("space", -1));
                sim::Outcome o = sim::sut([&] { f->write("/sim/s.wav", v); });
                bool broken = vos::fired() > 0;
                vos::clearFaults();
                vos::diskSpace(-1);
                if (o.ok() && broken) sim::fail("unreported", "the file could not be written and no error was raised");
                if (!o.ok() && !broken) sim::fail("unexpected-exception", "saving raised %s", o.what.substr(0, 200).c_str());
                files::files("after saving");
                sim::count("op.save.faulty");
            }
            long oom = p.iparam("soom");
            if (oom)
            {
                sim::alloc::failAt(oom, 1);
                sim::Outcome o = sim::sut([&] { f->write("/sim/s.wav", v); });
                bool failed = sim::alloc::failed();
                sim::alloc::heal();
                if (!o.ok() && !failed) sim::fail("unexpected-exception", "saving raised %s", o.what.substr(0, 200).c_str());
                files::files("after saving");
            }
            sim::Outcome o = sim::sut([&] { f->write("/sim/s.wav", v); });
            if (!o.ok()) sim::fail("unexpected-exception", "saving raised %s", o.what.substr(0, 200).c_str());
            sim::count("op.save");
            files::files("after saving");
            vos::get("/sim/s.wav", D);
            Signal w;
            str why;
            if (!parseWav(D, w, why)) sim::fail("written", "the file saved is not a sound file: %s", why.c_str());
            tol = 1.6 / 32768;
            why = differs(s, w, tol);
            if (!why.empty()) sim::fail("written", "the file saved: %s", why.c_str());
            after = dump();
            if (before != after) sim::fail("write-modified", "saving changed the signal");
            want = w;
            tol = 1e-6;
            dataEnd = D.size();
        }
        long cut = p.iparam("cut", -1);
        if (cut >= 0) D.resize(D.size() * std::min(cut, 1000l) / 1000);
        bool damaged = false;
        for (auto& l : p.lines)
            if (l[0] == "damage" && l.size() > 3 && !D.empty())
            {
                size_t lim = l[1] == "head" ? std::min<size_t>(D.size(), 60) : D.size();
                size_t at = (size_t)toi(l[2]) * lim / 1000 % lim;
                damaged = true;
                D[at] ^= 1 << (toi(l[3]) & 7);
            }
        if (p.iparam("junk")) { D = p.iparam("junk") == 1 ? str() : str(p.iparam("junk"), 'x'); damaged = true; }
        vos::put("/sim/l.wav", D);
        if (D.size() < 20000) vos::chunks(chunkList(p.param("chunks", "-")), {});
        else vos::chunks({}, {});
        var attr2;
        libube::file* g = 0;
        sim::sut([&] { attr2[nil]; g = &dynamic_cast<libube::file&>(m->create(attr2)); });
        // the instance may have done something else before
        int prior = p.iparam("prior");
        if (prior == 1) sim::sut([&] { attr2["rate"] = 12345; });
        if (prior == 2)
        {
            Signal t, q;
            size_t e;
            t.rate = 4000; t.ch = 3; t.x.assign(3, std::vector<float>(4, 0.25f));
            vos::put("/sim/first.wav", wav(t, 16, q, r, false, &e));
            Signal got;
            sim::Outcome o = sim::sut([&] { var u = g->read("/sim/first.wav"); got = from(u, attr2); });
            if (!o.ok()) sim::fail("refused", "a complete file is refused: %s", o.what.substr(0, 200).c_str());
            str why = differs(q, got, 1e-6);
            if (!why.empty()) sim::fail("altered", "the file read before: %s", why.c_str());
        }
        int n = 1 + p.iparam("again");
        for (int k = 0; k < n; k++)
        {
            if (!k) faults(p);
            long oom = k ? 0 : p.iparam("oom");
            var u;
            if (oom) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
            sim::Outcome o = sim::sut([&] { u = g->read("/sim/l.wav"); });
            bool nomem = oom && sim::alloc::failed();
            sim::alloc::heal();
            bool broken = vos::fired() > 0;
            vos::clearFaults();
            files::files("after loading");
            sim::count("op.load");
            sim::state(sim::mix(sim::hash(D), k * 16 + o.kind * 2 + broken));
            sim::note(sim::mix(sim::hash(D), o.kind));
            if (!o.ok())
            {
                sim::count("op.refused");
                if (!nomem && !broken && !damaged && D.size() >= dataEnd) sim::fail("refused", "a complete file is refused: %s", o.what.substr(0, 200).c_str());
                continue;
            }
            if (damaged) { if (p.iparam("junk")) sim::fail("accepted", "something that is not a sound file was accepted"); continue; }
            Signal got;
            sim::Outcome q = sim::sut([&] { got = from(u, attr2); });
            if (!q.ok()) sim::fail("shape", "what was loaded is not a signal: %s", q.what.substr(0, 100).c_str());
            str why = differs(want, got, tol);
            if (!why.empty()) sim::fail(D.size() < dataEnd ? "partial" : broken ? "unreported" : "altered", "file of %zu bytes (samples end at %zu): %s", D.size(), dataEnd, why.c_str());
            if (D.size() < dataEnd) sim::fail("partial", "a file cut at %zu of %zu was accepted", D.size(), dataEnd);
            if (p.iparam("resave") && !nomem)
            {
                // what was loaded, saved by the instance that loaded it
                o = sim::sut([&] { g->write("/sim/again.wav", u); });
                if (!o.ok()) sim::fail("unexpected-exception", "saving what was loaded raised %s", o.what.substr(0, 200).c_str());
                str E;
                vos::get("/sim/again.wav", E);
                Signal w;
                if (!parseWav(E, w, why)) sim::fail("written", "the file saved again is not a sound file: %s", why.c_str());
                why = differs(got, w, 1.6 / 32768);
                if (!why.empty()) sim::fail("written", "the file saved again: %s", why.c_str());
                sim::count("op.resave");
            }
        }
        sim::sut([&] { attr = nil; attr2 = nil; v = nil; keep = nil; m.reset(); });
        handles("at the end");
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        static const char* rates[] = { "8000", "16000", "44100", "48000", "1", "192000", "22050", "11025" };
        static const int fmts[] = { 8, 16, 16, 24, 32, 33, 64 };
        p.add({ "param", "writer", r.chance(1, 2) ? "own" : "lib" });
        int ch = r.chance(1, 2) ? 1 : r.range(1, 6);
        p.add({ "param", "ch", num(ch) });
        p.add({ "param", "frames", num(r.chance(1, 20) ? ch * r.range(1, 2) : r.chance(1, 20) ? 0 : r.chance(1, 10) ? r.range(500, 5000) : r.range(1, 60)) });
        p.add({ "param", "rate", rates[r.below(8)] });
        p.add({ "param", "kind", num(r.below(4)) });
        p.add({ "param", "sigseed", num(r.below(100000)) });
        p.add({ "param", "form", num(r.below(4)) });
        p.add({ "param", "fmt", num(fmts[r.below(7)]) });
        p.add({ "param", "extra", num(r.below(2)) });
        p.add({ "param", "chunks", genChunks(r) });
        p.add({ "param", "wchunks", genChunks(r) });
        p.add({ "param", "again", num(r.below(2)) });
        p.add({ "param", "prior", num(r.below(3)) });
        p.add({ "param", "resave", num(r.below(2)) });
        if (r.chance(1, 4))
        {
            int k = r.below(4);
            static const char* op[] = { "eacces", "emfile", "enospc" };
            static const char* wr[] = { "eio", "enospc", "enospc+", "eintr", "short" };
            if (k == 0) p.add({ "wfault", "open", "1", op[r.below(3)] });
            else if (k == 1) p.add({ "wfault", "close", "1", "eio" });
            else if (k == 2) p.add({ "param", "space", num(r.below(500)) });
            else p.add({ "wfault", "write", num(1 + r.below(4)), wr[r.below(5)], num(1 + r.below(60)) });
        }
        if (r.chance(1, 10)) p.add({ "param", "soom", num(1 + r.below(20)) });
        int k = r.below(12);
        if (k < 3) p.add({ "param", "cut", num(r.chance(1, 3) ? 1000 - r.below(20) : r.below(1001)) });
        else if (k < 6)
        {
            static const char* c[] = { "read", "read", "read", "seek", "fstat", "open" };
            static const char* rd[] = { "eio", "eio", "eintr", "short" }; // reads that fail for ever keep the header parser of libsndfile itself busy
            int q = r.below(6);
            p.add({ "fault", c[q], num(1 + r.below(q == 5 ? 1 : r.chance(1, 3) ? 12 : r.chance(1, 2) ? 24 : 120)), q < 3 ? rd[r.below(4)] : q == 5 ? "eacces" : "eio", num(1 + r.below(60)) });
        }
        else if (k < 8) { int m = r.range(1, 3); for (int i = 0; i < m; i++) p.add({ "damage", r.chance(1, 2) ? "head" : "any", num(r.below(1000)), num(r.below(8)) }); }
        else if (k < 9) { p.add({ "param", "oom", num(1 + r.below(20)) }); p.add({ "param", "oomburst", r.chance(1, 3) ? "-1" : "1" }); }
        else if (k < 10 && r.chance(1, 5)) p.add({ "param", "junk", num(r.range(1, 100)) });
    }
    sim::Register reg({ "snd", gen, run, false, true });
}
