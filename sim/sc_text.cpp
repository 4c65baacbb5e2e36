// Text read line by line: from streams that arrive in pieces or fail, from string streams, and by the text
// file module from a simulated file (C09).
#include "files.h"
#include <fstream>
#include <memory>
using namespace libube;
using namespace files;

namespace
{
    struct Expect { std::vector<str> lines; };
    std::vector<str> split(const str& t)
    {
        std::vector<str> v;
        size_t at = 0;
        while (at < t.size())
        {
            size_t e = t.find('\n', at);
            if (e == str::npos) { v.push_back(t.substr(at)); break; }
            v.push_back(t.substr(at, e - at));
            at = e + 1;
        }
        return v;
    }
    str content(const Plan& p)
    {
        str t;
        for (auto& l : p.lines)
            if (l[0] == "text" && l.size() > 1) { str s = sim::dec(l[1]); long n = l.size() > 2 ? toi(l[2]) : 1; for (long i = 0; i < n && t.size() < 30000; i++) t += s; }
        return t;
    }
    void stream(const Plan& p, const str& T, const std::vector<str>& want)
    {
        str via = p.param("via"), pre = p.param("pre");
        std::vector<int> chunks = chunkList(p.param("chunks", "-"));
        long err = p.iparam("err", -1);
        if (err >= 0) err = T.size() * std::min(err, 1000l) / 1000;
        long oom = p.iparam("oom");
        std::unique_ptr<SrcBuf> sb;
        std::unique_ptr<std::istream> is;
        if (via == "vs") { sim::sut([&] { is.reset(new varstream(S(T))); }); err = -1; }
        else if (via == "fstream")
        {
            vos::put("/sim/t", T);
            vos::chunks(chunks, {});
            sim::sut([&] { is.reset(new std::ifstream("/sim/t")); });
            faults(p, "rfault");
            err = -1;
        }
        else
        {
            sb.reset(new SrcBuf(T, chunks, err));
            sim::sut([&] { is.reset(new std::istream(sb.get())); if (p.iparam("throwing")) is->exceptions(std::ios::badbit); });
        }
        // the target may hold something already
        var f, other;
        sim::sut([&] {
            if (pre == "int") f = 3;
            else if (pre == "text") f = "something longer than the first line will be, so that there is something to cut off from it";
            else if (pre == "empty") f = "";
            else if (pre == "array") { f[2] = "x"; other = f; }
            else if (pre == "float") { f = 1.5f; f.push(2.5f); other = f; }
            else if (pre == "map") { f["key"] = 1; other = f; }
        });
        str otherWas;
        sim::sut([&] { varstream vs; vs << other; var b = var(vs); str s = bytes(b); sim::Host h; otherWas = s; });
        std::vector<str> kept;
        std::vector<var> copies;
        size_t limit = want.size() + 3;
        for (size_t i = 0; ; i++)
        {
            if (i > limit) sim::fail("endless", "%zu lines read from a text of %zu", i, want.size());
            if (p.iparam("fresh")) sim::sut([&] { f = nil; });
            if (oom && (long)i == p.iparam("oomat")) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
            bool some = false, isS = true;
            str got;
            sim::Outcome o = sim::sut([&] { some = f.getline(*is).defined(); });
            bool nomem = oom && (long)i == p.iparam("oomat") && sim::alloc::failed();
            sim::alloc::heal();
            if (o.ok() && some) sim::sut([&] { str s = bytes(f, &isS); sim::Host h; got = s; copies.push_back(f.copy()); });
            bool broken = (sb && sb->failed) || vos::fired();
            sim::state(sim::mix(sim::hash(T), i * 16 + o.kind * 4 + some * 2 + broken));
            sim::note(sim::hash(got));
            sim::count("op.getline");
            if (!o.ok())
            {
                if (nomem || broken) { sim::count("op.refused"); break; }
                sim::fail("unexpected-exception", "line %zu raised %s", i, o.what.substr(0, 200).c_str());
            }
            if (!some)
            {
                if (!broken && i != want.size()) sim::fail("lines-lost", "the end was reported after %zu of %zu lines", i, want.size());
                break;
            }
            if (!isS) sim::fail("not-text", "line %zu is not a string", i);
            if (i >= want.size()) sim::fail("invented", "line %zu of %zu reads %s", i, want.size(), show(got).c_str());
            // when the source fails inside a line no part of it may pass for the line
            if (got != want[i]) sim::fail(broken ? "partial-line" : "altered", "line %zu was %s and reads %s", i, show(want[i]).c_str(), show(got).c_str());
            kept.push_back(got);
        }
        // what was taken earlier did not change with later lines
        for (size_t i = 0; i < copies.size(); i++)
        {
            str s;
            sim::sut([&] { str x = bytes(copies[i]); sim::Host h; s = x; });
            if (s != kept[i]) sim::fail("altered", "line %zu was %s, its copy is now %s", i, show(kept[i]).c_str(), show(s).c_str());
        }
        str now;
        sim::sut([&] { varstream vs; vs << other; var b = var(vs); str s = bytes(b); sim::Host h; now = s; });
        if (now != otherWas) sim::fail("other-handle", "a value held elsewhere changed from %s to %s", show(otherWas).c_str(), show(now).c_str());
        sim::sut([&] { is.reset(); copies.clear(); f = nil; other = nil; });
    }
    void file(const Plan& p, const str& T, const std::vector<str>& want)
    {
        if (!p.iparam("absent")) vos::put("/sim/t.txt", T);
        vos::chunks(chunkList(p.param("chunks", "-")), {});
        std::unique_ptr<filemodule> m;
        libube::file* t = 0;
        sim::sut([&] { m.reset(new filemodule("txt")); t = &m->create(); });
        faults(p);
        faults(p, "rfault");
        int n = 1 + p.iparam("again");
        for (int k = 0; k < n; k++)
        {
            long oom = k ? 0 : p.iparam("oom");
            if (k) vos::clearFaults();
            if (oom) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
            std::vector<str> got;
            bool shape = true;
            sim::Outcome o = sim::sut([&] {
                var v = t->read("/sim/t.txt");
                sim::alloc::heal();
                int sz = v.size();
                for (int i = 0; i < sz; i++) { bool is; str s = bytes(v.at(i), &is); sim::Host h; shape = shape && is; got.push_back(s); }
            });
            bool nomem = oom && sim::alloc::failed();
            sim::alloc::heal();
            bool bad = vos::fired() || p.iparam("absent");
            sim::count("op.read");
            sim::state(sim::mix(sim::hash(T), 1000 + o.kind * 2 + bad));
            if (o.ok())
            {
                if (bad) sim::fail("unreported", "the file could not be read completely and %zu lines were returned", got.size());
                if (!shape) sim::fail("not-text", "a line is not a string");
                if (got != want)
                {
                    size_t i = 0;
                    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
                    sim::fail("altered", "%zu lines of %zu; line %zu was %s, reads %s", got.size(), want.size(), i, i < want.size() ? show(want[i]).c_str() : "-", i < got.size() ? show(got[i]).c_str() : "-");
                }
            }
            else
            {
                sim::count("op.refused");
                if (!nomem && !bad) sim::fail("unexpected-exception", "reading raised %s", o.what.substr(0, 200).c_str());
            }
            files::files("after reading");
        }
        sim::sut([&] { m.reset(); });
    }
    void run(const Plan& p)
    {
        str T = content(p);
        std::vector<str> want = split(T);
        sim::trace("text %s", show(T).c_str());
        if (p.param("via") == "module") file(p, T, want); else stream(p, T, want);
        handles("at the end");
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        static const char* vias[] = { "src", "src", "vs", "fstream", "module", "module", "module" };
        static const char* pres[] = { "none", "int", "text", "empty", "array", "float", "map" };
        str via = vias[r.below(7)];
        p.add({ "param", "via", via });
        p.add({ "param", "pre", pres[r.below(7)] });
        p.add({ "param", "fresh", num(r.chance(1, 3)) });
        p.add({ "param", "chunks", genChunks(r) });
        int n = r.below(12);
        for (int i = 0; i < n; i++)
        {
            int k = r.below(12);
            str s;
            if (k < 3) s = "\n";
            else if (k < 7) { int m = r.below(r.chance(1, 3) ? 200 : 12); for (int j = 0; j < m; j++) s += (char)(r.chance(1, 8) ? r.below(256) : r.range(32, 126)); if (r.chance(3, 4)) s += '\n'; }
            else if (k < 8) { s = str(r.range(60, 66), 'a' + r.below(26)) + "\n"; }
            else if (k < 9) { s = str(r.range(120, 260), 'a' + r.below(26)); }
            else if (k < 10) { static const char* w[] = { "\r\n", "\xff\n", "\xff", "\0\n", " \n", "\t", "a\r", "\n\n\n" }; int q = r.below(8); s = q == 3 ? str("\0\n", 2) : str(w[q]); }
            else { s = "line " + num(i) + (r.chance(1, 2) ? "\n" : ""); }
            Line l = { "text", sim::enc(s) };
            if (r.chance(1, 12)) l.push_back(num(r.chance(1, 2) ? r.range(2, 50) : r.range(50, 3000)));
            p.add(l);
        }
        if (r.chance(1, 2)) { static const char* rd[] = { "eio", "eio", "eio+", "eintr", "short", "delay" }; p.add({ "rfault", "read", num(1 + r.below(6)), rd[r.below(6)], num(1 + r.below(50)) }); }
        if (r.chance(1, 3)) p.add({ "param", "err", num(r.below(1001)) });
        if (r.chance(1, 4)) p.add({ "param", "throwing", "1" });
        if (r.chance(1, 4)) { p.add({ "param", "oom", num(1 + r.below(20)) }); p.add({ "param", "oomat", num(r.below(6)) }); p.add({ "param", "oomburst", r.chance(1, 3) ? "-1" : num(1 + r.below(3)) }); }
        if (via == "module")
        {
            if (r.chance(1, 8)) { static const char* op[] = { "eacces", "enoent", "emfile" }; p.add({ "fault", "open", "1", op[r.below(3)] }); }
            if (r.chance(1, 15)) p.add({ "param", "absent", "1" });
            p.add({ "param", "again", num(r.below(3)) });
        }
    }
    sim::Register reg({ "text", gen, run, false, true });
}
