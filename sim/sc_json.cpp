// The text form of values: written, fragmented, respaced, cut, damaged, read back (C08).
#include "sim.h"
#include "vos.h"
#include "srcbuf.h"
#include <lube/lube.h>
#include <cmath>
#include <cstring>
#include <fstream>
#include <sstream>
#include <map>
#include <memory>
#include <iomanip>
using namespace libube;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::num;
using sim::str;
using sim::toi;

namespace
{
    // t: n(il) i(nteger) r(eal) s(tring) a(rray) m(ap)
    struct J
    {
        char t = 'n';
        char w = 0;                    // how the number or array is held: i l f d, v
        long i = 0;
        double d = 0, q = 0;           // q: imaginary part
        std::vector<int> sh;           // not empty: a view of that shape
        str s;
        std::vector<J> a;
        std::map<str, J> m;
    };
    J number(char w, const str& t)
    {
        J j;
        j.w = w;
        if (w == 'i') { j.t = 'i'; j.i = (int)atol(t.c_str()); }
        else if (w == 'l') { j.t = 'i'; j.i = atol(t.c_str()); }
        else if (w == 'c') { j.t = 'c'; j.i = (char)atol(t.c_str()); }
        else if (w == 'z' || w == 'Z') { j.t = 'z'; size_t k = t.find(':'); j.d = atof(t.c_str()); j.q = k == str::npos ? 0 : atof(t.c_str() + k + 1); }
        else { j.t = 'r'; j.d = w == 'f' ? (double)(float)atof(t.c_str()) : atof(t.c_str()); if (!std::isfinite(j.d)) j.d = 0; }
        return j;
    }
    J parse(const Line& l, size_t& k, int depth = 0)
    {
        J j;
        if (k >= l.size()) return j;
        str t = l[k++];
        if (t == "[")
        {
            j.t = 'a'; j.w = 'v';
            while (k < l.size() && l[k] != "]") j.a.push_back(parse(l, k, depth + 1));
            k++;
        }
        else if (t == "{")
        {
            j.t = 'm';
            while (k < l.size() && l[k] != "}") { str key = sim::dec(l[k].substr(1)); k++; j.m[key] = parse(l, k, depth + 1); }
            k++;
        }
        else if (t[0] == '<')
        {
            j.t = 'a'; j.w = t.size() > 1 && strchr("ilfdzZ", t[1]) ? t[1] : 'i';
            while (k < l.size() && l[k] != ">") j.a.push_back(number(j.w, l[k++]));
            k++;
        }
        else if (t[0] == '(')
        {
            // a view: (d2x3 ... )
            j.t = 'a'; j.w = t.size() > 1 && strchr("ilfdzZ", t[1]) ? t[1] : 'i';
            int n = 1;
            for (size_t q = 2; q < t.size() && j.sh.size() < 6; q++) { int d = std::max(1, std::min(9, atoi(t.c_str() + q))); j.sh.push_back(d); n *= d; q = t.find('x', q); if (q == str::npos) break; }
            while (k < l.size() && l[k] != ")") j.a.push_back(number(j.w, l[k++]));
            if (j.sh.empty()) { j.sh.push_back(1); }
            J z = number(j.w, "0");
            j.a.resize(n, z);
            k++;
        }
        else if (t[0] == 's') { j.t = 's'; j.s = sim::dec(t.substr(1)); }
        else if (strchr("ilfdczZ", t[0])) return number(t[0], t.substr(1));
        return j;
    }
    var scalar(const J& j)
    {
        switch (j.w)
        {
        case 'i': return var((int)j.i);
        case 'l': return var((long)j.i);
        case 'f': return var((float)j.d);
        case 'c': return var((char)j.i);
        case 'z': return var(cfloat(j.d, j.q));
        case 'Z': return var(cdouble(j.d, j.q));
        default: return var(j.d);
        }
    }
    var build(const J& j)
    {
        var r;
        switch (j.t)
        {
        case 'i': case 'r': case 'c': case 'z': return scalar(j);
        case 's': return var((int)j.s.size(), j.s.data());
        case 'a':
            if (!j.sh.empty())
            {
                // of the middle of an array
                J z; z.w = j.w; r = scalar(z); r.array();
                int off = (int)j.a.size() % 3;
                r.resize(off + (int)j.a.size() + 1);
                for (size_t i = 0; i < j.a.size(); i++) r[off + (int)i] = scalar(j.a[i]);
                var s;
                for (int d : j.sh) s.push(d);
                return r.view(s, off);
            }
            if (j.w != 'v') { J z; z.w = j.w; r = scalar(z); r.array(); }
            r.resize(0);
            if (j.w == 'v') for (size_t i = 0; i < j.a.size(); i++) { r.resize((int)i + 1); r[(int)i] = build(j.a[i]); }
            else for (auto& e : j.a) r.push(scalar(e));
            return r;
        case 'm':
            r[nil];
            for (auto& e : j.m) { var k((int)e.first.size(), e.first.data()); r[k] = build(e.second); }
            return r;
        }
        return r;
    }
    str show(const J& j, int depth = 3)
    {
        str r;
        switch (j.t)
        {
        case 'n': return "nil";
        case 'i': return num(j.i);
        case 'r': return sim::dnum(j.d);
        case 'c': return "'" + sim::enc(str(1, (char)j.i)) + "'";
        case 'z': return "(" + sim::dnum(j.d) + "," + sim::dnum(j.q) + ")";
        case 's': return "\"" + sim::enc(j.s.substr(0, 60)) + "\"";
        case 'a': r = "["; if (depth > 0) for (auto& e : j.a) { r += show(e, depth - 1) + " "; if (r.size() > 300) break; } return r + "]";
        case 'm': r = "{"; if (depth > 0) for (auto& e : j.m) { r += sim::enc(e.first) + ":" + show(e.second, depth - 1) + " "; if (r.size() > 300) break; } return r + "}";
        }
        return "?";
    }
    // what a value holds
    J from(var v, int depth = 0)
    {
        J j;
        v.dereference();
        if (!v.defined()) return j;
        switch ((int)v.type())
        {
        case TYPE_CHAR: { sim::Host h; j.t = 'c'; j.i = v.get<char>(); return j; }
        case TYPE_INT: j.t = 'i'; j.i = v.get<int>(); return j;
        case TYPE_LONG: j.t = 'i'; j.i = v.get<long>(); return j;
        case TYPE_FLOAT: j.t = 'r'; j.d = v.get<float>(); return j;
        case TYPE_DOUBLE: j.t = 'r'; j.d = v.get<double>(); return j;
        }
        int n = v.size(), at = (int)v.atype();
        if (at == TYPE_CHAR) { const char* p = v.ptr<char>(); sim::Host h; j.t = 's'; j.s.assign(p, n); return j; }
        if (at == TYPE_PAIR)
        {
            j.t = 'm';
            for (int i = 0; i < n; i++)
            {
                J k = from(v.key(i), depth + 1), e = from(v.at(i), depth + 1);
                sim::Host h;
                if (k.t != 's') { j.t = '?'; return j; }
                j.m[k.s] = e;
            }
            sim::Host h;
            if ((int)j.m.size() != n) j.t = '?';
            return j;
        }
        if (at == TYPE_CDOUBLE || at == TYPE_CFLOAT) { j.t = '?'; return j; }
        j.t = 'a';
        for (int i = 0; i < n; i++) { J e = from(v.at(i), depth + 1); sim::Host h; j.a.push_back(e); }
        return j;
    }
    // float: may be the nearest of a float only
    bool sameNum(const J& want, const J& got, int prec)
    {
        if (want.t == 'i' && got.t == 'i') return want.i == got.i;
        if (want.t == 'i') return got.d == (double)want.i && std::fabs(got.d) <= 9007199254740992.0;
        double g = got.t == 'i' ? (double)got.i : got.d;
        if (want.w == 'f' && prec < 17) return (float)g == (float)want.d;
        return g == want.d;
    }
    bool same(const J& want, const J& got, int prec)
    {
        bool nw = want.t == 'i' || want.t == 'r', ng = got.t == 'i' || got.t == 'r';
        if (nw || ng) return nw && ng && sameNum(want, got, prec);
        if (want.t != got.t) return false;
        if (want.t == 's') return want.s == got.s;
        if (want.t == 'a')
        {
            if (want.a.size() != got.a.size()) return false;
            for (size_t i = 0; i < want.a.size(); i++) if (!same(want.a[i], got.a[i], prec)) return false;
        }
        if (want.t == 'm')
        {
            if (want.m.size() != got.m.size()) return false;
            for (auto& e : want.m) { auto g = got.m.find(e.first); if (g == got.m.end() || !same(e.second, g->second, prec)) return false; }
        }
        return want.t != '?';
    }
    // written by somebody else
    str text(const J& j, Rng& r, int prec)
    {
        char b[60];
        str s;
        switch (j.t)
        {
        case 'n': return "null";
        case 'i':
            if (j.i == 1 && r.chance(1, 3)) return "true";
            if (j.i == 0 && r.chance(1, 3)) return "false";
            return num(j.i);
        case 'r': snprintf(b, sizeof b, r.chance(1, 4) ? "%.*e" : "%.*g", r.chance(1, 2) || prec > 16 ? 17 : prec + 3, j.d); return b;
        case 's':
            for (char c : j.s) { if (c == '"' || c == '\\') s += '\\'; s += c; }
            return "\"" + s + "\"";
        case 'a':
            for (auto& e : j.a) s += (s.empty() ? "" : ",") + text(e, r, prec);
            return "[" + s + "]";
        case 'm':
            for (auto& e : j.m)
            {
                J k; k.t = 's'; k.s = e.first;
                s += (s.empty() ? "" : ",") + text(k, r, prec) + ":" + text(e.second, r, prec);
            }
            return "{" + s + "}";
        }
        return "null";
    }
    // what the library is to show, without white space
    str shown(const J& j, int prec)
    {
        char b[80];
        str s;
        switch (j.t)
        {
        case 'i': return num(j.i);
        case 'r': snprintf(b, sizeof b, "%.*g", prec, j.d); return b;
        case 'z': if (j.w == 'z') snprintf(b, sizeof b, "(%.*g,%.*g)", prec, (double)(float)j.d, prec, (double)(float)j.q); else snprintf(b, sizeof b, "(%.*g,%.*g)", prec, j.d, prec, j.q); return b;
        case 'c': return str("'") + (char)j.i + "'";
        case 's':
            for (char c : j.s) { if (c == '"' || c == '\\') s += '\\'; s += c; }
            return "\"" + s + "\"";
        case 'a':
            if (j.w == 'Z' && j.sh.empty() && j.a.size() == 1) return shown(j.a[0], prec);
            if (j.sh.size() > 2)
            {
                // one matrix after the other, all but the last of each with a comma after it
                for (size_t k = 0; k < j.sh.size(); k++) s += (k ? "x" : "") + num(j.sh[k]);
                s += "tensor:";
                size_t m = j.sh[j.sh.size() - 2] * j.sh.back();
                for (size_t i = 0; i < j.a.size(); i++) s += (i % m ? "," : "[") + shown(j.a[i], prec) + (i % m == m - 1 ? "]" : "");
                return s;
            }
            for (auto& e : j.a) s += (s.empty() ? "" : ",") + shown(e, prec);
            return "[" + s + "]";
        case 'm':
            for (auto& e : j.m)
            {
                J k; k.t = 's'; k.s = e.first;
                s += (s.empty() ? "" : ",") + shown(k, prec) + ":" + shown(e.second, prec);
            }
            return "{" + s + "}";
        }
        return "null";
    }
    // without the white space outside strings
    str squeeze(const str& t)
    {
        str o;
        for (size_t i = 0; i < t.size(); i++)
        {
            if (isspace((unsigned char)t[i])) continue;
            o += t[i];
            if (t[i] != '"') continue;
            for (i++; i < t.size(); i++) { o += t[i]; if (t[i] == '\\' && i + 1 < t.size()) o += t[++i]; else if (t[i] == '"') break; }
        }
        return o;
    }
    // other white space around the tokens
    str respace(const str& t, Rng& r, int how)
    {
        str o;
        auto ws = [&] { int n = how == 1 ? 0 : r.below(4); for (int i = 0; i < n; i++) o += " \t\n\r"[r.below(4)]; };
        for (size_t i = 0; i < t.size(); )
        {
            if (isspace((unsigned char)t[i])) { i++; continue; }
            size_t j = i;
            if (t[i] == '"') { for (j++; j < t.size() && t[j] != '"'; j++) if (t[j] == '\\') j++; j++; }
            else if (strchr("[]{},:", t[i])) j++;
            else while (j < t.size() && !isspace((unsigned char)t[j]) && !strchr("[]{},:\"", t[j])) j++;
            j = std::min(j, t.size());
            if (i) ws();
            o.append(t, i, j - i);
            i = j;
        }
        return o;
    }
    const char* const BAD[] = { "]", ",", "{\"a\"}", "{\"a\":}", "{:1}", "{\"a\" \"b\":1}", "{\"a\",\"b\":1}", "{\"a\":1:2}", "{\"a\":1,\"b\"}", "{\"a\":1,:2}", "{\"a\",}", "{a:1}", "{1:2}", "{[1]:2}", "[}", "{]",
        "[1 2}", "{\"a\":1]", "[\"x\\q\"]", "[tru]", "[nul,1]", "[1x]", "[--1]", "[1e]", "[.]", "{\"a\":\"b}", "[,1", "}", ":", "abc", "[1:2]", "[\"a\":1]", "{\"a\":{\"b\"}}" };
    const size_t NBAD = sizeof BAD / sizeof *BAD;
    bool raw(const J& j) { return j.t == 'n' || j.t == 'i' || j.t == 'r'; }

    void run(const Plan& p)
    {
        std::vector<J> vals;
        for (auto& l : p.lines) if (l[0] == "val") { size_t k = 1; vals.push_back(parse(l, k)); }
        int prec = p.iparam("prec", 17);
        for (auto& l : p.lines)
            if (l[0] == "shown")
            {
                size_t k = 1;
                J j = parse(l, k);
                str t, want = shown(j, prec);
                sim::Outcome o = sim::sut([&] {
                    var v = build(j);
                    std::ostringstream os;
                    os << std::setprecision(prec) << v;
                    std::string x = os.str();
                    sim::Host h;
                    t = x;
                });
                sim::count("op.shown");
                if (!o.ok()) sim::fail("unexpected-exception", "writing %s raised %s", want.substr(0, 300).c_str(), o.what.c_str());
                if (squeeze(t) != want) sim::fail("shown", "%s is shown as %s", sim::enc(want.substr(0, 500)).c_str(), sim::enc(squeeze(t).substr(0, 500)).c_str());
                sim::note(sim::hash(t));
                sim::state(sim::hash(t));
                if (j.t != 'a' || j.a.empty()) continue;
                // a reference to one element
                int e = (int)j.a.size() / 2;
                want = shown(j.a[e], prec);
                o = sim::sut([&] {
                    var v = build(j);
                    std::ostringstream os;
                    os << std::setprecision(prec) << v[e];
                    std::string x = os.str();
                    sim::Host h;
                    t = x;
                });
                if (!o.ok()) sim::fail("unexpected-exception", "writing element %d of %s raised %s", e, shown(j, prec).substr(0, 300).c_str(), o.what.c_str());
                if (squeeze(t) != want) sim::fail("shown", "element %d, %s, is shown as %s", e, sim::enc(want.substr(0, 500)).c_str(), sim::enc(squeeze(t).substr(0, 500)).c_str());
            }
        bool own = p.param("writer") == "own";
        str via = p.param("via", "ss");
        std::vector<int> chunks = chunkList(p.param("chunks", "-"));
        int space = p.iparam("space");
        Rng r(p.seed ^ 77);
        str T;
        std::vector<size_t> end, beg;
        for (size_t i = 0; i < vals.size(); i++)
        {
            str t;
            if (own) t = text(vals[i], r, prec);
            else
            {
                str u, w;
                J after;
                sim::Outcome o = sim::sut([&] {
                    var v = build(vals[i]);
                    std::ostringstream os;
                    os << std::setprecision(prec) << v;
                    { std::string x = os.str(); sim::Host h; t = x.c_str() ? str(x) : ""; }
                    varstream vs;
                    vs << std::setprecision(prec) << build(vals[i]);
                    var b = var(vs);
                    const char* q = b.ptr<char>();
                    int n = b.size();
                    { sim::Host h; u.assign(q, n); }
                    J a = from(v);
                    sim::Host h;
                    after = a;
                });
                sim::count("op.written");
                if (!o.ok()) sim::fail("unexpected-exception", "writing %s raised %s", show(vals[i]).c_str(), o.what.c_str());
                if (t != u) sim::fail("text-differs", "the text of one value is once %s and once %s", sim::enc(t.substr(0, 300)).c_str(), sim::enc(u.substr(0, 300)).c_str());
                if (!same(vals[i], after, 17)) sim::fail("write-modified", "writing changed %s to %s", show(vals[i]).c_str(), show(after).c_str());
                if (p.iparam("outoom"))
                {
                    // the write fails somewhere: nothing but a beginning of the text may have come out
                    sim::alloc::failAt(p.iparam("outoom"), p.iparam("outburst", 1));
                    bool st = false;
                    sim::Outcome q = sim::sut([&] {
                        var v = build(vals[i]);
                        varstream vs;
                        vs << std::setprecision(prec) << v;
                        st = !vs;
                        sim::alloc::heal();
                        var b = var(vs);
                        const char* c = b.ptr<char>();
                        int n = b.size();
                        sim::Host h;
                        w.assign(c, n);
                    });
                    long failed = sim::alloc::failed();
                    sim::alloc::heal();
                    if (q.kind == sim::OK)
                    {
                        if (!st && w != t) sim::fail("oom-text", "with a failed allocation (%ld) the text is %s without any error", failed, sim::enc(w.substr(0, 300)).c_str());
                    }
                    else if (!failed) sim::fail("unexpected-exception", "writing raised %s", q.what.c_str());
                }
            }
            sim::trace("value %zu: %s", i, sim::enc(t.substr(0, 500)).c_str());
            if (space) t = respace(t, r, space);
            if (!T.empty() || r.chance(1, 2))
            {
                int n = r.below(3);
                bool need = i && raw(vals[i - 1]) ;
                if (need && !n) n = 1;
                for (int k = 0; k < n; k++) T += " \n\t\r"[r.below(4)];
            }
            beg.push_back(T.size());
            T += t;
            end.push_back(T.size());
        }
        str deep = p.param("deep");
        if (!deep.empty())
        {
            long n = toi(deep);
            bool obj = p.iparam("deepobj");
            str t;
            for (long i = 0; i < n; i++) t += obj ? "{\"a\":" : "[";
            if (p.iparam("closed")) { t += "1"; for (long i = 0; i < n; i++) t += obj ? "}" : "]"; }
            bool ok = false;
            sim::Outcome o = sim::sut([&] {
                std::istringstream is(t);
                var v;
                is >> v;
                ok = true;
            });
            if (n <= 500 && p.iparam("closed") && !ok) sim::fail("refused", "%ld levels are refused: %s", n, o.what.c_str());
            if (!p.iparam("closed") && ok) sim::fail("partial", "%ld levels without an end gave a value", n);
            sim::count("op.deep");
            return;
        }
        // bad <what> <levels> <obj?> <spacing seed>: not a value whatever is around it, so nothing may come of it
        for (auto& l : p.lines)
            if (l[0] == "bad" && l.size() > 4)
            {
                Rng q(toi(l[4]));
                str t = BAD[(size_t)toi(l[1]) % NBAD];
                for (long i = toi(l[1]) % NBAD < 2 ? 0 : toi(l[2]) % 6; i > 0; i--) t = (q.chance(1, 2) ? "[" + str(q.chance(1, 2) ? "1," : "") + t + (q.chance(1, 2) ? ",\"z\"]" : "]") : "{\"k\":" + t + (q.chance(1, 2) ? ",\"z\":null}" : "}"));
                if (toi(l[3])) t = respace(t, q, 2);
                str is;
                bool kept = false;
                sim::Outcome o = sim::sut([&] {
                    std::istringstream in(t);
                    var v = "old";
                    try { in >> v; }
                    catch (...) { kept = v == "old"; throw; }
                });
                sim::count("op.bad");
                if (o.ok()) sim::fail("partial", "%s, which is not a value, was read as one", sim::enc(t).c_str());
                if (!kept) sim::fail("target-modified", "reading %s raised %s but the target changed", sim::enc(t).c_str(), o.what.substr(0, 200).c_str());
            }
        long cut = p.iparam("cut", -1), err = p.iparam("err", -1);
        if (cut >= 0) { cut = T.size() * std::min(cut, 1000l) / 1000; T.resize(cut); }
        if (err >= 0) err = T.size() * std::min(err, 1000l) / 1000;
        bool damaged = false;
        for (auto& l : p.lines)
            if (l[0] == "damage" && l.size() > 3 && !T.empty())
            {
                size_t at = (size_t)toi(l[2]) * T.size() / 1000 % T.size();
                damaged = true;
                if (l[1] == "flip") T[at] ^= 1 << (toi(l[3]) & 7);
                else if (l[1] == "del") T.erase(at, 1 + toi(l[3]) % 5);
                else if (l[1] == "set") T[at] = "[]{}:,\"\\ 0-e."[toi(l[3]) % 13];
                else if (l[1] == "ins") T.insert(at, 1, "[]{}:,\"\\ 0-e."[toi(l[3]) % 13]);
                else if (l[1] == "dup") T.insert(at, T.substr(at, 1 + toi(l[3]) % 9));
            }
        sim::trace("text %s", sim::enc(T.substr(0, 900)).c_str());
        // ---- the source
        std::unique_ptr<SrcBuf> sb;
        std::unique_ptr<std::istream> is;
        if (via == "vs") { sim::sut([&] { is.reset(new varstream(var((int)T.size(), T.data()))); }); err = -1; }
        else if (via == "file")
        {
            vos::put("/sim/f.json", T);
            vos::chunks(chunks, {});
            for (auto& l : p.lines) if (l[0] == "fault" && l.size() > 3) vos::fault(l[1], toi(l[2]), l[3], l.size() > 4 ? toi(l[4]) : 0);
            sim::sut([&] { is.reset(new std::ifstream("/sim/f.json")); });
            err = -1;
        }
        else
        {
            sb.reset(new SrcBuf(T, chunks, err));
            sim::sut([&] { is.reset(new std::istream(sb.get())); if (p.iparam("throwing")) is->exceptions(std::ios::badbit); });
        }
        auto pos = [&]() -> long { long x = -1; sim::sut([&] { x = is->rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in); }); return x; };
        size_t n = damaged ? 25 : vals.size() + 1;
        long oom = p.iparam("oom"), oomAt = p.iparam("oomat");
        for (size_t i = 0; i < n; i++)
        {
            J got, keep;
            bool touched = false;
            var target, other;
            sim::sut([&] { target = "old"; other = target; });
            if (oom && (long)i == oomAt) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
            sim::Outcome o = sim::sut([&] { *is >> target; });
            bool nomem = oom && (long)i == oomAt && sim::alloc::failed();
            sim::alloc::heal();
            sim::sut([&] { J a = from(target), b = from(other); sim::Host h; got = a; keep = b; });
            touched = !(got.t == 's' && got.s == "old");
            if (!(keep.t == 's' && keep.s == "old")) sim::fail("other-handle", "another handle of the target's old value now shows %s", show(keep).c_str());
            bool hardIo = vos::fired() > 0;
            sim::note(sim::hash(show(got, 8)));
            sim::state(sim::mix(sim::hash(T), i * 4 + o.kind));
            if (!o.ok())
            {
                sim::count("op.refused");
                if (touched) sim::fail("target-modified", "reading raised %s but the target is now %s", o.what.substr(0, 200).c_str(), show(got).c_str());
                if (o.kind == sim::NOMEM && !nomem) sim::fail("unexpected-exception", "reading raised bad_alloc");
                if (nomem || damaged || hardIo) break;
                long lim = cut >= 0 ? cut : err >= 0 ? err : (long)T.size();
                if (i < vals.size() && ((long)end[i] < lim || ((long)end[i] == lim && (!raw(vals[i]) || err < 0))))
                    sim::fail("refused", "value %zu (%s) is complete but was refused: %s", i, show(vals[i]).c_str(), o.what.substr(0, 200).c_str());
                break;
            }
            sim::count("op.read");
            if (damaged)
            {
                // whatever came out survives its own text form
                J again;
                sim::Outcome q = sim::sut([&] {
                    std::stringstream ss;
                    ss << std::setprecision(17) << target;
                    var v;
                    ss >> v;
                    J a = from(v);
                    sim::Host h;
                    again = a;
                });
                if (!q.ok()) sim::fail("unreadable", "the text of %s, read from damaged text, is refused: %s", show(got).c_str(), q.what.substr(0, 200).c_str());
                if (!same(got, again, 17)) sim::fail("altered", "%s, read from damaged text, becomes %s", show(got).c_str(), show(again).c_str());
                continue;
            }
            if (i >= vals.size()) sim::fail("invented", "a value %s was read after the last one", show(got).c_str());
            long lim = cut >= 0 ? cut : err >= 0 ? err : (long)T.size();
            bool whole = (long)end[i] <= lim;
            if (!whole)
            {
                if (err >= 0 || !raw(vals[i])) sim::fail("partial", "value %zu (%s) ends at %zu, the text at %ld, and reading gave %s", i, show(vals[i]).c_str(), end[i], lim, show(got).c_str());
                break;
            }
            if (!same(vals[i], got, prec)) sim::fail("altered", "value %zu was %s, read %s (text %s)", i, show(vals[i], 6).c_str(), show(got, 6).c_str(), sim::enc(T.substr(beg[i], std::min<size_t>(400, end[i] - beg[i]))).c_str());
            long at = pos();
            if (at != (long)end[i]) sim::fail("consumed", "value %zu ends at %zu, the reader is at %ld (state %d)", i, end[i], at, (int)is->rdstate());
        }
        sim::sut([&] { is.reset(); });
        str open;
        if (vos::openHandles(&open)) sim::fail("handle-leak", "%s", open.c_str());
    }

    // any: whatever can be shown, not just what can be read back
    void genValue(Rng& r, Line& l, int depth, int prec, bool any = false)
    {
        auto st = [&] {
            static const char* w[] = { "", "a", "name", "x y", "he said \"no\"", "back\\slash", "\\", "\"", "new\nline", "tab\t", "null", "[1,2]", "{", "\xc3\xa9\xff", "true", "}],", "\r\n", "\\\\\"" };
            str s;
            if (r.chance(1, 2)) s = w[r.below(18)];
            else { int n = r.below(r.chance(1, 20) ? 400 : 12); for (int i = 0; i < n; i++) s += (char)(r.chance(1, 6) ? r.below(256) : r.range(32, 126)); }
            return "s" + sim::enc(s);
        };
        auto val = [&](char w) {
            if (w == 'i') return num(r.chance(1, 3) ? r.range(-2, 2) : r.chance(1, 8) ? (r.chance(1, 2) ? 2147483647l : -2147483648l) : r.range(-100000, 100000));
            if (w == 'l') return num(r.chance(1, 3) ? r.range(-2, 2) : r.chance(1, 6) ? (long)r.next() : r.chance(1, 8) ? (r.chance(1, 2) ? (long)(1ul << 63) : 9007199254740993l) : (long)r.range(-100000, 100000));
            if (w == 'c') return num("aZ09#'[{-~"[r.below(10)]);
            if (w == 'z' || w == 'Z') return sim::dnum(r.range(-99, 99) + r.range(0, 3) * 0.25) + ":" + sim::dnum(r.range(-9, 9) * 0.5);
            if (prec < 9) return sim::dnum(r.range(-99, 99) + r.range(0, 3) * 0.25);
            double d;
            if (r.chance(1, 3)) d = r.range(-50, 50);
            else if (r.chance(1, 3)) d = r.range(-1000, 1000) / 7.0;
            else { unsigned long u = r.next(); memcpy(&d, &u, 8); if (!std::isfinite(d)) d = 0; if (std::fabs(d) < 1e-300) d = 1e-300; }
            if (w == 'f') { float f = (float)d; if (!std::isfinite(f) || std::fabs(f) < 1e-37f) f = (float)r.range(-1000, 1000) / 9; d = f; }
            if (w == 'd' && prec < 17) d = (double)(float)r.range(-9999, 9999) / 8;
            return sim::dnum(d);
        };
        int k = r.below(depth > 4 ? 60 : 100);
        static const char ws[] = "ilfdczZ";
        int nw = any ? 7 : 4;
        if (depth < 5 && r.chance(1, any ? 3 : 12))
        {
            char w = ws[r.below(nw)];
            if (w == 'c') w = 'd';
            int dims = any ? r.range(1, 4) : r.range(1, 2), n = 1;
            str s;
            for (int i = 0; i < dims; i++) { int d = r.chance(1, 4) ? 1 : r.range(1, 4); s += (i ? "x" : "") + num(d); n *= d; }
            l.push_back(str("(") + w + s);
            for (int i = 0; i < n; i++) l.push_back(val(w));
            l.push_back(")");
            return;
        }
        if (k < 8) l.push_back("n");
        else if (k < 30) { char w = ws[r.below(nw)]; l.push_back(str(1, w) + val(w)); }
        else if (k < 48) l.push_back(st());
        else if (k < 60)
        {
            char w = ws[r.below(nw)];
            if (w == 'c') w = 'Z';
            l.push_back(str("<") + w);
            int n = r.chance(1, 8) ? 0 : r.chance(1, 10) ? r.range(10, 60) : r.range(1, 5);
            for (int i = 0; i < n; i++) l.push_back(val(w));
            l.push_back(">");
        }
        else if (k < 82)
        {
            l.push_back("[");
            int n = r.chance(1, 6) ? 0 : r.range(1, 5);
            bool nums = !any && r.chance(1, 4);
            for (int i = 0; i < n; i++)
                if (nums) { char w = ws[r.below(nw)]; l.push_back(str(1, w) + val(w)); }
                else genValue(r, l, depth + 1, prec, any);
            l.push_back("]");
        }
        else
        {
            l.push_back("{");
            int n = r.chance(1, 6) ? 0 : r.range(1, 5);
            for (int i = 0; i < n; i++) { l.push_back(st()); genValue(r, l, depth + 1, prec, any); }
            l.push_back("}");
        }
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        int prec = r.chance(2, 3) ? 17 : r.chance(1, 2) ? 6 : 9;
        p.add({ "param", "variant", variant });
        if (r.chance(1, 60))
        {
            p.add({ "param", "deep", num(r.chance(1, 3) ? 200000 : r.chance(1, 2) ? r.range(1, 500) : r.range(500, 5000)) });
            p.add({ "param", "deepobj", num(r.below(2)) });
            p.add({ "param", "closed", num(r.below(2)) });
            return;
        }
        p.add({ "param", "prec", num(prec) });
        p.add({ "param", "writer", r.chance(1, 3) ? "own" : "lib" });
        static const char* vias[] = { "ss", "ss", "vs", "file" };
        str via = vias[r.below(4)];
        p.add({ "param", "via", via });
        p.add({ "param", "chunks", genChunks(r) });
        p.add({ "param", "space", num(r.chance(1, 2) ? 0 : r.range(1, 2)) });
        if (r.chance(1, 3)) { Line l = { "shown" }; genValue(r, l, 0, prec, true); p.add(l); }
        int n = r.range(1, 4);
        for (int i = 0; i < n; i++) { Line l = { "val" }; genValue(r, l, 0, prec); p.add(l); }
        if (r.chance(1, 8)) { p.add({ "param", "outoom", num(1 + r.below(20)) }); p.add({ "param", "outburst", r.chance(1, 3) ? "-1" : "1" }); }
        if (r.chance(1, 4)) p.add({ "bad", num(r.below(NBAD)), num(r.chance(1, 2) ? 0 : r.below(6)), num(r.below(2)), num(r.below(1000000)) });
        int k = r.below(10);
        if (k < 2) p.add({ "param", "cut", num(r.below(1001)) });
        else if (k < 4)
        {
            if (via == "file") p.add({ "fault", "read", num(1 + r.below(8)), r.chance(1, 4) ? "eintr" : "eio" });
            else { p.add({ "param", "err", num(r.below(1001)) }); if (r.chance(1, 4)) p.add({ "param", "throwing", "1" }); }
        }
        else if (k < 7) { static const char* d[] = { "flip", "del", "set", "ins", "dup" }; int m = r.range(1, 4); for (int i = 0; i < m; i++) p.add({ "damage", d[r.below(5)], num(r.below(1000)), num(r.below(40)) }); }
        else if (k < 8) { p.add({ "param", "oom", num(1 + r.below(60)) }); p.add({ "param", "oomat", num(r.below(n)) }); p.add({ "param", "oomburst", r.chance(1, 3) ? "-1" : num(1 + r.below(3)) }); }
    }
    sim::Register reg({ "json", gen, run, false, true });
}
