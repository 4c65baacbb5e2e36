// What the simulated threads do: self-contained operations of the library.  This file is compiled
// with the same instrumentation as the library, because its headers' inline code runs here.
#include "thr.h"
#include "vos.h"
#include "wavmodel.h"
#include <lube/lube.h>
#include <lube/module.h>
#include <lube/path.h>
#include <lube/graph.h>
#include <lube/dft.h>
#include <lube/regex.h>
#include <memory>
#include <sstream>
using namespace libube;
using sim::Rng;
using sim::str;
using sim::num;

namespace
{
    struct Ctx { Rng r; int tid, step; str* out; str dir; };
    // into the outcome, outside of what is checked
    void say(Ctx& c, const str& s) { sim::Host h; *c.out += s; *c.out += ';'; }
    void say(Ctx& c, var v)
    {
        // the text form, made by the library in its own scope
        varstream s;
        s.precision(12);
        s << v;
        if (!s.good()) throw std::bad_alloc();
        var t = s;
        int n = t.defined() ? t.size() : 0;
        const char* p = n ? t.ptr<char>() : "";
        sim::Host h;
        c.out->append(p, n);
        *c.out += ';';
    }
    var word(Ctx& c)
    {
        char b[24];
        int n = 1 + c.r.below(c.r.chance(1, 4) ? 20 : 6);
        for (int i = 0; i < n; i++) b[i] = "abcdefghijklmnopqrstuvwxyzABC  ,.-0123"[c.r.below(38)];
        return var(n, b);
    }
    var number(Ctx& c)
    {
        switch (c.r.below(7))
        {
        case 0: return (char)('a' + c.r.below(26));
        case 1: return (int)c.r.range(-1000, 1000);
        case 2: return (long)c.r.range(-100000, 100000);
        case 3: return (float)c.r.range(-64, 64) / 4;
        case 4: return (double)c.r.range(-6400, 6400) / 64;
        case 5: return cfloat(c.r.range(-8, 8), c.r.range(-8, 8));
        default: return cdouble(c.r.range(-80, 80), c.r.range(-8, 8));
        }
    }
    var numbers(Ctx& c, int n)
    {
        var v;
        int k = c.r.below(5);
        for (int i = 0; i < n; i++)
        {
            int x = c.r.range(-50, 50);
            if (k == 0) v.push(x); else if (k == 1) v.push((long)x); else if (k == 2) v.push(x / 4.0f); else if (k == 3) v.push(x / 8.0); else v.push(cdouble(x, i));
        }
        return v;
    }
    var tree(Ctx& c, int depth)
    {
        var v;
        int n = c.r.below(5);
        switch (depth > 2 ? 3 + c.r.below(2) : c.r.below(6))
        {
        case 0: for (int i = 0; i < n; i++) v[word(c)] = tree(c, depth + 1); v["k"] = 1; return v;
        case 1: v = var(0, nil); for (int i = 0; i < n; i++) v.push(tree(c, depth + 1)); return v;
        case 2: return numbers(c, 1 + n);
        case 3: return word(c);
        case 4: return (double)c.r.range(-100, 100);
        default: return nil;
        }
    }

    void opArray(Ctx& c)
    {
        var a = numbers(c, 3 + c.r.below(12));
        for (int i = 0; i < 8; i++)
            switch (c.r.below(7))
            {
            case 0: a.push(a[0]); break;
            case 1: if (a.size() > 2) say(c, a.pop()); break;
            case 2: if (a.size() > 2) say(c, a.shift()); break;
            case 3: a.insert(a.at(0), c.r.below(a.size())); break;
            case 4: if (a.size() > 2) say(c, a.remove(c.r.below(a.size()))); break;
            case 5: { var b = a.copy(); b.push(b[0]); say(c, b.size()); break; }
            default: a[c.r.below(a.size())] = a.at(0);
            }
        say(c, a);
    }
    void opMap(Ctx& c)
    {
        var m;
        for (int i = 0; i < 10; i++)
        {
            var k = c.r.chance(1, 2) ? word(c) : number(c);
            m[k] = c.r.chance(1, 3) ? word(c) : number(c);
            if (c.r.chance(1, 4)) m.remove(c.r.below(m.size()));
            if (m.size() == 0) m["a"] = 1;
        }
        say(c, m);
        say(c, m.key(0));
    }
    void opSort(Ctx& c)
    {
        var a = numbers(c, 2 + c.r.below(20));
        if (a.atype() == TYPE_CDOUBLE) a = libube::real(a);
        var s = libube::sort(a);
        say(c, s);
        say(c, num((long)s.index(s[0])));
        var w;
        for (int i = 0; i < 6; i++) w.push(word(c));
        say(c, libube::sort(w));
    }
    void opCast(Ctx& c)
    {
        var a = numbers(c, 3);
        var n = number(c);
        switch (c.r.below(8))
        {
        case 0: say(c, castChar(var(65))); break;
        case 1: say(c, castInt(a)); say(c, castInt(n)); break;
        case 2: say(c, castLong(a)); say(c, castLong(var("123"))); break;
        case 3: say(c, castFloat(a)); say(c, castFloat(var("1.5"))); break;
        case 4: say(c, castDouble(a)); say(c, castDouble(var("2.25"))); break;
        case 5: say(c, castCFloat(a)); say(c, castCFloat(n)); break;
        case 6: say(c, castCDouble(a)); say(c, castCDouble(n)); break;
        default: say(c, num((long)n.cast<double>())); say(c, num(a[0].cast<long>()));
        }
    }
    void opString(Ctx& c)
    {
        var s = word(c);
        say(c, libube::toupper(s));
        say(c, libube::tolower(s));
        say(c, libube::strip(s));
        var l = "one, two,, three four";
        var p = c.r.chance(1, 2) ? l.split(",") : l.split();
        say(c, p);
        say(c, p.join("/"));
        var t = s.copy();
        t.append(word(c).str());
        say(c, t);
        say(c, num(t.len()));
    }
    void opRegex(Ctx& c)
    {
        static const char* re[] = { "[a-z]+", "(\\w+) *(\\w*)", "a|b|c", "[0-9]+", "(x*)*y" };
        var s = word(c);
        var e = re[c.r.below(5)];
        switch (c.r.below(4))
        {
        case 0: say(c, s.search(e)); break;
        case 1: say(c, s.match(e)); break;
        case 2: say(c, s.replace(e, "<$1>")); break;
        default: { Search f(e); say(c, f(s)); say(c, f(word(c))); Replace g("a", "b"); say(c, g(s)); }
        }
    }
    void opMath(Ctx& c)
    {
        var a = libube::irange(12.0).view({ 3, 4 });
        var b = numbers(c, 4);
        b = castDouble(b.atype() == TYPE_CDOUBLE ? libube::real(b) : b);
        a += b;
        say(c, a * 0.5);
        say(c, libube::sin(a));
        say(c, libube::pow(b, 2));
        say(c, libube::transpose(a));
        say(c, libube::sum(a));
        say(c, libube::asum(b));
        say(c, libube::iamax(b));
        var z = castCDouble(b);
        say(c, libube::abs(z));
        say(c, libube::real(z * cdouble(1, 1)));
        var e = castFloat(b);
        say(c, e - 1.0f);
        say(c, libube::exp(e * 0.01f));
        say(c, libube::floor(e / 3.0f));
    }
    void opLinear(Ctx& c)
    {
        bool f = c.r.chance(1, 2);
        var m = f ? libube::irange(6.0f).view({ 2, 3 }) : libube::irange(6.0).view({ 2, 3 });
        var n = f ? libube::irange(12.0f).view({ 3, 4 }) : libube::irange(12.0).view({ 3, 4 });
        say(c, libube::dot(m, n));
        var v = f ? var(1.0f) : var(1.0);
        var x;
        for (int i = 0; i < 3; i++) x.push(f ? var((float)c.r.range(1, 9)) : var((double)c.r.range(1, 9)));
        say(c, libube::dot(x, x));
        say(c, libube::dot(m, x));
        var p = libube::poly(x);
        say(c, libube::floor(libube::real(p) + 0.5));
        var q;
        q = -6.0, 5.0, 1.0;
        var ro = libube::roots(q);
        say(c, ro.size());
    }
    void opFunctors(Ctx& c)
    {
        int n = 2 + c.r.below(6);
        var a, b;
        bool f = c.r.chance(1, 2);
        for (int i = 0; i < n; i++)
        {
            a.push(f ? var((float)c.r.range(1, 40)) : var((double)c.r.range(1, 40)));
            b.push(f ? var((float)c.r.range(1, 40)) : var((double)c.r.range(1, 40)));
        }
        var z = f ? castCFloat(a) : castCDouble(a);
        z = z * (f ? var(cfloat(0.5f, 1)) : var(cdouble(0.5, 1)));
        for (int i = 0; i < 4; i++)
            switch (c.r.below(12))
            {
            case 0: say(c, libube::floor(libube::cos(a) * 1000)); say(c, libube::floor(libube::tan(a) * 100)); break;
            case 1: say(c, libube::floor(libube::log(a) * 1000)); say(c, libube::floor(libube::sqrt(b) * 1000)); break;
            case 2: say(c, libube::imag(z)); say(c, libube::floor(libube::arg(z) * 1000)); break;
            case 3: say(c, libube::norm(z)); say(c, libube::floor(libube::abs(z) * 1000)); break;
            case 4: say(c, libube::add(a, b)); say(c, libube::sub(a, b)); break;
            case 5: say(c, libube::mul(a, b)); say(c, libube::floor(libube::div(a, b) * 1000)); break;
            case 6: { var d = a.copy(), e = b.copy(); libube::swap(d, e); say(c, d); say(c, e); break; }
            case 7: { var d = a.copy(); libube::set(d, b, d); say(c, d); break; }
            case 8: say(c, libube::concatenate(a, b)); break;
            case 9: { var d = z.copy(); d.real(); say(c, d); break; }
            case 10: { var d = libube::view({ 2, n }, f ? var(0.0f) : var(0.0)); d(1, 0) = a[0]; say(c, libube::sum(d)); say(c, libube::transpose(d)); break; }
            default: say(c, libube::floor(libube::atan(a) * 1000)); say(c, -a);
            }
    }
    void opDFT(Ctx& c)
    {
        int n = 4 + 2 * c.r.below(4);
        var t = libube::view({ 2, n }, 0.0f);
        for (int i = 0; i < n; i++) { t(0, i) = (float)c.r.range(-4, 4); t(1, i) = (float)i; }
        DFT d(n);
        var f = d(t);
        say(c, libube::floor(libube::real(f) * 16.0f + 0.5f));
        IDFT e(n);
        say(c, libube::floor(e(f) * 16.0f + 0.5f));
    }
    void opView(Ctx& c)
    {
        var a = libube::irange(24.0);
        var v = a.view({ 2, 3, 4 });
        v(1, 2, 3) = -1.0;
        var s = v.subview(2, c.r.below(2));
        s += 1.0;
        var w = a.view({ 5 }, c.r.below(10));
        w *= 2.0;
        w.advance(1);
        say(c, w);
        say(c, a);
        say(c, v.shape());
        try { v(2, 0, 0); } catch (error&) { say(c, str("refused")); }
    }
    void opError(Ctx& c)
    {
        var v = word(c);
        try { throw error(v); } catch (error& e) { str m; { sim::Host h; m = e.what(); } say(c, m); sim::Host h; str().swap(m); }
        try { var a; a.pop(); say(c, str("none")); } catch (std::exception& e) { str m; { sim::Host h; m = e.what(); } say(c, m); sim::Host h; str().swap(m); }
        try { var a = var(2, var(0)); a.at(7); say(c, str("none")); } catch (std::exception& e) { say(c, str("index")); }
    }
    void opStream(Ctx& c)
    {
        varstream s;
        s << word(c) << " " << 12 << " " << 2.5 << "\n";
        for (int i = 0; i < 20; i++) s.put((char)c.r.below(256));
        s << "tail line\nlast";
        var l;
        while (l.getline(s)) say(c, l.size());
        say(c, var(s).size());
        varstream q("17 4.5 word");
        int i; double d; std::string w;
        q >> i >> d >> w;
        say(c, num(i * 100 + (int)(d * 10)));
    }
    void opJSON(Ctx& c)
    {
        var t = tree(c, 0);
        varstream s;
        s << t;
        var u;
        try { s >> u; say(c, u); } catch (std::exception& e) { say(c, str("raised")); }
        static const char* text[] = { "{\"a\": [1, 2.5, \"x\\n\"], \"b\": {}}", "[1, 2, 3", "\"caf\\u00e9\"", "[true, false, null]", "{1: 2}", "  -12.5e3 " };
        varstream j(text[c.r.below(6)]);
        var w;
        try { j >> w; say(c, w); } catch (std::exception& e) { say(c, str("refused")); }
    }
    void opGetline(Ctx& c)
    {
        std::string text;
        for (int i = 0; i < 300; i++) text += "ab c\n"[c.r.below(5)];
        std::istringstream is(text);
        var l, all;
        int n = 0;
        while (l.getline(is)) { n++; if (n < 20) all.push(l.copy()); }
        say(c, n);
        say(c, all);
    }
    void opRange(Ctx& c)
    {
        say(c, libube::range(1, 5));
        say(c, libube::range(0.0, 1.0, 0.25));
        say(c, libube::irange(4.0f));
        var a;
        a = 1, 2, 3;
        say(c, a < var(3));
        say(c, a == a.copy());
        say(c, a.typeStr());
        say(c, a.atypeStr());
        say(c, libube::view({ 2, 2 }, 1.0f));
        say(c, libube::concatenate(var({ var({ 1, 2 }), var({ 3, 4 }) })));
    }
    // ------------------------------------------------------------ modules
    str path(Ctx& c, const char* n) { sim::Host h; return c.dir + "/" + n; }
    void shown(Ctx& c, const char* n)
    {
        sim::Host h;
        str d;
        bool is = vos::get(c.dir + "/" + n, d);
        *c.out += is ? n + num(d.size()) + ":" + num((long)(sim::hash(d) & 0xffffff)) + ";" : str("no file;");
    }
    void rw(Ctx& c, const char* type, const char* name, bool write)
    {
        filemodule m(type);
        file& f = m.create();
        str p;
        { sim::Host h; p = c.dir + "/" + name; }
        struct Free { str& s; ~Free() { sim::Host h; str().swap(s); } } fr{ p };
        var v = f.read(p.c_str());
        say(c, v);
        if (write)
        {
            str o;
            { sim::Host h; o = c.dir + "/out." + type; }
            struct Free fo{ o };
            f.write(o.c_str(), v);
            str n;
            { sim::Host h; n = str("out.") + type; }
            struct Free fn{ n };
            shown(c, n.c_str());
        }
    }
    void opXML(Ctx& c) { rw(c, "xml", c.r.chance(1, 4) ? "bad.xml" : "a.xml", true); }
    void opINI(Ctx& c) { rw(c, "ini", "a.ini", true); }
    void opTXT(Ctx& c) { rw(c, "txt", "a.txt", true); }
    void opGED(Ctx& c) { rw(c, "ged", c.r.chance(1, 4) ? "bad.ged" : "a.ged", false); }
    void opSND(Ctx& c)
    {
        filemodule m("snd");
        var at;
        at[nil];
        at["rate"] = 8000;
        file& f = m.create(at);
        str p, o;
        { sim::Host h; p = c.dir + "/a.wav"; o = c.dir + "/out.snd"; }
        struct Free { str& s; ~Free() { sim::Host h; str().swap(s); } } fp{ p }, fo{ o };
        var v = f.read(p.c_str());
        say(c, v);
        f.write(o.c_str(), v);
        shown(c, "out.snd");
    }
    void opPath(Ctx& c)
    {
        pathmodule m;
        str p;
        { sim::Host h; p = c.dir + "/tree"; }
        struct Free { str& s; ~Free() { sim::Host h; str().swap(s); } } fp{ p };
        libube::path& q = m.create(p.c_str());
        say(c, c.r.chance(1, 2) ? q.dir() : q.rdir());
        say(c, q.tree());
    }
    void opGraph(Ctx& c)
    {
        graphmodule m;
        graph& g = m.create();
        ind a = g.addVertex(), b = g.addVertex(), d = g.addVertex();
        g.addEdge(a, b); g.addEdge(b, d); if (c.r.chance(1, 2)) g.addEdge(d, a);
        str p;
        { sim::Host h; p = c.dir + "/g.dot"; }
        struct Free { str& s; ~Free() { sim::Host h; str().swap(s); } } fp{ p };
        g.writeGraphViz(p.c_str());
        shown(c, "g.dot");
    }
    void opPlot(Ctx& c)
    {
        filemodule m("gnuplot");
        file& f = m.create();
        var g;
        str p;
        { sim::Host h; p = "plot " + num(c.tid) + "-" + num(c.step) + " \"-\""; }
        struct Free { str& s; ~Free() { sim::Host h; str().swap(s); } } fp{ p };
        g.push(p.c_str());
        var v;
        for (int i = 0; i < 5; i++) v.push((double)c.r.range(-9, 9));
        g.push(v);
        str o;
        { sim::Host h; o = c.dir + "/p.eps"; }
        struct Free fo{ o };
        f.write(o.c_str(), g);
    }
    void opModule(Ctx& c)
    {
        static const char* t[] = { "ini", "txt", "ged", "xml", "nothing" };
        const char* k = t[c.r.below(5)];
        try
        {
            filemodule m(k), n("txt");
            file& f = m.create();
            file& g = n.create();
            say(c, str(&f == &g ? "same" : "made"));
            try { f.read("/sim/absent"); say(c, str("read")); } catch (std::exception& e) { say(c, str("absent")); }
        }
        catch (std::exception& e) { say(c, str("no module")); }
    }

    struct Op { const char* name; void (*f)(Ctx&); };
    const Op OPS[] = { { "array", opArray }, { "map", opMap }, { "sort", opSort }, { "cast", opCast }, { "string", opString }, { "regex", opRegex },
        { "math", opMath }, { "linear", opLinear }, { "dft", opDFT }, { "functors", opFunctors }, { "view", opView }, { "error", opError }, { "stream", opStream }, { "json", opJSON },
        { "getline", opGetline }, { "range", opRange }, { "xml", opXML }, { "ini", opINI }, { "txt", opTXT }, { "ged", opGED }, { "snd", opSND },
        { "path", opPath }, { "graph", opGraph }, { "plot", opPlot }, { "module", opModule } };
}

namespace work
{
    std::vector<str> names() { std::vector<str> v; for (auto& o : OPS) v.push_back(o.name); return v; }
    void files(int tid)
    {
        str d = "/sim/t" + num(tid);
        vos::put(d + "/a.xml", "<r a='" + num(tid) + "'><k>text " + num(tid) + " &amp; more</k><e/><k b='2'>x<i>y</i>z</k></r>");
        vos::put(d + "/bad.xml", "<r><k>cut " + num(tid));
        vos::put(d + "/a.ini", "[s" + num(tid) + "]\nkey = value " + num(tid) + "\nother = 2\n\n[t]\na = b\n");
        vos::put(d + "/a.txt", "line of " + num(tid) + "\n\nanother\nlast");
        vos::put(d + "/a.ged", "0 HEAD\n0 @I1@ INDI\n1 NAME Ann" + num(tid) + " /One/\n1 SEX F\n0 @I2@ INDI\n1 NAME Bob /Two/\n1 SEX M\n0 @F1@ FAM\n1 HUSB @I2@\n1 WIFE @I1@\n0 TRLR\n");
        vos::put(d + "/bad.ged", "0 HEAD\n0 @I1@ INDI\n1 NAME Cut");
        wavm::Signal s, q;
        s.ch = 2; s.rate = 8000 + tid;
        for (int k = 0; k < 2; k++) { std::vector<float> x; for (int i = 0; i < 9; i++) x.push_back((i + k + tid) / 64.0f); s.x.push_back(x); }
        Rng r(tid + 5);
        size_t e;
        vos::put(d + "/a.wav", wavm::wav(s, 16, q, r, false, &e));
        for (const char* n : { "tree/f1.txt", "tree/sub/f2", "tree/sub/deep/f3.a.b", "tree/.hidden" }) vos::put(d + "/" + n, "x");
        vos::put(d + "/tree/own" + num(tid), "x");
    }
    str op(const str& name, sim::u64 seed, int tid, int step)
    {
        str out;
        Ctx c{ Rng(seed), tid, step, &out, "/sim/t" + num(tid) };
        void (*f)(Ctx&) = 0;
        for (auto& o : OPS) if (name == o.name) f = o.f;
        if (!f) sim::harness("no operation %s", name.c_str());
        sim::Outcome o = sim::sut([&] { f(c); });
        if (!o.ok()) { out += o.kind == sim::NOMEM ? "!no memory" : "!" + o.what; }
        return out;
    }
}
