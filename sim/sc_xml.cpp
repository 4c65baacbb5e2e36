// XML documents: loaded from files that arrive in pieces, cut, damaged or failing; written and loaded again (C11).
#include "xmlmodel.h"
#include <dlfcn.h>
#include <memory>
using namespace libube;
using namespace files;
using xmlm::T;

// The parser's own resources: every parser made is counted, and its memory may run out.
namespace
{
    long gParsers, gBlocks, gFailAt, gMallocs, gFailed;
    bool gCount;
    bool failNow() { gMallocs++; if (gFailAt && gMallocs == gFailAt) { gFailed++; sim::count("fault.expat.malloc"); return true; } return false; }
    void* xm(size_t n) { if (failNow()) return 0; void* p = malloc(n); if (p) gBlocks++; return p; }
    void* xr(void* o, size_t n) { if (failNow()) return 0; void* p = realloc(o, n); if (p && !o) gBlocks++; return p; }
    void xf(void* p) { if (p) gBlocks--; free(p); }
    XML_Memory_Handling_Suite suite = { xm, xr, xf };
}
extern "C" XML_Parser XML_ParserCreate(const XML_Char* enc)
{
    sim::Host h;
    if (!gCount) return XML_ParserCreate_MM(enc, 0, 0);
    XML_Parser p = XML_ParserCreate_MM(enc, &suite, 0);
    if (p) gParsers++;
    return p;
}
extern "C" void XML_ParserFree(XML_Parser p)
{
    static void (*real)(XML_Parser) = (void (*)(XML_Parser))dlsym(RTLD_NEXT, "XML_ParserFree");
    sim::Host h;
    if (gCount && p) gParsers--;
    real(p);
}

namespace
{
    void resources(const char* when)
    {
        if (gParsers || gBlocks) sim::fail("parser-leak", "%s: %ld parsers and %ld blocks of theirs remain", when, gParsers, gBlocks);
        files::files(when);
    }
    void run(const Plan& p)
    {
        gParsers = gBlocks = gMallocs = gFailAt = gFailed = 0;
        Rng r(p.seed ^ 5);
        T tree;
        str D;
        long deep = p.iparam("deep");
        for (auto& l : p.lines)
            if (l[0] == "tree" && l.size() > 1)
            {
                size_t k = 1;
                tree = xmlm::parse(l, k);
                int enc = p.iparam("enc");
                if (!xmlm::fits(tree, enc)) enc = 0;
                xmlm::Doc d(r, enc, p.iparam("loose"), p.iparam("crlf"));
                D = d.doc(tree);
                xmlm::norm(tree);
            }
            else if (l[0] == "raw" && l.size() > 1) D += sim::dec(l[1]);
        if (deep) { D = ""; for (long i = 0; i < deep; i++) D += "<e>"; D += "x"; if (p.iparam("closed")) for (long i = 0; i < deep; i++) D += "</e>"; }
        long cut = p.iparam("cut", -1);
        bool changed = false;
        if (cut >= 0 && !D.empty()) { D.resize(D.size() * std::min(cut, 999l) / 1000); changed = true; }
        for (auto& l : p.lines)
            if (l[0] == "damage" && l.size() > 3 && !D.empty())
            {
                size_t at = (size_t)toi(l[2]) * D.size() / 1000 % D.size();
                changed = true;
                if (l[1] == "flip") D[at] ^= 1 << (toi(l[3]) & 7);
                else if (l[1] == "del") D.erase(at, 1 + toi(l[3]) % 5);
                else if (l[1] == "set") D[at] = "<>&;/\"'=!?- \n"[toi(l[3]) % 13];
                else if (l[1] == "ins") D.insert(at, 1, "<>&;/\"'=!?- \n"[toi(l[3]) % 13]);
                else if (l[1] == "dup") D.insert(at, D.substr(at, 1 + toi(l[3]) % 9));
                else if (l[1] == "doctype") D.insert(0, "<!DOCTYPE a [<!ENTITY e 'x'>]>");
                else if (l[1] == "app") D += toi(l[3]) % 2 ? "<b/>" : "tail";
            }
        // What the document says
        T want;
        bool doctype = false;
        int depth = 0;
        bool good = xmlm::reference(D, want, &doctype, &depth);
        if (!changed && !deep && !p.iparam("israw"))
        {
            if (!good) sim::harness("the generated document is not well formed: %s", sim::enc(D.substr(0, 2000)).c_str());
            if (!xmlm::same(want, tree)) sim::harness("the generated document differs: %s", xmlm::diff(tree, want).c_str());
        }
        // half a character at the end of a UTF-16 document: the parser's answer depends on what it has seen by then
        bool half = D.size() % 2 && D.size() > 1 && ((unsigned char)D[0] >= 0xfe || !D[0] || !D[1]);
        sim::trace("document (%s) %s", good ? "well formed" : "not well formed", sim::enc(D.substr(0, 1500)).c_str());
        vos::put("/sim/d.xml", D);
        vos::put("/sim/other.xml", "<o k='v'>other<p/></o>");
        vos::chunks(chunkList(D.size() > 20000 ? "-" : p.param("chunks", "-")), {});
        std::unique_ptr<filemodule> m;
        libube::file* x = 0;
        sim::sut([&] { m.reset(new filemodule("xml")); x = &m->create(); });
        gCount = true;
        int n = 1 + p.iparam("again");
        var first, other;
        T otherT, firstT;
        bool haveFirst = false;
        if (p.iparam("other")) sim::sut([&] { other = x->read("/sim/other.xml"); xmlm::from(other, otherT); });
        for (int k = 0; k < n; k++)
        {
            if (!k) faults(p);
            long oom = k ? 0 : p.iparam("oom");
            if (k == 0) gFailAt = p.iparam("xoom") ? gMallocs + p.iparam("xoom") : 0; else gFailAt = 0;
            long xf = gFailed;
            T got;
            bool shape = false;
            var v;
            if (oom) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
            sim::Outcome o = sim::sut([&] { v = x->read("/sim/d.xml"); });
            bool nomem = (oom && sim::alloc::failed()) || gFailed > xf;
            sim::alloc::heal();
            gFailAt = 0;
            bool broken = vos::fired() > 0;
            vos::clearFaults();
            resources("after loading");
            sim::count("op.load");
            sim::state(sim::mix(sim::hash(D), k * 16 + o.kind * 4 + good * 2 + broken));
            if (!o.ok())
            {
                sim::count("op.refused");
                bool mayRefuse = nomem || broken || half || !good || doctype || depth > 500;
                if (!mayRefuse) sim::fail("refused", "a well-formed document is refused: %s", o.what.substr(0, 200).c_str());
                continue;
            }
            if (broken) sim::fail("unreported", "the file could not be read, and a tree was returned");
            if (!good) sim::fail("accepted", "a document that is not well formed was accepted");
            sim::Outcome q = sim::sut([&] { shape = xmlm::from(v, got); });
            if (!q.ok() || !shape) sim::fail("shape", "what was loaded is not a tree of elements %s", q.what.substr(0, 100).c_str());
            xmlm::norm(got);
            if (!xmlm::same(want, got)) sim::fail("altered", "document / loaded: %s", xmlm::diff(want, got).c_str());
            if (!haveFirst) { haveFirst = true; first = v; firstT = got; }
            if (depth > 500) continue;
            // written, it is the same document; and loads to the same tree
            sim::Outcome w = sim::sut([&] { x->write("/sim/out.xml", v); });
            if (!w.ok()) sim::fail("unexpected-exception", "writing the tree raised %s", w.what.substr(0, 200).c_str());
            str O;
            T wr, back;
            vos::get("/sim/out.xml", O);
            if (!xmlm::reference(O, wr)) sim::fail("written-malformed", "the document written is not well formed: %s", sim::enc(O.substr(0, 500)).c_str());
            if (!xmlm::same(got, wr)) sim::fail("written-differs", "tree / written: %s", xmlm::diff(got, wr).c_str());
            bool sh = false;
            sim::Outcome b = sim::sut([&] { var u = x->read("/sim/out.xml"); sh = xmlm::from(u, back); });
            if (!b.ok() || !sh) sim::fail("unreadable", "the document written is refused: %s", b.what.substr(0, 200).c_str());
            xmlm::norm(back);
            if (!xmlm::same(got, back)) sim::fail("roundtrip", "tree / loaded again: %s", xmlm::diff(got, back).c_str());
            T after;
            sim::sut([&] { xmlm::from(v, after); });
            xmlm::norm(after);
            if (!xmlm::same(got, after)) sim::fail("write-modified", "writing changed the tree: %s", xmlm::diff(got, after).c_str());
            resources("after writing");
            sim::count("op.roundtrip");
        }
        // earlier results are not touched by later loads
        if (haveFirst)
        {
            T t;
            sim::sut([&] { xmlm::from(first, t); });
            xmlm::norm(t);
            if (!xmlm::same(t, firstT)) sim::fail("earlier-result", "a tree loaded earlier changed: %s", xmlm::diff(firstT, t).c_str());
        }
        if (p.iparam("other"))
        {
            T t;
            sim::sut([&] { xmlm::from(other, t); });
            if (!xmlm::same(t, otherT)) sim::fail("earlier-result", "another tree loaded earlier changed: %s", xmlm::diff(otherT, t).c_str());
        }
        sim::sut([&] { first = nil; other = nil; m.reset(); });
        gCount = false;
        handles("at the end");
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        p.add({ "param", "chunks", genChunks(r) });
        p.add({ "param", "again", num(r.chance(1, 3)) });
        p.add({ "param", "other", num(r.chance(1, 4)) });
        if (r.chance(1, 60))
        {
            p.add({ "param", "deep", num(r.chance(1, 3) ? 30000 : r.chance(1, 2) ? r.range(1, 500) : r.range(500, 3000)) });
            p.add({ "param", "closed", num(r.below(2)) });
            return;
        }
        p.add({ "param", "enc", num(r.chance(1, 2) ? 0 : r.below(4)) });
        p.add({ "param", "loose", num(r.chance(2, 3)) });
        p.add({ "param", "crlf", num(r.chance(1, 5)) });
        Line l = { "tree" };
        xmlm::genTree(r, l, 0);
        p.add(l);
        int k = r.below(12);
        if (k < 3) p.add({ "param", "cut", num(r.below(1000)) });
        else if (k < 5) genReadFault(r, p, 8);
        else if (k < 8)
        {
            static const char* d[] = { "flip", "del", "set", "ins", "dup", "flip", "del", "set", "ins", "dup", "app", "doctype" };
            int m = r.range(1, 3);
            for (int i = 0; i < m; i++) p.add({ "damage", d[r.below(12)], num(r.below(1000)), num(r.below(40)) });
        }
        else if (k < 9) { p.add({ "param", "oom", num(1 + r.below(80)) }); p.add({ "param", "oomburst", r.chance(1, 3) ? "-1" : num(1 + r.below(3)) }); }
        else if (k < 10) p.add({ "param", "xoom", num(1 + r.below(30)) });
    }
    sim::Register reg({ "xml", gen, run, false, true });
}
