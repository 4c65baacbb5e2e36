// What the scenarios around the file modules share.
#ifndef FILES_H
#define FILES_H
#include "sim.h"
#include "vos.h"
#include "srcbuf.h"
#include <lube/lube.h>
#include <lube/module.h>
namespace files
{
    using sim::str;
    using sim::Plan;
    using sim::Line;
    using sim::Rng;
    using sim::num;
    using sim::toi;
    // lines "fault <class> <nth> <kind> [arg]", placed now
    inline int faults(const Plan& p, const char* head = "fault")
    {
        int n = 0;
        for (auto& l : p.lines)
            if (l[0] == head && l.size() > 3) { vos::fault(l[1], std::max(1l, toi(l[2])), l[3], l.size() > 4 ? toi(l[4]) : 0); n++; }
        return n;
    }
    // the bytes of a string value; fails on anything else
    inline str bytes(const libube::var& w, bool* isString = 0)
    {
        libube::var v = w;
        v.dereference();
        bool is = v.defined() && v.atype() == libube::TYPE_CHAR && v.heap();
        if (isString) *isString = is;
        if (!is) { sim::Host h; return ""; }
        int n = v.size();
        const char* p = n ? v.ptr<char>() : "";
        sim::Host h;
        return str(p, n);
    }
    inline libube::var S(const str& s) { return libube::var((int)s.size(), s.data()); }
    inline str show(const str& s) { return sim::enc(s.size() > 200 ? s.substr(0, 200) + "..." + num(s.size()) : s); }
    // nothing may stay open, nothing may have been used after it was closed
    inline void handles(const char* when)
    {
        str w;
        if (vos::openHandles(&w)) sim::fail("handle-leak", "%s: %s", when, w.c_str());
        if (vos::misuse(&w)) sim::fail("handle-misuse", "%s: %s", when, w.c_str());
    }
    // while a module is loaded: only what is not a library
    inline void files(const char* when)
    {
        str w, o;
        vos::openHandles(&w);
        for (size_t i = 0; i < w.size(); )
        {
            size_t e = std::min(w.find("; ", i), w.size());
            str x = w.substr(i, e - i);
            if (x.compare(0, 7, "library")) o += x + "; ";
            i = e + 2;
        }
        if (!o.empty()) sim::fail("handle-leak", "%s: %s", when, o.c_str());
        if (vos::misuse(&w)) sim::fail("handle-misuse", "%s: %s", when, w.c_str());
    }
    inline void genReadFault(Rng& r, Plan& p, int reads = 6)
    {
        static const char* open[] = { "eacces", "enoent", "emfile", "eintr" };
        static const char* rd[] = { "eio", "eio", "eio+", "eintr", "short", "delay" };
        if (r.chance(1, 5)) p.add({ "fault", "open", "1", open[r.below(3)] });
        else { const char* k = rd[r.below(6)]; p.add({ "fault", "read", num(1 + r.below(reads)), k, num(1 + r.below(40)) }); }
    }
    inline void genWriteFault(Rng& r, Plan& p, int writes = 4)
    {
        static const char* open[] = { "eacces", "emfile", "enospc", "enoent" };
        static const char* wr[] = { "eio", "enospc", "enospc+", "edquot", "eintr", "short", "delay", "efbig" };
        int k = r.below(10);
        if (k < 2) p.add({ "fault", "open", "1", open[r.below(4)] });
        else if (k < 4) p.add({ "fault", "close", "1", r.chance(1, 2) ? "eio" : "enospc" });
        else if (k < 6) p.add({ "param", "space", num(r.chance(1, 2) ? r.below(60) : r.below(3000)) });
        else { const char* q = wr[r.below(8)]; p.add({ "fault", "write", num(1 + r.below(writes)), q, num(1 + r.below(40)) }); }
    }
}
#endif
