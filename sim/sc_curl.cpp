// Web transfers over a simulated network which fragments, delays, cuts, resets and refuses (C16).
#include "files.h"
#include <lube/curl.h>
#include <curl/curl.h>
#include <cstring>
#include <dlfcn.h>
#include <memory>
using namespace libube;
using namespace files;

// libcurl's own resources: handles and memory blocks are counted, and either may be refused
namespace
{
    long gHandles, gBlocks, gMallocs, gFailAt, gFailed, gInits, gFailInit;
    bool gCount;
    bool failNow() { if (!gCount) return false; gMallocs++; if (gFailAt && gMallocs == gFailAt) { gFailed++; sim::count("fault.curl.malloc"); return true; } return false; }
    void* cm(size_t n) { if (failNow()) return 0; void* p = malloc(n); if (p) gBlocks++; return p; }
    void cf(void* p) { if (p) gBlocks--; free(p); }
    void* cr(void* o, size_t n) { if (failNow()) return 0; void* p = realloc(o, n); if (p && !o) gBlocks++; return p; }
    char* cd(const char* s) { if (failNow()) return 0; char* p = strdup(s); if (p) gBlocks++; return p; }
    void* cc(size_t a, size_t b) { if (failNow()) return 0; void* p = calloc(a, b); if (p) gBlocks++; return p; }
    void warm() { curl_global_init_mem(CURL_GLOBAL_ALL, cm, cf, cr, cd, cc); }
    sim::Warm w(warm);
}
extern "C" CURL* curl_easy_init()
{
    static CURL* (*real)() = (CURL * (*)()) dlsym(RTLD_NEXT, "curl_easy_init");
    sim::Host h;
    gInits++;
    if (gCount && gFailInit && gInits == gFailInit) { gFailed++; sim::count("fault.curl.init"); return 0; }
    CURL* c = real();
    if (c && gCount) gHandles++;
    return c;
}
extern "C" void curl_easy_cleanup(CURL* c)
{
    static void (*real)(CURL*) = (void (*)(CURL*))dlsym(RTLD_NEXT, "curl_easy_cleanup");
    sim::Host h;
    if (c && gCount) gHandles--;
    real(c);
}

namespace
{
    struct Resp { str bytes; str body; size_t complete = 0, bodyEnd = 0; bool untilClose = false; bool sane = true; };
    // resp <id> <framing> <status> <bodyseed> <size> <extra>
    Resp build(const Line& l)
    {
        Resp o;
        str framing = l[2], status = l[3];
        Rng r(toi(l[4]));
        size_t n = toi(l[5]);
        int kind = r.below(4);
        bool nobody = status == "204" || status == "304";
        for (size_t i = 0; i < n; i++) o.body += kind == 0 ? (char)r.below(256) : kind == 1 ? "ab\r\n0"[r.below(5)] : kind == 2 ? (char)(i * 7) : (char)('a' + i % 26);
        if (nobody) o.body = "";
        str& b = o.bytes;
        if (r.chance(1, 8)) b += "HTTP/1.1 100 Continue\r\n\r\n";
        b += (framing == "close" && r.chance(1, 2) ? "HTTP/1.0 " : "HTTP/1.1 ") + status + (r.chance(1, 8) ? "" : " Some reason") + "\r\n";
        if (r.chance(1, 2)) b += "Server: sim\r\n";
        if (r.chance(1, 4)) b += "X-Long: " + str(r.below(3000), 'h') + "\r\n";
        if (r.chance(1, 3)) b += "Content-Type: application/octet-stream\r\n";
        if (r.chance(1, 6)) b += "Connection: close\r\n";
        if (framing == "length" && !nobody) b += (r.chance(1, 4) ? "content-length:" : "Content-Length: ") + num(o.body.size()) + "\r\n";
        if (framing == "chunked" && !nobody) b += "Transfer-Encoding: chunked\r\n";
        b += "\r\n";
        if (nobody) { o.complete = o.bodyEnd = b.size(); return o; }
        if (framing == "chunked")
        {
            for (size_t i = 0; i < o.body.size(); )
            {
                size_t k = std::min<size_t>(o.body.size() - i, 1 + (r.chance(1, 3) ? r.below(20000) : r.below(40)));
                char h[40];
                snprintf(h, sizeof h, r.chance(1, 2) ? "%zx" : "%04zX", k);
                b += h + str(r.chance(1, 8) ? ";ext=1" : "") + "\r\n" + o.body.substr(i, k) + "\r\n";
                i += k;
            }
            b += "0\r\n";
            o.bodyEnd = b.size();
            if (r.chance(1, 4)) b += "X-Trailer: t\r\n";
            b += "\r\n";
        }
        else b += o.body;
        o.complete = b.size();
        if (!o.bodyEnd) o.bodyEnd = o.complete;
        o.untilClose = framing == "close";
        return o;
    }
    void run(const Plan& p)
    {
        gHandles = gMallocs = gFailAt = gFailed = gInits = gFailInit = 0;
        long blocks = gBlocks;
        gCount = true;
        struct Obj { std::unique_ptr<curlmodule> m; curl* c = 0; };
        Obj obj[3];
        struct Kept { var v; str want; };
        std::vector<Kept> kept;
        int step = 0;
        for (auto& l : p.lines)
        {
            if (l[0] == "open" && l.size() > 1)
            {
                Obj& o = obj[toi(l[1]) % 3];
                if (o.c) continue;
                sim::Outcome q = sim::sut([&] { o.m.reset(new curlmodule()); o.c = &o.m->create(); });
                if (!q.ok()) sim::fail("unexpected-exception", "making the object raised %s", q.what.c_str());
                sim::count("op.open");
            }
            else if (l[0] == "drop" && l.size() > 1)
            {
                Obj& o = obj[toi(l[1]) % 3];
                sim::sut([&] { o.m.reset(); });
                o.c = 0;
                sim::count("op.drop");
            }
            else if (l[0] == "get" && l.size() > 8)
            {
                // get <obj> <framing> <status> <bodyseed> <size> <cut|-1> <end> <delivery seed>
                step++;
                Obj& o = obj[toi(l[1]) % 3];
                if (!o.c) continue;
                Resp r = build(l);
                long cut = toi(l[6]);
                str end = l[7], send = r.bytes;
                if (cut >= 0) send.resize(send.size() * std::min(cut, 1000l) / 1000);
                bool whole = send.size() >= r.complete;
                // how it is delivered
                Rng d(toi(l[8]));
                net::Response s;
                s.end = end;
                s.connectDelay = d.chance(1, 3) ? (long)d.below(2000) * 1000000 : 0;
                if (end == "refused" || end == "unreachable" || end == "timeout") s.connect = end;
                int big = d.chance(1, 4) ? 20 : d.chance(1, 2) ? 700 : 20000;
                if (send.size() > 20000) big = 20000;
                for (size_t i = 0; i < send.size(); )
                {
                    size_t k = 1 + d.below(big);
                    s.pieces.push_back({ send.substr(i, k), d.chance(1, 3) ? (long)d.below(d.chance(1, 10) ? 20000 : 200) * 1000000 : 0 });
                    i += k;
                }
                if (s.connect == "ok" && end != "close" && end != "reset" && end != "late-close") s.end = "open";
                // an open connection without a complete response would wait for ever
                if (s.connect == "ok" && s.end == "open" && (!whole || r.untilClose)) s.end = "close";
                net::server().script.assign(1, s);
                net::server().next = 0;
                size_t asked = net::server().requests.size();
                vos::clearFaults();
                faults(p, ("fault" + num(step)).c_str());
                long oom = p.iparam("oom" + num(step)), coom = p.iparam("coom" + num(step));
                long failed0 = gFailed;
                gFailAt = coom ? gMallocs + coom : 0;
                gFailInit = p.iparam("init" + num(step)) ? gInits + 1 : 0;
                str url = "http://10.0.0.1/x" + num(step) + (d.chance(1, 3) ? "?q=" + str(d.below(300), 'q') : "");
                if (p.iparam("badurl" + num(step)) == 1) url = "nosuch://x";
                int notString = p.iparam("badurl" + num(step)) - 1;
                var v;
                if (oom) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
                sim::Outcome q = sim::sut([&] { var u = S(url); if (notString == 1) u = 7; var a; if (notString == 2) { a = { 1, 2 }; v = o.c->transfer(a[0]); } else if (notString == 3) { a[1] = u; v = o.c->transfer(a[1]); } else v = o.c->transfer(u); });
                bool nomem = (oom && sim::alloc::failed()) || gFailed > failed0;
                sim::alloc::heal();
                gFailAt = gFailInit = 0;
                sim::trace("get %d: %ld blocks asked of libcurl's allocator", step, gMallocs);
                bool broken = vos::fired() > 0;
                vos::clearFaults();
                bool bad = notString == 1 || notString == 2 || p.iparam("badurl" + num(step)) == 1;
                str got;
                bool is = false;
                if (q.ok()) sim::sut([&] { got = bytes(v, &is); });
                sim::note(sim::mix(sim::hash(got), q.kind));
                sim::state(sim::mix(sim::hash(send), q.kind * 8 + broken * 4 + nomem));
                if (gHandles) sim::fail("handle-leak", "a transfer handle of libcurl remains after the transfer");
                files::files("after the transfer");
                if (!q.ok())
                {
                    sim::count("op.refused");
                    if (whole && !broken && !nomem && !bad && s.connect == "ok" && s.end != "reset") sim::fail("refused", "a complete transfer raised %s", q.what.substr(0, 200).c_str());
                    if (q.kind == sim::THREW && (q.what.empty() || q.what == "\"\"")) sim::fail("no-reason", "the error has no text");
                    continue;
                }
                sim::count("op.transfer");
                if (bad) sim::fail("accepted", "a URL that cannot be fetched gave a result");
                if (s.connect != "ok") sim::fail("accepted", "a connection that failed (%s) gave a result", end.c_str());
                if (!is) sim::fail("shape", "the result is not a string");
                // the body may be cut where only the end of the connection ends it
                size_t head = r.bytes.size() - r.body.size();
                str want = r.body;
                if (r.untilClose && !whole && send.size() >= head && s.end != "reset") { want = send.substr(head); whole = true; }
                if (r.untilClose && s.end == "reset" && got != want) sim::fail("partial", "a transfer that was reset gave %zu bytes", got.size());
                // the very last line end may be missing once the body is all there
                if (!whole && send.size() >= r.bodyEnd && got == want) whole = true;
                if (!whole) sim::fail("partial", "the connection closed after %zu of %zu bytes and gave a result of %zu bytes", send.size(), r.complete, got.size());
                if (got != want) sim::fail("altered", "%zu bytes instead of %zu: %s instead of %s", got.size(), want.size(), files::show(got).c_str(), files::show(want).c_str());
                if (net::server().requests.size() != asked + 1) sim::fail("request", "%zu requests were made", net::server().requests.size() - asked);
                str path = url.substr(15);
                if (gFailed == failed0 && net::server().requests.back().compare(0, path.size() + 5, "GET " + path + " ")) sim::fail("request", "the request was %s", files::show(net::server().requests.back()).c_str());
                kept.push_back({ v, want });
            }
        }
        for (auto& k : kept)
        {
            str got;
            sim::sut([&] { got = bytes(k.v); });
            if (got != k.want) sim::fail("earlier-result", "an earlier result changed to %s", files::show(got).c_str());
        }
        sim::sut([&] { for (auto& k : kept) k.v = nil; });
        for (auto& o : obj) sim::sut([&] { o.m.reset(); });
        if (gHandles) sim::fail("handle-leak", "%ld transfer handles of libcurl remain at the end", gHandles);
        if (gBlocks != blocks) sim::fail("handle-leak", "%ld blocks of libcurl remain at the end", gBlocks - blocks);
        gCount = false;
        handles("at the end");
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        p.add({ "open", "0" });
        int n = r.range(1, 5);
        static const char* framing[] = { "length", "length", "chunked", "chunked", "close" };
        static const char* status[] = { "200", "200", "200", "200", "404", "500", "204", "301", "206" };
        static const char* ends[] = { "close", "close", "close", "open", "open", "late-close", "reset" };
        for (int i = 1; i <= n; i++)
        {
            if (r.chance(1, 5)) p.add({ "open", num(r.below(3)) });
            if (r.chance(1, 10)) p.add({ "drop", num(r.below(3)) });
            long size = r.chance(1, 8) ? 0 : r.chance(1, 10) ? r.range(10000, 120000) : r.chance(1, 2) ? r.below(60) : r.below(3000);
            str end = r.chance(1, 12) ? (const char*[]){ "refused", "unreachable", "timeout" }[r.below(3)] : ends[r.below(7)];
            long cut = r.chance(1, 3) ? (r.chance(1, 3) ? 1000 - r.below(30) : r.below(1001)) : -1;
            p.add({ "get", num(r.chance(3, 4) ? 0 : r.below(3)), framing[r.below(5)], status[r.below(9)], num(r.below(1000000)), num(size), num(cut), end, num(r.below(1000000)) });
            if (r.chance(1, 3))
            {
                int k = r.below(8);
                str f = "fault" + num(i);
                if (k == 0) p.add({ f, "socket", "1", r.chance(1, 2) ? "emfile" : "enomem" });
                else if (k == 1) p.add({ f, "connect", "1", r.chance(1, 2) ? "eacces" : "enetunreach" });
                else if (k < 4) { static const char* q[] = { "eintr", "eagain", "short", "epipe" }; p.add({ f, "send", "1", q[r.below(4)], num(1 + r.below(30)) }); }
                else { static const char* q[] = { "eintr", "eagain", "short", "short", "econnreset" }; int m = r.range(1, 3); for (int j = 0; j < m; j++) p.add({ f, "recv", num(1 + r.below(r.chance(1, 2) ? 4 : 30)), q[r.below(5)], num(1 + r.below(30)) }); }
            }
            if (r.chance(1, 12)) p.add({ "param", "oom" + num(i), num(1 + r.below(20)) });
            else if (r.chance(1, 12)) p.add({ "param", "coom" + num(i), num(1 + r.below(r.chance(1, 3) ? 300 : 60)) });
            else if (r.chance(1, 40)) p.add({ "param", "init" + num(i), "1" });
            else if (r.chance(1, 40)) p.add({ "param", "badurl" + num(i), num(1 + r.below(4)) });
        }
    }
    sim::Register reg({ "curl", gen, run, true, true });
}
