// Sound files as this simulator writes and reads them, independently of the library.
#ifndef WAVMODEL_H
#define WAVMODEL_H
#include "files.h"
#include <cmath>
#include <cstring>
namespace wavm
{
    using namespace files;
    struct Signal { int ch = 1, rate = 8000; std::vector<std::vector<float>> x; size_t frames() const { return x.empty() ? 0 : x[0].size(); } };
    inline void le(str& o, unsigned long v, int n) { for (int i = 0; i < n; i++) o += (char)(v >> (8 * i)); }
    // fmt: 8 16 24 32 (integers), 33 (float), 64 (double); q becomes what the file holds
    inline str wav(const Signal& s, int fmt, Signal& q, Rng& r, bool extra, size_t* dataEnd)
    {
        int w = fmt == 33 ? 4 : fmt / 8;
        q = s;
        str d;
        for (size_t f = 0; f < s.frames(); f++)
            for (int c = 0; c < s.ch; c++)
            {
                float v = s.x[c][f];
                if (fmt == 33) { unsigned u; memcpy(&u, &v, 4); le(d, u, 4); continue; }
                if (fmt == 64) { double e = v; unsigned long u; memcpy(&u, &e, 8); le(d, u, 8); continue; }
                double m = std::ldexp(1.0, fmt - 1);
                long n = std::lrint(v * m);
                n = std::max((long)-m, std::min((long)m - 1, n));
                q.x[c][f] = (float)(n / m);
                if (fmt == 8) n += 128;
                le(d, (unsigned long)n, w);
            }
        str chunks, f;
        le(f, fmt == 33 || fmt == 64 ? 3 : 1, 2);
        le(f, s.ch, 2);
        le(f, s.rate, 4);
        le(f, (unsigned long)s.rate * s.ch * w, 4);
        le(f, s.ch * w, 2);
        le(f, w * 8, 2);
        auto chunk = [&](const char* id, const str& b) { chunks += id; le(chunks, b.size(), 4); chunks += b; if (b.size() & 1) chunks += '\0'; };
        chunk("fmt ", f);
        if (extra && r.chance(1, 2)) { str n; le(n, s.frames(), 4); chunk("fact", n); }
        if (extra && r.chance(1, 2)) chunk("LIST", str("INFOISFT\x06\0\0\0prog1\0", 18));
        chunk("data", d);
        *dataEnd = 12 + chunks.size() - (d.size() & 1);
        if (extra && r.chance(1, 2)) chunk("LIST", str("INFOIART\x06\0\0\0some1\0", 18));
        str o = "RIFF";
        le(o, chunks.size() + 4, 4);
        return o + "WAVE" + chunks;
    }
    inline bool parseWav(const str& o, Signal& s, str& why)
    {
        auto u = [&](size_t at, int n) { unsigned long v = 0; for (int i = 0; i < n && at + i < o.size(); i++) v |= (unsigned long)(unsigned char)o[at + i] << (8 * i); return v; };
        if (o.size() < 12 || o.compare(0, 4, "RIFF") || o.compare(8, 4, "WAVE")) { why = "no RIFF header"; return false; }
        if (u(4, 4) + 8 != o.size()) { why = "RIFF size " + num(u(4, 4)) + " in a file of " + num(o.size()); return false; }
        bool fmt = false, data = false;
        for (size_t at = 12; at + 8 <= o.size(); )
        {
            size_t n = u(at + 4, 4);
            if (at + 8 + n > o.size()) { why = "chunk beyond the end"; return false; }
            if (!o.compare(at, 4, "fmt ")) { fmt = true; if (u(at + 8, 2) != 1 || u(at + 22, 2) != 16) { why = "not 16 bit"; return false; } s.ch = u(at + 10, 2); s.rate = u(at + 12, 4); }
            if (!o.compare(at, 4, "data"))
            {
                data = true;
                size_t fr = n / 2 / std::max(1, s.ch);
                s.x.assign(s.ch, std::vector<float>(fr));
                for (size_t f = 0; f < fr; f++) for (int c = 0; c < s.ch; c++) s.x[c][f] = (short)u(at + 8 + (f * s.ch + c) * 2, 2) / 32768.0f;
            }
            at += 8 + n + (n & 1);
        }
        if (!fmt || !data) { why = "no fmt or data chunk"; return false; }
        return true;
    }
    // empty if equal within tol
    inline str differs(const Signal& a, const Signal& b, double tol)
    {
        if (!a.frames() && !b.frames()) return a.rate == b.rate ? "" : "another rate";
        if (a.ch != b.ch) return num(b.ch) + " channels instead of " + num(a.ch);
        if (a.frames() != b.frames()) return num(b.frames()) + " frames instead of " + num(a.frames());
        if (a.rate != b.rate) return "rate " + num(b.rate) + " instead of " + num(a.rate);
        for (int c = 0; c < a.ch; c++)
            for (size_t f = 0; f < a.frames(); f++)
                if (!(std::fabs((double)a.x[c][f] - b.x[c][f]) <= tol))
                    return "channel " + num(c) + " frame " + num(f) + " is " + sim::dnum(b.x[c][f]) + " instead of " + sim::dnum(a.x[c][f]);
        return "";
    }
    inline Signal signal(const Plan& p)
    {
        Signal s;
        s.ch = std::max(1l, p.iparam("ch", 1));
        s.rate = p.iparam("rate", 8000);
        size_t n = p.iparam("frames", 10);
        if (!n && p.param("writer") != "own") n = 1;
        Rng r(p.iparam("sigseed"));
        int kind = p.iparam("kind");
        s.x.assign(s.ch, std::vector<float>(n));
        for (int c = 0; c < s.ch; c++)
            for (size_t f = 0; f < n; f++)
            {
                float& v = s.x[c][f];
                if (kind == 0) v = (r.range(-1000, 1000)) / 1000.0f;
                else if (kind == 1) { static const float w[] = { 0, 1, -1, 0.5f, -0.5f, 1 / 32768.0f, -1 / 32768.0f, 0.99999f }; v = w[r.below(8)]; }
                else if (kind == 2) v = (float)((c * 7919 + f * 13) % 2001) / 1000 - 1;
                else v = std::sin(f * 0.1f * (c + 1)) * 0.9f;
            }
        return s;
    }
    // inside sut: the value, in one of the forms a signal may have
    inline libube::var build(const Signal& s, int form, libube::var& keep)
    {
        int n = (int)s.frames(), pad = form >= 2 ? 3 : 0;
        libube::var a = 0.0f;
        a.array();
        a.resize(pad + s.ch * n + (pad ? 5 : 0));
        float* q = a.ptr<float>();
        for (int i = 0; i < a.size(); i++) q[i] = 0.123f;
        for (int c = 0; c < s.ch; c++) for (int f = 0; f < n; f++) q[pad + c * n + f] = s.x[c][f];
        keep = a;
        if (s.ch == 1 && form == 0) return a;
        if (s.ch == 1 && form == 2) return a.view({ n }, pad);
        return a.view({ s.ch, n }, pad);
    }
}
#endif
