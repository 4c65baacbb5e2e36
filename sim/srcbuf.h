// A source of bytes that arrives in pieces, and may fail part-way.
#ifndef SRCBUF_H
#define SRCBUF_H
#include "sim.h"
#include <streambuf>
#include <vector>
#include <stdexcept>
struct SrcBuf : std::streambuf
{
    std::string data;
    std::vector<int> chunks;
    size_t at = 0, ci = 0;
    long failAt = -1;          // no byte from here on can be read
    bool failed = false;
    SrcBuf(const std::string& d, const std::vector<int>& c, long f) : data(d), chunks(c), failAt(f) {}
    int underflow() override
    {
        sim::Host h;
        if (gptr() < egptr()) return (unsigned char)*gptr();
        size_t lim = failAt >= 0 ? std::min<size_t>(failAt, data.size()) : data.size();
        if (at >= lim)
        {
            if (failAt >= 0) { failed = true; sim::count("fault.source.error"); sim::Enter e; throw std::runtime_error("the source failed"); }
            return traits_type::eof();
        }
        size_t n = chunks.empty() ? lim - at : std::max(1, chunks[ci++ % chunks.size()]);
        n = std::min(n, lim - at);
        char* p = &data[at];
        at += n;
        setg(p, p, p + n);
        return (unsigned char)*p;
    }
    long consumed() const { return at - (egptr() - gptr()); }
    std::streampos seekoff(std::streamoff o, std::ios_base::seekdir w, std::ios_base::openmode) override
    {
        return o == 0 && w == std::ios_base::cur ? consumed() : -1;
    }
};
inline std::vector<int> chunkList(const std::string& spec)   // "1,3,7" or "-"
{
    std::vector<int> v;
    std::string w;
    for (size_t i = 0; i <= spec.size(); i++)
        if (i == spec.size() || spec[i] == ',') { if (!w.empty() && isdigit((unsigned char)w[0])) v.push_back(atoi(w.c_str())); w.clear(); }
        else w += spec[i];
    return v;
}
inline std::string genChunks(sim::Rng& r)
{
    int k = r.below(6);
    if (k == 0) return "-";
    if (k == 1) return "1";
    std::string s;
    int n = r.range(1, 5);
    for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(k == 2 ? r.range(1, 3) : k == 3 ? r.range(1, 300) : r.range(1, 20));
    return s;
}
#endif
