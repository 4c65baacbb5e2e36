// Overlapping views of shared arrays, by several actors (C06).
#include "model.h"
#include <cstring>
#include <cstdarg>
#include <algorithm>
using namespace libube;
using namespace model;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::num;
using sim::toi;

namespace
{
    const int NS = 6, NL = 3, NALL = NS + NL;   // handles, and elements of a list
    const char TC[] = "?cilfdzZ";

    struct VW { OP arr; long off; std::vector<int> shape; long size() const { long p = 1; for (int s : shape) p *= s; return p; } };
    typedef std::shared_ptr<VW> VP;
    struct H { OP arr; VP v; bool nil() const { return !arr && !v; } OP base() const { return v ? v->arr : arr; }
               long off() const { return v ? v->off : 0; }
               long size() const { return v ? v->size() : arr ? (long)arr->e.size() : 0; }
               bool stale() const { return v && v->off + v->size() > (long)v->arr->e.size(); }
               std::vector<int> shape() const { if (v) return v->shape; return { (int)size() }; } };
    bool same(const H& a, const H& b) { return a.arr == b.arr && a.v == b.v; }

    Val tok(const str& t)
    {
        const char* p = strchr(TC, t[0]);
        int ty = p ? (int)(p - TC) : (int)TYPE_INT;
        size_t c = t.find(',');
        double re = atof(t.c_str() + 1), im = c == str::npos ? 0 : atof(t.c_str() + c + 1);
        return cast(ty, mkScalar(ty <= TYPE_LONG ? (int)TYPE_LONG : ty, re, im));
    }
    var act(const Val& v) { std::map<Obj*, var> memo; return build(value(v), memo); }
    bool sameElem(const var& x, const Val& m)
    {
        std::map<IHeap*, OP> known;
        Val c = capture(x, known);
        if (c.arr() && c.o->type == TYPE_CDOUBLE && c.o->e.size() == 1) c = c.o->e[0];
        return c.t == m.t && c.i == m.i && c.re == m.re && c.im == m.im;
    }
    bool sameData(const Obj& a, const Obj& b)
    {
        if (a.e.size() != b.e.size()) return false;
        for (size_t i = 0; i < a.e.size(); i++) if (a.e[i].t != b.e[i].t || a.e[i].i != b.e[i].i || a.e[i].re != b.e[i].re || a.e[i].im != b.e[i].im) return false;
        return true;
    }

    struct Run
    {
        std::vector<H> m;
        std::vector<var> h;
        var list;
        long oomNth = 0, oomBurst = 0;
        Run() : m(NALL), h(NS) {}

        void on(int s, const std::function<void(var&)>& f)
        {
            if (s < NS) { f(h[s]); return; }
            var x = list.at(s - NS);
            f(x);
        }
        var get(int s) { if (s < NS) return h[s]; return list.at(s - NS); }

        // What every handle shows; empty if all is as expected
        str look()
        {
            str bad;
            auto say = [&](const char* fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); sim::Host hs; bad = b; };
            sim::Outcome o = sim::sut([&] {
                for (int s = 0; s < NALL && bad.empty(); s++)
                {
                    const H& x = m[s];
                    var v = get(s);
                    if (v.defined() == x.nil()) { say("handle %d is %sdefined", s, v.defined() ? "" : "not "); continue; }
                    if (x.nil()) continue;
                    if (v.view() != !!x.v) { say("handle %d is %sa view", s, v.view() ? "" : "not "); continue; }
                    if ((int)v.atype() != x.base()->type) { say("handle %d has elements of type %d, not %d", s, (int)v.atype(), x.base()->type); continue; }
                    if (v.size() != x.size()) { say("handle %d has size %d, not %ld", s, v.size(), x.size()); continue; }
                    if (v.offset() != x.off()) { say("handle %d has offset %d, not %ld", s, v.offset(), x.off()); continue; }
                    std::vector<int> sh = x.shape();
                    if (v.dim() != (int)sh.size()) { say("handle %d has %d dimensions, not %zu", s, v.dim(), sh.size()); continue; }
                    long st = 1;
                    for (int d = (int)sh.size() - 1; d >= 0; d--)
                    {
                        if (v.shape(d) != sh[d]) say("handle %d has shape(%d) = %d, not %d", s, d, v.shape(d), sh[d]);
                        if (v.shape(d - (int)sh.size()) != sh[d]) say("handle %d has shape(%d) = %d, not %d", s, d - (int)sh.size(), v.shape(d - (int)sh.size()), sh[d]);
                        if (v.stride(d) != st) say("handle %d has stride(%d) = %d, not %ld", s, d, v.stride(d), st);
                        st *= sh[d];
                    }
                    // there are no more dimensions than that
                    {
                        int d = (int)sh.size(), threw = 0;
                        try { v.shape(d); } catch (std::exception& e) { threw++; }
                        try { v.stride(d); } catch (std::exception& e) { threw++; }
                        if (threw != 2) say("handle %d of %zu dimensions has a shape or stride of dimension %d", s, sh.size(), d);
                    }
                    int ty = x.base()->type;
                    if (v.atype<char>() != (ty == TYPE_CHAR) || v.atype<int>() != (ty == TYPE_INT) || v.atype<long>() != (ty == TYPE_LONG) || v.atype<float>() != (ty == TYPE_FLOAT)
                        || v.atype<double>() != (ty == TYPE_DOUBLE) || v.atype<cfloat>() != (ty == TYPE_CFLOAT) || v.atype<cdouble>() != (ty == TYPE_CDOUBLE) || v.atype<var>() != (ty == TYPE_VAR))
                        say("handle %d of elements of type %d says that they are of another", s, ty);
                    const Obj& a = *x.base();
                    for (long i = 0; i < x.size() && bad.empty(); i++)
                    {
                        if (x.off() + i >= (long)a.e.size())
                        {
                            bool threw = false;
                            try { var e = v.at((int)i); e.dereference(); } catch (std::exception& e) { threw = true; }
                            if (!threw) say("handle %d reads element %ld outside its array", s, i);
                            continue;
                        }
                        var e = v.at((int)i);
                        bool ok;
                        { sim::Host hs; ok = sameElem(e, a.e[x.off() + i]); }
                        if (!ok) { sim::Host hs; std::map<IHeap*, OP> kn; str t = show(capture(e, kn)), u = show(a.e[x.off() + i]); say("element %ld of handle %d is %s, not %s", i, s, t.c_str(), u.c_str()); }
                    }
                    // a few by their indices
                    if (sh.size() >= 1 && sh.size() <= 3 && x.size() > 0 && bad.empty() && !x.stale())
                        for (int k = 0; k < 3; k++)
                        {
                            long f = (x.size() - 1) * k / 2, q = f;
                            int ix[3] = { 0, 0, 0 };
                            for (int d = (int)sh.size() - 1; d >= 0; d--) { ix[d] = q % sh[d]; q /= sh[d]; }
                            var e = sh.size() == 1 ? v(ix[0]) : sh.size() == 2 ? v(ix[0], ix[1]) : v(ix[0], ix[1], ix[2]);
                            bool ok;
                            { sim::Host hs; ok = sameElem(e, a.e[x.off() + f]); }
                            if (!ok) say("element (%d,%d,%d) of handle %d is not that at offset %ld", ix[0], ix[1], ix[2], s, x.off() + f);
                        }
                    bool threw = false;
                    try { v.at((int)x.size()); } catch (std::exception& e) { threw = true; }
                    if (!threw && bad.empty()) say("handle %d gives an element at its end", s);
                }
            });
            if (bad.empty() && !o.ok()) bad = "reading raised: " + o.what.substr(0, 200);
            return bad;
        }
        str describe()
        {
            str r;
            for (int s = 0; s < NALL; s++)
            {
                if (m[s].nil()) continue;
                r += "h" + num(s) + "=";
                int id = 0;
                for (int t = 0; t < NALL; t++) if (m[t].base() == m[s].base()) { id = t; break; }
                if (m[s].v) { r += "view@" + num(m[s].off()) + "["; for (int d : m[s].shape()) r += num(d) + " "; r += "] of #" + num(id) + " "; }
                else { Val v; v.o = m[s].arr; r += "#" + num(id) + show(v, 2) + " "; }
            }
            return r.substr(0, 900);
        }

        enum St { DONE, THROW, SKIP, EITHER };
        // Assignment of a handle: a view takes over the elements if type and shape agree
        St assign(int d, const H& x)
        {
            if (d < NS || true)
            {
                H& t = m[d];
                if (t.v && !x.nil() && t.base()->type == x.base()->type && t.shape().size() == x.shape().size()
                    && (t.shape().size() == 1 ? t.size() == x.size() : t.shape() == x.shape()))
                {
                    if (t.stale() || x.stale()) return SKIP;
                    bool overlap = t.base() == x.base() && t.off() != x.off() && t.off() < x.off() + x.size() && x.off() < t.off() + t.size();
                    if (overlap) return SKIP;
                    for (long i = 0; i < t.size(); i++) t.base()->e[t.off() + i] = x.base()->e[x.off() + i];
                    int ty = t.base()->type;
                    return ty == TYPE_VAR ? EITHER : DONE;
                }
                t = x;
            }
            return DONE;
        }
        static bool fits(const OP& a, long off, const std::vector<int>& shape)
        {
            if (shape.empty() || off < 0) return false;
            long p = 1;
            for (int s : shape) if (s < 0) return false;
            for (int i = (int)shape.size() - 1; i >= 0; i--) { p *= shape[i]; if (p > (long)a->e.size()) return false; }
            return p + off <= (long)a->e.size();
        }
        bool shapeTok(const str& t, std::vector<int>& s)
        {
            s.clear();
            str c;
            for (char x : t + "x") if (x == 'x') { if (c.empty()) break; s.push_back(atoi(c.c_str())); c.clear(); } else c += x;
            return s.size() <= 4;
        }

        void step(const Line& l, bool retry = false)
        {
            const str& name = l[1];
            auto A = [&](size_t i) { return i < l.size() ? l[i] : str("0"); };
            int a = (int)(toi(A(2)) % NALL), b = (int)(toi(A(3)) % NALL);
            if (a < 0 || b < 0) return;
            std::function<void()> f;
            St st = SKIP;
            // state before, with the sharing kept
            std::vector<H> pre;
            std::map<Obj*, OP> mo;
            std::map<VW*, VP> mv;
            for (auto& x : m)
            {
                H y;
                if (x.arr || x.v) { OP p = x.base(); if (!mo.count(p.get())) mo[p.get()] = OP(new Obj(*p)); }
                if (x.arr) y.arr = mo[x.arr.get()];
                if (x.v) { if (!mv.count(x.v.get())) { VP q(new VW(*x.v)); q->arr = mo[x.v->arr.get()]; mv[x.v.get()] = q; } y.v = mv[x.v.get()]; }
                pre.push_back(y);
            }
            bool partial = false;      // may be left half done when memory runs out
            H* t = &m[a];
            if (name == "new")
            {
                const char* pc = strchr(TC, A(3)[0]);
                int ty = A(3)[0] == 'v' ? (int)TYPE_VAR : pc ? (int)(pc - TC) : (int)TYPE_INT;
                long n = std::max(1l, std::min(40l, toi(A(4))));
                H x;
                x.arr = OP(new Obj);
                x.arr->type = ty;
                std::vector<Val> e;
                for (long i = 0; i < n; i++) e.push_back(cast(ty == TYPE_VAR ? (int)TYPE_INT : ty, mkScalar(TYPE_DOUBLE, (double)(i + 1), 0)));
                x.arr->e = e;
                partial = true;
                f = [this, a, e, ty] {
                    on(a, [&](var& v) {
                        var n;
                        if (ty == TYPE_VAR) n.resize((int)e.size()); 
                        else { n = act(e[0]); n.array(); n.resize((int)e.size()); }
                        for (size_t i = 0; i < e.size(); i++) n.at((int)i) = act(e[i]);
                        v = nil;
                        v = n;
                    });
                };
                m[a] = x;
                st = DONE;
            }
            else if (name == "nil") { m[a] = H(); f = [this, a] { on(a, [&](var& v) { v = nil; }); }; st = DONE; }
            else if (name == "assign")
            {
                H x = m[b];
                st = assign(a, x);
                partial = true;
                f = [this, a, b] { var s = get(b); on(a, [&](var& v) { v = s; }); };
            }
            else if (name == "view" || name == "viewl")
            {
                std::vector<int> sh;
                if (!shapeTok(A(4), sh)) return;
                long off = toi(A(5));
                bool lst = name == "viewl";
                if (m[b].nil()) st = THROW;
                else if (m[b].base()->type == TYPE_VAR && false) st = SKIP;
                else if (!fits(m[b].base(), off + m[b].off(), sh)) st = THROW;
                else
                {
                    H x;
                    x.v = VP(new VW);
                    x.v->arr = m[b].base();
                    x.v->off = off + m[b].off();
                    x.v->shape = sh;
                    partial = true;
                    st = assign(a, x);
                }
                f = [this, a, b, sh, off, lst] {
                    var r;
                    on(b, [&](var& v) {
                        if (!lst)
                        {
                            var s;
                            for (int d : sh) s.push(d);
                            r = v.view(s, (int)off);
                        }
                        else if (sh.size() == 1) r = v.view({ sh[0] }, (int)off);
                        else if (sh.size() == 2) r = v.view({ sh[0], sh[1] }, (int)off);
                        else if (sh.size() == 3) r = v.view({ sh[0], sh[1], sh[2] }, (int)off);
                        else if (sh.size() == 4) r = v.view({ sh[0], sh[1], sh[2], sh[3] }, (int)off);
                        else r = v.view(std::initializer_list<int>(), (int)off);
                    });
                    on(a, [&](var& v) { v = r; });
                };
            }
            else if (name == "sub")
            {
                long d = toi(A(4)), off = toi(A(5));
                if (m[b].nil()) return;
                std::vector<int> sh = m[b].shape();
                if (d > (long)sh.size()) return;
                if (d < 1) st = THROW;
                else
                {
                    sh.erase(sh.begin(), sh.end() - d);
                    if (!fits(m[b].base(), off + m[b].off(), sh)) st = THROW;
                    else
                    {
                        H x;
                        x.v = VP(new VW);
                        x.v->arr = m[b].base();
                        x.v->off = off + m[b].off();
                        x.v->shape = sh;
                        partial = true;
                        st = assign(a, x);
                    }
                }
                f = [this, a, b, d, off] { var r; on(b, [&](var& v) { r = v.subview((int)d, ind((int)off)); }); on(a, [&](var& v) { v = r; }); };
            }
            else if (name == "move")
            {
                long off = toi(A(3));
                if (t->nil()) return;
                if (!t->v || off < 0 || off + t->size() > (long)t->base()->e.size()) st = THROW;
                else { t->v->off = off; st = DONE; }
                f = [this, a, off] { on(a, [&](var& v) { v.offset((int)off); }); };
            }
            else if (name == "seta" || name == "setb" || name == "setm" || name == "geta")
            {
                // one element: at(), [] or ()
                Val x = tok(A(4));
                long k = toi(A(3));
                if (t->nil()) return;
                int ty = t->base()->type;
                if (ty == TYPE_VAR) x = cast(TYPE_INT, x);
                bool in = k >= 0 && k < t->size();
                if (name == "setm")
                {
                    std::vector<int> sh = t->shape(), ix(sh.size());
                    if (sh.size() > 3) return;
                    // the index of the first dimension may be out of range; the others are made so by the sign bit
                    long q = k;
                    bool ok = true;
                    for (int d = (int)sh.size() - 1; d >= 0; d--)
                    {
                        if (!sh[d]) return;
                        ix[d] = d ? (int)(q % sh[d]) : (int)q;
                        if (d) q /= sh[d];
                        if (ix[d] < 0 || ix[d] >= sh[d]) ok = false;
                    }
                    int twist = (int)toi(A(5));
                    if (twist > 0 && twist <= (int)sh.size()) { ix[twist - 1] += twist & 1 ? sh[twist - 1] : -sh[twist - 1]; ok = ix[twist - 1] >= 0 && ix[twist - 1] < sh[twist - 1]; for (size_t d = 0; d < sh.size(); d++) if (ix[d] < 0 || ix[d] >= sh[d]) ok = false; }
                    in = ok;
                    k = 0;
                    if (in) for (size_t d = 0; d < sh.size(); d++) k = k * sh[d] + ix[d];
                    f = [this, a, ix, x] {
                        on(a, [&](var& v) {
                            var val = act(x);
                            if (ix.size() == 1) v(ix[0]) = val;
                            else if (ix.size() == 2) v(ix[0], ix[1]) = val;
                            else v(ix[0], ix[1], ix[2]) = val;
                        });
                    };
                }
                else if (name == "seta") f = [this, a, k, x] { on(a, [&](var& v) { v.at((int)k) = act(x); }); };
                else if (name == "geta") f = [this, a, k] { on(a, [&](var& v) { var e = v.at((int)k); e.dereference(); }); };
                else
                {
                    if (!in && k >= 0 && !t->v) return;       // [] on an array grows it
                    f = [this, a, k, x] { on(a, [&](var& v) { v[(int)k] = act(x); }); };
                }
                if (!in || t->off() + k >= (long)t->base()->e.size()) st = THROW;
                else
                {
                    if (name != "geta") t->base()->e[t->off() + k] = cast(ty == TYPE_VAR ? (int)TYPE_INT : ty, x);
                    st = DONE;
                }
            }
            else if (name == "push" || name == "resize" || name == "pop" || name == "shift" || name == "unshift" || name == "insert" || name == "remove" || name == "append")
            {
                if (t->nil()) return;
                Val x = tok(A(4));
                long n = toi(A(3));
                int ty = t->base()->type;
                x = cast(ty == TYPE_VAR ? (int)TYPE_INT : ty, x);
                auto& e = t->base()->e;
                if (t->v)
                {
                    if (name == "resize" && n == t->size()) return;
                    st = THROW;
                    if (name == "remove" || name == "insert") { if (n < 0 || n > t->size()) n = 0; }
                    if (ty == TYPE_VAR && (name == "append" || name == "insert")) st = THROW;
                }
                else
                {
                    if (e.size() > 60) return;
                    if (name == "push" || name == "append") e.push_back(x);
                    else if (name == "resize") { if (n < (long)e.size() || n > 60) { if (n < 0 || n > 60) return; e.resize(n); } else { return; } }
                    else if (name == "unshift") e.insert(e.begin(), x);
                    else if (name == "insert") { if (n < 0 || n > (long)e.size()) return; e.insert(e.begin() + n, x); }
                    else if (name == "remove") { if (n < 0 || n >= (long)e.size()) return; e.erase(e.begin() + n); }
                    else if (e.empty()) return;
                    else if (name == "pop") e.pop_back();
                    else e.erase(e.begin());
                    st = DONE;
                }
                f = [this, a, n, x, name] {
                    on(a, [&](var& v) {
                        if (name == "push") v.push(act(x));
                        else if (name == "append") v.append(act(x));
                        else if (name == "resize") v.resize((int)n);
                        else if (name == "unshift") v.unshift(act(x));
                        else if (name == "insert") v.insert(act(x), (int)n);
                        else if (name == "remove") v.remove((int)n);
                        else if (name == "pop") v.pop();
                        else v.shift();
                    });
                };
                partial = true;
            }
            else if (name == "copy")
            {
                H x;
                const H& s = m[b];
                if (s.nil()) return;
                if (s.arr) x.arr = OP(new Obj(*s.arr));
                else { x.v = VP(new VW(*s.v)); x.v->arr = OP(new Obj(*s.v->arr)); }
                partial = true;
                st = assign(a, x);
                f = [this, a, b] { var r; on(b, [&](var& v) { r = v.copy(); }); on(a, [&](var& v) { v = r; }); };
            }
            else if (name == "adds" || name == "subs" || name == "muls")
            {
                if (t->nil() || t->stale() || !t->size()) return;
                int ty = t->base()->type;
                if (ty > TYPE_DOUBLE) return;
                double k = toi(A(3)) % 4;
                for (long i = 0; i < t->size(); i++)
                {
                    Val& e = t->base()->e[t->off() + i];
                    double x = ty <= TYPE_LONG ? (double)e.i : e.re;
                    double r = name == "adds" ? x + k : name == "subs" ? x - k : x * k;
                    if (r > 100 || r < -100) { restore(pre); return; }
                    e = mkScalar(ty, r);
                }
                st = name == "muls" && ty < TYPE_FLOAT ? EITHER : DONE;
                partial = true;
                f = [this, a, k, name] { on(a, [&](var& v) { if (name == "adds") v += (int)k; else if (name == "subs") v -= (int)k; else v *= (int)k; }); };
            }
            else if (name == "addv" || name == "subv" || name == "mulv" || name == "swap")
            {
                const H& s = m[b];
                if (t->nil() || s.nil() || t->stale() || s.stale() || !t->size() || s.size() < 2) return;
                int ty = t->base()->type;
                if (ty != s.base()->type || (ty != TYPE_FLOAT && ty != TYPE_DOUBLE && ty != TYPE_CFLOAT && ty != TYPE_CDOUBLE)) return;
                std::vector<int> x = t->shape(), y = s.shape();
                if (y.size() > x.size() || !std::equal(y.begin(), y.end(), x.end() - y.size())) return;
                bool overlap = t->base() == s.base() && t->off() < s.off() + s.size() && s.off() < t->off() + t->size();
                if (overlap && !(t->off() == s.off() && t->size() == s.size())) return;
                if (overlap && name != "addv" && name != "subv") return;
                if (name == "swap")
                {
                    if (x != y) return;
                    for (long i = 0; i < t->size(); i++) std::swap(t->base()->e[t->off() + i], s.base()->e[s.off() + i]);
                }
                else
                for (long i = 0; i < t->size(); i++)
                {
                    Val& e = t->base()->e[t->off() + i];
                    Val q = s.base()->e[s.off() + i % s.size()];
                    double r = name == "addv" ? e.re + q.re : name == "subv" ? e.re - q.re : e.re * q.re - e.im * q.im;
                    double im = name == "addv" ? e.im + q.im : name == "subv" ? e.im - q.im : e.re * q.im + e.im * q.re;
                    if (r > 100 || r < -100 || im > 100 || im < -100) { restore(pre); return; }
                    e = mkScalar(ty, r, im);
                }
                st = ty <= TYPE_DOUBLE || name == "swap" || name == "addv" ? DONE : EITHER;
                partial = true;
                f = [this, a, b, name] {
                    var s = get(b);
                    on(a, [&](var& v) { if (name == "addv") v += s; else if (name == "subv") v -= s; else if (name == "mulv") v *= s; else libube::swap(v, s, v); });
                };
            }
            if (st == SKIP || !f) { restore(pre); sim::count("op.skipped"); return; }
            std::vector<H> post = m;
            if (st == THROW) restore(pre);
            sim::count("op.executed");
            if (sim::verbose()) { str u; for (auto& x : l) u += x + " "; sim::trace("%s # %s", u.c_str(), describe().c_str()); }
            else sim::note(sim::hash(name));
            if (oomNth) sim::alloc::failAt(oomNth, oomBurst);
            sim::Outcome o = sim::sut(f);
            long failed = sim::alloc::failed();
            bool had = oomNth;
            sim::alloc::heal();
            oomNth = 0;
            if (o.kind == sim::NOMEM && had && failed)
            {
                sim::count("oom.raised");
                std::vector<H> as = m;
                restore(pre);
                str b1 = look();
                if (!b1.empty())
                {
                    m = as;
                    str b2 = st == THROW ? b1 : look();
                    if (!b2.empty())
                    {
                        if (!partial) sim::fail("oom-state", "after a failed allocation in %s: %s", name.c_str(), b1.c_str());
                        // element by element, in the array that is worked on only
                        restore(pre);
                        resync(pre, as, a, name);
                        str b3 = look();
                        if (!b3.empty()) sim::fail("oom-state", "after a failed allocation in %s: %s (state before: %s)", name.c_str(), b3.c_str(), describe().c_str());
                    }
                }
                else if (!retry) { sim::count("oom.retried"); step(l, true); }
                return;
            }
            if (o.kind == sim::NOMEM) sim::fail("unexpected-exception", "%s raised bad_alloc although memory was available", name.c_str());
            if (o.kind == sim::THREW)
            {
                sim::count("op.threw");
                if (st == DONE) sim::fail("unexpected-exception", "%s raised: %s (expected after it: %s)", name.c_str(), o.what.substr(0, 300).c_str(), describe().c_str());
                restore(pre);
            }
            if (o.ok() && st == THROW) sim::fail("missing-exception", "%s was accepted (state before: %s)", name.c_str(), describe().c_str());
            str bad = look();
            if (!bad.empty()) sim::fail("wrong-content", "after %s: %s (expected state: %s)", name.c_str(), bad.c_str(), describe().c_str());
        }
        void restore(const std::vector<H>& pre) { m = pre; }
        // The target may hold any mixture of old and new elements; a length is the old or the new one
        void resync(const std::vector<H>& pre, const std::vector<H>& as, int a, const str& name)
        {
            OP p = pre[a].base(), q = as[a].base();
            if (!p || !q) return;
            var v = get(a);
            long n = v.view() ? p->e.size() : v.size();
            // the whole array, read through any handle that is not a view, else through the view
            auto read = [&](long i, Val& out) {
                for (int s = 0; s < NALL; s++)
                    if (pre[s].base() == p)
                    {
                        long k = i - pre[s].off();
                        if (k < 0 || k >= pre[s].size()) continue;
                        var e = get(s).at((int)k);
                        std::map<IHeap*, OP> kn;
                        Val c = capture(e, kn);
                        if (c.arr() && c.o->type == TYPE_CDOUBLE && c.o->e.size() == 1) c = c.o->e[0];
                        out = c;
                        return;
                    }
            };
            if (name == "adds" || name == "subs" || name == "muls" || name == "addv" || name == "subv" || name == "mulv" || name == "assign" || name == "view" || name == "viewl" || name == "sub" || name == "copy")
            {
                for (long i = 0; i < (long)p->e.size() && i < (long)q->e.size(); i++)
                {
                    Val now = p->e[i];
                    sim::sut([&] { read(i, now); });
                    auto eqv = [](const Val& x, const Val& y) { return x.t == y.t && x.i == y.i && x.re == y.re && x.im == y.im; };
                    if (eqv(now, p->e[i]) || eqv(now, q->e[i])) p->e[i] = now;
                }
            }
            else if (name != "swap")
            {
                // an edit of an array: what it held before is there in order (C03 has the details)
                Val now;
                std::map<IHeap*, OP> kn;
                sim::sut([&] { now = capture(get(a), kn); });
                if (now.arr() && !pre[a].v)
                {
                    size_t j = 0;
                    int miss = name == "pop" || name == "shift" || name == "remove" ? 1 : 0;
                    for (auto& e : p->e)
                    {
                        size_t k = j;
                        while (k < now.o->e.size() && !eq(now.o->e[k], e)) k++;
                        if (k == now.o->e.size()) { if (miss-- > 0) continue; return; }
                        j = k + 1;
                    }
                    p->e = now.o->e;
                }
            }
            (void)n;
        }
    };

    void run(const Plan& p)
    {
        Run r;
        sim::Outcome o = sim::sut([&] { r.list.resize(NL); });
        if (!o.ok()) sim::fail("unexpected-exception", "making the list raised %s", o.what.c_str());
        for (auto& l : p.lines)
        {
            if (l[0] == "oom" && l.size() > 2) { r.oomNth = toi(l[1]); r.oomBurst = toi(l[2]); continue; }
            if (l[0] != "op" || l.size() < 3) continue;
            r.step(l);
            r.oomNth = 0;
            sim::u64 h = 5;
            for (auto& x : r.m) { h = sim::mix(h, x.nil() ? 0 : x.v ? 100 + x.off() : 50); if (!x.nil()) for (auto& e : x.base()->e) h = sim::mix(h, e.i + (long)(e.re * 8)); for (int d : x.shape()) h = sim::mix(h, d); }
            sim::state(h);
            sim::note(h);
        }
        sim::sut([&] { r.h.clear(); r.list = nil; });
        if (sim::alloc::liveBlocks()) { }
    }

    void gen(Rng& r, Plan& p, const str& variant)
    {
        p.add({ "param", "variant", variant });
        static const char* types[] = { "f", "d", "i", "f", "d", "c", "l", "z", "Z", "v" };
        str ty = types[r.below(10)];
        int n = r.range(4, 24);
        p.add({ "op", "new", "0", ty, num(n) });
        if (r.chance(2, 3)) p.add({ "op", "new", "1", r.chance(2, 3) ? ty : types[r.below(10)], num(r.range(2, 24)) });
        int ops = r.range(8, 40);
        auto hd = [&] { return num(r.below(NALL)); };
        auto shape = [&] {
            int d = r.chance(1, 20) ? 4 : r.range(1, 3);
            str s;
            for (int i = 0; i < d; i++) s += (i ? "x" : "") + num(r.chance(1, 25) ? 0 : r.chance(1, 40) ? -1 : r.range(1, d == 1 ? 12 : 4));
            return s;
        };
        auto off = [&] { return num(r.chance(1, 12) ? -r.range(1, 6) : r.range(0, r.chance(1, 4) ? 24 : 8)); };
        auto val = [&] { str t = types[r.below(9)]; str s = t + num(r.range(-9, 9)); if (t == "z" || t == "Z") s += "," + num(r.range(-3, 3)); return s; };
        bool oom = r.chance(1, 4);
        static const char* ar[] = { "adds", "subs", "muls" };
        static const char* av[] = { "addv", "subv", "mulv", "swap" };
        static const char* ed[] = { "push", "resize", "pop", "shift", "unshift", "insert", "remove", "append" };
        for (int i = 0; i < ops; i++)
        {
            if (oom && r.chance(1, 4)) p.add({ "oom", num(1 + r.below(5)), r.chance(1, 4) ? "-1" : num(1 + r.below(3)) });
            int k = r.below(100);
            if (k < 20) p.add({ "op", r.chance(1, 2) ? "view" : "viewl", hd(), hd(), shape(), off() });
            else if (k < 28) p.add({ "op", "sub", hd(), hd(), num(r.range(0, 3)), off() });
            else if (k < 36) p.add({ "op", "move", hd(), off() });
            else if (k < 42) p.add({ "op", "seta", hd(), num(r.range(-1, 14)), val() });
            else if (k < 48) p.add({ "op", "setb", hd(), num(r.range(-1, 14)), val() });
            else if (k < 58) p.add({ "op", "setm", hd(), num(r.range(r.chance(1, 10) ? -2 : 0, 14)), val(), num(r.chance(1, 6) ? r.range(1, 3) : 0) });
            else if (k < 68) p.add({ "op", "assign", hd(), hd() });
            else if (k < 71) p.add({ "op", "nil", hd() });
            else if (k < 74) p.add({ "op", "copy", hd(), hd() });
            else if (k < 76) p.add({ "op", "new", hd(), r.chance(2, 3) ? ty : types[r.below(10)], num(r.range(1, 20)) });
            else if (k < 83) p.add({ "op", ar[r.below(3)], hd(), num(r.below(4)) });
            else if (k < 93) p.add({ "op", av[r.below(4)], hd(), hd() });
            else p.add({ "op", ed[r.below(8)], hd(), num(r.range(0, 20)), val() });
        }
    }
    sim::Register reg({ "views", gen, run, false, true });
}
