// Arithmetic, element-wise functions, reductions, products, sorting and transforms on numbers, arrays, views,
// lists and maps which several handles share, in place, into another handle or giving a new value (C25, C26).
#include "sim.h"
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <lube/lube.h>
#include <lube/heap.h>
#include <lube/dft.h>
using namespace libube;
using sim::str;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::num;
using sim::toi;

namespace
{
    const int NH = 6;
    const char TC[] = "?cilfdzZ";
    typedef std::complex<double> C;
    typedef std::vector<int> Shape;
    struct Buf { int type; std::vector<C> e; };
    typedef std::shared_ptr<Buf> BP;
    struct Vw { BP b; long off; Shape shape; };
    typedef std::shared_ptr<Vw> VP;
    struct Hd;
    struct Lst { bool map; std::vector<str> k; std::vector<Hd> e; };
    typedef std::shared_ptr<Lst> LP;
    long sizeOf(const Shape& s) { long p = 1; for (int x : s) p *= x; return p; }
    struct Hd
    {
        int t = 0;                              // a number of this type, if no object
        C x;
        BP b; VP v; LP l;
        bool nil() const { return !t && !b && !v && !l; }
        bool scalar() const { return t != 0; }
        bool dense() const { return b || v; }
        BP base() const { return v ? v->b : b; }
        int type() const { return t ? t : base() ? base()->type : 0; }
        long off() const { return v ? v->off : 0; }
        Shape shape() const { if (v) return v->shape; return { b ? (int)b->e.size() : 1 }; }
        long size() const { return v ? sizeOf(v->shape) : b ? (long)b->e.size() : l ? (long)l->e.size() : 1; }
        C& at(long i) { return base()->e[off() + i]; }
        const C& at(long i) const { return const_cast<Hd*>(this)->at(i); }
    };
    bool isInt(int t) { return t >= TYPE_CHAR && t <= TYPE_LONG; }
    bool isReal(int t) { return t == TYPE_FLOAT || t == TYPE_DOUBLE; }
    bool isCplx(int t) { return t == TYPE_CFLOAT || t == TYPE_CDOUBLE; }
    int realOf(int t) { return t == TYPE_FLOAT || t == TYPE_CFLOAT ? TYPE_FLOAT : t == TYPE_DOUBLE || t == TYPE_CDOUBLE ? TYPE_DOUBLE : 0; }
    int cplxOf(int t) { return t == TYPE_FLOAT || t == TYPE_CFLOAT ? TYPE_CFLOAT : TYPE_CDOUBLE; }
    double eps(int t) { return t == TYPE_FLOAT || t == TYPE_CFLOAT ? 3e-5 : 1e-10; }
    // the value an element of type t takes; false where the language does not define it
    bool fit(int t, C v, C& r)
    {
        double lim = t == TYPE_CHAR ? 127 : t == TYPE_INT ? 2e9 : 9e15;
        if (isInt(t)) { if (!std::isfinite(v.real()) || std::fabs(v.real()) > lim) return false; r = C(std::trunc(v.real()), 0); return true; }
        if (t == TYPE_FLOAT) r = C((float)v.real(), 0);
        else if (t == TYPE_DOUBLE) r = C(v.real(), 0);
        else if (t == TYPE_CFLOAT) r = C((float)v.real(), (float)v.imag());
        else r = v;
        return true;
    }
    bool same1(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
    bool same(C a, C b) { return same1(a.real(), b.real()) && same1(a.imag(), b.imag()); }
    bool near1(double a, double b, double tol) { return same1(a, b) || std::fabs(a - b) <= tol || (std::isinf(a) && std::fabs(b) > 1e37) || (std::isinf(b) && std::fabs(a) > 1e37); }
    bool near(int t, C a, C b, double scale)
    {
        if (isInt(t)) return a == b;
        double tol = eps(t) * std::max(1.0, std::isfinite(scale) ? scale : 1.0);
        if (isCplx(t) && (!std::isfinite(std::abs(a)) || !std::isfinite(std::abs(b)))) return !std::isfinite(std::abs(a)) == !std::isfinite(std::abs(b)) || std::abs(a) > 1e30 || std::abs(b) > 1e30;
        return near1(a.real(), b.real(), tol) && near1(a.imag(), b.imag(), tol);
    }
    str show(C v) { char b[80]; if (v.imag() != 0) snprintf(b, sizeof b, "(%.9g,%.9g)", v.real(), v.imag()); else snprintf(b, sizeof b, "%.9g", v.real()); return b; }
    str show(const Hd& h)
    {
        if (h.nil()) return "nil";
        str s(1, TC[h.type() ? h.type() : 0]);
        if (h.scalar()) return s + show(h.x);
        if (h.l) { s = h.l->map ? "{" : "[["; for (auto& e : h.l->e) s += show(e) + " "; return s + "}"; }
        s += h.v ? "view(" : "(";
        for (int d : h.shape()) s += num(d) + " ";
        s += ")[";
        for (long i = 0; i < h.size() && i < 40; i++) s += show(h.at(i)) + " ";
        return s + "]";
    }

    // ---- actual values
    var number(int t, C v)
    {
        switch (t)
        {
        case TYPE_CHAR: return (char)v.real();
        case TYPE_INT: return (int)v.real();
        case TYPE_LONG: return (long)v.real();
        case TYPE_FLOAT: return (float)v.real();
        case TYPE_DOUBLE: return v.real();
        case TYPE_CFLOAT: return cfloat(v);
        default: return v;
        }
    }
    C raw(IHeap* h, int t, long i)
    {
        switch (t)
        {
        case TYPE_CHAR: return C(h->ptrchar()[i]);
        case TYPE_INT: return C(h->ptrint()[i]);
        case TYPE_LONG: return C(h->ptrlong()[i]);
        case TYPE_FLOAT: return C(h->ptrfloat()[i]);
        case TYPE_DOUBLE: return C(h->ptrdouble()[i]);
        case TYPE_CFLOAT: return C(h->ptrcfloat()[i]);
        default: return h->ptrcdouble()[i];
        }
    }
    C scalarOf(const var& v)
    {
        switch (v.type())
        {
        case TYPE_CHAR: return C(v.get<char>());
        case TYPE_INT: return C(v.get<int>());
        case TYPE_LONG: return C(v.get<long>());
        case TYPE_FLOAT: return C(v.get<float>());
        case TYPE_DOUBLE: return C(v.get<double>());
        default: return C(v.get<cfloat>());
        }
    }
    var build(int t, const std::vector<C>& e)
    {
        var v = number(t, e.empty() ? C() : e[0]);
        v.array();
        v.resize((int)e.size());
        for (size_t i = 0; i < e.size(); i++) v[(int)i] = number(t, e[i]);
        return v;
    }
    // what an actual value is; objects already known keep their identity
    struct Known { std::map<IHeap*, BP> b; std::map<IHeap*, VP> v; std::map<IHeap*, LP> l; };
    Hd capture(const var& w, Known& k)
    {
        Hd h;
        var v = w;
        v.dereference();
        if (!v.defined()) return h;
        IHeap* hp = v.heap();
        if (!hp) { h.t = v.type(); h.x = scalarOf(v); return h; }
        int t = v.atype();
        if (t == TYPE_VAR || t == TYPE_PAIR)
        {
            sim::Host hs;
            LP& l = k.l[hp];
            if (!l)
            {
                l = LP(new Lst); l->map = t == TYPE_PAIR;
                for (int i = 0; i < hp->size(); i++)
                {
                    var e; { sim::Enter en; e = v.at(i); e.dereference(); if (l->map) { var ky = v.key(i); const char* p = ky.str(); sim::Host h2; l->k.push_back(p); } }
                    Hd x; { sim::Enter en; x = capture(e, k); }
                    l->e.push_back(x);
                    { sim::Enter en; e = nil; }
                }
            }
            h.l = l;
            return h;
        }
        IHeap* base = hp->view() ? (IHeap*)hp->view() : hp;
        sim::Host hs;
        BP& b = k.b[base];
        if (!b) { b = BP(new Buf); b->type = t; for (int i = 0; i < base->size(); i++) b->e.push_back(raw(base, t, i)); }
        if (hp->view())
        {
            VP& vw = k.v[hp];
            if (!vw) { vw = VP(new Vw); vw->b = b; vw->off = hp->offset(); for (int d = 0; d < hp->dim(); d++) vw->shape.push_back(hp->shape(d)); }
            h.v = vw;
        }
        else h.b = b;
        return h;
    }

    // ---- clones which keep the sharing
    struct Memo { std::map<Buf*, BP> b; std::map<Vw*, VP> v; std::map<Lst*, LP> l; };
    Hd clone(const Hd& h, Memo& m)
    {
        Hd r = h;
        auto cb = [&](const BP& b) { BP& x = m.b[b.get()]; if (!x) x = BP(new Buf(*b)); return x; };
        if (h.b) r.b = cb(h.b);
        if (h.v) { VP& x = m.v[h.v.get()]; if (!x) { x = VP(new Vw(*h.v)); x->b = cb(h.v->b); } r.v = x; }
        if (h.l) { LP& x = m.l[h.l.get()]; if (!x) { x = LP(new Lst); x->map = h.l->map; x->k = h.l->k; for (auto& e : h.l->e) x->e.push_back(clone(e, m)); } r.l = x; }
        return r;
    }
    typedef std::vector<Hd> State;
    State clone(const State& s) { Memo m; State r; for (auto& h : s) r.push_back(clone(h, m)); return r; }

    // ---- definitions
    template <class T> C fu(const str& f, T x)
    {
        if (f == "sin") return C(std::sin(x));
        if (f == "cos") return C(std::cos(x));
        if (f == "tan") return C(std::tan(x));
        if (f == "atan") return C(std::atan(x));
        if (f == "sqrt") return C(std::sqrt(x));
        if (f == "log") return C(std::log(x));
        if (f == "exp") return C(std::exp(x));
        if (f == "real") return C(std::real(x));
        if (f == "imag") return C(std::imag(x));
        if (f == "abs") return C(std::abs(x));
        if (f == "arg") return C(std::arg(x));
        if (f == "norm") return C(std::norm(x));
        return C();
    }
    bool unary(const str& f, int t, C x, C& r)
    {
        if (t == TYPE_FLOAT) r = f == "floor" ? C(std::floor((float)x.real())) : fu<float>(f, (float)x.real());
        else if (t == TYPE_DOUBLE) r = f == "floor" ? C(std::floor(x.real())) : fu<double>(f, x.real());
        else if (isCplx(t) && f != "floor")
        {
#define CU(T) { std::complex<T> z(x); \
            if (f == "sin") r = C(std::sin(z)); else if (f == "cos") r = C(std::cos(z)); else if (f == "tan") r = C(std::tan(z)); else if (f == "atan") r = C(std::atan(z)); \
            else if (f == "sqrt") r = C(std::sqrt(z)); else if (f == "log") r = C(std::log(z)); else if (f == "exp") r = C(std::exp(z)); \
            else if (f == "real") r = z.real(); else if (f == "imag") r = z.imag(); else if (f == "abs") r = std::abs(z); else if (f == "arg") r = std::arg(z); else r = std::norm(z); }
            if (t == TYPE_CFLOAT) CU(float) else CU(double)
        }
        else return false;
        return true;
    }
    bool toReal(const str& f) { return f == "real" || f == "imag" || f == "abs" || f == "arg" || f == "norm"; }
    enum St { MUST, MAY, THROW, SKIP };
    // one element: left operand of type t, right one of any type; scale says how large the terms are
    St arith(const str& f, int t, C a, C b, C& r, double& scale)
    {
        C y;
        if (!fit(t, b, y)) return SKIP;
        scale = std::abs(a) + std::abs(y);
        if (f == "add") r = a + y;
        else if (f == "sub") r = a - y;
        else if (f == "mul") { r = a * y; scale = std::abs(a) * std::abs(y); }
        else if (f == "div")
        {
            if (isInt(t)) { if (y.real() == 0) return SKIP; r = C((double)((long)a.real() / (long)y.real())); }
            else if (isReal(t)) r = C(a.real() / y.real());
            else { r = t == TYPE_CFLOAT ? C(cfloat(a) / cfloat(y)) : a / y; scale = std::abs(r); if (y == C()) return SKIP; }
            scale = std::max(scale, std::abs(r));
        }
        else // pow
        {
            if (isInt(t)) return THROW;
            r = t == TYPE_FLOAT ? C(std::pow((float)a.real(), (float)y.real())) : t == TYPE_DOUBLE ? C(std::pow(a.real(), y.real())) : t == TYPE_CFLOAT ? C(std::pow(cfloat(a), cfloat(y))) : std::pow(a, y);
            scale = std::abs(r);
        }
        C q;
        if (!fit(t, r, q)) return SKIP;
        r = q;
        return MUST;
    }

    struct Elem { C want; double scale; };
    struct Run
    {
        State m;
        std::vector<std::unique_ptr<var>> h;
        std::map<std::vector<int>, std::unique_ptr<UnaryFunctor>> kept;
        Run() : m(NH) { for (int i = 0; i < NH; i++) h.emplace_back(new var); }
        void put(int i, const var& v) { var* p = new var(v); sim::Host hs; h[i].reset(p); }

        // compares everything; empty if all is as expected
        str differs(const Hd& x, const var& w, const str& at, std::map<void*, void*>& to, std::map<void*, void*>& from, std::set<void*>& seen)
        {
            var v = w;
            v.dereference();
            auto pair = [&](void* mo, void* ac) { sim::Host hs; if (to.count(mo) ? to[mo] != ac : from.count(ac) > 0) return false; to[mo] = ac; from[ac] = mo; return true; };
            auto say = [&](const str& s) { sim::Host hs; return at + " " + s; };
            if (v.defined() == x.nil()) return say(x.nil() ? "is defined" : "is not defined");
            if (x.nil()) return "";
            IHeap* hp = v.heap();
            if (x.scalar())
            {
                if (hp || (int)v.type() != x.t) return say("is not a number of its type");
                C y = scalarOf(v);
                return same(y, x.x) ? "" : say("is " + show(y) + " instead of " + show(x.x));
            }
            if (!hp) return say("is a number");
            if (x.l)
            {
                if ((int)v.atype() != (x.l->map ? TYPE_PAIR : TYPE_VAR) || v.size() != (int)x.l->e.size()) return say("is not a list of that size");
                if (!pair(x.l.get(), hp)) return say("is another list than expected");
                for (int i = 0; i < (int)x.l->e.size(); i++)
                {
                    if (x.l->map) { var k = v.key(i); bool ok = !strcmp(k.str(), x.l->k[i].c_str()); if (!ok) return say("has another key"); }
                    str b = differs(x.l->e[i], v.at(i), say("element " + num(i)), to, from, seen);
                    if (!b.empty()) return b;
                }
                return "";
            }
            bool vw = hp->view();
            if (vw != !!x.v) return say(vw ? "is a view" : "is not a view");
            if ((int)v.atype() != x.type()) return say("has elements of type " + num(v.atype()) + " instead of " + num(x.type()));
            if (vw)
            {
                if (!pair(x.v.get(), hp)) return say("is another view than expected");
                Shape s;
                for (int d = 0; d < hp->dim(); d++) s.push_back(hp->shape(d));
                if (s != x.v->shape || hp->offset() != x.v->off) { str q; for (int d : s) q += num(d) + " "; return say("has shape " + q + "at " + num(hp->offset())); }
                long st = 1;
                for (int d = (int)s.size() - 1; d >= 0; d--) { if (hp->stride(d) != st) return say("has a wrong stride"); st *= s[d]; }
            }
            IHeap* base = vw ? (IHeap*)hp->view() : hp;
            if (!pair(x.base().get(), base)) return say("is another array than expected");
            if (base->size() != (int)x.base()->e.size()) return say("has an array of another size");
            { sim::Host hs; if (!seen.insert(base).second) return ""; }
            for (int i = 0; i < base->size(); i++)
                if (!same(raw(base, x.type(), i), x.base()->e[i])) return say("element " + num(i - x.off()) + " is " + show(raw(base, x.type(), i)) + " instead of " + show(x.base()->e[i]));
            return "";
        }
        str differs(const State& s)
        {
            str bad;
            std::map<void*, void*> to, from;
            std::set<void*> seen;
            sim::Outcome o = sim::sut([&] { for (int i = 0; i < NH && bad.empty(); i++) { str b = differs(s[i], *h[i], "handle " + num(i), to, from, seen); sim::Host hs; bad = b; } });
            if (!o.ok()) bad = "reading raised " + o.what.substr(0, 200);
            return bad;
        }
        // what the handles are now, taking over identities from the expected state
        void adopt(int r, const var& v, Known& k) { m[r] = capture(v, k); }
    };

    // An operation: how it is to end, what it is to leave, and how it is done
    struct Act
    {
        St st = SKIP;
        bool made = false;                       // gives a new value (to handle c)
        Hd result;                               // which is this one, within tolerance
        State after;                             // otherwise: all handles afterwards
        std::map<std::pair<Buf*, long>, double> scale;  // tolerance of elements (of result or after), 1 if not given
        std::function<var()> f;
        bool partial = false;                    // may have done some elements when it fails for a reason other than memory
        std::function<str(const Hd&)> judge;     // decides the result instead of comparing it
    };
    Shape withLast(Shape s, int n) { s.back() = n; return s; }
    Hd mk(int t, const std::vector<C>& e) { Hd h; h.b = BP(new Buf{ t, e }); return h; }
    Hd mkView(int t, const Shape& s) { Hd h; h.v = VP(new Vw{ BP(new Buf{ t, std::vector<C>(sizeOf(s)) }), 0, s }); return h; }
    Hd mkNum(int t, C x) { if (t == TYPE_CDOUBLE) return mk(t, { x }); Hd h; h.t = t; h.x = x; return h; }
    Hd like(const Hd& a) { return a.v ? mkView(a.type(), a.v->shape) : mk(a.type(), std::vector<C>(a.size())); }
    bool overlap(const Hd& a, const Hd& b) { return a.dense() && b.dense() && a.base() == b.base() && a.off() < b.off() + b.size() && b.off() < a.off() + a.size(); }
    bool single(const Hd& a) { return a.scalar() || (a.dense() && a.size() == 1 && a.shape().size() == 1); }

    struct Doer
    {
        Run& r;
        const Line& l;
        str A(size_t k) { return k < l.size() ? l[k] : ""; }
        int H(size_t k) { return std::abs((int)toi(A(k))) % NH; }
        var& hv(int i) { return *r.h[i]; }

        // elements of a into those of target (a new value, or part of the state)
        bool elementwise(Act& a, const Hd& x, Hd& target, const std::function<St(int, C, C&, double&)>& g)
        {
            St all = MUST;
            for (long i = 0; i < x.size(); i++)
            {
                C w, q;
                double s = 1;
                St st = g(x.type(), x.at(i), w, s);
                if (st == SKIP) return false;
                if (st != MUST) all = st;
                if (!fit(target.type(), w, q)) return false;
                target.at(i) = q;
                a.scale[{ target.base().get(), target.off() + i }] = s;
            }
            a.st = all;
            return true;
        }
        Act unaryOp()
        {
            // u <fn> <form> <a> <c>
            Act a;
            str fn = A(1), form = A(2);
            int ia = H(3), ic = H(4);
            const Hd& x = r.m[ia];
            UnaryFunctor* f = fn == "sin" ? (UnaryFunctor*)&libube::sin : fn == "cos" ? (UnaryFunctor*)&libube::cos : fn == "tan" ? (UnaryFunctor*)&libube::tan : fn == "atan" ? (UnaryFunctor*)&libube::atan
                : fn == "floor" ? (UnaryFunctor*)&libube::floor : fn == "sqrt" ? (UnaryFunctor*)&libube::sqrt : fn == "log" ? (UnaryFunctor*)&libube::log : fn == "exp" ? (UnaryFunctor*)&libube::exp
                : fn == "real" ? (UnaryFunctor*)&libube::real : fn == "imag" ? (UnaryFunctor*)&libube::imag : fn == "abs" ? (UnaryFunctor*)&libube::abs : fn == "arg" ? (UnaryFunctor*)&libube::arg
                : fn == "norm" ? (UnaryFunctor*)&libube::norm : 0;
            if (!f || x.nil()) return a;
            auto g = [&](int t, C v, C& w, double& s) { if (!unary(fn, t, v, w)) return THROW; s = std::abs(w); return MUST; };
            if (form == "new")
            {
                a.made = true;
                a.f = [f, this, ia] { return (*f)(hv(ia)); };
                if (x.scalar())
                {
                    C w;
                    if (!unary(fn, x.t, x.x, w)) { a.st = THROW; return a; }
                    int t = toReal(fn) ? realOf(x.t) : x.t;
                    C q;
                    fit(t, w, q);
                    a.result = mkNum(t, q);
                    a.st = MUST;
                    return a;
                }
                if (x.dense())
                {
                    if (!x.size()) return a;
                    if (!realOf(x.type()) || (isCplx(x.type()) && fn == "floor")) { a.st = THROW; return a; }
                    if (x.type() == TYPE_CDOUBLE && x.size() == 1 && !x.v)      // a number of its own
                    {
                        C w;
                        unary(fn, TYPE_CDOUBLE, x.at(0), w);
                        a.result = toReal(fn) ? mkNum(TYPE_DOUBLE, w) : mk(TYPE_CDOUBLE, { w });
                        a.st = MUST;
                        return a;
                    }
                    if (x.type() == TYPE_CDOUBLE && x.size() == 1) return a;
                    Hd t = toReal(fn) ? mkView(realOf(x.type()), x.shape()) : like(x);
                    if (!elementwise(a, x, t, g)) { a.st = SKIP; return a; }
                    a.result = t;
                    return a;
                }
                if (toReal(fn)) return a;
                // a list or map of numbers
                LP t(new Lst); t->map = x.l->map; t->k = x.l->k;
                a.st = MUST;
                for (auto& e : x.l->e)
                {
                    C w;
                    if (!e.scalar()) return Act();
                    if (!unary(fn, e.t, e.x, w)) { a.st = THROW; break; }
                    fit(e.t, w, w);
                    t->e.push_back(mkNum(e.t, w));
                }
                a.result.l = t;
                return a;
            }
            if (form == "in") ic = ia;
            const Hd& c = r.m[ic];
            a.after = clone(r.m);
            a.partial = x.l || c.l;
            a.f = [f, this, ia, ic] { (*f)(hv(ia), hv(ic)); return var(); };
            Hd& t = a.after[ic];
            if (x.scalar())
            {
                if (c.dense() || c.l) return Act();
                C w;
                if (!unary(fn, x.t, x.x, w)) { a.st = THROW; return a; }
                int ty = toReal(fn) ? realOf(x.t) : x.t;
                C q;
                fit(ty, w, q);
                t = mkNum(ty, q);
                a.st = MUST;
                return a;
            }
            if (x.dense())
            {
                if (!x.size() || (x.type() == TYPE_CDOUBLE && x.size() == 1)) return Act();
                if (!c.dense() || c.size() != x.size()) { a.st = THROW; if (c.l) return Act(); return a; }
                if (ia != ic && overlap(x, c) && !(x.off() == c.off())) return Act();
                if (!realOf(x.type()) || (isCplx(x.type()) && fn == "floor")) { a.st = THROW; return a; }
                if (isCplx(x.type()) && !isCplx(c.type()) && !toReal(fn)) return Act();
                if (c.type() == TYPE_CDOUBLE && c.size() == 1) return Act();
                if (!elementwise(a, x, t, g)) return Act();
                if (c.shape() != x.shape()) a.st = MAY;
                return a;
            }
            if (ia != ic || toReal(fn)) return Act();
            a.st = MUST;
            for (auto& e : t.l->e)
            {
                C w;
                if (!e.scalar()) return Act();
                if (!unary(fn, e.t, e.x, w)) { a.st = THROW; break; }
                fit(e.t, w, w);
                e.x = w;
            }
            return a;
        }
        // the right operand: h<i> a handle, e<i>:<k> an element of one, i<n> d<x> f<x> z<x> numbers
        bool operand(const str& s, Hd& y, std::function<var()>& get)
        {
            if (s.empty()) return false;
            if (s[0] == 'h') { int i = std::abs((int)toi(s.substr(1))) % NH; y = r.m[i]; get = [this, i] { return hv(i); }; return !y.nil(); }
            if (s[0] == 'e')
            {
                size_t c = s.find(':');
                int i = std::abs((int)toi(s.substr(1))) % NH;
                long k = c == str::npos ? 0 : toi(s.substr(c + 1));
                const Hd& q = r.m[i];
                if (!q.dense() || k < 0 || k >= q.size() || q.type() == TYPE_CDOUBLE) return false;
                y = mkNum(q.type(), q.at(k));
                get = [this, i, k] { return hv(i).at((int)k); };
                return true;
            }
            const char* p = strchr(TC, s[0]);
            int t = p && s[0] != '?' ? (int)(p - TC) : (int)TYPE_INT;
            C v;
            if (!fit(t, C(atof(s.c_str() + 1)), v)) return false;
            y = mkNum(t, v);
            get = [t, v] { return number(t, v); };
            return true;
        }
        Act binaryOp()
        {
            // b <fn> <form> <a> <operand> <c>
            Act a;
            str fn = A(1), form = A(2);
            int ia = H(3), ic = H(5);
            Hd y;
            std::function<var()> get;
            ArithmeticFunctor* f = fn == "add" ? (ArithmeticFunctor*)&libube::add : fn == "sub" ? (ArithmeticFunctor*)&libube::sub : fn == "mul" ? (ArithmeticFunctor*)&libube::mul : fn == "div" ? (ArithmeticFunctor*)&libube::div : fn == "pow" ? (ArithmeticFunctor*)&libube::pow : 0;
            const Hd& x = r.m[ia];
            if (!f || x.nil() || !operand(A(4), y, get) || y.l) return a;
            bool op = A(6) == "op" && fn != "pow";       // by operator
            if (form == "new")
            {
                a.made = true;
                if (op) a.f = [=] { return fn == "add" ? hv(ia) + get() : fn == "sub" ? hv(ia) - get() : fn == "mul" ? hv(ia) * get() : hv(ia) / get(); };
                else a.f = [=] { return (*f)(hv(ia), get()); };
            }
            else
            {
                if (form == "in") ic = ia;
                if (r.m[ic].nil()) return a;
                a.after = clone(r.m);
                if (op && ic == ia) a.f = [=] { var& v = hv(ia); if (fn == "add") v += get(); else if (fn == "sub") v -= get(); else if (fn == "mul") v *= get(); else v /= get(); return var(); };
                else a.f = [=] { (*f)(hv(ia), get(), hv(ic)); return var(); };
            }
            const Hd& c = r.m[ic];
            bool fits = single(y);
            C k = y.scalar() ? y.x : fits ? y.at(0) : C();
            if (x.scalar() || (x.type() == TYPE_CDOUBLE && x.dense() && x.size() == 1 && !x.v))
            {
                if (y.type() == TYPE_CHAR) return Act();
                if (!fits) { if (y.size() == 1 || y.type() == TYPE_CDOUBLE) return Act(); a.st = THROW; return a; }
                int t = x.type();
                C w;
                double s = 1;
                if ((isCplx(y.type()) && !isCplx(t)) || y.type() == TYPE_CHAR) return Act();
                St st = arith(fn, t, x.scalar() ? x.x : x.at(0), k, w, s);
                if (st == SKIP) return Act();
                a.st = st;
                if (st == THROW) return a;
                if (a.made) { a.result = mkNum(t, w); if (a.result.dense()) a.scale[{ a.result.base().get(), 0 }] = s; return a; }
                if (ic != ia)
                {
                    if (fn == "pow" || c.l) return Act();
                    if (c.nil() || c.type() != t || c.size() != 1) { a.st = THROW; return a; }
                    if (c.v) return Act();
                    if (c.dense()) { a.after[ic].at(0) = w; a.scale[{ a.after[ic].base().get(), 0 }] = s; a.st = MAY; } else a.after[ic].x = w;
                    return a;
                }
                if (t == TYPE_CDOUBLE)
                {
                    if (fn == "pow") return Act();
                    a.after[ic].at(0) = w; a.scale[{ a.after[ic].base().get(), 0 }] = s;
                }
                else a.after[ic].x = w;
                return a;
            }
            if (fn == "pow" && x.type() == TYPE_CDOUBLE && x.size() == 1) return Act();
            if (x.l)
            {
                if (!fits || (!a.made && ic != ia) || y.type() == TYPE_CHAR || isCplx(y.type())) return Act();
                a.partial = true;
                LP t(new Lst); t->map = x.l->map; t->k = x.l->k;
                a.st = MUST;
                for (auto& e : x.l->e)
                {
                    if (!e.scalar() || e.t == TYPE_CHAR) return Act();
                    C w;
                    double s;
                    St st = arith(fn, e.t, e.x, k, w, s);
                    if (st == SKIP) return Act();
                    if (st == THROW) { a.st = THROW; break; }
                    t->e.push_back(mkNum(e.t, w));
                }
                if (fn == "mul") a.st = MAY;
                if (a.made) a.result.l = t; else if (a.st != THROW) for (size_t i = 0; i < t->e.size(); i++) a.after[ic].l->e[i] = t->e[i];
                return a;
            }
            int t = x.type();
            if (y.type() == TYPE_CHAR && !y.scalar() && t != TYPE_CHAR) return Act();
            if (t == TYPE_CHAR && y.dense()) return Act();
            if (isCplx(y.type()) && !isCplx(t)) return Act();
            Shape sx = x.shape(), sy = y.shape();
            bool tiles = y.type() == t && y.dense() && sy.size() <= sx.size() && std::equal(sy.begin(), sy.end(), sx.end() - sy.size());
            if (!fits && !tiles) { if (x.size() == 1 && (y.size() == 1 || (x.type() == TYPE_CDOUBLE && y.type() == TYPE_CDOUBLE))) return Act(); a.st = THROW; return a; }
            if (!a.made)
            {
                if (!c.dense() || c.size() != x.size()) { if (c.l) return Act(); a.st = THROW; if (c.scalar()) return Act(); return a; }
                // the output may be one of the operands, whole, but not something that straddles them
                auto alias = [](const Hd& p, const Hd& q) { return p.base() == q.base() && p.off() == q.off() && p.size() == q.size() && p.type() == q.type() && p.shape() == q.shape(); };
                if (ic != ia && overlap(c, x) && !alias(c, x)) return Act();
                if (ic != ia && overlap(c, y) && (fits || !alias(c, y))) return Act();
                if (ic == ia && overlap(x, y) && !fits && !(x.off() == y.off() && x.size() == y.size())) return Act();
                if (isCplx(t) && !isCplx(c.type())) return Act();
            }
            Hd fresh = like(x);
            Hd& target = a.made ? fresh : a.after[ic];
            long n = 0;
            if (!elementwise(a, x, target, [&](int ty, C v, C& w, double& s) { C q = fits ? k : y.at(n++ % y.size()); return arith(fn, ty, v, q, w, s); })) return Act();
            if (a.made) a.result = fresh;
            if (a.st == THROW) return a;
            // what is required, and what may also be refused
            bool ok = fits ? (fn == "mul" ? isReal(t) : true) : (isReal(t) && fn != "div" && fn != "pow") || (isCplx(t) && fn == "add");
            if (y.dense() && fits && y.type() != t && !y.scalar()) ok = false;
            if (!a.made && ic != ia && (c.type() != t || c.shape() != x.shape())) ok = false;
            if (!ok) a.st = MAY;
            return a;
        }
        // the same operation, but with the result into a handle which fits and shares nothing with the operands
        Act into(const Act& b, int ic, std::vector<int> from, const std::function<void(var&)>& call)
        {
            if (!b.made || b.judge || b.st == SKIP) return Act();
            Act a;
            const Hd &c = r.m[ic], &w = b.result;
            for (int i : from) if (i == ic || overlap(c, r.m[i])) return a;
            a.after = clone(r.m);
            a.f = [=] { call(hv(ic)); return var(); };
            a.st = b.st;
            if (c.nil() || c.l) return Act();
            if (b.st == THROW) return a;
            if (c.dense() && w.dense() && c.size() != w.size() && w.size() > 1) { a.st = THROW; return a; }
            if (c.type() != w.type() || c.scalar() != w.scalar() || c.shape() != w.shape()) return Act();
            if (w.scalar()) { a.after[ic].x = w.x; a.scale[{ 0, ic }] = b.scale.empty() ? std::abs(w.x) : b.scale.begin()->second; return a; }
            if (!w.dense()) return Act();
            for (long i = 0; i < w.size(); i++)
            {
                Hd& t = a.after[ic];
                t.at(i) = w.at(i);
                auto sc = b.scale.find({ w.base().get(), w.off() + i });
                if (sc != b.scale.end()) a.scale[{ t.base().get(), t.off() + i }] = sc->second;
            }
            return a;
        }
        Act setOp()
        {
            // set <a> <operand> [<out>]: all elements become those of the operand
            Act a;
            int ia = H(1), ic = l.size() > 3 ? H(3) : ia;
            Hd y;
            std::function<var()> get;
            const Hd& x = r.m[ia];
            if (!x.dense() || !operand(A(2), y, get) || y.l) return a;
            if (y.type() == TYPE_CHAR && x.type() != TYPE_CHAR) return a;
            if (x.type() == TYPE_CHAR && y.dense() && y.type() != TYPE_CHAR) return a;
            a.after = clone(r.m);
            if (ic != ia && r.m[ic].dense() && r.m[ic].size() != x.size() && y.type() == x.type() && !overlap(r.m[ic], x) && !overlap(r.m[ic], y))
            {
                a.f = [=] { libube::set(hv(ia), get(), hv(ic)); return var(); };
                a.st = THROW;
                return a;
            }
            if (ic != ia && (!r.m[ic].dense() || r.m[ic].type() != x.type() || r.m[ic].shape() != x.shape() || overlap(r.m[ic], x) || overlap(r.m[ic], y))) return Act();
            a.f = [=] { libube::set(hv(ia), get(), hv(ic)); return var(); };
            bool fits = single(y);
            C k = y.scalar() ? y.x : fits ? y.at(0) : C();
            Shape sx = x.shape(), sy = y.shape();
            bool tiles = y.type() == x.type() && y.dense() && sy.size() <= sx.size() && std::equal(sy.begin(), sy.end(), sx.end() - sy.size());
            if (!fits && !tiles) { if (x.size() == 1 && (y.size() == 1 || (x.type() == TYPE_CDOUBLE && y.type() == TYPE_CDOUBLE))) return Act(); a.st = THROW; return a; }
            if (overlap(x, y) && !fits && !(x.off() == y.off() && x.size() == y.size())) return Act();
            a.st = fits && y.dense() && y.type() != x.type() ? MAY : MUST;
            for (long i = 0; i < x.size(); i++) { C q; if (!fit(x.type(), fits ? k : y.at(i % y.size()), q)) return Act(); a.after[ic].at(i) = q; }
            if (x.type() == TYPE_CDOUBLE && x.size() == 1 && !x.v) a.st = MAY;
            return a;
        }
        Act swapOp()
        {
            Act a;
            int ia = H(1), ib = H(2);
            const Hd &x = r.m[ia], &y = r.m[ib];
            if (!x.dense() || !y.dense() || overlap(x, y)) return a;
            a.after = clone(r.m);
            a.f = [=] { libube::swap(hv(ia), hv(ib), hv(ia)); return var(); };
            if (x.type() != y.type() || x.shape() != y.shape()) { a.st = THROW; if (x.type() == y.type() && x.size() == y.size()) return Act(); return a; }
            for (long i = 0; i < x.size(); i++) std::swap(a.after[ia].at(i), a.after[ib].at(i));
            a.st = isInt(x.type()) ? MAY : MUST;
            return a;
        }
        Act reduceOp()
        {
            // r <sum|asum|iamax> <a> <c>
            Act a;
            str fn = A(1);
            int ia = H(2);
            const Hd& x = r.m[ia];
            if (x.scalar() && (fn == "sum" || fn == "asum") && isReal(x.t))
            {
                // of a number on its own, if it is taken
                a.made = true;
                a.f = [=] { return fn == "sum" ? libube::sum(hv(ia)) : libube::asum(hv(ia)); };
                a.result = mkNum(x.t, fn == "sum" ? x.x : C(std::abs(x.x)));
                a.scale[{ 0, 0 }] = std::abs(x.x);
                a.st = MAY;
                return a;
            }
            if (!x.dense() || x.size() == 0) return a;
            int t = x.type();
            a.made = true;
            if (fn == "sum") a.f = [=] { return libube::sum(hv(ia)); };
            else if (fn == "asum") a.f = [=] { return libube::asum(hv(ia)); };
            else if (fn == "iamax") a.f = [=] { return libube::iamax(hv(ia)); };
            else return Act();
            if (isInt(t)) { a.st = THROW; return a; }
            if (t == TYPE_CDOUBLE && x.size() == 1) return Act();
            int n = x.shape().back();
            long rows = x.size() / n;
            bool one = x.shape().size() == 1;
            int rt = fn == "iamax" ? (int)TYPE_LONG : fn == "asum" ? realOf(t) : t;
            Hd res = one ? Hd() : mkView(rt, withLast(x.shape(), 1));
            for (long i = 0; i < rows; i++)
            {
                C s;
                double scale = 0, best = -1;
                for (int j = 0; j < n; j++)
                {
                    C e = x.at(i * n + j);
                    if (!std::isfinite(std::abs(e))) return Act();
                    scale += std::abs(e);
                    if (fn == "sum") s += e;
                    else if (fn == "asum") s += std::fabs(e.real()) + std::fabs(e.imag());
                    else { double q = std::fabs(e.real()) + std::fabs(e.imag()); if (q > best) { best = q; s = j; } }
                }
                if (fn == "iamax" && isCplx(t))
                    for (int j = 0; j < n; j++) { C e = x.at(i * n + j); if (j != (int)s.real() && std::fabs(std::fabs(e.real()) + std::fabs(e.imag()) - best) < 1e-4 * best) return Act(); }   // nearly equal ones: either
                if (one) { res = mkNum(rt, s); if (res.dense()) a.scale[{ res.base().get(), 0 }] = scale; else if (!isInt(rt)) { C q; fit(rt, s, q); res.x = q; a.scale[{ 0, 0 }] = scale; } }
                else { res.at(i) = s; a.scale[{ res.base().get(), i }] = scale; }
            }
            a.result = res;
            a.st = isCplx(t) && fn == "asum" ? MAY : MUST;
            return a;
        }
        Act dotOp()
        {
            Act a;
            int ia = H(1), ib = H(2);
            const Hd &x = r.m[ia], &y = r.m[ib];
            if (!x.dense() || !y.dense() || !x.size() || !y.size()) return a;
            int t = x.type();
            a.made = true;
            a.f = [=] { return libube::dot(hv(ia), hv(ib)); };
            Shape sx = x.shape(), sy = y.shape();
            for (long i = 0; i < x.size(); i++) if (!std::isfinite(std::abs(x.at(i)))) return Act();
            for (long i = 0; i < y.size(); i++) if (!std::isfinite(std::abs(y.at(i)))) return Act();
            if (isInt(t) || t != y.type() || sy.size() > 2 || sy.size() > sx.size() || sx.back() != sy[0]) { a.st = THROW; return a; }
            if (t == TYPE_CDOUBLE && (x.size() == 1 || y.size() == 1)) return Act();
            int n = sy[0], cols = sy.size() == 2 ? sy[1] : 1;
            long rows = x.size() / n;
            bool one = sx.size() == 1;
            Hd res = one ? Hd() : mkView(t, withLast(sx, cols));
            for (long i = 0; i < rows; i++)
                for (int c = 0; c < cols; c++)
                {
                    C s;
                    double scale = 0;
                    for (int j = 0; j < n; j++) { C p = x.at(i * n + j), q = y.at((long)j * cols + c); s += std::conj(p) * q; scale += std::abs(p) * std::abs(q); }
                    C w;
                    fit(t, s, w);
                    if (one) { res = mkNum(t, w); a.scale[{ res.base().get(), 0 }] = scale; }
                    else { res.at(i * cols + c) = w; a.scale[{ res.base().get(), i * cols + c }] = scale; }
                }
            a.result = res;
            a.st = isCplx(t) && sy.size() == 2 ? THROW : MUST;
            return a;
        }
        Act transposeOp()
        {
            // t <form> <a> <c>
            Act a;
            int ia = H(2);
            bool in = A(1) == "in";
            const Hd& x = r.m[ia];
            if (!x.dense() || !x.size()) return a;
            if (in) a.after = clone(r.m); else a.made = true;
            if (in) a.f = [=] { libube::transpose(hv(ia), hv(ia)); return var(); };
            else a.f = [=] { return libube::transpose(hv(ia)); };
            Shape s = x.shape();
            int d = (int)s.size();
            if (d < 2) { a.st = THROW; return a; }
            int rows = s[d - 2], cols = s[d - 1];
            std::swap(s[d - 2], s[d - 1]);
            Hd res = mkView(x.type(), s);
            Hd& t = in ? a.after[ia] : res;
            for (long k = 0; k < x.size() / (rows * cols); k++)
                for (int i = 0; i < rows; i++)
                    for (int j = 0; j < cols; j++) t.at(k * rows * cols + j * rows + i) = x.at(k * rows * cols + i * cols + j);
            if (in) t.v->shape = s;
            a.result = res;
            a.st = isReal(x.type()) ? MUST : MAY;
            if (in && a.st == MAY) a.partial = false;
            return a;
        }
        Act sortOp()
        {
            Act a;
            int ia = H(2);
            bool in = A(1) == "in";
            const Hd& x = r.m[ia];
            if (!x.dense() || !x.size() || x.shape().back() == 0) return a;
            for (long i = 0; i < x.size(); i++) if (std::isnan(x.at(i).real())) return a;
            if (in) a.after = clone(r.m); else a.made = true;
            if (in) a.f = [=] { libube::sort(hv(ia), hv(ia)); return var(); };
            else a.f = [=] { return libube::sort(hv(ia)); };
            if (isCplx(x.type())) { a.st = THROW; return a; }
            Hd res = like(x);
            Hd& t = in ? a.after[ia] : res;
            int n = x.shape().back();
            for (long k = 0; k < x.size() / n; k++)
            {
                std::vector<C> e;
                for (int j = 0; j < n; j++) e.push_back(x.at(k * n + j));
                std::sort(e.begin(), e.end(), [](C p, C q) { return p.real() < q.real(); });
                for (int j = 0; j < n; j++) t.at(k * n + j) = e[j];
            }
            a.result = res;
            a.st = in ? MUST : MAY;
            return a;
        }
        Act concatOp()
        {
            // cat <c> <h>...
            Act a;
            std::vector<int> hs;
            for (size_t k = 2; k < l.size(); k++) hs.push_back(H(k));
            if (hs.size() < 2) return a;
            for (int i : hs) if (!r.m[i].dense() || !r.m[i].size() || r.m[i].type() == TYPE_CHAR) return a;
            a.made = true;
            a.f = [=] { var v; for (int i : hs) v.push(hv(i)); if (v.size() != (int)hs.size() || v.atype() != TYPE_VAR) { sim::Host hh; sim::harness("list of operands"); } return libube::concatenate(v); };
            const Hd& x = r.m[hs[0]];
            int last = 0;
            for (int i : hs)
            {
                const Hd& y = r.m[i];
                Shape p = x.shape(), q = y.shape();
                if (y.type() != x.type() || p.size() != q.size() || withLast(p, 1) != withLast(q, 1)) { a.st = THROW; return a; }
                if (y.type() == TYPE_CDOUBLE && y.size() == 1) return Act();
                last += q.back();
            }
            Hd res = mkView(x.type(), withLast(x.shape(), last));
            long rows = x.size() / x.shape().back(), at = 0;
            for (long k = 0; k < rows; k++)
                for (int i : hs) { int n = r.m[i].shape().back(); for (int j = 0; j < n; j++) res.at(at++) = r.m[i].at(k * n + j); }
            a.result = res;
            a.st = isInt(x.type()) ? MAY : MUST;
            return a;
        }
        Act polyOp()
        {
            // p <poly|roots> <a> <c>
            Act a;
            str fn = A(1);
            int ia = H(2);
            const Hd& x = r.m[ia];
            if (!x.dense() || !x.size()) return a;
            for (long i = 0; i < x.size(); i++) if (!std::isfinite(std::abs(x.at(i))) || std::abs(x.at(i)) > 100) return a;
            int t = x.type(), n = x.shape().back();
            long rows = x.size() / n;
            a.made = true;
            if (isInt(t)) { a.f = [=] { return fn == "poly" ? libube::poly(hv(ia)) : libube::roots(hv(ia)); }; a.st = THROW; return a; }
            if (fn == "poly")
            {
                if (n > 12 || (t == TYPE_CDOUBLE && x.size() == 1)) return Act();
                a.f = [=] { return libube::poly(hv(ia)); };
                Hd res = mkView(t, withLast(x.shape(), n + 1));
                for (long k = 0; k < rows; k++)
                {
                    std::vector<C> c = { 1 };
                    std::vector<double> s = { 1 };
                    for (int j = 0; j < n; j++)
                    {
                        C z = x.at(k * n + j);
                        c.push_back(0); s.push_back(0);
                        for (int q = j + 1; q > 0; q--) { c[q] -= z * c[q - 1]; s[q] += std::abs(z) * s[q - 1]; }
                    }
                    for (int j = 0; j <= n; j++) { C w; fit(t, c[j], w); res.at(k * (n + 1) + j) = w; a.scale[{ res.base().get(), k * (n + 1) + j }] = s[j]; }
                }
                a.result = res;
                a.st = MUST;
                return a;
            }
            a.f = [=] { return libube::roots(hv(ia)); };
            if (n < 2 || n > 9) return Act();
            for (long k = 0; k < rows; k++) if (std::abs(x.at(k * n)) < 0.1) return Act();
            if (isCplx(t)) { a.st = THROW; return a; }
            Hd in = x;
            Memo mm;
            in = clone(x, mm);
            a.st = MUST;
            a.judge = [in, t, n, rows](const Hd& g) -> str {
                if (g.type() != cplxOf(t)) return "roots are of type " + num(g.type());
                if (g.shape() != withLast(in.shape(), n - 1)) return "there are not as many roots as there should be";
                for (long k = 0; k < rows; k++)
                {
                    // their polynomial is the one given, up to its leading coefficient
                    std::vector<C> c = { in.at(k * n) };
                    double s = std::abs(c[0]);
                    for (int j = 0; j + 1 < n; j++)
                    {
                        C z = g.at(k * (n - 1) + j);
                        s *= 1 + std::abs(z);
                        c.push_back(0);
                        for (int q = j + 1; q > 0; q--) c[q] -= z * c[q - 1];
                    }
                    for (int j = 0; j < n; j++)
                        if (std::abs(c[j] - in.at(k * n + j)) > (realOf(t) == TYPE_FLOAT ? 1e-3 : 1e-9) * s) return "coefficient " + num(j) + " of the polynomial of the roots is " + show(c[j]) + " instead of " + show(in.at(k * n + j));
                }
                return "";
            };
            return a;
        }
        Act dftOp()
        {
            // f <fwd|inv> <size> <type> <a> <c> <into>
            Act a;
            bool inv = A(1) == "inv";
            int n = (int)toi(A(2)) % 64, ia = H(4), ic = H(5);
            const char* p = strchr("fdzZ", A(3).empty() ? 'f' : A(3)[0]);
            int t = p && *p ? TYPE_FLOAT + (int)(p - "fdzZ") : TYPE_FLOAT;
            static const int ty[] = { TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE };
            t = ty[p && *p ? p - "fdzZ" : 0];
            const Hd& x = r.m[ia];
            if (!x.dense() || !x.size() || n < 0) return a;
            bool into = A(6) == "into";
            for (long i = 0; i < x.size(); i++) if (!std::isfinite(std::abs(x.at(i))) || std::abs(x.at(i)) > 1e6) return a;
            int it = inv ? cplxOf(t) : t, ot = inv ? t : cplxOf(t), half = n / 2 + 1;
            int in = inv && !isCplx(t) ? half : n, out = !inv && !isCplx(t) ? half : n;
            // an object of its own, or one that stays for the next
            bool keep = A(7) == "keep";
            Run* rr = &r;
            auto call = [=](bool in2, var& o) {
                std::unique_ptr<UnaryFunctor> own;
                UnaryFunctor* f = 0;
                std::unique_ptr<UnaryFunctor>* at;
                { sim::Host hs; at = &rr->kept[{ inv, n, t }]; }
                auto& slot = *at;
                if (keep && slot) { f = slot.get(); sim::count("op.transform.again"); }
                else
                {
                    var ft = number(t, 0);
                    if (inv) own.reset(new IDFT(n, ft)); else own.reset(new DFT(n, ft));
                    f = own.get();
                    if (keep) slot = std::move(own);
                }
                if (in2) { (*f)(hv(ia), o); return var(); }
                return (*f)(hv(ia));
            };
            const Hd& c = r.m[ic];
            if (into)
            {
                if (!c.dense() || ic == ia || overlap(x, c)) return a;
                a.after = clone(r.m);
                a.f = [=] { return call(true, hv(ic)); };
            }
            else { a.made = true; a.f = [=] { var none; return call(false, none); }; }
            if (x.type() == TYPE_CDOUBLE && x.size() == 1) return Act();
            if (n < 1 || x.type() != it || x.shape().back() != in) { a.st = THROW; return a; }
            if (into && (c.type() != ot || c.shape() != withLast(x.shape(), out))) { a.st = THROW; if (c.type() == ot && c.size() == sizeOf(withLast(x.shape(), out))) return Act(); return a; }
            if (ot == TYPE_CDOUBLE && out == 1) return Act();
            long rows = x.size() / in;
            Hd res = mkView(ot, withLast(x.shape(), out));
            Hd& w = into ? a.after[ic] : res;
            for (long k = 0; k < rows; k++)
            {
                std::vector<C> e(n);
                double s = 0;
                for (int j = 0; j < in; j++) { e[j] = x.at(k * in + j); s += std::abs(e[j]); }
                if (inv && !isCplx(t))
                {
                    // the transform of a real signal has no imaginary part at either end
                    if (e[0].imag() != 0 || (n % 2 == 0 && e[n / 2].imag() != 0)) return Act();
                    for (int j = half; j < n; j++) e[j] = std::conj(e[n - j]);
                }
                for (int q = 0; q < out; q++)
                {
                    C sum;
                    for (int j = 0; j < n; j++) sum += e[j] * std::polar(1.0, (inv ? 2 : -2) * M_PI * ((long)q * j % n) / n);
                    if (inv) sum /= n;
                    C v;
                    fit(ot, sum, v);
                    w.at(k * out + q) = v;
                    a.scale[{ w.base().get(), w.off() + k * out + q }] = 2 * s;
                }
            }
            a.result = res;
            a.st = MUST;
            return a;
        }
    };

    void edit(Run& r, const Line& l)
    {
        auto A = [&](size_t k) { return k < l.size() ? l[k] : str(); };
        int a = std::abs((int)toi(A(1))) % NH;
        str op = l[0];
        sim::Outcome o;
        if (op == "make")
        {
            // make <h> <kind> <type> <shape> values...
            const char* p = strchr(TC, A(3).empty() ? 'd' : A(3)[0]);
            int t = p && *p && *p != '?' ? (int)(p - TC) : (int)TYPE_DOUBLE;
            Shape s;
            str c;
            for (char ch : A(4) + "x") if (ch == 'x') { if (c.empty()) break; s.push_back(std::max(0, std::min(500, atoi(c.c_str())))); c.clear(); } else c += ch;
            if (s.empty()) s = { 1 };
            if (sizeOf(s) > 6000) return;
            std::vector<C> v;
            for (size_t k = 5; k < l.size(); k++) { size_t q = l[k].find(','); C x(atof(l[k].c_str()), q == str::npos ? 0 : atof(l[k].c_str() + q + 1)); C y; if (!fit(t, x, y)) return; v.push_back(y); }
            if (v.empty()) v.push_back(1);
            str kind = A(2);
            // a part has elements of no concern before and behind it
            bool part = kind == "part";
            std::vector<C> e(kind == "scalar" ? 1 : part ? 3 + 2 * sizeOf(s) + 4 : sizeOf(s));
            for (size_t i = 0; i < e.size(); i++) e[i] = v[i % v.size()];
            Hd n;
            o = sim::sut([&] {
                var x;
                if (kind == "scalar") x = number(t, e[0]);
                else if (kind == "list") { for (size_t i = 0; i < e.size(); i++) x[(int)i] = number(t == TYPE_CDOUBLE ? (int)TYPE_DOUBLE : i % 2 ? (int)TYPE_DOUBLE : t, e[i]); }
                else if (kind == "map") { for (size_t i = 0; i < e.size(); i++) { char k[8]; snprintf(k, sizeof k, "k%02zu", i); x[k] = number(t == TYPE_CDOUBLE ? (int)TYPE_DOUBLE : t, e[i]); } }
                else x = build(t, e);
                if (kind == "view") { var sh; for (int d : s) sh.push(d); x = x.view(sh); }
                if (part) { var sh; for (int d : s) sh.push(d); x = x.view(sh, 3); }
                r.put(a, x);
                Known k;
                // what it shares with others is nothing: it is new
                Hd g = capture(x, k);
                sim::Host hs;
                n = g;
            });
            if (!o.ok()) sim::fail("unexpected-exception", "making a value raised %s", o.what.substr(0, 150).c_str());
            r.m[a] = n;
        }
        else if (op == "share")
        {
            int b = std::abs((int)toi(A(2))) % NH;
            if (a == b) return;
            sim::sut([&] { r.put(a, *r.h[b]); });
            r.m[a] = r.m[b];
        }
        else if (op == "view")
        {
            // view <h> <src> <shape> <off>
            int b = std::abs((int)toi(A(2))) % NH;
            const Hd& q = r.m[b];
            if (!q.dense() || a == b) return;
            Shape s;
            str c;
            for (char ch : A(3) + "x") if (ch == 'x') { if (c.empty()) break; s.push_back(atoi(c.c_str()) % 500); c.clear(); } else c += ch;
            int off = (int)toi(A(4));
            for (int d : s) if (d < 1) return;
            if (s.empty() || off < 0 || off + sizeOf(s) > q.size()) return;
            o = sim::sut([&] { var sh; for (int d : s) sh.push(d); var x = r.h[b]->view(sh, off); r.put(a, x); });
            if (!o.ok()) sim::fail("unexpected-exception", "a view raised %s", o.what.substr(0, 150).c_str());
            Hd n;
            n.v = VP(new Vw{ q.base(), q.off() + off, s });
            r.m[a] = n;
        }
        else if (op == "drop") { sim::sut([&] { r.put(a, nil); }); r.m[a] = Hd(); }
        else if (op == "poke")
        {
            Hd& q = r.m[a];
            long i = toi(A(2));
            C v;
            if (!q.dense() || i < 0 || i >= q.size() || !fit(q.type(), C(atof(A(3).c_str())), v)) return;
            if (q.type() == TYPE_CDOUBLE && q.size() == 1) return;
            sim::sut([&] { r.h[a]->at((int)i) = number(q.type(), v); });
            q.at(i) = v;
        }
        else return;
        sim::count(("op." + op).c_str());
    }

    void run(const Plan& p)
    {
        Run r;
        long oom = 0, burst = 1;
        int step = 0;
        for (auto& l : p.lines)
        {
            if (l[0] == "oom" && l.size() > 2) { oom = std::max(1l, toi(l[1])); burst = toi(l[2]); continue; }
            Doer d{ r, l };
            Act a;
            bool is = true;
            if (l[0] == "u") a = d.unaryOp();
            else if (l[0] == "b") a = d.binaryOp();
            else if (l[0] == "set") a = d.setOp();
            else if (l[0] == "swap") a = d.swapOp();
            else if (l[0] == "r")
            {
                a = d.reduceOp();
                int x = d.H(2);
                str fn = l.size() > 1 ? l[1] : "";
                if (d.A(4) == "into") a = d.into(a, d.H(3), { x }, [=, &d](var& o) { if (fn == "sum") libube::sum(d.hv(x), o); else if (fn == "asum") libube::asum(d.hv(x), o); else libube::iamax(d.hv(x), o); });
            }
            else if (l[0] == "dot")
            {
                a = d.dotOp();
                int x = d.H(1), y = d.H(2);
                if (d.A(4) == "into") a = d.into(a, d.H(3), { x, y }, [=, &d](var& o) { libube::dot(d.hv(x), d.hv(y), o); });
            }
            else if (l[0] == "t")
            {
                a = d.transposeOp();
                int x = d.H(2);
                if (d.A(4) == "into" && d.A(1) != "in") a = d.into(a, d.H(3), { x }, [=, &d](var& o) { libube::transpose(d.hv(x), o); });
            }
            else if (l[0] == "sort") a = d.sortOp();
            else if (l[0] == "cat") a = d.concatOp();
            else if (l[0] == "cati")
            {
                a = d.concatOp();
                std::vector<int> hs;
                for (size_t k = 2; k < l.size(); k++) hs.push_back(d.H(k));
                a = d.into(a, d.H(1), hs, [=, &d](var& o) { var v; for (int i : hs) v.push(d.hv(i)); if (v.size() != (int)hs.size() || v.atype() != TYPE_VAR) { sim::Host hh; sim::harness("list of operands"); } libube::concatenate(v, o); });
            }
            else if (l[0] == "p")
            {
                a = d.polyOp();
                int x = d.H(2);
                if (d.A(4) == "into" && d.A(1) == "roots")
                {
                    // of the right length it is judged above
                    int c = d.H(3);
                    const Hd &from = r.m[x], &to = r.m[c];
                    if (a.st == SKIP || !from.dense() || !to.dense() || c == x || overlap(from, to) || from.shape().size() != 1 || to.size() == from.size() - 1) a = Act();
                    else { a = Act(); a.after = clone(r.m); a.st = THROW; a.f = [=, &d] { libube::roots(d.hv(x), d.hv(c)); return var(); }; }
                }
                if (d.A(4) == "into" && d.A(1) == "poly") a = d.into(a, d.H(3), { x }, [=, &d](var& o) { libube::poly(d.hv(x), o); });
            }
            else if (l[0] == "f") a = d.dftOp();
            else { edit(r, l); is = false; }
            str what;
            for (auto& t : l) what += (what.empty() ? "" : " ") + t;
            if (is && (a.st == SKIP || !a.f)) { sim::count("op.skipped"); continue; }
            if (is)
            {
                std::unique_ptr<var> res(new var);
                bool faulty = oom > 0;
                if (sim::verbose()) { str u; for (int i = 0; i < NH; i++) u += num(i) + "=" + show(r.m[i]) + " "; sim::trace("%s # %s", what.c_str(), u.c_str()); }
                bool again = false, undone = true;
                do
                {
                    again = false;
                    if (faulty) sim::alloc::failAt(oom, burst);
                    sim::Outcome o = sim::sut([&] { { var v = a.f(); *res = v; } });
                    sim::alloc::heal();
                    sim::count(("op." + l[0]).c_str());
                    if (o.kind == sim::NOMEM)
                    {
                        if (!faulty) sim::fail("unexpected-exception", "%s: out of memory", what.c_str());
                        sim::count("op.nomem");
                    }
                    if (o.ok())
                    {
                        if (a.st == THROW) sim::fail("accepted", "%s is accepted (%s)", what.c_str(), (show(r.m[std::abs((int)toi(l.size() > 3 ? l[3] : "0")) % NH])).c_str());
                        break;
                    }
                    // it failed: for a reason, and with nothing altered
                    if (o.kind == sim::THREW && a.st == MUST && !faulty) sim::fail("refused", "%s raised %s", what.c_str(), o.what.substr(0, 150).c_str());
                    if (o.kind == sim::THREW && a.st == MUST) { sim::count("op.odd-refusal"); }
                    sim::count(o.kind == sim::THREW ? "op.refused" : "op.outofmemory");
                    str bad = r.differs(r.m);
                    if (!bad.empty())
                    {
                        undone = false;
                        if (a.made || !(o.kind == sim::NOMEM || a.partial)) sim::fail("altered", "%s failed, and %s", what.c_str(), bad.c_str());
                        // each element of what is changed in place: done or not
                        Known k;
                        State now;
                        sim::sut([&] { for (int i = 0; i < NH; i++) { Hd g = capture(*r.h[i], k); sim::Host hs; now.push_back(g); } });
                        for (int i = 0; i < NH; i++)
                        {
                            const Hd &n = now[i], &b = r.m[i], &w = a.after[i];
                            if (n.dense() != b.dense() || n.type() != b.type() || (n.dense() && n.base()->e.size() != b.base()->e.size())) sim::fail("altered", "%s failed, and handle %d is %s", what.c_str(), i, show(n).c_str());
                            if (n.dense())
                                for (size_t e = 0; e < n.base()->e.size(); e++)
                                {
                                    auto sc = a.scale.find({ w.base().get(), (long)e });
                                    if (!same(n.base()->e[e], b.base()->e[e]) && !near(n.type(), n.base()->e[e], w.base()->e[e], sc == a.scale.end() ? std::abs(w.base()->e[e]) : sc->second))
                                        sim::fail("altered", "%s failed, and element %zu of handle %d is %s, neither %s nor %s", what.c_str(), e, i, show(n.base()->e[e]).c_str(), show(b.base()->e[e]).c_str(), show(w.base()->e[e]).c_str());
                                }
                            else if (n.scalar() && !same(n.x, b.x)) sim::fail("altered", "%s failed, and handle %d is %s", what.c_str(), i, show(n).c_str());
                        }
                        r.m = now;
                    }
                    if (o.kind == sim::NOMEM && undone) { faulty = false; again = true; sim::count("op.retried"); }
                    else if (o.kind == sim::NOMEM || o.kind == sim::THREW) { a.st = SKIP; }
                } while (again);
                oom = 0;
                if (a.st == SKIP || (a.st != MUST && a.st != MAY)) { a.f = nullptr; }
                else
                {
                    // it succeeded?
                    bool done = true;
                    if (a.made) done = res->defined();
                    if (a.made && done)
                    {
                        Hd got;
                        Known k;
                        sim::Outcome o = sim::sut([&] { Hd g = capture(*res, k); sim::Host hs; got = g; });
                        if (!o.ok()) sim::fail("unexpected-exception", "the result of %s cannot be read", what.c_str());
                        str bad = r.differs(r.m);
                        if (!bad.empty()) sim::fail("altered", "%s gives a new value, and %s", what.c_str(), bad.c_str());
                        // its array is its own
                        if (got.dense())
                            for (int i = 0; i < NH; i++)
                            {
                                IHeap *p1 = res->heap(), *p2 = r.h[i]->heap();
                                IHeap *b1 = p1 && p1->view() ? (IHeap*)p1->view() : p1, *b2 = p2 && p2->view() ? (IHeap*)p2->view() : p2;
                                if (b1 && b1 == b2) sim::fail("shared", "the result of %s shares its array with handle %d", what.c_str(), i);
                            }
                        if (a.judge) { str j = a.judge(got); if (!j.empty()) sim::fail("value", "%s: %s", what.c_str(), j.c_str()); }
                        else
                        {
                            const Hd& w = a.result;
                            bool list = got.l && w.l && got.l->e.size() == w.l->e.size() && got.l->map == w.l->map && got.l->k == w.l->k;
                            if (got.scalar() != w.scalar() || got.dense() != w.dense() || !!got.l != !!w.l || (!list && (got.type() != w.type() || got.shape() != w.shape())) || (got.l && !list))
                                sim::fail("shape", "%s gives %s instead of %s", what.c_str(), show(got).c_str(), show(w).c_str());
                            if (list)
                                for (size_t i = 0; i < w.l->e.size(); i++)
                                    if (got.l->e[i].t != w.l->e[i].t || !near(got.l->e[i].t, got.l->e[i].x, w.l->e[i].x, std::abs(w.l->e[i].x))) sim::fail("value", "%s: element %zu is %s instead of %s", what.c_str(), i, show(got.l->e[i]).c_str(), show(w.l->e[i]).c_str());
                            if (w.scalar() && !near(w.t, got.x, w.x, a.scale.empty() ? std::abs(w.x) : a.scale.begin()->second)) sim::fail("value", "%s is %s instead of %s", what.c_str(), show(got.x).c_str(), show(w.x).c_str());
                            if (w.dense())
                                for (long i = 0; i < w.size(); i++)
                                {
                                    auto sc = a.scale.find({ w.base().get(), w.off() + i });
                                    if (!near(w.type(), got.at(i), w.at(i), sc == a.scale.end() ? std::abs(w.at(i)) : sc->second)) sim::fail("value", "%s: element %ld is %s instead of %s", what.c_str(), i, show(got.at(i)).c_str(), show(w.at(i)).c_str());
                                }
                        }
                        // it goes to its handle
                        int c = std::abs((int)toi(l[0] == "cat" ? (l.size() > 1 ? l[1] : "0") : l[0] == "dot" || l[0] == "t" || l[0] == "sort" || l[0] == "r" || l[0] == "p" ? (l.size() > 3 ? l[3] : "0") : l[0] == "b" ? (l.size() > 5 ? l[5] : "0") : l[0] == "f" ? (l.size() > 5 ? l[5] : "0") : (l.size() > 4 ? l[4] : "0"))) % NH;
                        sim::sut([&] { r.put(c, *res); });
                        r.m[c] = got;
                    }
                    else if (!a.made)
                    {
                        // compare with tolerance: shapes and identities exactly, values of what was changed nearly
                        Known k;
                        State now;
                        sim::sut([&] { for (int i = 0; i < NH; i++) { Hd g = capture(*r.h[i], k); sim::Host hs; now.push_back(g); } });
                        for (int i = 0; i < NH; i++)
                        {
                            Hd &n = now[i], &w = a.after[i];
                            if (w.dense() && n.dense() && n.type() == w.type() && n.base()->e.size() == w.base()->e.size())
                                for (size_t e = 0; e < w.base()->e.size(); e++)
                                {
                                    auto sc = a.scale.find({ w.base().get(), (long)e });
                                    if (sc == a.scale.end()) continue;
                                    if (near(w.type(), n.base()->e[e], w.base()->e[e], sc->second)) w.base()->e[e] = n.base()->e[e];
                                }
                            if (w.scalar() && n.scalar() && n.t == w.t && near(w.t, n.x, w.x, std::max(std::abs(w.x), a.scale.count({ 0, i }) ? a.scale[{ 0, i }] : 0))) w.x = n.x;
                            if (w.l && n.l && w.l->e.size() == n.l->e.size())
                                for (size_t e = 0; e < w.l->e.size(); e++) if (w.l->e[e].t == n.l->e[e].t && near(n.l->e[e].t, n.l->e[e].x, w.l->e[e].x, std::abs(w.l->e[e].x))) w.l->e[e].x = n.l->e[e].x;
                        }
                        r.m = a.after;
                    }
                }
                a.f = nullptr;
                sim::sut([&] { res.reset(); });
            }
            str bad = r.differs(r.m);
            if (!bad.empty()) sim::fail("wrong", "after %s %s", what.c_str(), bad.c_str());
            step++;
            str all;
            for (auto& x : r.m) all += show(x) + "|";
            sim::state(sim::hash(all));
            sim::note(sim::hash(all, step));
        }
        sim::sut([&] { if (p.iparam("keepers")) { r.h.clear(); r.kept.clear(); } else { r.kept.clear(); r.h.clear(); } });
    }

    void gen(Rng& r, Plan& p, const str& variant)
    {
        bool lin = variant == "linalg" || (variant == "all" && r.chance(1, 2)), oomy = variant == "oom";
        if (oomy) lin = r.chance(1, 2);
        static const char* un[] = { "sin", "cos", "tan", "atan", "floor", "sqrt", "log", "exp", "real", "imag", "abs", "arg", "norm" };
        static const char* bin[] = { "add", "sub", "mul", "div", "pow", "add", "sub", "mul", "div" };
        // a few shapes which fit together, and some that do not
        int R = r.range(1, 4), K = r.range(1, 5), N = r.range(1, 4), B = r.range(1, 3), F = r.range(1, 17);
        if (r.chance(1, 20)) { R = r.range(1, 20); K = r.range(1, 40); N = r.range(1, 20); F = r.range(18, 140); }
        auto X = [](std::vector<int> v) { str s; for (size_t i = 0; i < v.size(); i++) s += (i ? "x" : "") + num(v[i]); return s; };
        auto shape = [&]() -> str {
            switch (r.below(lin ? 12 : 8))
            {
            case 0: case 1: return X({ K });
            case 2: return X({ R, K });
            case 3: return X({ B, R, K });
            case 4: return X({ N });
            case 5: return X({ r.chance(1, 40) ? r.range(50, 400) : r.range(1, 6) });
            case 6: return X({ R * K });
            case 7: return X({ K, N });
            case 8: return X({ F });
            case 9: return X({ R, F });
            case 10: return X({ F / 2 + 1 });
            default: return X({ R, F / 2 + 1 });
            }
        };
        str favourite(1, "fdfdzZil"[r.below(8)]);
        auto type = [&] { return r.chance(2, 3) ? favourite : str(1, "cilfdzZ"[r.below(7)]); };
        auto H = [&] { return num(r.below(NH)); };
        // numbers which need the whole of their type, within what cannot overflow in a product of three
        bool big = r.chance(1, 3);
        auto wide = [&](const str& t) -> str {
            if (t == "c") return num(r.range(-100, 100));
            if (t == "i") return num(r.chance(1, 2) ? r.range(-1290, 1290) : r.range(-999999999, 999999999));
            if (t == "l") return r.chance(1, 2) ? num(r.range(-200000, 200000)) : num(r.range(-999999, 999999)) + "000000" + num(r.range(100, 999));
            static const char* fr[] = { "0.1", "-0.3", "1.0000001", "16777217", "-3.14159265358979", "1e-3", "12345.678", "2.5e5", "-0.7", "99999.9" };
            return fr[r.below(10)];
        };
        auto scalar = [&]() -> str {
            char t = "ildf"[r.below(4)];
            return str(1, t) + (big && r.chance(1, 2) ? wide(str(1, t)) : num(r.range(-4, 5)));
        };
        bool scalars = !lin && r.chance(1, 4);
        auto makeAs = [&](int h, const str& form, const str& t, const str& s) {
            Line l = { "make", num(h), form == "view" && r.chance(1, 3) ? "part" : form, t, s };
            int n = r.chance(1, 3) ? 1 : r.range(2, 12);
            for (int i = 0; i < n; i++)
            {
                str v = num(r.range(-9, 9));
                if (!lin && big) v = wide(t);
                else if (r.chance(1, 4) && t != "c" && t != "i" && t != "l") v += r.chance(1, 2) ? ".5" : ".25";
                if ((t == "z" || t == "Z") && r.chance(1, 2)) v += "," + num(r.range(-4, 4));
                l.push_back(v);
            }
            p.add(l);
        };
        auto make = [&](int h) {
            str t = type();
            int q = r.below(20);
            makeAs(h, scalars && r.chance(2, 3) ? "scalar" : q < 8 ? "array" : q < 14 ? "view" : q < 16 ? "scalar" : q < 17 ? "list" : q < 18 ? "map" : "view", t, shape());
        };
        int n0 = r.range(2, 4);
        bool keep = r.chance(2, 3);
        if (keep && r.chance(1, 2)) p.add({ "param", "keepers", "1" });
        for (int i = 0; i < n0; i++) make(i);
        int n = r.range(3, 12);
        for (int i = 0; i < n; i++)
        {
            if (oomy ? r.chance(1, 2) : r.chance(1, 6)) p.add({ "oom", num(1 + r.below(r.chance(1, 2) ? 6 : 40)), r.chance(1, 3) ? "-1" : num(r.range(1, 3)) });
            int q = r.below(20);
            if (q < 2) make(r.below(NH));
            else if (q < 3) p.add({ "share", H(), H() });
            else if (q < 5) p.add({ "view", H(), H(), shape(), r.chance(1, 2) ? "0" : num(r.below(6)) });
            else if (q < 6) { if (r.chance(1, 2)) p.add({ "drop", H() }); else p.add({ "poke", H(), num(r.below(8)), num(r.range(-9, 9)) }); }
            else if (!lin && q < 10) p.add({ "u", un[r.below(13)], r.chance(1, 2) ? "new" : r.chance(1, 2) ? "in" : "into", H(), H() });
            else if (!lin && q < 18)
            {
                if (r.chance(1, scalars ? 3 : 20))
                {
                    // two single numbers of every pair of types, one of which needs the whole of its type
                    static const char* ty[] = { "c", "i", "l", "l", "f", "d", "z", "Z" };
                    int a = r.below(NH), b = (a + 1 + r.below(NH - 1)) % NH;
                    str ta = ty[r.below(8)], tb = r.chance(1, 2) ? ta : ty[r.below(8)];
                    int wideOne = r.below(3);
                    p.add({ "make", num(a), "scalar", ta, "1", wideOne == 0 ? wide(ta) : num(r.range(-9, 9)) });
                    p.add({ "make", num(b), "scalar", tb, "1", wideOne == 1 ? wide(tb) : num(r.range(1, 9)) });
                    p.add({ "b", bin[r.below(9)], r.chance(1, 2) ? "new" : "in", num(a), "h" + num(b), H(), r.chance(1, 2) ? "op" : "fn" });
                    continue;
                }
                if (r.chance(1, 6))
                {
                    // made to fit, with a result of the same form, or in one of the operands
                    str t = type(), s = shape();
                    int a = r.below(NH), b = (a + 1 + r.below(NH - 1)) % NH, c = (a + 1 + r.below(NH - 1)) % NH;
                    makeAs(a, r.chance(2, 3) ? "view" : "array", t, s);
                    if (b != c || r.chance(1, 2)) makeAs(b, "view", t, r.chance(3, 4) || b == c ? s : s.substr(s.rfind('x') + 1));
                    if (b != c) { if (r.chance(1, 3)) p.add({ "share", num(c), num(r.chance(1, 2) ? a : b) }); else makeAs(c, "view", t, s); }
                    p.add({ "b", bin[r.below(9)], "into", num(a), "h" + num(b), num(c), r.chance(1, 2) ? "op" : "fn" });
                    continue;
                }
                str o = r.chance(1, 2) ? "h" + H() : r.chance(1, 2) ? "e" + H() + ":" + num(r.below(5)) : scalar();
                p.add({ "b", bin[r.below(9)], r.chance(2, 5) ? "new" : r.chance(3, 4) ? "in" : "into", H(), o, H(), r.chance(1, 2) ? "op" : "fn" });
            }
            else if (!lin && q < 19)
            {
                str o = r.chance(1, 2) ? "h" + H() : r.chance(1, 2) ? "e" + H() + ":" + num(r.below(5)) : scalar();
                Line l = { "set", H(), o };
                if (r.chance(1, 2))
                {
                    // into another one, made to fit
                    str t = type(), s = shape();
                    int a = r.below(NH), b = (a + 1 + r.below(NH - 1)) % NH, c = (a + 1 + r.below(NH - 1)) % NH;
                    makeAs(a, "view", t, s);
                    makeAs(c, "view", t, s);
                    if (b != c && r.chance(1, 2)) makeAs(b, "view", t, r.chance(1, 2) ? s : s.substr(s.rfind('x') + 1));
                    l = { "set", num(a), r.chance(2, 3) ? "h" + num(b) : o, num(c) };
                }
                p.add(l);
            }
            else if (!lin) p.add({ r.chance(1, 2) ? "swap" : "r", r.chance(1, 3) ? "sum" : H(), H(), H() });
            else if (r.chance(1, 8))
            {
                // small ones into results of any shape, which may fit by chance
                int a = r.below(NH), c = (a + 1 + r.below(NH - 1)) % NH, k = r.range(1, 5), rows = r.range(1, 3);
                str t = r.chance(2, 3) ? r.chance(1, 2) ? "f" : "d" : r.chance(1, 2) ? "z" : "Z";
                makeAs(a, "view", t, r.chance(1, 5) ? X({ k }) : r.chance(1, 4) ? X({ r.range(1, 2), rows, k }) : X({ rows, k }));
                std::vector<int> to;
                int op = r.below(7), nd = r.range(1, 4), cols = r.range(1, 3);
                bool mat = r.chance(2, 3);
                int last = op == 0 ? k + 1 : op == 1 ? k - 1 : op == 2 ? 1 : op == 3 ? rows : op == 5 ? (mat ? cols : 1) : k;
                if (r.chance(1, 2)) { for (int j = 0; j < nd; j++) to.push_back(r.range(1, j == nd - 1 ? 4 : 3)); }
                else
                {
                    // the right number of elements, divided differently
                    int left = rows * std::max(1, last) * (r.chance(1, 3) ? 2 : 1) / (r.chance(1, 3) ? 2 : 1);
                    if (r.chance(1, 3)) left = std::max(1, last) * r.range(1, 2);
                    left = std::max(1, left);
                    for (int d = 2; left > 1; ) if (left % d == 0) { left /= d; if (to.empty() || r.chance(1, 2)) to.push_back(d); else to[r.below(to.size())] *= d; } else d++;
                    if (to.empty() || r.chance(1, 3)) to.insert(to.begin() + r.below(to.size() + 1), 1);
                }
                bool fwd = r.chance(1, 2);
                int b = (c + 1 + r.below(NH - 1)) % NH;
                if (b == a) b = (a + 1) % NH == c ? (a + 2) % NH : (a + 1) % NH;
                if (op == 5) makeAs(b, "view", t, mat ? X({ k, cols }) : X({ k }));
                if (op == 6) makeAs(b, "view", t, r.chance(1, 2) ? X({ k }) : X({ rows, k }));
                makeAs(c, "view", op != 4 ? t : fwd && t == "f" ? "z" : fwd && t == "d" ? "Z" : t, X(to));
                switch (op)
                {
                case 0: p.add({ "p", "poly", num(a), num(c), "into" }); break;
                case 1: p.add({ "p", "roots", num(a), num(c), "into" }); break;
                case 2: p.add({ "r", r.chance(1, 2) ? "sum" : r.chance(1, 2) ? "asum" : "iamax", num(a), num(c), "into" }); break;
                case 3: p.add({ "t", "new", num(a), num(c), "into" }); break;
                case 5: p.add({ "dot", num(a), num(b), num(c), "into" }); break;
                case 6: p.add({ "b", bin[r.below(9)], "into", num(a), "h" + num(b), num(c), r.chance(1, 2) ? "op" : "fn" }); break;
                default: p.add({ "f", fwd ? "fwd" : "inv", num(k), t, num(a), num(c), "into", keep ? "keep" : "-" });
                }
            }
            else switch (r.below(9))
            {
            case 0: p.add({ "r", r.chance(1, 2) ? "sum" : r.chance(1, 2) ? "asum" : "iamax", H(), H(), r.chance(1, 3) ? "into" : "new" }); break;
            case 1: case 2:
                if (r.chance(1, 2))
                {
                    // two that fit, mostly
                    str t = r.chance(2, 3) ? r.chance(1, 2) ? "f" : "d" : type();
                    int a = r.below(NH), b = (a + 1 + r.below(NH - 1)) % NH, c = (b + 1 + r.below(NH - 1)) % NH;
                    bool mat = r.chance(2, 3);
                    makeAs(a, "view", t, r.chance(1, 8) ? X({ K }) : r.chance(1, 4) ? X({ B, R, K }) : X({ R, K }));
                    makeAs(b, "view", r.chance(1, 12) ? type() : t, r.chance(1, 12) ? X({ N, K }) : r.chance(1, 12) ? X({ K, N, B }) : mat ? X({ K, N }) : X({ K }));
                    if (c != a && r.chance(1, 4)) makeAs(c, "view", t, r.chance(1, 2) ? X({ B, R + r.below(2), mat ? N : 1 }) : X({ std::max(1, R + (int)r.below(3) - 1), mat ? N : 1 }));
                    else if (c != a && r.chance(1, 2)) makeAs(c, "view", t, r.chance(1, 4) ? X({ B, R, mat ? N : 1 }) : X({ R, mat ? N : 1 }));
                    p.add({ "dot", num(a), num(b), num(c), r.chance(1, 2) ? "into" : "new" });
                    break;
                }
                p.add({ "dot", H(), H(), H(), r.chance(1, 3) ? "into" : "new" });
                break;
            case 3: p.add({ "t", r.chance(1, 2) ? "in" : "new", H(), H(), r.chance(1, 3) ? "into" : "new" }); break;
            case 4: p.add({ "sort", r.chance(4, 5) ? "in" : "new", H(), H() }); break;
            case 5:
                if (r.chance(1, 3))
                {
                    // two or three that fit, mostly, into a third
                    str t = r.chance(2, 3) ? r.chance(1, 2) ? "f" : "d" : type();
                    int a = r.below(NH), b = (a + 1 + r.below(NH - 1)) % NH, c = (b + 1 + r.below(NH - 1)) % NH, two = r.chance(1, 2);
                    makeAs(a, "view", t, two ? X({ R, K }) : X({ K }));
                    makeAs(b, "view", t, two ? X({ r.chance(1, 10) ? R + 1 : R, N }) : X({ N }));
                    int sum = K + N + (r.chance(1, 5) ? r.range(-1, 1) : 0);
                    if (c != a) makeAs(c, "view", t, two ? X({ r.chance(1, 10) ? R + 1 : R, sum }) : X({ sum }));
                    p.add({ "cati", num(c), num(a), num(b) });
                    break;
                }
                { Line l = { "cat", H() }; int k = r.range(2, 3); for (int j = 0; j < k; j++) l.push_back(H()); p.add(l); break; }
            case 6: p.add({ "p", r.chance(1, 2) ? "poly" : "roots", H(), H(), r.chance(1, 4) ? "into" : "new" }); break;
            default: p.add({ "f", r.chance(1, 2) ? "fwd" : "inv", num(r.chance(4, 5) ? F : r.below(20)), r.chance(2, 3) ? favourite : str(1, "fdzZ"[r.below(4)]), H(), H(), r.chance(1, 4) ? "into" : "new", keep ? "keep" : "-" });
            }
        }
    }
    sim::Register reg({ "math", gen, run, false, true });
}
