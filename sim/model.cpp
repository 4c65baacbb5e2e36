#include "model.h"
#include <cstring>
#include <cstdio>
using namespace libube;
namespace model
{
    Val mkInt(long v) { Val r; r.t = TYPE_INT; r.i = v; return r; }
    Val mkReal(int t, double re, double im) { Val r; r.t = t; r.re = re; r.im = im; return r; }
    Val mkScalar(int t, double re, double im)
    {
        Val r;
        r.t = t;
        switch (t)
        {
        case TYPE_CHAR: r.i = (char)re; break;
        case TYPE_INT: r.i = (int)re; break;
        case TYPE_LONG: r.i = (long)re; break;
        case TYPE_FLOAT: r.re = (float)re; break;
        case TYPE_DOUBLE: r.re = re; break;
        case TYPE_CFLOAT: r.re = (float)re; r.im = (float)im; break;
        case TYPE_CDOUBLE: r.re = re; r.im = im; break;
        }
        return r;
    }
    Val mkArr(int type) { Val r; r.o = OP(new Obj); r.o->type = type; return r; }
    Val mkStr(const str& s)
    {
        Val r = mkArr(TYPE_CHAR);
        for (char c : s) { Val x; x.t = TYPE_CHAR; x.i = c; r.o->e.push_back(x); }
        return r;
    }
    static bool integral(int t) { return t == TYPE_CHAR || t == TYPE_INT || t == TYPE_LONG; }
    Val cast(int t, const Val& v)
    {
        Val s = v;
        if (v.arr() && v.o->type == TYPE_CDOUBLE && v.o->e.size() == 1) s = v.o->e[0];
        bool si = integral(s.t);
        double re = si ? (double)s.i : s.re, im = (s.t == TYPE_CFLOAT || s.t == TYPE_CDOUBLE) ? s.im : 0;
        if (integral(t) && si)
        {
            Val r;
            r.t = t;
            r.i = t == TYPE_CHAR ? (long)(char)s.i : t == TYPE_INT ? (long)(int)s.i : s.i;
            return r;
        }
        return mkScalar(t, re, im);
    }
    Val value(const Val& e)
    {
        if (e.t != TYPE_CDOUBLE) return e;
        Val r = mkArr(TYPE_CDOUBLE);
        r.o->e.push_back(e);
        return r;
    }
    static const std::vector<Val>& elems(const Val& v) { static const std::vector<Val> none; return v.o ? v.o->e : none; }
    static int kind(const Val& v) { return v.o ? v.o->type : -1; }
    static bool eqArr(const Val& a, const Val& b)
    {
        const auto &x = elems(a), &y = elems(b);
        if (x.size() != y.size()) return false;
        if ((kind(a) == TYPE_PAIR) != (kind(b) == TYPE_PAIR) && x.size()) return false;
        for (size_t i = 0; i < x.size(); i++)
        {
            if (x[i].t == TYPE_CDOUBLE && y[i].t == TYPE_CDOUBLE)
            {
                if (x[i].re != y[i].re || x[i].im != y[i].im) return false;
            }
            else if (!eq(value(x[i]), value(y[i]))) return false;
            if (kind(a) == TYPE_PAIR && !eq(a.o->k[i], b.o->k[i])) return false;
        }
        return true;
    }
    bool eq(const Val& a, const Val& b)
    {
        if (a.t == TYPE_CDOUBLE || b.t == TYPE_CDOUBLE) return eq(value(a), value(b));
        if (a.t != b.t) return false;
        if (a.t == TYPE_ARRAY) return eqArr(a, b);
        if (integral(a.t)) return a.i == b.i;
        return a.re == b.re && a.im == b.im;
    }
    // by magnitude, then by the parts
    static int cplx(const Val& a, const Val& b)
    {
        double x, y;
        if (a.t == TYPE_CFLOAT) { x = std::abs(cfloat(a.re, a.im)); y = std::abs(cfloat(b.re, b.im)); }
        else { x = std::abs(cdouble(a.re, a.im)); y = std::abs(cdouble(b.re, b.im)); }
        if (x != y) return x < y ? -1 : 1;
        if (a.re != b.re) return a.re < b.re ? -1 : 1;
        return a.im < b.im ? -1 : a.im > b.im;
    }
    static bool ltArr(const Val& a, const Val& b)
    {
        const auto &x = elems(a), &y = elems(b);
        bool chars = kind(a) == TYPE_CHAR && kind(b) == TYPE_CHAR;
        for (size_t i = 0; i < x.size() && i < y.size(); i++)
        {
            if (chars)
            {
                if (x[i].i != y[i].i) return (unsigned char)x[i].i < (unsigned char)y[i].i;
                continue;
            }
            if (x[i].t == TYPE_CDOUBLE && y[i].t == TYPE_CDOUBLE)
            {
                int c = cplx(x[i], y[i]);
                if (c) return c < 0;
                continue;
            }
            Val p = value(x[i]), q = value(y[i]);
            if (lt(p, q)) return true;
            if (lt(q, p)) return false;
        }
        return x.size() < y.size();
    }
    bool lt(const Val& a, const Val& b)
    {
        if (a.t == TYPE_CDOUBLE || b.t == TYPE_CDOUBLE) return lt(value(a), value(b));
        if (a.t != b.t) return a.t < b.t;
        if (a.t == TYPE_ARRAY) return ltArr(a, b);
        if (integral(a.t)) return a.i < b.i;
        if (a.t == TYPE_CFLOAT) return cplx(a, b) < 0;
        return a.re < b.re;
    }
    bool reaches(const Val& from, const Obj* to)
    {
        if (!from.o) return false;
        if (from.o.get() == to) return true;
        if (from.o->dense()) return false;
        for (auto& e : from.o->e) if (reaches(e, to)) return true;
        for (auto& e : from.o->k) if (reaches(e, to)) return true;
        return false;
    }
    Val shallow(const Val& v)
    {
        Val r = v;
        if (v.o) { r.o = OP(new Obj); r.o->type = v.o->type; r.o->e = v.o->e; r.o->k = v.o->k; }
        return r;
    }
    str show(const Val& v, int depth)
    {
        char b[80];
        if (v.nil()) return "nil";
        switch (v.t)
        {
        case TYPE_CHAR: snprintf(b, sizeof b, "c%ld", v.i); return b;
        case TYPE_INT: snprintf(b, sizeof b, "%ld", v.i); return b;
        case TYPE_LONG: snprintf(b, sizeof b, "%ldL", v.i); return b;
        case TYPE_FLOAT: snprintf(b, sizeof b, "%gf", v.re); return b;
        case TYPE_DOUBLE: snprintf(b, sizeof b, "%gd", v.re); return b;
        case TYPE_CFLOAT: snprintf(b, sizeof b, "(%g,%g)f", v.re, v.im); return b;
        case TYPE_CDOUBLE: snprintf(b, sizeof b, "(%g,%g)d", v.re, v.im); return b;
        }
        if (v.o->type == TYPE_CHAR)
        {
            str s;
            for (auto& e : v.o->e) s += (char)e.i;
            return "\"" + sim::enc(s) + "\"";
        }
        str r = v.o->type == TYPE_VAR ? "[" : v.o->type == TYPE_PAIR ? "{" : str(typeStr(v.o->type)) + "[";
        if (!depth) return r + "...";
        for (size_t i = 0; i < v.o->e.size(); i++)
        {
            if (i) r += " ";
            if (i == 40) { r += "..."; break; }
            if (v.o->type == TYPE_PAIR) r += show(v.o->k[i], depth - 1) + ":";
            r += show(v.o->e[i], depth - 1);
        }
        return r + (v.o->type == TYPE_PAIR ? "}" : "]");
    }
    u64 hashOf(const Val& v, int depth) { return sim::hash(show(v, depth)); }
    size_t lowerKey(const Obj& o, const Val& key)
    {
        size_t i = 0;
        while (i < o.k.size() && lt(o.k[i], key)) i++;
        return i;
    }
    Val cloneVal(const Val& v, std::map<Obj*, OP>& memo)
    {
        Val r = v;
        if (!v.o) return r;
        OP& n = memo[v.o.get()];
        if (!n)
        {
            n = OP(new Obj);
            OP keep = n;
            keep->type = v.o->type;
            std::vector<Val> e, k;
            if (v.o->dense()) e = v.o->e;
            else { for (auto& x : v.o->e) e.push_back(cloneVal(x, memo)); for (auto& x : v.o->k) k.push_back(cloneVal(x, memo)); }
            keep->e.swap(e);
            keep->k.swap(k);
            r.o = keep;
            return r;
        }
        r.o = n;
        return r;
    }
    State clone(const State& s, std::map<Obj*, OP>* memo)
    {
        std::map<Obj*, OP> m;
        if (!memo) memo = &m;
        State r;
        for (auto& v : s) r.push_back(cloneVal(v, *memo));
        return r;
    }

    static var scalarVar(const Val& v)
    {
        switch (v.t)
        {
        case TYPE_CHAR: return var((char)v.i);
        case TYPE_INT: return var((int)v.i);
        case TYPE_LONG: return var((long)v.i);
        case TYPE_FLOAT: return var((float)v.re);
        case TYPE_DOUBLE: return var(v.re);
        case TYPE_CFLOAT: return var(cfloat(v.re, v.im));
        case TYPE_CDOUBLE: return var(cdouble(v.re, v.im));
        }
        return var();
    }
    var build(const Val& v, std::map<Obj*, var>& memo)
    {
        if (v.nil()) return var();
        if (v.scalar()) return scalarVar(v);
        auto it = memo.find(v.o.get());
        if (it != memo.end()) return it->second;
        const Obj& o = *v.o;
        var r;
        size_t n = o.e.size();
        switch (o.type)
        {
        case TYPE_CHAR:
        {
            str s;
            for (auto& e : o.e) s += (char)e.i;
            r = var((int)s.size(), s.data());
            break;
        }
        case TYPE_CDOUBLE:
            r = cdouble(0, 0);
            r.resize(0);
            for (auto& e : o.e) { cdouble c(e.re, e.im); r.append<cdouble>(1, &c); }
            break;
        case TYPE_VAR:
            // even if empty it may have held something, and may keep the space for it
            r.resize(1);
            r.resize(0);
            for (size_t i = 0; i < n; i++) { r.resize(i + 1); r[(int)i] = build(o.e[i], memo); }
            break;
        case TYPE_PAIR:
            r[var(1)] = 1;
            r.resize(0);
            for (size_t i = 0; i < n; i++) { var k = build(o.k[i], memo); r[k] = build(o.e[i], memo); }
            break;
        default:
            r = scalarVar(mkScalar(o.type, 0));
            r.array();
            r.resize(0);
            for (size_t i = 0; i < n; i++) r[(int)i] = scalarVar(o.e[i]);
        }
        memo[v.o.get()] = r;
        return r;
    }
    static Val readScalar(const var& v)
    {
        switch ((int)v.type())
        {
        case TYPE_CHAR: { Val r; r.t = TYPE_CHAR; r.i = v.get<char>(); return r; }
        case TYPE_INT: { Val r; r.t = TYPE_INT; r.i = v.get<int>(); return r; }
        case TYPE_LONG: { Val r; r.t = TYPE_LONG; r.i = v.get<long>(); return r; }
        case TYPE_FLOAT: return mkReal(TYPE_FLOAT, v.get<float>());
        case TYPE_DOUBLE: return mkReal(TYPE_DOUBLE, v.get<double>());
        case TYPE_CFLOAT: { cfloat c = v.get<cfloat>(); return mkReal(TYPE_CFLOAT, c.real(), c.imag()); }
        case TYPE_CDOUBLE: { cdouble c = v.get<cdouble>(); return mkReal(TYPE_CDOUBLE, c.real(), c.imag()); }
        }
        sim::Host h;
        sim::fail("bad-type", "a value reports the unknown type %ld", (long)v.type());
    }
    Val capture(const var& v, std::map<IHeap*, OP>& known)
    {
        if (!v.defined()) return Val();
        if (v.type() != TYPE_ARRAY) return readScalar(v);
        IHeap* hp = v.heap();
        auto it = known.find(hp);
        if (it != known.end()) { Val r; r.o = it->second; return r; }
        Val r = mkArr((int)v.atype());
        known[hp] = r.o;
        int n = v.size();
        if (n < 0 || n > 100000) { sim::Host h; sim::fail("bad-size", "an array reports size %d", n); }
        for (int i = 0; i < n; i++)
        {
            Val x;
            if (r.o->dense()) x = readScalar(v.at(i));
            else x = capture(v.at(i), known);
            r.o->e.push_back(x);
            if (r.o->type == TYPE_PAIR) r.o->k.push_back(capture(v.key(i), known));
        }
        return r;
    }
    static bool same(const Val& a, const Val& b)
    {
        if (a.t != b.t) return false;
        auto eqf = [](double x, double y) { return x == y || (x != x && y != y); };
        return integral(a.t) ? a.i == b.i : (eqf(a.re, b.re) && eqf(a.im, b.im));
    }
    template <class T> static const T* raw(const var& v) { return const_cast<var&>(v).ptr<T>(0); }
    str compare(const var& v, const Val& m, Ident& id, const str& path)
    {
        if (m.nil()) return v.defined() ? path + " is defined, expected nil" : "";
        if (!v.defined()) return path + " is undefined, expected " + show(m, 2);
        if (m.scalar())
        {
            if (v.type() != m.t) return path + " has type " + typeStr(v.type()) + ", expected " + show(m);
            if (v.size() != 1) return path + " has the wrong size for a scalar";
            Val r = readScalar(v);
            return same(r, m) ? "" : path + " is " + show(r) + ", expected " + show(m);
        }
        Obj& o = *m.o;
        if (v.type() != TYPE_ARRAY) return path + " has type " + typeStr(v.type()) + ", expected " + show(m, 2);
        IHeap* hp = v.heap();
        auto f = id.fwd.find(&o);
        if (f != id.fwd.end() && f->second != hp) return path + " no longer shares its array with other handles, expected " + show(m, 2);
        auto rv = id.rev.find(hp);
        if (rv != id.rev.end() && rv->second != &o) return path + " shares an array it should not share, expected " + show(m, 2);
        id.fwd[&o] = hp;
        id.rev[hp] = &o;
        id.objs[hp] = m.o;
        if (!id.seen.insert(&o).second) return "";
        if (v.atype() != o.type) return path + " is an array of " + typeStr(v.atype()) + ", expected " + show(m, 2);
        int n = v.size();
        if (n != (int)o.e.size()) { char b[60]; snprintf(b, sizeof b, " has size %d, expected %zu: ", n, o.e.size()); return path + b + show(m, 2); }
        if (o.type == TYPE_CHAR)
        {
            const char* s = v.str();
            for (int i = 0; i < n; i++) if (s[i] != (char)o.e[i].i) { char b[80]; snprintf(b, sizeof b, "[%d] is char %d, expected %d", i, s[i], (int)o.e[i].i); return path + b; }
            if (s[n]) return path + " is a string without its terminator";
        }
        for (int i = 0; i < n; i++)
        {
            char b[30];
            snprintf(b, sizeof b, "[%d]", i);
            if (o.type == TYPE_PAIR)
            {
                str r = compare(v.key(i), o.k[i], id, path + ".key" + b);
                if (!r.empty()) return r;
            }
            var x = v.at(i);
            if (o.dense())
            {
                if (x.type() != o.type) return path + b + " has the wrong type";
                Val r = readScalar(x);
                if (!same(r, o.e[i])) return path + b + " is " + show(r) + ", expected " + show(o.e[i]) + " in " + show(m, 2);
            }
            else
            {
                str r = compare(x, o.e[i], id, path + b);
                if (!r.empty()) return r;
            }
        }
        return "";
    }
}
