// Values constructed from C++ values, from other values and from elements of shared arrays; conversions; the
// sources must stay as they were (C27).
#include "model.h"
#include <cstring>
#include <lube/string.h>
using namespace libube;
using namespace model;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::num;
using sim::toi;

namespace
{
    const int NH = 5;
    const char TC[] = "?cilfdzZ";    // by type number
    struct Refused {};
    struct Skip {};
    std::vector<str> cut(const str& s, char c)
    {
        std::vector<str> r(1);
        for (char x : s) if (x == c) r.push_back(""); else r.back() += x;
        return r;
    }
    Val numTok(char c, const str& s)
    {
        const char* p = strchr(TC, c);
        int t = p ? (int)(p - TC) : 0;
        auto v = cut(s, ',');
        if (t <= TYPE_LONG) { long x = atol(v[0].c_str()); Val r; r.t = t; r.i = t == TYPE_CHAR ? (char)x : t == TYPE_INT ? (int)x : x; return r; }
        return mkScalar(t, atof(v[0].c_str()), v.size() > 1 ? atof(v[1].c_str()) : 0);
    }
    bool isStr(const Val& v) { return v.arr() && v.o->type == TYPE_CHAR; }
    bool isZ(const Val& v) { return v.arr() && v.o->type == TYPE_CDOUBLE && v.o->e.size() == 1; }
    bool storable(const Val& v) { return v.scalar() || isZ(v); }
    str text(const Val& v) { str s; for (auto& e : v.o->e) s += (char)e.i; return s; }

    // One more at the end
    void pushed(Val& s, const Val& v)
    {
        if (s.nil())
        {
            if (v.scalar()) { s = v; return; }
            if (isZ(v)) throw Skip();
            s = mkArr(TYPE_VAR);
            s.o->e.push_back(v);
            return;
        }
        if (s.scalar())
        {
            if (v.t != s.t) throw Refused();
            Val n = mkArr(s.t);
            n.o->e.push_back(s);
            s = n;
        }
        Obj& o = *s.o;
        if (o.type == TYPE_PAIR || reaches(v, &o)) throw Skip();
        if (!o.dense()) { o.e.push_back(v); return; }
        if (!storable(v)) throw Skip();
        o.e.push_back(cast(o.type, v));
    }
    // The number a string begins with
    Val number(int t, const str& s)
    {
        if (t == TYPE_CHAR)
        {
            for (char c : s) if (!isspace((unsigned char)c)) return mkScalar(TYPE_CHAR, c);
            throw Refused();
        }
        if (s.find_first_not_of("-0123456789. ") != str::npos) throw Skip();     // how much of it is read is up to the C++ library
        const char* p = s.c_str();
        char* e;
        if (t == TYPE_INT || t == TYPE_LONG)
        {
            long v = strtol(p, &e, 10);
            if (e == p) throw Refused();
            Val r; r.t = t; r.i = v;
            return r;
        }
        double v = strtod(p, &e);
        if (e == p) { for (const char* q = p; *q; q++) if (*q != ' ') throw Skip(); throw Refused(); }
        if (t == TYPE_CFLOAT) return mkReal(t, (double)strtof(p, 0));
        if (t == TYPE_CDOUBLE) return value(mkReal(t, v));
        return mkReal(t, t == TYPE_FLOAT ? (double)strtof(p, 0) : v);
    }
    bool inRange(int t, const Val& v)
    {
        double x = v.t == TYPE_CHAR || v.t == TYPE_INT || v.t == TYPE_LONG ? (double)v.i : v.re;
        double lim = t == TYPE_CHAR ? 127 : t == TYPE_INT ? 2e9 : 9e18;
        return t > TYPE_LONG || (x > -lim && x < lim);
    }
    Val casted(int t, const Val& v)
    {
        if (v.nil()) throw Skip();
        if (isStr(v)) return number(t, text(v));
        if (v.arr() && v.o->type == TYPE_VAR)
        {
            Val r = mkArr(TYPE_VAR);
            for (auto& e : v.o->e) { if (e.arr() && !isStr(e)) throw Skip(); r.o->e.push_back(casted(t, e)); }
            return r;
        }
        if (v.arr()) throw Skip();           // the element type of an array stays what it is
        if (!inRange(t, v)) throw Skip();
        return value(model::cast(t, v));
    }
    // Code points in a string, -1 if it is not UTF-8 by the bit patterns
    long points(const str& s)
    {
        size_t i = 0;
        long n = 0;
        while (i < s.size())
        {
            unsigned char c = s[i];
            size_t l = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
            if (!l || i + l > s.size()) return -1;
            for (size_t k = 1; k < l; k++) if (((unsigned char)s[i + k] >> 6) != 2) return -1;
            i += l;
            n++;
        }
        return n;
    }
    var cast(int t, const var& v)
    {
        switch (t)
        {
        case TYPE_CHAR: return castChar(v);
        case TYPE_INT: return castInt(v);
        case TYPE_LONG: return castLong(v);
        case TYPE_FLOAT: return castFloat(v);
        case TYPE_DOUBLE: return castDouble(v);
        case TYPE_CFLOAT: return castCFloat(v);
        default: return castCDouble(v);
        }
    }
    void castTo(int t, const var& v, var& o)
    {
        switch (t)
        {
        case TYPE_CHAR: castChar(v, o); break;
        case TYPE_INT: castInt(v, o); break;
        case TYPE_LONG: castLong(v, o); break;
        case TYPE_FLOAT: castFloat(v, o); break;
        case TYPE_DOUBLE: castDouble(v, o); break;
        case TYPE_CFLOAT: castCFloat(v, o); break;
        default: castCDouble(v, o);
        }
    }

    // do <name> <dst> <args: tokens joined by ;> <n> <form> [nth burst]
    struct Run
    {
        State m;
        std::vector<var> h;
        std::vector<int> shape;          // what a view made was asked to be
        int vtype = 0;
        Run() : m(NH), h(NH) {}

        str compareAll(const State& want)
        {
            str bad;
            sim::Outcome o = sim::sut([&] {
                sim::Host hs;
                Ident id;
                for (int i = 0; i < NH && bad.empty(); i++) bad = compare(h[i], want[i], id, "handle " + num(i));
            });
            if (!o.ok()) bad = "reading raised " + o.what.substr(0, 200);
            return bad;
        }
        // h<i>, e<i>.<k>, s<text>, N, or a number with its type first
        Val argVal(State& s, const str& t)
        {
            if (t[0] == 'N') return Val();
            if (t[0] == 's') return mkStr(sim::dec(t.substr(1)));
            if (t[0] != 'h' && t[0] != 'e') return value(numTok(t[0], t.substr(1)));
            auto v = cut(t.substr(1), '.');
            Val& x = s[atoi(v[0].c_str()) % NH];
            if (t[0] == 'h') return x;
            if (!x.arr() || x.o->e.empty()) throw Skip();
            return value(x.o->e[atoi(v.size() > 1 ? v[1].c_str() : "0") % x.o->e.size()]);
        }
        var argVar(const str& t)
        {
            if (t[0] == 'h' || t[0] == 'e')
            {
                auto v = cut(t.substr(1), '.');
                var& x = h[atoi(v[0].c_str()) % NH];
                if (t[0] == 'h') return x;
                return x.at(atoi(v.size() > 1 ? v[1].c_str() : "0") % x.size());
            }
            std::map<Obj*, var> memo;
            sim::Host hs;
            Val a = argVal(m, t);
            sim::Enter es;
            return build(a, memo);
        }
        struct Op { str name; int d; std::vector<str> a; long n; str form; };

        void define(State& s, const Op& o)
        {
            Val& D = s[o.d];
            auto A = [&](size_t i) -> Val { if (i >= o.a.size() || o.a[i].empty()) throw Skip(); return argVal(s, o.a[i]); };
            if (o.name == "set") D = A(0);
            else if (o.name == "list")       // {a, b, ...}
            {
                Val r;
                std::vector<Val> x;
                for (size_t i = 0; i < o.a.size() && i < 5; i++) x.push_back(A(i));
                for (auto& v : x) pushed(r, v);
                D = r;
            }
            else if (o.name == "elems")      // [a, b, ...] whatever they are
            {
                Val r = mkArr(TYPE_VAR);
                for (size_t i = 0; i < o.a.size(); i++) { Val x = A(i); if (D.o && reaches(x, D.o.get())) throw Skip(); r.o->e.push_back(x); }
                D = r;
            }
            else if (o.name == "texts")      // from char**
            {
                Val r;
                for (size_t i = 0; i < o.a.size(); i++) { Val x = A(i); if (!isStr(x) || text(x).find('\0') != str::npos) throw Skip(); pushed(r, x); }
                D = r;
            }
            else if (o.name == "ints")
            {
                D = mkArr(TYPE_INT);
                for (size_t i = 0; i < o.a.size(); i++) { Val x = A(i); if (x.t != TYPE_INT) throw Skip(); D.o->e.push_back(x); }
            }
            else if (o.name == "text")
            {
                Val x = A(0);
                if (!isStr(x) || o.a[0][0] != 's') throw Skip();
                if (o.form != "n" && text(x).find('\0') != str::npos) throw Skip();
                D = x;
            }
            else if (o.name == "fill")
            {
                Val x = A(0);
                if (isZ(x)) throw Skip();        // as an element a number, by itself an array of one
                if (!x.scalar()) throw Refused();
                D = mkArr(x.t);
                for (long i = 0; i < o.n + 2; i++) D.o->e.push_back(x);
            }
            else if (o.name == "view" || o.name == "shaped")
            {
                Val x = o.a.empty() || o.a[0].empty() ? Val() : A(0);
                if (o.name == "shaped" && !storable(x)) throw Skip();
                if (x.arr() && !x.o->dense()) throw Skip();
                vtype = x.nil() ? (int)TYPE_FLOAT : x.scalar() ? x.t : x.o->type;
                shape.clear();
                for (long n = o.n; n > 0; n /= 10) shape.insert(shape.begin(), n % 10);
                for (int d : shape) if (!d) throw Skip();
                if (shape.empty()) throw Skip();
            }
            else if (o.name == "range" || o.name == "irange")
            {
                Val lo = A(0), hi = o.a.size() > 1 ? A(1) : lo, st = o.a.size() > 2 ? A(2) : mkScalar(TYPE_INT, 1);
                bool incl = o.name == "range";
                if (!lo.scalar() || lo.t < TYPE_INT || lo.t > TYPE_DOUBLE || hi.t != lo.t) throw Skip();
                if (st.t != lo.t) throw Skip();
                bool integ = lo.t <= TYPE_LONG;
                if (o.a.size() == 1) lo = mkScalar(lo.t, incl ? 1 : 0);
                double step = integ ? st.i : st.re;
                if (step <= 0) throw Skip();
                Val r, v = lo;
                for (int k = 0;; k++)
                {
                    if (integ ? (incl ? v.i > hi.i : v.i >= hi.i) : (incl ? v.re > hi.re : v.re >= hi.re)) break;
                    if (k > 60) throw Skip();
                    pushed(r, v);
                    if (integ) v.i += st.i;
                    else if (v.t == TYPE_FLOAT) v.re = (float)((float)v.re + (float)st.re);
                    else v.re += st.re;
                }
                D = r;
            }
            else if (o.name == "cast")
            {
                Val x = A(0);
                int t = TYPE_CHAR + o.n % 7;
                if (o.form == "in")
                {
                    if (o.a[0] != "h" + num(o.d)) throw Skip();
                    if (x.scalar() || isStr(x)) { D = casted(t, x); return; }
                    // one list, seen by all who share it; done one by one, so what is before a refusal is done
                    if (!x.arr() || x.o->type != TYPE_VAR) throw Skip();
                    std::vector<Val> e;
                    for (auto& y : x.o->e) { if (y.arr() && !isStr(y)) throw Skip(); try { e.push_back(casted(t, y)); } catch (Refused&) { throw Skip(); } }
                    x.o->e = e;
                    return;
                }
                D = casted(t, x);
            }
            else if (o.name == "alloc")
            {
                Val x = A(0);
                if (!x.arr() || o.a[0][0] != 'h') throw Skip();
                if (!x.o->dense()) throw Skip();
            }
            else if (o.name == "top")
            {
                Val x = A(0);
                if (o.a[0][0] != 'h') throw Skip();
                if (!x.arr()) { if (x.nil()) throw Refused(); throw Skip(); }
                if (x.o->e.empty()) throw Refused();
                D = value(x.o->e.back());
            }
            else if (o.name == "presize")
            {
                if (!D.arr() || D.o->type == TYPE_PAIR) throw Skip();
                if (o.n < (long)D.o->e.size()) throw Skip();
            }
            else if (o.name == "comma")      // (D, a)
            {
                if (!D.arr() || !D.o->dense() || o.a.empty()) throw Skip();
                Val x = A(0);
                if (!x.scalar()) throw Skip();
                D.o->e.push_back(cast(x, D.o->type));
            }
            else if (o.name == "ask") { if (isZ(A(0))) throw Skip(); }
            else throw Skip();
        }
        static Val cast(const Val& v, int t) { return model::cast(t, v); }

        void looked(const var& v, const char* what)
        {
            // dimensions as asked for, and every element of its own
            sim::Host hs;
            str bad;
            int n = 1;
            for (int d : shape) n *= d;
            if (!v.view()) bad = "is not a view";
            else if (v.dim() != (int)shape.size()) bad = "has " + num(v.dim()) + " dimensions";
            else if (v.size() != n) bad = "has size " + num(v.size());
            else if (v.atype() != vtype) bad = str("has elements of type ") + typeStr(v.atype());
            for (size_t i = 0; i < shape.size() && bad.empty(); i++) if (v.shape(i) != shape[i]) bad = "has the wrong dimension " + num(i);
            if (!bad.empty()) sim::fail("wrong-shape", "%s %s", what, bad.c_str());
        }
        void written(var v, const char* what)
        {
            int n = v.size();
            for (int i = 0; i < n; i++) { var x = v.at(i); x = i + 1; }
            for (int i = 0; i < n; i++)
            {
                double got = v.at(i).cast<double>();
                if (got != i + 1) { sim::Host hs; sim::fail("wrong-value", "element %d of %s is %g after %d was written to it", i, what, got, i + 1); }
            }
        }
        void perform(const Op& o)
        {
            var& D = h[o.d];
            if (o.name == "set") D = argVar(o.a[0]);
            else if (o.name == "list")
            {
                switch (std::min(o.a.size(), (size_t)5))
                {
                case 0: D = var(std::initializer_list<var>{}); break;
                case 1: D = var(std::initializer_list<var>{ argVar(o.a[0]) }); break;
                case 2: D = var({ argVar(o.a[0]), argVar(o.a[1]) }); break;
                case 3: D = var({ argVar(o.a[0]), argVar(o.a[1]), argVar(o.a[2]) }); break;
                case 4: D = var({ argVar(o.a[0]), argVar(o.a[1]), argVar(o.a[2]), argVar(o.a[3]) }); break;
                default: D = var({ argVar(o.a[0]), argVar(o.a[1]), argVar(o.a[2]), argVar(o.a[3]), argVar(o.a[4]) });
                }
            }
            else if (o.name == "elems")
            {
                var v;
                v.resize(o.a.size());
                for (size_t i = 0; i < o.a.size(); i++) v.at((int)i) = argVar(o.a[i]);
                D = v;
            }
            else if (o.name == "texts")
            {
                std::vector<str> t;
                std::vector<const char*> p;
                { sim::Host hs; for (auto& a : o.a) { t.push_back(text(argVal(m, a))); } for (auto& s : t) p.push_back(s.c_str()); p.push_back(0); }
                if (o.form == "n") D = var((int)t.size(), &p[0]);
                else D = var((const char* const*)&p[0]);
                sim::Host hs;
                std::vector<str>().swap(t);
                std::vector<const char*>().swap(p);
            }
            else if (o.name == "ints")
            {
                int b[64];
                int n = 0;
                for (auto& a : o.a) { sim::Host hs; b[n++] = argVal(m, a).i; }
                D = var(n, b);
                memset(b, 0x55, sizeof b);
            }
            else if (o.name == "text")
            {
                char b[300];
                size_t n;
                { sim::Host hs; str s = text(argVal(m, o.a[0])); n = std::min(s.size(), sizeof b - 1); memcpy(b, s.data(), n); b[n] = 0; }
                if (o.form == "n") D = var((int)n, b); else D = var((const char*)b);
                memset(b, 0x55, sizeof b);
            }
            else if (o.name == "fill") D = var((int)o.n + 2, argVar(o.a[0]));
            else if (o.name == "view")
            {
                var v;
                bool typed = !o.a.empty() && !o.a[0].empty();
                if (o.form == "var")
                {
                    var s(( int)shape.size(), &shape[0]);
                    v = typed ? libube::view(s, argVar(o.a[0])) : libube::view(s);
                    for (int i = 0; i < s.size(); i++) s.at(i) = 77;
                }
                else if (typed)
                {
                    var x = argVar(o.a[0]);
                    if (shape.size() == 1) v = libube::view({ shape[0] }, x);
                    else if (shape.size() == 2) v = libube::view({ shape[0], shape[1] }, x);
                    else v = libube::view({ shape[0], shape[1], shape[2] }, x);
                }
                else if (shape.size() == 1) v = libube::view({ shape[0] });
                else if (shape.size() == 2) v = libube::view({ shape[0], shape[1] });
                else v = libube::view({ shape[0], shape[1], shape[2] });
                looked(v, "a view made");
                written(v, "a view made");
            }
            else if (o.name == "shaped")
            {
                var x = argVar(o.a[0]);
                var v;
                if (shape.size() == 1) v = var(std::initializer_list<int>{ shape[0] }, x);
                else if (shape.size() == 2) v = var(std::initializer_list<int>{ shape[0], shape[1] }, x);
                else v = var(std::initializer_list<int>{ shape[0], shape[1], shape[2] }, x);
                looked(v, "an array made");
                var y;
                y = x.copy();
                for (int i = 0; i < v.size(); i++)
                    if (v.at(i) != y) { sim::Host hs; sim::fail("wrong-value", "element %d of an array made of a value is another one", i); }
                written(v, "an array made");
            }
            else if (o.name == "range" || o.name == "irange")
            {
                bool incl = o.name == "range";
                if (o.a.size() == 1) D = incl ? libube::range(argVar(o.a[0])) : libube::irange(argVar(o.a[0]));
                else if (o.a.size() == 2) D = incl ? libube::range(argVar(o.a[0]), argVar(o.a[1])) : libube::irange(argVar(o.a[0]), argVar(o.a[1]));
                else D = incl ? libube::range(argVar(o.a[0]), argVar(o.a[1]), argVar(o.a[2])) : libube::irange(argVar(o.a[0]), argVar(o.a[1]), argVar(o.a[2]));
            }
            else if (o.name == "cast")
            {
                int t = TYPE_CHAR + o.n % 7;
                if (o.form == "in") castTo(t, D, D);
                else { var x = argVar(o.a[0]); D = ::cast(t, x); }
            }
            else if (o.name == "alloc")
            {
                var x = argVar(o.a[0]);
                var v = x.copy(true);
                if (v.size() != x.size() || v.atype() != x.atype()) { sim::Host hs; sim::fail("wrong-shape", "a new array like another has size %d and type %s", v.size(), typeStr(v.atype())); }
                if (x.size() < 127) written(v, "a new array like another");
            }
            else if (o.name == "top") { var t = argVar(o.a[0]); D = t.top(); }
            else if (o.name == "presize") D.presize((int)o.n);
            else if (o.name == "comma") { var x = argVar(o.a[0]); (D, x); }
            else if (o.name == "ask")
            {
                Val w;
                { sim::Host hs; w = argVal(m, o.a[0]); }
                var x = argVar(o.a[0]);
                str name, aname;
                long n = -9;
                var t = x.typeStr();
                var at;
                bool threw = false;
                try { at = x.atypeStr(); } catch (error&) { threw = true; }
                bool asked = false;
                if (w.o) { n = x.len(); asked = true; }
                sim::Host hs;
                str want = typeStr(w.t);
                if (t.str() != want) sim::fail("wrong-type", "the type of %s is said to be %s", show(w).c_str(), t.str());
                if (w.nil()) { if (!threw) sim::fail("wrong-type", "the element type of nil is said to be something"); }
                else
                {
                    if (w.arr()) want = str("array[") + typeStr(w.o->type) + "]";
                    if (threw || at.str() != want) sim::fail("wrong-type", "the type of %s is said to be %s", show(w, 2).c_str(), threw ? "unknown" : at.str());
                }
                if (asked)
                {
                    long exp = isStr(w) ? points(text(w)) : (long)w.o->e.size();
                    if (n != exp) sim::fail("wrong-length", "the length of %s is said to be %ld, not %ld", show(w, 2).c_str(), n, exp);
                }
            }
        }
        void step(const Line& l)
        {
            auto A = [&](size_t n) -> str { return n < l.size() ? l[n] : str("0"); };
            Op o;
            o.name = A(1);
            o.d = toi(A(2)) % NH;
            if (A(3) != "-") for (auto& t : cut(A(3), ';')) if (!t.empty()) o.a.push_back(t);
            o.n = toi(A(4));
            o.form = A(5);
            long nth = toi(A(6)), burst = l.size() > 7 ? toi(A(7)) : 1;
            bool refused = false;
            State want = clone(m);
            try { define(want, o); }
            catch (Refused&) { refused = true; }
            catch (Skip&) { return; }
            sim::count("op.executed");
            sim::count(("op." + o.name).c_str());
            if (sim::verbose()) { str u; for (auto& x : l) u += x + " "; sim::trace("%s", u.c_str()); }
            if (nth) sim::alloc::failAt(nth, burst);
            sim::Outcome r = sim::sut([&] { perform(o); });
            bool nomem = nth && sim::alloc::failed();
            sim::alloc::heal();
            sim::note(r.kind);
            if (r.ok())
            {
                if (refused) sim::fail("not-refused", "%s did not refuse what it can not do", o.name.c_str());
                str bad = compareAll(want);
                if (!bad.empty()) sim::fail("wrong-value", "after %s: %s", o.name.c_str(), bad.c_str());
                m = want;
            }
            else
            {
                if (!refused && !nomem) sim::fail("unexpected-exception", "%s raised %s", o.name.c_str(), r.what.substr(0, 200).c_str());
                sim::count("op.refused");
                str bad = compareAll(m);
                if (!bad.empty() && nomem && o.name == "cast" && o.form == "in")
                {
                    // the first of them may be done
                    for (size_t k = 0; !bad.empty() && m[o.d].o && k < m[o.d].o->e.size(); k++)
                    {
                        try { m[o.d].o->e[k] = casted(TYPE_CHAR + o.n % 7, m[o.d].o->e[k]); } catch (...) { break; }
                        bad = compareAll(m);
                    }
                }
                if (!bad.empty()) sim::fail(nomem ? "corrupted" : "changed-by-refusal", "%s raised %s; then %s", o.name.c_str(), r.what.substr(0, 60).c_str(), bad.c_str());
                if (nomem && !refused)
                {
                    // with memory there is again it succeeds
                    State again = clone(m);
                    try { define(again, o); } catch (...) { return; }
                    sim::Outcome q = sim::sut([&] { perform(o); });
                    if (!q.ok()) sim::fail("not-recovered", "%s raised %s although there is memory again", o.name.c_str(), q.what.substr(0, 100).c_str());
                    str b2 = compareAll(again);
                    if (!b2.empty()) sim::fail("wrong-value", "after %s, repeated: %s", o.name.c_str(), b2.c_str());
                    m = again;
                }
            }
            sim::u64 st = 0;
            for (auto& v : m) st = sim::mix(st, hashOf(v));
            sim::state(st);
            sim::note(st);
        }
    };
    void run(const Plan& p)
    {
        Run* r;
        sim::sut([&] { r = new Run; });
        for (auto& l : p.lines) if (l[0] == "do") r->step(l);
        sim::sut([&] { delete r; });
    }

    str tokScalar(Rng& r, int t)
    {
        int v = r.chance(1, 12) ? r.range(-100, 100) : r.range(-3, 9);
        str s(1, TC[t]);
        if (t == TYPE_CHAR) return s + num(r.range(97, 104));
        if (t == TYPE_LONG && r.chance(1, 10)) return s + num((long)(r.next() >> 16) - (1l << 46));
        if (t <= TYPE_LONG) return s + num(v);
        if (t == TYPE_DOUBLE && r.chance(1, 10)) return s + sim::dnum(v + 1.0 / 1024 / 1024 / 1024);
        if (t <= TYPE_DOUBLE) return s + sim::dnum(v + r.range(0, 3) * 0.25);
        return s + sim::dnum(v) + "," + sim::dnum(r.range(-2, 2));
    }
    str tokStr(Rng& r)
    {
        static const char* w[] = { "", "a", "12", "-7", " 42 ", "3.5", "x1", "abc", "h\xc3\xa9llo", "\xe2\x82\xac" "10", "\xf0\x9f\x98\x80", "\xc3", "\x80", "\xff", "longer than eight", "0" };
        str s = w[r.below(16)];
        if (r.chance(1, 6))
        {
            // A lead byte of any kind and some number of continuation bytes, right or wrong
            static const int lead[] = { 0x80, 0xc0, 0xc3, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff };
            s = r.chance(1, 2) ? "a" : "";
            s += (char)lead[r.below(15)];
            int c = r.range(0, 5);
            for (int i = 0; i < c; i++) s += (char)(r.chance(1, 10) ? r.range(1, 255) : 0x80 + r.below(64));
            if (r.chance(1, 3)) s += "z";
        }
        if (r.chance(1, 8)) s += (char)r.range(0, 255);
        if (r.chance(1, 8)) s += w[r.below(16)];
        return "s" + sim::enc(s);
    }
    str tokRef(Rng& r) { return r.chance(1, 3) ? "h" + num(r.below(NH)) : "e" + num(r.below(NH)) + "." + num(r.below(5)); }
    str tok(Rng& r, int t)
    {
        int k = r.below(6);
        if (k < 2) return tokRef(r);
        return tokScalar(r, t);
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        bool oom = variant == "oom" || r.chance(1, 4);
        int n = r.range(3, 40);
        int prefer = r.range(TYPE_INT, TYPE_DOUBLE);
        auto T = [&] { return r.chance(2, 3) ? prefer : r.range(TYPE_CHAR, TYPE_CDOUBLE); };
        auto join = [&](const std::vector<str>& v) { str s; for (auto& x : v) s += (s.empty() ? "" : ";") + x; return s.empty() ? str("-") : s; };
        for (int i = 0; i < n; i++)
        {
            str name, form = "-";
            std::vector<str> a;
            long k = r.below(8);
            int d = r.below(NH);
            int w = i < 3 ? r.below(8) : r.below(34);
            if (w < 2) { name = "set"; a.push_back(r.chance(1, 12) ? "N" : r.chance(1, 3) ? tokStr(r) : r.chance(1, 3) ? tokRef(r) : tokScalar(r, T())); }
            else if (w < 5) { name = "elems"; int c = r.range(0, 5); for (int j = 0; j < c; j++) a.push_back(r.chance(1, 4) ? tokStr(r) : r.chance(1, 12) ? "N" : tok(r, T())); }
            else if (w < 7) { name = "ints"; int c = r.range(0, 6); for (int j = 0; j < c; j++) a.push_back(tokScalar(r, TYPE_INT)); }
            else if (w < 10) { name = "list"; int t = T(); int c = r.range(0, 5); for (int j = 0; j < c; j++) a.push_back(r.chance(1, 8) ? tokStr(r) : r.chance(1, 10) ? tokRef(r) : tokScalar(r, r.chance(1, 10) ? T() : t)); }
            else if (w < 12) { name = "texts"; form = r.chance(1, 2) ? "n" : "z"; int c = r.range(0, 4); for (int j = 0; j < c; j++) a.push_back(tokStr(r)); }
            else if (w < 14) { name = "text"; form = r.chance(1, 2) ? "n" : "z"; a.push_back(tokStr(r)); }
            else if (w < 17) { name = "fill"; a.push_back(tok(r, T())); }
            else if (w < 20) { name = "view"; form = r.chance(1, 2) ? "var" : "list"; if (r.chance(5, 6)) a.push_back(tok(r, T())); }
            else if (w < 22) { name = "shaped"; a.push_back(tok(r, T())); }
            else if (w < 26)
            {
                name = r.chance(1, 2) ? "range" : "irange";
                int t = r.chance(1, 2) ? (int)TYPE_INT : prefer;
                int c = t == TYPE_INT ? r.range(1, 3) : 3;
                for (int j = 0; j < c; j++) a.push_back(r.chance(1, 2) ? tokRef(r) : j == 2 ? tokScalar(r, t) : tokScalar(r, t));
            }
            else if (w < 29) { name = "cast"; if (r.chance(1, 3)) { form = "in"; a.push_back("h" + num(d)); } else a.push_back(r.chance(1, 4) ? tokStr(r) : tok(r, T())); }
            else if (w < 30) { name = "alloc"; a.push_back("h" + num(r.below(NH))); }
            else if (w < 31) { name = "top"; a.push_back("h" + num(r.below(NH))); }
            else if (w < 32) { name = "presize"; k = r.below(20); }
            else if (w < 33) { name = "comma"; a.push_back(tok(r, T())); }
            else { name = "ask"; a.push_back(r.chance(1, 3) ? tokStr(r) : tokRef(r)); }
            if (name == "view" || name == "shaped") { static const int S[] = { 1, 2, 3, 5, 11, 12, 21, 22, 23, 32, 41, 222, 123, 231 }; k = S[r.below(14)]; }
            Line l = { "do", name, num(d), join(a), num(k), form };
            if (oom && name != "ask" && name != "presize" && name != "comma" && r.chance(1, 3)) { l.push_back(num(1 + r.below(r.chance(1, 2) ? 6 : 30))); l.push_back(r.chance(1, 4) ? "-1" : "1"); }
            p.add(l);
        }
    }
    sim::Register reg({ "make", gen, run, false, true });
}
