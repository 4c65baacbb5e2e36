// Histories of operations on handles, against the reference model (C01-C05).
#include "model.h"
#include <cstring>
#include <algorithm>
#include <functional>
using namespace libube;
using namespace model;
using sim::Line;
using sim::Plan;
using sim::Rng;
using sim::num;
using sim::toi;

namespace
{
    const int MAXH = 6, MAXSIZE = 70;
    enum St { DONE, THROW, SKIP };

    // ------------------------------------------------------------ plan tokens
    std::vector<str> cut(const str& s, char c)
    {
        std::vector<str> r(1);
        for (char x : s) if (x == c) r.push_back(""); else r.back() += x;
        return r;
    }
    const char TC[] = "?cilfdzZ";    // by type number

    str tokScalar(Rng& r, int t)
    {
        int v = r.range(-9, 9);
        if (r.chance(1, 12)) v = r.range(-100, 100);
        str s(1, TC[t]);
        if (t == TYPE_CHAR) return s + num(r.chance(1, 10) ? r.range(-128, 127) : r.range(97, 104));
        if (t <= TYPE_LONG) return s + num(v);
        if (t <= TYPE_DOUBLE) return s + sim::dnum(v + r.range(0, 3) * 0.25);
        return s + sim::dnum(v) + "," + sim::dnum(r.range(-2, 2));
    }
    str tokStr(Rng& r, bool nul = false)
    {
        static const char* w[] = { "", "a", "b", "ab", "aa", "abc", "b a", "key", "keys", "x", "longer than eight", "\xc3\xa9", "\xff", "zz", "B" };
        str s = w[r.below(15)];
        if (r.chance(1, 8)) s += (char)r.range(1, 255);
        return "s" + sim::enc(s);
    }
    str tokArr(Rng& r)
    {
        int t = r.range(TYPE_INT, TYPE_CDOUBLE), n = r.chance(1, 6) ? r.range(6, 18) : r.range(0, 4);
        str s = str("A") + TC[t];
        for (int i = 0; i < n; i++) s += ":" + tokScalar(r, t).substr(1);
        return s;
    }

    struct World
    {
        State m;
        std::vector<var> h;
        str what;
    };

    Val numTok(char c, const str& s)
    {
        const char* p = strchr(TC, c);
        int t = p ? (int)(p - TC) : 0;
        auto v = cut(s, ',');
        if (t <= TYPE_LONG) { long x = atol(v[0].c_str()); Val r; r.t = t; r.i = t == TYPE_CHAR ? (char)x : t == TYPE_INT ? (int)x : x; return r; }
        return mkScalar(t, atof(v[0].c_str()), v.size() > 1 ? atof(v[1].c_str()) : 0);
    }

    // ------------------------------------------------------------ places an operation may act on
    struct Place
    {
        int h = 0;
        bool elem = false;
        int idx = 0;          // element position
        bool elem2 = false;
        int idx2 = 0;
        bool key = false;
        str keyTok;
    };
    // A value argument: what it is in the model, and the variable to pass
    struct Arg { Val v; bool ok = false; bool fromHandle = false; Place p; str tok; };
    Arg parseArg(const str& t, World& w);
    // Resolves against the model; false if there is nothing to act on
    bool parsePlace(const str& t, World& w, Place& p, State& m)
    {
        auto v = cut(t.substr(1), '.');
        p.h = atoi(v[0].c_str()) % (int)m.size();
        if (t[0] == 'h') return true;
        if (t[0] == 'k')
        {
            p.key = true;
            p.keyTok = t.substr(t.find('.') + 1);
            if (!m[p.h].arr() || m[p.h].o->type != TYPE_PAIR) return false;
            // only entries that exist: setk makes them
            Arg k = parseArg(p.keyTok, w);
            if (!k.ok || k.fromHandle || k.v.nil()) return false;
            size_t i = lowerKey(*m[p.h].o, k.v);
            return i < m[p.h].o->k.size() && eq(m[p.h].o->k[i], k.v);
        }
        if (v.size() < 2 || !m[p.h].arr() || m[p.h].o->e.empty()) return false;
        p.elem = true;
        p.idx = atoi(v[1].c_str()) % (int)m[p.h].o->e.size();
        if (v.size() < 3) return true;
        const Val& x = m[p.h].o->e[p.idx];
        if (!x.arr() || x.o->e.empty()) return false;
        p.elem2 = true;
        p.idx2 = atoi(v[2].c_str()) % (int)x.o->e.size();
        return true;
    }

    var actualOf(const Val& v)
    {
        std::map<Obj*, var> memo;
        return build(v, memo);
    }
    Arg parseArg(const str& t, World& w)
    {
        Arg a;
        a.tok = t;
        a.ok = true;
        switch (t[0])
        {
        case 'N': return a;
        case 's': a.v = mkStr(sim::dec(t.substr(1))); return a;
        case 'A':
        {
            auto v = cut(t.substr(2), ':');
            int ty = strchr(TC, t[1]) - TC;
            a.v = mkArr(ty);
            for (size_t i = 1; i < v.size(); i++) a.v.o->e.push_back(numTok(t[1], v[i]));
            return a;
        }
        case 'h': case 'e': case 'n':
            if (!parsePlace(t, w, a.p, w.m)) { a.ok = false; return a; }
            a.fromHandle = true;
            a.v = w.m[a.p.h];
            if (a.p.elem) a.v = a.v.o->e[a.p.idx];
            if (a.p.elem2) a.v = a.v.o->e[a.p.idx2];
            if (a.p.elem) a.v = value(a.v);
            return a;
        case 'C':
            a.p.h = atoi(t.c_str() + 1) % (int)w.m.size();
            a.v = shallow(w.m[a.p.h]);
            a.fromHandle = true;
            return a;
        default:
            a.v = numTok(t[0], t.substr(1));
            a.v = value(a.v);
            return a;
        }
    }
    var argVar(const Arg& a, World& w)
    {
        if (!a.fromHandle) return actualOf(a.v);
        if (a.tok[0] == 'C') return w.h[a.p.h].copy();
        if (!a.p.elem) return w.h[a.p.h];
        if (!a.p.elem2) return w.h[a.p.h].at(a.p.idx);
        return w.h[a.p.h].at(a.p.idx).at(a.p.idx2);
    }

    bool numericDense(int t) { return t >= TYPE_CHAR && t <= TYPE_CDOUBLE; }
    // May v be stored into an element of type t?
    bool storable(int t, const Val& v)
    {
        if (v.scalar()) return true;
        return v.arr() && v.o->type == TYPE_CDOUBLE && v.o->e.size() == 1;
    }
    bool allScalar(const Val& v)
    {
        if (!v.arr() || v.o->type == TYPE_PAIR) return false;
        for (auto& e : v.o->e) if (!e.scalar()) return false;
        return true;
    }
    bool keyLike(const Val& v)
    {
        if (v.nil()) return false;
        return v.scalar() || v.o->dense();
    }

    // ------------------------------------------------------------ the operations on the model
    void arrayOf(Val& s)
    {
        if (s.arr()) return;
        Val n = mkArr(s.nil() ? (int)TYPE_VAR : s.t);
        n.o->e.push_back(s);
        s = n;
    }
    St mStoreAt(Val& s, size_t i, const Val& v)
    {
        Obj& o = *s.o;
        if (o.type == TYPE_PAIR && i >= o.e.size()) return SKIP;
        if (o.dense()) { if (!storable(o.type, v)) return SKIP; }
        else if (reaches(v, &o)) return SKIP;
        Val x = o.dense() ? cast(o.type, v) : v;
        if (i >= o.e.size()) o.e.resize(i + 1);
        o.e[i] = x;
        return DONE;
    }
    St mSetI(Val& s, long i, const Val& v)
    {
        if (i < 0) return THROW;
        size_t n = s.nil() ? 0 : s.scalar() ? 1 : s.o->e.size();
        if ((size_t)i > n || i > MAXSIZE) return SKIP;
        if (s.nil()) { s = mkArr(TYPE_VAR); s.o->e.resize(1); }
        arrayOf(s);
        return mStoreAt(s, i, v);
    }
    St mPush(Val& s, const Val& v)
    {
        if (s.nil() && v.scalar()) { s = v; return DONE; }
        if (s.nil() && storable(TYPE_CDOUBLE, v)) return SKIP;
        if (s.scalar() && v.t != s.t) return THROW;
        if (s.arr() && s.o->type == TYPE_PAIR) return SKIP;
        return mSetI(s, s.nil() ? 0 : s.scalar() ? 1 : s.o->e.size(), v);
    }
    St mInsert(Val& s, long i, const Val& v)
    {
        size_t n = s.nil() ? 0 : s.scalar() ? 1 : s.o->e.size();
        if (s.nil() || (s.arr() && s.o->type == TYPE_PAIR)) return SKIP;
        if (i < 0 || i > (long)n) return THROW;
        if (s.arr() && s.o->type == TYPE_VAR)
        {
            if (reaches(v, s.o.get())) return SKIP;
            s.o->e.insert(s.o->e.begin() + i, v);
            return DONE;
        }
        std::vector<Val> items;
        if (v.nil()) return SKIP;
        if (v.scalar()) items.push_back(v);
        else if (allScalar(v)) items = v.o->e;
        else return SKIP;
        if (s.scalar() && items.empty()) return SKIP;
        if (n + items.size() > (size_t)MAXSIZE) return SKIP;
        arrayOf(s);
        for (auto& x : items) x = cast(s.o->type, x);
        s.o->e.insert(s.o->e.begin() + i, items.begin(), items.end());
        return DONE;
    }
    St mUnshift(Val& s, const Val& v)
    {
        if (s.nil()) { s = v; return DONE; }
        if (s.arr() && s.o->type == TYPE_PAIR) return THROW;
        if (s.arr() && s.o->e.size() > (size_t)MAXSIZE) return SKIP;
        if (s.scalar() || s.o->dense())
        {
            int t = s.scalar() ? s.t : s.o->type;
            if (!storable(t, v)) return SKIP;
            arrayOf(s);
            s.o->e.insert(s.o->e.begin(), cast(t, v));
            return DONE;
        }
        if (reaches(v, s.o.get())) return SKIP;
        s.o->e.insert(s.o->e.begin(), v);
        return DONE;
    }
    St mTake(Val& s, long i, Val& out, bool copy)
    {
        if (!s.arr()) return s.nil() ? THROW : SKIP;
        if (i < 0 || i >= (long)s.o->e.size()) return THROW;
        out = value(s.o->e[i]);
        if (copy) out = shallow(out);
        s.o->e.erase(s.o->e.begin() + i);
        if (s.o->type == TYPE_PAIR) s.o->k.erase(s.o->k.begin() + i);
        return DONE;
    }
    St mSetK(Val& s, const Val& k, Val*& slot)
    {
        slot = 0;
        if (s.scalar() || (s.arr() && s.o->type != TYPE_PAIR)) return SKIP;
        if (s.nil()) s = mkArr(TYPE_PAIR);
        if (k.nil()) return DONE;
        if (!keyLike(k)) return SKIP;
        size_t i = lowerKey(*s.o, k);
        if (i == s.o->k.size() || !eq(s.o->k[i], k))
        {
            if (s.o->k.size() > (size_t)MAXSIZE) return SKIP;
            s.o->k.insert(s.o->k.begin() + i, k);
            s.o->e.insert(s.o->e.begin() + i, Val());
        }
        slot = &s.o->e[i];
        return DONE;
    }

    bool sameVal(const Val& a, const Val& b)
    {
        if (a.t != b.t) return false;
        if (a.t == TYPE_ARRAY) return a.o == b.o;
        auto eqf = [](double x, double y) { return x == y || (x != x && y != y); };
        return a.i == b.i && eqf(a.re, b.re) && eqf(a.im, b.im);
    }

    // ------------------------------------------------------------ one operation
    struct Op
    {
        str name;
        int a = 0;                 // result handle
        std::function<void()> act;
        St st = SKIP;
        Place target;
        bool hasTarget = false;
        std::function<void()> after;   // more checks on results
    };

    // The place as a slot of the model
    Val* slotOf(const Place& p, World& w)
    {
        Val* s = &w.m[p.h];
        if (p.key)
        {
            Val* q;
            Arg k = parseArg(p.keyTok, w);
            if (!k.ok || k.v.nil() || k.fromHandle) return 0;
            if (mSetK(*s, k.v, q) != DONE) return 0;
            return q;
        }
        if (p.elem)
        {
            if (s->o->dense()) return 0;
            s = &s->o->e[p.idx];
        }
        if (p.elem2)
        {
            if (s->o->dense()) return 0;
            s = &s->o->e[p.idx2];
        }
        return s;
    }
    void onPlace(const Place& p, World& w, const std::function<void(var&)>& f, const var& key)
    {
        if (p.key) { var t = w.h[p.h][key]; f(t); }
        else if (p.elem2) { var t = w.h[p.h].at(p.idx).at(p.idx2); f(t); }
        else if (p.elem) { var t = w.h[p.h].at(p.idx); f(t); }
        else f(w.h[p.h]);
    }

    void observeAll(World& w, Ident& id, const char* when)
    {
        sim::Host hs;
        str r;
        try
        {
            for (size_t i = 0; i < w.h.size() && r.empty(); i++)
                r = compare(w.h[i], w.m[i], id, "h" + num(i));
            if (r.empty())
                for (size_t i = 0; i < w.h.size() && r.empty(); i++)
                    for (size_t j = 0; j < w.h.size() && r.empty(); j++)
                    {
                        bool same = i == j || (w.m[i].arr() && w.m[i].o == w.m[j].o);
                        if (w.h[i].is(w.h[j]) != same) r = "h" + num(i) + ".is(h" + num(j) + ") is " + (same ? "false" : "true");
                    }
        }
        catch (std::exception& e) { r = str("reading a value raised ") + e.what(); }
        if (!r.empty()) sim::fail("value", "%s: %s", when, r.substr(0, 1500).c_str());
    }
    void compareAll(World& w, const char* when)
    {
        sim::Host hs;
        str r;
        try
        {
            for (size_t i = 0; i < w.h.size() && r.empty(); i++)
                for (size_t j = 0; j < w.h.size() && r.empty(); j++)
                {
                    bool e = eq(w.m[i], w.m[j]), l = lt(w.m[i], w.m[j]), g = lt(w.m[j], w.m[i]);
                    const var &x = w.h[i], &y = w.h[j];
                    str p = "h" + num(i) + "=" + show(w.m[i], 2) + " and h" + num(j) + "=" + show(w.m[j], 2);
                    if ((x == y) != e || (x != y) == e) r = p + (e ? " compare as different" : " compare as equal");
                    else if ((x < y) != l) r = p + ": < is " + (l ? "false" : "true");
                    else if ((x > y) != g) r = p + ": > is " + (g ? "false" : "true");
                    else if ((x <= y) == g || (x >= y) == l) r = p + ": <= or >= is wrong";
                    // and an element, still in its array
                    int n = w.m[i].arr() && r.empty() ? (int)w.m[i].o->e.size() : 0;
                    if (!n || w.m[i].nil()) continue;
                    int k = (int)((i * 7 + j * 3) % n);
                    const Val& me = w.m[i].o->e[k];
                    const var z = x.at(k);
                    e = eq(me, w.m[j]); l = lt(me, w.m[j]); g = lt(w.m[j], me);
                    p = "element " + num(k) + " of h" + num(i) + "=" + show(w.m[i], 2) + " and h" + num(j) + "=" + show(w.m[j], 2);
                    if ((z == y) != e || (z != y) == e || (y == z) != e) r = p + (e ? " compare as different" : " compare as equal");
                    else if ((z < y) != l || (y > z) != l) r = p + ": < is " + (l ? "false" : "true");
                    else if ((z > y) != g || (y < z) != g) r = p + ": > is " + (g ? "false" : "true");
                }
        }
        catch (std::exception& e) { r = str("comparing raised ") + e.what(); }
        if (!r.empty()) sim::fail("compare", "%s: %s", when, r.substr(0, 1500).c_str());
    }

    // sequence seen in a value, for the state after a failed allocation
    std::vector<Val> seq(const Val& v)
    {
        std::vector<Val> r;
        if (v.nil()) return r;
        if (v.scalar()) { r.push_back(v); return r; }
        return v.o->e;
    }
    // pre is a subsequence of now; one element of pre may be missing where dropped says so
    bool keeps(const std::vector<Val>& pre, const std::vector<Val>& now, int mayMiss)
    {
        size_t j = 0;
        for (size_t i = 0; i < pre.size(); i++)
        {
            size_t k = j;
            while (k < now.size() && !sameVal(pre[i], now[k])) k++;
            if (k == now.size()) { if (mayMiss-- > 0) continue; return false; }
            j = k + 1;
        }
        return true;
    }

    struct Run
    {
        World w;
        bool checkLive = false;
        u64 salt = 0;
        long oomNth = 0, oomBurst = 0;

        St apply(const Line& l, World& w, Op& op)
        {
            // Fills op from line l, acting on the model at once and leaving the real action in op.act
            const str& n = l[1];
            op.name = n;
            auto argOf = [&](size_t i) { return parseArg(i < l.size() ? l[i] : str("N"), w); };
            auto handle = [&](size_t i) { return (int)(toi(i < l.size() ? l[i].substr(l[i][0] == 'h') : "0") % (long)w.m.size()); };
            World* pw = &w;
            if (n == "set" || n == "push" || n == "unshift" || n == "append" || n == "insert" || n == "seti" || n == "setk" ||
                n == "clear" || n == "pop" || n == "shift" || n == "remove" || n == "resize" || n == "presize" || n == "array" ||
                n == "getkc" || n == "appstr" || n == "self")
            {
                Place p;
                size_t at = 2;
                bool result = n == "pop" || n == "shift" || n == "remove" || n == "getkc";
                if (result) { op.a = handle(2); at = 3; }
                if (at >= l.size() || !parsePlace(l[at], w, p, w.m)) return SKIP;
                Arg v = argOf(at + 1);
                long ix = at + 2 < l.size() ? toi(l[at + 2]) : 0;
                if (!v.ok) return SKIP;
                bool denseElem = (p.elem && !p.elem2 && w.m[p.h].o->dense()) ||
                                 (p.elem2 && w.m[p.h].o->e[p.idx].arr() && w.m[p.h].o->e[p.idx].o->dense());
                // A key argument is built before anything else happens
                auto key = std::make_shared<var>();
                if (p.key)
                {
                    Arg k = parseArg(p.keyTok, w);
                    if (!k.ok || k.v.nil() || k.fromHandle || !keyLike(k.v)) return SKIP;
                    *key = actualOf(k.v);
                }
                auto val = std::make_shared<var>();
                auto kv = std::make_shared<var>();
                op.target = p;
                op.hasTarget = true;
                bool slotElem = p.elem || p.key;
                if (n == "set")
                {
                    if (denseElem)
                    {
                        Obj& o = p.elem2 ? *w.m[p.h].o->e[p.idx].o : *w.m[p.h].o;
                        if (!storable(o.type, v.v)) return SKIP;
                        o.e[p.elem2 ? p.idx2 : p.idx] = cast(o.type, v.v);
                    }
                    else
                    {
                        Val* s = slotOf(p, w);
                        if (!s) return SKIP;
                        if (slotElem && v.v.arr())
                        {
                            Obj* own = p.elem2 ? w.m[p.h].o->e[p.idx].o.get() : w.m[p.h].o.get();
                            if (reaches(v.v, own)) return SKIP;
                        }
                        *s = v.v;
                    }
                    op.act = [=] { var x = argVar(v, *pw); sim::trace("go"); arm(); onPlace(p, *pw, [&](var& t) { t = x; }, *key); };
                    return DONE;
                }
                if (denseElem) return SKIP;
                Val* s = slotOf(p, w);
                if (!s) return SKIP;
                // Operations on an element which is a scalar stay within what a reference can do
                bool elemScalar = slotElem && s->scalar();
                Obj* own = p.key || (p.elem && !p.elem2) ? w.m[p.h].o.get() : p.elem2 ? w.m[p.h].o->e[p.idx].o.get() : 0;
                if (own && v.v.arr() && reaches(v.v, own)) return SKIP;
                St st = SKIP;
                if (n == "push") { if (s->arr() && s->o->e.size() > (size_t)MAXSIZE) return SKIP; st = mPush(*s, v.v); op.act = [=] { var x = argVar(v, *pw); arm(); onPlace(p, *pw, [&](var& t) { t.push(x); }, *key); }; }
                if (n == "unshift") { if (elemScalar) return SKIP; st = mUnshift(*s, v.v); op.act = [=] { var x = argVar(v, *pw); arm(); onPlace(p, *pw, [&](var& t) { t.unshift(x); }, *key); }; }
                if (n == "append")
                {
                    if (slotElem && !s->arr()) return SKIP;
                    st = mInsert(*s, s->arr() ? s->o->e.size() : 1, v.v);
                    op.act = [=] { var x = argVar(v, *pw); arm(); onPlace(p, *pw, [&](var& t) { t.append(x); }, *key); };
                }
                if (n == "self")
                {
                    // appending a value to itself
                    if (!s->arr() || !s->o->dense() || s->o->e.size() * 2 > (size_t)MAXSIZE) return SKIP;
                    std::vector<Val> e = s->o->e;
                    s->o->e.insert(s->o->e.end(), e.begin(), e.end());
                    st = DONE;
                    op.act = [=] { arm(); onPlace(p, *pw, [&](var& t) { t.append(t); }, *key); };
                }
                if (n == "insert")
                {
                    if (slotElem && !s->arr()) return SKIP;
                    long nn = (long)seq(*s).size();
                    if (ix >= 0) ix %= nn + 2;
                    st = mInsert(*s, ix, v.v);
                    op.act = [=] { var x = argVar(v, *pw); arm(); onPlace(p, *pw, [&](var& t) { t.insert(x, (int)ix); }, *key); };
                }
                if (n == "appstr")
                {
                    if (!s->arr() || s->o->type != TYPE_CHAR || !v.v.arr() || v.v.o->type != TYPE_CHAR) return SKIP;
                    str t;
                    for (auto& e : v.v.o->e) { if (!e.i) return SKIP; t += (char)e.i; }
                    if (s->o->e.size() + t.size() > (size_t)MAXSIZE) return SKIP;
                    for (auto& e : std::vector<Val>(v.v.o->e)) s->o->e.push_back(e);
                    st = DONE;
                    op.act = [=] { arm(); onPlace(p, *pw, [&](var& x) { x.append(t.c_str()); }, *key); };
                }
                if (n == "seti")
                {
                    if (elemScalar) { }
                    long nn = (long)seq(*s).size();
                    if (ix >= 0) ix %= nn + 1;
                    st = mSetI(*s, ix, v.v);
                    // a reference is to a place, which may itself become an array: take the value first
                    op.act = [=] { var x; x = argVar(v, *pw); arm(); onPlace(p, *pw, [&](var& t) { t[(int)ix] = x; }, *key); };
                }
                if (n == "setk")
                {
                    Arg k = argOf(at + 2);
                    if (!k.ok || k.fromHandle) return SKIP;
                    Val* q;
                    if (!k.v.nil() && !keyLike(k.v)) return SKIP;
                    if (s->arr() && reaches(v.v, s->o.get())) return SKIP;
                    st = mSetK(*s, k.v, q);
                    if (q) *q = v.v;
                    *kv = actualOf(k.v);
                    // a reference is to a position, which a new key may move: take the value first
                    op.act = [=] { var x; x = argVar(v, *pw); arm(); onPlace(p, *pw, [&](var& t) { t[*kv] = x; }, *key); };
                }
                if (n == "getkc")
                {
                    Arg k = argOf(at + 1);
                    if (!k.ok || k.fromHandle || (!k.v.nil() && !keyLike(k.v))) return SKIP;
                    Val* q;
                    st = mSetK(*s, k.v, q);
                    if (st == DONE) w.m[op.a] = q ? *q : Val();
                    *kv = actualOf(k.v);
                    int ra = op.a;
                    op.act = [=] { arm(); onPlace(p, *pw, [&](var& t) { pw->h[ra] = t[*kv]; }, *key); };
                }
                if (n == "clear") { *s = Val(); st = DONE; op.act = [=] { arm(); onPlace(p, *pw, [&](var& t) { t.clear(); }, *key); }; }
                if (n == "pop" || n == "shift" || n == "remove")
                {
                    if (elemScalar || s->scalar()) return SKIP;
                    Val out;
                    long nn = (long)seq(*s).size();
                    if (n == "shift" && s->nil()) st = DONE;
                    else if (n == "remove") { ix = toi(at + 1 < l.size() ? l[at + 1] : "0"); if (ix >= 0) ix %= nn + 1; st = s->nil() ? THROW : mTake(*s, ix, out, true); }
                    else st = mTake(*s, n == "pop" ? nn - 1 : 0, out, false);
                    if (st == DONE) w.m[op.a] = out;
                    int ra = op.a;
                    str nm = n;
                    op.act = [=] { arm(); onPlace(p, *pw, [&](var& t) { pw->h[ra] = nm == "pop" ? t.pop() : nm == "shift" ? t.shift() : t.remove((int)ix); }, *key); };
                }
                if (n == "resize")
                {
                    long nn = (long)seq(*s).size(), to = toi(at + 1 < l.size() ? l[at + 1] : "0");
                    if (s->scalar() || to < 0) return SKIP;
                    if (s->nil()) { to %= 20; *s = mkArr(TYPE_VAR); s->o->e.resize(to); st = DONE; }
                    else if (s->o->type == TYPE_VAR) { to %= nn + 10; if (to > MAXSIZE) return SKIP; s->o->e.resize(to); st = DONE; }
                    else { to %= nn + 1; s->o->e.resize(to); if (s->o->type == TYPE_PAIR) s->o->k.resize(to); st = DONE; }
                    op.act = [=] { arm(); onPlace(p, *pw, [&](var& t) { t.resize((int)to); }, *key); };
                }
                if (n == "presize")
                {
                    long nn = (long)seq(*s).size(), to = nn + toi(at + 1 < l.size() ? l[at + 1] : "0") % 40;
                    if (s->scalar() || to < nn) return SKIP;
                    if (s->nil()) *s = mkArr(TYPE_VAR);
                    st = DONE;
                    op.act = [=] { arm(); onPlace(p, *pw, [&](var& t) { t.presize((int)to); }, *key); };
                }
                if (n == "array") { if (elemScalar || (slotElem && s->nil())) return SKIP; arrayOf(*s); st = DONE; op.act = [=] { arm(); onPlace(p, *pw, [&](var& t) { t.array(); }, *key); }; }
                return st;
            }
            if (n == "copy")
            {
                int a = handle(2);
                Place p;
                if (l.size() < 4 || !parsePlace(l[3], w, p, w.m) || p.key) return SKIP;
                Arg v = parseArg(l[3], w);
                if (!v.ok) return SKIP;
                op.a = a;
                w.m[a] = shallow(v.v);
                op.act = [=] { arm(); pw->h[a] = argVar(v, *pw).copy(); };
                return DONE;
            }
            if (n == "at" || n == "get")
            {
                int a = handle(2), b = handle(3);
                long ix = l.size() > 4 ? toi(l[4]) : 0;
                op.a = a;
                Val& s = w.m[b];
                long nn = (long)seq(s).size();
                if (ix >= 0) ix %= nn + 1;
                if (n == "get")
                {
                    if (ix >= nn && ix >= 0) return SKIP;
                    op.act = [=] { arm(); pw->h[a] = pw->h[b][(int)ix]; };
                    if (ix < 0) return THROW;
                    arrayOf(s);
                    w.m[a] = value(s.o->e[ix]);
                    return DONE;
                }
                op.act = [=] { arm(); const var& c = pw->h[b]; pw->h[a] = c.at((int)ix); };
                if (s.nil() || ix < 0 || ix >= nn) return THROW;
                Val r = s.arr() ? value(s.o->e[ix]) : s;
                w.m[a] = r;
                return DONE;
            }
            if (n == "atk")
            {
                int a = handle(2), b = handle(3);
                Arg k = argOf(4);
                op.a = a;
                if (!k.ok || k.fromHandle || !keyLike(k.v)) return SKIP;
                auto kv = std::make_shared<var>(actualOf(k.v));
                op.act = [=] { arm(); const var& c = pw->h[b]; pw->h[a] = c.at(*kv); };
                Val& s = w.m[b];
                if (!s.arr() || s.o->type != TYPE_PAIR) return THROW;
                size_t i = lowerKey(*s.o, k.v);
                Val r = i < s.o->k.size() && eq(s.o->k[i], k.v) ? s.o->e[i] : Val();
                w.m[a] = r;
                return DONE;
            }
            if (n == "key")
            {
                int a = handle(2), b = handle(3);
                Val& s = w.m[b];
                op.a = a;
                long ix = l.size() > 4 ? toi(l[4]) : 0;
                if (!s.arr() || s.o->type != TYPE_PAIR)
                {
                    op.act = [=] { arm(); pw->h[a] = pw->h[b].key((int)ix).copy(); };
                    return THROW;
                }
                if (ix >= 0) ix %= (long)s.o->k.size() + 1;
                op.act = [=] { arm(); pw->h[a] = pw->h[b].key((int)ix).copy(); };
                if (ix < 0 || ix >= (long)s.o->k.size()) return THROW;
                Val r = shallow(s.o->k[ix]);
                w.m[a] = r;
                return DONE;
            }
            if (n == "index")
            {
                int b = handle(2);
                Arg v = argOf(3);
                if (!v.ok) return SKIP;
                Val& s = w.m[b];
                long want = -1;
                if (s.arr() && s.o->type == TYPE_PAIR)
                {
                    if (!keyLike(v.v)) return SKIP;
                    size_t i = lowerKey(*s.o, v.v);
                    if (i < s.o->k.size() && eq(s.o->k[i], v.v)) want = i;
                }
                else
                {
                    auto e = seq(s);
                    for (size_t i = 0; i < e.size(); i++) if (eq(value(e[i]), v.v)) { want = i; break; }
                }
                auto got = std::make_shared<long>(-2);
                op.act = [=] { var x = argVar(v, *pw); arm(); *got = (long)pw->h[b].index(x); };
                op.after = [=] { if (*got != want) sim::fail("index", "index of %s is %ld, expected %ld in %s", show(v.v).c_str(), *got, want, show(pw->m[b]).c_str()); };
                return DONE;
            }
            if (n == "sort")
            {
                int a = handle(2), b = handle(3);
                op.a = a;
                Val s = w.m[b];
                std::vector<Val> e = seq(s);
                for (auto& x : e) { x = value(x); if (x.arr() && !x.o->dense()) return SKIP; }
                std::vector<Val> so = e;
                std::stable_sort(so.begin(), so.end(), lt);
                // which of several equal arrays comes first is free
                for (size_t i = 0; i + 1 < so.size(); i++) if (eq(so[i], so[i + 1]) && !sameVal(so[i], so[i + 1])) return SKIP;
                Val r = mkArr(TYPE_VAR);
                r.o->e = so;
                w.m[a] = r;
                op.act = [=] { arm(); pw->h[a] = pw->h[b].sort(); };
                return DONE;
            }
            if (n == "fill")
            {
                int a = handle(2);
                Arg v = argOf(3);
                long c = 2 + (l.size() > 4 ? toi(l[4]) : 0) % 20;
                op.a = a;
                if (!v.ok || !v.v.scalar()) return SKIP;
                Val r = mkArr(v.v.t);
                r.o->e.assign(c, v.v);
                w.m[a] = r;
                op.act = [=] { var x = argVar(v, *pw); arm(); pw->h[a] = var((int)c, x); };
                return DONE;
            }
            if (n == "list")
            {
                int a = handle(2);
                op.a = a;
                std::vector<Arg> v;
                for (size_t i = 3; i < l.size() && i < 6; i++) { v.push_back(parseArg(l[i], w)); if (!v.back().ok) return SKIP; }
                Val r;
                St st = DONE;
                for (auto& x : v) if (st == DONE) st = mPush(r, x.v);
                if (st == SKIP) return SKIP;
                if (st == DONE) w.m[a] = r;
                op.act = [=] {
                    std::vector<var> x;
                    for (auto& y : v) x.push_back(argVar(y, *pw));
                    arm();
                    if (x.size() == 0) pw->h[a] = var({});
                    else if (x.size() == 1) pw->h[a] = var(std::initializer_list<var>{ x[0] });
                    else if (x.size() == 2) pw->h[a] = var({ x[0], x[1] });
                    else pw->h[a] = var({ x[0], x[1], x[2] });
                };
                return st;
            }
            if (n == "temp")
            {
                // a copy of the handle made by passing it on, changed there
                int b = handle(2);
                Arg v = argOf(3);
                if (!v.ok) return SKIP;
                Val t = w.m[b];
                St st = mPush(t, v.v);
                if (t.arr() && t.o->e.size() > (size_t)MAXSIZE) return SKIP;
                op.act = [=] { var x = argVar(v, *pw); arm(); [](var y, var z) { y.push(z); }(pw->h[b], x); };
                return st;
            }
            if (n == "swap")
            {
                int a = handle(2), b = handle(3);
                std::swap(w.m[a], w.m[b]);
                op.act = [=] { arm(); std::swap(pw->h[a], pw->h[b]); };
                return DONE;
            }
            if (n == "raw")
            {
                int b = handle(2);
                Arg v = argOf(3);
                Val& s = w.m[b];
                if (!v.ok || !v.v.arr() || v.fromHandle || !s.arr() || s.o->type != v.v.o->type) return SKIP;
                int t = s.o->type;
                if (t != TYPE_CHAR && t != TYPE_INT && t != TYPE_CDOUBLE) return SKIP;
                if (s.o->e.size() + v.v.o->e.size() > (size_t)MAXSIZE) return SKIP;
                std::vector<Val> e = v.v.o->e;
                s.o->e.insert(s.o->e.end(), e.begin(), e.end());
                op.act = [=] {
                    std::vector<char> c; std::vector<int> i; std::vector<cdouble> z;
                    for (auto& x : e) { c.push_back((char)x.i); i.push_back((int)x.i); z.push_back(cdouble(x.re, x.im)); }
                    arm();
                    if (t == TYPE_CHAR) pw->h[b].append<char>((int)e.size(), c.data());
                    if (t == TYPE_INT) pw->h[b].append<int>((int)e.size(), i.data());
                    if (t == TYPE_CDOUBLE) pw->h[b].append<cdouble>((int)e.size(), z.data());
                };
                return DONE;
            }
            if (n == "cmp") { op.act = [] { }; op.after = [=] { compareAll(*pw, "on request"); }; return DONE; }
            return SKIP;
        }
        void arm() { if (oomNth > 0) { sim::alloc::failAt(oomNth, oomBurst); } }

        // After a failed allocation: everything untouched is exact, what was being changed is whole
        void afterOom(const State& preM, const State& postM, const Op& op, const Line& l)
        {
            sim::Host hs;
            // What may differ: handles and arrays which the operation changes, and its target
            std::map<Obj*, OP> memo;
            std::set<size_t> freeH;
            if (op.hasTarget && !op.target.elem && !op.target.key) freeH.insert(op.target.h);
            std::set<Obj*> freeO;
            str d;
            // post is a clone of pre with changes; pre objects are found through the clone memo
            for (size_t i = 0; i < preM.size(); i++)
            {
                bool same = preM[i].t == postM[i].t && !preM[i].o == !postM[i].o && preM[i].i == postM[i].i && preM[i].re == postM[i].re && preM[i].im == postM[i].im;
                if (same && preM[i].o) same = cloneOf.count(preM[i].o.get()) && cloneOf[preM[i].o.get()] == postM[i].o;
                if (!same) freeH.insert(i);
            }
            for (auto& c : cloneOf)
            {
                Obj &p = *c.first, &q = *c.second;
                bool same = p.type == q.type && p.e.size() == q.e.size() && p.k.size() == q.k.size();
                for (size_t i = 0; same && i < p.e.size(); i++)
                {
                    same = p.e[i].t == q.e[i].t && p.e[i].i == q.e[i].i && p.e[i].re == q.e[i].re && p.e[i].im == q.e[i].im;
                    if (same && p.e[i].o) same = cloneOf.count(p.e[i].o.get()) && cloneOf[p.e[i].o.get()] == q.e[i].o;
                    else if (same) same = !q.e[i].o;
                }
                if (!same) freeO.insert(&p);
            }
            if (op.hasTarget)
            {
                const Val& x = preM[op.target.h];
                if (x.arr()) freeO.insert(x.o.get());
                if (x.arr() && op.target.elem && op.target.idx < (int)x.o->e.size() && x.o->e[op.target.idx].arr())
                {
                    const Val& y = x.o->e[op.target.idx];
                    freeO.insert(y.o.get());
                    if (op.target.elem2 && op.target.idx2 < (int)y.o->e.size() && y.o->e[op.target.idx2].arr()) freeO.insert(y.o->e[op.target.idx2].o.get());
                }
            }
            // Walk the actual values with the state before, capturing what is free
            std::map<IHeap*, OP> known;
            std::map<IHeap*, Obj*> heapOf;
            State now;
            str bad;
            try
            {
                for (auto& k : before.objs) heapOf[k.first] = k.second.get();
                for (size_t i = 0; i < w.h.size(); i++) now.push_back(capture(w.h[i], known));
            }
            catch (std::exception& e) { bad = str("after a failed allocation, reading raised ") + e.what(); }
            if (!bad.empty()) sim::fail("oom-state", "%s", bad.c_str());
            // captured object <-> object before
            std::map<Obj*, Obj*> was;
            for (auto& k : known) if (heapOf.count(k.first)) was[k.second.get()] = heapOf[k.first];
            auto sameElem = [&](const Val& a, const Val& b) {   // a before, b now
                if (a.t != b.t) return false;
                if (a.t == TYPE_ARRAY) { if (!a.o || !b.o) return !a.o && !b.o; return was.count(b.o.get()) && was[b.o.get()] == a.o.get(); }
                auto eqf = [](double x, double y) { return x == y || (x != x && y != y); };
        return a.i == b.i && eqf(a.re, b.re) && eqf(a.im, b.im);
            };
            int drop = (l[1] == "pop" || l[1] == "shift" || l[1] == "remove") ? 1 : 0;
            bool overwrite = l[1] == "set" || l[1] == "seti" || l[1] == "setk" || l[1] == "clear" || l[1] == "getkc";
            auto keepsSeq = [&](const std::vector<Val>& p, const std::vector<Val>& q, int miss) {
                size_t j = 0;
                for (size_t i = 0; i < p.size(); i++)
                {
                    size_t k = j;
                    while (k < q.size() && !sameElem(p[i], q[k])) k++;
                    if (k == q.size()) { if (miss-- > 0) continue; return false; }
                    j = k + 1;
                }
                return true;
            };
            for (size_t i = 0; i < now.size() && bad.empty(); i++)
            {
                if (sameElem(preM[i], now[i])) continue;
                if (!freeH.count(i)) { bad = "h" + num(i) + " was " + show(preM[i], 2) + " and is now " + show(now[i], 2); break; }
                bool target = op.hasTarget && op.target.h == (int)i;
                if (!target && !(op.a == (int)i)) continue;
                if (target && !overwrite && op.a != (int)i && !keepsSeq(seq(preM[i]), seq(now[i]), drop))
                    bad = "h" + num(i) + " lost elements: was " + show(preM[i], 2) + " and is now " + show(now[i], 2);
                if (!target && op.a == (int)i)
                {
                    // a result handle: as before, or as it would be
                    if (!eq(now[i], postM[i])) bad = "h" + num(i) + " is neither what it was nor the result: " + show(now[i], 2);
                }
            }
            for (auto& c : was)
            {
                if (!bad.empty()) break;
                Obj &q = *c.first, &p = *c.second;
                bool same = p.type == q.type && p.e.size() == q.e.size() && p.k.size() == q.k.size();
                for (size_t i = 0; same && i < p.e.size(); i++) same = sameElem(p.e[i], q.e[i]);
                for (size_t i = 0; same && i < p.k.size(); i++) same = eq(p.k[i], q.k[i]);
                if (same) continue;
                Val vp, vq;
                vp.o = OP(OP(), &p);
                vq.o = OP(OP(), &q);
                if (!freeO.count(&p)) bad = "an array not involved was " + show(vp, 2) + " and is now " + show(vq, 2);
                else if (p.type != q.type) bad = "an array changed its type: " + show(vp, 2) + " is now " + show(vq, 2);
                else if (!keepsSeq(p.e, q.e, drop + (overwrite ? 1 : 0))) bad = "an array lost elements: was " + show(vp, 2) + " and is now " + show(vq, 2);
                else if (q.type == TYPE_PAIR)
                {
                    if (q.e.size() != q.k.size()) bad = "a map lost a key";
                    for (size_t i = 0; i + 1 < q.k.size(); i++) if (!lt(q.k[i], q.k[i + 1])) bad = "a map is no longer in key order: " + show(vq, 2);
                }
            }
            if (!bad.empty()) sim::fail("oom-state", "after a failed allocation in %s: %s", op.name.c_str(), bad.substr(0, 1500).c_str());
            w.m = now;
        }
        Ident before;
        std::map<Obj*, OP> cloneOf;

        void step(const Line& l, bool retry)
        {
            Op op;
            cloneOf.clear();
            State pre = w.m;
            State post;
            // The model works on a clone, so that the state before stays available
            w.m = clone(pre, &cloneOf);
            op.st = apply(l, w, op);
            if (op.st == SKIP) { w.m = pre; sim::count("op.skipped"); return; }
            if (op.st == THROW) w.m = pre;
            post = w.m;
            for (auto& v : w.m) if (v.arr() && v.o->e.size() > 200) { w.m = pre; return; }
            sim::count("op.executed");
            if (sim::verbose()) { str t; for (auto& x : l) t += x + " "; sim::trace("%s  # %s", t.c_str(), describe(post).c_str()); }
            else sim::note(sim::hash(op.name));
            sim::Outcome o = sim::sut(op.act);
            long failed = sim::alloc::failed();
            sim::alloc::heal();
            long hadOom = oomNth;
            oomNth = 0;
            if (o.kind == sim::NOMEM && failed > 0 && hadOom)
            {
                sim::count("oom.raised");
                w.m = pre;
                afterOom(pre, post, op, l);
                // Again, with memory available: it must go through if nothing was done yet
                Ident id;
                observeAll(w, id, "after a failed allocation");
                before = id;
                bool untouched = true;
                for (size_t i = 0; i < pre.size() && untouched; i++) untouched = eq(pre[i], w.m[i]) && show(pre[i], 6) == show(w.m[i], 6);
                if (untouched && !retry) { sim::count("oom.retried"); step(l, true); }
                return;
            }
            if (o.kind == sim::NOMEM) sim::fail("unexpected-exception", "%s raised bad_alloc although memory was available", op.name.c_str());
            if (o.kind == sim::THREW && op.st != THROW)
                sim::fail("unexpected-exception", "%s raised: %s (state before: %s)", op.name.c_str(), o.what.substr(0, 300).c_str(), describe(pre).c_str());
            if (o.kind == sim::OK && op.st == THROW)
                sim::fail("missing-exception", "%s was accepted (state before: %s)", op.name.c_str(), describe(pre).c_str());
            if (o.kind == sim::THREW) sim::count("op.threw");
            Ident id;
            str when = "after " + op.name;
            observeAll(w, id, when.c_str());
            before = id;
            if (op.after && o.ok()) { sim::Host hs; op.after(); }
        }
        str describe(const State& s)
        {
            str r;
            for (size_t i = 0; i < s.size(); i++) r += "h" + num(i) + "=" + show(s[i], 2) + " ";
            return r.substr(0, 900);
        }
        // Everything live must be needed by what the handles show: compared with the same values built anew
        void liveCheck(const char* when)
        {
            size_t l0 = sim::alloc::liveBlocks(), l1;
            std::vector<var> again;
            again.reserve(w.m.size());
            {
                std::map<Obj*, var> memo;
                sim::sut([&] {
                    for (auto& v : w.m) again.push_back(build(v, memo));
                });
                // map nodes and the like of the harness are not counted
                sim::Host hs;
                size_t nodes = memo.size();
                l1 = sim::alloc::liveBlocks() - nodes;
            }
            size_t need = l1 - l0;
            sim::sut([&] { again.clear(); });
            if (l0 > need) sim::fail("not-released", "%s: %zu blocks are held, the same values need %zu: %s", when, l0, need, sim::alloc::liveList(3).c_str());
        }
    };

    void runOnce(const Plan& p, bool live)
    {
        Run r;
        int n = (int)p.iparam("handles", 4);
        r.w.h.resize(n);
        r.w.m.resize(n);
        r.checkLive = live;
        int k = 0;
        for (auto& l : p.lines)
        {
            if (l[0] == "oom" && l.size() > 2) { r.oomNth = toi(l[1]); r.oomBurst = toi(l[2]); continue; }
            if (l[0] != "op" || l.size() < 2) continue;
            r.step(l, false);
            r.oomNth = 0;
            if (live && ++k % 3 == 0) r.liveCheck("while running");
            u64 h = 7;
            for (auto& v : r.w.m) h = sim::mix(h, hashOf(v, 3));
            sim::state(h);
        }
        compareAll(r.w, "at the end");
        if (live) r.liveCheck("at the end");
        sim::sut([&] { r.w.h.clear(); });
        if (live && sim::alloc::liveBlocks())
            sim::fail("leak", "%zu blocks are still held when every handle is gone: %s", sim::alloc::liveBlocks(), sim::alloc::liveList(4).c_str());
    }
    void run(const Plan& p)
    {
        bool live = p.iparam("live", 0);
        if (live)
        {
            // Once to let the library set up what it keeps, then again counting
            runOnce(p, false);
            sim::alloc::forget();
        }
        runOnce(p, live);
    }

    // ------------------------------------------------------------ generation
    struct Gen
    {
        Rng& r;
        int nh;
        str prof;
        Gen(Rng& r, int nh, const str& p) : r(r), nh(nh), prof(p) {}
        str h() { return "h" + num(r.below(nh)); }
        str place(int elemPct)
        {
            if ((int)r.below(100) >= elemPct) return h();
            int k = r.below(10);
            if (k < 6) return "e" + num(r.below(nh)) + "." + num(r.below(12));
            if (k < 8) return "n" + num(r.below(nh)) + "." + num(r.below(12)) + "." + num(r.below(12));
            return "k" + num(r.below(nh)) + "." + key();
        }
        str key()
        {
            int k = r.below(10);
            if (k < 4) return tokStr(r);
            if (k < 5) return "Ai:" + num(r.range(0, 3)) + (r.chance(1, 2) ? ":" + num(r.range(0, 3)) : str(""));
            if (k == 5) return tokScalar(r, TYPE_DOUBLE);
            if (k == 6) return tokScalar(r, r.range(TYPE_CHAR, TYPE_CFLOAT));
            if (k == 7 && r.chance(1, 2)) return tokScalar(r, TYPE_CDOUBLE);
            return tokScalar(r, TYPE_INT);
        }
        str scalar(int t = 0) { return tokScalar(r, t ? t : r.chance(2, 3) ? TYPE_INT : r.range(TYPE_CHAR, TYPE_CDOUBLE)); }
        str value()
        {
            int k = r.below(100);
            if (k < 25) return scalar();
            if (k < 40) return tokStr(r);
            if (k < 50) return tokArr(r);
            if (k < 75) return h();
            if (k < 92) return r.chance(1, 4) ? "n" + num(r.below(nh)) + "." + num(r.below(9)) + "." + num(r.below(9)) : "e" + num(r.below(nh)) + "." + num(r.below(12));
            if (k < 96) return "C" + num(r.below(nh));
            return "N";
        }
        str index() { return r.chance(1, 14) ? num(-1 - (int)r.below(3)) : num(r.below(60)); }
        Line alias()
        {
            int k = r.below(100);
            if (k < 18) return { "op", "set", place(45), value() };
            if (k < 36) return { "op", "push", place(30), value() };
            if (k < 42) return { "op", "copy", h(), r.chance(1, 3) ? "e" + num(r.below(nh)) + "." + num(r.below(9)) : h() };
            if (k < 47) return { "op", "at", h(), h(), index() };
            if (k < 51) return { "op", "get", h(), h(), index() };
            if (k < 58) return { "op", "seti", place(30), value(), index() };
            if (k < 66) return { "op", "setk", place(30), value(), key() };
            if (k < 69) return { "op", "getkc", h(), place(20), key() };
            if (k < 71) return { "op", "atk", h(), h(), key() };
            if (k < 74) return { "op", "clear", place(30) };
            if (k < 77) return { "op", "append", place(20), value() };
            if (k < 80) return { "op", "insert", place(20), value(), index() };
            if (k < 83) return { "op", "unshift", place(20), value() };
            if (k < 86) return { "op", "pop", h(), place(30) };
            if (k < 88) return { "op", "shift", h(), place(30) };
            if (k < 91) return { "op", "remove", h(), place(30), index() };
            if (k < 93) return { "op", "list", h(), value(), value(), value() };
            if (k < 94) return { "op", "swap", h(), h() };
            if (k < 95) return { "op", "temp", h(), value() };
            if (k < 96) return { "op", "resize", place(20), num(r.below(40)) };
            if (k < 97) return { "op", "presize", h(), num(r.below(40)) };
            if (k < 98) return { "op", "sort", h(), h() };
            if (k < 99) return { "op", "array", h() };
            return { "op", "cmp" };
        }
        int type = TYPE_INT;
        str same() { return r.chance(1, 10) ? scalar() : r.chance(1, 12) ? "e" + num(r.below(nh)) + "." + num(r.below(30)) : type == TYPE_VAR ? value() : tokScalar(r, type); }
        str splice()
        {
            if (r.chance(1, 5)) return h();
            if (r.chance(1, 6)) return "e" + num(r.below(nh)) + "." + num(r.below(30));
            if (type == TYPE_CHAR) return r.chance(2, 3) ? tokStr(r) : same();
            if (type == TYPE_VAR) return value();
            str s = str("A") + TC[type];
            int n = r.range(0, 5);
            for (int i = 0; i < n; i++) s += ":" + tokScalar(r, type).substr(1);
            return r.chance(2, 3) ? s : same();
        }
        // the handle the sequence work is on; others now and then
        str s() { return r.chance(4, 5) ? "h0" : h(); }
        Line seqOp(bool grow)
        {
            int k = r.below(100);
            if (grow && k < 50) return { "op", r.chance(2, 3) ? "push" : "append", s(), r.chance(1, 2) ? same() : splice() };
            k = r.below(100);
            if (k < 14) return { "op", "push", s(), same() };
            if (k < 22) return { "op", "append", s(), splice() };
            if (k < 32) return { "op", "insert", s(), splice(), index() };
            if (k < 42) return { "op", "remove", h(), s(), index() };
            if (k < 50) return { "op", "pop", h(), s() };
            if (k < 57) return { "op", "shift", h(), s() };
            if (k < 64) return { "op", "unshift", s(), same() };
            if (k < 70) return { "op", "seti", s(), same(), index() };
            if (k < 74) return { "op", "index", s(), same() };
            if (k < 77) return { "op", "sort", h(), s() };
            if (k < 80) return { "op", "at", h(), s(), index() };
            if (k < 83) return { "op", "resize", s(), num(r.below(70)) };
            if (k < 85) return { "op", "presize", s(), num(r.below(40)) };
            if (k < 87) return { "op", "copy", h(), s() };
            if (k < 89) return { "op", "set", r.chance(1, 2) ? h() : "e0." + num(r.below(40)), same() };
            if (k < 91) return { "op", "self", s() };
            if (k < 93) return { "op", "raw", s(), splice() };
            if (k < 94) return { "op", "appstr", s(), tokStr(r) };
            if (k < 96) return { "op", "fill", h(), tokScalar(r, type <= TYPE_CFLOAT ? type : (int)TYPE_INT), num(r.below(20)) };
            if (k < 98) return { "op", "get", h(), s(), index() };
            return { "op", "cmp" };
        }
        Line mapOp()
        {
            int k = r.below(100);
            if (k < 40) return { "op", "setk", s(), value(), key() };
            if (k < 50) return { "op", "atk", h(), s(), key() };
            if (k < 58) return { "op", "getkc", h(), s(), key() };
            if (k < 66) return { "op", "index", s(), key() };
            if (k < 72) return { "op", "remove", h(), s(), index() };
            if (k < 76) return { "op", "pop", h(), s() };
            if (k < 79) return { "op", "shift", h(), s() };
            if (k < 82) return { "op", "key", h(), s(), index() };
            if (k < 85) return { "op", "at", h(), s(), index() };
            if (k < 87) return { "op", "copy", h(), s() };
            if (k < 89) return { "op", "seti", s(), value(), index() };
            if (k < 91) return { "op", "sort", h(), s() };
            if (k < 93) return { "op", "resize", s(), num(r.below(30)) };
            if (k < 95) return { "op", "clear", h() };
            if (k < 97) return { "op", "set", h(), value() };
            if (k < 98) return { "op", "unshift", s(), value() };
            return { "op", "cmp" };
        }
    };
    void gen(Rng& r, Plan& p, const str& variant)
    {
        int nh = variant == "seq" ? r.range(2, 4) : r.range(2, MAXH);
        p.add({ "param", "handles", num(nh) });
        p.add({ "param", "variant", variant });
        if (variant == "release") p.add({ "param", "live", "1" });
        Gen g(r, nh, variant);
        int n = variant == "seq" ? r.range(15, 70) : r.range(10, 60);
        str mode = variant;
        if (variant == "release" || variant == "oom") mode = r.chance(2, 4) ? "alias" : r.chance(1, 2) ? "seq" : "map";
        int flip = 1;
        if (mode == "seq")
        {
            static const int tt[] = { TYPE_CHAR, TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE, TYPE_VAR };
            g.type = tt[r.below(8)];
            if (g.type == TYPE_VAR) p.add({ "op", "resize", "h0", num(r.below(12)) });
            else if (g.type == TYPE_CHAR) p.add({ "op", "set", "h0", tokStr(r) });
            else if (r.chance(1, 2)) p.add({ "op", "push", "h0", tokScalar(r, g.type) });
            else { str s = str("A") + TC[g.type]; int k = r.chance(1, 25) ? r.range(100, 1200) : r.range(1, 18); for (int i = 0; i < k; i++) s += ":" + tokScalar(r, g.type).substr(1); p.add({ "op", "set", "h0", s }); }
        }
        if (mode == "map" && r.chance(1, 25))
        {
            // a large one
            int k = r.range(30, 150), step = r.range(1, 97);
            for (int i = 0; i < k; i++) p.add({ "op", "setk", "h0", tokScalar(r, TYPE_INT), r.chance(1, 3) ? tokStr(r) : "i" + num(i * step % 101) });
        }
        for (int i = 0; i < n; i++)
        {
            if (variant == "oom" && r.chance(1, 3)) p.add({ "oom", num(1 + r.below(r.chance(1, 3) ? 12 : 4)), r.chance(1, 4) ? "-1" : num(1 + r.below(3)) });
            if (r.chance(1, 12)) flip = !flip;
            if (mode == "seq") p.add(r.chance(1, 12) ? g.alias() : g.seqOp(flip));
            else if (mode == "map") p.add(r.chance(1, 6) ? g.alias() : g.mapOp());
            else p.add(g.alias());
        }
    }
    void warm()
    {
        std::vector<var> v = { var('1'), var(1), var(1L), var(1.0f), var(1.0), var(cfloat(1, 1)), var(cdouble(1, 1)), var("1") };
        for (auto& x : v) { x.cast<char>(); x.cast<int>(); x.cast<long>(); x.cast<float>(); x.cast<double>(); x.cast<cfloat>(); if (!x.heap() || x.atype<cdouble>()) x.cast<cdouble>(); }
        varstream s;
        s << v[4] << "x" << 1.5;
        try { throw error("warm"); } catch (std::exception& e) { }
        try { throw error(v[5]); } catch (std::exception& e) { }
    }
    sim::Warm wm(warm);
    sim::Register reg({ "values", gen, run, false, true });
}
