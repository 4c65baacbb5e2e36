// Reference model of values: what the handles of a program should show.
#ifndef MODEL_H
#define MODEL_H
#include "sim.h"
#include <complex>
#include <map>
#include <memory>
#include <set>
#include <lube/lube.h>
#include <lube/heap.h>
namespace model
{
    using sim::str;
    using sim::u64;
    using libube::var;
    struct Obj;
    typedef std::shared_ptr<Obj> OP;
    // t: TYPE_ARRAY with no object is the undefined value; TYPE_CDOUBLE only as an element
    struct Val
    {
        int t = libube::TYPE_ARRAY;
        long i = 0;
        double re = 0, im = 0;
        OP o;
        bool nil() const { return t == libube::TYPE_ARRAY && !o; }
        bool arr() const { return t == libube::TYPE_ARRAY && !!o; }
        bool scalar() const { return t != libube::TYPE_ARRAY; }
    };
    struct Obj
    {
        int type;                       // element type
        std::vector<Val> e, k;          // elements; keys when type is TYPE_PAIR
        u64 stamp = 0;
        bool dense() const { return type != libube::TYPE_VAR && type != libube::TYPE_PAIR; }
    };
    Val mkInt(long v);
    Val mkReal(int t, double re, double im = 0);
    Val mkScalar(int t, double re, double im = 0);
    Val mkStr(const str& s);
    Val mkArr(int type);
    Val cast(int t, const Val& v);      // scalar or element to element type t
    Val value(const Val& elem);         // an element taken out as a value of its own
    bool eq(const Val& a, const Val& b);
    bool lt(const Val& a, const Val& b);
    bool reaches(const Val& from, const Obj* to);
    Val shallow(const Val& v);
    str show(const Val& v, int depth = 4);
    size_t lowerKey(const Obj& o, const Val& key);
    u64 hashOf(const Val& v, int depth = 4);

    // a set of handles, and a clone of it which keeps the sharing
    typedef std::vector<Val> State;
    State clone(const State& s, std::map<Obj*, OP>* memo = 0);
    Val cloneVal(const Val& v, std::map<Obj*, OP>& memo);

    // actual values
    var build(const Val& v, std::map<Obj*, var>& memo);
    Val capture(const var& v, std::map<libube::IHeap*, OP>& known);
    struct Ident { std::map<Obj*, libube::IHeap*> fwd; std::map<libube::IHeap*, Obj*> rev; std::map<libube::IHeap*, OP> objs; std::set<Obj*> seen; };
    // compares an actual value with the expected one; empty string if they agree
    str compare(const var& v, const Val& m, Ident& id, const str& path);
}
#endif
