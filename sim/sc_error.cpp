// Errors: made under every kind of call stack, copied, thrown and carried about (C19).
#include "files.h"
#include <exception>
#include <memory>
using namespace libube;
using namespace files;

namespace
{
    var payload(const Line& l, size_t at)
    {
        str k = at < l.size() ? l[at] : "s";
        str rest = k.substr(1);
        if (k[0] == 'i') return var((int)toi(rest));
        if (k[0] == 'd') return var(atof(rest.c_str()));
        if (k[0] == 'n') return nil;
        if (k[0] == 'a') { var v; v[0] = S(sim::dec(rest)); v[1] = 7; return v; }
        return S(sim::dec(rest));
    }
    struct Held { std::exception_ptr ep; std::unique_ptr<error> e; str what, text; };
    // something in the library which raises
    void provoke(int k)
    {
        var v, w;
        switch (k % 8)
        {
        case 0: w = v.str(); break;
        case 1: v = 3; w = v.key(0); break;
        case 2: v = "ab"; w = v[7]; break;
        case 3: v[0] = "x"; w = v(1, 2); break;
        case 4: v["k"] = 1; w = v.shape(2); break;
        case 5: { filemodule m("nosuchmodule"); break; }
        case 6: v[0] = "x"; v[1] = nil; w = v.pop().str(); break;
        default: v = "a"; w = view({ 2, 2 }, 1)(5, 5); break;
        }
        throw error("not refused");
    }
    void run(const Plan& p)
    {
        std::vector<Held> held;
        int step = 0;
        std::vector<str> symbols;
        auto same = [&](Held& h, const char* how) {
            str w;
            sim::Outcome q;
            if (h.e) q = sim::sut([&] { const char* c = h.e->what(); sim::Host hh; w = c ? c : ""; });
            else
            {
                q = sim::sut([&] { std::rethrow_exception(h.ep); });
                w = q.what;
            }
            if (w != h.what) sim::fail("message-changed", "%s: the error said %s and now says %s", how, files::show(h.what).c_str(), files::show(w).c_str());
        };
        for (auto& l : p.lines)
        {
            step++;
            if (l[0] == "sym" && l.size() > 1) { if (l[1] == "clear") symbols.clear(); else for (int i = toi(l.size() > 2 ? l[2] : "1"); i > 0 && symbols.size() < 200; i--) symbols.push_back(sim::dec(l[1]).substr(1)); continue; }
            if (l[0] == "make" && l.size() > 2)
            {
                // make <how> <payload> : how = direct, throw
                long oom = p.iparam("oom" + num(step));
                int mode = p.iparam("stack" + num(step));    // 0 given symbols, 1 real, 2 symbols fail
                if (mode == 1) { vos::stackReal(); oom = 0; } else vos::stack(symbols, mode == 2);
                var v, pl;
                str text;
                sim::Outcome o = sim::sut([&] { pl = payload(l, 2); varstream vs; vs << pl; text = bytes(var(vs)); });
                if (!o.ok()) sim::harness("no text for the payload: %s", o.what.c_str());
                vos::clearFaults();
                if (mode != 1) faults(p, ("fault" + num(step)).c_str());
                Held h;
                h.text = text;
                if (oom) sim::alloc::failAt(oom, p.iparam("oomburst", 1));
                if (l[1] == "direct") o = sim::sut([&] { h.e.reset(new error(pl)); });
                else o = sim::sut([&] { try { throw error(pl); } catch (...) { h.ep = std::current_exception(); throw; } });
                bool nomem = oom && sim::alloc::failed();
                sim::alloc::heal();
                vos::clearFaults();
                // what it was made with is as it was, and what becomes of it is no concern of the error
                str still;
                sim::Outcome oo = sim::sut([&] {
                    varstream vs; vs << pl; still = bytes(var(vs));
                    if (pl.defined() && pl.heap() && pl.atype<char>()) { pl.append("changed afterwards"); for (int i = 0; i < 3 && i < pl.size(); i++) pl[i] = '#'; }
                    else if (pl.defined() && pl.heap()) { pl[0] = 99; pl.push("more"); }
                    else pl = 12345;
                });
                if (!oo.ok()) sim::harness("no text for the payload: %s", oo.what.c_str());
                if (still != text) sim::fail("payload", "making an error changed what it was made with from %s to %s", files::show(text).c_str(), files::show(still).c_str());
                sim::sut([&] { pl = nil; });
                if (o.kind == sim::NOMEM)
                {
                    if (!nomem) sim::fail("unexpected-exception", "making an error ran out of memory");
                    h.ep = nullptr;
                    sim::count("op.make.nomem");
                    continue;
                }
                if (l[1] == "direct")
                {
                    if (!o.ok())
                    {
                        // the error that could not be made may say so
                        if (!nomem) sim::fail("unexpected-exception", "making an error raised %s", o.what.substr(0, 200).c_str());
                        continue;
                    }
                    sim::sut([&] { const char* c = h.e->what(); sim::Host hh; h.what = c ? c : ""; });
                }
                else
                {
                    h.what = o.what;
                    if (o.type.find("error") == str::npos && !nomem) sim::fail("unexpected-exception", "throwing an error raised %s: %s", o.type.c_str(), o.what.substr(0, 100).c_str());
                }
                if (h.what.compare(0, text.size(), text)) sim::fail("message", "the error made with %s says %s", files::show(text).c_str(), files::show(h.what).c_str());
                sim::note(sim::hash(mode == 1 ? text : h.what));
                sim::state(sim::mix(sim::hash(mode == 1 ? text : h.what), l[1] == "direct"));
                sim::count("op.make");
                held.push_back(std::move(h));
            }
            else if (l[0] == "provoke" && l.size() > 1)
            {
                int mode = p.iparam("stack" + num(step));
                if (mode == 1) vos::stackReal(); else vos::stack(symbols, mode == 2);
                Held h;
                vos::clearFaults();
                if (mode != 1) faults(p, ("fault" + num(step)).c_str());
                sim::Outcome o = sim::sut([&] { try { provoke(toi(l[1])); } catch (...) { h.ep = std::current_exception(); throw; } });
                vos::clearFaults();
                if (o.ok() || o.kind == sim::NOMEM || o.what.empty()) sim::fail("message", "the error %s of the library has no text", l[1].c_str());
                h.what = o.what;
                held.push_back(std::move(h));
                sim::count("op.provoke");
            }
            else if (held.empty()) continue;
            else if (l[0] == "copy" && l.size() > 1)
            {
                Held& h = held[toi(l[1]) % held.size()];
                Held c;
                c.what = h.what;
                c.text = h.text;
                sim::Outcome o;
                if (h.e) o = sim::sut([&] { c.e.reset(new error(*h.e)); });
                else o = sim::sut([&] { try { std::rethrow_exception(h.ep); } catch (error& e) { c.e.reset(new error(e)); } catch (std::exception&) { } });
                if (!o.ok()) sim::fail("unexpected-exception", "copying an error raised %s", o.what.substr(0, 100).c_str());
                if (!c.e) continue;
                same(c, "after copying");
                held.push_back(std::move(c));
                sim::count("op.copy");
            }
            else if (l[0] == "assign" && l.size() > 2)
            {
                Held &a = held[toi(l[1]) % held.size()], &b = held[toi(l[2]) % held.size()];
                if (!a.e || !b.e) continue;
                sim::sut([&] { *a.e = *b.e; });
                a.what = b.what;
                a.text = b.text;
                same(a, "after assigning");
                sim::count("op.assign");
            }
            else if (l[0] == "throw" && l.size() > 1)
            {
                // thrown again from further down, caught by value, by reference, or as its base
                Held& h = held[toi(l[1]) % held.size()];
                if (!h.e) { same(h, "after throwing again"); continue; }
                str w;
                int how = l.size() > 2 ? toi(l[2]) % 3 : 0;
                sim::sut([&] {
                    if (how == 0) { try { throw *h.e; } catch (error e) { const char* c = e.what(); sim::Host hh; w = c; } }
                    else if (how == 1) { try { throw *h.e; } catch (const std::exception& e) { const char* c = e.what(); sim::Host hh; w = c; } }
                    else { try { try { throw *h.e; } catch (...) { throw; } } catch (error& e) { const char* c = e.what(); sim::Host hh; w = c; } }
                });
                if (w != h.what) sim::fail("message-changed", "thrown, the error says %s instead of %s", files::show(w).c_str(), files::show(h.what).c_str());
                sim::count("op.throw");
            }
            else if (l[0] == "drop" && l.size() > 1)
            {
                size_t i = toi(l[1]) % held.size();
                sim::sut([&] { held[i].e.reset(); held[i].ep = nullptr; });
                held.erase(held.begin() + i);
                sim::count("op.drop");
            }
            for (auto& h : held) same(h, "after a step");
        }
        sim::sut([&] { held.clear(); });
        handles("at the end");
    }
    str symbol(Rng& r)
    {
        static const char* s[] = {
            "./prog(_ZN6libube3var4pushES0_+0x1f) [0x55d]", "/lib/libube.so(_ZN6libube5errorC1ENS_3varE+0x8a) [0x7f0]", "/lib/libc.so.6(+0x2a1ca) [0x7f1]",
            "/lib/libc.so.6(__libc_start_main+0x8b) [0x7f2]", "./prog() [0x4011]", "[0x7ffd1234]", "", "(", ")", "()", ")(", "a)b(c", "prog(main", "prog)main(", "prog(main)", "prog(+)",
            "prog(_Z+0x1) [0x1]", "prog(_ZN+0x1) [0x2]", "prog(_Zfoo+0x1)", "prog(_ZSt4cout) [0x3]", "/a(b)/c(_Z1fv+0x1) [0x4]", "x(_ZNSt6vectorIN6libube3varESaIS1_EE9push_backERKS1_+0x4)", "%s%n(%s+%n)", "x(f+g+h) [1]", "+", "x(i)", "x(v+0x1)" };
        if (r.chance(1, 5))
        {
            // a long name
            str n = "p(_Z";
            int k = r.range(1, 60);
            n += "N";
            for (int i = 0; i < k; i++) { int m = r.range(1, 30); n += num(m) + str(m, 'a' + r.below(26)); }
            return n + (r.chance(1, 4) ? "" : "Ev") + "+0x1) [0x1]";
        }
        if (r.chance(1, 8)) { str n; int k = r.below(20); for (int i = 0; i < k; i++) n += r.chance(1, 4) ? "()+_Z"[r.below(5)] : (char)(1 + r.below(255)); return n; }
        return s[r.below(sizeof s / sizeof *s)];
    }
    void gen(Rng& r, Plan& p, const str& variant)
    {
        int n = r.below(8), line = 0;
        auto put = [&](const Line& l) { p.add(l); line++; };
        // params come after the operation they belong to, so that it is counted right
        std::vector<Line> late;
        for (int i = 0; i < n; i++) put({ "sym", sim::enc("s" + symbol(r)), num(r.chance(1, 10) ? r.range(10, 80) : 1) });
        int ops = r.range(1, 20);
        for (int i = 0; i < ops; i++)
        {
            int k = i == 0 ? 0 : r.below(12);
            if (k < 4)
            {
                str pl;
                int q = r.below(10);
                if (q == 0) pl = "i" + num(r.range(-1000, 1000));
                else if (q == 1) pl = "d0.5";
                else if (q == 2) pl = "n";
                else
                {
                    int len = r.chance(1, 10) ? r.range(200, r.chance(1, 4) ? 20000 : 3000) : r.below(40);
                    str t;
                    while ((int)t.size() < len) t += r.chance(1, 20) ? (char)(1 + r.below(255)) : (char)(32 + r.below(95));
                    pl = (q == 3 ? "a" : "s") + sim::enc(t);
                    if (t.empty()) pl = q == 3 ? "a" : "s";
                }
                put({ "make", r.chance(1, 2) ? "direct" : "throw", pl });
                int m = r.below(8);
                if (m == 0) late.push_back({ "param", "stack" + num(line), "1" });
                if (m == 1) late.push_back({ "param", "stack" + num(line), "2" });
                if (r.chance(1, 4)) late.push_back({ "param", "oom" + num(line), num(1 + r.below(r.chance(1, 2) ? 8 : 120)) });
                if (r.chance(1, 3)) late.push_back({ "fault" + num(line), "demangle", num(1 + r.below(4)), r.chance(1, 4) ? "enomem+" : "enomem" });
            }
            else if (k == 4) { put({ "provoke", num(r.below(8)) }); if (r.chance(1, 3)) late.push_back({ "param", "stack" + num(line), num(r.below(3)) }); if (r.chance(1, 3)) late.push_back({ "fault" + num(line), "demangle", num(1 + r.below(4)), "enomem" }); }
            else if (k < 7) put({ "copy", num(r.below(10)) });
            else if (k == 7) put({ "assign", num(r.below(10)), num(r.below(10)) });
            else if (k < 10) put({ "throw", num(r.below(10)), num(r.below(3)) });
            else if (k == 10) put({ "drop", num(r.below(10)) });
            else { if (r.chance(1, 3)) put({ "sym", "clear" }); put({ "sym", sim::enc("s" + symbol(r)) }); }
        }
        if (r.chance(1, 4)) late.push_back({ "param", "oomburst", num(r.chance(1, 2) ? -1 : r.range(2, 5)) });
        for (auto& l : late) p.add(l);
    }
    sim::Register reg({ "error", gen, run, false, true });
}
