// A document tree, an independent writer of documents, and a reference reader.
#ifndef XMLMODEL_H
#define XMLMODEL_H
#include "files.h"
#include <lube/data.h>
#include <expat.h>
#include <map>
#include <vector>
namespace xmlm
{
    using namespace files;
    struct T
    {
        bool text = false;
        str s;                       // name, or the text
        std::map<str, str> attr;
        std::vector<T> kids;
    };
    // Line ends separate pieces of text and are not kept; pieces next to one another count together
    inline void norm(T& t)
    {
        std::vector<T> k;
        for (auto& e : t.kids)
        {
            if (!e.text) { norm(e); k.push_back(e); continue; }
            str s;
            for (char c : e.s) if (c != '\n') s += c;
            if (s.empty()) continue;
            if (!k.empty() && k.back().text) k.back().s += s;
            else { k.push_back(e); k.back().s = s; }
        }
        t.kids = k;
    }
    inline bool same(const T& a, const T& b)
    {
        if (a.text != b.text || a.s != b.s || a.attr != b.attr || a.kids.size() != b.kids.size()) return false;
        for (size_t i = 0; i < a.kids.size(); i++) if (!same(a.kids[i], b.kids[i])) return false;
        return true;
    }
    inline str show(const T& t, int depth = 4)
    {
        if (t.text) return "'" + files::show(t.s) + "'";
        str r = t.s + "(";
        for (auto& a : t.attr) r += files::show(a.first) + "=" + files::show(a.second) + " ";
        if (depth) for (auto& k : t.kids) { r += show(k, depth - 1) + " "; if (r.size() > 500) break; }
        return r + ")";
    }
    // the first place where they differ
    inline str diff(const T& a, const T& b)
    {
        if (a.text != b.text || a.s != b.s || a.attr != b.attr) return show(a, 0) + " / " + show(b, 0);
        for (size_t i = 0; i < a.kids.size() && i < b.kids.size(); i++) if (!same(a.kids[i], b.kids[i])) return a.s + ": " + diff(a.kids[i], b.kids[i]);
        return a.s + ": " + num(a.kids.size()) + " / " + num(b.kids.size()) + " entries";
    }
    struct Ref { std::vector<T> st; T root; bool have = false, doctype = false; int depth = 0, maxDepth = 0; };
    // whole document at once; true if well formed
    inline bool reference(const str& doc, T& out, bool* doctype = 0, int* depth = 0)
    {
        Ref r;
        XML_Parser p = XML_ParserCreate(0);
        XML_SetUserData(p, &r);
        XML_SetElementHandler(p,
            [](void* u, const XML_Char* n, const XML_Char** a) {
                Ref* r = (Ref*)u;
                T t;
                t.s = n;
                for (; *a; a += 2) t.attr[a[0]] = a[1];
                r->st.push_back(t);
                r->maxDepth = std::max(r->maxDepth, (int)r->st.size());
            },
            [](void* u, const XML_Char*) {
                Ref* r = (Ref*)u;
                T t = std::move(r->st.back());
                r->st.pop_back();
                if (r->st.empty()) { r->root = std::move(t); r->have = true; }
                else r->st.back().kids.push_back(std::move(t));
            });
        XML_SetCharacterDataHandler(p, [](void* u, const XML_Char* s, int n) {
            Ref* r = (Ref*)u;
            T t;
            t.text = true;
            t.s.assign(s, n);
            if (!r->st.empty()) r->st.back().kids.push_back(t);
        });
        XML_SetStartDoctypeDeclHandler(p, [](void* u, const XML_Char*, const XML_Char*, const XML_Char*, int) { ((Ref*)u)->doctype = true; });
        bool ok = XML_Parse(p, doc.data(), doc.size(), 1) == XML_STATUS_OK && r.have;
        XML_ParserFree(p);
        if (doctype) *doctype = r.doctype;
        if (depth) *depth = r.maxDepth;
        if (ok && r.maxDepth < 2000) { out = r.root; norm(out); }
        return ok;
    }
    // plan tokens:  <name  @key value  'text  >
    inline T parse(const Line& l, size_t& k)
    {
        T t;
        t.s = sim::dec(l[k++].substr(1));
        while (k < l.size() && l[k] != ">")
        {
            if (l[k][0] == '<') t.kids.push_back(parse(l, k));
            else if (l[k][0] == '@') { str key = sim::dec(l[k].substr(1)); k++; if (k < l.size()) { t.attr[key] = l[k][0] == '=' ? sim::dec(l[k].substr(1)) : ""; k++; } }
            else { T x; x.text = true; x.s = sim::dec(l[k].substr(1)); t.kids.push_back(x); k++; }
        }
        k++;
        return t;
    }
    inline str utf8(unsigned c)
    {
        str s;
        if (c < 0x80) s += (char)c;
        else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
        else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
        return s;
    }
    inline std::vector<unsigned> points(const str& s)
    {
        std::vector<unsigned> v;
        for (size_t i = 0; i < s.size(); )
        {
            unsigned char c = s[i];
            int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
            unsigned u = n == 1 ? c : c & (0xff >> (n + 1));
            for (int k = 1; k < n && i + k < s.size(); k++) u = u << 6 | (s[i + k] & 63);
            v.push_back(u);
            i += n;
        }
        return v;
    }
    inline str genText(Rng& r, bool attr)
    {
        str s;
        int n = r.chance(1, 15) ? r.range(100, 2500) : r.below(14);
        for (int i = 0; i < n; i++)
        {
            int k = r.below(40);
            if (k == 0) s += '&'; else if (k == 1) s += '<'; else if (k == 2) s += '>'; else if (k == 3) s += '"'; else if (k == 4) s += '\'';
            else if (k == 5) s += '\t'; else if (k == 6) s += '\r'; else if (k == 7 || (k == 8 && !attr)) s += '\n';
            else if (k == 9) s += utf8(r.range(0xa1, 0xff)); else if (k == 10) s += utf8(r.range(0x100, 0xd7ff)); else if (k == 11 && r.chance(1, 3)) s += utf8(r.range(0x10000, 0x10ffff));
            else if (k == 12) s += "]]>"; else if (k < 18) s += ' ';
            else s += (char)r.range(33, 126);
        }
        return s;
    }
    inline void genTree(Rng& r, Line& l, int depth)
    {
        static const char* names[] = { "a", "b", "element", "x-1", "n:s", "_", "\xc3\xa9l", "long.name.of.an.element", "text" };
        l.push_back("<" + sim::enc(names[r.below(9)]));
        // often none, sometimes many
        int n = r.chance(1, 2) ? 0 : r.chance(1, 10) ? r.range(6, 60) : r.below(4);
        static const char* keys[] = { "id", "style", "size", "xml:lang", "k", "\xc3\xa9" };
        for (int i = 0; i < n; i++) { l.push_back("@" + sim::enc(n < 6 ? str(keys[r.below(6)]) : "k" + num(r.below(n * 2)))); l.push_back("=" + sim::enc(genText(r, true))); }
        int k = depth > 4 ? r.below(2) : r.below(depth ? 4 : 7);
        for (int i = 0; i < k; i++)
            if (r.chance(1, 2)) genTree(r, l, depth + 1);
            else l.push_back("'" + sim::enc(genText(r, false)));
        l.push_back(">");
    }
    // The document.  enc: 0 utf-8, 1 latin-1, 2 us-ascii, 3 utf-16
    struct Doc
    {
        Rng& r;
        int enc;
        bool loose;      // odd but legal forms
        bool crlf;
        str o;           // utf-8
        Doc(Rng& r_, int e, bool l, bool c) : r(r_), enc(e), loose(l), crlf(c) {}
        void nl() { o += crlf ? "\r\n" : "\n"; }
        void ws(bool need)
        {
            int n = need ? 1 : 0;
            if (loose) n += r.below(3);
            for (int i = 0; i < n; i++) { int k = r.below(loose ? 4 : 1); if (k == 3) nl(); else o += k == 1 ? '\t' : ' '; }
        }
        bool direct(unsigned c) { return enc == 1 ? c < 256 : enc == 2 ? c < 128 : true; }
        void put(unsigned c, bool attr, char q)
        {
            static char b[20];
            bool ref = !direct(c) || c == '\r' || (attr && (c == '\n' || c == '\t'));
            if (c == '&') o += loose && r.chance(1, 4) ? "&#38;" : "&amp;";
            else if (c == '<') o += "&lt;";
            else if (c == '>') o += loose && attr && r.chance(1, 2) ? ">" : "&gt;";
            else if (c == '"' && (q == '"' || r.chance(1, 2))) o += "&quot;";
            else if (c == '\'' && (q == '\'' || r.chance(1, 2))) o += "&apos;";
            else if (ref || (loose && c > 32 && r.chance(1, 30))) { snprintf(b, sizeof b, r.chance(1, 2) ? "&#x%x;" : "&#%u;", c); o += b; }
            else if (c == '\n') nl();
            else o += utf8(c);
        }
        void misc(bool in)
        {
            if (!loose) return;
            while (r.chance(1, 5))
            {
                int k = r.below(in ? 2 : 3);
                if (k == 0) o += "<!-- a <comment> & \n such -->";
                else if (k == 1) o += "<?target some <data ?>";
                else ws(true);
            }
        }
        void elem(const T& t)
        {
            o += "<" + t.s;
            for (auto& a : t.attr)
            {
                ws(true);
                o += a.first;
                ws(false);
                o += "=";
                ws(false);
                char q = loose && r.chance(1, 2) ? '\'' : '"';
                o += q;
                for (unsigned c : points(a.second)) put(c, true, q);
                o += q;
            }
            ws(false);
            if (t.kids.empty() && r.chance(1, 2)) { o += "/>"; return; }
            o += ">";
            for (auto& k : t.kids)
            {
                if (k.text)
                {
                    bool plain = enc == 0 || enc == 3;
                    bool cd = loose && plain && r.chance(1, 4) && k.s.find("]]>") == str::npos && k.s.find('\r') == str::npos;
                    if (cd) { o += "<![CDATA["; for (char c : k.s) if (c == '\n') nl(); else o += c; o += "]]>"; }
                    else for (unsigned c : points(k.s)) put(c, false, 0);
                }
                else elem(k);
                misc(true);
            }
            o += "</" + t.s;
            ws(false);
            o += ">";
        }
        str doc(const T& t)
        {
            static const char* names[] = { "UTF-8", "iso-8859-1", "US-ASCII", "UTF-16" };
            bool decl = enc != 0 || r.chance(1, 2);
            if (decl) o += str("<?xml version=\"1.0\" encoding=\"") + names[enc] + "\"" + (loose && r.chance(1, 3) ? " standalone='yes'" : "") + "?>";
            if (decl && r.chance(3, 4)) nl();
            misc(false);
            elem(t);
            misc(false);
            if (r.chance(3, 4)) nl();
            if (loose && r.chance(1, 4)) o += "\n \n";
            str d;
            bool big = r.chance(1, 2);
            if (enc == 0) d = (loose && r.chance(1, 8) ? "\xef\xbb\xbf" : "") + o;
            else if (enc == 3) d = big ? "\xfe\xff" : "\xff\xfe";
            if (enc)
                for (unsigned c : points(o))
                {
                    if (enc < 3) { d += (char)c; continue; }
                    unsigned u[2] = { c, 0 };
                    if (c >= 0x10000) { u[0] = 0xd800 + ((c - 0x10000) >> 10); u[1] = 0xdc00 + ((c - 0x10000) & 1023); }
                    for (int i = 0; i < (u[1] ? 2 : 1); i++) { char h = u[i] >> 8, w = u[i]; if (big) { d += h; d += w; } else { d += w; d += h; } }
                }
            return d;
        }
    };
    // Names and keys outside of latin-1 or ascii cannot be written in those
    inline bool fits(const T& t, int enc)
    {
        auto ok = [&](const str& s) { for (unsigned c : points(s)) if ((enc == 1 && c > 255) || (enc == 2 && c > 127)) return false; return true; };
        if (!t.text && !ok(t.s)) return false;
        for (auto& a : t.attr) if (!ok(a.first)) return false;
        for (auto& k : t.kids) if (!k.text && !fits(k, enc)) return false;
        return true;
    }
    inline libube::var build(const T& t)
    {
        using namespace libube;
        if (t.text) return S(t.s);
        var e;
        e[DATA] = nil;
        e[NAME] = S(t.s);
        e[ATTR] = nil;
        e[TYPE] = "text";
        for (auto& a : t.attr) e[ATTR][S(a.first)] = S(a.second);
        for (auto& k : t.kids) e[DATA].push(build(k));
        if (t.kids.empty() && t.s.size() % 2)
        {
            // a list that lost its last piece is nothing too
            e[DATA].push("gone");
            e[DATA].pop();
        }
        return e;
    }
    // inside sut
    inline bool from(libube::var v, T& t, int depth = 0)
    {
        using namespace libube;
        v.dereference();
        if (!v.defined() || depth > 5000) return false;
        bool is;
        str s = bytes(v, &is);
        if (is) { sim::Host h; t.text = true; t.s = s; return true; }
        if (v.size() != 4 || v.atype() != TYPE_VAR) return false;
        var name = v.at(NAME), attr = v.at(ATTR), type = v.at(TYPE), data = v.at(DATA);
        s = bytes(name, &is);
        if (!is) return false;
        { sim::Host h; t.text = false; t.s = s; }
        s = bytes(type, &is);
        if (!is || s != "text") return false;
        attr.dereference();
        data.dereference();
        if (attr.defined())
            for (int i = 0; i < attr.size(); i++)
            {
                bool a, b;
                str k = bytes(attr.key(i), &a), w = bytes(attr.at(i), &b);
                if (!a || !b) return false;
                sim::Host h;
                t.attr[k] = w;
            }
        if (data.defined())
            for (int i = 0; i < data.size(); i++)
            {
                T* k;
                { sim::Host h; t.kids.push_back(T()); k = &t.kids.back(); }
                if (!from(data.at(i), *k, depth + 1)) return false;
            }
        return true;
    }
}
#endif
