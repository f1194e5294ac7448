// JSON values: generator, speller and strict parser.
#pragma once
#include "writer.h"

struct J
{
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false; Str s;                  // number text or string
    std::vector<J> items; std::vector<Str> keys;   // keys for OBJ
};
inline Str jshow(const J &j, int depth = 0)
{
    Str pad(depth*2, ' ');
    switch (j.t)
    {
    case J::NUL: return pad + "null\n";
    case J::BOOL: return pad + (j.b ? "true\n" : "false\n");
    case J::NUM: return pad + "number " + j.s + "\n";
    case J::STR: return pad + "string '" + vis(j.s) + "'\n";
    case J::ARR: { Str r = pad + "array\n"; for (auto &x : j.items) r += jshow(x, depth+1); return r; }
    default: { Str r = pad + "object\n"; for (size_t i = 0; i < j.items.size(); ++i) r += pad + " key '" + vis(j.keys[i]) + "'\n" + jshow(j.items[i], depth+1); return r; }
    }
}
// Strict RFC 8259.
struct JParser
{
    const Str &s; size_t p = 0; Str error; bool dup = false;
    JParser(const Str &x) : s(x) {}
    bool fail(const char *m) { if (error.empty()) error = strf("%s at offset %zu near '%s'", m, p, vis(s.substr(p > 10 ? p-10 : 0, 30)).c_str()); return false; }
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\r' || s[p] == '\t')) p++; }
    bool hex4(uint32_t &v)
    {
        v = 0;
        for (int i = 0; i < 4; ++i, ++p)
        {
            if (p >= s.size() || !isxdigit((unsigned char)s[p])) return fail("bad \\u escape");
            v = v*16 + (isdigit((unsigned char)s[p]) ? s[p]-'0' : (s[p]|32)-'a'+10);
        }
        return true;
    }
    bool str(Str &r)
    {
        if (p >= s.size() || s[p] != '"') return fail("expected a string");
        for (++p;;)
        {
            if (p >= s.size()) return fail("string not closed");
            unsigned char c = s[p];
            if (c == '"') { p++; return true; }
            if (c < 0x20) return fail("raw control char in string");
            if (c == '\\')
            {
                if (++p >= s.size()) return fail("string not closed");
                char e = s[p++];
                switch (e)
                {
                case '"': case '\\': case '/': r += e; break;
                case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
                case 'u':
                {
                    uint32_t v; if (!hex4(v)) return false;
                    if (v >= 0xd800 && v < 0xdc00) { uint32_t w; if (p+1 >= s.size() || s[p] != '\\' || s[p+1] != 'u') return fail("lone surrogate"); p += 2; if (!hex4(w)) return false; if (w < 0xdc00 || w > 0xdfff) return fail("lone surrogate"); v = 0x10000 + ((v-0xd800)<<10) + (w-0xdc00); }
                    else if (v >= 0xdc00 && v <= 0xdfff) return fail("lone surrogate");
                    r += utf8(v); break;
                }
                default: return fail("bad escape");
                }
                continue;
            }
            size_t q = p; uint32_t cp; if (!utf8_decode(s, q, cp)) return fail("bad utf8");
            r += s.substr(p, q-p); p = q;
        }
    }
    bool value(J &j, int depth = 0)
    {
        if (depth > 3000) return fail("too deep");
        ws(); if (p >= s.size()) return fail("expected a value");
        char c = s[p];
        if (c == '"') { j.t = J::STR; return str(j.s); }
        if (c == '[')
        {
            j.t = J::ARR; p++; ws(); if (p < s.size() && s[p] == ']') { p++; return true; }
            for (;;) { j.items.emplace_back(); if (!value(j.items.back(), depth+1)) return false; ws(); if (p < s.size() && s[p] == ',') { p++; continue; } if (p < s.size() && s[p] == ']') { p++; return true; } return fail("expected , or ]"); }
        }
        if (c == '{')
        {
            j.t = J::OBJ; p++; ws(); if (p < s.size() && s[p] == '}') { p++; return true; }
            for (;;)
            {
                ws(); Str k; if (!str(k)) return false;
                for (auto &o : j.keys) if (o == k) dup = true;
                ws(); if (p >= s.size() || s[p] != ':') return fail("expected :");
                p++; j.keys.push_back(k); j.items.emplace_back(); if (!value(j.items.back(), depth+1)) return false;
                ws(); if (p < s.size() && s[p] == ',') { p++; continue; } if (p < s.size() && s[p] == '}') { p++; return true; } return fail("expected , or }");
            }
        }
        for (const char *w : { "true", "false", "null" }) if (s.compare(p, strlen(w), w) == 0) { p += strlen(w); j.t = *w == 'n' ? J::NUL : J::BOOL; j.b = *w == 't'; return true; }
        size_t q = p; auto digits = [&]() { size_t n = 0; while (p < s.size() && isdigit((unsigned char)s[p])) { p++; n++; } return n; };
        if (s[p] == '-') p++;
        if (p < s.size() && s[p] == '0') p++; else if (!digits()) return fail("expected a value");
        if (p < s.size() && s[p] == '.') { p++; if (!digits()) return fail("bad number"); }
        if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; if (!digits()) return fail("bad number"); }
        j.t = J::NUM; j.s = s.substr(q, p-q); return true;
    }
    bool all(J &j) { if (!value(j)) return false; ws(); return p == s.size() ? true : fail("content after the value"); }
};
inline Str json_string(Gen &g, const Str &s, bool fancy)
{
    Str r = "\""; size_t i = 0;
    while (i < s.size())
    {
        size_t q = i; uint32_t cp; utf8_decode(s, q, cp);
        uint32_t how = fancy ? g.below(12) : 0;
        bool must = cp < 0x20 || cp == '"' || cp == '\\';
        const char *shortc = cp == '"' ? "\\\"" : cp == '\\' ? "\\\\" : cp == '\n' ? "\\n" : cp == '\t' ? "\\t" : cp == '\r' ? "\\r" : cp == '\b' ? "\\b" : cp == '\f' ? "\\f" : cp == '/' ? "\\/" : nullptr;
        if (shortc && ((must && how < 8) || (!must && how > 7))) r += shortc;
        else if (must || how > 9)
        {
            const char *f = how & 1 ? "\\u%04X" : "\\u%04x";
            if (cp >= 0x10000) { uint32_t v = cp - 0x10000; r += strf(f, 0xd800 + (v >> 10)); r += strf(f, 0xdc00 + (v & 0x3ff)); }
            else r += strf(f, cp);
        }
        else r += s.substr(i, q-i);
        i = q;
    }
    return r + "\"";
}
inline Str jws(Gen &g) { static const std::vector<Str> w = { "", "", "", " ", "\n", "\t", "\r\n", "  \n    " }; return g.of(w); }
inline Str to_json(Gen &g, const J &j, bool fancy)
{
    auto w = [&]() { return fancy ? jws(g) : Str(); };
    switch (j.t)
    {
    case J::NUL: return "null";
    case J::BOOL: return j.b ? "true" : "false";
    case J::NUM: return j.s;
    case J::STR: return json_string(g, j.s, fancy);
    case J::ARR: { Str r = "[" + w(); for (size_t i = 0; i < j.items.size(); ++i) { if (i) r += "," + w(); r += to_json(g, j.items[i], fancy) + w(); } return r + "]"; }
    default: { Str r = "{" + w(); for (size_t i = 0; i < j.items.size(); ++i) { if (i) r += "," + w(); r += json_string(g, j.keys[i], fancy) + w() + ":" + w() + to_json(g, j.items[i], fancy) + w(); } return r + "}"; }
    }
}
inline Str gen_jstring(Gen &g)
{
    static const std::vector<Str> odd = { "true", "false", "null", "1", "-1.5e3", "01", "", " ", "\n", "\t", "'", "''", "\"", "\\", "&#10;", "&amp;", "&", ";", "//", "/*", "*/", "<a>", "]]>", "=", "{", "}", "(", ")", "/", "\r", "\r\n", "\b", "\f", "\x01", "\x1f", "\x7f", "å", "\xe2\x82\xac", "\xe2\x80\xa8", "\xc2\xa0", "\xef\xbf\xbd", "\xef\xbf\xbf", "😀", "\xef\xbb\xbf", "_", "A", "S", "a b", " lead", "trail ", "\n\nlines\n  in\n", "\\u0041", "xmlns", "a:b", "-", "0x1", "NaN", "\xe2\x90\x90" };
    switch (g.below(4))
    {
    case 0: return gen_name(g);
    case 1: return g.of(odd);
    case 2: { TextOpts o; o.controls = g.coin(); return gen_text(g, o); }
    default: { Str s; size_t n = g.size(6); for (size_t i = 0; i < n; ++i) { if (g.below(3)) s += g.of(odd); else s += gen_name(g); } return s; }
    }
}
inline bool reserved_key(const Str &k)
{
    if (k.empty()) return false;
    if (k[0] == '_') return true;
    if (k == "|" || k == "//" || k == "!DOCTYPE") return true;
    if (k.back() == ']') { size_t p = k.rfind('['); if (p != Str::npos && p+2 < k.size()) { bool d = true; for (size_t i = p+1; i+1 < k.size(); ++i) if (!isdigit((unsigned char)k[i])) d = false; if (d) return true; } }
    return false;
}
inline J gen_j(Gen &g, int depth, int &budget)
{
    J j; budget--;
    uint32_t k = g.below(depth > 5 || budget <= 0 ? 7 : 12);
    switch (k)
    {
    case 0: case 1: case 2: case 3: j.t = J::STR; j.s = gen_jstring(g); break;
    case 4: { j.t = J::NUM; static const std::vector<Str> nums = { "0", "1", "-1", "42", "-0", "0.0", "1.10", "1e5", "1E5", "1e+5", "1e-5", "-0.5E-3", "123456789012345678901234567890", "1.000000000000000000001", "1e999", "9007199254740993", "0.1", "100" }; j.s = g.of(nums); break; }
    case 5: j.t = J::BOOL; j.b = g.coin(); break;
    case 6: j.t = J::NUL; break;
    case 7: case 8: { j.t = J::ARR; size_t n = g.size(5); for (size_t i = 0; i < n; ++i) j.items.push_back(gen_j(g, depth+1, budget)); break; }
    default:
    {
        j.t = J::OBJ; size_t n = g.size(5); std::set<Str> seen; int family = -1;
        if (g.below(8) == 0) { family = (int)g.below(12); n = 2 + g.below(10); } // Keys that share their hash.
        if (g.below(6) == 0)
        {
            size_t m = 1 + g.below(2);
            for (size_t i = 0; i < m; ++i)
            {
                static const std::vector<Str> an = { "_a", "_id", "_class", "_b-c", "_d.e" };
                Str k = g.of(an); if (!seen.insert(k).second) continue;
                J v; if (g.below(3)) { v.t = J::STR; v.s = gen_jstring(g); }
                j.keys.push_back(k); j.items.push_back(v);
            }
        }
        for (size_t i = 0; i < n; ++i)
        {
            static const std::vector<Str> odd = { "", "a:b", "a b", "&", "?x", "A", "S", "1", "-", "a[", "[1]x", "a[x]", "xmlns", "xmlns:a", "'", "/", "#", "å", "\n", "a\nb", "\"", "\\", "true", "null", ":", "a:", ":a", "xml", "\x01", "😀", "=", "{", "a.b", "a-b", "!", "!x", "???", "//x", "*" };
            Str k = family >= 0 && g.below(5) ? strf("%c%c", (int)('a'+family+i%7), (int)('b'+family+i%7)) : g.below(3) ? gen_name(g) : g.coin() ? g.of(odd) : gen_jstring(g);
            if (reserved_key(k) || !seen.insert(k).second) continue;
            j.keys.push_back(k); j.items.push_back(gen_j(g, depth+1, budget));
        }
        break;
    }
    }
    return j;
}
inline void jlabel(Ctx &c, const J &j, int depth = 0)
{
    static const char *n[] = { "null", "bool", "number", "string", "array", "object" };
    c.label(strf("%s%s", depth ? "" : "top ", n[j.t])); c.label_if(depth > 2, "depth>2");
    c.label_if(j.t >= J::ARR && j.items.empty(), "empty array or object");
    for (auto &x : j.items) jlabel(c, x, depth+1);
    for (auto &k : j.keys) { c.label_if(k.empty(), "empty key"); c.label_if(k.size() && k[0] == '_', "attribute key"); c.label_if(k.find(':') != Str::npos, "key with colon"); c.label_if(k.find_first_of(" \n'\"") != Str::npos, "key which is no name"); }
}
inline bool jany(const J &j, const std::function<bool(const Str&, bool)> &f)
{
    if (j.t == J::STR && f(j.s, false)) return true;
    for (auto &k : j.keys) if (f(k, true)) return true;
    for (auto &x : j.items) if (jany(x, f)) return true;
    return false;
}
inline bool xml_char_problem(const Str &s)
{
    size_t i = 0; uint32_t cp;
    while (i < s.size()) { if (!utf8_decode(s, i, cp)) return true; if ((cp < 0x20 && cp != 9 && cp != 10 && cp != 13) || cp == 0xfffe || cp == 0xffff) return true; }
    return false;
}
