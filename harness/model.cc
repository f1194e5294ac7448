#include "model.h"
#include <cstdlib>
#include <algorithm>
#include <libxml/xmlerror.h>

static void quiet_err(void *, const char *, ...) {}
void libxml_quiet() { xmlSetGenericErrorFunc(nullptr, quiet_err); }

Node mk_text(const Str &s) { Node n; n.kind = TEXT; n.text = s; return n; }
Node mk_ent(const Str &s) { Node n; n.kind = ENT; n.name = s; return n; }
Node mk_comment(const Str &s) { Node n; n.kind = COMMENT; n.text = s; return n; }
Node mk_elem(const Str &s) { Node n; n.kind = ELEM; n.name = s; return n; }

Str utf8(uint32_t c)
{
    Str s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xc0 | (c>>6)); s += (char)(0x80 | (c&63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | (c>>12)); s += (char)(0x80 | ((c>>6)&63)); s += (char)(0x80 | (c&63)); }
    else { s += (char)(0xf0 | (c>>18)); s += (char)(0x80 | ((c>>12)&63)); s += (char)(0x80 | ((c>>6)&63)); s += (char)(0x80 | (c&63)); }
    return s;
}
bool utf8_decode(const Str &s, size_t &i, uint32_t &cp)
{
    if (i >= s.size()) return false;
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : (c&0xe0)==0xc0 ? 2 : (c&0xf0)==0xe0 ? 3 : (c&0xf8)==0xf0 ? 4 : 0;
    if (!n || i+n > s.size()) { cp = c; i++; return false; }
    cp = n==1 ? c : n==2 ? c&31 : n==3 ? c&15 : c&7;
    for (int k = 1; k < n; ++k) { if ((s[i+k]&0xc0) != 0x80) { cp = c; i++; return false; } cp = (cp<<6) | (s[i+k]&63); }
    i += n;
    return true;
}

// ------------------------------------------------------------------------------------------------ libxml2 -> model
static Str S(const xmlChar *x) { return x ? Str((const char*)x) : Str(); }
static Str qname(const xmlNs *ns, const xmlChar *name) { if (ns && ns->prefix) return S(ns->prefix) + ":" + S(name); return S(name); }
static std::vector<Node> value_nodes(xmlNode *first)
{
    std::vector<Node> v;
    for (xmlNode *i = first; i; i = i->next)
    {
        if (i->type == XML_TEXT_NODE || i->type == XML_CDATA_SECTION_NODE) v.push_back(mk_text(S(i->content)));
        else if (i->type == XML_ENTITY_REF_NODE) v.push_back(mk_ent(S(i->name)));
        else { Node n = mk_text(strf("[unexpected node type %d]", i->type)); v.push_back(n); }
    }
    return v;
}
// Libxml2 stores the uri as it stands inside an xml attribute.
static Str ns_uri(Str s)
{
    for (size_t p = 0; (p = s.find("&#38;", p)) != Str::npos; ++p) s.replace(p, 5, "&");
    for (size_t p = 0; (p = s.find("&#60;", p)) != Str::npos; ++p) s.replace(p, 5, "<");
    return s;
}
std::vector<Node> from_xml_nodes(xmlNode *first)
{
    std::vector<Node> v;
    for (xmlNode *i = first; i; i = i->next)
    {
        switch (i->type)
        {
        case XML_ELEMENT_NODE:
        {
            Node n = mk_elem(qname(i->ns, i->name));
            for (xmlNs *ns = i->nsDef; ns; ns = ns->next)
            {
                Attr a; a.name = ns->prefix ? "xmlns:" + S(ns->prefix) : Str("xmlns");
                a.has_value = ns->href != nullptr; if (ns->href) a.value.push_back(mk_text(ns_uri(S(ns->href))));
                n.attrs.push_back(a);
            }
            for (xmlAttr *p = i->properties; p; p = p->next)
            {
                Attr a; a.name = qname(p->ns, p->name); a.has_value = p->children != nullptr; a.value = value_nodes(p->children);
                n.attrs.push_back(a);
            }
            n.kids = from_xml_nodes(i->children);
            v.push_back(n);
            break;
        }
        case XML_TEXT_NODE: case XML_CDATA_SECTION_NODE: v.push_back(mk_text(S(i->content))); break;
        case XML_COMMENT_NODE: v.push_back(mk_comment(S(i->content))); break;
        case XML_ENTITY_REF_NODE: v.push_back(mk_ent(S(i->name))); break;
        case XML_PI_NODE: { Node n; n.kind = PI; n.name = S(i->name); n.has_text = i->content != nullptr; n.text = S(i->content); v.push_back(n); break; }
        case XML_DTD_NODE:
        {
            Node n; n.kind = DOCTYPE;
            xmlBufferPtr b = xmlBufferCreate(); xmlNodeDump(b, i->doc, i, 0, 0); n.text = S(xmlBufferContent(b)); xmlBufferFree(b);
            v.push_back(n); break;
        }
        default: { Node n = mk_text(strf("[unexpected node type %d]", i->type)); v.push_back(n); }
        }
    }
    return v;
}
std::vector<Node> from_xml(xmlDoc *doc) { return doc ? from_xml_nodes(doc->children) : std::vector<Node>(); }

static void ns_rec(xmlNode *i, Str &o)
{
    for (; i; i = i->next) if (i->type == XML_ELEMENT_NODE)
    {
        o += "{" + (i->ns ? ns_uri(S(i->ns->href)) : Str()) + "}" + S(i->name) + "\n";
        for (xmlAttr *p = i->properties; p; p = p->next) o += " @{" + (p->ns ? ns_uri(S(p->ns->href)) : Str()) + "}" + S(p->name) + "\n";
        ns_rec(i->children, o);
    }
}
Str dump_ns(xmlDoc *doc) { Str o; if (doc) ns_rec(doc->children, o); return o; }

// ------------------------------------------------------------------------------------------------ canonical dump
static bool char_ent(const Str &name, uint32_t &cp)
{
    if (name == "lt") { cp = '<'; return true; }
    if (name == "gt") { cp = '>'; return true; }
    if (name == "amp") { cp = '&'; return true; }
    if (name == "apos") { cp = '\''; return true; }
    if (name == "quot") { cp = '"'; return true; }
    if (name.size() < 2 || name[0] != '#') return false;
    char *e; Str d = name.substr(1); int base = 10;
    if (d[0] == 'x' || d[0] == 'X') { base = 16; d = d.substr(1); }
    if (d.empty()) return false;
    cp = strtoul(d.c_str(), &e, base);
    return *e == 0;
}
static bool ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
Str loose_comment(const Str &s)
{
    std::vector<Str> lines; size_t p = 0;
    while (true)
    {
        size_t e = s.find('\n', p); if (e == Str::npos) e = s.size();
        Str l = s.substr(p, e-p);
        while (!l.empty() && ws(l.back())) l.pop_back();
        size_t k = 0; while (k < l.size() && ws(l[k])) k++;
        lines.push_back(l.substr(k));
        if (e >= s.size()) break;
        p = e+1;
    }
    while (!lines.empty() && lines.back().empty()) lines.pop_back();
    size_t k = 0; while (k < lines.size() && lines[k].empty()) k++;
    Str o; for (size_t i = k; i < lines.size(); ++i) { if (i > k) o += "\n"; o += lines[i]; }
    return o;
}
bool clean_comment(const Str &s) { return s == loose_comment(s); }
void all_comments(const std::vector<Node> &v, std::vector<Str> &out)
{
    for (auto &n : v) { if (n.kind == COMMENT) out.push_back(n.text); else if (n.kind == ELEM) all_comments(n.kids, out); }
}
static Str squeeze(const Str &s) { Str o; for (char c : s) { if (ws(c)) { if (!o.empty() && o.back() != ' ') o += ' '; } else o += c; } while (!o.empty() && o.back() == ' ') o.pop_back(); return o; }
void normalise(std::vector<Node> &v, const DumpOpts &o)
{
    std::vector<Node> r;
    for (auto &n : v)
    {
        uint32_t cp;
        if (n.kind == ENT && o.decode_char_ents && char_ent(n.name, cp)) { Node t = mk_text(utf8(cp)); n = t; }
        if (n.kind == COMMENT && o.no_comments) continue;
        if (n.kind == PI && o.no_pi) continue;
        if (n.kind == COMMENT && o.loose_comments) n.text = loose_comment(n.text);
        if (n.kind == DOCTYPE && o.doctype_ws) n.text = squeeze(n.text);
        if (n.kind == PI && o.pi_ws) for (auto &ch : n.text) if (ch == '\n') ch = ' ';
        if (n.kind == DOCTYPE && o.no_doctype) continue;
        if (n.kind == TEXT && o.strip_ws) { Str t; for (char c : n.text) if (!ws(c)) t += c; n.text = t; }
        if (n.kind == TEXT && n.text.empty() && (o.drop_empty || o.strip_ws)) continue;
        if (n.kind == TEXT && o.merge && !r.empty() && r.back().kind == TEXT) { r.back().text += n.text; continue; }
        if (n.kind == ELEM)
        {
            normalise(n.kids, o);
            for (auto &a : n.attrs) { DumpOpts ao = o; ao.strip_ws = false; normalise(a.value, ao); }
            if (o.no_ns_order)
            {
                std::stable_sort(n.attrs.begin(), n.attrs.end(), [](const Attr &a, const Attr &b) {
                    bool x = a.name.compare(0,5,"xmlns") == 0, y = b.name.compare(0,5,"xmlns") == 0;
                    if (x != y) return x; if (x) return a.name < b.name; return false; });
            }
        }
        r.push_back(n);
    }
    v = r;
}
static void dump_rec(const std::vector<Node> &v, int depth, Str &o, const DumpOpts &opt)
{
    for (auto &n : v)
    {
        Str ind(depth*2, ' ');
        switch (n.kind)
        {
        case ELEM:
            o += ind + "<" + n.name + "\n";
            for (auto &a : n.attrs)
            {
                bool hv = a.has_value;
                if (opt.empty_attr_same && hv && a.value.empty()) hv = false;
                o += ind + " @" + a.name + (hv ? " =" : "");
                for (auto &x : a.value) o += x.kind == ENT ? " &" + vis(x.name, 1e9) + ";" : " \"" + vis(x.text, 1e9) + "\"";
                o += "\n";
            }
            dump_rec(n.kids, depth+1, o, opt);
            break;
        case TEXT: o += ind + "\"" + vis(n.text, 1e9) + "\"\n"; break;
        case ENT: o += ind + "&" + n.name + ";\n"; break;
        case COMMENT: o += ind + "<!--" + vis(n.text, 1e9) + "-->\n"; break;
        case PI: o += ind + "<?" + n.name + (n.has_text && !n.text.empty() ? "=" + vis(n.text, 1e9) : Str()) + "\n"; break;
        case DOCTYPE: o += ind + "<!DOCTYPE " + vis(n.text, 1e9) + "\n"; break;
        }
    }
}
Str dump(const std::vector<Node> &doc, const DumpOpts &o)
{
    std::vector<Node> v = doc; normalise(v, o);
    Str s; dump_rec(v, 0, s, o); return s;
}
Str diff(const Str &a, const Str &b)
{
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t l = a.rfind('\n', i ? i-1 : 0); l = l == Str::npos ? 0 : l+1; if (l > i) l = i;
    auto line = [&](const Str &s) { size_t e = s.find('\n', i); if (e == Str::npos) e = s.size(); return s.substr(std::min(l, s.size()), e > l ? std::min<size_t>(e-l, 400) : 0); };
    return "first difference at byte " + strf("%zu", i) + "\n expected: " + line(a) + "\n      got: " + line(b);
}

// ------------------------------------------------------------------------------------------------ generators
static const std::vector<Str> WORDS = { "a", "b", "x", "ab", "abc", "car", "123", "x=1", "-", "--", "=", "'", "''", "'''", "\"", "&", "&amp;", "&#10;", ";", "(", ")", "{", "}", "()", "{}",
    "//", "/", "*", "/*", "*/", "*/*", "///", "//*", "<", ">", "<b>", "]]>", "\\", "\\n", "%s", "#", "?", "!", ":", ",", "_", "$", "[", "]", ".", "@", "~", "`", "^", "|", "http://x.y/z?a=b", "true", "false", "null", "1.5", "-->", "␐", "//x", "/**/", "a b", "' '", "=a", "&a" };
static const std::vector<uint32_t> UNI = { 0xe5, 0xa0, 0xdf, 0x7f, 0x80, 0x85, 0xad, 0x3b1, 0x7ff, 0x800, 0x2000, 0x2001, 0x2003, 0x2002, 0x2028, 0x2029, 0x200b, 0x202f, 0x205f, 0x3000, 0x1680, 0x2410, 0x20ac, 0x4e2d, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0x10000, 0x1f600, 0x10ffff, 0x301 };
// Sizes beyond any fixed buffer, threshold or wrap column.
static Str gen_big_text(Gen &g, const TextOpts &o)
{
    static const int lens[] = { 20, 39, 40, 41, 63, 64, 65, 79, 80, 81, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 9000 };
    static const std::vector<Str> lines = { "l", "line", "", "''", "x y", "'''", "b'" };
    size_t n = lens[g.below(sizeof(lens)/sizeof(*lens))];
    Str s;
    switch (g.below(7))
    {
    case 0: s = Str(n, 'w'); break;
    case 1: while (s.size() < n) { s += Str(1 + g.below(9), 'a' + g.below(26)); s += ' '; } s.pop_back(); break;
    case 2: s = Str(1 + g.below(70), '\''); if (g.coin()) s = "a" + s; if (g.coin()) s += "b"; if (o.newlines && g.coin()) s += "\nline"; break;
    case 3: if (o.newlines) { size_t l = n/20 + 2; for (size_t i = 0; i < l; ++i) { s += Str(g.below(4) ? g.below(5) : 0, ' '); s += g.of(lines); s += "\n"; } if (g.coin()) s.pop_back(); } else s = Str(n, 'n'); break;
    case 4: s = Str(n, ' '); if (g.coin()) s += "x"; break;
    case 5: if (o.unicode) { while (s.size() < n) s += utf8(g.below(2) ? 0xe5 : 0x1f600); } else s = Str(n, 'u'); break;
    case 6: { Str part = Str(1, 'a' + g.below(3)) + (o.newlines && g.coin() ? "\n" : " ") + Str(g.below(3), '\''); while (s.size() < n && s.size() < 1100) s += part; s += "z"; break; }
    }
    return s;
}
Str gen_text(Gen &g, const TextOpts &o)
{
    if (g.below(40) == 39 && o.max >= 20) return gen_big_text(g, o);
    size_t n = g.size(o.max);
    Str s;
    for (size_t i = 0; i < n; ++i)
    {
        switch (g.pick({ 8, 4, 3, 4, 2, 1, 1, 1, 3, 1 }))
        {
        case 0: s += (char)('a' + g.below(6)); break;
        case 1: s += Str(1 + g.below(4), ' '); break;
        case 2: if (o.newlines) s += Str(1 + g.below(3), '\n'); else s += "_"; break;
        case 3: s += g.of(WORDS); break;
        case 4: s += Str(1 + g.below(5), '\''); break;
        case 5: if (o.tabs) s += "\t"; else s += " "; break;
        case 6: if (o.cr) s += "\r"; else s += "r"; break;
        case 7: if (o.unicode) s += utf8(g.of(UNI)); else s += "u"; break;
        case 8: s += (char)(33 + g.below(94)); break;
        case 9: if (o.unicode) { uint32_t c; switch (g.below(4)) { case 0: c = 0xa0 + g.below(0x700-0xa0); break; case 1: c = 0x800 + g.below(0x2000); break; case 2: c = 0xe000 + g.below(0xfffd-0xe000); break; default: c = 0x10000 + g.below(0x100000); } s += utf8(c); } else s += "v"; break;
        }
    }
    return s;
}
Str gen_name(Gen &g)
{
    static const std::vector<Str> pool = { "a", "b", "c", "x", "item", "name", "_", "A", "S", "body", "car", "e1", "long-name.with_all", "div", "p", "root", "work" };
    if (g.below(8) < 7) return g.of(pool);
    if (g.below(12) == 11) { static const int lens[] = { 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300 }; return Str(lens[g.below(11)], 'n'); }
    static const Str first = "abcxyzABCXYZ_", rest = "abcxyzABC_0189.-";
    Str s; s += first[g.below(first.size())];
    size_t n = g.size(10);
    for (size_t i = 0; i < n; ++i) s += rest[g.below(rest.size())];
    // Names starting with xml are reserved.
    if (s.size() >= 3 && strncasecmp(s.c_str(), "xml", 3) == 0) s = "n" + s;
    return s;
}
Str gen_comment_text(Gen &g, bool for_xml)
{
    static const std::vector<Str> frag = { "*", "/", "*/", "/*", "//", "-", "--", " ", "\n", "a", "word", "*/*", "//*", "*//", "  ", "\n\n", "␐", "'", "&", "{", "}", "\t", "å", ">" , "<", "?", "!", "\n    ", "///", "**", "-␐", "-␐␐", "␐␐-", "\u00a0", "\u2003", "中", "😀", "\u2000 " };
    size_t n = g.size(16);
    Str s;
    if (g.below(30) == 29)
    {
        switch (g.below(4))
        {
        case 0: s = "*" + Str(g.below(60), '/'); break;
        case 1: s = Str(1 + g.below(60), '*'); break;
        case 2: { size_t l = 2 + g.below(40); for (size_t i = 0; i < l; ++i) s += Str(g.below(12), ' ') + (g.below(5) ? "word" : "") + "\n"; break; }
        case 3: s = Str(100 + g.below(3000), 'c'); break;
        }
    }
    for (size_t i = 0; i < n; ++i) { if (g.below(3) == 0) s += g.of(frag); else if (g.below(3) == 0) s += " "; else s += (char)('a'+g.below(26)); }
    if (for_xml)
    {
        Str t; for (char c : s) { if (c == '-' && !t.empty() && t.back() == '-') t += 'x'; if (c == '\r') c = ' '; t += c; }
        if (!t.empty() && t.back() == '-') t += '.';
        s = t;
    }
    return s;
}
static const std::vector<Str> ENTNAMES = { "nbsp", "foo", "ent1", "a.b", "copy" };
struct DG
{
    Gen &g; const DocOpts &o; int budget; bool declared_ents;
    std::vector<std::pair<Str,Str>> scope; // prefix -> href
    DG(Gen &gg, const DocOpts &oo) : g(gg), o(oo), budget(oo.budget), declared_ents(false) {}
    Node char_ref()
    {
        static const std::vector<uint32_t> cps = { 10, 32, 9, 13, 39, 160, 65, 38, 60, 0x10ffff, 0xe5, 0x2028 };
        uint32_t cp = g.of(cps);
        return mk_ent(g.below(4) ? strf("#%u", cp) : strf("#x%x", cp));
    }
    std::vector<Node> value(bool attr)
    {
        std::vector<Node> v;
        size_t n = g.pick({ 6, 1, 1 }) ;
        if (n == 0) { v.push_back(mk_text(gen_text(g, o.text))); return v; }
        n = 1 + g.below(4);
        for (size_t i = 0; i < n; ++i)
        {
            if (o.named_ents && declared_ents && g.below(3) == 0) v.push_back(mk_ent(g.of(ENTNAMES)));
            else if (!o.xml && o.ents && g.below(3) == 0) v.push_back(char_ref());
            else if (v.empty() || v.back().kind != TEXT || !o.xml) v.push_back(mk_text(gen_text(g, o.text)));
        }
        return v;
    }
    Node elem(int depth)
    {
        budget--;
        Node n = mk_elem(gen_name(g));
        size_t scope0 = scope.size();
        size_t na = g.pick({ 5, 3, 2, 1 });
        bool many = g.below(60) == 59; if (many) na = 4 + g.below(40);
        std::set<Str> used;
        if (o.ns && g.below(5) == 0)
        {
            size_t k = 1 + g.below(2);
            for (size_t i = 0; i < k; ++i)
            {
                static const std::vector<Str> hrefs = { "http://a", "http://b", "urn:x", "http://a.b/c?d=e&f", "a&#38;b&", "it's", "urn:å", "x y", "''", "a=(b)", "{u}//x", "\"q\"" };
                static const std::vector<Str> prefs = { "", "p", "q", "xsl", "pp", "xs", "n_", "n-s.1" };
                Str p = g.of(prefs), h = g.of(hrefs);
                Attr a; a.name = p.empty() ? Str("xmlns") : "xmlns:" + p;
                if (!used.insert(a.name).second) continue;
                a.value.push_back(mk_text(h));
                n.attrs.push_back(a);
                scope.push_back({ p, h });
            }
        }
        if (!scope.empty() && g.below(2) == 0)
        {
            auto &s = scope[g.below(scope.size())];
            if (!s.first.empty()) n.name = s.first + ":" + n.name;
        }
        for (size_t i = 0; i < na; ++i)
        {
            Attr a; a.name = gen_name(g);
            if (!scope.empty() && g.below(4) == 0) { auto &s = scope[g.below(scope.size())]; if (!s.first.empty()) a.name = s.first + ":" + a.name; }
            else if (g.below(20) == 0) a.name = g.below(2) ? "xml:space" : "xml:lang";
            Str local = a.name.substr(a.name.find(':') == Str::npos ? 0 : a.name.find(':')+1);
            if (many) { a.name += strf("%zu", i); local += strf("%zu", i); }
            if (!used.insert(g.below(6) == 5 ? a.name : local).second) continue;
            if (a.name == "xml:space") { a.value.push_back(mk_text(g.below(2) ? "preserve" : "default")); n.attrs.push_back(a); continue; }
            if (a.name == "xml:lang") { a.value.push_back(mk_text("sv")); n.attrs.push_back(a); continue; }
            if (o.attr_noval && g.below(4) == 0) a.has_value = false;
            else a.value = value(true);
            n.attrs.push_back(a);
        }
        // Prefixes used before they are declared.
        if (scope.size() > scope0 && g.below(3) == 0) for (size_t i = 0; i < n.attrs.size(); ++i) std::swap(n.attrs[i], n.attrs[g.below(n.attrs.size())]);
        if (g.below(3) == 0) { n.kids = value(false); }
        else if (g.below(5) == 0) {}
        else n.kids = content(depth+1);
        scope.resize(scope0);
        return n;
    }
    Node misc(int which)
    {
        if (which == 0 && o.comments) return mk_comment(gen_comment_text(g, o.xml));
        if (which == 1 && o.pis)
        {
            Node n; n.kind = PI; n.name = gen_name(g);
            if (strcasecmp(n.name.c_str(), "xml") == 0) n.name = "pi";
            n.has_text = g.below(4) != 0;
            if (n.has_text)
            {
                TextOpts t = o.text; t.max = g.below(8) ? 10 : 80; t.cr = false;
                n.text = gen_text(g, t);
                size_t p; while ((p = n.text.find("?>")) != Str::npos) n.text.replace(p, 2, "?)");
                while (!n.text.empty() && ws(n.text[0])) n.text.erase(0, 1);
                // A pi cannot be compounded, so blanks at the end of a line have no spelling.
                { Str t; for (char c : n.text) { if (c == '\n') while (!t.empty() && (t.back() == ' ' || t.back() == '\t')) t.pop_back(); t += c; } n.text = t; }
                while (!n.text.empty() && (n.text[0] == '\'' || ws(n.text[0]))) n.text.erase(0, 1);
                while (!n.text.empty() && (n.text.back() == '\'' || ws(n.text.back()))) n.text.pop_back();
                if (n.text.empty()) n.has_text = false;
            }
            return n;
        }
        return mk_comment(gen_comment_text(g, o.xml));
    }
    std::vector<Node> content(int depth)
    {
        std::vector<Node> v;
        size_t n = g.size(6);
        for (size_t i = 0; i < n && budget > 0; ++i)
        {
            switch (g.pick({ 6, 5, o.comments ? 2u : 0u, o.pis ? 1u : 0u, o.ents ? 2u : 0u }))
            {
            case 0: if (depth < 6) { v.push_back(elem(depth)); break; } /* fallthrough */
            case 1: budget--; if (v.empty() || v.back().kind != TEXT || !o.xml) { v.push_back(mk_text(gen_text(g, o.text))); } break;
            case 2: budget--; v.push_back(misc(0)); break;
            case 3: budget--; v.push_back(misc(1)); break;
            case 4: budget--;
                if (o.xml) { if (declared_ents) v.push_back(mk_ent(g.of(ENTNAMES))); }
                else if (o.named_ents && g.below(2)) v.push_back(mk_ent(g.of(ENTNAMES)));
                else v.push_back(char_ref());
                break;
            }
        }
        return v;
    }
};
std::vector<Node> gen_doc(Gen &g, const DocOpts &o)
{
    DG d(g, o);
    std::vector<Node> v;
    if (!o.xml) d.declared_ents = true;
    Str rootname;
    if (o.doctype && g.below(4) == 0)
    {
        Node n; n.kind = DOCTYPE;
        static const std::vector<Str> dts = { "html", "root", "a SYSTEM \"a.dtd\"", "html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd\"", "root PUBLIC \"-//X//Y\" \"x'y.dtd\"", "root SYSTEM 'a\"b.dtd'", "root [\n<!ELEMENT root ANY>\n<!ATTLIST a b CDATA #IMPLIED>\n]", "a [\n<!ELEMENT a (b | c)*>\n]", "_ SYSTEM \"\"", "html SYSTEM \"about:legacy-compat\"" };
        n.text = g.of(dts);
        if (o.xml && o.named_ents && g.below(2) == 0)
        {
            n.text = g.below(2) ? "root [\n" : "root SYSTEM \"r.dtd\" [\n";
            for (auto &e : ENTNAMES) n.text += "<!ENTITY " + e + " \"" + (e == "foo" ? "some text" : "x") + "\">\n";
            n.text += "]";
            d.declared_ents = true;
        }
        v.push_back(n);
    }
    auto miscs = [&](bool first) { size_t k = g.pick({ 6, 2, 1 }); for (size_t i = 0; i < k; ++i) v.push_back(d.misc(o.pis && g.below(3) == 0 ? 1 : 0)); };
    if (o.comments) { if (v.empty() || true) { std::vector<Node> save = v; size_t k = g.pick({ 6, 2, 1 }); std::vector<Node> pre; for (size_t i = 0; i < k; ++i) pre.push_back(d.misc(o.pis && g.below(3) == 0 ? 1 : 0)); v = pre; v.insert(v.end(), save.begin(), save.end()); } miscs(true); }
    size_t roots = o.multi_root ? 1 + g.pick({ 4, 2, 1 }) : 1;
    for (size_t i = 0; i < roots; ++i)
    {
        v.push_back(d.elem(0));
        if (g.below(50) == 49)
        {
            if (g.coin()) { size_t k = 2 + g.below(90); for (size_t j = 0; j < k; ++j) { Node w = mk_elem(gen_name(g)); w.kids.push_back(v.back()); v.back() = w; } } // deep
            else { size_t k = 2 + g.below(120); std::vector<Str> same; if (g.coin()) { size_t fam = 1 + g.below(12); bool al = g.coin(); for (size_t f = 0; f < fam; ++f) same.push_back(al ? strf("%c%c", (int)('b'+f), (int)('c'+f)) : gen_name(g)); } std::vector<Node> kids; for (size_t j = 0; j < k; ++j) { d.budget = 2; kids.push_back(d.elem(3)); if (same.size() && kids.back().name.find(':') == Str::npos) kids.back().name = same[g.below(same.size())]; } if (v.back().kids.empty()) v.back().kids = kids; } // wide
        }
        if (o.comments) miscs(false);
    }
    return v;
}

// ------------------------------------------------------------------------------------------------ XML text
static Str xml_escape(Gen &g, const Str &s, bool attr, char q)
{
    Str o;
    for (size_t i = 0; i < s.size(); )
    {
        size_t j = i; uint32_t cp; utf8_decode(s, j, cp);
        Str raw = s.substr(i, j-i); i = j;
        if (cp == '&') o += g.below(3) ? "&amp;" : "&#38;";
        else if (cp == '<') o += g.below(3) ? "&lt;" : "&#60;";
        else if (cp == '>') o += "&gt;";
        else if (cp == '\r') o += "&#13;";
        else if (attr && cp == '\n') o += "&#10;";
        else if (attr && cp == '\t') o += "&#9;";
        else if (attr && cp == (uint32_t)(unsigned char)q) o += q == '"' ? "&quot;" : "&apos;";
        else if (cp >= 0x80 && g.below(6) == 5) o += strf("&#x%x;", cp);
        else o += raw;
    }
    return o;
}
static bool xml_ok_text(const Str &s) { (void)s; return true; }
static void xml_rec(Gen &g, const std::vector<Node> &v, Str &o, Ctx *c)
{
    for (auto &n : v)
    {
        switch (n.kind)
        {
        case TEXT:
            if (n.text.size() && n.text.find("]]>") == Str::npos && n.text.find('\r') == Str::npos && g.below(8) == 7) { o += "<![CDATA[" + n.text + "]]>"; if (c) c->label("cdata"); }
            else o += xml_escape(g, n.text, false, 0);
            break;
        case ENT: o += "&" + n.name + ";"; break;
        case COMMENT: o += "<!--" + n.text + "-->"; break;
        case PI: o += "<?" + n.name + (n.has_text ? " " + n.text : Str()) + "?>"; break;
        case DOCTYPE: o += "<!DOCTYPE " + n.text + ">\n"; break;
        case ELEM:
        {
            o += "<" + n.name;
            for (auto &a : n.attrs)
            {
                char q = g.below(4) ? '"' : '\'';
                o += " " + a.name + "=" + q;
                for (auto &x : a.value) o += x.kind == ENT ? "&" + x.name + ";" : xml_escape(g, x.text, true, q);
                o += q;
            }
            if (n.kids.empty() && g.below(2)) { o += "/>"; break; }
            o += ">"; xml_rec(g, n.kids, o, c); o += "</" + n.name + ">";
            break;
        }
        }
    }
}
Str to_xml_text(Gen &g, const std::vector<Node> &doc, Ctx *c)
{
    (void)xml_ok_text;
    Str o;
    switch (g.below(4)) { case 0: o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"; break; case 1: o = "<?xml version=\"1.0\"?>"; break; default: break; }
    for (auto &n : doc) { xml_rec(g, { n }, o, c); if (g.below(3) == 0) o += "\n"; }
    return o;
}

// ------------------------------------------------------------------------------------------------ library wrappers
bool XDoc::parse(const Str &s, XMQContentType ct, int flags, const char *root)
{
    libxml_quiet();
    // Exact size heap copy, terminated by a zero byte outside of the given range as the C API users have.
    char *buf = (char*)malloc(s.size()+1);
    memcpy(buf, s.data(), s.size()); buf[s.size()] = 0;
    bool ok = xmqParseBufferWithType(doq, buf, buf+s.size(), root, ct, flags);
    free(buf);
    return ok;
}
Str print(XMQDoc *doq, const PrintOpts &o)
{
    XMQOutputSettings *os = xmqNewOutputSettings();
    xmqSetOutputFormat(os, o.ct);
    xmqSetCompact(os, o.compact);
    xmqSetEscapeNewlines(os, o.esc_nl);
    xmqSetEscapeNon7bit(os, o.esc_non7);
    xmqSetEscapeTabs(os, o.esc_tab);
    xmqSetAddIndent(os, o.compact ? 0 : o.indent);
    xmqSetRenderFormat(os, o.render);
    xmqSetUseColor(os, o.color);
    xmqSetBackgroundMode(os, o.dark);
    xmqSetRenderRaw(os, o.raw);
    xmqSetOmitDecl(os, o.omit_decl);
    if (o.theme) xmqSetRenderTheme(os, o.theme);
    xmqSetupDefaultColors(os);
    char *start = nullptr, *stop = nullptr; size_t skip = 0;
    xmqSetupPrintMemory(os, &start, &stop);
    xmqSetupPrintSkip(os, &skip);
    xmqPrint(doq, os);
    Str r;
    if (start && stop) r.assign(start+skip, stop - (start+skip));
    else if (start) r = start+skip;
    free(start);
    xmqFreeOutputSettings(os);
    return r;
}
Str show_opts(const PrintOpts &o)
{
    Str s = strf("format=%d indent=%d", (int)o.ct, o.indent);
    if (o.compact) s += " compact";
    if (o.esc_nl) s += " escape-newlines";
    if (o.esc_non7) s += " escape-non-7bit";
    if (o.esc_tab) s += " escape-tabs";
    if (o.render) s += strf(" render=%d color=%d dark=%d raw=%d theme=%s", (int)o.render, o.color, o.dark, o.raw, o.theme ? o.theme : "-");
    return s;
}
