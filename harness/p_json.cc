// C12, C13: JSON.
#include "json.h"
#include <algorithm>

static bool null_attr(const J &j)
{
    for (size_t i = 0; i < j.items.size(); ++i) if (null_attr(j.items[i]) || (i < j.keys.size() && j.keys[i].size() && j.keys[i][0] == '_' && (j.items[i].t == J::NUL || j.items[i].s.empty()))) return true;
    return false;
}
PART(C12, values, 20000, 400000, "random JSON values (nested to depth 6; strings of any characters but U+0000; keys which are any string but the reserved ones; numbers of every shape) spelled with random escapes and white space, read, optionally carried through pretty or compact XMQ or XML text, printed as JSON and parsed by an own strict parser. Non-trivial: at least one array or object with a member")
{
    int budget = 25; J j = gen_j(g, 0, budget);
    if (j.t < J::ARR && g.below(4)) { J o; o.t = g.coin() ? J::OBJ : J::ARR; if (o.t == J::OBJ) o.keys.push_back("k"); o.items.push_back(j); j = o; }
    Str s = to_json(g, j, g.below(3) != 0);
    if (g.coin()) s = jws(g) + s + jws(g);
    c.show("json: " + vis(s)); jlabel(c, j);
    c.nontrivially(j.t >= J::ARR && !j.items.empty(), jshow(j));
    XDoc a; int flags = g.below(4) ? 0 : XMQ_FLAG_TRIM_NONE;
    REQUIRE("reject", a.parse(s, XMQ_CONTENT_JSON, flags), "valid json was rejected: %s", a.err().c_str());
    int detour = g.below(4); PrintOpts jo; jo.ct = XMQ_CONTENT_JSON; jo.compact = g.coin(); jo.esc_nl = g.below(4) == 0; jo.esc_non7 = g.below(4) == 0;
    if (detour == 3 && (jany(j, [](const Str &x, bool key) { return xml_char_problem(x) || (key && x.find(':') != Str::npos) || x.empty() || x.find('\r') != Str::npos; }) || j.items.empty())) detour = 0;
    // An attribute without a value and one with an empty value are the same in xmq.
    if (detour && null_attr(j)) detour = 0;
    Str out; XDoc b;
    if (detour == 1 || detour == 2 || detour == 3)
    {
        PrintOpts o; if (detour == 2) o.compact = true; if (detour == 3) { o.ct = XMQ_CONTENT_XML; o.compact = true; }
        Str mid = print(a.doq, o); c.show("carried as:\n" + mid); c.label(detour == 3 ? "through xml" : detour == 2 ? "through compact xmq" : "through xmq");
        REQUIRE("reject", b.parse(mid, detour == 3 ? XMQ_CONTENT_XML : XMQ_CONTENT_XMQ, detour == 3 ? XMQ_FLAG_TRIM_NONE : 0), "the printed text was rejected: %s", b.err().c_str());
        out = print(b.doq, jo);
    }
    else out = print(a.doq, jo);
    c.show("printed: " + vis(out));
    J k; JParser jp(out);
    REQUIRE("invalid", jp.all(k), "the printed json is not valid: %s", jp.error.c_str());
    Str da = jshow(j), db = jshow(k);
    REQUIRE("value", da == db, "the value changed: %s", diff(da, db).c_str());
    if (jo.compact) { Str t = out; while (!t.empty() && t.back() == '\n') t.pop_back(); REQUIRE("compact", t.find('\n') == Str::npos, "compact json has a newline"); }
}

// ---------------------------------------------------------------------------------------------------------------
// C13: any document.
static bool special_name(const Str &n) { return n == "A" || n == "S" || n[0] == '_'; }
static void plain_names(std::vector<Node> &v)
{
    for (auto &n : v) if (n.kind == ELEM)
    {
        auto fix = [](Str &s) { size_t p = s.find(':'); p = p == Str::npos ? 0 : p+1; if (p < s.size() && special_name(s.substr(p))) s.insert(p, "n"); };
        fix(n.name); for (auto &a : n.attrs) if (a.name.compare(0, 5, "xmlns")) fix(a.name);
        std::set<Str> seen; std::vector<Attr> as; for (auto &a : n.attrs) if (seen.insert(a.name).second) as.push_back(a); n.attrs = as;
        plain_names(n.kids);
    }
}
// The model as json shows it.
static void as_json_shows(std::vector<Node> &v)
{
    std::vector<Node> r;
    for (auto &n : v)
    {
        if (n.kind == COMMENT || n.kind == PI || n.kind == DOCTYPE) continue;
        Node m = n;
        if (m.kind == ENT) { DumpOpts o; std::vector<Node> one = { m }; normalise(one, o); if (!one.empty() && one[0].kind == TEXT) m = one[0]; else m = mk_text(m.name == "nbsp" ? Str("\xc2\xa0") : "&" + m.name + ";"); }
        if (m.kind == ELEM)
        {
            std::vector<Attr> plain, ns;
            for (auto &a : m.attrs)
            {
                as_json_shows(a.value);
                bool empty = true; for (auto &x : a.value) if (!x.text.empty()) empty = false;
                if (a.name.compare(0, 6, "xmlns:") == 0 && empty) continue;
                (a.name == "xmlns" || a.name.compare(0, 6, "xmlns:") == 0 ? ns : plain).push_back(a);
            }
            m.attrs = plain; m.attrs.insert(m.attrs.end(), ns.begin(), ns.end());
            as_json_shows(m.kids);
        }
        r.push_back(m);
    }
    v = r;
}
static Str strip_index(const Str &k)
{
    if (k.empty() || k.back() != ']') return k;
    size_t p = k.rfind('['); if (p == Str::npos || p == 0 || p+2 >= k.size()) return k;
    for (size_t i = p+1; i+1 < k.size(); ++i) if (!isdigit((unsigned char)k[i])) return k;
    return k.substr(0, p);
}
static Str scalar(const J &j) { return j.t == J::BOOL ? (j.b ? "true" : "false") : j.t == J::NUL ? "null" : j.s; }
static void interpret(const J &j, Node &n, bool root, std::vector<Node> *beside)
{
    std::map<Str,size_t> total, next; std::map<Str,bool> indexed;
    for (size_t i = 0; i < j.items.size(); ++i)
    {
        Str key = strip_index(j.keys[i]); const J &v = j.items[i];
        if (key != j.keys[i])
        {
            size_t nr = strtoul(j.keys[i].c_str()+key.size()+1, nullptr, 10);
            REQUIRE("index", nr == next[key], "the member '%s' should have had the number %zu", vis(j.keys[i]).c_str(), next[key]);
            next[key]++; indexed[key] = true;
        }
        total[key]++;
        bool isscalar = v.t < J::ARR;
        bool prolog = root; for (size_t p = 0; p < i; ++p) { Str pk = strip_index(j.keys[p]); if (pk != "!DOCTYPE" && pk != "_//" && pk != "//" && pk[0] != '?') prolog = false; }
        if (key == "_" && prolog) { n.name = v.s; REQUIRE("root", v.t == J::STR, "the root name is not a string"); continue; }
        if (key == "//" || key == "_//" || key[0] == '?' || key == "!DOCTYPE") { REQUIRE("string", v.t == J::STR || v.t == J::NUL, "%s is not a string", vis(key).c_str()); continue; }
        if (key == "|") { REQUIRE("string", v.t == J::STR, "text is not a string"); n.kids.push_back(mk_text(v.s)); continue; }
        if (key == "&") { REQUIRE("string", v.t == J::STR, "entity is not a string"); REQUIRE("entity", v.s.size() > 2 && v.s[0] == '&' && v.s.back() == ';', "'%s' is no entity", vis(v.s).c_str()); std::vector<Node> one = { mk_ent(v.s.substr(1, v.s.size()-2)) }; as_json_shows(one); n.kids.push_back(one[0]); continue; }
        if (key.size() > 1 && key[0] == '_')
        {
            REQUIRE("attribute", v.t == J::STR || v.t == J::NUL, "the attribute %s is no string", vis(key).c_str());
            Attr a; a.name = key.substr(1); a.has_value = v.t == J::STR; if (a.has_value) a.value.push_back(mk_text(v.s)); n.attrs.push_back(a); continue;
        }
        Node k = mk_elem(key);
        if (isscalar) k.kids.push_back(mk_text(scalar(v)));
        else { REQUIRE("array", v.t == J::OBJ, "the element %s was printed as an array", vis(key).c_str()); interpret(v, k, false, nullptr); }
        n.kids.push_back(k);
    }
    for (auto &t : total) REQUIRE("index", t.second == 1 || indexed[t.first] || t.first == "&" || t.first == "_//" || t.first == "//", "the key '%s' is not unique and not numbered", vis(t.first).c_str());
    (void)beside;
}
static Str check_json(Ctx &c, const Str &out, J &k)
{
    c.show("json: " + vis(out));
    JParser jp(out); bool ok = jp.all(k);
    REQUIRE("invalid", ok, "the printed json is not valid: %s", jp.error.c_str());
    return "";
}
PART(C13, trees, 20000, 400000, "documents from the XML generator read as XML or spelled as XMQ (also with several root nodes), printed as JSON, parsed by an own strict parser; the members (names, attributes, texts, entities, numbering of equal keys) must be the tree. Non-trivial: at least two elements")
{
    int how = g.below(2); Str src; XMQContentType ct; std::vector<Node> m;
    DocOpts d; d.attr_noval = how == 1; if (how == 1) { d.xml = false; d.multi_root = g.coin(); d.root_text = g.below(4) == 0; }
    if (how == 0) { m = gen_doc(g, d); plain_names(m); src = to_xml_text(g, m); ct = XMQ_CONTENT_XML; }
    else { m = gen_doc(g, d); plain_names(m); spellable(m); Writer w(g); w.put_nodes(m, true); src = w.out; ct = XMQ_CONTENT_XMQ; }
    c.show("source: " + vis(src));
    XDoc a; if (!a.parse(src, ct, how == 0 ? XMQ_FLAG_TRIM_NONE : g.coin() ? XMQ_FLAG_NOMERGE : 0)) { REQUIRE("reject", how == 0, "spelled xmq was rejected: %s", a.err().c_str()); throw Discard(); }
    std::vector<Node> want = a.model(); as_json_shows(want);
    size_t elems = 0; std::function<void(const std::vector<Node>&)> cnt = [&](const std::vector<Node> &v) { for (auto &n : v) if (n.kind == ELEM) { elems++; cnt(n.kids); } }; cnt(want);
    PrintOpts jo; jo.ct = XMQ_CONTENT_JSON; jo.compact = g.coin();
    c.nontrivially(elems > 1, dump(want));
    Str out = print(a.doq, jo); J j; check_json(c, out, j);
    Node top = mk_elem("");
    std::vector<Node> got;
    if (j.t < J::ARR) got.push_back(mk_text(scalar(j)));
    else
    {
        REQUIRE("array", j.t == J::OBJ, "the document was printed as an array");
        interpret(j, top, true, &got);
        if (!top.name.empty()) got.push_back(top); else { REQUIRE("attribute", top.attrs.empty(), "attributes beside the root"); got = top.kids; }
    }
    c.label(how ? "xmq" : "xml"); c.label_if(top.name.empty(), "no single root");
    DumpOpts o; o.empty_attr_same = true; o.decode_char_ents = false;
    Str dw = dump(want, o), dg = dump(got, o);
    REQUIRE("tree", dw == dg, "the json shows another tree: %s\nwant:\n%s\ngot:\n%s", diff(dw, dg).c_str(), dw.c_str(), dg.c_str());
}
PART(C13, valid, 20000, 400000, "documents of every kind (XML, XMQ with names that JSON gives a meaning, JSON with reserved keys, HTML) printed as JSON; the output must be strictly valid. Non-trivial: output of at least 20 bytes")
{
    int how = g.below(4); Str src; XMQContentType ct; int flags = 0;
    DocOpts d; d.attr_noval = how == 1;
    if (how == 0) { src = to_xml_text(g, gen_doc(g, d)); ct = XMQ_CONTENT_XML; flags = g.coin() ? XMQ_FLAG_TRIM_NONE : 0; }
    else if (how == 1) { d.xml = false; d.multi_root = g.coin(); d.root_text = g.coin(); std::vector<Node> m = gen_doc(g, d); spellable(m); Writer w(g); w.put_nodes(m, true); src = w.out; ct = XMQ_CONTENT_XMQ; flags = g.coin() ? XMQ_FLAG_NOMERGE : 0; }
    else if (how == 2)
    {
        ct = XMQ_CONTENT_JSON; int budget = 15;
        J j = gen_j(g, 0, budget);
        static const std::vector<Str> keys = { "_", "_a", "|", "//", "_//", "!DOCTYPE", "&", "?x", "a[0]", "a[1]", "_xmlns", "_xmlns:p", "p:a", "_p:q", "_A", "_S", "__", "_|" };
        std::function<void(J&)> odd = [&](J &x) { for (auto &y : x.items) odd(y); if (x.t == J::OBJ && g.coin()) for (size_t k = 1 + g.below(3); k; --k) { size_t p = g.below(x.keys.size()+1); x.keys.insert(x.keys.begin()+p, g.of(keys)); J v; int b2 = 2; v = g.coin() ? gen_j(g, 5, b2) : J(); if (g.coin()) { v = J(); v.t = J::STR; v.s = gen_jstring(g); } x.items.insert(x.items.begin()+p, v); } };
        odd(j); src = to_json(g, j, g.coin());
    }
    else
    {
        ct = XMQ_CONTENT_HTML; static const std::vector<Str> tags = { "div", "p", "b", "span", "pre", "ul", "li", "table", "td", "script", "a" };
        std::function<Str(int)> h = [&](int depth) { Str s; size_t n = g.size(4); for (size_t i = 0; i < n; ++i) { if (depth < 4 && g.coin()) { Str t = g.of(tags); s += "<" + t + (g.coin() ? " id='q \" \\' hidden" : "") + ">" + h(depth+1) + "</" + t + ">"; } else { Str t = gen_text(g); for (char ch : t) if (ch != '<' && ch != '\r') s += ch; if (g.below(4) == 0) s += "<!-- c\"\\ -->"; if (g.below(4) == 0) s += "<br>&nbsp;&copy;"; } } return s; };
        src = "<html><body>" + h(0) + "</body></html>";
    }
    static const char *names[] = { "xml", "xmq", "json", "html" };
    c.label(names[how]); c.show(Str(names[how]) + ": " + vis(src));
    XDoc a; if (!a.parse(src, ct, flags)) { REQUIRE("reject", how != 1, "spelled xmq was rejected: %s", a.err().c_str()); throw Discard(); }
    PrintOpts jo; jo.ct = XMQ_CONTENT_JSON; jo.compact = g.coin(); jo.esc_nl = g.below(4) == 0; jo.esc_non7 = g.below(4) == 0;
    Str out = print(a.doq, jo); J j; c.nontrivially(out.size() >= 20, out);
    check_json(c, out, j);
}

PART(C13, stable, 20000, 400000, "documents of every kind printed as JSON; reading that JSON and printing it again gives the same JSON. Non-trivial: output of at least 20 bytes")
{
    int how = g.below(2); Str src; XMQContentType ct; std::vector<Node> m; int flags;
    DocOpts d; d.attr_noval = how == 1; if (how == 1) { d.xml = false; d.multi_root = g.coin(); d.root_text = g.below(4) == 0; }
    d.pis = false; d.ns = false; d.doctype = !d.multi_root;
    m = gen_doc(g, d); plain_names(m);
    if (how == 0) { src = to_xml_text(g, m); ct = XMQ_CONTENT_XML; flags = XMQ_FLAG_TRIM_NONE; }
    else { spellable(m); Writer w(g); w.put_nodes(m, true); src = w.out; ct = XMQ_CONTENT_XMQ; flags = g.coin() ? XMQ_FLAG_NOMERGE : 0; }
    c.show("source: " + vis(src));
    XDoc a; if (!a.parse(src, ct, flags)) throw Discard();
    PrintOpts jo; jo.ct = XMQ_CONTENT_JSON; jo.compact = g.coin();
    Str one = print(a.doq, jo); c.show("json: " + vis(one)); c.nontrivially(one.size() >= 20, one);
    XDoc b; REQUIRE("read back", b.parse(one, XMQ_CONTENT_JSON, XMQ_FLAG_TRIM_NONE), "the json is rejected: %s", b.err().c_str());
    Str two = print(b.doq, jo);
    REQUIRE("stable", one == two, "another json: %s", diff(one, two).c_str());
}

static void names_of(xmlNode *n, Str &o)
{
    for (; n; n = n->next) if (n->type == XML_ELEMENT_NODE)
    {
        o += strf("<{%s}%s", n->ns && n->ns->href ? (const char*)n->ns->href : "", (const char*)n->name); std::vector<Str> as;
        for (xmlAttr *a = n->properties; a; a = a->next) { xmlChar *v = xmlNodeListGetString(n->doc, a->children, 1); as.push_back(strf(" {%s}%s=", a->ns && a->ns->href ? (const char*)a->ns->href : "", (const char*)a->name) + (v ? (const char*)v : "")); xmlFree(v); }
        std::sort(as.begin(), as.end()); for (auto &x : as) o += x; o += ">"; names_of(n->children, o); o += "</>";
    }
}
PART(C13, names, 20000, 400000, "XML documents with namespaces to JSON and back; every element and attribute has the namespace, the local name and the value it had. Non-trivial: a namespace is in use")
{
    DocOpts d; d.pis = false; d.doctype = false; d.comments = false; d.ents = false; std::vector<Node> m = gen_doc(g, d); plain_names(m);
    Str src = to_xml_text(g, m); c.show("source: " + vis(src)); XDoc a; if (!a.parse(src, XMQ_CONTENT_XML, XMQ_FLAG_TRIM_NONE)) throw Discard();
    Str want; names_of(xmlDocGetRootElement(a.xml()), want); PrintOpts jo; jo.ct = XMQ_CONTENT_JSON; jo.compact = g.coin();
    Str one = print(a.doq, jo); c.show("json: " + vis(one)); c.nontrivially(want.find("{h") != Str::npos || want.find("{u") != Str::npos, one);
    XDoc b; REQUIRE("read back", b.parse(one, XMQ_CONTENT_JSON, XMQ_FLAG_TRIM_NONE), "the json is rejected: %s", b.err().c_str());
    Str got; names_of(xmlDocGetRootElement(b.xml()), got); REQUIRE("names", got == want, "%s", diff(want, got).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// C33: where a text stops being JSON. A comma before the closing bracket and raw control characters in strings are
// accepted by design.
struct Where
{
    const Str &s; size_t p = 0; bool bad = false;
    Where(const Str &x) : s(x) { ws(); value(); if (!bad) { ws(); if (p < s.size()) bad = true; } }
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\r' || s[p] == '\t')) p++; }
    bool fail(size_t at) { bad = true; p = at; return false; }
    bool str()
    {
        size_t at = p; if (p >= s.size() || s[p] != '"') return fail(at);
        for (p++;;)
        {
            if (p >= s.size()) return fail(at);
            char c = s[p++];
            if (c == '"') return true;
            if (c != '\\') continue;
            if (p >= s.size()) return fail(at);
            c = s[p++]; if (c && strchr("\"\\/bfnrt", c)) continue;
            if (c != 'u') return fail(at);
            auto hex = [&](long &v) { v = 0; for (int i = 0; i < 4; ++i, ++p) { if (p >= s.size() || !isxdigit((unsigned char)s[p])) return false; v = v*16 + (isdigit((unsigned char)s[p]) ? s[p]-'0' : (s[p]|32)-'a'+10); } return true; };
            long v, w; if (!hex(v) || v == 0 || (v >= 0xdc00 && v <= 0xdfff)) return fail(at);
            if (v >= 0xd800 && v <= 0xdbff) { if (s.compare(p, 2, "\\u")) return fail(at); p += 2; if (!hex(w) || w < 0xdc00 || w > 0xdfff) return fail(at); }
        }
    }
    bool number()
    {
        size_t at = p; auto digits = [&]() { size_t n = 0; while (p < s.size() && isdigit((unsigned char)s[p])) { p++; n++; } return n; };
        if (s[p] == '-') p++;
        if (p < s.size() && s[p] == '0') p++; else if (!digits()) return fail(at);
        if (p < s.size() && s[p] == '.') { p++; if (!digits()) return fail(at); }
        if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; if (!digits()) return fail(at); }
        if (p < s.size() && !strchr(" \t\r\n,}]", s[p])) return fail(at); // Not a number at all.
        return true;
    }
    bool value()
    {
        if (p >= s.size()) return fail(p);
        char c = s[p];
        if (c == '"') return str();
        if (c == '[' || c == '{')
        {
            char e = c == '[' ? ']' : '}';
            for (p++;;)
            {
                ws(); if (p < s.size() && s[p] == e) { p++; return true; }
                if (e == '}') { if (!str()) return false; ws(); if (p >= s.size() || s[p] != ':') return fail(p); p++; ws(); }
                if (!value()) return false; ws();
                if (p < s.size() && s[p] == ',') { p++; continue; }
                if (p < s.size() && s[p] == e) { p++; return true; }
                return fail(p);
            }
        }
        for (const char *w : { "true", "false", "null" }) if (!s.compare(p, strlen(w), w)) { p += strlen(w); return true; }
        return number();
    }
};
static bool position(const Str &err, size_t &line, size_t &col)
{
    size_t e = err.find(": error:"); if (e == Str::npos) return false; size_t b = err.rfind('\n', e); b = b == Str::npos ? 0 : b+1;
    size_t c2 = err.rfind(':', e-1); if (c2 == Str::npos || c2 < b) return false; size_t c1 = c2 ? err.rfind(':', c2-1) : Str::npos; c1 = c1 == Str::npos || c1 < b ? b : c1+1;
    line = strtoul(err.c_str()+c1, nullptr, 10); col = strtoul(err.c_str()+c2+1, nullptr, 10); return line && col;
}
PART(C33, broken, 200000, 5000000, "JSON texts with up to three changes of characters or tokens; accepted exactly when still JSON, otherwise rejected at the token that cannot be there. Non-trivial: not JSON any more and at least 10 bytes")
{
    int budget = 14; J j = gen_j(g, 0, budget); Str s = jws(g) + to_json(g, j, g.coin()) + jws(g);
    size_t n = g.pick({ 1, 8, 2, 1 });
    static const std::vector<Str> bits = { "{", "}", "[", "]", ",", ":", "\"", "\\", "1", "0", "-", ".", "e", "E", "+", "x", "true", "null", "false", "nul", "tru", "\\u", "\\ud800", "\\udc00", "\\u0000", "\\x", " ", "\n", "''", "//", "01", "1.", ".5", "1e", "0x1", "a", "å", "\"a\"", "\"a\":1", "[]", "{}", ",,", "NaN", "\\\"", "\\u12", "--1", "1-", ";", "#" };
    for (size_t i = 0; i < n; ++i)
    {
        std::vector<size_t> at; for (size_t p = 0; p <= s.size(); ++p) if (p == s.size() || ((unsigned char)s[p] & 0xc0) != 0x80) at.push_back(p);
        size_t k = g.below((uint32_t)at.size()); size_t p = at[k], q = k+1 < at.size() ? at[k+1] : p;
        // Mostly outside of the strings.
        for (int t = 0; t < 3; ++t) { size_t x = s.find_first_of("{}[],:\"", p); if (x != Str::npos && g.below(3)) { p = x; q = x+1; } break; }
        switch (g.below(7))
        {
        case 0: s.erase(p, q-p); c.label("a character less"); break;
        case 1: s.insert(p, g.of(bits)); c.label("something inserted"); break;
        case 2: s.replace(p, q-p, g.of(bits)); c.label("a character replaced"); break;
        case 3: s.resize(p); c.label("truncated"); break;
        case 4: s.insert(p, s.substr(p, q-p)); c.label("a character twice"); break;
        case 5: s += g.of(bits); c.label("something at the end"); break;
        default: if (q < s.size() && (unsigned char)s[q] < 0x80 && q == p+1) std::swap(s[p], s[q]); c.label("two characters swapped"); break;
        }
    }
    c.show("text: " + vis(s)); 
    Where w(s); c.label(w.bad ? "not json" : "json"); c.nontrivially(w.bad && s.size() >= 10, s);
    if (!s.compare(0, 3, "\xef\xbb\xbf")) throw Discard();
    // The non-ascii spaces xmq knows are skipped between the tokens, by design.
    if (w.bad && (!s.compare(w.p, 2, "\u00a0") || (!s.compare(w.p, 2, "\xe2\x80") && w.p+2 < s.size() && (unsigned char)s[w.p+2] <= 0x83))) throw Discard();
    XDoc a; bool ok = a.parse(s, XMQ_CONTENT_JSON, XMQ_FLAG_TRIM_NONE);
    if (!w.bad) { REQUIRE("accept", ok, "valid, but rejected: %s", a.err().c_str()); return; }
    REQUIRE("reject", !ok, "not json from offset %zu but accepted", w.p);
    REQUIRE("message", !a.err().empty() && xmqDocErrno(a.doq), "rejected without a message or number");
    if (xmqDocErrno(a.doq) == 24 || xmqDocErrno(a.doq) == 25 || xmqDocErrno(a.doq) == 26 || xmqDocErrno(a.doq) == 27 || xmqDocErrno(a.doq) == 23) { c.label("not recognised as json"); return; }
    size_t line = 1, col = 1; for (size_t p = 0; p < w.p; ++p) { if (s[p] == '\n' && p && s[p-1] == '\r') continue; if (s[p] == '\n' || s[p] == '\r') { line++; col = 1; } else if (((unsigned char)s[p] & 0xc0) != 0x80) col++; }
    size_t l = 0, k = 0; REQUIRE("position", position(a.err(), l, k), "no position in: %s", a.err().c_str());
    REQUIRE("position", l == line && k == col, "rejected at %zu:%zu, should be %zu:%zu: %s", l, k, line, col, a.err().c_str());
}
