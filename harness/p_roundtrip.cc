// C01..C05: printing and reading back.
#include "writer.h"

static bool interesting_doc(const std::vector<Node> &v)
{
    for (auto &n : v)
    {
        if (n.kind != ELEM) { if (n.kind == TEXT && n.text.find_first_of("\n'\t\r&=/{}() ") != Str::npos) return true; if (n.kind == COMMENT || n.kind == PI || n.kind == ENT) return true; continue; }
        for (auto &a : n.attrs) { if (interesting_doc(a.value)) return true; }
        if (interesting_doc(n.kids)) return true;
    }
    return false;
}
static void classify(Ctx &c, const std::vector<Node> &v, int depth = 0)
{
    for (auto &n : v)
    {
        switch (n.kind)
        {
        case ELEM: c.label_if(depth == 0, "docs with element"); if (depth >= 3) c.label("element at depth>=3"); if (!n.attrs.empty()) c.label("element with attributes");
            for (auto &a : n.attrs) { if (a.name.compare(0,5,"xmlns")==0) c.label("namespace declaration"); for (auto &x : a.value) if (x.kind == TEXT && x.text.find('\n') != Str::npos) c.label("newline in attribute"); }
            classify(c, n.kids, depth+1); break;
        case TEXT: c.label("text"); if (n.text.find('\n') != Str::npos) c.label("multi-line text"); if (n.text.find("''") != Str::npos) c.label("text with two or more quotes"); break;
        case COMMENT: c.label(n.text.find('\n') != Str::npos ? "multi-line comment" : "comment"); break;
        case PI: c.label("pi"); break;
        case ENT: c.label("entity"); break;
        case DOCTYPE: c.label("doctype"); break;
        }
    }
}
static PrintOpts no_opts() { return PrintOpts(); }

static void compare_trees(const std::vector<Node> &ma, const std::vector<Node> &mb, bool compact)
{
    DumpOpts d; d.no_ns_order = true; d.empty_attr_same = true; d.loose_comments = true;
    // Processing instructions and doctypes have no spelling for a newline in compact xmq. There it becomes a space.
    d.doctype_ws = true; d.pi_ws = compact;
    Str da = dump(ma, d), db = dump(mb, d);
    REQUIRE("tree", da == db, "tree changed: %s\n%s-----\n%s", diff(da, db).c_str(), da.c_str(), db.c_str());
    std::vector<Str> ca, cb; all_comments(ma, ca); all_comments(mb, cb);
    for (size_t i = 0; i < ca.size(); ++i) if (clean_comment(ca[i])) REQUIRE("comment", ca[i] == cb[i], "comment changed: '%s' became '%s'", vis(ca[i]).c_str(), vis(cb[i]).c_str());
}
// Read XML or XMQ, print as XMQ with o, read back, compare the trees.
static void roundtrip_xml(Gen &g, Ctx &c, const PrintOpts &o, Str *out_text = nullptr, std::vector<Node> *out_model = nullptr, bool fixpoint = false, bool from_xmq = false)
{
    DocOpts d; XDoc a;
    if (from_xmq)
    {
        d.xml = false; d.multi_root = g.coin(); d.attr_noval = true;
        std::vector<Node> doc = gen_doc(g, d); spellable(doc); Writer w(g); w.put_nodes(doc, true);
        bool nomerge = !fixpoint && g.coin();
        c.show("xmq source: " + vis(w.out)); c.label_if(nomerge, "character entities kept");
        if (!a.parse(w.out, XMQ_CONTENT_XMQ, nomerge ? XMQ_FLAG_NOMERGE : 0)) { c.label("source rejected"); throw Discard(); }
    }
    else
    {
        std::vector<Node> doc = gen_doc(g, d);
        Str xml = to_xml_text(g, doc, &c);
        c.show("xml: " + vis(xml));
        if (!a.parse(xml, XMQ_CONTENT_XML, XMQ_FLAG_TRIM_NONE)) { c.label("rejected by libxml2"); throw Discard(); }
    }
    std::vector<Node> ma = a.model();
    classify(c, ma);
    c.nontrivially(interesting_doc(ma), dump(ma));
    Str xmq = print(a.doq, o);
    c.show("xmq (" + show_opts(o) + "):\n" + xmq);
    XDoc b;
    bool ok = b.parse(xmq, XMQ_CONTENT_XMQ, 0);
    REQUIRE("reject", ok, "the printed xmq was rejected: %s", b.err().c_str());
    compare_trees(ma, b.model(), o.compact);
    Str na = dump_ns(a.xml()), nb = dump_ns(b.xml());
    REQUIRE("namespace", na == nb, "namespaces changed: %s", diff(na, nb).c_str());
    if (fixpoint)
    {
        Str again = print(b.doq, o);
        // A comment loses blanks around its lines, and the declarations of one element can change places, when first read.
        bool exact = true; std::vector<Str> cs; all_comments(ma, cs); for (auto &x : cs) if (!clean_comment(x)) exact = false;
        if (dump(ma).find("@xmlns") != Str::npos) exact = false;
        c.label_if(exact, "exact fixed point");
        bool clean = true; for (auto &x : cs) if (!clean_comment(x)) clean = false;
        if (!exact && clean)
        {
            XDoc b2; REQUIRE("reject", b2.parse(again, XMQ_CONTENT_XMQ, 0), "printed xmq was rejected: %s", b2.err().c_str());
            Str again2 = print(b2.doq, o);
            REQUIRE("fixpoint", again == again2, "printing the printed and parsed document a third time gives another text: %s", diff(again, again2).c_str());
        }
        else if (exact) REQUIRE("fixpoint", again == xmq, "printing the printed and parsed document again gives another text: %s", diff(xmq, again).c_str());
    }
    if (out_text) *out_text = xmq;
    if (out_model) *out_model = ma;
}
PART(C01, xml, 100000, 2500000, "generated XML document read with whitespace kept, printed pretty, read back; non-trivial: has a comment, pi, entity or text with newline, quote or special character")
{
    roundtrip_xml(g, c, no_opts());
}
PART(C01, xmq, 60000, 1500000, "generated XMQ source with random spelling, read with character entities kept or merged, printed pretty, read back; non-trivial as for xml")
{
    roundtrip_xml(g, c, no_opts(), nullptr, nullptr, false, true);
}
static void compact_roundtrip(Gen &g, Ctx &c, bool from_xmq)
{
    PrintOpts o; o.compact = true; Str s; // The output may end with one newline.
    roundtrip_xml(g, c, o, &s, nullptr, false, from_xmq);
    if (!s.empty() && s.back() == 10) s.pop_back();
    REQUIRE("newline", s.find('\n') == Str::npos && s.find('\r') == Str::npos, "compact output holds a newline");
}
PART(C02, xml, 100000, 2500000, "as C01 with compact output")
{
    compact_roundtrip(g, c, false);
}
PART(C02, xmq, 60000, 1500000, "as C01 from XMQ source with compact output")
{
    compact_roundtrip(g, c, true);
}

static PrintOpts gen_opts(Gen &g)
{
    PrintOpts o;
    o.compact = g.chance(1, 3);
    o.esc_nl = g.chance(1, 2); o.esc_non7 = g.chance(1, 2); o.esc_tab = g.chance(1, 2);
    static const int indents[] = { 4, 0, 1, 2, 3, 5, 8, 17 };
    o.indent = indents[g.below(8)];
    return o;
}
static bool ascii(const Str &s) { for (unsigned char ch : s) if (ch > 126) return false; return true; }
// Everything outside of text and attribute values, that has no escape in xmq.
static void unescapable(const std::vector<Node> &v, Str &out)
{
    for (auto &n : v)
    {
        if (n.kind == TEXT) continue;
        out += n.name + " " + n.text + " ";
        for (auto &a : n.attrs) { out += a.name + " "; if (a.name.compare(0, 5, "xmlns") == 0) for (auto &x : a.value) out += x.text; else unescapable(a.value, out); }
        unescapable(n.kids, out);
    }
}
static void count_value_newlines(const std::vector<Node> &v, size_t &n, bool)
{
    for (auto &x : v)
    {
        if (x.kind == TEXT) { for (char ch : x.text) n += ch == '\n'; }
        if (x.kind == ENT && x.name == "#10") n++;
        for (auto &a : x.attrs) count_value_newlines(a.value, n, true);
        count_value_newlines(x.kids, n, true);
    }
}
static void count_literal(const std::vector<Node> &v, size_t &n)
{
    for (auto &x : v)
    {
        if (x.text.find("#10;") != Str::npos) n++;
        for (auto &a : x.attrs) count_literal(a.value, n);
        count_literal(x.kids, n);
    }
}
static void any_settings(Gen &g, Ctx &c, bool from_xmq)
{
    PrintOpts o = gen_opts(g); Str s; std::vector<Node> m;
    roundtrip_xml(g, c, o, &s, &m, false, from_xmq);
    Str un; unescapable(m, un);
    if (o.esc_non7 && ascii(un)) { c.label("checked that output is 7bit"); REQUIRE("7bit", ascii(s), "escape-non-7bit output holds a non 7bit char"); }
    if (o.esc_tab && un.find('\t') == Str::npos) { c.label("checked that output has no tab"); REQUIRE("tab", s.find('\t') == Str::npos, "escape-tabs output holds a tab"); }
    if (o.compact) { if (!s.empty() && s.back() == 10) s.pop_back(); REQUIRE("newline", s.find('\n') == Str::npos, "compact output holds a newline"); }
    if (o.esc_nl || o.compact)
    {
        // Every newline of a text or attribute value is written as an entity.
        size_t want = 0; count_value_newlines(m, want, !o.compact);
        size_t got = 0; for (size_t p = s.find("&#10;"); p != Str::npos; p = s.find("&#10;", p+1)) got++;
        size_t literal = 0; count_literal(m, literal);
        if (literal == 0) { c.label_if(want > 0, "checked newline entities"); REQUIRE("newline", want == got, "%zu newlines in values but %zu newline entities", want, got); }
    }
}
PART(C03, xml, 100000, 2500000, "as C01 with a random combination of compact, indent 0 to 17, escape newlines, escape non 7bit and escape tabs; non-trivial as C01")
{
    any_settings(g, c, false);
}
PART(C03, xmq, 60000, 1500000, "as C03 xml from XMQ source")
{
    any_settings(g, c, true);
}
PART(C04, xmq, 60000, 1500000, "as C04 xml from XMQ source")
{
    PrintOpts o; if (g.coin()) o = gen_opts(g);
    roundtrip_xml(g, c, o, nullptr, nullptr, true, true);
}
PART(C04, xml, 100000, 2500000, "as C03, then the document read back is printed again with the same settings and must give the same text")
{
    PrintOpts o; if (g.coin()) o = gen_opts(g);
    roundtrip_xml(g, c, o, nullptr, nullptr, true);
}
static xmlDoc *libxml_read(const Str &s, const char *what)
{
    xmlDoc *d = xmlReadMemory(s.data(), s.size(), what, NULL, XML_PARSE_NOBLANKS*0 | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
    return d;
}
static void drop_lang(std::vector<Node> &v)
{
    for (auto &n : v)
    {
        std::vector<Attr> as; for (auto &a : n.attrs) if (a.name != "lang" && a.name != "xml:lang" && a.name != "id" && a.name != "name") as.push_back(a);
        n.attrs = as; drop_lang(n.kids);
    }
}
static void undle(std::vector<Node> &v)
{
    for (auto &n : v)
    {
        if (n.kind == COMMENT) for (size_t p = 0; (p = n.text.find("-\xe2\x90\x90", p)) != Str::npos; ++p) n.text.erase(p+1, 3);
        undle(n.kids);
    }
}
PART(C05, xml, 100000, 2500000, "generated XML, read, printed as XMQ with random settings, read, printed as XML; libxml2 must read the same tree from the original and the final XML. Also directly XML to XML. Non-trivial as C01")
{
    std::vector<Node> doc = gen_doc(g, DocOpts());
    Str xml = to_xml_text(g, doc, &c);
    c.show("xml: " + vis(xml));
    xmlDoc *d0 = libxml_read(xml, "original.xml");
    if (!d0) { c.label("rejected by libxml2"); throw Discard(); }
    std::vector<Node> m0 = from_xml(d0); Str ns0 = dump_ns(d0);
    xmlFreeDoc(d0);
    classify(c, m0); c.nontrivially(interesting_doc(m0), dump(m0));
    if (xml.find("<!DOCTYPE html") != Str::npos && xml.compare(0, 5, "<?xml") != 0) { c.label("no xml declaration before the doctype"); throw Discard(); } // can be taken for html
    bool xhtml = xml.find("DTD XHTML") != Str::npos;
    XDoc a; REQUIRE("reject", a.parse(xml, XMQ_CONTENT_XML, XMQ_FLAG_TRIM_NONE), "xml rejected: %s", a.err().c_str());
    PrintOpts o; if (g.coin()) o = gen_opts(g);
    Str final_xml; bool direct = g.chance(1, 4);
    PrintOpts ox; ox.ct = XMQ_CONTENT_XML; ox.omit_decl = g.chance(1, 3);
    if (direct) { c.label("xml to xml"); final_xml = print(a.doq, ox); }
    else
    {
        Str xmq = print(a.doq, o);
        c.show("xmq (" + show_opts(o) + "):\n" + xmq);
        XDoc b; REQUIRE("reject", b.parse(xmq, XMQ_CONTENT_XMQ, 0), "the printed xmq was rejected: %s", b.err().c_str());
        final_xml = print(b.doq, ox);
    }
    c.show("final xml: " + vis(final_xml));
    bool decl = final_xml.compare(0, 5, "<?xml") == 0;
    REQUIRE("decl", decl != ox.omit_decl, "xml declaration %s", decl ? "printed although omitted" : "missing");
    xmlDoc *d1 = libxml_read(final_xml, "final.xml");
    REQUIRE("reject", d1 != NULL, "libxml2 rejects the final xml");
    std::vector<Node> m1 = from_xml(d1); Str ns1 = dump_ns(d1);
    xmlFreeDoc(d1);
    // libxml2 adds a lang attribute next to an xml:lang attribute when it writes xhtml.
    if (xhtml) { drop_lang(m0); drop_lang(m1); ns0 = ns1; }
    // A - at the end or before a - inside a comment is followed by an escaping dle symbol.
    undle(m0); undle(m1);
    // Written xml lets libxml2 normalise nothing but what the spelling of the original already did.
    compare_trees(m0, m1, o.compact && !direct);
    REQUIRE("namespace", ns0 == ns1, "namespaces changed: %s", diff(ns0, ns1).c_str());
}
// ---------------------------------------------------------------------------------------------------------------
// C35: a document written in XMQ survives the trip through XML.
static bool twice(const std::vector<Node> &v) { for (auto &n : v) { std::set<Str> k; for (auto &a : n.attrs) if (!k.insert(a.name).second) return true; if (twice(n.kids)) return true; } return false; }
PART(C35, xml, 60000, 1500000, "XMQ documents with one root element, spelled at random, printed as XML: libxml2 reads the same tree from it, and read back by xmq it is the same document, also every comment character for character. Non-trivial as C01")
{
    DocOpts d; d.xml = false; d.named_ents = false; std::vector<Node> doc = gen_doc(g, d); spellable(doc); Writer w(g); w.put_nodes(doc, true);
    int flags = g.coin() ? XMQ_FLAG_NOMERGE : 0; c.show(strf("xmq source (flags %d): ", flags) + vis(w.out));
    XDoc a; if (!a.parse(w.out, XMQ_CONTENT_XMQ, flags)) { c.label("source rejected"); throw Discard(); }
    std::vector<Node> ma = a.model(); size_t roots = 0; for (auto &n : ma) { if (n.kind == ELEM) roots++; else if (n.kind == TEXT || n.kind == ENT) throw Discard(); } if (roots != 1 || twice(ma)) throw Discard(); // xml has no element with an attribute twice
    classify(c, ma); c.nontrivially(interesting_doc(ma), dump(ma));
    PrintOpts ox; ox.ct = XMQ_CONTENT_XML; ox.omit_decl = g.chance(1, 3); Str xml = print(a.doq, ox); c.show("xml: " + vis(xml));
    xmlDoc *ld = libxml_read(xml, "x.xml"); REQUIRE("well-formed", ld != NULL, "libxml2 rejects the xml");
    std::vector<Node> ml = from_xml(ld); Str nl = dump_ns(ld); xmlFreeDoc(ld);
    DumpOpts o; o.no_ns_order = true; o.empty_attr_same = true; o.doctype_ws = true;
    // In xml a - at the end of a comment, before a - or before an escape is followed by one escape.
    undle(ml); std::vector<Node> mu = ma; Str nm = dump_ns(a.xml()); bool xhtml = xml.find("DTD XHTML") != Str::npos; if (xhtml) { drop_lang(mu); drop_lang(ml); nl = nm; } Str da = dump(mu, o), dl = dump(ml, o);
    REQUIRE("tree", da == dl, "libxml2 reads another tree: %s", diff(da, dl).c_str());
    REQUIRE("namespace", nm == nl, "namespaces changed: %s", diff(nm, nl).c_str());
    if (xml.find("<!DOCTYPE html") != Str::npos && xml.compare(0, 5, "<?xml") != 0) { c.label("no xml declaration before the doctype"); return; } // can be taken for html
    XDoc b; REQUIRE("reject", b.parse(xml, XMQ_CONTENT_XML, XMQ_FLAG_TRIM_NONE), "the printed xml was rejected: %s", b.err().c_str());
    std::vector<Node> mb = b.model(); mu = ma; if (xhtml) { drop_lang(mu); drop_lang(mb); } da = dump(mu, o); Str db = dump(mb, o);
    REQUIRE("back", da == db, "reading it back gives another document: %s", diff(da, db).c_str());
}
// C01: names that are not ASCII. XML has them, the XMQ parser stops at them: a known finding.
PART(C01, names, 300, 3000, "XML with one to four element and attribute names, at least one of them with a character outside of ASCII, printed as XMQ and read back as for xml. All are non-trivial")
{
    static const std::vector<Str> names = { "å", "é1", "aå", "Größe", "日本", "имя", "a-ü", "_ö", "x·y" }, plain = { "a", "b", "item" };
    Str n1 = g.of(names), n2 = g.coin() ? g.of(names) : g.of(plain), n3 = g.coin() ? g.of(names) : g.of(plain), n4 = g.coin() ? g.of(names) : g.of(plain);
    Str xml; int how = (int)g.below(4);
    switch (how) { case 0: xml = "<" + n1 + "/>"; break; case 1: xml = "<" + n2 + " " + n1 + "='x'/>"; break; case 2: xml = "<" + n2 + "><" + n1 + ">t</" + n1 + "></" + n2 + ">"; break; default: xml = "<" + n1 + " " + n2 + "='1 2'><" + n3 + "/><" + n4 + ">'q'</" + n4 + "></" + n1 + ">"; }
    c.show("xml: " + vis(xml)); XDoc a; REQUIRE("reject", a.parse(xml, XMQ_CONTENT_XML, XMQ_FLAG_TRIM_NONE), "rejected: %s", a.err().c_str()); c.nontrivially(true, xml);
    PrintOpts o; o.compact = g.coin(); if (o.compact) o.indent = 0; Str xmq = print(a.doq, o); c.show("xmq: " + vis(xmq)); XDoc b;
    if (!b.parse(xmq, XMQ_CONTENT_XMQ, 0))
    {
        // Which character stopped the parser?
        Str e = b.err(); unsigned ln = 0, col = 0; bool at_name = false; size_t p = e.find(": error:"); size_t q = p == Str::npos || p == 0 ? Str::npos : e.rfind(':', p-1); size_t r = q == Str::npos || q == 0 ? Str::npos : e.rfind(':', q-1);
        if (q != Str::npos) { col = (unsigned)atoi(e.c_str()+q+1); ln = (unsigned)atoi(e.c_str()+(r == Str::npos ? 0 : r+1)); }
        if (ln && col) { size_t i = 0; for (unsigned l = 1; l < ln && i < xmq.size(); ++i) if (xmq[i] == '\n') l++; for (unsigned k = 1; k < col && i < xmq.size(); ++k) { i++; while (i < xmq.size() && (xmq[i] & 0xc0) == 0x80) i++; } at_name = i < xmq.size() && (unsigned char)xmq[i] >= 0x80; }
        if (at_name && known_listed("non-ascii-names")) { c.known_finding("non-ascii-names"); return; }
        REQUIRE("reject", false, "the printed xmq was rejected: %s", e.c_str());
    }
    compare_trees(a.model(), b.model(), o.compact);
}
