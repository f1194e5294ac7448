// C10, C11: any bytes. The memory of the input has its exact size and no terminating zero.
#include "writer.h"
#include "ixml.h"
#include "ixml_seeds.h"

static const std::vector<Str> xmq_frags = {
    "a", "b", "abc", " ", "\n", "{", "}", "(", ")", "=", "'", "''", "'''", "''''", "'x'", "'x", "x'", "&", ";", "&a;", "&#10;", "&#x20ac;", "&#0;", "&#", "&#x", "&#xd800;", "&#1114111;", "&#1114112;", "&#99999999999;", "&amp", "&lt;",
    "/", "//", "/*", "*/", "//*", "*//", "*", "//c\n", "/*c*/", "*/*", "?", "?x", "?x=y", "?xml", "!", "!DOCTYPE", "!DOCTYPE=html", "!DOCTYPE=", "!DOCTYPE='a [ <!ENTITY b \"c\"> ]'", "!DOCTYPE{", "xmlns", "xmlns=u", "xmlns:p=u", "xmlns=''", "xmlns:p", "p:a", ":a", "a:", "a:b:c", ":", "p:xmlns=x",
    "a=b", "a='b c'", "a=(", "a{", "a(", "a(b)", "a(b=c d)", "a(b=('x'&#10;))", "(())", "\t", "\r", "\r\n", "\n\n", "    ", "\0", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "å", "\xe2\x80\xa8", "\xc2\xa0", "\xef\xbb\xbf", "😀", "\x01", "\x7f", "\x1b[31m", "<", ">", "[", "]", "\"", ",", "#", "-", "--", "-->", "1", "0x1", "true", "\\", "\\n", "_", "A", "S", "script", "html", "body", "pre", "style", "textarea", "br", "id", "class", "<a>", "</a>", "]]>", "<![CDATA[", "%s", "%n", "@", "$", "~", "^", "|"
};
static Str soup(Gen &g, const std::vector<Str> &frags, size_t max)
{
    Str s; size_t n = g.size(max);
    for (size_t i = 0; i < n; ++i)
    {
        uint32_t k = g.below(frags.size() + 6);
        if (k < frags.size()) { const Str &f = frags[k]; if (f.empty()) s += '\0'; else s += f; }
        else if (k == frags.size()) s += (char)g.below(256);
        else if (k == frags.size()+1) s += Str(1 + g.below(40), s.empty() ? 'x' : s.back());
        else s += " ";
    }
    return s;
}
static Str mutate(Gen &g, Str s, const std::vector<Str> &frags)
{
    size_t n = 1 + g.below(4);
    for (size_t k = 0; k < n; ++k)
    {
        size_t p = s.empty() ? 0 : g.below(s.size()+1), len = s.size()-p; if (len > 1) len = 1 + g.below(len > 30 ? 30 : len);
        switch (g.below(9))
        {
        case 0: s.resize(p); break;
        case 1: s.erase(p, len); break;
        case 2: if (p < s.size()) s.erase(p, 1); break;
        case 3: { const Str &f = g.of(frags); s.insert(p, f.empty() ? Str(1, '\0') : f); break; }
        case 4: if (p < s.size()) s[p] = (char)g.below(256); break;
        case 5: { Str d = s.substr(p, len); size_t q = g.below(s.size()+1); s.insert(q, d); break; }
        case 6: if (p < s.size()) { const Str &f = g.of(frags); s.replace(p, len, f); } break;
        case 7: { Str d = s.substr(p, len), r; size_t m = 1 + g.below(20); for (size_t i = 0; i < m; ++i) r += d; s.insert(p, r); break; }
        default: if (p+1 < s.size()) std::swap(s[p], s[p+1]); break;
        }
        if (s.size() > 20000) s.resize(20000);
    }
    return s;
}
// The parse of a buffer without any byte after it.
static bool exact_parse(XDoc &a, const Str &s, XMQContentType ct, int flags, const char *root)
{
    libxml_quiet();
    char *buf = (char*)malloc(s.size() ? s.size() : 1); memcpy(buf, s.data(), s.size());
    bool ok = xmqParseBufferWithType(a.doq, buf, buf+s.size(), root, ct, flags);
    free(buf);
    return ok;
}
static const char *themes[] = { nullptr, "lightbg", "darkbg", "mono", "nosuch" };
static PrintOpts any_print(Gen &g)
{
    static const std::vector<XMQContentType> cts = { XMQ_CONTENT_XMQ, XMQ_CONTENT_XML, XMQ_CONTENT_JSON, XMQ_CONTENT_HTML, XMQ_CONTENT_TEXT, XMQ_CONTENT_HTMQ, XMQ_CONTENT_CLINES };
    static const std::vector<XMQRenderFormat> rs = { XMQ_RENDER_PLAIN, XMQ_RENDER_TERMINAL, XMQ_RENDER_HTML, XMQ_RENDER_TEX };
    PrintOpts o; o.ct = g.of(cts); o.compact = g.coin(); o.esc_nl = g.coin(); o.esc_non7 = g.coin(); o.esc_tab = g.coin(); o.indent = g.below(3) ? 4 : g.below(9); o.omit_decl = g.coin();
    if (o.ct == XMQ_CONTENT_XMQ || o.ct == XMQ_CONTENT_HTMQ) { o.render = g.of(rs); o.color = g.coin(); o.dark = g.coin(); o.raw = g.coin(); o.theme = themes[g.below(5)]; }
    return o;
}
static void use_doc(Gen &g, Ctx &c, XDoc &a)
{
    size_t n = 1 + g.below(3);
    for (size_t i = 0; i < n; ++i)
    {
        PrintOpts o = any_print(g);
        c.show("print " + show_opts(o)); c.label(strf("printed as %d/%d", (int)o.ct, (int)o.render));
        print(a.doq, o);
    }
}
static void check_outcome(XDoc &a, bool ok)
{
    if (ok) return;
    REQUIRE("errno", xmqDocErrno(a.doq) != 0, "rejected without an error number");
    REQUIRE("message", !a.err().empty(), "rejected without a message");
}
static bool ignore_out(void *, const char *, const char *) { return true; }
static bool tokenize_any(const Str &src, int type)
{
    XMQOutputSettings *os = xmqNewOutputSettings();
    XMQParseCallbacks *cb = xmqNewParseCallbacks();
    xmqSetupPrintStdOutStdErr(os);
    char *start = nullptr, *stop = nullptr;
    xmqSetupPrintMemory(os, &start, &stop);
    if (type == 0) xmqSetupParseCallbacksDebugTokens(cb);
    else if (type == 1) xmqSetupParseCallbacksDebugContent(cb);
    else if (type == 2) xmqSetupParseCallbacksDebugTokens(cb);
    else
    {
        XMQRenderFormat f = type == 3 ? XMQ_RENDER_TERMINAL : type == 4 ? XMQ_RENDER_HTML : XMQ_RENDER_TEX;
        xmqSetRenderFormat(os, f); xmqSetUseColor(os, true); xmqSetupDefaultColors(os);
        xmqSetupParseCallbacksColorizeTokens(cb, f);
    }
    XMQParseState *st = xmqNewParseState(cb, os);
    xmqSetStateSourceName(st, "src");
    char *buf = (char*)malloc(src.size() ? src.size() : 1); memcpy(buf, src.data(), src.size());
    bool ok = xmqTokenizeBuffer(st, buf, buf+src.size());
    if (!ok) { REQUIRE("message", xmqStateErrno(st) != 0 && xmqStateErrorMsg(st) && *xmqStateErrorMsg(st), "tokenising failed without error"); }
    free(buf); free(start);
    xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(os);
    (void)ignore_out;
    return ok;
}
static Str spelled(Gen &g, Ctx &c)
{
    Writer w(g); DocOpts d; d.named_ents = true; d.budget = 10;
    std::vector<Node> m = gen_doc(g, d); spellable(m); w.newlines = g.below(4) != 0; w.put_nodes(m, true); (void)c;
    return w.out;
}
PART(C10, xmq, 160000, 4000000, "bytes given as XMQ: a spelled document with up to four random mutations, a soup of XMQ fragments, or bytes, in memory of exact size; parsed with random flags and printed in up to three random ways, or tokenised. Non-trivial: accepted, or rejected after at least 8 bytes")
{
    Str s; int kind = g.below(4);
    if (kind <= 1) s = mutate(g, spelled(g, c), xmq_frags);
    else if (kind == 2) s = soup(g, xmq_frags, 40);
    else s = soup(g, xmq_frags, 8);
    int flags = g.below(3) ? 0 : (int)g.below(16); const char *root = g.below(4) ? nullptr : "root";
    XMQContentType ct = g.below(5) ? XMQ_CONTENT_XMQ : XMQ_CONTENT_HTMQ;
    c.show(strf("bytes: %s\nflags %d", vis(s).c_str(), flags)); c.show(s);
    c.nontrivially(s.size() >= 8, s);
    if (g.below(5) == 0) { int type = g.below(6); c.show(strf("tokenise %d", type)); bool ok = tokenize_any(s, type); c.label(ok ? "tokenised" : "not tokenised"); return; }
    XDoc a; xmqSetDocSourceName(a.doq, "src");
    bool ok = exact_parse(a, s, ct, flags, root);
    c.label(ok ? "accepted" : strf("rejected %d", xmqDocErrno(a.doq)));
    check_outcome(a, ok);
    if (ok) use_doc(g, c, a);
}
PART(C10, deep, 150, 3000, "elements, arrays or objects nested 1 to 60000 levels, given as XMQ or JSON, and printed. Non-trivial: more than 500 levels")
{
    static const int levels[] = { 1, 50, 257, 501, 2000, 9999, 10000, 10001, 20000, 60000 };
    int n = levels[g.below(10)]; bool close = g.below(5) != 0;
    static const std::vector<std::pair<Str,Str>> shapes = { {"a{","}"}, {"a(b){","}"}, {"a(A) { ","} "}, {"[","]"}, {"{\"a\":","}"}, {"[1,","]"} };
    auto &sh = g.of(shapes); bool json = sh.first[0] == '[' || sh.first[0] == '{';
    Str s; for (int i = 0; i < n; ++i) s += sh.first;
    if (json && sh.first[0] == '{') s += "1";
    if (close) for (int i = 0; i < n; ++i) s += sh.second;
    c.show(strf("%d levels of %s, %s", n, sh.first.c_str(), close ? "closed" : "not closed")); c.label(strf("%d levels", n)); c.nontrivially(n > 500, strf("%d %s %d", n, sh.first.c_str(), close));
    XDoc a; bool ok = exact_parse(a, s, json ? XMQ_CONTENT_JSON : XMQ_CONTENT_XMQ, 0, nullptr);
    check_outcome(a, ok);
    if (!close) REQUIRE("accepted", !ok, "unclosed nesting was accepted");
    if (ok)
    {
        c.label("accepted");
        static const std::vector<XMQContentType> cts = { XMQ_CONTENT_XMQ, XMQ_CONTENT_XML, XMQ_CONTENT_JSON, XMQ_CONTENT_TEXT };
        PrintOpts o; o.ct = g.of(cts); o.compact = true; print(a.doq, o);
    }
}
static const std::vector<Str> json_frags = {
    "{", "}", "[", "]", ":", ",", "\"", "\"a\"", "\"b\":", "\"_\":", "\"_\":\"x\"", "\"|\":\"t\"", "\"//\":\"c\"", "\"_//\":\"c\"", "\"!DOCTYPE\":\"html\"", "\"&\":\"&amp;\"", "\"_a\":", "\"_a\":null", "\"_xmlns\":\"u\"", "\"_xmlns:p\":\"u\"", "\"p:a\":", "\"_p:a\":\"1\"", "\"a[1]\":", "\"?x\":\"y\"", "\"a b\":", "\"\":", "\"_\":\"p:q\"", "\"_\":\"1x\"",
    "1", "-1", "0", "01", "1.5e+3", "1e", "-", ".5", "true", "false", "null", "tru", "nul", "\\", "\\n", "\\u", "\\u00", "\\u0000", "\\u00e5", "\\ud83d", "\\ud83d\\ude00", "\\udc00", "\\x", "\"\\", "\"\\u12", " ", "\n", "\t", "\xc2\xa0", "", "å", "\xff", "\xc3", "😀", "\x01", "'", "=", "/", "//", "a", "[[[[", "{\"a\":{\"a\":", "[1,2]", "[]", "{}", "\"\"", "[\"true\",\"1\",\"\"]"
};
static const std::vector<Str> xml_frags = {
    "<a>", "</a>", "<b/>", "<a", ">", "/>", " b='c'", " b=\"&lt;\"", " xmlns='u'", " xmlns:p='u'", "<p:a>", "</p:a>", " p:b=''", "<!--", "-->", "<!-- c -->", "<![CDATA[", "]]>", "<![CDATA[x]]>", "<?x y?>", "<?xml version='1.0'?>", "<?xml version='1.0' encoding='iso-8859-1'?>", "<?xml version='1.0' encoding='utf-16'?>", "<!DOCTYPE a>", "<!DOCTYPE a [ <!ENTITY e 'x'> ]>", "<!DOCTYPE a [ <!ENTITY e '<b/>'> <!ATTLIST a z CDATA 'd'> ]>", "<!DOCTYPE html>", "<html>", "</html>", "&e;", "&lt;", "&#10;", "&#x20ac;", "&nosuch;", "&", ";", "<", "text", " ", "\n", "\t", "\r\n", "å", "\xff", "\xe5", "", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "'", "\"", "=", "{", "--", "- ", "\xe2\x90\x90"
};
static const std::vector<Str> html_frags = {
    "<html>", "<head>", "<body>", "</body>", "</html>", "<p>", "</p>", "<div class=x>", "</div>", "<br>", "<img src='a' alt>", "<script>", "</script>", "<style>", "</style>", "<pre>", "</pre>", "<textarea>", "</textarea>", "<table>", "<tr>", "<td>", "<b>", "</b>", "<i>", "<a href=\"?a=1&b=2\">", "</a>", "<input disabled>", "<!DOCTYPE html>", "<!doctype HTML PUBLIC '-//W3C//DTD HTML 4.01//EN' 'x'>", "<!-- c -->", "<!--", "-->", "&nbsp;", "&amp;", "&copy;", "&#38;", "&nosuch;", "&", "<", ">", "text", " ", "\n", "\t", "å", "\xff", "\xe5", "", "\xef\xbb\xbf", "<meta charset=utf-8>", "<meta charset=iso-8859-1>", "<svg:x>", "<p:x y:z=1>", "<x-y>", "if (a<b && c) { x='</'; }", "<![CDATA[x]]>", "<?php x ?>", "\"", "'", "=", "<title>", "</title>", "<a b=c b=d>", "<a =x>", "<a \"b\">"
};
static const std::vector<Str> text_frags = { "text", " ", "\n", "\t", "\r", "", "\xff", "å", "<a>", "{", "&", "\x01", "'" };
static Str json_value(Gen &g, int depth)
{
    uint32_t k = g.below(depth > 4 ? 5 : 7);
    switch (k)
    {
    case 0: return strf("%d", (int)g.below(100));
    case 1: return "\"" + Str(g.coin() ? "x" : "a b\\n") + "\"";
    case 2: return g.coin() ? "true" : "null";
    case 3: return "-0.5e3";
    case 4: return "\"\"";
    case 5: { Str s = "["; size_t n = g.below(4); for (size_t i = 0; i < n; ++i) { if (i) s += ","; s += json_value(g, depth+1); } return s + "]"; }
    default: { Str s = "{"; size_t n = g.below(4); static const std::vector<Str> keys = { "a","b","_","_a","|","//","_//","!DOCTYPE","&","","a b","p:a","_xmlns","_xmlns:p","a[1]","?x","_:" };
        for (size_t i = 0; i < n; ++i) { if (i) s += ","; s += "\"" + g.of(keys) + "\":" + json_value(g, depth+1); } return s + "}"; }
    }
}
static Str html_text(Gen &g, int depth)
{
    Str s; size_t n = 1 + g.below(4);
    static const std::vector<Str> tags = { "div","p","b","span","pre","script","style","textarea","table","td","a","x-y","ul","li","h1","svg","button","title" };
    for (size_t i = 0; i < n; ++i)
    {
        if (depth < 4 && g.coin()) { Str t = g.of(tags); s += "<" + t + (g.below(3) ? "" : " id='q' hidden") + ">" + html_text(g, depth+1) + (g.below(8) ? "</" + t + ">" : ""); }
        else s += g.of(html_frags);
    }
    return s;
}
PART(C11, sources, 120000, 3000000, "bytes given as JSON, XML, HTML, TEXT or with content detection: generated sources with up to four mutations, or a soup of fragments, in memory of exact size; parsed with random flags and implicit root, then printed in up to three random ways. Non-trivial: at least 8 bytes")
{
    int type = g.below(4); Str s; XMQContentType ct = XMQ_CONTENT_DETECT;
    const std::vector<Str> *fr = type == 0 ? &json_frags : type == 1 ? &xml_frags : type == 2 ? &html_frags : &text_frags;
    int how = g.below(4);
    if (type == 3) { s = soup(g, g.coin() ? text_frags : g.coin() ? html_frags : g.coin() ? xml_frags : json_frags, 20); }
    else if (how <= 1)
    {
        if (type == 0) s = json_value(g, 0);
        else if (type == 1) { DocOpts d; d.budget = 10; s = to_xml_text(g, gen_doc(g, d)); }
        else s = (g.coin() ? "<!DOCTYPE html>" : "") + Str("<html><body>") + html_text(g, 0) + (g.coin() ? "</body></html>" : "");
        if (how == 0) s = mutate(g, s, *fr);
    }
    else s = soup(g, *fr, how == 2 ? 30 : 8);
    if (g.below(4)) ct = type == 0 ? XMQ_CONTENT_JSON : type == 1 ? XMQ_CONTENT_XML : type == 2 ? XMQ_CONTENT_HTML : XMQ_CONTENT_TEXT;
    int flags = g.below(3) ? 0 : (int)g.below(16); const char *root = g.below(4) ? nullptr : "root";
    static const char *names[] = { "json", "xml", "html", "text" };
    c.show(strf("%s as %s\nflags %d root %s: %s", names[type], ct == XMQ_CONTENT_DETECT ? "detect" : "given", flags, root ? root : "-", vis(s).c_str())); c.show(s);
    c.nontrivially(s.size() >= 8, s);
    XDoc a; xmqSetDocSourceName(a.doq, "src");
    bool ok = exact_parse(a, s, ct, flags, root);
    c.label(strf("%s %s", names[type], ok ? "accepted" : "rejected"));
    check_outcome(a, ok);
    if (ok) use_doc(g, c, a);
}
static const std::vector<Str> ixml_frags = {
    "S", "A", "B", ":", "=", ".", ",", ";", "|", "*", "+", "?", "**", "++", "(", ")", "[", "]", "~", "-", "^", "@", "'", "\"", "''", "\"\"", "'a'", "\"b\"", "'ab'", "#", "#a", "#61", "#10ffff", "#110000", "#d800", "#0", "#ffffffffff", "Lu", "L", "LC", "Zz", "X", "'a'-'z'", "-'a'", "+'x'", "+#a", "@A", "^A", "A>b", ">", "{", "}", "{c}", "{{}", " ", "\n", "\t", "\r", "", "å", "\xff", "\xf0\x9f\x98\x80", "\xc3", "\xef\xbb\xbf", "ixml", "version", "ixml version '1.0'.", "S:A. A:'a'.", "S:'a'*.", "S:A|B.", "A: .", "B:'b',A?.", "<", "&", "\x01", "|0", "$error", "error", "/", "_", "a-b", "AMBIGUOUS"
};
PART(C11, ixml, 25000, 600000, "IXML grammars (generated ones, the samples of the repository, or soup, with up to four mutations) and inputs (derived, sample or soup, with mutations), in memory of exact size; the grammar is parsed and used for up to three inputs, with random flags including recovery and, for inputs of at most 8 bytes, all parses; the documents are printed in random ways. Non-trivial: a grammar of at least 8 bytes")
{
    Str gr, in0; int how = g.pick({4,4,3});
    ix::GOpts o; o.alphabet = {'a','b'}; std::vector<Str> inputs;
    if (how == 0)
    {
        ix::Grammar G = ix::gen_grammar(g, o); gr = ix::spell(g, G);
        ix::Core core(G);
        for (int t = 0; t < 3; ++t) { std::vector<int> v; int fuel = 60; if (core.sample(g, core.rule_node[0], v, fuel, o.alphabet)) inputs.push_back(ix::to_text(v)); }
    }
    else if (how == 1) { auto &sd = ixml_seeds[g.below(sizeof(ixml_seeds)/sizeof(ixml_seeds[0]))]; gr = sd.grammar; inputs.push_back(sd.input); }
    else gr = soup(g, ixml_frags, 25);
    if (how < 2 && g.coin()) gr = mutate(g, gr, ixml_frags);
    c.show("grammar: " + vis(gr));
    c.nontrivially(gr.size() >= 8, gr);
    XDoc gd; xmqSetDocSourceName(gd.doq, "grammar");
    bool ok = exact_parse(gd, gr, XMQ_CONTENT_IXML, g.chance(1,4) ? (int)g.below(64) : 0, nullptr);
    c.label(ok ? "grammar accepted" : "grammar rejected");
    check_outcome(gd, ok);
    if (!ok) return;
    size_t n = 1 + g.below(3);
    for (size_t i = 0; i < n; ++i)
    {
        Str in = !inputs.empty() && g.chance(3,4) ? g.of(inputs) : soup(g, g.coin() ? text_frags : ixml_frags, 6);
        if (g.coin()) in = mutate(g, in, g.coin() ? text_frags : ixml_frags);
        if (in.size() > 400) in.resize(400);
        int flags = g.coin() ? 0 : (int)g.below(64);
        if (in.size() > 8) flags &= ~(int)XMQ_FLAG_IXML_ALL_PARSES;
        c.show(strf("flags %d input: ", flags) + vis(in));
        XDoc d; xmqSetDocSourceName(d.doq, "input");
        char *buf = (char*)malloc(in.size() ? in.size() : 1); memcpy(buf, in.data(), in.size());
        bool k = xmqParseBufferWithIXML(d.doq, buf, buf+in.size(), gd.doq, flags);
        free(buf);
        c.label(strf("input %s%s", k ? "accepted" : "rejected", flags & XMQ_FLAG_IXML_TRY_TO_RECOVER ? " with recovery" : ""));
        check_outcome(d, k);
        if (k) use_doc(g, c, d);
    }
}
