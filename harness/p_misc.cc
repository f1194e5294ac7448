// C14 to C18, C22, C23: library functions around the formats.
#include "json.h"
#include "writer.h"
#include <libxml/HTMLparser.h>
#include <libxml/HTMLtree.h>
#include <algorithm>

// ---------------------------------------------------------------------------------------------------------------
// C14
static void no_html(std::vector<Node> &v) { for (auto &n : v) if (n.kind == ELEM) { if (strncasecmp(n.name.c_str(), "html", 4) == 0) n.name = "x" + n.name; no_html(n.kids); } }
static Str small_html(Gen &g)
{
    static const std::vector<Str> tags = { "div", "p", "b", "span", "ul", "li", "table", "h1", "em" };
    std::function<Str(int)> body = [&](int d) { Str s; size_t n = g.size(4); for (size_t i = 0; i < n; ++i) { if (d < 3 && g.coin()) { Str t = g.of(tags); s += "<" + t + (g.below(3) ? "" : " id=x") + ">" + body(d+1) + "</" + t + ">"; } else s += g.coin() ? "text" : " a &amp; b\n"; } return s; };
    static const std::vector<Str> opens = { "<html>", "<HTML>", "<Html lang='sv'>", "<html\n>", "<html class=\"a\">" };
    return g.of(opens) + (g.coin() ? "<head><title>t</title></head>" : "") + "<body>" + body(0) + "</body></html>" + (g.coin() ? "\n" : "");
}
static Str html_prolog(Gen &g, bool &doctype)
{
    static const std::vector<Str> cs = { "", "", "<!-- c -->", "<!-- <xml> {} -->\n", "<!----><!-- x\n\n y -->  ", "\n<!-- html -->" };
    static const std::vector<Str> ds = { "", "<!DOCTYPE html>", "<!doctype HTML>\n", "<!DocType\n html >", "<!DOCTYPE\n\n\thtml>", "<!doctype\r\nHTML>\n", "<!DOCTYPE   html   >", "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\">" };
    Str d = g.of(ds); doctype = !d.empty();
    return g.of(cs) + d + (d.empty() ? Str() : g.of(cs));
}
PART(C14, detect, 30000, 600000, "XMQ spelled at random, XML, HTML and JSON sources behind optional byte order mark, white space, comments, prolog and doctype; the detected type, the tree read with detection and with the type given, and the rejection of every other type given. Non-trivial: at least 8 bytes")
{
    static const XMQContentType types[] = { XMQ_CONTENT_XMQ, XMQ_CONTENT_XML, XMQ_CONTENT_HTML, XMQ_CONTENT_JSON };
    static const char *names[] = { "xmq", "xml", "html", "json" };
    int k = g.below(4); XMQContentType want = types[k]; Str s; const char *root = nullptr;
    static const std::vector<Str> blanks = { "", "", " ", "\n", "\n\n  ", "\r\n", " \t\n" };
    if (k == 0)
    {
        DocOpts d; d.xml = false; std::vector<Node> m = gen_doc(g, d); spellable(m); Writer w(g); w.put_nodes(m, true); s = w.out;
        Str b = g.of(blanks); if (b.find('\t') == Str::npos) s = b + s;
        if (g.below(6) == 0) { static const std::vector<Str> kw = { "true", "false", "null", "truex", "nullable=1", "false{}", "true=1", "t", "n=2", "null()", "true//x\n", "fals", "truefalse", "// {}\ntrue", "/* < */ null", "_", "A", "S=1", "&true;", "'{'", "?true", "!DOCTYPE=html html" }; s = g.of(kw); Str b2 = g.of(blanks); if (b2.find('\t') == Str::npos) s = b2 + s; if (g.coin()) s += "\n"; if (s.find("&true") != Str::npos) root = "r"; if (s.find("'{'") != Str::npos) root = "r"; }
    }
    else if (k == 1)
    {
        DocOpts d; std::vector<Node> m = gen_doc(g, d); no_html(m); s = to_xml_text(g, m);
        bool decl = s.compare(0, 5, "<?xml") == 0;
        if (!decl) { size_t p = s.find("<!DOCTYPE"); if (p != Str::npos) { size_t q = p+9; while (q < s.size() && blank(s[q])) q++; if (strncasecmp(s.c_str()+q, "html", 4) == 0) throw Discard(); } s = g.of(blanks) + (g.below(3) ? "" : "<!-- c --> ") + s; }
    }
    else if (k == 2) { bool dt; s = g.of(blanks); Str p = html_prolog(g, dt); s += p + g.of(blanks) + small_html(g); }
    else { int budget = 8; J j = gen_j(g, 0, budget); s = jws(g) + to_json(g, j, g.coin()) + jws(g); }
    Str trimmed; for (char ch : s) if (!blank(ch)) trimmed += ch;
    bool word = false; { size_t a = 0, b = s.size(); while (a < b && blank(s[a])) a++; while (b > a && blank(s[b-1])) b--; Str w = s.substr(a, b-a); word = w == "true" || w == "false" || w == "null"; }
    if (k == 0 && word) want = XMQ_CONTENT_JSON;
    bool bom = g.below(5) == 0; Str src = (bom ? "\xef\xbb\xbf" : "") + s;
    c.show(Str(names[k]) + ": " + vis(src)); c.label(names[k]); c.label_if(bom, "byte order mark"); c.label_if(word, "true, false or null"); c.nontrivially(s.size() >= 8, s);
    XMQContentType det = xmqDetectContentType(s.data(), s.data()+s.size());
    REQUIRE("type", det == want, "detected as %d, but it is %d", (int)det, (int)want);
    int flags = g.below(3); 
    XDoc a, b;
    bool oa = a.parse(src, XMQ_CONTENT_DETECT, flags, root), ob = b.parse(src, want, flags, root);
    REQUIRE("outcome", oa == ob, "%s with detection, %s with the type given: %s%s", oa ? "accepted" : "rejected", ob ? "accepted" : "rejected", a.err().c_str(), b.err().c_str());
    if (!oa && (k == 0 || k == 3)) REQUIRE("reject", false, "rejected: %s", a.err().c_str());
    if (oa)
    {
        c.label("accepted");
        Str da = dump(a.model()), db = dump(b.model());
        REQUIRE("tree", da == db, "another tree with detection: %s", diff(db, da).c_str());
        REQUIRE("original", xmqGetOriginalContentType(a.doq) == want && xmqGetOriginalContentType(b.doq) == want, "the original type is said to be %d", (int)xmqGetOriginalContentType(a.doq));
        REQUIRE("size", xmqGetOriginalSize(a.doq) == s.size(), "the original size is said to be %zu", xmqGetOriginalSize(a.doq));
    }
    static const XMQContentType all[] = { XMQ_CONTENT_XMQ, XMQ_CONTENT_HTMQ, XMQ_CONTENT_XML, XMQ_CONTENT_HTML, XMQ_CONTENT_JSON };
    static const int expected[] = { XMQ_ERROR_EXPECTED_XMQ, XMQ_ERROR_EXPECTED_HTMQ, XMQ_ERROR_EXPECTED_XML, XMQ_ERROR_EXPECTED_HTML, XMQ_ERROR_EXPECTED_JSON };
    for (int t = 0; t < 5; ++t)
    {
        if (all[t] == want) continue;
        XDoc x; bool ok = x.parse(src, all[t], flags, root);
        bool same_family = (want == XMQ_CONTENT_XMQ && all[t] == XMQ_CONTENT_HTMQ) || (word && (all[t] == XMQ_CONTENT_XMQ || all[t] == XMQ_CONTENT_HTMQ));
        if (word && same_family && s.find('\t') != Str::npos) continue;
        if (same_family)
        {
            REQUIRE("forced", ok, "rejected as %d: %s", (int)all[t], x.err().c_str());
            if (!word) { Str da = dump(b.model()), dx = dump(x.model()); REQUIRE("tree", da == dx, "htmq and xmq differ: %s", diff(da, dx).c_str()); }
            else { auto mm = x.model(); REQUIRE("tree", mm.size() == 1 && mm[0].kind == ELEM && mm[0].kids.empty(), "a single word is an element in xmq"); }
        }
        else if (want == XMQ_CONTENT_XML && all[t] == XMQ_CONTENT_HTML) continue;
        else REQUIRE("forced", !ok && xmqDocErrno(x.doq) == expected[t] && !x.err().empty(), "read as %d gave %s, error %d '%s'", (int)all[t], ok ? "a document" : "no document", (int)xmqDocErrno(x.doq), x.err().c_str());
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C18
struct Step { bool desc = false; Str name; int kind = 0; int pos = 0; Str val; }; // kind: 0 none, 1 [pos], 2 [@k='val'], 3 [last()]
static Str attr_of(xmlNode *n, const char *name) { for (xmlAttr *a = n->properties; a; a = a->next) if (Str((const char*)a->name) == name) return a->children && a->children->content ? Str((const char*)a->children->content) : Str(); return "\x01none"; }
static void kids_of(xmlNode *n, std::vector<xmlNode*> &out, bool deep) { for (xmlNode *i = n->children; i; i = i->next) if (i->type == XML_ELEMENT_NODE) { out.push_back(i); if (deep) kids_of(i, out, true); } }
static void order_of(xmlNode *n, std::map<xmlNode*,int> &o) { int k = o.size(); o[n] = k; for (xmlNode *i = n->children; i; i = i->next) if (i->type == XML_ELEMENT_NODE) order_of(i, o); }
static void test_step(const Step &s, std::vector<xmlNode*> &cand)
{
    std::vector<xmlNode*> r; 
    for (auto n : cand) if (s.name == "*" || s.name == (const char*)n->name) r.push_back(n);
    std::vector<xmlNode*> q; int i = 0;
    for (auto n : r) { i++; if (s.kind == 1 && i != s.pos) continue; if (s.kind == 3 && i != (int)r.size()) continue; if (s.kind == 2 && attr_of(n, "k") != s.val) continue; q.push_back(n); }
    cand = q;
}
static std::vector<xmlNode*> select(xmlNode *ctx, const std::vector<Step> &steps, std::map<xmlNode*,int> &order)
{
    std::vector<xmlNode*> cur = { ctx };
    for (auto &s : steps)
    {
        std::vector<xmlNode*> base = cur, next; 
        if (s.desc) { std::set<xmlNode*> seen; std::vector<xmlNode*> b2; for (auto n : base) { std::vector<xmlNode*> d = { n }; kids_of(n, d, true); for (auto x : d) if (seen.insert(x).second) b2.push_back(x); } base = b2; }
        std::set<xmlNode*> seen;
        for (auto n : base) { std::vector<xmlNode*> k; kids_of(n, k, false); test_step(s, k); for (auto x : k) if (seen.insert(x).second) next.push_back(x); }
        std::sort(next.begin(), next.end(), [&](xmlNode *a, xmlNode *b) { return order[a] < order[b]; });
        cur = next;
    }
    return cur;
}
struct Visit { XMQDoc *doq; std::vector<int> ids; size_t stop_after; Str names, texts; int nested = 0; };
static XMQProceed visit(XMQDoc *doq, XMQNode *n, void *u)
{
    Visit *v = (Visit*)u;
    v->ids.push_back(xmqGetIntRel(doq, "@n", n));
    v->names += Str(xmqGetName(n)) + " ";
    if (doq != v->doq) v->ids.push_back(-1);
    return v->ids.size() >= v->stop_after ? XMQ_STOP : XMQ_CONTINUE;
}
static Str first_text(xmlNode *n) { for (xmlNode *i = n->children; i; i = i->next) if (i->type == XML_TEXT_NODE) return (const char*)i->content; return "\x01none"; }
// Nothing, or one text perhaps behind a comment.
static bool only_text(xmlNode *n) { xmlNode *i = n->children; while (i && i->type == XML_COMMENT_NODE) i = i->next; return !i || (i->type == XML_TEXT_NODE && !i->next); }
static bool has_text(xmlNode *n) { for (xmlNode *i = n->children; i; i = i->next) if (i->type == XML_TEXT_NODE) return true; return false; }
PART(C18, paths, 30000, 600000, "random documents of up to 40 numbered elements, read from XMQ or XML, random paths (child and descendant steps, wildcards, positions, attribute predicates) run through xmqForeach, xmqForeachRel and xmqGet*, against an own evaluator of these paths; numbers in decimal, hexadecimal and octal. Non-trivial: the path selects something")
{
    static const std::vector<Str> names = { "a", "b", "c", "item" };
    static const std::vector<Str> vals = { "x", "y", "z w" };
    int nr = 0; Str xml, pad;
    struct Val { Str text; int kind; double d; long long i; };
    std::map<int,Val> values;
    std::function<void(int)> el = [&](int depth) {
        int id = ++nr; Str nm = g.of(names);
        xml += "<" + nm + strf(" n=\"%d\"", id); if (g.coin()) xml += " k=\"" + g.of(vals) + "\""; xml += ">";
        if (depth < 5 && nr < 40 && (depth == 0 || g.coin())) { size_t n = g.size(5); for (size_t i = 0; i < n; ++i) el(depth+1); if (g.below(5) == 0) xml += "tail"; }
        else if (g.below(5))
        {
            Val v; v.kind = g.below(4); v.d = 0; v.i = 0;
            if (v.kind == 0) { TextOpts o; o.cr = false; v.text = gen_text(g, o); }
            else if (v.kind == 1)
            {
                static const std::vector<long long> nums = { 0, 1, 7, 8, 9, 10, 42, 100, 255, 32767, 65536, 2147483647LL, -1, -42, -2147483648LL };
                v.i = g.coin() ? g.of(nums) : (long long)(int32_t)g.next64();
                int f = v.i < 0 ? 0 : g.below(3);
                v.text = strf(f == 0 ? "%lld" : f == 1 ? "0x%llx" : "0%llo", v.i); if (v.i == 0) v.text = "0";
            }
            else if (v.kind == 2)
            {
                static const std::vector<long long> nums = { 2147483648LL, 4294967295LL, 4294967296LL, 9223372036854775807LL, -9223372036854775807LL-1, -2147483649LL, 1099511627776LL };
                v.i = g.coin() ? g.of(nums) : (long long)g.next64();
                int f = v.i < 0 ? 0 : g.below(3);
                v.text = strf(f == 0 ? "%lld" : f == 1 ? "0x%llx" : "0%llo", v.i); if (v.i == 0) v.text = "0";
            }
            else { static const std::vector<double> ds = { 0, 1.5, -2.25, 1e10, 1e-10, 3.141592653589793, 1e300, -0.5, 123456789.125, 0.1 }; v.d = g.coin() ? g.of(ds) : (double)(int32_t)g.next64() / (1 + g.below(1000)); v.text = strf(g.coin() ? "%.17g" : "%.17e", v.d); }
            if (v.text.empty()) v.kind = 0;
            values[id] = v;
            Str e; for (char ch : v.text) { if (ch == '<') e += "&lt;"; else if (ch == '&') e += "&amp;"; else if (ch == '>') e += "&gt;"; else if (ch == 0x0d) e += "&#13;"; else e += ch; }
            if (g.below(6) == 0) xml += "<!-- 17 -->";
            xml += e;
        }
        xml += "</" + nm + ">";
    };
    el(0);
    c.show("xml: " + xml);
    XDoc x; if (!x.parse(xml, XMQ_CONTENT_XML, XMQ_FLAG_TRIM_NONE)) throw Discard();
    XDoc y; bool via = g.coin(); if (via) { PrintOpts o; o.compact = g.coin(); REQUIRE("reject", y.parse(print(x.doq, o), XMQ_CONTENT_XMQ, 0), "printed xmq was rejected: %s", y.err().c_str()); }
    XDoc &d = via ? y : x; c.label(via ? "read from xmq" : "read from xml");
    xmlNode *top = (xmlNode*)d.xml(); std::map<xmlNode*,int> order; order_of(top, order);
    auto gen_steps = [&](Str &path, bool absolute) {
        std::vector<Step> st; size_t n = 1 + g.below(4);
        for (size_t i = 0; i < n; ++i)
        {
            Step s; s.desc = g.below(3) == 0; s.name = g.below(4) ? g.of(names) : Str("*"); if (i == 0 && absolute && !s.desc && g.coin()) s.name = "*";
            s.kind = g.pick({ 4, 2, 2, 1 }); s.pos = 1 + g.below(4); s.val = g.of(vals);
            if (i || absolute) path += s.desc ? "//" : "/"; else if (s.desc) path += ".//";
            path += s.name; if (s.kind == 1) path += strf("[%d]", s.pos); if (s.kind == 2) path += "[@k='" + s.val + "']"; if (s.kind == 3) path += "[last()]";
            st.push_back(s);
        }
        return st;
    };
    size_t rounds = 1 + g.below(3);
    for (size_t r = 0; r < rounds; ++r)
    {
        Str path; std::vector<Step> st; std::vector<xmlNode*> want;
        for (int k = 0; k < 4 && want.empty(); ++k) { path = ""; st = gen_steps(path, true); want = select(top, st, order); }
        c.show("path: " + path + strf(" selects %zu", want.size())); c.nontrivially(!want.empty(), path + xml); c.label(want.empty() ? "selects nothing" : want.size() == 1 ? "selects one" : "selects many");
        REQUIRE("count", xmqForeach(d.doq, path.c_str(), nullptr, nullptr) == (int)want.size(), "%s should select %zu", path.c_str(), want.size());
        Visit v; v.doq = d.doq; v.stop_after = g.coin() ? 1000 : 1 + g.below(3);
        int hits = xmqForeach(d.doq, path.c_str(), visit, &v);
        REQUIRE("count", hits == (int)want.size(), "%s returned %d, should select %zu", path.c_str(), hits, want.size());
        size_t n = std::min(v.stop_after, want.size());
        REQUIRE("visits", v.ids.size() == n, "%zu visits, should be %zu", v.ids.size(), n);
        Str nm; for (size_t i = 0; i < n; ++i) { int id = atoi(attr_of(want[i], "n").c_str()); REQUIRE("order", v.ids[i] == id, "visit %zu was of element %d, should be %d", i, v.ids[i], id); nm += Str((const char*)want[i]->name) + " "; }
        REQUIRE("name", v.names == nm, "names %s, should be %s", v.names.c_str(), nm.c_str());
        {
            xmlNode *rt = top->children; while (rt && rt->type != XML_ELEMENT_NODE) rt = rt->next;
            Str rp; std::vector<Step> rs = gen_steps(rp, false); std::vector<xmlNode*> rw = select(rt, rs, order);
            c.show("from the root node: " + rp);
            std::vector<int> ids; struct RV { std::vector<int> *ids; } rv = { &ids };
            int rh = xmqForeachRel(d.doq, rp.c_str(), [](XMQDoc *dq, XMQNode *m, void *u) -> XMQProceed { ((RV*)u)->ids->push_back(xmqGetIntRel(dq, "@n", m)); return XMQ_CONTINUE; }, &rv, xmqGetRootNode(d.doq));
            REQUIRE("root", rh == (int)rw.size() && ids.size() == rw.size(), "%d hits from the root node, should be %zu", rh, rw.size());
            for (size_t i = 0; i < rw.size(); ++i) REQUIRE("root", ids[i] == atoi(attr_of(rw[i], "n").c_str()), "match %zu from the root node is element %d", i, ids[i]);
        }
        if (!want.empty())
        {
            // Relative to the last one selected.
            struct Rel { XMQDoc *doq; Str path; int hits; std::vector<int> ids; Str text; bool has; size_t skip, skip_at; Str content; bool has_content; long long l, i; double dbl; } rel; rel.doq = d.doq; rel.hits = -1; rel.has = false; rel.skip = rel.skip_at = g.below(want.size());
            Str rp; std::vector<Step> rs = gen_steps(rp, false); rel.path = rp;
            std::vector<xmlNode*> rw = select(want[rel.skip], rs, order);
            c.show("relative path: " + rp + strf(" from match %zu selects %zu", rel.skip, rw.size()));
            xmqForeach(d.doq, path.c_str(), [](XMQDoc *doq, XMQNode *n, void *u) -> XMQProceed {
                Rel *r = (Rel*)u; if (r->skip) { r->skip--; return XMQ_CONTINUE; }
                r->hits = xmqForeachRel(doq, r->path.c_str(), [](XMQDoc *dq, XMQNode *m, void *w) -> XMQProceed { ((Rel*)w)->ids.push_back(xmqGetIntRel(dq, "@n", m)); return XMQ_CONTINUE; }, r, n);
                const char *t = xmqGetStringRel(doq, r->path.c_str(), n); r->has = t != nullptr; r->text = t ? t : "";
                r->l = xmqGetLongRel(doq, ".", n); r->i = xmqGetIntRel(doq, ".", n); r->dbl = xmqGetDoubleRel(doq, ".", n); const char *ct = xmqGetContent(n); r->has_content = ct != nullptr; r->content = ct ? ct : "";
                return XMQ_STOP; }, &rel);
            REQUIRE("relative", rel.hits == (int)rw.size() && rel.ids.size() == rw.size(), "%d hits relative, should be %zu", rel.hits, rw.size());
            for (size_t i = 0; i < rw.size(); ++i) REQUIRE("relative", rel.ids[i] == atoi(attr_of(rw[i], "n").c_str()), "relative match %zu is element %d", i, rel.ids[i]);
            { size_t k = 0; for (auto q : want) { if (k == rel.skip_at) { xmlNode *wn = q; int wid = atoi(attr_of(wn, "n").c_str());
                if (only_text(wn)) REQUIRE("content", rel.has_content == has_text(wn) && (!rel.has_content || rel.content == first_text(wn)), "the content of element %d is '%s'", wid, vis(rel.content).c_str());
                if (values.count(wid) && values[wid].kind) { Val &wv = values[wid]; c.label("number relative");
                    if (wv.kind == 1) REQUIRE("int", rel.i == wv.i, "int of '%s' is %lld", wv.text.c_str(), rel.i);
                    if (wv.kind <= 2) REQUIRE("long", rel.l == wv.i, "long of '%s' is %lld", wv.text.c_str(), rel.l);
                    double wd = wv.kind == 3 ? wv.d : (double)strtoll(wv.text.c_str(), nullptr, 10);
                    if (wv.kind == 3 || wv.text[0] != '0') REQUIRE("double", rel.dbl == wd, "double of '%s' is %.17g", wv.text.c_str(), rel.dbl); }
                else if (only_text(wn) && !has_text(wn)) REQUIRE("empty", rel.l == 0 && rel.i == 0 && rel.dbl == 0, "a number in an empty element"); } k++; } }
            if (rw.empty()) REQUIRE("relative", !rel.has, "a string for a path that selects nothing");
            else if (only_text(rw[0])) REQUIRE("relative", rel.has ? rel.text == first_text(rw[0]) : !has_text(rw[0]), "relative text is '%s'", vis(rel.text).c_str());
        }
        const char *sv = xmqGetString(d.doq, path.c_str());
        if (want.empty())
        {
            REQUIRE("fallback", !sv && xmqGetInt(d.doq, path.c_str()) == 0 && xmqGetLong(d.doq, path.c_str()) == 0 && xmqGetDouble(d.doq, path.c_str()) == 0, "a value for a path that selects nothing");
            continue;
        }
        if (only_text(want[0]) && has_text(want[0])) { const char *t = xmqGetString(d.doq, ("(" + path + ")[1]/text()").c_str()); REQUIRE("text()", t && first_text(want[0]) == t, "text() is '%s'", t ? vis(t).c_str() : "(null)"); }
        xmlNode *w = want[0]; int id = atoi(attr_of(w, "n").c_str());
        Str as = attr_of(w, "k"); const char *av = xmqGetString(d.doq, ("(" + path + ")[1]/@k").c_str());
        if (as == "\x01none") REQUIRE("attribute", !av, "an attribute that is not there"); else REQUIRE("attribute", av && as == av, "attribute '%s', should be '%s'", av ? av : "(null)", as.c_str());
        if (!values.count(id)) { if (!has_text(w) && only_text(w)) REQUIRE("fallback", !sv && xmqGetInt(d.doq, path.c_str()) == 0, "a value for an empty element"); continue; }
        Val &val = values[id];
        if (val.kind == 0) { if (only_text(w) && has_text(w)) REQUIRE("string", sv && Str(sv) == val.text, "string '%s', should be '%s'", sv ? vis(sv).c_str() : "(null)", vis(val.text).c_str()); }
        else
        {
            c.label(strf("number kind %d", val.kind));
            REQUIRE("string", sv && Str(sv) == val.text, "string '%s', should be '%s'", sv ? vis(sv).c_str() : "(null)", vis(val.text).c_str());
            if (val.kind == 1) REQUIRE("int", xmqGetInt(d.doq, path.c_str()) == val.i, "int of '%s' is %d", val.text.c_str(), xmqGetInt(d.doq, path.c_str()));
            if (val.kind <= 2) REQUIRE("long", xmqGetLong(d.doq, path.c_str()) == val.i, "long of '%s' is %lld", val.text.c_str(), (long long)xmqGetLong(d.doq, path.c_str()));
            double want_d = val.kind == 3 ? val.d : (double)strtoll(val.text.c_str(), nullptr, 10);
            if (val.kind == 3 || (val.text[0] != '0')) REQUIRE("double", xmqGetDouble(d.doq, path.c_str()) == want_d, "double of '%s' is %.17g", val.text.c_str(), xmqGetDouble(d.doq, path.c_str()));
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C22
static void text_of(const std::vector<Node> &v, Str &o)
{
    for (auto &n : v)
    {
        if (n.kind == TEXT) o += n.text;
        else if (n.kind == ELEM) text_of(n.kids, o);
        else if (n.kind == ENT) { std::vector<Node> one = { n }; DumpOpts d; normalise(one, d); if (one.size() && one[0].kind == TEXT) o += one[0].text; else if (n.name == "nbsp") o += "\xc2\xa0"; else o += "&" + n.name + ";"; }
    }
}
static Str c_quote(const Str &s)
{
    Str o;
    for (unsigned char ch : s)
    {
        switch (ch)
        {
        case '\\': o += "\\\\"; break; case '"': o += "\\\""; break; case 7: o += "\\a"; break; case 8: o += "\\b"; break; case 9: o += "\\t"; break; case 10: o += "\\n"; break; case 11: o += "\\v"; break; case 12: o += "\\f"; break; case 13: o += "\\r"; break;
        default: if (ch < 32 || ch == 127) o += strf("\\x%02X", ch); else o += (char)ch;
        }
    }
    return o;
}
static Str one_value(const Node &n) { std::vector<Node> one = { n }; Str o; text_of(one, o); return c_quote(o); }
static void lines_of(const std::vector<Node> &v, const Str &path, std::vector<Str> &o)
{
    for (auto &n : v)
    {
        if (n.kind == TEXT) o.push_back(path + "=\"" + c_quote(n.text) + "\"");
        else if (n.kind == ENT) o.push_back(path + "=\"" + one_value(n) + "\"");
        else if (n.kind == ELEM)
        {
            size_t p = n.name.find(':'); Str nm = p == Str::npos ? n.name : n.name.substr(p+1);
            Str me = path + "/" + nm;
            for (auto &a : n.attrs) if (a.name != "xmlns" && a.name.compare(0, 6, "xmlns:")) { Str val; for (auto &x : a.value) val += one_value(x); o.push_back(me + "/@" + a.name + "=\"" + val + "\""); }
            if (n.kids.empty()) o.push_back(me + "=\"\""); else lines_of(n.kids, me, o);
        }
    }
}
PART(C22, text, 30000, 600000, "documents read from XML or spelled XMQ (also several roots and root texts), printed as text and as clines, against the character data and the paths of the tree. Non-trivial: the document has text")
{
    int how = g.below(2); Str src; bool ok; XDoc a; DocOpts d; d.attr_noval = how == 1;
    if (how == 0) { src = to_xml_text(g, gen_doc(g, d)); ok = a.parse(src, XMQ_CONTENT_XML, XMQ_FLAG_TRIM_NONE); if (!ok) throw Discard(); }
    else { d.xml = false; d.multi_root = g.coin(); d.root_text = g.coin(); std::vector<Node> m = gen_doc(g, d); spellable(m); Writer w(g); w.put_nodes(m, true); src = w.out; ok = a.parse(src, XMQ_CONTENT_XMQ, g.coin() ? XMQ_FLAG_NOMERGE : 0); REQUIRE("reject", ok, "spelled xmq was rejected: %s", a.err().c_str()); }
    c.show("source: " + vis(src)); c.label(how ? "xmq" : "xml");
    std::vector<Node> m = a.model(); Str want; text_of(m, want);
    c.nontrivially(!want.empty(), src);
    PrintOpts o; o.ct = XMQ_CONTENT_TEXT; o.compact = g.below(4) == 0; Str got = print(a.doq, o);
    c.show("text: " + vis(got));
    REQUIRE("text", got == want, "the text is '%s', should be '%s'", vis(got).c_str(), vis(want).c_str());
    std::vector<Str> lines; lines_of(m, "", lines); Str wl; for (auto &l : lines) wl += l + "\n";
    o.ct = XMQ_CONTENT_CLINES; Str gl = print(a.doq, o);
    c.show("clines: " + vis(gl));
    REQUIRE("clines", gl == wl, "%s", diff(wl, gl).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// C23
static Str any_string(Gen &g)
{
    TextOpts o; o.controls = g.below(3) == 0;
    switch (g.below(4))
    {
    case 0: return gen_jstring(g);
    case 1: { Str s; static const std::vector<Str> f = { "'", "''", "\n", "\r", "\t", " ", "a", "&", ";", "(", ")", "{", "}", "//", "/*", "*/", "=", "&#10;", "\"", "\\", "\x01", "\x7f", "å", "😀", "\xc2\xa0", "%" }; size_t n = g.size(12); for (size_t i = 0; i < n; ++i) s += g.of(f); return s; }
    case 2: { static const int lens[] = { 100, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 5000 }; Str s = gen_text(g, o); size_t n = lens[g.below(11)]; while (s.size() < n) s += g.below(9) ? "word " : "'\n"; size_t k = n; while (k < s.size() && (s[k] & 0xc0) == 0x80) k++; return s.substr(0, k); }
    default: return gen_text(g, o);
    }
}
static Str value_of(const Str &xmq, const char *what)
{
    XDoc a; REQUIRE("reject", a.parse(xmq, XMQ_CONTENT_XMQ, 0), "%s is not valid xmq: %s", what, a.err().c_str());
    std::vector<Node> m = a.model(); normalise(m, DumpOpts());
    REQUIRE("tree", m.size() == 1 && m[0].kind == ELEM && m[0].kids.size() <= 1 && (m[0].kids.empty() || m[0].kids[0].kind == TEXT), "%s is not a single element with a text:\n%s", what, dump(m).c_str());
    return m[0].kids.empty() ? Str() : m[0].kids[0].text;
}
PART(C23, quote, 40000, 800000, "any string without U+0000 through xmqCompactQuote, used as value of an element, of an attribute and beside others; one line, and read back the same. Non-trivial: the string is not a plain word")
{
    Str s = any_string(g); c.show("string: " + vis(s));
    c.nontrivially(s.find_first_not_of("abcdefghijklmnopqrstuvwxyz") != Str::npos, s);
    c.label_if(s.find('\n') != Str::npos, "newline"); c.label_if(s.find('\'') != Str::npos, "quote"); c.label_if(s.size() > 1000, "long"); c.label_if(s.find_first_of("\t\r") != Str::npos, "tab or cr");
    char *q = xmqCompactQuote(s.c_str()); Str quote = q; free(q);
    c.show("quote: " + vis(quote));
    REQUIRE("line", quote.find_first_of("\n\r") == Str::npos, "the quote has a newline");
    Str got = value_of("key=" + quote, "key=quote");
    REQUIRE("value", got == s, "the value became '%s'", vis(got).c_str());
    XDoc a; Str around = "x{a=" + quote + " b(c=" + quote + " d=" + quote + ")=" + quote + " e=1}";
    REQUIRE("reject", a.parse(around, XMQ_CONTENT_XMQ, 0), "not valid among others: %s", a.err().c_str());
    std::vector<Node> m = a.model(); normalise(m, DumpOpts());
    Node e = mk_elem("x"), ka = mk_elem("a"), kb = mk_elem("b"), ke = mk_elem("e"); ka.kids = { mk_text(s) }; kb.kids = { mk_text(s) }; ke.kids = { mk_text("1") };
    for (const char *n : { "c", "d" }) { Attr t; t.name = n; t.value = { mk_text(s) }; kb.attrs.push_back(t); }
    e.kids = { ka, kb, ke }; DumpOpts d; d.empty_attr_same = true; Str want = dump({ e }, d), gd = dump(m, d);
    REQUIRE("tree", want == gd, "among others: %s", diff(want, gd).c_str());
}
PART(C23, line, 30000, 600000, "xmqLinePrintf of an element with 0 to 3 keys, of a single value, or of a plain format, with random literals around %s, %d and %s; one line of valid XMQ with exactly the formatted values. Non-trivial: a value is not a plain word")
{
    struct V { Str f, a, b; int d; Str want; } v[3];
    static const std::vector<Str> keys = { "alfa=", "b=", "long-key.name=" };
    bool nt = false; size_t n = g.below(4);
    for (size_t i = 0; i < 3; ++i)
    {
        V &x = v[i]; x.a = any_string(g); x.b = g.coin() ? any_string(g) : ""; x.d = g.coin() ? (int)g.below(10) : (int)g.next64();
        Str l[4]; for (auto &t : l) { t = g.coin() ? "" : any_string(g); if (t.size() > 60) { size_t k = 60; while (k && (t[k] & 0xc0) == 0x80) k--; t.resize(k); } }
        Str esc[4]; for (int k = 0; k < 4; ++k) for (char ch : l[k]) { esc[k] += ch; if (ch == '%') esc[k] += '%'; }
        x.f = esc[0] + "%s" + esc[1] + "%d" + esc[2] + "%s" + esc[3];
        x.want = l[0] + x.a + l[1] + strf("%d", x.d) + l[2] + x.b + l[3];
        if (x.want.find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789") != Str::npos) nt = true;
        c.label_if(x.want.size() >= 1024, "longer than 1024");
    }
    int form = g.below(4); Str el = form <= 1 ? "car{" : form == 2 ? "car=" : v[0].f;
    if (form == 3 && (el.back() == '{' || el.back() == '=')) el += ".", v[0].want += ".";
    for (size_t i = 0; i < (form <= 1 ? n : 1); ++i) c.show(strf("format '%s' '%s' %d '%s'", vis(v[i].f).c_str(), vis(v[i].a).c_str(), v[i].d, vis(v[i].b).c_str()));
    c.show(strf("form %d keys %zu", form, n)); c.nontrivially(nt, v[0].want + v[1].want); c.label(form <= 1 ? strf("element, %zu keys", n) : form == 2 ? "single value" : "plain format");
    XMQLineConfig *lc = xmqNewLineConfig(); char *out;
#define KV(i) (n > i ? keys[i].c_str() : "}"), v[i].f.c_str(), v[i].a.c_str(), v[i].d, v[i].b.c_str()
    if (form <= 1) out = xmqLinePrintf(lc, "car{", KV(0), KV(1), KV(2), "}");
    else if (form == 2) out = xmqLinePrintf(lc, "car=", v[0].f.c_str(), v[0].a.c_str(), v[0].d, v[0].b.c_str());
    else out = xmqLinePrintf(lc, el.c_str(), v[0].a.c_str(), v[0].d, v[0].b.c_str());
    Str line = out ? out : ""; free(out); xmqFreeLineConfig(lc);
    c.show("line: " + vis(line));
    REQUIRE("line", line.find_first_of("\n\r") == Str::npos, "the line has a newline");
    if (form > 1) { Str got = value_of(line, "the line"); REQUIRE("value", got == v[0].want, "the value became '%s', should be '%s'", vis(got).c_str(), vis(v[0].want).c_str()); return; }
    XDoc a; REQUIRE("reject", a.parse(line, XMQ_CONTENT_XMQ, 0), "the line is not valid xmq: %s", a.err().c_str());
    Node e = mk_elem("car"); for (size_t i = 0; i < n; ++i) { Node k = mk_elem(keys[i].substr(0, keys[i].size()-1)); k.kids = { mk_text(v[i].want) }; e.kids.push_back(k); }
    Str want = dump({ e }), got = dump(a.model());
    REQUIRE("tree", want == got, "%s", diff(want, got).c_str());
}

PART(C23, doc, 15000, 300000, "a document read from XML or XMQ through xmqLineDoc; one line of valid XMQ with the tree of the document. Non-trivial: at least 20 bytes")
{
    XDoc x; DocOpts o; o.xml = g.coin(); if (!o.xml) { o.multi_root = g.coin(); o.attr_noval = g.coin(); }
    std::vector<Node> m = gen_doc(g, o); Str src;
    if (o.xml) src = to_xml_text(g, m); else { spellable(m); Writer w(g); w.put_nodes(m, true); src = w.out; }
    c.show("source: " + vis(src)); if (!x.parse(src, o.xml ? XMQ_CONTENT_XML : XMQ_CONTENT_XMQ, o.xml ? XMQ_FLAG_TRIM_NONE : 0)) throw Discard();
    XMQLineConfig *lc = xmqNewLineConfig(); if (g.coin()) xmqSetLineHumanReadable(lc, true);
    char *out = xmqLineDoc(lc, x.doq); Str line = out ? out : ""; free(out); xmqFreeLineConfig(lc);
    c.show("line: " + vis(line)); c.nontrivially(line.size() >= 20, line);
    REQUIRE("line", line.find_first_of("\n\r") == Str::npos, "the line has a newline");
    XDoc a; REQUIRE("reject", a.parse(line, XMQ_CONTENT_XMQ, 0), "the line is not valid xmq: %s", a.err().c_str());
    DumpOpts d; d.no_ns_order = true; d.empty_attr_same = true; d.loose_comments = true; d.doctype_ws = true; d.pi_ws = true; Str want = dump(x.model(), d), got = dump(a.model(), d);
    REQUIRE("tree", want == got, "another tree: %s", diff(want, got).c_str());
}
PART(C23, human, 10000, 200000, "xmqLinePrintf in its human readable form, of an element with 0 to 3 keys, a single value or a plain format; the name and the formatted values. Non-trivial: two keys or more")
{
    struct V { Str f, a; int d; Str want; } v[3]; static const std::vector<Str> keys = { "alfa=", "b=", "long-key.name=" };
    size_t n = g.below(4); int form = g.below(3);
    for (size_t i = 0; i < 3; ++i)
    {
        V &x = v[i]; x.a = any_string(g); x.d = (int)g.next64(); Str l[3]; for (auto &t : l) t = g.coin() ? "" : g.coin() ? "text %% " : "100%% {";
        x.f = l[0] + "%s" + l[1] + "%d" + l[2]; auto un = [](Str s) { for (size_t p; (p = s.find("%%")) != Str::npos;) s.replace(p, 2, "%"); return s; };
        x.want = un(l[0]) + x.a + un(l[1]) + strf("%d", x.d) + un(l[2]);
    }
    if (form == 2) { v[0].f += "."; v[0].want += "."; }
    XMQLineConfig *lc = xmqNewLineConfig(); xmqSetLineHumanReadable(lc, true); char *out; Str want;
#define HKV(i) (n > i ? keys[i].c_str() : "}"), v[i].f.c_str(), v[i].a.c_str(), v[i].d
    if (form == 0) { out = xmqLinePrintf(lc, "car{", HKV(0), HKV(1), HKV(2), "}"); want = "(car) "; for (size_t i = 0; i < n; ++i) want += (i ? " " : "") + keys[i] + v[i].want; }
    else if (form == 1) { out = xmqLinePrintf(lc, "car=", v[0].f.c_str(), v[0].a.c_str(), v[0].d); want = "(car) " + v[0].want; }
    else { out = xmqLinePrintf(lc, v[0].f.c_str(), v[0].a.c_str(), v[0].d); want = "(log) " + v[0].want; }
    Str line = out ? out : ""; free(out); xmqFreeLineConfig(lc); c.show(strf("form %d keys %zu line: ", form, n) + vis(line)); c.nontrivially(form == 0 && n > 1, want);
    REQUIRE("human", line == want, "%s", diff(want, line).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// C15
static Str html_text(Gen &g)
{
    static const std::vector<Str> ws = { "text", " ", "\n", "\n  ", " a ", "&amp;", "&lt;", "&gt;", "&nbsp;", "&eacute;", "&copy;", "å", "中", "\xF0\x9F\x98\x80", "'", "\"", "''", "'''", "  two  spaces ", "\n\n", "(", "}", "=", "//", "/*", "&#9;", "a=b", "&quot;", "x", "&#8364;", "&#160;x", "123", "{}", "\t" };
    Str s; size_t n = 1 + g.size(5); for (size_t i = 0; i < n; ++i) s += g.of(ws); return s;
}
static Str html_attr(Gen &g)
{
    static const std::vector<Str> as = { " id=x", " class='a b'", " title=\"å &amp; b\"", " href=\"?a=1&amp;b=2\"", " disabled", " checked", " data-x=''", " alt=\"\"", " style=\"a:b;c:'d'\"", " onclick='f(\"x\")'", " lang=sv", " title='\n two\n  lines'", " value=\"a'b\"", " href='#x y'", " src=\"/å/b.png\"", " align=left", " name=''", " title='&lt;b&gt;'", " selected=selected", " href=x%20y", " title='{'" };
    Str s; size_t n = g.below(3) ? 0 : 1 + g.size(2); for (size_t i = 0; i < n; ++i) s += g.of(as); return s;
}
static Str html_script(Gen &g)
{
    static const std::vector<Str> ps = { "if (a < b && c > d) {", "}", "\n", "  x = 'y';\n", "\"å\"", "// c\n", "/* c */", "&amp;", "'''", "\xF0\x9F\x98\x80", " ", "\t", "h1 { color:red; }\n", "a>b", "\"\\n\"", "&#10;", "<b>", "''", "\n\n" , "ж"};
    Str s; size_t n = g.size(6); for (size_t i = 0; i < n; ++i) s += g.of(ps); return s;
}
static Str gen_html_body(Gen &g, int depth)
{
    static const std::vector<Str> block = { "div", "ul", "section", "blockquote", "table", "form", "pre", "p", "h1", "li", "td", "dl", "center", "body2" };
    static const std::vector<Str> inl = { "b", "i", "span", "a", "em", "code", "label", "textarea", "button", "sub" };
    static const std::vector<Str> voids = { "<br>", "<hr>", "<img src=\"a.png\" alt='x'>", "<input>", "<input disabled>", "<br/>", "<input type=text value='a  b'>" };
    Str s; size_t n = g.size(4);
    for (size_t i = 0; i < n; ++i)
    {
        int k = g.below(12);
        if (k <= 3) s += html_text(g);
        else if (k <= 8 && depth < 4) { Str t = (k <= 5) ? g.of(block) : g.of(inl); s += "<" + t + html_attr(g) + ">" + gen_html_body(g, depth+1) + "</" + t + ">"; }
        else if (k == 9) s += g.of(voids);
        else if (k == 10) { static const std::vector<Str> cs = { "<!-- c -->", "<!---->", "<!--x-->", "<!-- a\nb -->", "<!-- { } = 'x' -->", "<!-- </p> -->", "<!--*/-->", "<!--[if IE]>x<![endif]-->" }; s += g.of(cs); }
        else if (k == 11) { Str t = g.coin() ? "script" : "style"; s += "<" + t + html_attr(g) + ">" + html_script(g) + "</" + t + ">"; }
        if (g.below(4) == 0) s += "\n  ";
    }
    return s;
}
static Str gen_html(Gen &g)
{
    static const std::vector<Str> dts = { "<!DOCTYPE html>", "", "<!DOCTYPE html PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\">", "<!DOCTYPE html>\n", "<!doctype html SYSTEM \"about:legacy-compat\">" };
    Str s = g.of(dts); if (g.below(6) == 0) s += "<!-- first -->";
    s += "<html" + html_attr(g) + ">"; if (g.below(5) == 0) s += "\n";
    if (g.coin()) { s += "<head>"; if (g.below(3)) s += "<meta charset=\"utf-8\">"; if (g.coin()) s += "<title>" + html_text(g) + "</title>"; if (g.below(3) == 0) s += "<style>" + html_script(g) + "</style>"; if (g.below(4) == 0) s += "<script src=a.js></script>"; if (g.below(3) == 0) s += "<link rel=stylesheet href=a.css>"; s += "</head>"; }
    s += "<body" + html_attr(g) + ">" + gen_html_body(g, 0) + "</body></html>"; if (g.coin()) s += "\n";
    return s;
}
// As xmq reads HTML without trimming, but done here.
static htmlDocPtr read_html(const Str &s) { return htmlReadMemory(s.data(), s.size(), "foof", nullptr, HTML_PARSE_NOERROR|HTML_PARSE_NOWARNING|HTML_PARSE_NONET); }
static bool html_model(const Str &s, std::vector<Node> &m, Str *out = nullptr)
{
    htmlDocPtr d = read_html(s); if (!d) return false;
    m = from_xml(d);
    if (out)
    {
        xmlOutputBufferPtr ob = xmlAllocOutputBuffer(nullptr); htmlDocContentDumpOutput(ob, d, "utf8");
        *out = (const char*)xmlOutputBufferGetContent(ob); xmlOutputBufferClose(ob);
    }
    xmlFreeDoc(d); return true;
}
// In HTML an attribute without value, with an empty value, and a boolean attribute are written by libxml2 as it sees fit.
static void html_same(std::vector<Node> &v) { for (auto &n : v) { for (auto &a : n.attrs) if (a.value.empty()) a.has_value = false; html_same(n.kids); } }
static void scripts_of(const std::vector<Node> &v, Str &o) { for (auto &n : v) { if (n.kind == ELEM && (n.name == "script" || n.name == "style")) { o += n.name + ": "; for (auto &k : n.kids) o += k.text; o += "\n"; } scripts_of(n.kids, o); } }
static Str html_dump(std::vector<Node> m) { html_same(m); DumpOpts o; o.doctype_ws = true; o.empty_attr_same = true; return dump(m, o); }
PART(C15, roundtrip, 25000, 500000, "generated HTML with nested elements, attributes (with and without value), scripts, styles, preformatted text, comments, entities and doctypes, written by libxml2 until it writes and reads it back unchanged; read by xmq without trimming, printed as HTMQ with random settings, read back, printed as HTML and compared with what libxml2 read. Non-trivial: at least 10 nodes")
{
    libxml_quiet();
    Str s = gen_html(g);
    std::vector<Node> m0, m1; Str once, d0;
    // libxml2 puts in newlines when it writes HTML: start from what it wrote once it does so no longer.
    bool stable = false;
    for (int k = 0; k < 4 && !stable; ++k)
    {
        if (!html_model(s, m0, &once) || !html_model(once, m1)) throw Discard();
        d0 = html_dump(m0); stable = d0 == html_dump(m1); if (!stable) s = once;
    }
    if (!stable) throw Discard();
    std::vector<Str> com; all_comments(m0, com); 
    bool unclean = false; for (auto &x : com) unclean |= !clean_comment(x);
    if (unclean) throw Discard();
    PrintOpts o; o.ct = g.coin() ? XMQ_CONTENT_HTMQ : XMQ_CONTENT_XMQ; o.compact = g.below(3) == 0; o.indent = o.compact ? 4 : g.below(4) ? 4 : (int)g.below(9); o.esc_nl = g.below(4) == 0; o.esc_non7 = g.below(4) == 0; o.esc_tab = g.below(4) == 0;
    c.show(vis(s) + " " + show_opts(o));
    c.nontrivially(std::count(d0.begin(), d0.end(), '\n') >= 10, s);
    c.label_if(s.find("<script") != Str::npos || s.find("<style") != Str::npos, "script or style"); c.label_if(s.find("<pre") != Str::npos, "pre"); c.label_if(o.compact, "compact"); c.label_if(o.esc_non7, "escape-non-7bit");
    XDoc x; REQUIRE("read", x.parse(s, g.coin() ? XMQ_CONTENT_HTML : XMQ_CONTENT_DETECT, 1), "xmq rejects the HTML: %s", x.err().c_str());
    Str da = html_dump(x.model()); REQUIRE("read", da == d0, "xmq reads another tree than libxml2: %s", diff(d0, da).c_str());
    Str q = print(x.doq, o);
    int fl = g.below(3) ? 0 : XMQ_FLAG_NOMERGE; if (fl) c.show("--no-merge");
    XDoc y; REQUIRE("htmq", y.parse(q, XMQ_CONTENT_HTMQ, fl), "the printed HTMQ is rejected: %s\n%s", y.err().c_str(), vis(q).c_str());
    PrintOpts h; h.ct = XMQ_CONTENT_HTML;
    Str back = print(y.doq, h); std::vector<Node> m2;
    REQUIRE("html", html_model(back, m2), "libxml2 rejects the printed HTML: %s", vis(back).c_str());
    if (fl)
    {
        // Character entities stay entities, only script and style, where HTML has none, must be the same.
        Str sa, sb; scripts_of(m0, sa); scripts_of(m2, sb); REQUIRE("script", sa == sb, "another script or style: %s\nHTMQ: %s\nHTML: %s", diff(sa, sb).c_str(), vis(q).c_str(), vis(back).c_str());
        return;
    }
    Str d2 = html_dump(m2); REQUIRE("tree", d0 == d2, "another tree after HTMQ: %s\nHTMQ: %s\nHTML: %s", diff(d0, d2).c_str(), vis(q).c_str(), vis(back).c_str());
    // Direct print, without detour.
    XDoc z; z.parse(s, XMQ_CONTENT_HTML, 1); Str dir = print(z.doq, h); std::vector<Node> m3;
    REQUIRE("direct", html_model(dir, m3) && html_dump(m3) == d0, "another tree after reading and printing HTML: %s", diff(d0, html_dump(m3)).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// C16
static Str trim_ref(const Str &t, bool &drop)
{
    drop = false; bool all = true; for (char ch : t) all = all && blank(ch); if (all) { drop = true; return ""; }
    size_t a = 0, b = t.size(); while (a < b && t[a] == ' ') a++; while (b > a && t[b-1] == ' ') b--;
    Str s = t.substr(a, b-a); size_t nl = s.find('\n'); if (nl == Str::npos) return s;
    size_t ind = 0; while (nl+1+ind < s.size() && s[nl+1+ind] == ' ') ind++;
    Str r = ref_trim(ind, s);
    if (s[0] != '\n') { size_t k = 0; while (k < r.size() && r[k] == ' ') k++; r = r.substr(k); } // nothing is put in front of the first line
    drop = r.empty(); return r;
}
static void trim_model(std::vector<Node> &v)
{
    std::vector<Node> o;
    for (auto &n : v)
    {
        if (n.kind == TEXT || n.kind == COMMENT) { bool drop; n.text = trim_ref(n.text, drop); if (drop) continue; }
        trim_model(n.kids); o.push_back(n);
    }
    v = o;
}
static Str strip_ws(const Str &s) { Str o; for (char ch : s) if (!blank(ch)) o += ch; return o; }
static void words_of(const Str &s, std::vector<Str> &o) { Str w; for (char ch : s + " ") { if (blank(ch)) { if (!w.empty()) o.push_back(w); w.clear(); } else w += ch; } }
static void strip_comments(std::vector<Node> &v) { std::vector<Node> o; for (auto &n : v) { if (n.kind == COMMENT) { n.text = strip_ws(n.text); if (n.text.empty()) continue; } strip_comments(n.kids); o.push_back(n); } v = o; }
static void texts_of(const std::vector<Node> &v, std::vector<Str> &o) { for (auto &n : v) { if (n.kind == TEXT || n.kind == COMMENT) { Str w = n.text; if (!strip_ws(w).empty()) o.push_back(w); } texts_of(n.kids, o); } }
static bool has_tab_or_cr(const std::vector<Node> &v) { for (auto &n : v) { if ((n.kind == TEXT || n.kind == COMMENT) && n.text.find_first_of("\t\r") != Str::npos) return true; if (has_tab_or_cr(n.kids)) return true; } return false; }
PART(C16, trim, 40000, 800000, "XML and HTML with random white space, read with default trimming, with --trim=heuristic and untrimmed; only white space may differ, words stay apart and in place, attributes are untouched, and texts without tabs equal the reference of the documented rule. Non-trivial: trimming changes something")
{
    libxml_quiet();
    Str s; bool html = g.below(4) == 0; XMQContentType ct = html ? XMQ_CONTENT_HTML : XMQ_CONTENT_XML;
    if (html) s = gen_html(g);
    else
    {
        DocOpts d; if (g.below(3)) { d.text.tabs = false; d.text.cr = false; } std::vector<Node> m = gen_doc(g, d);
        // More white space of the kind found in XML files.
        std::function<void(std::vector<Node>&,int)> pad = [&](std::vector<Node> &v, int depth)
        {
            std::vector<Node> o;
            for (auto &n : v)
            {
                if (depth && n.kind != TEXT && g.below(3) == 0) o.push_back(mk_text("\n" + Str(depth*2, ' ')));
                if (n.kind == TEXT && g.below(3) == 0) { Str ind(g.below(2) ? depth*2 : g.below(5), ' '); static const std::vector<Str> ls = { "alfa", "beta gamma", "  more", "", "x", "'q'" }; Str t = g.coin() ? "\n" + ind : Str(g.below(3), ' '); size_t k = 1 + g.below(4); for (size_t i = 0; i < k; ++i) { t += g.of(ls); if (i+1 < k) t += "\n" + ind; } if (g.coin()) t += "\n" + Str(depth ? depth*2-2 : 0, ' '); n.text = t; }
                pad(n.kids, depth+1); o.push_back(n);
            }
            if (depth && !v.empty() && v.back().kind != TEXT && g.coin()) o.push_back(mk_text("\n" + Str(depth*2-2, ' ')));
            v = o;
        };
        pad(m, 0); s = to_xml_text(g, m);
    }
    int flags = g.coin() ? 0 : 2; 
    c.show(vis(s) + (flags ? " --trim=heuristic" : " default")); 
    XDoc a, b; bool oa = a.parse(s, ct, 1), ob = b.parse(s, ct, flags);
    REQUIRE("outcome", oa == ob, "%s untrimmed but %s trimmed", oa ? "accepted" : "rejected", ob ? "accepted" : "rejected");
    if (!oa) throw Discard();
    std::vector<Node> ma = a.model(), mb = b.model();
    if (!html && g.coin()) { XDoc t; REQUIRE("outcome", t.parse(s, ct, 1), "rejected the second time"); xmqTrimWhitespace(t.doq, flags); Str dx = dump(t.model()), dy = dump(mb); c.label("trimmed afterwards"); REQUIRE("afterwards", dx == dy, "trimmed after reading: %s", diff(dy, dx).c_str()); }
    std::vector<Node> wa = ma, wb = mb; strip_comments(wa); strip_comments(wb);
    DumpOpts o; o.strip_ws = true; Str da = dump(wa, o), db = dump(wb, o);
    REQUIRE("content", da == db, "more than white space differs: %s", diff(da, db).c_str());
    c.nontrivially(dump(ma) != dump(mb), s); c.label(html ? "html" : "xml"); c.label_if(flags, "--trim=heuristic");
    std::vector<Str> ta, tb; texts_of(ma, ta); texts_of(mb, tb);
    if (ta.size() == tb.size()) for (size_t i = 0; i < ta.size(); ++i)
    {
        std::vector<Str> x, y; words_of(ta[i], x); words_of(tb[i], y); REQUIRE("words", x == y, "words of a text changed: %s became %s", vis(ta[i]).c_str(), vis(tb[i]).c_str());
        if (!(html && flags) && ta[i].find_first_of("\n\r") == Str::npos) { Str t = ta[i]; size_t p = 0, q = t.size(); while (p < q && t[p] == ' ') p++; while (q > p && t[q-1] == ' ') q--; REQUIRE("line", t.substr(p, q-p) == tb[i], "a text on one line became %s, but is %s", vis(tb[i]).c_str(), vis(ta[i]).c_str()); }
    }
    else REQUIRE("texts", false, "%zu texts untrimmed, %zu trimmed", ta.size(), tb.size());
    for (auto &t : tb) REQUIRE("blank", !strip_ws(t).empty(), "a text of white space is left");
    bool exact = !has_tab_or_cr(ma);
    if (exact && !(html && flags))
    {
        c.label("exact");
        std::vector<Node> mr = ma; trim_model(mr); Str dr = dump(mr), dt = dump(mb);
        REQUIRE("exact", dr == dt, "not what the documented rule gives: %s", diff(dr, dt).c_str());
    }
}

// ---------------------------------------------------------------------------------------------------------------
// C17
struct Markup { Str text; Str error; std::map<Str,int> used; };
static Markup strip_terminal(const Str &s)
{
    Markup m;
    for (size_t i = 0; i < s.size(); )
    {
        if (s[i] != 27) { m.text += s[i++]; continue; }
        size_t j = i+1; if (j >= s.size() || s[j] != '[') { m.error = "escape without ["; return m; }
        j++; while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == ';')) j++;
        if (j >= s.size() || s[j] != 'm') { m.error = "unfinished escape sequence"; return m; }
        m.used[s.substr(i+1, j-i)]++; i = j+1;
    }
    return m;
}
static const std::vector<Str> MARKS = { "xmqC", "xmqQ", "xmqE", "xmqNS", "xmqEN", "xmqEK", "xmqEKV", "xmqAK", "xmqAKV", "xmqCP", "xmqNSD", "xmqUW", "xmqXSL" };
static Markup strip_html(const Str &s)
{
    Markup m; std::vector<Str> open;
    for (size_t i = 0; i < s.size(); )
    {
        if (s[i] == '<')
        {
            size_t j = s.find('>', i); if (j == Str::npos) { m.error = "unfinished tag"; return m; }
            Str t = s.substr(i+1, j-i-1); bool close = !t.empty() && t[0] == '/'; if (close) t = t.substr(1);
            if (std::find(MARKS.begin(), MARKS.end(), t) == MARKS.end()) { m.error = "unknown tag " + vis(t); return m; }
            if (close) { if (open.empty() || open.back() != t) { m.error = "unbalanced tag " + t; return m; } open.pop_back(); }
            else { open.push_back(t); m.used[t]++; }
            i = j+1;
        }
        else if (s[i] == '&')
        {
            static const std::vector<std::pair<Str,char>> es = { {"&amp;",'&'}, {"&lt;",'<'}, {"&gt;",'>'}, {"&quot;",'"'} }; bool ok = false;
            for (auto &e : es) if (s.compare(i, e.first.size(), e.first) == 0) { m.text += e.second; i += e.first.size(); ok = true; break; }
            if (!ok) { m.error = "unknown entity " + vis(s.substr(i, 8)); return m; }
        }
        else if (s[i] == '>') { m.error = "raw >"; return m; }
        else m.text += s[i++];
    }
    if (!open.empty()) m.error = "tag left open: " + open.back();
    return m;
}
static Markup strip_tex(const Str &s)
{
    Markup m; size_t depth = 0;
    auto at = [&](size_t i, const char *w) { return s.compare(i, strlen(w), w) == 0; };
    for (size_t i = 0; i < s.size(); )
    {
        char ch = s[i];
        if (ch == '\\')
        {
            if (at(i, "\\xmqI ")) { m.text += ' '; i += 6; m.used["xmqI"]++; continue; }
            if (at(i, "\\linebreak\n")) { m.text += '\n'; i += 11; continue; }
            if (at(i, "\\textbackslash{}")) { m.text += '\\'; i += 16; continue; }
            if (at(i, "\\textasciicircum{}")) { m.text += '^'; i += 18; continue; }
            if (at(i, "\\textasciitilde{}")) { m.text += '~'; i += 17; continue; }
            if (i+1 < s.size() && strchr("&#{}_$%", s[i+1])) { m.text += s[i+1]; i += 2; continue; }
            size_t j = i+1; while (j < s.size() && isalpha((unsigned char)s[j])) j++;
            Str t = s.substr(i+1, j-i-1); if (std::find(MARKS.begin(), MARKS.end(), t) == MARKS.end() || j >= s.size() || s[j] != '{') { m.error = "unknown command \\" + vis(s.substr(i+1, 12)); return m; }
            depth++; i = j+1; m.used[t]++;
        }
        else if (at(i, "{'}")) { m.text += '\''; i += 3; }
        else if (ch == '}') { if (!depth) { m.error = "unbalanced }"; return m; } depth--; i++; }
        else if (strchr("&#{_$%^~", ch)) { m.error = strf("unescaped %c", ch); return m; }
        else { m.text += ch; i++; }
    }
    if (depth) m.error = "group left open";
    return m;
}
PART(C17, render, 30000, 600000, "documents read from XML or spelled XMQ, rendered for terminal, html and tex with random colour, background, theme, raw, layout and escape settings; the markup is balanced and of the known kinds, nothing is left unescaped, and the output without markup is the plain print. Non-trivial: at least 3 kinds of markup")
{
    DocOpts d; d.xml = g.coin(); std::vector<Node> m = gen_doc(g, d); Str s; XDoc x; bool ok;
    if (d.xml) { s = to_xml_text(g, m); ok = x.parse(s, XMQ_CONTENT_XML, 1); }
    else { spellable(m); Writer w(g); w.put_nodes(m, true); s = w.out; ok = x.parse(s, XMQ_CONTENT_XMQ, g.below(4) ? 0 : XMQ_FLAG_NOMERGE); }
    if (!ok || !x.xml() || !x.xml()->children) throw Discard();
    PrintOpts o; o.ct = g.below(4) ? XMQ_CONTENT_XMQ : XMQ_CONTENT_HTMQ; o.compact = g.below(4) == 0; o.indent = o.compact ? 0 : g.below(4) ? 4 : (int)g.below(9); o.esc_nl = g.below(4) == 0; o.esc_non7 = g.below(4) == 0; o.esc_tab = g.below(4) == 0;
    Str plain = print(x.doq, o);
    static const XMQRenderFormat fs[] = { XMQ_RENDER_TERMINAL, XMQ_RENDER_HTML, XMQ_RENDER_TEX }; static const char *names[] = { "terminal", "html", "tex" };
    int f = g.below(3); o.render = fs[f]; o.color = g.below(4) != 0; o.dark = g.coin(); o.raw = g.coin(); static const char *themes[] = { nullptr, "darkbg", "lightbg" }; o.theme = themes[g.below(3)];
    c.show(vis(s) + " " + show_opts(o)); c.label(names[f]); c.label_if(o.compact, "compact"); c.label_if(o.color, "colour");
    // A quarter of the time with marks in place of the spaces, tabs and newlines.
    static const std::vector<std::pair<Str, Str>> WS = { { "Ⓘ", " " }, { "Ⓢ", " " }, { "Ⓣ", "\t" }, { "Ⓒ", "\r" }, { "Ⓝ", "\n" } };
    bool marked = g.below(4) == 0; if (marked) for (auto &w : WS) if (plain.find(w.first) != Str::npos) marked = false;
    Str r;
    if (marked)
    {
        XMQOutputSettings *os = xmqNewOutputSettings(); xmqSetOutputFormat(os, o.ct); xmqSetCompact(os, o.compact); xmqSetAddIndent(os, o.indent); xmqSetEscapeNewlines(os, o.esc_nl); xmqSetEscapeNon7bit(os, o.esc_non7); xmqSetEscapeTabs(os, o.esc_tab);
        xmqSetRenderFormat(os, o.render); xmqSetUseColor(os, o.color); xmqSetBackgroundMode(os, o.dark); xmqSetRenderRaw(os, o.raw); if (o.theme) xmqSetRenderTheme(os, o.theme); xmqSetupDefaultColors(os);
        xmqOverrideSettings(os, WS[0].first.c_str(), WS[1].first.c_str(), WS[2].first.c_str(), WS[3].first.c_str(), WS[4].first.c_str());
        char *start = nullptr, *stop = nullptr; xmqSetupPrintMemory(os, &start, &stop); xmqPrint(x.doq, os); if (start) r.assign(start, stop-start); free(start); xmqFreeOutputSettings(os);
        c.show(" with marks for white space"); c.label("marked white space");
    }
    else r = print(x.doq, o);
    Str body = r; Markup k;
    auto cut = [&](const Str &pre, const Str &post, bool whole)
    {
        size_t a = whole ? 0 : body.find(pre);
        REQUIRE("frame", a != Str::npos && body.compare(a, pre.size(), pre) == 0 && body.size() >= a+pre.size()+post.size() && body.compare(body.size()-post.size(), post.size(), post) == 0, "output is not framed by %s and %s: %s", vis(pre).c_str(), vis(post).c_str(), vis(r).c_str());
        Str head = body.substr(0, a); body = body.substr(a+pre.size(), body.size()-post.size()-a-pre.size()); return head;
    };
    if (f == 0)
    {
        k = strip_terminal(body);
        if (!o.color) REQUIRE("mono", k.used.empty(), "escape sequences without colour");
        else REQUIRE("reset", body.size() >= 5 && body.compare(body.size()-5, 5, "\033[0m\n") == 0, "colour is not reset at the end");
    }
    else if (f == 1)
    {
        bool dark = o.theme ? !strcmp(o.theme, "darkbg") : o.dark; Str mode = dark ? "xmq_dark" : "xmq_light";
        Str pre = "<pre class=\"xmq " + mode + "\">";
        if (o.raw) cut(pre, "</pre>\n", true);
        else { Str head = cut("<body class=\"" + mode + "\">" + pre, "</pre></body></html>\n", false); REQUIRE("frame", head.compare(0, 22, "<!DOCTYPE html>\n<html>") == 0 && head.size() > 22 && head.find("</style></head>") == head.size()-15, "html head"); }
        k = strip_html(body); k.text += "\n";
    }
    else
    {
        Str pre = "\\texttt{\\flushleft\\noindent ";
        if (o.raw) cut(pre, "\n}\n\n", true);
        else { Str head = cut(pre, "\n}\n\n\\end{document}\n\n", false); REQUIRE("frame", head.compare(0, 14, "\\documentclass") == 0 && head.find("\n\\begin{document}\n") != Str::npos, "tex head"); for (auto &mk : MARKS) REQUIRE("frame", head.find("\\newcommand{\\" + mk + "}[1]") != Str::npos, "command %s is not defined", mk.c_str()); }
        k = strip_tex(body); k.text += "\n";
    }
    REQUIRE("markup", k.error.empty(), "%s in %s", k.error.c_str(), vis(body).c_str());
    if (marked)
    {
        Str t = k.text; if (!t.empty() && t.back() == '\n') t.pop_back();
        REQUIRE("unmarked", t.find_first_of(" \t\r\n") == Str::npos, "white space that is not marked in %s", vis(body).c_str());
        for (auto &w : WS) for (size_t p = 0; (p = k.text.find(w.first, p)) != Str::npos; p += w.second.size()) k.text.replace(p, w.first.size(), w.second);
    }
    REQUIRE("text", k.text == plain, "without markup it is not the plain print: %s\nrendered: %s", diff(plain, k.text).c_str(), vis(body).c_str());
    c.nontrivially(k.used.size() >= 3, s + show_opts(o));
    if (o.color || f) { bool named = false; for (auto &n : m) named |= n.kind == ELEM; if (named) REQUIRE("coloured", !k.used.empty(), "no markup at all"); }
    // Rendering does not change the document.
    PrintOpts p = o; p.render = XMQ_RENDER_PLAIN; p.color = false; p.theme = nullptr; REQUIRE("again", print(x.doq, p) == plain, "printing again gives something else");
}
