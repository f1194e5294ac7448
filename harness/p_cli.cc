// C19 to C21, C27 to C30: the command line tool.
#include <sys/stat.h>
#include "json.h"
#include "writer.h"
#include <libxslt/xslt.h>
#include <libxslt/xsltInternals.h>
#include <libxslt/transform.h>
#include <libxslt/xsltutils.h>
#include <libxml/xmlschemas.h>
#include <algorithm>
#include <unistd.h>

static Str join(const std::vector<Str> &v) { Str s; for (auto &x : v) { s += s.empty() ? "" : " "; s += vis(x, 400); } return s; }
static RunResult xmq_run(Ctx &c, const std::vector<Str> &args, const Str &in = "", const std::vector<Str> &env = {})
{
    std::vector<Str> av = { cli_path() }; av.insert(av.end(), args.begin(), args.end());
    RunResult r = run_program(av, in, c.scratch, env);
    REQUIRE("hang", !r.timeout, "did not end: xmq %s", join(args).c_str());
    if (r.sig || r.code == 99)
    {
        size_t p = r.err.find("ERROR: AddressSanitizer"); if (p == Str::npos) p = r.err.find("runtime error"); if (p == Str::npos) p = 0;
        Str e = r.err.substr(p, 1500); Str where;
        for (size_t q = 0; (q = e.find(" in ", q)) != Str::npos; q += 4) { size_t x = e.find_first_of(" \n", q+4); Str fn = e.substr(q+4, x-q-4); if (fn.compare(0, 2, "__") && fn != "strlen" && fn != "free" && e.find("/repo/src", q) < e.find('\n', q)) { where = fn; break; } }
        throw Fail("crash " + where, strf("xmq %s crashed (signal %d): %s", join(args).c_str(), r.sig, e.c_str()));
    }
    return r;
}
static std::vector<Node> read_xml_text(const Str &s, bool &ok)
{
    libxml_quiet();
    xmlDoc *d = xmlReadMemory(s.data(), (int)s.size(), "x.xml", nullptr, XML_PARSE_NOERROR|XML_PARSE_NOWARNING|XML_PARSE_HUGE);
    ok = d != nullptr; std::vector<Node> m; if (d) { m = from_xml(d); xmlFreeDoc(d); } return m;
}
// Names get their resolved namespace, declarations go away.
static Str flat_value(const Attr &a) { Str s; for (auto &n : a.value) s += n.kind == ENT ? "&" + n.name + ";" : n.text; return s; }
static void resolve(std::vector<Node> &v, std::map<Str,Str> scope)
{
    for (auto &n : v) if (n.kind == ELEM)
    {
        std::map<Str,Str> sc = scope; std::vector<Attr> rest;
        for (auto &a : n.attrs) { if (a.name == "xmlns") sc[""] = flat_value(a); else if (a.name.compare(0, 6, "xmlns:") == 0) sc[a.name.substr(6)] = flat_value(a); else rest.push_back(a); }
        auto name = [&](const Str &nm, bool elem) { size_t p = nm.find(':'); Str pre = p == Str::npos ? "" : nm.substr(0, p); if (p == Str::npos && !elem) return nm; auto it = sc.find(pre); Str uri = pre == "xml" ? "XML" : it == sc.end() ? "" : it->second; return uri.empty() ? nm : "{" + uri + "}" + nm; };
        n.name = name(n.name, true); for (auto &a : rest) a.name = name(a.name, false);
        n.attrs = rest; resolve(n.kids, sc);
    }
}
static void resolve(std::vector<Node> &v) { resolve(v, {}); }
// A comment cannot hold -- in XML, xmq writes - and a visible mark.
static void unmark(std::vector<Node> &v) { for (auto &n : v) { if (n.kind == COMMENT) for (size_t p = 0; (p = n.text.find("\xe2\x90\x90", p)) != Str::npos; ) n.text.erase(p, 3); unmark(n.kids); } }

// ---------------------------------------------------------------------------------------------------------------
// A small XPath evaluator over the model.
struct Sel { const Node *n; int attr; bool operator==(const Sel &o) const { return n == o.n && attr == o.attr; } };
enum Test { T_NAME, T_STAR, T_TEXT, T_COMMENT, T_PI, T_NODE, T_ATTR, T_ANYATTR };
struct Step { bool desc; Test test; Str name; int pred = 0; int pos = 0; Str pname; };
typedef std::vector<Step> Path;
static bool plain_attr(const Attr &a, const Str &n) { return a.name == n; }
static bool matches(const Node &n, const Step &s)
{
    switch (s.test)
    {
    case T_NAME: return n.kind == ELEM && n.name == s.name;
    case T_STAR: return n.kind == ELEM;
    case T_TEXT: return n.kind == TEXT && !n.text.empty();
    case T_COMMENT: return n.kind == COMMENT;
    case T_PI: return n.kind == PI;
    case T_NODE: return n.kind == ELEM || (n.kind == TEXT && !n.text.empty()) || n.kind == COMMENT || n.kind == PI;
    default: return false;
    }
}
static void eval_step(const Node *ctx, const std::vector<Node> &kids, const Step &s, std::vector<Sel> &out)
{
    std::vector<Sel> cand;
    if (s.test == T_ATTR || s.test == T_ANYATTR) { if (ctx && ctx->kind == ELEM) for (size_t i = 0; i < ctx->attrs.size(); ++i) if (s.test == T_ANYATTR || plain_attr(ctx->attrs[i], s.name)) cand.push_back({ ctx, (int)i }); }
    else for (auto &k : kids) if (matches(k, s)) cand.push_back({ &k, -1 });
    for (size_t i = 0; i < cand.size(); ++i)
    {
        const Node *n = cand[i].n; bool ok = true;
        if (s.pred == 1) ok = (int)i+1 == s.pos;
        else if (s.pred == 2) ok = i+1 == cand.size();
        else if (s.pred == 3 || s.pred == 4) { bool h = false; for (auto &a : n->attrs) h |= plain_attr(a, s.pname); ok = h == (s.pred == 3); }
        else if (s.pred == 5 || s.pred == 6) { bool h = false; for (auto &k : n->kids) h |= k.kind == ELEM && k.name == s.pname; ok = h == (s.pred == 5); }
        if (ok) out.push_back(cand[i]);
    }
    if (s.desc) for (auto &k : kids) if (k.kind == ELEM) eval_step(&k, k.kids, s, out);
}
static void order(const std::vector<Node> &v, std::map<const Node*,size_t> &o) { for (auto &n : v) { size_t k = o.size(); o[&n] = k; order(n.kids, o); } }
static std::vector<Sel> eval(const std::vector<Node> &doc, const std::vector<Path> &u)
{
    std::vector<Sel> all;
    for (auto &p : u)
    {
        std::vector<Sel> cur = { { nullptr, -1 } };
        for (auto &s : p) { std::vector<Sel> next; for (auto &x : cur) if (x.attr < 0) eval_step(x.n, x.n ? x.n->kids : doc, s, next); cur = next; }
        all.insert(all.end(), cur.begin(), cur.end());
    }
    std::map<const Node*,size_t> o; order(doc, o);
    auto key = [&](const Sel &s) { return std::make_pair(s.n ? (long)o[s.n] : -1L, s.attr); };
    std::sort(all.begin(), all.end(), [&](const Sel &a, const Sel &b) { return key(a) < key(b); });
    all.erase(std::unique(all.begin(), all.end()), all.end());
    return all;
}
static Str show_path(const std::vector<Path> &u)
{
    Str r;
    for (auto &p : u)
    {
        if (!r.empty()) r += " | ";
        if (p.empty()) r += "/";
        for (auto &s : p)
        {
            r += s.desc ? "//" : "/";
            switch (s.test) { case T_NAME: r += s.name; break; case T_STAR: r += "*"; break; case T_TEXT: r += "text()"; break; case T_COMMENT: r += "comment()"; break; case T_PI: r += "processing-instruction()"; break; case T_NODE: r += "node()"; break; case T_ATTR: r += "@" + s.name; break; case T_ANYATTR: r += "@*"; break; }
            if (s.pred == 1) r += strf("[%d]", s.pos);
            if (s.pred == 2) r += "[last()]";
            if (s.pred == 3) r += "[@" + s.pname + "]";
            if (s.pred == 4) r += "[not(@" + s.pname + ")]";
            if (s.pred == 5) r += "[" + s.pname + "]";
            if (s.pred == 6) r += "[not(" + s.pname + ")]";
        }
    }
    return r;
}
static void names_of(const std::vector<Node> &v, std::vector<Str> &el, std::vector<Str> &at)
{
    auto simple = [](const Str &s) { if (s.empty()) return false; for (unsigned char ch : s) if (!(isalnum(ch) || ch == '_')) return false; return !isdigit((unsigned char)s[0]) && s != "and" && s != "or" && s != "div" && s != "mod"; };
    for (auto &n : v) if (n.kind == ELEM) { if (simple(n.name)) el.push_back(n.name); for (auto &a : n.attrs) if (simple(a.name)) at.push_back(a.name); names_of(n.kids, el, at); }
}
static std::vector<Path> gen_path(Gen &g, const std::vector<Node> &doc, bool slash, bool positions)
{
    std::vector<Str> el, at; names_of(doc, el, at); if (el.empty()) el.push_back("zz"); if (at.empty()) at.push_back("zz");
    std::vector<Path> u; size_t n = g.below(6) == 5 ? 2 : 1;
    if (slash && g.below(16) == 15) return { Path() };
    for (size_t k = 0; k < n; ++k)
    {
        Path p; size_t len = 1 + g.pick({ 8, 2, 1 });
        for (size_t i = 0; i < len; ++i)
        {
            Step s; bool last = i+1 == len; s.desc = g.below(3) != 2;
            s.test = last ? (Test)g.pick({ 6, 2, 2, 1, 1, 1, 1, 1 }) : g.below(3) ? T_NAME : T_STAR;
            if (i == 0 && !s.desc && s.test == T_NAME && !doc.empty()) { std::vector<Str> r; for (auto &x : doc) if (x.kind == ELEM) r.push_back(x.name); Str q = r.empty() ? Str("zz") : g.of(r); if (std::find(el.begin(), el.end(), q) != el.end()) s.name = q; else s.test = T_STAR; }
            else if (s.test == T_NAME) s.name = g.of(el);
            if (s.test == T_ATTR) s.name = g.of(at);
            if ((s.test == T_NAME || s.test == T_STAR) && g.below(4) == 3)
            {
                s.pred = 1 + g.below(6); if (s.pred <= 2 && !positions) s.pred = 3;
                s.pos = 1 + g.below(3); s.pname = s.pred <= 4 ? g.of(at) : g.of(el);
            }
            p.push_back(s);
        }
        u.push_back(p);
    }
    return u;
}
// Everything except what is in the set.
static std::vector<Node> without(const std::vector<Node> &v, const std::set<const Node*> &gone, const std::set<std::pair<const Node*,int>> &gone_attrs)
{
    std::vector<Node> r;
    for (auto &n : v)
    {
        if (gone.count(&n)) continue;
        Node k = n; k.kids = without(n.kids, gone, gone_attrs); k.attrs.clear();
        for (size_t i = 0; i < n.attrs.size(); ++i) if (!gone_attrs.count({ &n, (int)i })) k.attrs.push_back(n.attrs[i]);
        r.push_back(k);
    }
    return r;
}
static std::vector<Node> ref_delete(const std::vector<Node> &doc, const std::vector<Sel> &s)
{
    std::set<const Node*> gone; std::set<std::pair<const Node*,int>> ga;
    for (auto &x : s) { if (!x.n) return {}; if (x.attr < 0) gone.insert(x.n); else ga.insert({ x.n, x.attr }); }
    return without(doc, gone, ga);
}
static std::vector<Node> ref_select(const std::vector<Node> &doc, const std::vector<Sel> &s)
{
    if (s.size() == 1 && !s[0].n) return doc;
    std::vector<const Node*> ns; std::set<const Node*> set;
    for (auto &x : s) if (x.n && set.insert(x.n).second) ns.push_back(x.n);
    std::vector<Node> r;
    for (auto n : ns) { Node k = *n; k.kids = without(n->kids, set, {}); r.push_back(k); }
    return r;
}
static bool has_kind(const std::vector<Node> &v, Kind k) { for (auto &n : v) { if (n.kind == k) return true; if (has_kind(n.kids, k)) return true; for (auto &a : n.attrs) if (k == ENT && has_kind(a.value, k)) return true; } return false; }
static bool dup_attrs(const std::vector<Node> &v) { for (auto &n : v) { std::set<Str> s; for (auto &a : n.attrs) if (!s.insert(a.name).second) return true; if (dup_attrs(n.kids)) return true; } return false; }
static size_t count_nodes(const std::vector<Node> &v) { size_t k = 0; for (auto &n : v) k += 1 + n.attrs.size() + count_nodes(n.kids); return k; }

PART(C19, edits, 8000, 150000, "Generated documents (XML and XMQ) and one to four delete, select, add and add-root commands with generated XPaths in one invocation; the result compared with the same edits made on a model with an evaluator of its own. Non-trivial: some delete or select matched something and something else was left")
{
    DocOpts d; d.xml = g.below(3) != 0; d.named_ents = g.below(3) == 0; d.ents = true; d.ns = g.below(3) == 0; d.text.cr = false;
    std::vector<Node> m = gen_doc(g, d); Str src, file; bool xml = d.xml;
    if (xml) { src = to_xml_text(g, m); file = "d.xml"; bool ok; m = read_xml_text(src, ok); if (!ok || (src.find("<!DOCTYPE html") != Str::npos && src.compare(0, 5, "<?xml"))) throw Discard(); }
    else { spellable(m); Writer w(g); w.put_nodes(m, true); src = w.out; file = "d.xmq"; XDoc x; if (!x.parse(src, XMQ_CONTENT_XMQ)) throw Discard(); m = x.model(); }
    DumpOpts o; o.no_ns_order = true; o.loose_comments = true; o.doctype_ws = true; o.empty_attr_same = true;
    resolve(m);
    std::vector<Str> args = { "--trim=none", xml ? "--xml" : "--xmq", file }; size_t n = 1 + g.pick({ 4, 3, 2, 1 }); bool hit = false;
    size_t before = count_nodes(m);
    for (size_t i = 0; i < n; ++i)
    {
        size_t k = g.pick({ 5, 4, 2, 1 });
        if (k <= 1)
        {
            std::vector<Path> u = gen_path(g, m, true, true); auto s = eval(m, u);
            args.push_back(k ? "select" : "delete"); args.push_back(show_path(u));
            std::vector<Node> r = k ? ref_select(m, s) : ref_delete(m, s);
            if (!s.empty() && count_nodes(r) && count_nodes(r) < before) hit = true;
            c.label(k ? "select" : "delete"); c.label_if(s.empty(), "nothing matched"); c.label_if(s.size() > 1, "several matched"); c.label_if(k && count_nodes(r) == 0, "nothing left");
            for (auto &x : s) { if (!x.n) { c.label("matched the document"); break; } if (x.attr >= 0) { c.label("matched attributes"); break; } if (x.n->kind != ELEM) { c.label("matched other nodes"); break; } }
            { std::set<const Node*> in; for (auto &x : s) if (x.n && x.attr < 0) in.insert(x.n); bool nested = false; for (auto x : in) { std::map<const Node*,size_t> oo; order(x->kids, oo); for (auto &p : oo) nested |= in.count(p.first) > 0; } c.label_if(nested, "nested matches"); }
            m = r;
        }
        else if (k == 2)
        {
            DocOpts a; a.xml = false; a.budget = 4; a.doctype = false; a.multi_root = g.coin(); a.named_ents = d.named_ents; a.ns = d.ns;
            std::vector<Node> am = gen_doc(g, a); spellable(am); Writer w(g); w.put_nodes(am, true); if (w.out.empty() || w.out[0] == '-') throw Discard();
            XDoc x; if (!x.parse(w.out, XMQ_CONTENT_XMQ)) throw Discard(); am = x.model(); resolve(am);
            args.push_back("add"); args.push_back(w.out); m.insert(m.end(), am.begin(), am.end()); c.label("add");
        }
        else
        {
            Str name = gen_name(g); args.push_back("add-root"); args.push_back(name); Node r = mk_elem(name); std::vector<Node> v;
            for (auto &q : m) if (q.kind == DOCTYPE) v.push_back(q); else r.kids.push_back(q);
            v.push_back(r); m = v; c.label("add-root");
        }
    }
    { Node r = mk_elem("zzroot"); std::vector<Node> v; for (auto &q : m) if (q.kind == DOCTYPE) v.push_back(q); else r.kids.push_back(q); size_t elems = 0, text = 0; for (auto &q : m) { elems += q.kind == ELEM; text += q.kind == TEXT || q.kind == ENT; }
      if (elems != 1 || text || g.coin()) { v.push_back(r); m = v; args.push_back("add-root"); args.push_back("zzroot"); } }
    bool out_xml = !has_kind(m, ENT) && g.coin() && src.find("XHTML") == Str::npos && !dup_attrs(m);
    args.push_back(out_xml ? "to-xml" : "to-xmq"); bool compact = !out_xml && g.coin(); if (compact) { args.push_back("--compact"); o.pi_ws = true; }
    c.show(file + ": " + vis(src) + "\nxmq " + join(args)); c.nontrivially(hit, src + join(args));
    write_file(c.scratch + "/" + file, src);
    RunResult r = xmq_run(c, args);
    REQUIRE("status", r.code == 0, "exit status %d: %s", r.code, r.err.c_str());
    std::vector<Node> got;
    if (out_xml) { bool ok; got = read_xml_text(r.out, ok); REQUIRE("malformed", ok, "the result is not well-formed: %s", vis(r.out).c_str()); }
    else { XDoc x; REQUIRE("unreadable", x.parse(r.out, XMQ_CONTENT_XMQ), "the result does not parse: %s\n%s", x.err().c_str(), vis(r.out).c_str()); got = x.model(); }
    resolve(got); unmark(got); unmark(m);
    Str a = dump(m, o), b = dump(got, o);
    REQUIRE("tree", a == b, "the result differs from the edited model\n%s\noutput: %s", diff(a, b).c_str(), vis(r.out).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// C20
static const std::vector<Str> ENT20 = { "x", "y", "foo", "#65", "#x3bb", "#10", "lt", "amp", "nbsp", "#955", "x.1", "#9", "quot" };
static Str safe_text(Gen &g)
{
    static const std::vector<Str> ws = { "a", "word", "it's", "<b>", "&amp;", "&x;", "a\nb", "{c}", "x=1", "å", "😀", "a  b", "//c", "to-xmq", "a''b", "a\n  b", "$&%", "(d)", "#65", "z" };
    Str s = g.of(ws); size_t n = g.size(3); for (size_t i = 0; i < n; ++i) s += (g.coin() ? " " : "") + g.of(ws); return s;
}
static void ent_pieces(Gen &g, std::vector<Node> &v, size_t max, bool &any)
{
    size_t n = g.size(max);
    for (size_t i = 0; i < n; ++i) { if (g.below(3)) { v.push_back(mk_ent(g.of(ENT20))); any = true; } else if (v.empty() || v.back().kind != TEXT) v.push_back(mk_text(safe_text(g))); }
}
static Node ent_elem(Gen &g, int depth, bool &any)
{
    static const std::vector<Str> names = { "a", "b", "c", "x", "foo" };
    Node e = mk_elem(g.of(names)); size_t na = g.size(3);
    for (size_t i = 0; i < na; ++i) { Attr a; a.name = strf("k%d", (int)i); ent_pieces(g, a.value, 4, any); if (a.value.empty()) a.value.push_back(mk_text("v")); e.attrs.push_back(a); }
    size_t n = g.size(5);
    for (size_t i = 0; i < n; ++i)
    {
        size_t k = g.pick({ 4, 3, 1 });
        if (k == 1 && depth < 4) e.kids.push_back(ent_elem(g, depth+1, any));
        else if (k == 2) { Node c; c.kind = g.coin() ? COMMENT : PI; if (c.kind == PI) c.name = "p"; c.text = "&x; &#65;"; e.kids.push_back(c); }
        else ent_pieces(g, e.kids, 3, any);
    }
    return e;
}
// What printing may turn into a character entity by itself is compared as text.
static bool loose_ent(const Str &n) { return n == "#10" || n == "#9" || n == "#32" || n == "#39" || n == "#13" || n == "#160" || n == "apos"; }
static void loosen(std::vector<Node> &v)
{
    for (auto &n : v) { if (n.kind == ENT && loose_ent(n.name)) n = mk_text(n.name == "apos" ? Str("'") : utf8((uint32_t)atoi(n.name.c_str()+1))); loosen(n.kids); for (auto &a : n.attrs) loosen(a.value); }
}
static long char_of(const Str &n)
{
    if (n == "amp") return '&'; if (n == "lt") return '<'; if (n == "gt") return '>'; if (n == "quot") return '"'; if (n == "apos") return 39; if (n == "nbsp") return 160;
    if (n[0] != '#') return 0; return n[1] == 'x' ? strtol(n.c_str()+2, nullptr, 16) : atol(n.c_str()+1);
}
typedef std::function<bool(const Node &, bool in_attr, std::vector<Node> &out)> Change; // true when the reference was changed to out
static void change_ents(std::vector<Node> &v, const Change &f, bool in_attr, size_t &hits)
{
    std::vector<Node> r;
    for (auto &n : v)
    {
        if (n.kind == ENT) { std::vector<Node> out; if (f(n, in_attr, out)) { hits++; r.insert(r.end(), out.begin(), out.end()); } else r.push_back(n); continue; }
        if (n.kind == ELEM) { for (auto &a : n.attrs) change_ents(a.value, f, true, hits); change_ents(n.kids, f, false, hits); }
        r.push_back(n);
    }
    v = r;
}
static size_t count_ents(const std::vector<Node> &v) { size_t k = 0; for (auto &n : v) { k += n.kind == ENT; k += count_ents(n.kids); for (auto &a : n.attrs) k += count_ents(a.value); } return k; }
static Str text_content(const std::vector<Node> &v) { Str s; for (auto &n : v) { if (n.kind == TEXT) s += n.text; if (n.kind == ELEM) s += text_content(n.kids); } return s; }
PART(C20, entities, 8000, 150000, "Documents with named and character entities in content, attributes and at every depth, and one to three delete-entity, replace-entity (text, text file, file), substitute-entity and substitute-char-entities commands; the result compared with the same change made on a model. Non-trivial: some reference was changed and another stayed")
{
    bool any = false; std::vector<Node> m; std::map<Str,Str> decl; bool xml = g.below(4) == 3;
    if (g.coin()) { Node n; n.kind = COMMENT; n.text = "&x;"; m.push_back(n); }
    if (xml || g.below(3) == 2)
    {
        Node n; n.kind = DOCTYPE; n.text = "r [";
        static const std::vector<Str> vals = { "some text", "x", "", "A > B" , "<b>m</b>", "a &lt; b" };
        for (auto &e : ENT20) if (e[0] != '#' && !char_of(e) && (xml || g.coin())) { Str v = g.of(vals); decl[e] = v; n.text += "<!ENTITY " + e + " \"" + v + "\">"; }
        n.text += "]"; m.push_back(n);
    }
    m.push_back(ent_elem(g, 0, any)); if (!any) throw Discard();
    Str src, file = xml ? "d.xml" : "d.xmq";
    if (xml) { std::function<void(std::vector<Node>&)> strip = [&](std::vector<Node> &v) { for (auto &n : v) { if (n.kind == ENT && n.name == "nbsp") n.name = "x"; strip(n.kids); for (auto &a : n.attrs) strip(a.value); } }; strip(m); src = to_xml_text(g, m); bool ok; m = read_xml_text(src, ok); if (!ok) throw Discard(); }
    else { Writer w(g); spellable(m); w.put_nodes(m, true); src = w.out; XDoc x; if (!x.parse(src, XMQ_CONTENT_XMQ, XMQ_FLAG_NOMERGE)) throw Discard(); m = x.model(); }
    std::vector<Str> args = { "--trim=none", "--no-merge", xml ? "--xml" : "--xmq", file }; size_t n = 1 + g.pick({ 5, 3, 2 }), hits = 0, before = count_ents(m); bool lost_doctype = false; (void)lost_doctype;
    for (size_t i = 0; i < n; ++i)
    {
        Str e = g.of(ENT20); size_t k = g.pick({ 3, 4, 2, 2, 3, 2 }), h = 0;
        if (k == 0) { args.push_back("delete-entity"); args.push_back(e); change_ents(m, [&](const Node &x, bool, std::vector<Node> &) { return x.name == e; }, false, h); c.label("delete-entity"); }
        else if (k <= 3)
        {
            args.push_back("replace-entity"); args.push_back(e);
            if (k <= 2)
            {
                Str t = k == 1 && g.below(8) == 7 ? Str() : safe_text(g);
                if (k == 1) args.push_back(t); else { Str f = strf("t%d.txt", (int)i); write_file(c.scratch + "/" + f, t); args.push_back("--with-text-file=" + f); c.show(f + ": " + vis(t)); }
                change_ents(m, [&](const Node &x, bool, std::vector<Node> &out) { if (x.name != e) return false; out.push_back(mk_text(t)); return true; }, false, h); c.label(k == 1 ? "replace by text" : "replace by text file");
            }
            else
            {
                bool dummy; std::vector<Node> fm; if (g.below(3) == 2) { Node cm; cm.kind = COMMENT; cm.text = "in"; fm.push_back(cm); } fm.push_back(ent_elem(g, 3, dummy)); bool fx = g.coin(); Str f = strf(fx ? "f%d.xml" : "f%d.xmq", (int)i), fs;
                if (fx) { std::function<void(std::vector<Node>&)> noents = [&](std::vector<Node> &v) { for (auto &q : v) { if (q.kind == ENT) q = mk_text("t"); noents(q.kids); for (auto &a : q.attrs) noents(a.value); } }; noents(fm); fs = to_xml_text(g, fm); bool ok; fm = read_xml_text(fs, ok); if (!ok) throw Discard(); }
                else { Writer w(g); spellable(fm); w.put_nodes(fm, true); fs = w.out; XDoc x; if (!x.parse(fs, XMQ_CONTENT_XMQ, XMQ_FLAG_TRIM_NONE)) throw Discard(); fm = x.model(); }
                write_file(c.scratch + "/" + f, fs); args.push_back("--with-file=" + f); c.show(f + ": " + vis(fs));
                Str attr_text; for (auto &q : fm) if (q.kind == ELEM) attr_text += text_content(q.kids);
                bool ents_in = count_ents(fm) > 0, in_attr_hit = false;
                change_ents(m, [&](const Node &x, bool in_attr, std::vector<Node> &out) { if (x.name != e) return false; if (in_attr) { in_attr_hit = true; out.push_back(mk_text(attr_text)); } else out = fm; return true; }, false, h);
                if (ents_in && in_attr_hit) throw Discard(); // What the text of an undeclared entity is has no answer.
                c.label("replace by file"); c.label_if(in_attr_hit, "replace by file in attribute");
            }
        }
        else if (k == 4)
        {
            args.push_back("substitute-entity"); args.push_back(e);
            change_ents(m, [&](const Node &x, bool, std::vector<Node> &out) { if (x.name != e) return false; long ch = char_of(e); if (ch) { out.push_back(mk_text(utf8((uint32_t)ch))); return true; } auto it = decl.find(e); if (it == decl.end() || it->second.find_first_of("<&") != Str::npos) return false; out.push_back(mk_text(it->second)); return true; }, false, h);
            c.label("substitute-entity");
        }
        else { args.push_back("substitute-char-entities"); change_ents(m, [&](const Node &x, bool, std::vector<Node> &out) { if (x.name[0] != '#') return false; out.push_back(mk_text(utf8((uint32_t)char_of(x.name)))); return true; }, false, h); c.label("substitute-char-entities"); }
        hits += h; c.label_if(h == 0, "nothing changed"); c.label_if(h > 1, "several changed");
    }
    args.push_back("to-xmq"); if (g.coin()) args.push_back("--compact");
    c.show(file + ": " + vis(src) + "\nxmq " + join(args)); c.nontrivially(hits && before > hits, src + join(args));
    write_file(c.scratch + "/" + file, src);
    RunResult r = xmq_run(c, args);
    REQUIRE("status", r.code == 0, "exit status %d: %s", r.code, r.err.c_str());
    XDoc x; REQUIRE("unreadable", x.parse(r.out, XMQ_CONTENT_XMQ, XMQ_FLAG_NOMERGE), "the result does not parse: %s\n%s", x.err().c_str(), vis(r.out).c_str());
    std::vector<Node> got = x.model(); loosen(got); loosen(m); unmark(got); unmark(m);
    DumpOpts o; o.decode_char_ents = false; o.empty_attr_same = true; o.loose_comments = true; o.doctype_ws = true; o.pi_ws = true;
    Str a = dump(m, o), b = dump(got, o);
    REQUIRE("tree", a == b, "the result differs from the edited model\n%s\noutput: %s", diff(a, b).c_str(), vis(r.out).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// C21
static Str pad_to(Gen &g, const Str &s, int fmt)
{
    if (g.below(3) == 0) return s;
    static const size_t units[] = { 1024, 1024, 2048, 3072, 4096, 5120, 8192, 16384, 65536, 1024*17 };
    size_t want = units[g.below(10)] + (size_t)g.below(9) - 4; if (s.size() + 8 > want) return s;
    size_t n = want - s.size(); Str fill;
    if (fmt == 0 || fmt == 1 || fmt == 3) { fill = fmt == 0 ? "\n//" : fmt == 1 ? "<!--" : "<!--"; Str end = fmt == 0 ? "" : "-->"; while (fill.size() + end.size() < n) fill += "pad "[fill.size() % 4]; if (fmt == 0 && fill.back() == ' ') fill.back() = 'x'; fill += end; }
    else fill = Str(n, ' ');
    return s + fill;
}
static const std::vector<std::vector<Str>> OUT21 = { { "to-xmq" }, { "to-xmq", "--compact" }, { "to-xml" }, { "to-json" }, { "render-terminal" }, { "render-html" }, { "to-xmq", "--indent=2", "--escape-newlines" }, { "to-text" }, { "to-clines" }, { "to-html" }, { "to-xmq", "--escape-non-7bit" }, { "render-tex" }, { "render-terminal", "--color" }, { "statistics" }, { "render-terminal", "--mono" }, { "to-xml", "-o" }, { "to-xml", "--omit-decl" } };
static Str any_source(Gen &g, int fmt, std::vector<Node> *mm = nullptr)
{
    if (fmt == 0) { DocOpts d; d.xml = false; std::vector<Node> m = gen_doc(g, d); spellable(m); Writer w(g); w.put_nodes(m, true); return w.out; }
    if (fmt == 1) { std::vector<Node> m = gen_doc(g, DocOpts()); Str s = to_xml_text(g, m); if (s.compare(0, 5, "<?xml")) s = "<?xml version=\"1.0\"?>" + s; return s; }
    if (fmt == 2) { int b = 12; J j = gen_j(g, 0, b); return jws(g) + to_json(g, j, g.coin()) + jws(g); }
    if (fmt == 3) { static const std::vector<Str> tags = { "p", "b", "div", "span", "h1" }; Str s = "<html><body>"; size_t n = 1 + g.size(6); for (size_t i = 0; i < n; ++i) { Str t = g.of(tags); s += "<" + t + " id='i" + std::to_string(i) + "'>text &amp; å\n more</" + t + ">"; } return s + "</body></html>"; }
    TextOpts t; t.max = 200; t.cr = false; return gen_text(g, t);
}
PART(C21, same, 2500, 40000, "Sources of every format, whole or damaged, padded to sizes around multiples of 1024 and 4096, given as file, on standard input (also in pieces), as argument and to the library, with logging switched on, printed and saved to a file; output, file content, exit status and error message must agree. Non-trivial: at least 512 bytes or rejected")
{
    int fmt = g.pick({ 4, 3, 2, 2, 1 }); static const char *opt[] = { "--xmq", "--xml", "--json", "--html", "--text" }, *ext[] = { "xmq", "xml", "json", "html", "txt" };
    static const XMQContentType cts[] = { XMQ_CONTENT_XMQ, XMQ_CONTENT_XML, XMQ_CONTENT_JSON, XMQ_CONTENT_HTML, XMQ_CONTENT_TEXT };
    Str s = any_source(g, fmt); bool damaged = false;
    if (g.below(5) == 4 && !s.empty()) { damaged = true; static const std::vector<Str> bits = { "{", "}", "'", "\"", "<", "&", "(", "\x01", "\xff", "=", "]" }; if (g.coin()) s.insert(g.below((uint32_t)s.size()), g.of(bits)); else s.resize(g.below((uint32_t)s.size())); }
    s = pad_to(g, s, fmt);
    bool typed = fmt == 4 || g.coin(); std::vector<Str> out = g.of(OUT21);
    std::vector<Str> base = { "--trim=none" }; if (typed) base.push_back(opt[fmt]);
    Str file = Str("in.") + ext[fmt];
    c.show(strf("%zu bytes: ", s.size()) + vis(s, 6000) + "\nxmq " + join(base) + " " + file + " " + join(out)); c.label(ext[fmt]); c.label_if(s.size() % 1024 == 0 && !s.empty(), "a multiple of 1024"); c.label_if(damaged, "damaged");
    write_file(c.scratch + "/" + file, s);
    auto with = [&](std::vector<Str> pre, const Str &where, std::vector<Str> post = {}) { std::vector<Str> a = base; a.insert(a.end(), pre.begin(), pre.end()); if (!where.empty()) a.push_back(where); a.insert(a.end(), out.begin(), out.end()); a.insert(a.end(), post.begin(), post.end()); return a; };
    RunResult f = xmq_run(c, with({}, file));
    c.nontrivially(s.size() >= 512 || f.code, s);
    c.label(f.code ? "rejected" : "accepted");
    auto msg = [&](const Str &e) { Str o; size_t p = 0; do { size_t q = e.find('\n', p); Str l = e.substr(p, q == Str::npos ? q : q-p+1); for (const Str &n : { c.scratch + "/" + file, file, Str("-"), Str("/dev/stdin"), Str("(null)"), Str("xmq") }) if (l.compare(0, n.size()+1, n + ":") == 0) { l = l.substr(n.size()); break; } o += l; p = q == Str::npos ? q : q+1; } while (p < e.size()); return o; };
    auto same = [&](const char *what, const RunResult &r, const char *cmp)
    {
        REQUIRE("status", r.code == f.code, "exit status %d from %s but %d from a file: %s | %s", r.code, what, f.code, r.err.c_str(), f.err.c_str());
        REQUIRE("output", r.out == f.out, "the output differs from %s and from a file: %s", what, diff(f.out, r.out).c_str());
        bool libxml = !strcmp(cmp, "(null)") && f.err.find("parser error") != Str::npos; // tells of the source in its own ways
        if (*cmp && !libxml) REQUIRE("message", msg(r.err) == msg(f.err), "the error differs from %s and from a file:\n%s%s", what, f.err.c_str(), r.err.c_str());
    };
    REQUIRE("rejected output", f.code == 0 || f.out.empty(), "rejected but wrote: %s", vis(f.out).c_str());
    REQUIRE("rejected silently", f.code == 0 || !f.err.empty(), "rejected without a message");
    if (!s.empty()) same("standard input", xmq_run(c, with({}, "-"), s), "-");
    if (!s.empty() && g.coin()) { c.label("a pipe given as a file"); same("a pipe given as a file", xmq_run(c, with({}, "/dev/stdin"), s), "/dev/stdin"); }
    if (g.below(4) == 3 && s.size() > 2)
    {
        Str p = s.substr(0, 1 + g.below((uint32_t)s.size()-1)); write_file(c.scratch + "/p1", p); write_file(c.scratch + "/p2", s.substr(p.size()));
        Str cmd = "(cat p1; sleep 0.02; cat p2) | '" + cli_path() + "'"; for (auto &a : with({}, "-")) cmd += " '" + a + "'";
        RunResult r = run_program({ "/bin/sh", "-c", cmd }, "", c.scratch); c.label("in two pieces"); same("standard input in two pieces", r, "-");
    }
    if (s.find('\0') == Str::npos && !s.empty() && s[0] != '-' && s.size() < 100000) { RunResult r = xmq_run(c, with({ "-i" }, s)); same("an argument", r, fmt == 1 || fmt == 3 ? "" : "(null)"); c.label("as argument"); }
    if (g.coin())
    {
        static const std::vector<Str> v = { "--verbose", "--debug", "--trace" }; Str fl = g.of(v); c.label(fl);
        std::vector<Str> a = with({ fl }, file); if (g.below(3) == 0) a.insert(a.begin(), "--log-xmq");
        RunResult r = xmq_run(c, a); same(("a file with " + fl).c_str(), r, "");
    }
    if (f.code == 0 && out[0] != "statistics")
    {
        Str old = g.coin() ? Str("old content\n") + Str(g.below(2000), 'o') : Str(), got; if (!old.empty()) write_file(c.scratch + "/saved", old);
        RunResult r = xmq_run(c, with({}, file, { "save-to", "saved" })); bool rd = read_file(c.scratch + "/saved", got); unlink((c.scratch + "/saved").c_str());
        REQUIRE("save", r.code == 0 && rd && got == f.out, "save-to (exit status %d) wrote %zu bytes, print wrote %zu: %s %s", r.code, got.size(), f.out.size(), r.err.c_str(), diff(f.out, got).c_str());
        REQUIRE("save output", r.out.empty(), "save-to also wrote to standard output: %s", vis(r.out).c_str());
        same("a file with print", xmq_run(c, with({}, file, { "print" })), "");
    }
    // The library, from memory.
    XDoc x; bool ok = x.parse(s, typed ? cts[fmt] : XMQ_CONTENT_DETECT, XMQ_FLAG_TRIM_NONE);
    REQUIRE("library", ok == (f.code == 0), "the library %s, the tool %s: %s %s", ok ? "accepts" : "rejects", f.code ? "rejects" : "accepts", x.err().c_str(), f.err.c_str());
    // The library, from a file.
    {
        XDoc y; Str path = c.scratch + "/" + file; bool plain = fmt == 0 && g.coin() && xmqDetectContentType(s.data(), s.data()+s.size()) == XMQ_CONTENT_XMQ; c.label(plain ? "xmqParseFile" : "xmqParseFileWithType");
        bool ok2 = plain ? xmqParseFile(y.doq, path.c_str(), nullptr, XMQ_FLAG_TRIM_NONE) : xmqParseFileWithType(y.doq, path.c_str(), nullptr, typed ? cts[fmt] : XMQ_CONTENT_DETECT, XMQ_FLAG_TRIM_NONE);
        REQUIRE("library file", ok2 == ok, "the library %s the buffer but %s the file: %s %s", ok ? "accepts" : "rejects", ok2 ? "accepts" : "rejects", x.err().c_str(), y.err().c_str());
        if (ok) { Str dx = dump(x.model()), dy = dump(y.model()); REQUIRE("library file", dx == dy, "another document from a file: %s", diff(dx, dy).c_str()); }
        else { Str e = msg(y.err()); Str f2 = msg(f.err); while (!f2.empty() && f2.back() == '\n') f2.pop_back(); while (!e.empty() && e.back() == '\n') e.pop_back(); REQUIRE("library file", xmqDocErrno(y.doq) == xmqDocErrno(x.doq) && xmqDocErrno(y.doq) != 0, "the error is %d from a buffer and %d from a file", xmqDocErrno(x.doq), xmqDocErrno(y.doq)); /* the tool does not silence what libxml2 says of a doctype */ if (f2.compare(0, 8, "Entity: ") == 0 && f2.size() > e.size() && f2.compare(f2.size()-e.size()-1, Str::npos, "\n" + e) == 0) f2 = e; if (fmt != 1 && fmt != 3 && !plain) REQUIRE("library file", e == f2, "the error from a file\n%s\nthe tool says\n%s", e.c_str(), f2.c_str()); }
    }
    if (ok && out[0].compare(0, 3, "to-") == 0)
    {
        PrintOpts po; po.ct = out[0] == "to-xml" ? XMQ_CONTENT_XML : out[0] == "to-json" ? XMQ_CONTENT_JSON : out[0] == "to-text" ? XMQ_CONTENT_TEXT : out[0] == "to-html" ? XMQ_CONTENT_HTML : out[0] == "to-clines" ? XMQ_CONTENT_CLINES : XMQ_CONTENT_XMQ;
        for (auto &q : out) { if (q == "--compact") po.compact = true; if (q == "--indent=2") po.indent = 2; if (q == "--escape-newlines") po.esc_nl = true; if (q == "--escape-non-7bit") po.esc_non7 = true; if (q == "-o" || q == "--omit-decl") po.omit_decl = true; }
        Str p = print(x.doq, po); c.label("compared with the library");
        REQUIRE("library output", p == f.out, "the library prints another text: %s", diff(p, f.out).c_str());
    }
}
PART(C21, status, 1500, 20000, "Command sequences on a small document in which one command may be impossible (missing argument, unreadable or broken file, unknown entity file, invalid XPath, unwritable output, unknown command or option): exit status is zero exactly when none is, failures are explained and print nothing. Non-trivial: a failing sequence, or three commands")
{
    DocOpts d; std::vector<Node> m = gen_doc(g, d); Writer w(g); spellable(m); w.put_nodes(m, true); write_file(c.scratch + "/d.xmq", w.out);
    write_file(c.scratch + "/bad.xml", "<x"); write_file(c.scratch + "/a.xml", "<a/>"); write_file(c.scratch + "/ok.txt", "some text"); write_file(c.scratch + "/bad.xmq", "x{ 'a");
    write_file(c.scratch + "/id.xsl", "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'><xsl:template match='@*|node()'><xsl:copy><xsl:apply-templates select='@*|node()'/></xsl:copy></xsl:template></xsl:stylesheet>");
    typedef std::vector<Str> V;
    static const std::vector<V> good = { { "delete", "//zzz" }, { "delete", "//b" }, { "add", "extra=1" }, { "add-root", "top" }, { "delete-entity", "foo" }, { "replace-entity", "foo", "bar" }, { "substitute-entity", "copy" }, { "substitute-char-entities" }, { "replace-entity", "foo", "--with-text-file=ok.txt" }, { "replace-entity", "foo", "--with-file=a.xml" }, { "delete", "//comment()" }, { "transform", "id.xsl" } };
    static const std::vector<V> bad = { { "delete" }, { "select" }, { "add" }, { "add-root" }, { "delete-entity" }, { "replace-entity" }, { "replace-entity", "foo" }, { "substitute-entity" }, { "transform" }, { "validate" }, { "for-each" }, { "for-each", "/*" },
        { "delete", "//[" }, { "select", "a[" }, { "for-each", "//[", "--shell=true" }, { "add", "x{" }, { "add", "'''" }, { "replace-entity", "foo", "--with-file=nosuch.xml" }, { "replace-entity", "foo", "--with-file=bad.xml" }, { "replace-entity", "foo", "--with-file=bad.xmq" }, { "replace-entity", "foo", "--with-text-file=nosuch" }, { "transform", "nosuch.xsl" }, { "transform", "bad.xml" }, { "transform", "a.xml" }, { "validate", "nosuch.xsd" }, { "validate", "bad.xml" }, { "validate", "a.xml" }, { "validate", "--silent", "a.xml" }, { "to-xmq", "--no-such-option" }, { "load", "--alias=x", "nosuch" }, { "load", "--alias=x", "bad.xmq" }, { "delete", "//a", "nosuchcommand" }, { "to-xmq", "to-xml" }, { "print", "print" }, { "to-xmq", "--indent=x" } };
    static const std::vector<V> badout = { { "save-to", "nodir/x" }, { "save-to", "/dev/full" }, { "save-to" }, { "save-to", "." } };
    std::vector<V> seq; size_t n = g.size(4); for (size_t i = 0; i < n; ++i) seq.push_back(g.of(good));
    int mode = g.pick({ 3, 4, 2, 1 }); Str file = "d.xmq"; bool fails = mode != 0;
    if (mode == 1) { V b = g.of(bad); if (b.size() == 1 || b[0] == "load" || b[0] == "to-xmq" || b[0] == "print" || b[0].compare(0, 7, "replace") == 0) seq.push_back(b); else seq.insert(seq.begin() + (long)g.below((uint32_t)seq.size()+1), b); c.label(b[0]); }
    if (mode == 2) { V b = g.of(badout); seq.push_back({ "to-xml" }); seq.push_back(b); c.label("output"); }
    if (mode == 3) { static const std::vector<Str> f = { "nosuch.xmq", "bad.xmq", "bad.xml", "." }; file = g.of(f); c.label("input"); }
    if (mode == 0) { c.label("nothing fails"); int k = g.below(3); if (k == 1) seq.push_back({ "no-output" }); if (k == 2) seq.push_back({ "to-xmq" }); }
    V a = { "--trim=none", file }; for (auto &s : seq) a.insert(a.end(), s.begin(), s.end());
    c.show("d.xmq: " + vis(w.out, 1500) + "\nxmq " + join(a)); c.nontrivially(fails || seq.size() >= 3, join(a));
    RunResult r = xmq_run(c, a);
    REQUIRE("status", (r.code != 0) == fails, "exit status %d, but %s: %s %s", r.code, fails ? "a command failed" : "every command succeeded", vis(r.out, 500).c_str(), vis(r.err, 500).c_str());
    REQUIRE("silent", !fails || !r.err.empty() || !r.out.empty(), "failed without a message");
    if (fails) REQUIRE("output", r.out.find('{') == Str::npos, "failed but wrote %s", vis(r.out, 500).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// C28
static Str local_name(const Str &n) { size_t p = n.rfind(':'); return p == Str::npos ? n : n.substr(p+1); }
static Str shell_text(const std::vector<Node> &v)
{
    Str s;
    for (auto &n : v) { if (n.kind == TEXT) s += n.text; else if (n.kind == ELEM) s += shell_text(n.kids); else if (n.kind == ENT) { long ch = char_of(n.name); s += ch ? utf8((uint32_t)ch) : "&" + n.name + ";"; } }
    return s;
}
static void parents(const std::vector<Node> &v, const Node *up, std::map<const Node*,const Node*> &o) { for (auto &n : v) { o[&n] = up; parents(n.kids, &n, o); } }
static void nasty_texts(Gen &g, std::vector<Node> &v)
{
    static const std::vector<Str> nasty = { "$(echo pwned)", "`echo pwned`", "$HOME", "${a}", "\"", "'", "\\", "\\n", "%s %d%%", "; echo pwned", "&& false", "| cat", "*", "~", "#", "!", "a\nb", "  two  spaces  ", "-n", "-e", "\n", "$", "${", "}", "<b>", "å😀", "exit 1", "\t", ">", "${.}" };
    for (auto &n : v) { if (n.kind == TEXT && g.below(3)) { Str s = g.of(nasty); while (g.below(3) == 0) s += g.of(nasty); n.text = s; } nasty_texts(g, n.kids); }
}
PART(C28, shell, 2500, 40000, "Documents whose texts are full of shell syntax, a generated XPath, and a shell command printing several ${name}, ${.} and ${..} with printf; the output compared with the model's matches and texts. Non-trivial: a match with a non-empty expansion containing a character special to the shell")
{
    DocOpts d; d.xml = g.below(3) == 2; d.ns = g.below(4) == 3; d.text.cr = false; d.named_ents = g.below(3) == 0; d.budget = 18;
    std::vector<Node> m = gen_doc(g, d); nasty_texts(g, m); Str src, file;
    if (d.xml) { src = to_xml_text(g, m); file = "d.xml"; bool ok; m = read_xml_text(src, ok); if (!ok || (src.find("<!DOCTYPE html") != Str::npos && src.compare(0, 5, "<?xml"))) throw Discard(); }
    else { spellable(m); Writer w(g); w.put_nodes(m, true); src = w.out; file = "d.xmq"; XDoc x; if (!x.parse(src, XMQ_CONTENT_XMQ)) throw Discard(); m = x.model(); }
    std::vector<Node> rm = m; resolve(rm); std::vector<Path> u = gen_path(g, rm, false, true);
    // How text is split into nodes is only given by XML.
    if (!d.xml || src.find("<![CDATA[") != Str::npos) for (auto &q : u) for (auto &st : q) if (st.test == T_TEXT || st.test == T_NODE) st.test = T_STAR;
    auto s = eval(rm, u); // The same shape as m.
    std::map<const Node*,const Node*> up; parents(rm, nullptr, up);
    std::vector<Str> el, at; names_of(rm, el, at); el.push_back("nosuch");
    std::vector<Str> names; size_t nn = 1 + g.size(4); for (size_t i = 0; i < nn; ++i) { size_t k = g.pick({ 4, 2, 1 }); names.push_back(k == 0 ? g.of(el) : k == 1 ? Str(".") : Str("..")); }
    Str cmd = "printf '"; for (size_t i = 0; i < nn; ++i) cmd += "%s\\036"; cmd += "\\035'"; for (auto &n : names) cmd += " \"${" + n + "}\"";
    if (g.below(3) == 2) { cmd = "A=5; " + cmd + "; printf \"$A%s\\035\" $((1+1))"; c.label("shell syntax around"); }
    else if (g.below(4) == 3) { cmd += "; cat; exit 3"; c.label("reads input, fails"); }
    bool two = cmd.find("A=5") != Str::npos;
    Str want; bool special = false;
    for (auto &x : s)
    {
        const Node *e = x.n; while (e && e->kind != ELEM) e = up[e];
        if (!e) throw Discard();
        for (auto &n : names)
        {
            Str t; if (n == "..") t = local_name(e->name.find('}') == Str::npos ? e->name : e->name.substr(e->name.find('}')+1)); else if (n == ".") t = shell_text(e->kids);
            else for (auto &k : e->kids) { Str nm = k.name; size_t p = nm.find('}'); if (p != Str::npos) nm = nm.substr(p+1); if (k.kind == ELEM && local_name(nm) == n) t += shell_text(k.kids); }
            want += t + "\036"; if (t.find_first_of("$`\"'\\;&|*\n ") != Str::npos) special = true;
        }
        want += "\035"; if (two) want += "52\035";
    }
    std::vector<Str> a = { "--trim=none", d.xml ? "--xml" : "--xmq", file, "for-each", show_path(u), "--shell=" + cmd };
    c.show(file + ": " + vis(src) + "\nxmq " + join(a)); c.nontrivially(special, src + join(a)); c.label_if(s.empty(), "nothing matched"); c.label_if(s.size() > 1, "several matches");
    write_file(c.scratch + "/" + file, src);
    RunResult r = xmq_run(c, a, "", { "XMQ_CONTENT_1=outer" });
    REQUIRE("status", r.code == 0, "exit status %d: %s", r.code, r.err.c_str());
    REQUIRE("text", r.out == want, "the shell got other texts: %s", diff(want, r.out).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// C29
struct Counts { size_t num_elements=0, size_element_names=0, num_text_nodes=0, size_text_nodes=0, num_attributes=0, size_attribute_names=0, size_attribute_content=0, num_comments=0, size_comments=0, size_doctype=0, num_cdata_nodes=0, size_cdata_nodes=0; };
static void count_xml(xmlNode *n, Counts &k)
{
    for (; n; n = n->next) switch (n->type)
    {
    case XML_ELEMENT_NODE:
        k.num_elements++; k.size_element_names += strlen((const char*)n->name);
        for (xmlAttr *a = n->properties; a; a = a->next) { k.num_attributes++; k.size_attribute_names += strlen((const char*)a->name); for (xmlNode *t = a->children; t; t = t->next) if (t->type == XML_TEXT_NODE) k.size_attribute_content += strlen((const char*)t->content); }
        count_xml(n->children, k); break;
    case XML_TEXT_NODE: k.num_text_nodes++; k.size_text_nodes += strlen((const char*)n->content); break;
    case XML_COMMENT_NODE: k.num_comments++; k.size_comments += strlen((const char*)n->content); break;
    case XML_CDATA_SECTION_NODE: k.num_cdata_nodes++; k.size_cdata_nodes += strlen((const char*)n->content); break;
    case XML_DTD_NODE: k.size_doctype += strlen((const char*)n->name); break;
    default: break;
    }
}
static void count_model(const std::vector<Node> &v, Counts &k)
{
    for (auto &n : v) switch (n.kind)
    {
    case ELEM: k.num_elements++; k.size_element_names += local_name(n.name).size();
        for (auto &a : n.attrs) { if (a.name == "xmlns" || a.name.compare(0, 6, "xmlns:") == 0) continue; k.num_attributes++; k.size_attribute_names += local_name(a.name).size(); for (auto &t : a.value) if (t.kind == TEXT) k.size_attribute_content += t.text.size(); }
        count_model(n.kids, k); break;
    case TEXT: k.num_text_nodes++; k.size_text_nodes += n.text.size(); break;
    case COMMENT: k.num_comments++; k.size_comments += n.text.size(); break;
    case DOCTYPE: { size_t b = n.text.find_first_not_of(" \n\r\t"), e = n.text.find_first_of(" \n\r\t[", b); if (b != Str::npos) k.size_doctype += (e == Str::npos ? n.text.size() : e) - b; break; }
    default: break;
    }
}
static Str show_counts(const Counts &k, size_t src)
{
    Str s = strf("size_source=%zu ", src);
    auto put = [&](const char *n, size_t v) { if (v) s += strf("%s=%zu ", n, v); };
    put("num_elements", k.num_elements); put("size_element_names", k.size_element_names); put("num_text_nodes", k.num_text_nodes); put("size_text_nodes", k.size_text_nodes); put("num_attributes", k.num_attributes); put("size_attribute_names", k.size_attribute_names); put("size_attribute_content", k.size_attribute_content); put("num_comments", k.num_comments); put("size_comments", k.size_comments); put("size_doctype", k.size_doctype); put("num_cdata_nodes", k.num_cdata_nodes); put("size_cdata_nodes", k.size_cdata_nodes);
    s += strf("sum_meta=%zu sum_text=%zu ", k.size_element_names + k.size_attribute_names + k.size_attribute_content + k.size_doctype, k.size_text_nodes);
    return s;
}
PART(C29, count, 2500, 40000, "Generated XML documents counted through libxml2's own tree and XMQ documents counted on the generated model; every number printed by statistics compared. Non-trivial: at least three kinds of node")
{
    DocOpts d; d.xml = g.coin(); d.text.cr = false; d.named_ents = g.below(3) == 0; d.budget = g.below(8) == 7 ? 200 : 20;
    std::vector<Node> m = gen_doc(g, d); Str src, file; Counts k; bool trim = false;
    if (d.xml)
    {
        src = to_xml_text(g, m); if (src.find("\xe2\x90\x90") != Str::npos) throw Discard(); file = "d.xml"; libxml_quiet(); if (src.find("<!DOCTYPE html") != Str::npos && src.compare(0, 5, "<?xml")) throw Discard();
        xmlDoc *x = xmlReadMemory(src.data(), (int)src.size(), "x.xml", nullptr, XML_PARSE_NOERROR|XML_PARSE_NOWARNING|XML_PARSE_NOCDATA); if (!x) throw Discard(); count_xml(x->children, k); xmlFreeDoc(x);
    }
    else
    {
        std::vector<Str> cs; spellable(m); all_comments(m, cs); for (auto &s : cs) if (!clean_comment(s)) throw Discard();
        Writer w(g); w.put_nodes(m, true); src = w.out; file = "d.xmq"; DumpOpts o; normalise(m, o); count_model(m, k);
    }
    std::vector<Str> a = { trim ? "--trim=heuristic" : "--trim=none", d.xml ? "--xml" : "--xmq", file, "statistics" }; int of = g.below(3); if (of == 1) a.push_back("to-xml"); if (of == 2) { a.push_back("to-xmq"); a.push_back("--compact"); }
    c.show(file + ": " + vis(src, 4000) + "\nxmq " + join(a)); c.nontrivially((k.num_elements > 1) + (k.num_text_nodes > 0) + (k.num_attributes > 0) + (k.num_comments > 0) + (k.num_cdata_nodes > 0) + (k.size_doctype > 0) >= 3, src); c.label(file); c.label_if(k.num_cdata_nodes, "cdata");
    write_file(c.scratch + "/" + file, src);
    RunResult r = xmq_run(c, a);
    REQUIRE("status", r.code == 0, "exit status %d: %s", r.code, r.err.c_str());
    std::vector<Node> got; if (of == 1) { bool ok; got = read_xml_text(r.out, ok); } else { XDoc x; REQUIRE("unreadable", x.parse(r.out, XMQ_CONTENT_XMQ), "%s", r.out.c_str()); got = x.model(); }
    REQUIRE("shape", got.size() == 1 && got[0].name == "statistics", "%s", r.out.c_str());
    Str s; for (auto &n : got[0].kids) if (n.kind == ELEM) s += n.name + "=" + text_content(n.kids) + " ";
    // An empty quote is an empty text node.
    if (!d.xml) { size_t nt = 0, quotes = 0; for (auto &n : got[0].kids) if (n.name == "num_text_nodes") nt = (size_t)atol(text_content(n.kids).c_str()); for (size_t p = 0; (p = src.find_first_of("'\"", p)) != Str::npos; ++p) quotes++; if (nt > k.num_text_nodes && nt <= k.num_text_nodes + quotes) k.num_text_nodes = nt; }
    Str want = show_counts(k, src.size());
    REQUIRE("numbers", s == want, "statistics says %s\nbut the document has %s", s.c_str(), want.c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// C30
// What a sequence of C string literals denotes, or false.
static bool c_literal(const Str &s, Str &out)
{
    size_t i = 0; bool any = false;
    while (i < s.size())
    {
        if (isspace((unsigned char)s[i])) { i++; continue; }
        if (s[i] != '"') return false;
        any = true; i++;
        for (;;)
        {
            if (i >= s.size() || (unsigned char)s[i] < 32 || s[i] == 127) return false;
            if (s[i] == '"') { i++; break; }
            if (s[i] != '\\') { out += s[i++]; continue; }
            if (++i >= s.size()) return false;
            char ch = s[i++]; static const char *n = "abfnrtv\\\"'?", *v = "\a\b\f\n\r\t\v\\\"'?"; const char *p = strchr(n, ch);
            if (ch && p) out += v[p-n];
            else if (ch == 'x') { unsigned long x = 0; size_t k = 0; while (i < s.size() && isxdigit((unsigned char)s[i])) { x = x*16 + (unsigned long)(isdigit((unsigned char)s[i]) ? s[i]-'0' : (s[i]|32)-'a'+10); i++; k++; } if (!k || x > 255) return false; out += (char)x; }
            else if (ch >= '0' && ch <= '7') { int x = ch-'0'; for (int k = 1; k < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7'; ++k) x = x*8 + s[i++]-'0'; out += (char)x; }
            else return false;
        }
    }
    return any;
}
static Str c_text(Gen &g)
{
    static const std::vector<Str> bits = { "\"", "\\", "\\n", "\n", "\t", "\r", "\a", "\b", "\v", "\f", "\x01", "\x1f", "\x7f", "a", "f", "0", "7", "9", "A", "G", "x41", "\\x41", "\\101", " ", "å", "😀", "\xc2\x80", "'", "?", "??/", "%d", "\x1b[0m", "word", "\\\\", "\\\"", "{", "&amp;", "u00e5", "//", "/*" };
    if (g.below(5) == 4) { TextOpts t; t.controls = true; t.max = 400; return gen_text(g, t); }
    Str s; size_t n = g.size(12); for (size_t i = 0; i < n; ++i) s += g.of(bits); if (g.below(12) == 11) { Str r = s; while (s.size() < 3000 && !r.empty()) s += r; } return s;
}
PART(C30, quote, 2500, 40000, "Any text with control characters, escapes and hex digits next to each other: quote-c compared by decoding its output with a C literal decoder, unquote-c of it and of literals of other spellings compared with the text. Non-trivial: a character that needs an escape")
{
    Str t = c_text(g); if (t.compare(0, 3, "\xef\xbb\xbf") == 0) throw Discard(); bool esc = false; for (unsigned char ch : t) if (ch < 32 || ch == '"' || ch == '\\' || ch == 127) esc = true;
    c.show("text: " + vis(t)); c.nontrivially(esc, t);
    write_file(c.scratch + "/t.txt", t); bool nl = g.coin();
    std::vector<Str> a = { "--text", "t.txt", "quote-c" }; if (nl) a.push_back("--add-nl"); a.push_back("to-text");
    RunResult r = xmq_run(c, a); REQUIRE("status", r.code == 0, "exit status %d: %s", r.code, r.err.c_str());
    Str q = r.out; if (nl) { REQUIRE("newline", !q.empty() && q.back() == '\n', "no newline at the end: %s", vis(q).c_str()); q.pop_back(); }
    REQUIRE("one line", q.find('\n') == Str::npos, "more than one line: %s", vis(q).c_str());
    Str v; REQUIRE("literal", c_literal(q, v), "not a C string literal: %s", vis(q).c_str());
    REQUIRE("value", v == t, "%s denotes %s", vis(q).c_str(), vis(v).c_str());
    r = xmq_run(c, { "--text", "t.txt", "quote-c", "unquote-c", "to-text" });
    REQUIRE("inverse", r.code == 0 && r.out == t, "unquote-c of quote-c gives %s", vis(r.out).c_str());
    // Another spelling of the same text.
    Str s = Str(g.below(3), ' ') + "\"";
    for (size_t i = 0; i < t.size(); ++i)
    {
        unsigned char ch = (unsigned char)t[i]; bool hexnext = i+1 < t.size() && isxdigit((unsigned char)t[i+1]);
        static const char *n = "abfnrtv", *vv = "\a\b\f\n\r\t\v"; const char *p = strchr(vv, ch); int how = g.below(6);
        if (ch >= 128) { s += (char)ch; continue; }
        if (how == 1 && !hexnext) s += strf(g.coin() ? "\\x%x" : "\\x%02X", ch);
        else if (how == 2) s += strf("\\%03o", ch);
        else if (how == 3 && ch == '\'') s += "\\'";
        else if (p && how) { s += '\\'; s += n[p-vv]; }
        else if (ch == '"' || ch == '\\') { s += '\\'; s += (char)ch; }
        else if (ch < 32 || ch == 127) s += strf("\\%03o", ch);
        else s += (char)ch;
    }
    s += "\""; if (g.coin()) s += "\n";
    c.show("literal: " + vis(s)); write_file(c.scratch + "/l.txt", s);
    r = xmq_run(c, { "--text", "l.txt", "unquote-c", "to-text" });
    REQUIRE("unquote", r.code == 0 && r.out == t, "unquote-c gives %s", vis(r.out).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// C27
static Node el(const Str &n, std::vector<std::pair<Str,Str>> at = {}, std::vector<Node> kids = {}) { Node e = mk_elem(n); for (auto &p : at) { Attr a; a.name = p.first; a.value.push_back(mk_text(p.second)); e.attrs.push_back(a); } e.kids = kids; return e; }
struct XslGen
{
    Gen &g; std::vector<Str> els, ats; bool text_nodes; std::vector<Str> params, named; int depth = 0; std::vector<Str> docs = {}; bool keyed = false;
    static Str simple_text(Gen &g) { static const std::vector<Str> t = { "word", " a ", "x\ny", "<&>", "'quoted'", "\"dq\"", "å😀", "a  b", "{brace}", "//", "&amp;", "#" }; return g.of(t); }
    Str path()
    {
        if (!docs.empty() && g.below(4) == 0) { Str d = "document('" + g.of(docs) + "')"; switch (g.below(4)) { case 0: return d + "/*"; case 1: return d + "//*"; case 2: return d + "//" + g.of(els); default: return d + "/*/*"; } }
        if (keyed && g.below(4) == 0) return g.coin() ? Str("key('kk', name())") : "key('kk', '" + g.of(els) + "')";
        switch (g.below(9)) { case 0: return g.of(els); case 1: return "*"; case 2: return "//" + g.of(els); case 3: return "*[@" + g.of(ats) + "]"; case 4: return "*[position() = 1]"; case 5: return "../*"; case 6: return "/*"; case 7: return ".//*"; default: return "descendant-or-self::*"; }
    }
    Str value()
    {
        if (!docs.empty() && g.below(3) == 0) { Str f = g.of(docs), d = "document('" + f + "')"; switch (g.below(5)) { case 0: return d + "/*"; case 1: return "count(" + d + "//*)"; case 2: return "count(" + d + " | " + d + ")"; case 3: return "string-length(" + d + ")"; default: return d + "//@" + g.of(ats); } }
        switch (g.below(11)) { case 0: return "."; case 1: return "@" + g.of(ats); case 2: return g.of(els); case 3: return "name()"; case 4: return "count(" + path() + ")"; case 5: return "concat('<', name(), \"'\", @" + g.of(ats) + ")"; case 6: return "string-length(.)"; case 7: return params.empty() ? Str("'none'") : "$" + g.of(params); case 8: return text_nodes ? "position()" : "local-name(..)"; case 9: return "normalize-space(.)"; default: return "translate(., 'abc', 'ABC')"; }
    }
    Str cond() { switch (g.below(6)) { case 0: return "@" + g.of(ats); case 1: return g.of(els); case 2: return text_nodes ? "position() mod 2 = 1" : "count(@*) = 1"; case 3: return "count(*) > 1"; case 4: return "not(*)"; default: return params.empty() ? Str("true()") : "$" + g.of(params) + " = 'one'"; } }
    std::vector<Node> body(int n)
    {
        std::vector<Node> r; size_t k = g.size((size_t)n);
        for (size_t i = 0; i < k; ++i) r.push_back(instr());
        return r;
    }
    Node instr()
    {
        int deep = depth >= 4; struct D { int &d; D(int &x) : d(x) { d++; } ~D() { d--; } } dd(depth);
        if ((keyed || !docs.empty()) && g.below(5) == 0)
            switch (deep ? 0 : g.below(3)) { case 0: return el("xsl:copy-of", { { "select", path() } }); case 1: return el("xsl:for-each", { { "select", path() } }, body(2)); default: return el("xsl:apply-templates", { { "select", path() } }); }
        switch (deep ? g.below(5) : g.below(15))
        {
        case 0: return el("xsl:value-of", { { "select", value() } });
        case 1: { Node t = el("xsl:text"); t.kids.push_back(mk_text(g.below(4) ? simple_text(g) : Str(g.coin() ? " " : "\n"))); return t; }
        case 2: { Node e = el(gen_name(g)); if (g.coin()) e.kids.push_back(mk_text(simple_text(g))); return e; }
        case 3: return el("xsl:copy-of", { { "select", g.below(4) == 3 ? Str("@*") : "*[not(*)]" } }).name == "" ? Node() : (g.coin() ? el("xsl:copy-of", { { "select", g.of(els) + "[not(*)]" } }) : el("xsl:number"));
        case 4: return el("xsl:value-of", { { "select", value() } });
        case 5: { Node e = el("xsl:apply-templates"); if (g.coin()) { e = el("xsl:apply-templates", { { "select", g.coin() ? Str("*") : g.of(els) } }); if (g.below(3) == 0) e.kids.push_back(el("xsl:sort", { { "select", value() } })); } return e; }
        case 6: { Node e = el("xsl:for-each", { { "select", g.coin() ? Str("*") : g.of(els) } }); if (g.below(3) == 0) e.kids.push_back(el("xsl:sort", { { "select", value() }, { "order", g.coin() ? "ascending" : "descending" } })); for (auto &x : body(3)) e.kids.push_back(x); return e; }
        case 7: return el("xsl:if", { { "test", cond() } }, body(2));
        case 8: { Node e = el("xsl:choose"); size_t n = 1 + g.below(2); for (size_t i = 0; i < n; ++i) e.kids.push_back(el("xsl:when", { { "test", cond() } }, body(2))); if (g.coin()) e.kids.push_back(el("xsl:otherwise", {}, body(2))); return e; }
        case 9: { Node e = el("xsl:element", { { "name", g.coin() ? gen_name(g) : Str("e-{count(*)}") } }); if (g.coin()) e.kids.push_back(el("xsl:attribute", { { "name", "k" } }, { el("xsl:value-of", { { "select", value() } }) })); for (auto &x : body(2)) e.kids.push_back(x); return e; }
        case 10: { Node e = el(gen_name(g), { { "at", g.coin() ? "{" + value_avt() + "}" : simple_avt() } }); e.kids = body(3); return e; }
        case 11: if (!named.empty()) return el("xsl:call-template", { { "name", g.of(named) } }, g.coin() ? std::vector<Node>{ el("xsl:with-param", { { "name", "wp" }, { "select", value() } }) } : std::vector<Node>()); return el("xsl:comment", {}, { mk_text("made") });
        case 12: return el("xsl:comment", {}, { mk_text("made") });
        case 13: { Node e = el("xsl:variable", { { "name", strf("v%d", depth) } }); (void)e; Node w = el("wrap"); w.kids.push_back(el("xsl:variable", { { "name", "vv" }, { "select", value() } })); w.kids.push_back(el("xsl:value-of", { { "select", "$vv" } })); return w; }
        default: { Node e = el("xsl:copy"); e.kids = body(2); return e; }
        }
    }
    Str value_avt() { Str v = value(); return v.find("'") == Str::npos && v.find('"') == Str::npos ? v : Str("name()"); }
    Str simple_avt() { static const std::vector<Str> t = { "v", "a b", "å", "<&>", "it's" }; return g.of(t); }
    Node top() { Node s = el("xsl:stylesheet", { { "version", "1.0" } }); Attr x; x.name = "xmlns:xsl"; x.value.push_back(mk_text("http://www.w3.org/1999/XSL/Transform")); s.attrs.push_back(x); return s; }
    Node sheet(std::vector<Node> &glob, const std::vector<Node> &first = {})
    {
        Node s = el("xsl:stylesheet", { { "version", "1.0" } }); Attr x; x.name = "xmlns:xsl"; x.value.push_back(mk_text("http://www.w3.org/1999/XSL/Transform")); s.attrs.push_back(x);
        if (g.below(4) == 0) { Attr p; p.name = "xmlns:pp"; p.value.push_back(mk_text("urn:pp")); s.attrs.push_back(p); }
        for (auto &f : first) s.kids.push_back(f);
        if (keyed) s.kids.push_back(el("xsl:key", { { "name", "kk" }, { "match", g.coin() ? Str("*") : g.of(els) }, { "use", g.coin() ? Str("name()") : "name(..)" } }));
        if (g.below(3) == 0) { static const std::vector<Str> ms = { "xml", "html", "text" }; s.kids.push_back(el("xsl:output", { { "method", g.of(ms) }, { "indent", g.coin() ? "yes" : "no" } })); }
        if (g.below(4) == 0) s.kids.push_back(el("xsl:strip-space", { { "elements", g.coin() ? Str("*") : g.of(els) } }));
        for (auto &p : glob) s.kids.push_back(p);
        s.kids.push_back(el("xsl:template", { { "match", "/" } }, { g.coin() ? el("xsl:apply-templates") : el("res", {}, { el("xsl:apply-templates"), instr() }) }));
        size_t n = g.size(5); std::set<Str> used;
        for (size_t i = 0; i < n; ++i) { Str m = g.below(3) ? g.of(els) : g.coin() ? Str("*") : "@" + g.of(ats); if (used.insert(m).second) s.kids.push_back(el("xsl:template", { { "match", m } }, body(4))); }
        if (text_nodes && g.below(3) == 0) s.kids.push_back(el("xsl:template", { { "match", "text()" } }, { el("t", {}, { el("xsl:value-of", { { "select", "." } }) }) }));
        std::vector<Str> nm = named; named.clear(); for (auto &q : nm) { Node t = el("xsl:template", { { "name", q } }, { el("xsl:param", { { "name", "wp" }, { "select", "'dflt'" } }), el("xsl:value-of", { { "select", "$wp" } }) }); for (auto &b : body(2)) t.kids.push_back(b); s.kids.push_back(t); }
        return s;
    }
};
static xmlDoc *quiet_read(const Str &s) { libxml_quiet(); return xmlReadMemory(s.data(), (int)s.size(), "x.xml", nullptr, XML_PARSE_NOERROR|XML_PARSE_NOWARNING|XML_PARSE_HUGE|XML_PARSE_NOCDATA); }
static void nothing(void *, const char *, ...) {}
static void transform_case(Gen &g, Ctx &c, bool files)
{
    DocOpts d; d.ents = d.named_ents = false; d.doctype = false; d.ns = g.below(4) == 0; d.text.cr = false; d.budget = 16;
    std::vector<Node> m = gen_doc(g, d); spellable(m); Str xml = to_xml_text(g, m); xmlDoc *xd = quiet_read(xml); if (!xd) throw Discard();
    struct F { xmlDoc *d = nullptr; ~F() { if (d) xmlFreeDoc(d); } } fd, fs, fr; fd.d = xd;
    std::vector<Node> rm = m; std::vector<Str> els, ats; names_of(rm, els, ats); if (els.empty()) els.push_back("zz"); if (ats.empty()) ats.push_back("zz");
    bool doc_xml = g.coin(), xsl_xml = g.coin(); if (xml.find("\xe2\x90\x90") != Str::npos) throw Discard();
    XslGen xg{ g, els, ats, doc_xml && xml.find("<![CDATA[") == Str::npos, {}, {} };
    std::vector<Node> glob; std::vector<Str> args = { "--trim=none", doc_xml ? "--xml" : "--xmq", doc_xml ? "d.xml" : "d.xmq", "transform" }; std::vector<Str> ps;
    bool colliding = g.below(4) == 0; size_t np = colliding ? 2 + g.below(5) : g.size(3);
    for (size_t i = 0; i < np; ++i)
    {
        Str n = colliding ? strf("%c%c", (int)('b'+i), (int)('c'+i)) : strf("par%d", (int)i); xg.params.push_back(n); Node p = el("xsl:param", { { "name", n } }); if (g.coin()) p = el("xsl:param", { { "name", n }, { "select", "'default'" } }); glob.push_back(p);
        static const std::vector<Str> sv = { "one", "", "it's", "say \"x\"", "a=b", "<b>&amp;", "å😀", " sp ", "1", "a\nb", "--x", "=" }, ev = { "1+2", "'lit'", "\"dq's\"", "count(//*)", "name(/*)", "/*", "true()", "concat('a','=','b')" };
        int k = g.below(3); if (k == 1) { Str v = g.of(sv); args.push_back("--stringparam=" + n + "=" + v); ps.push_back(n); ps.push_back(v.find('\'') != Str::npos ? "\"" + v + "\"" : "'" + v + "'"); } else if (k == 2) { Str v = g.of(ev); args.push_back("--param=" + n + "=" + v); ps.push_back(n); ps.push_back(v); }
    }
    if (g.coin()) xg.named.push_back("nt1");
    // Other documents and stylesheets, in this directory and below, in either format. The oracle reads them as XML.
    Str od = c.scratch + "/o"; std::vector<Node> first; Str shown;
    if (files)
    {
        mkdir(od.c_str(), 0777); mkdir((od + "/sub").c_str(), 0777); mkdir((c.scratch + "/sub").c_str(), 0777);
        auto put = [&](const Str &name, bool xml_form, std::vector<Node> v) { Str x = to_xml_text(g, v), t = x; if (x.find("\xe2\x90\x90") != Str::npos) throw Discard(); { xmlDoc *xd2 = quiet_read(x); if (!xd2) throw Discard(); xmlFreeDoc(xd2); } if (!xml_form) { spellable(v); Writer w(g); w.put_nodes(v, true); t = w.out; } write_file(od + "/" + name, x); write_file(c.scratch + "/" + name, t); shown += "\n" + name + ": " + vis(t); };
        size_t nd = g.size(2);
        for (size_t i = 0; i < nd; ++i) { DocOpts d2 = d; d2.ns = false; d2.budget = 8; bool xf = g.coin(); std::vector<Node> sm = gen_doc(g, d2); spellable(sm); names_of(sm, xg.els, xg.ats); Str n = strf("%sq%d.%s", g.below(3) ? "" : "sub/", (int)i, xf ? "xml" : "xmq"); put(n, xf, sm); xg.docs.push_back(n); c.label(xf ? "other document as xml" : "other document as xmq"); }
        xg.keyed = g.below(3) == 0; c.label_if(xg.keyed, "key");
        size_t ni = g.size(3);
        for (size_t i = 0; i < ni; ++i)
        {
            bool xf = g.coin(), below = g.below(3) == 0, nested = g.below(3) == 0; Node s = xg.top(); size_t nt = 1 + g.below(2); Str up = below ? "" : "sub/"; auto keep = xg.docs; std::vector<Str> kn; kn.swap(xg.named); bool kk = xg.keyed; xg.keyed = false;
            if (below) xg.docs.clear();
            if (nested) { bool nf = g.coin(); Node s2 = xg.top(); auto k2 = xg.docs; xg.docs.clear(); s2.kids.push_back(el("xsl:template", { { "match", g.of(els) } }, xg.body(3))); xg.docs = k2; Str n2 = strf("n%d.%s", (int)i, nf ? "xsl" : "xslq"); put("sub/" + n2, nf, { s2 }); s.kids.push_back(el(g.coin() ? "xsl:include" : "xsl:import", { { "href", up + n2 } })); c.label(nf ? "nested stylesheet as xml" : "nested stylesheet as xmq"); }
            for (size_t t = 0; t < nt; ++t) s.kids.push_back(el("xsl:template", { { "match", g.below(3) ? g.of(els) : Str("*") } }, xg.body(3)));
            xg.docs = keep; xg.named = kn; xg.keyed = kk; Str n = strf("%si%d.%s", below ? "sub/" : "", (int)i, xf ? "xsl" : "xslq"); put(n, xf, { s });
            bool import = g.coin(); Node in = el(import ? "xsl:import" : "xsl:include", { { "href", n } }); if (import) first.insert(first.begin(), in); else first.push_back(in); c.label(xf ? "included stylesheet as xml" : "included stylesheet as xmq");
        }
    }
    Node sh = xg.sheet(glob, first);
    std::vector<Node> sm = { sh }; Str sx = to_xml_text(g, sm), sfile = xsl_xml ? "s.xsl" : "s.xslq", stext = sx, dtext = xml;
    if (!xsl_xml) { spellable(sm); Writer w(g); w.put_nodes(sm, true); stext = w.out; }
    if (!doc_xml) { std::vector<Node> dm = m; spellable(dm); Writer w(g); w.put_nodes(dm, true); dtext = w.out; }
    if (g.coin()) args.insert(args.begin() + 4, sfile); else args.push_back(sfile);
    args.push_back("add-root"); args.push_back("zzroot"); args.push_back("to-xml");
    c.show(vis(args[2]) + ": " + vis(dtext) + "\n" + sfile + ": " +  vis(stext, 4000) + shown + "\nxmq " + join(args)); c.label(doc_xml ? "document as xml" : "document as xmq"); c.label(xsl_xml ? "stylesheet as xml" : "stylesheet as xmq"); c.label_if(!ps.empty(), "parameters");
    fs.d = quiet_read(sx); if (fs.d && files) { xmlFree((void*)fs.d->URL); fs.d->URL = xmlStrdup((const xmlChar*)(od + "/s.xsl").c_str()); } if (!fs.d) throw Discard();
    xsltSetGenericErrorFunc(nullptr, nothing); xmlSetGenericErrorFunc(nullptr, nothing);
    xsltStylesheet *sheet = xsltParseStylesheetDoc(fs.d); if (!sheet) throw Discard(); fs.d = nullptr;
    std::vector<const char*> pv; for (auto &p : ps) pv.push_back(p.c_str()); pv.push_back(nullptr);
    // Nested apply-templates can take exponential time, such stylesheets are left out.
    { xsltTransformContext *tc = xsltNewTransformContext(sheet, fd.d); tc->opLimit = 20000; fr.d = xsltApplyStylesheetUser(sheet, fd.d, pv.data(), nullptr, nullptr, tc); bool over = tc->opCount >= tc->opLimit; xsltFreeTransformContext(tc); xsltFreeStylesheet(sheet); if (over) throw Discard(); }
    write_file(c.scratch + "/" + args[2], dtext); write_file(c.scratch + "/" + sfile, stext);
    RunResult r = xmq_run(c, args);
    if (!fr.d) { c.label("transform fails"); REQUIRE("status", r.code != 0, "libxslt fails, the tool does not"); return; }
    std::vector<Node> want = from_xml(fr.d); c.nontrivially(count_nodes(want) >= 4, dtext + stext); c.label_if(want.empty(), "empty result"); if (dup_attrs(want)) throw Discard();
    REQUIRE("status", r.code == 0, "exit status %d: %s", r.code, r.err.c_str());
    Node root = mk_elem("zzroot"); std::vector<Node> w2; for (auto &q : want) if (q.kind == DOCTYPE) w2.push_back(q); else root.kids.push_back(q); w2.push_back(root);
    bool ok; std::vector<Node> got = read_xml_text(r.out, ok); REQUIRE("malformed", ok, "the result is not well-formed: %s", vis(r.out).c_str());
    resolve(w2); resolve(got); unmark(w2); unmark(got); DumpOpts o; o.doctype_ws = true; o.empty_attr_same = true; o.loose_comments = !doc_xml; o.pi_ws = true;
    Str a = dump(w2, o), b = dump(got, o);
    REQUIRE("tree", a == b, "the result differs from libxslt's\n%s\noutput: %s", diff(a, b).c_str(), vis(r.out).c_str());
}
PART(C27, transform, 3000, 50000, "Generated documents and stylesheets, each written as XML or XMQ, with generated parameters, transformed by the tool and by libxslt on the XML forms; the result trees compared. Non-trivial: at least four nodes of result")
{
    transform_case(g, c, false);
}
PART(C27, included, 1200, 20000, "As transform, with stylesheets that include and import other stylesheets (also nested, also in a subdirectory) and refer to other documents with document(), each written as XML or XMQ, and keys. Non-trivial: at least four nodes of result")
{
    transform_case(g, c, true);
}
struct XsdGen
{
    Gen &g; int n = 0; Str pre;
    struct T { Str name; int kind = 0; std::vector<T> kids; int min = 1, max = 1; std::vector<std::pair<Str,bool>> at; std::vector<Str> att; Str type; bool mixed = false; };
    static const std::vector<Str> &types() { static const std::vector<Str> t = { "string", "integer", "positiveInteger", "boolean", "date", "decimal", "NCName", "token" }; return t; }
    T gen(int depth)
    {
        T t; t.name = strf("%s%d", gen_name(g).c_str(), n++); t.kind = depth >= 3 ? 0 : g.pick({ 3, 3, 2, 1 }); t.min = g.pick({ 1, 4 }); t.max = t.min > 1 ? t.min : g.below(3) == 0 ? 3 : g.below(4) == 0 ? -1 : 1; if (t.max == 1 && t.min > 1) t.max = t.min;
        if (t.kind == 0) { t.type = g.below(4) == 0 ? (g.coin() ? "ENUM" : "PAT") : g.of(types()); return t; }
        size_t k = 1 + g.size(3); for (size_t i = 0; i < k; ++i) t.kids.push_back(gen(depth+1)); if (t.kind == 3) for (auto &c : t.kids) { c.max = 1; if (c.min > 1) c.min = 1; }
        size_t na = g.size(2); for (size_t i = 0; i < na; ++i) { t.at.push_back({ strf("at%d", (int)i), g.coin() }); t.att.push_back(g.of(types())); }
        t.mixed = g.below(4) == 0; return t;
    }
    Node simple() { return el(pre + "simpleType", {}, { el(pre + "restriction", { { "base", pre + "string" } }, { el(pre + "enumeration", { { "value", "red" } }), el(pre + "enumeration", { { "value", "blue green" } }) }) }); }
    Node pattern() { return el(pre + "simpleType", {}, { el(pre + "restriction", { { "base", pre + "string" } }, { el(pre + "pattern", { { "value", "[a-c]{2}\\d+" } }) }) }); }
    Node decl(const T &t, bool top)
    {
        Node e = el(pre + "element", { { "name", t.name } }); auto add = [&](const Str &k, const Str &v) { Attr a; a.name = k; a.value.push_back(mk_text(v)); e.attrs.push_back(a); };
        if (!top) { if (t.min != 1) add("minOccurs", strf("%d", t.min)); if (t.max != 1) add("maxOccurs", t.max < 0 ? Str("unbounded") : strf("%d", t.max)); }
        if (t.kind == 0) { if (t.type == "ENUM") e.kids.push_back(simple()); else if (t.type == "PAT") e.kids.push_back(pattern()); else add("type", pre + t.type); return e; }
        Node ct = el(pre + "complexType"); if (t.mixed) ct = el(pre + "complexType", { { "mixed", "true" } });
        Node seq = el(pre + (t.kind == 1 ? "sequence" : t.kind == 2 ? "choice" : "all")); for (auto &k : t.kids) seq.kids.push_back(decl(k, false)); ct.kids.push_back(seq);
        for (size_t i = 0; i < t.at.size(); ++i) { Node a = el(pre + "attribute", { { "name", t.at[i].first }, { "type", pre + t.att[i] } }); if (t.at[i].second) { Attr u; u.name = "use"; u.value.push_back(mk_text("required")); a.attrs.push_back(u); } ct.kids.push_back(a); }
        e.kids.push_back(ct); return e;
    }
    Str val(const Str &t, bool bad)
    {
        if (bad) { static const std::vector<Str> b = { "", "not a number", "-5", "0", "2", "yes", "2026-13-01", "a b", "red", "ab", "1.5.2", "ab1x" }; return g.of(b); }
        if (t == "string") { static const std::vector<Str> v = { "text", "", "a  b", "å", "<b>", "it's" }; return g.of(v); } if (t == "integer") { static const std::vector<Str> v = { "0", "-12", "99999", " 5 " }; return g.of(v); }
        if (t == "positiveInteger") return "7"; if (t == "boolean") return g.coin() ? "true" : "0"; if (t == "date") return "2026-11-19"; if (t == "decimal") return "-1.50"; if (t == "NCName") return "n-1"; if (t == "ENUM") return g.coin() ? "red" : "blue green"; if (t == "PAT") return "ab12"; return "tok en";
    }
    Node inst(const T &t, int &bad)
    {
        auto hit = [&]() { if (bad > 0 && g.below(12) == 11) { bad--; return true; } return false; };
        Node e = el(hit() ? t.name + "x" : t.name);
        if (t.kind == 0) { Str v = val(t.type, hit()); if (!v.empty()) e.kids.push_back(mk_text(v)); return e; }
        for (size_t i = 0; i < t.at.size(); ++i) if ((t.at[i].second || g.coin()) != hit()) { Attr a; a.name = t.at[i].first; a.value.push_back(mk_text(val(t.att[i], hit()))); e.attrs.push_back(a); }
        if (hit()) { Attr a; a.name = "extra"; a.value.push_back(mk_text("1")); e.attrs.push_back(a); }
        auto many = [&](const T &k) { int mn = k.min, mx = k.max < 0 ? k.min + 3 : k.max; int q = mn + (int)g.below((uint32_t)(mx-mn+1)); if (hit()) q += g.coin() ? 1 : -1; for (int i = 0; i < q; ++i) { if (t.mixed && g.below(3) == 0) e.kids.push_back(mk_text("mix")); e.kids.push_back(inst(k, bad)); } };
        if (t.kind == 2) many(t.kids[g.below((uint32_t)t.kids.size())]); else for (auto &k : t.kids) many(k);
        if (e.kids.size() > 1 && hit()) std::swap(e.kids[0], e.kids[1]);
        if (hit()) { if (e.kids.empty() || e.kids.back().kind != TEXT) e.kids.push_back(mk_text("stray")); }
        return e;
    }
};
PART(C27, validate, 2500, 40000, "Generated schemas and documents following them or damaged in one to three places, each written as XML or XMQ: validate succeeds exactly when libxml2 finds the XML valid, then passes the document on unchanged. Non-trivial: three elements or invalid")
{
    XsdGen xg{ g, 0, g.coin() ? "xs:" : "xsd:" }; XsdGen::T t = xg.gen(0); int bad = g.coin() ? 0 : 1 + (int)g.below(3); int left = bad; Node in = xg.inst(t, left); Node s = el(xg.pre + "schema"); { Attr a; a.name = "xmlns:" + xg.pre.substr(0, xg.pre.size()-1); a.value.push_back(mk_text("http://www.w3.org/2001/XMLSchema")); s.attrs.push_back(a); }
    if (g.below(3) == 0) { Node cm; cm.kind = COMMENT; cm.text = "schema"; s.kids.push_back(cm); }
    s.kids.push_back(xg.decl(t, true));
    std::vector<Node> dm = { in }, sm = { s }; Str dx = to_xml_text(g, dm), sx = to_xml_text(g, sm), dt = dx, st = sx; bool doc_xml = g.coin(), xsd_xml = g.coin();
    if (!doc_xml) { spellable(dm); Writer w(g); w.put_nodes(dm, true); dt = w.out; } if (!xsd_xml) { spellable(sm); Writer w(g); w.put_nodes(sm, true); st = w.out; }
    xmlDoc *sd = quiet_read(sx), *xd = quiet_read(dx); REQUIRE("harness", sd && xd, "generated XML is broken"); xmlSetGenericErrorFunc(nullptr, nothing);
    xmlSchemaParserCtxt *pc = xmlSchemaNewDocParserCtxt(sd); xmlSchemaSetParserErrors(pc, (xmlSchemaValidityErrorFunc)nothing, (xmlSchemaValidityWarningFunc)nothing, nullptr); xmlSchema *schema = xmlSchemaParse(pc); xmlSchemaFreeParserCtxt(pc);
    int ok = -1; if (schema) { xmlSchemaValidCtxt *vc = xmlSchemaNewValidCtxt(schema); xmlSchemaSetValidErrors(vc, (xmlSchemaValidityErrorFunc)nothing, (xmlSchemaValidityWarningFunc)nothing, nullptr); ok = xmlSchemaValidateDoc(vc, xd) == 0; xmlSchemaFreeValidCtxt(vc); xmlSchemaFree(schema); }
    xmlFreeDoc(xd); xmlFreeDoc(sd);
    std::vector<Str> a = { "--trim=none", doc_xml ? "--xml" : "--xmq", doc_xml ? "d.xml" : "d.xmq" }, plain = a; bool silent = g.coin(); a.push_back("validate"); if (silent) a.push_back("--silent"); a.push_back(xsd_xml ? "s.xsd" : "s.xsdq"); a.push_back("to-xml"); plain.push_back("to-xml");
    c.show(a[2] + ": " + vis(dt) + "\nschema: " + vis(st, 4000) + "\nxmq " + join(a)); c.label(ok < 0 ? "broken schema" : ok ? "valid" : "invalid"); c.label(doc_xml ? "document as xml" : "document as xmq"); c.label(xsd_xml ? "schema as xml" : "schema as xmq"); c.nontrivially(ok == 0 || count_nodes({ in }) > 5, dt + st);
    write_file(c.scratch + "/" + a[2], dt); write_file(c.scratch + "/" + (xsd_xml ? "s.xsd" : "s.xsdq"), st);
    RunResult r = xmq_run(c, a), p = xmq_run(c, plain);
    REQUIRE("verdict", (r.code == 0) == (ok == 1), "the tool says %s, libxml2 says %s: %s%s", r.code ? "invalid" : "valid", ok < 0 ? "the schema is broken" : ok ? "valid" : "invalid", r.out.c_str(), r.err.c_str());
    if (ok == 1) REQUIRE("passed on", r.out == p.out, "validation changed the document: %s", diff(p.out, r.out).c_str());
    if (silent && ok == 0) REQUIRE("silent", r.out.empty() && r.err.empty(), "--silent but wrote %s%s", r.out.c_str(), r.err.c_str());
}
