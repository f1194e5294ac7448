// C24, C25, C26: IXML grammars against a reference recogniser.
#include "ixml.h"
using namespace ix;

struct Run { bool grammar_ok = false, ok = false, ambiguous = false; Str tree, err; };
static Run run_ixml(const Str &grammar, const Str &input, int flags = 0)
{
    libxml_quiet();
    Run r; XDoc gd, d;
    r.grammar_ok = gd.parse(grammar, XMQ_CONTENT_IXML);
    if (!r.grammar_ok) { r.err = gd.err(); return r; }
    r.ok = xmqParseBufferWithIXML(d.doq, input.c_str(), input.c_str()+input.size(), gd.doq, flags);
    if (r.ok) r.tree = d.xml() ? canon(d.xml()->children) : "";
    else r.err = d.err();
    return r;
}
static const std::vector<std::vector<int>> alphabets = {
    {'a','b'}, {'a'}, {'a','b','c'}, {'a','b','\''}, {'a','"','-'}, {'1','a','Z'}, {0xe5,'a',0x1f600}, {'a',' ','\n'}, {'a','b','.'}, {'[',']','#'}, {0x20ac,0x10ffff,'~'}, {'a','\t','\\'}, {'a','b','c','d','e','f'}
};
static std::vector<int> gen_input(Gen &g, Core &core, const std::vector<int> &alphabet, Ctx &c, bool derivable = false)
{
    std::vector<int> in;
    if (derivable || g.chance(3,4))
    {
        for (int t = 0; ; ++t)
        {
            in.clear(); int fuel = 60;
            if (core.sample(g, core.rule_node[0], in, fuel, alphabet)) break;
            if (t == 8) { in.clear(); break; }
        }
        if (!derivable && g.chance(1,3))
        {
            size_t p = g.below(in.size()+1);
            switch (g.below(3))
            {
            case 0: in.insert(in.begin()+p, g.of(alphabet)); break;
            case 1: if (p < in.size()) in.erase(in.begin()+p); break;
            default: if (p < in.size()) in[p] = g.of(alphabet); break;
            }
        }
        c.label("input from the grammar");
    }
    else { size_t n = g.below(8); for (size_t i = 0; i < n; ++i) in.push_back(g.of(alphabet)); }
    if (in.size() > 14) in.resize(14);
    return in;
}
static void shape(Ctx &c, const Grammar &G, const Alts &a)
{
    for (auto &alt : a)
    {
        c.label_if(alt.empty(), "empty alternative");
        for (auto &t : alt)
        {
            static const char *rn[] = { "", "option", "star", "plus", "star with separator", "plus with separator" };
            static const char *fn[] = { "literal", "character set", "reference", "group", "insertion" };
            if (t.rep) c.label(rn[t.rep]);
            c.label(fn[t.f.k]);
            c.label_if(t.f.k == LIT && t.f.cps.size() > 1, "string");
            if (t.f.k == GROUP) shape(c, G, t.f.alts);
        }
    }
}
PART(C24, language, 20000, 400000, "grammars of up to 4 rules over 1-6 characters, randomly spelled, every construct; inputs of up to 14 characters derived from the grammar, derived and changed, or random; acceptance compared with a fixed point recogniser. Non-trivial: more than one rule, group or repetition, and a non-empty input")
{
    GOpts o; o.alphabet = g.of(alphabets);
    Grammar G = gen_grammar(g, o);
    for (int t = 0; t < 4 && g.chance(9,10) && Core(G).loops(); ++t) G = gen_grammar(g, o);
    Str src = spell(g, G);
    c.show("grammar:\n" + src);
    Core core(G);
    shape(c, G, G.rules[0].alts);
    bool loops = core.loops(); c.label_if(loops, "something derives just itself");
    c.label_if(!core.productive(), "derives nothing");
    size_t n = 1 + g.below(3);
    for (size_t i = 0; i < n; ++i)
    {
        auto in = gen_input(g, core, o.alphabet, c);
        Str text = to_text(in);
        c.show("input: " + vis(text));
        core.load(in);
        bool want = core.accepts();
        c.label(want ? "derivable" : "not derivable");
        c.nontrivially(src.size() > 20 && !in.empty() && !loops, src + text);
        // The number of parse trees can be exponential, do not ask for all of very many.
        double nd = loops || !want ? 0 : core.derivations();
        c.label_if(nd > 1, "ambiguous"); c.label_if(nd > 300, "very ambiguous");
        int flags = nd <= 300 && g.chance(1,4) ? XMQ_FLAG_IXML_ALL_PARSES : 0;
        if (flags) c.show("all parses");
        Run r = run_ixml(src, text, flags);
        REQUIRE("grammar", r.grammar_ok, "the grammar is rejected: %s", r.err.c_str());
        if (loops) REQUIRE("loop", !r.ok && !r.err.empty(), "something in the grammar derives just itself, this is %s", r.ok ? "accepted" : "rejected without a message");
        else if (want) REQUIRE("accept", r.ok, "the grammar derives %s but it is not accepted: %s", vis(text).c_str(), r.err.c_str());
        else REQUIRE("reject", !r.ok && !r.err.empty(), "the grammar does not derive %s but it is accepted as %s", vis(text).c_str(), show(r.tree).c_str());
    }
}
PART(C25, tree, 20000, 500000, "grammars with marks, aliases and insertions; the canonical tree must be among the serialisations of all derivations of the input (enumerated, at most 60 per span). Non-trivial: the tree has attributes, hidden parts, or nested elements")
{
    GOpts o; o.alphabet = g.of(alphabets); o.empty = g.chance(1,3);
    Grammar G = gen_grammar(g, o);
    for (int t = 0; t < 8 && Core(G).loops(); ++t) G = gen_grammar(g, o);
    Core core(G);
    auto in = gen_input(g, core, o.alphabet, c, true);
    core.load(in);
    if (!core.accepts() || core.loops()) throw Discard();
    bool dup; auto want = core.trees(dup);
    if (core.cyclic || core.capped || dup) { c.label(core.cyclic ? "infinitely ambiguous" : dup ? "attribute twice" : "too many derivations"); throw Discard(); }
    Str src = spell(g, G), text = to_text(in);
    c.show("grammar:\n" + src); c.show("input: " + vis(text));
    for (auto &w : want) c.show("tree: " + show(w));
    c.label(want.size() == 1 ? "one tree" : "several trees");
    const Str &w0 = *want.begin();
    c.label_if(w0.find('\2') != Str::npos, "attributes");
    c.label_if(w0.find('\1', 1) != Str::npos, "nested elements");
    c.nontrivially(w0.find('\2') != Str::npos || w0.find('\1', 1) != Str::npos || w0.find(text) == Str::npos, src + text);
    Run r = run_ixml(src, text);
    REQUIRE("grammar", r.grammar_ok, "the grammar is rejected: %s", r.err.c_str());
    REQUIRE("accept", r.ok, "not accepted: %s", r.err.c_str());
    REQUIRE("tree", want.count(r.tree), "the tree is\n%s\nbut the derivations give\n%s", show(r.tree).c_str(), show(w0).c_str());
}
// The trees a document with all parses stands for.
static std::set<Str> expand(xmlNode *first, bool &much);
static std::set<Str> expand_one(xmlNode *n, bool &much)
{
    if (n->type != XML_ELEMENT_NODE) return { n->type == XML_TEXT_NODE ? Str((const char*)n->content) : strf("?%d", n->type) };
    std::set<Str> r;
    if (!xmlStrcmp(n->name, BAD_CAST "AMBIGUOUS"))
    {
        for (xmlNode *k = n->children; k; k = k->next) { auto s = expand_one(k, much); r.insert(s.begin(), s.end()); }
        return r;
    }
    for (auto &s : expand(n->children, much)) r.insert("\1" + Str((const char*)n->name) + "\4" + s + "\5");
    return r;
}
static std::set<Str> expand(xmlNode *first, bool &much)
{
    std::set<Str> r = {""};
    for (xmlNode *n = first; n; n = n->next)
    {
        std::set<Str> k = expand_one(n, much), q;
        if (r.size()*k.size() > 3000) { much = true; return r; }
        for (auto &a : r) for (auto &b : k) q.insert(a+b);
        r = q;
    }
    return r;
}
PART(C25, alltrees, 8000, 200000, "ambiguous grammars of plain rules (no marks, groups or repetitions), parsed with all parses: the AMBIGUOUS elements are expanded and the set of trees must be exactly the set of serialisations of all derivations (at most 60 per span, 300 derivations); without the flag the tree must be one of them. Non-trivial: at least two trees")
{
    GOpts o; o.alphabet = g.of(std::vector<std::vector<int>>{{'a'},{'a','b'}}); o.empty = g.chance(1,3); o.groups = o.reps = o.marks = false;
    Grammar G; std::vector<int> in;
    for (int t = 0; t < 6; ++t)
    {
        G = gen_grammar(g, o);
        for (int u = 0; u < 8 && Core(G).loops(); ++u) G = gen_grammar(g, o);
        Core k(G); if (k.loops()) continue;
        in = gen_input(g, k, o.alphabet, c, true);
        k.load(in);
        if (k.accepts() && k.derivations() > 1) break;
    }
    Core core(G);
    core.load(in);
    if (!core.accepts() || core.loops()) throw Discard();
    bool dup; auto want = core.trees(dup);
    if (core.cyclic || core.capped || dup || core.derivations() > 300) { c.label("too many derivations"); throw Discard(); }
    Str src = spell(g, G), text = to_text(in);
    c.show("grammar:\n" + src); c.show("input: " + vis(text));
    for (auto &w : want) c.show("tree: " + show(w));
    c.label(want.size() == 1 ? "one tree" : want.size() == 2 ? "two trees" : "many trees");
    c.nontrivially(want.size() > 1, src + text);
    libxml_quiet();
    XDoc gd; REQUIRE("grammar", gd.parse(src, XMQ_CONTENT_IXML), "the grammar is rejected: %s", gd.err().c_str());
    XDoc d; bool ok = xmqParseBufferWithIXML(d.doq, text.c_str(), text.c_str()+text.size(), gd.doq, XMQ_FLAG_IXML_ALL_PARSES);
    REQUIRE("accept", ok, "not accepted: %s", d.err().c_str());
    bool much = false; auto have = expand(d.xml()->children, much);
    if (much) throw Discard();
    for (auto &h : have) REQUIRE("wrong tree", want.count(h), "%s is among all the parses but is not a tree of any derivation; document: %s", show(h).c_str(), show(canon(d.xml()->children)).c_str());
    for (auto &w : want) REQUIRE("missing tree", have.count(w), "%s is not among all the parses: %s", show(w).c_str(), show(canon(d.xml()->children)).c_str());
    Run r = run_ixml(src, text);
    REQUIRE("one tree", r.ok && want.count(r.tree), "without all parses the tree is %s", show(r.tree).c_str());
}
static Str error_body(const Str &e, const std::vector<Str> &names) // Without the name of the source.
{
    Str o; size_t p = 0;
    while (p < e.size()) { size_t q = e.find('\n', p); Str l = e.substr(p, q == Str::npos ? q : q-p+1); for (auto &n : names) if (l.compare(0, n.size()+1, n + ":") == 0) { l = l.substr(n.size()); break; } o += l; p = q == Str::npos ? q : q+1; }
    while (!o.empty() && o.back() == '\n') o.pop_back();
    return o;
}
PART(C25, tool, 2000, 40000, "a grammar file, sometimes damaged, and an input given to the command line tool as a file, on standard input or as an argument, with all parses or recovery, options in any order; the output is what the library prints, rejection gives a message and a failing status. Non-trivial: an input of two characters or more")
{
    GOpts o; o.alphabet = g.of(alphabets);
    Grammar G = gen_grammar(g, o);
    for (int t = 0; t < 8 && Core(G).loops(); ++t) G = gen_grammar(g, o);
    Core core(G); if (core.loops()) throw Discard();
    Str src = spell(g, G);
    if (g.chance(1,8)) { static const std::vector<Str> bits = { "]", "(", "'", "~", ";", "#", "=", "\x01" }; src.insert(g.below((uint32_t)src.size()), g.of(bits)); c.label("damaged grammar"); }
    auto in = gen_input(g, core, o.alphabet, c); Str text = to_text(in);
    core.load(in);
    int flags = core.accepts() && core.derivations() <= 300 && g.chance(1,3) ? XMQ_FLAG_IXML_ALL_PARSES : 0;
    if (g.chance(1,6)) flags |= XMQ_FLAG_IXML_TRY_TO_RECOVER;
    int where = g.below(3); if (where == 2 && (text.empty() || text[0] == '-')) where = 0;
    std::vector<std::vector<Str>> outs = { { "to-xml" }, { "to-xmq" }, { "to-xmq", "--compact" }, { "to-json" } };
    static const XMQContentType cts[] = { XMQ_CONTENT_XML, XMQ_CONTENT_XMQ, XMQ_CONTENT_XMQ, XMQ_CONTENT_JSON };
    size_t k = g.below(4);
    std::vector<Str> args = { "--ixml=gram.ixml" };
    if (flags & XMQ_FLAG_IXML_ALL_PARSES) args.insert(args.begin() + g.below(2), "--ixml-all-parses");
    if (flags & XMQ_FLAG_IXML_TRY_TO_RECOVER) args.insert(args.begin() + g.below((uint32_t)args.size()+1), "--ixml-try-to-recover");
    if (where == 2) args.push_back("-i"); args.push_back(where == 0 ? Str("in.txt") : where == 1 ? Str("-") : text);
    args.insert(args.end(), outs[k].begin(), outs[k].end());
    write_file(c.scratch + "/gram.ixml", src); write_file(c.scratch + "/in.txt", text);
    Str all; for (auto &a : args) all += " '" + vis(a) + "'";
    c.show("gram.ixml:\n" + src); c.show("input: " + vis(text) + "\nxmq" + all); c.label(where == 0 ? "file" : where == 1 ? "standard input" : "argument");
    libxml_quiet();
    XDoc gd, d; Str err; bool ok = gd.parse(src, XMQ_CONTENT_IXML);
    if (!ok) err = gd.err();
    else { ok = xmqParseBufferWithIXML(d.doq, text.c_str(), text.c_str()+text.size(), gd.doq, flags); if (!ok) err = d.err(); }
    c.nontrivially(in.size() >= 2, src + text + all); c.label(ok ? "accepted" : "rejected");
    std::vector<Str> av = { cli_path() }; av.insert(av.end(), args.begin(), args.end());
    RunResult r = run_program(av, where == 1 ? text : Str(), c.scratch, {});
    REQUIRE("hang", !r.timeout, "did not end");
    REQUIRE("crash", !r.sig && r.code != 99, "crashed (signal %d): %s", r.sig, r.err.substr(0, 1500).c_str());
    REQUIRE("status", ok == (r.code == 0), "the library %s, the exit status is %d: %s %s", ok ? "accepts" : "rejects", r.code, err.c_str(), r.err.c_str());
    if (!ok)
    {
        REQUIRE("message", !r.err.empty(), "rejected without a message");
        REQUIRE("output", r.out.empty(), "rejected but wrote %s", vis(r.out).c_str());
        std::vector<Str> names = { "gram.ixml", "in.txt", "-", "xmq", "(null)", "stdin" };
        Str a = error_body(r.err, names), b = error_body(err, names);
        REQUIRE("error", a == b, "the tool says\n%s\nthe library says\n%s", a.c_str(), b.c_str());
        return;
    }
    PrintOpts po; po.ct = cts[k]; po.compact = k == 2; Str want = print(d.doq, po);
    REQUIRE("tree", r.out == want, "the tool prints something else than the library: %s", diff(want, r.out).c_str());
}
PART(C25, reuse, 2500, 50000, "one grammar document used for 2-6 inputs, accepted and rejected ones mixed, with and without all parses; every result is the same as with a fresh grammar document. Non-trivial: both accepted and rejected inputs")
{
    GOpts o; o.alphabet = g.of(alphabets);
    Grammar G = gen_grammar(g, o);
    for (int t = 0; t < 8 && Core(G).loops(); ++t) G = gen_grammar(g, o);
    Core core(G); if (core.loops()) throw Discard();
    Str src = spell(g, G);
    c.show("grammar:\n" + src);
    libxml_quiet();
    XDoc gd; REQUIRE("grammar", gd.parse(src, XMQ_CONTENT_IXML), "the grammar is rejected: %s", gd.err().c_str());
    size_t n = 2 + g.below(5); int good = 0, bad = 0; Str all;
    for (size_t i = 0; i < n; ++i)
    {
        auto in = gen_input(g, core, o.alphabet, c);
        Str text = to_text(in); all += text + "/";
        core.load(in);
        int flags = core.accepts() && core.derivations() <= 300 && g.chance(1,4) ? XMQ_FLAG_IXML_ALL_PARSES : 0;
        c.show(strf("input: %s%s", vis(text).c_str(), flags ? " (all parses)" : ""));
        Run fresh = run_ixml(src, text, flags);
        XDoc d; bool ok = xmqParseBufferWithIXML(d.doq, text.c_str(), text.c_str()+text.size(), gd.doq, flags);
        (fresh.ok ? good : bad)++;
        REQUIRE("accept", ok == fresh.ok, "use %zu of the grammar %s the input, a fresh grammar %s it", i+1, ok ? "accepts" : "rejects", fresh.ok ? "accepts" : "rejects");
        if (ok) { Str t = canon(d.xml()->children); REQUIRE("tree", t == fresh.tree, "use %zu of the grammar gives\n%s\na fresh grammar gives\n%s", i+1, show(t).c_str(), show(fresh.tree).c_str()); }
        else REQUIRE("error", d.err() == fresh.err, "use %zu of the grammar: %s\na fresh grammar: %s", i+1, d.err().c_str(), fresh.err.c_str());
    }
    c.nontrivially(good && bad, src + all);
}
// ---- C26
static int any_char(Gen &g)
{
    for (;;)
    {
        int c;
        switch (g.pick({4,3,3,3,2}))
        {
        case 0: c = 32 + g.below(95); break;
        case 1: c = 0xa0 + g.below(0x760); break;
        case 2: c = g.below(0x10000); break;
        case 3: { size_t n = sizeof(uc_ranges)/sizeof(uc_ranges[0]); auto &r = uc_ranges[g.below(n)]; c = g.coin() ? r.from : g.coin() ? r.to : r.from + g.below(r.to-r.from+1); break; }
        default: c = g.below(0x110000); break;
        }
        bool xml = c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0xd7ff) || (c >= 0xe000 && c <= 0xfffd) || c >= 0x10000;
        if (xml) return c;
        if (g.overflow) return 'a';
    }
}
static const std::vector<Str> cats = { "Lu","Ll","Lt","LC","Lm","Lo","L","Mn","Mc","Me","M","Nd","Nl","No","N","Pc","Pd","Ps","Pe","Pi","Pf","Po","P","Sm","Sc","Sk","So","S","Zs","Zl","Zp","Z","Cc","Cf","Cs","Co","Cn","C" };
PART(C26, classes, 8000, 150000, "a character set of up to 5 parts (strings, ranges, hex characters, all 38 categories) or its complement, or ~[] and []; up to 40 characters around the ends of its parts and over all of Unicode; `S: C*. C: set.` must accept the characters that belong and reject each one that does not. Non-trivial: characters both inside and outside")
{
    Set s; s.exclude = g.chance(1,3); size_t n = g.pick({1,8,4,2,1,1});
    for (size_t i = 0; i < n; ++i)
    {
        CharPart p;
        switch (g.pick({3,2,5}))
        {
        case 0: p.from = p.to = any_char(g); break;
        case 1: p.from = any_char(g); p.to = g.coin() ? p.from + (int)g.below(300) : any_char(g); if (p.to > 0x10ffff) p.to = 0x10ffff; if (p.to < p.from) std::swap(p.from, p.to); if (p.to >= 0xd800 && p.to <= 0xdfff) p.to = p.from; break;
        default: p.cat = g.of(cats); c.label("category " + p.cat); break;
        }
        s.parts.push_back(p);
    }
    Str set = spell_set(g, s), mark = g.chance(1,4) ? "^" : "";
    Str src = "S: C*. C: " + mark + set + ".";
    c.show("grammar: " + vis(src));
    bool has_cat = false; for (auto &p : s.parts) has_cat |= !p.cat.empty();
    std::vector<int> in, out; size_t m = 1 + g.below(40);
    for (size_t i = 0; i < m; ++i)
    {
        int ch = any_char(g);
        if (!s.parts.empty() && g.coin())
        {
            auto &p = g.of(s.parts);
            if (p.cat.empty()) ch = (g.coin() ? p.from : p.to) + (int)g.below(3) - 1;
            else
            {
                // A character of that category.
                size_t N = sizeof(uc_ranges)/sizeof(uc_ranges[0]), k = g.below(N);
                for (size_t t = 0; t < N; ++t, k = (k+1) % N) if (cat_matches(p.cat, uc_ranges[k].cat)) { ch = uc_ranges[k].from + g.below(uc_ranges[k].to-uc_ranges[k].from+1); break; }
            }
        }
        bool xml = ch == 9 || ch == 10 || ch == 13 || (ch >= 0x20 && ch <= 0xd7ff) || (ch >= 0xe000 && ch <= 0xfffd) || (ch >= 0x10000 && ch <= 0x10ffff);
        if (!xml) continue;
        if (has_cat && !category(ch)) continue;
        (s.has(ch) ? in : out).push_back(ch);
    }
    c.show("inside: " + vis(to_text(in)) + "\noutside: " + vis(to_text(out)));
    c.label_if(s.exclude, "complement"); c.label_if(has_cat, "with category");
    c.nontrivially(!in.empty() && !out.empty(), src + to_text(in) + "/" + to_text(out));
    Run r = run_ixml(src, to_text(in));
    REQUIRE("grammar", r.grammar_ok, "the grammar is rejected: %s", r.err.c_str());
    if (!r.ok)
        for (int ch : in) { Run one = run_ixml(src, utf8(ch)); REQUIRE("inside", one.ok, "U+%04X (%s) belongs to %s but is not matched", ch, category(ch) ? category(ch) : "?", vis(set).c_str()); }
    REQUIRE("inside", r.ok, "characters that all belong to %s are not accepted together", vis(set).c_str());
    Str want = "\1S\4"; for (int ch : in) want += "\1C\4" + utf8(ch) + "\5"; want += "\5";
    REQUIRE("tree", r.tree == want, "the tree is %s instead of %s", vis(show(r.tree)).c_str(), vis(show(want)).c_str());
    size_t tries = 0;
    for (int ch : out)
    {
        if (++tries > 12) break;
        // Alone, or among characters that belong.
        std::vector<int> v; if (!in.empty() && g.coin()) v.push_back(g.of(in)); v.push_back(ch); if (!in.empty() && g.coin()) v.push_back(g.of(in));
        Run one = run_ixml(src, to_text(v));
        REQUIRE("outside", !one.ok, "U+%04X (%s) does not belong to %s but is matched", ch, category(ch) ? category(ch) : "?", vis(set).c_str());
    }
}
