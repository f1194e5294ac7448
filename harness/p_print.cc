// C31, C32: printing as a pure function of document and settings, and the options of the command line tool.
#include "json.h"
#include "writer.h"
#include "ixml.h"
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>

static Str any_source_raw(Gen &g, int fmt);
// U+FFFE and U+FFFF are not XML characters, libxml2 writes them differently as HTML the second time.
static Str any_source(Gen &g, int fmt)
{
    Str s = any_source_raw(g, fmt);
    for (const char *bad : { "\xef\xbf\xbe", "\xef\xbf\xbf" }) for (size_t p; (p = s.find(bad)) != Str::npos;) s.replace(p, 3, "y");
    return s;
}
static Str any_source_raw(Gen &g, int fmt)
{
    if (fmt == 0) { DocOpts d; d.xml = false; std::vector<Node> m = gen_doc(g, d); spellable(m); Writer w(g); w.put_nodes(m, true); return w.out; }
    if (fmt == 1) { std::vector<Node> m = gen_doc(g, DocOpts()); Str s = to_xml_text(g, m); if (g.below(6) == 0) { size_t p = s.compare(0, 5, "<?xml") ? 0 : s.find("?>")+2; s = Str("<?xml version=\"1.0\" standalone=\"") + (g.coin() ? "yes" : "no") + "\"?>" + s.substr(p); } else if (s.compare(0, 5, "<?xml")) s = "<?xml version=\"1.0\"?>" + s; return s; }
    // JSON as the library itself writes it, with the members for comments, processing instructions, entities and attributes.
    if (fmt == 2 && g.below(3) == 0) { Str x = any_source(g, 0); XDoc d; if (d.parse(x, XMQ_CONTENT_XMQ, 0)) { PrintOpts o; o.ct = XMQ_CONTENT_JSON; Str r = print(d.doq, o); if (!r.empty()) return r; } }
    if (fmt == 2) { int b = 12; J j = gen_j(g, 0, b); return jws(g) + to_json(g, j, g.coin()) + jws(g); }
    if (fmt == 3)
    {
        static const std::vector<Str> tags = { "p", "b", "div", "span", "h1", "pre" }; Str s = "<!DOCTYPE html>\n<html><head><title>t</title>";
        if (g.coin()) s += "<style>a > b { c: \"d\" }</style>"; if (g.coin()) s += "<script>if (a < b && c) { d(\"--\"); }</script>";
        s += "</head><body>"; size_t n = 1 + g.size(6);
        for (size_t i = 0; i < n; ++i) { Str t = g.of(tags); s += "<" + t + " id='i" + std::to_string(i) + "'>text &amp; å\n more"; if (g.below(4) == 0) s += "<br>"; if (g.below(4) == 0) s += "<!-- c -- d -->"; s += "</" + t + ">"; }
        return s + "</body></html>";
    }
    TextOpts t; t.max = 200; t.cr = false; return gen_text(g, t);
}
static const XMQContentType CTS[] = { XMQ_CONTENT_XMQ, XMQ_CONTENT_XML, XMQ_CONTENT_JSON, XMQ_CONTENT_HTML, XMQ_CONTENT_TEXT };
static const char *OPT[] = { "--xmq", "--xml", "--json", "--html", "--text" }, *EXT[] = { "xmq", "xml", "json", "html", "txt" };

static void layout(Gen &g, PrintOpts &o)
{
    o.compact = g.below(3) == 0; o.indent = g.coin() ? 4 : (int)g.below(9);
    o.esc_nl = g.below(4) == 0; o.esc_non7 = g.below(4) == 0; o.esc_tab = g.below(4) == 0; o.omit_decl = g.below(3) == 0;
}
static void apply(XMQOutputSettings *os, const PrintOpts &o)
{
    xmqSetOutputFormat(os, o.ct); xmqSetCompact(os, o.compact); xmqSetEscapeNewlines(os, o.esc_nl); xmqSetEscapeNon7bit(os, o.esc_non7); xmqSetEscapeTabs(os, o.esc_tab);
    xmqSetAddIndent(os, o.compact ? 0 : o.indent); xmqSetOmitDecl(os, o.omit_decl);
}
static bool collect(void *state, const char *start, const char *stop)
{
    if (!start) return true;
    if (stop) ((Str*)state)->append(start, stop-start); else ((Str*)state)->append(start);
    return true;
}
static const DumpOpts &exactly() { static DumpOpts d; d.decode_char_ents = false; d.merge = false; d.drop_empty = false; return d; }

PART(C31, history, 12000, 300000, "Two documents of any format; a history of up to eight prints of either in all formats, layouts and renderings, with fresh or reused settings, to memory, through writer callbacks and to standard output, with queries in between; every print gives what the same print of a newly read copy gives, and the documents stay as they were. Non-trivial: at least two prints, one of them as XML, HTML or JSON before another")
{
    struct Doc { Str s; int fmt; int flags; const char *root; XDoc x; Str before; } docs[2];
    size_t nd = g.below(3) == 2 ? 2 : 1;
    for (size_t i = 0; i < nd; ++i)
    {
        Doc &d = docs[i]; d.fmt = g.pick({ 4, 4, 3, 3, 1 }); d.s = any_source(g, d.fmt); d.flags = g.below(3) ? XMQ_FLAG_TRIM_NONE : 0; if (g.below(4) == 0) d.flags |= XMQ_FLAG_NOMERGE; d.root = g.below(6) ? nullptr : "root";
        if (!d.x.parse(d.s, CTS[d.fmt], d.flags, d.root) || !d.x.xml()) throw Discard();
        d.before = dump(d.x.model(), exactly()); c.show(strf("document %zu (%s, flags %d%s): ", i, EXT[d.fmt], d.flags, d.root ? ", root" : "") + vis(d.s)); c.label(EXT[d.fmt]);
    }
    XMQOutputSettings *reused = xmqNewOutputSettings(); bool used = false; PrintOpts ro; Str *bufp[1]; (void)bufp;
    struct Free { XMQOutputSettings *p; ~Free() { xmqFreeOutputSettings(p); } } fr{ reused };
    static const XMQContentType outs[] = { XMQ_CONTENT_XMQ, XMQ_CONTENT_XML, XMQ_CONTENT_JSON, XMQ_CONTENT_HTML, XMQ_CONTENT_HTMQ, XMQ_CONTENT_TEXT, XMQ_CONTENT_CLINES };
    size_t n = 1 + g.size(8); bool mutator = false, nt = false; Str key;
    for (size_t i = 0; i < n; ++i)
    {
        Doc &d = docs[g.below((uint32_t)nd)];
        PrintOpts o; o.ct = outs[g.below(7)]; layout(g, o);
        int how = g.pick({ 4, 3, 3, 1 }); // fresh settings, reused settings, writer, stdout
        if (how != 1 && g.below(3) == 0) { static const XMQRenderFormat fs[] = { XMQ_RENDER_TERMINAL, XMQ_RENDER_HTML, XMQ_RENDER_TEX }; o.render = fs[g.below(3)]; o.color = g.coin(); o.dark = g.coin(); o.raw = g.coin(); }
        if (how > 1) o.omit_decl = false; // Only skipped when printing to memory.
        c.show(strf("print %zu %s", (size_t)(&d-docs), show_opts(o).c_str()) + (o.omit_decl ? " omit-decl" : "") + (how == 1 ? " reused settings" : how == 2 ? " writer" : how == 3 ? " stdout" : ""));
        Str got; key += show_opts(o) + std::to_string(how);
        if (how == 0) got = print(d.x.doq, o);
        else if (how == 1)
        {
            if (!used) { xmqSetupDefaultColors(reused); used = true; }
            apply(reused, o); char *start = nullptr, *stop = nullptr; size_t skip = 0;
            xmqSetupPrintMemory(reused, &start, &stop); xmqSetupPrintSkip(reused, &skip); xmqPrint(d.x.doq, reused);
            if (start && stop) got.assign(start+skip, stop-(start+skip)); free(start);
        }
        else
        {
            XMQOutputSettings *os = xmqNewOutputSettings(); apply(os, o); xmqSetRenderFormat(os, o.render); xmqSetUseColor(os, o.color); xmqSetBackgroundMode(os, o.dark); xmqSetRenderRaw(os, o.raw); xmqSetupDefaultColors(os);
            Free f2{ os };
            if (how == 2) { XMQWriter w; w.writer_state = &got; w.write = collect; xmqSetWriterContent(os, w); xmqSetWriterError(os, w); xmqPrint(d.x.doq, os); c.label("writer"); }
            else
            {
                xmqSetupPrintStdOutStdErr(os); Str path = c.scratch + "/stdout"; fflush(stdout); int save = dup(1), fd = open(path.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600); dup2(fd, 1);
                xmqPrint(d.x.doq, os); fflush(stdout); dup2(save, 1); close(save); close(fd); read_file(path, got); c.label("standard output");
            }
        }
        XDoc f; REQUIRE("read", f.parse(d.s, CTS[d.fmt], d.flags, d.root), "cannot be read a second time: %s", f.err().c_str());
        Str want = print(f.doq, o);
        REQUIRE("print", got == want, "print %zu gives something else than for a newly read copy: %s", i, diff(want, got).c_str());
        if (mutator) nt = true;
        if (o.ct == XMQ_CONTENT_XML || o.ct == XMQ_CONTENT_JSON || o.ct == XMQ_CONTENT_HTML) mutator = true;
        if (g.below(4) == 0) { const char *t = xmqGetString(d.x.doq, "//*"); (void)t; xmqForeach(d.x.doq, "//*", [](XMQDoc*, XMQNode*, void*) -> XMQProceed { return XMQ_CONTINUE; }, nullptr); }
        Str now = dump(d.x.model(), exactly());
        REQUIRE("document", now == d.before, "print %zu changed the document: %s", i, diff(d.before, now).c_str());
    }
    c.nontrivially(nt, docs[0].s + key);
}

// ---------------------------------------------------------------------------------------------------------------
// C32
static RunResult xmq_run(Ctx &c, const std::vector<Str> &args, const Str &in, const std::vector<Str> &env)
{
    std::vector<Str> av = { cli_path() }; av.insert(av.end(), args.begin(), args.end());
    Str all; for (auto &a : args) all += " '" + vis(a) + "'"; c.show((env.empty() ? Str() : env[0] + " ") + "xmq" + all);
    RunResult r = run_program(av, in, c.scratch, env);
    REQUIRE("hang", !r.timeout, "did not end: xmq%s", all.c_str());
    REQUIRE("crash", !r.sig && r.code != 99, "xmq%s crashed (signal %d): %s", all.c_str(), r.sig, r.err.substr(0, 1500).c_str());
    return r;
}

struct Output { Str cmd; std::vector<Str> args; PrintOpts o; Str id, cls, is, es, et, cr, nl, theme; bool has_id = false, has_cls = false, over = false; };

static Output gen_output(Gen &g, bool dark)
{
    static const std::vector<Str> cmds = { "to-xmq", "to-htmq", "to-xml", "to-html", "to-json", "to-text", "to-clines", "render-terminal", "render-html", "render-tex" };
    Output u; size_t k = g.pick({ 4, 2, 3, 2, 2, 1, 1, 2, 3, 2 }); u.cmd = cmds[k];
    static const XMQContentType cts[] = { XMQ_CONTENT_XMQ, XMQ_CONTENT_HTMQ, XMQ_CONTENT_XML, XMQ_CONTENT_HTML, XMQ_CONTENT_JSON, XMQ_CONTENT_TEXT, XMQ_CONTENT_CLINES };
    bool render = k >= 7; PrintOpts &o = u.o; o.ct = render ? XMQ_CONTENT_XMQ : cts[k]; o.dark = dark;
    if (render) o.render = k == 7 ? XMQ_RENDER_TERMINAL : k == 8 ? XMQ_RENDER_HTML : XMQ_RENDER_TEX;
    std::vector<std::vector<Str>> groups; // Options of one group keep their order: the last one decides.
    if (g.below(3) == 0) { groups.push_back({ "--compact" }); o.compact = true; }
    if (k == 2 && g.below(3) == 0) { groups.push_back({ g.coin() ? "-o" : "--omit-decl" }); o.omit_decl = true; }
    if (k < 2 || render)
    {
        if (g.below(4) == 0) { groups.push_back({ "--escape-newlines" }); o.esc_nl = true; }
        if (g.below(4) == 0) { groups.push_back({ "--escape-non-7bit" }); o.esc_non7 = true; }
        if (g.below(4) == 0) { groups.push_back({ "--escape-tabs" }); o.esc_tab = true; }
        if (g.coin()) { std::vector<Str> v; size_t n = 1 + (g.below(4) == 0); for (size_t i = 0; i < n; ++i) { o.indent = (int)g.below(12); v.push_back("--indent=" + std::to_string(o.indent)); } groups.push_back(v); }
    }
    auto value = [&](const char *opt, const std::vector<Str> &vals, Str &to) { std::vector<Str> v; size_t n = 1 + (g.below(4) == 0); for (size_t i = 0; i < n; ++i) { to = g.of(vals); v.push_back(Str(opt) + to); } groups.push_back(v); };
    if (render)
    {
        if (g.below(3) == 0) { std::vector<Str> v; size_t n = 1 + (g.below(4) == 0); for (size_t i = 0; i < n; ++i) { o.color = g.coin(); v.push_back(o.color ? "--color" : "--mono"); } groups.push_back(v); }
        if (g.below(3) == 0) { groups.push_back({ "--nostyle" }); o.raw = true; }
        if (g.below(3) == 0) value("--theme=", { "darkbg", "lightbg" }, u.theme);
        if (g.below(3) == 0) { value("--id=", { "foo", "a1", "x-y" }, u.id); u.has_id = true; }
        if (g.below(3) == 0) { value("--class=", { "bar", "c d", "é" }, u.cls); u.has_cls = true; }
        static const std::vector<Str> marks = { "·", "␠", "<s>", "~", "NL\n", "_" };
        if (g.below(6) == 0) { value("--use-is=", marks, u.is); u.over = true; }
        if (g.below(6) == 0) { value("--use-es=", marks, u.es); u.over = true; }
        if (g.below(6) == 0) { value("--use-et=", marks, u.et); u.over = true; }
        if (g.below(6) == 0) { value("--use-cr=", marks, u.cr); u.over = true; }
        if (g.below(6) == 0) { value("--use-nl=", marks, u.nl); u.over = true; }
    }
    // Interleave the groups.
    while (!groups.empty()) { size_t i = g.below((uint32_t)groups.size()); u.args.push_back(groups[i].front()); groups[i].erase(groups[i].begin()); if (groups[i].empty()) groups.erase(groups.begin()+i); }
    return u;
}

static Str library(XMQDoc *doq, const Output &u)
{
    XMQOutputSettings *os = xmqNewOutputSettings();
    apply(os, u.o); xmqSetRenderFormat(os, u.o.render); xmqSetUseColor(os, u.o.color); xmqSetBackgroundMode(os, u.o.dark); xmqSetRenderRaw(os, u.o.raw);
    xmqRenderHtmlSettings(os, u.has_id ? u.id.c_str() : nullptr, u.has_cls ? u.cls.c_str() : nullptr);
    if (!u.theme.empty()) xmqSetRenderTheme(os, u.theme.c_str());
    xmqSetupDefaultColors(os);
    auto z = [](const Str &s) { return s.empty() ? nullptr : s.c_str(); };
    if (u.over) xmqOverrideSettings(os, z(u.is), z(u.es), z(u.et), z(u.cr), z(u.nl));
    char *start = nullptr, *stop = nullptr; size_t skip = 0; Str got;
    xmqSetupPrintMemory(os, &start, &stop); xmqSetupPrintSkip(os, &skip); xmqPrint(doq, os);
    if (start && stop) got.assign(start+skip, stop-(start+skip)); free(start); xmqFreeOutputSettings(os);
    return got;
}

PART(C32, options, 2500, 50000, "A document of any format and a command line with load options in any order and an output with options in any order and possibly repeated, saved to a file or printed; the output is what the library prints with the corresponding settings. Non-trivial: at least three options in all")
{
    int fmt = g.pick({ 4, 4, 3, 3, 1 }); Str s = any_source(g, fmt);
    if (s.find('\0') != Str::npos) throw Discard();
    std::vector<std::vector<Str>> load; int flags = 0; const char *root = nullptr;
    load.push_back({ OPT[fmt] });
    if (g.below(3) == 0) { flags |= XMQ_FLAG_NOMERGE; load.push_back({ "--no-merge" }); }
    if (g.coin()) { std::vector<Str> v; int tf = 0; size_t n = 1 + (g.below(4) == 0); for (size_t i = 0; i < n; ++i) { tf = g.coin() ? XMQ_FLAG_TRIM_NONE : XMQ_FLAG_TRIM_HEURISTIC; v.push_back(tf == XMQ_FLAG_TRIM_NONE ? "--trim=none" : "--trim=heuristic"); } flags |= tf; load.push_back(v); }
    if (g.below(4) == 0) { static const std::vector<Str> roots = { "root", "r", "a.b", "x_y" }; std::vector<Str> v; static Str last; size_t n = 1 + (g.below(4) == 0); for (size_t i = 0; i < n; ++i) { last = g.of(roots); v.push_back("--root=" + last); } root = last.c_str(); load.push_back(v); }
    std::vector<Str> args; while (!load.empty()) { size_t i = g.below((uint32_t)load.size()); args.push_back(load[i].front()); load[i].erase(load[i].begin()); if (load[i].empty()) load.erase(load.begin()+i); }
    static const char *themes[] = { nullptr, "mono", "lightbg", "darkbg", "other" }; const char *th = themes[g.pick({ 3, 1, 2, 2, 1 })];
    std::vector<Str> env; if (th) env.push_back(Str("XMQ_THEME=") + th);
    bool dark = !th || !strcmp(th, "darkbg");
    write_file(c.scratch + "/in", s); size_t options = args.size();
    switch (g.below(3)) { case 0: args.push_back("in"); break; case 1: args.push_back(c.scratch + "/in"); break; default: args.push_back("-"); break; }
    Str in = args.back() == "-" ? s : Str();
    size_t n = 1; std::vector<Output> outs; c.show(strf("%s document: ", EXT[fmt]) + vis(s));
    for (size_t i = 0; i < n; ++i)
    {
        outs.push_back(gen_output(g, dark)); Output &u = outs.back(); c.label(u.cmd.c_str());
        args.push_back(u.cmd); args.insert(args.end(), u.args.begin(), u.args.end()); options += u.args.size();
        if (i+1 < n || g.coin()) { args.push_back("save-to"); args.push_back("out" + std::to_string(i)); } else outs.back().id += "\1";
    }
    bool printed = !outs.back().id.empty() && outs.back().id.back() == '\1'; if (printed) outs.back().id.pop_back();
    for (size_t i = 0; i < n; ++i) unlink((c.scratch + "/out" + std::to_string(i)).c_str());
    RunResult r = xmq_run(c, args, in, env);
    XDoc x; bool ok = x.parse(s, CTS[fmt], flags, root);
    REQUIRE("accepted", ok == (r.code == 0), "the library %s the document, the exit status is %d: %s", ok ? "reads" : "rejects", r.code, r.err.c_str());
    if (!ok) throw Discard();
    for (size_t i = 0; i < n; ++i)
    {
        XDoc f; f.parse(s, CTS[fmt], flags, root); Str want = library(f.doq, outs[i]), got;
        if (i+1 == n && printed) got = r.out; else { REQUIRE("saved", read_file(c.scratch + "/out" + std::to_string(i), got), "output %zu is missing", i); }
        REQUIRE("output", got == want, "output %zu is not what the library prints: %s", i, diff(want, got).c_str());
    }
    if (!printed) REQUIRE("stdout", r.out.empty(), "printed though everything was saved: %s", vis(r.out).c_str());
    Str key; for (auto &a : args) key += a + " "; c.nontrivially(options >= 3, s + key);
}

PART(C32, log, 1200, 20000, "A document of any format and up to three commands with and without --verbose, --debug or --trace: the same output and exit status; with --log-xmq every line logged is valid XMQ. Non-trivial: at least one command and 20 bytes")
{
    int fmt = g.pick({ 4, 3, 2, 1, 1 }); Str s = any_source(g, fmt); if (s.find('\0') != Str::npos || s.size() > 20000) throw Discard();
    std::vector<Str> opts = { OPT[fmt] }, args; if (g.below(3) == 0) opts.push_back("--trim=none"); if (g.below(4) == 0) opts.push_back("--root=r");
    Str in; Str key;
    switch (g.below(3)) { case 0: { static const std::vector<Str> names = { "in", "a b", "it's", "x''y", "a=b", "å" }; Str f = g.of(names); write_file(c.scratch + "/" + f, s); args.push_back(f); break; } case 1: args.push_back("-"); in = s; break; default: if (s.empty() || s[0] == '-') throw Discard(); args.push_back("-i"); args.push_back(s); break; }
    size_t n = g.size(3); static const std::vector<Str> xp = { "//a", "//*[@x]", "//*[. = 'it''s']", "/*/*", "//text()", "//@*", "//*[name() = \"b\"]" }, frag = { "x = 1", "a(b = 'c d') { e }", "// c\nq", "k = ''" };
    for (size_t i = 0; i < n; ++i)
        switch (g.below(8))
        {
        case 0: args.push_back("delete"); args.push_back(g.of(xp)); break;
        case 1: args.push_back("select"); args.push_back(g.of(xp)); break;
        case 2: args.push_back("add"); args.push_back(g.of(frag)); break;
        case 3: args.push_back("add-root"); args.push_back("r"); break;
        case 4: args.push_back("delete-entity"); args.push_back(g.coin() ? "#10" : "amp"); break;
        case 5: args.push_back("substitute-char-entities"); break;
        case 6: args.push_back("replace-entity"); args.push_back("nbsp"); args.push_back("a 'b'"); break;
        default: args.push_back("substitute-entity"); args.push_back("#10"); break;
        }
    static const std::vector<Str> outs = { "to-xmq", "to-xml", "to-json", "to-text", "to-clines", "to-html", "render-html", "statistics", "no-output", "print" }; Str out = g.of(outs); args.push_back(out);
    if (g.below(3) == 0 && out != "statistics" && out != "no-output") { args.push_back("save-to"); args.push_back("saved"); }
    std::vector<Str> a = opts, b = opts; Str level = g.coin() ? "--verbose" : g.coin() ? "--debug" : "--trace"; bool lx = g.below(3) != 0;
    auto put = [&](const Str &o) { b.insert(b.begin() + g.below((uint32_t)b.size()+1), o); }; put(level); if (lx) put("--log-xmq");
    a.insert(a.end(), args.begin(), args.end()); b.insert(b.end(), args.begin(), args.end());
    for (auto &x : b) key += x + " "; c.show(strf("%s document: ", EXT[fmt]) + vis(s)); c.label(level.c_str()); c.label_if(lx, "xmq log"); c.nontrivially(n && s.size() >= 20, s + key);
    Str sa, sb; unlink((c.scratch + "/saved").c_str()); RunResult ra = xmq_run(c, a, in, {}); read_file(c.scratch + "/saved", sa);
    unlink((c.scratch + "/saved").c_str()); RunResult rb = xmq_run(c, b, in, {}); read_file(c.scratch + "/saved", sb);
    REQUIRE("status", ra.code == rb.code, "exit status %d, and %d with the log: %s", ra.code, rb.code, rb.err.c_str());
    REQUIRE("output", ra.out == rb.out && sa == sb, "the output is another one with the log: %s", diff(ra.out, rb.out).c_str());
    if (!lx || rb.code) { c.label_if(rb.code != 0, "failing"); return; }
    for (size_t p = 0; p < rb.err.size();)
    {
        size_t q = rb.err.find('\n', p); if (q == Str::npos) q = rb.err.size(); Str l = rb.err.substr(p, q-p); p = q+1;
        if (l.empty() || ra.err.find(l) != Str::npos) continue;
        XDoc x; REQUIRE("log", x.parse(l, XMQ_CONTENT_XMQ, 0), "the log line %s is not xmq: %s", vis(l).c_str(), x.err().c_str());
    }
}
PART(C32, tokenize, 1500, 30000, "XMQ documents, a third of them damaged, tokenized by the command from a file, standard input or an argument, in all five types; output, error message and exit status are those of the library. Non-trivial: at least 10 tokens or a rejected document")
{
    DocOpts d; d.xml = false; std::vector<Node> m = gen_doc(g, d); spellable(m); Writer w(g); w.put_nodes(m, true); Str s = w.out;
    if (g.below(3) == 0 && !s.empty())
    {
        size_t p = g.below((uint32_t)s.size());
        switch (g.below(3)) { case 0: s.resize(p); break; case 1: s.erase(p, 1); break; default: s.insert(p, 1, "{}()='\"&/*\n \t;"[g.below(13)]); break; }
    }
    if (s.find('\0') != Str::npos) throw Discard();
    static const char *types[] = { "terminal", "html", "tex", "debugtokens", "debugcontent" }; size_t k = g.below(5);
    static const char *themes[] = { nullptr, "mono", "lightbg", "darkbg" }; const char *th = themes[g.below(4)]; bool dark = !th || !strcmp(th, "darkbg");
    std::vector<Str> env; if (th) env.push_back(Str("XMQ_THEME=") + th);
    write_file(c.scratch + "/in", s);
    int how = g.pick({ 3, 2, 2 }); if (how == 2 && (s.empty() || s[0] == '-' || s.size() > 20000)) how = 0;
    std::vector<Str> args; Str name;
    switch (how) { case 0: args.push_back("in"); name = "in"; break; case 1: args.push_back("-"); name = "-"; break; default: args.push_back("-i"); args.push_back(s); break; }
    args.push_back("tokenize"); args.push_back(Str("--type=") + types[k]); c.show("document: " + vis(s)); c.label(types[k]);
    RunResult r = xmq_run(c, args, how == 1 ? s : Str(), env);

    XMQOutputSettings *os = xmqNewOutputSettings(); char *start = nullptr, *stop = nullptr; xmqSetupPrintMemory(os, &start, &stop);
    XMQParseCallbacks *cb = xmqNewParseCallbacks();
    if (k < 3)
    {
        static const XMQRenderFormat fs[] = { XMQ_RENDER_TERMINAL, XMQ_RENDER_HTML, XMQ_RENDER_TEX };
        xmqSetRenderFormat(os, fs[k]); xmqSetUseColor(os, k == 0); xmqSetBackgroundMode(os, dark); xmqSetupDefaultColors(os); xmqSetupParseCallbacksColorizeTokens(cb, fs[k]);
    }
    else if (k == 3) xmqSetupParseCallbacksDebugTokens(cb); else xmqSetupParseCallbacksDebugContent(cb);
    XMQParseState *st = xmqNewParseState(cb, os); if (!name.empty()) xmqSetStateSourceName(st, name.c_str());
    bool ok = xmqTokenizeBuffer(st, s.c_str(), s.c_str()+s.size()); Str err = ok ? Str() : Str(xmqStateErrorMsg(st) ? xmqStateErrorMsg(st) : ""), want;
    if (ok && start) want.assign(start, stop-start);
    free(start); int no = xmqStateErrno(st); xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(os);

    REQUIRE("status", ok == (r.code == 0) && ok == (no == 0), "the library %s the document, the exit status is %d: %s", ok ? "accepts" : "rejects", r.code, r.err.c_str());
    if (ok) REQUIRE("output", r.out == want, "the output is not what the library gives: %s", diff(want, r.out).c_str());
    else REQUIRE("message", !err.empty() && r.err.compare(0, err.size(), err) == 0, "the message is not what the library gives: %s", diff(err, r.err).c_str());
    c.label_if(!ok, "rejected"); c.nontrivially(!ok || w.toks.size() >= 10, s + types[k] + std::to_string(how));
}

PART(C32, style, 200, 2000, "The style printed alone is the style inside the complete rendering, in both themes, for HTML and TeX. Non-trivial: every case")
{
    bool html = g.coin(); static const char *themes[] = { nullptr, "mono", "lightbg", "darkbg" }; const char *th = themes[g.below(4)];
    std::vector<Str> env; if (th) env.push_back(Str("XMQ_THEME=") + th);
    Str s = any_source(g, 0); if (s.find('\0') != Str::npos) throw Discard(); write_file(c.scratch + "/in", s); XDoc x; if (!x.parse(s, XMQ_CONTENT_XMQ)) throw Discard();
    std::vector<Str> base = { "--xmq", "in", html ? "render-html" : "render-tex" }; Str key = (th ? th : "") + Str(html ? "h" : "t") + s;
    if (g.coin()) { base.push_back(g.coin() ? "--theme=darkbg" : "--theme=lightbg"); key += base.back(); }
    if (g.coin()) { base.push_back("--color"); key += "c"; }
    RunResult full = xmq_run(c, base, "", env); base.insert(base.begin() + 3 + (ptrdiff_t)g.below((uint32_t)base.size()-2), "--onlystyle"); RunResult only = xmq_run(c, base, "", env);
    REQUIRE("status", full.code == 0 && only.code == 0, "exit status %d and %d", full.code, only.code);
    Str st = only.out; while (!st.empty() && (st.back() == '\n' || st.back() == ' ')) st.pop_back();
    REQUIRE("empty", st.size() > 50, "hardly any style: %s", vis(only.out).c_str());
    REQUIRE("style", full.out.find(st) != Str::npos, "the style is not part of the rendering\nstyle: %s\nrendering: %s", vis(only.out).c_str(), vis(full.out.substr(0, 3000)).c_str());
    c.nontrivially(true, key);
}

// ---------------------------------------------------------------------------------------------------------------
// C34: everything allocated for a document is released with it.
extern "C" size_t __sanitizer_get_current_allocated_bytes();
PART(C34, documents, 8000, 200000, "A source of any format, a third of them damaged, through a history of parse, up to four prints in any format, rendering and layout, queries and free, run three times; the heap in use afterwards is the same each time. Non-trivial: at least one print and 20 bytes of source")
{
    int fmt = g.pick({ 5, 4, 3, 3, 1 }); Str s = any_source(g, fmt); bool damaged = g.below(3) == 0;
    if (damaged) for (size_t n = 1 + g.below(3); n-- && !s.empty();) { size_t p = g.below((uint32_t)s.size()); static const std::vector<Str> bits = { "{", "}", "'", "''", "(", ")", "=", "\"", "&", "<", ">", "/*", "//", "\t", "\\", "!DOCTYPE", "x" }; if (g.coin()) s.insert(p, g.of(bits)); else if (g.coin()) s.erase(p, 1 + g.below(4)); else s.resize(p); }
    int flags = g.below(3) ? XMQ_FLAG_TRIM_NONE : 0; if (g.below(4) == 0) flags |= XMQ_FLAG_NOMERGE; const char *root = g.below(6) ? nullptr : "root"; XMQContentType ct = g.below(5) ? CTS[fmt] : XMQ_CONTENT_DETECT;
    static const XMQContentType outs[] = { XMQ_CONTENT_XMQ, XMQ_CONTENT_XML, XMQ_CONTENT_JSON, XMQ_CONTENT_HTML, XMQ_CONTENT_HTMQ, XMQ_CONTENT_TEXT, XMQ_CONTENT_CLINES };
    std::vector<PrintOpts> ps; size_t n = g.size(4); Str key;
    for (size_t i = 0; i < n; ++i)
    {
        PrintOpts o; o.ct = outs[g.below(7)]; layout(g, o); if (g.below(3) == 0) { static const XMQRenderFormat fs[] = { XMQ_RENDER_TERMINAL, XMQ_RENDER_HTML, XMQ_RENDER_TEX }; o.render = fs[g.below(3)]; o.color = g.coin(); o.dark = g.coin(); o.raw = g.coin(); }
        ps.push_back(o); key += show_opts(o); c.show(show_opts(o));
    }
    bool query = g.below(3) == 0; if (query) c.show("queries");
    c.show(strf("source (%s, flags %d%s%s): ", EXT[fmt], flags, root ? ", root" : "", ct == XMQ_CONTENT_DETECT ? ", detected" : "") + vis(s)); c.label(EXT[fmt]);
    bool ok = false;
    auto once = [&]()
    {
        XDoc x; ok = x.parse(s, ct, flags, root); if (!ok) { x.err(); return; }
        for (auto &o : ps) print(x.doq, o);
        if (query) { XMQLineConfig *lc = xmqNewLineConfig(); free(xmqLineDoc(lc, x.doq)); free(xmqLinePrintf(lc, "car{", "alfa=", "%s", s.substr(0, 40).c_str(), "b=", "%d", 7, "}")); xmqFreeLineConfig(lc); free(xmqCompactQuote(s.c_str())); xmqTrimWhitespace(x.doq, 0); }
        if (query) { xmqGetString(x.doq, "//*"); xmqGetInt(x.doq, "//*"); xmqForeach(x.doq, "//*", [](XMQDoc*, XMQNode*, void*) -> XMQProceed { return XMQ_CONTINUE; }, nullptr); }
    };
    once(); once(); size_t a = __sanitizer_get_current_allocated_bytes(); once(); size_t b = __sanitizer_get_current_allocated_bytes();
    c.label(ok ? "accepted" : "rejected"); c.nontrivially(n && s.size() >= 20, s + key);
    REQUIRE(ok ? "leak" : "leak when rejected", a == b, "%zd bytes more in use", (ssize_t)(b-a));
}
static Str damage(Gen &g, Str s, const std::vector<Str> &bits)
{
    for (size_t n = 1 + g.below(3); n-- && !s.empty();) { size_t p = g.below((uint32_t)s.size()); if (g.coin()) s.insert(p, g.of(bits)); else if (g.coin()) s.erase(p, 1 + g.below(4)); else s.resize(p); }
    return s;
}
PART(C34, ixml, 3000, 60000, "IXML grammars, a third of them damaged, used for up to three inputs (derived, damaged, with all parses or recovery) printed in two formats, and everything freed, run three times; the heap in use afterwards is the same each time. Non-trivial: at least one input")
{
    ix::GOpts o; o.alphabet = {'a','b'}; std::vector<Str> inputs; ix::Grammar G = ix::gen_grammar(g, o); Str gr = ix::spell(g, G); ix::Core core(G);
    static const std::vector<Str> bits = { "{", "}", "'", "\"", "(", ")", "=", ":", ".", ";", "|", "-", "^", "@", "+", "*", "**", "a", "[", "]", "#61", "~", "~[", "[L]", "!", ">", "?" };
    size_t n = g.size(3); std::vector<int> flags;
    for (size_t t = 0; t < n; ++t)
    {
        std::vector<int> v; int fuel = 40; Str in = core.sample(g, core.rule_node[0], v, fuel, o.alphabet) ? ix::to_text(v) : Str("ab"); if (g.below(3) == 0) in = damage(g, in, bits); if (in.size() > 200) in.resize(200);
        int f = g.coin() ? 0 : (int)g.below(64); if (in.size() > 8) f &= ~(int)XMQ_FLAG_IXML_ALL_PARSES;
        inputs.push_back(in); flags.push_back(f);
    }
    if (g.below(3) == 0) gr = damage(g, gr, bits);
    c.show("grammar: " + vis(gr)); for (size_t i = 0; i < n; ++i) c.show(strf("input (flags %d): ", flags[i]) + vis(inputs[i]));
    bool ok = false; size_t good = 0;
    auto once = [&]()
    {
        XDoc gd; xmqSetDocSourceName(gd.doq, "grammar"); ok = gd.parse(gr, XMQ_CONTENT_IXML, 0); good = 0; if (!ok) { gd.err(); return; }
        for (size_t i = 0; i < n; ++i)
        {
            XDoc d; xmqSetDocSourceName(d.doq, "input"); const Str &in = inputs[i];
            if (!xmqParseBufferWithIXML(d.doq, in.data(), in.data()+in.size(), gd.doq, flags[i])) { d.err(); continue; }
            good++; PrintOpts p; print(d.doq, p); p.ct = XMQ_CONTENT_XML; print(d.doq, p);
        }
    };
    once(); once(); size_t a = __sanitizer_get_current_allocated_bytes(); once(); size_t b = __sanitizer_get_current_allocated_bytes();
    c.label(!ok ? "grammar rejected" : good == n ? "all inputs accepted" : "an input rejected"); c.nontrivially(n > 0, gr + (n ? inputs[0] : ""));
    REQUIRE(!ok ? "leak when rejected" : "leak", a == b, "%zd bytes more in use", (ssize_t)(b-a));
}
PART(C34, tokens, 4000, 80000, "XMQ documents, half of them damaged, tokenized in all five types, run three times; the heap in use afterwards is the same each time. Non-trivial: at least 20 bytes")
{
    Str s = any_source(g, 0); static const std::vector<Str> bits = { "{", "}", "'", "''", "(", ")", "=", "&", "/*", "//", "\t", "\\", "!DOCTYPE", "x" }; if (g.coin()) s = damage(g, s, bits);
    int type = (int)g.below(5); c.show(strf("type %d source: ", type) + vis(s)); c.nontrivially(s.size() >= 20, s); bool ok = false;
    auto once = [&]()
    {
        XMQOutputSettings *os = xmqNewOutputSettings(); XMQParseCallbacks *cb = xmqNewParseCallbacks(); char *start = nullptr, *stop = nullptr; xmqSetupPrintMemory(os, &start, &stop);
        if (type == 0) xmqSetupParseCallbacksDebugTokens(cb); else if (type == 1) xmqSetupParseCallbacksDebugContent(cb);
        else { XMQRenderFormat f = type == 2 ? XMQ_RENDER_TERMINAL : type == 3 ? XMQ_RENDER_HTML : XMQ_RENDER_TEX; xmqSetRenderFormat(os, f); xmqSetUseColor(os, true); xmqSetupDefaultColors(os); xmqSetupParseCallbacksColorizeTokens(cb, f); }
        XMQParseState *st = xmqNewParseState(cb, os); xmqSetStateSourceName(st, "src"); ok = xmqTokenizeBuffer(st, s.data(), s.data()+s.size()); if (!ok) { xmqStateErrno(st); xmqStateErrorMsg(st); }
        free(start); xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(os);
    };
    once(); once(); size_t a = __sanitizer_get_current_allocated_bytes(); once(); size_t b = __sanitizer_get_current_allocated_bytes();
    c.label(ok ? "accepted" : "rejected"); REQUIRE(ok ? "leak" : "leak when rejected", a == b, "%zd bytes more in use", (ssize_t)(b-a));
}
