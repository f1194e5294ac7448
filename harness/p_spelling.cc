// C06..C09: reading XMQ.
#include "writer.h"

PART(C06, spell, 120000, 4000000, "generated document written with a random spelling of every element, value, quote, comment and gap, with LF, CRLF or CR newlines; the tree read must be the document. Non-trivial: at least 4 tokens besides whitespace")
{
    Writer w(g);
    std::vector<Node> m = spelled_doc(g, c, w);
    static const char *names[] = { "lf", "crlf", "cr" };
    int style = g.pick({ 6, 1, 1 });
    c.label(Str("newlines ") + names[style]);
    Str src = newline_style(w.out, style);
    c.show("xmq: " + vis(src)); c.show(src);
    c.nontrivially(rich(w), src);
    XDoc a; bool ok = a.parse(src, XMQ_CONTENT_XMQ, 0);
    REQUIRE("reject", ok, "rejected: %s", a.err().c_str());
    for (auto &n : m) if (n.kind == DOCTYPE) n.text = "<!DOCTYPE " + n.text + ">";
    DumpOpts d; d.no_ns_order = true; d.empty_attr_same = true; d.doctype_ws = true;
    Str want = dump(m, d), got = dump(a.model(), d);
    REQUIRE("tree", want == got, "another tree was read: %s\nwant:\n%s\ngot:\n%s", diff(want, got).c_str(), want.c_str(), got.c_str());
    // Without merging, the same but with character entities kept.
    if (g.below(4) == 0)
    {
        XDoc b; REQUIRE("reject", b.parse(src, XMQ_CONTENT_XMQ, XMQ_FLAG_NOMERGE), "rejected with no-merge: %s", b.err().c_str());
        Str got2 = dump(b.model(), d);
        REQUIRE("nomerge", want == got2, "another tree was read without merging: %s", diff(want, got2).c_str());
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Raw quotes: C07
static Str gen_raw(Gen &g, bool comment)
{
    static const std::vector<Str> frag = { "\n", " ", "  ", "    ", "a", "b c", "\n\n", "\n    ", "\n  x", " \n", "word", "å", "'", "\"", "{", "=", "*", "/", "\t" };
    Str s; size_t n = g.size(20);
    if (g.below(40) == 0) n += g.below(200);
    for (size_t i = 0; i < n; ++i) s += g.below(3) ? g.of(frag) : g.below(2) ? "\n" + Str(g.below(14), ' ') : Str(1 + g.below(6), ' ');
    // A tab counts as eight columns of indentation. Only used after the indentation, and not at the end of lines.
    Str t; bool ind = true;
    for (size_t i = 0; i < s.size(); ++i)
    {
        char ch = s[i];
        if (ch == '\n') ind = true; else if (ch != ' ' && ch != '\t') ind = false;
        if (ch == '\t' && ind) ch = ' ';
        t += ch;
    }
    if (comment) { Str u; for (char ch : t) { if (ch == '/' && !u.empty() && u.back() == '*') u += ' '; u += ch; } return u; }
    return t;
}
PART(C07, quote, 150000, 4000000, "random quote contents (lines, indents, blanks, quotes) placed at a random column, as element value, node, attribute or compound part; content must be what rules r6-r10 give, and shifting the whole by some columns changes nothing. Non-trivial: the content holds a newline")
{
    Str raw = gen_raw(g, false);
    while (!raw.empty() && raw[0] == '\'') raw.erase(0, 1);
    while (!raw.empty() && raw.back() == '\'') raw.pop_back();
    size_t nq = Writer::longest_run(raw, '\'')+1; if (nq == 2) nq = 3; nq += g.below(4) == 0 ? 1 + g.below(2) : 0; if (nq == 2) nq = 3;
    if (raw.empty()) nq = 1;
    Str q(nq, '\'');
    int place = g.below(4);
    size_t shift = g.below(4) ? g.below(12) : g.below(60);
    Str lead = g.coin() ? "\n" : "";
    auto build = [&](size_t sh, size_t &col, const Str &content) {
        Str pre = lead + Str(sh, ' ');
        Str head = place == 0 ? "a=" : place == 1 ? "a{ " : place == 2 ? "a(b=" : "a=(";
        Str tail = place == 0 ? "" : place == 1 ? "}" : ")";
        col = sh + head.size() + nq;
        return pre + head + q + content + q + tail;
    };
    size_t col; Str src = build(shift, col, raw);
    c.show(src); c.show("raw content: " + vis(raw));
    bool nl = raw.find('\n') != Str::npos;
    c.nontrivially(nl, src);
    c.label_if(nl, "multi-line"); c.label_if(place == 2, "attribute");
    auto value = [&](const Str &s) -> Str {
        XDoc a; REQUIRE("reject", a.parse(s, XMQ_CONTENT_XMQ, 0), "rejected: %s", a.err().c_str());
        std::vector<Node> m = a.model(); REQUIRE("tree", m.size() == 1 && m[0].kind == ELEM, "no single element");
        std::vector<Node> v = place == 2 ? (m[0].attrs.empty() ? std::vector<Node>() : m[0].attrs[0].value) : m[0].kids;
        Str t; for (auto &x : v) { REQUIRE("tree", x.kind == TEXT, "content is not text"); t += x.text; }
        return t;
    };
    Str want = ref_trim(col, raw), got = value(src);
    REQUIRE("trim", want == got, "content is '%s' but the rules give '%s'", vis(got).c_str(), vis(want).c_str());
    // Move the whole to the right: every line after the first gets as many spaces.
    size_t more = 1 + g.below(9); Str moved; size_t col2;
    for (char ch : raw) { moved += ch; if (ch == '\n') moved += Str(more, ' '); }
    // Blank last lines with spaces would become content of the last line.
    Str src2 = build(shift + more, col2, moved);
    Str got2 = value(src2);
    REQUIRE("shift", got2 == got, "moved %zu columns the content is '%s' instead of '%s'", more, vis(got2).c_str(), vis(got).c_str());
}
PART(C07, comment, 60000, 1500000, "the same for /* */ and // comments at a random column")
{
    Str raw = gen_raw(g, true);
    size_t shift = g.below(4) ? g.below(12) : g.below(60);
    size_t n = 1 + (g.below(3) == 0 ? g.below(4) : 0);
    bool eol = g.below(4) == 0;
    if (eol) { Str t; for (char ch : raw) t += ch == '\n' || ch == '\t' ? ' ' : ch; raw = t; if (!raw.empty() && (raw[0] == '/' || raw[0] == '*')) raw = " " + raw; }
    Str src = Str(shift, ' ') + (eol ? "//" + raw + (g.coin() ? "\n" : "") : Str(n, '/') + "*" + raw + "*" + Str(n, '/'));
    Str tail = g.coin() && (!eol || src.back() == '\n') ? " x" : "";
    src += tail;
    c.show(src); c.show("raw content: " + vis(raw));
    bool nl = raw.find('\n') != Str::npos;
    c.nontrivially(nl || eol, src); c.label(eol ? "to end of line" : nl ? "multi-line" : "single line");
    XDoc a; REQUIRE("reject", a.parse(src, XMQ_CONTENT_XMQ, 0), "rejected: %s", a.err().c_str());
    std::vector<Node> m = a.model();
    REQUIRE("tree", m.size() >= 1 && m[0].kind == COMMENT && m.size() == 1 + (tail.empty() ? 0 : 1), "no comment first");
    Str body = raw; size_t col = shift + 2;
    if (eol) { if (!body.empty() && body[0] == ' ') body.erase(0, 1); while (!body.empty() && body.back() == ' ') body.pop_back(); }
    else
    {
        col = shift + n + 1;
        if (!body.empty() && body[0] == ' ') { body.erase(0, 1); col++; }
        if (!body.empty() && body.back() == ' ') body.pop_back();
    }
    Str want = eol ? body : ref_trim(col, body);
    REQUIRE("trim", m[0].text == want, "comment is '%s' but the rules give '%s'", vis(m[0].text).c_str(), vis(want).c_str());
}

// ---------------------------------------------------------------------------------------------------------------
// Tokens: C09
static bool collect(void *p, const char *start, const char *stop) { Str *s = (Str*)p; if (!stop) s->append(start); else s->append(start, stop-start); return true; }
static bool tokenize(const Str &src, int type, Str &out, Str &err)
{
    XMQOutputSettings *os = xmqNewOutputSettings();
    XMQParseCallbacks *cb = xmqNewParseCallbacks();
    xmqSetupPrintStdOutStdErr(os);
    char *start = nullptr, *stop = nullptr;
    xmqSetupPrintMemory(os, &start, &stop);
    if (type == 0) xmqSetupParseCallbacksDebugTokens(cb);
    else
    {
        xmqSetRenderFormat(os, type == 1 ? XMQ_RENDER_TERMINAL : type == 2 ? XMQ_RENDER_HTML : XMQ_RENDER_TEX);
        xmqSetUseColor(os, type != 4);
        if (type == 4) xmqSetRenderFormat(os, XMQ_RENDER_TERMINAL);
        xmqSetupDefaultColors(os);
        xmqSetupParseCallbacksColorizeTokens(cb, type == 1 || type == 4 ? XMQ_RENDER_TERMINAL : type == 2 ? XMQ_RENDER_HTML : XMQ_RENDER_TEX);
    }
    XMQParseState *st = xmqNewParseState(cb, os);
    xmqSetStateSourceName(st, "src");
    Str copy = src;
    bool ok = xmqTokenizeBuffer(st, copy.data(), copy.data()+copy.size());
    if (!ok) { const char *e = xmqStateErrorMsg(st); err = e ? e : ""; }
    else if (start) out.assign(start, stop-start);
    free(start);
    xmqFreeParseState(st); xmqFreeParseCallbacks(cb); xmqFreeOutputSettings(os);
    return ok;
}
static Str strip_ansi(const Str &s) { Str o; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == 27 && i+1 < s.size() && s[i+1] == '[') { size_t j = i+2; while (j < s.size() && s[j] != 'm') j++; i = j; continue; } o += s[i]; } return o; }
static bool parse_debug(const Str &s, std::vector<Tok> &v, Str &why)
{
    size_t i = 0;
    while (i < s.size())
    {
        if (s[i] == '\n' && i+1 == s.size()) break;
        if (s[i] != '[') { why = strf("unexpected char at %zu", i); return false; }
        size_t p = s.find(' ', i); Tok t; t.type = s.substr(i+1, p-i-1);
        i = p+1; if (s[i] != '"') { why = "no quote"; return false; }
        i++;
        for (; i < s.size() && s[i] != '"'; ++i)
        {
            if (s[i] != '\\') { t.text += s[i]; continue; }
            i++;
            switch (s[i]) { case 'n': t.text += '\n'; break; case 'r': t.text += '\r'; break; case 't': t.text += '\t'; break; case 'a': t.text += '\a'; break; case 'b': t.text += '\b'; break; case 'v': t.text += '\v'; break; case 'f': t.text += '\f'; break;
            case 'x': t.text += (char)strtol(s.substr(i+1, 2).c_str(), 0, 16); i += 2; break; default: t.text += s[i]; }
        }
        i++; int n = 0; unsigned l, cc; if (sscanf(s.c_str()+i, " %u:%u]%n", &l, &cc, &n) != 2 || n == 0) { why = strf("no position at %zu: %s", i, vis(s.substr(i, 20)).c_str()); return false; }
        t.line = l; t.col = cc; i += n; v.push_back(t);
    }
    return true;
}
static Str show_tok(const Tok &t) { return strf("[%s \"%s\" %zu:%zu]", t.type.c_str(), vis(t.text).c_str(), t.line, t.col); }
PART(C09, tokens, 120000, 3000000, "a document spelled as in C06 whose tokens are known; the debug tokens must be exactly those with their classes, lines and columns, and coloured or plain terminal rendering must contain exactly the source. Non-trivial as C06")
{
    Writer w(g);
    spelled_doc(g, c, w);
    bool crlf = g.below(5) == 0;
    Str src = newline_style(w.out, crlf); std::vector<Tok> want = w.toks;
    if (crlf) for (auto &t : want) t.text = newline_style(t.text, 1);
    c.show("xmq: " + vis(src)); c.show(src);
    c.nontrivially(rich(w), src);
    for (auto &t : want) c.label("token " + t.type);
    Str out, err;
    REQUIRE("reject", tokenize(src, 0, out, err), "rejected: %s", err.c_str());
    std::vector<Tok> got; Str why;
    REQUIRE("format", parse_debug(out, got, why), "cannot read the debug tokens: %s\n%s", why.c_str(), vis(out).c_str());
    Str cat; for (auto &t : got) cat += t.text;
    REQUIRE("source", cat == src, "the tokens do not give the source: %s", diff(src, cat).c_str());
    for (size_t i = 0; i < want.size() || i < got.size(); ++i)
    {
        Str a = i < want.size() ? show_tok(want[i]) : "none", b = i < got.size() ? show_tok(got[i]) : "none";
        REQUIRE("token", a == b, "token %zu should be %s but is %s", i, a.c_str(), b.c_str());
    }
    for (int type : { 1, 4 })
    {
        Str r; REQUIRE("reject", tokenize(src, type, r, err), "rejected: %s", err.c_str());
        if (type == 4) c.label_if(r.find('\033') == Str::npos, "plain without colors");
        Str p = strip_ansi(r);
        REQUIRE("render", p == src, "the source rendered for a terminal is another text: %s", diff(src, p).c_str());
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Damaged texts: C08
struct Broken { std::vector<Tok> t; int err = 0; size_t tok = 0, off = 0; bool at_end = false, check_pos = true; Str what, more; bool accepted = false; };
static bool is_ws(const Tok &t) { return t.type == "whitespace"; }
static bool has(const Str &s, const char *sub) { return s.find(sub) != Str::npos; }
// Tokens which are a quote, also those of processing instructions.
static bool is_quote(const Tok &t) { return has(t.type, "quote"); }
static size_t next_real(const std::vector<Tok> &t, size_t i) { while (i < t.size() && is_ws(t[i])) i++; return i; }
static bool block_comment(const Tok &t) { if (t.type != "comment") return false; size_t n = 0; while (n < t.text.size() && t.text[n] == '/') n++; return n < t.text.size() && t.text[n] == '*'; }
static size_t count_lead(const Str &s, char c) { size_t n = 0; while (n < s.size() && s[n] == c) n++; return n; }
static void insert_tok(std::vector<Tok> &t, size_t i, const Str &text) { t.insert(t.begin()+i, { { "whitespace", " ", 0, 0 }, { "damage", text, 0, 0 }, { "whitespace", " ", 0, 0 } }); }
static bool pick_tok(Gen &g, const std::vector<Tok> &t, size_t &i, const std::function<bool(size_t)> &f)
{
    std::vector<size_t> v; for (size_t k = 0; k < t.size(); ++k) if (f(k)) v.push_back(k);
    if (v.empty()) return false;
    i = v[g.below(v.size())]; return true;
}
static bool in_doctype(const std::vector<Tok> &t, size_t i)
{
    for (size_t k = i+1; k-- > 0; )
    {
        if (t[k].text == "!DOCTYPE") return true;
        if (!is_ws(t[k]) && t[k].type != "equals" && k != i) return false;
    }
    return false;
}
static const int N_DAMAGE = 18;
static bool damage(Gen &g, const Writer &w, int kind, Broken &b)
{
    b = Broken(); b.t = w.toks; auto &t = b.t; size_t i = 0;
    auto gap = [&]() -> bool { if (w.gaps.empty()) return false; i = w.gaps[g.below(w.gaps.size())]; while (i < t.size() && is_ws(t[i])) i++; return true; };
    auto last_brace = [&]() { size_t at = 0; for (size_t k = 0; k < t.size(); ++k) if (t[k].type == "brace_left") at = k; return at; };
    switch (kind)
    {
    case 0:
        if (!pick_tok(g, t, i, [&](size_t k) { return t[k].type == "brace_right"; })) return false;
        b.what = "brace removed"; t[i].text = " "; t[i].type = "damage"; b.err = 8; b.tok = last_brace(); return true;
    case 1:
    {
        if (!gap()) return false;
        b.what = "brace added"; insert_tok(t, i, "}");
        int d = 0; for (size_t k = 0; k < t.size(); ++k) { if (t[k].type == "brace_left") d++; if (t[k].type == "brace_right" || t[k].type == "damage") if (--d < 0) { b.err = 13; b.tok = k; return true; } }
        return false;
    }
    case 2:
    {
        if (!pick_tok(g, t, i, [&](size_t k) { return t[k].type == "apar_right"; })) return false;
        size_t n = next_real(t, i+1), l = i; while (l > 0 && t[l].type != "apar_left") l--;
        Str nt = n < t.size() ? t[n].type : "";
        size_t p = i; while (p > l && (p == i || is_ws(t[p]))) p--;
        if (nt == "equals") { if (t[p].type == "attr_key" || t[p].type == "attr_ns" || t[p].type == "ns_declaration") return false; }
        else if (!(nt == "" || nt == "brace_left" || nt == "brace_right" || is_quote(t[n]) || nt == "entity" || nt == "comment")) return false;
        b.what = "attribute parenthesis removed"; t[i].text = " "; t[i].type = "damage"; b.err = 9; b.tok = l; return true;
    }
    case 3:
    {
        if (!pick_tok(g, t, i, [&](size_t k) { if (t[k].type != "cpar_right") return false; size_t n = next_real(t, k+1); return n >= t.size() || t[n].type != "apar_right"; })) return false;
        // Those in attributes are followed by more attributes or the end of them.
        t[i].text = " "; t[i].type = "whitespace";
        size_t n = i; while (n < t.size() && (is_ws(t[n]) || t[n].type == "quote" || t[n].type == "entity")) n++;
        if (n < t.size() && t[n].type == "apar_right") return false;
        b.what = "compound parenthesis removed";
        if (n == t.size()) { b.err = 10; b.at_end = true; } else { b.err = 11; b.tok = n; }
        return true;
    }
    case 4:
    {
        if (!gap()) return false;
        // At the very start it would be content of another type.
        { bool any = false; for (size_t k = 0; k < i; ++k) if (!is_ws(t[k]) && t[k].type != "comment" && t[k].type != "comment_continuation") any = true; if (!any) return false; }
        static const std::vector<Str> bad = { ")", "\"", "*", "#", "<", ">", "%", "7", ";", "]", "é", "-", ".", ":", ",", "@", "[", "€", "😀", "\\", "|", "^", "\x7f", "+" };
        Str x = g.of(bad); insert_tok(t, i, x); b.tok = i+1; b.err = 16; b.what = "char " + x;
        size_t z = 0; uint32_t cp = 0; utf8_decode(x, z, cp); b.more = "unexpected character \"" + x + "\" " + strf("U+%X", cp);
        return true;
    }
    case 5:
        if (!pick_tok(g, t, i, [&](size_t k) { return is_ws(t[k]) && !in_doctype(t, k); })) return false;
        t[i].text.insert(1, "\t"); b.what = "tab"; b.err = 15; b.tok = i; b.off = 1; return true;
    case 6:
    {
        if (!pick_tok(g, t, i, [&](size_t k) { return is_quote(t[k]) && t[k].text.size() > 2; })) return false;
        size_t nq = count_lead(t[i].text, '\''); if (nq+1 > t[i].text.size()-1) return false;
        size_t cut = nq + 1 + g.below(t[i].text.size()-1-nq); if (cut > t[i].text.size()-1) cut = t[i].text.size()-1;
        t[i].text.resize(cut); t.resize(i+1); b.what = "text cut in a quote"; b.err = 4; b.tok = i; return true;
    }
    case 7:
        if (!pick_tok(g, t, i, [&](size_t k) { return is_quote(t[k]) && t[k].text.size() > 2; })) return false;
        t[i].text += Str(1 + g.below(3), '\''); b.what = "too many quotes"; b.err = 12; b.tok = i; return true;
    case 8:
    {
        if (!pick_tok(g, t, i, [&](size_t k) { return block_comment(t[k]); })) return false;
        size_t n = count_lead(t[i].text, '/');
        t[i].text.resize(n + 1 + g.below(t[i].text.size()-1-n)); t.resize(i+1); b.what = "text cut in a comment"; b.err = 6; b.tok = i; return true;
    }
    case 9:
        if (!pick_tok(g, t, i, [&](size_t k) { return block_comment(t[k]); })) return false;
        t[i].text += Str(1 + g.below(3), '/'); b.what = "too many slashes"; b.err = 7; b.tok = i; return true;
    case 10:
        if (!pick_tok(g, t, i, [&](size_t k) { return t[k].text.size() > 2 && t[k].text[0] == '&' && has(t[k].type, "entity"); })) return false;
        t[i].text.pop_back(); b.what = "entity without semicolon"; b.err = 5; b.tok = i; return true;
    case 11:
    {
        if (!pick_tok(g, t, i, [&](size_t k) { return t[k].type == "cpar_left" || t[k].type == "cpar_right"; })) return false;
        if (t[i].type == "cpar_left") i++;
        static const std::vector<Str> bad = { "x", "=", "{", "(", "9", "\"", "}", "/*c*/", "//c\n", "!", "?x" };
        Str x = g.of(bad); insert_tok(t, i, x); b.tok = i+1; b.err = 11; b.what = "compound holds " + x; return true;
    }
    case 12: case 13:
    {
        // The value after an equals.
        if (!pick_tok(g, t, i, [&](size_t k) { return t[k].type == "equals"; })) return false;
        size_t v = next_real(t, i+1), e = v+1; if (v >= t.size()) return false;
        if (t[v].type == "cpar_left") { while (e < t.size() && t[e].type != "cpar_right") e++; e++; }
        if (kind == 12)
        {
            size_t n = next_real(t, e); if (n < t.size() && t[n].type != "apar_right" && t[n].type != "brace_right") return false;
            t.erase(t.begin()+v, t.begin()+e); b.err = 14; b.tok = i; b.what = "value removed"; return true;
        }
        static const std::vector<Str> bad = { "=x", "//x", "/*x*/", "=", "\"x\"", "{" };
        Str x = g.of(bad);
        t.erase(t.begin()+v, t.begin()+e); t.insert(t.begin()+v, Tok{ "damage", x, 0, 0 });
        t.insert(t.begin()+v+1, Tok{ "whitespace", " ", 0, 0 });
        b.err = x[0] == '=' || x[0] == '/' ? 30 : 16; b.tok = v; b.what = "value is " + x; return true;
    }
    case 14:
    {
        if (!pick_tok(g, t, i, [&](size_t k) { return t[k].type == "apar_left"; })) return false;
        static const std::vector<Str> bad = { "*", "@", "?", "!", "<", "[", "å", ",", ";", "\"", "{", "&x;", "(", "/*c*/", "'x'", "//c\n", "=" };
        size_t k = g.below(bad.size());
        insert_tok(t, i+1, bad[k]); b.what = "attributes hold " + bad[k];
        if (k <= 8) { b.err = 16; b.tok = i+2; } else { b.err = 9; b.tok = i; }
        return true;
    }
    case 15:
    {
        if (!pick_tok(g, t, i, [&](size_t k) { return t[k].text.size() > 2 && t[k].text[0] == '&' && has(t[k].type, "entity"); })) return false;
        static const std::vector<Str> bad = { "&#0;", "&#xd800;", "&#x110000;", "&#xDFFF;", "&#99999999999999999999;", "&#x100000041;", "&#12a;", "&#xg;" };
        t[i].text = g.of(bad); b.what = "entity is " + t[i].text; b.err = 16; b.tok = i; return true;
    }
    case 16:
    {
        // The value of an element is missing and the next line begins another element.
        auto value_end = [&](size_t k) { size_t v = next_real(t, k+1), e = v+1; if (v < t.size() && t[v].type == "cpar_left") { while (e < t.size() && t[e].type != "cpar_right") e++; e++; } return e; };
        size_t n = 0;
        auto next_elem = [&](size_t k) -> bool
        {
            if (t[k].type != "equals") return false;
            for (size_t p = k; p-- > 0;) { if (t[p].type == "apar_right") break; if (t[p].type == "apar_left") return false; if (t[p].text[0] == '?' || t[p].text == "!DOCTYPE") return false; if (has(t[p].type, "element_key")) break; }
            n = next_real(t, value_end(k)); if (n+1 >= t.size() || !has(t[n].type, "element") || t[n].type == "element_ns" || t[n].text[0] == '?' || t[n].text[0] == '!' || t[n].text[0] == '&' || is_quote(t[n])) return false;
            size_t f = n+1; while (f < t.size() && is_ws(t[f]) && t[f].text.find_first_not_of(' ') == Str::npos) f++;
            return f < t.size() && (t[f].text == "=" || t[f].text == "{" || t[f].text == "(");
        };
        if (!pick_tok(g, t, i, next_elem)) return false;
        if (!next_elem(i)) return false;
        if (t[n+1].text == "=") t.insert(t.begin()+n+1, Tok{ "whitespace", " ", 0, 0 }); // Otherwise the equals would be part of the value.
        t.erase(t.begin()+i+1, t.begin()+n); Str nl = g.below(4) ? "\n" : "\n \n"; nl += Str(g.below(5), ' '); t.insert(t.begin()+i+1, Tok{ "whitespace", nl, 0, 0 });
        b.err = 14; b.tok = i; b.what = "value missing before an element"; return true;
    }
    default:
    {
        // Cut between two tokens.
        if (t.size() < 2) return false;
        size_t k = 1 + g.below(t.size()-1);
        t.resize(k); b.what = "text cut after a token";
        std::vector<size_t> open;
        for (size_t j = 0; j < k; ++j)
        {
            const Str &y = t[j].type;
            if (y == "brace_left" || y == "apar_left" || y == "cpar_left") open.push_back(j);
            if (y == "brace_right" || y == "apar_right" || y == "cpar_right") open.pop_back();
        }
        size_t l = k-1; while (l > 0 && is_ws(t[l])) l--;
        bool ws_last = l != k-1;
        if (t[l].type == "equals") { b.err = 14; b.tok = l; }
        else if (t[l].text == "!DOCTYPE") { b.err = ws_last ? 17 : 16; b.check_pos = false; }
        else if (t[l].type == "ns_colon") { b.err = 16; b.at_end = true; }
        else if (open.empty()) b.accepted = true;
        else if (t[open.back()].type == "brace_left") { b.err = 8; b.tok = last_brace(); }
        else if (t[open.back()].type == "apar_left") { b.err = 9; b.tok = open.back(); }
        else { b.err = 10; b.at_end = true; }
        return true;
    }
    }
}
PART(C08, damage, 120000, 3000000, "a document spelled as in C06 with one damage at a random place (a closer removed or added, a forbidden char or tab, a quote or comment cut or closed twice, a broken entity or value, a cut between tokens); the parse must fail with the right error number at the right line and column, a cut that leaves a whole document must be accepted. Non-trivial: rejected, with the damage after at least 3 tokens")
{
    Writer w(g);
    spelled_doc(g, c, w);
    Broken b; int kind = g.below(N_DAMAGE), tries = 0;
    while (!damage(g, w, (kind + tries) % N_DAMAGE, b)) if (++tries == N_DAMAGE) throw Discard();
    Str src; size_t line = 1, col = 1, wl = 0, wc = 0;
    for (size_t i = 0; i < b.t.size(); ++i)
    {
        const Str &x = b.t[i].text;
        for (size_t k = 0; k < x.size(); ++k)
        {
            if (i == b.tok && k == b.off && !b.at_end) { wl = line; wc = col; }
            unsigned char ch = x[k]; if ((ch & 0xc0) == 0x80) continue; col++; if (ch == '\n') { line++; col = 1; }
        }
        src += x;
    }
    if (b.at_end) { wl = line; wc = col; }
    Str what = b.what; { size_t p = what.find(' '); if (has(what, "char ") || has(what, "holds") || has(what, "hold ") || has(what, "is ")) what = what.substr(0, p); }
    c.label("damage: " + what); if (b.accepted) c.label("accepted cut");
    c.show("damage: " + b.what + "\nxmq: " + vis(src)); c.show(src);
    c.nontrivially(!b.accepted && b.tok >= 3, src);
    XDoc a; xmqSetDocSourceName(a.doq, "src");
    bool ok = a.parse(src, XMQ_CONTENT_XMQ, 0);
    if (b.accepted) { REQUIRE("rejected-cut", ok, "a whole document was rejected: %s", a.err().c_str()); return; }
    REQUIRE("accepted", !ok, "the damaged text was accepted");
    Str msg = a.err();
    REQUIRE("errno", xmqDocErrno(a.doq) == b.err, "error number %d instead of %d: %s", xmqDocErrno(a.doq), b.err, msg.c_str());
    REQUIRE("message", !msg.empty(), "no message");
    size_t p = msg.find(": error: "); REQUIRE("message", p != Str::npos, "the message has no error: %s", msg.c_str());
    size_t q = msg.rfind('\n', p); q = q == Str::npos ? 0 : q+1;
    Str head = msg.substr(q, p-q);
    if (b.check_pos) REQUIRE("position", head == strf("src:%zu:%zu", wl, wc), "reported at %s instead of %zu:%zu: %s", head.c_str(), wl, wc, msg.c_str());
    if (!b.more.empty()) REQUIRE("char", has(msg, b.more.c_str()), "the message does not hold %s: %s", b.more.c_str(), msg.c_str());
}
