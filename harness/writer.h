// A writer that spells a document at random and records its tokens while doing so, and the reference trimming rules.
#pragma once
#include "model.h"

static bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static size_t ulen(const Str &s) { size_t n = 0; for (unsigned char c : s) if ((c & 0xc0) != 0x80) n++; return n; }

// ---------------------------------------------------------------------------------------------------------------
// The documented trimming rules r6-r10 of quotes and comments. col is the number of columns before the content.
// No tabs in indentation, newlines are LF only.
static Str ref_trim(size_t col, const Str &raw)
{
    if (raw.find('\n') == Str::npos) return raw;
    std::vector<Str> lines; { Str l; for (char c : raw) { if (c == '\n') { lines.push_back(l); l.clear(); } else l += c; } lines.push_back(l); }
    auto is_blank = [](const Str &l) { for (char c : l) if (!blank(c)) return false; return true; };
    size_t ending = 0, leading = 0; bool first_on_quote_line = true;
    size_t first = 0, last = lines.size(); // [first,last)
    bool all = true; for (auto &l : lines) all = all && is_blank(l);
    if (all) return Str(lines.size()-2, '\n');                           // blank lines: newlines only, leaving one out
    if (is_blank(lines.back())) { while (is_blank(lines[last-1])) { last--; ending++; } ending--; }
    if (is_blank(lines.front())) { while (is_blank(lines[first])) { first++; leading++; } leading--; first_on_quote_line = false; }
    size_t min = (size_t)-1;
    auto ind = [](const Str &l) { size_t i = 0; while (i < l.size() && l[i] == ' ') i++; return i; };
    for (size_t i = first; i < last; ++i)
    {
        if (i == first && first_on_quote_line) { min = col; continue; }
        if (is_blank(lines[i])) continue;
        if (ind(lines[i]) < min) min = ind(lines[i]);
    }
    Str o;
    if (first_on_quote_line && col > min) o += Str(col-min, ' ');
    o += Str(leading, '\n');
    for (size_t i = first; i < last; ++i)
    {
        Str l = lines[i];
        bool final_line = i == last-1 && last == lines.size();           // no newline after it
        if (i == first && first_on_quote_line) { if (!final_line) while (!l.empty() && blank(l.back())) l.pop_back(); }
        else
        {
            if (is_blank(l)) l = "";
            else { l = l.substr(min); if (!final_line) while (!l.empty() && blank(l.back())) l.pop_back(); }
        }
        if (i == last-1 && !final_line) while (!l.empty() && blank(l.back())) l.pop_back();
        o += l; if (i+1 < last) o += '\n';
    }
    return o + Str(ending, '\n');
}

// ---------------------------------------------------------------------------------------------------------------
struct Tok { Str type, text; size_t line, col; };
enum Last { NONE, NAME, TEXTVAL, QUOTE, CLOSE };
struct Writer
{
    Gen &g; Str out; std::vector<Tok> toks; size_t line = 1, col = 1; Last last = NONE;
    bool newlines = true; std::map<Str,uint64_t> used; size_t depth = 0; bool notes = true;
    std::vector<size_t> gaps; // indexes into toks of the first token of every node and of every ending brace
    Writer(Gen &gg) : g(gg) {}
    void use(const char *s) { used[s]++; }
    void adv(const Str &t) { for (unsigned char c : t) { if ((c & 0xc0) == 0x80) continue; col++; if (c == '\n') { line++; col = 1; } } out += t; }
    void tok(const Str &type, const Str &t) { toks.push_back({ type, t, line, col }); adv(t); }
    void ws(const Str &t)
    {
        if (t.empty()) return;
        if (!toks.empty() && toks.back().type == "whitespace") { toks.back().text += t; adv(t); }
        else tok("whitespace", t);
        last = NONE;
    }
    Str gen_ws(bool must)
    {
        switch (g.pick({ 5, 4, 2, 2, 1 }))
        {
        case 0: return must ? " " : "";
        case 1: return " ";
        case 2: return newlines ? "\n" + Str(4*depth, ' ') : " ";
        case 3: return newlines ? "\n" + Str(g.below(12), ' ') : Str(1 + g.below(5), ' ');
        default: { Str s; size_t n = 1 + g.below(4); for (size_t i = 0; i < n; ++i) s += newlines && g.coin() ? "\n" : " "; return s; }
        }
    }
    void opt_ws(bool must = false) { ws(gen_ws(must)); }
    // Whitespace before a node or attribute starting with the given kind of char.
    void sep(char c)
    {
        bool must = false;
        if (last == NAME) must = c == 'a';
        else if (last == TEXTVAL) must = c == 'a' || c == '&' || c == '/' || c == '?' || c == '!';
        else if (last == QUOTE) must = c == '\'';
        else if (last == CLOSE) must = c == '/';
        opt_ws(must);
    }
    void put_name(const Str &n, const char *nstok, const char *tokn)
    {
        size_t p = n.find(':');
        if (p != Str::npos) { tok(nstok, n.substr(0, p)); tok("ns_colon", ":"); tok(tokn, n.substr(p+1)); }
        else tok(tokn, n);
        last = NAME;
    }
    // ---- text
    static bool plain_value(const Str &s)
    {
        if (s.empty()) return false;
        if (s[0] == '=' || s[0] == '&' || (s.size() > 1 && s[0] == '/' && (s[1] == '/' || s[1] == '*'))) return false;
        for (size_t i = 0; i < s.size(); )
        {
            uint32_t cp; if (!utf8_decode(s, i, cp)) return false;
            if (cp <= 0x20 || cp == '(' || cp == ')' || cp == '\'' || cp == '"' || cp == '{' || cp == '}') return false;
            if (cp == 0xa0 || cp == 0x1680 || (cp >= 0x2000 && cp <= 0x200b) || cp == 0x2028 || cp == 0x2029 || cp == 0x202f || cp == 0x205f || cp == 0x3000 || cp == 0x85) return false;
        }
        return true;
    }
    Str entity_for(uint32_t cp)
    {
        switch (g.below(3)) { case 0: return strf("&#%u;", cp); case 1: return strf("&#x%x;", cp); default: return strf("&#x%X;", cp); }
    }
    struct Piece { bool ent; Str s; };
    // Split the text into quotable pieces and char entities.
    std::vector<Piece> pieces(const Str &t, bool force_split)
    {
        std::vector<Piece> v; Str cur;
        auto flush = [&]() { if (!cur.empty()) v.push_back({ false, cur }); cur.clear(); };
        for (size_t i = 0; i < t.size(); )
        {
            size_t b = i; uint32_t cp = 0; utf8_decode(t, i, cp); Str ch = t.substr(b, i-b);
            bool ent = cp == '\r' || (force_split && g.below(6) == 0);
            if (ent) { flush(); v.push_back({ true, entity_for(cp) }); continue; }
            if (force_split && g.below(12) == 0) flush();
            cur += ch;
        }
        flush();
        // A quote cannot start or end with a single quote, unless the content is trimmed on lines of its own.
        std::vector<Piece> w;
        for (auto &p : v)
        {
            if (p.ent) { w.push_back(p); continue; }
            Str s = p.s; size_t a = 0, e = s.size();
            while (a < e && s[a] == '\'') { w.push_back({ true, entity_for('\'') }); a++; }
            size_t k = 0; while (e > a && s[e-1] == '\'') { e--; k++; }
            if (e > a) w.push_back({ false, s.substr(a, e-a) });
            for (size_t i = 0; i < k; ++i) w.push_back({ true, entity_for('\'') });
        }
        return w;
    }
    // Raw spelling of the content of a quote of depth nq, whose content starts at column c0 (0-based). Empty optional if there is none.
    bool multi(const Str &t, size_t c0, Str &raw)
    {
        std::vector<Str> lines; { Str l; for (char c : t) { if (c == '\n') { lines.push_back(l); l.clear(); } else l += c; } lines.push_back(l); }
        Str noise[4]; for (auto &x : noise) x = g.below(4) == 0 ? Str(1 + g.below(3), ' ') : "";
        for (int attempt = 0; attempt < 2; ++attempt)
        {
            raw.clear();
            int form = g.below(2);
            if (attempt == 1) form = 1 - form;
            if (form == 0)
            {
                use("quote starting on its first line");
                for (size_t i = 0; i < lines.size(); ++i)
                {
                    if (i) raw += "\n";
                    if (i && !lines[i].empty()) raw += Str(c0, ' ');
                    else if (i && g.below(3) == 0 && i+1 < lines.size()) raw += Str(g.below(c0+3), ' ');
                    raw += lines[i]; if (i+1 < lines.size()) raw += noise[i%4];
                }
                // A first line further in than the rest.
                size_t lead = 0; while (lead < lines[0].size() && lines[0][lead] == ' ') lead++;
                if (lead > 0 && lead <= c0 && lead < lines[0].size() && g.coin())
                {
                    raw = lines[0].substr(lead);
                    for (size_t i = 1; i < lines.size(); ++i) raw += "\n" + (lines[i].empty() ? Str("") : Str(c0-lead, ' ')) + lines[i];
                    if (ref_trim(c0, raw) == t) { use("quote with first line further in"); return true; }
                }
                if (ref_trim(c0, raw) == t) return true;
            }
            else
            {
                size_t k = g.below(4) == 0 ? 0 : g.below(14);
                raw = Str(g.below(3) == 0 ? g.below(4) : 0, ' ') + "\n";
                for (size_t i = 0; i < lines.size(); ++i)
                {
                    if (!lines[i].empty()) raw += Str(k, ' ');
                    raw += lines[i] + noise[i%4] + "\n";
                }
                raw += Str(g.below(20), ' ');
                if (ref_trim(c0, raw) == t) { use("quote with newline at start and end"); return true; }
            }
        }
        return false;
    }
    static size_t longest_run(const Str &s, char ch) { size_t best = 0, n = 0; for (char c : s) { if (c == ch) { n++; if (n > best) best = n; } else n = 0; } return best; }
    bool quote_fits(const Str &t)
    {
        return !(t.size() && (t[0] == '\'' || t.back() == '\''));
    }
    // A tab in the indentation of a line after the first.
    static bool tab_indent(const Str &s)
    {
        bool ind = false;
        for (char c : s) { if (c == '\n') ind = true; else if (c == '\t' && ind) return true; else if (c != ' ') ind = false; }
        return false;
    }
    // Try to write t as a single quote.
    bool put_quote(const char *type, const Str &t)
    {
        Str q;
        if (t.empty())
        {
            size_t k = g.below(4);
            if (k == 1 && newlines) q = "'\n'"; else if (k == 2 && newlines) q = "'''\n   '''"; else q = "''";
            if (q == "'''\n   '''") use("blank quote");
            tok(type, q); last = QUOTE; return true;
        }
        size_t run = longest_run(t, '\'');
        size_t nq = run + 1; if (nq == 2) nq = 3;
        if (g.below(4) == 0) nq += 1 + g.below(3);
        if (nq == 2) nq = 3;
        Str qs(nq, '\'');
        size_t c0 = col-1+nq;
        Str raw;
        bool nl = t.find('\n') != Str::npos, edge = t[0] == '\'' || t.back() == '\'';
        if (nl || edge || (newlines && g.below(8) == 0))
        {
            if (!newlines) return false;
            if (!multi(t, c0, raw)) { if (nl || edge) return false; raw = t; }
            if (raw[0] == '\'' || raw.back() == '\'') { if (nl || edge) return false; raw = t; }
        }
        else raw = t;
        if (raw.find('\r') != Str::npos || tab_indent(raw)) return false;
        if (ref_trim(c0, raw) != t) return false;
        tok(type, qs + raw + qs); last = QUOTE;
        return true;
    }
    // Text as a sequence of quotes and entities.
    void put_pieces(const char *qtype, const char *etype, const Str &t, bool split, bool gap_first = false)
    {
        bool first = !gap_first;
        auto gap = [&](char c) { if (!first) sep(c); first = false; };
        if (!split && newlines && t.find('\r') == Str::npos) { Writer save = *this; gap('\''); if (put_quote(qtype, t)) return; restore(save); first = !gap_first; }
        for (auto &p : pieces(t, split))
        {
            if (p.ent) { gap('&'); tok(etype, p.s); last = NONE; continue; }
            Writer save = *this; bool was = first;
            gap('\'');
            if (put_quote(qtype, p.s)) continue;
            restore(save); first = was;
            // Newlines as entities, the lines as quotes.
            Str l;
            for (size_t i = 0; i <= p.s.size(); ++i)
            {
                if (i < p.s.size() && p.s[i] != '\n') { l += p.s[i]; continue; }
                if (!l.empty())
                {
                    size_t a = 0, e = l.size(), k = 0; while (a < e && l[a] == '\'') { gap('&'); tok(etype, "&#39;"); last = NONE; a++; }
                    while (e > a && l[e-1] == '\'') { e--; k++; }
                    if (e > a) { gap('\''); size_t n = longest_run(l.substr(a, e-a), '\'')+1; if (n == 2) n = 3; tok(qtype, Str(n, '\'') + l.substr(a, e-a) + Str(n, '\'')); last = QUOTE; }
                    for (size_t j = 0; j < k; ++j) { gap('&'); tok(etype, "&#39;"); last = NONE; }
                }
                if (i < p.s.size()) { gap('&'); tok(etype, "&#10;"); last = NONE; }
                l.clear();
            }
        }
    }
    void restore(const Writer &w) { out = w.out; toks = w.toks; line = w.line; col = w.col; last = w.last; }
    Writer(const Writer &w) : g(w.g), out(w.out), toks(w.toks), line(w.line), col(w.col), last(w.last), newlines(w.newlines) {}
    // ---- values after =, level is element or attr
    void put_value(const Str &level, const std::vector<Node> &v)
    {
        Str ty = level + "_value_";
        bool ent = false; for (auto &n : v) ent = ent || n.kind == ENT;
        Str t; for (auto &n : v) if (n.kind == TEXT) t += n.text;
        if (v.size() == 1 && v[0].kind == ENT && g.below(3)) { opt_ws(); tok((ty+"entity").c_str(), "&" + v[0].name + ";"); last = NONE; use("entity as value"); return; }
        if (!ent)
        {
            size_t k = g.below(4);
            if (k < 2 && plain_value(t)) { opt_ws(); tok((ty+"text").c_str(), t); last = TEXTVAL; use("unquoted value"); return; }
            if (k < 3) { opt_ws(); Writer save = *this; if (put_quote((ty+"quote").c_str(), t)) { use("quoted value"); return; } restore(save); }
        }
        opt_ws(); tok("cpar_left", "("); last = NONE; use("compound value");
        bool split = g.below(3) == 0;
        bool first = true;
        for (auto &n : v)
        {
            opt_ws(!first && last == QUOTE); first = false;
            if (n.kind == ENT) { tok((ty+"compound_entity").c_str(), "&" + n.name + ";"); last = NONE; }
            else put_pieces((ty+"compound_quote").c_str(), (ty+"compound_entity").c_str(), n.text, split);
        }
        opt_ws(); tok("cpar_right", ")"); last = NONE;
    }
    void put_attr(const Attr &a)
    {
        sep('a');
        if (a.name == "xmlns") { tok("ns_declaration", "xmlns"); last = NAME; }
        else if (a.name.compare(0, 6, "xmlns:") == 0) { tok("ns_declaration", "xmlns"); tok("ns_colon", ":"); tok("attr_ns", a.name.substr(6)); last = NAME; }
        else put_name(a.name, "attr_ns", "attr_key");
        bool empty = true; for (auto &n : a.value) if (n.kind == ENT || !n.text.empty()) empty = false;
        if (!a.has_value || (empty && g.coin())) { use("attribute without value"); return; }
        opt_ws(); tok("equals", "="); last = NONE;
        std::vector<Node> v = a.value; if (v.empty()) v.push_back(mk_text(""));
        put_value("attr", v);
    }
    void put_comment(const Str &t, bool at_end, bool only)
    {
        bool nl = t.find('\n') != Str::npos;
        int form = g.below(4);
        if (!newlines && !at_end && form == 0) form = 1;
        if (!nl && form == 0 && (t.empty() || t.back() != ' '))
        {
            bool sp = t.empty() ? g.coin() : (t[0] == '/' || t[0] == '*' || t[0] == ' ' || g.below(4) != 0);
            Str s = Str("//") + (sp ? " " : "") + t + Str(g.below(4) == 0 ? g.below(4) : 0, ' ');
            bool no_nl = at_end && g.coin();
            if (!no_nl) s += "\n";
            tok("comment", s); last = NONE; use("comment to end of line"); return;
        }
        // Longest run of slashes after an asterisk decides how many are needed.
        size_t need = 0; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '*') { size_t k = 0; while (i+1+k < t.size() && t[i+1+k] == '/') k++; if (k > need) need = k; }
        size_t n = 1 + need + (g.below(5) == 0 ? g.below(4) : 0);
        Str open = Str(n, '/') + "*", close = "*" + Str(n, '/');
        bool sp1 = t.empty() || t[0] == ' ' || g.below(3) != 0, sp2 = t.empty() ? g.coin() : (t.back() == ' ' || g.below(3) != 0);
        if (!nl)
        {
            if (t.empty()) { tok("comment", open + (g.coin() ? " " : "") + close); last = CLOSE; return; }
            tok("comment", open + (sp1 ? " " : "") + t + (sp2 ? " " : "") + close); last = CLOSE; use("one line slash star comment"); return;
        }
        if (newlines && form != 3)
        {
            Str raw;
            if (multi(t, col-1 + n + 1 + (sp1 ? 1 : 0), raw))
            {
                Str body = (sp1 ? " " : "") + raw;
                // One blank is dropped before the ending asterisk.
                if (!body.empty() && body.back() == ' ') body += " "; else if (sp2) body += " ";
                // A blank added at the start is dropped, but none other.
                if (sp1 || (raw.size() && raw[0] != ' ')) { tok("comment", open + body + close); last = CLOSE; use("multi line comment"); return; }
            }
        }
        // One continuation per line.
        use("comment with continuations");
        Str l; bool first = true;
        for (size_t i = 0; i <= t.size(); ++i)
        {
            if (i < t.size() && t[i] != '\n') { l += t[i]; continue; }
            if (first) tok("comment", open + " " + l + " " + close); else tok("comment_continuation", "* " + l + " " + close);
            first = false; l.clear();
        }
        last = CLOSE;
        (void)only;
    }
    void put_element(const Node &n)
    {
        sep('a');
        bool only_value = !n.kids.empty(); for (auto &k : n.kids) if (k.kind != TEXT && k.kind != ENT) only_value = false;
        bool parens = !n.attrs.empty() || g.below(8) == 0;
        int form; // 0 nothing 1 = value 2 braces
        if (n.kids.empty()) { form = g.pick({ 4, 1, 1 }); }
        else if (only_value) form = 1 + g.pick({ 3, 2 });
        else form = 2;
        put_name(n.name, "element_ns", form == 1 && !parens ? "element_key" : "element_name");
        if (parens)
        {
            opt_ws(); tok("apar_left", "("); last = NONE;
            for (auto &a : n.attrs) put_attr(a);
            opt_ws(); tok("apar_right", ")"); last = NONE;
            if (n.attrs.empty()) use("empty attribute list");
        }
        if (form == 0) return;
        opt_ws();
        if (form == 1)
        {
            tok("equals", "="); last = NONE;
            std::vector<Node> v = n.kids; if (v.empty()) v.push_back(mk_text(""));
            if (n.kids.empty() && g.coin()) { opt_ws(); tok("cpar_left", "("); opt_ws(); tok("cpar_right", ")"); last = NONE; use("empty compound"); return; }
            put_value("element", v);
        }
        else
        {
            tok("brace_left", "{"); last = NONE; depth++;
            put_nodes(n.kids, false);
            depth--;
            gaps.push_back(toks.size());
            opt_ws(); tok("brace_right", "}"); last = NONE;
        }
    }
    void put_nodes(const std::vector<Node> &v, bool top)
    {
        for (size_t i = 0; i < v.size(); ++i)
        {
            const Node &n = v[i];
            gaps.push_back(toks.size());
            switch (n.kind)
            {
            case ELEM: put_element(n); break;
            case TEXT: put_pieces("quote", "entity", n.text, g.below(4) == 0, true); break;
            case ENT: sep('&'); tok("entity", "&" + n.name + ";"); last = NONE; break;
            case COMMENT: sep('/'); put_comment(n.text, top && i+1 == v.size(), false); break;
            case PI:
            {
                sep('?');
                if (!n.has_text || n.text.empty())
                {
                    bool key = g.coin();
                    tok(key ? "element_key" : "element_name", "?" + n.name); last = NAME;
                    if (key) { opt_ws(); tok("equals", "="); opt_ws(); tok("element_value_quote", "''"); last = QUOTE; }
                    break;
                }
                tok("element_key", "?" + n.name); opt_ws(); tok("equals", "="); last = NONE; opt_ws();
                if (plain_value(n.text) && g.coin()) { tok("element_value_text", n.text); last = TEXTVAL; }
                else put_quote("element_value_quote", n.text);
                break;
            }
            case DOCTYPE:
                sep('!');
                tok("element_key", "!DOCTYPE"); opt_ws(); tok("equals", "="); last = NONE; opt_ws();
                if (plain_value(n.text) && g.coin()) { tok("element_value_text", n.text); last = TEXTVAL; }
                else put_quote("element_value_quote", n.text);
                break;
            }
        }
    }
};

// Make the model spellable: texts inside quotes hold no raw cr, comments are clean and so on.
static void spellable(std::vector<Node> &v)
{
    for (auto &n : v)
    {
        if (n.kind == COMMENT) { Str s; for (char c : loose_comment(n.text)) s += c == '\r' || c == '\t' ? ' ' : c; n.text = loose_comment(s); }
        if (n.kind == PI) { Str s; for (char c : n.text) if (c != '\n' && c != '\r' && c != '\'' && c != '\t') s += c; size_t a = 0; while (a < s.size() && s[a] == ' ') a++; n.text = s.substr(a); }
        if (n.kind == DOCTYPE) { if (n.text.find("SYSTEM '") != Str::npos) n.text = "root"; for (auto &c : n.text) if (c == '\n' || c == '\'') c = ' '; }
        for (auto &a : n.attrs) { spellable(a.value); if (a.name.compare(0, 5, "xmlns") == 0) { Str s; for (auto &x : a.value) s += x.text; a.value.clear(); a.value.push_back(mk_text(s)); } }
        spellable(n.kids);
    }
}

static Str newline_style(const Str &s, int style)
{
    if (style == 0) return s;
    Str o; for (char c : s) { if (c == '\n') o += style == 1 ? "\r\n" : "\r"; else o += c; }
    return o;
}
static std::vector<Node> spelled_doc(Gen &g, Ctx &c, Writer &w)
{
    DocOpts d; d.named_ents = true;
    std::vector<Node> m = gen_doc(g, d);
    spellable(m);
    w.newlines = g.below(6) != 0;
    if (g.below(10) == 0) w.opt_ws();
    w.put_nodes(m, true);
    if (!w.toks.empty() && !(w.toks.back().type == "comment" && w.out.size() && w.out.back() != '\n' && w.toks.back().text.compare(0, 2, "//") == 0)) w.opt_ws();
    for (auto &u : w.used) c.labels[u.first] += u.second;
    return m;
}
static bool rich(const Writer &w) { size_t k = 0; for (auto &t : w.toks) if (t.type != "whitespace") k++; return k >= 4; }

