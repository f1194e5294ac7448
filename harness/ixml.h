// IXML grammars: model, generator, spelling, recogniser and derivations.
#pragma once
#include "model.h"
#include "uc.h"
#include <algorithm>

namespace ix {

static const char *category(int c)
{
    static std::vector<UcRange> v;
    if (v.empty()) v.assign(uc_ranges, uc_ranges + sizeof(uc_ranges)/sizeof(uc_ranges[0]));
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo+hi)/2; if (v[m].to < c) lo = m+1; else hi = m; }
    return lo < v.size() && v[lo].from <= c ? v[lo].cat : nullptr;
}
struct CharPart { int from = 0, to = 0; Str cat; };
static bool cat_matches(const Str &want, const char *have)
{
    if (want == "LC") return !strcmp(have, "Lu") || !strcmp(have, "Ll") || !strcmp(have, "Lt");
    if (want.size() == 1) return want[0] == have[0];
    return want == have;
}
struct Set
{
    bool exclude = false; std::vector<CharPart> parts;
    // Characters whose category changed between versions of Unicode are never asked for.
    bool has(int c) const
    {
        bool in = false;
        for (auto &p : parts)
        {
            if (p.cat.empty()) in |= c >= p.from && c <= p.to;
            else { const char *k = category(c); in |= k && cat_matches(p.cat, k); }
        }
        return in != exclude;
    }
};
struct Trm;
typedef std::vector<std::vector<Trm>> Alts;
enum FK { LIT, SET, REF, GROUP, INS };
struct Fac { FK k = LIT; std::vector<int> cps; char mark = 0; Set set; int rule = 0; Alts alts; };
enum Rep { ONE, OPT, STAR, PLUS, STARSEP, PLUSSEP };
struct Trm { Fac f; Rep rep = ONE; std::vector<Fac> sep; };
struct Rule { Str name, alias; char mark = 0; Alts alts; };
struct Grammar { std::vector<Rule> rules; };

// ---- generator
struct GOpts { std::vector<int> alphabet; bool marks = true, sets = true, groups = true, ins = true, reps = true, alias = true, empty = true; int rules = 4; };
static void gen_fac(Gen &g, const GOpts &o, Fac &f, int nrules, int depth);
static void gen_alts(Gen &g, const GOpts &o, Alts &a, int nrules, int depth)
{
    size_t n = 1 + g.pick({5,4,2,1});
    for (size_t i = 0; i < n; ++i)
    {
        a.push_back({});
        size_t m = o.empty ? g.pick({1,5,4,3,1}) : 1 + g.below(3);
        for (size_t k = 0; k < m; ++k)
        {
            Trm t; gen_fac(g, o, t.f, nrules, depth);
            if (o.reps) t.rep = (Rep)g.pick({10,2,2,2,1,1});
            if (t.rep == STARSEP || t.rep == PLUSSEP) { t.sep.resize(1); gen_fac(g, o, t.sep[0], nrules, depth > 1 ? 1 : depth); }
            a.back().push_back(t);
        }
    }
}
static void gen_fac(Gen &g, const GOpts &o, Fac &f, int nrules, int depth)
{
    f.k = (FK)g.pick({8, o.sets ? 3u : 0u, 6, o.groups && depth > 0 ? 3u : 0u, o.ins ? 1u : 0u});
    switch (f.k)
    {
    case LIT: { size_t n = 1 + g.pick({8,2,1}); for (size_t i = 0; i < n; ++i) f.cps.push_back(g.of(o.alphabet)); if (o.marks) f.mark = "\0-^"[g.pick({5,2,1})]; break; }
    case INS: { size_t n = 1 + g.below(3); for (size_t i = 0; i < n; ++i) f.cps.push_back(g.of(o.alphabet)); break; }
    case SET:
    {
        f.set.exclude = g.chance(1,4); size_t n = g.pick({1,6,3,1});
        for (size_t i = 0; i < n; ++i)
        {
            CharPart p; p.from = p.to = g.of(o.alphabet);
            if (g.chance(1,3)) { p.to = g.of(o.alphabet); if (p.to < p.from) std::swap(p.from, p.to); }
            else if (g.chance(1,6)) p.cat = g.of(std::vector<Str>{"L","Ll","Lu","Nd","N","P","LC","Zs","So"});
            f.set.parts.push_back(p);
        }
        if (o.marks) f.mark = "\0-^"[g.pick({5,2,1})];
        break;
    }
    case REF: f.rule = g.below(nrules); if (o.marks) f.mark = "\0-^@"[g.pick({8,2,2,1})]; break;
    case GROUP: gen_alts(g, o, f.alts, nrules, depth-1); break;
    }
}
static Grammar gen_grammar(Gen &g, const GOpts &o)
{
    static const std::vector<Str> names = { "S", "A", "B", "C", "D", "x-1", "_a", "ixml", "version", "Lu" };
    Grammar r; int n = 1 + g.below(o.rules);
    size_t base = g.chance(1,6) ? g.below(names.size()) : 0;
    for (int i = 0; i < n; ++i)
    {
        Rule u; u.name = names[(base+i) % names.size()];
        if (o.marks && i > 0) u.mark = "\0-^@"[g.pick({6,3,1,2})];
        if (o.alias && i > 0 && g.chance(1,10)) u.alias = "al";
        gen_alts(g, o, u.alts, n, 2);
        r.rules.push_back(u);
    }
    return r;
}
// ---- spelling
static Str sp(Gen &g)
{
    switch (g.pick({20,12,2,1,1,1}))
    {
    case 0: return ""; case 1: return " "; case 2: return "\n"; case 3: return " {c} "; case 4: return "{a{b}c}"; default: return "\t\r\n ";
    }
}
static Str sp1(Gen &g) { Str s = sp(g); return s.empty() || s[0] == '{' ? " " + s : s; }
static Str spell_string(Gen &g, const std::vector<int> &cps)
{
    char q = g.coin() ? '"' : '\''; Str s(1, q);
    for (int c : cps) { if (c == q) s += q; s += utf8(c); }
    return s + q;
}
static Str spell_hex(Gen &g, int c)
{
    Str h = strf(g.coin() ? "%x" : "%X", c);
    if (g.chance(1,6)) h = "0" + h;
    return "#" + h;
}
static bool spelled_as_text(int c) { return c >= 32 && c != 0x7f && !(c >= 0x80 && c < 0xa0); }
static Str spell_char(Gen &g, int c) { return !spelled_as_text(c) || g.chance(1,3) ? spell_hex(g, c) : spell_string(g, {c}); }
static Str spell_alts(Gen &g, const Grammar &G, const Alts &a);
static Str spell_set(Gen &g, const Set &s)
{
    Str r = s.exclude ? "~" + sp(g) : ""; r += "[" + sp(g);
    for (size_t i = 0; i < s.parts.size(); ++i)
    {
        auto &p = s.parts[i];
        if (i) r += (g.coin() ? ";" : "|") + sp(g);
        if (!p.cat.empty()) r += p.cat;
        else if (p.from == p.to && !g.chance(1,8))
        {
            // Several single characters may share a string.
            if (i+1 < s.parts.size() && s.parts[i+1].cat.empty() && s.parts[i+1].from == s.parts[i+1].to && spelled_as_text(p.from) && spelled_as_text(s.parts[i+1].from) && g.coin())
            {
                r += spell_string(g, {p.from, s.parts[i+1].from}); ++i;
            }
            else r += spell_char(g, p.from);
        }
        else r += spell_char(g, p.from) + sp(g) + "-" + sp(g) + spell_char(g, p.to);
        r += sp(g);
    }
    return r + "]";
}
static Str spell_fac(Gen &g, const Grammar &G, const Fac &f)
{
    Str m; if (f.mark) m = Str(1, f.mark) + (g.chance(1,6) ? sp(g) : "");
    switch (f.k)
    {
    case LIT:
    {
        bool hex = false; for (int c : f.cps) hex |= !spelled_as_text(c);
        if (f.cps.size() == 1 && (hex || g.chance(1,4))) return m + spell_hex(g, f.cps[0]);
        return m + spell_string(g, f.cps);
    }
    case SET: return m + spell_set(g, f.set);
    case REF: return m + G.rules[f.rule].name;
    case INS: return "+" + (g.chance(1,6) ? sp(g) : Str()) + (f.cps.size() == 1 && g.chance(1,3) ? spell_hex(g, f.cps[0]) : spell_string(g, f.cps));
    case GROUP: return "(" + sp(g) + spell_alts(g, G, f.alts) + ")";
    }
    return "";
}
static Str spell_alts(Gen &g, const Grammar &G, const Alts &a)
{
    Str r;
    for (size_t i = 0; i < a.size(); ++i)
    {
        if (i) r += (g.chance(1,3) ? ";" : "|") + sp(g);
        for (size_t k = 0; k < a[i].size(); ++k)
        {
            auto &t = a[i][k];
            if (k) r += "," + sp(g);
            r += spell_fac(g, G, t.f) + sp(g);
            static const char *reps[] = { "", "?", "*", "+", "**", "++" };
            r += reps[t.rep];
            if (t.rep != ONE) r += sp(g);
            if (t.rep == STARSEP || t.rep == PLUSSEP) r += spell_fac(g, G, t.sep[0]) + sp(g);
        }
    }
    return r;
}
static Str spell(Gen &g, const Grammar &G)
{
    Str r = g.chance(1,8) ? sp(g) : "";
    if (g.chance(1,12)) r += "ixml" + sp1(g) + "version" + sp1(g) + "\"1.0\"" + sp(g) + "." + sp1(g);
    for (size_t i = 0; i < G.rules.size(); ++i)
    {
        auto &u = G.rules[i];
        if (u.mark) r += Str(1, u.mark) + (g.chance(1,6) ? sp(g) : "");
        r += u.name + sp(g);
        if (!u.alias.empty()) r += ">" + sp(g) + u.alias + sp(g);
        r += (g.coin() ? "=" : ":") + sp(g) + spell_alts(g, G, u.alts) + ".";
        if (i+1 < G.rules.size()) r += g.coin() ? "\n" : sp1(g);
        else if (g.coin()) r += sp(g);
    }
    return r;
}
// ---- core grammar: every node derives spans of the input
struct Core
{
    enum T { EMPTY, CH, SEQ, ALT, REFN, TEXT };
    struct N { T t; int a = -1, b = -1; std::vector<int> kids; const Set *set = nullptr; int cp = -1; char mark = 0; int rule = -1; Str text; };
    std::vector<N> n; std::vector<int> rule_node; const Grammar *G;
    int add(T t) { n.push_back(N()); n.back().t = t; return (int)n.size()-1; }
    int seq(int a, int b) { int i = add(SEQ); n[i].a = a; n[i].b = b; return i; }
    int fac(const Fac &f)
    {
        switch (f.k)
        {
        case LIT: { int r = -1; for (size_t k = f.cps.size(); k-- > 0; ) { int c = add(CH); n[c].cp = f.cps[k]; n[c].mark = f.mark; r = r < 0 ? c : seq(c, r); } return r; }
        case SET: { int c = add(CH); n[c].set = &f.set; n[c].mark = f.mark; return c; }
        case REF: { int c = add(REFN); n[c].rule = f.rule; n[c].mark = f.mark; return c; }
        case INS: { int c = add(TEXT); for (int k : f.cps) n[c].text += utf8(k); return c; }
        case GROUP: return alts(f.alts);
        }
        return -1;
    }
    int trm(const Trm &t)
    {
        int x = fac(t.f);
        if (t.rep == ONE) return x;
        if (t.rep == OPT) { int r = add(ALT), e = add(EMPTY); n[r].kids = {x, e}; return r; }
        int tail;
        int p = add(ALT); // one or more
        if (t.rep == STARSEP || t.rep == PLUSSEP) { int s = fac(t.sep[0]); tail = seq(x, seq(s, p)); } else tail = seq(x, p);
        n[p].kids = {x, tail};
        if (t.rep == PLUS || t.rep == PLUSSEP) return p;
        int r = add(ALT), e = add(EMPTY); n[r].kids = {e, p}; return r;
    }
    int alts(const Alts &a)
    {
        int r = add(ALT); std::vector<int> kids;
        for (auto &alt : a)
        {
            int s = -1;
            for (size_t k = alt.size(); k-- > 0; ) { int t = trm(alt[k]); s = s < 0 ? t : seq(t, s); }
            if (s < 0) s = add(EMPTY);
            kids.push_back(s);
        }
        n[r].kids = kids; return r;
    }
    Core(const Grammar &g) : G(&g) { for (auto &u : g.rules) { int r = alts(u.alts); rule_node.push_back(r); } }
    // Can something derive just itself? Such grammars are rejected by the parser.
    bool loops() const
    {
        size_t K = n.size(); std::vector<char> nul(K, 0);
        for (bool ch = true; ch; )
        {
            ch = false;
            for (size_t k = 0; k < K; ++k)
            {
                if (nul[k]) continue;
                const N &x = n[k]; bool e = false;
                switch (x.t)
                {
                case EMPTY: case TEXT: e = true; break;
                case CH: break;
                case SEQ: e = nul[x.a] && nul[x.b]; break;
                case ALT: for (int q : x.kids) e |= nul[q]; break;
                case REFN: e = nul[rule_node[x.rule]]; break;
                }
                if (e) { nul[k] = 1; ch = true; }
            }
        }
        std::vector<std::vector<int>> to(K);
        for (size_t k = 0; k < K; ++k)
        {
            const N &x = n[k];
            if (x.t == SEQ) { if (nul[x.b]) to[k].push_back(x.a); if (nul[x.a]) to[k].push_back(x.b); }
            if (x.t == ALT) to[k] = x.kids;
            if (x.t == REFN) to[k].push_back(rule_node[x.rule]);
        }
        // Peel off what leads nowhere, what remains is on or leads to a cycle.
        std::vector<char> done(K, 0);
        for (bool ch = true; ch; )
        {
            ch = false;
            for (size_t k = 0; k < K; ++k)
            {
                if (done[k]) continue;
                bool all = true; for (int q : to[k]) all &= done[q];
                if (all) { done[k] = 1; ch = true; }
            }
        }
        for (size_t k = 0; k < K; ++k) if (!done[k]) return true;
        return false;
    }
    // Does the first rule derive any text at all?
    bool productive() const
    {
        size_t K = n.size(); std::vector<char> p(K, 0);
        for (bool ch = true; ch; )
        {
            ch = false;
            for (size_t k = 0; k < K; ++k)
            {
                if (p[k]) continue;
                const N &x = n[k]; bool e = false;
                switch (x.t)
                {
                case EMPTY: case TEXT: case CH: e = true; break;
                case SEQ: e = p[x.a] && p[x.b]; break;
                case ALT: for (int q : x.kids) e |= p[q]; break;
                case REFN: e = p[rule_node[x.rule]]; break;
                }
                if (e) { p[k] = 1; ch = true; }
            }
        }
        return p[rule_node[0]];
    }
    // Number of derivations of the input, grows without bounds only in grammars with loops.
    std::map<std::vector<int>, double> cmemo;
    double count(int k, int i, int j)
    {
        if (!(R[k][i] >> j & 1)) return 0;
        const N &x = n[k];
        if (x.t == EMPTY || x.t == TEXT || x.t == CH) return 1;
        std::vector<int> key = {k, i, j};
        auto it = cmemo.find(key); if (it != cmemo.end()) return it->second;
        double s = 0;
        if (x.t == REFN) s = count(rule_node[x.rule], i, j);
        if (x.t == ALT) for (int q : x.kids) s += count(q, i, j);
        if (x.t == SEQ) for (int m = i; m <= j; ++m) if (R[x.a][i] >> m & 1) { double b = count(x.b, m, j); if (b > 0) s += count(x.a, i, m)*b; }
        return cmemo[key] = s;
    }
    double derivations() { cmemo.clear(); return count(rule_node[0], 0, in.size()); }
    // recogniser
    std::vector<int> in; std::vector<std::vector<uint32_t>> R;
    bool matches(const N &x, int c) const { return x.set ? x.set->has(c) : x.cp == c; }
    void load(const std::vector<int> &input)
    {
        in = input; int L = in.size();
        R.assign(n.size(), std::vector<uint32_t>(L+1, 0));
        for (bool ch = true; ch; )
        {
            ch = false;
            for (size_t k = n.size(); k-- > 0; )
            {
                const N &x = n[k];
                for (int i = 0; i <= L; ++i)
                {
                    uint32_t m = 0;
                    switch (x.t)
                    {
                    case EMPTY: case TEXT: m = 1u << i; break;
                    case CH: if (i < L && matches(x, in[i])) m = 1u << (i+1); break;
                    case SEQ: for (int j = i; j <= L; ++j) if (R[x.a][i] >> j & 1) m |= R[x.b][j]; break;
                    case ALT: for (int q : x.kids) m |= R[q][i]; break;
                    case REFN: m = R[rule_node[x.rule]][i]; break;
                    }
                    if ((m | R[k][i]) != R[k][i]) { R[k][i] |= m; ch = true; }
                }
            }
        }
        memo.clear(); busy.clear(); cyclic = capped = false; work = 0;
    }
    bool accepts() const { return R[rule_node[0]][0] >> in.size() & 1; }
    // derivations
    struct Frag
    {
        Str body, text; std::vector<std::pair<Str,Str>> attrs; bool dup = false;
        bool operator<(const Frag &o) const { return std::tie(body, text, attrs, dup) < std::tie(o.body, o.text, o.attrs, o.dup); }
    };
    bool cyclic = false, capped = false; size_t cap = 60; size_t work = 0;
    std::map<std::vector<int>, std::set<Frag>> memo; std::set<std::vector<int>> busy;
    Frag wrap(char mark, const Str &name, Frag f)
    {
        if (mark == '-') return f;
        if (mark == '@')
        {
            f.body.clear(); f.attrs.clear(); f.attrs.push_back({name, f.text}); f.dup = false;
            return f;
        }
        Str s = "\1" + name; std::sort(f.attrs.begin(), f.attrs.end());
        for (size_t k = 0; k < f.attrs.size(); ++k) { s += "\2" + f.attrs[k].first + "\3" + f.attrs[k].second; if (k && f.attrs[k].first == f.attrs[k-1].first) f.dup = true; }
        s += "\4" + f.body + "\5"; f.body = s; f.attrs.clear();
        return f;
    }
    const std::set<Frag> &derive(int k, int i, int j)
    {
        static const std::set<Frag> none;
        std::vector<int> key = {k, i, j};
        auto it = memo.find(key); if (it != memo.end()) return it->second;
        if (!busy.insert(key).second) { cyclic = true; return none; }
        std::set<Frag> out; const N x = n[k];
        if (++work > 20000) capped = true;
        if (capped || cyclic) { }
        else switch (x.t)
        {
        case EMPTY: if (i == j) out.insert(Frag()); break;
        case TEXT: if (i == j) { Frag f; f.body = f.text = x.text; out.insert(f); } break;
        case CH: if (j == i+1 && matches(x, in[i])) { Frag f; if (x.mark != '-') f.body = f.text = utf8(in[i]); out.insert(f); } break;
        case SEQ:
            for (int m = i; m <= j && !capped && !cyclic; ++m)
            {
                if (!(R[x.a][i] >> m & 1) || !(R[x.b][m] >> j & 1)) continue;
                auto &A = derive(x.a, i, m); auto &B = derive(x.b, m, j);
                for (auto &a : A) for (auto &b : B)
                {
                    Frag f = a; f.body += b.body; f.text += b.text; f.attrs.insert(f.attrs.end(), b.attrs.begin(), b.attrs.end()); f.dup |= b.dup;
                    out.insert(f);
                    if (out.size() > cap) { capped = true; break; }
                }
            }
            break;
        case ALT: for (int q : x.kids) if (R[q][i] >> j & 1) { auto &A = derive(q, i, j); out.insert(A.begin(), A.end()); if (out.size() > cap) capped = true; } break;
        case REFN:
        {
            const Rule &u = G->rules[x.rule];
            for (auto f : derive(rule_node[x.rule], i, j)) out.insert(wrap(x.mark ? x.mark : u.mark, u.alias.empty() ? u.name : u.alias, f));
            break;
        }
        }
        busy.erase(key);
        return memo[key] = out;
    }
    // All serialisations of the input.
    std::set<Str> trees(bool &dup)
    {
        std::set<Str> r; const Rule &u = G->rules[0]; dup = false;
        for (auto f : derive(rule_node[0], 0, in.size())) { Frag w = wrap(0, u.alias.empty() ? u.name : u.alias, f); dup |= w.dup; r.insert(w.body); }
        return r;
    }
    // A random derivable string, or false when it gets too long.
    bool sample(Gen &g, int k, std::vector<int> &out, int &fuel, const std::vector<int> &alphabet)
    {
        if (--fuel < 0 || out.size() > 14) return false;
        const N &x = n[k];
        switch (x.t)
        {
        case EMPTY: case TEXT: return true;
        case CH:
            if (!x.set) { out.push_back(x.cp); return true; }
            { std::vector<int> ok; for (int c : alphabet) if (x.set->has(c)) ok.push_back(c); if (ok.empty()) return false; out.push_back(g.of(ok)); return true; }
        case SEQ: return sample(g, x.a, out, fuel, alphabet) && sample(g, n[k].b, out, fuel, alphabet);
        case ALT: return sample(g, x.kids[g.below(x.kids.size())], out, fuel, alphabet);
        case REFN: return sample(g, rule_node[x.rule], out, fuel, alphabet);
        }
        return false;
    }
};
static Str to_text(const std::vector<int> &v) { Str s; for (int c : v) s += utf8(c); return s; }
// Same canonical form as Core::wrap.
static Str canon(xmlNode *e)
{
    Str s;
    for (xmlNode *n = e; n; n = n->next)
    {
        if (n->type == XML_TEXT_NODE) { s += (const char*)n->content; continue; }
        if (n->type != XML_ELEMENT_NODE) { s += strf("?%d", n->type); continue; }
        s += "\1" + Str((const char*)n->name);
        std::vector<std::pair<Str,Str>> at;
        for (xmlAttr *a = n->properties; a; a = a->next) { Str v; for (xmlNode *t = a->children; t; t = t->next) v += t->content ? (const char*)t->content : "?"; at.push_back({(const char*)a->name, v}); }
        std::sort(at.begin(), at.end());
        for (auto &a : at) s += "\2" + a.first + "\3" + a.second;
        s += "\4" + canon(n->children) + "\5";
    }
    return s;
}
static Str show(const Str &canonical)
{
    Str s; std::vector<Str> names; Str cur; int st = 0;
    for (char ch : canonical)
    {
        if (ch == 1) { s += "<"; } else if (ch == 2) s += " "; else if (ch == 3) s += "="; else if (ch == 4) s += ">"; else if (ch == 5) s += "</>"; else s += ch;
    }
    (void)st; return s;
}
} // namespace ix
