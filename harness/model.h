// Document model, generators, spellings and canonical dumps.
#pragma once
#include "engine.h"
#include <libxml/tree.h>
#include <libxml/parser.h>
extern "C" {
#include "xmq.h"
// Exported by the library and used by its own command line tool.
bool xmqParseBufferWithType(XMQDoc *doc, const char *start, const char *stop, const char *implicit_root, XMQContentType ct, int flags);
bool xmqParseBufferWithIXML(XMQDoc *doc, const char *start, const char *stop, XMQDoc *ixml_grammar, int flags);
bool xmqParseFileWithType(XMQDoc *doc, const char *file, const char *implicit_root, XMQContentType ct, int flags);
}

enum Kind { ELEM, TEXT, COMMENT, PI, ENT, DOCTYPE };
struct Node;
struct Attr { Str name; bool has_value = true; std::vector<Node> value; };
struct Node
{
    Kind kind = TEXT;
    Str name;   // element, pi target, entity name
    Str text;   // text, comment, pi data, doctype content
    bool has_text = true; // pi without data
    std::vector<Attr> attrs;
    std::vector<Node> kids;
};
Node mk_text(const Str &s);
Node mk_ent(const Str &name);
Node mk_comment(const Str &s);
Node mk_elem(const Str &name);

struct DumpOpts
{
    bool decode_char_ents = true;  // &#10; -> newline, then merged with text
    bool merge = true;             // merge adjacent text
    bool drop_empty = true;        // drop empty text nodes
    bool strip_ws = false;         // remove all xml whitespace from text, drop if empty
    bool no_ns_order = false;      // sort xmlns declarations
    bool empty_attr_same = false;  // a and a="" are the same
    bool no_comments = false, no_pi = false, no_doctype = false;
    bool loose_comments = false;   // ignore leading/trailing blanks of every line of a comment, and blank first/last lines
    bool doctype_ws = false;       // all whitespace in a doctype is the same
    bool pi_ws = false;            // newlines and spaces in a pi are the same
};
// Canonical text of a document, one node per line.
Str dump(const std::vector<Node> &doc, const DumpOpts &o = DumpOpts());
std::vector<Node> from_xml(xmlDoc *doc);
std::vector<Node> from_xml_nodes(xmlNode *first);
// Names with resolved namespaces of every element and attribute, in order.
Str dump_ns(xmlDoc *doc);
void normalise(std::vector<Node> &v, const DumpOpts &o);
// No blanks at the start or end of any line, no blank first or last line.
bool clean_comment(const Str &s);
Str loose_comment(const Str &s);
void all_comments(const std::vector<Node> &v, std::vector<Str> &out);

Str utf8(uint32_t cp);
bool utf8_decode(const Str &s, size_t &i, uint32_t &cp);

// ---- generators
struct TextOpts { bool newlines=true, tabs=true, cr=true, unicode=true, controls=false; size_t max=24; };
Str gen_text(Gen &g, const TextOpts &o = TextOpts());  // may be empty
Str gen_name(Gen &g);            // ncname, ascii
Str gen_comment_text(Gen &g, bool for_xml);
struct DocOpts
{
    bool comments = true, pis = true, doctype = true, ents = true, named_ents = true, ns = true;
    bool multi_root = false, root_text = false;
    bool xml = true;              // the document must be representable as XML
    bool attr_noval = false;
    int budget = 14;
    TextOpts text;
};
std::vector<Node> gen_doc(Gen &g, const DocOpts &o);
// XML serialisation of the model (the model must be XML representable). Random spelling from g.
Str to_xml_text(Gen &g, const std::vector<Node> &doc, Ctx *c = nullptr);

// ---- library wrappers
struct XDoc
{
    XMQDoc *doq;
    XDoc() : doq(xmqNewDoc()) {}
    ~XDoc() { if (doq) xmqFreeDoc(doq); }
    XDoc(const XDoc&) = delete;
    bool parse(const Str &s, XMQContentType ct, int flags = 0, const char *root = nullptr);
    Str err() { const char *e = xmqDocError(doq); return e ? e : ""; }
    xmlDoc *xml() { return (xmlDoc*)xmqGetImplementationDoc(doq); }
    std::vector<Node> model() { return from_xml(xml()); }
};
struct PrintOpts
{
    XMQContentType ct = XMQ_CONTENT_XMQ;
    bool compact=false, esc_nl=false, esc_non7=false, esc_tab=false, omit_decl=false;
    int indent = 4;
    XMQRenderFormat render = XMQ_RENDER_PLAIN;
    bool color=false, dark=false, raw=false;
    const char *theme = nullptr;
};
Str print(XMQDoc *doq, const PrintOpts &o);
Str show_opts(const PrintOpts &o);
// First difference of two texts, for messages.
Str diff(const Str &a, const Str &b);
struct Quiet { Quiet(); };
void libxml_quiet();
