// T05: key() against an independent reference, over documents, declarations, lookups, contexts, and runs with changes between them.
#include "xslt_bind.hpp"
using namespace xb;
static const std::vector<S> DOCS = {
  "<r><a i='1' j='2'>x</a><b i='1'>y</b><a i='2'>x</a><c><a i='3' j='1'>z</a><b i='x'/></c></r>",
  "<r><a i='1'/></r>",
  "<r><a i='x'><a i='x' j='x'>x<b>x</b></a></a><a i='1'><b i='1'>1</b><b i='1'>2</b></a></r>",
  "<r i='1'>1<a i=''>1</a><!--1--><?p 1?><b/><a i='1 2'/><a i='true'/><a i='NaN'/></r>",
  "<r xmlns:p='urn:p'><p:a i='1' p:i='2'>x</p:a><a i='2' p:i='1'>1</a></r>"};
static const std::vector<S> MATCH = {"a", "b", "*", "a|b", "@i", "@*", "text()", "a[@j]", "r/a", "/", "node()", "c//a", "comment()|processing-instruction()", "p:a", "@p:i"};
static const std::vector<S> USE = {"@i", "@*", ".", "string(@i)", "@i|@j", "b/@i", "count(*)", "'1'", "true()", "*", "position()", "../@i", "number(@i)", "name()", "current()/@i", "last()"};
static const std::vector<S> VAL = {"'1'", "1", "'x'", "/r/a/@i", "//@*", "true()", "''", "//b", "'2'", "/r/none", "number('q')", "concat('1', '')", "'a'"};
static S sheet(const S& keys, const S& body) { return "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform' xmlns:p='urn:p' xmlns:k='urn:k' xmlns:l='urn:k'>" + keys + "<xsl:template match='/'><o>" + body + "</o></xsl:template></xsl:stylesheet>"; }
static S decl(const S& n, int m, int u) { return "<xsl:key name='" + n + "' match='" + MATCH[m] + "' use=\"" + USE[u] + "\"/>"; }
// prints each node found: its name, its position among all nodes, and its value
static S show(const S& sel) { return "<s><xsl:for-each select=\"" + sel + "\"><n k='{name()}' d='{count(ancestor::node())}' p='{count(preceding::node())}' c='{count(../@*)}'><xsl:value-of select='.'/></n></xsl:for-each></s>"; }
static void one(mc::Ctx& c, const char* what, Src& src, const S& s) { c.transition(); Res r = ref(s, src); Lib l(s); Res t = l.dom(src.d); if (!r.same(t)) c.fail(what, s + "\nreference " + r.show() + "\nlibrary   " + t.show() + "\nsource " + src.xml); }
static void lookups(mc::Ctx& c) { // one declaration, every lookup value, from several contexts
  int d = c.choose((int)DOCS.size()), m = c.choose((int)MATCH.size()); Src src(DOCS[d]);
  for (size_t u = 0; u < USE.size(); ++u) { S body; for (auto& v : VAL) body += show("key('k', " + v + ")"); body += "<xsl:for-each select='//*|//@*'><e>" + show("key('k', .)") + show("key('k', @i)") + show("key('k', '1')[2]/ancestor-or-self::*") + "<xsl:value-of select=\"count(key('k', '1')) + count(key('k', //@i) | .)\"/></e></xsl:for-each>"; one(c, "lookup", src, sheet(decl("k", m, (int)u), body)); }
  c.state(std::to_string(d) + "," + std::to_string(m));
}
static void pairs(mc::Ctx& c) { // two declarations with the same or different names
  int d = c.choose((int)DOCS.size()), m1 = c.choose(8), m2 = c.choose((int)MATCH.size()); Src src(DOCS[d]);
  for (int u1 = 0; u1 < 6; ++u1) for (int u2 = 0; u2 < 8; ++u2) for (int same = 0; same < 2; ++same) { S body; for (auto& v : VAL) body += show("key('k', " + v + ")"); for (auto& v : {VAL[0], VAL[2], VAL[4]}) body += show("key('j', " + v + ")"); body += show("key('k', '1') | key('j', 'x')") + show("key('k', key('j', '1'))"); one(c, "declarations", src, sheet(decl("k", m1, u1) + decl(same ? "k" : "j", m2, u2) + (same ? decl("j", 0, 0) : ""), body)); }
  c.state(std::to_string(d) + "," + std::to_string(m1) + "," + std::to_string(m2));
}
static void names(mc::Ctx& c) { // key names are expanded names
  static const std::vector<S> N = {"k", "k:k", "l:k", "p:k", "j"}; Src src(DOCS[0]); int a = c.choose(5), b = c.choose(5);
  for (auto& q : N) for (auto& v : {"'1'", "'x'"}) one(c, "names", src, sheet(decl(N[a], 0, 0) + decl(N[b], 1, 2), "<a>" + show("key('" + q + "', " + v + ")") + "</a>"));
  c.state(std::to_string(a) + std::to_string(b));
}
// ---- several runs of one stylesheet, the documents changing between them ----
static void xmlOf(N n, S& o) {
  auto esc = [](const S& s) { S r; for (char ch : s) r += ch == '<' ? "&lt;" : ch == '&' ? "&amp;" : ch == '"' ? "&quot;" : S(1, ch); return r; };
  if (n.getNodeType() == NB::TEXT_NODE) o += esc(n.getNodeValue()); if (n.getNodeType() == NB::ELEMENT_NODE) { o += "<" + n.getNodeName(); NM m = n.getAttributes(); for (unsigned i = 0; i < m.getLength(); ++i) o += " " + m.item(i).getNodeName() + "=\"" + esc(m.item(i).getNodeValue()) + "\""; o += ">"; }
  for (N k = n.getFirstChild(); !(k == 0); k = k.getNextSibling()) xmlOf(k, o); if (n.getNodeType() == NB::ELEMENT_NODE) o += "</" + n.getNodeName() + ">";
}
static void histories(mc::Ctx& c) {
  static const char* FRESH[] = {"<r><a i='1'>p</a><b i='2'/></r>", "<r><a i='2'>q</a><a i='1'><b i='1'/></a></r>", "<r><b i='1'/><a i='3'/></r>"};
  S s = sheet(decl("k", 3, 0) + decl("k", 4, 2), show("key('k', '1')") + show("key('k', //@i)") + show("key('k', '9')")); Lib l(s); Doc d[2] = {parseDoc(FRESH[0]), parseDoc(FRESH[1])}; int depth = c.bound(4, 5); S hist;
  for (int k = 0; k < depth; ++k) {
    int op = c.choose(9), w = op < 8 ? op & 1 : 0; S was; auto root = d[w].getDocumentElement();
    if (op >= 2 && op < 4) { if (root.getFirstChild() == 0) { c.prune(); return; } static_cast<Arabica::DOM::Element<S>>(root.getFirstChild()).setAttribute("i", "9"); hist += " set"; }
    else if (op >= 4 && op < 6) { auto e = d[w].createElement("a"); e.setAttribute("i", "1"); root.insertBefore(e, root.getFirstChild()); hist += " add"; }
    else if (op >= 6 && op < 8) { if (root.getFirstChild() == 0) { c.prune(); return; } root.removeChild(root.getFirstChild()); hist += " remove"; }
    else if (op == 8) { d[0] = Doc(); d[0] = parseDoc(FRESH[2]); hist += " replace"; }
    hist += std::to_string(w);
    for (int q = 0; q < 2; ++q) { int x = q ? 1 - w : w; if (q && op < 2) break; S xml; xmlOf(d[x].getDocumentElement(), xml); Src fresh(xml); c.transition(); Res want = ref(s, fresh), got = l.dom(d[x]); hist += " run" + std::to_string(x); if (!want.same(got)) { c.fail("stale", hist + "\nreference " + want.show() + "\nlibrary   " + got.show() + "\nsource " + xml); return; } }
    c.state(std::to_string(k) + s + hist);
  }
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"lookups", lookups}, {"pairs", pairs}, {"names", names}, {"histories", histories}}); }
