// T07: every run of a compiled stylesheet equals the run of a freshly compiled one, whatever was run before it.
#include "xslt_bind.hpp"
using namespace xb;
// what each stylesheet does where the source says so: FAIL stops the run in the middle of it
static const S FAIL = "<xsl:if test='@f'><xsl:message terminate='yes'>stop</xsl:message></xsl:if>";
static const std::vector<S> SHEETS = {
  "<xsl:template match='/'><o><xsl:apply-templates/></o></xsl:template><xsl:template match='a'><e k='{@i}'><xsl:attribute name='z'>q" + FAIL + "</xsl:attribute><xsl:apply-templates/></e></xsl:template>",
  "<xsl:output cdata-section-elements='cd'/><xsl:template match='/'><cd>a&lt;<xsl:apply-templates/>]]&gt;b</cd></xsl:template><xsl:template match='a'><xsl:comment>c" + FAIL + "</xsl:comment><cd>d</cd><xsl:processing-instruction name='p'>e<xsl:value-of select='@i'/></xsl:processing-instruction></xsl:template>",
  "<xsl:output method='text'/><xsl:template match='/'><xsl:text>t&lt;</xsl:text><xsl:apply-templates/></xsl:template><xsl:template match='a'>[<xsl:value-of select='@i'/>" + FAIL + "]</xsl:template>",
  "<xsl:output indent='yes' doctype-system='d'/><xsl:template match='/'><o><xsl:apply-templates select='//a'><xsl:sort select='@i' order='descending'/></xsl:apply-templates></o></xsl:template><xsl:template match='a'><x><y><xsl:value-of select='concat(position(), last())'/>" + FAIL + "</y></x></xsl:template>",
  "<xsl:param name='p' select=\"'d'\"/><xsl:variable name='g'><v><xsl:for-each select='//a'>" + FAIL + "<xsl:value-of select='@i'/></xsl:for-each></v></xsl:variable><xsl:variable name='h' select=\"concat($p, $g, count(//a))\"/><xsl:template match='/'><o p='{$p}'><xsl:value-of select='$h'/><xsl:copy-of select='$g'/></o></xsl:template>",
  "<xsl:key name='k' match='a' use='@i'/><xsl:template match='/'><o><xsl:apply-templates select='//a' mode='m'/></o></xsl:template><xsl:template match='a' mode='m'><n c=\"{count(key('k', @i))}\"><xsl:value-of select=\"key('k', '1')\"/>" + FAIL + "<xsl:apply-templates select='.'/></n></xsl:template><xsl:template match='a'>plain</xsl:template>",
  "<xsl:template match='/'><o xmlns='urn:d' xmlns:q='urn:q'><xsl:apply-templates/></o></xsl:template><xsl:template match='a'><q:e xmlns:q='urn:q' q:k='1'><xsl:element name='w:f' namespace='urn:w'><xsl:attribute name='k' namespace='urn:k'>1</xsl:attribute>" + FAIL + "<xsl:copy-of select='.'/></xsl:element></q:e></xsl:template>",
  "<xsl:template match='/'><o><xsl:call-template name='t'><xsl:with-param name='n' select='//a'/></xsl:call-template></o></xsl:template><xsl:template name='t'><xsl:param name='n'/><xsl:param name='d' select='0'/><xsl:for-each select='$n[1]'>" + FAIL + "<xsl:variable name='x' select='@i'/><xsl:message>m<xsl:value-of select='$x'/></xsl:message><l d='{$d}'><xsl:value-of select='$x'/></l></xsl:for-each><xsl:if test='count($n) &gt; 1'><xsl:call-template name='t'><xsl:with-param name='n' select='$n[position() &gt; 1]'/><xsl:with-param name='d' select='$d + 1'/></xsl:call-template></xsl:if></xsl:template>",
  "<xsl:param name='p'/><xsl:template match='/'><o><xsl:text disable-output-escaping='yes'>&lt;</xsl:text><xsl:for-each select='//a'><xsl:variable name='w'><i><xsl:attribute name='j'><xsl:value-of select='@i'/></xsl:attribute>" + FAIL + "<xsl:value-of select='.'/></i></xsl:variable><xsl:message><xsl:copy-of select='$w'/></xsl:message><xsl:copy-of select='$w'/></xsl:for-each>&lt;<xsl:value-of select='$p' disable-output-escaping='yes'/></o></xsl:template>",
  "<xsl:output omit-xml-declaration='yes'/><xsl:template match='/'><xsl:apply-templates select='//a[1]'/></xsl:template><xsl:template match='a'><xsl:message>n<xsl:comment>c</xsl:comment><e><xsl:attribute name='q'>r" + FAIL + "</xsl:attribute></e></xsl:message><xsl:copy><xsl:copy-of select='@*'/><xsl:value-of select=\"$undefined-if-failing | .\"/></xsl:copy></xsl:template><xsl:variable name='undefined-if-failing' select='//b'/>",
  "<xsl:template match='/'><o><xsl:apply-templates select='//a'/></o></xsl:template><xsl:template match='a' priority='2'><e><xsl:choose><xsl:when test='@f'><xsl:value-of select=\"key('nokey', '1')\"/></xsl:when><xsl:otherwise>ok<xsl:apply-templates/></xsl:otherwise></xsl:choose></e></xsl:template>",
};
static const std::vector<S> DOCS = {"<r><a i='1'>x&amp;</a><a i='2'>y<b/></a></r>", "<r><a i='3'><a i='1'/></a>t</r>", "<r><a i='1'>x</a><a i='2' f='1'>y</a></r>", "<r/>"};
static S text(const S& b) { return "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'>" + b + "</xsl:stylesheet>"; }
struct Out { bool err = false; S out, msg; bool operator==(const Out& o) const { return err == o.err && msg == o.msg && (err || out == o.out); } S show() const { return (err ? S("error ") : S("ok ")) + out + " messages " + msg; } };
struct Kept { std::stringstream os; StreamSink sink; Kept() : sink(os) {} };
// sink 0 a new stream, 1 the stream sink used before, 2 a new DOM, 3 a stream that stops accepting output
static Out run(Sheet& s, N src, int sink, Kept& k) {
  Out r; std::stringstream e; s.set_error_output(e); std::stringstream os; StreamSink fresh(os); DOMSink dom; k.os.str(""); k.os.clear();
  if (sink == 0) s.set_output(fresh); else if (sink == 1) s.set_output(k.sink); else s.set_output(dom);
  try { s.execute(src); } catch (std::exception& x) { r.err = true; }
  if (sink == 0) r.out = os.str(); else if (sink == 1) r.out = k.os.str(); else { N n = dom.node(); if (!(n == 0)) r.out = canon(n, true); }
  s.set_error_output(std::cerr); r.msg = e.str(); return r;
}
struct Expected { std::map<S, Out> m; Out& get(int sheet, int doc, int node, int sink, int param) { S k = std::to_string(sheet) + "," + std::to_string(doc) + "," + std::to_string(node) + "," + std::to_string(sink == 1 ? 0 : sink) + "," + std::to_string(param); auto f = m.find(k); if (f != m.end()) return f->second;
  Lib l(text(SHEETS[sheet])); Doc d = parseDoc(DOCS[doc]); if (param) l.sheet->set_parameter("p", S(1, char('0' + param))); Kept kept; return m[k] = run(*l.sheet, node ? N(d.getDocumentElement()) : N(d), sink == 1 ? 0 : sink, kept); } };
static Expected& expected() { static Expected e; return e; }
static void runs(mc::Ctx& c) {
  int a = c.choose((int)SHEETS.size()); int depth = c.bound(3, 4); Lib l(text(SHEETS[a])); if (!l.sheet) { c.fail("does not compile", SHEETS[a] + "\n" + l.error); return; } Kept kept; std::vector<Doc> d; for (auto& x : DOCS) d.push_back(parseDoc(x)); S hist; int param = 0; bool params = SHEETS[a].find("xsl:param name='p'") != S::npos;
  for (int k = 0; k < depth; ++k) {
    int doc = c.choose(4), sink = c.choose(3), node = c.choose(2); int p = params && sink < 2 ? c.choose(3) : 0; if (p) { param = p; l.sheet->set_parameter("p", S(1, char('0' + p))); }
    S before = canon(d[doc]); Out got = run(*l.sheet, node ? N(d[doc].getDocumentElement()) : N(d[doc]), sink, kept); c.transition(); Out& want = expected().get(a, doc, node, sink, param);
    hist += " run(doc" + std::to_string(doc) + (node ? " element" : "") + (sink == 0 ? " stream" : sink == 1 ? " same stream" : " dom") + (p ? " p=" + std::to_string(p) : "") + ")";
    if (!(got == want)) { c.fail("differs from a fresh run", SHEETS[a] + "\n" + hist + "\nfresh  " + want.show() + "\nreused " + got.show()); return; }
    if (canon(d[doc]) != before) { c.fail("source changed", SHEETS[a] + "\n" + hist + "\n" + before + "\n" + canon(d[doc])); return; }
    c.state(std::to_string(a) + hist);
  }
}
// two stylesheets, compiled by one compiler, run in every order
static void two(mc::Ctx& c) {
  int a = c.choose((int)SHEETS.size()), b = c.choose((int)SHEETS.size()); Compiler comp; std::unique_ptr<Sheet> s[2]; for (int i = 0; i < 2; ++i) { std::stringstream ss(text(SHEETS[i ? b : a])); Arabica::SAX::InputSource<S> is(ss); s[i] = comp.compile(is); if (!s[i]) { c.fail("does not compile", SHEETS[i ? b : a] + comp.error()); return; } }
  int depth = c.bound(3, 4); Kept kept; std::vector<Doc> d; for (auto& x : DOCS) d.push_back(parseDoc(x)); S hist;
  for (int k = 0; k < depth; ++k) { int w = c.choose(2), doc = c.choose(3), sink = 1; Out got = run(*s[w], d[doc], sink, kept); c.transition(); Out& want = expected().get(w ? b : a, doc, 0, sink, 0); hist += " sheet" + std::to_string(w) + "(doc" + std::to_string(doc) + ")"; if (!(got == want)) { c.fail("differs after another stylesheet", SHEETS[a] + "\n" + SHEETS[b] + "\n" + hist + "\nfresh  " + want.show() + "\nreused " + got.show()); return; } c.state(std::to_string(a) + "," + std::to_string(b) + hist); }
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"runs", runs}, {"two", two}}); }
