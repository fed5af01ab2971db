// T02: variable and parameter scoping against the reference processor
#include "xslt_bind.hpp"
using namespace xb;
static const char* const DOC = "<r><a>1</a><c><b>2</b></c></r>";
static Gen gen() {
  Gen g; g.emptyBoxes = false;
  g.leaf = {"[<xsl:value-of select='$x'/>]", "[<xsl:value-of select='$y'/>]", "<xsl:variable name='x' select=\"'lx'\"/>", "<xsl:variable name='y' select='concat($x,1)'/>", "<xsl:call-template name='t'/>", "<xsl:call-template name='u'><xsl:with-param name='y' select='$x'/></xsl:call-template>", "<xsl:call-template name='t'><xsl:with-param name='x' select=\"'p'\"/><xsl:with-param name='y' select='$x'/></xsl:call-template>", "<xsl:apply-templates/>", "<xsl:apply-templates select='*'><xsl:with-param name='x' select=\"concat($x,'q')\"/></xsl:apply-templates>"};
  g.box = {{"<xsl:if test='1'>", "</xsl:if>"}, {"<xsl:for-each select='*'>", "</xsl:for-each>"}, {"<xsl:choose><xsl:when test=\"$x='lx'\">", "</xsl:when><xsl:otherwise>o<xsl:variable name='y' select='5'/></xsl:otherwise></xsl:choose>"}, {"<xsl:choose><xsl:when test='0'/><xsl:otherwise>", "</xsl:otherwise></xsl:choose>"}, {"<e>", "</e>"}, {"<xsl:element name='f'>", "</xsl:element>"}, {"<g><xsl:attribute name='k'>", "</xsl:attribute></g>"}, {"<xsl:copy>", "</xsl:copy>"}, {"<xsl:comment>", "</xsl:comment>"}, {"<xsl:processing-instruction name='p'>", "</xsl:processing-instruction>"}, {"<xsl:message>", "</xsl:message>"}, {"<xsl:variable name='y'>", "</xsl:variable>"}, {"<xsl:call-template name='t'><xsl:with-param name='x'>", "</xsl:with-param></xsl:call-template>"}, {"<xsl:apply-templates><xsl:with-param name='y' select='8'/><xsl:with-param name='x'>", "</xsl:with-param></xsl:apply-templates>"}};
  return g;
}
static const char* const REST = "<xsl:template name='t'><xsl:param name='x' select=\"'dx'\"/><xsl:param name='y' select='concat($x,9)'/>t(<xsl:value-of select='$x'/>,<xsl:value-of select='$y'/>)</xsl:template>"
  "<xsl:template name='u'><xsl:param name='y'>dy</xsl:param>u(<xsl:value-of select='$x'/>,<xsl:value-of select='$y'/>,<xsl:call-template name='t'/>)</xsl:template>"
  "<xsl:template match='a|b'><xsl:param name='x' select=\"'ax'\"/>a(<xsl:value-of select='$x'/>,<xsl:value-of select='$y'/>)</xsl:template>";
static void cmp(mc::Ctx& c, const char* sig, Src& src, const S& s, const S& what, const Ps& ps, bool twice) {
  c.transition(); Res r = ref(s, src, ps); Lib l(s); Res x = l.dom(src.d, ps);
  if (!r.same(x)) c.fail(sig, what + "\nreference " + r.show() + "\nlibrary   " + x.show());
  else if (twice && l.sheet) { x = l.dom(src.d); Res r2 = ps.empty() ? r : r; if (!r2.same(x)) c.fail("second-run", what + "\nfirst  " + r2.show() + "\nsecond " + x.show()); }
}
static void trees(mc::Ctx& c) {
  Gen g = gen(); int w = c.choose(3); int n = 1 + c.choose(c.bound(3, 3)); Src src(DOC);
  const auto& v = g.seq(n); size_t per = 250; int p = c.choose((int)((v.size() + per - 1) / per));
  static const char* const glob[] = {"<xsl:variable name='x' select=\"'gx'\"/><xsl:variable name='y' select=\"'gy'\"/>", "<xsl:param name='x'>gx</xsl:param><xsl:param name='y' select='$x'/>", "<xsl:variable name='y'><xsl:call-template name='t'/></xsl:variable><xsl:param name='x' select=\"'px'\"/>"};
  for (size_t i = p * per; i < v.size() && i < (p + 1) * per; ++i) {
    S b = "<xsl:template match='/*'><o>" + v[i] + "</o></xsl:template>";
    cmp(c, "scope", src, wrap(glob[w] + b + REST), S(glob[w]) + " body " + v[i], {}, true);
    if (w) cmp(c, "scope", src, wrap(b + REST + glob[w]), S(glob[w]) + " with x=ext, body " + v[i], {{"x", 0, "ext", 0}}, true);
  }
  c.state(std::to_string(w) + "/" + std::to_string(n) + "/" + std::to_string(p));
}
// two-level nesting with the parameters of the template itself bound
static void params(mc::Ctx& c) {
  Gen g = gen(); int n = 1 + c.choose(c.bound(2, 2)); Src src(DOC); const auto& v = g.seq(n); size_t per = 150; int p = c.choose((int)((v.size() + per - 1) / per));
  for (size_t i = p * per; i < v.size() && i < (p + 1) * per; ++i) {
    S b = "<xsl:variable name='x' select=\"'gx'\"/><xsl:variable name='y' select=\"'gy'\"/><xsl:template match='/*'><o><xsl:call-template name='m'><xsl:with-param name='x' select='7'/></xsl:call-template>;<xsl:call-template name='m'/></o></xsl:template><xsl:template name='m'><xsl:param name='x' select='0'/>" + v[i] + "</xsl:template>";
    cmp(c, "params", src, wrap(b + REST), "template m with param x, body " + v[i], {}, true);
  }
  c.state("p" + std::to_string(n) + "/" + std::to_string(p));
}
// global definitions in every dependency shape, order and kind
static void globals(mc::Ctx& c) {
  static const std::vector<S> E = {"'1'", "$a", "$b", "$c", "concat($a,$b)", "concat($c,'z')", "$nope"}; Src src(DOC);
  int e0 = c.choose((int)E.size()), e1 = c.choose((int)E.size());
  for (size_t e2 = 0; e2 < E.size(); ++e2) for (int kinds = 0; kinds < 8; ++kinds) for (int given = 0; given < 4; ++given) {
    static const char* nm[] = {"a", "b", "c"}; size_t es[] = {(size_t)e0, (size_t)e1, e2}; S s; for (int i = 0; i < 3; ++i) { S k = kinds >> i & 1 ? "param" : "variable"; s += "<xsl:" + k + " name='" + nm[i] + "' select=\"" + E[es[i]] + "\"/>"; }
    Ps ps; if (given & 1) ps.push_back({"a", 0, "A", 0}); if (given & 2) { ps.push_back({"b", 0, "B0", 0}); ps.push_back({"b", 1, "", 5}); ps.push_back({"zz", 2, "", 1}); }
    cmp(c, "globals", src, wrap(s + "<xsl:template match='/'><xsl:value-of select=\"concat($a,'|',$b,'|',$c)\"/></xsl:template>"), s + " given " + std::to_string(given), ps, true);
  }
  c.state(std::to_string(e0) + "," + std::to_string(e1));
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"trees", trees}, {"params", params}, {"globals", globals}}); }
