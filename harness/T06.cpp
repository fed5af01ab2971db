// T06: instruction trees against the reference processor
#include "xslt_bind.hpp"
using namespace xb;
static const char* const DOCS[] = {
  "<r a='1'><x/>t<y a='2' b='3'>u<z/></y><!--c--><?p d?></r>",
  "<q:r xmlns:q='urn:q' xmlns='urn:d' q:a='5'><x a='7' q:b='8'>&lt;&amp;</x> <x/></q:r>",
};
static Gen gen() {
  Gen g;
  g.leaf = {"t&lt;", "<xsl:text> </xsl:text>", " \n ", "<xsl:value-of select='.'/>", "<xsl:value-of select='@*'/>", "<xsl:value-of select=\"''\"/>", "<xsl:copy-of select='.'/>", "<xsl:copy-of select='@*|*'/>", "<xsl:copy-of select='$g'/>", "<xsl:copy-of select='1 div 2'/>", "<xsl:apply-templates/>", "<xsl:call-template name='n'/>",
    "<e a='{@a}x{{y}}' b='{\"}\"}'/>", "<p:f xmlns:p='urn:p' p:k='1'/>", "<xsl:attribute name='a'>9</xsl:attribute>"};
  g.box = {{"<xsl:if test='@a'>", "</xsl:if>"}, {"<xsl:if test='position()=last()'>", "</xsl:if>"}, {"<xsl:choose><xsl:when test='@b'>w</xsl:when><xsl:when test='*'>", "</xsl:when><xsl:otherwise>o</xsl:otherwise></xsl:choose>"}, {"<xsl:choose> <xsl:when test='self::text()'>w</xsl:when> <xsl:otherwise>", "</xsl:otherwise></xsl:choose>"}, {"<xsl:for-each select='@*|node()'>", "</xsl:for-each>"}, {"<xsl:copy>", "</xsl:copy>"}, {"<d x='0'>", "</d>"}, {"<xsl:element name='e{count(*)}'>", "</xsl:element>"}, {"<xsl:element name='q' namespace='urn:{name()}'>", "</xsl:element>"}, {"<xsl:attribute name='b'>", "</xsl:attribute>"}, {"<xsl:attribute name='c' namespace='urn:n'>", "</xsl:attribute>"}, {"<xsl:comment>", "</xsl:comment>"}, {"<xsl:processing-instruction name='pi'>", "</xsl:processing-instruction>"}, {"<xsl:variable name='v'>", "</xsl:variable>[<xsl:value-of select='$v'/><xsl:copy-of select='$v'/>]"}};
  return g;
}
static S sheet(int w, const S& b) {
  S rest = "<xsl:variable name='g'><gg h='1'>i</gg>j</xsl:variable><xsl:template name='n'><n><xsl:value-of select='name()'/></n></xsl:template><xsl:template match='z'>Z</xsl:template>";
  switch (w) { case 0: return wrap("<xsl:template match='/*'>" + b + "</xsl:template>" + rest);
    case 1: return wrap("<xsl:template match='/'><o>" + b + "</o></xsl:template><xsl:template match='*'>E</xsl:template>" + rest);
    default: return wrap("<xsl:template match='/*'><o><xsl:for-each select='node()|@*'><i>" + b + "</i></xsl:for-each></o></xsl:template>" + rest); }
}
static void one(mc::Ctx& c, Src& src, const S& s, const S& b) {
  c.transition(); Res r = ref(s, src); Lib l(s); Res x = l.dom(src.d);
  if (!r.same(x)) c.fail("result", "body " + b + "\nreference " + r.show() + "\nlibrary   " + x.show() + "\nsource " + src.xml);
}
static void body(mc::Ctx& c, int maxSize) {
  Gen g = gen(); int w = c.choose(3); int d = c.choose(2); int n = 1 + c.choose(maxSize); Src src(DOCS[d]);
  const auto& v = g.seq(n); size_t per = 400; int parts = (int)((v.size() + per - 1) / per); int p = c.choose(parts);
  c.note("wrapper " + std::to_string(w) + " size " + std::to_string(n));
  for (size_t i = p * per; i < v.size() && i < (p + 1) * per; ++i) one(c, src, sheet(w, v[i]), v[i]);
  c.state(std::to_string(w) + "/" + std::to_string(d) + "/" + std::to_string(n) + "/" + std::to_string(p));
}
static void trees(mc::Ctx& c) { body(c, c.bound(3, 3)); }
int main(int argc, char** argv) { return mc::run(argc, argv, {{"trees", trees}}); }
