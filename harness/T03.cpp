// T03: iteration order, sorting, position/last/current and their restoration
#include "xslt_bind.hpp"
using namespace xb;
static void cmp(mc::Ctx& c, const char* sig, Src& src, const S& s, const S& what) {
  c.transition(); Res r = ref(s, src); Lib l(s); Res x = l.dom(src.d); if (r.same(x)) return;
  size_t i = 0; while (i < r.out.size() && i < x.out.size() && r.out[i] == x.out[i]) ++i; size_t b = i > 60 ? i - 60 : 0;
  c.fail(sig, what + "\nreference " + (r.err ? r.show() : "..." + r.out.substr(b, 160)) + "\nlibrary   " + (x.err ? x.show() : "..." + x.out.substr(b, 160)));
}
static const S P = "(<xsl:value-of select='position()'/>/<xsl:value-of select='last()'/>:<xsl:value-of select='name(current())'/><xsl:value-of select='current()/@id'/>)";
// every group of n items with key values from the tables; one source holds all of them
static S groups(int n, int& count) {
  static const char* ks[] = {"a", "b", "B"}; static const char* ns[] = {"10", "9", "x"}; int per = 9, tot = 1; for (int i = 0; i < n; ++i) tot *= per; S r; count = tot;
  for (int t = 0; t < tot; ++t) { r += "<g>"; int x = t; for (int i = 0; i < n; ++i, x /= per) { S d(1, char('1' + i)); r += "<i id='" + d + "' k='" + ks[x % per / 3] + "' n='" + ns[x % 3] + "'/>"; } r += "</g>"; } return r;
}
static const std::vector<S> KEYS = {"", "<xsl:sort select='@k'/>", "<xsl:sort select='@k' order='descending'/>", "<xsl:sort select='@n' data-type='number'/>", "<xsl:sort select='@n' data-type='number' order='descending'/>", "<xsl:sort select='@n'/>", "<xsl:sort select='@n' order='{name(i[2]/@k)}scending' data-type='text'/>", "<xsl:sort select='position()' data-type='number' order='descending'/>", "<xsl:sort select='last() - position()' data-type='number'/>", "<xsl:sort/>", "<xsl:sort select='number(@n) mod 3' data-type='number'/>", "<xsl:sort select='count(preceding-sibling::*[@k=current()/@k])' data-type='number' order='descending'/>"};
static void sorting(mc::Ctx& c) {
  int n = 1 + c.choose(3); int a = c.choose((int)KEYS.size()); int cnt; S xml = "<r>" + groups(n, cnt) + "</r>"; Src src(xml);
  for (size_t b = 0; b < KEYS.size(); ++b) for (int how = 0; how < 2; ++how) {
    if (a == 0 && b) continue; if (n == 3 && b > (size_t)c.bound(4, 99)) continue;
    S keys = KEYS[a] + KEYS[b], s; if (keys.find("name(i[2]") != S::npos) { size_t p = keys.find("{name(i[2]/@k)}"); while (p != S::npos) { keys.replace(p, 15, "{substring(\"desa\",1 + 3*(count(i)=2),3 - 2*(count(i)=2))}"); p = keys.find("{name(i[2]/@k)}"); } }
    if (how == 0) s = "<xsl:template match='r'><xsl:for-each select='g'><xsl:for-each select='i'>" + keys + P + "</xsl:for-each>;" + P + "</xsl:for-each></xsl:template>";
    else s = "<xsl:template match='g'><xsl:apply-templates>" + keys + "</xsl:apply-templates>;" + P + "</xsl:template><xsl:template match='i'>" + P + "</xsl:template>";
    cmp(c, "sort", src, wrap(s), (how ? "apply-templates " : "for-each ") + keys);
  }
  c.state(std::to_string(n) + "/" + std::to_string(a));
}
// selections: document order whatever the axis, with and without sorting
static void selects(mc::Ctx& c) {
  static const std::vector<S> SEL = {"*", "node()", "@*", "preceding-sibling::*", "ancestor::*", "ancestor-or-self::node()", "preceding::*", "following::node()", "descendant::*", "..|*|.", "*[last()]|*[1]", "(//c)[2]|//a", "*[position()=2]", "//c[.=current()/c]", "//*[@id=current()/@id]|/", "$v", "$v|*", "self::zz"};
  Src src("<a id='1' y='q'><b id='2'><c id='3' z='1'>m</c><!--k--><c id='4'>n</c></b>t<b id='5'><c id='6'>m</c>u</b><?p i?></a>");
  int a = c.choose((int)SEL.size());
  static const S Q = "[<xsl:value-of select='position()'/>/<xsl:value-of select='last()'/>:<xsl:value-of select='name()'/><xsl:value-of select='@id'/>=<xsl:value-of select='current()'/>]";
  for (size_t b = 0; b < SEL.size(); ++b) for (int k = 0; k < 5; ++k) for (int how = 0; how < 4; ++how) {
    static const S K[] = {"", "<xsl:sort/>", "<xsl:sort select='@id' order='descending'/>", "<xsl:sort select='name()'/>", "<xsl:sort select='position()' order='descending' data-type='number'/>"};
    S inner = how & 1 ? "<xsl:apply-templates mode='m' select='" + SEL[b] + "'>" + K[k] + "</xsl:apply-templates>" : "<xsl:for-each select='" + SEL[b] + "'>" + K[k] + Q + "</xsl:for-each>";
    S outer = how & 2 ? "<xsl:apply-templates mode='n' select='" + SEL[a] + "'>" + K[(k + how) % 5] + "</xsl:apply-templates>" : "<xsl:for-each select='" + SEL[a] + "'>" + K[(k + how) % 5] + "{" + inner + "}" + Q + "</xsl:for-each>";
    S s = "<xsl:variable name='v' select='//c[@id=6]|//b'/><xsl:template match='/'><xsl:apply-templates select='//*' mode='o'/></xsl:template><xsl:template match='*' mode='o'>|" + outer + Q + "</xsl:template><xsl:template match='node()|@*' mode='m'>" + Q + "</xsl:template><xsl:template match='/' mode='m'>/</xsl:template><xsl:template match='node()|@*|/' mode='n'>{" + inner + "}" + Q + "</xsl:template>";
    cmp(c, "select", src, wrap(s), SEL[a] + " then " + SEL[b] + " sort " + K[(k + how) % 5] + " then " + K[k] + " how " + std::to_string(how));
  }
  c.state(std::to_string(a));
}
static void nesting(mc::Ctx& c) {
  Gen g; g.emptyBoxes = false; g.leaf = {P, "<xsl:if test='position()=2'>2</xsl:if>", "<xsl:value-of select='count(../*[@id &lt; current()/@id])'/>", "<xsl:apply-templates select='*'/>", "<xsl:call-template name='t'/>", "<xsl:variable name='w{0}' select='position()'/>"};
  g.leaf.pop_back();
  g.box = {{"<xsl:for-each select='*'>", "</xsl:for-each>"}, {"<xsl:for-each select='preceding-sibling::*|.'><xsl:sort select='@id' order='descending'/>", "</xsl:for-each>"}, {"<xsl:for-each select='/*/*'><xsl:sort select='last()-position()' data-type='number'/>", "</xsl:for-each>"}, {"<xsl:for-each select='@*'>", "</xsl:for-each>"}, {"<xsl:choose><xsl:when test='position()=last()'>", "</xsl:when></xsl:choose>"}, {"<e><xsl:attribute name='p'>", "</xsl:attribute></e>"}, {"<xsl:element name='n{position()}of{last()}'>", "</xsl:element>"}, {"<xsl:variable name='v'>", "</xsl:variable><xsl:copy-of select='$v'/>"}, {"<xsl:call-template name='u'><xsl:with-param name='z'>", "</xsl:with-param></xsl:call-template>"}, {"<xsl:apply-templates mode='m' select='*'><xsl:with-param name='z'>", "</xsl:with-param></xsl:apply-templates>"}};
  int n = 1 + c.choose(c.bound(3, 4)); const auto& v = g.seq(n); size_t per = 150; int p = c.choose((int)((v.size() + per - 1) / per)); Src src("<r id='0'><x id='1'><y id='7'/><y id='8'/></x><x id='2'/><x id='3'><y id='9'/></x></r>");
  for (size_t i = p * per; i < v.size() && i < (p + 1) * per; ++i) {
    S s = "<xsl:template match='/'><xsl:for-each select='r/x'>" + v[i] + P + "</xsl:for-each></xsl:template><xsl:template match='y'>y" + P + "</xsl:template><xsl:template name='t'>t" + P + "<xsl:for-each select='..'>" + P + "</xsl:for-each>" + P + "</xsl:template><xsl:template name='u'><xsl:param name='z'/>u" + P + "<xsl:copy-of select='$z'/></xsl:template><xsl:template match='*' mode='m'><xsl:param name='z'/>m" + P + "<xsl:copy-of select='$z'/></xsl:template>";
    cmp(c, "nesting", src, wrap(s), v[i]);
  }
  c.state(std::to_string(n) + "/" + std::to_string(p));
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"sorting", sorting}, {"selects", selects}, {"nesting", nesting}}); }
