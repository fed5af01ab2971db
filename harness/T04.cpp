// T04: serialised results reparse to the tree the DOM output receives
#include "xslt_bind.hpp"
using namespace xb; using RN = xr::Node;
static S W(const S& body, const S& top = "") { return "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform' xmlns:w='urn:w'>" + top + body + "</xsl:stylesheet>"; }
static S esc(const S& v, bool attr) { S r; for (char ch : v) { switch (ch) { case '<': r += "&lt;"; break; case '&': r += "&amp;"; break; case '>': r += "&gt;"; break; case '"': r += "&quot;"; break; case '\n': r += attr ? "&#10;" : "\n"; break; case '\t': r += attr ? "&#9;" : "\t"; break; case '\r': r += "&#13;"; break; case '{': r += attr ? "{{" : "{"; break; case '}': r += attr ? "}}" : "}"; break; default: r += ch; } } return r; }
static void one(mc::Ctx& c, const char* sig, Src& src, const S& s, bool frag) {
  c.transition(); Res r = ref(s, src); Lib l(s); Res d = l.dom(src.d), t = l.stream(src.d); S back;
  if (!r.same(d)) c.fail(S(sig) + " dom", s + "\nreference " + r.show() + "\nlibrary   " + d.show() + "\nsource " + src.xml);
  if (t.err != r.err) { c.fail(S(sig) + " error", s + "\nreference " + r.show() + "\nlibrary   " + t.show()); return; } if (t.err) return;
  if (frag && t.out.compare(0, 22, "<?xml version=\"1.0\"?>\n") == 0) t.out.erase(21, 1); // the line end after the declaration is no text
  try { back = xm::canonXml(t.out, frag); } catch (xr::Err& e) { c.fail(S(sig) + " ill-formed", s + "\nreference " + r.show() + "\noutput    " + t.out + "\n" + e.m); return; }
  if (back != r.out) c.fail(S(sig) + " differs", s + "\nreference " + r.out + "\nreparsed  " + back + "\noutput    " + t.out);
}
static const char* const DOC = "<q:r xmlns:q='urn:q' xmlns='urn:d' q:a='5'><p:x xmlns:p='urn:a' p:k='1' xml:lang='en'><p:y xmlns:p='urn:b' p:k='2'><z xmlns='' z='3'/></p:y></p:x></q:r>";
static Gen gen() {
  Gen g;
  g.leaf = {"t", "<p:f xmlns:p='urn:p' p:k='1'/>", "<xsl:attribute name='p:m' namespace='urn:a'>1</xsl:attribute>", "<xsl:attribute name='p:m' namespace='urn:b'>2</xsl:attribute>", "<xsl:attribute name='m' namespace='urn:d'>3</xsl:attribute>", "<xsl:attribute name='m'>4</xsl:attribute>", "<xsl:attribute name='z:lang' namespace='http://www.w3.org/XML/1998/namespace'>5</xsl:attribute>", "<xsl:attribute name='xml:m' namespace='urn:b'>6</xsl:attribute>", "<xsl:attribute name='xmlns:p' namespace='urn:p'>7</xsl:attribute>", "<xsl:copy-of select='*'/>", "<xsl:copy-of select='*/*/*|*/@*'/>", "<w:g w:n='8'/>"};
  g.box = {{"<e>", "</e>"}, {"<e xmlns='urn:d'>", "</e>"}, {"<p:e xmlns:p='urn:a'>", "</p:e>"}, {"<p:e xmlns:p='urn:b' p:n='1'>", "</p:e>"}, {"<xsl:element name='p:e' namespace='urn:a'>", "</xsl:element>"}, {"<xsl:element name='p:e' namespace=''>", "</xsl:element>"}, {"<xsl:element name='e' namespace='urn:d'>", "</xsl:element>"}, {"<xsl:element name='e' namespace='urn:a'>", "</xsl:element>"}, {"<auto-ns1:e xmlns:auto-ns1='urn:c'>", "</auto-ns1:e>"}, {"<xsl:copy>", "</xsl:copy>"}, {"<xsl:element name='xml:e' namespace='urn:b'>", "</xsl:element>"}};
  return g;
}
static void trees(mc::Ctx& c) {
  Gen g = gen(); int w = c.choose(2); int n = 1 + c.choose(c.bound(3, 3)); Src src(DOC); const auto& v = g.seq(n); size_t per = 300; int p = c.choose((int)((v.size() + per - 1) / per));
  for (size_t i = p * per; i < v.size() && i < (p + 1) * per; ++i) one(c, "namespaces", src, W(w ? "<xsl:template match='/*'><o><w:o>" + v[i] + "</w:o></o></xsl:template>" : "<xsl:template match='/*'>" + v[i] + "</xsl:template>"), true);
  c.state(std::to_string(w) + "/" + std::to_string(n) + "/" + std::to_string(p));
}
// every nesting of four elements over a small set of prefixes and namespaces, with attributes
static void nests(mc::Ctx& c) {
  static const char* ns[] = {"", "urn:a", "urn:b"}; static const char* pf[] = {"", "p", "q"}; struct N1 { S p, u; }; std::vector<N1> all; for (auto u : ns) for (auto p : pf) all.push_back({p, u});
  Src src("<r/>"); int a = c.choose((int)all.size()), b = c.choose((int)all.size()); int deep = c.bound(1, 2);
  auto el = [&](const N1& n, const S& body) { return "<xsl:element name='" + (n.p.empty() ? S("e") : n.p + ":e") + "' namespace='" + n.u + "'>" + body + "</xsl:element>"; };
  auto at = [&](const N1& n, const char* l) { return "<xsl:attribute name='" + (n.p.empty() ? S(l) : n.p + ":" + l) + "' namespace='" + n.u + "'>" + n.u + "</xsl:attribute>"; };
  for (auto& x : all) for (auto& y : all) {
    one(c, "nested", src, W("<xsl:template match='/'>" + el(all[a], el(all[b], el(x, el(y, "")) + el(y, ""))) + "</xsl:template>"), false);
    one(c, "attributes", src, W("<xsl:template match='/'>" + el(all[a], at(all[b], "k") + at(x, "k") + at(y, "l") + el(y, at(all[b], "m"))) + "</xsl:template>"), false);
    if (deep > 1) for (auto& z : all) one(c, "nested attributes", src, W("<xsl:template match='/'>" + el(all[a], at(x, "k") + el(all[b], at(y, "k") + at(z, "k") + el(z, at(x, "k")))) + "</xsl:template>"), false);
  }
  c.state(std::to_string(a) + "," + std::to_string(b));
}
static void chars(mc::Ctx& c) {
  static const std::vector<S> AL = {"<", "&", ">", "]", "\"", "'", "\n", "\t", "\r", "\xC3\xA9", " ", "a", "-", "?"}; int n = (int)AL.size(), L = c.bound(3, 4), a = c.choose(n), b = c.choose(n + 1); Src src("<r/>");
  std::vector<S> v; if (b == n) v.push_back(AL[a]); else { S base = AL[a] + AL[b]; v.push_back(base); std::vector<S> cur = {base}; for (int k = 3; k <= L; ++k) { std::vector<S> nx; for (auto& x : cur) for (auto& y : AL) nx.push_back(x + y); v.insert(v.end(), nx.begin(), nx.end()); cur.swap(nx); } }
  // text in a plain and in a CDATA element, split into two text instructions at every point, attribute values, comments and PIs
  for (size_t i = 0; i < v.size(); i += 14) {
    S body; for (size_t j = i; j < v.size() && j < i + 14; ++j) { const S& x = v[j]; S t = "<xsl:text>" + esc(x, false) + "</xsl:text>"; body += "<p a=\"" + esc(x, true) + "\">" + t + "</p><cd>" + t + "</cd><w:cd>" + t + "<b/>" + t + "</w:cd><cd>" + t + t + "</cd>"; if (x.find('\r') == S::npos) body += "<xsl:comment>" + t + "</xsl:comment><xsl:processing-instruction name='p'>" + t + "</xsl:processing-instruction>"; /* no markup can hold a carriage return there */ if (x.size() > 1 && (x[1] & 0xC0) != 0x80) body += "<cd><xsl:text>" + esc(x.substr(0, 1), false) + "</xsl:text><xsl:text>" + esc(x.substr(1), false) + "</xsl:text></cd>"; if (x.size() == 3 && x.find('\xC3') == S::npos) body += "<cd><xsl:text>" + esc(x.substr(0, 2), false) + "</xsl:text><xsl:value-of select=\"''\"/><xsl:text>" + esc(x.substr(2), false) + "</xsl:text></cd>"; }
    one(c, "characters", src, W("<xsl:template match='/'><o>" + body + "</o></xsl:template>", "<xsl:output cdata-section-elements='cd w:cd'/>"), false);
  }
  c.state(std::to_string(a) + "," + std::to_string(b));
}
static S squash(const RN* n) { // canonical text with insignificant white space gone, for indented output
  S r = n->k == xr::ELEM ? "<{" + n->ns + "}" + n->local : ""; if (n->k == xr::TEXT) { S o; for (char ch : n->val) if (!xr::ws(ch)) o += ch; return o; } if (n->k != xr::ELEM && n->k != xr::ROOT) return xm::canon(n);
  if (n->k == xr::ELEM) { std::vector<S> v; for (RN* a : n->att) v.push_back(" {" + a->ns + "}" + a->local + "=" + xm::q(a->val)); std::sort(v.begin(), v.end()); for (auto& a : v) r += a; r += ">"; } for (RN* k : n->kid) r += squash(k); return n->k == xr::ELEM ? r + "</>" : r;
}
static S squashXml(const S& x, S& decl, S& doctype) { xr::Tree t; xm::Parse p(x, t, false); decl = p.decl; doctype = p.doctype; return squash(t.root); }
static void options(mc::Ctx& c) {
  static const std::vector<S> OM = {"", " omit-xml-declaration='yes'", " omit-xml-declaration='no'"}, SA = {"", " standalone='yes'", " standalone='no'"}, DT = {"", " doctype-system='s.dtd'", " doctype-system='s.dtd' doctype-public='-//P'", " doctype-public='-//P'", " doctype-system='a\"b'"}, IN = {"", " indent='yes'", " indent='no'"}, ME = {"", " method='xml'", " method='text'"}, VE = {"", " version='1.0'"};
  static const std::vector<S> B = {"<r/>", "<r>t</r>", "<r><a/></r>", "<r><a/><b>t</b></r>", "<r>x<a><b/></a>y<!--c--></r>", "<xsl:comment>c</xsl:comment><r><a k='1'><b><c/></b><d/></a>t<e/></r>", "<xsl:processing-instruction name='p'>q</xsl:processing-instruction><r><xsl:comment>c</xsl:comment><a/></r>", "<w:r><w:cd>a&lt;b]]&gt;c</w:cd><x>&lt;</x></w:r>", "<r><xsl:text>&#10; </xsl:text><a/><xsl:text> </xsl:text></r>", "<r><xsl:value-of select=\"''\"/></r>"};
  Src src("<r/>"); int m = c.choose(3), in = c.choose(3), split = c.choose(3);
  for (auto& om : OM) for (auto& sa : SA) for (auto& dt : DT) for (auto& ve : VE) for (auto& b : B) {
    c.transition(); S o = split == 0 ? "<xsl:output" + ME[m] + om + sa + dt + IN[in] + ve + " cdata-section-elements='w:cd'/>" : split == 1 ? "<xsl:output" + ME[m] + om + "/><xsl:output" + sa + dt + "/><xsl:output" + IN[in] + ve + " cdata-section-elements='w:cd'/>" : "<xsl:output omit-xml-declaration='no' cdata-section-elements='x'/><xsl:output" + ME[m] + om + sa + dt + IN[in] + ve + " cdata-section-elements='w:cd'/>";
    S s = W("<xsl:template match='/'>" + b + "</xsl:template>", o); Res r = ref(s, src); Lib l(s); Res t = l.stream(src.d); if (r.err || t.err) { if (r.err != t.err) c.fail("option error", s + "\nreference " + r.show() + "\nlibrary   " + t.show()); continue; }
    if (m == 2) { xt::Proc p; p.load(s); S want; for (RN* k : p.transform(src.t.root)->kid) if (k->k == xr::ELEM || k->k == xr::TEXT) want += k->str(); if (t.out != want) c.fail("text method", s + "\nwant " + want + "\ngot  " + t.out); continue; }
    S decl, doc, got; try { got = squashXml(t.out, decl, doc); } catch (xr::Err& e) { c.fail("option ill-formed", s + "\noutput " + t.out + "\n" + e.m); continue; }
    xt::Proc p; p.load(s); S want = squash(p.transform(src.t.root)); if (got != want) c.fail("option tree", s + "\nwant " + want + "\ngot  " + got + "\n" + t.out);
    if (in != 1) { S exact = xm::canonXml(t.out); if (exact != r.out) c.fail("option exact", s + "\nwant " + r.out + "\ngot  " + exact); }
    bool wantDecl = om != OM[1]; if (decl.empty() == wantDecl) c.fail("xml declaration", s + "\noutput " + t.out);
    if (wantDecl) { bool hasSa = decl.find("standalone=\"yes\"") != S::npos, hasNo = decl.find("standalone=\"no\"") != S::npos; if (decl.find("version=\"1.0\"") == S::npos || hasSa != (sa == SA[1]) || hasNo != (sa == SA[2])) c.fail("declaration content", s + "\noutput " + t.out); if (t.out.compare(0, 5, "<?xml") != 0 || t.out.find("<?xml ", 5) != S::npos) c.fail("declaration position", s + "\noutput " + t.out); }
    bool wantDoc = dt.find("system") != S::npos; if (doc.empty() == wantDoc) c.fail("doctype", s + "\noutput " + t.out);
    else if (wantDoc) { S root = b.find("<w:r") != S::npos ? "w:r" : "r"; S flat; for (char ch : doc) { if (xr::ws(ch)) ch = ' '; if (ch != ' ' || flat.empty() || flat.back() != ' ') flat += ch; } S exp = "<!DOCTYPE " + root + (dt == DT[1] ? " SYSTEM \"s.dtd\"" : dt == DT[2] ? " PUBLIC \"-//P\" \"s.dtd\"" : " SYSTEM 'a\"b'") + ">"; if (flat != exp) c.fail("doctype content", s + "\nwant " + exp + "\ngot  " + flat); }
    bool cd = t.out.find("<![CDATA[") != S::npos; if (cd != (b.find("w:cd") != S::npos)) c.fail("cdata sections", s + "\n" + t.out);
  }
  c.state(std::to_string(m) + std::to_string(in) + std::to_string(split));
}
// disabled output escaping applies to its own text only
static void raw(mc::Ctx& c) {
  static const std::vector<S> I = {"<xsl:text>&lt;</xsl:text>", "<xsl:text disable-output-escaping='yes'>&lt;i/&gt;</xsl:text>", "<xsl:text disable-output-escaping='no'>&amp;</xsl:text>", "<xsl:value-of select='.'/>", "<xsl:value-of disable-output-escaping='yes' select='.'/>", "<xsl:value-of disable-output-escaping='no' select='.'/>", "<b a='{.}'/>", "<xsl:copy-of select='text()'/>"};
  Src src("<r>&amp;&lt;</r>"); int n = c.bound(4, 5), a = c.choose(8), b = c.choose(8);
  std::vector<int> d(n, 0); long tot = 1; for (int i = 2; i < n; ++i) tot *= 9;
  for (long k = 0; k < tot; ++k) { long q = k; S body = I[a] + I[b]; for (int i = 2; i < n; ++i) { int x = q % 9; q /= 9; if (x < 8) { body += I[x]; } }
    c.transition(); S s = W("<xsl:template match='/*'><o>" + body + "</o></xsl:template>", "<xsl:output omit-xml-declaration='yes'/>"); Lib l(s); Res t = l.stream(src.d); S exp = "<o>"; auto add = [&](int x) { static const std::vector<S> E = {"&lt;", "<i/>", "&amp;", "&amp;&lt;", "&<", "&amp;&lt;", "<b a=\"&amp;&lt;\"/>", "&amp;&lt;"}; exp += E[x]; }; add(a); add(b); q = k; for (int i = 2; i < n; ++i) { int x = q % 9; q /= 9; if (x < 8) add(x); } exp += "</o>";
    if (t.err || t.out != exp) c.fail("output escaping", s + "\nwant " + exp + "\ngot  " + t.show()); }
  c.state(std::to_string(a) + "," + std::to_string(b));
}
// namespace aliases, before and after the rules that use them, and in imported modules
static void aliases(mc::Ctx& c) {
  static const std::vector<S> FROM = {"#default", "p", "x"}, TO = {"#default", "q", "xsl", "p"}, B = {"<e/>", "<p:e/>", "<x:e/>", "<e a='1'/>", "<p:e p:a='1' b='2'/>", "<x:e x:a='1' p:a='2'/>", "<e p:a='1' x:b='2'><p:f/></e>", "<q:e q:a='1'><x:f/><f/></q:e>"};
  Src src("<r/>"); int f = c.choose(3), t = c.choose(4), dn = c.choose(2), second = c.choose(13);
  S al = "<xsl:namespace-alias stylesheet-prefix='" + FROM[f] + "' result-prefix='" + TO[t] + "'/>"; if (second < 12) al += "<xsl:namespace-alias stylesheet-prefix='" + FROM[second / 4] + "' result-prefix='" + TO[second % 4] + "'/>"; if (second < 12 && second / 4 == f) { c.prune(); return; }
  S head = S("<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform' xmlns:p='urn:p' xmlns:q='urn:q' xmlns:x='urn:x'") + (dn ? " xmlns='urn:d'" : "") + ">";
  for (auto& b : B) for (int after = 0; after < 2; ++after) { S tm = "<xsl:template match='/'><o>" + b + "</o></xsl:template>"; one(c, "aliases", src, head + (after ? tm + al : al + tm) + "</xsl:stylesheet>", false); }
  c.state(std::to_string(f) + std::to_string(t) + std::to_string(dn) + "," + std::to_string(second));
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"trees", trees}, {"nests", nests}, {"chars", chars}, {"options", options}, {"raw", raw}, {"aliases", aliases}}); }
