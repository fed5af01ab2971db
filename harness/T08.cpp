// T08: which stylesheets compile: content models, attributes, names, expressions, patterns, duplicates and loops, by tables written from the XSLT 1.0 recommendation.
#include "xslt_bind.hpp"
using namespace xb;
struct El { S name, attrs; char model; }; // model: C template content, E empty, T text only, P apply-templates, L call-template, H choose, S stylesheet, F for-each, R template
static const std::vector<El> ELS = {
  {"template", " match='a'", 'R'}, {"apply-imports", "", 'E'}, {"apply-templates", "", 'P'}, {"attribute", " name='n'", 'C'}, {"call-template", " name='named'", 'L'}, {"choose", "", 'H'}, {"comment", "", 'C'}, {"copy", "", 'C'}, {"copy-of", " select='.'", 'E'}, {"element", " name='n'", 'C'}, {"for-each", " select='*'", 'F'}, {"if", " test='1'", 'C'}, {"message", "", 'C'}, {"processing-instruction", " name='n'", 'C'}, {"text", "", 'T'}, {"value-of", " select='.'", 'E'}, {"variable", " name='v'", 'C'},
  {"when", " test='1'", 'C'}, {"otherwise", "", 'C'}, {"sort", "", 'E'}, {"with-param", " name='w'", 'C'}, {"param", " name='p'", 'C'}, {"output", "", 'E'}, {"key", " name='k' match='a' use='@i'", 'E'}, {"namespace-alias", " stylesheet-prefix='x' result-prefix='y'", 'E'},
  {"lre", "", 'C'}, {"x:lre", "", 'C'}, {"nothing", "", 'E'}, {"stylesheet", " version='1.0'", 'S'}, {"#text", "", 'E'}, {"#space", "", 'E'}, {"#comment", "", 'E'}};
static bool top(const S& n) { return n == "template" || n == "variable" || n == "param" || n == "output" || n == "key" || n == "namespace-alias"; }
static bool instr(const S& n) { static const std::set<S> I = {"apply-imports", "apply-templates", "attribute", "call-template", "choose", "comment", "copy", "copy-of", "element", "for-each", "if", "message", "processing-instruction", "text", "value-of", "variable", "lre", "x:lre", "#text"}; return I.count(n) > 0; }
static bool insig(const S& n) { return n == "#space" || n == "#comment"; }
// may these children appear, in this order, in an element with this content model?
static bool content(char m, const std::vector<S>& kids) {
  int stage = 0; bool when = false, other = false; for (auto& k : kids) { if (insig(k)) continue; switch (m) {
    case 'C': if (!instr(k)) return false; break; case 'E': return false; case 'T': if (k != "#text") return false; break;
    case 'P': if (k != "sort" && k != "with-param") return false; break; case 'L': if (k != "with-param") return false; break;
    case 'H': if (k == "when") { if (other) return false; when = true; } else if (k == "otherwise") { if (!when || other) return false; other = true; } else return false; break;
    case 'S': if (!top(k) && k != "x:lre") return false; break;
    case 'F': if (k == "sort") { if (stage) return false; } else if (instr(k)) stage = 1; else return false; break;
    case 'R': if (k == "param") { if (stage) return false; } else if (instr(k)) stage = 1; else return false; break; } }
  return m != 'H' || when;
}
static const El& el(const S& n) { for (auto& e : ELS) if (e.name == n) return e; abort(); }
static S tag(const El& e, const S& kids) { if (e.name == "#text") return "t"; if (e.name == "#space") return " \n"; if (e.name == "#comment") return "<!--c--><?p q?>"; S q = e.name == "lre" || e.name == "x:lre" ? e.name : "xsl:" + e.name; S body = kids; if (e.model == 'H' && kids.empty()) body = "<xsl:when test='1'/>"; return "<" + q + e.attrs + ">" + body + "</" + q + ">"; }
static S fill(const S& n) { return tag(el(n), ""); }
static bool sound(const S& n) { return n != "nothing" && n != "stylesheet"; }
// puts an element of the given name where it may appear
static S place(const S& n, const S& x) {
  if (n == "stylesheet") return x; if (n == "when") return "<xsl:template match='/'><xsl:choose>" + x + "</xsl:choose></xsl:template>"; if (n == "otherwise") return "<xsl:template match='/'><xsl:choose><xsl:when test='1'/>" + x + "</xsl:choose></xsl:template>";
  if (n == "sort") return "<xsl:template match='/'><xsl:for-each select='*'>" + x + "</xsl:for-each></xsl:template>"; if (n == "with-param") return "<xsl:template match='/'><xsl:call-template name='named'>" + x + "</xsl:call-template></xsl:template>"; if (n == "param") return "<xsl:template match='/'>" + x + "</xsl:template>"; if (top(n) && n != "variable") return x; return "<xsl:template match='/'>" + x + "</xsl:template>";
}
static const S NAMED = "<xsl:template name='named'/>";
static S sheet(const S& body) { return "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform' xmlns:x='urn:x' xmlns:y='urn:y'>" + body + "</xsl:stylesheet>"; }
static void logSig(const S& s) { if (const char* f = getenv("T08_LOG")) { FILE* o = fopen(f, "a"); fprintf(o, "%s\n", s.c_str()); fclose(o); } }
static void check(mc::Ctx& c, const S& what, const S& s, bool ok) {
  c.transition(); Lib l(s); if (l.error.compare(0, 5, "threw") == 0) { c.fail("compile threw", s + "\n" + l.error); return; }
  if (ok != bool(l.sheet)) logSig((ok ? "REJ " : "ACC ") + what + " | " + l.error);
  if (ok && !l.sheet) c.fail(what + S(": valid stylesheet rejected"), s + "\n" + l.error); else if (!ok && l.sheet) c.fail(what + S(": invalid stylesheet accepted"), s);
}
static void places(mc::Ctx& c) {
  int p = c.choose((int)ELS.size()), n = c.choose(4); const El& P = ELS[p]; if (P.name[0] == '#' || P.name == "nothing") { c.prune(); return; } std::vector<std::vector<S>> lists; int max = c.bound(3, 3);
  if (n > max) { c.prune(); return; } if (n == 0) lists.push_back({}); else for (auto& a : ELS) { if (n == 1) lists.push_back({a.name}); else for (auto& b : ELS) { if (n == 2) lists.push_back({a.name, b.name}); else for (auto& d : ELS) { // three children: only lists which are about their order
      auto special = [&](const S& q) { return q == "when" || q == "otherwise" || q == "sort" || q == "with-param" || q == "param" || q == "#text" || insig(q) || q == "lre" || q == "value-of" || q == "variable"; }; if (special(a.name) && special(b.name) && special(d.name)) lists.push_back({a.name, b.name, d.name}); } } }
  int part = c.choose(8); for (size_t i = part; i < lists.size(); i += 8) { auto& k = lists[i]; bool ok = content(P.model, k); S kids; int vars = 0; for (auto& x : k) { ok = ok && sound(x); S f = fill(x); size_t at; for (auto nm : {"name='v'", "name='p'", "name='w'", "match='a'"}) if ((at = f.find(nm)) != S::npos) { f.insert(at + strlen(nm) - 1, S(1, char('0' + vars++))); break; } kids += f; }
    S whole = P.name == "stylesheet" ? sheet(NAMED + kids) : sheet(NAMED + place(P.name, tag(P, kids.empty() ? S(P.model == 'H' ? " " : "") : kids))); if (P.name == "stylesheet") for (auto& x : k) if (x == "stylesheet") ok = false;
    S sig = "content of " + P.name + ":"; for (auto& x : k) sig += " " + x; check(c, sig, whole, ok); }
  c.state(P.name + std::to_string(n) + "." + std::to_string(part));
}
struct At { S el, name; bool req; std::vector<S> good, bad; };
static const std::vector<S> QN = {"n", "x:n", "_a-b.c"}, BADQN = {"", "1a", "a b", "a:", ":a", "a:b:c", "z:a", "-a", "x:1"}, EX = {".", "@a | b", "1 + 2", "count(*) = 1", "'a'"}, BADEX = {"", "1 +", "foo(", "nofn()", "z:a", "a b", "]", "@", "$", "z:f()", "count()", "'a"}, BADNS = {}, PT = {"a", "a|b", "@*", "/", "a[1]/b", "text()", "x:*", "a//b"}, BADPT = {"", "..", "a/..", "parent::a", "1", "a + b", "ancestor::a", "a//", "z:a", "a|", "child::a::b", "'a'", "a["}, YN = {"yes", "no"}, BADYN = {"", "maybe", "YES", "true", " yes"}, AVT = {"n", "a{b}", "{.}", "{{", "}}", "{'}'}"}, BADAVT = {"{", "}", "{}", "{b", "a}", "{1 +}", "{nofn()}"};
static const std::vector<At> ATS = {
  {"template", "match", false, PT, BADPT}, {"template", "name", false, QN, BADQN}, {"template", "mode", false, QN, BADQN}, {"template", "priority", false, {"1", "-1", "0.5", "-.5", "1."}, {"", "a", "1e1", "--1", "1 2"}},
  {"apply-templates", "select", false, {"a", "@a | b", "/", "x:a"}, {"", "1 +", "nofn()", "z:a", "a b"}}, {"apply-templates", "mode", false, QN, BADQN}, {"attribute", "name", true, AVT, BADAVT}, {"attribute", "namespace", false, AVT, BADAVT}, {"call-template", "name", true, {"named"}, BADQN}, {"copy-of", "select", true, EX, BADEX}, {"element", "name", true, AVT, BADAVT}, {"element", "namespace", false, AVT, BADAVT}, {"for-each", "select", true, {"a", "@a | b", "/"}, {"", "1 +", "nofn()", "z:a"}}, {"if", "test", true, EX, BADEX}, {"message", "terminate", false, YN, BADYN}, {"processing-instruction", "name", true, AVT, BADAVT}, {"text", "disable-output-escaping", false, YN, BADYN}, {"value-of", "select", true, EX, BADEX}, {"value-of", "disable-output-escaping", false, YN, BADYN}, {"variable", "name", true, QN, BADQN}, {"variable", "select", false, EX, BADEX}, {"when", "test", true, EX, BADEX}, {"sort", "select", false, EX, BADEX}, {"sort", "order", false, {"ascending", "descending", "{.}"}, BADAVT}, {"sort", "data-type", false, {"text", "number", "{.}"}, BADAVT}, {"sort", "lang", false, {"en", "{.}"}, BADAVT}, {"with-param", "name", true, QN, BADQN}, {"with-param", "select", false, EX, BADEX}, {"param", "name", true, QN, BADQN}, {"param", "select", false, EX, BADEX}, {"output", "method", false, {"xml", "text", "html"}, {"", "foo", "z:m", "1"}}, {"output", "indent", false, YN, BADYN}, {"output", "omit-xml-declaration", false, YN, BADYN}, {"output", "standalone", false, YN, BADYN}, {"output", "cdata-section-elements", false, {"a", "a x:b", " a  b "}, {"1a", "z:a", "a z:b", "a:b:c"}}, {"output", "version", false, {"1.0"}, {}}, {"output", "encoding", false, {"UTF-8"}, {}}, {"output", "doctype-system", false, {"a"}, {}}, {"output", "doctype-public", false, {"a"}, {}}, {"output", "media-type", false, {"a/b"}, {}}, {"key", "name", true, QN, BADQN}, {"key", "match", true, PT, BADPT}, {"key", "use", true, EX, BADEX}, {"namespace-alias", "stylesheet-prefix", true, {"x", "#default"}, {"", "z"}}, {"namespace-alias", "result-prefix", true, {"y", "#default", "x"}, {"", "z"}}, {"lre", "any", false, AVT, BADAVT}, {"stylesheet", "version", true, {"1.0"}, {""}}};
static S build(const S& e, const S& attrs) { if (e == "stylesheet") return "<xsl:stylesheet xmlns:xsl='http://www.w3.org/1999/XSL/Transform' xmlns:x='urn:x'" + attrs + "/>"; const El& E = el(e); El x = E; x.attrs = attrs; return sheet(NAMED + place(e, tag(x, ""))); }
static S dq(const S& v) { return "=\"" + v + "\""; }
static void attributes(mc::Ctx& c) { // every attribute with every good and bad value, missing, and together with every subset of the others, one unknown
  int w = c.choose((int)ELS.size()); const S& e = ELS[w].name; if (e[0] == '#' || e == "nothing") { c.prune(); return; } std::vector<const At*> as; for (auto& a : ATS) if (a.el == e) as.push_back(&a); int n = (int)as.size(); if (n == 0 && e == "x:lre") { c.prune(); return; }
  bool lre = e == "lre" || e == "x:lre"; int unknown = c.choose(5); static const S UN[] = {"", " bogus='1'", " x:any='1'", " xsl:bogus='1'", " xml:space='preserve'"}; if ((n > 6 && unknown) || (lre && unknown == 3)) { c.prune(); return; }
  for (int m = 0; m < (1 << n); ++m) for (int j = -1; j < n; ++j) { if (j >= 0 && !(m >> j & 1)) continue; if (n > 6 && __builtin_popcount(m) > 2) continue;
    size_t nv = j < 0 ? 1 : as[j]->good.size() + as[j]->bad.size(); if (unknown && j >= 0) continue;
    for (size_t v = 0; v < nv; ++v) { S at; bool ok = true, match = false, name = false, mode = false, select = false; for (int k = 0; k < n; ++k) { if (!(m >> k & 1)) { if (as[k]->req) ok = false; continue; } bool good = true; S val = as[k]->good[0]; if (k == j) { good = v < as[k]->good.size(); val = good ? as[k]->good[v] : as[k]->bad[v - as[k]->good.size()]; } if (!good) ok = false; at += " " + as[k]->name + dq(val); if (as[k]->name == "match") match = true; if (as[k]->name == "name") name = true; if (as[k]->name == "mode") mode = true; }
      (void)select; if (e == "template" && ((!match && !name) || (mode && !match))) ok = false; if (unknown == 1 && !lre) ok = false; if (unknown == 3) ok = false;
      if (e == "namespace-alias" && at.find("#default") != S::npos) {} check(c, "attributes of " + e + ":" + (j < 0 ? at : " " + as[j]->name + "=" + (v < as[j]->good.size() ? as[j]->good[v] : as[j]->bad[v - as[j]->good.size()])) + UN[unknown], build(e, at + UN[unknown]), ok); } }
  c.state(e + std::to_string(unknown));
}
// select together with content, duplicates, loops, references to things which do not exist
static void whole(mc::Ctx& c) {
  struct W { const char* body; bool ok; }; static const std::vector<W> V = {
    {"<xsl:template match='/'><xsl:variable name='v' select='1'>x</xsl:variable></xsl:template>", false}, {"<xsl:variable name='v' select='1'>x</xsl:variable>", false}, {"<xsl:param name='v' select='1'><a/></xsl:param>", false}, {"<xsl:template name='named2'><xsl:param name='v' select='1'>x</xsl:param></xsl:template>", false}, {"<xsl:template match='/'><xsl:call-template name='named'><xsl:with-param name='w' select='1'>x</xsl:with-param></xsl:call-template></xsl:template>", false}, {"<xsl:template match='/'><xsl:variable name='v' select='1'> </xsl:variable></xsl:template>", true}, {"<xsl:template match='/'><xsl:variable name='v' select='1'><!--c--></xsl:variable></xsl:template>", true},
    {"<xsl:template name='n'/><xsl:template name='n'/>", false}, {"<xsl:template name='n'/><xsl:template name='x:n'/>", true}, {"<xsl:template name='x:n'/><xsl:template name='w:n' xmlns:w='urn:x'/>", false}, {"<xsl:template name='n'/><xsl:template match='n'/>", true}, {"<xsl:template match='n'/><xsl:template match='n'/>", true},
    {"<xsl:variable name='v'/><xsl:variable name='v'/>", false}, {"<xsl:variable name='v'/><xsl:param name='v'/>", false}, {"<xsl:param name='v'/><xsl:param name='v'/>", false}, {"<xsl:variable name='v'/><xsl:variable name='x:v'/>", true}, {"<xsl:variable name='x:v'/><xsl:variable name='w:v' xmlns:w='urn:x'/>", false},
    {"<xsl:variable name='a' select='$b'/><xsl:variable name='b' select='$a'/><xsl:template match='/'><xsl:value-of select='$a'/></xsl:template>", false}, {"<xsl:variable name='a' select='$a'/>", false}, {"<xsl:variable name='a' select='$b'/><xsl:variable name='b' select='1'/>", true}, {"<xsl:variable name='a'><xsl:call-template name='t'/></xsl:variable><xsl:template name='t'><xsl:value-of select='$a'/></xsl:template><xsl:template match='/'/>", false},
    {"<xsl:template match='/'><xsl:call-template name='none'/></xsl:template>", false}, {"<xsl:template match='/'><xsl:call-template name='x:named'/></xsl:template>", false}, {"<xsl:template match='/'><xsl:value-of select='$none'/></xsl:template>", false}, {"<xsl:template match='/'><xsl:if test='1'><xsl:variable name='q'/></xsl:if><xsl:value-of select='$q'/></xsl:template>", false}, {"<xsl:template match='/'><xsl:value-of select='$q'/><xsl:variable name='q'/></xsl:template>", false}, {"<xsl:template match='/'><xsl:variable name='q' select='$q'/></xsl:template>", false}, {"<xsl:variable name='v' select='$none'/>", false}, {"<xsl:template match='a[$none]'/><xsl:template match='/'><xsl:apply-templates/></xsl:template>", false},
    {"<xsl:variable name='v' select='1'/><xsl:key name='k' match='a' use='$v'/>", false}, {"<xsl:variable name='v' select='1'/><xsl:key name='k' match='a[$v]' use='.'/>", false}, {"<xsl:template match='/'><xsl:value-of select='current()'/></xsl:template>", true}, {"<xsl:template match='a[current()]'/>", false}, {"<xsl:template match='/'><xsl:value-of select=\"key('none', '1')\"/></xsl:template>", false}, {"<xsl:template match='/'><xsl:value-of select='position() + last()'/></xsl:template>", true}, {"<xsl:bogus/>", false}, {"<bogus/>", false}, {"<x:bogus><xsl:bogus/></x:bogus>", true}, {"<x:bogus>text<x:more/></x:bogus>", true}, {"text", false}, {"<xsl:if test='1'/>", false}, {"<xsl:template match='/'><xsl:template match='a'/></xsl:template>", false}, {"<xsl:template match='/'><xsl:output/></xsl:template>", false}, {"<xsl:template match='/'><xsl:bogus/></xsl:template>", false}, {"<xsl:template match='/'><xsl:apply-imports/></xsl:template>", true}, {"<xsl:template match='/'><xsl:for-each select='*'><xsl:apply-imports/></xsl:for-each></xsl:template>", false}};
  int w = c.choose((int)V.size()), k = c.choose(2); S s = sheet(NAMED + (k ? S(V[w].body) + "<xsl:template match='zz'/>" : S("<xsl:template match='zz'/>") + V[w].body)); c.transition(); Lib l(s); Src src("<r><a/></r>"); Res r; if (l.sheet) r = l.dom(src.d); bool ok = l.sheet && !r.err; if (ok != V[w].ok) logSig(S(ok ? "ACC " : "REJ ") + V[w].body + l.error + r.show()); if (ok != V[w].ok) c.fail(S(V[w].ok ? "valid stylesheet rejected: " : "invalid stylesheet neither rejected nor stopped: ") + V[w].body, s + "\n" + l.error + r.show()); c.state(std::to_string(w) + "," + std::to_string(k));
}
// every order of compilations on one compiler: what was compiled before makes no difference
static void orders(mc::Ctx& c) {
  static const std::vector<S> V = {sheet("<xsl:template match='/'><ok/></xsl:template>"), sheet("<xsl:template match='/'><xsl:value-of select='1 +'/></xsl:template>"), sheet("<xsl:template match='/'><xsl:if/></xsl:template>"), "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'><xsl:template match='/'>", "<not-a-stylesheet/>", "<ok xsl:version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'/>", "", sheet("<xsl:namespace-alias stylesheet-prefix='x' result-prefix='y'/><xsl:template match='/'><x:ok/></xsl:template>"), sheet("<xsl:template match='/'><x:ok/></xsl:template>"), sheet("<xsl:include href='no-such-file.xsl'/>"), sheet("<xsl:template match='/'><xsl:call-template name='n'/></xsl:template><xsl:template name='n'><xsl:param name='p'/><n/><xsl:choose><xsl:when test='a'/><bad/></xsl:choose></xsl:template>"), sheet("<xsl:variable name='v'><a>") };
  static const bool OK[] = {true, false, false, false, false, true, false, true, true, false, false, false}; static const char* OUT[] = {"<{}ok></>", "", "", "", "", "<{}ok></>", "", "<{urn:y}ok></>", "<{urn:x}ok></>", "", "", ""};
  Compiler comp; int n = c.bound(3, 4); S hist; std::vector<std::pair<int, std::unique_ptr<Sheet>>> made; Src src("<r/>");
  for (int i = 0; i < n; ++i) { int w = c.choose((int)V.size()); hist += std::to_string(w) + " "; c.transition(); std::stringstream ss(V[w]); Arabica::SAX::InputSource<S> is(ss); std::unique_ptr<Sheet> s; try { s = comp.compile(is); } catch (std::exception& e) { c.fail("compile threw", hist + e.what()); return; }
    if (bool(s) != OK[w]) { c.fail(OK[w] ? "valid rejected" : "invalid accepted", hist + "\n" + V[w] + "\n" + comp.error()); return; } if (!s && comp.error().empty()) { c.fail("no error message", hist + "\n" + V[w]); return; } if (s && !comp.error().empty()) { c.fail("error message of an earlier compilation", hist + "\n" + comp.error()); return; } if (s) made.push_back({w, std::move(s)});
    for (auto& m : made) { DOMSink k; m.second->set_output(k); m.second->execute(src.d); N nn = k.node(); S o = nn == 0 ? "" : canon(nn); if (o != OUT[m.first]) { c.fail("result", hist + "\n" + V[m.first] + "\n" + o); return; } } c.state(hist); }
}
int main(int argc, char** argv) { freopen("/dev/null", "w", stderr); return mc::run(argc, argv, {{"places", places}, {"attributes", attributes}, {"whole", whole}, {"orders", orders}}); }
