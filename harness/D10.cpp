// D10: the DOM built from XML is exactly the document in the source, whatever was parsed before.
#include "dom_gen.hpp"
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <algorithm>
#include <sstream>
typedef Arabica::SAX2DOM::Parser<S> P;
typedef Arabica::SAX::InputSource<S> IS;
struct Errs : Arabica::SAX::ErrorHandler<S> {
  typedef Arabica::SAX::SAXParseException<S> X; int e = 0, f = 0; bool thr = false;
  void warning(const X&) {} void error(const X&) { ++e; if (thr) throw std::runtime_error("handler"); } void fatalError(const X&) { ++f; if (thr) throw std::runtime_error("handler"); }
};
static S q(const S& s) { S r = "\""; for (char c : s) { if (c == '\n') r += "\\n"; else r += c; } return r + "\""; }
static S canon(N n) {
  S r;
  switch (n.getNodeType()) {
    case NB::ELEMENT_NODE: {
      r = "E(" + n.getNamespaceURI() + ")" + n.getNodeName() + "["; NM m = n.getAttributes(); std::vector<S> v;
      for (unsigned i = 0; i < m.getLength(); ++i) { N a = m.item(i); v.push_back("(" + a.getNamespaceURI() + ")" + a.getNodeName() + "=" + q(a.getNodeValue())); }
      std::sort(v.begin(), v.end()); for (auto& s : v) r += s + " "; r += "]{"; break; }
    case NB::TEXT_NODE: return "T" + q(n.getNodeValue()); case NB::CDATA_SECTION_NODE: return "C" + q(n.getNodeValue());
    case NB::COMMENT_NODE: return "M" + q(n.getNodeValue()); case NB::PROCESSING_INSTRUCTION_NODE: return "P" + n.getNodeName() + q(n.getNodeValue());
    case NB::ENTITY_REFERENCE_NODE: return "R" + n.getNodeName();
    case NB::DOCUMENT_TYPE_NODE: { Arabica::DOM::DocumentType<S> d(n); return "D" + d.getName() + q(d.getPublicId()) + q(d.getSystemId()); }
    case NB::ENTITY_NODE: { Arabica::DOM::Entity<S> d(n); r = "N" + d.getNodeName() + q(d.getPublicId()) + q(d.getSystemId()) + q(d.getNotationName()) + "{"; break; }
    case NB::NOTATION_NODE: { Arabica::DOM::Notation<S> d(n); return "O" + d.getNodeName() + q(d.getPublicId()) + q(d.getSystemId()); }
    case NB::DOCUMENT_NODE: r = "{"; break;
    default: r = "?" + std::to_string(n.getNodeType()) + "{";
  }
  N prev; for (N c = n.getFirstChild(); !(c == 0); c = c.getNextSibling()) { r += canon(c); if (!(c.getPreviousSibling() == prev)) r += "!prev"; if (!(c.getParentNode() == n)) r += "!parent"; prev = c; }
  return r + "}";
}
static S full(Doc d) {
  if (d == 0) return "null"; S r = canon(d);
  if (!(d.getDoctype() == 0)) { for (int k = 0; k < 2; ++k) { NM m = k ? d.getDoctype().getNotations() : d.getDoctype().getEntities(); std::vector<S> v; for (unsigned i = 0; i < m.getLength(); ++i) v.push_back(canon(m.item(i))); std::sort(v.begin(), v.end()); for (auto& s : v) r += "\n" + s; } }
  return r;
}
static Doc parse(P& p, const S& src) { std::istringstream ss(src); IS is(ss); p.parse(is); return p.getDocument(); }
static const bool EXPAT =
#ifdef MC_BACKEND_expat
  true;
#else
  false;
#endif
static const bool LIBXML =
#ifdef MC_BACKEND_libxml2
  true;
#else
  false;
#endif

static const bool XER = !EXPAT && !LIBXML;
// where an entity's text meets other text the division into text nodes is free
static S merged(const S& s) { S r; for (size_t i = 0; i < s.size(); ++i) { r += s[i]; if (s[i] == 'T' && s[i + 1] == '"') { size_t j = s.find('"', i + 2); r += s.substr(i + 1, j - i - 1); while (s[j + 1] == 'T' && s[j + 2] == '"') { size_t k = s.find('"', j + 3); r += s.substr(j + 3, k - j - 3); j = k; } r += '"'; i = j; } } return r; }
// canonical text builder that merges adjacent character data
struct B { S s, t; void flush() { if (!t.empty()) s += "T" + q(t); t.clear(); } void text(const S& x) { t += x; } void add(const S& x) { flush(); s += x; } };

static void content(mc::Ctx& c) {
  S src; B e; int depth = 0; bool lastC = false;
  int pro = c.choose(4); if (pro == 1) src += "<!--p-->", e.add("M\"p\""); if (pro == 2) src += "<?q z?>\n", e.add("Pq\"z\""); if (pro == 3) src += "<?xml version='1.0'?>";
  src += "<r>"; e.add("E()r[]{");
  int K = XER ? 3 : c.bound(4, 5);
  for (int i = 0; i < K; ++i) {
    int t = c.choose(11); bool wasC = lastC; lastC = false; if (t == 0) break;
    switch (t) {
      case 1: src += "a"; e.text("a"); break;
      case 2: src += "&lt;"; e.text("<"); break;
      case 3: src += "&#x41;b"; e.text("Ab"); break;
      case 4: src += "<!--c-->"; e.add("M\"c\""); break;
      case 5: src += "<?p d e?>"; e.add("Pp\"d e\""); break;
      case 6: if (LIBXML && wasC) c.prune(); src += "<![CDATA[x<&]]>"; e.add("C\"x<&\""); lastC = true; break;
      case 7: src += "<b/>"; e.add("E()b[]{}"); break;
      case 8: src += "<b m='' n=\"1&amp;' &gt;\">"; e.add("E()b[()m=\"\" ()n=\"1&' >\" ]{"); ++depth; break;
      case 9: if (!depth) c.prune(); src += "</b>"; e.add("}"); --depth; break;
      case 10: src += " \r\n\xc3\xa9"; e.text(" \n\xc3\xa9"); break;
    }
  }
  while (depth--) { src += "</b>"; e.add("}"); }
  src += "</r>"; e.add("}");
  if (c.flip()) { src += "\n<!--e--><?f g?>\n"; e.add("M\"e\"Pf\"g\""); }
  c.note(src); c.transition();
  S want = "{" + e.s + "}"; P p; Doc d = parse(p, src); S got = full(d);
  c.state(want); c.outcome(got);
  if (got != want) c.fail("tree", "got " + got + " want " + want);
  if (!(d == 0) && !(d.getDocumentElement().getNodeName() == "r")) c.fail("documentElement");
  if (!(d == 0) && !owned(d.getDocumentElement(), d)) c.fail("owner");
}

static void names(mc::Ctx& c) {
  static const S XN = "http://www.w3.org/2000/xmlns/";
  typedef std::map<S, S> M; M sc; S src, exp;
  auto elem = [&](const char* tag, M& sc) {
    std::vector<S> at; S s = S("<");
    std::vector<std::pair<S, S>> decl;
    int d1 = c.choose(4); if (d1 == 1) decl.push_back({"", "u"}); if (d1 == 2) decl.push_back({"", "w"}); if (d1 == 3) decl.push_back({"", ""});
    int d2 = c.choose(3); if (d2) decl.push_back({"p", d2 == 1 ? "u" : "v"});
    for (auto& d : decl) sc[d.first] = d.second;
    bool pref = c.flip(); if (pref && !sc.count("p")) c.prune();
    S qn = (pref ? "p:" : "") + S(tag); s += qn;
    for (auto& d : decl) { S n = d.first.empty() ? "xmlns" : "xmlns:" + d.first; s += " " + n + "='" + d.second + "'"; at.push_back("(" + XN + ")" + n + "=" + q(d.second)); }
    int an = XER ? c.choose(2) * 3 : c.choose(4); if ((an & 2) && !sc.count("p")) c.prune();
    if (an & 1) { s += " a='1'"; at.push_back("()a=\"1\""); }
    if (an & 2) { s += " p:a='2'"; at.push_back("(" + sc["p"] + ")p:a=\"2\""); }
    std::sort(at.begin(), at.end());
    exp += "E(" + (pref ? sc["p"] : sc[""]) + ")" + qn + "["; for (auto& a : at) exp += a + " "; exp += "]{"; src += s + ">"; return qn;
  };
  S r = elem("r", sc); M s2 = sc; S x = elem("x", s2);
  M s3 = s2; S y; if (c.thorough()) { y = elem("y", s3); exp += "}"; src += "</" + y + ">"; }
  exp += "}"; src += "</" + x + ">";
  bool pref = c.flip(); if (pref && !sc.count("p")) c.prune();
  S z = pref ? "p:z" : "z"; src += "<" + z + "/>"; exp += "E(" + (pref ? sc["p"] : sc[""]) + ")" + z + "[]{}";
  src += "</" + r + ">"; exp += "}"; c.note(src); c.transition();
  P p; S got = full(parse(p, src)), want = "{" + exp + "}"; c.state(want); c.outcome(got);
  if (got != want) c.fail("names", "got " + got + " want " + want);
}

// internal subset declarations and their effect on the tree
static void dtd(mc::Ctx& c) {
  struct D { const char* src; const char* ent; const char* cont; const char* note; };
  std::map<S, S> ents, conts, nots; S sub; bool defA = false, idA = false, ext = false;
  int n = c.choose((XER ? 2 : c.bound(3, 4)) + 1);
  for (int i = 0; i < n; ++i) {
    auto ent = [&](const S& nm, const S& hdr, const S& con) { if (!ents.count(nm)) { ents[nm] = "N" + nm + hdr + "{" + con + "}"; conts[nm] = con; } };
    switch (c.choose(12)) {
      case 0: sub += "<!ENTITY e 'text'>"; ent("e", "\"\"\"\"\"\"", "T\"text\""); break;
      case 1: sub += "<!ENTITY e '<i a=\"1\">t</i>u'>"; ent("e", "\"\"\"\"\"\"", "E()i[()a=\"1\" ]{T\"t\"}T\"u\""); break;
      case 2: sub += "<!ENTITY f '<!--k--><j/>'>"; ent("f", "\"\"\"\"\"\"", "M\"k\"E()j[]{}"); break;
      case 3: sub += "<!NOTATION n SYSTEM 'ns'>"; nots["n"] = "On\"\"\"ns\""; if (!EXPAT && sub.find("NOTATION n SYSTEM", sub.find("NOTATION n SYSTEM") + 1) != S::npos) c.prune(); break;
      case 4: sub += "<!NOTATION m PUBLIC 'mp'>"; nots["m"] = "Om\"mp\"\"\""; break;
      case 5: sub += "<!ENTITY g SYSTEM 'gs' NDATA n>"; ent("g", "\"\"\"gs\"\"n\"", ""); break;
      case 6: sub += "<!ATTLIST r d CDATA 'dv'>"; defA = true; break;
      case 7: sub += "<!ATTLIST r i ID #IMPLIED>"; idA = true; break;
      case 8: sub += "<!--dc-->"; break;
      case 9: sub += "<?dp x?>"; break;
      case 10: sub += "<!ELEMENT r ANY>\n"; break;
      case 11: sub += "<!ENTITY h PUBLIC 'hp' 'hs'>"; ent("h", "\"hp\"\"hs\"\"\"", ""); break;
    }
  }
  int idk = c.choose(3); S idn = idk == 2 ? "r" : idk == 1 ? "s" : "t";
  S src = "<!DOCTYPE " + idn + (idk == 2 ? " PUBLIC 'pp' 'ss'" : idk == 1 ? " SYSTEM 'ss'" : "") + (n || c.flip() ? " [" + sub + "]>" : ">");
  B e; e.add("D" + idn + (idk == 2 ? "\"pp\"\"ss\"" : idk == 1 ? "\"\"\"ss\"" : "\"\"\"\""));
  src += "<r i='k'>"; S at = defA ? "()d=\"dv\" ()i=\"k\" " : "()i=\"k\" "; e.add("E()r[" + at + "]{");
  for (int i = 0; i < 2; ++i) { int t = c.choose(4); if (t == 0) continue;
    if (t == 1) { src += "x"; e.text("x"); continue; }
    S nm = t == 2 ? "e" : "f"; if (!ents.count(nm)) c.prune(); src += "&" + nm + ";"; S con = conts[nm];
    e.flush(); e.s += con; }
  src += "<z/></r>"; e.add("E()z[]{}}");
  c.note(src); c.transition();
  P p; p.setFeature("http://xml.org/sax/features/external-general-entities", false); p.setFeature("http://xml.org/sax/features/external-parameter-entities", false);
  Doc d = parse(p, src); S want = "{" + e.s + "}", got = d == 0 ? "null" : canon(d); c.state(want + sub); c.outcome(got);
  if (merged(got) != merged(want)) { c.fail("dtd tree", "got " + got + " want " + want); return; }
  NM em = d.getDoctype().getEntities(), nm = d.getDoctype().getNotations();
  if (em.getLength() != ents.size()) c.fail("entity count", std::to_string(em.getLength()));
  for (auto& k : ents) { N x = em.getNamedItem(k.first); if (x == 0) c.fail("missing entity", k.first); else if (merged(canon(x)) != merged(k.second)) c.fail("entity", "got " + canon(x) + " want " + k.second); }
  if (nm.getLength() != nots.size()) c.fail("notation count", std::to_string(nm.getLength()));
  for (auto& k : nots) { N x = nm.getNamedItem(k.first); if (x == 0) c.fail("missing notation", k.first); else if (canon(x) != k.second) c.fail("notation", "got " + canon(x) + " want " + k.second); }
  N by = d.getElementById("k"); if (idA ? !(by == d.getDocumentElement()) : !(by == 0)) c.fail("getElementById", idA ? "declared ID not found" : "found without ID declaration");
  if (!(d.getDoctype().getOwnerDocument() == d) || !(d.getDoctype().getParentNode() == d)) c.fail("doctype owner");
}

static const std::vector<S>& docs() {
  static std::vector<S> v;
  if (v.empty()) {
    v = {"<r>a</r>", "<r><b i='k'/></r>", "<r", "<r><b></r>", "", "<r>a<b>t</b>", "<r><![CDATA[x]]>y</r>", "<r><![CDATA[x", "<!--c--><r/><?p q?>", "<r>&u;</r>", "<q:r/>", "<r a='1' a='2'/>"};
    if (!LIBXML) for (const char* s : {"<!DOCTYPE r [<!ENTITY e 'one'><!ATTLIST b i ID #IMPLIED>]><r>&e;<b i='k'/></r>", "<!DOCTYPE r [<!ENTITY e '<two/>'><!NOTATION n SYSTEM 'x'>]><r>&e;&e;<b i='k'/></r>",
      "<!DOCTYPE r [<!ENTITY e 'x'>]><r>&e;<b>", "<!DOCTYPE r [<!ENTITY f 'y'> <!ATTLIST b d CDATA 'v'>]><r><b/>&f;</r>", "<!DOCTYPE r [<!ENTITY e 'x'", "<!DOCTYPE r [<!ENTITY e '<a>&e;</a>'>]><r>&e;</r>", "<!DOCTYPE r [<!ENTITY e '&f;z'><!ENTITY f 'y'>]><r>&e;&f;</r>"}) v.push_back(s);
  }
  return v;
}
static S ids(Doc d) { return d == 0 ? "" : (d.getElementById("k") == 0 ? " noid" : " id"); }
static void reuse(mc::Ctx& c) {
  P p; Errs er; int hk = c.choose(3); if (hk) p.setErrorHandler(er); er.thr = hk == 2;
  std::vector<std::pair<Doc, S>> kept; int n = XER ? 2 : c.bound(LIBXML ? 2 : 3, 4);
  for (int i = 0; i < n; ++i) {
    if (i && i + 1 < n && c.flip()) { p.reset(); if (!(p.getDocument() == 0)) c.fail("reset keeps a document"); }
    const S& src = c.pick(docs()); c.note(src); c.transition();
    auto run = [&](P& p, Errs& er, Doc& d) { er.e = er.f = 0; S r; try { std::istringstream ss(src); IS is(ss); bool ok = p.parse(is); d = p.getDocument(); r = full(d) + ids(d) + (ok == !(d == 0) ? "" : "!return"); } catch (std::runtime_error& x) { r = S("threw ") + x.what(); } return r + " e" + std::to_string(er.e) + "f" + std::to_string(er.f); };
    P f; Errs fe; fe.thr = er.thr; if (hk) f.setErrorHandler(fe); Doc fd, d; S want = run(f, fe, fd), got = run(p, er, d);
    c.state(got); if (got != want) c.fail("reuse", "got " + got + " fresh " + want);
    if (!(d == 0)) kept.push_back({d, full(d) + ids(d)});
  }
  for (auto& k : kept) if (full(k.first) + ids(k.first) != k.second) c.fail("earlier document changed", "now " + full(k.first) + " was " + k.second);
}
// every proper prefix of a document yields no document; the parser then still parses
static void truncated(mc::Ctx& c) {
  static std::vector<S> v; if (v.empty()) for (auto& s : docs()) { P p; if (!(parse(p, s) == 0)) v.push_back(s); }
  const S& s = c.pick(v); size_t k = c.choose((int)s.size()); S pre = s.substr(0, k); c.note(pre); c.transition();
  P p; Errs e; bool h = c.flip(); if (h) p.setErrorHandler(e); Doc d = parse(p, pre);
  bool complete = false; { size_t end = s.rfind("</r>"); size_t need = end == S::npos ? s.find("/>") + 2 : end + 4; complete = k >= need; if (complete && s.find("<?p", need) != S::npos && k > need) complete = false; }
  if (k > 0 && complete != !(d == 0)) c.fail("truncated", full(d));
  if (!complete && h && e.f + e.e == 0) c.fail("truncation not reported");
  P f; S want = full(parse(f, s)), got = full(parse(p, s)); c.outcome(got); if (got != want) c.fail("after truncated", "got " + got + " want " + want);
}
int main(int argc, char** argv) {
  std::vector<mc::Scenario> v = {{"content", content}, {"names", names}, {"reuse", reuse}, {"truncated", truncated}};
  if (EXPAT) v.push_back({"dtd", dtd});
  return mc::run(argc, argv, v);
}
