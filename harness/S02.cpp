// S02: events are balanced, correctly namespaced, and the same from every parser.
#include "sax_rec.hpp"
using namespace sr;
typedef Arabica::SAX::XMLReader<S> P; typedef Rec<S> R;
static Arabica::SAX::FeatureNames<S> FN;
static const S XMLU = "http://www.w3.org/XML/1998/namespace", NSU = "http://www.w3.org/2000/xmlns/";
typedef std::map<S, S> M;
static void judge(mc::Ctx& c, const S& src, R& r, Shape& want, bool violation, bool thrown, const char* tag) {
  S w = join(want.done()), g = join(r.sh.done()); c.state(w); c.outcome(g); c.transition();
  if (violation) { if (!thrown && !r.err && !r.fat) c.fail(S(tag) + "-unreported", src + " " + g); return; }
  if (thrown) return c.fail(S(tag) + "-thrown", src); if (r.bad) return c.fail(S(tag) + "-shape", r.why + " " + src + " " + g);
  if (r.fat || r.err) return c.fail(S(tag) + "-error", src);
  if (g != w) return c.fail(S(tag) + "-events", src + "\n got " + g + "\n want " + w);
  if (r.starts != 1 || r.ends != 1 || !r.stack.empty()) c.fail(S(tag) + "-balance", src);
}
// nested namespace scopes under each feature setting
static void ns(mc::Ctx& c) {
  int feat = c.choose(3); const bool N = feat != 2, X = feat != 0;   // (namespaces only) (both) (prefixes only)
  P p; p.setFeature(FN.namespaces, true); p.setFeature(FN.namespace_prefixes, true);
  if (feat == 0) p.setFeature(FN.namespace_prefixes, false); if (feat == 2) p.setFeature(FN.namespaces, false);
  if (p.getFeature(FN.namespaces) != N) { c.fail("feature"); return; }
  if (XERCES && feat) c.prune();   // Xerces' own settings differ
  Shape want; want.add("<<"); bool viol = false; S src; M sc; sc["xml"] = XMLU; int depth = 0; const bool rich = c.flip(), T = c.thorough() && EXPAT; const int maxd = rich || !EXPAT ? 2 : 3;
  std::function<void(M)> elem = [&](M sc) {
    std::vector<std::pair<S, S>> decl; ++depth;
    int nd = depth == 1 ? 8 : depth == 2 ? (rich && !T ? 3 : 8) : T ? 4 : 3;
    switch (c.choose(nd)) { case 1: decl.push_back({"", "u"}); break; case 2: decl.push_back({"p", "u"}); break; case 3: decl.push_back({"p", "v"}); break; case 4: decl.push_back({"", ""}); break;
      case 5: decl.push_back({"p", "u"}); decl.push_back({"q", "u"}); break; case 6: decl.push_back({"q", "v"}); decl.push_back({"", "v"}); break; case 7: if (XERCES) c.prune(); decl.push_back({"xml", XMLU}); break; }
    M s2 = sc; for (auto& d : decl) s2[d.first] = d.second;
    auto name = [&](const S& pf, const S& l, bool at) { S qn = pf.empty() ? l : pf + ":" + l; if (!N) return at ? "{}|" + qn : "{}|" + qn; if (!pf.empty() && !s2.count(pf)) viol = true; S u = pf.empty() ? (at ? S() : (s2.count("") ? s2[""] : S())) : s2.count(pf) ? s2[pf] : S(); return "{" + u + "}" + l + "|" + qn; };
    static const char* pfs[] = {"", "p", "q"}; S pf = pfs[c.choose(rich && depth == 2 ? 1 : depth < 3 ? 3 : 2)], l = S(1, char('a' + depth)), nm = name(pf, l, false), qn = pf.empty() ? l : pf + ":" + l;
    std::vector<S> at; S as; std::set<S> ex;
    auto attr = [&](const S& ap, const S& al) { S aq = ap.empty() ? al : ap + ":" + al; as += " " + aq + "='1'"; S e = name(ap, al, true); at.push_back(e + "=\"1\""); if (N && !ap.empty() && s2.count(ap) && !ex.insert(s2[ap] + "}" + al).second) viol = true; };
    switch (c.choose(rich ? depth == 1 ? 8 : 3 : T ? 4 : depth == 1 ? 3 : depth == 2 ? 4 : 1)) { case 1: attr("", "x"); break; case 2: attr("p", "x"); break; case 3: attr("p", "x"); attr("q", "x"); break; case 4: attr("", "xmlnsx"); break; case 5: attr("", "x"); attr("p", "x"); break; case 6: attr("xml", "lang"); break; case 7: attr("", "xmln"); attr("", "xmlns-y"); break; }
    S ds; for (auto& d : decl) { S dn = d.first.empty() ? "xmlns" : "xmlns:" + d.first; ds += " " + dn + "='" + d.second + "'"; if (X) at.push_back(N ? dn + "=" + q(d.second) : dn + "=" + q(d.second)); }
    bool after = !decl.empty() && !as.empty() && rich && c.flip();   // declarations before or after the attributes that use them
    std::sort(at.begin(), at.end());
    if (N) for (auto& d : decl) if (d.first != "xml") want.add("+" + d.first + "=" + d.second);
    want.add("E" + nm + "[" + join(at) + "]"); src += "<" + qn + (after ? as + ds : ds + as) + ">";
    if (depth < maxd && c.choose(2)) elem(s2);
    if (depth == 1 && (T || !rich) && c.choose(2)) { S k = name("p", "k", false); src += "<p:k/>"; want.add("E" + k + "[]"); want.add("/" + k); }
    src += "</" + qn + ">"; want.add("/" + nm); if (N) for (auto& d : decl) if (d.first != "xml") want.add("-" + d.first);
    --depth;
  };
  elem(sc); want.add(">>"); c.note(src);
  R r; wire(p, r); r.xmlnsAttrs = !XERCES; bool thrown = false;
  try { parse(p, src); } catch (const Arabica::SAX::SAXException&) { thrown = true; }
  judge(c, src, r, want, viol, thrown, "ns");
}
// every way of breaking the namespace constraints, at two depths, is reported; the neighbouring legal documents are not
static void violations(mc::Ctx& c) {
  static const struct { const char* at; bool bad; } A[] = {
    {"xmlns:xml='u'", true}, {"xmlns:xml='http://www.w3.org/XML/1998/namespace'", false}, {"xmlns:xmlns='u'", true}, {"xmlns:xmlns='http://www.w3.org/2000/xmlns/'", true},
    // (another prefix for the xml namespace is accepted by design: the repository's own XSLT tests use such a document)
    {"xmlns:p='http://www.w3.org/2000/xmlns/'", true}, {"xmlns='http://www.w3.org/2000/xmlns/'", true},
    {"xmlns:p=''", true}, {"xmlns=''", false}, {"xmlns:p='u' xmlns:q='u' p:a='' q:a=''", true}, {"xmlns:p='u' xmlns:q='v' p:a='' q:a=''", false}, {"xmlns:p='u' xmlns='u' p:a='' a=''", false},
    {"z:a=''", true}, {"xmlns:z='u' z:a=''", false}, {"a:b:c=''", true}, {"a:=''", true}, {"xml:space='preserve'", false}, {"xmlns:p='u' p:a='' xmlns:q='u' q:b=''", false}, {"xmlnsa:b=''", true}, {"xmlns:xmlnsa='u' xmlnsa:b=''", false}, {"xmlns:='u'", true}, {"xmlns:a:b='u'", true}};
  auto& a = A[c.choose(sizeof A / sizeof *A)]; int where = c.choose(4); S src;
  switch (where) { case 0: src = S("<r ") + a.at + "/>"; break; case 1: src = S("<r><s ") + a.at + "/></r>"; break; case 2: src = S("<r xmlns:p='w'><s xmlns:q='x'><t ") + a.at + "/></s></r>"; break; case 3: src = S("<r><s xmlns:p='k' xmlns='k'/><s ") + a.at + "></s></r>"; break; }
  c.note(src); P p; p.setFeature(FN.namespaces, true); p.setFeature(FN.namespace_prefixes, c.flip()); R r; wire(p, r); bool thrown = false; c.transition();
  try { parse(p, src); } catch (const Arabica::SAX::SAXException&) { thrown = true; }
  c.outcome(std::to_string(r.err + r.fat + thrown)); bool rep = thrown || r.err || r.fat;
  if (rep != a.bad) c.fail("namespace-constraint", src + (rep ? " reported" : " not reported"));
}
// content, entities and lexical events in document order
static void content(mc::Ctx& c) {
  S src; Shape e; std::vector<S> st; e.add("<<"); bool lastC = false;
  S sub; bool dt = c.flip();
  switch (c.choose(5)) { case 1: src += "<?xml version=\"1.0\"?>\n"; break; case 2: src += "<!--p-->"; e.add("M\"p\""); break; case 3: src += "<?q  z ?>"; e.add("Pq\"z \""); break; case 4: src += "<?xml version='1.0' encoding='utf-8' standalone='yes'?><?q?> "; e.add("Pq\"\""); break; }
  if (dt) { src += "<!DOCTYPE r [<!ENTITY e 'E\xc3\xa9'><!ENTITY f '<w v=\"&#65;\">&e;</w>'>]>"; }
  auto open = [&](const S& nm, const S& at) { e.add("E{}" + nm + "|" + nm + "[" + at + "]"); st.push_back(nm); };
  auto close = [&]() { e.add("/{}" + st.back() + "|" + st.back()); st.pop_back(); };
  src += "<r>"; open("r", "");
  int K = XERCES ? 3 : c.bound(4, 5); S tw = "\xF0\x90\x8D\x88";
  for (int i = 0; i < K; ++i) {
    int t = c.choose(dt ? 13 : 11); bool w = lastC; lastC = false; if (!t) break;
    switch (t) {
      case 1: src += "a\r\nb\rc"; e.text("a\nb\nc"); break;
      case 2: src += "&lt;&#x10348;"; e.text("<" + tw); break;
      case 3: src += tw + "\xc3\xa9"; e.text(tw + "\xc3\xa9"); break;
      case 4: src += "<!--c&-->"; e.add("M\"c&\""); break;
      case 5: src += "<?p  d e?>"; e.add("Pp\"d e\""); break;
      case 6: if (LIBXML && w) c.prune(); src += "<![CDATA[x<&]" + tw + "]]>"; e.add("[C"); e.text("x<&]" + tw); e.add("C]"); lastC = true; break;
      case 7: src += "<b/>"; open("b", ""); close(); break;
      case 8: src += "<b n=\"1&amp;' &#10;\n>" + tw + "\" m=''>"; open("b", "{}m|m=\"\" {}n|n=\"1&' \\n >" + tw + "\" "); break;
      case 9: if (st.size() < 2) c.prune(); src += "</" + st.back() + ">"; close(); break;
      case 10: src += " \n\t"; e.text(" \n\t"); break;
      case 11: src += "&e;"; e.text("E\xc3\xa9"); break;
      case 12: src += "&f;"; open("w", "{}v|v=\"A\" "); e.text("E\xc3\xa9"); close(); break;
    }
  }
  while (!st.empty()) { src += "</" + st.back() + ">"; close(); }
  if (c.flip()) { src += "\n<!--e--><?f g?>\n"; e.add("M\"e\""); e.add("Pf\"g\""); }
  e.add(">>"); c.note(src);
  P p; R r; p.setContentHandler(r); p.setErrorHandler(r);
  struct Lex : Arabica::SAX::DefaultHandler<S> { R& r; Lex(R& x) : r(x) {} void startCDATA() { r.startCDATA(); } void endCDATA() { r.endCDATA(); } void comment(const S& s) { r.comment(s); } } lex(r);
  p.setLexicalHandler(lex); bool thrown = false;
  try { parse(p, src); } catch (const Arabica::SAX::SAXException&) { thrown = true; }
  judge(c, src, r, e, false, thrown, "content");
}
// declarations of the internal subset (the XML declares the exact events; element content models are compared up to spacing)
static void dtd(mc::Ctx& c) {
  S sub; Shape e; e.add("<<"); static const char* ids[] = {"", " SYSTEM 'ss'", " PUBLIC 'pp' 'ss'"}; int idk = c.choose(3);
  if (LIBXML || (XERCES && idk)) c.prune();   // libxml2's wrapper has no DTD events; Xerces loads external subsets
  e.add(idk == 2 ? "Dr\"pp\"\"ss\"" : idk == 1 ? "Dr\"\"\"ss\"" : "Dr\"\"\"\"");
  int K = XERCES ? 2 : c.bound(3, 4); bool nset = false;
  for (int i = 0; i < K; ++i) {
    int t = c.choose(22); if (!t) break;
    if (XERCES && (t == 5 || t == 6 || t == 8 || t > 15)) c.prune();
    auto uniq = [&](const char* k) { if (sub.find(k) != S::npos) c.prune(); };
    switch (t) {
      case 1: uniq("e 'te"); sub += "<!ENTITY e 'te&#65;'>"; e.add("Ie\"teA\""); break;
      case 2: uniq("h PUB"); sub += "<!ENTITY h PUBLIC 'hp' 'hs'>"; e.add("Xh\"hp\"\"hs\""); break;
      case 3: uniq("i SYS"); sub += "<!ENTITY i SYSTEM \"is\">"; e.add("Xi\"\"\"is\""); break;
      case 4: uniq("NOTATION n"); sub += "<!NOTATION n SYSTEM 'ns'>"; e.add("On\"\"\"ns\""); nset = true; break;
      case 5: sub += "<!NOTATION m PUBLIC 'mp'>"; e.add("Om\"mp\"\"\""); break;
      case 6: uniq("g SYS"); sub += "<!ENTITY g SYSTEM 'gs' NDATA n>"; e.add("Ug\"\"\"gs\"n"); break;
      case 7: sub += "<!--dc-->"; e.add("M\"dc\""); break;
      case 8: sub += "<?dp x?>"; e.add("Pdp\"x\""); break;
      case 9: uniq("ELEMENT r"); sub += "<!ELEMENT r ANY>\n"; e.add("Lr\"ANY\""); break;
      case 10: uniq("ELEMENT b"); sub += "<!ELEMENT b EMPTY>"; e.add("Lb\"EMPTY\""); break;
      case 11: uniq("ELEMENT c"); sub += "<!ELEMENT c (#PCDATA)>"; e.add("Lc\"(#PCDATA)\""); break;
      case 12: uniq("r d"); sub += "<!ATTLIST r d CDATA #IMPLIED>"; e.add("Ar,d,CDATA,#IMPLIED\"\""); break;
      case 13: uniq("r f"); sub += "<!ATTLIST r f NMTOKEN #REQUIRED>"; e.add("Ar,f,NMTOKEN,#REQUIRED\"\""); break;
      case 14: uniq("s g"); sub += "<!ATTLIST s g ID #IMPLIED h CDATA #FIXED 'k&lt;'>"; e.add("As,g,ID,#IMPLIED\"\""); e.add("As,h,CDATA,#FIXED\"k<\""); break;
      case 15: sub += " \n "; break;
      case 16: uniq("ELEMENT d"); sub += "<!ELEMENT d (a, b?, (c | d+)*)>"; e.add("Ld\"(a,b?,(c|d+)*)\""); break;
      case 17: uniq("ELEMENT k"); sub += "<!ELEMENT k (#PCDATA | a | b)*>"; e.add("Lk\"(#PCDATA|a|b)*\""); break;
      case 18: uniq("ELEMENT l"); sub += "<!ELEMENT l (a)+>"; e.add("Ll\"(a)+\""); break;
      case 19: uniq("r j"); sub += "<!ATTLIST r j (x|y) 'y'>"; e.add("Ar,j,(x|y),#IMPLIED\"y\""); break;
      case 20: uniq("% v"); sub += "<!ENTITY % v 'pv'>"; e.add("I%v\"pv\""); break;
      case 21: uniq("% w"); sub += "<!ENTITY % w PUBLIC 'wp' 'ws'>"; e.add("X%w\"wp\"\"ws\""); break;
    }
  }
  e.add("~D"); S src = S("<!DOCTYPE r") + ids[idk] + (sub.empty() && !XERCES && c.flip() ? ">" : " [" + sub + "]>") + "<r/>"; c.note(src);
  S dfl = sub.find("r j") != S::npos ? "{}j|j=\"y\" " : ""; e.add("E{}r|r[" + dfl + "]"); e.add("/{}r|r"); e.add(">>");
  P p; R r; wire(p, r); bool thrown = false; try { parse(p, src); } catch (const Arabica::SAX::SAXException&) { thrown = true; }
  if (XERCES) r.err = 0;
  for (auto& s : r.sh.ev) { if (s.substr(0, 2) == "Ll" && s == "Ll\"((a))+\"") s = "Ll\"(a)+\""; if (s == "Ar,j,(x|y),\"y\"") s = "Ar,j,(x|y),#IMPLIED\"y\""; }
  judge(c, src, r, e, false, thrown, "dtd");
}
// any subset of handlers, and a content handler installed part-way: the handlers present still get exactly their events
static void handlers(mc::Ctx& c) {
  int have = c.choose(32), at = c.choose(3); static const char* docs[] = {"<!--1--><!DOCTYPE r [<!NOTATION n SYSTEM 's'><!ENTITY e 'x'>]><r xmlns:p='u'><p:a xmlns='v'><!--2--><b p:c='1'/>&e;<![CDATA[z]]></p:a></r><!--3-->", "<r xmlns='u'><!--2--><a xmlns='w'><!--4--></a></r>", "<r><!--2--><?q?></r>"};
  S src = docs[c.choose(3)]; c.note(src + " " + std::to_string(have)); P p; R full; { P p2; wire(p2, full); parse(p2, src); }
  struct Mid : R { P* p = 0; R* target = 0; int at = 0, seen = 0; void comment(const S& s) { R::comment(s); if (target && ++seen == at) p->setContentHandler(*target); } } r;
  R late; if (have & 1) p.setContentHandler(r); if (have & 2) p.setLexicalHandler(r); if (have & 4) p.setDTDHandler(r); if (have & 8) p.setDeclHandler(r); if (have & 16) p.setErrorHandler(r);
  if (at && (have & 2)) { r.p = &p; r.target = &late; r.at = at; } c.transition();
  if (at && XERCES) c.prune();
  r.starts = have & 1 ? 0 : 1; late.starts = 1;
  bool thrown = false; try { parse(p, src); } catch (const std::exception&) { thrown = true; } if (thrown) return c.fail("handlers-thrown", src);
  if (r.err || r.fat) c.fail("handlers-error", src);
  auto kind = [](const S& e) { switch (e[0]) { case '[': case 'C': case 'M': case 'D': case '~': return 2; case 'O': case 'U': return 4; case 'L': case 'A': case 'I': case 'X': return 8; } return 1; };
  Shape w; bool sw = false; int seen = 0; Shape wl; auto feed = [](Shape& s, const S& e) { if (e[0] == 'T') s.text(e.substr(2, e.size() - 3)); else s.add(e); };
  for (auto& e : full.sh.done()) { int k = kind(e); if (k == 1 ? sw : false) feed(wl, e); else if (have & k) feed(w, e); if (e[0] == 'M' && at && (have & 2) && ++seen == at) sw = true; }
  S g = join(r.sh.done()), ws = join(w.done()), lg = join(late.sh.done()), lw = join(wl.done()); c.state(ws + lw); c.outcome(g + lg);
  if (g != ws) c.fail("handlers-events", src + "\n got " + g + "\n want " + ws); if (lg != lw) c.fail("handlers-late", src + "\n got " + lg + "\n want " + lw);
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"ns", ns}, {"violations", violations}, {"content", content}, {"dtd", dtd}, {"handlers", handlers}}); }
