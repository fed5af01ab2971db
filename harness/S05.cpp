// S05: NamespaceSupport (and NamespaceTracker on top of it) against a stack of prefix maps, every operation sequence up to a depth.
#include "mc.hpp"
#include <SAX/helpers/NamespaceSupport.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <set>
typedef std::string S; typedef Arabica::default_string_adaptor<S> SA; typedef Arabica::SAX::NamespaceSupport<S, SA> NSup; typedef std::map<S, S> M;
static const S XML = "http://www.w3.org/XML/1998/namespace";
static const std::vector<S> P = {"", "a", "b", "c", "xml", "xmlns", "zz"}, U = {"", "u", "v", XML, "other"};
struct Model { std::vector<M> st; Model() { reset(); } void reset() { st.assign(1, M{{"xml", XML}}); }
  M scope() const { M m; for (auto& s : st) for (auto& p : s) m[p.first] = p.second; return m; } };
static S key(const Model& m) { S k; for (auto& s : m.st) { k += "["; for (auto& p : s) k += p.first + "=" + p.second + ";"; k += "]"; } return k; }
static S join(std::vector<S> v) { std::sort(v.begin(), v.end()); S r; for (auto& s : v) r += s + ","; return r; }
static void check(mc::Ctx& c, const NSup& n, const Model& m, bool undeclared) {
  M sc = m.scope(); S d = key(m);
  for (auto& p : P) { S w = sc.count(p) ? sc[p] : ""; if (n.getURI(p) != w) c.fail("getURI", d + " getURI(" + p + ") = '" + n.getURI(p) + "' want '" + w + "'"); }
  std::vector<S> all, decl; for (auto& p : sc) if (!p.first.empty() && !(p.second.empty() && undeclared)) all.push_back(p.first); for (auto& p : m.st.back()) decl.push_back(p.first);
  S g = join(n.getPrefixes()), g2 = join(n.getDeclaredPrefixes()); if (g != join(all)) c.fail("getPrefixes", d + " getPrefixes = " + g + " want " + join(all)); if (g2 != join(decl)) c.fail("getDeclaredPrefixes", d + ": " + g2 + " want " + join(decl));
  for (auto& u : U) if (!u.empty()) { std::vector<S> w; for (auto& p : sc) if (!p.first.empty() && p.second == u) w.push_back(p.first); S got = n.getPrefix(u), gl = join(n.getPrefixes(u));
    if (w.empty() ? !got.empty() : std::find(w.begin(), w.end(), got) == w.end()) c.fail("getPrefix", d + " getPrefix(" + u + ") = '" + got + "' want one of " + join(w)); if (gl != join(w)) c.fail("getPrefixes(uri)", d + " getPrefixes(" + u + ") = " + gl + " want " + join(w)); }
  for (S q : {"l", "a:l", "b:l", "c:l", "xml:l", "zz:l", "a:b:c", ":l", "a:", "", "1", "xmlns", "_", "a.b"}) for (int at = 0; at < 2; ++at) {
    S got, want; try { auto r = n.processName(q, at); got = r.namespaceUri() + "|" + r.localName() + "|" + r.rawName() + "|" + r.prefix(); } catch (Arabica::SAX::SAXException&) { got = "rejected"; }
    size_t i = q.find(':'); bool bad = q.empty() || q == "1" || i == 0 || i + 1 == q.size() || (i != S::npos && q.find(':', i + 1) != S::npos);
    S p = i == S::npos ? "" : q.substr(0, i); want = bad ? "rejected" : (i == S::npos && at ? "" : sc.count(p) ? sc[p] : "") + "|" + q.substr(i == S::npos ? 0 : i + 1) + "|" + q + "|" + p;
    if (got != want) c.fail("processName", d + " " + q + (at ? " attribute " : " element ") + got + " want " + want); }
}
static void ops(mc::Ctx& c) {
  NSup n; Model m; int depth = c.bound(4, 6); check(c, n, m, false);
  static const std::vector<std::pair<S, S>> D = {{"", "u"}, {"", ""}, {"", "v"}, {"a", "u"}, {"a", "v"}, {"b", "u"}, {"b", "v"}, {"xml", "u"}, {"xmlns", "u"}, {"c", XML}};
  for (int k = 0; k < depth; ++k) {
    size_t o = c.choose(D.size() + 3 + (m.st.size() > 1)); if (o == 0) return; c.transition();
    if (o == 1) { n.pushContext(); m.st.push_back(M()); c.note("push"); } else if (o == 2) { n.reset(); m.reset(); c.note("reset"); } else if (o < D.size() + 3) { auto& d = D[o - 3]; bool want = d.first != "xml" && d.first != "xmlns"; c.note("declare " + d.first + "=" + d.second); bool got = n.declarePrefix(d.first, d.second); if (got != want) c.fail("declarePrefix", d.first); if (want) m.st.back()[d.first] = d.second; } else { n.popContext(); m.st.pop_back(); c.note("pop"); }
    c.state(key(m)); check(c, n, m, false);
  }
}
// deep nesting: each level declares any subset; then unwinds
static void nested(mc::Ctx& c) {
  NSup n; Model m; int d = c.bound(4, 5); std::vector<S> keys;
  for (int k = 0; k < d; ++k) { keys.push_back(key(m)); n.pushContext(); m.st.push_back(M()); int x = c.choose(6); static const S pr[] = {"", "a", "b"}; static const S ur[] = {"u", "v", "", "u"};
    if (x) for (int i = 0; i < 3; ++i) if ((x + i) % 3 || x == 5) { S u = ur[(x + i + k) % (i ? 2 : 3)]; n.declarePrefix(pr[i], u); m.st.back()[pr[i]] = u; } c.transition(); c.state(key(m)); check(c, n, m, false); }
  while (m.st.size() > 1) { n.popContext(); m.st.pop_back(); if (key(m) != keys[m.st.size() - 1]) c.fail("harness", key(m)); check(c, n, m, false); c.transition(); }
}
// the tracker filter sees mappings before the start tag they belong to
struct Rec : Arabica::SAX::DefaultHandler<S> { S log; void startElement(const S& u, const S& l, const S& q, const Arabica::SAX::Attributes<S>& a) { log += "<" + u + "|" + l + "|" + q + std::to_string(a.getLength()) + ">"; } void endElement(const S& u, const S& l, const S& q) { log += "</" + u + "|" + l + "|" + q + ">"; } void startPrefixMapping(const S& p, const S& u) { log += "+" + p + "=" + u; } void endPrefixMapping(const S& p) { log += "-" + p; } void characters(const S& s) { log += s; } void startDocument() { log += "("; } void endDocument() { log += ")"; } };
static void tracker(mc::Ctx& c) {
  Arabica::SAX::NamespaceTracker<S, SA> t; Rec r; t.setContentHandler(r); std::vector<M> st(1, M{{"xml", XML}}); M pend; S want; Arabica::SAX::AttributesImpl<S> none; int runs = c.bound(6, 8); std::vector<std::vector<S>> opened;
  t.startDocument(); want += "(";
  for (int k = 0; k < runs; ++k) {
    int o = c.choose(3 + 4 + 1); if (o == 0) break; c.transition();
    if (o == 1) { st.push_back(st.back()); for (auto& p : pend) st.back()[p.first] = p.second; pend.clear(); t.startElement("", "e", "e", none); want += "<|e|e0>"; c.note("start"); }
    else if (o == 2) { if (st.size() == 1 || !pend.empty()) c.prune(); st.pop_back(); t.endElement("", "e", "e"); want += "</|e|e>"; c.note("end"); }
    else if (o < 7) { static const std::pair<S, S> D[] = {{"", "u"}, {"a", "u"}, {"a", "v"}, {"", ""}}; auto& d = D[o - 3]; if (pend.count(d.first)) c.prune(); pend[d.first] = d.second; t.startPrefixMapping(d.first, d.second); want += "+" + d.first + "=" + d.second; c.note("map " + d.first + "=" + d.second); }
    else { t.characters("x"); want += "x"; c.note("chars"); }
    M sc = st.back(); S dd; for (auto& p : sc) dd += p.first + "=" + p.second + ";"; c.state(dd + std::to_string(st.size()));
    for (auto& p : P) if (t.getURI(p) != (sc.count(p) ? sc[p] : "")) c.fail("tracker-uri", dd + " " + p + " = " + t.getURI(p));
    M w = sc; w[""] = sc.count("") ? sc[""] : ""; if (t.inScopeNamespaces() != w) { S g; for (auto& p : t.inScopeNamespaces()) g += p.first + "=" + p.second + ";"; c.fail("tracker-scope", dd + " in scope: " + g); }
    auto e = t.processElementName("l"); if (e.namespaceUri() != (sc.count("") ? sc[""] : "")) c.fail("tracker-element", dd); auto at = t.processName("a:l"); if (at.namespaceUri() != (sc.count("a") ? sc["a"] : "")) c.fail("tracker-name", dd);
  }
  if (r.log != want) c.fail("tracker-events", r.log + " want " + want);
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"ops", ops}, {"nested", nested}, {"tracker", tracker}}); }
