// S03: an ill-formed document is reported exactly once after a valid prefix of events; a parser survives any failed or aborted parse.
#include "sax_rec.hpp"
using namespace sr;
typedef Arabica::SAX::XMLReader<S> P; typedef Rec<S> R;
static Arabica::SAX::FeatureNames<S> FN;
struct O { S ev; int err = 0, fat = 0; bool sax = false, user = false; S bad; bool operator==(const O& o) const { return ev == o.ev && err == o.err && fat == o.fat && sax == o.sax; } S str() const { return ev + " err=" + std::to_string(err) + " fat=" + std::to_string(fat) + (sax ? " sax-exception" : ""); } };
static O run(P& p, const S& s, int throwAt = -1, int* calls = 0) {
  R r; r.xmlnsAttrs = !XERCES; r.throwAt = throwAt; wire(p, r); O o;
  try { parse(p, s); } catch (const Thrown&) { o.user = true; } catch (const Arabica::SAX::SAXException&) { o.sax = true; }
  o.ev = join(r.sh.done()); o.err = r.err; o.fat = r.fat; o.bad = r.bad ? r.why : S(); if (calls) *calls = r.calls;
  if (!r.fat && !o.sax && !o.user && (r.starts != 1 || r.ends != 1 || !r.stack.empty())) o.bad = "unfinished";
  return o;
}
static O fresh(const S& s) { P p; return run(p, s); }
static const char* GOOD[] = {"<g xmlns:p='w'><p:h a='1'/>t<![CDATA[c]]></g>", "<!DOCTYPE g [<!ENTITY e 'E'>]><g>&e;</g>", "<xmlns/>"};
static const O& good(int i) { static O o[3]; static bool done[3]; if (!done[i]) { o[i] = fresh(GOOD[i]); done[i] = true; } return o[i]; }
static void reuse(mc::Ctx& c, P& p, const S& after, const char* tag, int n = 3) { for (int i = 0; i < n; ++i) { O g = run(p, GOOD[i]); if (!(g == good(i))) return c.fail(S(tag) + "-reuse", "after " + after + " parsing " + GOOD[i] + " gave " + g.str() + " instead of " + good(i).str()); } }
// every string of tokens against a reference well-formedness decision; events before the error are a prefix of the document's
static void tokens(mc::Ctx& c) {
  static const char* T[] = {"<a>", "</a>", "<b x='1'>", "</b>", "<c/>", "t", "<!--k-->", "<?p q?>", "<![CDATA[d]]>", "&lt;", "&u;", "<", "]]>", "<d y='1' y='2'/>", "<e z=w/>", "<!-- -- -->", "\n", "<f", "&#0;", "</ a>", "<?xml version='1.0'?>", "<!DOCTYPE a>", "&amp", "<g><", "\xff"};
  const int NT = sizeof T / sizeof *T, K = XERCES ? 3 : c.bound(4, 5); std::vector<int> pre; int d = XERCES ? 1 : 2; for (int i = 0; i < d; ++i) { int t = c.choose(NT + (i ? 1 : 0)); if (t == NT) break; pre.push_back(t); }
  P p; S prev; 
  std::function<void(std::vector<int>&)> go = [&](std::vector<int>& v) {
    // reference
    S src; std::vector<char> st; int roots = 0; bool wf = true; size_t good = 0; Shape want; want.add("<<"); bool dt = false;
    for (size_t i = 0; i < v.size(); ++i) { src += T[v[i]]; if (!wf) continue; int t = v[i]; bool in = !st.empty();
      auto open = [&](char n, const char* at, bool empty) { if (!in && roots++) { wf = false; return; } want.add(S("E{}") + n + "|" + n + "[" + at + "]"); if (empty) want.add(S("/{}") + n + "|" + n); else st.push_back(n); };
      auto close = [&](char n) { if (!in || st.back() != n) { wf = false; return; } st.pop_back(); want.add(S("/{}") + n + "|" + n); };
      switch (t) { case 0: open('a', "", false); break; case 1: close('a'); break; case 2: open('b', "{}x|x=\"1\" ", false); break; case 3: close('b'); break; case 4: open('c', "", true); break;
        case 5: if (in) want.text("t"); else wf = false; break; case 6: want.add("M\"k\""); break; case 7: want.add("Pp\"q\""); break; case 8: if (in) { want.add("[C"); want.text("d"); want.add("C]"); } else wf = false; break;
        case 9: if (in) want.text("<"); else wf = false; break; case 16: if (in) want.text("\n"); break; case 20: if (i) wf = false; break; case 21: if (roots || in || dt) wf = false; else { dt = true; if (EXPAT) want.add("Da\"\"\"\""), want.add("~D"); } break;
        case 23: open('g', "", false); wf = false; break; default: wf = false; }
}
    for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i] == 17) return;   // an unterminated tag swallows what follows
    for (size_t i = 0; i + 1 < v.size(); ++i) if (v[i] == 22 || v[i] == 11 || v[i] == 23) { wf = false; }
    if (wf && (!st.empty() || !roots)) wf = false;
    if (LIBXML && src.find("]]><![CDATA[") != S::npos) return;
    if (XERCES && (dt || (roots && std::count(v.begin(), v.end(), 24)))) return;
    if (wf) want.add(">>");
    O o = run(p, src); S w = join(want.done()); c.transition(); c.outcome(wf ? w : o.ev); c.state(w + (wf ? "" : "!"));
    if (!o.bad.empty()) c.fail("shape", o.bad + " " + src + " " + o.str() + " after " + prev);
    if (wf) { if (o.ev != w || o.err || o.fat || o.sax) c.fail("well-formed", src + " got " + o.str() + " want " + w + " after " + prev); }
    else { if (o.fat + o.sax != 1) c.fail(o.fat + o.sax ? "reported-twice" : "not-reported", src + " " + o.str() + " after " + prev);
      // what came before the error is a prefix of the document (text may be cut short)
      S g = o.ev; size_t k = g.rfind(">> "); if (k != S::npos && k + 3 == g.size()) g.resize(k); if (!g.empty()) g.resize(g.size() - 1); S cmp = g; if (!cmp.empty() && cmp.back() == '"') cmp.resize(cmp.size() - 1);
      if (!(LIBXML && src.rfind('<') != S::npos && src.find('>', src.rfind('<')) == S::npos) && w.compare(0, cmp.size(), cmp)) c.fail("prefix", src + " got " + o.str() + " want a prefix of " + w); }
    prev = src;
  };
  std::vector<int> v = pre; std::function<void()> rec = [&]() { go(v); if ((int)v.size() < K && (int)pre.size() == d) for (int t = 0; t < NT; ++t) { v.push_back(t); rec(); v.pop_back(); } };
  rec();
}
static std::vector<S> bases() { return {"<?xml version='1.0'?><!DOCTYPE r [<!ENTITY e 'x<i/>y'><!NOTATION n SYSTEM 's'><!ENTITY u SYSTEM 'z' NDATA n><!ATTLIST r d CDATA 'v'><!ELEMENT r ANY>]><r xmlns='u' xmlns:p='v' a='1'><p:b c='&lt;'/>t&e;<![CDATA[c]]><!--m--><?q?></r>",
  "<r xmlns:p='u'><a xmlns:p='v' xmlns:q='w'><p:b q:c='1'><![CDATA[z]]></p:b></a>t</r><!--e-->", "<r><a><b>\xe2\x82\xac</b></a></r>"}; }
// every truncation, single-byte deletion and replacement of whole documents: never a crash, at most one report, parser reusable
static void mutants(mc::Ctx& c) {
  auto B = bases(); S s = B[c.choose(B.size())]; size_t at = c.choose(s.size() + 1), n = s.size(); c.transition(); static const char R[] = {'<', '>', '&', '\'', '"', '/', ' ', ':', 'x', '\0', '\x80', '\xff', ']', '!', '?', ';', '='};
  auto one = [&](const S& m, bool ill) {
    P p; O o = run(p, m); c.transition(); c.outcome(o.str()); if (!o.bad.empty()) c.fail("mutant-shape", o.bad + " " + m + " " + o.str());
    if (o.fat + o.sax > 1) c.fail("mutant-twice", m + " " + o.str()); if (ill && o.fat + o.sax != 1) c.fail("mutant-unreported", m + " " + o.str());
    reuse(c, p, m, "mutant", XERCES ? 1 : 3); };
  if (at < s.rfind("</r>") + 4) one(s.substr(0, at), true);
  if (at < n) { one(s.substr(0, at) + s.substr(at + 1), false); for (char r : R) { S m = s; m[at] = r; one(m, false); if (XERCES) break; } if (!XERCES) one(s.substr(0, at) + "<" + s.substr(at), false); }
  c.state(s + std::to_string(at));
}
// a handler that throws from any callback: the exception arrives, and the parser is as good as new
static void throwing(mc::Ctx& c) {
  auto B = bases(); B.push_back("<r><a></r>"); B.push_back("<r><a>&u;</a></r>"); B.push_back("<r><p:a/></r>"); B.push_back("<a:b:c/>"); B.push_back(""); B.push_back("<r xmlns:p='u'><p:a xmlns='v'>t</b></r>"); S s = B[c.choose(B.size())];
  int feat = XERCES ? 0 : c.choose(2); P p; if (feat) p.setFeature(FN.namespaces, false); int calls = 0; O all; { P q; if (feat) q.setFeature(FN.namespaces, false); all = run(q, s, -1, &calls); } if (!calls) c.prune();
  int k = c.choose(calls), k2 = c.choose(2); O o = run(p, s, k); c.transition(); c.state(s + std::to_string(k)); c.outcome(o.str());
  if (!o.user) return c.fail("exception-lost", s + " thrown at callback " + std::to_string(k)); if (!o.bad.empty()) c.fail("throw-shape", o.bad + " " + s);
  bool nsf = p.getFeature(FN.namespaces); if (nsf != !feat) c.fail("throw-feature", s); 
  try { p.setFeature(FN.namespaces, true); } catch (const std::exception&) { return c.fail("throw-still-parsing", s); }
  if (feat) p.setFeature(FN.namespaces, false);
  if (k2) { O again = run(p, s); if (!(again == all)) c.fail("throw-again", s + " at " + std::to_string(k) + " got " + again.str() + " want " + all.str()); p.setFeature(FN.namespaces, true); if (feat) p.setFeature(FN.namespace_prefixes, true); }
  else { p.setFeature(FN.namespaces, true); if (feat) p.setFeature(FN.namespace_prefixes, true); }
  if (!XERCES || !feat) reuse(c, p, s + " thrown at " + std::to_string(k), "throw");
}
// histories of documents, well-formed or not, through one parser: each parse is as from a fresh one
static void histories(mc::Ctx& c) {
  static const char* D[] = {"<r xmlns='u' xmlns:p='v'><p:a><b>", "<r xmlns:q='u'><q:a/></r>", "<p:a/>", "<r>&e;</r>", "<!DOCTYPE r [<!ENTITY e 'x'>]><r>&e;</r>", "", "<r><![CDATA[x", "<r><![CDATA[x]]></r>", "<r/><r/>", "<!DOCTYPE r [<!ENTITY e SYSTEM 'nowhere'>", "<r a='1'>", "<?xml version='1.0' encoding='UTF-16'?><r/>", "\xff\xfe<\0r\0/\0>\0", "<r>\xc3"};
  const int N = sizeof D / sizeof *D, K = XERCES ? 2 : c.bound(3, 4); P p; S h; for (int i = 0; i < K; ++i) { int t = c.choose(i ? N + 1 : N); if (t == N) break; S s = t == 12 ? S("\xff\xfe<\0r\0/\0>\0", 10) : S(D[t]); O g = run(p, s), w = fresh(s); c.transition(); c.outcome(w.str()); h += s + " | "; c.state(h); if (!(g == w)) return c.fail("history", h + " got " + g.str() + " want " + w.str()); if (!g.bad.empty()) c.fail("history-shape", h + g.bad); }
}
// external entities: found, missing, broken or throwing, in every nesting, are reported once and the parser recovers
static void entities(mc::Ctx& c) {
  if (!EXPAT) c.prune();
  static const char* E[] = {"<i/>t", "t<i>", "&f;x", "", "<i>&g;</i>", 0, "throw"}; int e = c.choose(7), f = c.choose(7), where = c.choose(3); bool res = c.flip();
  struct Res : Arabica::SAX::EntityResolver<S> { std::map<S, const char*> m; std::vector<std::istringstream*> keep; Arabica::SAX::InputSource<S> resolveEntity(const S&, const S& s) { const char* t = m.count(s) ? m[s] : 0; if (t && !strcmp(t, "throw")) throw Thrown(); Arabica::SAX::InputSource<S> is; if (t) { keep.push_back(new std::istringstream(t)); is.setByteStream(*keep.back()); is.setSystemId(s); } else is.setSystemId("/nonexistent/x"); return is; } ~Res() { for (auto* k : keep) delete k; } } rs;
  rs.m["E"] = E[e]; rs.m["F"] = E[f]; rs.m["G"] = "gg";
  S src = "<!DOCTYPE r [<!ENTITY e SYSTEM 'E'><!ENTITY f SYSTEM 'F'><!ENTITY g SYSTEM 'G'>]><r>"; src += where == 0 ? "&e;" : where == 1 ? "a&e;b&f;" : "<k>&f;</k>&e;"; src += "</r>";
  // reference: what the text expands to
  std::function<int(int, S&, int)> exp = [&](int k, S& out, int d) -> int { switch (k) { case 0: out += "E{}i|i[] /{}i|i T\"t\" "; return 0; case 1: case 5: return 1; case 2: { if (d) return 1; int r = exp(f, out, 1); out += "T\"x\" "; return r; } case 3: return 0; case 4: out += "E{}i|i[] T\"gg\" /{}i|i "; return 0; case 6: return 2; } return 0; };
  P p; p.setFeature(FN.external_general, res); p.setEntityResolver(rs); O o = run(p, src); c.note(src + " " + std::to_string(e) + std::to_string(f)); c.transition(); S out; int st = 0;
  auto use = [&](int k) { if (st) return; st = exp(k, out, k == f && &k != &e ? 0 : 0); };
  if (res) { if (where == 0) use(e); else if (where == 1) { use(e); use(f); } else { use(f); use(e); } if (f == 2 && (where || e == 2)) st = st == 2 ? 2 : 1; }
  c.state(out + std::to_string(st)); c.outcome(o.str());
  if (!o.bad.empty() && !o.user) c.fail("entity-shape", o.bad + src + o.str());
  if (st == 0 && (o.fat || o.sax || o.user)) c.fail("entity-ok", src + " " + o.str());
  if (st == 1 && (o.fat + o.sax != 1)) c.fail("entity-report", src + " " + o.str()); if (st == 2 && !o.user) c.fail("entity-throw", src + " " + o.str());
  if (res && st == 0 && o.ev.find("gg") == S::npos && out.find("gg") != S::npos) c.fail("entity-content", src + " " + o.str());
  if (!res && o.ev.find("skip:") == S::npos) c.fail("entity-skipped", o.str());
  reuse(c, p, src, "entity");
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"tokens", tokens}, {"mutants", mutants}, {"throwing", throwing}, {"histories", histories}, {"entities", entities}}); }
