// S08: the base URI at every point of an event stream is the one XML Base defines.
#include "sax_script.hpp"
#include <SAX/filter/XMLBaseTracker.hpp>
#include <sstream>
using namespace ss; typedef Arabica::SAX::XMLBaseSupport<S> Sup; typedef Arabica::SAX::XMLBaseTracker<S> Tracker;
static const S XML = "http://www.w3.org/XML/1998/namespace";
struct Base { S pre, path; S str() const { return pre + path; } };
static S normal(const S& p) { std::vector<S> in, out; S cur; for (size_t i = 1; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') { in.push_back(cur); cur.clear(); } else cur += p[i]; bool dir = false; for (auto& s : in) { dir = false; if (s == ".") dir = true; else if (s == "..") { dir = true; if (!out.empty()) out.pop_back(); } else out.push_back(s); } S r = "/"; for (size_t i = 0; i < out.size(); ++i) r += (i ? "/" : "") + out[i]; if (dir && !out.empty()) r += "/"; return r; }
static Base resolve(const Base& b, const S& rel) {
  if (rel.empty()) return b; size_t p = rel.find("://"); if (p != S::npos) { size_t s = rel.find('/', p + 3); return s == S::npos ? Base{rel, ""} : Base{rel.substr(0, s), rel.substr(s)}; }
  if (rel.compare(0, 2, "//") == 0) { size_t s = rel.find('/', 2); return {b.pre.substr(0, b.pre.find(':') + 1) + rel.substr(0, s), rel.substr(s)}; }
  S bp = b.path.substr(0, b.path.find('?')); size_t q = rel.find('?'); S r = rel.substr(0, q), suf = q == S::npos ? "" : rel.substr(q); if (r.empty()) return {b.pre, bp + suf}; if (r[0] == '/') return {b.pre, normal(r) + suf};
  size_t sl = bp.rfind('/'); return {b.pre, normal((sl == S::npos ? S("/") : bp.substr(0, sl + 1)) + r) + suf};
}
static const std::vector<S> BASES = {"-", "c/", "../d", "", "/e/f", "http://x/y/z", "g/h?q", "//k/l/m", "./", "http://w"}; // "-": no xml:base
static const std::vector<S> DOCS = {"", "http://doc/p/q.xml", "file:///d/x", "http://h"};
static const std::vector<S> LOOK = {"r", "../s/t", "", "/u", "http://v/w"};
static bool usable(const Base& b, const S& rel) { return !b.pre.empty() || rel == "-" || rel.empty() || rel.find("://") != S::npos; }
static Base split(const S& d) { return d.empty() ? Base{"", ""} : d.compare(0, 8, "file:///") == 0 ? Base{"file://", d.substr(7)} : resolve({"", ""}, d); }
static std::vector<Att> att(const S& v, int style = 0) { std::vector<Att> a; if (style & 1) a.push_back({"", "base", "base", "CDATA", "http://wrong/wrong"}); if (style & 2) a.push_back({"urn:other", "base", "o:base", "CDATA", "http://wrong/wrong"}); if (v != "-") a.push_back({XML, "base", "xml:base", "CDATA", v}); if (style & 4) a.push_back({XML, "lang", "xml:lang", "CDATA", "http://wrong"}); return a; }
template<class T> static void look(mc::Ctx& c, const char* what, const T& t, const Base& b, const S& hist) {
  c.transition(); if (t.currentBase() != b.str()) { c.fail(what, hist + ": base is '" + t.currentBase() + "', XML Base defines '" + b.str() + "'"); return; }
  if (b.pre.empty()) return; for (auto& l : LOOK) if (c.thorough() || &l - &LOOK[0] < 2) { S w = resolve(b, l).str(), g = t.makeAbsolute(l); if (w != g) c.fail("makeAbsolute", hist + ": '" + l + "' against '" + b.str() + "' gives '" + g + "', want '" + w + "'"); }
}
// every sequence of element starts and ends: op 0 ends an element, op n starts one with the nth xml:base
static void support(mc::Ctx& c) {
  S doc = c.pick(DOCS); int n = (int)BASES.size() + 1, L = c.bound(5, 6); int f1 = c.choose(n), f2 = c.choose(n); if (f1 == 0) { c.prune(); return; }
  for (int len = 1; len <= L; ++len) { if (len == 1 && f2) continue; long tot = 1; for (int i = 2; i < len; ++i) tot *= n;
    for (long code = 0; code < tot; ++code) { int ops[8] = {f1, f2}; long t = code; for (int i = 2; i < len; ++i) ops[i] = (int)(t % n), t /= n; if (len == 1) ops[1] = 0;
      int d = 0; bool ok = true; for (int i = 0; i < len && ok; ++i) { d += ops[i] ? 1 : -1; ok = d >= 0; } if (!ok) continue;
      std::vector<Base> st{split(doc)}; for (int i = 0; i < len && ok; ++i) if (ops[i]) { const S& x = BASES[ops[i] - 1]; ok = usable(st.back(), x); if (ok) st.push_back(x == "-" ? st.back() : resolve(st.back(), x)); } else st.pop_back(); if (!ok) continue;
      Sup s; if (!doc.empty()) s.setDocumentLocation(doc); S h = "document " + doc; for (int i = 0; i < len; ++i) { if (ops[i]) { Arabica::SAX::AttributesImpl<S> a; for (auto& t : att(BASES[ops[i] - 1], i & 7)) a.addAttribute(t.uri, t.local, t.q, t.type, t.value); s.startElement(a); h += " <" + BASES[ops[i] - 1] + ">"; } else { s.endElement(); h += " </>"; } }
      look(c, "support", s, st.back(), h); c.state(st.back().str() + std::to_string(d)); } }
}
// the filter: bases as seen by the handlers downstream, over several documents, some of which stop part way
struct Watch : Arabica::SAX::DefaultHandler<S> {
  Tracker* t; mc::Ctx* c; std::vector<Base> st; S hist; std::vector<S> pend; int stop = -1, n = 0;
  void at(const S& e) { hist += " " + e; look(*c, "tracker", *t, st.back(), hist); if (n++ == stop) throw Boom(); }
  void startElement(const S&, const S&, const S& q, const AttributesT& a) { S v = "-"; for (int i = 0; i < (int)a.getLength(); ++i) if (a.getURI(i) == XML && a.getLocalName(i) == "base") v = a.getValue(i); st.push_back(v == "-" ? st.back() : resolve(st.back(), v)); at("<" + q + " " + v + ">"); }
  void endElement(const S&, const S&, const S& q) { at("</" + q + ">"); st.pop_back(); } void characters(const S&) { at("text"); } void processingInstruction(const S&, const S&) { at("pi"); } void endDocument() { at("end"); }
};
static std::vector<Ev> tree(int shape, const S& b1, const S& b2, const S& b3) { // three elements in every shape
  Ev p{PI, "p", ""}, t = text("t"); std::vector<Ev> v{{STARTDOC}, p, start("a", att(b1)), t};
  if (shape == 0) for (auto& e : std::vector<Ev>{start("b", att(b2)), start("c", att(b3)), t, end("c"), t, end("b")}) v.push_back(e); else for (auto& e : std::vector<Ev>{start("b", att(b2)), t, end("b"), p, start("c", att(b3)), end("c")}) v.push_back(e);
  v.push_back(t); v.push_back(end("a")); v.push_back(p); v.push_back({ENDDOC}); return v;
}
static void tracker(mc::Ctx& c) { // two runs: location from the locator, set beforehand, or both; the first run may stop anywhere
  static const std::vector<S> LOCS = {"http://one/a/b", "file:///d/x"}; int how = c.choose(3), s1 = c.choose(2); S b1 = c.pick(BASES), b2 = c.pick(BASES);
  for (auto& b3 : BASES) if (c.thorough() || (&b3 - &BASES[0]) % 3 == 1) for (int stop = -1; stop < 14; ++stop) for (int how2 = 0; how2 < 3; ++how2) { Script r; Tracker t(r); Watch w; w.t = &t; w.c = &c; t.setContentHandler(w); S fixed; bool bad = false;
    for (int run = 0; run < 2; ++run) { int h = run ? how2 : how; S loc = run ? "http://two/c/d" : LOCS[stop & 1]; r.ev.clear(); if (h != 1) r.ev.push_back({ss::K::LOC, loc}); if (h) { fixed = "http://set/" + std::to_string(run) + "/e"; t.setDocumentLocation(fixed); } if (run && h == 1 && fixed.empty()) continue;
      S where = !fixed.empty() ? fixed : loc; for (auto& e : run ? tree(1 - s1, b3, b1, b2) : tree(s1, b1, b2, b3)) r.ev.push_back(e); w.st = {split(where)}; w.stop = run ? -1 : stop; w.n = 0; w.hist += " | document " + where; Source src(S("x")); try { t.parse(src); } catch (Boom&) { bad = true; } }
    c.state(w.hist); (void)bad; }
}
// a document parsed inside another (an include): the outer bases come back when the enclosing element ends
static void nested(mc::Ctx& c) {
  S b1 = c.pick(BASES), b2 = c.pick(BASES), n1 = c.pick(BASES); for (auto& n2 : BASES) for (auto& b3 : BASES) if (c.thorough() || (&b3 - &BASES[0]) % 3 == 1) for (int at = 0; at < 3; ++at) {
    Script r; Tracker t(r); Base out = split("http://doc/p/q.xml"); t.setDocumentLocation(out.str()); t.startDocument(); S h; std::vector<Base> st{out}; bool el[3] = {true, true, true}; (void)el;
    auto open = [&](const S& b) { r.to(start("e", att(b)), t); st.push_back(b == "-" ? st.back() : resolve(st.back(), b)); h += " <" + b + ">"; look(c, "nested", t, st.back(), h); }; auto close = [&] { r.to(end("e"), t); st.pop_back(); h += " </>"; look(c, "nested", t, st.back(), h); };
    open(b1); open(b2); for (int k = 0; k <= at % 2; ++k) { S prev = t.currentBase(); Base in = split("http://inner/" + std::to_string(k) + "/z"); t.setDocumentLocation(in.str()); h += " document " + in.str(); std::vector<Base> keep = st; st = {in}; look(c, "nested", t, in, h); if (at == 2) t.startDocument(); open(n1); open(n2); close(); close(); st = keep; t.setDocumentLocation(prev); h += " back to " + prev; look(c, "nested", t, st.back(), h); }
    close(); open(b3); close(); close(); c.state(h); }
}
// through a real parser
static void parsed(mc::Ctx& c) {
  S b1 = c.pick(BASES), b2 = c.pick(BASES); for (auto& b3 : BASES) for (int s = 0; s < 2; ++s) for (int reuse = 0; reuse < 3; ++reuse) { auto a = [](const S& b) { return b == "-" ? S() : " xml:base='" + b + "'"; };
    Arabica::SAX::XMLReader<S> p; Tracker t(p); Watch w; w.t = &t; w.c = &c; t.setContentHandler(w); Arabica::SAX::DefaultHandler<S> eh; S xml = s ? "<?p?><a" + a(b1) + "><b" + a(b2) + "/>t<c" + a(b3) + "/></a>" : "<a" + a(b1) + "><b" + a(b2) + "><c" + a(b3) + ">t</c>t</b></a>";
    for (int run = 0; run <= reuse; ++run) { S id = "http://d/" + std::to_string(run) + "/e.xml"; std::istringstream in(run == 0 && reuse == 2 ? xml.substr(0, xml.size() - 5) : xml); Source src(in); src.setSystemId(id); w.st = {split(id)}; w.hist += " | " + xml; try { t.parse(src); } catch (std::exception&) {} } c.state(w.hist); }
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"support", support}, {"tracker", tracker}, {"nested", nested}, {"parsed", parsed}}); }
