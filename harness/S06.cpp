// S06: filters transform only what they promise.
#include "sax_script.hpp"
#include <SAX/filter/TextCoalescer.hpp>
#include <SAX/filter/WhitespaceStripperFilter.hpp>
#include <SAX/filter/PYXWriter.hpp>
#include <SAX/filter/TextOnly.hpp>
#include <SAX/filter/NamespaceTracker.hpp>
#include <SAX/filter/XMLBaseTracker.hpp>
#include <SAX/filter/Writer.hpp>
#include <sstream>
#include <memory>
using namespace ss; typedef Arabica::SAX::TextCoalescer<S> Coal; typedef Arabica::SAX::WhitespaceStripper<S> Strip; typedef Arabica::SAX::PYXWriter<S> Pyx; typedef Arabica::SAX::TextOnly<S> Only;
// every kind of event, each argument distinguishable from its neighbours
static std::vector<Ev> alphabet() {
  std::vector<Ev> v{{LOC, "sys", "pub"}, {STARTDOC}, {ENDDOC}, {STARTMAP, "p", "urn:p"}, {STARTMAP, "", ""}, {ENDMAP, "p"}, start("a"), {START, "urn:p", "l", "p:l", "", "", {{"", "x", "x", "CDATA", "1"}, {"urn:p", "x", "p:x", "NMTOKENS", " a  b "}}}, end("a"), {END, "urn:p", "l", "p:l"}, text("t"), text(""), text(" u\n"), {IGN, " \t"}, {PI, "pt", "pd"}, {SKIP, "se"}, {STARTDTD, "n", "p", "s"}, {ENDDTD}, {STARTENT, "e1"}, {ENDENT, "e1"}, {STARTCD}, {ENDCD}, {COMMENT, "cm"}, {NOTATION, "n1", "n2", "n3"}, {UNPARSED, "u1", "u2", "u3", "u4"}, {ELEMDECL, "d1", "d2"}, {ATTDECL, "a1", "a2", "a3", "a4", "a5"}, {INTENT, "i1", "i2"}, {EXTENT, "x1", "x2", "x3"}, {WARN, "w"}, {ERR, "r"}, {FATAL, "f"}};
  return v;
}
static const std::vector<Ev> AB = alphabet();
static std::vector<S> plain(const std::vector<Ev>& v) { Script s; Raw r; for (auto& e : v) s.to(e, r); return r.ev; }
static void cmp(mc::Ctx& c, const char* what, const std::vector<S>& want, const std::vector<S>& got, const std::vector<Ev>& in) { c.transition(); if (want != got) c.fail(what, "given   " + show(plain(in)) + "\nwanted  " + show(want) + "\ngot     " + show(got)); }
// one and two default filters between the reader and the handlers
static void passthrough(mc::Ctx& c) {
  int n = (int)AB.size(), a = c.choose(n), L = c.bound(3, 4); int chain = c.choose(3);
  std::vector<std::vector<Ev>> seqs{{AB[a]}}; for (int len = 1; len <= L; ++len) { std::vector<std::vector<Ev>> next; for (auto& s : seqs) {
    Script r; std::vector<std::unique_ptr<Filter>> f; Reader* top = &r; for (int i = 0; i <= chain; ++i) { f.emplace_back(new Filter); f.back()->setParent(*top); top = f.back().get(); } Raw h; hook(*top, h); r.ev = s; Source src(S("id")); top->parse(src); cmp(c, "default filter", plain(s), h.ev, s); if (r.parses != 1 || r.last != "id") c.fail("parse", "the reader saw " + std::to_string(r.parses) + " parses of " + r.last);
    if (len < L) for (auto& e : AB) { if (len + 1 == L && chain && (&e - &AB[0]) % 3) continue; auto t = s; t.push_back(e); next.push_back(t); } } seqs.swap(next); }
  c.state(std::to_string(a) + "," + std::to_string(chain));
}
// handlers that are set get their events and only theirs; features, handlers and entity resolution pass through; no parent is an error
static void wiring(mc::Ctx& c) {
  int mask = c.choose(64); bool two = c.flip(); Script r; Filter f1, f2; f1.setParent(r); f2.setParent(f1); Filter& f = two ? f2 : f1; Raw h[6];
  if (mask & 1) f.setContentHandler(h[0]); if (mask & 2) f.setLexicalHandler(h[1]); if (mask & 4) f.setDTDHandler(h[2]); if (mask & 8) f.setDeclHandler(h[3]); if (mask & 16) f.setErrorHandler(h[4]); if (mask & 32) f.setEntityResolver(h[5]);
  auto kind = [](K k) { return k <= SKIP ? 0 : k <= COMMENT ? 1 : k <= UNPARSED ? 2 : k <= EXTENT ? 3 : 4; };
  r.ev.clear(); for (auto& e : AB) if (e.k != FATAL || (mask & 16)) r.ev.push_back(e); Source src(S("id")); f.parse(src);
  for (int i = 0; i < 5; ++i) { std::vector<Ev> w; if (mask >> i & 1) for (auto& e : r.ev) if (kind(e.k) == i) w.push_back(e); cmp(c, "wiring", plain(w), h[i].ev, r.ev); }
  Source got = r.getEntityResolver()->resolveEntity("P", "Q"); if ((mask & 32) ? got.getSystemId() != "resolved:Q" || h[5].resolved != "P,Q" : !got.getSystemId().empty()) c.fail("resolver", "mask " + std::to_string(mask) + " gives " + got.getSystemId());
  if (((mask & 1) && f.getContentHandler() != &h[0]) || ((mask & 2) && f.getLexicalHandler() != &h[1]) || ((mask & 4) && f.getDTDHandler() != &h[2]) || ((mask & 8) && f.getDeclHandler() != &h[3]) || ((mask & 16) && f.getErrorHandler() != &h[4]) || ((mask & 32) && f.getEntityResolver() != &h[5])) c.fail("getters", std::to_string(mask));
  for (auto& n : {"a", "b"}) for (int v = 0; v < 2; ++v) { f.setFeature(n, v); c.transition(); if (r.feature[n] != (bool)v || f.getFeature(n) != (bool)v) c.fail("feature", n); } 
  Filter lone; int errs = 0; try { lone.setFeature("a", true); } catch (Arabica::SAX::SAXNotRecognizedException&) { ++errs; } try { lone.getFeature("a"); } catch (Arabica::SAX::SAXNotRecognizedException&) { ++errs; } try { lone.parse(src); } catch (Arabica::SAX::SAXException&) { ++errs; } try { f.getFeature("zz"); } catch (Arabica::SAX::SAXNotRecognizedException&) { ++errs; }
  if (errs != 4 || lone.getParent() != 0 || f1.getParent() != &r || f2.getParent() != &f1) c.fail("parent", std::to_string(errs)); Filter late; late.setParent(r); if (late.getParent() != &r) c.fail("parent", "set"); c.state(std::to_string(mask) + (two ? "b" : "a"));
}
// trackers and writers pass a document's events through unchanged
static std::vector<Ev> content(const std::vector<Ev>& mid) { std::vector<Ev> v{{LOC, "http://d/e", "pub"}, {STARTDOC}, {STARTDTD, "a", "", "s"}, {ELEMDECL, "a", "ANY"}, {ENDDTD}, {STARTMAP, "p", "urn:p"}, start("a", {{"", "x", "x", "CDATA", "1"}})}; for (auto& e : mid) v.push_back(e); for (auto& e : std::vector<Ev>{end("a"), {ENDMAP, "p"}, {PI, "pt", "pd"}, {ENDDOC}}) v.push_back(e); return v; }
static const std::vector<Ev> IN = {text("a"), text("b \n"), text(""), text("&<>"), {IGN, " "}, {PI, "t", "d"}, {COMMENT, "c"}, {STARTCD}, {ENDCD}, {STARTENT, "e"}, {ENDENT, "e"}, {SKIP, "s"}, {STARTMAP, "q", "urn:q"}, {ENDMAP, "q"}, start("b", {{"", "y", "y", "ID", "v"}}), end("b"), {WARN, "w"}, {ERR, "e"}};
static bool ordered(const std::vector<Ev>& v) { for (size_t i = 0; i < v.size(); ++i) if (v[i].k == ENDMAP && (!i || (v[i - 1].k != END && v[i - 1].k != ENDMAP))) return false; return true; } // mappings end with their element
static bool nested(const std::vector<Ev>& v) { int d = 0; for (auto& e : v) { if (e.k == START) ++d; if (e.k == END && --d < 0) return false; } return d == 0; }
static void each(mc::Ctx& c, const std::vector<Ev>& alpha, int L, const std::function<void(const std::vector<Ev>&)>& f) { int n = (int)alpha.size(), a = c.choose(n + 1), b = a ? c.choose(n + 1) : 0; if (!a) { f({}); return; } std::vector<Ev> pre{alpha[a - 1]}; if (!b) { f(pre); return; } pre.push_back(alpha[b - 1]);
  std::function<void(std::vector<Ev>&)> rec = [&](std::vector<Ev>& s) { f(s); if ((int)s.size() == L) return; for (auto& e : alpha) { s.push_back(e); rec(s); s.pop_back(); } }; rec(pre); }
static void trackers(mc::Ctx& c) {
  int which = c.choose(5); c.state(std::to_string(which)); each(c, IN, c.bound(4, 5), [&](const std::vector<Ev>& m) { if (!nested(m)) return; auto v = content(m); Script r; std::ostringstream os; std::unique_ptr<Filter> f;
    switch (which) { case 0: f.reset(new Arabica::SAX::NamespaceTracker<S>); break; case 1: f.reset(new Arabica::SAX::XMLBaseTracker<S>); break; case 2: f.reset(new Arabica::SAX::Writer<S>(os)); break; case 3: f.reset(new Arabica::SAX::Writer<S>(os, S("e"), 0)); break; case 4: f.reset(new Pyx(os)); }
    f->setParent(r); Raw h; hook(*f, h); r.ev = v; Source src(S("i")); f->parse(src); cmp(c, "pass through", plain(v), h.ev, v); });
}
static std::vector<S> merged(const std::vector<Ev>& v, bool all = true) { std::vector<Ev> o; S t; auto fl = [&] { if (!t.empty()) o.push_back(text(t)); t.clear(); }; for (auto& e : v) { if (e.k == CHARS || e.k == IGN) { t += e.a; continue; } fl(); o.push_back(e); } fl(); return plain(o); }
static void coalesce(mc::Ctx& c) {
  std::vector<Ev> al; for (auto& e : IN) if (e.k != WARN && e.k != ERR) al.push_back(e); int twice = c.choose(2); c.state(std::to_string(twice));
  each(c, al, c.bound(4, 6), [&](const std::vector<Ev>& m) { if (!ordered(m)) return; auto v = content(m); Script r; Coal f, g; f.setParent(r); g.setParent(f); Filter& top = twice ? (Filter&)g : f; Raw h; hook(top, h); r.ev = v; Source src(S("i")); top.parse(src); cmp(c, "coalescer", merged(v), h.ev, v); });
}
// a handler that throws at any event: the next document must not show anything of the stopped one
static void abandoned(mc::Ctx& c) {
  std::vector<Ev> al; for (auto& e : IN) if (e.k == CHARS || e.k == PI || e.k == START || e.k == END || e.k == STARTCD) al.push_back(e); int at = c.choose(12), which = c.choose(5); c.state(std::to_string(at) + "," + std::to_string(which));
  each(c, al, c.bound(3, 4), [&](const std::vector<Ev>& m) { Script r; std::ostringstream os, os2; auto mk = [&](std::ostream& o) { std::unique_ptr<Filter> f; switch (which) { case 0: f.reset(new Coal); break; case 1: f.reset(new Strip); break; case 2: f.reset(new Arabica::SAX::Writer<S>(o)); break; case 3: f.reset(new Pyx(o)); break; case 4: f.reset(new Only); } f->setParent(r); return f; };
    auto f = mk(os), g = mk(os2); Raw h; hook(*f, h); h.throwAt = at; r.ev = content(m); Source src(S("i")); try { f->parse(src); } catch (Boom&) {} S before = os.str(); h.ev.clear(); h.throwAt = -1; f->parse(src); Raw w; hook(*g, w); g->parse(src); cmp(c, "after an abandoned document", w.ev, h.ev, r.ev); if (os.str() != before + os2.str()) c.fail("abandoned output", "output " + os.str().substr(before.size()) + "\nfresh  " + os2.str()); });
}
static S squash(const S& t) { S r; bool sp = false; for (char ch : t) if (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r') sp = true; else { if (sp && !r.empty()) r += ' '; sp = false; r += ch; } return r; }
static void strip(mc::Ctx& c) {
  std::vector<Ev> al = {text("a"), text(" a  b "), text("\n\t"), text(""), text("x\r\ny"), text("\xC2\xA0 z"), {IGN, " \n"}, {PI, "t", " d  e "}, {COMMENT, " c  "}, {STARTCD}, {ENDCD}, start("b", {{"", "y", "y", "CDATA", "  v  w "}}), end("b"), {STARTENT, "e"}, {SKIP, "s"}, {STARTMAP, "q", " u "}, {WARN, " w"}}; c.state("strip");
  each(c, al, c.bound(4, 5), [&](const std::vector<Ev>& m) { auto v = content(m); Script r; Strip f(r); Raw h; hook(f, h); r.ev = v; Source src(S("i")); f.parse(src); std::vector<Ev> w; for (auto e : v) { if (e.k == IGN) continue; if (e.k == CHARS) { e.a = squash(e.a); if (e.a.empty()) continue; } w.push_back(e); } std::vector<S> got; for (auto& s : h.ev) if (s != "text |") got.push_back(s); cmp(c, "stripper", plain(w), got, v); });
}
static void only(mc::Ctx& c) {
  c.state("only"); std::vector<Ev> al; for (auto& e : AB) if (e.k != STARTDOC && e.k != ENDDOC && e.k != LOC && e.k < WARN) al.push_back(e);
  each(c, al, c.bound(3, 4), [&](const std::vector<Ev>& m) { auto v = content(m); Script r; Only f(r); Raw h; hook(f, h); r.ev = v; Source src(S("i")); f.parse(src); std::vector<Ev> w; for (auto& e : v) if (e.k == LOC || e.k == STARTDOC || e.k == ENDDOC || e.k == CHARS || e.k == IGN) w.push_back(e); cmp(c, "text only", plain(w), h.ev, v); });
}
// the lines a PYX writer produces say exactly what the events were
static std::vector<S> unpyx(const S& o) {
  std::vector<S> r; S t; bool any = false; auto fl = [&] { if (any && !t.empty()) r.push_back("text " + t); t.clear(); any = false; }; size_t i = 0;
  auto un = [](const S& s) { S u; for (size_t k = 0; k < s.size(); ++k) if (s[k] == '\\' && k + 1 < s.size()) { ++k; u += s[k] == 'n' ? '\n' : s[k] == 't' ? '\t' : s[k]; } else u += s[k]; return u; };
  while (i < o.size()) { size_t e = o.find('\n', i); if (e == S::npos) { r.push_back("unfinished line"); break; } S l = o.substr(i, e - i); i = e + 1; if (l.empty()) { r.push_back("empty line"); continue; } char k = l[0]; l = l.substr(1);
    if (k == '-') { any = true; t += un(l); continue; } fl(); if (k == '(') r.push_back("start " + l); else if (k == ')') r.push_back("end " + l); else if (k == 'A') { size_t s = l.find(' '); r.push_back(s == S::npos ? "bad attribute" : "att " + l.substr(0, s) + "=" + un(l.substr(s + 1))); } else if (k == '?') { size_t s = l.find(' '); r.push_back("pi " + l.substr(0, s) + "=" + (s == S::npos ? "" : un(l.substr(s + 1)))); } else r.push_back("unknown line " + l); } fl(); return r;
}
static void pyx(mc::Ctx& c) {
  std::vector<S> TX = {"a", "\n", "\\", "n", "-x", " ", "\\n", "(b", "t", ""}; std::vector<Ev> al; for (auto& t : TX) al.push_back(text(t)); for (auto& t : TX) al.push_back({PI, "p", t}); for (auto& t : TX) al.push_back(start("b", {{"", "y", "y", "CDATA", t}, {"", "z", "z", "CDATA", "\\n" + t}})); al.push_back(end("b")); al.push_back({START, "", "", "raw", "", "", {{"", "", "at", "CDATA", "1"}}}); al.push_back({START, "u", "l", "p:l"}); al.push_back({START, "", "local", ""}); c.state("pyx");
  each(c, al, c.bound(3, 4), [&](const std::vector<Ev>& m) { Script r; std::ostringstream os; Pyx f(os, r); r.ev = m; Source src(S("i")); f.parse(src); std::vector<S> w; S t; auto fl = [&] { if (!t.empty()) w.push_back("text " + t); t.clear(); }; for (auto& e : m) { S n = e.c.empty() ? e.b : e.c; if (e.k == CHARS) { t += e.a; continue; } fl(); if (e.k == START) { w.push_back("start " + n); for (auto& x : e.at) w.push_back("att " + x.q + "=" + x.value); } else if (e.k == END) w.push_back("end " + n); else w.push_back("pi " + e.a + "=" + e.b); } fl(); cmp(c, "pyx", w, unpyx(os.str()), m); });
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"passthrough", passthrough}, {"wiring", wiring}, {"trackers", trackers}, {"coalesce", coalesce}, {"abandoned", abandoned}, {"strip", strip}, {"only", only}, {"pyx", pyx}}); }
