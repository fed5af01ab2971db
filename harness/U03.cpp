// U03: escaping round trips through a parser for every short string; whitespace normalisation.
#include "mc.hpp"
#include <XML/escaper.hpp>
#include <text/normalize_whitespace.hpp>
#include <SAX/XMLReader.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <functional>
typedef std::string S; typedef std::wstring W;
template<class T> static T ascii(const char* s) { return T(s, s + strlen(s)); }
static S show(const S& s) { S r; for (unsigned char ch : s) { char b[8]; if (ch < 32 || ch > 126) { snprintf(b, 8, "\\x%02x", ch); r += b; } else r += ch; } return r; }
static S show(const W& s) { S r; for (unsigned ch : s) { char b[16]; if (ch < 32 || ch > 126) { snprintf(b, 16, "\\x%02x", ch); r += b; } else r += char(ch); } return r; }
template<class T> static T escText(const T& s) { std::basic_ostringstream<typename T::value_type> o; Arabica::XML::text_escaper<typename T::value_type> e(o); std::for_each(s.begin(), s.end(), e); return o.str(); }
template<class T> static T escAttr(const T& s) { std::basic_ostringstream<typename T::value_type> o; Arabica::XML::attribute_escaper<typename T::value_type> e(o); std::for_each(s.begin(), s.end(), e); return o.str(); }
// decode references; only characters that need it may be written as references
template<class T> static bool decode(const T& e, T& out, bool attr, S& why) {
  typedef typename T::value_type C; for (size_t i = 0; i < e.size();) { C ch = e[i]; if (ch == '<' || (attr && (ch == '"' || ch == '\t' || ch == '\n')) || ch == '\r') { why = "raw special"; return false; }
    if (ch != '&') { out += ch; ++i; continue; } size_t j = e.find(C(';'), i); if (j == T::npos) { why = "bare &"; return false; } S n; for (size_t k = i + 1; k < j; ++k) n += char(e[k]); i = j + 1;
    long v = n == "lt" ? '<' : n == "gt" ? '>' : n == "amp" ? '&' : n == "quot" ? '"' : n == "apos" ? '\'' : n.size() > 2 && n[0] == '#' && n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : n.size() > 1 && n[0] == '#' ? atol(n.c_str() + 1) : -1; if (v < 0) { why = "unknown reference " + n; return false; }
    if (!strchr("<>&\"'\t\n\r", (int)v) || !v) { why = "needless reference " + n; return false; } out += C(v); }
  return true;
}
template<class T> static void escape1(mc::Ctx& c, const T& s, const char* kind) {
  T e = escText(s), a = escAttr(s), d; S why; c.transition(); S w = S(kind) + " '" + show(s) + "'";
  if (!decode(e, d, false, why) || d != s) c.fail("text " + w, "text " + w + " escaped as '" + show(e) + "' " + why); d.clear(); why.clear(); if (!decode(a, d, true, why) || d != s) c.fail("attribute " + w, "attribute " + w + " escaped as '" + show(a) + "' " + why);
}
struct H : Arabica::SAX::DefaultHandler<S> { std::vector<S> t, a; S err; bool in = false; void startElement(const S&, const S&, const S& q, const Arabica::SAX::Attributes<S>& at) { if (q == "e") { t.push_back(""); a.push_back(at.getValue("a")); in = true; } } void endElement(const S&, const S&, const S&) { in = false; } void characters(const S& s) { if (in) t.back() += s; } void fatalError(const Arabica::SAX::SAXParseException<S>& e) { err = e.what(); } };
static void roundtrip(mc::Ctx& c, const std::vector<S>& v) {
  S doc = "<r>"; for (auto& s : v) doc += "<e a=\"" + escAttr(s) + "\">" + escText(s) + "</e>"; doc += "</r>"; Arabica::SAX::XMLReader<S> r; H h; r.setContentHandler(h); r.setErrorHandler(h); std::istringstream is(doc); Arabica::SAX::InputSource<S> src(is); r.parse(src);
  if (!h.err.empty() || h.t.size() != v.size()) { c.fail("parse", h.err + " after " + std::to_string(h.t.size()) + (h.t.size() ? " near '" + show(v[h.t.size() - 1]) + "'" : "")); return; }
  for (size_t i = 0; i < v.size(); ++i) { if (h.t[i] != v[i]) c.fail("parsed-text '" + show(v[i]) + "'", "'" + show(v[i]) + "' parses back as '" + show(h.t[i]) + "'"); if (h.a[i] != v[i]) c.fail("parsed-attribute '" + show(v[i]) + "'", "'" + show(v[i]) + "' parses back as '" + show(h.a[i]) + "'"); }
}
static void escaping(mc::Ctx& c) {
  static const std::vector<S> al = {"a", "<", ">", "&", "\"", "'", "\t", "\n", "\r", "]", " ", ";", "#", "\xc3\xa9"}; S p; int n = c.choose(3); for (int i = 0; i < n; ++i) p += c.pick(al); std::vector<S> v;
  std::function<void(S, int)> rec = [&](S s, int left) { v.push_back(s); c.state(s); escape1(c, s, "narrow"); W w; for (char ch : s) if (ch == '\xc3') continue; else w += ch == '\xa9' ? L'\x00e9' : wchar_t(ch); escape1(c, w, "wide"); if (left) for (auto& x : al) rec(s + x, left - 1); };
  rec(p, n < 2 ? 0 : c.bound(2, 3)); roundtrip(c, v);
}
static void every(mc::Ctx& c) { unsigned page = c.choose(256); for (unsigned k = 0; k < 256; ++k) { unsigned u = page * 256 + k; W w(1, (wchar_t)u); bool special = u < 128 && u && strchr("<>&\"'\t\n\r", (int)u); if (!special) { c.transition(); if (escText(w) != w || escAttr(w) != w) c.fail("changed", "U+" + std::to_string(u)); if (u < 256) { S s(1, (char)u); if (escText(s) != s || escAttr(s) != s) c.fail("changed-narrow", std::to_string(u)); } } else escape1(c, w, "wide"); } c.state(std::to_string(page)); }
template<class T> static T normal(const T& s) { T r; bool pend = false; for (auto ch : s) { if (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r') pend = !r.empty(); else { if (pend) r += ' '; pend = false; r += ch; } } return r; }
static void whitespace(mc::Ctx& c) {
  static const std::vector<wchar_t> al = {L'a', L'b', L' ', L'\t', L'\n', L'\r', 0xa0, 0x2003, 0xb, 0xe9}; W p; int n = c.choose(3); for (int i = 0; i < n; ++i) p += c.pick(al);
  std::function<void(W, int)> rec = [&](W w, int left) { S s; for (unsigned u : w) if (u < 128) s += char(u); else if (u < 0x800) { s += char(0xc0 | u >> 6); s += char(0x80 | (u & 63)); } else { s += char(0xe0 | u >> 12); s += char(0x80 | (u >> 6 & 63)); s += char(0x80 | (u & 63)); }
    c.transition(); c.state(s); S g = Arabica::text::normalize_whitespace<S, Arabica::default_string_adaptor<S>>(s); if (g != normal(s)) c.fail("normalize '" + show(s) + "'", "'" + show(s) + "' -> '" + show(g) + "' want '" + show(normal(s)) + "'"); if (Arabica::text::normalize_whitespace<S, Arabica::default_string_adaptor<S>>(g) != g) c.fail("idempotent", show(s));
    W h = Arabica::text::normalize_whitespace<W, Arabica::default_string_adaptor<W>>(w); if (h != normal(w)) c.fail("normalize-wide '" + show(w) + "'", "'" + show(w) + "' -> '" + show(h) + "'"); if (left) for (auto ch : al) rec(w + ch, left - 1); };
  rec(p, n < 2 ? 0 : c.bound(3, 5));
}
static void onechar(mc::Ctx& c) { unsigned page = c.choose(256); for (unsigned k = 0; k < 256; ++k) { unsigned u = page * 256 + k; if (!u || (u >= 0xd800 && u < 0xe000)) continue; for (W w : {W(1, (wchar_t)u), W(L" ") + (wchar_t)u + L"\t " + (wchar_t)u + L"\n"}) { c.transition(); if (Arabica::text::normalize_whitespace<W, Arabica::default_string_adaptor<W>>(w) != normal(w)) c.fail("normalize-char", "U+" + std::to_string(u)); } } c.state(std::to_string(page)); }
int main(int argc, char** argv) { return mc::run(argc, argv, {{"escaping", escaping}, {"every", every}, {"whitespace", whitespace}, {"onechar", onechar}}); }
