// records SAX events as strings; shared by the S* harnesses
#pragma once
#include "mc.hpp"
#include <SAX/XMLReader.hpp>
#include <SAX/InputSource.hpp>
#include <SAX/ParserConfig.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/FeatureNames.hpp>
#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace sr {
typedef std::string S; typedef std::wstring W;
inline S n(const S& s) { return s; }
inline S n(const W& w) {   // UCS-4 to UTF-8, independent of the library
  S r; for (wchar_t wc : w) { unsigned long c = (unsigned long)wc; if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); } }
  return r;
}
template<class T> T mk(const S& s);
template<> inline S mk<S>(const S& s) { return s; }
template<> inline W mk<W>(const S& s) { W w; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; unsigned long v; int k; if (c < 0x80) v = c, k = 0; else if (c < 0xE0) v = c & 31, k = 1; else if (c < 0xF0) v = c & 15, k = 2; else v = c & 7, k = 3; for (++i; k--; ++i) v = v << 6 | (s[i] & 63); w += (wchar_t)v; } return w; }
inline S q(const S& s) { S r = "\""; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else r += c; } return r + "\""; }
struct Thrown {};
struct Shape {   // canonical event list: adjacent character data merged, mapping runs sorted
  std::vector<S> ev; S txt; bool any = false;
  void flush() { if (any) ev.push_back("T" + q(txt)); txt.clear(); any = false; }
  void add(const S& e) { flush(); ev.push_back(e); }
  void text(const S& t) { if (t.empty()) return; any = true; txt += t; }
  std::vector<S> done() { flush(); size_t i = 0; while (i < ev.size()) { size_t j = i; while (j < ev.size() && ev[j][0] == ev[i][0] && (ev[i][0] == '+' || ev[i][0] == '-')) ++j; if (j > i + 1) std::sort(ev.begin() + i, ev.begin() + j); i = j > i ? j : i + 1; } return ev; }
};
inline S join(const std::vector<S>& v) { S r; for (auto& s : v) r += s + " "; return r; }
template<class T, class SA = Arabica::default_string_adaptor<T>> struct Rec : Arabica::SAX::DefaultHandler<T, SA> {
  typedef Arabica::SAX::DefaultHandler<T, SA> B; typedef typename Arabica::SAX::Attributes<T, SA> A; typedef Arabica::SAX::Locator<T, SA> L;
  typedef Arabica::SAX::SAXParseException<T, SA> X;
  Shape sh; int starts = 0, ends = 0, depth = 0, err = 0, fat = 0, calls = 0, throwAt = -1, afterFatal = 0; bool bad = false, entities = false, xmlnsAttrs = true; std::vector<S> stack; S why;
  bool sortAtts = true;
  void tick() { if (fat) ++afterFatal; if (calls++ == throwAt) throw Thrown(); }
  void oops(const char* s) { if (!bad) why = s; bad = true; }
  void startDocument() { tick(); if (starts++ || calls > 1 + (loc ? 1 : 0)) oops("startDocument"); sh.add("<<"); }
  void endDocument() { tick(); if (ends++ || !starts) oops("endDocument"); sh.add(">>"); }
  bool loc = false; void setDocumentLocator(const L&) { tick(); loc = true; if (starts) oops("locator"); }
  void in() { if (!starts || ends) oops("outside document"); }
  void startPrefixMapping(const T& p, const T& u) { tick(); in(); sh.add("+" + n(p) + "=" + n(u)); }
  void endPrefixMapping(const T& p) { tick(); in(); sh.add("-" + n(p)); }
  static S atts(const A& a, bool sort, bool xmlns) {
    std::vector<S> v; for (int i = 0; i < (int)a.getLength(); ++i) { S qn = n(a.getQName(i)); bool x = qn == "xmlns" || qn.compare(0, 6, "xmlns:") == 0; if (x && !xmlns) continue; v.push_back((x ? S() : "{" + n(a.getURI(i)) + "}" + n(a.getLocalName(i)) + "|") + qn + "=" + q(n(a.getValue(i)))); }
    if (sort) std::sort(v.begin(), v.end()); return join(v);
  }
  void startElement(const T& u, const T& l, const T& qn, const A& a) { tick(); in(); sh.add("E{" + n(u) + "}" + n(l) + "|" + n(qn) + "[" + atts(a, sortAtts, xmlnsAttrs) + "]"); stack.push_back("{" + n(u) + "}" + n(l) + "|" + n(qn)); }
  void endElement(const T& u, const T& l, const T& qn) { tick(); in(); S s = "{" + n(u) + "}" + n(l) + "|" + n(qn); if (stack.empty() || stack.back() != s) oops("nesting"); else stack.pop_back(); sh.add("/" + s); }
  void characters(const T& t) { tick(); in(); if (stack.empty()) oops("text outside root"); sh.text(n(t)); }
  void ignorableWhitespace(const T& t) { tick(); in(); sh.text(n(t)); }
  void processingInstruction(const T& t, const T& d) { tick(); in(); sh.add("P" + n(t) + q(n(d))); }
  void skippedEntity(const T& t) { tick(); in(); sh.add("skip:" + n(t)); }
  void startDTD(const T& a, const T& b, const T& c) { tick(); in(); sh.add("D" + n(a) + q(n(b)) + q(n(c))); }
  void endDTD() { tick(); in(); sh.add("~D"); }
  void startEntity(const T& e) { tick(); if (entities) sh.add("e:" + n(e)); }
  void endEntity(const T& e) { tick(); if (entities) sh.add("~e:" + n(e)); }
  void startCDATA() { tick(); in(); sh.add("[C"); }
  void endCDATA() { tick(); in(); sh.add("C]"); }
  void comment(const T& t) { tick(); in(); sh.add("M" + q(n(t))); }
  void notationDecl(const T& a, const T& b, const T& c) { tick(); sh.add("O" + n(a) + q(n(b)) + q(n(c))); }
  void unparsedEntityDecl(const T& a, const T& b, const T& c, const T& d) { tick(); sh.add("U" + n(a) + q(n(b)) + q(n(c)) + n(d)); }
  void elementDecl(const T& a, const T& b) { tick(); sh.add("L" + n(a) + q(n(b))); }
  void attributeDecl(const T& a, const T& b, const T& c, const T& d, const T& e) { tick(); sh.add("A" + n(a) + "," + n(b) + "," + n(c) + "," + n(d) + q(n(e))); }
  void internalEntityDecl(const T& a, const T& b) { tick(); sh.add("I" + n(a) + q(n(b))); }
  void externalEntityDecl(const T& a, const T& b, const T& c) { tick(); sh.add("X" + n(a) + q(n(b)) + q(n(c))); }
  void warning(const X&) {} void error(const X&) { tick(); ++err; } void fatalError(const X&) { tick(); ++fat; }
};
template<class P, class R> void wire(P& p, R& r) { p.setContentHandler(r); p.setLexicalHandler(r); p.setDTDHandler(r); p.setDeclHandler(r); p.setErrorHandler(r); }
template<class T> void parse(Arabica::SAX::XMLReader<T>& p, const S& src) { std::istringstream ss(src); Arabica::SAX::InputSource<T> is(ss); p.parse(is); }
static const bool EXPAT =
#ifdef MC_BACKEND_expat
  true;
#else
  false;
#endif
static const bool LIBXML =
#ifdef MC_BACKEND_libxml2
  true;
#else
  false;
#endif
static const bool XERCES = !EXPAT && !LIBXML;
}
