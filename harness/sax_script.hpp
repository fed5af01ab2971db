// scripted SAX event streams: replayed into any handler set (as a parent reader would), and recorded without merging anything
#pragma once
#include "mc.hpp"
#include <SAX/XMLReader.hpp>
#include <SAX/InputSource.hpp>
#include <SAX/helpers/DefaultHandler.hpp>
#include <SAX/helpers/XMLFilterImpl.hpp>
#include <SAX/helpers/AttributesImpl.hpp>
#include <SAX/helpers/LocatorImpl.hpp>
#include <string>
#include <vector>
namespace ss {
typedef std::string S; typedef Arabica::default_string_adaptor<S> A; typedef Arabica::SAX::XMLFilterImpl<S, A> Filter; typedef Arabica::SAX::XMLReaderInterface<S, A> Reader; typedef Arabica::SAX::InputSource<S, A> Source; typedef Arabica::SAX::SAXParseException<S, A> PEx;
enum K { LOC, STARTDOC, ENDDOC, STARTMAP, ENDMAP, START, END, CHARS, IGN, PI, SKIP, STARTDTD, ENDDTD, STARTENT, ENDENT, STARTCD, ENDCD, COMMENT, NOTATION, UNPARSED, ELEMDECL, ATTDECL, INTENT, EXTENT, WARN, ERR, FATAL, NK };
struct Att { S uri, local, q, type, value; };
struct Ev { K k; S a, b, c, d, e; std::vector<Att> at; };
struct Boom {};
struct Raw : Arabica::SAX::DefaultHandler<S, A> { // one line per call
  typedef Arabica::SAX::DefaultHandler<S, A> B; typedef B::AttributesT AT;
  std::vector<S> ev; int throwAt = -1; S resolved;
  void put(const S& s) { ev.push_back(s); if ((int)ev.size() - 1 == throwAt) throw Boom(); }
  static S j(std::initializer_list<S> l) { S r; for (auto& s : l) r += s + "|"; return r; }
  void setDocumentLocator(const Arabica::SAX::Locator<S, A>& l) { put("loc " + j({l.getSystemId(), l.getPublicId()})); } void startDocument() { put("startDocument"); } void endDocument() { put("endDocument"); }
  void startPrefixMapping(const S& p, const S& u) { put("map " + j({p, u})); } void endPrefixMapping(const S& p) { put("unmap " + j({p})); }
  void startElement(const S& u, const S& l, const S& q, const AT& a) { S r = "start " + j({u, l, q}); for (int i = 0; i < (int)a.getLength(); ++i) r += "@" + j({a.getURI(i), a.getLocalName(i), a.getQName(i), a.getType(i), a.getValue(i)}); put(r); }
  void endElement(const S& u, const S& l, const S& q) { put("end " + j({u, l, q})); } void characters(const S& t) { put("text " + j({t})); } void ignorableWhitespace(const S& t) { put("space " + j({t})); }
  void processingInstruction(const S& t, const S& d) { put("pi " + j({t, d})); } void skippedEntity(const S& n) { put("skip " + j({n})); } void startDTD(const S& a, const S& b, const S& c) { put("dtd " + j({a, b, c})); } void endDTD() { put("enddtd"); }
  void startEntity(const S& n) { put("entity " + j({n})); } void endEntity(const S& n) { put("endentity " + j({n})); } void startCDATA() { put("cdata"); } void endCDATA() { put("endcdata"); } void comment(const S& t) { put("comment " + j({t})); }
  void notationDecl(const S& a, const S& b, const S& c) { put("notation " + j({a, b, c})); } void unparsedEntityDecl(const S& a, const S& b, const S& c, const S& d) { put("unparsed " + j({a, b, c, d})); } void elementDecl(const S& a, const S& b) { put("element " + j({a, b})); }
  void attributeDecl(const S& a, const S& b, const S& c, const S& d, const S& e) { put("attribute " + j({a, b, c, d, e})); } void internalEntityDecl(const S& a, const S& b) { put("internal " + j({a, b})); } void externalEntityDecl(const S& a, const S& b, const S& c) { put("external " + j({a, b, c})); }
  void warning(const PEx& x) { put(S("warning ") + x.what()); } void error(const PEx& x) { put(S("error ") + x.what()); } void fatalError(const PEx& x) { put(S("fatal ") + x.what()); }
  Source resolveEntity(const S& p, const S& s) { resolved = p + "," + s; return Source(S("resolved:") + s); }
};
struct Script : Filter { // a reader that "parses" by replaying its events
  std::vector<Ev> ev; int parses = 0; S last; Arabica::SAX::LocatorImpl<S, A> loc; std::map<S, bool> feature;
  void parse(Source& s) { ++parses; last = s.getSystemId(); for (auto& e : ev) fire(e); }
  void setFeature(const S& n, bool v) { feature[n] = v; } bool getFeature(const S& n) const { auto i = feature.find(n); if (i == feature.end()) throw Arabica::SAX::SAXNotRecognizedException("f"); return i->second; }
  void fire(const Ev& e) { play(e, *getContentHandler(), *getLexicalHandler(), *getDTDHandler(), *getDeclHandler(), *getErrorHandler(), loc); }
  template<class H> void to(const Ev& e, H& h) { play(e, h, h, h, h, h, loc); }
  template<class C, class L, class D, class X, class E> static void play(const Ev& e, C& c, L& l, D& d, X& x, E& er, Arabica::SAX::LocatorImpl<S, A>& loc) {
    switch (e.k) {
      case LOC: loc.setSystemId(e.a); loc.setPublicId(e.b); c.setDocumentLocator(loc); break; case STARTDOC: c.startDocument(); break; case ENDDOC: c.endDocument(); break; case STARTMAP: c.startPrefixMapping(e.a, e.b); break; case ENDMAP: c.endPrefixMapping(e.a); break;
      case START: { Arabica::SAX::AttributesImpl<S, A> a; for (auto& t : e.at) a.addAttribute(t.uri, t.local, t.q, t.type, t.value); c.startElement(e.a, e.b, e.c, a); break; } case END: c.endElement(e.a, e.b, e.c); break;
      case CHARS: c.characters(e.a); break; case IGN: c.ignorableWhitespace(e.a); break; case PI: c.processingInstruction(e.a, e.b); break; case SKIP: c.skippedEntity(e.a); break;
      case STARTDTD: l.startDTD(e.a, e.b, e.c); break; case ENDDTD: l.endDTD(); break; case STARTENT: l.startEntity(e.a); break; case ENDENT: l.endEntity(e.a); break; case STARTCD: l.startCDATA(); break; case ENDCD: l.endCDATA(); break; case COMMENT: l.comment(e.a); break;
      case NOTATION: d.notationDecl(e.a, e.b, e.c); break; case UNPARSED: d.unparsedEntityDecl(e.a, e.b, e.c, e.d); break; case ELEMDECL: x.elementDecl(e.a, e.b); break; case ATTDECL: x.attributeDecl(e.a, e.b, e.c, e.d, e.e); break; case INTENT: x.internalEntityDecl(e.a, e.b); break; case EXTENT: x.externalEntityDecl(e.a, e.b, e.c); break;
      case WARN: er.warning(PEx(e.a)); break; case ERR: er.error(PEx(e.a)); break; case FATAL: er.fatalError(PEx(e.a)); break; case NK: break;
    }
  }
};
template<class P, class R> void hook(P& p, R& r) { p.setContentHandler(r); p.setLexicalHandler(r); p.setDTDHandler(r); p.setDeclHandler(r); p.setErrorHandler(r); p.setEntityResolver(r); }
inline S show(const std::vector<S>& v) { S r; for (auto& s : v) { for (char ch : s) if (ch == '\n') r += "\\n"; else r += ch; r += "; "; } return r; }
inline Ev start(const S& q, std::vector<Att> at = {}) { return {START, "", q, q, "", "", at}; }
inline Ev end(const S& q) { return {END, "", q, q}; }
inline Ev text(const S& t) { return {CHARS, t}; }
}
