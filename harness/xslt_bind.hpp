// Runs stylesheets through the library and the reference processor and canonicalises both results.
#pragma once
#include "xslt_ref.hpp"
#include <mc.hpp>
#include <iostream>
#include <fstream>
#include <sstream>
#include <SAX/helpers/CatchErrorHandler.hpp>
#include <XSLT/XSLT.hpp>
#include <unistd.h>
#include <sys/stat.h>
namespace xb {
typedef std::string S;
typedef Arabica::DOM::Node<S> N; typedef Arabica::DOM::Document<S> Doc; typedef Arabica::DOM::NamedNodeMap<S> NM; typedef Arabica::DOM::Node_base NB;
typedef Arabica::XSLT::StylesheetCompiler<S> Compiler; typedef Arabica::XSLT::Stylesheet<S> Sheet; typedef Arabica::XSLT::DOMSink<S> DOMSink; typedef Arabica::XSLT::StreamSink<S> StreamSink;
inline Doc parseDoc(const S& xml) { Arabica::SAX2DOM::Parser<S> p; Arabica::SAX::CatchErrorHandler<S> eh; p.setErrorHandler(eh); std::stringstream ss(xml); Arabica::SAX::InputSource<S> is(ss); p.parse(is); if (eh.errorsReported()) { fprintf(stderr, "source document: %s\n", eh.errors().c_str()); abort(); } return p.getDocument(); }
// marks: keep CDATA sections apart
inline S canon(N n, bool marks = false) {
  S r; switch (n.getNodeType()) {
    case NB::ELEMENT_NODE: { S l = n.getLocalName(); r = "<{" + n.getNamespaceURI() + "}" + (l.empty() ? n.getNodeName() : l); std::vector<S> v; NM m = n.getAttributes(); for (unsigned i = 0; i < m.getLength(); ++i) { N a = m.item(i); if (a.getNamespaceURI() == "http://www.w3.org/2000/xmlns/") continue; S al = a.getLocalName(); v.push_back(" {" + a.getNamespaceURI() + "}" + (al.empty() ? a.getNodeName() : al) + "=" + xm::q(a.getNodeValue())); } std::sort(v.begin(), v.end()); for (auto& x : v) r += x; r += ">"; break; }
    case NB::TEXT_NODE: return xm::q(n.getNodeValue()); case NB::CDATA_SECTION_NODE: return (marks ? "C" : "") + xm::q(n.getNodeValue());
    case NB::COMMENT_NODE: return "!" + xm::q(n.getNodeValue()); case NB::PROCESSING_INSTRUCTION_NODE: { S v = n.getNodeValue(); size_t b = 0; while (b < v.size() && xr::ws(v[b])) ++b; return "?" + n.getNodeName() + xm::q(v.substr(b)); } default: break; }
  S run; auto fl = [&]() { if (!run.empty()) r += xm::q(run); run.clear(); };
  for (N c = n.getFirstChild(); !(c == 0); c = c.getNextSibling()) { bool t = c.getNodeType() == NB::TEXT_NODE || (!marks && c.getNodeType() == NB::CDATA_SECTION_NODE); if (t) run += c.getNodeValue(); else { fl(); r += canon(c, marks); } } fl();
  if (n.getNodeType() == NB::ELEMENT_NODE) r += "</>"; return r;
}
struct Res { bool err = false; S msg, out; S show() const { return err ? "error: " + msg : out; } bool same(const Res& o) const { return err == o.err && (err || out == o.out); } };
struct Param { S name; int t; S s; double n; };
typedef std::vector<Param> Ps;
inline void setParams(Sheet& s, const Ps& ps) { for (auto& p : ps) { if (p.t == 0) s.set_parameter(p.name, p.s); else if (p.t == 1) s.set_parameter(p.name, p.n); else s.set_parameter(p.name, p.n != 0); } }
// a compiled stylesheet, or an error
struct Lib {
  Compiler comp; std::unique_ptr<Sheet> sheet; S error; std::stringstream err;
  explicit Lib(const S& text, const S& sysId = "") { std::stringstream ss(text); Arabica::SAX::InputSource<S> is(ss); if (!sysId.empty()) is.setSystemId(sysId); compile(is); }
  struct File {}; Lib(File, const S& path) { Arabica::SAX::InputSource<S> is(path); compile(is); }
  void compile(Arabica::SAX::InputSource<S>& is) { try { sheet = comp.compile(is); if (!sheet) error = comp.error().empty() ? "(no message)" : comp.error(); else sheet->set_error_output(err); } catch (std::exception& e) { error = S("threw from compile: ") + e.what(); } }
  Res dom(N src, const Ps& ps = {}, bool marks = false) { Res r; if (!sheet) { r.err = true; r.msg = error; return r; } DOMSink sink; try { setParams(*sheet, ps); sheet->set_output(sink); sheet->execute(src); } catch (std::exception& e) { r.err = true; r.msg = S("run: ") + e.what(); return r; } N n = sink.node(); if (!(n == 0)) r.out = canon(n, marks); return r; }
  Res stream(N src, const Ps& ps = {}) { Res r; if (!sheet) { r.err = true; r.msg = error; return r; } std::stringstream os; { StreamSink sink(os); try { setParams(*sheet, ps); sheet->set_output(sink); sheet->execute(src); } catch (std::exception& e) { r.err = true; r.msg = S("run: ") + e.what(); return r; } } r.out = os.str(); return r; }
};
struct Src { Doc d; xr::Tree t; S xml; explicit Src(const S& x) : d(parseDoc(x)), xml(x) { xm::Parse p(x, t); } };
inline Res ref(const S& text, Src& src, const Ps& ps = {}, const std::map<S, S>& modules = {}) {
  Res r; xt::Proc p; p.modules = modules; for (auto& x : ps) p.given[x.name] = x.t == 0 ? xr::Value::mks(x.s) : x.t == 1 ? xr::Value::mkn(x.n) : xr::Value::mkb(x.n != 0);
  try { p.load(text); r.out = xm::canon(p.transform(src.t.root)); } catch (xr::Err& e) { r.err = true; r.msg = e.m; } return r;
}
inline S wrap(const S& body) { return "<xsl:stylesheet version='1.0' xmlns:xsl='http://www.w3.org/1999/XSL/Transform'>" + body + "</xsl:stylesheet>"; }
// exhaustive sequences of items of an exact size: leaves cost 1, a container costs 1 plus its content
struct Gen {
  std::vector<S> leaf; std::vector<std::pair<S, S>> box; bool emptyBoxes = true; std::map<int, std::vector<S>> its, seqs;
  const std::vector<S>& items(int n) { auto f = its.find(n); if (f != its.end()) return f->second; std::vector<S> r; if (n == 1) r = leaf; if (n > 1 || emptyBoxes) for (auto& b : box) for (auto& s : seq(n - 1)) r.push_back(b.first + s + b.second); return its[n] = r; }
  const std::vector<S>& seq(int n) { auto f = seqs.find(n); if (f != seqs.end()) return f->second; std::vector<S> r; if (n == 0) r.push_back(""); for (int k = 1; k <= n; ++k) { auto a = items(k); auto b = seq(n - k); for (auto& x : a) for (auto& y : b) r.push_back(x + y); } return seqs[n] = r; }
};
} // namespace xb
