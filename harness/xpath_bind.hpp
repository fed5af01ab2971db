// Binding between the reference XPath model and a real DOM + the library's XPath engine.
#pragma once
#include "dom_gen.hpp"
#include "xpath_ref.hpp"
#include <iostream>
#include <XPath/XPath.hpp>
#include <unordered_map>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <sstream>
namespace XP = Arabica::XPath;
typedef XP::XPathValue<S> XV; typedef XP::NodeSet<S> XNS; typedef XP::XPathExpression<S> XE;
static const S XMLNS = "http://www.w3.org/2000/xmlns/";
struct Bound {
  xr::Tree t; std::vector<N> dom; std::vector<xr::Node*> all; // all: every reference node except namespace nodes, document order
  std::unordered_map<const void*, xr::Node*> rev;
  xr::Node* link(xr::Kind k, N n) { xr::Node* x = t.mk(k); x->idx = (int)dom.size(); dom.push_back(n); rev[n.underlying_impl()] = x; return x; }
  void children(xr::Node* p, N n) {
    xr::Node* run = nullptr;
    for (N c = n.getFirstChild(); !(c == 0); c = c.getNextSibling()) {
      int ty = c.getNodeType();
      if (ty == NB::TEXT_NODE || ty == NB::CDATA_SECTION_NODE) { if (!run) { run = link(xr::TEXT, c); run->par = p; p->kid.push_back(run); } else rev[c.underlying_impl()] = nullptr; run->val += c.getNodeValue(); continue; }
      run = nullptr; xr::Node* x = nullptr;
      if (ty == NB::ELEMENT_NODE) x = element(c); else if (ty == NB::COMMENT_NODE) { x = link(xr::COMM, c); x->val = c.getNodeValue(); }
      else if (ty == NB::PROCESSING_INSTRUCTION_NODE) { x = link(xr::PINS, c); x->local = c.getNodeName(); x->val = c.getNodeValue(); } else continue;
      x->par = p; p->kid.push_back(x);
    }
  }
  static S local(N n) { S l = n.getLocalName(); return l.empty() ? n.getNodeName() : l; }
  xr::Node* element(N c) {
    xr::Node* x = link(xr::ELEM, c); x->ns = c.getNamespaceURI(); x->local = local(c); x->prefix = c.getPrefix();
    NM m = c.getAttributes();
    for (unsigned i = 0; i < m.getLength(); ++i) { N a = m.item(i); if (a.getNamespaceURI() == XMLNS) { t.nsd[x][a.getNodeName() == "xmlns" ? "" : a.getLocalName()] = a.getNodeValue(); continue; }
      xr::Node* y = link(xr::ATTR, a); y->ns = a.getNamespaceURI(); y->local = local(a); y->prefix = a.getPrefix(); y->val = a.getNodeValue(); y->par = x; x->att.push_back(y); }
    children(x, c); return x;
  }
  explicit Bound(N top) { if (top.getNodeType() == NB::ELEMENT_NODE) t.root = element(top); else { t.root = link(xr::ROOT, top); children(t.root, top); } t.finish(); collect(t.root); }
  void collect(xr::Node* n) { all.push_back(n); for (auto a : n->att) all.push_back(a); for (auto c : n->kid) collect(c); }
  N real(xr::Node* x) { // a namespace node is fetched from the library's namespace axis
    if (x->k != xr::NSN) return dom[x->idx];
    XP::AxisEnumerator<S> ae(dom[x->par->idx], XP::NAMESPACE); for (; !(*ae == 0); ++ae) if ((*ae).getNodeName() == x->local) return *ae; return N();
  }
  static S name(xr::Node* x) { static const char* k[] = {"/", "elem ", "attr ", "text ", "comment ", "pi ", "ns "}; return S(k[x->k]) + x->qname() + (x->k == xr::TEXT ? x->val : "") + "#" + std::to_string(x->ord); }
  // canonical identity of a node of either side
  S id(N n) { if (n == 0) return "null"; if (n.getNodeType() == XP::NAMESPACE_NODE_TYPE) { auto p = rev.find(n.getParentNode().underlying_impl()); return "ns:" + std::to_string(p == rev.end() || !p->second ? -1 : p->second->idx) + ":" + n.getNodeName() + "=" + n.getNodeValue(); } auto p = rev.find(n.underlying_impl()); if (p == rev.end()) return "foreign"; if (!p->second) return "inner-text"; return std::to_string(p->second->idx) + "<" + name(p->second) + ">"; }
  S id(xr::Node* x) { return x->k == xr::NSN ? "ns:" + std::to_string(x->par->idx) + ":" + x->local + "=" + x->val : std::to_string(x->idx) + "<" + name(x) + ">"; }
  // document order is implementation defined among the namespace nodes / attributes of one element
  S ids(xr::NodeSet v) { std::vector<S> r; for (auto x : v) r.push_back(id(x)); return join(r); }
  S ids(XNS v) { v.to_document_order(); std::vector<S> r; for (size_t i = 0; i < v.size(); ++i) r.push_back(id(v[i])); 
    // namespace nodes of one element: bring consecutive runs into name order
    for (size_t i = 0; i < r.size();) { size_t j = i; S p = r[i].substr(0, r[i].find(':', 3)); while (j < r.size() && r[i].compare(0, 3, "ns:") == 0 && r[j].compare(0, p.size() + 1, p + ":") == 0) ++j; if (j > i) { std::sort(r.begin() + i, r.begin() + j); i = j; } else ++i; }
    return join(r); }
  static S join(const std::vector<S>& r) { S s; for (auto& x : r) s += x + " "; return s; }
};
inline S dstr(double d) { if (d != d) return "NaN"; char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
// canonical text of a value on either side
inline S rval(Bound& b, const xr::Value& v) { switch (v.t) { case xr::Value::NS: return "set " + b.ids(v.ns); case xr::Value::B: return v.b ? "true" : "false"; case xr::Value::N: return "num " + dstr(v.n); default: return "str '" + v.s + "'"; } }
inline S lval(Bound& b, const XV& v) { switch (v.type()) { case XP::NODE_SET: { XNS s = v.asNodeSet(); S r = "set " + b.ids(s); XNS t = s; t.to_document_order(); if (t.size() != v.asNodeSet().size()) r += "!duplicates"; return r; } case XP::BOOL: return v.asBool() ? "true" : "false"; case XP::NUMBER: return "num " + dstr(v.asNumber()); case XP::STRING: return "str '" + v.asString() + "'"; default: return "any"; } }
// every conversion of a value
inline S rconv(const xr::Value& v) { return S(v.boolean() ? "true" : "false") + "," + dstr(v.num()) + ",'" + v.str() + "'"; }
inline S lconv(const XV& v) { return S(v.asBool() ? "true" : "false") + "," + dstr(v.asNumber()) + ",'" + v.asString() + "'"; }
inline XP::XPath<S>& engine() { static XP::XPath<S>* x = new XP::XPath<S>; return *x; }
struct Cached { bool ok = false; S err; XE lib; xr::E ref; bool rok = false; };
inline Cached& cached(const S& s, xr::Env* env, XP::XPath<S>& e = engine()) {
  static std::unordered_map<S, Cached> m; auto i = m.find(s); if (i != m.end()) return i->second; Cached& c = m[s];
  try { c.lib = e.compile_expr(s); c.ok = true; } catch (std::exception& x) { c.err = x.what(); }
  try { c.ref = xr::compile(s, env); c.rok = true; } catch (xr::Err& x) { c.err += " ref: " + x.m; }
  return c;
}
// evaluate on both sides; report differences
inline void check(mc::Ctx& c, Bound& b, xr::Node* ctx, const S& s, xr::Env* env, const char* sig = "value") {
  Cached& k = cached(s, env); c.transition();
  if (!k.rok) { c.fail("harness", "reference rejects " + s + " " + k.err); return; }
  if (!k.ok) { c.fail("compile", s + ": " + k.err); return; }
  S want, got, wc, gc; xr::NodeSet anyfirst;
  try { xr::Value v = xr::eval(k.ref, xr::Ctx(ctx, env)); want = rval(b, v); wc = rconv(v);
    // which namespace node of an element comes first is implementation defined
    if (v.t == xr::Value::NS && v.ns.size() > 1 && v.ns[0]->k == xr::NSN && v.ns[1]->k == xr::NSN && v.ns[1]->par == v.ns[0]->par) anyfirst = v.ns; } catch (xr::Err& e) { want = "error"; }
  try { XV v = k.lib.evaluate(b.real(ctx)); got = lval(b, v); gc = lconv(v); } catch (std::exception& e) { got = "error"; }
  if (want != got) c.fail(S(sig) + " " + s, s + " from " + Bound::name(ctx) + ": got " + got + " want " + want);
  else if (wc != gc) { for (auto x : anyfirst) if (x->par == anyfirst[0]->par && x->k == xr::NSN && gc == rconv(xr::Value::mkset({x}))) return; c.fail("conversion", s + " from " + Bound::name(ctx) + ": got " + gc + " want " + wc); }
}
// exhaustive generator of small trees; returns an XML-like note
struct GenOpt { int nodes; bool attrs = false, ns = false; bool rootKids = true; const char* kinds = "abtdcp"; };
inline S genTree(mc::Ctx& c, Doc d, N parent, int& budget, const GenOpt& o, int depth) {
  S r; int nk = (int)strlen(o.kinds);
  while (budget > 0) {
    int t = c.choose(nk + 1); if (t == 0) break; --budget; char k = o.kinds[t - 1];
    switch (k) {
      case 'a': case 'b': case 'q': { // q: namespaced element p:a
        El e = k == 'q' ? d.createElementNS("urn:p", "p:a") : d.createElementNS("", S(1, k)); S at;
        if (o.ns) { int n = c.choose(4); if (n == 1) { e.setAttributeNS(XMLNS, "xmlns:p", "urn:p"); at += " xmlns:p=urn:p"; } if (n == 2) { e.setAttributeNS(XMLNS, "xmlns:p", "urn:q"); e.setAttributeNS(XMLNS, "xmlns", "urn:d"); at += " xmlns:p=urn:q xmlns=urn:d"; } if (n == 3) { e.setAttributeNS(XMLNS, "xmlns", ""); at += " xmlns=''"; } }
        if (o.attrs) { int n = c.choose(4); if (n == 1 || n == 3) { e.setAttributeNS("", "x", "1"); at += " x=1"; } if (n >= 2) { e.setAttributeNS("urn:p", "p:x", "2"); at += " p:x=2"; } }
        parent.appendChild(e); r += "<" + S(e.getNodeName()) + at + ">" + genTree(c, d, e, budget, o, depth + 1) + "</>"; break; }
      case 't': parent.appendChild(d.createTextNode("1")); r += "1"; break;
      case 'd': parent.appendChild(d.createCDATASection("2")); r += "[2]"; break;
      case 'c': parent.appendChild(d.createComment("a")); r += "!"; break;
      case 'p': parent.appendChild(d.createProcessingInstruction("a", "v")); r += "?"; break;
    }
  }
  return r;
}
inline Doc genDoc(mc::Ctx& c, const GenOpt& o, bool aroundRoot) {
  Doc d = newDoc(); S n; if (aroundRoot && c.flip()) { d.appendChild(d.createComment("pre")); n += "!"; }
  El r = d.createElementNS("", "r"); if (o.attrs) r.setAttributeNS("", "x", "0"); if (o.ns && c.flip()) { r.setAttributeNS(XMLNS, "xmlns:p", "urn:p"); n += "<xmlns:p>"; } d.appendChild(r);
  int b = o.nodes; n += "<r>" + genTree(c, d, r, b, o, 0) + "</r>"; if (aroundRoot && c.flip()) { d.appendChild(d.createProcessingInstruction("post", "")); n += "?"; }
  c.note(n); return d;
}
inline Doc parseDoc(const S& src) { Arabica::SAX2DOM::Parser<S> p; std::istringstream ss(src); Arabica::SAX::InputSource<S> is(ss); p.parse(is); return p.getDocument(); }
