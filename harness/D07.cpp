// D07: clones and imports are equal, correctly owned, independent copies.
#include "dom_gen.hpp"
static El mkel(mc::Ctx& c, Doc& d) {
  int k = c.choose(8); El e;
  switch (k) {
    case 0: e = d.createElement("x"); c.note("<x>"); break;
    case 1: e = d.createElementNS("u", "p:x"); c.note("<p:x u>"); break;
    case 2: e = d.createElementNS("", "x"); c.note("<x ''>"); break;
    case 3: e = d.createElement("x"); e.setAttribute("a", "1"); e.setAttributeNS("u", "p:b", "2"); c.note("<x a p:b>"); break;
    case 4: { e = d.createElementNS("u", "p:x"); e.setPrefix("q"); At a = d.createAttributeNS("u", "p:b"); e.setAttributeNodeNS(a); a.setValue("v"); a.setPrefix("r"); c.note("<q:x r:b>"); break; }
    case 5: { e = d.createElement("x"); At a = d.createAttribute("m"); a.appendChild(d.createTextNode("t1")); a.appendChild(d.createEntityReference("ent")); a.appendChild(d.createTextNode("t2")); e.setAttributeNode(a); c.note("<x m='t1&ent;t2'>"); break; }
    case 6: e = d.createElementNS("u", "x"); e.setAttributeNS("http://www.w3.org/2000/xmlns/", "xmlns", "u"); e.setAttributeNS("http://www.w3.org/XML/1998/namespace", "xml:lang", ""); c.note("<x xmlns xml:lang>"); break;
    default: e = d.createElement("x"); e.setAttributeNS("", "n", "3"); e.setAttribute("o", ""); c.note("<x n o>"); break;
  }
  return e;
}
static N leaf(mc::Ctx& c, Doc& d) { int k = c.choose(6); switch (k) { case 0: c.note("text"); return d.createTextNode("a&b"); case 1: c.note("comment"); return d.createComment("c"); case 2: c.note("cdata"); return d.createCDATASection("<d>"); case 3: c.note("pi"); return d.createProcessingInstruction("t", "data"); case 4: c.note("entref"); return d.createEntityReference("ent"); default: c.note("empty text"); return d.createTextNode(""); } }
static N kid(mc::Ctx& c, Doc& d, int depth) { if (depth > 0 && c.flip()) { El e = mkel(c, d); int n = c.choose(depth + 1); for (int i = 0; i < n; ++i) e.appendChild(kid(c, d, depth - 1)); return e; } return leaf(c, d); }
// every independent mutation of tree n; returns false when not applicable
static const int NMUT = 9;
static bool mutate(N n, int k) {
  El e; N first = n.getFirstChild(); bool el = n.getNodeType() == NB::ELEMENT_NODE; Doc d = n.getNodeType() == NB::DOCUMENT_NODE ? Doc(n) : n.getOwnerDocument();
  N x = n; if (!el && (n.getNodeType() == NB::DOCUMENT_FRAGMENT_NODE || n.getNodeType() == NB::DOCUMENT_NODE)) for (N q = first; !(q == 0); q = q.getNextSibling()) if (q.getNodeType() == NB::ELEMENT_NODE) { x = q; el = true; break; }
  try {
    switch (k) {
      case 0: if (!el) return false; x.appendChild(d.createTextNode("new")); return true;
      case 1: if (first == 0) return false; n.removeChild(first); return true;
      case 2: if (!el) return false; El(x).setAttribute("zz", "new"); return true;
      case 3: if (!el || !x.hasAttributes()) return false; { At a(x.getAttributes().item(0)); if (a.getFirstChild() == 0) return false; a.getFirstChild().setNodeValue("CHG"); } return true;
      case 4: if (!el || !x.hasAttributes()) return false; El(x).removeAttributeNode(At(x.getAttributes().item(0))); return true;
      case 5: { N q = n; while (!(q.getLastChild() == 0)) q = q.getLastChild(); if (q.getNodeType() != NB::TEXT_NODE && q.getNodeType() != NB::COMMENT_NODE && q.getNodeType() != NB::CDATA_SECTION_NODE) return false; q.setNodeValue("CHG"); return true; }
      case 6: if (!el || !x.hasNamespaceURI()) return false; x.setPrefix("zz"); return true;
      case 7: if (n.getNodeType() != NB::ATTRIBUTE_NODE) return false; n.setNodeValue("CHG"); return true;
      default: if (!el || first == 0) return false; x.insertBefore(d.createElement("new"), x.getFirstChild()); return true;
    }
  } catch (const DE&) { return true; }
}
static void check(mc::Ctx& c, N src, N copy, bool deep, Doc owner, const S& how) {
  c.transition(); S a = dump(src, deep), b = deep ? dump(copy) : dump(copy, true);
  S want = deep ? a : dump(src, false);
  if (!deep && src.getNodeType() != NB::ATTRIBUTE_NODE && src.getNodeType() != NB::ENTITY_REFERENCE_NODE) { if (copy.hasChildNodes()) c.fail_stop("shallow-has-children", how + " of " + dump(src)); b = dump(copy, false); }
  if (b != want) c.fail_stop("not-equal", how + ": " + want + " became " + b);
  if (copy == src) c.fail_stop("same-node", how);
  if (!(copy.getParentNode() == 0) || !(copy.getPreviousSibling() == 0) || !(copy.getNextSibling() == 0)) c.fail("not-detached", how);
  if (copy.getNodeType() == NB::ATTRIBUTE_NODE && !(At(copy).getOwnerElement() == 0)) c.fail("attr-copy-owned", how);
  if (!(owner == 0) && !owned(copy, owner)) c.fail("wrong-owner", how + " of " + a);
  S sa = dump(src), sb = dump(copy); bool onCopy = c.flip(); int k = c.choose(NMUT); c.note(S(onCopy ? "mutate copy " : "mutate source ") + std::to_string(k));
  if (!mutate(onCopy ? copy : src, k)) return;
  c.transition(); if (dump(onCopy ? src : copy) != (onCopy ? sa : sb)) c.fail("not-independent", how + ": mutating the " + (onCopy ? "copy" : "source") + " changed the other: " + dump(onCopy ? src : copy));
}
static void trees(mc::Ctx& c) {
  Doc d = newDoc(), d2 = newDoc(); int rk = c.choose(4); N src; int depth = c.bound(2, 3);
  switch (rk) {
    case 0: { El e = mkel(c, d); int n = c.choose(depth + 1); for (int i = 0; i < n; ++i) e.appendChild(kid(c, d, i == 0 ? depth - 1 : 0)); if (c.flip()) { El p = d.createElement("parent"); p.appendChild(d.createTextNode("before")); p.appendChild(e); p.appendChild(d.createTextNode("after")); c.note("in parent"); } src = e; break; }
    case 1: src = leaf(c, d); break;
    case 2: { N f = d.createDocumentFragment(); int n = c.choose(3); for (int i = 0; i < n; ++i) f.appendChild(kid(c, d, 1)); c.note("fragment"); src = f; break; }
    default: { El e = mkel(c, d); NM m = e.getAttributes(); if (!m.getLength()) c.prune(); src = m.item(c.choose((int)m.getLength())); c.note("attr"); }
  }
  bool deep = c.flip(); int how = c.choose(3); c.note(deep ? "deep" : "shallow"); c.state(dump(src));
  N copy; S h = how == 0 ? "cloneNode" : how == 1 ? "importNode to another document" : "importNode to its own document"; c.note(h);
  try { copy = how == 0 ? src.cloneNode(deep) : how == 1 ? d2.importNode(src, deep) : d.importNode(src, deep); } catch (const DE& e) { c.fail_stop("copy-rejected", h + " threw " + std::to_string(e.code())); }
  bool attr = src.getNodeType() == NB::ATTRIBUTE_NODE; check(c, src, copy, deep || attr, how == 1 ? d2 : d, h);
}
static void documents(mc::Ctx& c) {
  auto im = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation(); Doc d;
  int how = c.choose(4); S nm = how & 1 ? "root" : ""; d = im.createDocument(how & 1 ? "u" : "", nm, how & 2 ? im.createDocumentType("root", "pub", "sys") : Arabica::DOM::DocumentType<S>());
  c.note("createDocument " + std::to_string(how)); int n = c.choose(c.bound(3, 4));
  for (int i = 0; i < n; ++i) { int k = c.choose(3); N x = k == 0 ? N(d.createComment("c")) : k == 1 ? N(d.createProcessingInstruction("t", "d")) : N(mkel(c, d)); if (k == 2 && !(d.getDocumentElement() == 0)) c.prune(); bool front = c.flip(); c.note(front ? "front" : "back"); if (front) d.insertBefore(x, d.getFirstChild()); else d.appendChild(x); if (k == 2) x.appendChild(kid(c, d, 1)); }
  bool deep = c.flip(); c.note(deep ? "deep" : "shallow"); c.state(dump(d));
  Doc copy(d.cloneNode(deep)); c.transition();
  if (!deep) { if (copy.hasChildNodes()) c.fail("shallow-has-children", dump(copy)); return; }
  if (dump(copy) != dump(d)) c.fail_stop("not-equal", dump(d) + " became " + dump(copy));
  for (N x = copy.getFirstChild(); !(x == 0); x = x.getNextSibling()) if (!owned(x, copy)) c.fail("wrong-owner", dump(x));
  if ((copy.getDocumentElement() == 0) != (d.getDocumentElement() == 0) || (copy.getDoctype() == 0) != (d.getDoctype() == 0)) c.fail("documentElement", dump(copy));
  S sa = dump(d), sb = dump(copy); bool onCopy = c.flip(); int k = c.choose(NMUT);
  if (mutate(onCopy ? N(copy) : N(d), k) && dump(onCopy ? d : copy) != (onCopy ? sa : sb)) c.fail("not-independent", sa);
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"trees", trees}, {"documents", documents}}); }
