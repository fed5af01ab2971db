// Exhaustive generator of small DOM trees and a canonical dump.
#pragma once
#include "dom_tree.hpp"
inline Doc newDoc() { auto im = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation(); return im.createDocument("", "", Arabica::DOM::DocumentType<S>()); }
inline S dump(N n, bool deep = true) {
  S r = std::to_string((int)n.getNodeType()) + ":" + n.getNodeName() + "{" + (n.hasNamespaceURI() ? n.getNamespaceURI() : "-") + "|" + n.getPrefix() + "|" + n.getLocalName() + "}";
  if (n.getNodeType() != NB::ELEMENT_NODE) r += "=" + n.getNodeValue();
  if (n.getNodeType() == NB::ELEMENT_NODE) { NM m = n.getAttributes(); for (unsigned i = 0; i < m.getLength(); ++i) { r += "@" + dump(m.item(i)); At a(m.item(i)); if (!(a.getOwnerElement() == n)) r += "!owner"; } }
  if (deep || n.getNodeType() == NB::ATTRIBUTE_NODE || n.getNodeType() == NB::ENTITY_REFERENCE_NODE) { r += "("; N prev; for (N c = n.getFirstChild(); !(c == 0); c = c.getNextSibling()) { r += dump(c, deep); if (!(c.getPreviousSibling() == prev)) r += "!prev"; if (!(c.getParentNode() == n)) r += "!parent"; prev = c; } if (!(n.getLastChild() == prev)) r += "!last"; r += ")"; }
  return r;
}
inline bool owned(N n, Doc d) {
  if (!(n.getOwnerDocument() == d)) return false;
  if (n.getNodeType() == NB::ELEMENT_NODE) { NM m = n.getAttributes(); for (unsigned i = 0; i < m.getLength(); ++i) if (!owned(m.item(i), d)) return false; }
  for (N c = n.getFirstChild(); !(c == 0); c = c.getNextSibling()) if (!owned(c, d)) return false;
  return true;
}
