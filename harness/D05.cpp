// D05: character data edits are exact string edits; splitText and normalize preserve text.
#include "dom_tree.hpp"
typedef Arabica::DOM::CharacterData<S> CD;
typedef Arabica::DOM::Text<S> TX;
static Doc mkdoc() { auto im = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation(); return im.createDocument("", "", Arabica::DOM::DocumentType<S>()); }
static CD mk(Doc& d, int kind, const S& s) { return kind == 0 ? CD(d.createTextNode(s)) : kind == 1 ? CD(d.createComment(s)) : CD(d.createCDATASection(s)); }
// every history of edits up to a depth, over every offset/count class
static void edits(mc::Ctx& c) {
  Doc d = mkdoc(); El p = d.createElement("e"); int kind = c.choose(3); static const std::vector<S> init = {"", "a", "abc"}; S m = c.pick(init); CD n = mk(d, kind, m); if (c.flip()) p.appendChild(n);
  static const std::vector<S> args = {"", "x", "yz"}; int depth = c.bound(2, 3);
  for (int i = 0; i < depth; ++i) {
    int k = c.choose(6); S w; int len = m.size(); int code = 0, exp = 0;
    auto offs = [&]() { int o = c.choose(len + 3) - 1; return o; };               // -1 .. len+1
    auto cnt = [&]() { int o = c.choose(len + 5) - 2; return o == len + 2 ? 2147483647 : o == -2 ? -2147483647 - 1 : o; };    // -2^31, -1 .. len+1, INT_MAX
    try {
      switch (k) {
        case 0: { int o = offs(), q = cnt(); w = "substringData(" + std::to_string(o) + "," + std::to_string(q) + ")"; exp = o < 0 || o > len || q < 0; c.note(w); S r = n.substringData(o, q); if (!exp && r != m.substr(o, q)) c.fail("substring", w + " of '" + m + "' gave '" + r + "'"); break; }
        case 1: { S a = c.pick(args); w = "appendData(" + a + ")"; c.note(w); n.appendData(a); m += a; break; }
        case 2: { int o = offs(); S a = c.pick(args); w = "insertData(" + std::to_string(o) + "," + a + ")"; c.note(w); exp = o < 0 || o > len; n.insertData(o, a); if (!exp) m.insert(o, a); break; }
        case 3: { int o = offs(), q = cnt(); w = "deleteData(" + std::to_string(o) + "," + std::to_string(q) + ")"; c.note(w); exp = o < 0 || o > len || q < 0; n.deleteData(o, q); if (!exp) m.erase(o, q); break; }
        case 4: { int o = offs(), q = cnt(); S a = c.pick(args); w = "replaceData(" + std::to_string(o) + "," + std::to_string(q) + "," + a + ")"; c.note(w); exp = o < 0 || o > len || q < 0; n.replaceData(o, q, a); if (!exp) m.replace(o, q, a); break; }
        case 5: { bool nv = c.flip(); w = nv ? "setNodeValue(Q)" : "setData(Q)"; c.note(w); if (nv) n.setNodeValue("Q&"); else n.setData("Q&"); m = "Q&"; break; }
      }
    } catch (const DE& e) { code = e.code(); }
    c.transition(); c.state(std::to_string(kind) + m);
    if (code != exp) c.fail_stop(exp ? "bad-index-accepted" : "edit-rejected", w + " on '" + m + "' gave " + std::to_string(code));
    if (n.getData() != m || n.getNodeValue() != m || n.getLength() != (int)m.size()) c.fail_stop("data", w + " gave '" + n.getData() + "' expected '" + m + "'");
    if (n.substringData(0, m.size()) != m) c.fail("substring-all", w);
  }
}
// splitText at every offset, in every sibling context, attached, in an attribute or detached; repeated
static void split(mc::Ctx& c) {
  Doc d = mkdoc(); int ctx = c.choose(4); int kind = ctx == 2 ? 0 : c.choose(2) * 2; static const std::vector<S> data = {"", "a", "abcd"}; S m = c.pick(data); CD n = mk(d, kind, m);
  N parent; if (ctx == 0) parent = d.createElement("e"); else if (ctx == 1) parent = d.createDocumentFragment(); else if (ctx == 2) parent = d.createAttribute("a");
  std::vector<N> order; bool pre = ctx != 3 && c.flip(), post = ctx != 3 && c.flip();
  if (pre) { N t = d.createTextNode("P"); parent.appendChild(t); order.push_back(t); } if (ctx != 3) parent.appendChild(n); order.push_back(n); if (post) { N t = d.createTextNode("T"); parent.appendChild(t); order.push_back(t); }
  std::vector<std::pair<N, S>> parts; parts.push_back({n, m}); int depth = c.bound(3, 4);
  for (int i = 0; i < depth; ++i) {
    int q = c.choose((int)parts.size()); int len = parts[q].second.size(); int off = c.choose(len + 3) - 1; bool bad = off < 0 || off > len; c.note("split part " + std::to_string(q) + " at " + std::to_string(off));
    TX t(parts[q].first); int code = 0; TX r; try { r = t.splitText(off); } catch (const DE& e) { code = e.code(); } c.transition();
    if (code != (bad ? 1 : 0)) c.fail_stop("split-code", std::to_string(code));
    if (!bad) {
      S a = parts[q].second.substr(0, off), b = parts[q].second.substr(off); parts[q].second = a; parts.insert(parts.begin() + q + 1, {r, b});
      if (ctx != 3) order.insert(std::find(order.begin(), order.end(), parts[q].first) + 1, r);
      if (r.getNodeType() != n.getNodeType()) c.fail("split-kind", "new node has another type");
    }
    for (auto& x : parts) if (x.first.getNodeValue() != x.second) c.fail_stop("split-data", "'" + x.first.getNodeValue() + "' expected '" + x.second + "'");
    if (ctx != 3) { size_t k = 0; for (N z = parent.getFirstChild(); !(z == 0); z = z.getNextSibling(), ++k) if (k >= order.size() || !(z == order[k]) || !(z.getParentNode() == parent)) c.fail_stop("split-position", std::to_string(k)); if (k != order.size()) c.fail_stop("split-count", std::to_string(k)); }
    else for (auto& x : parts) if (!(x.first.getParentNode() == 0) || !(x.first.getNextSibling() == 0)) c.fail("split-detached", "");
    S st = std::to_string(ctx); for (auto& x : parts) st += x.second + "/"; c.state(st);
  }
}
// normalize over every forest of text/cdata/comment/element children up to the bound
struct T { char k; S s; std::vector<T> ch; };
static std::vector<T> gen(mc::Ctx& c, int& budget, int depth, S& tr) {
  std::vector<T> r; 
  while (budget > 0) {
    int k = c.choose(depth > 0 ? 7 : 6); if (k == 0) break; --budget; T t; 
    switch (k) { case 1: t = {'t', "", {}}; tr += "''"; break; case 2: t = {'t', "ab", {}}; tr += "'ab'"; break; case 3: t = {'d', "cd", {}}; tr += "[cd]"; break; case 4: t = {'d', "", {}}; tr += "[]"; break; case 5: t = {'c', "", {}}; tr += "!"; break;
      default: t.k = 'e'; tr += "<"; t.ch = gen(c, budget, depth - 1, tr); tr += ">"; }
    r.push_back(t);
  }
  return r;
}
static void build(Doc& d, N p, const std::vector<T>& v) { for (auto& t : v) { N n; switch (t.k) { case 't': n = d.createTextNode(t.s); break; case 'd': n = d.createCDATASection(t.s); break; case 'c': n = d.createComment("c"); break; default: n = d.createElement("e"); build(d, n, t.ch); El(n).setAttribute("a", "v"); At(El(n).getAttributeNode("a")).appendChild(d.createTextNode("w")); } p.appendChild(n); } }
static std::vector<T> norm(const std::vector<T>& v) { std::vector<T> r; for (auto& t : v) { if (t.k == 't') { if (!r.empty() && r.back().k == 't') { r.back().s += t.s; continue; } r.push_back(t); continue; } T q = t; q.ch = norm(t.ch); r.push_back(q); }
  std::vector<T> o; for (auto& t : r) if (t.k != 't' || !t.s.empty()) o.push_back(t); return o; }
static S ser(const std::vector<T>& v) { S r; for (auto& t : v) { r += t.k; r += t.s; if (t.k == 'e') r += "<" + ser(t.ch) + ">"; r += ","; } return r; }
static S rser(N p, bool attrs) { S r; N prev; for (N n = p.getFirstChild(); !(n == 0); n = n.getNextSibling()) { if (!(n.getPreviousSibling() == prev) || !(n.getParentNode() == p)) r += "BADLINK"; prev = n; switch (n.getNodeType()) { case NB::TEXT_NODE: r += "t" + n.getNodeValue(); break; case NB::CDATA_SECTION_NODE: r += "d" + n.getNodeValue(); break; case NB::COMMENT_NODE: r += "c"; break;
  default: r += "e<" + rser(n, attrs) + ">"; if (attrs) { At a = El(n).getAttributeNode("a"); if (a.getValue() != "vw" || !(a.getFirstChild() == a.getLastChild())) r += "BADATTR"; } } r += ","; } return r; }
static void normalize(mc::Ctx& c) {
  int budget = c.bound(6, 7); S tr; std::vector<T> v = gen(c, budget, 2, tr); c.note(tr); Doc d = mkdoc(); N root = c.flip() ? N(d.createDocumentFragment()) : N(d.createElement("r")); build(d, root, v);
  N mid = root.getFirstChild(); S before = ser(v); c.state(before); if (rser(root, false) != before) c.fail_stop("build", rser(root, false));
  root.normalize(); c.transition(); S want = ser(norm(v)), got = rser(root, true); c.outcome(want);
  if (got != want) c.fail("normalize", tr + " gave " + got + " expected " + want);
  root.normalize(); if (rser(root, true) != want) c.fail("normalize-twice", tr);
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"edits", edits}, {"split", split}, {"normalize", normalize}}); }
