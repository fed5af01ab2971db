// D03: an element's attributes behave as a map by nodeName and by {namespace, localName}.
#include "dom_tree.hpp"
struct Ent { N node; S name; bool hasNs; S ns, local; S val; };       // model entry; identity = node handle
struct AM {
  std::vector<Ent> e;
  std::vector<int> byName(const S& n) const { std::vector<int> r; for (size_t i = 0; i < e.size(); ++i) if (e[i].name == n) r.push_back(i); return r; }
  std::vector<int> byNS(const S& ns, const S& l) const { std::vector<int> r; for (size_t i = 0; i < e.size(); ++i) { if (ns.empty() ? (!e[i].hasNs && (e[i].local == l || (e[i].local.empty() && e[i].name == l))) : (e[i].ns == ns && e[i].local == l)) r.push_back(i); } return r; }
};
struct Track { N node; int owner; S val; };      // every attribute node ever seen
static S expand(const S& qn) { size_t i = qn.find(':'); return i == S::npos ? qn : qn.substr(i + 1); }

struct World {
  Doc d, d2; std::vector<El> el; std::vector<AM> m; std::vector<Track> t; std::vector<Arabica::DOM::NamedNodeMap<S>> live;
  size_t npool;
  World() {
    auto im = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
    d = im.createDocument("", "", Arabica::DOM::DocumentType<S>()); d2 = im.createDocument("", "", Arabica::DOM::DocumentType<S>());
    el.push_back(d.createElement("e")); el.push_back(d.createElementNS("u", "p:f")); d.appendChild(el[0]);
    m.resize(2); for (auto& x : el) live.push_back(x.getAttributes());
    add(d.createAttribute("a"), "1"); add(d.createAttributeNS("u", "p:a"), "2"); add(d.createAttributeNS("u", "q:a"), "3"); add(d.createAttributeNS("", "a"), "4"); add(d.createAttributeNS("v", "p:a"), "5"); add(d2.createAttribute("a"), "6");
    npool = t.size();
  }
  void add(At a, const S& v) { a.setValue(v); Track k; k.node = a; k.owner = -1; k.val = v; t.push_back(k); }
  int track(const N& n) { for (size_t i = 0; i < t.size(); ++i) if (t[i].node == n) return i; return -1; }
  void release(const N& n) { int i = track(n); if (i >= 0) t[i].owner = -1; }
  void entryFrom(int e, const N& n, const S& v) {      // record a node the element created or adopted
    Ent x; x.node = n; x.name = n.getNodeName(); x.hasNs = n.hasNamespaceURI(); x.ns = n.getNamespaceURI(); x.local = n.getLocalName(); x.val = v; m[e].e.push_back(x);
    int i = track(n); if (i < 0) { Track k; k.node = n; t.push_back(k); i = t.size() - 1; } t[i].owner = e; t[i].val = v;
  }
  // "" or what is wrong
  S check() {
    static const std::vector<S> names = {"a", "b", "p:a", "q:a", "zz"}; static const std::vector<S> nss = {"", "u", "v", "w"}; static const std::vector<S> ls = {"a", "b", "zz"};
    for (size_t e = 0; e < 2; ++e) {
      El& x = el[e]; S w = e ? "f." : "e."; auto& M = m[e]; auto map = x.getAttributes(); auto& lv = live[e];
      if (map.getLength() != M.e.size()) return w + "length=" + std::to_string(map.getLength()) + " expected " + std::to_string(M.e.size());
      if (lv.getLength() != M.e.size()) return w + "live length";
      if (x.hasAttributes() != !M.e.empty()) return w + "hasAttributes";
      std::set<int> seen;
      for (unsigned i = 0; i < map.getLength(); ++i) { N n = map.item(i); if (!(n == lv.item(i))) return w + "live item"; int k = -1; for (size_t j = 0; j < M.e.size(); ++j) if (M.e[j].node == n) k = j; if (k < 0) return w + "item(" + std::to_string(i) + ") is not an attribute of the element"; if (!seen.insert(k).second) return w + "item repeats"; }
      if (!(map.item(map.getLength()) == 0)) return w + "item(length) not null";
      for (auto& n : names) { auto c = M.byName(n);
        if (x.hasAttribute(n) != !c.empty()) return w + "hasAttribute(" + n + ")";
        At a = x.getAttributeNode(n); N b = map.getNamedItem(n); if (!(N(a) == b)) return w + "getAttributeNode/getNamedItem(" + n + ")";
        if (c.empty()) { if (!(a == 0) || x.getAttribute(n) != "") return w + "getAttribute(" + n + ") of absent"; }
        else { int k = -1; for (int q : c) if (M.e[q].node == N(a)) k = q; if (k < 0) return w + "getAttributeNode(" + n + ")"; if (x.getAttribute(n) != M.e[k].val) return w + "getAttribute(" + n + ")='" + x.getAttribute(n) + "' expected '" + M.e[k].val + "'"; }
      }
      for (auto& ns : nss) for (auto& l : ls) { auto c = M.byNS(ns, l); S q = "{" + ns + "}" + l;
        if (x.hasAttributeNS(ns, l) != !c.empty()) return w + "hasAttributeNS " + q;
        At a = x.getAttributeNodeNS(ns, l); N b = map.getNamedItemNS(ns, l); if (!(N(a) == b)) return w + "getAttributeNodeNS/getNamedItemNS " + q;
        if (c.empty()) { if (!(a == 0) || x.getAttributeNS(ns, l) != "") return w + "getAttributeNS of absent " + q; }
        else { int k = -1; for (int z : c) if (M.e[z].node == N(a)) k = z; if (k < 0) return w + "getAttributeNodeNS " + q; if (x.getAttributeNS(ns, l) != M.e[k].val) return w + "getAttributeNS " + q; }
      }
    }
    for (size_t i = 0; i < t.size(); ++i) { At a(t[i].node); El o = a.getOwnerElement();
      if (t[i].owner < 0 ? !(o == 0) : !(o == el[t[i].owner])) return S("ownerElement of ") + (i < npool ? "pool" : "created") + " attr " + std::to_string(i) + " (" + a.getName() + "), expected " + (t[i].owner < 0 ? "none" : t[i].owner ? "f" : "e");
      if (a.getValue() != t[i].val || a.getNodeValue() != t[i].val) return "value of attr " + a.getName() + " '" + a.getValue() + "' expected '" + t[i].val + "'";
      if (!(N(a).getParentNode() == 0)) return "attr parent";
    }
    return "";
  }
  S str() const { S r; for (size_t e = 0; e < 2; ++e) { std::multiset<S> q; for (auto& x : m[e].e) { int p = -1; for (size_t i = 0; i < npool; ++i) if (t[i].node == x.node) p = i; q.insert(x.name + "{" + x.ns + "}" + x.val + "#" + std::to_string(p)); } for (auto& z : q) r += z + ","; r += "|"; } for (size_t i = 0; i < npool; ++i) r += t[i].val + " "; return r; }
};
struct AOp { int k, e, i, j, v; };
static const std::vector<S> NAMES = {"a", "b", "p:a"}; static const std::vector<S> NSS = {"", "u", "v"}; static const std::vector<S> QN = {"a", "p:a", "q:a"}; static const std::vector<S> VAL = {"x", "", "<&'\""};
static std::vector<AOp> alphabet() {
  std::vector<AOp> o;
  for (int e = 0; e < 2; ++e) {
    for (int i = 0; i < 3; ++i) { o.push_back({0, e, i, 0, 0}); if (!e) o.push_back({0, e, i, 0, 1}); for (int k : {1, 2}) o.push_back({k, e, i, 0, 0}); }
    for (int n = 0; n < 3; ++n) { for (int q = 0; q < 3; ++q) if (!(n == 0 && q > 0)) o.push_back({3, e, n, q, e ? 2 : 0}); for (int k : {4, 5}) o.push_back({k, e, n, 0, 0}); }
    for (int a = 0; a < 6; ++a) for (int k : {6, 7, 8, 9, 10}) o.push_back({k, e, a, 0, 0});
  }
  for (int a = 0; a < 3; ++a) { o.push_back({11, 0, a, 0, 0}); o.push_back({12, 0, a, 0, 0}); o.push_back({13, 0, a, 0, 0}); }
  o.push_back({14, 0, 0, 0, 0}); o.push_back({15, 0, 0, 0, 0}); o.push_back({16, 0, 1, 0, 0}); o.push_back({17, 0, 0, 0, 0});
  return o;
}
static S aname(const AOp& o) {
  S e = o.e ? "f." : "e."; 
  switch (o.k) { case 0: return e + "setAttribute(" + NAMES[o.i] + "," + VAL[o.v] + ")"; case 1: return e + "removeAttribute(" + NAMES[o.i] + ")"; case 2: return e + "attributes.removeNamedItem(" + NAMES[o.i] + ")";
    case 3: return e + "setAttributeNS(" + NSS[o.i] + "," + QN[o.j] + "," + VAL[o.v] + ")"; case 4: return e + "removeAttributeNS(" + NSS[o.i] + ",a)"; case 5: return e + "attributes.removeNamedItemNS(" + NSS[o.i] + ",a)";
    case 6: return e + "setAttributeNode(A" + std::to_string(o.i) + ")"; case 7: return e + "setAttributeNodeNS(A" + std::to_string(o.i) + ")"; case 8: return e + "removeAttributeNode(A" + std::to_string(o.i) + ")"; case 9: return e + "attributes.setNamedItem(A" + std::to_string(o.i) + ")"; case 10: return e + "attributes.setNamedItemNS(A" + std::to_string(o.i) + ")";
    case 11: return "A" + std::to_string(o.i) + ".setValue(n)"; case 12: return "A" + std::to_string(o.i) + ".firstChild.setData(m)"; case 13: return "A" + std::to_string(o.i) + ".appendChild(text k)";
    case 14: return "detach e"; case 15: return "normalize e"; case 16: return "A1.setPrefix(r)"; default: return "A0.removeChild(firstChild)"; }
}
// returns false if the op is outside the deterministic part of the model (ambiguous target)
static bool apply(mc::Ctx& c, World& w, const AOp& o) {
  AM& M = w.m[o.e]; El& x = w.el[o.e]; auto nm = x.getAttributes(); int code = 0; N ret; bool hasRet = false; std::set<int> exp; bool okOrNotFound = false;
  auto run = [&](std::function<void()> f) { try { f(); } catch (const DE& ex) { code = ex.code(); } };
  auto kill = [&](int k) { w.release(M.e[k].node); M.e.erase(M.e.begin() + k); };
  auto done = [&]() { c.transition(); S n = aname(o);
    if (exp.empty() && code && !(okOrNotFound && code == NOTFOUND)) c.fail_stop("legal-rejected", n + " threw " + std::to_string(code));
    if (!exp.empty() && !exp.count(code)) c.fail_stop(code ? "wrong-code" : "illegal-accepted", n + " gave " + std::to_string(code) + " expected " + std::to_string(*exp.begin()));
  };
  switch (o.k) {
    case 0: { auto q = M.byName(NAMES[o.i]); if (q.size() > 1) return false; run([&]() { x.setAttribute(NAMES[o.i], VAL[o.v]); }); done(); if (code) return true;
      N n = x.getAttributeNode(NAMES[o.i]); if (n == 0) c.fail_stop("set-lost", aname(o));
      if (!q.empty() && n == M.e[q[0]].node) { M.e[q[0]].val = VAL[o.v]; w.t[w.track(n)].val = VAL[o.v]; } else { if (!q.empty()) kill(q[0]); w.entryFrom(o.e, n, VAL[o.v]); } return true; }
    case 1: case 2: { auto q = M.byName(NAMES[o.i]); if (q.size() > 1) return false; N old = q.empty() ? N() : M.e[q[0]].node;
      if (o.k == 1) { okOrNotFound = q.empty(); run([&]() { x.removeAttribute(NAMES[o.i]); }); } else { if (q.empty()) exp.insert(NOTFOUND); run([&]() { ret = nm.removeNamedItem(NAMES[o.i]); hasRet = true; }); }
      done(); if (!q.empty()) { if (hasRet && !(ret == old)) c.fail("return-value", aname(o)); kill(q[0]); } return true; }
    case 3: { S l = expand(QN[o.j]); auto q = M.byNS(NSS[o.i], l); if (q.size() > 1) return false; S pre = QN[o.j].substr(0, QN[o.j].size() - l.size()); run([&]() { x.setAttributeNS(NSS[o.i], QN[o.j], VAL[o.v]); }); done();
      N n = x.getAttributeNodeNS(NSS[o.i], l); if (n == 0) c.fail_stop("set-lost", aname(o)); if (n.getNodeName() != QN[o.j]) c.fail("prefix-not-changed", aname(o) + " nodeName " + n.getNodeName()); 
      if (n.getNamespaceURI() != NSS[o.i] || (n.getLocalName() != l && !q.empty() && !(n == M.e[q[0]].node))) c.fail("namespace", aname(o));
      if (!q.empty() && n == M.e[q[0]].node) { M.e[q[0]].val = VAL[o.v]; M.e[q[0]].name = n.getNodeName(); w.t[w.track(n)].val = VAL[o.v]; } else { if (!q.empty()) kill(q[0]); w.entryFrom(o.e, n, VAL[o.v]); } return true; }
    case 4: case 5: { auto q = M.byNS(NSS[o.i], "a"); if (q.size() > 1) return false; N old = q.empty() ? N() : M.e[q[0]].node;
      if (o.k == 4) { okOrNotFound = q.empty(); run([&]() { x.removeAttributeNS(NSS[o.i], "a"); }); } else { if (q.empty()) exp.insert(NOTFOUND); run([&]() { ret = nm.removeNamedItemNS(NSS[o.i], "a"); hasRet = true; }); }
      done(); if (!q.empty()) { if (hasRet && !(ret == old)) c.fail("return-value", aname(o)); kill(q[0]); } return true; }
    case 6: case 7: case 9: case 10: { bool ns = o.k == 7 || o.k == 10; Track& t = w.t[o.i]; At a(t.node); bool here = t.owner == o.e;
      auto q = !ns ? M.byName(a.getName()) : a.getLocalName().empty() ? M.byNS("", a.getName()) : M.byNS(a.getNamespaceURI(), a.getLocalName());
      if (o.i == 5) exp.insert(WRONGDOC); else if (t.owner >= 0 && !here) exp.insert(10); else if (!here && q.size() > 1) return false;
      run([&]() { switch (o.k) { case 6: ret = x.setAttributeNode(a); break; case 7: ret = x.setAttributeNodeNS(a); break; case 9: ret = nm.setNamedItem(a); break; default: ret = nm.setNamedItemNS(a); } }); done();
      if (!exp.empty() || here) return true;
      N old = q.empty() ? N() : M.e[q[0]].node; if (!(ret == old)) c.fail("return-value", aname(o));
      if (!q.empty()) kill(q[0]); w.entryFrom(o.e, a, t.val); return true; }
    case 8: { At a(w.t[o.i].node); bool here = w.t[o.i].owner == o.e; if (!here) exp.insert(NOTFOUND); run([&]() { ret = x.removeAttributeNode(a); }); done(); if (here) { if (!(ret == N(a))) c.fail("return-value", aname(o)); for (size_t k = 0; k < M.e.size(); ++k) if (M.e[k].node == N(a)) { kill(k); break; } } return true; }
    default: break;
  }
  auto setv = [&](int i, const S& v) { w.t[i].val = v; for (auto& m : w.m) for (auto& en : m.e) if (en.node == w.t[i].node) en.val = v; };
  At a(w.t[o.i].node);
  switch (o.k) {
    case 11: run([&]() { a.setValue("n"); }); done(); setv(o.i, "n"); return true;
    case 12: if (a.getFirstChild() == 0) return false; { a.getValue(); N t = a.getFirstChild(); S rest; for (N z = t.getNextSibling(); !(z == 0); z = z.getNextSibling()) rest += z.getNodeValue(); run([&]() { t.setNodeValue("m"); }); done(); setv(o.i, "m" + rest); } return true;
    case 13: a.getValue(); run([&]() { a.appendChild(w.d.createTextNode("k")); }); done(); setv(o.i, w.t[o.i].val + "k"); return true;
    case 14: if (N(w.el[0]).getParentNode() == 0) return false; run([&]() { w.d.removeChild(w.el[0]); }); done(); return true;
    case 15: run([&]() { w.el[0].normalize(); }); done(); return true;
    case 16: { S old = a.getName(); if (old != "p:a") return false; run([&]() { a.setPrefix("r"); }); done(); for (auto& m : w.m) for (auto& en : m.e) if (en.node == N(a)) en.name = "r:a"; return true; }
    default: if (a.getFirstChild() == 0) return false; { N t = a.getFirstChild(); S v = w.t[o.i].val; S tv = t.getNodeValue(); run([&]() { a.removeChild(t); }); done(); setv(o.i, v.substr(tv.size())); } return true;
  }
}
static void hist(mc::Ctx& c) {
  static std::vector<AOp> ops = alphabet(); int depth = c.bound(3, 4); std::vector<int> ch; size_t lastNonZero = 0;
  for (int i = 0; i < depth; ++i) { int k = c.choose((int)ops.size()); if (!c.thorough() && i == depth - 1 && ops[k].e == 1) c.prune(); if (k) lastNonZero = i; ch.push_back(k); }
  World w;
  for (int i = 0; i < depth; ++i) {
    const AOp& o = ops[ch[i]]; c.note(aname(o));
    if (!apply(c, w, o)) c.prune();
    if (i + 1 < depth && (i < (int)lastNonZero && (ch[depth - 1] & 1))) continue; // intermediate states: observed in every other history
    S r = w.check(); if (!r.empty()) c.fail_stop("map-mismatch:" + r.substr(0, r.find_first_of("(=' {")), aname(o) + " -> " + r);
    c.state(w.str()); 
  }
}
// depth-first over model states (merged): deeper histories with a smaller alphabet
static void deep(mc::Ctx& c) {
  static std::vector<AOp> ops; if (ops.empty()) for (auto& o : alphabet()) if (o.e == 0 && o.i < 3 && (o.k == 0 || o.k == 3 || o.k == 4 || o.k == 6 || o.k == 7 || o.k == 8) && o.v == 0 && !(o.k == 3 && o.j == 2) && !(o.k == 0 && o.i == 1)) ops.push_back(o);
  int depth = c.bound(4, 6); World w;
  for (int i = 0; i < depth; ++i) { const AOp& o = ops[c.choose((int)ops.size())]; c.note(aname(o)); if (!apply(c, w, o)) c.prune(); S r = w.check(); if (!r.empty()) c.fail_stop("map-mismatch:" + r.substr(0, r.find_first_of("(=' {")), aname(o) + " -> " + r); c.state("d" + w.str()); }
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"histories", hist}, {"deep", deep}}); }
