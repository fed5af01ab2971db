// X07: node-sets are duplicate-free and in document order for every tree.
#include "xpath_bind.hpp"
static XNS mkset(const std::vector<N>& v, bool fwd = true) { XNS s(fwd); for (auto& n : v) s.push_back(n); return s; }
struct Vars : XP::VariableResolver<S, Arabica::default_string_adaptor<S>> { std::map<S, XV> m; XV resolveVariable(const S& ns, const S& n) const { auto i = m.find(n); if (i == m.end()) throw XP::UnboundVariableException(n); return i->second; } };
// every pair and triple of nodes of a tree, in both orders
static void pairs(mc::Ctx& c) {
  GenOpt o; o.nodes = c.bound(3, 4); o.attrs = false; o.kinds = "atdcp"; Doc d = genDoc(c, o, true); El r = d.getDocumentElement(); r.setAttributeNS("", "y", "1"); r.setAttributeNS(XMLNS, "xmlns:p", "urn:p"); if (!(r.getFirstChild() == 0) && r.getFirstChild().getNodeType() == NB::ELEMENT_NODE) El(r.getFirstChild()).setAttributeNS("", "x", "2");
  Bound b(d); c.state(c.trace()); std::vector<xr::Node*> v = b.all; for (auto x : r == 0 ? xr::NodeSet() : b.t.root->kid[0]->k == xr::ELEM ? b.t.root->kid[0]->nss : xr::NodeSet()) v.push_back(x);
  auto lt = [](xr::Node* x, xr::Node* y) { return x->ord < y->ord; };
  for (auto x : v) for (auto y : v) {
    c.transition(); bool same = x == y; std::vector<xr::Node*> w = {x, y}; std::sort(w.begin(), w.end(), lt); if (same) w.pop_back(); bool tie = !same && x->k == xr::NSN && y->k == xr::NSN; if (!same && x->k == xr::ATTR && y->k == xr::ATTR && x->par == y->par) tie = true;
    XNS s = mkset({b.real(x), b.real(y)}); s.to_document_order(); S got, want; for (size_t i = 0; i < s.size(); ++i) got += b.id(s[i]) + " "; for (auto n : w) want += b.id(n) + " ";
    if (tie) { XNS t = mkset({b.real(y), b.real(x)}); t.to_document_order(); S g2; for (size_t i = 0; i < t.size(); ++i) g2 += b.id(t[i]) + " "; if (s.size() != 2 || got != g2) c.fail("unstable-order", Bound::name(x) + " / " + Bound::name(y) + " " + got + " | " + g2); continue; }
    if (got != want) c.fail("pair-order", Bound::name(x) + " / " + Bound::name(y) + ": got " + got + " want " + want);
    XNS rv = mkset({b.real(x), b.real(y)}, false); XV val = XP::NodeSetValue<S>::createValue(mkset({b.real(x), b.real(y)})); if (val.asString() != w[0]->str()) c.fail("first-node", Bound::name(x) + " / " + Bound::name(y) + ": got " + val.asString());
    rv.sort(); S g3; for (size_t i = 0; i < rv.size(); ++i) g3 += b.id(rv[i]) + " "; S w3; for (size_t i = w.size(); i-- > 0;) w3 += b.id(w[i]) + " "; if (g3 != w3) c.fail("reverse-order", g3 + " want " + w3);
    if (!(rv.top() == XNS(s)[0]) && x->k != xr::NSN && y->k != xr::NSN) c.fail("top", g3);
  }
}
// every permutation (with duplicates) of every small subset; union of variables in every order
static void sets(mc::Ctx& c) {
  Doc d = parseDoc("<r a='1'><b x='2' y='3'>t<c/></b><!--k--><b>u</b><?p q?></r>"); Bound b(d); std::vector<xr::Node*> v = b.all; Vars vars; XP::XPath<S> e; e.setVariableResolver(vars);
  auto seq = [&](int max) { std::vector<xr::Node*> r; while ((int)r.size() < max) { int k = c.choose((int)v.size() + 1); if (!k) break; if (std::find(r.begin(), r.end(), v[k - 1]) != r.end()) c.prune(); r.push_back(v[k - 1]); } return r; };
  std::vector<xr::Node*> l = seq(c.bound(2, 3)), r = seq(2); S nt; for (auto x : l) nt += Bound::name(x) + ","; nt += " | "; for (auto x : r) nt += Bound::name(x) + ","; c.note(nt); c.state(nt);
  auto conv = [&](const std::vector<xr::Node*>& w) { std::vector<N> q; for (auto x : w) q.push_back(b.real(x)); return q; };
  vars.m["l"] = XP::NodeSetValue<S>::createValue(mkset(conv(l))); vars.m["r"] = XP::NodeSetValue<S>::createValue(mkset(conv(r)));
  xr::Env env; env.vars["l"] = xr::Value::mkset(l); env.vars["r"] = xr::Value::mkset(r);
  for (S s : {"$l|$r", "$r|$l", "($l|$r)[1]", "($r|$l)[last()]", "$l|$r|//c", "count($l|$r)", "string($l)", "string($l|$r)", "name($l|$r)", "$l/..", "$l/self::node()|$r/..", "$l/ancestor::node()", "$l/preceding::node()", "($l/ancestor::node())[1]", "$l|$r/following::node()", "sum($l|$r)", "$l/ancestor-or-self::*|$r/descendant-or-self::node()"}) {
    c.transition(); S want, got; try { xr::E x = xr::compile(s, &env); xr::Value w = xr::eval(x, xr::Ctx(b.t.root, &env)); want = rval(b, w) + rconv(w); static std::map<S, XE> ex; auto i = ex.find(s); if (i == ex.end()) i = ex.insert(std::make_pair(s, e.compile_expr(s))).first; XP::ExecutionContext<S, Arabica::default_string_adaptor<S>> ec; ec.setVariableResolver(vars); XV g = i->second.evaluate(d, ec); bool fwd = true; got = lval(b, g) + lconv(g); } catch (xr::Err& x) { want = "error"; } catch (std::exception& x) { got = S("error ") + x.what(); }
    if (got != want) c.fail("set " + s, "got " + got + " want " + want);
  }
}
// detached subtrees, several roots: still a strict total order, consistent with each tree
static void forest(mc::Ctx& c) {
  Doc d = newDoc(); El r = d.createElementNS("", "r"); d.appendChild(r); std::vector<N> all; std::vector<int> tree; int t = 0;
  std::function<void(N)> walk = [&](N n) { all.push_back(n); tree.push_back(t); if (n.getNodeType() == NB::ELEMENT_NODE) { NM m = n.getAttributes(); for (unsigned i = 0; i < m.getLength(); ++i) { all.push_back(m.item(i)); tree.push_back(t); } } for (N k = n.getFirstChild(); !(k == 0); k = k.getNextSibling()) walk(k); };
  int nt = 1 + c.choose(3); std::vector<N> hold;
  for (int i = 0; i < nt; ++i, ++t) {
    int kind = i == 0 ? 0 : 1 + c.choose(3); N top; if (kind == 0) top = d; else if (kind == 1) top = d.createElementNS("", "e"); else if (kind == 2) top = d.createDocumentFragment(); else { Doc o = newDoc(); o.appendChild(o.createElementNS("", "r")); top = o; }
    hold.push_back(top); N p = kind == 0 ? N(r) : kind == 3 ? top.getFirstChild() : top; Doc od = kind == 3 ? Doc(top) : d; int b = 2; GenOpt o; o.kinds = "at"; S s = genTree(c, od, p, b, o, 0); if (p.getNodeType() == NB::ELEMENT_NODE) El(p).setAttributeNS("", "z", "1"); c.note(std::to_string(kind) + s); walk(top);
  }
  c.state(c.trace()); size_t n = all.size(); std::vector<std::vector<char>> less(n, std::vector<char>(n));
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) { c.transition(); XNS s = mkset({all[i], all[j]}); s.to_document_order(); if (s.size() != 2) { c.fail("lost", "size"); continue; } less[i][j] = s[0] == all[i]; if (tree[i] == tree[j] && less[i][j] != (i < j)) c.fail("order-within-tree", std::to_string(i) + " " + std::to_string(j)); }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) { if (less[i][j] == less[j][i]) c.fail("not-antisymmetric", std::to_string(i) + " " + std::to_string(j)); for (size_t k = 0; k < n; ++k) if (k != i && k != j && less[i][j] && less[j][k] && !less[i][k]) c.fail("not-transitive", std::to_string(i) + " " + std::to_string(j) + " " + std::to_string(k)); }
  XNS s = mkset(all), q(true); for (size_t i = n; i-- > 0;) { q.push_back(all[i]); q.push_back(all[i]); } s.to_document_order(); q.to_document_order(); bool eq = s.size() == n && q.size() == n; for (size_t i = 0; eq && i < n; ++i) eq = s[i] == q[i]; if (!eq) c.fail("sort-not-canonical", std::to_string(s.size()) + " " + std::to_string(q.size()));
}
// wide elements: many siblings and many attributes
static void widths(mc::Ctx& c) {
  static const int W[] = {0, 2, 1001, 999}; int na = W[c.choose(c.bound(3, 4))], nk = W[c.choose(c.bound(3, 4))]; if (!c.thorough() && na == 1001 && nk == 1001) c.prune(); c.note("attributes " + std::to_string(na) + " children " + std::to_string(nk)); c.state(c.trace());
  Doc d = newDoc(); El r = d.createElementNS("", "r"); d.appendChild(r); N grand; for (int i = 0; i < na; ++i) r.setAttributeNS("", "a" + std::to_string(i), "v"); for (int i = 0; i < nk; ++i) { El k = d.createElementNS("", "k"); r.appendChild(k); if (i == 0) { El g = d.createElementNS("", "g"); k.appendChild(g); grand = g; } }
  std::vector<N> all; all.push_back(d); all.push_back(r); NM m = r.getAttributes(); for (unsigned i = 0; i < m.getLength(); ++i) all.push_back(m.item(i)); size_t ka = all.size(); for (N k = r.getFirstChild(); !(k == 0); k = k.getNextSibling()) { all.push_back(k); if (k == r.getFirstChild()) all.push_back(grand); }
  XNS s(true); for (size_t i = all.size(); i-- > 0;) s.push_back(all[i]); s.to_document_order(); c.transition(); if (s.size() != all.size()) { c.fail("wide-size", std::to_string(s.size()) + " of " + std::to_string(all.size())); return; }
  for (size_t i = 0; i < all.size(); ++i) if (!(s[i] == all[i])) { c.fail("wide-order", "position " + std::to_string(i)); break; }
  XV v = engine().compile_expr("//@*|//node()|/").evaluate(d); if (v.asNodeSet().size() != all.size()) c.fail("wide-union", std::to_string(v.asNodeSet().size()));
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"pairs", pairs}, {"sets", sets}, {"forest", forest}, {"widths", widths}}); }
