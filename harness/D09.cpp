// D09: TreeWalker navigation against the logical view of DOM Traversal.
#include "dom_gen.hpp"
#include <DOM/Traversal/DocumentTraversal.hpp>
#include <DOM/Traversal/NodeFilter.hpp>
#include <DOM/Traversal/TreeWalker.hpp>
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <sstream>
namespace TR = Arabica::DOM::Traversal;
typedef TR::TreeWalker<S> W; typedef TR::NodeFilter<S> F;
struct Filt : F { std::map<S, int> d; mutable int calls = 0; F::Result acceptNode(const N& n) const { ++calls; auto i = d.find(n.getNodeName() == "#text" || n.getNodeName() == "#comment" ? n.getNodeValue() : n.getNodeName()); return i == d.end() || i->second == 0 ? F::FILTER_ACCEPT : i->second == 1 ? F::FILTER_SKIP : F::FILTER_REJECT; } };
struct View { std::vector<N> n; std::vector<int> par; std::vector<std::vector<int>> kid; bool rootOk; };
static int verdict(N n, unsigned long show, const Filt* f) { if (!(show & (1ul << (n.getNodeType() - 1)))) return 1; if (!f) return 0; auto r = f->acceptNode(n); return r == F::FILTER_ACCEPT ? 0 : r == F::FILTER_SKIP ? 1 : 2; }
static void fill(View& v, int at, N n, unsigned long show, const Filt* f, bool expand) {
  if (!expand && n.getNodeType() == NB::ENTITY_REFERENCE_NODE) return;
  for (N k = n.getFirstChild(); !(k == 0); k = k.getNextSibling()) {
    int r = verdict(k, show, f);
    if (r == 0) { int i = v.n.size(); v.n.push_back(k); v.par.push_back(at); v.kid.push_back({}); v.kid[at].push_back(i); fill(v, i, k, show, f, expand); }
    else if (r == 1) fill(v, at, k, show, f, expand);
  }
}
static View view(N root, unsigned long show, const Filt* f, bool expand) { View v; v.n.push_back(root); v.par.push_back(-1); v.kid.push_back({}); v.rootOk = verdict(root, show, f) == 0; fill(v, 0, root, show, f, expand); return v; }   // ids are preorder
static const char* OPN[] = {"parentNode", "firstChild", "lastChild", "previousSibling", "nextSibling", "previousNode", "nextNode"};
static int want(const View& v, int cur, int op) {
  auto sib = [&](int d) { if (cur == 0) return -1; auto& k = v.kid[v.par[cur]]; int i = std::find(k.begin(), k.end(), cur) - k.begin() + d; return i < 0 || i >= (int)k.size() ? -1 : k[i]; };
  auto vis = [&](int i) { return i == 0 && !v.rootOk ? -1 : i; };
  switch (op) { case 0: return cur == 0 ? -1 : vis(v.par[cur]); case 1: return v.kid[cur].empty() ? -1 : v.kid[cur][0]; case 2: return v.kid[cur].empty() ? -1 : v.kid[cur].back(); case 3: return sib(-1); case 4: return sib(1);
    case 5: return cur == 0 ? -1 : vis(cur - 1); default: return cur + 1 < (int)v.n.size() ? cur + 1 : -1; }
}
static N go(W& w, int op) { switch (op) { case 0: return w.parentNode(); case 1: return w.firstChild(); case 2: return w.lastChild(); case 3: return w.previousSibling(); case 4: return w.nextSibling(); case 5: return w.previousNode(); default: return w.nextNode(); } }
static void all(mc::Ctx& c, W& w, const View& v, const S& what) {
  c.transition();
  for (size_t i = 0; i < v.n.size(); ++i) for (int op = 0; op < 7; ++op) {
    w.setCurrentNode(v.n[i]); N r = go(w, op); int e = want(v, i, op); N en = e < 0 ? N() : v.n[e];
    if (!(r == en)) c.fail(S(OPN[op]), what + ": from view node " + std::to_string(i) + " got " + (r == 0 ? S("null") : dump(r, false)) + " expected " + (en == 0 ? S("null") : dump(en, false)));
    if (!(w.getCurrentNode() == (e < 0 ? v.n[i] : en))) c.fail(S(OPN[op]) + "-current", what);
  }
  // full walks
  w.setCurrentNode(w.getRoot()); std::vector<N> fw, bw; for (int g = 0; g < 100; ++g) { N r = w.nextNode(); if (r == 0) break; fw.push_back(r); } 
  for (int g = 0; g < 100; ++g) { N r = w.previousNode(); if (r == 0) break; bw.push_back(r); }
  if (fw.size() != v.n.size() - 1) c.fail("forward-walk", what + " visited " + std::to_string(fw.size()) + " of " + std::to_string(v.n.size() - 1));
  else { for (size_t i = 0; i < fw.size(); ++i) if (!(fw[i] == v.n[i + 1])) c.fail("forward-walk", what); std::vector<N> e; if (!fw.empty()) { for (size_t i = fw.size() - 1; i-- > 0;) e.push_back(fw[i]); if (v.rootOk) e.push_back(v.n[0]); } if (!(e == bw)) c.fail("backward-walk", what); }
}
// ordered trees of k nodes: parent of node i is chosen on the rightmost path
static void shapes(mc::Ctx& c) {
  Doc d = newDoc(); int n = 2 + c.choose(c.bound(5, 6)); std::vector<N> nodes; S desc; El r = d.createElement("n0"); El outer = d.createElement("outer"); outer.appendChild(d.createElement("left")); outer.appendChild(r); outer.appendChild(d.createElement("right")); nodes.push_back(r); std::vector<int> path = {0}, lev(n, 0);
  for (int i = 1; i < n; ++i) { int p = c.choose((int)path.size()); path.resize(p + 1); N x = d.createElement("n" + std::to_string(i)); nodes[path[p]].appendChild(x); desc += std::to_string(path[p]); nodes.push_back(x); path.push_back(i); }
  Filt f; S fd; for (int i = 0; i < n; ++i) { int q = c.choose(3); f.d["n" + std::to_string(i)] = q; fd += "ASR"[q]; }
  c.note("parents " + desc + " filter " + fd); c.state(desc + fd);
  TR::DocumentTraversal<S> t = d.createDocumentTraversal(); W w = t.createTreeWalker(r, 0xffffffff, f, true); all(c, w, view(r, 0xffffffff, &f, true), "tree " + desc + " filter " + fd);
}
// node kinds, every whatToShow combination of the kinds present, no filter / text-skipping filter
static void masks(mc::Ctx& c) {
  Doc d = newDoc(); El r = d.createElement("r"); int n = 1 + c.choose(c.bound(3, 4)); S desc;
  N at = r; for (int i = 0; i < n; ++i) { int k = c.choose(7); N x; switch (k) { case 0: x = d.createTextNode("t"); break; case 1: x = d.createComment("c"); break; case 2: x = d.createCDATASection("d"); break; case 3: x = d.createProcessingInstruction("p", "q"); break; case 4: x = d.createEntityReference("er"); break; case 5: x = d.createElement("e"); break; default: if (at == r) c.prune(); at = at.getParentNode(); x = d.createElement("f"); }
    desc += "tcdpref"[k]; at.appendChild(x); if (k == 5) at = x; }
  static const unsigned bits[] = {1, 4, 8, 16, 64, 128}; unsigned long show = 0; int m = c.choose(64); for (int i = 0; i < 6; ++i) if (m >> i & 1) show |= bits[i] == 1 ? 1ul : 0; 
  show = 0; static const int types[] = {1, 3, 4, 5, 7, 8}; for (int i = 0; i < 6; ++i) if (m >> i & 1) show |= 1ul << (types[i] - 1);
  c.note(desc + " show " + std::to_string(show)); c.state(desc + std::to_string(show)); bool ex = c.flip();
  TR::DocumentTraversal<S> t = d.createDocumentTraversal(); W w = t.createTreeWalker(r, show, ex); all(c, w, view(r, show, nullptr, ex), desc + " whatToShow " + std::to_string(show));
}
// walks on a document with entity references, rooted at every node
static void entities(mc::Ctx& c) {
  static const std::vector<S> docs = {"<!DOCTYPE r [<!ENTITY e 'x<i>y</i>z'>]><r><a>&e;</a>&e;<b/></r>", "<!DOCTYPE r [<!ENTITY e '<i/>'>]><!--c--><r>&e;<a>&e;</a></r><?p q?>"};
  Arabica::SAX2DOM::Parser<S> p; std::istringstream ss(c.pick(docs)); Arabica::SAX::InputSource<S> is(ss); p.parse(is); Doc d = p.getDocument(); std::vector<N> v; std::function<void(N)> rec = [&](N n) { v.push_back(n); for (N k = n.getFirstChild(); !(k == 0); k = k.getNextSibling()) rec(k); }; rec(d);
  int root = c.choose((int)v.size()); bool ex = c.flip(); static const std::vector<unsigned long> sh = {0xffffffff, 1, 1 | 4, 4, 16, 0xffffffff & ~16ul, 0xffffffff & ~1ul}; unsigned long show = c.pick(sh); Filt f; S fd; for (auto nm : {"a", "i", "e", "r"}) { int q = c.choose(3); f.d[nm] = q; fd += "ASR"[q]; }
  c.note("root " + std::to_string(root) + " expand " + std::to_string(ex) + " show " + std::to_string(show) + " filter " + fd); c.state(std::to_string(root) + fd + std::to_string(show));
  TR::DocumentTraversal<S> t = d.createDocumentTraversal(); W w = t.createTreeWalker(v[root], show, f, ex); all(c, w, view(v[root], show, &f, ex), "entities root " + std::to_string(root) + " filter " + fd + " show " + std::to_string(show) + " expand " + std::to_string(ex));
}
// walking while the tree changes: every short interleaving of navigation and mutation
static void mutation(mc::Ctx& c) {
  Doc d = newDoc(); El r = d.createElement("n0"), a = d.createElement("n1"), b = d.createElement("n2"), x = d.createElement("n3"); r.appendChild(a); a.appendChild(b); Filt f; f.d["n1"] = c.choose(3);
  TR::DocumentTraversal<S> t = d.createDocumentTraversal(); W w = t.createTreeWalker(r, 0xffffffff, f, true); int depth = c.bound(4, 5);
  for (int i = 0; i < depth; ++i) {
    int k = c.choose(10); 
    if (k < 7) { View v = view(r, 0xffffffff, &f, true); int cur = -1; for (size_t q = 0; q < v.n.size(); ++q) if (v.n[q] == w.getCurrentNode()) cur = q; if (cur < 0) c.prune(); c.note(OPN[k]); N g = go(w, k); int e = want(v, cur, k); if (!(g == (e < 0 ? N() : v.n[e]))) c.fail_stop(S("mutating-") + OPN[k], ""); }
    else if (k == 7) { c.note("r.append x"); r.appendChild(x); } else if (k == 8) { c.note("a.append x"); a.appendChild(x); } else { c.note("remove b"); if (b.getParentNode() == 0) c.prune(); b.getParentNode().removeChild(b); }
    c.transition();
  }
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"shapes", shapes}, {"masks", masks}, {"entities", entities}, {"mutation", mutation}}); }
