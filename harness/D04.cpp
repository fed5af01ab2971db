// D04: live lists and document-wide lookups answer for the current document.
#include "dom_tree.hpp"
#include <DOM/SAX2DOM/SAX2DOM.hpp>
#include <sstream>
typedef Arabica::DOM::NodeList<S> NL;
struct Q { bool ns; S a, b; };
static const std::vector<Q> QS = {{false,"","x"},{false,"","y"},{false,"","*"},{false,"","p:x"},{false,"","q:x"},{true,"u","x"},{true,"*","x"},{true,"u","*"},{true,"*","*"},{true,"","*"},{true,"v","x"},{true,"","y"}};
static bool match(const Q& q, const S& nm) {
  size_t i = nm.find(':'); S ns = i == S::npos ? "" : "u", l = i == S::npos ? "" : nm.substr(i + 1);
  if (!q.ns) return q.b == "*" || q.b == nm;
  return (q.a == "*" || q.a == ns) && (q.b == "*" || q.b == l);
}
struct Lists {
  std::vector<std::vector<NL>> l; std::vector<NL> kids;
  explicit Lists(Pool& p) {
    l.resize(p.n.size()); kids.resize(p.n.size());
    for (size_t i = 0; i < p.n.size(); ++i) { kids[i] = p.n[i].getChildNodes();
      if (p.sp[i].k == DOC) for (auto& q : QS) l[i].push_back(q.ns ? p.docs[i].getElementsByTagNameNS(q.a, q.b) : p.docs[i].getElementsByTagName(q.b));
      else if (p.sp[i].k == ELT) { El e(p.n[i]); for (auto& q : QS) l[i].push_back(q.ns ? e.getElementsByTagNameNS(q.a, q.b) : e.getElementsByTagName(q.b)); } }
  }
};
static void desc(const Forest& f, const std::vector<Spec>& sp, int n, std::vector<int>& o) { for (int c : f.kid[n]) if (sp[c].k == ELT) { o.push_back(c); desc(f, sp, c, o); } }
static void verify(mc::Ctx& c, Pool& p, const Model& m, Lists& L, int order, const std::vector<S>& nm, const S& when) {
  for (size_t i = 0; i < p.n.size(); ++i) {
    std::vector<int> d; desc(m.f, p.sp, i, d);
    for (size_t q = 0; q < L.l[i].size(); ++q) {
      std::vector<int> e; for (int x : d) if (match(QS[q], nm[x])) e.push_back(x);
      NL& l = L.l[i][q]; S w = when + " " + nm[i] + "#" + std::to_string(i) + (QS[q].ns ? ".byNS(" + QS[q].a + "," + QS[q].b + ")" : ".byTag(" + QS[q].b + ")");
      if (order == 0 && l.getLength() != e.size()) c.fail_stop("length", w + " in " + m.f.str(p.sp) + " is " + std::to_string(l.getLength()) + " expected " + std::to_string(e.size()));
      for (size_t k = e.size() + 1; k-- > 0;) { N n = l.item(k); if (!(n == (k < e.size() ? p.n[e[k]] : N()))) c.fail_stop("item", w + ".item(" + std::to_string(k) + ") in " + m.f.str(p.sp)); }
      if (l.getLength() != e.size()) c.fail_stop("length", w);
    }
    auto& ks = m.f.kid[i]; NL& l = L.kids[i]; if (!m.container(i)) continue;
    if (l.getLength() != ks.size()) c.fail_stop("childNodes-length", when);
    for (size_t k = 0; k <= ks.size(); ++k) if (!(l.item(k) == (k < ks.size() ? p.n[ks[k]] : N()))) c.fail_stop("childNodes-item", when);
  }
}
static const std::vector<Spec> A = {{DOC,0,"doc"},{ELT,0,"x"},{ELT,0,"y"},{ELT,0,"p:x"},{TXT,0,"t"},{FRAG,0,"frag"}};
static std::vector<S> names(const std::vector<Spec>& sp) { std::vector<S> r; for (auto& s : sp) r.push_back(s.nm); return r; }
static void graph(mc::Ctx& c) {
  static Graph* g = nullptr; if (!g) g = new Graph(A, allOps(A, false), c.bound(5, 9), c.thorough() ? 100000 : 20000);
  int si = c.choose((int)g->st.size()), oi = c.choose((int)g->ops.size() + 1); int order = c.choose(2);
  Model m(A); { Model t(A); t.f = g->st[si]; if (oi < (int)g->ops.size() && !t.apply(g->ops[oi]).empty()) c.prune(); }
  Pool p(A); N r; Lists early(p); auto nm = names(A);
  for (auto& o : g->path[si]) { c.note(opstr(o, A)); m.apply(o); p.apply(o, r); c.transition(); }
  c.state(m.f.str(A)); Lists mid(p);
  if (order) verify(c, p, m, early, 0, nm, "before op, early list");
  if (oi < (int)g->ops.size()) { auto& o = g->ops[oi]; c.note(opstr(o, A)); m.apply(o); p.apply(o, r); }
  else { c.note("p:x.setPrefix(q)"); p.n[3].setPrefix("q"); nm[3] = "q:x"; }
  c.transition();
  verify(c, p, m, early, order, nm, "early list"); verify(c, p, m, mid, 1 - order, nm, "list taken before the op"); Lists late(p); verify(c, p, m, late, order, nm, "fresh list");
  c.outcome(m.f.str(A) + nm[3]);
}
// interleavings of mutation and query: a list queried or not at every step
static const std::vector<Spec> H = {{DOC,0,"doc"},{ELT,0,"x"},{ELT,0,"p:x"},{ELT,0,"x"}};
static void hist(mc::Ctx& c) {
  static std::vector<Op> ops = allOps(H, false); static std::map<Forest, std::vector<int>> legal;
  Model m(H); Pool p(H); Lists L(p); int depth = c.bound(4, 5); auto nm = names(H);
  for (int i = 0; i < depth; ++i) {
    auto& l = legal[m.f]; if (l.empty()) for (size_t k = 0; k < ops.size(); ++k) { Model t(H); t.f = m.f; if (t.apply(ops[k]).empty() && !(t.f.kid == m.f.kid)) l.push_back(k); }
    auto& o = ops[l[c.choose((int)l.size())]]; c.note(opstr(o, H)); N r; m.apply(o); p.apply(o, r); c.transition(); c.state("h" + m.f.str(H));
    int q = i + 1 == depth ? c.choose(2) : 2 - c.choose(2) * 2;      // 2 = leave the list unqueried in this state
    if (q < 2) verify(c, p, m, L, q, nm, "list held since the start");
  }
}
// getElementById
static void ids(mc::Ctx& c) {
  static const char* src = "<!DOCTYPE r [<!ATTLIST e id ID #IMPLIED><!ATTLIST r id ID #IMPLIED>]><r><e id='a'><e id='b'/></e><e/></r>";
  Arabica::SAX2DOM::Parser<S> parser; std::istringstream ss(src); Arabica::SAX::InputSource<S> is(ss); parser.parse(is); Doc d = parser.getDocument();
  std::vector<El> e; e.push_back(d.getDocumentElement()); e.push_back(El(e[0].getFirstChild())); e.push_back(El(e[1].getFirstChild())); e.push_back(El(e[0].getLastChild()));
  std::vector<S> id = {"", "a", "b", ""}; std::vector<int> par = {-2, 0, 1, 0};   // -2 document, -1 detached
  std::vector<At> detached; std::vector<S> dval;
  auto attached = [&](int i) { while (i >= 0) i = par[i]; return i == -2; };
  auto chk = [&](const S& w) { for (const char* v : {"a", "b", "c"}) { El r = d.getElementById(v); std::set<int> ok; for (int i = 0; i < 4; ++i) if (id[i] == v && attached(i)) ok.insert(i);
    if (ok.empty()) { if (!(r == 0)) c.fail_stop("stale-id", w + ": getElementById(" + v + ") found an element that is not in the document or no longer has that id"); }
    else { bool f = false; for (int i : ok) f |= r == e[i]; if (!f) c.fail_stop("id-not-found", w + ": getElementById(" + v + ")"); } } };
  chk("after parse"); int depth = c.bound(3, 4);
  for (int s = 0; s < depth; ++s) {
    int k = c.choose(6); S w;
    switch (k) {
      case 0: { int i = c.choose(4), v = c.choose(3); S val = v == 0 ? "a" : v == 1 ? "b" : "c"; e[i].setAttribute("id", val); id[i] = val; w = "setAttribute(" + std::to_string(i) + "," + val + ")"; break; }
      case 1: { int i = c.choose(4); if (id[i].empty()) c.prune(); e[i].removeAttribute("id"); id[i] = ""; w = "removeAttribute(" + std::to_string(i) + ")"; break; }
      case 2: { int i = 1 + c.choose(3); if (par[i] == -1) c.prune(); e[i].getParentNode().removeChild(e[i]); par[i] = -1; w = "remove(" + std::to_string(i) + ")"; break; }
      case 3: { int i = 1 + c.choose(3), t = c.choose(4); for (int q = t; q >= 0; q = par[q]) if (q == i) c.prune(); e[t].appendChild(e[i]); par[i] = t; w = "append(" + std::to_string(t) + "," + std::to_string(i) + ")"; break; }
      case 4: { int i = 1 + c.choose(2), t = c.choose(4); if (id[i].empty() || i == t) c.prune(); At a = e[i].getAttributeNode("id"); e[i].removeAttributeNode(a); e[t].setAttributeNode(a); id[t] = id[i]; id[i] = ""; w = "moveAttr(" + std::to_string(i) + "->" + std::to_string(t) + ")"; break; }
      case 5: { int i = 1 + c.choose(2); if (id[i].empty()) c.prune(); e[i].getAttributeNode("id").setValue("c"); id[i] = "c"; w = "attr.setValue(c)"; break; }
    }
    c.note(w); c.transition(); chk(w); S st; for (int i = 0; i < 4; ++i) st += id[i] + std::to_string(par[i]) + ","; c.state(st);
  }
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"state-graph", graph}, {"histories", hist}, {"ids", ids}}); }
