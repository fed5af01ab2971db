// D02: every rejected DOM call raises a code DOM allows for its faults and changes nothing.
#include "dom_tree.hpp"
static const std::vector<Spec> A = {{DOC,0,"doc"},{ELT,0,"e1"},{ELT,0,"e2"},{TXT,0,"t1"},{FRAG,0,"frag"},{ATT,0,"a1"},{DOC,6,"docB"},{ELT,6,"b1"}};
static const std::vector<Spec> B = {{DOC,0,"doc"},{ELT,0,"e1"},{COM,0,"c1"},{PI,0,"p1"},{CDA,0,"d1"},{EREF,0,"er"},{FRAG,0,"frag"},{DTYPE,-1,"dt"},{TXT,0,"t1"}};
static const std::vector<Spec> C = {{DOC,0,"doc"},{ELT,0,"e1"},{ELT,0,"e2"},{TXT,0,"t1"},{FRAG,0,"frag"},{COM,0,"c1"},{DOC,6,"docB"},{FRAG,6,"fragB"},{ELT,6,"b1"}};
static const std::vector<Spec> D = {{DOC,0,"doc"},{ELT,0,"e1"},{ELT,0,"e2"},{ELT,0,"e3"},{FRAG,0,"frag"},{TXT,0,"t1"}};

static mc::Body graph(const std::vector<Spec>& sp, size_t dq, size_t dt) {
  return [&sp, dq, dt](mc::Ctx& c) {
    static std::map<const void*, Graph*> cache; Graph*& g = cache[&sp];
    static std::map<const void*, std::vector<Op>> all; std::vector<Op>& ops = all[&sp];
    if (!g) { g = new Graph(sp, allOps(sp, false), c.thorough() ? dt : dq, c.thorough() ? 60000 : 6000); ops = allOps(sp, true); }
    int si = c.choose((int)g->st.size()); int oi = c.choose((int)ops.size());
    Model m(sp); 
    { Model t(sp); t.f = g->st[si]; if (t.apply(ops[oi]).empty()) c.prune(); }
    Pool p(sp); N r;
    for (auto& o : g->path[si]) { c.note(opstr(o, sp)); m.apply(o); p.apply(o, r); c.transition(); }
    c.state(g->st[si].str(sp));
    c.note(opstr(ops[oi], sp));
    step(c, p, m, ops[oi], 2);
    c.outcome(opstr(ops[oi], sp));
  };
}
// rejected call in the middle of a history: later accepted calls still behave as the model says
static const std::vector<Spec> H = {{DOC,0,"doc"},{ELT,0,"e1"},{ELT,0,"e2"},{FRAG,0,"frag"},{TXT,0,"t1"}};
static void mixed(mc::Ctx& c) {
  static std::vector<Op> ops = allOps(H, false); static std::map<Forest, std::pair<std::vector<int>, std::vector<int>>> cls;
  Model m(H); Pool p(H); int rejectAt = c.bound(2, 3);
  for (int i = 0; i <= rejectAt + 1; ++i) {
    auto& l = cls[m.f];
    if (l.first.empty() && l.second.empty()) for (size_t k = 0; k < ops.size(); ++k) { Model t(H); t.f = m.f; (t.apply(ops[k]).empty() ? l.first : l.second).push_back((int)k); }
    const std::vector<int>& v = i == rejectAt ? l.second : l.first;
    const Op& o = ops[v[c.choose((int)v.size())]]; c.note(opstr(o, H));
    step(c, p, m, o, i > rejectAt ? 3 : 2); c.state("m" + m.f.str(H));
  }
}
// names, offsets and attribute misuse: the non-tree rejections
static void misc(mc::Ctx& c) {
  Arabica::DOM::DOMImplementation<S> im = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  Doc d = im.createDocument("", "", Arabica::DOM::DocumentType<S>()), d2 = im.createDocument("", "", Arabica::DOM::DocumentType<S>());
  El e = d.createElement("e"), e2 = d.createElement("e2"), f = d2.createElement("f");
  e.setAttribute("a", "v"); e2.setAttribute("b", "w");
  At ae = e.getAttributeNode("a"), be = e2.getAttributeNode("b"); At free_ = d.createAttribute("c"); At af = d2.createAttribute("a");
  auto snap = [&]() { std::string r; for (El* x : {&e, &e2, &f}) { for (unsigned i = 0; i < x->getAttributes().getLength(); ++i) { N n = x->getAttributes().item(i); At a(n); r += n.getNodeName() + "=" + n.getNodeValue() + (a.getOwnerElement() == *x ? "" : "!") + " "; } r += "|"; } r += free_.getOwnerElement() == 0 ? "-" : "!"; r += af.getOwnerElement() == 0 ? "-" : "!"; return r; };
  std::string before = snap(); int code = 0; std::set<int> exp; std::string w;
  static const std::vector<std::string> bad = {"", "<", "a b", "a<b", "&", " ", "\t", "a>", "a\"", "a/b", "a=", "a(", "a,"};
  int k = c.choose(12);
  auto run = [&](std::function<void()> op) { try { op(); } catch (const DE& x) { code = x.code(); } };
  switch (k) {
    case 0: { auto& n = c.pick(bad); int q = c.choose(7); w = "create" + std::to_string(q) + "(" + n + ")"; exp = {5};
      run([&]() { switch (q) { case 0: d.createElement(n); break; case 1: d.createAttribute(n); break; case 2: d.createProcessingInstruction(n, "x"); break; case 3: d.createEntityReference(n); break; case 4: d.createElementNS("u", n); break; case 5: d.createAttributeNS("u", n); break; default: e.setAttribute(n, "x"); } }); if (q == 4 || q == 5) exp.insert(14); break; }
    case 1: w = "setAttributeNode(owned by another)"; exp = {10}; run([&]() { e.setAttributeNode(be); }); break;
    case 2: w = "setAttributeNode(other document)"; exp = {4}; run([&]() { e.setAttributeNode(af); }); break;
    case 3: w = "removeAttributeNode(not mine)"; exp = {8}; run([&]() { e.removeAttributeNode(be); }); break;
    case 4: w = "removeAttributeNode(free)"; exp = {8}; run([&]() { e.removeAttributeNode(free_); }); break;
    case 5: w = "removeNamedItem(missing)"; exp = {8}; run([&]() { NM(e.getAttributes()).removeNamedItem("zz"); }); break;
    case 6: w = "removeNamedItemNS(missing)"; exp = {8}; run([&]() { NM(e.getAttributes()).removeNamedItemNS("u", "zz"); }); break;
    case 7: w = "setNamedItem(owned)"; exp = {10}; run([&]() { NM(e.getAttributes()).setNamedItem(be); }); break;
    case 8: w = "setNamedItem(other document)"; exp = {4}; run([&]() { NM(e.getAttributes()).setNamedItem(af); }); break;
    case 9: w = "setNamedItem(non-attr)"; exp = {3}; run([&]() { N n = d.createElement("q"); NM(e.getAttributes()).setNamedItem(n); }); break;
    case 10: w = "importNode(document)"; exp = {9}; run([&]() { d.importNode(d2, c.flip()); }); break;
    case 11: w = "setAttributeNodeNS(owned/other document)"; { bool o = c.flip(); exp = {o ? 10 : 4}; run([&]() { e.setAttributeNodeNS(o ? be : af); }); } break;
  }
  c.note(w); c.transition(); c.state(w);
  std::string es; for (int x : exp) es += std::to_string(x) + " ";
  if (!exp.count(code)) c.fail(code ? "misc-wrong-code" : "misc-accepted", w + " gave " + std::to_string(code) + " expected " + es);
  if (snap() != before) c.fail("misc-changed", w + ": " + before + " -> " + snap());
}
// character data index errors
static void chardata(mc::Ctx& c) {
  Arabica::DOM::DOMImplementation<S> im = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
  Doc d = im.createDocument("", "", Arabica::DOM::DocumentType<S>());
  int kind = c.choose(3); static const std::vector<std::string> data = {"", "a", "ab", "abc"};
  std::string s = c.pick(data); Arabica::DOM::CharacterData<S> n = kind == 0 ? Arabica::DOM::CharacterData<S>(d.createTextNode(s)) : kind == 1 ? Arabica::DOM::CharacterData<S>(d.createComment(s)) : Arabica::DOM::CharacterData<S>(d.createCDATASection(s));
  static const std::vector<int> off = {-2147483647 - 1, -2, -1, 0, 1, 2, 3, 4, 5, 2147483647}; static const std::vector<int> cnt = {-2147483647 - 1, -1, 0, 1, 3, 2147483647};
  int o = c.pick(off), k = c.choose(5), ct = k == 1 || k == 4 ? 0 : c.pick(cnt);
  bool badO = o < 0 || o > (int)s.size(), badC = (k == 0 || k == 2 || k == 3) && ct < 0;
  if (!badO && !badC) c.prune();
  if (k == 4 && kind == 1) c.prune();
  int code = 0;
  try { switch (k) { case 0: n.substringData(o, ct); break; case 1: n.insertData(o, "XY"); break; case 2: n.deleteData(o, ct); break; case 3: n.replaceData(o, ct, "XY"); break;
    case 4: { Arabica::DOM::Text<S> t((N(n))); t.splitText(o); } } } catch (const DE& e) { code = e.code(); }
  std::string w = std::string("op") + std::to_string(k) + " kind " + std::to_string(kind) + " data '" + s + "' offset " + std::to_string(o) + " count " + std::to_string(ct);
  c.note(w); c.transition(); c.state(w);
  if (code != 1) c.fail("index-error", w + " gave " + std::to_string(code));
  if (n.getData() != s) c.fail("index-error-changed", w + " left '" + n.getData() + "'");
}
int main(int argc, char** argv) {
  return mc::run(argc, argv, {{"two-documents", graph(A, 3, 5)}, {"all-kinds", graph(B, 3, 4)}, {"foreign-fragment", graph(C, 3, 4)}, {"deep-cycles", graph(D, 5, 7)}, {"mixed-history", mixed}, {"misc", misc}, {"chardata-index", chardata}});
}
