// D01: tree structure after any sequence of accepted operations == ordered forest model.
#include "dom_tree.hpp"
static const std::vector<Spec> A = {{DOC,0,"doc"},{ELT,0,"e1"},{ELT,0,"e2"},{TXT,0,"t1"},{COM,0,"c1"},{FRAG,0,"frag"},{TXT,0,"t2"}};
static const std::vector<Spec> B = {{DOC,0,"doc"},{ELT,0,"e1"},{ELT,0,"e2"},{ELT,0,"e3"},{PI,0,"p1"},{FRAG,0,"frag"}};
static const std::vector<Spec> D = {{DOC,0,"doc"},{ELT,0,"e1"},{DTYPE,-1,"dt"},{COM,0,"c1"},{PI,0,"p1"},{FRAG,0,"frag"},{ELT,0,"e2"}};
static const std::vector<Spec> C = {{DOC,0,"doc"},{ELT,0,"e1"},{ATT,0,"a1"},{TXT,0,"t1"},{TXT,0,"t2"},{CDA,0,"d1"},{FRAG,0,"frag"}};

static mc::Body graph(const std::vector<Spec>& sp, size_t depthQ, size_t depthT) {
  return [&sp, depthQ, depthT](mc::Ctx& c) {
    static std::map<const void*, Graph*> cache; Graph*& g = cache[&sp];
    if (!g) g = new Graph(sp, allOps(sp, false), c.thorough() ? depthT : depthQ, c.thorough() ? 120000 : 12000);
    int si = c.choose((int)g->st.size()); int oi = c.choose((int)g->ops.size());
    Model m(sp); Pool p(sp); N r;
    { Model t(sp); t.f = g->st[si]; if (!t.apply(g->ops[oi]).empty()) c.prune(); }     // only accepted operations here
    for (auto& o : g->path[si]) { c.note(opstr(o, sp)); m.apply(o); p.apply(o, r); c.transition(); }
    c.state(g->st[si].str(sp));
    c.note(opstr(g->ops[oi], sp));
    step(c, p, m, g->ops[oi], 1);
    c.outcome(m.f.str(sp));
  };
}
// stateless histories: no state merging, every accepted operation sequence up to a depth, model compared after each step
static const std::vector<Spec> H = {{DOC,0,"doc"},{ELT,0,"e1"},{ELT,0,"e2"},{TXT,0,"t1"},{FRAG,0,"frag"}};
static void hist(mc::Ctx& c) {
  static std::vector<Op> ops = allOps(H, false);
  static std::map<Forest, std::vector<int>> legal;
  int depth = c.bound(4, 5);
  Model m(H); Pool p(H);
  for (int i = 0; i < depth; ++i) {
    std::vector<int>& l = legal[m.f];
    if (l.empty()) for (size_t k = 0; k < ops.size(); ++k) { Model t(H); t.f = m.f; if (t.apply(ops[k]).empty() && !(t.f.kid == m.f.kid)) l.push_back((int)k); }
    const Op& o = ops[l[c.choose((int)l.size())]];
    c.note(opstr(o, H));
    step(c, p, m, o, 1); c.state("H" + m.f.str(H));
  }
}
int main(int argc, char** argv) {
  return mc::run(argc, argv, {{"elements-text-fragment", graph(A, 5, 9)}, {"three-elements", graph(B, 6, 9)}, {"document-children", graph(D, 6, 9)}, {"attribute-children", graph(C, 5, 8)}, {"histories", hist}});
}
