// Reference model of an ordered DOM forest and its binding to the real DOM.
#pragma once
#include <mc.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
#include <DOM/Document.hpp>
#include <DOM/Node.hpp>
#include <DOM/DOMException.hpp>
#include <deque>
typedef std::string S;
typedef Arabica::DOM::Node<S> N;
typedef Arabica::DOM::Document<S> Doc;
typedef Arabica::DOM::Element<S> El;
typedef Arabica::DOM::Attr<S> At;
typedef Arabica::DOM::NamedNodeMap<S> NM;
typedef Arabica::DOM::DOMException DE;
typedef Arabica::DOM::Node_base NB;

enum K { DOC, ELT, TXT, COM, PI, CDA, FRAG, ATT, EREF, DTYPE };
static const char* kname[] = {"doc","elt","txt","com","pi","cda","frag","att","eref","dtype"};

struct Spec { K k; int doc; const char* nm; };      // pool entry: kind, owner document index (into pool)

struct Forest {
  std::vector<int> par; std::vector<std::vector<int>> kid;
  bool operator<(const Forest& o) const { return kid < o.kid; }
  std::string str(const std::vector<Spec>& sp) const {
    std::string r; for (size_t i = 0; i < kid.size(); ++i) if (!kid[i].empty()) { r += sp[i].nm; r += "["; for (int c : kid[i]) { r += sp[c].nm; r += " "; } r.back() = ']'; r += " "; }
    return r.empty() ? "(empty)" : r;
  }
};
enum OpK { APP, INS, REP, REM, PURGE };
struct Op { OpK k; int p, x, r; };

inline std::string opstr(const Op& o, const std::vector<Spec>& s) {
  std::string p = s[o.p].nm, x = s[o.x].nm, r = o.r >= 0 ? s[o.r].nm : "null";
  switch (o.k) { case APP: return p + ".appendChild(" + x + ")"; case INS: return p + ".insertBefore(" + x + "," + r + ")";
    case REP: return p + ".replaceChild(" + x + "," + r + ")"; case REM: return p + ".removeChild(" + x + ")"; default: return p + ".purgeChild(" + x + ")"; }
}

enum { HIER = 3, WRONGDOC = 4, NOMOD = 7, NOTFOUND = 8, NOTSUPP = 9 };

struct Model {
  const std::vector<Spec>& sp;
  Forest f;
  explicit Model(const std::vector<Spec>& s) : sp(s) { f.par.assign(s.size(), -1); f.kid.resize(s.size()); }
  bool allowed(int p, int x) const {
    K a = sp[p].k, b = sp[x].k;
    if (b == DOC || b == ATT) return false;
    switch (a) {
      case DOC: return b == ELT || b == COM || b == PI || b == DTYPE;
      case ELT: case FRAG: return b == ELT || b == COM || b == PI || b == TXT || b == CDA || b == EREF;
      case ATT: return b == TXT || b == EREF;
      default: return false;
    }
  }
  bool container(int p) const { K a = sp[p].k; return a == DOC || a == ELT || a == FRAG || a == ATT || a == EREF; }
  int docElem(int d) const { for (int c : f.kid[d]) if (sp[c].k == ELT) return c; return -1; }
  int docType(int d) const { for (int c : f.kid[d]) if (sp[c].k == DTYPE) return c; return -1; }
  bool isChild(int p, int x) const { return f.par[x] == p; }
  void addable(int p, int x, int old, std::set<int>& e) const {
    bool dtFree = sp[x].k == DTYPE && sp[x].doc < 0;
    if (!dtFree && sp[x].doc != sp[p].doc) e.insert(WRONGDOC);
    for (int n = p; n >= 0; n = f.par[n]) if (n == x) e.insert(HIER);
    if (sp[x].k == FRAG) {
      int elts = 0;
      for (int c : f.kid[x]) { if (!allowed(p, c)) e.insert(HIER); if (sp[c].k == ELT) ++elts; }
      if (sp[p].k == DOC && docElem(p) != -1 && docElem(p) != old && elts) e.insert(HIER);
      if (sp[p].k == DOC && elts > 1) e.insert(HIER);
      return;
    }
    if (!allowed(p, x)) e.insert(HIER);
    if (sp[p].k == DOC && sp[x].k == ELT) { int d = docElem(p); if (d != -1 && d != x && d != old) e.insert(HIER); }
    if (sp[p].k == DOC && sp[x].k == DTYPE) { int d = docType(p); if (d != -1 && d != x) e.insert(HIER); }
  }
  void detach(int x) { int p = f.par[x]; if (p < 0) return; auto& k = f.kid[p]; k.erase(std::find(k.begin(), k.end(), x)); f.par[x] = -1; }
  void put(int p, int x, int r) {       // r: before r, or -1
    detach(x); auto& k = f.kid[p]; k.insert(r < 0 ? k.end() : std::find(k.begin(), k.end(), r), x); f.par[x] = p;
  }
  // codes the operation may raise; empty = must succeed (and is applied)
  std::set<int> apply(const Op& o) {
    std::set<int> e;
    bool ro = sp[o.p].k == EREF;
    if (ro) e.insert(NOMOD);
    if (o.k == REM || o.k == PURGE) {
      if (!isChild(o.p, o.x)) { e.insert(NOTFOUND); if (!container(o.p)) e.insert(HIER); }
      else if (sp[o.x].k == DTYPE) { e.insert(HIER); e.insert(NOTSUPP); }
      if (e.empty()) detach(o.x);
      return e;
    }
    if (!container(o.p)) e.insert(HIER);
    addable(o.p, o.x, o.k == REP ? o.r : -1, e);
    if (o.r >= 0 && !isChild(o.p, o.r)) e.insert(NOTFOUND);
    if (sp[o.x].k == DTYPE && f.par[o.x] >= 0 && !(isChild(o.p, o.x) && o.r == o.x)) { e.insert(HIER); e.insert(NOTSUPP); }   // a doctype cannot be moved
    if (o.k == REP && o.r >= 0 && sp[o.r].k == DTYPE) { e.insert(HIER); e.insert(NOTSUPP); }
    if (!e.empty()) return e;
    if (o.k == REP) {
      if (o.x == o.r) return e;
      if (sp[o.x].k == FRAG) { auto ks = f.kid[o.x]; for (int c : ks) put(o.p, c, o.r); detach(o.r); return e; }
      if (o.x != o.r) { put(o.p, o.x, o.r); detach(o.r); }
      return e;
    }
    if (sp[o.x].k == FRAG) { auto ks = f.kid[o.x]; for (int c : ks) put(o.p, c, o.r); return e; }
    if (o.x == o.r) return e;
    put(o.p, o.x, o.k == APP ? -1 : o.r);
    return e;
  }
};

// pool of real nodes
struct Pool {
  const std::vector<Spec>& sp; std::vector<N> n; std::vector<Doc> docs;
  explicit Pool(const std::vector<Spec>& s) : sp(s) {
    Arabica::DOM::DOMImplementation<S> im = Arabica::SimpleDOM::DOMImplementation<S>::getDOMImplementation();
    for (size_t i = 0; i < s.size(); ++i) {
      Doc d; 
      if (s[i].k == DOC) { d = im.createDocument("", "", Arabica::DOM::DocumentType<S>()); n.push_back(d); docs.push_back(d); continue; }
      docs.push_back(Doc());
      if (s[i].doc >= 0) d = docs[s[i].doc];
      switch (s[i].k) {
        case ELT: n.push_back(strchr(s[i].nm, 58) ? d.createElementNS("u", s[i].nm) : d.createElement(s[i].nm)); break;
        case TXT: n.push_back(d.createTextNode(s[i].nm)); break;
        case COM: n.push_back(d.createComment(s[i].nm)); break;
        case PI: n.push_back(d.createProcessingInstruction("t", s[i].nm)); break;
        case CDA: n.push_back(d.createCDATASection(s[i].nm)); break;
        case FRAG: n.push_back(d.createDocumentFragment()); break;
        case ATT: n.push_back(d.createAttribute(s[i].nm)); break;
        case EREF: n.push_back(d.createEntityReference(s[i].nm)); break;
        case DTYPE: n.push_back(im.createDocumentType("r", "", "")); break;
        default: abort();
      }
    }
  }
  // returns exception code or 0; 'ret' is the returned node
  int apply(const Op& o, N& ret) {
    try {
      switch (o.k) {
        case APP: ret = n[o.p].appendChild(n[o.x]); break;
        case INS: ret = n[o.p].insertBefore(n[o.x], o.r < 0 ? N() : n[o.r]); break;
        case REP: ret = n[o.p].replaceChild(n[o.x], n[o.r]); break;
        case REM: ret = n[o.p].removeChild(n[o.x]); break;
        default: abort();
      }
    } catch (const DE& e) { return e.code(); }
    return 0;
  }
  // "" if the real forest is exactly f
  std::string diff(const Model& m) const {
    const Forest& f = m.f;
    for (size_t i = 0; i < n.size(); ++i) {
      auto at = [&](int j) { return j < 0 ? N() : n[j]; };
      std::string w = sp[i].nm;
      if (!(n[i].getParentNode() == at(f.par[i]))) return w + ".parentNode";
      if (n[i].getNodeType() != typ(sp[i].k)) return w + ".nodeType";
      const std::vector<int>& k = f.kid[i];
      if (sp[i].k == EREF) continue;
      if (!(n[i].getFirstChild() == at(k.empty() ? -1 : k[0]))) return w + ".firstChild";
      if (!(n[i].getLastChild() == at(k.empty() ? -1 : k.back()))) return w + ".lastChild";
      if (n[i].hasChildNodes() != !k.empty()) return w + ".hasChildNodes";
      int ps = -1, ns = -1;
      if (f.par[i] >= 0) { const std::vector<int>& s = f.kid[f.par[i]]; size_t q = std::find(s.begin(), s.end(), (int)i) - s.begin(); if (q) ps = s[q - 1]; if (q + 1 < s.size()) ns = s[q + 1]; }
      if (!(n[i].getPreviousSibling() == at(ps))) return w + ".previousSibling";
      if (!(n[i].getNextSibling() == at(ns))) return w + ".nextSibling";
      if (m.container(i)) {
        Arabica::DOM::NodeList<S> l = n[i].getChildNodes();
        if (l.getLength() != k.size()) return w + ".childNodes.length";
        for (size_t q = 0; q < k.size(); ++q) if (!(l.item(q) == at(k[q]))) return w + ".childNodes.item";
        if (!(l.item(k.size()) == N())) return w + ".childNodes.item(length)";
      }
      if (sp[i].k == DOC) {
        Doc d = docs[i];
        N de = d.getDocumentElement(), dt = d.getDoctype();
        if (!(de == at(m.docElem(i)))) return w + ".documentElement";
        if (!(dt == at(m.docType(i)))) return w + ".doctype";
      } else if (sp[i].doc >= 0) { Doc od = n[i].getOwnerDocument(); if (!(N(od) == n[sp[i].doc])) return w + ".ownerDocument"; }
    }
    return "";
  }
  static NB::Type typ(K k) {
    switch (k) { case DOC: return NB::DOCUMENT_NODE; case ELT: return NB::ELEMENT_NODE; case TXT: return NB::TEXT_NODE; case COM: return NB::COMMENT_NODE; case PI: return NB::PROCESSING_INSTRUCTION_NODE;
      case CDA: return NB::CDATA_SECTION_NODE; case FRAG: return NB::DOCUMENT_FRAGMENT_NODE; case ATT: return NB::ATTRIBUTE_NODE; case EREF: return NB::ENTITY_REFERENCE_NODE; default: return NB::DOCUMENT_TYPE_NODE; }
  }
};

// model state graph: breadth-first from the all-detached forest, each state with a shortest history
struct Graph {
  std::vector<Forest> st; std::vector<std::vector<Op>> path; std::vector<Op> ops; std::map<Forest, int> ix; bool complete = true;
  Graph(const std::vector<Spec>& sp, const std::vector<Op>& o, size_t maxDepth, size_t maxStates) : ops(o) {
    Model m(sp); st.push_back(m.f); path.push_back({}); ix[m.f] = 0;
    for (size_t i = 0; i < st.size(); ++i) {
      if (path[i].size() >= maxDepth) { complete = false; continue; }
      for (auto& op : ops) {
        Model q(sp); q.f = st[i];
        if (!q.apply(op).empty()) continue;
        if (ix.count(q.f)) continue;
        if (st.size() >= maxStates) { complete = false; continue; }
        ix[q.f] = (int)st.size(); st.push_back(q.f); auto p = path[i]; p.push_back(op); path.push_back(p);
      }
    }
  }
};

inline std::vector<Op> allOps(const std::vector<Spec>& sp, bool rejectHeavy) {
  std::vector<Op> o; int n = (int)sp.size();
  auto cont = [&](int p) { K a = sp[p].k; return a == DOC || a == ELT || a == FRAG || a == ATT || a == EREF; };
  for (int p = 0; p < n; ++p) {
    if (!cont(p) && !rejectHeavy) continue;
    for (int x = 0; x < n; ++x) {
      if (!rejectHeavy && (sp[x].k == DOC)) continue;
      o.push_back({APP, p, x, -1}); o.push_back({REM, p, x, -1});
      for (int r = 0; r < n; ++r) {
        if (!rejectHeavy && (sp[r].k == DOC || sp[r].k == FRAG || r == p)) continue;
        if (r == x) continue;      // inserting a node before itself / replacing it by itself: implementation dependent in DOM
        if (rejectHeavy || true) o.push_back({INS, p, x, r});
        if (sp[p].k == DOC && sp[x].k == FRAG) continue;    // document.replaceChild(fragment,..): not part of the claim
        o.push_back({REP, p, x, r});
      }
    }
  }
  return o;
}

// one step compared with the model; kind: 1 = report accepted-operation faults, 2 = rejected-operation faults, 3 both
inline void step(mc::Ctx& c, Pool& pool, Model& m, const Op& op, int report) {
  Forest before = m.f;
  std::set<int> exp = m.apply(op);
  N ret; int code = pool.apply(op, ret); c.transition();
  std::string d = pool.diff(m);
  if (exp.empty()) {
    if (!(report & 1)) { if (code || !d.empty()) throw mc::Prune(); return; }
    if (code) c.fail_stop("legal-rejected", opstr(op, pool.sp) + " in " + before.str(pool.sp) + " threw " + std::to_string(code));
    if (!d.empty()) c.fail_stop("tree-mismatch:" + d.substr(d.find('.') + 1), opstr(op, pool.sp) + " in " + before.str(pool.sp) + " expected " + m.f.str(pool.sp) + " wrong " + d);
    N er = op.k == REP ? pool.n[op.r] : pool.n[op.x];
    if (!(ret == er)) c.fail_stop("return-value", opstr(op, pool.sp) + " in " + before.str(pool.sp));
  } else {
    if (!(report & 2)) { if (!code || !d.empty()) throw mc::Prune(); return; }
    std::string es; for (int x : exp) es += std::to_string(x) + " ";
    if (!code) c.fail_stop("illegal-accepted", opstr(op, pool.sp) + " in " + before.str(pool.sp) + " expected " + es);
    if (!exp.count(code)) c.fail("wrong-code", opstr(op, pool.sp) + " in " + before.str(pool.sp) + " threw " + std::to_string(code) + " expected " + es);
    if (!d.empty()) c.fail_stop("rejected-but-changed", opstr(op, pool.sp) + " in " + before.str(pool.sp) + " changed " + d);
  }
}
