// Reference XSLT 1.0 processor interpreting stylesheet trees directly (xml_mini trees + xpath_ref expressions).
// Covers the instruction set the library implements; raises xr::Err for static and dynamic errors.
#pragma once
#include "xml_mini.hpp"
namespace xt {
using xr::S; using xr::Node; using xr::NodeSet; using xr::Value; using xr::Err; using xr::E; using xr::Env; using xr::Tree;
static const char* const XSL = "http://www.w3.org/1999/XSL/Transform";
inline bool isX(const Node* n, const char* l = nullptr) { return n->k == xr::ELEM && n->ns == XSL && (!l || n->local == l); }
inline const S* attr(const Node* n, const char* l, const S& ns = "") { for (Node* a : n->att) if (a->local == l && a->ns == ns) return &a->val; return nullptr; }
struct Var { S name; Value v; Var* up; };
struct Level { int lo = 0, prec = 0; };
struct Rule { E pat; double prio; S mode; Level lv; int order; Node* el; };
struct Dyn { Node* n; size_t pos = 1, size = 1; const Rule* rule = nullptr; S mode; Var* vars = nullptr; };
struct Sink { Tree* t; Node* cur; bool cap = false, discard = false; S text; };
typedef std::map<S, Value> Params;
struct Proc {
  std::map<S, S> modules;            // href -> text
  Params given;                      // stylesheet parameters
  std::vector<std::unique_ptr<Tree>> trees; std::vector<std::unique_ptr<Var>> pool; std::deque<Rule> rules; std::map<S, std::pair<Node*, int>> named; std::map<S, std::pair<Node*, int>> globals; std::map<S, int> gstate; std::map<S, Value> gval; std::vector<std::pair<S, Node*>> keys; std::map<S, S> alias; std::set<std::pair<S, S>> cdata; std::map<S, S> output;
  std::map<Node*, std::unique_ptr<Env>> envs; std::map<std::pair<Node*, S>, E> cache; std::map<Node*, Tree*> owner; Node* doc = nullptr; int precs = 0, orders = 0, depth = 0; std::vector<S> messages;
  bool dynamicShadow = true;
  // ---- loading ----
  std::vector<std::pair<Node*, int>> elems; // all top-level elements with precedence (in order)
  struct Mod { std::vector<std::pair<Node*, Tree*>> imports; std::vector<Node*> body; };
  Node* parse(const S& text) { trees.emplace_back(new Tree); xm::Parse p(text, *trees.back()); for (Node* k : trees.back()->root->kid) if (k->k == xr::ELEM) { strip(k); reg(k, trees.back().get()); return k; } throw Err{"no root"}; }
  void reg(Node* n, Tree* t) { owner[n] = t; for (Node* k : n->kid) if (k->k == xr::ELEM) reg(k, t); }
  static bool blank(const S& s) { for (char c : s) if (!xr::ws(c)) return false; return true; }
  // comments and PIs do not split text in a stylesheet; whitespace-only text is removed outside xsl:text
  void strip(Node* n) { std::vector<Node*> r; for (Node* k : n->kid) { if (k->k == xr::COMM || k->k == xr::PINS) continue; if (k->k == xr::TEXT && !r.empty() && r.back()->k == xr::TEXT) { r.back()->val += k->val; continue; } r.push_back(k); } n->kid.clear(); for (Node* k : r) { if (k->k == xr::TEXT && blank(k->val) && !isX(n, "text")) continue; n->kid.push_back(k); if (k->k == xr::ELEM) strip(k); } }
  void gather(const S& text, std::vector<S>& stack, std::vector<S>& imports, std::vector<Node*>& body) {
    Node* r = parse(text);
    if (!isX(r)) { if (!attr(r, "version", XSL)) throw Err{"not a stylesheet"}; Tree& t = *trees.back(); Node* tm = t.mk(xr::ELEM); tm->ns = XSL; tm->local = "template"; Node* a = t.mk(xr::ATTR); a->local = "match"; a->val = "/"; tm->att.push_back(a); tm->kid.push_back(r); owner[tm] = &t; body.push_back(tm); return; }
    if (r->local != "stylesheet" && r->local != "transform") throw Err{"root"}; if (!attr(r, "version")) throw Err{"version"};
    bool past = false;
    for (Node* k : r->kid) {
      if (k->k == xr::TEXT) throw Err{"text at top level"}; if (k->k != xr::ELEM) continue; if (!isX(k)) { if (k->ns.empty()) throw Err{"top-level element without namespace"}; past = true; continue; }
      if (k->local == "import") { if (past) throw Err{"import not first"}; const S* h = attr(k, "href"); if (!h) throw Err{"href"}; imports.push_back(*h); continue; }
      past = true;
      if (k->local == "include") { const S* h = attr(k, "href"); if (!h || !modules.count(*h)) throw Err{"include"}; if (std::find(stack.begin(), stack.end(), *h) != stack.end()) throw Err{"include loop"}; stack.push_back(*h); gather(modules[*h], stack, imports, body); stack.pop_back(); continue; }
      body.push_back(k);
    }
  }
  Level level(const S& text, std::vector<S> stack, std::vector<std::pair<Node*, Level>>& all) {
    std::vector<S> imports; std::vector<Node*> body; gather(text, stack, imports, body); Level lv; lv.lo = precs;
    for (auto& h : imports) { if (!modules.count(h)) throw Err{"import"}; if (std::find(stack.begin(), stack.end(), h) != stack.end()) throw Err{"import loop"}; auto st = stack; st.push_back(h); level(modules[h], st, all); }
    lv.prec = precs++; for (Node* b : body) all.push_back({b, lv}); return lv;
  }
  void load(const S& text) {
    std::vector<std::pair<Node*, Level>> all; level(text, {"#main"}, all); // post-order: increasing precedence
    for (auto& p : all) { Node* k = p.first; int prec = p.second.prec;
      if (k->local == "template") { const S* m = attr(k, "match"); const S* n = attr(k, "name"); const S* pr = attr(k, "priority"); const S* md = attr(k, "mode"); if (!m && !n) throw Err{"template"}; if (md && !m) throw Err{"mode"}; if (m) { E e = xr::compilePattern(*m, env(k)); std::vector<E> alts; xr::alternatives(e, alts); int o = orders++; for (auto& a : alts) { Rule r; r.pat = a; r.prio = pr ? xr::str2num(*pr) : xr::defaultPriority(a); r.mode = md ? expand(k, *md) : ""; r.lv = p.second; r.order = o; r.el = k; rules.push_back(r); } } if (n) put(named, expand(k, *n), k, prec); check(k); }
      else if (k->local == "variable" || k->local == "param") { const S* n = attr(k, "name"); if (!n) throw Err{"name"}; put(globals, expand(k, *n), k, prec); check(k); }
      else if (k->local == "key") { const S* n = attr(k, "name"); const S* m = attr(k, "match"); const S* u = attr(k, "use"); if (!n || !m || !u) throw Err{"key"}; xr::compilePattern(*m, env(k)); comp(k, *u); keys.push_back({expand(k, *n), k}); }
      else if (k->local == "output") { for (Node* a : k->att) { if (a->local == "cdata-section-elements") { size_t i = 0; const S& v = a->val; while (i < v.size()) { while (i < v.size() && xr::ws(v[i])) ++i; size_t b = i; while (i < v.size() && !xr::ws(v[i])) ++i; if (i > b) { S q = v.substr(b, i - b), pf, l; xm::Parse::split(q, pf, l); auto sc = scope(k); if (!pf.empty() && !sc.count(pf)) throw Err{"prefix"}; cdata.insert({sc.count(pf) ? sc[pf] : S(), l}); } } } else output[a->local] = a->val; } }
      else if (k->local == "namespace-alias") { const S* a = attr(k, "stylesheet-prefix"); const S* b = attr(k, "result-prefix"); if (!a || !b) throw Err{"alias"}; auto sc = scope(k); auto u = [&](const S& p2) { if (p2 == "#default") return sc.count("") ? sc[""] : S(); if (!sc.count(p2)) throw Err{"alias prefix"}; return sc[p2]; }; alias[u(*a)] = u(*b); }
      else throw Err{"top-level " + k->local};
    }
  }
  void put(std::map<S, std::pair<Node*, int>>& m, const S& n, Node* k, int prec) { auto f = m.find(n); if (f != m.end() && f->second.second == prec) throw Err{"duplicate " + n}; if (f == m.end() || f->second.second < prec) m[n] = {k, prec}; }
  std::map<S, S> scope(Node* n) { std::map<S, S> sc; Node* e = n; if (!owner.count(n)) throw Err{"owner"}; if (!n->par && !n->kid.empty() && n->local == "template") e = n->kid[0]; owner[n]->scope(e, sc); return sc; }
  S expand(Node* k, const S& q) { S p, l; xm::Parse::split(q, p, l); auto nm = [](const S& x) { if (x.empty() || !xr::nameStart(x[0])) return false; for (char c : x) if (!xr::nameChar(c)) return false; return true; }; if (!nm(l) || (q.find(':') != S::npos && !nm(p))) throw Err{"not a QName " + q}; if (p.empty()) return l; auto sc = scope(k); if (!sc.count(p)) throw Err{"unbound " + p}; return "{" + sc[p] + "}" + l; }
  Env* env(Node* n) {
    Node* e = n; Tree* t = owner[n]; while (e->par && e->par->k == xr::ELEM && !t->nsd.count(e)) e = e->par; auto& u = envs[e]; if (u) return u.get(); u.reset(new Env); Env* v = u.get(); v->nsmap = scope(e); v->nsmap.erase("");
    v->knownFn = [](const S& ns, const S& f, int a) { return ns.empty() && ((f == "key" && a == 2) || (f == "current" && a == 0)); };
    v->callFn = [this, n](const S&, const S& f, std::vector<Value>& a, const xr::Ctx& c) { if (f == "current") return Value::mkset({c.cur}); return keyFn(n, a, c); };
    v->lookupVar = [this](const S& k, Value& o, const xr::Ctx&) { for (Var* x = now; x; x = x->up) if (x->name == k) { o = x->v; return true; } return global(k, o); };
    return v;
  }
  Var* now = nullptr; // variables visible to the expression being evaluated
  E comp(Node* n, const S& s) { auto& e = cache[{n, s}]; if (!e) e = xr::compile(s, env(n)); return e; }
  struct Now { Proc& p; Var* old; Now(Proc& q, Var* v) : p(q), old(q.now) { p.now = v; } ~Now() { p.now = old; } };
  Value ev(Node* el, const S& s, const Dyn& d) { E e = comp(el, s); Now w(*this, d.vars); return xr::eval(e, xr::Ctx(d.n, env(el), d.pos, d.size, d.n)); }
  struct Part { bool lit; S s; };
  std::vector<Part> avtParts(const S& s) {
    std::vector<Part> r; S lit; size_t i = 0;
    while (i < s.size()) { char c = s[i]; if (c == '{' && i + 1 < s.size() && s[i + 1] == '{') { lit += '{'; i += 2; } else if (c == '}') { if (i + 1 < s.size() && s[i + 1] == '}') { lit += '}'; i += 2; } else throw Err{"} in attribute value template"}; } else if (c == '{') { ++i; S x; char q = 0; for (;; ++i) { if (i >= s.size()) throw Err{"unterminated {"}; if (q) { if (s[i] == q) q = 0; } else if (s[i] == '"' || s[i] == '\'') q = s[i]; else if (s[i] == '}') break; x += s[i]; } ++i; if (!lit.empty()) r.push_back({true, lit}); lit.clear(); r.push_back({false, x}); } else { lit += c; ++i; } }
    if (!lit.empty()) r.push_back({true, lit}); return r;
  }
  S avt(Node* el, const S& s, const Dyn& d) { S r; for (auto& p : avtParts(s)) r += p.lit ? p.s : ev(el, p.s, d).str(); return r; }
  // static check: compile every expression
  void check(Node* n) {
    if (isX(n)) { for (Node* a : n->att) if (a->ns.empty()) { const S& l = n->local; const S& k = a->local; if (k == "select" || k == "test" || k == "use") comp(n, a->val); else if ((l == "element" || l == "attribute") && (k == "name" || k == "namespace")) chk(n, a->val); else if (l == "processing-instruction" && k == "name") chk(n, a->val); else if (l == "sort" && (k == "order" || k == "data-type" || k == "case-order" || k == "lang")) chk(n, a->val); }
      if (n->local == "call-template") { if (!attr(n, "name")) throw Err{"call-template"}; expand(n, *attr(n, "name")); } if ((n->local == "variable" || n->local == "param" || n->local == "with-param")) { if (!attr(n, "name")) throw Err{"name"}; expand(n, *attr(n, "name")); if (attr(n, "select") && !n->kid.empty()) throw Err{"select and content"}; } }
    else if (n->k == xr::ELEM) for (Node* a : n->att) if (a->ns != XSL) chk(n, a->val);
    for (Node* k : n->kid) if (k->k == xr::ELEM) check(k);
  }
  void chk(Node* n, const S& v) { for (auto& p : avtParts(v)) if (!p.lit) comp(n, p.s); }
  // ---- values ----
  Var* bind(const S& n, const Value& v, Var* up) { pool.emplace_back(new Var{n, v, up}); return pool.back().get(); }
  Value value(Node* el, const Dyn& d) {
    if (const S* s = attr(el, "select")) return ev(el, *s, d); if (el->kid.empty()) return Value::mks("");
    trees.emplace_back(new Tree); Tree* t = trees.back().get(); t->root = t->mk(xr::ROOT); Sink o{t, t->root}; exec(el->kid, d, o); t->finish(); return Value::mkset({t->root});
  }
  bool global(const S& n, Value& o) {
    auto f = globals.find(n); if (f == globals.end()) return false; int& st = gstate[n]; if (st == 2) { o = gval[n]; return true; } if (st == 1) throw Err{"circular " + n}; st = 1; Value v; auto g = given.find(n);
    if (f->second.first->local == "param" && g != given.end()) v = g->second; else { Dyn d; d.n = doc; v = value(f->second.first, d); } gval[n] = v; gstate[n] = 2; o = v; return true;
  }
  Value keyFn(Node* el, std::vector<Value>& a, const xr::Ctx& c) {
    S name = expand(el, a[0].str()); std::set<S> want; if (a[1].t == Value::NS) for (Node* n : a[1].ns) want.insert(n->str()); else want.insert(a[1].str()); NodeSet all, r; bool known = false; xr::allnodes(c.n->root(), all); NodeSet full; for (Node* n : all) { full.push_back(n); for (Node* x : n->att) full.push_back(x); }
    for (auto& k : keys) { if (k.first != name) continue; known = true; E p = cache[{k.second, "match:" + *attr(k.second, "match")}]; if (!p) p = cache[{k.second, "match:" + *attr(k.second, "match")}] = xr::compilePattern(*attr(k.second, "match"), env(k.second));
      for (Node* n : full) if (xr::matches(p, n, env(k.second))) { Dyn d; d.n = n; Value u = ev(k.second, *attr(k.second, "use"), d); bool hit = false; if (u.t == Value::NS) { for (Node* x : u.ns) hit |= want.count(x->str()) > 0; } else hit = want.count(u.str()) > 0; if (hit) r.push_back(n); } }
    if (!known) throw Err{"no key " + name}; return Value::mkset(r);
  }
  // ---- output ----
  static void text(Sink& o, const S& s) { if (o.discard || s.empty()) return; if (o.cap) { o.text += s; return; } if (!o.cur->kid.empty() && o.cur->kid.back()->k == xr::TEXT) { o.cur->kid.back()->val += s; return; } Node* x = o.t->mk(xr::TEXT); x->val = s; add(o, x); }
  static void add(Sink& o, Node* x) { x->par = o.cur; o.cur->kid.push_back(x); }
  static void attrib(Sink& o, const S& ns, const S& local, const S& v) { if (o.cap || o.discard || o.cur->k != xr::ELEM || !o.cur->kid.empty()) return; for (Node* a : o.cur->att) if (a->ns == ns && a->local == local) { a->val = v; return; } Node* a = o.t->mk(xr::ATTR); a->ns = ns; a->local = local; a->val = v; a->par = o.cur; o.cur->att.push_back(a); }
  S capture(const std::vector<Node*>& body, const Dyn& d) { Sink o{nullptr, nullptr}; o.cap = true; exec(body, d, o); return o.text; }
  static S fixComment(S v) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == '-' && (i + 1 == v.size() || v[i + 1] == '-')) v.insert(++i, " "); return v; }
  static S fixPI(S v) { for (size_t p; (p = v.find("?>")) != S::npos;) v.insert(p + 1, " "); return v; }
  void comment(Sink& o, const S& v) { if (o.cap || o.discard) return; Node* x = o.t->mk(xr::COMM); x->val = fixComment(v); add(o, x); }
  void pi(Sink& o, const S& n, const S& v) { if (o.cap || o.discard) return; Node* x = o.t->mk(xr::PINS); x->local = n; x->val = fixPI(v); size_t b = 0; while (b < x->val.size() && xr::ws(x->val[b])) ++b; x->val = x->val.substr(b); add(o, x); }
  void deep(Node* n, Sink& o) {
    switch (n->k) { case xr::ROOT: for (Node* k : n->kid) deep(k, o); break; case xr::ELEM: { if (o.cap || o.discard) return; Node* x = o.t->mk(xr::ELEM); x->ns = n->ns; x->local = n->local; add(o, x); Node* sv = o.cur; o.cur = x; for (Node* a : n->att) attrib(o, a->ns, a->local, a->val); for (Node* k : n->kid) deep(k, o); o.cur = sv; break; }
      case xr::ATTR: attrib(o, n->ns, n->local, n->val); break; case xr::TEXT: text(o, n->val); break; case xr::COMM: comment(o, n->val); break; case xr::PINS: pi(o, n->local, n->val); break; case xr::NSN: break; }
  }
  // ---- execution ----
  struct Deep { Proc& p; Deep(Proc& q) : p(q) { if (++p.depth > 200) throw Err{"too deep"}; } ~Deep() { --p.depth; } };
  std::vector<Node*> body(Node* el) { return el->kid; }
  Params withParams(Node* el, const Dyn& d) { Params r; for (Node* k : el->kid) if (isX(k, "with-param")) { S n = expand(k, *attr(k, "name")); if (r.count(n)) throw Err{"duplicate with-param"}; r[n] = value(k, d); } return r; }
  void run(Node* tm, Dyn d, const Params& ps, Sink& o) {
    Deep g(*this); d.vars = nullptr; size_t i = 0;
    for (; i < tm->kid.size() && isX(tm->kid[i], "param"); ++i) { Node* k = tm->kid[i]; S n = expand(k, *attr(k, "name")); auto f = ps.find(n); dup(n, d.vars); Value v = f != ps.end() ? f->second : value(k, d); d.vars = bind(n, v, d.vars); }
    exec(std::vector<Node*>(tm->kid.begin() + i, tm->kid.end()), d, o);
  }
  void dup(const S& n, Var* v) { for (; v; v = v->up) if (v->name == n) throw Err{"duplicate variable " + n}; }
  void apply(Node* n, size_t pos, size_t size, const S& mode, const Params& ps, Sink& o, const Level* below = nullptr) {
    Deep g(*this); const Rule* best = nullptr;
    for (auto& r : rules) { if (r.mode != mode) continue; if (below && !(r.lv.prec >= below->lo && r.lv.prec < below->prec)) continue; if (best && (r.lv.prec != best->lv.prec ? r.lv.prec < best->lv.prec : r.prio != best->prio ? r.prio < best->prio : r.order < best->order)) continue; Now w(*this, nullptr); if (xr::matches(r.pat, n, env(r.el))) best = &r; }
    Dyn d; d.n = n; d.pos = pos; d.size = size; d.mode = mode;
    if (best) { d.rule = best; run(best->el, d, ps, o); return; }
    switch (n->k) { case xr::ROOT: case xr::ELEM: for (size_t i = 0; i < n->kid.size(); ++i) apply(n->kid[i], i + 1, n->kid.size(), mode, {}, o); break; case xr::TEXT: case xr::ATTR: text(o, n->val); break; default: break; }
  }
  NodeSet select(Node* el, const Dyn& d) { if (const S* s = attr(el, "select")) { Value v = ev(el, *s, d); if (v.t != Value::NS) throw Err{"node-set required"}; return v.ns; } return d.n->kid; }
  void sort(Node* el, NodeSet& ns, const Dyn& d) {
    struct K { bool num, desc; std::vector<S> s; std::vector<double> n; }; std::vector<K> ks;
    for (Node* k : el->kid) if (isX(k, "sort")) { K x; S dt = attr(k, "data-type") ? avt(k, *attr(k, "data-type"), d) : "text", od = attr(k, "order") ? avt(k, *attr(k, "order"), d) : "ascending"; if (dt != "text" && dt != "number") throw Err{"data-type"}; if (od != "ascending" && od != "descending") throw Err{"order"}; x.num = dt == "number"; x.desc = od == "descending"; S se = attr(k, "select") ? *attr(k, "select") : "string(.)"; for (size_t i = 0; i < ns.size(); ++i) { Dyn e = d; e.n = ns[i]; e.pos = i + 1; e.size = ns.size(); Value v = ev(k, se, e); S s = v.str(); x.s.push_back(s); x.n.push_back(v.t == Value::NS ? xr::str2num(s) : v.t == Value::N ? v.n : xr::str2num(s)); } ks.push_back(x); }
    if (ks.empty()) return; std::vector<size_t> ix(ns.size()); for (size_t i = 0; i < ix.size(); ++i) ix[i] = i;
    // insertion sort (stable)
    auto cmp = [&](size_t a, size_t b) { for (auto& k : ks) { int c = 0; if (k.num) { bool na = k.n[a] != k.n[a], nb = k.n[b] != k.n[b]; c = na && nb ? 0 : na ? -1 : nb ? 1 : k.n[a] < k.n[b] ? -1 : k.n[a] > k.n[b] ? 1 : 0; } else c = k.s[a] < k.s[b] ? -1 : k.s[a] > k.s[b] ? 1 : 0; if (k.desc) c = -c; if (c) return c; } return 0; };
    for (size_t i = 1; i < ix.size(); ++i) for (size_t j = i; j > 0 && cmp(ix[j - 1], ix[j]) > 0; --j) std::swap(ix[j - 1], ix[j]);
    NodeSet r; for (size_t i : ix) r.push_back(ns[i]); ns = r;
  }
  bool element(Sink& o, const S& ns, const S& local, Node*& sv) { if (o.cap || o.discard) return false; Node* x = o.t->mk(xr::ELEM); x->ns = ns; x->local = local; add(o, x); sv = o.cur; o.cur = x; return true; }
  static bool ncname(const S& x) { if (x.empty() || !xr::nameStart(x[0])) return false; for (char c : x) if (!xr::nameChar(c)) return false; return true; }
  void qname(Node* el, const Dyn& d, S& ns, S& local, bool at) {
    S nm = avt(el, *attr(el, "name"), d), p, l; xm::Parse::split(nm, p, l); if (!ncname(l) || (nm.find(':') != S::npos && !ncname(p))) throw Err{"bad name " + nm}; if (at && nm == "xmlns") throw Err{"xmlns"}; local = l;
    if (const S* n = attr(el, "namespace")) { ns = avt(el, *n, d); return; } auto sc = scope(el); if (p.empty()) { ns = at || !sc.count("") ? S() : sc[""]; return; } if (!sc.count(p)) throw Err{"unbound prefix " + p}; ns = sc[p];
  }
  void exec(const std::vector<Node*>& body, Dyn d, Sink& o) {
    Deep g(*this);
    for (Node* k : body) {
      if (k->k == xr::TEXT) { text(o, k->val); continue; } if (k->k != xr::ELEM) continue;
      if (!isX(k)) {
        auto al = [&](const S& u) { auto f = alias.find(u); return f == alias.end() ? u : f->second; }; Node* sv; if (!element(o, al(k->ns), k->local, sv)) continue;
        for (Node* a : k->att) { if (a->ns == XSL) continue; attrib(o, a->ns.empty() ? S() : al(a->ns), a->local, avt(k, a->val, d)); } exec(k->kid, d, o); o.cur = sv; continue;
      }
      const S& l = k->local;
      if (l == "text") { for (Node* c : k->kid) { if (c->k == xr::TEXT) text(o, c->val); else throw Err{"element in xsl:text"}; } }
      else if (l == "value-of") text(o, ev(k, *attr(k, "select"), d).str());
      else if (l == "if") { if (ev(k, *attr(k, "test"), d).boolean()) exec(k->kid, d, o); }
      else if (l == "choose") { for (Node* w : k->kid) { if (isX(w, "otherwise") || (isX(w, "when") && ev(w, *attr(w, "test"), d).boolean())) { exec(w->kid, d, o); break; } } }
      else if (l == "for-each") { NodeSet ns = select(k, d); sort(k, ns, d); std::vector<Node*> b; for (Node* c : k->kid) if (!isX(c, "sort")) b.push_back(c); for (size_t i = 0; i < ns.size(); ++i) { Dyn e = d; e.n = ns[i]; e.pos = i + 1; e.size = ns.size(); e.rule = nullptr; exec(b, e, o); } }
      else if (l == "apply-templates") { NodeSet ns = select(k, d); sort(k, ns, d); Params ps = withParams(k, d); S m = attr(k, "mode") ? expand(k, *attr(k, "mode")) : S(); for (size_t i = 0; i < ns.size(); ++i) apply(ns[i], i + 1, ns.size(), m, ps, o); }
      else if (l == "apply-imports") { if (!d.rule) throw Err{"apply-imports without a current rule"}; apply(d.n, d.pos, d.size, d.mode, {}, o, &d.rule->lv); }
      else if (l == "call-template") { auto f = named.find(expand(k, *attr(k, "name"))); if (f == named.end()) throw Err{"no template"}; Params ps = withParams(k, d); run(f->second.first, d, ps, o); }
      else if (l == "variable") { S n = expand(k, *attr(k, "name")); Value v = value(k, d); dup(n, d.vars); d.vars = bind(n, v, d.vars); }
      else if (l == "copy-of") { Value v = ev(k, *attr(k, "select"), d); if (v.t == Value::NS) for (Node* n : v.ns) deep(n, o); else text(o, v.str()); }
      else if (l == "copy") { switch (d.n->k) { case xr::ROOT: exec(k->kid, d, o); break; case xr::ELEM: { Node* sv; if (element(o, d.n->ns, d.n->local, sv)) { exec(k->kid, d, o); o.cur = sv; } break; } default: deep(d.n, o); } }
      else if (l == "element") { S ns, loc; qname(k, d, ns, loc, false); Node* sv; if (element(o, ns, loc, sv)) { exec(k->kid, d, o); o.cur = sv; } }
      else if (l == "attribute") { S ns, loc; qname(k, d, ns, loc, true); S v = capture(k->kid, d); attrib(o, ns, loc, v); }
      else if (l == "comment") comment(o, capture(k->kid, d));
      else if (l == "processing-instruction") { S n = avt(k, *attr(k, "name"), d); if (!ncname(n) || (n.size() == 3 && tolower(n[0]) == 'x' && tolower(n[1]) == 'm' && tolower(n[2]) == 'l')) throw Err{"pi name"}; pi(o, n, capture(k->kid, d)); }
      else if (l == "message") { trees.emplace_back(new Tree); Tree* t = trees.back().get(); t->root = t->mk(xr::ROOT); Sink m{t, t->root}; exec(k->kid, d, m); messages.push_back(xm::canon(t->root)); if (attr(k, "terminate") && *attr(k, "terminate") == "yes") throw Err{"terminated"}; }
      else if (l == "param") throw Err{"param not first"};
      else throw Err{"instruction " + l};
    }
  }
  // run over a document tree; returns the result tree (owned by this)
  Node* transform(Node* d) {
    doc = d; gstate.clear(); gval.clear(); depth = 0; for (auto& g : globals) { Value v; global(g.first, v); }
    trees.emplace_back(new Tree); Tree* t = trees.back().get(); t->root = t->mk(xr::ROOT); Sink o{t, t->root}; apply(d, 1, 1, "", {}, o); t->finish(); return t->root;
  }
};
} // namespace xt
