// Reference XPath 1.0: data model, lexer, parser, evaluator, pattern matcher.
// Written from the W3C Recommendation; shares no code with the library.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace xr {
typedef std::string S;
struct Err { S m; };
enum Kind { ROOT, ELEM, ATTR, TEXT, COMM, PINS, NSN };
struct Node {
  Kind k; S ns, local, prefix, val; Node* par = nullptr; std::vector<Node*> kid, att, nss; int ord = 0; void* user = nullptr; int idx = -1; bool isId = false;
  S qname() const { return prefix.empty() ? local : prefix + ":" + local; }
  S str() const { if (k != ROOT && k != ELEM) return val; S r; for (Node* c : kid) if (c->k == TEXT || c->k == ELEM) r += c->str(); return r; }
  Node* root() { Node* n = this; while (n->par) n = n->par; return n; }
};
struct Tree { // owns nodes
  std::vector<std::unique_ptr<Node>> pool; Node* root = nullptr;
  Node* mk(Kind k) { pool.emplace_back(new Node); pool.back()->k = k; return pool.back().get(); }
  // document order numbering; namespace nodes from xmlns attributes (given as decl maps in 'nsd')
  void finish() { int o = 0; number(root, o); }
  std::map<Node*, std::map<S, S>> nsd; // declarations per element
  void number(Node* n, int& o) {
    n->ord = o++;
    if (n->k == ELEM) { if (n->nss.empty()) { std::map<S, S> sc; scope(n, sc); for (auto& p : sc) if (!p.second.empty()) { Node* x = mk(NSN); x->par = n; x->local = p.first; x->val = p.second; n->nss.push_back(x); } }
      for (Node* x : n->nss) x->ord = o++; }
    for (Node* a : n->att) a->ord = o++;
    for (Node* c : n->kid) number(c, o);
  }
  void scope(Node* n, std::map<S, S>& sc) { if (n->par && n->par->k == ELEM) scope(n->par, sc); else sc["xml"] = "http://www.w3.org/XML/1998/namespace"; auto i = nsd.find(n); if (i != nsd.end()) for (auto& d : i->second) sc[d.first] = d.second; }
};
typedef std::vector<Node*> NodeSet;
inline void sorted(NodeSet& v) { std::sort(v.begin(), v.end(), [](Node* a, Node* b) { return a->ord < b->ord; }); v.erase(std::unique(v.begin(), v.end()), v.end()); }

inline S num2str(double d) {
  if (d != d) return "NaN"; if (std::isinf(d)) return d > 0 ? "Infinity" : "-Infinity"; if (d == 0) return "0";
  char b[64]; int p = 1; for (; p <= 17; ++p) { snprintf(b, sizeof b, "%.*e", p - 1, d); if (strtod(b, nullptr) == d) break; }
  S m; bool neg = b[0] == '-'; char* q = b + (neg ? 1 : 0); int e = 0; for (; *q && *q != 'e'; ++q) if (*q != '.') m += *q; e = atoi(q + 1);
  while (m.size() > 1 && m.back() == '0') m.pop_back();
  S r; if (e >= 0) { if ((int)m.size() <= e + 1) r = m + S(e + 1 - m.size(), '0'); else r = m.substr(0, e + 1) + "." + m.substr(e + 1); } else r = "0." + S(-e - 1, '0') + m;
  return (neg ? "-" : "") + r;
}
inline bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
inline bool dig(char c) { return c >= '0' && c <= '9'; }
inline double str2num(const S& s) {
  size_t i = 0, n = s.size(); while (i < n && ws(s[i])) ++i; size_t e = n; while (e > i && ws(s[e - 1])) --e;
  size_t j = i; if (j < e && s[j] == '-') ++j; size_t d0 = j; while (j < e && dig(s[j])) ++j; size_t dn = j - d0;
  if (j < e && s[j] == '.') { ++j; size_t f = j; while (j < e && dig(s[j])) ++j; if (dn == 0 && j == f) return NAN; dn += j - f; }
  if (j != e || dn == 0) return NAN; return strtod(s.substr(i, e - i).c_str(), nullptr);
}
struct Value {
  enum T { NS, B, N, STR } t; NodeSet ns; bool b = false; double n = 0; S s;
  static Value mkb(bool x) { Value v; v.t = B; v.b = x; return v; } static Value mkn(double x) { Value v; v.t = N; v.n = x; return v; }
  static Value mks(const S& x) { Value v; v.t = STR; v.s = x; return v; } static Value mkset(const NodeSet& x) { Value v; v.t = NS; v.ns = x; sorted(v.ns); return v; }
  bool boolean() const { switch (t) { case NS: return !ns.empty(); case B: return b; case N: return n == n && n != 0; default: return !s.empty(); } }
  S str() const { switch (t) { case NS: return ns.empty() ? "" : ns[0]->str(); case B: return b ? "true" : "false"; case N: return num2str(n); default: return s; } }
  double num() const { switch (t) { case NS: case STR: return str2num(str()); case B: return b; default: return n; } }
};
enum Axis { A_CHILD, A_DESC, A_PARENT, A_ANC, A_FSIB, A_PSIB, A_FOL, A_PREC, A_ATTR, A_NS, A_SELF, A_DOS, A_AOS };
static const char* const axisNames[] = {"child", "descendant", "parent", "ancestor", "following-sibling", "preceding-sibling", "following", "preceding", "attribute", "namespace", "self", "descendant-or-self", "ancestor-or-self"};
inline bool reverseAxis(int a) { return a == A_PARENT || a == A_ANC || a == A_PSIB || a == A_PREC || a == A_AOS; }
inline void desc(Node* n, NodeSet& r) { for (Node* c : n->kid) { r.push_back(c); desc(c, r); } }
inline void allnodes(Node* n, NodeSet& r) { r.push_back(n); for (Node* c : n->kid) allnodes(c, r); }
// in axis order
inline NodeSet axis(Node* n, int a) {
  NodeSet r; bool tree = n->k != ATTR && n->k != NSN;
  switch (a) {
    case A_CHILD: r = n->kid; break;
    case A_DESC: desc(n, r); break;
    case A_PARENT: if (n->par) r.push_back(n->par); break;
    case A_ANC: for (Node* p = n->par; p; p = p->par) r.push_back(p); break;
    case A_FSIB: case A_PSIB: if (tree && n->par) { auto& k = n->par->kid; size_t i = std::find(k.begin(), k.end(), n) - k.begin(); if (a == A_FSIB) r.assign(k.begin() + i + 1, k.end()); else { r.assign(k.begin(), k.begin() + i); std::reverse(r.begin(), r.end()); } } break;
    case A_FOL: case A_PREC: {
      NodeSet all; allnodes(n->root(), all); NodeSet anc; for (Node* p = n->par; p; p = p->par) anc.push_back(p); NodeSet de; desc(n, de);
      for (Node* x : all) { if (a == A_FOL ? (x->ord > n->ord && std::find(de.begin(), de.end(), x) == de.end()) : (x->ord < n->ord && std::find(anc.begin(), anc.end(), x) == anc.end())) r.push_back(x); }
      if (a == A_PREC) std::reverse(r.begin(), r.end()); break; }
    case A_ATTR: r = n->att; break;
    case A_NS: r = n->nss; break;
    case A_SELF: r.push_back(n); break;
    case A_DOS: r.push_back(n); desc(n, r); break;
    case A_AOS: for (Node* p = n; p; p = p->par) r.push_back(p); break;
  }
  return r;
}
struct Expr;
typedef std::shared_ptr<Expr> E;
struct Test { enum { ANYNAME, NSANY, NAME, NODE, TXT, COM, PI } t; S ns, local, lit; bool haslit = false; };
struct Step { int axis; Test test; std::vector<E> preds; };
struct Expr { S op; std::vector<E> a; double num = 0; S str; bool abs = false; E prim; std::vector<E> preds; std::vector<Step> steps; S fns; };
struct Ctx;
struct Env {
  std::map<S, S> nsmap; std::map<S, Value> vars; // variable key: "{ns}local" or "local"
  std::function<bool(const S& ns, const S& name, int argc)> knownFn; // extra functions
  std::function<Value(const S& ns, const S& name, std::vector<Value>& args, const Ctx& c)> callFn;
  std::function<bool(const S& key, Value& out, const Ctx& c)> lookupVar;
  std::map<S, Node*> ids;
};
struct Ctx { Node* n; size_t pos, size; Env* env; Node* cur; Ctx(Node* n, Env* e, size_t p = 1, size_t s = 1, Node* cu = nullptr) : n(n), pos(p), size(s), env(e), cur(cu ? cu : n) {} };

inline bool nameStart(unsigned char c) { return isalpha(c) || c == '_' || c >= 0x80; }
inline bool nameChar(unsigned char c) { return nameStart(c) || isdigit(c) || c == '-' || c == '.'; }
struct Tok { enum T { END, SYM, OP, LIT, NUM, VAR, NAME, NSSTAR, STAR, FUNC, NODET, AXIS } t; S s, p; double d = 0; };
inline std::vector<Tok> lex(const S& s) {
  std::vector<Tok> r; size_t i = 0, n = s.size();
  auto nc = [&](size_t& j) { size_t b = j; if (j < n && nameStart(s[j])) { ++j; while (j < n && nameChar(s[j])) ++j; } return s.substr(b, j - b); };
  for (;;) {
    while (i < n && ws(s[i])) ++i; if (i >= n) break;
    char c = s[i]; Tok t; bool prevOperand = false;
    if (!r.empty()) { auto& p = r.back(); prevOperand = !(p.t == Tok::OP || (p.t == Tok::SYM && (p.s == "@" || p.s == "::" || p.s == "(" || p.s == "[" || p.s == ","))); }
    S two = s.substr(i, 2);
    if (two == "::" || two == "..") { t.t = Tok::SYM; t.s = two; i += 2; }
    else if (two == "//" || two == "!=" || two == "<=" || two == ">=") { t.t = Tok::OP; t.s = two; i += 2; }
    else if (dig(c) || (c == '.' && i + 1 < n && dig(s[i + 1]))) { size_t b = i; while (i < n && dig(s[i])) ++i; if (i < n && s[i] == '.') { ++i; while (i < n && dig(s[i])) ++i; } t.t = Tok::NUM; t.d = strtod(s.substr(b, i - b).c_str(), nullptr); }
    else if (strchr("()[].@,", c)) { t.t = Tok::SYM; t.s = c; ++i; }
    else if (strchr("/|+-=<>", c)) { t.t = Tok::OP; t.s = c; ++i; }
    else if (c == '*') { t.t = prevOperand ? Tok::OP : Tok::STAR; t.s = "*"; ++i; }
    else if (c == '"' || c == '\'') { size_t e = s.find(c, i + 1); if (e == S::npos) throw Err{"unterminated literal"}; t.t = Tok::LIT; t.s = s.substr(i + 1, e - i - 1); i = e + 1; }
    else if (c == '$') { ++i; S a = nc(i); if (a.empty()) throw Err{"bad variable"}; t.t = Tok::VAR; if (i + 1 < n && s[i] == ':' && nameStart(s[i + 1])) { ++i; t.p = a; t.s = nc(i); } else t.s = a; }
    else if (nameStart(c)) {
      S a = nc(i);
      if (prevOperand) { if (a == "and" || a == "or" || a == "div" || a == "mod") { t.t = Tok::OP; t.s = a; } else throw Err{"name where an operator is expected: " + a}; }
      else {
        if (i + 1 < n && s[i] == ':' && s[i + 1] != ':') { if (s[i + 1] == '*') { i += 2; t.t = Tok::NSSTAR; t.p = a; r.push_back(t); continue; } if (!nameStart(s[i + 1])) throw Err{"bad qname"}; ++i; t.p = a; t.s = nc(i); }
        else t.s = a;
        size_t j = i; while (j < n && ws(s[j])) ++j;
        if (j < n && s[j] == '(') { t.t = (t.p.empty() && (t.s == "node" || t.s == "text" || t.s == "comment" || t.s == "processing-instruction")) ? Tok::NODET : Tok::FUNC; }
        else if (t.p.empty() && s.compare(j, 2, "::") == 0) t.t = Tok::AXIS;
        else t.t = Tok::NAME;
      }
    } else throw Err{S("bad character ") + c};
    r.push_back(t);
  }
  Tok e; e.t = Tok::END; r.push_back(e); return r;
}
struct Parser {
  std::vector<Tok> t; size_t i = 0; Env* env;
  Parser(const S& s, Env* e) : t(lex(s)), env(e) {}
  bool is(const char* s) const { return (t[i].t == Tok::SYM || t[i].t == Tok::OP) && t[i].s == s; }
  void need(const char* s) { if (!is(s)) throw Err{S("expected ") + s}; ++i; }
  S uri(const S& p) { if (p == "xml") return "http://www.w3.org/XML/1998/namespace"; auto f = env->nsmap.find(p); if (f == env->nsmap.end()) throw Err{"undeclared prefix " + p}; return f->second; }
  E bin(const S& op, E a, E b) { E e(new Expr); e->op = op; e->a = {a, b}; return e; }
  E parse() { E e = orE(); if (t[i].t != Tok::END) throw Err{"trailing input"}; return e; }
  E orE() { E l = andE(); while (is("or")) { ++i; l = bin("or", l, andE()); } return l; }
  E andE() { E l = eqE(); while (is("and")) { ++i; l = bin("and", l, eqE()); } return l; }
  E eqE() { E l = relE(); while (is("=") || is("!=")) { S o = t[i++].s; l = bin(o, l, relE()); } return l; }
  E relE() { E l = addE(); while (is("<") || is("<=") || is(">") || is(">=")) { S o = t[i++].s; l = bin(o, l, addE()); } return l; }
  E addE() { E l = mulE(); while (is("+") || is("-")) { S o = t[i++].s; l = bin(o, l, mulE()); } return l; }
  E mulE() { E l = unE(); while (is("*") || is("div") || is("mod")) { S o = t[i++].s; l = bin(o, l, unE()); } return l; }
  E unE() { if (is("-")) { ++i; E e(new Expr); e->op = "neg"; e->a = {unE()}; return e; } return unionE(); }
  E unionE() { E l = pathE(); while (is("|")) { ++i; l = bin("|", l, pathE()); } return l; }
  bool stepStart() const { auto& k = t[i]; return k.t == Tok::NAME || k.t == Tok::STAR || k.t == Tok::NSSTAR || k.t == Tok::NODET || k.t == Tok::AXIS || is(".") || is("..") || is("@"); }
  E pathE() {
    E e(new Expr); e->op = "path"; auto& k = t[i];
    bool prim = k.t == Tok::VAR || k.t == Tok::LIT || k.t == Tok::NUM || k.t == Tok::FUNC || is("(");
    if (prim) {
      E p = primary(); e->prim = p; while (is("[")) e->preds.push_back(pred());
      if (!is("/") && !is("//")) { if (e->preds.empty()) return p; return e; }
    } else if (is("/")) { ++i; e->abs = true; if (!stepStart()) return e; step(e); }
    else if (is("//")) { ++i; e->abs = true; dos(e); step(e); }
    else step(e);
    for (;;) { if (is("/")) { ++i; step(e); } else if (is("//")) { ++i; dos(e); step(e); } else break; }
    return e;
  }
  void dos(E& e) { Step s; s.axis = A_DOS; s.test.t = Test::NODE; e->steps.push_back(s); }
  E pred() { need("["); E e = orE(); need("]"); return e; }
  void step(E& e) {
    Step s;
    if (is(".")) { ++i; s.axis = A_SELF; s.test.t = Test::NODE; e->steps.push_back(s); return; }
    if (is("..")) { ++i; s.axis = A_PARENT; s.test.t = Test::NODE; e->steps.push_back(s); return; }
    s.axis = A_CHILD;
    if (is("@")) { ++i; s.axis = A_ATTR; }
    else if (t[i].t == Tok::AXIS) { int a = -1; for (int j = 0; j < 13; ++j) if (t[i].s == axisNames[j]) a = j; if (a < 0) throw Err{"bad axis"}; s.axis = a; ++i; need("::"); }
    auto& k = t[i];
    if (k.t == Tok::STAR) { s.test.t = Test::ANYNAME; ++i; }
    else if (k.t == Tok::NSSTAR) { s.test.t = Test::NSANY; s.test.ns = uri(k.p); ++i; }
    else if (k.t == Tok::NAME) { s.test.t = Test::NAME; s.test.local = k.s; if (!k.p.empty()) s.test.ns = uri(k.p); ++i; }
    else if (k.t == Tok::NODET) { S nm = k.s; ++i; need("("); s.test.t = nm == "node" ? Test::NODE : nm == "text" ? Test::TXT : nm == "comment" ? Test::COM : Test::PI;
      if (nm == "processing-instruction" && t[i].t == Tok::LIT) { s.test.haslit = true; s.test.lit = t[i].s; ++i; } need(")"); }
    else throw Err{"expected a node test"};
    while (is("[")) s.preds.push_back(pred());
    e->steps.push_back(s);
  }
  E primary() {
    E e(new Expr); auto k = t[i];
    if (k.t == Tok::NUM) { ++i; e->op = "num"; e->num = k.d; return e; }
    if (k.t == Tok::LIT) { ++i; e->op = "lit"; e->str = k.s; return e; }
    if (k.t == Tok::VAR) { ++i; e->op = "var"; e->str = k.p.empty() ? k.s : "{" + uri(k.p) + "}" + k.s; return e; }
    if (is("(")) { ++i; E x = orE(); need(")"); e->op = "paren"; e->a = {x}; return e; }
    ++i; need("("); e->op = "fn"; e->str = k.s; if (!k.p.empty()) e->fns = uri(k.p);
    if (!is(")")) { e->a.push_back(orE()); while (is(",")) { ++i; e->a.push_back(orE()); } } need(")");
    int n = (int)e->a.size();
    static const std::map<S, std::pair<int, int>> F = {{"last", {0, 0}}, {"position", {0, 0}}, {"count", {1, 1}}, {"id", {1, 1}}, {"local-name", {0, 1}}, {"namespace-uri", {0, 1}}, {"name", {0, 1}}, {"string", {0, 1}}, {"concat", {2, 999}}, {"starts-with", {2, 2}}, {"contains", {2, 2}}, {"substring-before", {2, 2}}, {"substring-after", {2, 2}}, {"substring", {2, 3}}, {"string-length", {0, 1}}, {"normalize-space", {0, 1}}, {"translate", {3, 3}}, {"boolean", {1, 1}}, {"not", {1, 1}}, {"true", {0, 0}}, {"false", {0, 0}}, {"lang", {1, 1}}, {"number", {0, 1}}, {"sum", {1, 1}}, {"floor", {1, 1}}, {"ceiling", {1, 1}}, {"round", {1, 1}}};
    auto f = F.find(e->str);
    if (e->fns.empty() && f != F.end()) { if (n < f->second.first || n > f->second.second) throw Err{"wrong number of arguments to " + e->str}; }
    else if (!env->knownFn || !env->knownFn(e->fns, e->str, n)) throw Err{"unknown function " + e->str};
    return e;
  }
};
inline bool cmpS(const S& o, const S& a, const S& b) { return o == "=" ? a == b : a != b; }
inline bool cmpN(const S& o, double a, double b) { if (o == "=") return a == b; if (o == "!=") return a != b; if (o == "<") return a < b; if (o == "<=") return a <= b; if (o == ">") return a > b; return a >= b; }
inline bool compare(const S& o, const Value& a, const Value& b) {
  bool eq = o == "=" || o == "!=";
  if (a.t == Value::NS && b.t == Value::NS) { for (Node* x : a.ns) for (Node* y : b.ns) if (eq ? cmpS(o, x->str(), y->str()) : cmpN(o, str2num(x->str()), str2num(y->str()))) return true; return false; }
  if (a.t == Value::NS || b.t == Value::NS) {
    bool l = a.t == Value::NS; const Value& s = l ? a : b; const Value& v = l ? b : a;
    if (v.t == Value::B) { double x = s.boolean(), y = v.b; return l ? cmpN(o, x, y) : cmpN(o, y, x); }
    for (Node* x : s.ns) {
      bool r; if (eq && v.t == Value::STR) r = cmpS(o, x->str(), v.s);
      else { double p = str2num(x->str()), q = v.num(); r = l ? cmpN(o, p, q) : cmpN(o, q, p); }
      if (r) return true;
    }
    return false;
  }
  if (eq) {
    if (a.t == Value::B || b.t == Value::B) { bool x = a.boolean(), y = b.boolean(); return o == "=" ? x == y : x != y; }
    if (a.t == Value::N || b.t == Value::N) return cmpN(o, a.num(), b.num());
    return cmpS(o, a.str(), b.str());
  }
  return cmpN(o, a.num(), b.num());
}
inline bool testNode(const Test& t, Node* n, int ax) {
  Kind pr = ax == A_ATTR ? ATTR : ax == A_NS ? NSN : ELEM;
  switch (t.t) {
    case Test::NODE: return true; case Test::TXT: return n->k == TEXT; case Test::COM: return n->k == COMM;
    case Test::PI: return n->k == PINS && (!t.haslit || n->local == t.lit);
    case Test::ANYNAME: return n->k == pr; case Test::NSANY: return n->k == pr && n->k != NSN && n->ns == t.ns;
    default: return n->k == pr && n->local == t.local && n->ns == t.ns;
  }
}
inline double xround(double d) { if (d != d || std::isinf(d) || d == 0) return d; double f = std::floor(d); double r = d - f >= 0.5 ? f + 1 : f; if (r == 0 && d < 0) return -0.0; return r; }
Value eval(const E& e, const Ctx& c);
inline NodeSet filterPreds(NodeSet v, const std::vector<E>& preds, const Ctx& c) {
  for (auto& p : preds) { NodeSet r; for (size_t i = 0; i < v.size(); ++i) { Ctx k(v[i], c.env, i + 1, v.size(), c.cur); Value x = eval(p, k); if (x.t == Value::N ? x.n == double(i + 1) : x.boolean()) r.push_back(v[i]); } v = r; }
  return v;
}
inline NodeSet doSteps(NodeSet cur, const Expr& e, const Ctx& c) {
  for (auto& s : e.steps) { NodeSet nx; for (Node* n : cur) { NodeSet v; for (Node* x : axis(n, s.axis)) if (testNode(s.test, x, s.axis)) v.push_back(x); v = filterPreds(v, s.preds, c); nx.insert(nx.end(), v.begin(), v.end()); } sorted(nx); cur = nx; }
  return cur;
}
inline size_t ulen(const S& s) { return s.size(); }
inline Value call(const Expr& e, const Ctx& c) {
  std::vector<Value> a; for (auto& x : e.a) a.push_back(eval(x, c)); const S& f = e.str;
  if (!e.fns.empty()) return c.env->callFn(e.fns, f, a, c);
  auto set = [&](size_t i) -> NodeSet& { if (a[i].t != Value::NS) throw Err{"node-set required"}; return a[i].ns; };
  auto sarg = [&]() { return a.empty() ? c.n->str() : a[0].str(); };
  if (f == "last") return Value::mkn(c.size); if (f == "position") return Value::mkn(c.pos);
  if (f == "count") return Value::mkn(set(0).size());
  if (f == "id") { NodeSet r; auto toks = [&](const S& s) { size_t i = 0; while (i < s.size()) { while (i < s.size() && ws(s[i])) ++i; size_t b = i; while (i < s.size() && !ws(s[i])) ++i; if (i > b) { auto k = c.env->ids.find(s.substr(b, i - b)); if (k != c.env->ids.end()) r.push_back(k->second); } } };
    if (a[0].t == Value::NS) for (Node* n : a[0].ns) toks(n->str()); else toks(a[0].str()); return Value::mkset(r); }
  if (f == "local-name" || f == "name" || f == "namespace-uri") { Node* n = c.n; if (!a.empty()) { NodeSet& s = set(0); if (s.empty()) return Value::mks(""); n = s[0]; } if (n->k == NSN && f != "namespace-uri") return Value::mks(n->local); return Value::mks(f == "name" ? n->qname() : f == "local-name" ? n->local : n->ns); }
  if (f == "string") return Value::mks(sarg());
  if (f == "concat") { S r; for (auto& x : a) r += x.str(); return Value::mks(r); }
  if (f == "starts-with") { S x = a[0].str(), y = a[1].str(); return Value::mkb(x.compare(0, y.size(), y) == 0); }
  if (f == "contains") return Value::mkb(a[0].str().find(a[1].str()) != S::npos);
  if (f == "substring-before") { S x = a[0].str(); size_t p = x.find(a[1].str()); return Value::mks(p == S::npos ? "" : x.substr(0, p)); }
  if (f == "substring-after") { S x = a[0].str(), y = a[1].str(); size_t p = x.find(y); return Value::mks(p == S::npos ? "" : x.substr(p + y.size())); }
  if (f == "substring") { S x = a[0].str(), r; double b = xround(a[1].num()), e2 = a.size() > 2 ? b + xround(a[2].num()) : INFINITY; for (size_t i = 0; i < x.size(); ++i) { double p = double(i + 1); if (p >= b && p < e2) r += x[i]; } if (a.size() <= 2) { r.clear(); for (size_t i = 0; i < x.size(); ++i) if (double(i + 1) >= b) r += x[i]; } return Value::mks(r); }
  if (f == "string-length") return Value::mkn(ulen(sarg()));
  if (f == "normalize-space") { S x = sarg(), r; bool sp = false; for (char ch : x) { if (ws(ch)) sp = true; else { if (sp && !r.empty()) r += ' '; sp = false; r += ch; } } return Value::mks(r); }
  if (f == "translate") { S x = a[0].str(), fr = a[1].str(), to = a[2].str(), r; for (char ch : x) { size_t p = fr.find(ch); if (p == S::npos) r += ch; else if (p < to.size()) r += to[p]; } return Value::mks(r); }
  if (f == "boolean") return Value::mkb(a[0].boolean()); if (f == "not") return Value::mkb(!a[0].boolean());
  if (f == "true") return Value::mkb(true); if (f == "false") return Value::mkb(false);
  if (f == "lang") { S w = a[0].str(); for (Node* p = c.n; p; p = p->par) for (Node* t : p->att) if (t->ns == "http://www.w3.org/XML/1998/namespace" && t->local == "lang") { S v = t->val; for (auto& ch : v) ch = tolower(ch); for (auto& ch : w) ch = tolower(ch); return Value::mkb(v == w || (v.size() > w.size() && v.compare(0, w.size(), w) == 0 && v[w.size()] == '-')); } return Value::mkb(false); }
  if (f == "number") return Value::mkn(a.empty() ? str2num(c.n->str()) : a[0].num());
  if (f == "sum") { double t = 0; for (Node* n : set(0)) t += str2num(n->str()); return Value::mkn(t); }
  if (f == "floor") return Value::mkn(std::floor(a[0].num())); if (f == "ceiling") return Value::mkn(std::ceil(a[0].num())); if (f == "round") return Value::mkn(xround(a[0].num()));
  return c.env->callFn("", f, a, c);
}
inline Value eval(const E& e, const Ctx& c) {
  const S& o = e->op;
  if (o == "num") return Value::mkn(e->num); if (o == "lit") return Value::mks(e->str);
  if (o == "var") { Value v; if (c.env->lookupVar) { if (!c.env->lookupVar(e->str, v, c)) throw Err{"unbound variable " + e->str}; return v; } auto f = c.env->vars.find(e->str); if (f == c.env->vars.end()) throw Err{"unbound variable " + e->str}; return f->second; }
  if (o == "paren") return eval(e->a[0], c);
  if (o == "fn") return call(*e, c);
  if (o == "or") { if (eval(e->a[0], c).boolean()) return Value::mkb(true); return Value::mkb(eval(e->a[1], c).boolean()); }
  if (o == "and") { if (!eval(e->a[0], c).boolean()) return Value::mkb(false); return Value::mkb(eval(e->a[1], c).boolean()); }
  if (o == "neg") return Value::mkn(-eval(e->a[0], c).num());
  if (o == "|") { Value a = eval(e->a[0], c), b = eval(e->a[1], c); if (a.t != Value::NS || b.t != Value::NS) throw Err{"union of non-node-sets"}; a.ns.insert(a.ns.end(), b.ns.begin(), b.ns.end()); sorted(a.ns); return a; }
  if (o == "path") {
    NodeSet cur;
    if (e->prim) { Value v = eval(e->prim, c); if (v.t != Value::NS) throw Err{"node-set required"}; cur = filterPreds(v.ns, e->preds, c); if (e->steps.empty()) return Value::mkset(cur); }
    else cur.push_back(e->abs ? c.n->root() : c.n);
    return Value::mkset(doSteps(cur, *e, c));
  }
  if (o == "=" || o == "!=" || o == "<" || o == "<=" || o == ">" || o == ">=") { Value a = eval(e->a[0], c), b = eval(e->a[1], c); return Value::mkb(compare(o, a, b)); }
  double a = eval(e->a[0], c).num(), b = eval(e->a[1], c).num();
  if (o == "+") return Value::mkn(a + b); if (o == "-") return Value::mkn(a - b); if (o == "*") return Value::mkn(a * b); if (o == "div") return Value::mkn(a / b);
  return Value::mkn(std::fmod(a, b));
}
inline E compile(const S& s, Env* env) { Parser p(s, env); return p.parse(); }

// ---- patterns (XSLT 1.0 section 5.2) ----
inline void checkPattern(const Expr& e) {
  if (e.op == "|") { checkPattern(*e.a[0]); checkPattern(*e.a[1]); return; }
  if (e.op == "fn" && ((e.str == "id" && e.a.size() == 1 && e.a[0]->op == "lit") || (e.str == "key" && e.a.size() == 2 && e.a[0]->op == "lit" && e.a[1]->op == "lit")) && e.fns.empty()) return;
  if (e.op != "path") throw Err{"not a pattern"};
  if (e.prim) { if (!e.preds.empty()) throw Err{"not a pattern"}; if (e.prim->op != "fn") throw Err{"not a pattern"}; checkPattern(*e.prim); }
  for (size_t i = 0; i < e.steps.size(); ++i) { auto& s = e.steps[i]; bool dos = s.axis == A_DOS && s.test.t == Test::NODE && s.preds.empty() && i + 1 < e.steps.size(); if (s.axis != A_CHILD && s.axis != A_ATTR && !dos) throw Err{"axis not allowed in a pattern"}; }
}
inline E compilePattern(const S& s, Env* env) { // literal "descendant-or-self::", "." and ".." are not pattern syntax
  for (auto& t : lex(s)) { (void)t; }
  Parser p(s, env);
  int depth = 0; for (auto& t : p.t) { if (t.t == Tok::SYM && (t.s == "[" || t.s == "(")) ++depth; if (t.t == Tok::SYM && (t.s == "]" || t.s == ")")) --depth; if (depth == 0) { if (t.t == Tok::AXIS && t.s != "child" && t.s != "attribute") throw Err{"axis not allowed in a pattern"}; if (t.t == Tok::SYM && (t.s == "." || t.s == "..")) throw Err{"not a pattern"}; if (t.t == Tok::SYM && t.s == "(") throw Err{"not a pattern"}; } }
  E e = p.parse(); checkPattern(*e); return e;
}
inline bool matches1(const E& e, Node* n, Env* env, Node* cur = nullptr) { for (Node* a = n; a; a = a->par) { Ctx c(a, env, 1, 1, cur ? cur : n); Value v = eval(e, c); if (std::find(v.ns.begin(), v.ns.end(), n) != v.ns.end()) return true; } return false; }
inline void alternatives(const E& e, std::vector<E>& r) { if (e->op == "|") { alternatives(e->a[0], r); alternatives(e->a[1], r); } else r.push_back(e); }
inline double defaultPriority(const E& e) {
  if (e->op != "path" || e->prim || e->abs || e->steps.size() != 1 || !e->steps[0].preds.empty()) return 0.5;
  auto& t = e->steps[0].test; if (t.t == Test::NAME || (t.t == Test::PI && t.haslit)) return 0; if (t.t == Test::NSANY) return -0.25; return -0.5;
}
inline bool matches(const E& e, Node* n, Env* env, Node* cur = nullptr) { return matches1(e, n, env, cur); }
} // namespace xr
