// X02: operators and type coercions for every pair of operand types and values.
#include "xpath_bind.hpp"
static xr::Env E0;
static const std::vector<S> OPS = {"=", "!=", "<", "<=", ">", ">="};
static const std::vector<S> VALS = {"1", "2", "", "x", "-1", "1.0"};
static std::vector<S> seq(mc::Ctx& c, int max, const std::vector<S>& vals) { std::vector<S> r; while ((int)r.size() < max) { int k = c.choose((int)vals.size() + 1); if (!k) break; r.push_back(vals[k - 1]); } return r; }
static Doc setsDoc(mc::Ctx& c, const std::vector<S>& l, const std::vector<S>& r) {
  Doc d = newDoc(); El e = d.createElementNS("", "r"); d.appendChild(e); S n;
  for (auto& v : l) { El x = d.createElementNS("", "l"); if (!v.empty()) x.appendChild(d.createTextNode(v)); e.appendChild(x); n += "l='" + v + "' "; }
  for (auto& v : r) { El x = d.createElementNS("", "s"); if (!v.empty()) x.appendChild(d.createTextNode(v)); e.appendChild(x); n += "s='" + v + "' "; }
  c.note(n); return d;
}
// node-set against node-set: existential comparison over every pair of value sequences
static void sets(mc::Ctx& c) {
  int m = c.bound(2, 3); std::vector<S> l = seq(c, m, VALS), r = seq(c, m, VALS); Doc d = setsDoc(c, l, r); Bound b(d); c.state(c.trace());
  xr::Node* root = b.t.root->kid[0];
  for (auto& o : OPS) check(c, b, root, "l " + o + " s", &E0, "set-set");
  for (S x : {"l = l", "l != l", "l < l", "l <= l", "count(l|s)", "l|s", "s|l", "(l|s)[2]", "(s|l)[1] = l", "not(l = s)", "not(l != s)", "sum(l) = sum(s)", "l + s", "l * s", "l and s", "l or s", "-l", "l - s", "l div s", "l mod s"}) check(c, b, root, x, &E0, "set-set");
}
// node-set against every scalar, both ways round
static void setscalar(mc::Ctx& c) {
  std::vector<S> l = seq(c, c.bound(3, 4), VALS); Doc d = setsDoc(c, l, {}); Bound b(d); c.state(c.trace()); xr::Node* root = b.t.root->kid[0];
  static const std::vector<S> SC = {"1", "2", "0", "-1", "1.5", "(0 div 0)", "(1 div 0)", "(-1 div 0)", "-0", "'1'", "''", "'x'", "'1.0'", "' 1 '", "'true'", "true()", "false()", "nosuch", "."};
  for (auto& s : SC) for (auto& o : OPS) { check(c, b, root, "l " + o + " " + s, &E0, "set-scalar"); check(c, b, root, s + " " + o + " l", &E0, "scalar-set"); }
  for (auto& s : SC) for (S o : {"+", "-", "*", "div", "mod", "and", "or"}) { check(c, b, root, "l " + o + " " + s, &E0, "arith"); check(c, b, root, s + " " + o + " l", &E0, "arith"); }
}
// every operator over every pair of scalar operands (with conversions)
static const std::vector<S> OPERANDS = {"0", "-0", "1", "-1", "2", "3", "-3", "5", "0.5", "-0.5", "1.5", "-2.5", "7.25", "1000000", "123456789012", "99999999999999999999", "0.1", "0.000001", "(0 div 0)", "(1 div 0)", "(-1 div 0)", "''", "'0'", "'1'", "'-1'", "' 2 '", "'2.50'", "'abc'", "'1e3'", "'NaN'", "'Infinity'", "'true'", "'false'", "'-'", "'.5'", "'5.'", "true()", "false()", "/r/n", "/r/s", "/nosuch", "/r/*", "/r/z", "(/)"};
static void scalar(mc::Ctx& c) {
  static const std::vector<S> ALL = {"=", "!=", "<", "<=", ">", ">=", "+", "-", "*", "div", "mod", "and", "or", "|"};
  S l = c.pick(OPERANDS), r = c.pick(OPERANDS); S o = c.pick(ALL); if (o == "|" && r[0] == '-') c.prune(); c.note(l + " " + o + " " + r); c.state(c.trace());
  Doc d = newDoc(); El e = d.createElementNS("", "r"); d.appendChild(e); auto add = [&](S n, S v) { El x = d.createElementNS("", n); if (!v.empty()) x.appendChild(d.createTextNode(v)); e.appendChild(x); };
  add("n", "2"); add("n", "3"); add("s", "abc"); add("z", ""); Bound b(d);
  check(c, b, b.t.root, l + " " + o + " " + r, &E0, "scalar");
  if (o == "+") { check(c, b, b.t.root, "-" + l, &E0, "neg"); check(c, b, b.t.root, "--" + l, &E0, "neg"); check(c, b, b.t.root, "1 div (" + l + " * " + r + ")", &E0, "signed-zero"); }
  if (o == "mod") { check(c, b, b.t.root, "1 div (" + l + " mod " + r + ")", &E0, "signed-zero"); }
  if (o == "=") { check(c, b, b.t.root, "not(" + l + " = " + r + ")", &E0, "not"); check(c, b, b.t.root, "boolean(" + l + ") = boolean(" + r + ")", &E0, "boolean"); check(c, b, b.t.root, "string(" + l + ") = string(" + r + ")", &E0, "string"); check(c, b, b.t.root, "number(" + l + ") = number(" + r + ")", &E0, "number"); }
}
// three-operand chains: evaluation order, associativity and short circuit
static void chains(mc::Ctx& c) {
  static const std::vector<S> V = {"1", "2", "0", "'2'", "true()", "/r/n", "/nosuch", "(0 div 0)"}; static const std::vector<S> O = {"=", "!=", "<", ">=", "+", "-", "*", "div", "mod", "and", "or"};
  S s = c.pick(V) + " " + c.pick(O) + " " + c.pick(V) + " " + c.pick(O) + " " + c.pick(V); c.note(s); c.state(s);
  static Bound* b = nullptr; if (!b) { Doc* d = new Doc(newDoc()); El e = d->createElementNS("", "r"); d->appendChild(e); for (S v : {"2", "3"}) { El x = d->createElementNS("", "n"); x.appendChild(d->createTextNode(v)); e.appendChild(x); } b = new Bound(*d); }
  check(c, *b, b->t.root, s, &E0, "chain");
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"scalar", scalar}, {"setscalar", setscalar}, {"sets", sets}, {"chains", chains}}); }
