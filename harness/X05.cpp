// X05: a match pattern matches a node exactly when some ancestor-or-self context's evaluation of it selects the node; default priorities.
#include "xpath_bind.hpp"
struct NsCtx : XP::NamespaceContext<S, Arabica::default_string_adaptor<S>> { S namespaceURI(const S& p) const { if (p == "p") return "urn:p"; if (p == "q") return "urn:q"; throw std::runtime_error(p); } };
static xr::Env env() { xr::Env e; e.nsmap = {{"p", "urn:p"}, {"q", "urn:q"}}; engine().setNamespaceContext(*new NsCtx); return e; }
static xr::Env E0 = env();
struct Pat { bool ok = false, rok = false; S err; std::vector<XP::MatchExpr<S>> lib; std::vector<xr::E> ref; };
static Pat& pat(const S& s) {
  static std::unordered_map<S, Pat> m; auto i = m.find(s); if (i != m.end()) return i->second; if (m.size() > 20000) m.clear(); Pat& p = m[s];
  try { p.lib = engine().compile_match(s); p.ok = true; } catch (std::exception& x) { p.err = x.what(); }
  try { xr::E e = xr::compilePattern(s, &E0); xr::alternatives(e, p.ref); p.rok = true; } catch (xr::Err& x) { p.err += " ref: " + x.m; }
  return p;
}
static void checkPat(mc::Ctx& c, Bound& b, const S& s, const std::vector<xr::Node*>& nodes) {
  Pat& p = pat(s); if (!p.rok) { c.fail("harness", s + p.err); return; } if (!p.ok) { c.fail("pattern-rejected " + s, s + ": " + p.err); return; }
  if (p.lib.size() != p.ref.size()) { c.fail("alternatives", s + ": " + std::to_string(p.lib.size())); return; }
  static XP::ExecutionContext<S, Arabica::default_string_adaptor<S>> ec;
  for (size_t i = 0; i < p.lib.size(); ++i) {
    if (p.lib[i].priority() != xr::defaultPriority(p.ref[i])) { c.fail("priority " + s, s + " alternative " + std::to_string(i) + " priority " + dstr(p.lib[i].priority()) + " want " + dstr(xr::defaultPriority(p.ref[i]))); return; }
    for (auto n : nodes) { bool want = xr::matches(p.ref[i], n, &E0); S got; c.transition();
      try { got = p.lib[i].evaluate(b.real(n), ec) ? "1" : "0"; } catch (std::exception& e) { got = S("exception ") + e.what(); }
      if (got != (want ? "1" : "0")) { c.fail("match " + s, s + " on " + Bound::name(n) + ": got " + got + " want " + std::to_string(want)); return; } }
  }
}
static const std::vector<S> T = {"a", "b", "*", "text()", "node()", "comment()", "processing-instruction()", "processing-instruction('a')", "@x", "@*", "@node()", "p:a", "p:*", "child::a", "attribute::x", "@p:x", "@p:*", "child::node()", "@ x", " a ", "node( )", "text( )", "child :: a"};
static const std::vector<S> PR = {"", "[1]", "[2]", "[last()]", "[position()=1]", "[not(position()=1)]", "[b]", "[@x]", "[..]", "[1][1]", "[@x][1]", "[2][1]", "[position()<2][@x]", "[.='1']", "[not(@x)]", "[count(preceding-sibling::*)=1]", "[position()=last()]", "[self::a]", "['']", "[1.5]", "[ancestor::a]", "[last()-1]", "[*[1][self::b]]", "[a[2]]", "[(1)]", "[(position()=1)]", "[number('2')]", " [1]", "[-1+2]", "[boolean(position()=2)]"};
static const std::vector<S> DOCS = {
  "<r x='0'><a x='1'><b/><a/><b x='1'>1</b></a>1<!--a--><a><a x='1'/></a><?a v?><b><a><b/></a></b></r>",
  "<!--a--><r xmlns:p='urn:p'><p:a p:x='2' x='1'><a/><p:a/></p:a><p:b>1<b/>1</p:b><a><p:a/></a></r><?a?>",
  "<a><a><a><a/></a></a></a>", "<a x='1'/>", "<r>1<b/>1<b/><![CDATA[1]]></r>"};
struct Docs { std::vector<Doc> d; std::vector<std::unique_ptr<Bound>> b; Docs() { for (auto& s : DOCS) { d.push_back(parseDoc(s)); b.emplace_back(new Bound(d.back())); } } };
static void checkAll(mc::Ctx& c, Docs& D, const S& s) { for (size_t i = 0; i < D.b.size(); ++i) { c.state(s + char('0' + i)); checkPat(c, *D.b[i], s, D.b[i]->all); } }
// one step with every predicate
static void single(mc::Ctx& c) {
  Docs D; S t = c.pick(T); c.note(t); S pre = c.pick(std::vector<S>{"", "/", "//"}); c.note(pre);
  for (auto& p : PR) { if (t == " a " && !p.empty()) continue; checkAll(c, D, pre + t + p); }
}
// two and three steps joined by / and //
static const std::vector<S> T1 = {"a", "*", "b", "p:*", "node()"}, T2 = {"a", "*", "b", "@x", "@*", "text()", "node()", "p:a", "comment()"};
static void multi(mc::Ctx& c) {
  Docs D; S h = c.pick(std::vector<S>{"", "/", "//"}) + c.pick(T1); static const std::vector<S> P1 = {"", "[1]", "[@x]", "[last()]", "[b]", "[not(position()=1)]"}; size_t pi = c.choose(c.bound(4, 6)); h += P1[pi]; c.note(h);
  static const std::vector<S> P2 = {"", "[1]", "[position()>1]", "[@x]", "[2]", "[last()]"};
  for (S j : {"/", "//"}) for (auto& t : T2) for (size_t q = 0; q < (c.thorough() ? P2.size() : 3); ++q) {
    S s = h + j + t + P2[q]; checkAll(c, D, s); if (t[0] == '@' || ((q || pi > 1 || t == "comment()" || t == "text()") && !c.thorough())) continue;
    for (S j2 : {"/", "//"}) for (S t3 : {"a", "b[1]", "*", "@x", "node()"}) checkAll(c, D, s + j2 + t3); }
}
// every bounded tree
static void trees(mc::Ctx& c) {
  GenOpt o; o.nodes = c.bound(3, 4); o.kinds = "abtc"; Doc d = genDoc(c, o, false); Bound b(d); c.state(c.trace());
  static const std::vector<S> ex = {"a", "b", "*", "r", "/", "a[1]", "a[2]", "*[2]", "*[last()]", "node()[1]", "node()[last()]", "text()[1]", "text()", "comment()[last()]", "a/b", "a//b", "r//a", "//a", "/r/a", "/*", "/r//b[1]", "a/b[1]", "a[1]/b", "a[1]//b", "a[b]", "a[not(position()=1)]", "*[position()=2]", "*[self::a][1]", "a[1][b]", "a[b][1]", "//a//a", "a/a/a", "a//a//b", "r/a[1]/a[1]", "*/*", "*/text()", "//*/a", "a|b", "a[1]|b[1]|text()", "/|a", "a/*[2]", "*[*]", "r/*[last()]/*", "a[preceding-sibling::a]", "a[../b]", "comment()", "node()", "r//node()", "r//text()[1]", "/r/node()[2]", "a[position()<last()]", "*[position() mod 2 = 1]", "*[count(a)=1]", "*[a[1]]", "b[last()=2]"};
  for (auto& s : ex) checkPat(c, b, s, b.all);
}
static void unions(mc::Ctx& c) {
  static const std::vector<S> u = {"a", "*", "@x", "/", "text()", "a/b", "//a", "p:*", "a[1]", "processing-instruction('a')", "@*", "node()"}; Docs D; S x = c.pick(u), y = c.pick(u); c.note(x + "|" + y);
  checkAll(c, D, x + "|" + y); checkAll(c, D, x + " | " + y); for (size_t z = 0; z < u.size(); z += c.bound(4, 1)) checkAll(c, D, x + "|" + y + "|" + u[z]);
}
// strings that are not patterns
static void rejected(mc::Ctx& c) {
  static const std::vector<S> bad = {"", "ancestor::a", "parent::a", "a/..", ".", "..", "self::a", "descendant::a", "a/", "//", "a//", "/a/", "a|", "|a", "1", "'a'", "$v", "a+b", "(a)", "a b", "a[", "a[]", "a]", "@", "@@x", "string(a)", "count(a)", "a/string(b)", "namespace::p", "following-sibling::b", "a/@", "child::", "::a", "a[1", "-a", "a=b", "u:a", "a and b", "descendant-or-self::a", "a/descendant-or-self::node()/b", "position()", "true()", "a[1]b", "//|a", "node(", "text(a)", "comment('a')", "node()()"};
  S s = c.pick(bad); c.note(s); c.state(s); c.transition(); Pat& p = pat(s); if (p.rok) c.fail("harness", s); if (p.ok) c.fail("accepted " + s, "'" + s + "' accepted as a pattern");
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"single", single}, {"multi", multi}, {"trees", trees}, {"unions", unions}, {"rejected", rejected}}); }
