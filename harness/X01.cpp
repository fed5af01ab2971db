// X01: location paths select exactly the nodes XPath 1.0 defines.
#include "xpath_bind.hpp"
struct NsCtx : XP::NamespaceContext<S, Arabica::default_string_adaptor<S>> { S namespaceURI(const S& p) const { if (p == "p") return "urn:p"; if (p == "q") return "urn:q"; throw std::runtime_error(p); } };
static xr::Env env() { xr::Env e; e.nsmap = {{"p", "urn:p"}, {"q", "urn:q"}}; engine().setNamespaceContext(*new NsCtx); return e; }
static xr::Env E0 = env();
static std::vector<xr::Node*> contexts(Bound& b, bool ns) { std::vector<xr::Node*> v = b.all; if (ns) for (auto n : b.all) for (auto x : n->nss) v.push_back(x); return v; }
static void single(mc::Ctx& c) {
  GenOpt o; o.nodes = c.bound(3, 4); Doc d = genDoc(c, o, true); Bound b(d); c.state(c.trace());
  static std::vector<S> ex; if (ex.empty()) for (auto a : xr::axisNames) for (S t : {"*", "node()", "text()", "a", "comment()", "processing-instruction()", "processing-instruction('a')"}) for (S p : {"", "[1]", "[2]", "[last()]", "[position()>1][1]"}) ex.push_back(S(a) + "::" + t + p);
  for (auto n : b.all) for (auto& s : ex) check(c, b, n, s, &E0, "step");
}
static const std::vector<S>& attrExprs() { static std::vector<S> ex; if (ex.empty()) for (auto a : xr::axisNames) for (S t : {"*", "node()", "a", "p:*", "p:a", "x", "p:x", "xml", "p", "q:*"}) for (S p : {"", "[1]", "[last()]"}) { if (S(a) == "namespace" && !p.empty() && t != "p") continue; ex.push_back(S(a) + "::" + t + p); } return ex; }
static void attrs(mc::Ctx& c) {
  GenOpt o; o.nodes = c.bound(1, 2); o.attrs = true; o.ns = true; o.kinds = "aqt"; Doc d = genDoc(c, o, false); Bound b(d); c.state(c.trace());
  for (auto n : contexts(b, true)) for (auto& s : attrExprs()) check(c, b, n, s, &E0, "step");
}
// nested namespace declarations: shadowing, undeclaring, default namespaces
static void nsnest(mc::Ctx& c) {
  GenOpt o; o.nodes = c.bound(2, 3); o.ns = true; o.kinds = "aq"; Doc d = genDoc(c, o, false); Bound b(d); c.state(c.trace());
  static const std::vector<S> ex = {"namespace::*", "namespace::p", "namespace::xml", "namespace::node()", "count(namespace::*)", "//namespace::*", "//namespace::p[.='urn:q']", "p:*", "*/namespace::p/..", "//p:a", "a", "self::p:a", "ancestor::*/namespace::p", "namespace::q:p", "string(namespace::p)", "name(namespace::p)", "namespace-uri(namespace::p)", "following::node()", "preceding::node()", "namespace::p|.", "count(//namespace::*|//*)", "..", "namespace::p/following::*", "namespace::p/preceding::*", "namespace::p/ancestor-or-self::node()", "namespace::p/descendant-or-self::node()"};
  for (auto n : contexts(b, true)) for (auto& s : ex) check(c, b, n, s, &E0, "ns");
}
static void two(mc::Ctx& c) {
  GenOpt o; o.nodes = c.bound(2, 3); o.kinds = "abt"; Doc d = genDoc(c, o, false); Bound b0(d); for (auto n : b0.all) if (n->k == xr::ELEM && n->local != "b") El(b0.dom[n->idx]).setAttributeNS("", "x", "1"); Bound b(d); c.state(c.trace());
  static std::vector<S> ex; if (ex.empty()) for (auto a1 : xr::axisNames) for (auto a2 : xr::axisNames) for (S t1 : {"node()", "*"}) for (S t2 : {"node()", "*[1]", "a[last()]"}) { if (S(a2) == "namespace" && t2 == "*[1]") continue; ex.push_back(S(a1) + "::" + t1 + "/" + a2 + "::" + t2); }
  size_t part = c.choose(8); // split each document's expressions over several cases
  for (auto n : b.all) for (size_t i = part; i < ex.size(); i += 8) check(c, b, n, ex[i], &E0, "path");
}
// abbreviated syntax, absolute paths, filter expressions and nested predicates
static void forms(mc::Ctx& c) {
  GenOpt o; o.nodes = c.bound(4, 5); o.kinds = "abt"; Doc d = genDoc(c, o, false); if (c.flip()) d.getDocumentElement().setAttributeNS("", "x", "9"); Bound b(d); c.state(c.trace());
  static const std::vector<S> ex = {"/", "//a", "//a[1]", "(//a)[1]", "(//a)[last()]", "//a//b", "/r/a", "/r//b[2]", "/*", "/node()", ".", "..", "../..", "./a", ".//a", ".//text()", "//*[a]", "//a[b]/b", "//*[not(*)]", "a/b|b/a", "//text()|//a", "*[2]/*[1]", "*[position()=last()]", "//a[position()=2]", "//*[.='1']", "a[following-sibling::b]", "(a|b)[2]", "(a|b)[2]/text()", "//a[1]/following::*", "//b/preceding::*[1]", "(//b/preceding::*)[1]", "//a/ancestor::*[1]", "(//a/ancestor::*)[1]", "//@x", "//@*", "/r/@x/..", "//a/..", "//*[count(*)=2]", "//*[*[1][self::a]]", "//a[../b]", "*//*", "a[1][1]", "a[2][1]", "//*[last()=2]", "//*[text()][1]", "(//*)[2]/..", "*[self::a or self::b][last()]", "//a[preceding-sibling::*[1][self::b]]", "/descendant::a[2]", "descendant-or-self::a[1]", "(.//a)[2]", "..//a[1]", "//./a", "//../a", "/.", "/..", "/r/..//a", "string(//a)", "count(//node())", "//a[count(ancestor::*)=2]", "(preceding::a|following::a)[1]", "(ancestor::*)[1]", "ancestor::*[2]", "preceding-sibling::*[2]/following-sibling::*[1]", "*[1]|*[1]", "//*|//a", "//a[//b]", "//*[/r/a]", "((//a)[1]|(//b)[1])[1]", "//a[b[2]]", "//*[name()='a'][2]", "child::*/child::text()", "*/text()[1]", "//*[1]", "//*[last()]", "/r/*[last()-1]", "//a[.//b]/descendant::text()"};
  for (auto n : b.all) for (auto& s : ex) check(c, b, n, s, &E0, "form");
}
// predicates of every kind and value, alone, paired and on filter expressions
static void preds(mc::Ctx& c) {
  static const std::vector<S> ps = {"[1.5]", "[0]", "[-1]", "[0.5]", "[2.4]", "[last() div 2]", "[last()-1]", "[1 div 0]", "[0 div 0]", "[position()]", "[position()=1.5]", "['2']", "['']", "[true()]", "[false()]", "[number('2')]", "[.=2]", "[@x]", "[last()=3]", "[string-length('ab')]", "[count(*)]", "[round(1.5)]", "[3]", "[position() mod 2]", "[position() mod 2 = 1]", "[*]", "[not(*)]", "[number(@x)]", "[last()]", "[sum(@x)]", "[1+1]", "[-(-1)]", "[(1)]", "[(*)[1]]", "[position()!=last()]", "[1000000000000]", "[4294967297]", "[.]", "[string(@x)]", "[*=@x]"};
  static const std::vector<S> st = {"*", "ancestor-or-self::*", "preceding::*", "preceding-sibling::node()", "following::node()", "//a", "@*", "(//node())", "(ancestor::node())", "(preceding-sibling::*|following-sibling::*)", "descendant-or-self::node()"};
  static const std::vector<S> docs = {"<r x='2'><a x='1'>1<b/></a><a>2</a><a x='3'/><b><a/>3</b></r>", "<r><a/></r>", "<r><a x='2'><a x='2'>2<a>2</a></a></a>2<b/>2</r>"};
  S src = c.pick(docs); Doc d = parseDoc(src); Bound b(d); c.note(src); size_t i1 = c.choose((int)ps.size()); const S& p1 = ps[i1]; c.note(p1); c.state(src + p1);
  for (size_t i2 = 0; i2 < ps.size(); ++i2) for (auto& s : st) { auto& p2 = ps[i2]; if (!c.thorough() && i2 && (i1 + i2) % 4) continue; if (&p2 == &ps[0]) for (auto n : b.all) check(c, b, n, s + p1, &E0, "pred"); if (!c.thorough() && s[0] == '(' ) { check(c, b, b.all[b.all.size() / 2], s + p1 + p2, &E0, "pred"); continue; } for (auto n : b.all) check(c, b, n, s + p1 + p2, &E0, "pred"); }
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"single", single}, {"attrs", attrs}, {"nsnest", nsnest}, {"two", two}, {"forms", forms}, {"preds", preds}}); }
