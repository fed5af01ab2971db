// X03: core function library over complete argument tables.
#include "xpath_bind.hpp"
static xr::Env E0;
static Bound& doc() { static Bound* b = nullptr; if (!b) {
  Doc* d = new Doc(newDoc()); El e = d->createElementNS("", "r"); d->appendChild(e); auto add = [&](S n, S v) { El x = d->createElementNS("", n); if (!v.empty()) x.appendChild(d->createTextNode(v)); e.appendChild(x); return x; };
  add("n", "2"); add("n", "3.5"); add("m", " -1 "); add("s", "abc"); add("z", ""); El q = d->createElementNS("urn:p", "p:q"); e.appendChild(q); q.setAttributeNS("urn:p", "p:x", "b"); q.setAttributeNS("", "y", "1"); q.setAttributeNS(XMLNS, "xmlns:p", "urn:p"); q.appendChild(d->createComment("com")); q.appendChild(d->createProcessingInstruction("tgt", "data")); q.appendChild(d->createCDATASection("cd")); q.appendChild(d->createTextNode("tx")); El l = add("b", "bcab"); l.appendChild(d->createElementNS("", "i")).appendChild(d->createTextNode(" in ner\n")); b = new Bound(*d); } return *b; }
static void call(mc::Ctx& c, const S& s, const char* sig, bool allctx = false) { Bound& b = doc(); c.note(s); c.state(s); if (!allctx) { check(c, b, b.t.root->kid[0], s, &E0, sig); return; } for (auto n : b.all) { check(c, b, n, s, &E0, sig); for (auto x : n->nss) check(c, b, x, s, &E0, sig); } }
static S str(mc::Ctx& c, const char* alpha, int max) { S r; int k = (int)strlen(alpha); while ((int)r.size() < max) { int i = c.choose(k + 1); if (!i) break; r += alpha[i - 1]; } return r; }
static S q(const S& s) { return s.find('\'') == S::npos ? "'" + s + "'" : "\"" + s + "\""; }
static const std::vector<S> NUMS = {"0", "1", "2", "3", "4", "1.5", "2.5", "0.5", "-0.5", "-0.4", "-1", "-1.5", "2.4", "2.6", "100", "1000000000000", "(0 div 0)", "(1 div 0)", "(-1 div 0)", "-0", "'2'", "'x'", "true()", "n", "nosuch", "0.49999999999999994", "4503599627370497.5", "-42"};
static void substring(mc::Ctx& c) { S v = c.pick(std::vector<S>{"''", "'a'", "'abcde'", "'12345'", "s", "nosuch", "12345", "true()"}); S a = c.pick(NUMS); if (c.flip()) call(c, "substring(" + v + "," + a + "," + c.pick(NUMS) + ")", "substring"); else call(c, "substring(" + v + "," + a + ")", "substring"); }
static void strpair(mc::Ctx& c) { S f = c.pick(std::vector<S>{"contains", "starts-with", "substring-before", "substring-after", "concat"}); S a = str(c, "ab", c.bound(4, 5)), b = str(c, "ab", 3); call(c, f + "(" + q(a) + "," + q(b) + ")", f.c_str()); }
static void translate(mc::Ctx& c) { S a = str(c, "abc", c.bound(2, 3)), b = str(c, "abc", 3), t = str(c, "xyb", c.bound(2, 4)); call(c, "translate(" + q(a + "cab") + "," + q(b) + "," + q(t) + ")", "translate"); }
static void normalize(mc::Ctx& c) { S a = str(c, "a \t\nb", c.bound(5, 7)); call(c, "normalize-space(" + q(a) + ")", "normalize-space"); call(c, "string-length(" + q(a) + ")", "string-length"); }
static const std::vector<S> ANY = {"0", "-0", "1", "-1", "1.5", "-2.5", "0.5", "-0.5", "-0.2", "2.5", "1e", "(0 div 0)", "(1 div 0)", "(-1 div 0)", "''", "'0'", "' 12 '", "'abc'", "'1 2'", "'-3.50'", "true()", "false()", "n", "n[2]", "m", "s", "z", "nosuch", ".", "/", "//@*", "//text()", "//comment()", "//processing-instruction()", "//namespace::*[name()='p']", "4503599627370496.5", "-4503599627370497.5", "0.49999999999999994"};
static void unary(mc::Ctx& c) {
  S f = c.pick(std::vector<S>{"string", "number", "boolean", "not", "floor", "ceiling", "round", "string-length", "normalize-space", "1 div round", "1 div ceiling", "concat(1,", "starts-with(1,", "round(-", "floor(-"}); S a = c.pick(ANY); if (a == "1e") a = "99999999999999999999999";
  call(c, f + (f.back() == ',' || f.back() == '-' ? "" : "(") + a + ")", "unary");
}
static void nodefns(mc::Ctx& c) {
  S f = c.pick(std::vector<S>{"name", "local-name", "namespace-uri", "count", "sum", "string", "number"}); S a = c.pick(std::vector<S>{"n", "n[2]", "m", "s", "z", "nosuch", ".", "/", "..", "//@*", "//@y", "//text()", "//comment()", "//processing-instruction()", "//namespace::*[name()='p']", "//p/..", "n|m", "m|n", "//*", "/..", "b/i", "*[6]", "*[6]/@*", "*[6]/node()", "preceding::node()", "ancestor::*"});
  call(c, f + "(" + a + ")", "nodefn", true);
}
// omitted arguments use the context node
static void omitted(mc::Ctx& c) { S f = c.pick(std::vector<S>{"name()", "local-name()", "namespace-uri()", "string()", "number()", "string-length()", "normalize-space()", "true()", "false()", "//*[position()=3]", "//*[last()]", "count(//*[string-length()=0])", "//*[number()=2]", "//*[name()='n']", "//*[local-name()='q']", "//*[string()='abc']", "//@*[namespace-uri()='urn:p']", "//*[normalize-space()='-1']"}); call(c, f, "omitted", true); }
// argument counts and unknown names are rejected; everything else accepted
static void arity(mc::Ctx& c) {
  static const std::vector<S> F = {"last", "position", "count", "local-name", "namespace-uri", "name", "string", "concat", "starts-with", "contains", "substring-before", "substring-after", "substring", "string-length", "normalize-space", "translate", "boolean", "not", "true", "false", "number", "sum", "floor", "ceiling", "round", "id", "lang", "nosuch", "current", "key", "String", "text-x", "p:string", "last-x"};
  S f = c.pick(F); int n = c.choose(5); S s = f + "("; for (int i = 0; i < n; ++i) s += i ? ",." : "."; s += ")"; c.note(s); c.state(s); c.transition();
  bool ok = true, rok = true; S err; xr::E r;
  try { XE x = engine().compile_expr(s); Bound& b = doc(); x.evaluate(b.real(b.t.root->kid[0])); } catch (std::exception& e) { ok = false; err = e.what(); }
  try { r = xr::compile(s, &E0); } catch (xr::Err& e) { rok = false; err += e.m; }
  if (ok != rok) c.fail("arity", s + (ok ? " accepted" : " rejected") + " " + err);
}
// id() and lang() on parsed documents
static void idlang(mc::Ctx& c) {
  S x = "<!DOCTYPE r [<!ATTLIST a id ID #IMPLIED>]><r xml:lang='en'><a id='i1' xml:lang='fr-CA'><b/></a><a id='i2'>i1</a><c xml:lang=''><a id='i3'>i2 i1</a></c></r>";
  static Bound* b = nullptr; static xr::Env E1; static Doc* d; if (!b) { d = new Doc(parseDoc(x)); b = new Bound(*d); for (auto n : b->all) if (n->k == xr::ATTR && n->local == "id") E1.ids[n->val] = n->par; }
  S s = c.pick(std::vector<S>{"id('i1')", "id('i2 i1')", "id(' i1\ti3\n')", "id('nosuch')", "id('')", "id(//a)", "id(//a[3])", "id(//nosuch)", "id('i1')/b", "id(id('i2'))", "count(id('i1 i1'))", "lang('en')", "lang('EN')", "lang('fr')", "lang('fr-ca')", "lang('fr-CA-x')", "lang('')", "lang('e')", "//*[lang('fr')]", "//*[lang('en')]"}); c.note(s); c.state(s);
  for (auto n : b->all) check(c, *b, n, s, &E1, "id/lang");
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"substring", substring}, {"strpair", strpair}, {"translate", translate}, {"normalize", normalize}, {"unary", unary}, {"nodefns", nodefns}, {"omitted", omitted}, {"arity", arity}, {"idlang", idlang}}); }
