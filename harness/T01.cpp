// T01: template conflict resolution across modules against the reference processor
#include "xslt_bind.hpp"
using namespace xb;
static const char* const DOC = "<r><a><b/><a><b>t</b></a></a><b q='1'><a/><!--k--></b></r>";
struct Dir { S d; std::vector<S> files; Dir() { char b[] = "/tmp/mcxsltXXXXXX"; if (!mkdtemp(b)) abort(); d = b; } ~Dir() { for (auto& f : files) unlink((d + "/" + f).c_str()); rmdir((d + "/s").c_str()); rmdir(d.c_str()); }
  void put(const S& f, const S& t) { if (f[0] == 's' && f[1] == '/') mkdir((d + "/s").c_str(), 0700); if (std::find(files.begin(), files.end(), f) == files.end()) files.push_back(f); std::ofstream o(d + "/" + f, std::ios::trunc); o << t; } };
static void cmp(mc::Ctx& c, const char* sig, Src& src, Dir& d, const S& main, const std::map<S, S>& mods) {
  c.transition(); Res r = ref(main, src, {}, mods); d.put("main.xsl", main); for (auto& m : mods) d.put(m.first, m.second); Lib l(Lib::File(), d.d + "/main.xsl"); Res x = l.dom(src.d); if (r.same(x)) return;
  S w; for (auto& m : mods) w += "\n" + m.first + ": " + m.second; c.fail(sig, "main: " + main + w + "\nreference " + r.show() + "\nlibrary   " + x.show());
}
static const std::vector<S> PAT = {"match='a'", "match='*'", "match='b|a'", "match='b/a' mode='m'", "match='a' mode='m'", "match='a' priority='-1'", "match='*' priority='1'", "match='*' mode='m' priority='.5'", "match='node()'", "match='a[b]'", "match='/'"};
static const std::vector<S> ACT = {"<xsl:apply-templates/>", "<xsl:apply-imports/>", "<xsl:apply-templates mode='m'/><xsl:apply-imports/>", "<xsl:apply-imports/><xsl:apply-templates select='*[1]'/><xsl:apply-imports/>", "<xsl:call-template name='n'/>", "<xsl:for-each select='*'><xsl:apply-templates select='.'/></xsl:for-each>|<xsl:apply-imports/>"};
static S rule(int i, const S& id) { int p = i % (int)PAT.size(), a = i / (int)PAT.size(); return "<xsl:template " + PAT[p] + "><" + id + ">" + ACT[a] + "</" + id + "></xsl:template>"; }
static S named(const S& id) { return "<xsl:template name='n'>n" + id + "<xsl:apply-imports/></xsl:template>"; }
// shapes: main and two or three modules; {} placeholders are filled with rules
struct Shape { const char* nm; const char* main; const char* a; const char* b; bool n[3]; };
#define IMP(f) "<xsl:import href='" f ".xsl'/>"
#define INC(f) "<xsl:include href='" f ".xsl'/>"
static const Shape SH[] = {
  {"imports a, b", IMP("a") IMP("b") "@", "@", "@", {false, true, true}}, {"imports a imports b", IMP("a") "@", IMP("b") "@", "@", {false, false, true}}, {"includes a after rules, imports b", IMP("b") "@" INC("a"), "@", "@", {true, false, true}},
  {"includes a before rules; a imports b", INC("a") "@", IMP("b") "@", "@", {false, true, true}}, {"imports a; a includes b", IMP("a") "@", "@" INC("b"), "@", {true, true, false}}, {"imports b, includes a importing b", IMP("b") INC("a") "@", IMP("b") "@", "@", {true, false, false}},
  {"imports a; includes b; a imports b", IMP("a") INC("b") "@", IMP("b") "@", "@", {false, true, false}}, {"includes a including b", INC("a") "@", INC("b") "@", "@", {false, false, true}}, {"imports a imports b; imports b", IMP("a") IMP("b") "@", IMP("b") "@", "@", {false, true, true}}, {"imports b, a importing b", IMP("b") IMP("a") "@", IMP("b") "@", "@", {true, true, true}},
};
static S fill(const char* t, const S& r) { S s = t; size_t p = s.find('@'); s.replace(p, 1, r); return wrap(s); }
static void modules(mc::Ctx& c) {
  int sh = c.choose((int)(sizeof SH / sizeof *SH)); int r0 = c.choose((int)(PAT.size() * ACT.size())); Src src(DOC); Dir d;
  std::vector<int> small; for (int i = 0; i < (int)(PAT.size() * ACT.size()); ++i) if (c.thorough() || ((i * 7 + r0) % 11) < 3) small.push_back(i);
  static const int tail[] = {0, 6, 15, 1 + 11}; 
  for (int r1 : small) for (int r2 : tail) {
    const Shape& s = SH[sh]; S e = "<xsl:template match='r'><xsl:apply-templates/></xsl:template>"; std::map<S, S> m;
    m["a.xsl"] = fill(s.a, rule(r1, "A") + (s.n[1] ? named("a") : "")); m["b.xsl"] = fill(s.b, rule(r2, "B") + (s.n[2] ? named("b") : ""));
    cmp(c, "modules", src, d, fill(s.main, rule(r0, "M") + (s.n[0] ? named("m") : "")), m);
  }
  c.state(std::to_string(sh) + "/" + std::to_string(r0));
}
// three rules in one module: priority, then last in document order; unions with mixed priorities; several modes
static void order(mc::Ctx& c) {
  int r0 = c.choose((int)PAT.size() * 2), r1 = c.choose((int)PAT.size() * 2); Src src(DOC); Dir d; int n2 = c.bound(11, 66);
  for (int r2 = 0; r2 < n2; ++r2) cmp(c, "order", src, d, wrap(rule(r0, "A") + rule(r1, "B") + rule(r2, "C") + "<xsl:template match='r' priority='9'><xsl:apply-templates/>;<xsl:apply-templates mode='m'/></xsl:template>"), {});
  c.state(std::to_string(r0) + "," + std::to_string(r1));
}
// module lookup relative to the including module, loops, repeated inclusion, named templates by precedence
static void lookup(mc::Ctx& c) {
  Src src(DOC); Dir d; static const char* kinds[] = {"import", "include"}; S t = "<xsl:template match='/'>", e = "</xsl:template>";
  int k0 = c.choose(2), k1 = c.choose(2), k2 = c.choose(3);
  auto ref1 = [&](int k, const S& h) { return S("<xsl:") + kinds[k] + " href='" + h + "'/>"; };
  // main -> s/a.xsl -> s/b.xsl (relative name b.xsl) -> ../c.xsl
  { S main = wrap(ref1(k0, "s/a.xsl") + "<xsl:template match='a'>M<xsl:call-template name='x'/><xsl:call-template name='y'/></xsl:template>"), a = wrap(ref1(k1, "b.xsl") + "<xsl:template name='x'>xa</xsl:template>"), b = wrap((k2 < 2 ? ref1(k2, "../c.xsl") : S()) + "<xsl:template name='y'>yb</xsl:template>" + (k1 == 0 ? "<xsl:template name='x'>xb</xsl:template>" : "")), cc = wrap("<xsl:template match='b'>C</xsl:template>" + S(k2 == 0 ? "<xsl:template name='y'>yc</xsl:template>" : ""));
    d.put("s/a.xsl", a); d.put("s/b.xsl", b); d.put("c.xsl", cc); d.put("main.xsl", main); Res r = ref(main, src, {}, {{"s/a.xsl", a}, {"b.xsl", b}, {"../c.xsl", cc}}); Lib l(Lib::File(), d.d + "/main.xsl"); Res x = l.dom(src.d); c.transition(); if (!r.same(x)) c.fail("relative", main + "\nreference " + r.show() + "\nlibrary " + x.show()); }
  // loops of length one to three
  for (int len = 1; len <= 3; ++len) { std::map<S, S> m; m["a.xsl"] = wrap(ref1(k1, len == 1 ? "a.xsl" : "b.xsl")); m["b.xsl"] = wrap(ref1(k2 % 2, len == 2 ? "a.xsl" : "c.xsl")); m["c.xsl"] = wrap(ref1(k0, "a.xsl")); cmp(c, "loop", src, d, wrap(ref1(k0, "a.xsl") + t + "x" + e), m); }
  // named templates: duplicates at one precedence are errors, otherwise the higher precedence wins
  { std::map<S, S> m; m["a.xsl"] = wrap("<xsl:template name='x'>A</xsl:template><xsl:variable name='v' select=\"'a'\"/>"); m["b.xsl"] = wrap((k2 ? ref1(k2 - 1, "a.xsl") : S()) + "<xsl:template name='x'>B</xsl:template><xsl:variable name='v' select=\"'b'\"/>");
    S use = t + "<xsl:call-template name='x'/><xsl:value-of select='$v'/>" + e; if (k0 <= k1) cmp(c, "named", src, d, wrap(ref1(k0, "a.xsl") + ref1(k1, "b.xsl") + use), m); cmp(c, "named", src, d, wrap(ref1(k0, "b.xsl") + "<xsl:template name='x'>M</xsl:template>" + use), m); cmp(c, "named", src, d, wrap(ref1(k0, "b.xsl") + use + "<xsl:variable name='v' select=\"'m'\"/>"), m); }
  // includes keep their place among the rules
  { std::map<S, S> m; m["a.xsl"] = wrap("<xsl:template match='a'>A</xsl:template><xsl:template match='b'>A</xsl:template>"); m["b.xsl"] = wrap("<xsl:template match='b'>B</xsl:template>" + (k2 ? ref1(1, "a.xsl") : S())); cmp(c, "place", src, d, wrap((k0 ? ref1(1, "a.xsl") : S()) + "<xsl:template match='a'>M</xsl:template>" + ref1(1, "b.xsl") + (k1 ? "<xsl:template match='b'>N</xsl:template>" : "") + (k0 ? S() : ref1(1, "a.xsl"))), m); }
  // prefixes and whitespace of the module itself
  { std::map<S, S> m; m["a.xsl"] = "<x:transform xmlns:x='http://www.w3.org/1999/XSL/Transform' xmlns:z='urn:z' version='1.0'><x:template match='a' mode='z:m'>\n <z:o> &lt;t&amp;t </z:o> <x:value-of select=\"local-name(/*[not(z:q)])\"/></x:template><x:template name='z:n'>&lt;n&gt; text</x:template></x:transform>";
    cmp(c, "prefix", src, d, wrap(ref1(k0, "a.xsl") + "<xsl:template match='r' xmlns:w='urn:z'><xsl:apply-templates mode='w:m'/><xsl:call-template name='w:n'/></xsl:template>"), m); cmp(c, "prefix", src, d, wrap(ref1(k0, "a.xsl") + "<xsl:template match='r' xmlns:z='urn:other'><xsl:apply-templates mode='z:m'/></xsl:template>"), m); cmp(c, "prefix", src, d, wrap(ref1(k0, "a.xsl") + "<xsl:template match='r'><xsl:apply-templates select='z:a'/></xsl:template>"), m); }
  c.state(std::to_string(k0 * 6 + k1 * 3 + k2));
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"modules", modules}, {"order", order}, {"lookup", lookup}}); }
