// S07: AttributesImpl and AttributeListImpl against a plain list, every operation sequence up to a depth.
#include "mc.hpp"
#include <SAX/helpers/AttributesImpl.hpp>
typedef std::string S; typedef Arabica::SAX::AttributesImpl<S> A; typedef Arabica::SAX::Attributes<S> AB;
struct At { S u, l, q, t, v; bool operator==(const At& r) const { return u == r.u && l == r.l && q == r.q && t == r.t && v == r.v; } };
typedef std::vector<At> L;
static S show(const L& l) { S r; for (auto& a : l) r += "{" + a.u + "}" + a.l + "/" + a.q + ":" + a.t + "=" + a.v + " "; return r; }
static L read(const AB& a) { L r; for (int i = 0; i < a.getLength(); ++i) r.push_back({a.getURI(i), a.getLocalName(i), a.getQName(i), a.getType(i), a.getValue(i)}); return r; }
static const std::vector<At> POOL = {{"", "a", "a", "CDATA", "1"}, {"u", "a", "p:a", "ID", "2"}, {"u", "a", "q:a", "CDATA", "3"}, {"v", "a", "p:a", "NMTOKEN", "4"}, {"", "", "b", "CDATA", ""}, {"u", "b", "b", "CDATA", "6"}};
static void check(mc::Ctx& c, const AB& a, const L& m, const char* who) {
  S d = S(who) + " " + show(m); if (a.getLength() != (int)m.size()) { c.fail(S(who) + "-length", d + " length " + std::to_string(a.getLength())); return; }
  if (!(read(a) == m)) c.fail(S(who) + "-items", d + " reads " + show(read(a)));
  for (unsigned i : {(unsigned)m.size(), (unsigned)m.size() + 1, 1000u, ~0u}) if (!a.getURI(i).empty() || !a.getLocalName(i).empty() || !a.getQName(i).empty() || !a.getType(i).empty() || !a.getValue(i).empty()) c.fail(S(who) + "-range", d + " index " + std::to_string(i));
  for (S q : {"a", "p:a", "q:a", "b", "zz", ""}) { int w = -1; for (size_t i = m.size(); i-- > 0;) if (m[i].q == q) w = (int)i; At e = w < 0 ? At() : m[w]; if (a.getIndex(q) != w || a.getType(q) != e.t || a.getValue(q) != e.v) c.fail(S(who) + "-qname", d + " " + q + ": " + std::to_string(a.getIndex(q)) + " " + a.getType(q) + " " + a.getValue(q)); }
  for (S u : {"", "u", "v", "zz"}) for (S l : {"a", "b", "", "zz"}) { int w = -1; for (size_t i = m.size(); i-- > 0;) if (m[i].u == u && m[i].l == l) w = (int)i; At e = w < 0 ? At() : m[w]; if (a.getIndex(u, l) != w || a.getType(u, l) != e.t || a.getValue(u, l) != e.v) c.fail(S(who) + "-nsname", d + " {" + u + "}" + l + ": " + std::to_string(a.getIndex(u, l)) + " " + a.getType(u, l) + " " + a.getValue(u, l)); }
}
static void ops(mc::Ctx& c) {
  A a, b; L m, n; int depth = c.bound(4, 5);
  for (int k = 0; k < depth; ++k) {
    int o = c.choose(1 + 6 + 3 + 6 + 6 + 6 + 6); if (!o) return; c.transition(); bool threw = false, wthrew = false; --o;
    try {
      if (o < 6) { auto& x = POOL[o]; c.note("add " + x.q); a.addAttribute(x.u, x.l, x.q, x.t, x.v); m.push_back(x); }
      else if (o < 9) { static const At R[] = {{"u", "a", "r:a", "NMTOKEN", "9"}, {"", "a", "a", "CDATA", "9"}, {"w", "c", "c", "CDATA", "9"}}; auto& x = R[o - 6]; c.note("addOrReplace " + x.q); int w = -1; for (size_t i = m.size(); i-- > 0;) if (m[i].u == x.u && m[i].l == x.l) w = (int)i; if (w < 0) m.push_back(x); else m[w].v = x.v; a.addOrReplaceAttribute(x.u, x.l, x.q, x.t, x.v); }
      else if (o < 15) { static const unsigned I[] = {0, 1, 2, 3, 7, ~0u}; unsigned i = I[o - 9]; c.note("remove " + std::to_string(i)); if (i < m.size()) m.erase(m.begin() + i); else wthrew = true; a.removeAttribute(i); }
      else if (o < 21) { static const unsigned I[] = {0, 1, 2, 3, 7, ~0u}; unsigned i = I[o - 15]; At x = {"s", "s", "s:s", "ENTITY", "5"}; c.note("set " + std::to_string(i)); if (i < m.size()) m[i] = x; else wthrew = true; a.setAttribute(i, x.u, x.l, x.q, x.t, x.v); }
      else if (o < 27) { int w = o - 21; unsigned i = w == 5 ? (unsigned)m.size() : m.empty() ? 0 : (unsigned)m.size() - 1; c.note("setter " + std::to_string(w)); if (w == 5) w = k % 5; wthrew = i >= m.size(); if (!wthrew) (w == 0 ? m[i].u : w == 1 ? m[i].l : w == 2 ? m[i].q : w == 3 ? m[i].t : m[i].v) = "x"; if (w == 0) a.setURI(i, "x"); else if (w == 1) a.setLocalName(i, "x"); else if (w == 2) a.setQName(i, "x"); else if (w == 3) a.setType(i, "x"); else a.setValue(i, "x"); }
      else { switch (o - 27) { case 0: c.note("clear"); a.clear(); m.clear(); break; case 1: c.note("copy-construct"); { const AB& r = a; A t(r); check(c, t, m, "copy"); A t2(a); check(c, t2, m, "copy2"); b = t2; n = m; } break; case 2: c.note("b=a"); { const AB& r = a; A& ret = (b = r); if (&ret != &b) c.fail("assign-return", "operator= does not return its object"); n = m; } break; case 3: c.note("a=b"); a = b; m = n; break; case 4: c.note("a=a"); { const AB& r = a; a = r; } break; default: c.note("setAttributes(b)"); a.setAttributes(b); m = n; } }
    } catch (std::out_of_range&) { threw = true; }
    if (threw != wthrew) c.fail("out-of-range", show(m) + (threw ? " threw" : " did not throw")); c.state(show(m) + "/" + show(n)); check(c, a, m, "list"); check(c, b, n, "other"); if ((a == b) != (m == n)) c.fail("equality", show(m) + " == " + show(n));
  }
}
// lists long enough to move storage around
static void longer(mc::Ctx& c) { A a; L m; int n = c.choose(40); for (int i = 0; i < n; ++i) { At x = {"u" + std::to_string(i % 7), "l" + std::to_string(i / 7), "q" + std::to_string(i), "CDATA", std::to_string(i)}; a.addAttribute(x.u, x.l, x.q, x.t, x.v); m.push_back(x); } check(c, a, m, "long"); c.state(std::to_string(n));
  for (int i = 0; i < n; ++i) { A t(a); L k = m; t.removeAttribute(i); k.erase(k.begin() + i); check(c, t, k, "long-remove"); c.transition(); if (t.getIndex(m[i].q) != -1 || (n > 1 && t.getIndex(k.back().u, k.back().l) != n - 2)) c.fail("long-index", std::to_string(i)); } }
int main(int argc, char** argv) { return mc::run(argc, argv, {{"ops", ops}, {"longer", longer}}); }
