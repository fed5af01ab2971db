// A small independent XML (+ namespaces) parser building reference trees, used to judge the library's output and to feed reference interpreters.
#pragma once
#include "xpath_ref.hpp"
#include <deque>
#include <set>
#include <string.h>
namespace xm {
using xr::S; using xr::Node; using xr::Tree;
inline void utf8(S& r, unsigned long c) { if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); } else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } else { r += char(0xF0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } }
struct Parse {
  S s; size_t i = 0; Tree& t; bool frag; S doctype, decl; bool marks; // marks: keep CDATA sections apart from text
  Parse(const S& x, Tree& tr, bool fr = false, bool mk = false) : t(tr), frag(fr), marks(mk) { for (size_t j = 0; j < x.size(); ++j) { if (x[j] == '\r') { s += '\n'; if (j + 1 < x.size() && x[j + 1] == '\n') ++j; } else s += x[j]; } t.root = t.mk(xr::ROOT); run(); t.finish(); }
  [[noreturn]] void bad(const S& m) { throw xr::Err{"ill-formed: " + m + " at " + std::to_string(i) + " of " + s}; }
  bool at(const char* p) const { return s.compare(i, strlen(p), p) == 0; }
  void space() { while (i < s.size() && xr::ws(s[i])) ++i; }
  S name() { size_t b = i; if (i >= s.size() || !(xr::nameStart(s[i]) || s[i] == ':')) bad("name"); while (i < s.size() && (xr::nameChar(s[i]) || s[i] == ':')) ++i; return s.substr(b, i - b); }
  S until(const char* e) { size_t p = s.find(e, i); if (p == S::npos) bad(S("no ") + e); S r = s.substr(i, p - i); i = p + strlen(e); return r; }
  void ref(S& o) { ++i; if (s[i] == '#') { ++i; bool h = s[i] == 'x'; if (h) ++i; S d = until(";"); if (d.empty() || d.find_first_not_of(h ? "0123456789abcdefABCDEF" : "0123456789") != S::npos) bad("character reference"); unsigned long v = strtoul(d.c_str(), nullptr, h ? 16 : 10); chr(v); utf8(o, v); return; }
    S n = until(";"); if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "amp") o += '&'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\''; else bad("entity " + n); }
  void chr(unsigned long c) { if ((c < 32 && c != 9 && c != 10 && c != 13) || (c >= 0xD800 && c < 0xE000) || c == 0xFFFE || c == 0xFFFF || c > 0x10FFFF) bad("character"); }
  static void split(const S& q, S& p, S& l) { size_t c = q.find(':'); if (c == S::npos) { p = ""; l = q; } else { p = q.substr(0, c); l = q.substr(c + 1); } }
  void addText(Node* n, const S& v, bool cd) { if (v.empty() && !cd) return; if (!n->kid.empty() && n->kid.back()->k == xr::TEXT && (!marks || (n->kid.back()->idx == 7) == cd) && !(marks && cd)) { n->kid.back()->val += v; return; } Node* x = t.mk(xr::TEXT); x->val = v; x->par = n; if (cd) x->idx = 7; n->kid.push_back(x); }
  typedef std::map<S, S> M;
  void run() {
    M sc; sc["xml"] = "http://www.w3.org/XML/1998/namespace"; if (s.compare(0, 3, "\xEF\xBB\xBF") == 0) i = 3;
    if (at("<?xml") && i + 5 < s.size() && xr::ws(s[i + 5])) { i += 5; decl = until("?>"); }
    content(t.root, sc, true); if (i != s.size()) bad("end"); int roots = 0; for (Node* k : t.root->kid) roots += k->k == xr::ELEM; if (!frag && roots != 1) bad("roots");
  }
  void content(Node* p, const M& sc, bool top) {
    S txt; auto flush = [&]() { if (top && !frag) { for (char c : txt) if (!xr::ws(c)) bad("text outside the root"); } else addText(p, txt, false); txt.clear(); };
    for (;;) {
      if (i >= s.size()) { if (!top) bad("unclosed"); flush(); return; }
      if (at("</")) { if (top) bad("end tag"); flush(); return; }
      if (at("<!--")) { flush(); i += 4; S v = until("-->"); if (v.find("--") != S::npos || (!v.empty() && v.back() == '-')) bad("comment"); legal(v); Node* x = t.mk(xr::COMM); x->val = v; x->par = p; p->kid.push_back(x); }
      else if (at("<![CDATA[")) { if (top && !frag) bad("cdata"); flush(); i += 9; S v = until("]]>"); legal(v); addText(p, v, true); }
      else if (at("<?")) { flush(); i += 2; S n = name(); if (n.size() == 3 && tolower(n[0]) == 'x' && tolower(n[1]) == 'm' && tolower(n[2]) == 'l') bad("xml pi"); if (n.find(':') != S::npos) bad("pi name"); S v; if (!at("?>")) { if (!xr::ws(s[i])) bad("pi"); space(); v = until("?>"); } else i += 2; legal(v); Node* x = t.mk(xr::PINS); x->local = n; x->val = v; x->par = p; p->kid.push_back(x); }
      else if (at("<!DOCTYPE")) { if (!top || !doctype.empty()) bad("doctype"); for (Node* k : p->kid) if (k->k == xr::ELEM) bad("doctype"); flush(); size_t b = i; int d = 0; char q = 0; for (; i < s.size(); ++i) { char c = s[i]; if (q) { if (c == q) q = 0; } else if (c == '"' || c == '\'') q = c; else if (c == '[') ++d; else if (c == ']') --d; else if (c == '>' && d == 0) break; } if (i >= s.size()) bad("doctype"); ++i; doctype = s.substr(b, i - b); }
      else if (s[i] == '<') { flush(); element(p, sc); }
      else if (s[i] == '&') { ref(txt); }
      else { if (at("]]>")) bad("]]>"); unsigned char c = s[i]; if (c < 32 && c != 9 && c != 10 && c != 13) bad("char"); txt += s[i++]; }
    }
  }
  void legal(const S& v) { for (unsigned char c : v) if (c < 32 && c != 9 && c != 10 && c != 13) bad("char"); }
  void element(Node* p, const M& up) {
    ++i; S qn = name(); Node* e = t.mk(xr::ELEM); e->par = p; p->kid.push_back(e); M sc = up; std::vector<std::pair<S, S>> at_; 
    for (;;) { size_t b = i; space(); if (i >= s.size()) bad("tag"); if (at("/>") || s[i] == '>') break; if (b == i) bad("space"); S an = name(); space(); if (s[i] != '=') bad("="); ++i; space(); char q = s[i]; if (q != '"' && q != '\'') bad("quote"); ++i; S v; while (i < s.size() && s[i] != q) { if (s[i] == '<') bad("< in attribute"); if (s[i] == '&') ref(v); else { unsigned char c = s[i]; if (c < 32 && !xr::ws(c)) bad("char"); v += xr::ws(c) ? ' ' : s[i]; ++i; } } if (i >= s.size()) bad("attribute"); ++i;
      for (auto& a : at_) if (a.first == an) bad("duplicate attribute " + an); at_.push_back({an, v});
      S ap, al; split(an, ap, al); if (al.empty() || al.find(':') != S::npos) bad("qname"); if (an == "xmlns") { sc[""] = v; t.nsd[e][""] = v; } else if (ap == "xmlns") { if (v.empty() || al == "xmlns") bad("undeclaring " + al); if ((al == "xml") != (v == "http://www.w3.org/XML/1998/namespace")) bad("xml prefix"); sc[al] = v; t.nsd[e][al] = v; } }
    auto uri = [&](const S& q, Node* n, bool attr) { S pf, l; split(q, pf, l); if (l.empty() || l.find(':') != S::npos) bad("qname"); n->prefix = pf; n->local = l; if (pf.empty()) { if (!attr && sc.count("")) n->ns = sc[""]; } else { if (!sc.count(pf)) bad("unbound prefix " + pf); n->ns = sc[pf]; } };
    uri(qn, e, false);
    for (auto& a : at_) { if (a.first == "xmlns" || a.first.compare(0, 6, "xmlns:") == 0) continue; Node* x = t.mk(xr::ATTR); x->par = e; x->val = a.second; uri(a.first, x, true); for (Node* o : e->att) if (o->ns == x->ns && o->local == x->local) bad("duplicate attribute {" + x->ns + "}" + x->local); e->att.push_back(x); }
    if (at("/>")) { i += 2; return; } ++i; content(e, sc, false); i += 2; if (name() != qn) bad("end tag"); space(); if (i >= s.size() || s[i] != '>') bad("end tag"); ++i;
  }
};
inline S q(const S& v) { S r = "\""; for (char c : v) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else r += c; } return r + "\""; }
// canonical text: names by expanded name, attributes sorted, adjacent text merged
inline S canon(const Node* n, bool marks = false) {
  S r; switch (n->k) {
    case xr::ROOT: break; case xr::ELEM: { r = "<{" + n->ns + "}" + n->local; std::vector<S> v; for (Node* a : n->att) v.push_back(" {" + a->ns + "}" + a->local + "=" + q(a->val)); std::sort(v.begin(), v.end()); for (auto& a : v) r += a; r += ">"; break; }
    case xr::TEXT: return (marks && n->idx == 7 ? "C" : "") + q(n->val); case xr::COMM: return "!" + q(n->val); case xr::PINS: return "?" + n->local + q(n->val); case xr::ATTR: return "@{" + n->ns + "}" + n->local + "=" + q(n->val); case xr::NSN: return "#" + n->local + "=" + q(n->val); }
  S run; bool any = false; auto fl = [&]() { if (any && !run.empty()) r += q(run); run.clear(); any = false; };
  for (Node* c : n->kid) { if (c->k == xr::TEXT && !(marks && c->idx == 7)) { run += c->val; any = true; } else { fl(); r += canon(c, marks); } } fl();
  if (n->k == xr::ELEM) r += "</>"; return r;
}
inline S canonXml(const S& xml, bool frag = false, bool marks = false) { Tree t; Parse p(xml, t, frag, marks); return canon(t.root, marks); }
} // namespace xm
