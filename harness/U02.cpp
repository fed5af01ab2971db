// U02: character classes over every code point; is_ncname / is_qname / parseQName over every short string and every BMP character in name positions.
#include "mc.hpp"
#include <libxml/chvalid.h>
#include <XML/XMLCharacterClasses.hpp>
#include <XML/QName.hpp>
#include <XML/strings.hpp>
#include <DOM/Simple/DOMImplementation.hpp>
namespace AX = Arabica::XML;
typedef std::string S; typedef std::wstring W; typedef Arabica::default_string_adaptor<S> SA; typedef Arabica::default_string_adaptor<W> WA;
static bool base(unsigned c) { return c <= 0xffff && xmlIsBaseCharQ(c); }
static bool ideo(unsigned c) { return c <= 0xffff && xmlIsIdeographicQ(c); }
static bool dig(unsigned c) { return c <= 0xffff && xmlIsDigitQ(c); }
static bool comb(unsigned c) { return c <= 0xffff && xmlIsCombiningQ(c); }
static bool ext(unsigned c) { return c <= 0xffff && xmlIsExtenderQ(c); }
static bool letter(unsigned c) { return base(c) || ideo(c); }
static bool start(unsigned c) { return letter(c) || c == '_'; }
static bool ncch(unsigned c) { return letter(c) || dig(c) || c == '.' || c == '-' || c == '_' || comb(c) || ext(c); }
template<class V> static bool ncname(const V& v) { if (v.empty() || !start(v[0])) return false; for (auto c : v) if (!ncch(c)) return false; return true; }
template<class V> static int colon(const V& v) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == ':') return (int)i; return -1; }
template<class V> static bool qname(const V& v) { int i = colon(v); return i < 0 ? ncname(v) : ncname(V(v.begin(), v.begin() + i)) && ncname(V(v.begin() + i + 1, v.end())); }
static S hex(unsigned c) { char b[16]; snprintf(b, 16, "U+%04X", c); return b; }
static void classes(mc::Ctx& c) {
  unsigned page = c.choose(0x44) * 64; for (unsigned k = 0; k < 256 * 64; ++k) { unsigned u = page * 256 + k; wchar_t w = u; c.transition(); 
    struct { const char* n; bool got, want; } t[] = {{"is_char", AX::is_char(w), xmlIsCharQ(u) != 0}, {"is_space", AX::is_space(w), u == 32 || u == 9 || u == 10 || u == 13}, {"is_name_char", AX::is_name_char(w), ncch(u) || u == ':'}, {"is_ncname_char", AX::is_ncname_char(w), ncch(u)},
      {"is_letter", AX::is_letter(w), letter(u)}, {"is_base_char", AX::is_base_char(w), base(u)}, {"is_ideographic", AX::is_ideographic(w), ideo(u)}, {"is_digit", AX::is_digit(w), dig(u)}, {"is_combining_char", AX::is_combining_char(w), comb(u)}, {"is_extender", AX::is_extender(w), ext(u)}, {"is_letter_or_digit", AX::is_letter_or_digit(w), letter(u) || dig(u)}};
    for (auto& e : t) if (e.got != e.want) { c.fail(S(e.n) + " " + hex(u), S(e.n) + "(" + hex(u) + ") = " + (e.got ? "true" : "false")); } }
  c.state(std::to_string(page));
}
static S utf8(const W& w) { S r; for (unsigned c : w) { if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); } else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); } } return r; }
template<class T> static T cv(const W& w); template<> S cv<S>(const W& w) { return utf8(w); } template<> W cv<W>(const W& w) { return w; }
template<class T, class A> static void names(mc::Ctx& c, const W& w, const char* kind) {
  c.transition(); T s = cv<T>(w); bool nc = ncname(w), q = qname(w); S u = utf8(w), d = S(kind) + " '" + u + "'";
  if (AX::is_ncname<A>(s) != nc) c.fail("is_ncname " + d, d + ": is_ncname = " + std::to_string(!nc));
  if (AX::is_qname<A>(s) != q) c.fail("is_qname " + d, d + ": is_qname = " + std::to_string(!q));
  for (int at = 0; at < 2; ++at) {
    std::map<T, T> ns; ns[cv<T>(L"")] = cv<T>(L"D"); ns[cv<T>(L"a")] = cv<T>(L"A"); ns[cv<T>(L"\x00e9")] = cv<T>(L"E"); S got, want; int i = colon(w);
    try { auto n = AX::QualifiedName<T, A>::parseQName(s, at, ns); got = A::asStdString(n.prefix()) + "|" + A::asStdString(n.localName()) + "|" + A::asStdString(n.namespaceUri()) + "|" + A::asStdString(n.rawName()) + "|" + A::asStdString(n.clarkName()) + "|" + std::to_string(n.has_prefix()) + std::to_string(n.has_namespaceUri()); } catch (std::runtime_error&) { got = "rejected"; }
    if (!q) want = "rejected"; else { S p = i < 0 ? "" : utf8(w.substr(0, i)), l = utf8(w.substr(i + 1)); S ur = i < 0 ? (at ? "" : "D") : p == "a" ? "A" : p == "\xc3\xa9" ? "E" : ""; want = p + "|" + l + "|" + ur + "|" + u + "|" + (ur.empty() ? l : "{" + ur + "}" + l) + "|" + std::to_string(i >= 0) + std::to_string(!ur.empty()); }
    if (got != want) c.fail("parseQName " + d, d + (at ? " attribute" : " element") + ": " + got + " want " + want);
  }
}
static void strings(mc::Ctx& c) {
  static const std::vector<wchar_t> al = {L'a', L'Z', L':', L'_', L'-', L'.', L'1', L' ', 0xb7, 0x300, 0xe9, 0x4e00, 0xd7, 0xff1a};
  W w; int n = c.choose(c.bound(5, 6)); for (int i = 0; i < n && i < 1; ++i) w += c.pick(al);
  std::function<void(W, int)> rec = [&](W v, int left) { if (!left) { c.state(utf8(v)); names<W, WA>(c, v, "wide"); names<S, SA>(c, v, "utf8"); return; } for (auto ch : al) rec(v + ch, left - 1); };
  rec(w, n > 1 ? n - 1 : 0);
}
// every BMP character at every position of a name
static void positions(mc::Ctx& c) {
  unsigned page = c.choose(256); for (unsigned k = 0; k < 256; ++k) { unsigned u = page * 256 + k; if (!u || (u >= 0xd800 && u < 0xe000)) continue; W x(1, (wchar_t)u);
    for (W w : {x, W(L"a") + x, x + L"a", W(L"a:") + x, x + L":a", W(L"a:b") + x, W(L"a") + x + L":b"}) { names<W, WA>(c, w, "wide"); names<S, SA>(c, w, "utf8"); } }
  c.state("p" + std::to_string(page));
}
static void one(mc::Ctx& c, const S& s) {
  // reference decoder
  W w; bool ok = true; for (size_t i = 0; ok && i < s.size();) { unsigned b = (unsigned char)s[i]; int l = b < 0x80 ? 1 : b >= 0xc2 && b < 0xe0 ? 2 : b >= 0xe0 && b < 0xf0 ? 3 : b >= 0xf0 && b < 0xf5 ? 4 : 0; if (!l || i + l > s.size()) { ok = false; break; } unsigned v = l == 1 ? b : b & (0xff >> (l + 1)); for (int k = 1; k < l; ++k) { unsigned t = (unsigned char)s[i + k]; if ((t & 0xc0) != 0x80) ok = false; v = v << 6 | (t & 63); } if ((l == 3 && v < 0x800) || (l == 4 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) ok = false; w += (wchar_t)v; i += l; }
  c.transition(); S d; for (unsigned char b : s) { char t[4]; snprintf(t, 4, "%02x", b); d += t; }
  if (AX::is_ncname<SA>(s) != (ok && ncname(w))) c.fail("bytes ncname " + d, d); if (AX::is_qname<SA>(s) != (ok && qname(w))) c.fail("bytes qname " + d, d);
}
// byte strings that are not UTF-8 are never names
static void bytes(mc::Ctx& c) {
  static const unsigned char al[] = {'a', ':', 0x80, 0xbf, 0xc0, 0xc1, 0xc3, 0xa9, 0xe0, 0xe4, 0xb8, 0xed, 0xa0, 0xf0, 0xf4, 0xf8, 0xff, 0xfe}; int first = c.choose(sizeof al + 1); c.state(std::to_string(first)); 
  std::function<void(S, int)> rec = [&](S s, int left) { one(c, s); if (left && first < (int)sizeof al) for (unsigned char b : al) rec(s + (char)b, left - 1); };
  rec(first < (int)sizeof al ? S(1, (char)al[first]) : S(), 3);
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"classes", classes}, {"strings", strings}, {"positions", positions}, {"bytes", bytes}}); }
