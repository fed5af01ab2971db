// U01: URI components, printing and relative resolution against RFC 2396 / RFC 3986 path rules.
#include "mc.hpp"
#include <array>
#include <functional>
#include <io/uri.hpp>
using Arabica::io::URI; typedef std::string S;
static S show(const URI& u) { return "scheme=" + u.scheme() + " host=" + u.host() + " port=" + u.port() + " path=" + u.path() + (u.is_absolute() ? " abs " : " rel ") + u.as_string(); }
// reference: split into segments, drop dot segments, never above the root
static S normal(const S& p) {
  bool abs = !p.empty() && p[0] == '/'; std::vector<S> in, out; S cur; for (size_t i = abs; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') { in.push_back(cur); cur.clear(); } else cur += p[i];
  bool dir = false; for (auto& s : in) { dir = false; if (s == ".") dir = true; else if (s == "..") { dir = true; if (!out.empty() && out.back() != "..") out.pop_back(); else if (!abs) out.push_back(s); } else out.push_back(s); }
  S r = abs ? "/" : ""; for (size_t i = 0; i < out.size(); ++i) r += (i ? "/" : "") + out[i]; if (dir && !out.empty()) r += "/"; return r;
}
static S want(const S& auth, const S& base, const S& rel) {
  if (rel.empty()) return base; size_t q = rel.find_first_of("?#"); S suf = q == S::npos ? "" : rel.substr(q), r = rel.substr(0, q); S b = auth.empty() ? base : base.substr(0, base.find_first_of("?#"));
  if (auth.empty()) { suf = ""; r = rel; }
  if (r.empty()) return (suf[0] == '#' ? base.substr(0, base.find('#')) : b) + suf;
  if (r[0] == '/') return normal(r) + suf;
  size_t sl = b.rfind('/'); S m = (sl == S::npos ? (auth.empty() ? S() : S("/")) : b.substr(0, sl + 1)) + r; return normal(m) + suf;
}
// a path starting "//" cannot be told from an authority without one: RFC 3986 leaves such results aside
static void check(mc::Ctx& c, const S& scheme, const S& auth, const S& base, const S& rel) {
  S bs = (scheme.empty() ? "" : scheme + ":") + (auth.empty() ? (scheme == "file" ? "//" : "") : "//" + auth) + base; URI b(bs); c.transition(); S before = show(b);
  URI r(b, rel); S w = want(auth, base, rel);
  S d = "'" + rel + "' against '" + bs + "'"; if (show(b) != before) c.fail("base-changed", d);
  if (r.path() != w) { c.fail("path " + d, d + ": path '" + r.path() + "' want '" + w + "'"); return; }
  if (r.scheme() != b.scheme() || r.host() != b.host() || r.port() != b.port() || r.is_absolute() != b.is_absolute()) c.fail("authority " + d, d + ": " + show(r) + " base " + before);
  if (!auth.empty() || scheme == "file") { if (w.compare(0, 2, "//") && !w.empty()) { URI again(r.as_string()); if (!(again == r)) c.fail("reparse " + d, d + ": " + show(r) + " printed and parsed: " + show(again)); } }
  if (r.as_string() != (scheme.empty() ? "" : scheme + ":") + (b.is_absolute() ? "//" : "") + auth + w) c.fail("print " + d, d + ": " + r.as_string());
}
static const std::vector<std::pair<S, S>> SA = {{"http", "h"}, {"http", "h:81"}, {"https", "www.a.b"}, {"file", ""}, {"", ""}, {"ftp", "h"}};
static const std::vector<S> BP = {"", "/", "/a", "/a/", "/a/b", "/a/b/", "/a//b", "/a/b/c", "/a/b/c/", "/a.b/c..d", "//"};
static void resolve(mc::Ctx& c) {
  auto sa = c.pick(SA); S base = c.pick(BP); c.note(sa.first + ":" + sa.second + base); if (base.empty() && sa.second.empty()) c.prune(); if (base == "//" && sa.second.empty()) c.prune(); c.state(c.trace());
  static const std::vector<S> seg = {"a", ".", "..", "", "..a", "a..", "...", "b.c"}; bool lead = c.flip();
  std::function<void(S, int)> rec = [&](S p, int left) { for (auto& s : seg) for (bool last : {true, false}) { S q = p + s; if (last) { if (!(lead ? "/" + q : q).compare(0, 2, "//") && sa.first != "") continue; if (!lead && q.empty()) continue; S rel = (lead ? "/" : "") + q; if (!rel.compare(0, 2, "//")) continue; check(c, sa.first, sa.second, base, rel); } else if (left) { if (!lead && q.empty()) continue; rec(q + "/", left - 1); } } };
  rec("", c.bound(3, 4)); check(c, sa.first, sa.second, base, "");
}
// relative base paths (a document named by a plain file path)
static void plain(mc::Ctx& c) {
  static const std::vector<S> b = {"", "a", "a/b", "a/b/", "a/b/c", "../a/b", "../a", "a.b/c.d", "a#b/c", "a?b/c"}; S base = c.pick(b); c.note(base); c.state(base); static const std::vector<S> seg = {"a", ".", "..", "x.y", ""};
  std::function<void(S, int)> rec = [&](S p, int left) { for (auto& s : seg) { S q = p + s; if (!q.empty() && q.compare(0, 2, "//") && (p.empty() ? !s.empty() : true)) { if (!(q[0] == '/' )) { check(c, "", "", base, q); } } if (left && !q.empty()) rec(q + "/", left - 1); } };
  rec("", 3);
}
// queries and fragments are not part of the path
static void query(mc::Ctx& c) {
  auto sa = c.pick(SA); if (sa.second.empty()) c.prune(); S base = c.pick(std::vector<S>{"/a/b", "/a/b?q", "/a/b?q/r", "/a/b/?../x", "/a#f/g", "/?q/", "/a/?q#f"}); c.note(base); c.state(c.trace());
  for (S p : {"", "g", "../g", "/g", "./", "..", "g/./h", "a:b", "c/d:e"}) for (S s : {"", "?y", "?y/../x", "?y/./x", "#s", "#s/../x", "?y#s/./x"}) { S rel = p + s; if (p == "a:b" || (p.empty() && !s.empty() && s[0] == '?')) continue; check(c, sa.first, sa.second, base, rel); }
}
// a reference with its own scheme or authority
static void absolute(mc::Ctx& c) {
  auto sa = c.pick(SA); S base = c.pick(BP); if (base.empty() && sa.second.empty()) c.prune(); S bs = (sa.first.empty() ? "" : sa.first + ":") + (sa.second.empty() ? (sa.first == "file" ? "//" : "") : "//" + sa.second) + base; URI b(bs); c.note(bs); c.state(bs);
  static const std::vector<std::array<const char*, 5>> refs = {{"http://x/y", "http", "x", "80", "/y"}, {"http://x:8/", "http", "x", "8", "/"}, {"https://x.y/z/w", "https", "x.y", "443", "/z/w"}, {"ftp://x/y", "ftp", "x", "0", "/y"}, {"file:///x/y", "file", "", "0", "/x/y"}, {"http://x", "http", "x", "80", ""}, {"http://x:8", "http", "x", "8", ""}};
  for (auto& t : refs) { c.transition(); URI r(b, t[0]); S d = S(t[0]) + " against " + bs; if (r.scheme() != t[1] || r.host() != t[2] || r.port() != t[3] || r.path() != t[4] || !r.is_absolute() || r.as_string() != t[0]) c.fail("absolute " + d, d + ": " + show(r)); if (!(r == URI(t[0]))) c.fail("absolute-eq " + d, d); }
  if (!sa.second.empty()) for (S a : {"x", "x:8", "x.y"}) for (S p : {"", "/", "/y", "/y/../z", "/."}) { c.transition(); URI r(b, "//" + a + p); S host = a.substr(0, a.find(':')), d = "//" + a + p + " against " + bs; if (r.scheme() != sa.first || r.host() != host || (a == "x:8" && r.port() != "8") || r.path() != normal(p) || !r.is_absolute()) c.fail("network " + d, d + ": " + show(r)); }
}
static void components(mc::Ctx& c) {
  S sch = c.pick(std::vector<S>{"", "http", "https", "file", "ftp", "urn", "a+b-c.d"}), au = c.pick(std::vector<S>{"-", "h", "h:8", "u.v:80", "192.168.0.1:8080", ""}); c.note(sch + " " + au);
  if (au == "" && sch != "file") c.prune(); if (au != "-" && sch.empty()) c.prune(); if (au != "-" && au != "" && sch == "urn") c.prune();
  for (S p : {"", "/", "/a", "/a/b", "/a/b.c", "/a:b", "/a/b:c/d", "a", "a/b", "a/b:c", "./a:b", "..", "/a?b=c:d", "/a#b:c"}) {
    bool abspath = p.empty() || p[0] == '/'; if (au != "-" && !abspath) continue; if (au == "" && p.empty()) continue; S u = (sch.empty() ? "" : sch + ":") + (au == "-" ? "" : "//" + au) + p; c.transition(); c.state(u); URI x(u);
    S host = au == "-" ? "" : au.substr(0, au.find(':')), port = au.find(':') == S::npos ? (sch == "http" ? "80" : sch == "https" ? "443" : "0") : au.substr(au.find(':') + 1);
    if (x.scheme() != sch || x.host() != host || x.port() != port || x.path() != p) c.fail("components " + u, u + ": " + show(x));
    S pr = x.as_string(); if (pr != u && !(sch == "file" && au == "-" && pr == "file://" + p)) c.fail("print " + u, u + ": " + pr); if (!p.empty() || !host.empty()) { URI y(pr); if (!(y == x) || y != x) c.fail("reparse " + u, u + ": " + show(x) + " / " + show(y)); }
    URI cp(x), as; as = x; URI sw; sw.swap(cp); if (!(as == x) || !(sw == x) || show(sw) != show(x) || show(as) != show(x)) c.fail("copy " + u, u); URI e(x, ""); if (!(e == x)) c.fail("empty-ref " + u, u); }
}
// any string at all: no crash, stable under print and parse
static void strings(mc::Ctx& c) {
  static const std::vector<char> al = {'a', '.', '/', ':', '\\', '1'}; S p; int n = c.choose(3); for (int i = 0; i < n; ++i) p += c.pick(al);
  std::function<void(S, int)> rec = [&](S s, int left) {
    c.transition(); c.state(s); URI u(s); URI v(URI("http://h/a/b"), s); URI w(u, s); URI e(URI(), s); (void)v.as_string(); (void)w.as_string(); S t = s; for (auto& ch : t) if (ch == '\\') ch = '/';
    bool colon = s.find(':') != S::npos; if (!colon && (u.as_string() != t || u.path() != t || !u.scheme().empty())) c.fail("plain '" + s + "'", s + ": " + show(u));
    size_t d = s.find(':'); if (colon && s.substr(0, d).find('/') != S::npos && s.find('\\') == S::npos && (u.path() != s || !u.scheme().empty())) c.fail("colon-in-path '" + s + "'", s + ": " + show(u));
    if (left) for (char ch : al) rec(s + ch, left - 1); };
  if (n < 2) { URI u(p); (void)u; if (n == 0) rec("", 1); return; } rec(p, c.bound(3, 5));
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"resolve", resolve}, {"plain", plain}, {"query", query}, {"absolute", absolute}, {"components", components}, {"strings", strings}}); }
