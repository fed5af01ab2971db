// S01: the events depend on the document only, not on how its bytes arrive, how they are encoded, or which string type receives them.
#include "sax_rec.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace sr;
template<class T> struct Out { S ev; int err = 0, fat = 0; bool thrown = false; bool operator==(const Out& o) const { return ev == o.ev && err == o.err && fat == o.fat && thrown == o.thrown; } S str() const { return ev + " err=" + std::to_string(err) + " fat=" + std::to_string(fat) + (thrown ? " thrown" : ""); } };
typedef Out<S> O;
// a stream buffer which gives out `step` bytes per underflow, or pieces ending at the given positions
struct Chunks : std::streambuf { S d; std::vector<size_t> cut; size_t pos = 0, k = 0; Chunks(const S& s, const std::vector<size_t>& c) : d(s), cut(c) { setg(&d[0], &d[0], &d[0]); }
  int_type underflow() { if (pos == d.size()) return traits_type::eof(); size_t e = d.size(); while (k < cut.size() && cut[k] <= pos) ++k; if (k < cut.size() && cut[k] < e) e = cut[k]; setg(&d[0] + pos, &d[0] + pos, &d[0] + e); pos = e; return traits_type::to_int_type(*gptr()); } };
template<class T> O run(std::istream& in) {
  Arabica::SAX::XMLReader<T> p; Rec<T> r; r.xmlnsAttrs = !XERCES; wire(p, r); Arabica::SAX::InputSource<T> is(in); O o;
  try { p.parse(is); } catch (const std::exception&) { o.thrown = true; }
  o.ev = join(r.sh.done()); o.err = r.err; o.fat = r.fat; if (r.bad && !r.fat) o.ev += "BAD " + r.why; return o;
}
template<class T> O str(const S& s) { std::istringstream in(s); return run<T>(in); }
// the interesting documents: every kind of construct, multi-byte characters, line ends, references, and broken ones
static std::vector<S> docs() {
  std::vector<S> v; const S e2 = "\xc3\xa9", e3 = "\xe2\x82\xac", e4 = "\xf0\x9d\x84\x9e";
  v.push_back("<r>a\r\nb\rc\n" + e2 + e3 + e4 + "</r>");
  v.push_back("<r a='" + e2 + "&#10;x\r\ny' b=\"" + e4 + "&lt;'\"><" + e2 + "/></r>");
  v.push_back("<r><![CDATA[a]]]><&" + e3 + "\r\n]]><!--c " + e4 + "-\r\n- --><?pi  d\r\n" + e2 + "?>&amp;&#x20AC;</r>");
  v.push_back("<p:r xmlns:p='u' xmlns='v'><a p:x='1'/><p:b xmlns:p='w'></p:b></p:r>\r\n<!--e-->");
  v.push_back("<!DOCTYPE r [<!ENTITY e 'x" + e3 + "<i/>'><!NOTATION n SYSTEM 's'>]><r>&e;t&e;</r>");
  v.push_back("<r><a></b></r>"); v.push_back("<r>" + e4.substr(0, 3) + "</r>"); v.push_back("<r>\x01</r>"); v.push_back("<r>&u;</r>"); v.push_back("<r><a>t"); v.push_back("<r/>x"); v.push_back("<r>]]></r>");
  return v;
}
static const int NGOOD = 5;
// every way of delivering: one byte at a time, every single cut, every pair of cuts (whole alphabet of reads below the parser's own buffer)
static void reads(mc::Ctx& c) {
  auto D = docs(); const S& d = D[c.choose(D.size())]; O want = str<S>(d); O ww = str<W>(d); c.state(want.str()); c.outcome(want.str()); c.transition();
  if (!(ww == want)) c.fail("wide", d + "\n narrow " + want.str() + "\n wide " + ww.str());
  size_t a = c.choose(d.size() + 1); std::vector<size_t> one; for (size_t i = 1; i < d.size(); ++i) one.push_back(i);
  for (size_t b = a; b <= d.size(); ++b) { if (b != a && XERCES && b != a + 1) continue; Chunks k(d, {a, b}); std::istream in(&k); O g = run<S>(in); c.transition(); if (!(g == want)) c.fail("reads", d + " cut " + std::to_string(a) + "," + std::to_string(b) + " got " + g.str() + " want " + want.str()); }
  if (a == 0) { Chunks k(d, one); std::istream in(&k); O g = run<S>(in); if (!(g == want)) c.fail("reads-bytewise", d); Chunks k2(d, one); std::istream in2(&k2); g = run<W>(in2); if (!(g == want)) c.fail("reads-bytewise-wide", d); }
}
// every byte of the document at every offset around the parsers' block boundaries
static void blocks(mc::Ctx& c) {
  auto D = docs(); int di = c.choose(D.size()); const S& d = D[di]; static const size_t BB[] = {4096, 8192, 10240, 16384, 20480, 32768, 1024, 65536}; size_t B = BB[c.choose(XERCES ? 3 : LIBXML ? 4 : c.bound(7, 8))]; int how = c.choose(3);
  O want = str<S>(d);
  for (size_t at = 0; at <= d.size(); ++at) {
    if (B < at + 16) continue; S s; O w = want;
    if (how == 0) { S pad(B - at - 7, 'p'); s = "<!--" + pad + "-->" + d; w.ev = ""; w.ev = want.ev; size_t k = w.ev.find("<< "); if (k == S::npos) { if (want.fat || want.thrown) continue; } else w.ev.insert(k + 3, "M" + q(pad) + " "); }
    else if (how == 1) { S pad(B - at, ' '); s = pad + d; if (d[0] != '<') continue; }
    else { if (d.compare(0, 3, "<r>") || at < 3) continue; S pad(B - at, 't'); s = "<r>" + pad + d.substr(3); O base = str<S>("<r>t" + d.substr(3)); w = base; size_t k = w.ev.find("T\"t"); if (k == S::npos) continue; w.ev.replace(k, 3, "T\"" + pad); }
    O g = str<S>(s); c.transition();
    // after an error the last run of text may be cut short
    if (di >= NGOOD) { if ((g.fat || g.thrown) != (w.fat || w.thrown) || g.err != w.err) c.fail("blocks-error", d + " at " + std::to_string(at) + "/" + std::to_string(B)); continue; }
    if (!(g == w)) c.fail("blocks", d + " with byte " + std::to_string(at) + " at " + std::to_string(B) + " how " + std::to_string(how));
    if (di < NGOOD && (B == 4096 || B == 10240)) { O gw = str<W>(s); if (!(gw == w)) c.fail("blocks-wide", d + " at " + std::to_string(at) + "/" + std::to_string(B)); }
  }
  c.outcome(want.str() + std::to_string(B)); c.state(want.ev + std::to_string(how));
}
static S u16(const S& s, bool be) { S r; auto put = [&](unsigned v) { char h = char(v >> 8), l = char(v & 255); if (be) r += h, r += l; else r += l, r += h; }; put(0xFEFF); for (wchar_t w : mk<W>(s)) { unsigned long v = (unsigned long)w; if (v < 0x10000) put((unsigned)v); else { v -= 0x10000; put(unsigned(0xD800 + (v >> 10))); put(unsigned(0xDC00 + (v & 0x3FF))); } } return r; }
// the same characters in another encoding are the same document
static void encodings(mc::Ctx& c) {
  auto D = docs(); int di = c.choose(NGOOD); const S& d = D[di]; int how = c.choose(6); bool wide = c.flip(); O want = str<S>(d); S s; c.transition();
  if (how == 0) s = u16(d, false); if (how == 1) s = u16(d, true); if (how == 2) s = "\xEF\xBB\xBF" + d; if (how == 3) s = "<?xml version='1.0' encoding='UTF-8'?>" + d;
  if (how == 4) { s = "<?xml version='1.0' encoding='ISO-8859-1'?>"; for (wchar_t w : mk<W>(d)) { if (w > 255) c.prune(); s += (char)w; } }
  if (how == 5) s = u16("<?xml version='1.0' encoding='UTF-16'?>" + d, c.flip());
  size_t n = s.size(), step = XERCES ? 7 : 1; O g0 = wide ? str<W>(s) : str<S>(s); c.outcome(g0.str()); c.state(want.str());
  if (!(g0 == want)) return c.fail("encoding", d + " how " + std::to_string(how) + "\n got " + g0.str() + "\n want " + want.str());
  for (size_t a = 1; a < n; a += step) { Chunks k(s, {a}); std::istream in(&k); O g = wide ? run<W>(in) : run<S>(in); c.transition(); if (!(g == want)) c.fail("encoding-reads", d + " how " + std::to_string(how) + " cut " + std::to_string(a)); }
}
// by stream, by file name, by file: URL, and as an external entity found by an entity resolver
struct Tmp { S d; Tmp() { char b[] = "/tmp/mcs01XXXXXX"; d = mkdtemp(b) ? b : ""; } ~Tmp() { for (auto& f : fs) unlink(f.c_str()); rmdir(d.c_str()); } std::vector<S> fs; S put(const S& n, const S& v) { S p = d + "/" + n; std::ofstream(p.c_str(), std::ios::binary) << v; fs.push_back(p); return p; } };
template<class T> static void sourcesT(mc::Ctx& c, const S& d, int how, O want) {
  Tmp t; S f = t.put("doc.xml", d); O o; Arabica::SAX::XMLReader<T> p; Rec<T> r; r.xmlnsAttrs = !XERCES; wire(p, r);
  try {
    if (how == 0) { Arabica::SAX::InputSource<T> is(mk<T>(f)); p.parse(is); }
    else if (how == 1) { Arabica::SAX::InputSource<T> is(mk<T>("file://" + f)); p.parse(is); }
    else if (how == 2) { Arabica::SAX::InputSource<T> is; is.setSystemId(mk<T>(f)); p.parse(is); }
    else if (how == 3) { std::ifstream in(f.c_str(), std::ios::binary); Arabica::SAX::InputSource<T> is(in); is.setSystemId(mk<T>("/nonexistent/ignored")); p.parse(is); }
    else { std::unique_ptr<std::istream> in(new std::istringstream(d)); Arabica::SAX::InputSource<T> is(std::move(in)); Arabica::SAX::InputSource<T> copy; copy = is; p.parse(copy); }
  } catch (const std::exception&) { o.thrown = true; }
  o.ev = join(r.sh.done()); o.err = r.err; o.fat = r.fat; c.outcome(o.str());
  if (!(o == want)) c.fail("source", d + " how " + std::to_string(how) + "\n got " + o.str() + "\n want " + want.str());
}
static void sources(mc::Ctx& c) { auto D = docs(); const S& d = D[c.choose(NGOOD)]; int how = c.choose(5); c.transition(); O want = str<S>(d); c.state(want.str()); if (c.flip()) sourcesT<W>(c, d, how, want); else sourcesT<S>(c, d, how, want); }
int main(int argc, char** argv) { return mc::run(argc, argv, {{"reads", reads}, {"blocks", blocks}, {"encodings", encodings}, {"sources", sources}}); }
