// C02: base64, against an RFC 4648 encoder/decoder written independently.
#include "mc.hpp"
#include <convert/base64codecvt.hpp>
#include <io/convertstream.hpp>
#include <io/convert_adaptor.hpp>
#include <cstring>
#include <sstream>
typedef std::codecvt_base cb;
struct B64 : Arabica::convert::base64codecvt { ~B64() {} };
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string enc(const std::string& s)
{
  std::string o;
  for(size_t i = 0; i < s.size(); i += 3)
  {
    unsigned long v = 0; size_t n = std::min<size_t>(3, s.size() - i);
    for(size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)s[i+k] : 0);
    for(size_t k = 0; k < 4; ++k) o += k <= n ? A[v >> (18 - 6*k) & 63] : '=';
  }
  return o;
}
static std::string hex(const std::string& s) { std::ostringstream o; o << std::hex; for(unsigned char c : s) o << (int)c << ' '; return o.str(); }

struct Heap { char* p; size_t n; Heap(size_t k) : p((char*)::operator new(k)), n(k) {} Heap(const std::string& s) : p((char*)::operator new(s.size())), n(s.size()) { if(n) std::memcpy(p, s.data(), n); } ~Heap() { ::operator delete(p); } };

// one call sequence: caps is a cyclic schedule of output capacities
static bool encodeAll(mc::Ctx& c, const B64& f, const std::string& s, const std::vector<int>& caps, std::string& got)
{
  std::mbstate_t st = std::mbstate_t();
  Heap in(s); const char* at = in.p; got.clear();
  for(size_t k = 0; ; ++k)
  {
    Heap out(caps[k % caps.size()]); const char* fn = 0; char* tn = 0;
    cb::result r = f.out(st, at, in.p + in.n, fn, out.p, out.p + out.n, tn);
    c.transition();
    if(fn < at || fn > in.p + in.n || tn < out.p || tn > out.p + out.n) { c.fail("encode pointers", hex(s)); return false; }
    got.append(out.p, tn);
    bool progress = fn != at || tn != out.p; at = fn;
    if(r == cb::ok) { if(at != in.p + in.n) { c.fail("encode ok early", hex(s)); return false; } return true; }
    if(r != cb::partial) { c.fail("encode result", hex(s)); return false; }
    if(!progress && out.n) { c.fail("encode stuck", hex(s)); return false; }
    if(k > 200) { c.fail("encode never ends", hex(s)); return false; }
  }
}
// the encoded text arrives in pieces (bits of cuts), each decoded with the capacity schedule
static bool decodeAll(mc::Ctx& c, const B64& f, const std::string& s, unsigned cuts, const std::vector<int>& caps, std::string& got)
{
  std::mbstate_t st = std::mbstate_t(); got.clear();
  for(size_t i = 0; i < s.size(); )
  {
    std::string piece(1, s[i++]); while(i < s.size() && !(cuts >> (i-1) & 1)) piece += s[i++];
    Heap in(piece); const char* at = in.p;
    for(size_t k = 0; ; ++k)
    {
      Heap out(caps[k % caps.size()]); const char* fn = 0; char* tn = 0;
      cb::result r = f.in(st, at, in.p + in.n, fn, out.p, out.p + out.n, tn);
      c.transition();
      if(fn < at || fn > in.p + in.n || tn < out.p || tn > out.p + out.n) { c.fail("decode pointers", hex(s)); return false; }
      got.append(out.p, tn);
      bool progress = fn != at || tn != out.p; at = fn;
      if(r == cb::ok) { if(at != in.p + in.n) { c.fail("decode ok early", hex(s)); return false; } break; }
      if(r == cb::error) return true;
      if(!progress && out.n) { c.fail("decode stuck", hex(s)); return false; }
      if(k > 200) { c.fail("decode never ends", hex(s)); return false; }
    }
  }
  return true;
}
static const std::vector<std::vector<int>>& schedules()
{
  static std::vector<std::vector<int>> v;
  if(v.empty()) { for(int i = 1; i <= 9; ++i) v.push_back({i}); v.push_back({64}); for(int a = 0; a < 5; ++a) for(int b = 1; b < 5; ++b) { v.push_back({a, b}); for(int d = 1; d < 4; ++d) v.push_back({a, b, d}); } }
  return v;
}
static bool codec(mc::Ctx& c, const B64& f, const std::string& s, int depth)
{
  std::string want = enc(s), got;
  const auto& sch = schedules();
  for(size_t i = 0; i < (depth > 1 ? sch.size() : depth ? 10 : 1); ++i)
  {
    const auto& caps = depth ? sch[i] : sch[9];
    if(!encodeAll(c, f, s, caps, got)) return false;
    if(got != want) { c.fail("encode", "[" + hex(s) + "] gives " + got + " not " + want + ", capacities " + std::to_string(caps[0])); return false; }
    if(!decodeAll(c, f, want, 0, caps, got)) return false;
    if(got != s) { c.fail("decode", want + " gives [" + hex(got) + "], capacities " + std::to_string(caps[0])); return false; }
  }
  if(depth > 1)
  {
    for(unsigned cuts = 0; cuts < (1u << (want.size() ? std::min<size_t>(want.size(), 9) - 1 : 0)); ++cuts)
    {
      if(!decodeAll(c, f, want, cuts, {64}, got)) return false;
      if(got != s) { c.fail("decode in pieces", want + " cut " + std::to_string(cuts) + " gives [" + hex(got) + "]"); return false; }
      if(!decodeAll(c, f, want, cuts, {1}, got)) return false;
      if(got != s) { c.fail("decode in pieces", want + " cut " + std::to_string(cuts) + " by ones gives [" + hex(got) + "]"); return false; }
    }
    // line breaks are not part of the data
    for(size_t i = 0; i <= want.size(); ++i)
    {
      std::string broken = want; broken.insert(i, i & 1 ? "\n" : "\r\n");
      if(!decodeAll(c, f, broken, 0, {64}, got)) return false;
      if(got != s) { c.fail("decode with line break", hex(broken) + " gives [" + hex(got) + "]"); return false; }
    }
    Heap in(want);
    for(size_t max = 0; max <= s.size() + 2; ++max)
    {
      std::mbstate_t st = std::mbstate_t();
      int n = f.length(st, in.p, in.p + in.n, max);
      // exactly enough input for max bytes: the bytes must come from that much input and no more than max of them
      std::string part;
      if(n < 0 || (size_t)n > want.size() || !decodeAll(c, f, want.substr(0, n), 0, {64}, part) || part != s.substr(0, max))
      { c.fail("length", want + " max " + std::to_string(max) + " is " + std::to_string(n)); return false; }
    }
    std::mbstate_t st = std::mbstate_t(); char buf[4]; char* tn = 0;
    cb::result r = f.unshift(st, buf, buf + 4, tn);
    if((r != cb::ok && r != cb::noconv) || tn != buf) { c.fail("unshift", ""); return false; }
  }
  return true;
}

static void twoBytes(mc::Ctx& c)
{
  int a = c.choose(257); B64 f;
  if(a == 256) { codec(c, f, "", 2); return; }
  if(!codec(c, f, std::string(1, (char)a), 2)) return;
  for(int b = 0; b < 256; ++b) if(!codec(c, f, std::string(1, (char)a) + (char)b, c.thorough() ? 2 : 1)) return;
  c.state(std::to_string(a));
}
static void threeBytes(mc::Ctx& c)
{
  int a = c.choose(256); B64 f;
  // every pair of the third byte's bits with each possible neighbour: all 256^3 in the thorough tier
  for(int b = 0; b < 256; ++b)
    for(int d = 0; d < 256; d += c.thorough() ? 1 : 17)
      if(!codec(c, f, std::string(1, (char)a) + (char)b + (char)d, 0)) return;
  c.state("3/" + std::to_string(a));
}
static void longer(mc::Ctx& c)
{
  static const char al[] = { 0, 'A', (char)0xFF, (char)0x80, 0x3F };
  int x = c.choose(5), y = c.choose(5); B64 f;
  std::function<bool(std::string, int)> rec = [&](std::string s, int n) {
    if(!codec(c, f, s, n <= 4 ? 2 : 1)) return false;
    if(n == c.bound(5, 7)) return true;
    for(char ch : al) if(!rec(s + ch, n + 1)) return false;
    return true; };
  rec(std::string(1, al[x]) + al[y], 2);
  c.state("l" + std::to_string(x) + std::to_string(y));
}
// anything at all as input: terminates, stays inside its buffers, at most 3 bytes out for 4 in
static void anything(mc::Ctx& c)
{
  static const char al[] = { 'A', '/', '=', '\n', (char)0x80, 0, '-' };
  int x = c.choose(7), y = c.choose(7); B64 f;
  std::function<bool(std::string, int)> rec = [&](std::string s, int n) {
    std::string got, one;
    for(auto& caps : { std::vector<int>{64}, std::vector<int>{1} })
    {
      if(!decodeAll(c, f, s, 0, caps, got)) return false;
      if(got.size() * 4 > s.size() * 3) { c.fail("decode makes too much", hex(s) + " gives " + hex(got)); return false; }
      if(caps[0] == 64) one = got; else if(got != one) { c.fail("decode depends on capacity", hex(s)); return false; }
    }
    for(unsigned cuts = 1; cuts < (1u << (s.size() - 1)); ++cuts)
    {
      if(!decodeAll(c, f, s, cuts, {64}, got)) return false;
      if(got != one) { c.fail("decode depends on pieces", hex(s) + " cut " + std::to_string(cuts)); return false; }
    }
    if(n == c.bound(5, 6)) return true;
    for(char ch : al) if(!rec(s + ch, n + 1)) return false;
    return true; };
  rec(std::string(1, al[x]) + al[y], 2);
  c.state("a" + std::to_string(x) + std::to_string(y));
}
// two users of one facet, their calls interleaved every way: neither sees the other's state
static void shared(mc::Ctx& c)
{
  const char* data[] = { "A", "Bc", "Def", "\0gh" };
  size_t len[] = { 1, 2, 3, 3 };
  int i = c.choose(4), j = c.choose(4); bool in = c.flip();
  B64 f;
  std::string s[2] = { std::string(data[i], len[i]), std::string(data[j], len[j]) }, e[2] = { enc(s[0]), enc(s[1]) };
  std::string src[2], want[2], got[2];
  for(int k = 0; k < 2; ++k) { src[k] = in ? e[k] : s[k]; want[k] = in ? s[k] : e[k]; }
  std::mbstate_t st[2] = { std::mbstate_t(), std::mbstate_t() }; const char* at[2] = { src[0].data(), src[1].data() }; bool done[2] = { false, false };
  while(!done[0] || !done[1])
  {
    int k = done[0] ? 1 : done[1] ? 0 : c.choose(2);
    char out; char* tn; const char* fn; const char* end = src[k].data() + src[k].size();
    cb::result r = in ? f.in(st[k], at[k], end, fn, &out, &out + 1, tn) : f.out(st[k], at[k], end, fn, &out, &out + 1, tn);
    c.transition(); c.note(std::to_string(k));
    got[k].append(&out, tn); at[k] = fn; done[k] = r == cb::ok;
    if(got[k].size() > 8) break;
  }
  for(int k = 0; k < 2; ++k) if(got[k] != want[k]) { c.fail(in ? "shared facet decoding" : "shared facet encoding", hex(got[k]) + " not " + hex(want[k])); return; }
  c.state(hex(s[0]) + "/" + hex(s[1]));
}
// through the streams: any write and flush pattern decodes to the same bytes, unflushed data is one encoding
static void streams(mc::Ctx& c)
{
  int n = c.choose(c.bound(7, 9)); unsigned flushes = n > 1 ? c.choose(1 << (n - 1)) : 0; int kind = c.choose(3);
  static const char al[] = { 0, 'A', (char)0xFF, '\n', (char)0x80, 'z', 1, '=', ' ' };
  std::string s; for(int i = 0; i < n; ++i) s += al[(i + kind * 3) % 9];
  std::locale loc(std::locale::classic(), new B64);
  std::ostringstream sink;
  std::string want;
  {
    Arabica::io::oconvert_adaptor<char> os(sink); os.imbue(loc);
    std::string block;
    for(int i = 0; i < n; ++i)
    {
      if(kind == 0) os.put(s[i]); else if(kind == 1) os.write(&s[i], 1); else os << s[i];
      block += s[i];
      if(i + 1 < n && flushes >> i & 1) { os.flush(); want += enc(block); block.clear(); if(sink.str() != want) { c.fail("flush", hex(s)); return; } }
    }
    want += enc(block);
    if(!os) { c.fail("ostream state", hex(s)); return; }
  }
  c.transition();
  if(sink.str() != want) { c.fail("ostream encodes", "[" + hex(s) + "] gives " + sink.str() + " not " + want); return; }
  std::istringstream src(want);
  Arabica::io::iconvert_adaptor<char> is(src); is.imbue(loc);
  std::string got; char ch; while(is.get(ch)) got += ch;
  if(got != s) { c.fail("istream decodes", want + " gives [" + hex(got) + "]"); return; }
  Arabica::io::converting_ostringstream co; co.imbue(loc); co.write(s.data(), s.size());
  std::string e2 = co.str();
  if(e2 != enc(s)) { c.fail("converting_ostringstream", hex(s) + " gives " + e2); return; }
  Arabica::io::converting_istringstream ci; ci.imbue(loc); ci.str(want);
  if(ci.str() != s) { c.fail("converting_istringstream", want); return; }
  c.state(hex(s));
}
static void longStreams(mc::Ctx& c)
{
  static const int sizes[] = { 700, 766, 767, 768, 769, 770, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3070, 3071, 3072, 3073, 4095, 4096, 4097 };
  int n = sizes[c.choose(22)]; int mul = 1 + 2 * c.choose(4);
  std::string s; for(int i = 0; i < n; ++i) s += (char)(i * mul + (i >> 8));
  std::locale loc(std::locale::classic(), new B64);
  std::ostringstream sink; { Arabica::io::oconvert_adaptor<char> os(sink); os.imbue(loc); os << s; }
  c.transition();
  if(sink.str() != enc(s)) { c.fail("long ostream", std::to_string(n)); return; }
  std::istringstream src(enc(s)); Arabica::io::iconvert_adaptor<char> is(src); is.imbue(loc);
  std::string got; char ch; while(is.get(ch)) got += ch;
  if(got != s) { c.fail("long istream", std::to_string(n) + " gives " + std::to_string(got.size())); return; }
  Arabica::io::converting_ostringstream co; co.imbue(loc); co << s; if(co.str() != enc(s)) { c.fail("long converting_ostringstream", std::to_string(n)); return; }
  Arabica::io::converting_istringstream ci; ci.imbue(loc); ci.str(enc(s)); if(ci.str() != s) { c.fail("long converting_istringstream", std::to_string(n)); return; }
}
int main(int argc, char** argv)
{
  return mc::run(argc, argv, { {"one and two bytes", twoBytes}, {"three bytes", threeBytes}, {"longer", longer}, {"arbitrary input", anything}, {"shared facet", shared}, {"streams", streams}, {"long streams", longStreams} });
}
