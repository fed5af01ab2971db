// C01: character-set conversion facets, against independent codecs written from the
// Unicode / ISO definitions; every scalar value, every short sequence over boundary units,
// every output capacity, every input split.
#include "mc.hpp"
#include <convert/utf8ucs2codecvt.hpp>
#include <convert/ucs2utf8codecvt.hpp>
#include <convert/utf16utf8codecvt.hpp>
#include <convert/utf16beucs2codecvt.hpp>
#include <convert/utf16leucs2codecvt.hpp>
#include <convert/utf8iso88591codecvt.hpp>
#include <convert/iso88591utf8codecvt.hpp>
#include <convert/rot13codecvt.hpp>
#include <Arabica/StringAdaptor.hpp>
#include <memory>
#include <cstring>
#include <sstream>
using namespace Arabica::convert;
typedef std::codecvt_base cb;

// ---------------------------------------------------------------- reference codecs
enum Enc { UTF8, WIDE, UTF16BE, UTF16LE, LATIN1, ROT13, BYTES };
struct Dec { int st; unsigned long cp; int len; };       // st: 0 ok, 1 incomplete, 2 error, 3 error, but cut short so it may be taken for incomplete
template<class C> static unsigned long u(C c) { return sizeof(C) == 1 ? (unsigned char)c : (unsigned long)(unsigned int)c; }

template<class C> static Dec decode(Enc e, const C* p, size_t n)
{
  Dec d = { 0, u(p[0]), 1 };
  unsigned long b0 = u(p[0]);
  if(e == LATIN1 || e == ROT13 || e == BYTES) return d;
  if(e == WIDE) { if(b0 > 0x10FFFF || (b0 >= 0xD800 && b0 < 0xE000)) d.st = 2; return d; }
  if(e == UTF16BE || e == UTF16LE)
  {
    auto unit = [&](size_t i) { return e == UTF16BE ? (u(p[i]) << 8 | u(p[i+1])) : (u(p[i+1]) << 8 | u(p[i])); };
    if(n < 2) { d.st = 1; return d; }
    d.cp = unit(0); d.len = 2;
    if(d.cp >= 0xDC00 && d.cp < 0xE000) { d.st = 2; return d; }
    if(d.cp >= 0xD800 && d.cp < 0xDC00)
    {
      if(n < 4) { d.st = 1; return d; }
      unsigned long l = unit(2);
      if(l < 0xDC00 || l > 0xDFFF) { d.st = 2; return d; }
      d.cp = 0x10000 + (d.cp - 0xD800) * 0x400 + (l - 0xDC00); d.len = 4;
    }
    return d;
  }
  // UTF-8, by the table of well-formed sequences (Unicode table 3-7)
  if(b0 < 0x80) return d;
  const int by = b0 < 0xC0 || b0 > 0xF7 ? 1 : b0 < 0xE0 ? 2 : b0 < 0xF0 ? 3 : 4;   // the length the lead byte asks for
  bool shortOf = (size_t)by > n; for(size_t i = 1; shortOf && i < n; ++i) if((u(p[i]) & 0xC0) != 0x80) shortOf = false;
  const int bad = shortOf ? 3 : 2;
  if(b0 < 0xC2 || b0 > 0xF4) { d.st = bad; return d; }
  d.len = b0 < 0xE0 ? 2 : b0 < 0xF0 ? 3 : 4;
  unsigned long lo = 0x80, hi = 0xBF;
  if(b0 == 0xE0) lo = 0xA0; if(b0 == 0xED) hi = 0x9F; if(b0 == 0xF0) lo = 0x90; if(b0 == 0xF4) hi = 0x8F;
  d.cp = b0 & (d.len == 2 ? 0x1F : d.len == 3 ? 0x0F : 0x07);
  for(int i = 1; i < d.len; ++i)
  {
    if((size_t)i >= n) { d.st = 1; return d; }
    unsigned long b = u(p[i]);
    if(b < lo || b > hi) { d.st = bad; return d; }
    lo = 0x80; hi = 0xBF;
    d.cp = d.cp << 6 | (b & 0x3F);
  }
  return d;
}
template<class C> static bool encode(Enc e, unsigned long cp, std::basic_string<C>& out)
{
  auto put = [&](unsigned long x) { out += (C)x; };
  switch(e)
  {
    case WIDE: put(cp); break;
    case LATIN1: put(cp > 0xFF ? '?' : cp); break;
    case BYTES: put(cp & 0xFF); break;
    case ROT13:
      if(cp >= 'a' && cp <= 'z') cp = 'a' + (cp - 'a' + 13) % 26; else if(cp >= 'A' && cp <= 'Z') cp = 'A' + (cp - 'A' + 13) % 26;
      put(cp); break;
    case UTF8:
      if(cp < 0x80) put(cp);
      else if(cp < 0x800) { put(0xC0 + cp / 64); put(0x80 + cp % 64); }
      else if(cp < 0x10000) { put(0xE0 + cp / 4096); put(0x80 + cp / 64 % 64); put(0x80 + cp % 64); }
      else { put(0xF0 + cp / 262144); put(0x80 + cp / 4096 % 64); put(0x80 + cp / 64 % 64); put(0x80 + cp % 64); }
      break;
    case UTF16BE: case UTF16LE:
    {
      std::vector<unsigned long> us;
      if(cp < 0x10000) us.push_back(cp); else { us.push_back(0xD800 + (cp - 0x10000) / 0x400); us.push_back(0xDC00 + (cp - 0x10000) % 0x400); }
      for(auto x : us) { put(e == UTF16BE ? x / 256 : x % 256); put(e == UTF16BE ? x % 256 : x / 256); }
      break;
    }
  }
  return true;
}
template<class C> static std::string hex(const std::basic_string<C>& s)
{ std::ostringstream o; o << std::hex; for(auto c : s) o << u(c) << ' '; return o.str(); }

// ---------------------------------------------------------------- facets under test
template<class F> struct Open : F { ~Open() {} };
template<class I, class X, class F> struct Cv
{
  typedef I In; typedef X Ex;
  Open<F> f; const char* name; Enc ie, ee;
  Cv(const char* n, Enc i, Enc e) : name(n), ie(i), ee(e) {}
};
// one direction of one facet: S -> D
template<class S, class D, class CV> struct Out
{
  const CV& c; Enc from, to; std::string name;
  Out(const CV& cv) : c(cv), from(cv.ie), to(cv.ee), name(std::string(cv.name) + ".out") {}
  cb::result operator()(std::mbstate_t& st, const S* a, const S* b, const S*& n, D* t, D* te, D*& tn) const { return c.f.out(st, a, b, n, t, te, tn); }
};
template<class S, class D, class CV> struct InD
{
  const CV& c; Enc from, to; std::string name;
  InD(const CV& cv) : c(cv), from(cv.ee), to(cv.ie), name(std::string(cv.name) + ".in") {}
  cb::result operator()(std::mbstate_t& st, const S* a, const S* b, const S*& n, D* t, D* te, D*& tn) const { return c.f.in(st, a, b, n, t, te, tn); }
};

// reference conversion: characters of the input and how the input ends
template<class S, class D> struct Ref
{
  std::vector<size_t> il;               // cumulative input after each character
  std::vector<std::basic_string<D>> o;  // output of each character
  int end;                              // 0 all converted, 1 incomplete tail, 2 malformed, 3 either
  Ref(Enc from, Enc to, const std::basic_string<S>& s) : end(0)
  {
    size_t p = 0;
    while(p < s.size())
    {
      Dec d = decode<S>(from, s.data() + p, s.size() - p);
      if(d.st) { end = d.st; return; }
      std::basic_string<D> x; encode<D>(to, d.cp, x);
      p += d.len; il.push_back(p); o.push_back(x);
    }
  }
  std::basic_string<D> all() const { std::basic_string<D> r; for(auto& x : o) r += x; return r; }
  size_t consumed(size_t m) const { return m ? il[m-1] : 0; }
};

// exactly sized heap blocks, so any overrun is an ASan report; kept for reuse, with their red zones
static std::vector<void*>& blocks(size_t bytes) { static std::vector<void*> b[129]; return b[bytes]; }
static void* block(size_t bytes) { if(bytes > 128) return ::operator new(bytes); auto& b = blocks(bytes); if(b.empty()) return ::operator new(bytes); void* p = b.back(); b.pop_back(); return p; }
template<class C> struct Exact
{
  C* p; size_t n;
  Exact(size_t k) : p((C*)block(k * sizeof(C))), n(k) { }
  Exact(const std::basic_string<C>& s) : p((C*)block(s.size() * sizeof(C))), n(s.size()) { if(n) std::memcpy(p, s.data(), n * sizeof(C)); }
  ~Exact() { if(n * sizeof(C) > 128) ::operator delete(p); else blocks(n * sizeof(C)).push_back(p); }
};

// a single call with a given capacity
template<class S, class D, class DIR>
static bool oneCall(mc::Ctx& c, const DIR& dir, const std::basic_string<S>& s, size_t cap, const Ref<S,D>& r)
{
  Exact<S> in(s); Exact<D> out(cap);
  std::mbstate_t st = std::mbstate_t();
  const S* fn = 0; D* tn = 0;
  cb::result res = dir(st, in.p, in.p + in.n, fn, out.p, out.p + cap, tn);
  c.transition();
  size_t m = 0, used = 0;
  while(m < r.o.size() && used + r.o[m].size() <= cap) used += r.o[m++].size();
  auto whatF = [&] { return dir.name + " [" + hex(s) + "] capacity " + std::to_string(cap); };
  if(fn < in.p || fn > in.p + in.n || tn < out.p || tn > out.p + cap) { c.fail(dir.name + " pointers", whatF()); return false; }
  std::basic_string<D> got(out.p, tn), want; for(size_t i = 0; i < m; ++i) want += r.o[i];
  if(got != want) { c.fail(dir.name + " output", whatF() + " gives [" + hex(got) + "] not [" + hex(want) + "]"); return false; }
  if((size_t)(fn - in.p) != r.consumed(m)) { c.fail(dir.name + " consumed", whatF() + " consumed " + std::to_string(fn - in.p) + " not " + std::to_string(r.consumed(m))); return false; }
  bool good;
  if(m < r.o.size()) good = res == cb::partial;                                   // output full
  else if(r.end == 0) good = res == cb::ok;
  else if(r.end == 1) good = res == cb::partial;
  else good = res == cb::error || (res == cb::partial && (cap - used < 4 || r.end == 3));        // may notice the lack of room first
  if(!good) { c.fail(dir.name + " result", whatF() + " returns " + std::to_string(res)); return false; }
  return true;
}

// feed the input in the pieces given by the bits of `cuts`, with output capacity cap, the way a stream does
template<class S, class D, class DIR>
static bool pump(mc::Ctx& c, const DIR& dir, const std::basic_string<S>& s, unsigned cuts, size_t cap, const Ref<S,D>& r)
{
  std::mbstate_t st = std::mbstate_t();
  std::basic_string<D> got; std::basic_string<S> pending;
  bool error = false;
  for(size_t i = 0; i < s.size() && !error; )
  {
    pending += s[i++];
    while(i < s.size() && !(cuts >> (i-1) & 1)) pending += s[i++];
    for(;;)
    {
      Exact<S> in(pending); Exact<D> out(cap);
      const S* fn = 0; D* tn = 0;
      cb::result res = dir(st, in.p, in.p + in.n, fn, out.p, out.p + cap, tn);
      c.transition();
      got.append(out.p, tn);
      bool progress = fn != in.p || tn != out.p;
      pending = std::basic_string<S>(fn, (const S*)in.p + in.n);
      if(res == cb::error) { error = true; break; }
      if(res == cb::ok || !progress) break;
    }
  }
  auto whatF = [&] { return dir.name + " [" + hex(s) + "] cut " + std::to_string(cuts) + " capacity " + std::to_string(cap); };
  if(got != r.all()) { c.fail(dir.name + " pieces", whatF() + " gives [" + hex(got) + "] not [" + hex(r.all()) + "]"); return false; }
  if(r.end != 3 && error != (r.end == 2)) { c.fail(dir.name + " pieces error", whatF()); return false; }
  if(!error && pending.size() != s.size() - r.consumed(r.o.size())) { c.fail(dir.name + " pieces rest", whatF()); return false; }
  return true;
}

template<class CV> static bool lengths(mc::Ctx& c, const CV& cv, const std::basic_string<typename CV::Ex>& s, const Ref<typename CV::Ex, typename CV::In>& r)
{
  typedef typename CV::Ex X;
  Exact<X> in(s);
  for(size_t max = 0; max <= r.all().size() + 1; ++max)
  {
    std::mbstate_t st = std::mbstate_t();
    int n = cv.f.length(st, in.p, in.p + in.n, max);
    size_t m = 0, used = 0; while(m < r.o.size() && used + r.o[m].size() <= max) used += r.o[m++].size();
    c.transition();
    if(n < 0 || (size_t)n != r.consumed(m))
    { c.fail(std::string(cv.name) + " length", "[" + hex(s) + "] max " + std::to_string(max) + " is " + std::to_string(n) + " not " + std::to_string(r.consumed(m))); return false; }
  }
  return true;
}

// everything about one input, in one direction
template<class S, class D, class DIR>
static bool whole(mc::Ctx& c, const DIR& dir, const std::basic_string<S>& s, bool cuts, bool brief = false)
{
  Ref<S,D> r(dir.from, dir.to, s);
  if(brief) return oneCall<S,D>(c, dir, s, r.all().size(), r);
  size_t total = r.all().size();
  for(size_t cap = 0; cap <= total; ++cap) if(!oneCall<S,D>(c, dir, s, cap, r)) return false;
  if(!oneCall<S,D>(c, dir, s, total + 8, r)) return false;
  if(cuts)
    for(unsigned k = 0; k < (1u << (s.size() ? s.size() - 1 : 0)); ++k)
      for(size_t cap = 4; cap <= 9; cap += (cap == 5 ? 4 : 1)) if(!pump<S,D>(c, dir, s, k, cap, r)) return false;
  return true;
}

template<class F> static void facets(F&& go)
{
  go(Cv<wchar_t, char, utf8ucs2codecvt>("utf8ucs2", WIDE, UTF8));
  go(Cv<wchar_t, char, utf16beucs2codecvt>("utf16beucs2", WIDE, UTF16BE));
  go(Cv<wchar_t, char, utf16leucs2codecvt>("utf16leucs2", WIDE, UTF16LE));
  go(Cv<char, wchar_t, ucs2utf8codecvt>("ucs2utf8", UTF8, WIDE));
  go(Cv<char, wchar_t, utf16utf8codecvt>("utf16utf8", UTF8, WIDE));
  go(Cv<char, char, iso88591utf8codecvt>("iso88591utf8", UTF8, LATIN1));
  go(Cv<char, char, utf8iso88591codecvt>("utf8iso88591", LATIN1, UTF8));
  go(Cv<char, char, rot13codecvt>("rot13", ROT13, ROT13));
}
static const int NF = 8;

// nothing outside these goes in; rot13 is an encoding of itself so its encoder must see raw letters
template<class S, class D, class CV> static InD<S,D,CV> inOf(const CV& cv) { InD<S,D,CV> d(cv); if(d.from == ROT13) d.from = BYTES; return d; }
template<class S, class D, class CV> static Out<S,D,CV> outOf(const CV& cv) { Out<S,D,CV> d(cv); if(d.from == ROT13) d.from = BYTES; return d; }

// (1) every scalar value
struct EveryChar
{
  mc::Ctx& c; int want; unsigned long lo, hi; int n;
  template<class CV> void operator()(const CV& cv)
  {
    typedef typename CV::In I; typedef typename CV::Ex X;
    if(n++ != want) return;
    auto in = inOf<X,I>(cv); auto out = outOf<I,X>(cv);
    for(unsigned long cp = lo; cp < hi; ++cp)
    {
      // beyond the BMP the quick tier makes one exact call for each, and the full set for one in 64
      const bool brief = !c.thorough() && cp > 0xFFFF && cp % 64 != 0;
      if(cp >= 0xD800 && cp < 0xE000) continue;
      if(cp > 0xFF && (cv.ie == ROT13 || in.from == LATIN1)) { std::basic_string<I> s; encode<I>(cv.ie == ROT13 ? LATIN1 : cv.ie, cp, s); if(!whole<I,X>(c, out, s, false, brief)) return; if(cv.ie == ROT13) return; continue; }
      std::basic_string<X> x; encode<X>(in.from == BYTES ? LATIN1 : in.from, cp, x);
      if(!whole<X,I>(c, in, x, false, brief)) return;
      std::basic_string<I> i; encode<I>(out.from == BYTES ? LATIN1 : out.from, cp, i);
      if(!whole<I,X>(c, out, i, false, brief)) return;
      Ref<X,I> r(in.from, in.to, x);
      if(!brief && !lengths(c, cv, x, r)) return;
    }
  }
};
static void everyChar(mc::Ctx& c)
{
  int f = c.choose(NF), seg = c.choose(68);
  EveryChar e = { c, f, seg * 0x4000ul, (seg + 1) * 0x4000ul, 0 };
  facets(e);
  c.state("f" + std::to_string(f) + "/" + std::to_string(seg));
}

// (2) every short sequence over the boundary units of the source encoding
template<class C> static std::vector<std::basic_string<C>> alphabet(Enc e)
{
  std::vector<std::basic_string<C>> v;
  auto add = [&](std::initializer_list<unsigned long> l) { for(auto x : l) v.push_back(std::basic_string<C>(1, (C)x)); };
  if(e == UTF8) add({0x00,0x41,0x7F,0x80,0x8F,0x90,0x9F,0xA0,0xBF,0xC0,0xC1,0xC2,0xDF,0xE0,0xE1,0xEC,0xED,0xEE,0xEF,0xF0,0xF1,0xF3,0xF4,0xF5,0xF7,0xF8,0xFB,0xFC,0xFE,0xFF});
  else if(e == WIDE) add({0,0x41,0x7F,0x80,0xFF,0x100,0x7FF,0x800,0xFFF,0xD7FF,0xD800,0xDBFF,0xDC00,0xDFFF,0xE000,0xFFFD,0xFFFF,0x10000,0x10FFFF,0x110000,0x1FFFFF,0x200000,0x7FFFFFFF,0x80000000ul,0xFFFFFFFFul});
  else if(e == UTF16BE || e == UTF16LE)
  {
    for(unsigned long x : {0x0000ul,0x0041ul,0x00FFul,0x0100ul,0xD7FFul,0xD800ul,0xD801ul,0xDBFFul,0xDC00ul,0xDC01ul,0xDFFFul,0xE000ul,0xFFFEul,0xFFFFul})
    { std::basic_string<C> s; s += (C)(e == UTF16BE ? x >> 8 : x & 0xFF); s += (C)(e == UTF16BE ? x & 0xFF : x >> 8); v.push_back(s); }
    add({0x00, 0x41, 0xD8, 0xDC});       // odd bytes
  }
  else add({0x00,0x0D,0x40,0x41,0x4D,0x4E,0x5A,0x5B,0x60,0x61,0x6D,0x6E,0x7A,0x7B,0x7F,0x80,0xBF,0xC0,0xC1,0xFF});
  return v;
}
template<class S, class D, class DIR, class EXTRA> static bool sequences(mc::Ctx& c, const DIR& d, int first, int maxLen, EXTRA extra)
{
  auto al = alphabet<S>(d.from);
  if((size_t)first >= al.size()) c.prune();
  std::function<bool(const std::basic_string<S>&, int)> rec = [&](const std::basic_string<S>& s, int n) -> bool
  {
    if(!whole<S,D>(c, d, s, n <= 3)) return false;
    if(!extra(s)) return false;
    if(n == maxLen) return true;
    for(auto& x : al) if(!rec(s + x, n + 1)) return false;
    return true;
  };
  if(first == 0 && !whole<S,D>(c, d, std::basic_string<S>(), false)) return false;
  return rec(al[first], 1);
}
struct Sequences
{
  mc::Ctx& c; int want; bool inward; int first; int n;
  template<class CV> void operator()(const CV& cv)
  {
    typedef typename CV::In I; typedef typename CV::Ex X;
    if(n++ != want) return;
    int len = c.thorough() ? 4 : 3;
    if(inward) { auto d = inOf<X,I>(cv); sequences<X,I>(c, d, first, len, [&](const std::basic_string<X>& s) { return lengths(c, cv, s, Ref<X,I>(d.from, d.to, s)); }); }
    else { auto d = outOf<I,X>(cv); sequences<I,X>(c, d, first, len, [&](const std::basic_string<I>&) { return true; }); }
  }
};
static void shortSequences(mc::Ctx& c)
{
  int f = c.choose(NF); bool in = c.flip(); int first = c.choose(30);
  Sequences s = { c, f, in, first, 0 };
  facets(s);
  c.state("f" + std::to_string(f) + (in ? "i" : "o") + std::to_string(first));
}
// four-byte UTF-8 in every boundary combination, one call
struct Fours
{
  mc::Ctx& c; int want; int first; int n;
  template<class S, class D, class DIR> void run(const DIR& d)
  {
    auto al = alphabet<S>(d.from); if((size_t)first >= al.size()) c.prune();
    for(auto& x : al) for(auto& y : al) for(auto& z : al)
    { auto s = al[first] + x + y + z; Ref<S,D> r(d.from, d.to, s); if(!oneCall<S,D>(c, d, s, r.all().size(), r)) return; if(!oneCall<S,D>(c, d, s, r.all().size() + 4, r)) return; }
  }
  template<class CV> void operator()(const CV& cv)
  {
    typedef typename CV::In I; typedef typename CV::Ex X;
    if(n++ != want) return;
    if(cv.ie == UTF8) run<I,X>(outOf<I,X>(cv)); else if(cv.ee == UTF8) run<X,I>(inOf<X,I>(cv)); else c.prune();
  }
};
static void fours(mc::Ctx& c) { int f = c.choose(NF), first = c.choose(30); Fours s = { c, f, first, 0 }; facets(s); c.state(std::to_string(f) + "/" + std::to_string(first)); }

// (3) the widening facet the library adds to the standard ones
struct Widen : std::codecvt<char, wchar_t, std::mbstate_t> { ~Widen() {} };
static void widen(mc::Ctx& c)
{
  int n = c.choose(6); int cap = c.choose(8);
  Widen w; std::mbstate_t st = std::mbstate_t();
  std::string a; for(int i = 0; i < n; ++i) a += (char)('a' + i); std::wstring b; for(int i = 0; i < n; ++i) b += (wchar_t)('a' + i);
  int k = std::min(n, cap);
  { Exact<char> in(a); Exact<wchar_t> out(cap); const char* fn; wchar_t* tn; cb::result r = w.out(st, in.p, in.p+n, fn, out.p, out.p+cap, tn); c.transition();
    if(fn - in.p != k || tn - out.p != k || std::wstring(out.p, tn) != b.substr(0, k)) c.fail("widen out", std::to_string(n) + " into " + std::to_string(cap));
    if(r != (k == n ? cb::ok : cb::partial)) c.fail("widen out result", std::to_string(n) + " into " + std::to_string(cap)); }
  { Exact<wchar_t> in(b); Exact<char> out(cap); const wchar_t* fn; char* tn; cb::result r = w.in(st, in.p, in.p+n, fn, out.p, out.p+cap, tn); c.transition();
    if(fn - in.p != k || tn - out.p != k || std::string(out.p, tn) != a.substr(0, k)) c.fail("widen in", std::to_string(n) + " into " + std::to_string(cap));
    if(r != (k == n ? cb::ok : cb::partial)) c.fail("widen in result", std::to_string(n) + " into " + std::to_string(cap));
    if(w.length(st, in.p, in.p+n, cap) != k) c.fail("widen length", std::to_string(n) + " max " + std::to_string(cap)); }
}

// (4) every facet can be put in a locale and is then found as the codecvt it implements; properties
struct Installed
{
  mc::Ctx& c;
  template<class CV> void operator()(const CV& cv)
  {
    typedef typename CV::In I; typedef typename CV::Ex X;
    c.transition();
    std::locale l = make(cv, (CV*)0);
    typedef std::codecvt<I, X, std::mbstate_t> base;
    if(!std::has_facet<base>(l)) { c.fail(std::string(cv.name) + " locale", "not found in the locale it was put in"); return; }
    const base& f = std::use_facet<base>(l);
    std::basic_string<I> s; encode<I>(cv.ie == ROT13 ? LATIN1 : cv.ie, 'q', s);
    std::basic_string<X> x; encode<X>(cv.ee, 'q', x);
    std::mbstate_t st = std::mbstate_t(); const I* fn; X buf[8]; X* tn;
    if(f.out(st, s.data(), s.data() + s.size(), fn, buf, buf + 8, tn) != cb::ok || std::basic_string<X>(buf, tn) != x) c.fail(std::string(cv.name) + " locale", "does not convert through the locale");
    if(f.always_noconv()) c.fail(std::string(cv.name) + " noconv", "");
  }
  template<class I, class X, class F> std::locale make(const Cv<I,X,F>&, Cv<I,X,F>*) { return std::locale(std::locale::classic(), new Open<F>()); }
};
static void installed(mc::Ctx& c) { Installed i = { c }; facets(i); }

// (5) the string adaptors, which the whole library uses to change width
static void adaptors(mc::Ctx& c)
{
  int seg = c.choose(40);
  static std::vector<unsigned long> cps;
  if(cps.empty())
  {
    for(unsigned long i = 1; i < 0x180; ++i) cps.push_back(i);
    for(unsigned long b : {0x7FFul,0x800ul,0xFFFul,0x1000ul,0x2028ul,0xD7FFul,0xE000ul,0xFFFDul,0xFFFFul,0x10000ul,0x1F600ul,0xFFFFFul,0x100000ul,0x10FFFFul}) cps.push_back(b);
    for(unsigned long b = 0x200; b < 0x10000; b += 0x101) if(b < 0xD800 || b > 0xDFFF) cps.push_back(b);
  }
  typedef Arabica::default_string_adaptor<std::string> N; typedef Arabica::default_string_adaptor<std::wstring> W;
  for(size_t i = seg; i < cps.size(); i += 40)
    for(unsigned long pre : {0ul, 0x41ul, 0xE9ul, 0x20ACul, 0x1F600ul})
    {
      std::string n; std::wstring w;
      if(pre) { encode<char>(UTF8, pre, n); encode<wchar_t>(WIDE, pre, w); }
      encode<char>(UTF8, cps[i], n); encode<wchar_t>(WIDE, cps[i], w);
      c.transition();
      if(N::asStdWString(n) != w) { c.fail("adaptor asStdWString", hex(n)); return; }
      if(N::construct_from_utf16(w.c_str()) != n || N::construct_from_utf16(w.data(), w.size()) != n) { c.fail("adaptor construct_from_utf16", hex(w)); return; }
      if(W::construct_from_utf8(n.c_str()) != w || W::construct_from_utf8(n.data(), n.size()) != w) { c.fail("adaptor wide construct_from_utf8", hex(n)); return; }
      if(W::asStdString(w) != n) { c.fail("adaptor wide asStdString", hex(w)); return; }
      if(N::construct_from_utf8(n.c_str()) != n || N::asStdString(n) != n || W::asStdWString(w) != w || W::construct_from_utf16(w.c_str()) != w) { c.fail("adaptor identity", hex(n)); return; }
    }
  // long strings, so that any internal buffer's edge falls at every byte of a character
  if(seg < 8)
    for(unsigned long cp : {0xE9ul, 0x20ACul, 0x1F600ul})
    {
      std::string n(4090 + seg, 'x'); std::wstring w(4090 + seg, L'x');
      for(int k = 0; k < 5; ++k) { encode<char>(UTF8, cp, n); encode<wchar_t>(WIDE, cp, w); }
      c.transition();
      if(N::asStdWString(n) != w || W::asStdString(w) != n) { c.fail("adaptor long", std::to_string(seg)); return; }
    }
}

int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    {"every character", everyChar}, {"short sequences", shortSequences}, {"four units", fours},
    {"widening facet", widen}, {"locales", installed}, {"string adaptors", adaptors} });
}
