// C03: converting stream adaptors and converting string streams.
// Source and sink are stand-in stream buffers whose get area size, short reads and failure point are enumerated.
#include "mc.hpp"
#include <convert/utf8ucs2codecvt.hpp>
#include <convert/ucs2utf8codecvt.hpp>
#include <convert/utf16beucs2codecvt.hpp>
#include <convert/utf16leucs2codecvt.hpp>
#include <convert/utf8iso88591codecvt.hpp>
#include <convert/iso88591utf8codecvt.hpp>
#include <convert/rot13codecvt.hpp>
#include <io/convertstream.hpp>
#include <io/convert_adaptor.hpp>
#include <cstring>
#include <sstream>
using namespace Arabica::convert;
using namespace Arabica::io;

template<class X> struct Source : std::basic_streambuf<X>      // hands out its data in pieces of the given sizes, cyclically
{
  std::basic_string<X> d; std::vector<int> sizes; size_t at, k;
  Source(const std::basic_string<X>& s, std::vector<int> z) : d(s), sizes(z), at(0), k(0) {}
  typename std::char_traits<X>::int_type underflow()
  {
    if(this->gptr() < this->egptr()) return std::char_traits<X>::to_int_type(*this->gptr());
    if(at == d.size()) return std::char_traits<X>::eof();
    size_t n = std::min<size_t>(sizes[k++ % sizes.size()], d.size() - at);
    this->setg(&d[at], &d[at], &d[at] + n); at += n;
    return std::char_traits<X>::to_int_type(*this->gptr());
  }
};
template<class X> struct Sink : std::basic_streambuf<X>         // takes at most `limit` characters
{
  std::basic_string<X> d; size_t limit;
  Sink(size_t l = (size_t)-1) : limit(l) {}
  typename std::char_traits<X>::int_type overflow(typename std::char_traits<X>::int_type c)
  { if(d.size() >= limit) return std::char_traits<X>::eof(); d += std::char_traits<X>::to_char_type(c); return c; }
};
template<class C> static std::string hex(const std::basic_string<C>& s)
{ std::ostringstream o; o << std::hex; size_t n = 0; for(auto c : s) { if(++n > 40) { o << "..." << std::dec << s.size(); break; } o << (sizeof(C) == 1 ? (unsigned long)(unsigned char)c : (unsigned long)c) << ' '; } return o.str(); }
template<class F> struct Open : F { ~Open() {} };

// pairs of (internal, external) forms of the same text; bad is an external prefix no continuation of which is valid
template<class I, class X> struct Case { const char* name; std::locale loc; std::vector<std::pair<std::basic_string<I>, std::basic_string<X>>> chars; std::basic_string<X> bad; };
template<class I, class X> static std::vector<Case<I,X>>& cases();
template<class C> static std::basic_string<C> S(std::initializer_list<unsigned> l) { std::basic_string<C> s; for(auto x : l) s += (C)x; return s; }
typedef std::basic_string<char> B; typedef std::wstring W;
#define CH(I,i,X,x) std::make_pair(S<I>i, S<X>x)
template<> std::vector<Case<wchar_t,char>>& cases()
{
  static std::vector<Case<wchar_t,char>> v = {
    { "utf8", std::locale(std::locale::classic(), new Open<utf8ucs2codecvt>), { CH(wchar_t,({'a'}),char,({'a'})), CH(wchar_t,({0xE9}),char,({0xC3,0xA9})), CH(wchar_t,({0x20AC}),char,({0xE2,0x82,0xAC})), CH(wchar_t,({0x1F600}),char,({0xF0,0x9F,0x98,0x80})), CH(wchar_t,({0}),char,({0})) }, S<char>({0xFF}) },
    { "utf16be", std::locale(std::locale::classic(), new Open<utf16beucs2codecvt>), { CH(wchar_t,({'a'}),char,({0,'a'})), CH(wchar_t,({0x20AC}),char,({0x20,0xAC})), CH(wchar_t,({0x1F600}),char,({0xD8,0x3D,0xDE,0x00})) }, S<char>({0xDC,0x00}) },
    { "utf16le", std::locale(std::locale::classic(), new Open<utf16leucs2codecvt>), { CH(wchar_t,({'a'}),char,({'a',0})), CH(wchar_t,({0xFF}),char,({0xFF,0})), CH(wchar_t,({0x1F600}),char,({0x3D,0xD8,0x00,0xDE})) }, S<char>({0x00,0xDC}) },
  };
  return v;
}
template<> std::vector<Case<char,char>>& cases()
{
  static std::vector<Case<char,char>> v = {
    { "plain", std::locale::classic(), { CH(char,({'a'}),char,({'a'})), CH(char,({0xFF}),char,({0xFF})), CH(char,({0}),char,({0})) }, B() },
    { "rot13", std::locale(std::locale::classic(), new Open<rot13codecvt>), { CH(char,({'a'}),char,({'n'})), CH(char,({'Z'}),char,({'M'})), CH(char,({0xFF}),char,({0xFF})) }, B() },
    { "iso88591utf8", std::locale(std::locale::classic(), new Open<iso88591utf8codecvt>), { CH(char,({'a'}),char,({'a'})), CH(char,({0xC3,0xA9}),char,({0xE9})), CH(char,({0xC3,0xBF}),char,({0xFF})) }, B() },
    { "utf8iso88591", std::locale(std::locale::classic(), new Open<utf8iso88591codecvt>), { CH(char,({'a'}),char,({'a'})), CH(char,({0xE9}),char,({0xC3,0xA9})), CH(char,({0xFF}),char,({0xC3,0xBF})) }, S<char>({0xFF}) },
  };
  return v;
}
template<> std::vector<Case<char,wchar_t>>& cases()
{
  static std::vector<Case<char,wchar_t>> v = {
    { "ucs2utf8", std::locale(std::locale::classic(), new Open<ucs2utf8codecvt>), { CH(char,({'a'}),wchar_t,({'a'})), CH(char,({0xC3,0xA9}),wchar_t,({0xE9})), CH(char,({0xF0,0x9F,0x98,0x80}),wchar_t,({0x1F600})) }, S<wchar_t>({0x110000}) } };
  return v;
}
template<class I, class X> struct Types {
  typedef iconvert_adaptor<I, std::char_traits<I>, X, std::char_traits<X>> In;
  typedef oconvert_adaptor<I, std::char_traits<I>, X, std::char_traits<X>> Out;
  typedef basic_iconvertstream<I, std::char_traits<I>, X, std::char_traits<X>> SIn;
  typedef basic_oconvertstream<I, std::char_traits<I>, X, std::char_traits<X>> SOut; };

// read everything with one of several styles; the style must not matter
template<class I, class IS> static std::basic_string<I> drain(mc::Ctx& c, IS& is, int style)
{
  std::basic_string<I> got; typedef std::char_traits<I> T;
  I buf[7];
  switch(style)
  {
    case 0: { typename T::int_type x; while(!T::eq_int_type(x = is.get(), T::eof())) got += T::to_char_type(x); break; }
    case 1: while(is.read(buf, 7), is.gcount()) got.append(buf, is.gcount()); break;
    case 2: { typename T::int_type x; while(!T::eq_int_type(x = is.peek(), T::eof())) { got += T::to_char_type(x); is.get(); } break; }
    case 3: { typename T::int_type x; size_t high = 0;      // put the last characters back, up to 4, and read them again
      while(!T::eq_int_type(x = is.get(), T::eof())) {
        got += T::to_char_type(x);
        if(got.size() <= high) continue;
        high = got.size();
        size_t back = std::min<size_t>(high % 5, got.size());
        for(size_t i = 0; i < back; ++i) { is.unget(); if(!is) { c.fail("unget", "refused"); return got; } if(is.peek() != T::to_int_type(got[got.size()-1])) { c.fail("unget", "wrong character"); return got; } got.resize(got.size() - 1); } }
      break; }
    case 4: { while(is.rdbuf()->in_avail() >= 0) { std::streamsize k = is.rdbuf()->sgetn(buf, 3); if(k <= 0) break; got.append(buf, k); } break; }
    default: { typename T::int_type x; while(!T::eq_int_type(x = is.get(), T::eof())) { got += T::to_char_type(x); is.putback(T::to_char_type(x)); typename T::int_type y = is.get(); if(!T::eq_int_type(x, y)) { c.fail("putback", ""); return got; } } }
  }
  return got;
}

// reading: every text of up to n characters, every pattern of short reads, every reading style, whole, truncated or broken
template<class I, class X> static void reading(mc::Ctx& c)
{
  auto& cs = cases<I,X>();
  auto& k = cs[c.choose((int)cs.size())];
  int n = c.choose(c.bound(4, 5)), style = c.choose(6);
  std::vector<int> pick(n); for(int i = 0; i < n; ++i) pick[i] = c.choose((int)k.chars.size());
  std::basic_string<I> want; std::basic_string<X> src; std::vector<size_t> ends;
  for(int i : pick) { want += k.chars[i].first; src += k.chars[i].second; }
  for(int damage = -1; damage <= (int)src.size(); ++damage)
  {
    for(int bad = 0; bad < 2; ++bad)
    {
      std::basic_string<I> w; std::basic_string<X> s;
      if(damage < 0) { if(bad) continue; w = want; s = src; }
      else
      { // cut short at `damage`, then perhaps followed by what can't be right and more
        if(bad && k.bad.empty()) continue;
        size_t p = 0; for(int i : pick) { if(p + k.chars[i].second.size() > (size_t)damage) break; p += k.chars[i].second.size(); w += k.chars[i].first; }
        if(bad && p != (size_t)damage) continue;
        s = src.substr(0, damage); if(bad) s += k.bad + src;
      }
      for(unsigned cuts = 0; cuts < (1u << (s.size() > 1 ? std::min<size_t>(s.size() - 1, 6) : 0)); ++cuts)
      {
        std::vector<int> sizes; int run = 1; for(size_t i = 1; i < s.size(); ++i) if(i <= 6 && cuts >> (i-1) & 1) { sizes.push_back(run); run = 1; } else ++run; sizes.push_back(run);
        Source<X> sb(s, sizes); std::basic_istream<X> under(&sb);
        typename Types<I,X>::In is(under); is.imbue(k.loc);
        std::basic_string<I> got = drain<I>(c, is, style);
        c.transition();
        if(got != w) { c.fail(std::string("reading ") + k.name, "[" + hex(s) + "] pieces " + std::to_string(cuts) + " style " + std::to_string(style) + " gives [" + hex(got) + "] not [" + hex(w) + "]"); return; }
      }
      // the string stream
      typename Types<I,X>::SIn si; si.imbue(k.loc); si.str(s);
      std::basic_string<I> g = drain<I>(c, si, style == 3 ? 0 : style);
      if(si.str() != w || g != w) { c.fail(std::string("string stream ") + k.name, "[" + hex(s) + "] gives [" + hex(g) + "] not [" + hex(w) + "]"); return; }
    }
  }
  c.state(std::string(k.name) + hex(src));
}
// writing: every text, every pattern of flushes between the internal units, styles of writing, sinks that fail
template<class I, class X> static void writing(mc::Ctx& c)
{
  auto& cs = cases<I,X>();
  auto& k = cs[c.choose((int)cs.size())];
  int n = c.choose(c.bound(4, 5)), style = c.choose(4);
  std::basic_string<I> src; std::basic_string<X> want;
  std::vector<size_t> ie(1, 0), xe(1, 0);
  for(int i = 0; i < n; ++i) { auto& p = k.chars[c.choose((int)k.chars.size())]; src += p.first; want += p.second; ie.push_back(src.size()); xe.push_back(want.size()); }
  for(unsigned flushes = 0; flushes < (1u << src.size()); ++flushes)
    for(size_t limit = 0; limit <= want.size() + 1; ++limit)
    {
      const bool fails = limit < want.size();
      if(fails && flushes % 3) continue;
      Sink<X> sb(limit > want.size() ? (size_t)-1 : limit); std::basic_ostream<X> under(&sb);
      bool seen = false;
      {
        typename Types<I,X>::Out os(under); os.imbue(k.loc);
        for(size_t i = 0; i < src.size(); )
        {
          size_t j = i + 1; if(style >= 2) while(j < src.size() && !(flushes >> (j-1) & 1)) ++j;
          if(style == 0) os.put(src[i]); else if(style == 1) os.write(&src[i], 1); else if(style == 2) os.write(&src[i], j - i); else os << src.substr(i, j - i);
          i = j;
          if(flushes >> (i-1) & 1)
          {
            os.flush();
            size_t m = 0; while(m + 1 < ie.size() && ie[m+1] <= i) ++m;      // all whole characters so far have arrived
            if(xe[m] <= limit ? sb.d != want.substr(0, xe[m]) : sb.d.size() != limit) { c.fail(std::string("flush ") + k.name, "[" + hex(src) + "] after " + std::to_string(i) + " has [" + hex(sb.d) + "]"); return; }
            if(xe[m] > limit && os) { c.fail(std::string("failing sink ") + k.name, "not reported by flush"); return; }
            if(!os) { seen = true; os.clear(); os.flush(); break; }
          }
        }
        if(!os && !fails) { c.fail(std::string("writing ") + k.name, "stream failed"); return; }
      }
      c.transition();
      std::basic_string<X> w = want.substr(0, limit);
      if(seen ? sb.d != w.substr(0, sb.d.size()) : sb.d != w) { c.fail(std::string("writing ") + k.name, "[" + hex(src) + "] flushes " + std::to_string(flushes) + " limit " + std::to_string(limit) + " gives [" + hex(sb.d) + "] not [" + hex(w) + "]"); return; }
    }
  typename Types<I,X>::SOut so; so.imbue(k.loc); so.write(src.data(), src.size());
  std::basic_string<X> first = so.str(), again = so.str();
  if(first != want || !again.empty()) { c.fail(std::string("converting string out ") + k.name, "[" + hex(src) + "] gives [" + hex(first) + "] then [" + hex(again) + "]"); return; }
  so.str(src); if(so.str() != want) { c.fail(std::string("converting string out ") + k.name, "str(s) [" + hex(src) + "]"); return; }
  c.state(std::string(k.name) + "w" + hex(src));
}
// internal buffers have edges at around 1024, 2048 and 4096: every alignment of every character across them
template<class I, class X> static void edges(mc::Ctx& c)
{
  auto& cs = cases<I,X>();
  auto& k = cs[c.choose((int)cs.size())];
  static const int bases[] = { 1016, 2040, 3060, 4088, 8184 };
  int base = bases[c.choose(5)], shift = c.choose(12), piece = c.choose(7);
  static const int pieces[] = { 1, 3, 1023, 1024, 1025, 4096, 100000 };
  for(size_t ch = 0; ch < k.chars.size(); ++ch)
    for(int form = 0; form < 2; ++form)
    {
      // form 0: single units up to the edge then wide ones; form 1: wide ones all the way, offset by `shift` singles
      std::basic_string<I> i; std::basic_string<X> x; auto& a = k.chars[0]; auto& w = k.chars[ch];
      size_t target = base / (form ? 1 : a.second.size());
      for(size_t n = 0; n < (form ? (size_t)shift : target + shift); ++n) { i += a.first; x += a.second; }
      for(size_t n = 0; n < (form ? (target / w.second.size()) + 8 : 12); ++n) { i += w.first; x += w.second; }
      c.transition();
      for(int style = 0; style < 6; ++style)
      {
        if(style != shift % 6 && style != piece % 6) continue;
        Source<X> sb(x, { pieces[piece] }); std::basic_istream<X> under(&sb);
        typename Types<I,X>::In is(under); is.imbue(k.loc);
        std::basic_string<I> got = drain<I>(c, is, style);
        if(got != i) { c.fail(std::string("long reading ") + k.name, std::to_string(x.size()) + " pieces " + std::to_string(pieces[piece]) + " style " + std::to_string(style) + " gives " + std::to_string(got.size()) + " not " + std::to_string(i.size())); return; }
      }
      Sink<X> sb; std::basic_ostream<X> under(&sb);
      { typename Types<I,X>::Out os(under); os.imbue(k.loc);
        if(piece < 2) for(auto q : i) os.put(q); else for(size_t p = 0; p < i.size(); p += pieces[piece]) { os.write(&i[p], std::min<size_t>(pieces[piece], i.size() - p)); if(piece & 1) os.flush(); } }
      if(sb.d != x) { c.fail(std::string("long writing ") + k.name, std::to_string(i.size()) + " gives " + std::to_string(sb.d.size()) + " not " + std::to_string(x.size())); return; }
      typename Types<I,X>::SIn si; si.imbue(k.loc); si.str(x); if(si.str() != i) { c.fail(std::string("long string in ") + k.name, std::to_string(x.size())); return; }
      typename Types<I,X>::SOut so; so.imbue(k.loc); so.write(i.data(), i.size()); if(so.str() != x) { c.fail(std::string("long string out ") + k.name, std::to_string(i.size())); return; }
    }
}
// reuse: a second source or sink after the first, adaptors over adaptors, constructors, the accessors
static void reuse(mc::Ctx& c)
{
  auto& k = cases<wchar_t,char>()[0];
  int n1 = c.choose(4), n2 = c.choose(4), cut = c.choose(3); bool destroyed = c.flip();
  std::wstring w1, w2; std::string s1, s2;
  for(int i = 0; i < n1; ++i) { w1 += k.chars[i].first; s1 += k.chars[i].second; }
  for(int i = 0; i < n2; ++i) { w2 += k.chars[3-i].first; s2 += k.chars[3-i].second; }
  c.transition();
  {
    std::istringstream a(s1.substr(0, s1.size() - std::min<size_t>(cut, s1.size()))), b(s2);
    Types<wchar_t,char>::In is(a); is.imbue(k.loc);
    std::wstring g1 = drain<wchar_t>(c, is, 0);
    is.clear(); is.set_stream(b);
    std::wstring g2 = drain<wchar_t>(c, is, 0);
    if(w1.compare(0, g1.size(), g1) != 0 || g2 != w2) { c.fail("set_stream reading", hex(g2) + " not " + hex(w2)); return; }
  }
  {
    std::ostringstream a, b;
    Types<wchar_t,char>::Out os(a); os.imbue(k.loc);
    os << w1; os.flush(); os.set_stream(b); os << w2; os.flush();
    if(a.str() != s1 || b.str() != s2) { c.fail("set_stream writing", hex(a.str()) + "/" + hex(b.str())); return; }
  }
  { // a chain, as the transcoder makes: wide <-> UTF-8 <-> rot13 bytes
    auto& r = cases<char,char>()[1];
    std::ostringstream sink; std::string want;
    for(unsigned char ch : s1 + s2) want += ch >= 'a' && ch <= 'z' ? (char)('a' + (ch - 'a' + 13) % 26) : (char)ch;
    {
      oconvert_adaptor<char> bytes(sink); bytes.imbue(r.loc);
      Types<wchar_t,char>::Out os(bytes); os.imbue(k.loc);
      os << w1; if(destroyed) os.flush(); os << w2;
    }
    if(sink.str() != want) { c.fail("chained writing", hex(sink.str())); return; }
    std::istringstream src(want); iconvert_adaptor<char> bytes(src); bytes.imbue(r.loc);
    Types<wchar_t,char>::In is(bytes); is.imbue(k.loc);
    std::wstring g = drain<wchar_t>(c, is, 1); if(g != w1 + w2) { c.fail("chained reading", hex(g)); return; }
  }
  {
    std::istringstream src(s1); Types<wchar_t,char>::In is(src); is.imbue(k.loc);
    std::wstring g; wchar_t ch; while((ch = is.rdbuf()->sgetc()) != (wchar_t)WEOF) { g += ch; is.rdbuf()->sbumpc(); }
    if(g != w1) { c.fail("iconvert_adaptor rdbuf", hex(g)); return; }
    std::ostringstream sink; Types<wchar_t,char>::Out os(sink); os.imbue(k.loc); os.rdbuf()->sputn(w1.data(), w1.size()); os.rdbuf()->pubsync();
    if(sink.str() != s1) { c.fail("oconvert_adaptor rdbuf", hex(sink.str())); return; }
  }
  { // made with text (there is no chance to imbue first, so plain)
    basic_iconvertstream<char> a("hello"); if(a.str() != "hello") c.fail("iconvertstream(str)", "");
    basic_oconvertstream<char> b("hello"); if(b.str() != "hello") c.fail("oconvertstream(str)", "");
  }
}
int main(int argc, char** argv)
{
  return mc::run(argc, argv, {
    {"reading wide", reading<wchar_t,char>}, {"reading bytes", reading<char,char>}, {"reading from wide", reading<char,wchar_t>},
    {"writing wide", writing<wchar_t,char>}, {"writing bytes", writing<char,char>}, {"writing to wide", writing<char,wchar_t>},
    {"buffer edges wide", edges<wchar_t,char>}, {"buffer edges bytes", edges<char,char>}, {"buffer edges to wide", edges<char,wchar_t>},
    {"reuse and chains", reuse} });
}
