// X04: number <-> string conversion.
#include "xpath_bind.hpp"
typedef std::wstring W;
static W wide(const S& s) { return W(s.begin(), s.end()); }
static S hex(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
static bool same(double a, double b) { return (a != a && b != b) || (a == b); }
static void number(mc::Ctx& c, double d) {
  c.transition(); S want = xr::num2str(d), got = XP::NumericValue<S>::createValue(d).asString(); W wg = XP::NumericValue<W>::createValue(d).asString();
  if (got != want) c.fail("number-to-string", hex(d) + ": got " + got + " want " + want);
  if (wg != wide(want)) c.fail("number-to-wide-string", hex(d) + " want " + want);
  double back = XP::StringValue<S>::createValue(want).asNumber(); bool inf = d - d != 0;
  if (!inf && !same(back, d)) c.fail("round-trip", want + " -> " + hex(back) + " want " + hex(d));
  if (XP::NumericValue<S>::createValue(d).asBool() != (d == d && d != 0)) c.fail("number-to-boolean", want);
}
// every binary exponent x significand pattern x sign
static void doubles(mc::Ctx& c) {
  int e = c.choose(2047); static const unsigned long long M = (1ull << 52) - 1;
  static std::vector<unsigned long long> pats; if (pats.empty()) { for (unsigned long long p : {0ull, 1ull, 2ull, M, M - 1, M / 3, M / 5, M / 7, 1ull << 51, (1ull << 51) + 1, (1ull << 26) - 1, 0x123456789abcdull}) pats.push_back(p & M); for (int i = 0; i < 52; ++i) pats.push_back(1ull << i); }
  c.note("exponent " + std::to_string(e)); c.state(c.trace());
  for (auto p : pats) for (int s = 0; s < 2; ++s) { unsigned long long b = ((unsigned long long)s << 63) | ((unsigned long long)e << 52) | p; double d; memcpy(&d, &b, 8); number(c, d); }
}
// short decimals: k x 10^e
static void decimals(mc::Ctx& c) {
  int k = c.choose(c.bound(1000, 10000)); c.note(std::to_string(k)); c.state(c.trace());
  for (int e = -25; e <= 25; ++e) { double d = strtod((std::to_string(k) + "e" + std::to_string(e)).c_str(), nullptr); number(c, d); number(c, -d); number(c, d + 1); number(c, d / 3); }
}
static void special(mc::Ctx& c) { double v[] = {NAN, INFINITY, -INFINITY, 0.0, -0.0}; double d = v[c.choose(5)]; c.note(hex(d)); c.state(c.trace()); number(c, d); }
// every short string over the number alphabet: accepted exactly when it is  S? '-'? (Digits ('.' Digits?)? | '.' Digits) S?
static void strings(mc::Ctx& c) {
  static const char A[] = "0 5.-+e\nxIN,f\v"; int max = c.bound(4, 5); S s; S first; 
  s += A[c.choose(14)]; if (c.flip()) s += A[c.choose(14)]; c.note(s); c.state(s);
  std::function<void(S&)> rec = [&](S& t) {
    c.transition(); double want = xr::str2num(t), got = XP::StringValue<S>::createValue(t).asNumber();
    if (!same(got, want) || std::signbit(got) != std::signbit(want) && want == want) c.fail("string-to-number", "'" + t + "': got " + dstr(got) + " want " + dstr(want));
    if (t.size() <= 3) { double w = XP::StringValue<W>::createValue(wide(t)).asNumber(); if (!same(w, want)) c.fail("wide-string-to-number", "'" + t + "'"); if (XP::StringValue<S>::createValue(t).asBool() != !t.empty()) c.fail("string-to-boolean", t); }
    if ((int)t.size() >= max) return; for (int i = 0; i < 14; ++i) { t += A[i]; rec(t); t.pop_back(); } };
  if (s.size() == 1) { S t = s; std::function<void(S&)> keep = rec; max = 1; rec(t); } else rec(s);
}
// longer texts and words
static void words(mc::Ctx& c) {
  S t = c.pick(std::vector<S>{"", "inf", "nan", "Infinity", "-Infinity", "NaN", "INF", "0x10", "1e5", "1E5", "1e-3", "1d", "1f", "infinity", "nan(1)", "- 1", "--1", "+1", "1,000", "1.2.3", "00012", "0.10", "-.5", ".5.", "5.", "-", ".", "-.", "\t7\r\n", "\xc2\xa0" "7", "1 2", "12345678901234567890", "0.1234567890123456789012345", "-0", "1-", "000.000", "99999999999999999999999999999999999999999", "0.0000000000000000000000000000000000000000000001", "\f1", "1\v"}); c.note(t); c.state(t); c.transition();
  double want = xr::str2num(t), got = XP::StringValue<S>::createValue(t).asNumber(); if (!same(got, want)) c.fail("string-to-number", "'" + t + "': got " + dstr(got) + " want " + dstr(want));
}
// literals in expressions and booleans
static void literals(mc::Ctx& c) {
  static const char* A = "0159."; S s; int n = 1 + c.choose(c.bound(5, 6)); for (int i = 0; i < n; ++i) s += A[c.choose(5)]; c.note(s); c.state(s); c.transition();
  bool ok = true, rok = true; double got = 0, want = 0; xr::Env e; static Doc d = newDoc();
  try { got = engine().compile_expr(s).evaluateAsNumber(d); } catch (std::exception&) { ok = false; } try { want = xr::compile(s, &e)->num; if (xr::compile(s, &e)->op != "num") rok = ok; } catch (xr::Err&) { rok = false; }
  if (ok != rok) c.fail("literal-grammar", s + (ok ? " accepted" : " rejected")); else if (ok && rok && xr::compile(s, &e)->op == "num" && got != want) c.fail("literal", s + " " + dstr(got));
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"special", special}, {"words", words}, {"doubles", doubles}, {"decimals", decimals}, {"strings", strings}, {"literals", literals}}); }
