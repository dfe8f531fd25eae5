// Tokenising, splitting, and conversion between numbers and text.
#include "common.h"
#include <parlay/io.h>
#include <parlay/primitives.h>
#include <parlay/sequence.h>
#include <cstdlib>
#include <limits>
#include <string>
using parlay::chars; using parlay::sequence;
typedef uint32_t u;
// ---- C27
struct Text { chars s; size_t n; bool sp(size_t i) const { return s[i] == ' ' || (s[i] >= 9 && s[i] <= 13); } };
static Text text(size_t dflt, bool any) {
  Text t; t.n = choose("n", P("LO", 0), P("N", dflt)); t.s = chars(t.n, 'x');
  for (size_t i = 0; i < t.n; i++) t.s[i] = any ? (char)psym_u64("c", 8) : psym_u64("c", 1) ? (char)('a' + i) : ' ';
  return t;
}
template <typename F> static size_t eachToken(const Text& t, F f) {  // f(k, first, last)
  size_t k = 0, b = 0; bool in = false;
  for (size_t i = 0; i <= t.n; i++) {
    bool sp = i == t.n || t.sp(i);
    if (!sp && !in) { b = i; in = true; }
    else if (sp && in) { f(k++, b, i); in = false; }
  }
  return k;
}
static void checkTokens(const Text& t) {
  auto toks = parlay::tokens(t.s);
  size_t m = eachToken(t, [&](size_t k, size_t b, size_t e) {
    CHECK(k < toks.size(), "every token is found"); 
    CHECK(toks[k].size() == e - b, "tokens have the right length");
    for (size_t i = b; i < e; i++) CHECK(toks[k][i - b] == t.s[i], "tokens hold the right characters"); });
  CHECK(toks.size() == m, "there are no other tokens");
  auto lens = parlay::map_tokens(t.s, [&](auto x) { return std::make_pair((size_t)(x.begin() - t.s.begin()), x.size()); });
  CHECK(lens.size() == m, "map_tokens calls the function once per token");
  eachToken(t, [&](size_t k, size_t b, size_t e) { CHECK(lens[k].first == b && lens[k].second == e - b, "map_tokens passes the tokens in order"); });
  sequence<int> seen(t.n + 1, 0);
  parlay::map_tokens(t.s, [&](auto x) { seen[x.begin() - t.s.begin()] += (int)x.size() + 100; });
  sequence<int> want(t.n + 1, 0);
  eachToken(t, [&](size_t, size_t b, size_t e) { want[b] = (int)(e - b) + 100; });
  for (size_t i = 0; i <= t.n; i++) CHECK(seen[i] == want[i], "map_tokens without results visits every token once");
}
ENTRY(tokens_spaces) { checkTokens(text(8, false)); psym_cover("end"); }
ENTRY(tokens_bytes) { checkTokens(text(3, true)); psym_cover("end"); }
ENTRY(tokens_pred) {
  Text t = text(6, true);
  auto toks = parlay::tokens(t.s, [](char c) { return c == ','; });
  std::string back; size_t k = 0; bool in = false; size_t pos = 0;
  for (size_t i = 0; i <= t.n; i++) {
    bool sp = i == t.n || t.s[i] == ',';
    if (!sp) { if (!in) { in = true; pos = 0; } CHECK(k < toks.size() && pos < toks[k].size() && toks[k][pos] == t.s[i], "tokens of a custom separator"); pos++; }
    else if (in) { CHECK(toks[k].size() == pos, "token length"); k++; in = false; }
  }
  CHECK(toks.size() == k, "number of tokens");
  psym_cover("end");
}
ENTRY(split_marks) {
  size_t n = choose("n", P("LO", 0), P("N", 9));
  sequence<u> s(n); sequence<bool> f(n);
  for (size_t i = 0; i < n; i++) { s[i] = sym<u>("v"); f[i] = psym_u64("f", 1); }
  auto ps = parlay::split_at(s, f);
  size_t k = 0, pos = 0;
  for (size_t i = 0; i < n; i++) {
    CHECK(k < ps.size() && pos < ps[k].size() && ps[k][pos] == s[i], "pieces hold the elements in order"); pos++;
    if (f[i]) { CHECK(ps[k].size() == pos, "a piece ends at its mark"); k++; pos = 0; }
  }
  CHECK(ps.size() == k + 1, "one more piece than marks"); CHECK(ps[k].size() == pos, "the last piece holds the rest");
  auto ms = parlay::map_split_at(s, f, [&](auto x) { return std::make_pair((size_t)(x.begin() - s.begin()), x.size()); });
  CHECK(ms.size() == ps.size(), "map_split_at calls the function once per piece");
  pos = 0; for (size_t i = 0; i < ms.size(); i++) { CHECK(ms[i].first == pos && ms[i].second == ps[i].size(), "map_split_at passes the pieces in order"); pos += ps[i].size(); }
  psym_cover("end");
}
ENTRY(split_chars) {
  Text t = text(7, false);
  auto ps = parlay::split_at(t.s, parlay::delayed_map(t.s, [](char c) { return c == ' '; }));
  size_t k = 0, pos = 0;
  for (size_t i = 0; i < t.n; i++) { CHECK(k < ps.size() && pos < ps[k].size() && ps[k][pos] == t.s[i], "pieces hold the characters"); pos++; if (t.s[i] == ' ') { CHECK(ps[k].size() == pos, "piece length"); k++; pos = 0; } }
  CHECK(ps.size() == k + 1 && ps[k].size() == pos, "number of pieces");
  psym_cover("end");
}
// ---- C28: a decimal numeral with k symbolic digits (no leading zero) and its value in 128 bits
extern "C" void __attribute__((weak)) psym_decimal(uint64_t v, int neg, const char* digits, int n);
struct Num { unsigned char d[20]; size_t k; bool neg, zero; char raw[20]; };
static void digits(Num& x, size_t lo, size_t hi, bool lead0) {
  x.k = choose("k", lo, hi); x.zero = true;
  for (size_t i = 0; i < x.k; i++) { x.d[i] = (unsigned char)psym_range("d", (i == 0 && !lead0 && x.k > 1) ? 1 : 0, 9); x.raw[i] = (char)('0' + x.d[i]); x.zero &= x.d[i] == 0; }
}
// The numeral is within the range of T: a comparison of numerals, not of values.
template <typename T> static void limit(const Num& x) {
  uint64_t mx = (uint64_t)std::numeric_limits<T>::max() + ((std::is_signed<T>::value && x.neg) ? 1 : 0);
  unsigned m[20]; size_t n = 0; for (uint64_t y = mx; y; y /= 10) m[n++] = y % 10;
  if (x.k < n) return;
  bool le = true;
  for (size_t i = 0; i < n; i++) le = (x.d[x.k - 1 - i] < m[i]) | ((x.d[x.k - 1 - i] == m[i]) & le);
  for (size_t i = n; i < x.k; i++) le &= x.d[x.k - 1 - i] == 0;
  psym_assume(le);
}
template <typename T> static T value(const Num& x) {
  typedef std::make_unsigned_t<T> U; U v = 0;
  for (size_t i = 0; i < x.k; i++) v = v * 10 + x.d[i];
  return (T)(x.neg ? (U)0 - v : v);
}
template <typename T, typename F> static void parseInt(F f, size_t maxd) {
  Num x; size_t sign = choose("sign", 0, std::is_signed<T>::value ? 2 : 1);  // none, '+', '-'
  x.neg = sign == 2; digits(x, P("KLO", 1), P("K", maxd), P("LEAD", 0)); limit<T>(x);
  chars s(x.k + (sign != 0), '0'); size_t o = 0;
  if (sign) s[o++] = sign == 2 ? '-' : '+';
  for (size_t i = 0; i < x.k; i++) s[o++] = x.raw[i];
  T want = value<T>(x);
  CHECK(f(s) == want, "parsing the decimal representation gives the value");
  psym_cover("end");
}
ENTRY(parse_int) { parseInt<int>([](const chars& s) { return parlay::chars_to_int(s); }, 10); }
ENTRY(parse_long) { parseInt<long>([](const chars& s) { return parlay::chars_to_long(s); }, 19); }
ENTRY(parse_long_long) { parseInt<long long>([](const chars& s) { return parlay::chars_to_long_long(s); }, 19); }
ENTRY(parse_uint) { parseInt<unsigned>([](const chars& s) { return parlay::chars_to_uint(s); }, 10); }
ENTRY(parse_ulong) { parseInt<unsigned long>([](const chars& s) { return parlay::chars_to_ulong(s); }, 20); }
ENTRY(parse_ulong_long) { parseInt<unsigned long long>([](const chars& s) { return parlay::chars_to_ulong_long(s); }, 20); }
template <typename T, typename F> static void formatInt(F parse, size_t maxd) {
  Num x; x.neg = std::is_signed<T>::value ? choose("neg", 0, 1) : 0; digits(x, P("KLO", 1), P("K", maxd), false); limit<T>(x);
  if (x.neg) psym_assume(!x.zero);
  T v = value<T>(x);
  if (psym_decimal) psym_decimal((uint64_t)(std::conditional_t<std::is_signed<T>::value, int64_t, uint64_t>)v, x.neg ? 1 : std::is_signed<T>::value || sizeof(T) < 8 ? 0 : 2, x.raw, (int)x.k);
  chars s = parlay::to_chars(v);
  CHECK(s.size() == x.k + x.neg, "the decimal representation has the right length");
  if (x.neg) CHECK(s[0] == '-', "negative numbers start with a minus sign");
  for (size_t i = 0; i < x.k; i++) CHECK(s[i + x.neg] == x.raw[i], "the decimal digits are right");
  CHECK(parse(s) == v, "formatting and parsing give the value back");
  psym_cover("end");
}
ENTRY(format_int) { formatInt<int>([](const chars& s) { return parlay::chars_to_int(s); }, 10); }
ENTRY(format_long) { formatInt<long>([](const chars& s) { return parlay::chars_to_long(s); }, 19); }
ENTRY(format_long_long) { formatInt<long long>([](const chars& s) { return parlay::chars_to_long_long(s); }, 19); }
ENTRY(format_uint) { formatInt<unsigned>([](const chars& s) { return parlay::chars_to_uint(s); }, 10); }
ENTRY(format_ulong) { formatInt<unsigned long>([](const chars& s) { return parlay::chars_to_ulong(s); }, 20); }
ENTRY(format_ulong_long) { formatInt<unsigned long long>([](const chars& s) { return parlay::chars_to_ulong_long(s); }, 20); }
ENTRY(format_misc) {
  char c = (char)psym_u64("c", 8); bool b = psym_u64("b", 1);
  auto cc = parlay::to_chars(c); CHECK(cc.size() == 1 && cc[0] == c, "a character is formatted as itself");
  auto bb = parlay::to_chars(b); CHECK(bb.size() == 1 && bb[0] == (b ? '1' : '0'), "a boolean is formatted as 0 or 1");
  size_t n = choose("n", 0, 17); std::string st; for (size_t i = 0; i < n; i++) st.push_back((char)psym_u64("t", 8));
  auto ss = parlay::to_chars(st); CHECK(ss.size() == n, "string length"); for (size_t i = 0; i < n; i++) CHECK(ss[i] == st[i], "string characters");
  char z[20]; for (size_t i = 0; i < n; i++) z[i] = (char)psym_range("z", 1, 255); z[n] = 0;
  auto zz = parlay::to_chars((const char*)z); CHECK(zz.size() == n, "C string length"); for (size_t i = 0; i < n; i++) CHECK(zz[i] == z[i], "C string characters");
  psym_cover("end");
}
ENTRY(format_nested) {  // pairs, sequences, arrays of characters
  size_t n = choose("n", 0, P("N", 4));
  sequence<bool> v(n); for (size_t i = 0; i < n; i++) v[i] = psym_u64("b", 1);
  auto s = parlay::to_chars(v); 
  if (n == 0) { CHECK(s.size() == 2 && s[0] == '[' && s[1] == ']', "the empty sequence"); }
  else {
    CHECK(s.size() == 2 + n + 2 * (n - 1), "length of a formatted sequence");
    CHECK(s[0] == '[' && s[s.size() - 1] == ']', "brackets");
    for (size_t i = 0; i < n; i++) { CHECK(s[1 + 3 * i] == (v[i] ? '1' : '0'), "elements in order"); if (i + 1 < n) CHECK(s[2 + 3 * i] == ',' && s[3 + 3 * i] == ' ', "separators"); }
  }
  auto p = parlay::to_chars(std::make_pair('x', (bool)psym_u64("q", 1)));
  CHECK(p.size() == 6 && p[0] == '(' && p[1] == 'x' && p[2] == ',' && p[3] == ' ' && p[5] == ')', "a formatted pair");
  auto a = parlay::to_chars(std::array<char, 2>{(char)psym_u64("a0", 8), 'z'});
  CHECK(a.size() == 6 && a[0] == '[' && a[2] == ',' && a[3] == ' ' && a[4] == 'z' && a[5] == ']', "a formatted array");
  psym_cover("end");
}
// Floating point: [sign] digits [. digits] [e [sign] digits]
extern "C" __attribute__((weak)) int psym_std_parses;
extern "C" __attribute__((weak)) double psym_std_result;
template <typename T, typename F> static void parseFloat(F f, size_t maxlen, uint64_t maxman, int maxexp) {
  size_t sign = choose("sign", 0, P("SIGNS", 2)), a = choose("a", P("ALO", 0), P("A", 3)), point = choose("point", 0, 1), b = point ? choose("b", a ? 0 : 1, P("B", 3)) : 0;
  if (a + b == 0) return;
  size_t ex = choose("exp", 0, P("EX", 3)), el = ex ? choose("elen", 1, P("EL", 2)) : 0;  // none, e, e+, e-
  size_t ws = choose("ws", 0, P("WS", 0));
  std::string s;
  for (size_t i = 0; i < ws; i++) s.push_back(i & 1 ? '\t' : ' ');
  if (sign) s.push_back(sign == 2 ? '-' : '+');
  uint64_t r = 0; 
  for (size_t i = 0; i < a + b; i++) { if (i == a) s.push_back('.'); unsigned d = (unsigned)psym_range("d", 0, 9); s.push_back((char)('0' + d)); r = r * 10 + d; }
  if (point && b == 0) s.push_back('.');
  int e = -(int)b;
  if (ex) {
    s.push_back(psym_choose("E", 0, P("CASE", 0)) ? 'E' : 'e'); if (ex >= 2) s.push_back(ex == 3 ? '-' : '+');
    int x = 0; for (size_t i = 0; i < el; i++) { int d = (int)choose("ed", 0, 9); s.push_back((char)('0' + d)); x = x * 10 + d; }
    e += ex == 3 ? -x : x;
  }
  chars cs(s.begin(), s.end());
  T got = f(cs);
  if (!psym_engine()) {  // native replay: the standard conversion is the oracle
    T want = sizeof(T) == 4 ? (T)std::strtof(s.c_str(), nullptr) : (T)std::strtod(s.c_str(), nullptr);
    CHECK(got == want, "parsed value equals the standard conversion");
  } else if (psym_std_parses) {
    CHECK(psym_std_parses == 1 && got == (T)psym_std_result, "the standard conversion is used unchanged");
  } else {
    CHECK(e <= maxexp && e >= -maxexp, "the fast path is only used where the power of ten is exact");
    CHECK(r <= ((uint64_t)1 << maxman), "the fast path is only used where the digits are exact");
    static const T tens[] = {(T)1e0, (T)1e1, (T)1e2, (T)1e3, (T)1e4, (T)1e5, (T)1e6, (T)1e7, (T)1e8, (T)1e9, (T)1e10, (T)1e11, (T)1e12, (T)1e13, (T)1e14, (T)1e15, (T)1e16, (T)1e17, (T)1e18, (T)1e19, (T)1e20, (T)1e21, (T)1e22};
    int k = e < 0 ? -e : e;
    T want = (T)r; if (e < 0) want = want / tens[k]; else if (e > 0) want = want * tens[k];
    if (sign == 2) want = -want;
    uint64_t gb = 0, wb = 0; __builtin_memcpy(&gb, &got, sizeof(T)); __builtin_memcpy(&wb, &want, sizeof(T));
    CHECK(gb == wb, "the correctly rounded quotient or product of exact numbers");
  }
  psym_cover("end");
}
ENTRY(parse_double) { parseFloat<double>([](const chars& s) { return parlay::chars_to_double(s); }, 18, 53, 22); }
ENTRY(parse_float) { parseFloat<float>([](const chars& s) { return parlay::chars_to_float(s); }, 10, 24, 10); }
