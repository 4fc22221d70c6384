// C10: shrinks of numbers and characters, judged by contract (first candidate, range, progress, greedy search).
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/shrink/Shrink.h"
#include "rapidcheck/seq/Operations.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <set>

using namespace rc;

namespace {
using I = __int128;

std::string s128(I x) {
  if (x == 0) return "0";
  bool n = x < 0;
  unsigned __int128 u = n ? -(unsigned __int128)x : (unsigned __int128)x;
  std::string r;
  while (u) {
    r.insert(r.begin(), char('0' + (int)(u % 10)));
    u /= 10;
  }
  return n ? "-" + r : r;
}
I mag(I x) { return x < 0 ? -x : x; }

template <typename T>
std::vector<T> list(Seq<T> s, size_t limit) {
  std::vector<T> out;
  while (auto v = s.next()) {
    out.push_back(*v);
    if (out.size() > limit) vc::fail("shrink list does not end within the possible number of candidates");
  }
  VC_CHECK(!s.next(), "ended sequence yields again");
  return out;
}

template <typename T>
constexpr size_t bitsOf() { return sizeof(T) * 8; }

// Checks the direct shrinks towards `target`.
template <typename T>
void checkTowards(T value, T target) {
  auto l = list<T>(shrink::towards<T>(value, target), 4 * bitsOf<T>());
  vc::step(l.size() + 1);
  if (value == target) {
    VC_CHECK(l.empty(), "target itself has shrinks");
    return;
  }
  VC_CHECK(!l.empty() && l[0] == target, "shrinks of " << s128(value) << " towards " << s128(target) << " do not start with the target");
  I lo = std::min<I>(value, target), hi = std::max<I>(value, target);
  std::set<I> seen;
  for (T x : l) {
    VC_CHECK(I(x) != I(value), "value " << s128(value) << " offered as its own shrink");
    VC_CHECK(I(x) >= lo && I(x) <= hi, "shrink " << s128(x) << " of " << s128(value) << " outside the segment to " << s128(target));
    VC_CHECK(seen.insert(x).second, "shrink " << s128(x) << " of " << s128(value) << " offered twice");
  }
  I next = value > target ? I(value) - 1 : I(value) + 1;
  VC_CHECK(seen.count(next), "nearest candidate missing for " << s128(value) << " towards " << s128(target));
}

template <typename T>
void checkIntegral(T value) {
  auto l = list<T>(shrink::integral<T>(value), 4 * bitsOf<T>());
  vc::step(l.size() + 1);
  if (value == 0) {
    VC_CHECK(l.empty(), "zero has shrinks");
    return;
  }
  VC_CHECK(!l.empty() && l[0] == 0, "shrinks of " << s128(value) << " do not start with zero");
  std::set<I> seen;
  for (T x : l) {
    VC_CHECK(I(x) != I(value), "value " << s128(value) << " offered as its own shrink");
    bool inSeg = value > 0 ? (I(x) >= 0 && I(x) < I(value)) : (I(x) <= 0 && I(x) > I(value));
    bool counterpart = I(value) < 0 && I(x) == -I(value);
    VC_CHECK(inSeg || counterpart, "shrink " << s128(x) << " of " << s128(value) << " outside the segment to zero");
    VC_CHECK(seen.insert(x).second, "shrink " << s128(x) << " of " << s128(value) << " offered twice");
  }
  VC_CHECK(seen.count(value > 0 ? I(value) - 1 : I(value) + 1), "nearest candidate missing for " << s128(value));
  if (I(value) < 0 && -I(value) <= I(std::numeric_limits<T>::max()))
    VC_CHECK(seen.count(-I(value)), "positive counterpart of " << s128(value) << " not offered");
}

template <typename T, typename Shrinks, typename Fails>
T greedy(T value, Shrinks shrinks, Fails fails) {
  long steps = 0;
  while (true) {
    bool moved = false;
    auto q = shrinks(value);
    while (auto x = q.next()) {
      vc::step();
      if (fails(*x)) {
        value = *x;
        moved = true;
        break;
      }
    }
    if (!moved) return value;
    if (++steps > (long)(8 * bitsOf<T>())) vc::fail("greedy search takes more than a logarithmic number of steps");
  }
}

// For a threshold: greedy search ends at exactly the smallest failing magnitude.
template <typename T>
void checkThreshold(T value, I t) { // t in 0..|value|
  auto sh = [](T x) { return shrink::integral<T>(x); };
  auto a = greedy<T>(value, sh, [=](T x) { return mag(I(x)) >= t; });
  VC_CHECK(mag(I(a)) == t, "greedy from " << s128(value) << " with threshold |x|>=" << s128(t) << " ends at " << s128(a));
  if (I(value) < 0) {
    auto b = greedy<T>(value, sh, [=](T x) { return I(x) <= -t; });
    VC_CHECK(I(b) == -t, "greedy from " << s128(value) << " with threshold x<=" << s128(-t) << " ends at " << s128(b));
  } else {
    auto b = greedy<T>(value, sh, [=](T x) { return I(x) >= t; });
    VC_CHECK(I(b) == t, "greedy from " << s128(value) << " with threshold x>=" << s128(t) << " ends at " << s128(b));
  }
}

template <typename T>
void checkTowardsThreshold(T value, T target, I t) { // t between target and value
  auto sh = [=](T x) { return shrink::towards<T>(x, target); };
  bool down = target < value;
  auto a = greedy<T>(value, sh, [=](T x) { return down ? I(x) >= t : I(x) <= t; });
  VC_CHECK(I(a) == t, "greedy from " << s128(value) << " towards " << s128(target) << " with threshold " << s128(t) << " ends at " << s128(a));
}

template <typename T>
std::vector<T> boundary() {
  std::set<T> s;
  using L = std::numeric_limits<T>;
  auto add = [&](I x) {
    if (x >= I(L::min()) && x <= I(L::max())) s.insert(T(x));
  };
  for (size_t b = 0; b <= bitsOf<T>(); b++)
    for (int d = -2; d <= 2; d++) {
      add((I(1) << b) + d);
      add(-(I(1) << b) + d);
      add(((I(1) << b) * 2) / 3 + d);
    }
  for (int d = 0; d < 3; d++) {
    add(I(L::min()) + d);
    add(I(L::max()) - d);
    add(I(L::max()) / 2 + d);
    add(I(L::min()) / 2 - d);
    add(1000 + d);
    add(-1000 - d);
  }
  return std::vector<T>(s.begin(), s.end());
}

std::vector<I> thresholds(I m) { // 0..m: boundary thresholds
  std::set<I> s;
  for (I x : {I(0), I(1), I(2), I(3), m, m - 1, m - 2, m / 2, m / 2 + 1, m / 2 - 1, m / 3, m / 7 * 5, m - m / 4, m / 1000})
    if (x >= 0 && x <= m) s.insert(x);
  for (I b = 4; b < m; b *= 16) s.insert(b);
  return std::vector<I>(s.begin(), s.end());
}

template <typename T>
void exhaustive8() {
  using L = std::numeric_limits<T>;
  I v = I(L::min()) + vc::pick(256);
  checkIntegral<T>(T(v));
  for (I t = 0; t <= mag(v); t++) checkThreshold<T>(T(v), t);
  for (I g = L::min(); g <= I(L::max()); g++) {
    checkTowards<T>(T(v), T(g));
    for (I t = std::min(v, g); t <= std::max(v, g); t += 1) checkTowardsThreshold<T>(T(v), T(g), t);
  }
  vc::matched(256);
  vc::state(s128(v));
  vc::sample("every threshold and target for 8-bit value " + s128(v));
}
template <typename T>
void exhaustive16() {
  using L = std::numeric_limits<T>;
  I base = I(L::min()) + 64 * I(vc::pick(1024));
  for (I v = base; v < base + 64; v++) {
    checkIntegral<T>(T(v));
    for (I t : thresholds(mag(v))) checkThreshold<T>(T(v), t);
    for (I g : {I(L::min()), I(L::max()), I(0), I(1), I(1000), v, v + 1, v - 1})
      if (g >= I(L::min()) && g <= I(L::max())) checkTowards<T>(T(v), T(g));
    vc::matched();
    vc::state(s128(v));
  }
  vc::sample("all 16-bit values from " + s128(base));
}
template <typename T>
void boundaries() {
  static const auto vals = boundary<T>();
  T v = vals[vc::pick((int)vals.size())];
  checkIntegral<T>(v);
  for (I t : thresholds(mag(I(v)))) checkThreshold<T>(v, t);
  size_t gi = 0;
  for (T g : vals) {
    checkTowards<T>(v, g);
    gi++;
    if (!vc::thorough() && sizeof(T) == 8 && gi % 8 != 1 && g != 0 && g != std::numeric_limits<T>::max()) continue;
    I lo = std::min<I>(v, g), hi = std::max<I>(v, g);
    for (I t : thresholds(hi - lo)) checkTowardsThreshold<T>(v, g, lo + t);
    vc::matched();
  }
  vc::state(s128(v));
  vc::sample("boundary value " + s128(v) + " towards every boundary value");
}
} // namespace

VC_SUITE(int8, 1) { exhaustive8<signed char>(); }
VC_SUITE(uint8, 1) { exhaustive8<unsigned char>(); }
VC_SUITE(plainchar, 1) { exhaustive8<char>(); }
VC_SUITE(int16, 2) { exhaustive16<short>(); }
VC_SUITE(uint16, 2) { exhaustive16<unsigned short>(); }
VC_SUITE(int32, 1) { boundaries<int>(); }
VC_SUITE(uint32, 1) { boundaries<unsigned>(); }
VC_SUITE(int64, 1) { boundaries<long>(); }
VC_SUITE(uint64, 1) { boundaries<unsigned long>(); }
VC_SUITE(intLL, 1) { boundaries<long long>(); }
VC_SUITE(uintLL, 1) { boundaries<unsigned long long>(); }

VC_SUITE(booleans, 1) {
  bool v = vc::pick(2) == 1;
  auto l = list<bool>(shrink::boolean(v), 10);
  VC_CHECK(l == (v ? std::vector<bool>{false} : std::vector<bool>{}), "shrinks of a boolean");
  vc::state((uint64_t)v);
  vc::matched();
  vc::step();
}

namespace {
template <typename T>
void realCase(T v) {
  auto l = list<T>(shrink::real<T>(v), 10000);
  vc::step(l.size() + 1);
  if (v == 0 || std::isnan(v)) {
    VC_CHECK(l.empty(), "shrinks offered for " << v);
    return;
  }
  VC_CHECK(!l.empty() && l[0] == 0, "shrinks of " << v << " do not start with zero");
  bool whole = false;
  for (T x : l) {
    VC_CHECK(!std::isnan(x), "NaN offered as a shrink of " << v);
    bool smaller = std::abs(x) < std::abs(v);
    bool counterpart = v < 0 && x == -v;
    VC_CHECK(smaller || counterpart, "shrink " << x << " of " << v << " is not simpler");
    if (std::isfinite(v) && x == std::trunc(v)) whole = true;
  }
  if (std::isfinite(v) && std::trunc(v) != v) VC_CHECK(whole, "whole part of " << v << " not offered");
  if (v < 0) VC_CHECK(seq::contains<T>(shrink::real<T>(v), -v), "positive counterpart of " << v << " not offered");
}
template <typename T>
int depth(T v, int d) { // longest chain, bounded
  if (d > 40) vc::fail("chain of floating point shrinks longer than any sensible bound");
  int best = 0;
  for (T x : list<T>(shrink::real<T>(v), 10000)) {
    best = std::max(best, 1 + depth(x, d + 1));
    realCase(x);
  }
  return best;
}
template <typename T>
void realSuite() {
  std::vector<T> vals;
  using L = std::numeric_limits<T>;
  for (T x : {T(0), T(1), T(1.5), T(0.5), T(0.1), T(2), T(1e10), T(1e-10), T(123456.75), T(1) / 3, L::max(), L::min(), L::denorm_min(), L::epsilon(),
              L::infinity(), L::quiet_NaN(), L::max() / 2, T(4294967296.5), T(9007199254740993.0), T(16777217.0), T(255.999), T(1e18), T(1e19)}) {
    vals.push_back(x);
    vals.push_back(-x);
    vals.push_back(std::nextafter(x, T(0)));
    vals.push_back(std::nextafter(x, L::infinity()));
  }
  for (int e = -30; e <= 70; e++) {
    vals.push_back(std::ldexp(T(1), e));
    vals.push_back(-std::ldexp(T(1.25), e));
    vals.push_back(std::ldexp(T(1), e) + T(0.5));
  }
  for (int q = -200; q <= 200; q++) vals.push_back(T(q) / 8);
  T v = vals[vc::pick((int)vals.size())];
  realCase(v);
  depth(v, 0);
  vc::matched();
  vc::state(vc::str(v));
  vc::sample("real " + vc::str(v));
}
} // namespace
VC_SUITE(floats, 1) { realSuite<float>(); }
VC_SUITE(doubles, 1) { realSuite<double>(); }

namespace {
// Preference order: a b c, other lower-case letters, A B C, other upper case..., 1 2 3, space, newline, everything else.
template <typename T>
void charCase(T v, std::set<T> &onPath, int d) {
  if (d > 16) vc::fail("chain of character shrinks longer than the preference order");
  auto l = list<T>(shrink::character<T>(v), 64);
  vc::step(l.size() + 1);
  static const std::string pref = "abcABC123 \n";
  auto pos = v >= 0 && v < 128 ? pref.find(char(v)) : std::string::npos;
  long v2 = v;
  bool upper = v2 >= 'A' && v2 <= 'Z';
  for (T x : l) {
    VC_CHECK(x != v, "character " << +v << " offered as its own shrink");
    VC_CHECK(!onPath.count(x), "shrinking characters goes in a circle at " << +x);
    long lx = x;
    auto px = lx >= 0 && lx < 128 ? pref.find(char(lx)) : std::string::npos;
    bool lowerOf = upper && lx == v2 + 32;
    VC_CHECK(px != std::string::npos || lowerOf, "character " << +v << " shrinks to " << +x << " which is not preferred");
    if (pos != std::string::npos && px != std::string::npos) VC_CHECK(px < pos, "character " << +v << " shrinks to the later " << +x);
  }
  // the first preferred character is always offered
  if (v2 != 'a') VC_CHECK(!l.empty() && l[0] == T('a'), "'a' is not the first shrink of " << +v);
  else VC_CHECK(l.empty(), "'a' has shrinks");
  // within the list the preference order is respected
  size_t last = 0;
  for (T x : l) {
    auto px = pref.find(char(x));
    if (upper && long(x) == v2 + 32) continue;
    VC_CHECK(px >= last, "shrinks of " << +v << " out of preference order");
    last = px;
  }
  if (upper) VC_CHECK(std::find(l.begin(), l.end(), T(v2 + 32)) != l.end(), "lower case letter not offered for " << +v);
  onPath.insert(v);
  for (T x : l) charCase<T>(x, onPath, d + 1);
  onPath.erase(v);
}
} // namespace
VC_SUITE(chars, 1) {
  int v = vc::pick(256) - 128;
  std::set<char> p;
  charCase<char>(char(v), p, 0);
  vc::matched();
  vc::state((uint64_t)(v + 128));
  vc::sample("character code " + std::to_string(v));
}
VC_SUITE(wchars, 1) {
  int v = vc::pick(0x800);
  std::set<wchar_t> p;
  charCase<wchar_t>(wchar_t(v), p, 0);
  vc::matched();
  vc::state((uint64_t)v);
}

namespace {
template <typename T>
void otherChars(std::initializer_list<unsigned long> high) {
  std::vector<T> vals;
  for (int v = 0; v < 256; v++) vals.push_back(T(v));
  for (auto h : high) vals.push_back(T(h));
  T v = vals[vc::pick((int)vals.size())];
  std::set<T> p;
  charCase<T>(v, p, 0);
  vc::matched();
  vc::state((uint64_t)v);
}
} // namespace
VC_SUITE(scharChars, 1) { otherChars<signed char>({}); }
VC_SUITE(ucharChars, 1) { otherChars<unsigned char>({}); }
VC_SUITE(char16Chars, 1) { otherChars<char16_t>({0x100, 0x130, 0x141, 0x17f, 0x1c4, 0x391, 0x430, 0x461, 0x2028, 0x2160, 0x3000, 0x4141, 0x6161, 0xd800, 0xdfff, 0xff21, 0xff41, 0xfffe, 0xffff}); }
VC_SUITE(char32Chars, 1) { otherChars<char32_t>({0x100, 0x141, 0x161, 0x391, 0x2028, 0xffff, 0x10000, 0x10041, 0x10061, 0x10428, 0x1f600, 0x10ffff, 0x110000, 0x41000041, 0x7fffffff, 0x80000041, 0xffffffff}); }
