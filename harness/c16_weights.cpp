// C16: shares and reachability of random choices.  Every residue of the number that decides a choice is fed
// to the real generators and the outcomes are counted.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include <deque>
#include <list>
#include <map>
#include <set>

using namespace rc;

// index lists (the library supports C++11, where the standard ones are missing)
template <std::size_t...> struct vcidx {};
template <std::size_t N, std::size_t... I> struct vcmake : vcmake<N - 1, N - 1, I...> {};
template <std::size_t... I> struct vcmake<0, I...> { using type = vcidx<I...>; };

namespace {
template <typename T>
Shrinkable<T> gen1(const Gen<T> &g, int size, uint64_t first, uint64_t fill) {
  vcr::Script s;
  s.sequential = true;
  s.fixed = {first};
  s.fill = fill;
  vcr::reset(s);
  return g(Random(uint64_t(1)), size);
}
const uint64_t kBig = ~uint64_t(0);

template <typename F>
bool failsGeneration(F f) {
  try {
    f();
  } catch (const GenerationFailure &e) {
    return std::string(e.what()).size() > 0;
  } catch (...) {
    vc::fail("something else than a generation failure was thrown");
  }
  return false;
}

// Counts outcomes of `window` consecutive numbers starting at each of a few multiples.
template <typename T>
void checkShares(const Gen<T> &g, const std::map<T, uint64_t> &share, int size, const std::string &what) {
  uint64_t window = 0;
  for (auto &p : share) window += p.second;
  const uint64_t starts[3] = {0, window * 7, window * (uint64_t(1) << 40)};
  for (uint64_t st : starts) {
    std::map<T, uint64_t> got;
    for (uint64_t x = 0; x < window; x++) {
      got[gen1(g, size, st + x, st + x).value()]++;
      vc::step();
    }
    for (auto &p : share)
      VC_CHECK(got[p.first] == p.second, what << " at size " << size << ": element " << p.first << " selected " << got[p.first] << " of " << window << " times, expected " << p.second);
    for (auto &p : got)
      if (p.second) VC_CHECK(share.count(p.first), what << " at size " << size << ": unexpected element " << p.first);
  }
  vc::matched();
}
const std::vector<int> kSizes = {0, 1, 2, 50, 99, 100, 101, 1000};

template <typename T>
void weighted(const std::vector<uint64_t> &w, bool oneOf) {
  Gen<int> g = gen::just(-1);
  auto J = [](int i) { return Gen<int>(gen::just(i)); };
  if (!oneOf) {
    switch (w.size()) {
    case 1: g = gen::weightedElement<int>({{w[0], 0}}); break;
    case 2: g = gen::weightedElement<int>({{w[0], 0}, {w[1], 1}}); break;
    case 3: g = gen::weightedElement<int>({{w[0], 0}, {w[1], 1}, {w[2], 2}}); break;
    case 4: g = gen::weightedElement<int>({{w[0], 0}, {w[1], 1}, {w[2], 2}, {w[3], 3}}); break;
    case 5: g = gen::weightedElement<int>({{w[0], 0}, {w[1], 1}, {w[2], 2}, {w[3], 3}, {w[4], 4}}); break;
    }
  } else {
    switch (w.size()) {
    case 1: g = gen::weightedOneOf<int>({{w[0], J(0)}}); break;
    case 2: g = gen::weightedOneOf<int>({{w[0], J(0)}, {w[1], J(1)}}); break;
    case 3: g = gen::weightedOneOf<int>({{w[0], J(0)}, {w[1], J(1)}, {w[2], J(2)}}); break;
    case 4: g = gen::weightedOneOf<int>({{w[0], J(0)}, {w[1], J(1)}, {w[2], J(2)}, {w[3], J(3)}}); break;
    case 5: g = gen::weightedOneOf<int>({{w[0], J(0)}, {w[1], J(1)}, {w[2], J(2)}, {w[3], J(3)}, {w[4], J(4)}}); break;
    }
  }
  uint64_t sum = 0;
  std::map<int, uint64_t> share;
  for (size_t i = 0; i < w.size(); i++) {
    sum += w[i];
    if (w[i]) share[(int)i] = w[i];
  }
  std::string what = std::string(oneOf ? "weightedOneOf " : "weightedElement ") + vc::strv(w);
  vc::state(what);
  for (int size : kSizes) {
    if (sum == 0) {
      for (uint64_t x : {uint64_t(0), uint64_t(1), kBig})
        VC_CHECK(failsGeneration([&] { gen1(g, size, x, x).value(); }), what << ": generation does not fail although all weights are zero");
      vc::matched();
    } else if (sum <= 64) {
      checkShares(g, share, size, what);
    } else {
      // too many numbers: look around every boundary a cumulative or reversed table could have
      std::set<uint64_t> xs = {0, 1, sum - 1, sum, sum + 1, kBig, kBig - 1, kBig / 2};
      uint64_t c = 0;
      for (auto x : w) {
        c += x;
        for (int d = -2; d <= 2; d++) xs.insert(c + d), xs.insert(sum - c + d);
      }
      std::set<int> seen;
      for (auto x : xs) {
        int v = gen1(g, size, x, x).value();
        VC_CHECK(v >= 0 && v < (int)w.size() && w[v] > 0, what << ": element " << v << " with weight zero selected");
        seen.insert(v);
      }
      for (auto &p : share) VC_CHECK(seen.count(p.first), what << ": element " << p.first << " not selected at any boundary");
      vc::matched();
    }
  }
  vc::sample(what);
}

// Which elements can be produced: at most n different numbers matter.
template <typename G>
std::set<int> reachable(const G &g, int size, int n) {
  std::set<int> r;
  for (int x = 0; x < 2 * n; x++) r.insert(gen1(g, size, x, x).value());
  for (uint64_t k = 0; k < 4; k++) r.insert(gen1(g, size, kBig - k, kBig - k).value());
  vc::step(2 * n);
  return r;
}
void checkSized(const Gen<int> &g, int n, const std::string &what) {
  size_t last = 0;
  for (int size = 0; size <= 130; size++) {
    auto r = reachable(g, size, n);
    VC_CHECK(!r.empty() && *r.begin() == 0 && *r.rbegin() == (int)r.size() - 1, what << " at size " << size << ": selectable elements are not an initial segment");
    VC_CHECK((int)r.size() <= n, what << ": too many elements");
    VC_CHECK(r.size() >= last, what << ": fewer elements at size " << size << " than at smaller sizes");
    if (size == 0) VC_CHECK(r.size() == 1, what << ": " << r.size() << " elements at size 0");
    if (size >= 100) VC_CHECK((int)r.size() == n, what << ": only " << r.size() << " of " << n << " elements at size " << size);
    // uniform within the segment
    std::map<int, uint64_t> share;
    for (int v : r) share[v] = 1;
    if (n <= 16 && (size % 10 == 0 || size < 5)) checkShares(g, share, size, what);
    last = r.size();
  }
  for (int size : {1000, 1 << 20, 0x7fffffff}) VC_CHECK((int)reachable(g, size, n).size() == n, what << " at size " << size << ": not all elements");
  vc::matched();
  vc::state(what);
}

template <typename T>
void ranges8() {
  int lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  int n = hi - lo + 1;
  int a = vc::pick(n) + lo;
  for (int b = a; b <= hi; b++) {
    if (!vc::thorough() && b - a > 40 && (b - a) % 23 && b != hi) continue;
    Gen<T> g = gen::inRange<T>((T)a, (T)b);
    if (b <= a) {
      VC_CHECK(failsGeneration([&] { gen1(g, 50, 1, 1).value(); }), "inRange(" << a << "," << b << ") does not fail");
      continue;
    }
    std::set<int> last;
    for (int size : {0, 1, 33, 99, 100, 101, 0x7fffffff}) {
      std::set<int> r;
      for (int x = 0; x < b - a; x++) {
        int v = gen1(g, size, x, x).value();
        VC_CHECK(v >= a && v < b, "inRange(" << a << "," << b << ") at size " << size << " gives " << v);
        r.insert(v);
      }
      if (size == 0) VC_CHECK(r.size() == 1 && *r.begin() == a, "inRange(" << a << "," << b << ") at size 0 gives more than its start");
      if (size >= 100) VC_CHECK((int)r.size() == b - a, "inRange(" << a << "," << b << ") at size " << size << " reaches only " << r.size() << " values");
      for (int v : last) VC_CHECK(r.count(v), "inRange(" << a << "," << b << "): " << v << " is lost when the size grows to " << size);
      last = r;
      vc::step(b - a);
    }
    vc::matched();
  }
  for (int b : {lo, a - 1, a})
    if (b >= lo) VC_CHECK(failsGeneration([&] { gen1(gen::inRange<T>((T)a, (T)b), 50, 1, 1).value(); }), "inRange(" << a << "," << b << ") does not fail");
  vc::state("r" + std::to_string(a));
}
template <typename T>
std::vector<T> interesting() {
  std::set<T> s;
  const T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
  for (int k = 0; k < 4; k++) {
    s.insert(lo + T(k));
    s.insert(hi - T(k));
    s.insert(T(k));
    if (std::is_signed<T>::value) s.insert(T(-k));
    s.insert(T(hi / 2 + k));
    s.insert(T(hi / 2 - k));
    if (std::is_signed<T>::value) s.insert(T(lo / 2 + k)), s.insert(T(lo / 2 - k));
    s.insert(T(100 + k));
    s.insert(T(255 + k));
  }
  return {s.begin(), s.end()};
}
template <typename T>
void rangesWide() {
  auto v = interesting<T>();
  T a = v[vc::pick((int)v.size())];
  for (T b : v) {
    Gen<T> g = gen::inRange<T>(a, b);
    if (b <= a) {
      VC_CHECK(failsGeneration([&] { gen1(g, 50, 1, 1).value(); }), "inRange(" << +a << "," << +b << ") does not fail");
      continue;
    }
    uint64_t n = (uint64_t)b - (uint64_t)a;
    n &= sizeof(T) == 8 ? ~uint64_t(0) : (uint64_t(1) << (8 * sizeof(T) % 64)) - 1;
    for (int size : {0, 1, 50, 99, 100, 101, 0x7fffffff}) {
      T mx = a;
      for (uint64_t x : {uint64_t(0), uint64_t(1), n / 2, n - 1, n, n + 1, kBig, kBig / 3, uint64_t(1) << 63}) {
        T got = gen1(g, size, x, x).value();
        VC_CHECK(got >= a && got < b, "inRange(" << +a << "," << +b << ") at size " << size << " gives " << +got);
        if (got > mx) mx = got;
        vc::step();
      }
      T z = gen1(g, size, 0, 0).value();
      if (size == 0) VC_CHECK(mx == a, "inRange(" << +a << "," << +b << ") at size 0 gives " << +mx);
      if (size >= 100) {
        VC_CHECK(mx == T(b - 1), "inRange(" << +a << "," << +b << ") at size " << size << ": last value never reached, at most " << +mx);
        VC_CHECK(z == a, "inRange(" << +a << "," << +b << "): first value not reached");
      }
    }
    vc::matched();
  }
  vc::state("w" + std::to_string(a));
}
} // namespace

VC_SUITE(weights, 8) {
  static const std::vector<uint64_t> small = {0, 1, 2, 3, 5};
  static const std::vector<uint64_t> big = {0, 1, 1000, uint64_t(1) << 32, uint64_t(1) << 61};
  int c = vc::pick(2 * 5 * 5 * 5);
  bool oneOf = c % 2;
  c /= 2;
  int len = c % 5 + 1;
  c /= 5;
  bool useBig = vc::pick(2);
  const auto &al = useBig ? big : small;
  std::vector<uint64_t> w;
  for (int i = 0; i < len; i++) {
    int k;
    if (i < 2) {
      k = c % 5;
      c /= 5;
    } else {
      k = vc::pick(5);
    }
    w.push_back(al[k]);
  }
  weighted<int>(w, oneOf);
}
VC_SUITE(uniform, 4) {
  int n = vc::pick(20) + 1;
  std::vector<int> v;
  std::map<int, uint64_t> share;
  for (int i = 0; i < n; i++) {
    v.push_back(i * 3 + 1);
    share[i * 3 + 1] = 1;
  }
  std::list<int> l(v.begin(), v.end());
  std::set<int> s(v.begin(), v.end());
  std::deque<int> d(v.begin(), v.end());
  const std::vector<int> cv = v;
  std::string str;
  std::map<char, uint64_t> cshare;
  for (int i = 0; i < n; i++) {
    str += char('a' + i);
    cshare['a' + i] = 1;
  }
  for (int size : kSizes) {
    checkShares(gen::elementOf(v), share, size, "elementOf(vector)");
    checkShares(gen::elementOf(cv), share, size, "elementOf(const vector)");
    checkShares(gen::elementOf(std::vector<int>(v)), share, size, "elementOf(vector&&)");
    checkShares(gen::elementOf(l), share, size, "elementOf(list)");
    checkShares(gen::elementOf(s), share, size, "elementOf(set)");
    checkShares(gen::elementOf(d), share, size, "elementOf(deque)");
    checkShares(gen::elementOf(str), cshare, size, "elementOf(string)");
  }
  // duplicates keep their share
  std::vector<int> dup(v);
  dup.push_back(v[0]);
  auto ds = share;
  ds[v[0]] = 2;
  checkShares(gen::elementOf(dup), ds, 10, "elementOf(with duplicates)");
  VC_CHECK(v.size() == (size_t)n && (n == 0 || v[0] == 1), "elementOf changed the given container");
  if (n == 1) {
    VC_CHECK(failsGeneration([&] { gen1(gen::elementOf(std::vector<int>()), 10, 1, 1).value(); }), "elementOf(empty)");
    VC_CHECK(failsGeneration([&] { gen1(gen::elementOf(std::set<int>()), 10, 1, 1).value(); }), "elementOf(empty set)");
    VC_CHECK(failsGeneration([&] { gen1(gen::sizedElementOf(std::vector<int>()), 10, 1, 1).value(); }), "sizedElementOf(empty)");
  }
  vc::state(std::to_string(n));
}
VC_SUITE(variadic, 1) {
  int n = vc::pick(6) + 1, size = kSizes[vc::pick((int)kSizes.size())];
  std::map<int, uint64_t> share;
  for (int i = 0; i < n; i++) share[i] = 1;
  auto J = [](int i) { return Gen<int>(gen::just(i)); };
  switch (n) {
  case 1: checkShares(gen::element(0), share, size, "element"); checkShares(gen::oneOf(J(0)), share, size, "oneOf"); break;
  case 2: checkShares(gen::element(0, 1), share, size, "element"); checkShares(gen::oneOf(J(0), J(1)), share, size, "oneOf"); break;
  case 3: checkShares(gen::element(0, 1, 2), share, size, "element"); checkShares(gen::oneOf(J(0), J(1), J(2)), share, size, "oneOf"); break;
  case 4: checkShares(gen::element(0, 1, 2, 3), share, size, "element"); checkShares(gen::oneOf(J(0), J(1), J(2), J(3)), share, size, "oneOf"); break;
  case 5: checkShares(gen::element(0, 1, 2, 3, 4), share, size, "element"); checkShares(gen::oneOf(J(0), J(1), J(2), J(3), J(4)), share, size, "oneOf"); break;
  case 6: checkShares(gen::element(0, 1, 2, 3, 4, 5), share, size, "element"); checkShares(gen::oneOf(J(0), J(1), J(2), J(3), J(4), J(5)), share, size, "oneOf"); break;
  }
  vc::state(std::to_string(n) + "/" + std::to_string(size));
}
namespace {
template <std::size_t... I>
Gen<int> manyWeighted(const std::vector<uint64_t> &w, bool oneOf, vcidx<I...>) {
  if (oneOf) return gen::weightedOneOf<int>({{w[I], Gen<int>(gen::just((int)I))}...});
  return gen::weightedElement<int>({{w[I], (int)I}...});
}
template <std::size_t... I>
Gen<int> manyUniform(int kind, vcidx<I...>) {
  if (kind == 0) return gen::element((int)I...);
  if (kind == 1) return gen::oneOf(Gen<int>(gen::just((int)I))...);
  if (kind == 2) return gen::sizedElement((int)I...);
  return gen::sizedOneOf(Gen<int>(gen::just((int)I))...);
}
template <std::size_t N>
void manyAlternatives() {
  using Idx = typename vcmake<N>::type;
  int pat = vc::pick(14, "weights");
  std::vector<uint64_t> w(N, 1);
  switch (pat) {
  case 0: break;
  case 1: for (size_t i = 0; i < N; i++) w[i] = i; break;
  case 2: for (size_t i = 0; i < N; i++) w[i] = N - 1 - i; break;
  case 3: for (size_t i = 0; i < N; i++) w[i] = i % 2; break;
  case 4: for (size_t i = 0; i < N; i++) w[i] = (i + 1) % 2; break;
  case 5: for (size_t i = 0; i < N; i++) w[i] = i == N - 1; break;
  case 6: for (size_t i = 0; i < N; i++) w[i] = i == 0 ? 3 : 0; break;
  case 7: for (size_t i = 0; i < N; i++) w[i] = i == 0 || i == N - 1 ? 2 : 0; break;
  case 8: for (size_t i = 0; i < N; i++) w[i] = i < N / 2 ? 0 : i % 3 + 1; break;
  case 9: for (size_t i = 0; i < N; i++) w[i] = i == N / 2 ? 50 : 1; break;
  case 10: for (size_t i = 0; i < N; i++) w[i] = i % 5 == 4 ? 7 : 0; break;
  case 11: for (size_t i = 0; i < N; i++) w[i] = uint64_t(1) << (i % 9); break;
  case 12: for (size_t i = 0; i < N; i++) w[i] = (i * 7919) % 5; break;
  case 13: for (size_t i = 0; i < N; i++) w[i] = 0; break;
  }
  std::map<int, uint64_t> share, one;
  uint64_t sum = 0;
  for (size_t i = 0; i < N; i++) {
    one[(int)i] = 1;
    sum += w[i];
    if (w[i]) share[(int)i] = w[i];
  }
  for (bool oneOf : {false, true}) {
    std::string what = std::string(oneOf ? "weightedOneOf " : "weightedElement ") + vc::strv(w);
    auto g = manyWeighted(w, oneOf, Idx());
    if (sum == 0) {
      for (uint64_t x : {uint64_t(0), uint64_t(1), kBig})
        VC_CHECK(failsGeneration([&] { gen1(g, 50, x, x).value(); }), what << ": generation does not fail although all weights are zero");
    } else {
      for (int size : {0, 1, 100, 1000}) checkShares(g, share, size, what);
    }
  }
  if (pat == 0) {
    for (int size : {0, 1, 100, 1000}) {
      checkShares(manyUniform(0, Idx()), one, size, "element of " + std::to_string(N));
      checkShares(manyUniform(1, Idx()), one, size, "oneOf of " + std::to_string(N));
    }
    checkSized(manyUniform(2, Idx()), N, "sizedElement of " + std::to_string(N));
    checkSized(manyUniform(3, Idx()), N, "sizedOneOf of " + std::to_string(N));
  }
  vc::state(std::to_string(N) + "/" + std::to_string(pat));
}
} // namespace
// Many alternatives: tables far longer than the handful of entries people write by hand.
VC_SUITE(manyAlternatives7, 2) { manyAlternatives<7>(); }
VC_SUITE(manyAlternatives16, 2) { manyAlternatives<16>(); }
VC_SUITE(manyAlternatives33, 2) { manyAlternatives<33>(); }
VC_SUITE(manyAlternatives65, 2) { manyAlternatives<65>(); }
VC_SUITE(manyElements, 8) {
  static const int ns[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 3000};
  int n = ns[vc::pick(16, "elements")];
  std::vector<int> v;
  std::map<int, uint64_t> share;
  for (int i = 0; i < n; i++) v.push_back(i * 3 + 1), share[i * 3 + 1] = 1;
  std::list<int> l(v.begin(), v.end());
  std::set<int> s(v.begin(), v.end());
  for (int size : {0, 100}) {
    checkShares(gen::elementOf(v), share, size, "elementOf(long vector)");
    checkShares(gen::elementOf(l), share, size, "elementOf(long list)");
    checkShares(gen::elementOf(s), share, size, "elementOf(long set)");
  }
  vc::state(std::to_string(n));
}
VC_SUITE(sized, 8) {
  int c = vc::pick(40);
  if (c < 24) {
    int n = c < 20 ? c + 1 : c == 20 ? 50 : c == 21 ? 100 : c == 22 ? 101 : 300;
    std::vector<int> v;
    for (int i = 0; i < n; i++) v.push_back(i);
    checkSized(gen::sizedElementOf(v), n, "sizedElementOf(" + std::to_string(n) + ")");
    std::list<int> l(v.begin(), v.end());
    checkSized(gen::sizedElementOf(l), n, "sizedElementOf(list of " + std::to_string(n) + ")");
  } else if (c < 32) {
    auto J = [](int i) { return Gen<int>(gen::just(i)); };
    switch (c - 24) {
    case 0: checkSized(gen::sizedElement(0), 1, "sizedElement"); break;
    case 1: checkSized(gen::sizedElement(0, 1), 2, "sizedElement"); break;
    case 2: checkSized(gen::sizedElement(0, 1, 2), 3, "sizedElement"); break;
    case 3: checkSized(gen::sizedElement(0, 1, 2, 3, 4), 5, "sizedElement"); break;
    case 4: checkSized(gen::sizedOneOf(J(0)), 1, "sizedOneOf"); break;
    case 5: checkSized(gen::sizedOneOf(J(0), J(1)), 2, "sizedOneOf"); break;
    case 6: checkSized(gen::sizedOneOf(J(0), J(1), J(2)), 3, "sizedOneOf"); break;
    case 7: checkSized(gen::sizedOneOf(J(0), J(1), J(2), J(3), J(4)), 5, "sizedOneOf"); break;
    }
  }
}
VC_SUITE(ranges8, 8) { ranges8<int8_t>(); }
VC_SUITE(rangesU8, 8) { ranges8<uint8_t>(); }
VC_SUITE(rangesInt, 4) { rangesWide<int>(); }
VC_SUITE(rangesUnsigned, 4) { rangesWide<unsigned>(); }
VC_SUITE(rangesShort, 4) { rangesWide<short>(); }
VC_SUITE(rangesI64, 4) { rangesWide<int64_t>(); }
VC_SUITE(rangesU64, 4) { rangesWide<uint64_t>(); }
VC_SUITE(maybe, 4) {
  int size = vc::pick(550); // 0..519, then multiples of 1000 and around powers of two
  if (size >= 540) size = 1 << (size - 534);
  else if (size >= 530) size = (1 << (size - 524)) - 1;
  else if (size >= 520) size = 1000 * (size - 519);
  auto g = gen::maybe(gen::just(7));
  int nothing = 0, n = size == 0 ? 50 : size + 1;
  for (int x = 0; x < 2 * n; x++) {
    auto m = gen1(g, size, x, x).value();
    if (!m) nothing++;
    else VC_CHECK(*m == 7, "maybe gives a value the generator does not produce");
    vc::step();
  }
  if (size == 0) VC_CHECK(nothing == 2 * n, "maybe at size 0 yields something");
  VC_CHECK(nothing > 0, "maybe at size " << size << " never yields nothing");
  if (size > 0) {
    VC_CHECK(nothing < 2 * n, "maybe at size " << size << " always yields nothing");
    VC_CHECK(nothing <= n, "maybe at size " << size << " yields nothing " << nothing << " of " << 2 * n << " times");
    // The larger the size the rarer: the same numbers at a sixteenth of the size yield nothing more than twice as often.
    int before = 0;
    for (int x = 0; x < 2 * n && size >= 16; x++) before += !gen1(g, size / 16, x, x).value();
    VC_CHECK(size < 16 || nothing * 2 <= before, "maybe yields nothing " << nothing << " of " << 2 * n << " times at size " << size << " and " << before << " times at size " << size / 16);
  }
  vc::matched();
  vc::state("m" + std::to_string(size));
}
VC_SUITE(charsAndBools, 1) {
  int size = kSizes[vc::pick((int)kSizes.size())];
  std::set<int> cs, us, bs;
  int zeroFree = 0;
  for (uint64_t x = 0; x < 512; x++) {
    uint64_t rest = uint64_t(0x55aa55aa55aa55aaULL) << 9;
    char c = gen1(gen::character<char>(), size, x | rest, kBig).value();
    VC_CHECK(c != 0, "null character generated");
    cs.insert(c);
    wchar_t w = gen1(gen::character<wchar_t>(), size, x | rest, kBig).value();
    VC_CHECK(w != 0, "null wide character generated");
    us.insert(gen1(gen::character<unsigned char>(), size, x | rest, kBig).value());
    bs.insert(gen1(gen::arbitrary<bool>(), size, x, kBig).value());
    zeroFree++;
  }
  VC_CHECK(cs.size() == 255 && us.size() == 255, "only " << cs.size() << "/" << us.size() << " different characters");
  VC_CHECK(bs.size() == 2, "only one truth value at size " << size);
  vc::matched(zeroFree);
  vc::state("c" + std::to_string(size));
}
