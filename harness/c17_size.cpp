// C17: what the size parameter controls.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "rapidcheck/state.h"
#include "rapidcheck/gen/detail/ScaleInteger.h"
#include <cmath>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace rc;

namespace {
const uint64_t kBig = ~uint64_t(0);
template <typename T>
Shrinkable<T> fixedDraws(const Gen<T> &g, int size, std::vector<uint64_t> draws, uint64_t fill) {
  vcr::Script s;
  s.sequential = true;
  s.fixed = std::move(draws);
  s.fill = fill;
  vcr::reset(s);
  return g(Random(uint64_t(1)), size);
}
std::vector<uint64_t> bounds64() {
  std::set<uint64_t> s;
  for (int b = 0; b < 64; b++)
    for (int d = -2; d <= 2; d++) s.insert((uint64_t(1) << b) + d);
  for (uint64_t k = 0; k < 220; k++) s.insert(k);
  for (uint64_t k = 0; k < 4; k++) s.insert(kBig - k), s.insert(kBig / 100 + k), s.insert(kBig / 100 - k), s.insert(kBig / 3 + k);
  for (uint64_t b = 1; b < 1000000007; b *= 10)
    for (int d = -1; d <= 1; d++) s.insert(b + d);
  return {s.begin(), s.end()};
}
const std::vector<int> kSizes = {0, 1, 2, 3, 10, 50, 99, 100, 101, 150, 1000, 1 << 20, 1 << 26, 0x7fffffff};

// Every integral type: 0 at size 0; representable values grow with the size; everything from 100 on.
template <typename T>
void integers(const char *name) {
  using U = typename std::make_unsigned<T>::type;
  const int W = sizeof(T) * 8;
  int p = vc::pick(2 * W + 8);
  uint64_t pattern = p < W ? uint64_t(1) << p : p < 2 * W ? (p - W == 63 ? kBig : (uint64_t(1) << (p - W + 1)) - 1) : std::vector<uint64_t>{0, kBig, 0xaaaaaaaaaaaaaaaaULL, 0x5555555555555555ULL, 0x8000000000000001ULL, 0x0123456789abcdefULL, 0xfedcba9876543210ULL, 0x7fffffffffffffffULL}[p - 2 * W];
  auto g = gen::arbitrary<T>();
  U lastMag = 0;
  for (int size = 0; size <= 130; size++) {
    // all numbers possible at this size have at most `bits` significant bits
    T v = fixedDraws(g, size, {pattern}, pattern).value();
    T ones = fixedDraws(g, size, {kBig}, kBig).value();   // -1 or the largest value
    T top = std::is_signed<T>::value ? T(0) : ones;
    U mag = std::is_signed<T>::value ? U(v < 0 ? ~v : v) : U(v);
    U maxMag = 0;
    for (int b = 0; b < W; b++) {
      T x = fixedDraws(g, size, {b == 63 ? kBig : (uint64_t(1) << (b + 1)) - 1}, 0).value();
      U m = std::is_signed<T>::value ? U(x < 0 ? ~x : x) : U(x);
      if (m > maxMag) maxMag = m;
    }
    (void)top;
    VC_CHECK(mag <= maxMag, name << " at size " << size << ": " << +v << " exceeds the largest magnitude " << +maxMag);
    VC_CHECK(maxMag >= lastMag, name << ": the range shrinks at size " << size);
    lastMag = maxMag;
    if (size == 0) VC_CHECK(v == 0 && maxMag == 0, name << " at size 0 gives " << +v);
    if (size >= 100) {
      VC_CHECK(maxMag == U(std::numeric_limits<T>::max()), name << " at size " << size << ": largest value not reached");
      VC_CHECK(v == T(pattern), name << " at size " << size << ": pattern gives " << +v);
    }
    vc::step(W + 2);
  }
  for (int size : kSizes)
    if (size >= 100) VC_CHECK(fixedDraws(g, size, {pattern}, pattern).value() == T(pattern), name << " at size " << size << ": pattern gives another value");
  vc::matched();
  vc::state(std::string(name) + std::to_string(p));
}
template <typename T>
void allValues(const char *name) { // 8 and 16 bit: every value is produced at size 100 and above
  int size = std::vector<int>{100, 101, 1000, 0x7fffffff}[vc::pick(4)];
  auto g = gen::arbitrary<T>();
  const long n = 1L << (sizeof(T) * 8);
  std::vector<bool> seen(n);
  long cnt = 0;
  for (long x = 0; x < n; x++) {
    auto v = (typename std::make_unsigned<T>::type)fixedDraws(g, size, {(uint64_t)x}, x).value();
    if (!seen[v]) cnt++;
    seen[v] = true;
  }
  VC_CHECK(cnt == n, name << " at size " << size << " produces only " << cnt << " of " << n << " values");
  vc::step(n);
  vc::matched();
  vc::state(std::string(name) + std::to_string(size));
}
template <typename T>
void reals(const char *name) {
  static const std::vector<uint64_t> al = {0, 1, kBig, 0x8000000000000000ULL, 0x7fffffffffffffffULL, 0x123456789abcdef0ULL, 5, 0xffffffff00000000ULL};
  uint64_t a = al[vc::pick(8)], b = al[vc::pick(8)];
  auto g = gen::arbitrary<T>();
  for (int i = 0; i <= 110 + (int)kSizes.size(); i++) {
    int size = i <= 110 ? i : kSizes[i - 111];
    T v = fixedDraws(g, size, {a, b}, b).value();
    VC_CHECK(std::isfinite(v), name << " at size " << size << " is not finite");
    if (size == 0) VC_CHECK(v == 0, name << " at size 0 is " << v);
    int bits = size >= 100 ? 64 : (size * 64 + 50) / 100;
    VC_CHECK(std::fabs((double)v) <= std::ldexp(1.0, bits) + 1, name << " at size " << size << " is " << v << ", beyond what that size allows");
    vc::step();
  }
  vc::matched();
  vc::state(name + std::to_string(a) + "," + std::to_string(b));
}

// Containers: never more elements than the size, empty at size 0; element generators see a legal size.
template <typename C>
size_t len(const C &c) { return std::distance(c.begin(), c.end()); }
template <typename C>
void sizesOf(const Gen<C> &g, const char *name, int maxSize, std::set<size_t> &lens, int size) {
  vcr::Script s;
  s.alphabet = {1, 2, 3, 5, 6, 0x8234567890abcdefULL, 4, 7, 0};
  s.maxPoints = 1;
  for (int x = 0; x < 2 * (size + 1); x++) {
    size_t n = 0;
    try {
      vcr::Script q;
      q.sequential = true;
      q.fixed = {(uint64_t)x};
      // distinct numbers so that sets and maps can be filled
      for (uint64_t k = 1; k < 400; k++) q.fixed.push_back(k * 0x9e3779b97f4a7c15ULL | 1);
      q.fill = 0x1111111111111111ULL;
      vcr::reset(q);
      n = len(g(Random(uint64_t(1)), size).value());
    } catch (const GenerationFailure &) {
      continue;
    }
    VC_CHECK(n <= (size_t)size, name << " at size " << size << " has " << n << " elements");
    lens.insert(n);
    vc::step();
  }
}
template <typename C>
void container(const char *name, const Gen<C> &g) {
  int lim = vc::thorough() ? 60 : 24;
  size_t last = 0;
  for (int size = 0; size <= lim; size++) {
    std::set<size_t> lens;
    sizesOf(g, name, lim, lens, size);
    if (size == 0) VC_CHECK(lens == std::set<size_t>{0}, name << " at size 0 is not empty");
    if (!lens.empty()) {
      VC_CHECK(*lens.rbegin() >= last, name << ": the largest container gets smaller at size " << size);
      last = *lens.rbegin();
      VC_CHECK(*lens.begin() == 0, name << " at size " << size << " cannot be empty");
    }
    VC_CHECK(size > 8 || (int)lens.size() == size + 1 || std::string(name).find("set") != std::string::npos || std::string(name).find("map") != std::string::npos || std::string(name).find("unique") != std::string::npos,
             name << " at size " << size << " reaches only " << lens.size() << " different lengths");
  }
  vc::matched();
  vc::state(name);
}

// ---------------------------------------------------------------- size seen by nested generators
std::vector<int> g_seen;
Gen<int> probe() {
  return [](const Random &, int size) {
    g_seen.push_back(size);
    return shrinkable::just(size);
  };
}
struct One {
  int a;
  One(int x) : a(x) {}
};
constexpr int kWraps = 27;
// Wraps g; updates the size the inner generator has to see when the wrapped one runs at `size`.
// Returns false if the wrapper may not call the inner one at all.
Gen<int> wrap(int w, Gen<int> g, std::function<int(int)> &f, std::string &name) {
  auto prev = f;
  switch (w) {
  case 0: name = "resize(0)"; f = [=](int) { return prev(0); }; return gen::resize(0, g);
  case 1: name = "resize(7)"; f = [=](int) { return prev(7); }; return gen::resize(7, g);
  case 2: name = "resize(250)"; f = [=](int) { return prev(250); }; return gen::resize(250, g);
  case 3: name = "scale(0)"; f = [=](int) { return prev(0); }; return gen::scale(0.0, g);
  case 4: name = "scale(.5)"; f = [=](int s) { return prev((int)std::floor(s * 0.5)); }; return gen::scale(0.5, g);
  case 5: name = "scale(1)"; return gen::scale(1.0, g);
  case 6: name = "scale(2)"; f = [=](int s) { return prev(s * 2); }; return gen::scale(2.0, g);
  case 7: name = "withSize"; return gen::withSize([g](int) { return g; });
  case 8: name = "withSize+3"; f = [=](int s) { return prev(s + 3); }; return gen::withSize([g](int s) { return gen::resize(s + 3, g); });
  case 9: name = "withSize const"; f = [=](int s) { return prev(s / 2); }; return gen::withSize([g](int s) { return gen::resize(s / 2, g); });
  case 10: name = "map"; return gen::map(g, [](int x) { return x + 1; });
  case 11: name = "suchThat"; return gen::suchThat(g, [](int) { return true; });
  case 12: name = "mapcat outer"; return gen::mapcat(g, [](int x) { return gen::just(x); });
  case 13: name = "mapcat inner"; return gen::mapcat(gen::just(1), [g](int) { return g; });
  case 14: name = "join"; return gen::join(gen::just(g));
  case 15: name = "apply"; return gen::apply([](int a, int b) { return a + b; }, g, gen::just(2));
  case 16: name = "pair"; return gen::map(gen::pair(gen::just(1), g), [](const std::pair<int, int> &p) { return p.second; });
  case 17: name = "tuple"; return gen::map(gen::tuple(g, gen::just(1), gen::just('x')), [](const std::tuple<int, int, char> &p) { return std::get<0>(p); });
  case 18: name = "noShrink"; return gen::noShrink(g);
  case 19: name = "shrink"; return gen::shrink(g, [](int) { return Seq<int>(); });
  case 20: name = "oneOf"; return gen::oneOf(g, g);
  case 21: name = "container(1)"; return gen::map(gen::container<std::vector<int>>(1, g), [](const std::vector<int> &v) { return v[0]; });
  case 22: name = "cast"; return gen::cast<int>(gen::cast<long>(g));
  case 23: name = "as"; return g.as("name");
  case 24: name = "construct"; return gen::map(gen::construct<One>(g), [](const One &o) { return o.a; });
  case 25: name = "lazy"; return gen::lazy([g] { return g; });
  case 26: name = "exec"; return gen::exec([g] { return *g; });
  }
  abort();
}
void nesting(int depth) {
  int w0 = vc::pick(kWraps);
  std::string log = "probe";
  std::function<int(int)> f = [](int s) { return s; };
  Gen<int> g = probe();
  for (int i = 0; i < depth; i++) {
    std::string n;
    g = wrap(i == 0 ? w0 : vc::pick(kWraps), g, f, n);
    log = n + "(" + log + ")";
  }
  for (int size : {0, 1, 10, 99, 100, 333}) {
    g_seen.clear();
    fixedDraws(g, size, {3, 5}, 1).value();
    VC_CHECK(!g_seen.empty(), log << " does not use its generator");
    for (int s : g_seen) VC_CHECK(s == f(size), log << " at size " << size << ": the inner generator sees size " << s << ", expected " << f(size));
    vc::step();
  }
  vc::matched();
  vc::state(log);
  vc::sample(log);
}
} // namespace

VC_SUITE(scaleInteger, 8) {
  static const auto v = bounds64();
  size_t i = vc::pick((int)v.size());
  uint64_t x = v[i];
  uint64_t prev = 0;
  for (int k = 0; k <= 130 + (int)kSizes.size(); k++) {
    int size = k <= 130 ? k : kSizes[k - 131];
    uint64_t y = gen::detail::scaleInteger(x, size);
    if (k <= 130) {
      VC_CHECK(y >= prev, "scaleInteger(" << x << "," << size << ") is smaller than at size " << size - 1);
      prev = y;
    }
    if (size == 0) VC_CHECK(y == 0, "scaleInteger(" << x << ",0) = " << y);
    if (size >= 100) VC_CHECK(y == x, "scaleInteger(" << x << "," << size << ") = " << y);
    __int128 diff = (__int128)y * 100 - (__int128)x * std::min(size, 100);
    VC_CHECK(diff <= 50 && diff >= -50, "scaleInteger(" << x << "," << size << ") = " << y << " is not " << x << "*" << size << "/100 rounded");
    if (i > 0) VC_CHECK(gen::detail::scaleInteger(v[i - 1], size) <= y, "scaleInteger(" << x << "," << size << ") is smaller than for " << v[i - 1]);
    vc::step();
  }
  vc::matched();
  vc::state(x);
}
// Around every number whose product with the size crosses a power of two above 32 bits: where a scaling done in
// pieces has to carry.
VC_SUITE(scaleCarries, 33) {
  int bits = 32 + vc::pick(33); // the power crossed
  for (int size = 1; size <= 100; size++)
    for (int k = 1; k <= 200; k++) {
      unsigned __int128 at = ((unsigned __int128)k << bits) / size;
      for (int d = -2; d <= 3; d++) {
        unsigned __int128 xx = at + d;
        if (xx > (unsigned __int128)kBig) continue;
        uint64_t x = (uint64_t)xx, y = gen::detail::scaleInteger(x, size);
        __int128 diff = (__int128)y * 100 - (__int128)x * size;
        VC_CHECK(diff <= 50 && diff >= -50, "scaleInteger(" << x << "," << size << ") = " << y << " is not " << x << "*" << size << "/100 rounded");
        VC_CHECK(x == 0 || gen::detail::scaleInteger(x - 1, size) <= y, "scaleInteger(" << x << "," << size << ") is smaller than for the number before");
        VC_CHECK(gen::detail::scaleInteger(x, size - 1) <= y, "scaleInteger(" << x << "," << size << ") is smaller than at the size before");
        vc::step(3);
      }
    }
  vc::matched();
  vc::state((uint64_t)bits);
}
VC_SUITE(intChar, 1) { integers<char>("char"); }
VC_SUITE(intSchar, 1) { integers<signed char>("signed char"); }
VC_SUITE(intUchar, 1) { integers<unsigned char>("unsigned char"); }
VC_SUITE(intShort, 1) { integers<short>("short"); }
VC_SUITE(intUshort, 1) { integers<unsigned short>("unsigned short"); }
VC_SUITE(intInt, 1) { integers<int>("int"); }
VC_SUITE(intUint, 1) { integers<unsigned>("unsigned"); }
VC_SUITE(intLong, 1) { integers<long>("long"); }
VC_SUITE(intUlong, 1) { integers<unsigned long>("unsigned long"); }
VC_SUITE(intLL, 1) { integers<long long>("long long"); }
VC_SUITE(intULL, 1) { integers<unsigned long long>("unsigned long long"); }
VC_SUITE(allChar, 1) { allValues<char>("char"); }
VC_SUITE(allUchar, 1) { allValues<unsigned char>("unsigned char"); }
VC_SUITE(allShort, 4) { allValues<short>("short"); }
VC_SUITE(allUshort, 4) { allValues<unsigned short>("unsigned short"); }
VC_SUITE(realFloat, 1) { reals<float>("float"); }
VC_SUITE(realDouble, 1) { reals<double>("double"); }
VC_SUITE(realLongDouble, 1) { reals<long double>("long double"); }
VC_SUITE(containers, 8) {
  auto i = gen::arbitrary<int>();
  auto u = gen::arbitrary<uint64_t>();
  switch (vc::pick(24)) {
  case 0: container("vector", gen::container<std::vector<int>>(i)); break;
  case 1: container("list", gen::container<std::list<int>>(i)); break;
  case 2: container("deque", gen::container<std::deque<int>>(i)); break;
  case 3: container("forward_list", gen::container<std::forward_list<int>>(i)); break;
  case 4: container("set", gen::container<std::set<int>>(i)); break;
  case 5: container("multiset", gen::container<std::multiset<int>>(i)); break;
  case 6: container("unordered_set", gen::container<std::unordered_set<int>>(i)); break;
  case 7: container("unordered_multiset", gen::container<std::unordered_multiset<int>>(i)); break;
  case 8: container("map", gen::container<std::map<int, int>>(i, i)); break;
  case 9: container("multimap", gen::container<std::multimap<int, int>>(i, i)); break;
  case 10: container("unordered_map", gen::container<std::unordered_map<int, int>>(i, i)); break;
  case 11: container("unordered_multimap", gen::container<std::unordered_multimap<int, int>>(i, i)); break;
  case 12: container("string", gen::string<std::string>()); break;
  case 13: container("wstring", gen::string<std::wstring>()); break;
  case 14: container("arbitrary vector", gen::arbitrary<std::vector<int>>()); break;
  case 15: container("arbitrary string", gen::arbitrary<std::string>()); break;
  case 16: container("unique vector", gen::unique<std::vector<uint64_t>>(u)); break;
  case 17: container("uniqueBy list unique", gen::uniqueBy<std::list<uint64_t>>(u, [](uint64_t x) { return x / 3; })); break;
  case 18: container("container string", gen::container<std::string>(gen::arbitrary<char>())); break;
  case 19: container("arbitrary map", gen::arbitrary<std::map<int, int>>()); break;
  case 20: container("arbitrary set", gen::arbitrary<std::set<uint64_t>>()); break;
  case 21: container("arbitrary deque", gen::arbitrary<std::deque<char>>()); break;
  case 22: container("u16string", gen::string<std::u16string>()); break;
  case 23: container("u32string", gen::string<std::u32string>()); break;
  }
}
VC_SUITE(fixedSizes, 4) { // the element count does not depend on the size, element sizes do
  int n = vc::pick(12), k = vc::pick((int)kSizes.size() - 3);
  int size = kSizes[k];
  auto chk = [&](size_t got, const char *what) { VC_CHECK(got == (size_t)n, what << " of count " << n << " at size " << size << " has " << got << " elements"); vc::step(); };
  for (uint64_t fill : {uint64_t(0), uint64_t(1), kBig}) {
    g_seen.clear();
    chk(fixedDraws(gen::container<std::vector<int>>(n, probe()), size, {}, fill).value().size(), "vector");
    for (int s : g_seen) VC_CHECK(s == size, "element generated at size " << s << " instead of " << size);
    VC_CHECK((int)g_seen.size() == n, "element generator used " << g_seen.size() << " times for " << n << " elements");
    chk(fixedDraws(gen::container<std::list<int>>(n, gen::arbitrary<int>()), size, {}, fill).value().size(), "list");
    chk(fixedDraws(gen::container<std::multiset<int>>(n, gen::arbitrary<int>()), size, {}, fill).value().size(), "multiset");
    chk(fixedDraws(gen::container<std::string>(n, gen::arbitrary<char>()), size, {}, fill).value().size(), "string");
    chk(fixedDraws(gen::container<std::multimap<int, int>>(n, gen::arbitrary<int>(), gen::arbitrary<int>()), size, {}, fill).value().size(), "multimap");
  }
  g_seen.clear();
  fixedDraws(gen::container<std::array<int, 5>>(probe()), size, {}, 1).value();
  for (int s : g_seen) VC_CHECK(s == size, "array element generated at size " << s << " instead of " << size);
  vc::matched();
  vc::state(std::to_string(n) + "," + std::to_string(size));
}
VC_SUITE(nestingShort, 1) { nesting(1); }
VC_SUITE(nesting2, 1) { nesting(2); }
VC_SUITE(nesting3, 4) { nesting(3); }
VC_SUITE(nesting4, 8) { nesting(4); }

// The largest sizes an int can hold: nothing wraps around, whatever is drawn.
namespace {
struct NoModel {};
struct NoSut {};
struct Noop : state::Command<NoModel, NoSut> {};
} // namespace
VC_SUITE(largestSize, 1) {
  const int kMax = 0x7fffffff;
  int size = kMax - vc::pick(3);
  // The first draw decides the number of elements: every multiple of size + 1 plus a few.
  const uint64_t m = uint64_t(size) + 1;
  static const uint64_t mult[] = {0, 1, 2, 3, 511, 1 << 20, 1u << 31, 0xffffffffULL, 0x1ffffffffULL};
  uint64_t k = mult[vc::pick(9)], j = vc::pick(4);
  if (k > kBig / m) k = kBig / m;
  if (k == kBig / m && j > kBig % m) j = kBig % m;
  const uint64_t first = k * m + j;
  std::vector<uint64_t> draws = {first};
  for (uint64_t x = 1; x < 60; x++) draws.push_back(x * 0x9e3779b97f4a7c15ULL | 1);
  auto chk = [&](const char *what, std::function<size_t()> f) {
    size_t n = 0;
    try {
      n = f();
    } catch (const std::exception &e) {
      vc::fail(std::string(what) + " at size " + std::to_string(size) + " with first draw " + std::to_string(first) + " throws " + e.what());
    }
    VC_CHECK(n <= (size_t)size, what << " at size " << size << " has " << n << " elements");
    vc::step();
  };
  auto i = gen::arbitrary<int>();
  chk("vector", [&] { return fixedDraws(gen::container<std::vector<int>>(i), size, draws, 1).value().size(); });
  chk("list", [&] { return fixedDraws(gen::container<std::list<int>>(i), size, draws, 1).value().size(); });
  chk("set", [&] { return fixedDraws(gen::container<std::set<int>>(i), size, draws, 1).value().size(); });
  chk("map", [&] { return fixedDraws(gen::container<std::map<int, int>>(i, i), size, draws, 1).value().size(); });
  chk("unique", [&] { return fixedDraws(gen::unique<std::vector<int>>(i), size, draws, 1).value().size(); });
  chk("string", [&] { return fixedDraws(gen::string<std::string>(), size, draws, 1).value().size(); });
  chk("maybe", [&] { return (size_t)(bool)fixedDraws(gen::maybe(i), size, draws, 1).value(); });
  chk("commands", [&] {
    auto n = fixedDraws(state::gen::commands(NoModel(), &state::gen::execOneOf<Noop>), size, draws, 1).value().size();
    return n ? n - 1 : 0; // one more than the size is allowed here
  });
  // A generator that has to try again is never given a smaller (or negative) size.
  int bad = vc::pick(4), got = 0;
  auto retry = [&](const char *what, std::function<void()> f) {
    got = 0;
    g_seen.clear();
    f();
    VC_CHECK((int)g_seen.size() > bad, what << " did not try again");
    for (int s : g_seen) VC_CHECK(s >= size, what << " at size " << size << ": size " << s << " when trying again");
    vc::step();
  };
  retry("suchThat", [&] { fixedDraws(gen::suchThat(probe(), [&](int) { return got++ >= bad; }), size, {}, 1).value(); });
  retry("uniqueBy", [&] {
    fixedDraws(gen::uniqueBy<std::vector<int>>(bad + 2, probe(), [&](int) { return got++ / 2; }), size, {}, 1).value();
  });
  retry("set", [&] {
    auto g = gen::map(probe(), [&](int) { return got++ / 2; });
    fixedDraws(gen::container<std::set<int>>(bad + 2, g), size, {}, 1);
  });
  // Scaling saturates.
  static const double factors[] = {1, 1.000001, 2, 1000, 1e10, 1e300};
  for (double f : factors)
    for (int sz : {0, 1, 100, 1 << 30, size}) {
      g_seen.clear();
      fixedDraws(gen::scale(f, probe()), sz, {}, 1).value();
      int want = sz * f >= kMax ? kMax : (int)(sz * f);
      VC_CHECK(g_seen.size() == 1 && g_seen[0] == want, "scale(" << f << ") at size " << sz << ": the inner generator sees size " << vc::strv(g_seen));
      vc::step();
    }
  vc::matched();
  vc::state(std::to_string(size) + "/" + std::to_string(first) + "/" + std::to_string(bad));
}

// Every combinator hands its size on: a generator which needs a certain size works inside of all of them.
namespace {
int g_need = 0;
template <typename T>
Gen<T> needs(std::function<T(uint64_t)> make) {
  return [=](const Random &random, int size) {
    if (size < g_need) {
      g_seen.push_back(size);
      throw GenerationFailure("too small");
    }
    auto r = random;
    return shrinkable::shrinkRecur(make(r.next()), [](T x) { return x > T(1) ? seq::just(T(x - 1)) : Seq<T>(); });
  };
}
Gen<int> need() {
  auto k = std::make_shared<int>(0);
  return needs<int>([k](uint64_t) { return ++*k; }); // no two values are the same
}
template <typename T>
size_t walk(const Shrinkable<T> &s, int depth) {
  size_t n = 1;
  (void)s.value();
  if (depth == 0) return n;
  auto seq = s.shrinks();
  for (int i = 0; i < 4; i++) {
    auto x = seq.next();
    if (!x) break;
    n += walk(*x, depth - 1);
  }
  return n;
}
template <typename T>
void handed(const char *what, const Gen<T> &g, int size, uint64_t fill) {
  g_seen.clear();
  g_need = size;
  try {
    auto s = fixedDraws(g, size, {3}, fill);
    for (size_t n = walk(s, 2); n > 0; n--) vc::step();
  } catch (const std::exception &e) {
    vc::fail(std::string(what) + " at size " + std::to_string(size) + " fails (" + e.what() + "), its generator saw size " + vc::strv(g_seen));
  }
  VC_CHECK(g_seen.empty(), what << " at size " << size << ": its generator saw size " << vc::strv(g_seen));
}
struct Two {
  int a, b;
};
struct Sized {
  int v;
};
bool operator<(const Sized &a, const Sized &b) { return a.v < b.v; }
bool operator==(const Sized &a, const Sized &b) { return a.v == b.v; }
struct Model17 {};
struct Cmd17 : state::Command<Model17, int> {
  explicit Cmd17(int) {}
};
} // namespace
namespace rc {
template <>
struct Arbitrary<Sized> {
  static Gen<Sized> arbitrary() {
    return gen::map(need(), [](int x) { return Sized{x}; });
  }
};
} // namespace rc
VC_SUITE(handedOn, 8) {
  const int kKinds = 46;
  int k = vc::pick(kKinds);
  static const int sizes[] = {0, 1, 2, 3, 5, 10, 50, 99, 100, 101, 200};
  int size = sizes[vc::pick(11)];
  const uint64_t fill = std::vector<uint64_t>{0, 1, 5, 0x123456789, kBig}[vc::pick(5)];
  auto key = [](int x) { return x; };
#define H(name, g)                                                                                                      \
  handed(name, g, size, fill);                                                                                          \
  break
  switch (k) {
  case 0: H("vector", gen::container<std::vector<int>>(need()));
  case 1: H("list", gen::container<std::list<int>>(need()));
  case 2: H("deque", gen::container<std::deque<int>>(need()));
  case 3: H("forward_list", gen::container<std::forward_list<int>>(need()));
  case 4: H("set", gen::container<std::set<int>>(need()));
  case 5: H("multiset", gen::container<std::multiset<int>>(need()));
  case 6: H("unordered_set", gen::container<std::unordered_set<int>>(need()));
  case 7: H("unordered_multiset", gen::container<std::unordered_multiset<int>>(need()));
  case 8: { typedef std::map<int, int> M; H("map", gen::container<M>(need(), need())); }
  case 9: { typedef std::multimap<int, int> M; H("multimap", gen::container<M>(need(), need())); }
  case 10: { typedef std::unordered_map<int, int> M; H("unordered_map", gen::container<M>(need(), need())); }
  case 11: { typedef std::unordered_multimap<int, int> M; H("unordered_multimap", gen::container<M>(need(), need())); }
  case 12: { typedef std::map<int, int> M; H("map of 3", gen::container<M>(3, need(), need())); }
  case 13: { typedef std::unordered_map<int, int> M; H("unordered_map of 3", gen::container<M>(3, need(), need())); }
  case 14: { typedef std::multimap<int, int> M; H("multimap of 3", gen::container<M>(3, need(), need())); }
  case 15: H("set of 3", gen::container<std::set<int>>(3, need()));
  case 16: H("vector of 3", gen::container<std::vector<int>>(3, need()));
  case 17: { typedef std::array<int, 3> A; H("array", gen::container<A>(need())); }
  case 18: H("unique", gen::unique<std::vector<int>>(need()));
  case 19: H("unique of 3", gen::unique<std::list<int>>(3, need()));
  case 20: H("uniqueBy", gen::uniqueBy<std::vector<int>>(need(), key));
  case 21: H("uniqueBy of 3", gen::uniqueBy<std::vector<int>>(3, need(), key));
  case 22: H("maybe", gen::maybe(need()));
  case 23: H("weightedOneOf", gen::weightedOneOf<int>({{1, need()}, {3, need()}}));
  case 24: H("sizedOneOf", gen::sizedOneOf(need(), need(), need()));
  case 25: H("oneOf", gen::oneOf(need(), need()));
  case 26: H("makeUnique", gen::makeUnique<One>(need()));
  case 27: H("makeShared", gen::makeShared<One>(need()));
  case 28: H("construct", (gen::construct<Two>(need(), need())));
  case 29: H("build", (gen::build<Two>(gen::set(&Two::a, need()), gen::set(&Two::b, need()))));
  case 30: H("build from", (gen::build(gen::construct<Two>(need(), need()), gen::set(&Two::b, need()))));
  case 31: H("distinctFrom", gen::distinctFrom(need(), 2));
  case 32: H("suchThat", gen::suchThat(need(), [](int x) { return x % 3 == 0; }));
  case 33: H("nonEmpty", gen::nonEmpty(gen::map(need(), [](int x) { return std::string(x % 3, 'x'); })));
  case 34: H("tuple", gen::tuple(need(), need(), need()));
  case 35: H("pair", gen::pair(need(), need()));
  case 36: H("mapcat", gen::mapcat(need(), [](int x) { return gen::pair(gen::just(x), need()); }));
  case 37: H("join", gen::join(gen::map(need(), [](int) { return need(); })));
  case 38: H("apply", gen::apply([](int a, int b) { return a * b; }, need(), need()));
  case 39: H("exec", gen::exec([] { int a = *need(); int b = *need(); return a + b; }));
  case 40: H("exec with arguments", gen::exec([](const Sized &s) { int b = *need(); return s.v + b; }));
  case 41: H("commands", state::gen::commands(Model17(), [](const Model17 &) { return gen::map(need(), [](int x) { return std::shared_ptr<const state::Command<Model17, int>>(std::make_shared<Cmd17>(x)); }); }));
  case 42: { typedef std::map<Sized, Sized> M; H("arbitrary map", gen::arbitrary<M>()); }
  case 43: { typedef std::pair<Sized, std::vector<Sized>> P; H("arbitrary pair", gen::arbitrary<P>()); }
  case 44: { typedef std::map<Sized, std::map<Sized, Sized>> M; H("arbitrary nested map", gen::arbitrary<M>()); }
  case 45: { typedef std::tuple<Sized, Maybe<Sized>, std::array<Sized, 2>> T; H("arbitrary tuple", gen::arbitrary<T>()); }
  }
#undef H
  vc::matched();
  vc::state(std::to_string(k) + "/" + std::to_string(size));
}
