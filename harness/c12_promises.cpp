// C12: generated values and everything reachable by shrinking them obey the generator.
#include "catalogue.h"

using namespace rc;
using namespace cat;

namespace {
long g_nodes;
template <typename T>
struct Visit {
  const Info<T> &info;
  std::string where;
  long budget;

  // value of a node; false if it is a (legal) generation failure
  bool check(const Shrinkable<T> &s, const std::string &path, bool root) {
    vc::step();
    try {
      T v = s.value();
      if (info.fails == Always) vc::fail(where + path + ": gives " + K(v) + " although its promise cannot be met");
      if (!info.ok(v)) vc::fail(where + path + ": gives " + K(v) + " which breaks the promise");
      return true;
    } catch (const GenerationFailure &e) {
      if (std::string(e.what()).empty()) vc::fail(where + path + ": generation failure without a message");
      if (info.fails == Never) vc::fail(where + path + ": fails: " + e.what());
      vc::outcome(info.name + (root ? " fails" : " shrink fails"));
      return false;
    } catch (const vc::Stop &) {
      throw;
    } catch (const std::exception &e) {
      vc::fail(where + path + ": throws another kind of exception: " + e.what());
    }
    return false;
  }

  // breadth first, children in order
  void tree(const Shrinkable<T> &root) {
    if (!check(root, "", true)) return;
    std::vector<std::pair<Shrinkable<T>, std::string>> level{{root, ""}}, next;
    while (!level.empty() && budget > 0) {
      next.clear();
      for (auto &n : level) {
        long i = 0;
        auto seq = n.first.shrinks();
        while (auto c = seq.next()) {
          std::string p = n.second + "." + std::to_string(i++);
          if (check(*c, p, false) && (long)next.size() < budget) next.push_back({*c, p});
          g_nodes++;
          if (--budget <= 0) return;
          if (i > 5000) vc::fail(where + n.second + ": more than 5000 shrinks");
        }
        if (i && !info.shrinks) vc::fail(where + n.second + ": has shrinks");
      }
      level.swap(next);
    }
  }
  // a straight path to the bottom
  void descend(Shrinkable<T> s, int mode) {
    std::string p;
    const size_t most = info.large ? 200 : 5000;
    for (int d = 0; d < (info.large ? 40 : 300); d++) {
      auto seq = s.shrinks();
      std::vector<Shrinkable<T>> kids;
      while (auto c = seq.next()) {
        kids.push_back(*c);
        if (mode == 0 || kids.size() > most) break;
      }
      if (kids.empty()) return;
      size_t i = mode == 0 ? 0 : mode == 1 ? kids.size() - 1 : (kids.size() * 2 / 3 + d) % kids.size();
      p += "." + std::to_string(i);
      if (!check(kids[i], p, false)) return;
      g_nodes++;
      Shrinkable<T> k = kids[i];
      s = k;
    }
  }
};

struct Check {
  template <typename T>
  static void run(const Info<T> &info) {
    int size = info.sizes[vc::pick((int)info.sizes.size(), "size")];
    script(info, vc::thorough() ? 3 : 1);
    Visit<T> v{info, info.name + " at size " + std::to_string(size) + " ", vc::thorough() ? 1500 : info.large ? 150 : 300};
    Shrinkable<T> s = info.make()(Random(uint64_t(1)), size);
    v.tree(s);
    if (info.fails != Always) {
      bool usable = true;
      try {
        s.value();
      } catch (...) {
        usable = false;
      }
      if (usable)
        for (int m = 0; m < 3; m++) v.descend(s, m);
    }
    vc::state(info.name + std::to_string(size) + vcr::log());
    vc::matched();
    vc::outcome(info.name);
    if (size == 3) vc::sample(info.name + ": " + vcr::log());
  }
};
} // namespace

VC_SUITE(CAT_CAT(catalogue, CAT_PART), 48, {}) {
  auto &c = cat::catalogue<Check>();
  int i = vc::pick(48, "generator");
  if (c.size() > 48) vc::fail("catalogue larger than the suite");
  if (i >= (int)c.size()) return;
  c[i].body();
}

#if CAT_PART == 0
// Strings are built from the characters of the character generator: whatever string() produces, character()
// can produce each of its characters, and shrinking never leaves that set.
namespace {
template <typename T>
void textDraws(int size) {
  auto g = gen::string<std::basic_string<T>>();
  auto s = g(Random(uint64_t(1)), size);
  auto v = s.value();
  if ((int)v.size() > size) vc::fail("string longer than the size");
  std::function<void(const Shrinkable<std::basic_string<T>> &, int)> walk = [&](const Shrinkable<std::basic_string<T>> &n, int d) {
    auto x = n.value();
    for (auto c : x)
      if (c == T(0)) vc::fail("string contains a null character");
    if (x.size() > v.size()) vc::fail("shrunk string is longer");
    vc::step();
    if (!d) return;
    auto q = n.shrinks();
    while (auto c = q.next()) walk(*c, d - 1);
  };
  walk(s, 2);
  vc::matched();
}
} // namespace
VC_SUITE(characters, 36, {}) {
  int k = vc::pick(36, "type, size");
  static const std::vector<uint64_t> words = {0x0000000000000100ULL, 0x0001000000000000ULL, 0x8000000000000000ULL, 0xFFFFFFFFFFFFFFFFULL, 0x00FF00FF00FF00FFULL, 0x7F7F7F7F7F7F7F7FULL, 0x1, 0x2};
  script(words, vc::thorough() ? 6 : 5);
  int size = k % 9;
  if (k / 9 == 0) textDraws<char>(size);
  if (k / 9 == 1) textDraws<wchar_t>(size);
  if (k / 9 == 2) textDraws<char16_t>(size > 3 ? 3 : size);
  if (k / 9 == 3) {
    auto c = gen::character<char>()(Random(uint64_t(1)), size);
    if (c.value() == '\0') vc::fail("null character generated");
    auto w = gen::character<wchar_t>()(Random(uint64_t(2)), size);
    if (w.value() == L'\0') vc::fail("null wide character generated");
  }
  vc::state(std::to_string(k) + vcr::log());
}

// Ranges: every bound pair of a small type with every residue, and boundary pairs of wide types.
namespace {
template <typename T>
void ranges(T lo, T hi, const std::vector<int> &sizes) {
  for (int size : sizes) {
    auto s = gen::inRange<T>(lo, hi)(Random(uint64_t(1)), size);
    if (hi <= lo) {
      bool failed = false;
      try {
        s.value();
      } catch (const GenerationFailure &) {
        failed = true;
      }
      VC_CHECK(failed, "range [" << +lo << "," << +hi << ") gives a value");
      continue;
    }
    T v = s.value();
    VC_CHECK(v >= lo && v < hi, "range [" << +lo << "," << +hi << ") at size " << size << " gives " << +v);
    auto q = s.shrinks();
    while (auto c = q.next()) {
      T x = c->value();
      VC_CHECK(x >= lo && x < v, "range [" << +lo << "," << +hi << "): " << +v << " shrinks to " << +x);
      auto q2 = c->shrinks();
      while (auto c2 = q2.next()) {
        T y = c2->value();
        VC_CHECK(y >= lo && y < x, "range [" << +lo << "," << +hi << "): " << +x << " shrinks to " << +y);
      }
    }
    vc::step();
  }
  vc::matched();
}
} // namespace
VC_SUITE(ranges8, 256, {}) {
  int a = vc::pick(256, "lower bound");
  int b = vc::pick(256, "upper bound");
  int mode = vc::pick(2, "signed");
  static const uint64_t draws[] = {0, 1, 7, 127, 128, 254, 255, 1000, 0x8000000000000000ULL, kOnes};
  vcr::Script sc;
  sc.sequential = true;
  uint64_t d = draws[vc::pick(vc::thorough() ? 10 : 4, "draw")];
  sc.fixed = {d};
  sc.fill = d;
  vcr::reset(sc);
  if (mode) ranges<int8_t>((int8_t)a, (int8_t)b, {0, 50, 100});
  else ranges<uint8_t>((uint8_t)a, (uint8_t)b, {0, 37, 100});
  vc::outcome(mode ? "int8" : "uint8");
}
namespace {
template <typename T>
void wide() {
  std::vector<T> b;
  for (int k = 0; k < (int)sizeof(T) * 8; k += 7)
    for (int d = -1; d <= 1; d++) {
      using U = typename std::make_unsigned<T>::type;
      b.push_back((T)(((U)1 << k) + (U)d));
      b.push_back((T)(0 - ((U)1 << k) + (U)d));
    }
  b.push_back(std::numeric_limits<T>::min());
  b.push_back(std::numeric_limits<T>::max());
  b.push_back(std::numeric_limits<T>::max() - 1);
  T lo = b[vc::pick((int)b.size(), "lower bound")];
  T hi = b[vc::pick((int)b.size(), "upper bound")];
  static const uint64_t draws[] = {0, 1, kOnes, 0x8000000000000000ULL, 0x123456789ABCDEFULL};
  vcr::Script sc;
  sc.sequential = true;
  sc.fill = draws[vc::pick(5, "draw")];
  vcr::reset(sc);
  ranges<T>(lo, hi, {0, 1, 50, 100, 1000});
  vc::outcome("wide");
}
} // namespace
VC_SUITE(rangesWide, 4, {}) {
  switch (vc::pick(4, "type")) {
  case 0: wide<int>(); break;
  case 1: wide<unsigned>(); break;
  case 2: wide<long>(); break;
  case 3: wide<unsigned long>(); break;
  }
}
#endif
