// C11: chunk removal and element shrinking of containers, against exact expected sets of containers.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "rapidcheck/shrink/Shrink.h"
#include "rapidcheck/seq/Operations.h"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace rc;

namespace {
template <typename C>
std::string show_(const C &c) {
  std::string s = "[";
  for (auto &x : c) s += std::to_string(int(x)) + " ";
  return s + "]";
}
template <typename C>
C make(const std::vector<int> &v) {
  C c;
  for (int x : v) c.push_back(typename C::value_type(x));
  return c;
}
std::vector<std::vector<int>> removals(const std::vector<int> &v) {
  std::vector<std::vector<int>> out;
  for (size_t size = v.size(); size >= 1; size--)
    for (size_t start = 0; start + size <= v.size(); start++) {
      auto w = v;
      w.erase(w.begin() + start, w.begin() + start + size);
      out.push_back(w);
    }
  return out;
}

template <typename C>
void removeCase(const std::vector<int> &v) {
  auto q = shrink::removeChunks(make<C>(v));
  auto copy = q;
  std::vector<std::vector<int>> got;
  size_t lastLen = 0;
  while (auto c = q.next()) {
    std::vector<int> w(c->begin(), c->end());
    VC_CHECK(w.size() < v.size(), "empty deletion offered for " << vc::strv(v));
    VC_CHECK(w.size() >= lastLen, "a larger chunk is removed after a smaller one from " << vc::strv(v));
    lastLen = w.size();
    got.push_back(w);
    VC_CHECK(got.size() <= v.size() * (v.size() + 1) / 2, "too many chunk removals for " << vc::strv(v));
  }
  auto want = removals(v);
  auto a = got, b = want;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  VC_CHECK(a == b, "chunk removals of " << vc::strv(v) << ": " << got.size() << " containers, expected " << want.size());
  size_t n = 0;
  while (copy.next()) n++;
  VC_CHECK(n == want.size(), "copy of the sequence yields " << n << " containers");
  vc::step(got.size() * 2 + 2);
  vc::matched();
}

std::vector<int> pickVec(int maxLen, int alphabet) {
  std::vector<int> v;
  while ((int)v.size() < maxLen && vc::pick(2) == 1) v.push_back(vc::pick(alphabet));
  return v;
}
} // namespace

VC_SUITE(removeDistinct, 1) {
  int n = vc::pick(vc::thorough() ? 25 : 15);
  std::vector<int> v;
  for (int i = 0; i < n; i++) v.push_back(i + 1);
  removeCase<std::vector<int>>(v);
  removeCase<std::string>(v);
  vc::state((uint64_t)n);
}
VC_SUITE(removeAll, 1) {
  auto v = pickVec(vc::thorough() ? 8 : 6, 3);
  removeCase<std::vector<int>>(v);
  removeCase<std::string>(v);
  vc::state(vc::strv(v));
  vc::sample(vc::strv(v));
}

// Larger containers: all groups of removals of the same chunk length, up to a number of groups (complete up to 65
// elements), then the rest is counted where that is affordable.
VC_SUITE(removeLarge, 1) {
  static const int sizes[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2049, 4097, 8193, 65537};
  int k = vc::pick(vc::thorough() ? 24 : 23);
  const size_t n = sizes[k];
  const size_t groups = n <= (vc::thorough() ? 129u : 65u) ? n : n <= 1025 ? 24 : n <= 8193 ? 8 : 3;
  std::vector<int> v;
  for (size_t i = 0; i < n; i++) v.push_back(int(i) + 1);
  auto q = shrink::removeChunks(v);
  for (size_t left = 0; left < groups; left++) { // removals which leave `left` elements: one for every start
    std::vector<bool> seen(left + 1);
    for (size_t i = 0; i <= left; i++) {
      auto c = q.next();
      VC_CHECK(c, "chunk removals of " << n << " elements end among those which leave " << left);
      VC_CHECK(c->size() == left, "chunk removals of " << n << " elements: " << c->size() << " elements left, expected " << left);
      size_t start = 0; // the chunk [start, start + n - left) is gone
      while (start < left && (*c)[start] == v[start]) start++;
      for (size_t j = start; j < left; j++) VC_CHECK((*c)[j] == v[j + n - left], "not a chunk removal from " << n << " elements: position " << j);
      VC_CHECK(!seen[start], "chunk removal offered twice for " << n << " elements");
      seen[start] = true;
      vc::step();
    }
  }
  if (groups == n) VC_CHECK(!q.next(), "more chunk removals than chunks for " << n << " elements");
  vc::matched();
  vc::state((uint64_t)n);
}
VC_SUITE(eachLarge, 1) { // every element of a larger container is shrunk, in order
  static const int sizes[] = {64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1025, 4097};
  const size_t n = sizes[vc::pick(vc::thorough() ? 13 : 12)];
  const int mode = vc::pick(3); // shrinks of element i: one; i % 3; only the last has any
  std::vector<int> v;
  for (size_t i = 0; i < n; i++) v.push_back(int(i) * 4);
  auto count = [&](size_t i) { return mode == 0 ? 1 : mode == 1 ? int(i % 3) : i + 1 == n ? 3 : 0; };
  auto q = shrink::eachElement(v, [&](int x) {
    std::vector<int> o;
    for (int j = 0; j < count(size_t(x / 4)); j++) o.push_back(x + 1 + j);
    return seq::fromContainer(std::move(o));
  });
  for (size_t i = 0; i < n; i++)
    for (int j = 0; j < count(i); j++) {
      auto c = q.next();
      auto want = v;
      want[i] += 1 + j;
      VC_CHECK(c && *c == want, "element shrinks of " << n << " elements: shrink " << j << " of element " << i << " is missing or wrong");
      vc::step();
    }
  VC_CHECK(!q.next(), "more element shrinks than expected for " << n << " elements");
  vc::matched();
  vc::state((uint64_t)(n * 4 + mode));
}

// Every family of element shrinks: element i of n has k_i shrinks 10*i+1.. (some equal to other elements).
VC_SUITE(each, 1) {
  int n = vc::pick(vc::thorough() ? 5 : 4);
  std::vector<int> v;
  std::map<int, std::vector<int>> fam;
  bool dup = n >= 2 && vc::pick(2) == 1; // two equal elements
  for (int i = 0; i < n; i++) v.push_back(dup && i == n - 1 ? 0 : i * 10);
  for (int x : v)
    if (!fam.count(x)) {
      int k = vc::pick(4);
      for (int j = 0; j < k; j++) fam[x].push_back(vc::pick(2) ? x + 1 + j : v[j % n]);
      fam[x];
    }
  std::vector<std::vector<int>> want;
  for (size_t i = 0; i < v.size(); i++)
    for (int s : fam[v[i]]) {
      auto w = v;
      w[i] = s;
      want.push_back(w);
    }
  auto run = [&](auto c) {
    using C = decltype(c);
    using T = typename C::value_type;
    auto q = shrink::eachElement(c, [&](T x) {
      std::vector<T> out;
      for (int s : fam[int(x)]) out.push_back(T(s));
      return seq::fromContainer(std::move(out));
    });
    std::vector<std::vector<int>> got, got2;
    auto copy = q;
    size_t cut = got.size();
    while (auto w = q.next()) {
      got.emplace_back(w->begin(), w->end());
      if (got.size() == want.size() / 2 + 1) {
        copy = q; // a copy taken in the middle continues the same way
        cut = got.size();
      }
      if (got.size() > want.size()) vc::fail("more element shrinks than expected");
    }
    while (auto w = copy.next()) got2.emplace_back(w->begin(), w->end());
    VC_CHECK(got == want, "element shrinks of " << vc::strv(v) << ": " << got.size() << " containers, expected " << want.size());
    VC_CHECK(got2 == std::vector<std::vector<int>>(want.begin() + cut, want.end()), "copied sequence of element shrinks differs");
    vc::step(got.size() + got2.size() + 2);
  };
  run(std::vector<int>(v));
  std::string s;
  for (int x : v) s.push_back(char(x));
  run(s);
  vc::matched(2);
  std::string key = vc::strv(v);
  for (auto &f : fam) key += vc::strv(f.second);
  vc::state(key);
  vc::sample(key);
}

// Greedy search over chunk removal and element shrinks reaches the minimum for every "contains these" condition.
VC_SUITE(greedy, 1) {
  int n = 1 + vc::pick(vc::thorough() ? 9 : 7);
  int mask = vc::pick(1 << n);
  std::vector<int> cur, want;
  for (int i = 0; i < n; i++) {
    cur.push_back(2 * i + 2);
    if (mask >> i & 1) want.push_back(2 * i + 1);
  }
  auto fails = [&](const std::vector<int> &c) { // contains 2i+1 or 2i+2 for every i in mask
    for (int i = 0; i < n; i++)
      if (mask >> i & 1)
        if (!std::count(c.begin(), c.end(), 2 * i + 1) && !std::count(c.begin(), c.end(), 2 * i + 2)) return false;
    return true;
  };
  for (int rounds = 0;; rounds++) {
    VC_CHECK(rounds < 200, "greedy search does not end");
    auto q = seq::concat(shrink::removeChunks(cur), shrink::eachElement(cur, [](int x) { return x % 2 ? Seq<int>() : seq::just(x - 1); }));
    bool moved = false;
    while (auto c = q.next()) {
      vc::step();
      if (fails(*c)) {
        cur = *c;
        moved = true;
        break;
      }
    }
    if (!moved) break;
  }
  VC_CHECK(cur == want, "greedy search ends at " << vc::strv(cur) << " instead of " << vc::strv(want));
  vc::matched();
  vc::state((uint64_t)mask * 16 + n);
}

// --- generated containers ------------------------------------------------------------------------
namespace {
// Element generator: hands out the planned values, each shrinking to `down(v)` values (recursively).
std::vector<int> planned;
size_t handed;
std::vector<int> down(int v) { // shrinks of v: 0..v-1 (0 first)
  std::vector<int> o;
  for (int i = 0; i < v; i++) o.push_back(i);
  return o;
}
Gen<int> plannedGen() {
  return [](const Random &, int) {
    int v = handed < planned.size() ? planned[handed] : 4 + (int)handed;
    handed++;
    return shrinkable::shrinkRecur(v, [](int x) { return seq::fromContainer(down(x)); });
  };
}
using Flat = std::vector<int>;
template <typename C>
struct Flatten {
  static Flat of(const C &c) { return Flat(c.begin(), c.end()); }
};
template <typename K, typename V>
Flat flattenMap(const std::vector<std::pair<K, V>> &v) {
  Flat f;
  for (auto &p : v) {
    f.push_back(p.first * 100 + p.second);
  }
  return f;
}
template <typename C>
Flat flat(const C &c, bool sorted) {
  Flat f(c.begin(), c.end());
  if (sorted) std::sort(f.begin(), f.end());
  return f;
}
Flat norm(Flat f, bool sorted) {
  if (sorted) std::sort(f.begin(), f.end());
  return f;
}

enum Kind { SEQ, MULTI, SET, UNIQ };
int keyOf(int x) { return x / 2; }
bool clash(Kind k, const Flat &els, int s) { // would s collide with one of els
  return std::any_of(els.begin(), els.end(), [&](int x) { return k == SET ? x == s : k == UNIQ ? keyOf(x) == keyOf(s) : false; });
}
// Expected direct shrinks of the element list `els` (generation order).
std::vector<Flat> expected(const Flat &els, bool removal, Kind kind) {
  std::vector<Flat> out;
  if (removal) out = removals(els);
  for (size_t i = 0; i < els.size(); i++)
    for (int s : down(els[i])) {
      if (kind == UNIQ && keyOf(s) == keyOf(els[i])) {
        // keeps its own key: always allowed
      } else if (clash(kind, els, s)) continue;
      auto w = els;
      w[i] = s;
      out.push_back(w);
    }
  return out;
}

template <typename C>
void walk(const Shrinkable<C> &s, const Flat &els, bool removal, Kind kind, int depth) {
  bool sorted = kind == MULTI || kind == SET;
  auto f = flat(s.value(), sorted);
  VC_CHECK(f == norm(els, sorted), "container is " << vc::strv(f) << " expected " << vc::strv(els));
  vc::step();
  if (depth == 0) return;
  auto want = expected(els, removal, kind);
  auto q = s.shrinks();
  size_t i = 0;
  while (auto c = q.next()) {
    VC_CHECK(i < want.size(), "too many shrinks of " << vc::strv(els));
    auto g = flat(c->value(), sorted);
    // the exact order among removals of one size is not promised: look for it among the not yet seen ones
    bool found = false;
    for (size_t j = i; j < want.size() && want[j].size() == want[i].size(); j++)
      if (norm(want[j], sorted) == g) {
        std::rotate(want.begin() + i, want.begin() + j, want.begin() + j + 1);
        found = true;
        break;
      }
    VC_CHECK(found, "unexpected shrink " << vc::strv(g) << " of " << vc::strv(els));
    walk<C>(*c, want[i], removal, kind, depth - 1);
    i++;
  }
  VC_CHECK(i == want.size(), "only " << i << " shrinks of " << vc::strv(els) << ", expected " << want.size());
}

template <typename C>
void generated(Kind kind, bool fixed) {
  int n = vc::pick(4);
  planned.clear();
  for (int i = 0; i < n; i++) {
    int v = vc::pick(4);
    planned.push_back(v);
  }
  vcr::Script sc;
  sc.alphabet = {(uint64_t)n};
  vcr::reset(sc);
  handed = 0;
  Random r;
  auto key = [off = 0](int x) { return keyOf(x) + off; };
  auto g = kind == UNIQ ? (fixed ? gen::uniqueBy<C>((size_t)n, plannedGen(), key) : gen::uniqueBy<C>(plannedGen(), key))
                        : (fixed ? gen::container<C>((size_t)n, plannedGen()) : gen::container<C>(plannedGen()));
  auto s = g(r, 3);
  // values actually used: for sets, duplicates are skipped and later fresh values taken
  Flat els;
  for (size_t i = 0; els.size() < (size_t)n; i++) {
    int v = i < planned.size() ? planned[i] : 4 + (int)i;
    if (clash(kind, els, v)) continue;
    els.push_back(v);
  }
  walk<C>(s, els, !fixed, kind, vc::thorough() ? 3 : 2);
  vc::matched();
  vc::state(vc::strv(planned) + (fixed ? "f" : "v"));
  vc::sample(vc::strv(planned));
}
template <typename C>
void both(Kind k) {
  generated<C>(k, vc::pick(2) == 1);
}
} // namespace
VC_SUITE(vectorGen, 1) { both<std::vector<int>>(SEQ); }
VC_SUITE(listGen, 1) { both<std::list<int>>(SEQ); }
VC_SUITE(dequeGen, 1) { both<std::deque<int>>(SEQ); }
VC_SUITE(forwardListGen, 1) { both<std::forward_list<int>>(SEQ); }
VC_SUITE(uniqueVectorGen, 1) { both<std::vector<int>>(UNIQ); }
VC_SUITE(uniqueListGen, 1) { both<std::list<int>>(UNIQ); }
VC_SUITE(setGen, 1) { both<std::set<int>>(SET); }
VC_SUITE(unorderedSetGen, 1) { both<std::unordered_set<int>>(SET); }
VC_SUITE(multisetGen, 1) { both<std::multiset<int>>(MULTI); }
VC_SUITE(unorderedMultisetGen, 1) { both<std::unordered_multiset<int>>(MULTI); }

// Maps: keys and values shrink independently; keys never collide.
namespace {
using P = std::pair<int, int>;
using PV = std::vector<P>;
std::vector<int> plannedVals;
size_t handedVals;
Gen<int> valueGen() {
  return [](const Random &, int) {
    // the first value is the generator's own probe; planned values follow
    int v = handedVals < plannedVals.size() ? plannedVals[handedVals] : 0;
    handedVals++;
    return shrinkable::shrinkRecur(v, [](int x) { return seq::fromContainer(down(x)); });
  };
}
std::vector<PV> removalsP(const PV &v) {
  std::vector<PV> out;
  for (size_t size = v.size(); size >= 1; size--)
    for (size_t start = 0; start + size <= v.size(); start++) {
      auto w = v;
      w.erase(w.begin() + start, w.begin() + start + size);
      out.push_back(w);
    }
  return out;
}
PV normP(PV v) {
  std::sort(v.begin(), v.end());
  return v;
}
std::string showP(const PV &v) {
  std::string s;
  for (auto &p : v) s += "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")";
  return "{" + s + "}";
}
template <typename M>
void walkMap(const Shrinkable<M> &s, const PV &els, bool removal, bool multi, int depth) {
  auto m = s.value();
  PV f(m.begin(), m.end());
  VC_CHECK(normP(f) == normP(els), "map is " << showP(normP(f)) << " expected " << showP(normP(els)));
  vc::step();
  if (!depth) return;
  std::vector<PV> want;
  if (removal) want = removalsP(els);
  auto hasKey = [&](int k) { return std::any_of(els.begin(), els.end(), [&](const P &p) { return p.first == k; }); };
  for (size_t i = 0; i < els.size(); i++) {
    for (int k : down(els[i].first))
      if (multi || !hasKey(k)) {
        auto w = els;
        w[i].first = k;
        want.push_back(w);
      }
    for (int v : down(els[i].second)) {
      auto w = els;
      w[i].second = v;
      want.push_back(w);
    }
  }
  auto q = s.shrinks();
  size_t i = 0;
  while (auto c = q.next()) {
    VC_CHECK(i < want.size(), "too many shrinks of " << showP(els));
    auto cm = c->value();
    PV g = normP(PV(cm.begin(), cm.end()));
    bool found = false;
    for (size_t j = i; j < want.size() && want[j].size() == want[i].size(); j++)
      if (normP(want[j]) == g) {
        std::rotate(want.begin() + i, want.begin() + j, want.begin() + j + 1);
        found = true;
        break;
      }
    VC_CHECK(found, "unexpected shrink " << showP(g) << " of " << showP(els));
    walkMap<M>(*c, want[i], removal, multi, depth - 1);
    i++;
  }
  VC_CHECK(i == want.size(), "only " << i << " shrinks of " << showP(els) << ", expected " << want.size());
}
} // namespace
// chunk removals depend on generation order, which for maps is not observable from the value: only the
// order-independent parts are checked there (see mapOrderFree below), fixed-size maps are checked exactly.
namespace {
template <typename M>
void mapOrderFree(bool multi) {
  bool fixed = vc::pick(2) == 1;
  int n = vc::pick(4);
  planned.clear();
  plannedVals.clear();
  for (int i = 0; i < n; i++) planned.push_back(vc::pick(4));
  for (int i = 0; i < n; i++) plannedVals.push_back(vc::pick(3));
  vcr::Script sc;
  sc.alphabet = {(uint64_t)n};
  vcr::reset(sc);
  handed = handedVals = 0;
  Random r;
  auto g = fixed ? gen::container<M>((size_t)n, plannedGen(), valueGen()) : gen::container<M>(plannedGen(), valueGen());
  auto s = g(r, 3);
  auto root = s.value();
  VC_CHECK(root.size() == (size_t)n, "map has " << root.size() << " entries, expected " << n);
  PV els(root.begin(), root.end());
  els = normP(els);
  // find an order of the entries (the generation order) for which the whole tree is as expected
  bool any = false;
  std::sort(els.begin(), els.end());
  auto keysOf = [](const PV &v) {
    std::vector<int> k;
    for (auto &p : v) k.push_back(p.first);
    return k;
  };
  std::vector<int> genKeys;
  for (size_t i = 0; genKeys.size() < (size_t)n; i++) {
    int k = i < planned.size() ? planned[i] : 4 + (int)i;
    if (!multi && std::count(genKeys.begin(), genKeys.end(), k)) continue;
    genKeys.push_back(k);
  }
  do {
    if (genKeys.size() == els.size() && keysOf(els) != genKeys) continue;
    any = true;
    break;
  } while (std::next_permutation(els.begin(), els.end()));
  VC_CHECK(any, "map keys " << showP(els) << " are not the generated keys " << vc::strv(genKeys));
  // values may be permuted among equal keys; the first matching order is tried, it determines the tree
  bool dupKeys = false;
  for (size_t i = 0; i < genKeys.size(); i++)
    for (size_t j = 0; j < i; j++) dupKeys |= genKeys[i] == genKeys[j];
  if (dupKeys && !fixed) return; // order of equal keys unknown
  walkMap<M>(s, els, !fixed, multi, 2);
  vc::matched();
  vc::state(showP(els) + (fixed ? "f" : "v"));
  vc::sample(showP(els));
}
} // namespace
VC_SUITE(mapGen, 1) { mapOrderFree<std::map<int, int>>(false); }
VC_SUITE(unorderedMapGen, 1) { mapOrderFree<std::unordered_map<int, int>>(false); }
VC_SUITE(multimapGen, 1) { mapOrderFree<std::multimap<int, int>>(true); }
VC_SUITE(unorderedMultimapGen, 1) { mapOrderFree<std::unordered_multimap<int, int>>(true); }

// Containers of any length: the elements and chunks at all positions are reached.
namespace {
template <typename C>
void longOnes(int n, int step, int per) {
  C c;
  for (int i = 0; i < n; i++) c.push_back(typename C::value_type(i % 100));
  // elements at every step-th position shrink, to as many values as asked for
  size_t pos = 0;
  auto q = shrink::eachElement(c, [&](typename C::value_type) {
    size_t i = pos++;
    return i % step == 0 || i + 1 == (size_t)n ? seq::map(seq::range(0, per), [](int k) { return typename C::value_type(100 + k); }) : Seq<typename C::value_type>();
  });
  std::string what = "eachElement of " + std::to_string(n) + " elements, every " + std::to_string(step);
  for (size_t i = 0; i < (size_t)n; i++) {
    if (!(i % step == 0 || i + 1 == (size_t)n)) continue;
    for (int k = 0; k < per; k++) {
      auto x = q.next();
      VC_CHECK(x, what << ": ends before element " << i);
      C want = c;
      want[i] = typename C::value_type(100 + k);
      VC_CHECK(*x == want, what << ": wrong shrink of element " << i);
      vc::step();
    }
  }
  VC_CHECK(!q.next(), what << ": does not end");
}
} // namespace
VC_SUITE(longElements, 4) {
  static const int N[] = {0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 32767, 32768, 32769, 65535, 65536, 65537, 70000};
  int n = N[vc::pick(24)];
  int steps = vc::pick(3), per = 1 + vc::pick(2);
  int step = n > 1000 ? (steps == 0 ? n : steps == 1 ? 9973 : 4096) : steps == 0 ? 1 : steps == 1 ? 7 : 64;
  step = std::max(step, 1);
  if (vc::pick(2)) longOnes<std::string>(n, step, per);
  else longOnes<std::vector<int>>(n, step, per);
  vc::matched();
  vc::state(vc::mix(n, vc::mix(step, per)));
}
VC_SUITE(longChunks, 4) {
  static const int N[] = {63, 64, 65, 127, 128, 129, 130, 200, 255, 256, 257, 300, 1000, 32768, 65535, 65536, 65537, 70000};
  int n = N[vc::pick(18)];
  int limit = n <= 300 ? n * (n + 1) / 2 : 300; // of the larger ones only the first chunks
  std::vector<int> c;
  for (int i = 0; i < n; i++) c.push_back(i);
  auto q = shrink::removeChunks(c);
  int k = 0;
  for (int size = n; size > 0 && k < limit; size--)
    for (int start = 0; start + size <= n && k < limit; start++, k++) {
      auto x = q.next();
      VC_CHECK(x, "removeChunks of " << n << " ends before chunk " << k);
      VC_CHECK(x->size() == size_t(n - size), "removeChunks of " << n << ": chunk " << k << " has the wrong size");
      for (int i = 0; i < n - size; i++) VC_CHECK((*x)[i] == (i < start ? i : i + size), "removeChunks of " << n << ": wrong chunk " << k);
      vc::step();
    }
  if (n <= 300) VC_CHECK(!q.next(), "removeChunks of " << n << " does not end");
  vc::matched();
  vc::state(n);
}
