// C13: shrink trees are finite, make progress and reach the documented minimum.
#include "catalogue.h"

using namespace rc;
using namespace cat;

namespace {
const int kMaxShrinks = CAT_PART == 11 ? 30000 : 5000;
const int kMaxChain = 4000;

template <typename T>
struct Walk {
  const Info<T> &info;
  std::string where;
  long budget;
  bool wide;

  // canonical text; "" for a (legal) failure
  std::string key(const Shrinkable<T> &s) {
    vc::step();
    try {
      return K(s.value());
    } catch (const GenerationFailure &) {
      return "";
    }
  }
  std::vector<Shrinkable<T>> kids(const Shrinkable<T> &s, const std::string &path, int limit = kMaxShrinks) {
    std::vector<Shrinkable<T>> v;
    auto q = s.shrinks();
    while (auto c = q.next()) {
      v.push_back(*c);
      if ((int)v.size() >= limit) {
        if (limit == kMaxShrinks) vc::fail(where + path + ": more than " + std::to_string(kMaxShrinks) + " direct shrinks");
        break;
      }
    }
    if (limit == kMaxShrinks) {
      if (q.next() || q.next()) vc::fail(where + path + ": ended list of shrinks goes on");
    }
    return v;
  }

  // breadth first with the keys of the ancestors
  struct Node {
    Shrinkable<T> s;
    std::vector<std::string> ancestors;
  };
  void tree(const Shrinkable<T> &root) {
    std::vector<Node> level, next;
    level.push_back({root, {key(root)}});
    int depth = 0;
    while (!level.empty() && budget > 0) {
      next.clear();
      for (auto &n : level) {
        auto c = kids(n.s, n.ancestors.back());
        if (c.size() && !info.shrinks) vc::fail(where + n.ancestors.back() + ": has shrinks");
        for (auto &k : c) {
          std::string t = key(k);
          if (t.empty()) continue;
          if (info.distinct)
            for (auto &a : n.ancestors)
              if (a == t) {
                std::string p;
                for (auto &x : n.ancestors) p += x + " -> ";
                vc::fail(where + "a value is offered again below itself: " + p + t);
              }
          if (--budget <= 0) return;
          auto anc = n.ancestors;
          anc.push_back(t);
          next.push_back({k, anc});
        }
      }
      level.swap(next);
      if (++depth > kMaxChain) vc::fail(where + "shrink chain of " + std::to_string(depth) + " steps");
    }
  }
  // straight chains; must end
  std::string chain(Shrinkable<T> s, int mode, bool &ended) {
    std::set<std::string> seen{key(s)};
    std::string last = key(s);
    ended = false;
    for (int d = 0; d < kMaxChain; d++) {
      auto c = kids(s, last, mode == 0 ? 1 : kMaxShrinks);
      // greedy search never accepts a failed generation
      std::vector<std::string> ks;
      for (size_t i = 0; i < c.size();) {
        auto k = key(c[i]);
        if (k.empty()) c.erase(c.begin() + i);
        else { ks.push_back(k); i++; }
      }
      if (c.empty() && mode == 0) {   // the first shrink may be a failure: take the first good one
        auto all = kids(s, last);
        for (auto &x : all) {
          auto k = key(x);
          if (!k.empty()) { c.push_back(x); ks.push_back(k); break; }
        }
      }
      if (c.empty()) {
        ended = true;
        return last;
      }
      size_t i = mode == 0 ? 0 : mode == 1 ? c.size() - 1 : mode == 2 ? c.size() / 2 : (c.size() * 7 / 10 + d * 3) % c.size();
      last = ks[i];
      if (info.distinct && !seen.insert(last).second) vc::fail(where + "the value " + last + " comes back along a chain of shrinks");
      Shrinkable<T> k = c[i];
      s = k;
    }
    if (!wide) vc::fail(where + "a chain of shrinks (always taking child kind " + std::to_string(mode) + ") has not ended after " + std::to_string(kMaxChain) + " steps, last value " + last);
    return last;
  }
  bool minimum(const Shrinkable<T> &root) {
    // what an always failing property ends with
    Shrinkable<T> s = root;
    for (int d = 0; d < kMaxChain; d++) {
      if (isMin(s)) return true;
      bool moved = false;
      auto q = s.shrinks();
      for (int i = 0; i < kMaxShrinks; i++) {
        auto c = q.next();
        if (!c) break;
        if (!key(*c).empty()) {
          Shrinkable<T> k = *c;
          s = k;
          moved = true;
          break;
        }
      }
      if (!moved) break;
    }
    // any path at all
    std::set<std::string> seen;
    std::vector<Shrinkable<T>> queue{root};
    for (size_t i = 0; i < queue.size() && queue.size() < 20000; i++) {
      Shrinkable<T> n = queue[i];
      for (auto &c : kids(n, "")) {
        auto k = key(c);
        if (k.empty()) continue;
        if (isMin(c)) return true;
        if (seen.insert(k).second) queue.push_back(c);
      }
    }
    return false;
  }
  bool isMin(const Shrinkable<T> &s) {
    try {
      return info.isMin(s.value());
    } catch (const GenerationFailure &) {
      return false;
    }
  }
};

struct Check {
  template <typename T>
  static void run(const Info<T> &info) {
    int size = info.sizes[vc::pick((int)info.sizes.size(), "size")];
    script(info, vc::thorough() ? 4 : 2);
    bool wide = std::is_arithmetic<T>::value || info.alphabet == kInts;
    Walk<T> w{info, info.name + " at size " + std::to_string(size) + ": ", vc::thorough() ? 4000 : info.large ? 100 : 1000, wide};
    Shrinkable<T> s = info.make()(Random(uint64_t(1)), size);
    std::string k = w.key(s);
    if (k.empty()) {
      vc::outcome(info.name + " failed");
      return;
    }
    w.tree(s);
    for (int m = 0; m < 4; m++) {
      if ((wide || info.large) && m) break;
      bool ended;
      w.chain(s, m, ended);
    }
    if (info.isMin && !w.minimum(s)) vc::fail(w.where + "the documented minimum cannot be reached from " + k);
    vc::state(info.name + k);
    vc::matched();
    vc::outcome(info.name);
    if (size == 3) vc::sample(info.name + ": " + k);
  }
};
} // namespace

VC_SUITE(CAT_CAT(catalogue, CAT_PART), 48, {}) {
  auto &c = cat::catalogue<Check>();
  int i = vc::pick(48, "generator");
  if (c.size() > 48) vc::fail("catalogue larger than the suite");
  if (i >= (int)c.size()) return;
  c[i].body();
}

#if CAT_PART == 0
// Complete trees: every reachable value of small domains, longest chain by dynamic programming over values.
namespace {
template <typename T>
struct Full {
  std::map<std::string, int> depth;     // -1: on the current path
  std::string where;
  long nodes = 0;
  int go(const Shrinkable<T> &s, const std::string &k) {
    auto it = depth.find(k);
    if (it != depth.end()) {
      if (it->second == -1) vc::fail(where + ": the value " + k + " is reachable from itself");
      return it->second;
    }
    depth[k] = -1;
    int best = 0;
    auto q = s.shrinks();
    int n = 0;
    while (auto c = q.next()) {
      if (++n > kMaxShrinks) vc::fail(where + ": too many shrinks of " + k);
      nodes++;
      best = std::max(best, 1 + go(*c, K(c->value())));
    }
    return depth[k] = best;
  }
};
template <typename T>
void full(const char *name, Gen<T> g, int size, std::function<bool(const T &)> isMin) {
  Full<T> f;
  f.where = name;
  auto s = g(Random(uint64_t(1)), size);
  std::string k;
  try {
    k = K(s.value());
  } catch (const GenerationFailure &) {
    return;
  }
  int d = f.go(s, k);
  vc::step(f.nodes);
  // every leaf of the value graph is a minimum if there is one
  std::function<void(const Shrinkable<T> &, std::set<std::string> &)> leaves = [&](const Shrinkable<T> &n, std::set<std::string> &seen) {
    auto t = K(n.value());
    if (!seen.insert(t).second) return;
    bool any = false;
    auto q = n.shrinks();
    while (auto c = q.next()) {
      any = true;
      leaves(*c, seen);
    }
    if (!any && isMin && !isMin(n.value())) vc::fail(std::string(name) + ": shrinking can get stuck at " + t + ", which is not the documented minimum");
  };
  std::set<std::string> seen;
  leaves(s, seen);
  vc::state(std::string(name) + k);
  vc::outcome(std::string(name) + " depth " + std::to_string(d));
  vc::matched();
}
} // namespace
VC_SUITE(complete, 64, {}) {
  int which = vc::pick(14, "generator");
  int size = vc::pick(vc::thorough() ? 5 : 4, "size");
  using V = std::vector<int>;
  script({0, 1, 2, 3, 5, 7}, vc::thorough() ? 6 : 5);
  if (which >= 7) script({1, 0, 2, 3}, vc::thorough() ? 7 : 6);
  switch (which) {
  case 0: full<int>("int range", gen::inRange(-4, 5), 100, [](const int &x) { return x == -4; }); break;
  case 1: full<std::pair<int, int>>("pair", gen::pair(gen::inRange(0, 6), gen::inRange(3, 9)), 100, [](const std::pair<int, int> &p) { return p.first == 0 && p.second == 3; }); break;
  case 2: full<V>("vector of ints", gen::container<V>(gen::inRange(0, 6)), size, EmptyC()); break;
  case 3: full<std::vector<bool>>("vector<bool>", gen::arbitrary<std::vector<bool>>(), size + 1, EmptyC()); break;
  case 4: full<V>("vector of two", gen::container<V>(2, gen::inRange(0, 6)), 100, [](const V &v) { return v == V{0, 0}; }); break;
  case 5: full<std::tuple<bool, int, bool>>("tuple", gen::tuple(gen::arbitrary<bool>(), gen::inRange(0, 8), gen::arbitrary<bool>()), 100, [](const std::tuple<bool, int, bool> &t) { return t == std::make_tuple(false, 0, false); }); break;
  case 6: full<Maybe<std::pair<bool, int>>>("maybe pair", gen::maybe(gen::pair(gen::arbitrary<bool>(), gen::inRange(0, 6))), 5, [](const Maybe<std::pair<bool, int>> &m) { return !m; }); break;
  case 7: full<std::set<int>>("set", gen::suchThat(gen::container<std::set<int>>(gen::inRange(0, 30)), [](const std::set<int> &) { return true; }), std::min(size, 2), EmptyC()); break;
  case 8: full<std::multiset<int>>("multiset", gen::container<std::multiset<int>>(gen::inRange(0, 5)), size, EmptyC()); break;
  case 9: full<std::vector<std::vector<bool>>>("nested vectors", gen::arbitrary<std::vector<std::vector<bool>>>(), std::min(size, 2), EmptyC()); break;
  case 10: full<std::multimap<int, bool>>("multimap", gen::container<std::multimap<int, bool>>(gen::inRange(0, 4), gen::arbitrary<bool>()), std::min(size, 2), EmptyC()); break;
  case 11: full<int>("suchThat", gen::suchThat(gen::map(gen::inRange(0, 8), [](int x) { return x * 2; }), [](int x) { return x != 4; }), 100, [](const int &x) { return x == 0; }); break;
  case 12: full<std::string>("string over abc", gen::container<std::string>(gen::map(gen::inRange(0, 3), [](int x) { return char('a' + x); })), size, EmptyC()); break;
  case 13: full<std::array<int, 2>>("array", gen::container<std::array<int, 2>>(gen::inRange(1, 6)), 100, [](const std::array<int, 2> &a) { return a[0] == 1 && a[1] == 1; }); break;
  }
}
#endif
