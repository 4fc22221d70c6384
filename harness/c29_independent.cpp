// C29: the components of a composite value vary independently of each other.
//
// Components are stand-in generators which yield one bit, read at a chosen place of the random state they are given
// (the state itself, or any state up to three splits away from it).  For every composite, every two of its components
// and every two places all random streams are enumerated: each combination of bits must be produced by one of them.
// If two components were handed the same state, or one a state derived from that of another, then for some two places
// they would read the very same number and combinations would be missing.
//
// Where one generator makes several components its values carry the number of the call they come from; which calls end
// up in which component is found out first, so generators may be asked for more values than are used.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "rapidcheck/state.h"
#include "detail/Testing.h"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <utility>

using namespace rc;
using namespace rc::detail;

namespace {
constexpr int kMaxSlots = 256;
const int kPaths = 15; // 0: the state; 1, 2: left and right of it; ...
const int kKinds = kPaths + 8;
int g_kind[kMaxSlots];  // where the component is read
int g_calls[kMaxSlots]; // calls so far of the generator of this slot
short g_component[kMaxSlots][kMaxSlots]; // of slot and call, or -1

Random at(Random r, int path) { // heap order: 2p + 1 is the left child of p, 2p + 2 the right one
  if (path == 0) return r;
  Random left = at(r, (path - 1) / 2);
  Random right = left.split();
  return path % 2 ? left : right;
}
int bitOf(int kind, const Random &random, int size) {
  if (kind < 0) return 0; // not one of the components looked at
  if (kind < kPaths) return at(random, kind).next() & 1;
  static const Gen<bool> b = gen::arbitrary<bool>();
  switch (kind - kPaths) {
  case 0: {
    Random r(random);
    r.next();
    return r.next() & 1;
  }
  case 1: return gen::inRange(0, 2)(random, kNominalSize).value();
  case 2: return b(random, size).value();
  case 3: return gen::elementOf(std::vector<int>{0, 1})(random, size).value();
  case 4: return gen::arbitrary<int>()(random, kNominalSize).value() & 1;
  case 5: return gen::oneOf(gen::just(0), gen::just(1))(random, size).value();
  case 6: return gen::pair(gen::just(0), b)(random, size).value().second;
  default: return gen::suchThat(gen::inRange(0, 2), [](int) { return true; })(random, kNominalSize).value();
  }
}
Shrinkable<int> down(int x) {
  return x > 0 ? shrinkable::just(x, seq::just(shrinkable::just(x - 1))) : shrinkable::just(x);
}
// The bit of one component.
Gen<int> L(int slot) {
  return [=](const Random &random, int size) { return down(bitOf(g_kind[slot], random, size)); };
}
// The bits of several components made by one generator: 2 * call + bit.
Gen<int> LS(int slot) {
  return [=](const Random &random, int size) {
    int call = g_calls[slot]++;
    int component = call < kMaxSlots ? g_component[slot][call] : -1;
    return shrinkable::just(2 * call + bitOf(component < 0 ? -1 : g_kind[component], random, size));
  };
}
template <int Slot>
struct Comp {
  int v;
};
template <int Slot>
std::ostream &operator<<(std::ostream &os, const Comp<Slot> &c) {
  return os << c.v;
}
struct Three {
  Three() : a(0), b(0), c(0) {}
  Three(int aa, int bb, int cc) : a(aa), b(bb), c(cc) {}
  int a, b, c;
};

using Values = std::vector<int>;
struct Composite {
  const char *name;
  int slots;
  bool wide;                       // draws of four kinds, otherwise of two
  int size;
  std::function<Values(const Random &, int)> run;
  std::vector<Values> want;
  Values slot; // of each component (the last one goes on) made by one generator together with others, otherwise -1
  int slotAt(size_t i) const { return slot.empty() ? -1 : slot[std::min(i, slot.size() - 1)]; }
};
std::vector<Values> allBits(int n) {
  std::vector<Values> out;
  for (int m = 0; m < 1 << n; m++) {
    Values v;
    for (int i = 0; i < n; i++) v.push_back(m >> i & 1);
    out.push_back(v);
  }
  return out;
}
std::vector<Values> allUpTo(int from, int n) {
  std::vector<Values> out;
  for (int k = from; k <= n; k++)
    for (auto &v : allBits(k)) out.push_back(v);
  return out;
}
template <typename T, typename F>
std::function<Values(const Random &, int)> of(Gen<T> g, F f) {
  return [=](const Random &r, int size) { return f(g(r, size).value()); };
}
template <typename C>
Values listed(const C &c) { return Values(c.begin(), c.end()); }
template <typename C>
Values sorted(const C &c) {
  Values v(c.begin(), c.end());
  std::sort(v.begin(), v.end());
  return v;
}
template <typename M>
Values mapped(const M &m) { // keys (in order), then the values in the order of their keys
  std::map<int, int> s(m.begin(), m.end());
  Values v;
  for (auto &p : s) v.push_back(p.first);
  for (auto &p : s) v.push_back(p.second);
  return v;
}
Values bools(const std::vector<bool> &b) { return Values(b.begin(), b.end()); }

struct NoModel {};
struct BitSut {};
struct BitCmd : state::Command<NoModel, BitSut> {
  explicit BitCmd(int b) : bit(b) {}
  void checkPreconditions(const NoModel &) const override { RC_PRE(bit >= 0); }
  int bit;
};
using CmdPtr = std::shared_ptr<const state::Command<NoModel, BitSut>>;
Values commandBits(const std::vector<CmdPtr> &cs) {
  Values v;
  for (auto &c : cs) v.push_back(static_cast<const BitCmd &>(*c).bit);
  return v;
}
Values *g_log = nullptr;
// Which of the different values seen so far this is; the first `n` are kept.
size_t rankIn(Values &seen, int x, size_t n) {
  size_t i = std::find(seen.begin(), seen.end(), x) - seen.begin();
  if (i == seen.size() && i < n) seen.push_back(x);
  return i;
}

std::vector<Composite> makeAll();
const std::vector<Composite> &all() {
  static const std::vector<Composite> c = makeAll();
  return c;
}
} // namespace
namespace rc {
template <int Slot>
struct Arbitrary<Comp<Slot>> {
  static Gen<Comp<Slot>> arbitrary() {
    return gen::map(L(Slot), [](int x) { return Comp<Slot>{x}; });
  }
};
} // namespace rc

namespace {
std::vector<Composite> makeAll() {
  std::vector<Composite> c;
  auto three = [](const Three &t) { return Values{t.a, t.b, t.c}; };
  auto add = [&](const char *name, int slots, std::function<Values(const Random &, int)> run, std::vector<Values> want, bool wide = false,
                 int size = kNominalSize) { c.push_back({name, slots, wide, size, std::move(run), std::move(want), {}}); };
  auto in = [&](Values slots) { c.back().slot = std::move(slots); };
  add("pair", 2, of(gen::pair(L(0), L(1)), [](const std::pair<int, int> &p) { return Values{p.first, p.second}; }), allBits(2));
  add("tuple", 3, of(gen::tuple(L(0), L(1), L(2)), [](const std::tuple<int, int, int> &t) { return Values{std::get<0>(t), std::get<1>(t), std::get<2>(t)}; }), allBits(3));
  add("tuple of 5", 5, of(gen::tuple(L(0), L(1), L(2), L(3), L(4)), [](const std::tuple<int, int, int, int, int> &t) {
        return Values{std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t)};
      }), allBits(5));
  add("vector of 3", 3, of(gen::container<std::vector<int>>(3, LS(0)), listed<std::vector<int>>), allBits(3));
  in({0});
  add("vector of 6", 6, of(gen::container<std::vector<int>>(6, LS(0)), listed<std::vector<int>>), allBits(6));
  in({0});
  add("list of 3", 3, of(gen::container<std::list<int>>(3, LS(0)), listed<std::list<int>>), allBits(3));
  in({0});
  add("deque of 3", 3, of(gen::container<std::deque<int>>(3, LS(0)), listed<std::deque<int>>), allBits(3));
  in({0});
  add("forward_list of 3", 3, of(gen::container<std::forward_list<int>>(3, LS(0)), listed<std::forward_list<int>>), allBits(3));
  in({0});
  add("array", 3, of(gen::container<std::array<int, 3>>(LS(0)), listed<std::array<int, 3>>), allBits(3));
  in({0});
  add("string of 3", 3, of(gen::container<std::string>(3, gen::cast<char>(LS(0))), listed<std::string>), allBits(3));
  in({0});
  add("set of 3", 3, of(gen::container<std::set<int>>(3, LS(0)), sorted<std::set<int>>), allBits(3));
  in({0});
  add("unordered_set of 3", 3, of(gen::container<std::unordered_set<int>>(3, LS(0)), sorted<std::unordered_set<int>>), allBits(3));
  in({0});
  add("multiset of 3", 3, of(gen::container<std::multiset<int>>(3, LS(0)), sorted<std::multiset<int>>), allBits(3));
  in({0});
  add("unordered_multiset of 3", 3, of(gen::container<std::unordered_multiset<int>>(3, LS(0)), sorted<std::unordered_multiset<int>>), allBits(3));
  in({0});
  add("unique of 3", 3, of(gen::unique<std::vector<int>>(3, LS(0)), sorted<std::vector<int>>), allBits(3));
  in({0});
  add("uniqueBy of 3", 3, of(gen::uniqueBy<std::vector<int>>(3, LS(0), [](int x) { return x / 2; }), sorted<std::vector<int>>), allBits(3));
  in({0});
  auto maps = [&](const char *name, auto *m) {
    typedef typename std::remove_pointer<decltype(m)>::type M;
    add(name, 4, of(gen::container<M>(2, LS(0), LS(2)), mapped<M>), allBits(4));
    in({0, 0, 2, 2});
  };
  maps("map of 2", (std::map<int, int> *)nullptr);
  maps("unordered_map of 2", (std::unordered_map<int, int> *)nullptr);
  maps("multimap of 2", (std::multimap<int, int> *)nullptr);
  maps("unordered_multimap of 2", (std::unordered_multimap<int, int> *)nullptr);
  add("apply", 3, of(gen::apply([](int a, int b, int d) { return Three(a, b, d); }, L(0), L(1), L(2)), three), allBits(3));
  add("construct", 3, of(gen::construct<Three>(L(0), L(1), L(2)), three), allBits(3));
  add("build", 3, of(gen::build<Three>(gen::set(&Three::a, L(0)), gen::set(&Three::b, L(1)), gen::set(&Three::c, L(2))), three), allBits(3));
  add("build from", 3, of(gen::build(gen::map(L(0), [](int x) { return Three(x, 2, 2); }), gen::set(&Three::b, L(1)), gen::set(&Three::c, L(2))), three), allBits(3));
  add("makeUnique", 3, of(gen::makeUnique<Three>(L(0), L(1), L(2)), [=](const std::unique_ptr<Three> &p) { return three(*p); }), allBits(3));
  add("makeShared", 3, of(gen::makeShared<Three>(L(0), L(1), L(2)), [=](const std::shared_ptr<Three> &p) { return three(*p); }), allBits(3));
  auto mapcat = gen::mapcat(L(0), [](int x) { return gen::map(L(1), [=](int y) { return Values{x, y}; }); });
  auto same = [](const Values &v) { return v; };
  add("mapcat", 2, of(mapcat, same), allBits(2));
  add("mapcat twice", 3, of(gen::mapcat(mapcat, [](const Values &v) { return gen::map(L(2), [=](int z) { return Values{v[0], v[1], z}; }); }), same), allBits(3));
  add("join", 2, of(gen::join(gen::map(L(0), [](int x) { return gen::map(L(1), [=](int y) { return Values{x, y}; }); })), same), allBits(2));
  add("exec", 4, of(gen::exec([] {
        int a = *L(0), b = *L(1);
        int d = *L(2);
        return Values{a, b, d, *L(3)};
      }), same), allBits(4));
  add("exec with arguments", 4, of(gen::exec([](const Comp<0> &a, const Comp<1> &b) {
        int d = *L(2);
        return Values{a.v, b.v, d, *L(3)};
      }), same), allBits(4));
  add("exec in exec", 4, of(gen::exec([] {
        int a = *L(0);
        auto in = *gen::exec([] {
          int b = *L(1);
          return Values{b, *L(2)};
        });
        return Values{a, in[0], in[1], *L(3)};
      }), same), allBits(4));
  // After the first pick was shrunk the later ones are made anew, still independently of each other.
  add("exec, first pick shrunk", 3, [](const Random &r, int size) {
        auto s = gen::exec([] {
          int a = *gen::map(L(0), [](int x) { return x; });
          int b = *LS(1);
          return Values{a, b, *LS(1)};
        })(r, size);
        Values v = s.value();
        auto q = s.shrinks();
        if (auto x = q.next()) v = x->value();
        v[0] = 0;
        return v;
      }, {{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {0, 1, 1}});
  in({-1, 1});
  auto run = [&](const char *name, int slots, std::function<Property()> prop, int cases) {
    add(name, slots, [=](const Random &, int) {
          Values v;
          g_log = &v;
          TestMetadata md;
          TestParams params;
          params.maxSuccess = cases;
          params.maxSize = 0;
          params.seed = 1;
          struct Silent : TestListener {
            void onTestCaseFinished(const CaseDescription &) override {}
            void onShrinkTried(const CaseDescription &, bool) override {}
            void onTestFinished(const TestMetadata &, const TestResult &) override {}
          } silent;
          testProperty(prop(), md, params, silent);
          g_log = nullptr;
          return v;
        }, allBits(slots));
  };
  run("arguments and picks of a property", 4, [] {
    return toProperty([](const Comp<0> &a, const Comp<1> &b) {
      g_log->push_back(a.v);
      g_log->push_back(b.v);
      g_log->push_back(*L(2));
      g_log->push_back(*L(3));
    });
  }, 1);
  run("cases of a run", 4, [] { return toProperty([] { g_log->push_back(*LS(0)); }); }, 4);
  in({0});
  run("two picks in two cases of a run", 4, [] {
    return toProperty([] {
      g_log->push_back(*LS(0));
      g_log->push_back(*LS(0));
    });
  }, 2);
  in({0});
  run("cases after discarded ones", 4, [] {
    return toProperty([] {
      g_log->push_back(*LS(0));
      if (g_log->size() % 2) RC_DISCARD();
    });
  }, 2);
  in({0});
  // A choice and what is chosen
  auto chosen = [] { return std::vector<Values>{{0, 0}, {0, 1}, {1, 0}, {1, 1}}; };
  auto tag = [](int t, Gen<int> g) { return gen::map(std::move(g), [=](int x) { return Values{t, x}; }); };
  add("oneOf", 2, of(gen::oneOf(tag(0, L(0)), tag(1, L(1))), same), chosen(), true);
  add("weightedOneOf", 2, of(gen::weightedOneOf<Values>({{1, tag(0, L(0))}, {1, tag(1, L(1))}}), same), chosen(), true);
  add("sizedOneOf", 2, of(gen::sizedOneOf(tag(0, L(0)), tag(1, L(1))), same), chosen(), true);
  auto perhaps = [](const Maybe<int> &m) { return m ? Values{*m} : Values{}; };
  add("maybe", 1, of(gen::maybe(L(0)), perhaps), {{}, {0}, {1}}, true);
  add("pair of maybe", 2, of(gen::pair(gen::maybe(L(0)), L(1)), [](const std::pair<Maybe<int>, int> &p) { return Values{p.first ? *p.first : 2, p.second}; }),
      {{2, 0}, {2, 1}, {0, 0}, {0, 1}, {1, 0}, {1, 1}}, true);
  // A length and the elements
  add("vector", 2, of(gen::container<std::vector<int>>(LS(0)), listed<std::vector<int>>), allUpTo(0, 2), true, 2);
  in({0});
  add("list", 2, of(gen::container<std::list<int>>(LS(0)), listed<std::list<int>>), allUpTo(0, 2), true, 2);
  in({0});
  add("string container", 2, of(gen::container<std::string>(gen::cast<char>(LS(0))), listed<std::string>), allUpTo(0, 2), true, 2);
  in({0});
  add("set", 2, of(gen::container<std::set<int>>(LS(0)), sorted<std::set<int>>), allUpTo(0, 2), true, 2);
  in({0});
  add("unique", 2, of(gen::unique<std::vector<int>>(LS(0)), sorted<std::vector<int>>), allUpTo(0, 2), true, 2);
  in({0});
  {
    typedef std::map<int, int> M;
    add("map", 2, of(gen::container<M>(LS(0), LS(1)), mapped<M>), {{}, {0, 0}, {1, 0}, {0, 1}, {1, 1}}, true, 1);
    in({0, 1});
  }
  add("two vectors", 4, of(gen::pair(gen::container<std::vector<int>>(2, LS(0)), gen::container<std::vector<int>>(2, LS(2))),
                          [](const std::pair<std::vector<int>, std::vector<int>> &p) { return Values{p.first[0], p.first[1], p.second[0], p.second[1]}; }),
      allBits(4));
  in({0, 0, 2, 2});
  add("vector of pairs", 4, of(gen::container<std::vector<std::pair<int, int>>>(2, gen::pair(LS(0), LS(2))),
                              [](const std::vector<std::pair<int, int>> &p) { return Values{p[0].first, p[1].first, p[0].second, p[1].second}; }),
      allBits(4));
  in({0, 0, 2, 2});
  add("vector of vectors", 4, of(gen::container<std::vector<std::vector<int>>>(2, gen::container<std::vector<int>>(2, LS(0))),
                                [](const std::vector<std::vector<int>> &p) { return Values{p[0][0], p[0][1], p[1][0], p[1][1]}; }),
      allBits(4));
  in({0});
  add("nested pairs", 4, of(gen::pair(gen::pair(L(0), L(1)), gen::pair(L(2), L(3))),
                           [](const std::pair<std::pair<int, int>, std::pair<int, int>> &p) {
                             return Values{p.first.first, p.first.second, p.second.first, p.second.second};
                           }),
      allBits(4));
  add("wrapped", 5, of(gen::tuple(gen::resize(5, L(0)), gen::lazy([] { return L(1); }), gen::noShrink(L(2)), gen::withSize([](int) { return L(3); }), gen::scale(0.5, L(4))),
                      [](const std::tuple<int, int, int, int, int> &t) {
                        return Values{std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t)};
                      }),
      allBits(5));
  // Trying again: the values tried are independent of each other.
  auto again = [&](const char *name, std::function<Gen<int>(Gen<int>, std::function<bool(int)>)> make) {
    add(name, 3, [=](const Random &r, int size) {
          auto seen = std::make_shared<Values>();
          auto g = make(LS(0), [=](int x) {
            return rankIn(*seen, x, 3) >= 2;
          });
          g(r, size).value();
          return *seen;
        }, allBits(3));
    in({0});
  };
  again("suchThat, tried again", [](Gen<int> g, std::function<bool(int)> p) { return gen::suchThat(g, p); });
  again("suchThat(pair), tried again", [](Gen<int> g, std::function<bool(int)> p) {
    return gen::map(gen::suchThat(gen::pair(g, gen::just(0)), [=](const std::pair<int, int> &x) { return p(x.first); }), [](const std::pair<int, int> &x) { return x.first; });
  });
  again("uniqueBy, tried again", [](Gen<int> g, std::function<bool(int)> p) {
    return gen::map(gen::uniqueBy<std::vector<int>>(2, g, [=](int x) { return p(x) ? 1 : 0; }), [](const std::vector<int> &v) { return v[0]; });
  });
  auto recorded = [](Gen<int> g) { // keys: the first two are equal
    return gen::map(std::move(g), [](int x) {
      return rankIn(*g_log, x, 3) < 2 ? 0 : 1;
    });
  };
  auto retried = [&](const char *name, std::function<void(const Random &, int)> f) {
    add(name, 3, [=](const Random &r, int size) {
          Values v;
          g_log = &v;
          f(r, size);
          g_log = nullptr;
          return v;
        }, allBits(3));
    in({0});
  };
  retried("set, tried again", [=](const Random &r, int size) { gen::container<std::set<int>>(2, recorded(LS(0)))(r, size).value(); });
  retried("map, tried again", [=](const Random &r, int size) {
    typedef std::map<int, int> M;
    gen::container<M>(2, recorded(LS(0)), gen::just(0))(r, size).value();
  });
  retried("command, tried again", [=](const Random &r, int size) {
    state::gen::commands(NoModel(), [=](const NoModel &) {
      return gen::map(LS(0), [](int x) {
        return CmdPtr(std::make_shared<BitCmd>(rankIn(*g_log, x, 3) < 2 ? -1 : 0));
      });
    })(r, 0).value();
  });
  // Commands
  add("commands", 2, of(state::gen::commands(NoModel(), [](const NoModel &) {
                          return gen::map(LS(0), [](int x) { return CmdPtr(std::make_shared<BitCmd>(x)); });
                        }), commandBits), allUpTo(1, 2), true, 1);
  in({0});
  // Generators of the standard types, as they come
  add("array of bool", 0, of(gen::arbitrary<std::array<bool, 4>>(), [](const std::array<bool, 4> &a) { return Values(a.begin(), a.end()); }), allBits(4));
  add("pair of bool", 0, of(gen::arbitrary<std::pair<bool, bool>>(), [](const std::pair<bool, bool> &p) { return Values{p.first, p.second}; }), allBits(2));
  add("tuple of bool", 0, of(gen::arbitrary<std::tuple<bool, bool, bool>>(), [](const std::tuple<bool, bool, bool> &t) { return Values{std::get<0>(t), std::get<1>(t), std::get<2>(t)}; }), allBits(3));
  add("vector of bool", 0, of(gen::arbitrary<std::vector<bool>>(), bools), allUpTo(0, 2), true, 2);
  add("list of pairs", 0, of(gen::arbitrary<std::list<std::pair<bool, bool>>>(), [](const std::list<std::pair<bool, bool>> &l) {
        Values v;
        for (auto &p : l) v.push_back(p.first), v.push_back(p.second);
        return v;
      }), {{}, {0, 0}, {0, 1}, {1, 0}, {1, 1}}, true, 1);
  {
    typedef std::map<bool, bool> M;
    add("map of bool", 0, of(gen::arbitrary<M>(), mapped<M>), {{}, {0, 0}, {0, 1}, {1, 0}, {1, 1}}, true, 1);
    typedef std::map<bool, std::pair<bool, bool>> P;
    add("map to pairs", 0, of(gen::arbitrary<P>(), [](const P &m) {
          Values v;
          for (auto &p : m) v.push_back(p.first), v.push_back(p.second.first), v.push_back(p.second.second);
          return v;
        }), [] {
          auto w = allBits(3);
          w.push_back({});
          return w;
        }(), true, 1);
  }
  add("maybe of bool", 0, of(gen::arbitrary<Maybe<std::pair<bool, bool>>>(), [](const Maybe<std::pair<bool, bool>> &m) { return m ? Values{m->first, m->second} : Values{}; }),
      {{}, {0, 0}, {0, 1}, {1, 0}, {1, 1}}, true);
  add("elementOf and ranges", 0, of(gen::tuple(gen::inRange(0, 2), gen::elementOf(std::vector<int>{0, 1}), gen::inRange<int64_t>(0, 2)),
                                   [](const std::tuple<int, int, int64_t> &t) { return Values{std::get<0>(t), std::get<1>(t), (int)std::get<2>(t)}; }),
      allBits(3), true);
  return c;
}

// The values made of every random stream, as far as it is looked at.
std::set<Values> everyStream(const Composite &c, const std::string &what) {
  static const std::vector<uint64_t> kTwo = {0, ~uint64_t(0)}, kFour = {0, ~uint64_t(0), 1, uint64_t(1) << 63};
  const auto &alphabet = c.wide ? kFour : kTwo;
  std::set<Values> got;
  std::vector<size_t> word;
  for (long n = 0;; n++) {
    if (n > 300000) vc::fail(what + ": too many random streams");
    vcr::Script s;
    s.sequential = true;
    for (auto w : word) s.fixed.push_back(alphabet[w]);
    vcr::reset(s);
    std::fill(g_calls, g_calls + kMaxSlots, 0);
    try {
      got.insert(c.run(Random(uint64_t(1)), c.size));
    } catch (const GenerationFailure &e) {
      vc::fail(what + ": generation fails with " + e.what());
    }
    vc::step();
    word.resize(vcr::draws(), 0); // what was asked for beyond the word was answered like a zero
    while (!word.empty() && ++word.back() == alphabet.size()) word.pop_back();
    if (word.empty()) break;
  }
  return got;
}
// Which calls of the component generators end up in which component.
void findComponents(const Composite &c) {
  for (auto &row : g_component) std::fill(row, row + kMaxSlots, -1);
  if (c.slot.empty()) return;
  std::fill(g_kind, g_kind + kMaxSlots, -1);
  std::vector<std::array<int, 3>> found;
  for (auto &v : everyStream(c, c.name))
    for (size_t i = 0; i < v.size(); i++)
      if (c.slotAt(i) >= 0 && v[i] / 2 < kMaxSlots) found.push_back({c.slotAt(i), v[i] / 2, (int)i});
  for (auto &f : found) g_component[f[0]][f[1]] = f[2];
}
std::set<Values> bitsOf(const Composite &c, std::set<Values> vs) {
  std::set<Values> out;
  for (auto v : vs) {
    for (size_t i = 0; i < v.size(); i++)
      if (c.slotAt(i) >= 0) v[i] &= 1;
    out.insert(v);
  }
  return out;
}
void judge(int index, int p, int q, int kp, int kq) {
  const Composite &c = all()[index];
  std::fill(g_kind, g_kind + kMaxSlots, 0);
  if (c.slots > 0) g_kind[p] = kp;
  if (c.slots > 1) g_kind[q] = kq;
  std::string what = std::string(c.name) + ", components " + std::to_string(p) + " (read at " + std::to_string(kp) + ") and " + std::to_string(q) + " (read at " +
      std::to_string(kq) + ")";
  auto got = bitsOf(c, everyStream(c, what));
  for (auto &w : c.want)
    VC_CHECK(got.count(w), what << ": no random stream gives the combination " << vc::strv(w) << " (there are " << got.size() << " others)");
  vc::matched();
  vc::state(what);
}
} // namespace

VC_SUITE(combinations, 128) {
  int index = vc::pick((int)all().size());
  const Composite &c = all()[index];
  int pairs = std::max(1, c.slots * (c.slots - 1) / 2);
  int pair = vc::pick(pairs), p = 0, q = 1;
  for (int i = 0, k = 0; i < c.slots; i++)
    for (int j = i + 1; j < c.slots; j++, k++)
      if (k == pair) p = i, q = j;
  // the longer ones: states up to two splits away (thorough: three, as everywhere else)
  int kinds = c.slots >= 4 && !vc::thorough() ? 7 + 8 : kKinds;
  auto kind = [&](int k) { return kinds == kKinds || k < 7 ? k : k - 7 + kPaths; };
  int kp = c.slots > 0 ? kind(vc::pick(kinds)) : 0;
  findComponents(c);
  for (int kq = 0; kq < (c.slots > 1 ? kinds : 1); kq++) judge(index, p, q, kp, kind(kq));
}

// Composites of many components, of which two vary.
namespace {
using Run = std::function<Values(const Random &, int)>;
struct Long {
  const char *name;
  int n;
  int size;
  Run run; // the bits of all components
  bool plain = false; // a generator of its own for each
};
template <int... Is>
Run longTuple(std::integer_sequence<int, Is...>) { // its slots are those of plain components
  return of(gen::tuple(L(Is)...), [](const std::tuple<decltype(Is)...> &t) { return Values{std::get<Is>(t)...}; });
}
template <typename C>
Run longContainer(int n) { return of(gen::container<C>(n, LS(0)), listed<C>); }
template <typename C>
Run longSet(int n) { return of(gen::container<C>(n, LS(0)), sorted<C>); }
template <typename M>
Run longMap(int n, bool keys) {
  return of(gen::container<M>(n, keys ? LS(0) : LS(1), keys ? gen::just(0) : LS(0)), [=](const M &c) {
    auto v = mapped(c);
    return keys ? Values(v.begin(), v.begin() + n) : Values(v.begin() + n, v.end());
  });
}
// Values rejected one after the other: everything tried, in order.
Run tried(int n, std::function<void(std::function<bool(int)>, Gen<int>, const Random &, int)> go) {
  return [=](const Random &r, int size) {
    Values seen;
    go([&](int x) { return (int)rankIn(seen, x, n) >= n - 1; }, LS(0), r, size);
    return seen;
  };
}
std::vector<Long> makeLong() {
  std::vector<Long> c;
  auto add = [&](const char *name, int n, Run run, int size = kNominalSize) { c.push_back({name, n, size, std::move(run), false}); };
  add("tuple of 12", 12, longTuple(std::make_integer_sequence<int, 12>()));
  c.back().plain = true;
  add("vector of 200", 200, longContainer<std::vector<int>>(200));
  add("list of 200", 200, longContainer<std::list<int>>(200));
  add("string of 100", 100, of(gen::container<std::string>(100, gen::cast<unsigned char>(LS(0))), [](const std::string &t) {
        Values v;
        for (unsigned char ch : t) v.push_back(ch);
        return v;
      }));
  add("array of 70", 70, of(gen::container<std::array<int, 70>>(LS(0)), listed<std::array<int, 70>>));
  add("set of 100", 100, longSet<std::set<int>>(100));
  add("unordered_set of 100", 100, longSet<std::unordered_set<int>>(100));
  add("unique of 100", 100, of(gen::unique<std::vector<int>>(100, LS(0)), sorted<std::vector<int>>));
  add("keys of a map of 100", 100, longMap<std::map<int, int>>(100, true));
  add("values of a map of 100", 100, longMap<std::map<int, int>>(100, false));
  add("keys of a multimap of 100", 100, longMap<std::multimap<int, int>>(100, true));
  add("values of a multimap of 100", 100, longMap<std::multimap<int, int>>(100, false));
  add("suchThat, 100 tries", 100, tried(100, [](std::function<bool(int)> p, Gen<int> g, const Random &r, int size) { gen::suchThat(g, p)(r, size).value(); }));
  add("uniqueBy, 100 tries", 100, tried(100, [](std::function<bool(int)> p, Gen<int> g, const Random &r, int size) {
        gen::uniqueBy<std::vector<int>>(2, g, [=](int x) { return p(x) ? 1 : 0; })(r, size).value();
      }));
  add("set, 100 tries", 100, tried(100, [](std::function<bool(int)> p, Gen<int> g, const Random &r, int size) {
        gen::container<std::set<int>>(2, gen::map(g, [=](int x) { return p(x) ? 1 : 0; }))(r, size).value();
      }));
  add("command, 100 tries", 100, tried(100, [](std::function<bool(int)> p, Gen<int> g, const Random &r, int size) {
        state::gen::commands(NoModel(), [=](const NoModel &) {
          return gen::map(g, [=](int x) { return CmdPtr(std::make_shared<BitCmd>(p(x) ? 0 : -1)); });
        })(r, 0).value();
      }), 0);
  add("60 picks", 60, of(gen::exec([] {
        auto g = LS(0);
        Values v;
        for (int i = 0; i < 60; i++) v.push_back(*g);
        return v;
      }), [](const Values &v) { return v; }));
  auto run = [&](const char *name, int n, int every) {
    add(name, n, [=](const Random &, int) {
      Values v;
      TestMetadata md;
      TestParams params;
      params.maxSuccess = every ? n - n / every : n;
      params.maxDiscardRatio = 100;
      params.seed = 1;
      struct Silent : TestListener {
        void onTestCaseFinished(const CaseDescription &) override {}
        void onShrinkTried(const CaseDescription &, bool) override {}
        void onTestFinished(const TestMetadata &, const TestResult &) override {}
      } silent;
      testProperty(toProperty([&] {
        v.push_back(*LS(0));
        if (every && v.size() % every == 0) RC_DISCARD();
      }), md, params, silent);
      return v;
    });
  };
  run("200 cases of a run", 200, 0);
  run("100 cases of a run, some discarded", 100, 3);
  run("100 cases of a run, most discarded", 100, 1);
  c.back().run = [](const Random &, int) { // everything up to the last one is discarded
    Values v;
    TestMetadata md;
    TestParams params;
    params.maxSuccess = 1;
    params.maxDiscardRatio = 1000;
    params.seed = 1;
    struct Silent : TestListener {
      void onTestCaseFinished(const CaseDescription &) override {}
      void onShrinkTried(const CaseDescription &, bool) override {}
      void onTestFinished(const TestMetadata &, const TestResult &) override {}
    } silent;
    testProperty(toProperty([&] {
      v.push_back(*LS(0));
      RC_PRE(v.size() >= 100);
    }), md, params, silent);
    return v;
  };
  return c;
}
const std::vector<Long> &allLong() {
  static const std::vector<Long> c = makeLong();
  return c;
}
} // namespace
VC_SUITE(many, 128) {
  const Long &c = allLong()[vc::pick((int)allLong().size())];
  // Neighbours everywhere, and each against a few others.
  static const int far[] = {1, 2, 3, 7, 50, 99};
  int p = vc::pick(c.n - 1), q = p + far[vc::pick(6)];
  if (q >= c.n) {
    vc::matched();
    return;
  }
  int kinds = vc::thorough() ? 7 : 3; // the state and those one (two) splits away
  Composite whole{c.name, 0, false, c.size, c.run, {}, {c.plain ? -1 : 0}};
  findComponents(whole);
  for (int kp = 0; kp < kinds; kp++)
    for (int kq = 0; kq < kinds; kq++) {
      std::fill(g_kind, g_kind + kMaxSlots, -1);
      g_kind[p] = kp;
      g_kind[q] = kq;
      std::string what = std::string(c.name) + ", components " + std::to_string(p) + " (read at " + std::to_string(kp) + ") and " + std::to_string(q) +
          " (read at " + std::to_string(kq) + ")";
      Composite two{c.name, 2, false, c.size, [&](const Random &r, int size) {
        auto v = c.run(r, size);
        VC_CHECK((int)v.size() == c.n, what << ": " << v.size() << " components");
        return Values{v[p], v[q]};
      }, {}, whole.slot};
      auto got = bitsOf(two, everyStream(two, what));
      for (auto &w : allBits(2))
        VC_CHECK(got.count(w), what << ": no random stream gives the combination " << vc::strv(w));
      vc::matched();
      vc::state(what);
    }
}

// Every position of a long value takes part: no place of it is the same for all random streams (which repeat one number).
namespace {
template <typename C, typename F>
void positions(const char *what, const Gen<C> &g, int size, int classes, F classOf) {
  std::vector<std::set<int>> seen;
  for (uint64_t k = 0; k < 1024; k++) { // streams which repeat one number
    vcr::Script s;
    s.sequential = true;
    s.fill = k * 0x9e3779b97f4a7c15ULL + 1;
    vcr::reset(s);
    auto v = g(Random(uint64_t(1)), size).value();
    size_t i = 0;
    for (const auto &e : v) {
      if (seen.size() <= i) seen.resize(i + 1);
      seen[i++].insert(classOf(e));
    }
    vc::step();
  }
  for (size_t i = 0; i < seen.size() && i + 20 < (size_t)size; i++)
    VC_CHECK((int)seen[i].size() == classes, what << " at size " << size << ": position " << i << " only ever holds " << seen[i].size() << " of " << classes << " kinds of elements");
  VC_CHECK(seen.size() + 20 >= (size_t)size, what << " at size " << size << " never has more than " << seen.size() << " elements");
  vc::state(std::string(what) + std::to_string(size));
}
} // namespace
VC_SUITE(everyPosition, 1) {
  int size = std::vector<int>{60, 100, 200}[vc::pick(3)];
  auto chars = [](char c) { return c >= 'A' && c <= 'z' ? 1 : 0; };
  auto parity = [](auto x) { return int(x & 1); };
  switch (vc::pick(8)) {
  case 0: positions("string", gen::string<std::string>(), size, 2, chars); break;
  case 1: positions("arbitrary string", gen::arbitrary<std::string>(), size, 2, chars); break;
  case 2: positions("wide string", gen::string<std::wstring>(), size, 2, [](wchar_t c) { return c > 0x7f ? 1 : 0; }); break;
  case 3: positions("string of characters", gen::container<std::string>(gen::arbitrary<char>()), size, 2, parity); break;
  case 4: positions("vector<int>", gen::arbitrary<std::vector<int>>(), size, 2, parity); break;
  case 5: positions("vector<bool>", gen::arbitrary<std::vector<bool>>(), size, 2, [](bool b) { return int(b); }); break;
  case 6: positions("list<unsigned char>", gen::arbitrary<std::list<unsigned char>>(), size, 2, parity); break;
  case 7: positions("vector of ranges", gen::container<std::vector<int>>(gen::inRange(0, 3)), size, 2, [](int x) { return x > 0 ? 1 : 0; }); break;
  }
  vc::matched();
}
