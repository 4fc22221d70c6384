// C06: generation is a pure, repeatable function of the random state and the size.
#include "catalogue.h"

using namespace rc;
using namespace cat;

namespace {
const int kWidth = 5;     // children looked at per node
const int kCount = 12;    // children counted per node

template <typename T>
std::string valueText(const Shrinkable<T> &s) {
  vc::step();
  try {
    return K(s.value());
  } catch (const vc::Stop &) {
    throw;
  } catch (const GenerationFailure &e) {
    return std::string("!GenerationFailure ") + e.what();
  } catch (const std::exception &e) {
    return std::string("!exception ") + e.what();
  } catch (...) {
    return "!other";
  }
}

// The text of a tree, observed in one of several orders.  The result must not depend on the order.
struct Budget {
  int depth;
  int nodes;
};
enum Order { ValueFirst, ChildrenFirst, ChildrenReversed, ParentGone, SeqCopied, Twice, kOrders };

template <typename T>
std::vector<Shrinkable<T>> kids(const Shrinkable<T> &s, int &total) {
  std::vector<Shrinkable<T>> v;
  auto q = s.shrinks();
  total = 0;
  while (total < kCount) {
    auto c = q.next();
    if (!c) break;
    if (total++ < kWidth) v.push_back(*c);
  }
  return v;
}

template <typename T>
std::string dump(Shrinkable<T> s, Order o, int depth) {
  std::string v, out;
  int n = 0;
  switch (o) {
  case ValueFirst:
  case Twice: {
    v = valueText(s);
    if (o == Twice && valueText(s) != v) vc::fail("value() of the same shrinkable gives " + v + " and then " + valueText(s));
    if (!depth) return v;
    auto c = kids(s, n);
    if (o == Twice) c = kids(s, n);
    for (auto &k : c) out += dump(k, o, depth - 1) + " ";
    if (o == Twice && valueText(s) != v) vc::fail("value() after looking at the shrinks differs from " + v);
    break;
  }
  case ChildrenFirst:
  case ChildrenReversed: {
    if (depth) {
      auto c = kids(s, n);
      std::vector<std::string> t(c.size());
      for (size_t i = 0; i < c.size(); i++) {
        size_t j = o == ChildrenFirst ? i : c.size() - 1 - i;
        t[j] = dump(c[j], o, depth - 1);
      }
      for (auto &x : t) out += x + " ";
    }
    v = valueText(s);
    if (!depth) return v;
    break;
  }
  case ParentGone: {
    // every child outlives its parent and the sequence it came from
    v = valueText(s);
    if (!depth) return v;
    std::vector<Shrinkable<T>> c;
    {
      auto q = [&] {
        Shrinkable<T> p = std::move(s);
        s = shrinkable::lambda([]() -> T { throw std::runtime_error("gone"); });
        return p.shrinks();
      }();
      while (n < kCount) {
        auto k = q.next();
        if (!k) break;
        if (n++ < kWidth) c.push_back(std::move(*k));
      }
    }
    while (!c.empty()) {
      Shrinkable<T> k = std::move(c.front());
      c.erase(c.begin());
      out += dump(std::move(k), o, depth - 1) + " ";
    }
    break;
  }
  case SeqCopied: {
    v = valueText(s);
    if (!depth) return v;
    auto q = s.shrinks();
    std::vector<std::string> viaCopy;
    while (n < kCount) {
      auto copy = q;           // a copy of the partly consumed sequence
      auto a = copy.next();
      auto b = q.next();
      if (bool(a) != bool(b)) vc::fail("copy of a shrink sequence ends at another place");
      if (!b) break;
      if (n++ < kWidth) {
        std::string x = dump(*b, o, depth - 1);
        if (dump(*a, ValueFirst, depth - 1) != x) vc::fail("copy of a shrink sequence yields another shrink than the sequence: " + x);
        out += x + " ";
      }
    }
    break;
  }
  default: break;
  }
  return v + "{" + out + "#" + std::to_string(n) + "}";
}

struct Check {
  template <typename T>
  static void run(const Info<T> &info) {
    int size = info.sizes[vc::pick((int)info.sizes.size(), "size")];
    script(info, vc::thorough() ? 1 : 0);
    const int depth = vc::thorough() ? 3 : 2;
    const std::string where = info.name + " at size " + std::to_string(size) + ": ";
    const Random r(uint64_t(1));
    const Random r0 = r;
    auto g = info.make();
    auto s = g(r, size);
    const std::string first = dump(s, ValueFirst, depth);
    if (!(r == r0)) vc::fail(where + "the random state passed in was changed");
    auto same = [&](const std::string &t, const char *how) {
      if (t != first) vc::fail(where + how + " gives\n  " + t + "\ninstead of\n  " + first);
      vc::matched();
    };
    for (int o = ValueFirst; o < kOrders; o++) {
      static const char *names[] = {"the same shrinkable again", "children before value", "children in reverse", "children after their parent is gone", "copied shrink sequences", "asking twice"};
      same(dump(s, Order(o), depth), names[o]);
      // fresh generation by the same generator, by a copy of it, and by one that is gone
      same(dump(g(r, size), Order(o), depth), "generating again");
      {
        auto copy = g;
        auto named = copy.as("name");
        same(dump(named(Random(uint64_t(1)), size), Order(o), depth), "a copy of the generator");
      }
      auto orphan = [&] {
        auto mine = info.make();
        auto other = std::move(mine);
        return other(r, size);
      }();
      same(dump(orphan, Order(o), depth), "a new generator that is gone");
    }
    // interleaved with other generators and other random states
    {
      auto a = g(r, size);
      std::string noise;
      auto b = info.make()(Random(uint64_t(2)), size + 1);
      auto other = gen::inRange(0, 100)(Random(uint64_t(3)), 50);
      noise += valueText(b) + valueText(other);
      int n;
      auto ka = kids(a, n);
      noise += dump(b, ValueFirst, 1);
      auto c = g(r, size);
      same(dump(a, ChildrenFirst, depth), "interleaved with other generation");
      noise += dump(b, ValueFirst, 1);
      same(dump(c, ValueFirst, depth), "generation in between other generation");
      // assignment over a live shrinkable and generator
      b = a;
      same(dump(b, ValueFirst, depth), "an assigned shrinkable");
      auto h = info.make();
      h = g;
      same(dump(h(r0, size), ValueFirst, depth), "an assigned generator");
      auto moved = std::move(a);
      same(dump(moved, ValueFirst, depth), "a moved shrinkable");
    }
    if (!(r == r0)) vc::fail(where + "the random state passed in was changed");
    vc::state(info.name + std::to_string(size) + first);
    vc::outcome(info.name);
    if (size == 3) vc::sample(info.name + ": " + first.substr(0, 120));
  }
};
} // namespace

VC_SUITE(CAT_CAT(catalogue, CAT_PART), 48, {}) {
  auto &c = cat::catalogue<Check>();
  int i = vc::pick(48, "generator");
  if (c.size() > 48) vc::fail("catalogue larger than the suite");
  if (i >= (int)c.size()) return;
  c[i].body();
}

#if CAT_PART == 0
// Exceptions from user code never leave the generator call and surface, unchanged, when the value is asked for.
namespace {
struct Boom : std::runtime_error {
  using std::runtime_error::runtime_error;
};
int g_kind;
long g_thrown;
[[noreturn]] void boom() {
  g_thrown++;
  switch (g_kind) {
  case 0: throw Boom("boom message");
  case 1: throw 42;
  case 2: throw std::logic_error("logic message");
  default: throw GenerationFailure("failure message");
  }
}
// true if the expected exception came
template <typename F> bool throwsIt(F f, std::string &got) {
  try {
    f();
    got = "nothing";
    return false;
  } catch (const Boom &e) {
    got = std::string("Boom ") + e.what();
    return g_kind == 0 && std::string(e.what()) == "boom message";
  } catch (int x) {
    got = "int " + std::to_string(x);
    return g_kind == 1 && x == 42;
  } catch (const GenerationFailure &e) {
    got = std::string("GenerationFailure ") + e.what();
    return g_kind == 3 && std::string(e.what()) == "failure message";
  } catch (const vc::Stop &) {
    throw;
  } catch (const std::logic_error &e) {
    got = std::string("logic_error ") + e.what();
    return g_kind == 2 && std::string(e.what()) == "logic message";
  } catch (const std::exception &e) {
    got = std::string("other exception ") + e.what();
    return false;
  } catch (...) {
    got = "something else";
    return false;
  }
}
struct ThrowingCopy {
  int x = 0;
  ThrowingCopy() {}
  ThrowingCopy(const ThrowingCopy &o) : x(o.x) {
    if (x == 1) boom();
  }
};
struct ThrowingCtor {
  explicit ThrowingCtor(int) { boom(); }
  ThrowingCtor(const ThrowingCtor &) = default;
};
struct Obj {
  int v = 0;
  void set(int) { boom(); }
};

template <typename T>
void broken(const char *name, std::function<Gen<T>()> make) {
  auto gen = make();
  for (int size : {1, 5, 100}) {
    Random r(uint64_t(1));
    g_thrown = 0;
    auto s = gen(r, size);     // must not throw: would terminate the program (noexcept)
    vc::step();
    for (int rep = 0; rep < 3; rep++) {
      std::string got;
      if (!throwsIt([&] { s.value(); }, got)) vc::fail(std::string(name) + " at size " + std::to_string(size) + ": asking for the value gives " + got + " (thrown by user code: kind " + std::to_string(g_kind) + ")");
      if (g_thrown == 0) vc::fail("harness: user code did not run");
    }
    // the shrinks must be enumerable without an exception
    try {
      auto q = s.shrinks();
      for (int i = 0; i < 20; i++) {
        auto c = q.next();
        if (!c) break;
        try {
          c->value();
        } catch (...) {
        }
        auto q2 = c->shrinks();
        q2.next();
      }
    } catch (const vc::Stop &) {
      throw;
    } catch (...) {
      vc::fail(std::string(name) + ": enumerating the shrinks throws");
    }
    Shrinkable<T> copy = s;
    std::string got;
    if (!throwsIt([&] { copy.value(); }, got)) vc::fail(std::string(name) + ": a copy gives " + got);
    vc::matched();
    vc::outcome(std::string(name) + " " + got);
  }
}
} // namespace

VC_SUITE(exceptions, 1, {}) {
  int which = vc::pick(32, "combinator");
  g_kind = vc::pick(4, "exception");
  script({1, 0, 2, 5}, 3);
  auto bad = [](int) -> int { boom(); };
  auto badGen = [=] { return gen::map(gen::inRange(0, 5), bad); };
  auto rawBad = [] { return Gen<int>([](const Random &, int) -> Shrinkable<int> { boom(); }); };
  using V = std::vector<int>;
  switch (which) {
  case 0: broken<int>("map", badGen); break;
  case 1: broken<int>("raw generator", rawBad); break;
  case 2: broken<int>("mapcat", [] { return gen::mapcat(gen::inRange(0, 5), [](int) -> Gen<int> { boom(); }); }); break;
  case 3: broken<int>("suchThat", [] { return gen::suchThat(gen::inRange(0, 5), [](int) -> bool { boom(); }); }); break;
  case 4: broken<int>("apply", [] { return gen::apply([](int, bool) -> int { boom(); }, gen::inRange(0, 5), gen::arbitrary<bool>()); }); break;
  case 5: broken<V>("uniqueBy", [] { return gen::uniqueBy<V>(2, gen::inRange(0, 5), [](int) -> int { boom(); }); }); break;
  case 6: broken<int>("exec", [] { return gen::exec([]() -> int { boom(); }); }); break;
  case 7: broken<int>("exec after a pick", [] { return gen::exec([]() -> int { int x = *gen::inRange(0, 5); (void)x; boom(); }); }); break;
  case 8: broken<int>("lazy", [] { return gen::lazy([]() -> Gen<int> { boom(); }); }); break;
  case 9: broken<int>("withSize", [] { return gen::withSize([](int) -> Gen<int> { boom(); }); }); break;
  case 10: broken<Obj>("build", [] { return gen::build<Obj>(gen::set(&Obj::set, gen::inRange(0, 5))); }); break;
  case 11: broken<ThrowingCtor>("construct", [] { return gen::construct<ThrowingCtor>(gen::inRange(0, 5)); }); break;
  case 12: broken<std::unique_ptr<ThrowingCtor>>("makeUnique", [] { return gen::makeUnique<ThrowingCtor>(gen::inRange(0, 5)); }); break;
  case 13: broken<std::shared_ptr<ThrowingCtor>>("makeShared", [] { return gen::makeShared<ThrowingCtor>(gen::inRange(0, 5)); }); break;
  case 14: broken<V>("container of failing", [=] { return gen::container<V>(2, badGen()); }); break;
  case 15: broken<V>("container of raw failing", [=] { return gen::container<V>(2, rawBad()); }); break;
  case 16: broken<std::pair<int, int>>("pair", [=] { return gen::pair(gen::just(1), rawBad()); }); break;
  case 17: broken<std::tuple<int, int, int>>("tuple", [=] { return gen::tuple(gen::just(1), badGen(), gen::just(2)); }); break;
  case 18: broken<int>("oneOf", [=] { return gen::oneOf(rawBad(), badGen()); }); break;
  case 19: broken<int>("resize", [=] { return gen::resize(3, rawBad()); }); break;
  case 20: broken<int>("scale", [=] { return gen::scale(0.5, badGen()); }); break;
  case 21: broken<int>("noShrink", [=] { return gen::noShrink(badGen()); }); break;
  case 22: broken<int>("shrink of failing", [=] { return gen::shrink(badGen(), [](int) { return seq::just(1); }); }); break;
  case 23: broken<long>("cast", [=] { return gen::cast<long>(rawBad()); }); break;
  case 24: broken<int>("join", [=] { return gen::join(gen::just(rawBad())); }); break;
  case 25: broken<int>("join of failing", [=] { return gen::join(Gen<Gen<int>>([](const Random &, int) -> Shrinkable<Gen<int>> { boom(); })); }); break;
  case 26: broken<std::map<int, int>>("map container values", [=] { return gen::container<std::map<int, int>>(1, gen::just(1), badGen()); }); break;
  case 27: broken<std::set<int>>("set", [=] { return gen::container<std::set<int>>(1, rawBad()); }); break;
  case 28: broken<std::array<int, 2>>("array", [=] { return gen::container<std::array<int, 2>>(badGen()); }); break;
  case 29: broken<int>("weightedOneOf", [=] { return gen::weightedOneOf<int>({{1, rawBad()}}); }); break;
  case 30: broken<std::pair<int, int>>("build on failing", [=] { return gen::exec([=] { int a = *gen::just(1); int b = *badGen(); return std::make_pair(a, b); }); }); break;
  case 31: broken<int>("distinctFrom", [=] { return gen::distinctFrom(rawBad(), 7); }); break;
  }
  vc::state(uint64_t(which * 10 + g_kind));
}

// User functions that throw only for some of the shrinks: the rest of the tree is unaffected.
VC_SUITE(exceptionsInShrinks, 1, {}) {
  g_kind = vc::pick(4, "exception");
  int at = vc::pick(6, "throws for this value");
  int how = vc::pick(7, "combinator");
  int start = 3 + vc::pick(8, "value");
  script({(uint64_t)start}, 1);
  auto f = [at](int x) -> int {
    if (x == at) boom();
    return x;
  };
  Gen<int> g = gen::just(0);
  auto base = gen::inRange(0, 20);
  switch (how) {
  case 0: g = gen::map(base, f); break;
  case 1: g = gen::mapcat(base, [=](int x) { return gen::just(f(x)); }); break;
  case 2: g = gen::apply(f, base); break;
  case 3: g = gen::exec([=] { return f(*base); }); break;
  case 4: g = gen::suchThat(base, [=](int x) { return f(x) >= 0; }); break;
  case 5: g = gen::shrink(gen::just(start), [=](int x) { f(x); return seq::takeWhile(seq::fromContainer(std::vector<int>{x - 1, x / 2}), [](int y) { return y >= 0; }); }); break;
  case 6: g = gen::map(gen::container<std::vector<int>>(1, base), [=](const std::vector<int> &v) { return f(v[0]); }); break;
  }
  auto text = [&](const Shrinkable<int> &s) -> std::string {
    std::string got;
    int v = 0;
    if (throwsIt([&] { v = s.value(); }, got)) return "!" + got;
    if (got != "nothing") vc::fail("another exception surfaces: " + got);
    return std::to_string(v);
  };
  auto walk = [&](auto &self, const Shrinkable<int> &s, int depth) -> std::string {
    std::string o = text(s) + "{";
    vc::step();
    if (depth) {
      try {
        auto q = s.shrinks();
        int n = 0;
        while (auto c = q.next()) {
          if (++n > 30) break;
          o += self(self, *c, depth - 1) + " ";
        }
      } catch (const vc::Stop &) {
        throw;
      } catch (...) {
        vc::fail("an exception leaves shrinks()");
      }
    }
    return o + "}";
  };
  Random r(uint64_t(1));
  auto s = g(r, 100);
  auto a = walk(walk, s, 3), b = walk(walk, s, 3), c = walk(walk, g(r, 100), 3);
  VC_CHECK(a == b && a == c, "not repeatable: " << a << " / " << b << " / " << c);
  // nodes that do not hit the throwing value show plain values; and a value that hits it surfaces the exception
  if (how <= 2 || how == 6) {
    bool has = a.find("!") != std::string::npos;
    bool expect = at <= start;    // every smaller value is within three shrink steps? only the direct ones are certain
    if (!expect) VC_CHECK(!has, "exception although the function never throws: " << a);
    if (at == 0 && start > 0) VC_CHECK(has, "exception of the user function got lost: " << a);
  }
  vc::matched(3);
  vc::state(a);
  vc::outcome(std::to_string(how) + (a.find("!") != std::string::npos ? " throws" : " plain"));
  vc::sample(a.substr(0, 100));
}
#endif
