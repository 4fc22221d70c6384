// C06: values and shrinks do not depend on the generator they came from being alive.  Every function object and every
// collection handed to a combinator owns heap memory, so reading it after the generator is gone is seen by
// AddressSanitizer, and every tree is compared with the one observed while the generator is alive.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "rapidcheck/state.h"
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace rc;

namespace {
using V = std::vector<int>;

std::string text(int x) { return std::to_string(x); }
std::string text(char x) { return std::to_string(int(x)); }
std::string text(bool x) { return x ? "t" : "f"; }
std::string text(long x) { return std::to_string(x); }
std::string text(const std::string &s) { return '"' + s + '"'; }
template <typename C> auto text(const C &c) -> decltype(c.begin(), std::string());
template <typename A, typename B> std::string text(const std::pair<A, B> &p) { return "(" + text(p.first) + "," + text(p.second) + ")"; }
template <typename T> std::string text(const Maybe<T> &m) { return m ? "J" + text(*m) : "N"; }
template <typename T> std::string text(const std::shared_ptr<T> &p) { return "*" + text(*p); }
template <typename T> std::string text(const std::unique_ptr<T> &p) { return "*" + text(*p); }
template <typename C> auto text(const C &c) -> decltype(c.begin(), std::string()) {
  std::multiset<std::string> s;
  std::string o = "[";
  for (auto &x : c) o += text(x) + " ";
  return o + "]";
}
struct Obj {
  int a = 0;
  std::string s;
  void set(int x) { a = x * 2; }
};
std::string text(const Obj &o) { return "Obj" + text(o.a) + text(o.s); }

template <typename T> std::string value(const Shrinkable<T> &s) {
  vc::step();
  try {
    return text(s.value());
  } catch (const GenerationFailure &e) {
    return std::string("!") + e.what();
  }
}
// every child outlives its parent, the sequence it came from and its siblings
template <typename T> std::string dump(Shrinkable<T> s, int depth, bool childrenFirst) {
  std::string v = childrenFirst ? "" : value(s), out;
  std::vector<Shrinkable<T>> kids;
  if (depth) {
    Seq<Shrinkable<T>> q = s.shrinks();
    if (!childrenFirst) s = shrinkable::lambda([]() -> T { throw std::runtime_error("gone"); });
    for (int i = 0; i < 5; i++) {
      auto k = q.next();
      if (!k) break;
      kids.push_back(std::move(*k));
    }
  }
  while (!kids.empty()) {
    Shrinkable<T> k = std::move(kids.front());
    kids.erase(kids.begin());
    out += dump(std::move(k), depth - 1, childrenFirst) + " ";
  }
  if (childrenFirst) v = value(s);
  return v + "{" + out + "}";
}
// Function objects with heap state.
struct Add {
  std::vector<int> k{1000};
  int operator()(int x) const { return x + k.at(0) - 1000; }
};
struct Small {
  std::vector<int> k{100000};
  bool operator()(int x) const { return x < k.at(0); }
};
struct Big {
  std::vector<int> k{2};
  template <typename C> bool operator()(const C &c) const { return (int)c.size() < k.at(0) + 100; }
};
struct Down {
  std::vector<int> k{1};
  Seq<int> operator()(int x) const { return x > 0 ? seq::just(x - k.at(0)) : Seq<int>(); }
};
struct Key {
  std::vector<int> k{3};
  int operator()(int x) const { return x + k.at(0); }
};
struct Bind {
  std::vector<int> k{4};
  Gen<int> operator()(int x) const { return gen::map(gen::inRange(0, k.at(0)), [k = k, x](int y) { return x * 10 + y + k.at(0); }); }
};
struct Sized {
  std::vector<int> k{4};
  Gen<int> operator()(int n) const { return gen::inRange(0, n + k.at(0)); }
};

template <typename T> void check(const char *name, const std::function<Gen<T>()> &make) {
  for (int size : {0, 2, 7, 100}) {
    const Random r(uint64_t(1));
    std::string first, other;
    {
      auto g = make();
      first = dump(g(r, size), 3, false);
      if (dump(g(r, size), 3, true) != first) vc::fail(std::string(name) + ": order of observation matters");
    }
    for (int how = 0; how < 4; how++) {
      auto s = [&] {
        auto g = std::unique_ptr<Gen<T>>(new Gen<T>(make()));
        if (how == 1) {
          auto copy = std::unique_ptr<Gen<T>>(new Gen<T>(*g));
          g.reset();
          return (*copy)(r, size);
        }
        if (how == 2) return Gen<Gen<T>>(gen::just(*g))(r, size).value()(r, size);
        return (*g)(r, size);
      }();
      // churn the allocator so that freed blocks are reused
      std::vector<std::unique_ptr<std::vector<int>>> noise;
      for (int i = 0; i < 8; i++) noise.emplace_back(new std::vector<int>(1, -77));
      if (how == 3) { // only the child of a child survives
        auto q = s.shrinks();
        auto c = q.next();
        if (!c) continue;
        auto want = dump(*c, 2, false);
        s = shrinkable::lambda([]() -> T { throw std::runtime_error("gone"); });
        q = Seq<Shrinkable<T>>();
        if (dump(std::move(*c), 2, false) != want) vc::fail(std::string(name) + ": a shrink changes when its parent is gone");
        continue;
      }
      auto got = dump(std::move(s), 3, false);
      if (got != first) vc::fail(std::string(name) + " at size " + std::to_string(size) + ": after the generator is gone the tree is\n  " + got + "\ninstead of\n  " + first);
      vc::matched();
    }
    vc::state(std::string(name) + std::to_string(size) + first);
    vc::outcome(name);
  }
}
struct M {
  int n = 0;
};
struct S {};
using Cmd = state::Command<M, S>;
struct Inc : Cmd {
  int by;
  Inc() : by(*gen::inRange(0, 9)) {}
  void apply(M &m) const override { m.n += by; }
  void show(std::ostream &os) const override { os << "Inc" << by; }
};
} // namespace
namespace {
std::string text(const std::shared_ptr<const Cmd> &c) {
  std::ostringstream os;
  c->show(os);
  return os.str();
}
std::string textAll(const std::vector<std::shared_ptr<const Cmd>> &v) {
  std::string o;
  for (auto &c : v) o += text(c) + " ";
  return o;
}
} // namespace

VC_SUITE(outlives, 64, {}) {
  int which = vc::pick(64, "combinator");
  vcr::Script sc;
  sc.alphabet = {3, 0, 1, 5, 8};
  sc.maxPoints = vc::thorough() ? 4 : 3;
  vcr::reset(sc);
  auto base = [] { return gen::inRange(0, 9); };
  switch (which) {
  case 0: check<int>("map", [=] { return gen::map(base(), Add()); }); break;
  case 1: check<int>("mapcat", [=] { return gen::mapcat(base(), Bind()); }); break;
  case 2: check<int>("join", [=] { return gen::join(gen::map(base(), Bind())); }); break;
  case 3: check<int>("suchThat", [=] { return gen::suchThat(base(), Small()); }); break;
  case 4: check<int>("shrink", [=] { return gen::shrink(base(), Down()); }); break;
  case 5: check<int>("apply", [=] { return gen::apply([a = Add()](int x, int y) { return a(x) * 100 + y; }, base(), base()); }); break;
  case 6: check<int>("withSize", [=] { return gen::withSize(Sized()); }); break;
  case 7: check<int>("resize", [=] { return gen::resize(5, gen::map(base(), Add())); }); break;
  case 8: check<int>("scale", [=] { return gen::scale(0.5, gen::map(base(), Add())); }); break;
  case 9: check<int>("noShrink", [=] { return gen::noShrink(gen::map(base(), Add())); }); break;
  case 10: check<long>("cast", [=] { return gen::cast<long>(gen::map(base(), Add())); }); break;
  case 11: check<std::string>("just", [=] { return gen::just(std::string("a string that lives on the heap")); }); break;
  case 12: check<std::string>("elementOf", [=] { return gen::elementOf(std::vector<std::string>{"first long heap string one", "second long heap string", "third long heap string xx"}); }); break;
  case 13: check<std::string>("element", [=] { return gen::element(std::string("first long heap string one"), std::string("second long heap string")); }); break;
  case 14: check<std::string>("sizedElement", [=] { return gen::sizedElement(std::string("first long heap string one"), std::string("second long heap string"), std::string("third long heap string xx")); }); break;
  case 15: check<std::string>("sizedElementOf", [=] { return gen::sizedElementOf(std::list<std::string>{"first long heap string one", "second long heap string", "third long heap string xx"}); }); break;
  case 16: check<std::string>("weightedElement", [=] { return gen::weightedElement<std::string>({{1, "first long heap string one"}, {3, "second long heap string"}}); }); break;
  case 17: check<int>("oneOf", [=] { return gen::oneOf(gen::map(base(), Add()), gen::mapcat(base(), Bind())); }); break;
  case 18: check<int>("weightedOneOf", [=] { return gen::weightedOneOf<int>({{1, gen::map(base(), Add())}, {2, gen::mapcat(base(), Bind())}}); }); break;
  case 19: check<int>("sizedOneOf", [=] { return gen::sizedOneOf(gen::map(base(), Add()), gen::mapcat(base(), Bind())); }); break;
  case 20: check<Maybe<int>>("maybe", [=] { return gen::maybe(gen::map(base(), Add())); }); break;
  case 21: check<std::pair<int, int>>("pair", [=] { return gen::pair(gen::map(base(), Add()), gen::mapcat(base(), Bind())); }); break;
  case 22: check<V>("vector", [=] { return gen::container<V>(gen::map(base(), Add())); }); break;
  case 23: check<V>("vector 2", [=] { return gen::container<V>(2, gen::map(base(), Add())); }); break;
  case 24: check<V>("uniqueBy", [=] { return gen::uniqueBy<V>(gen::map(base(), Add()), Key()); }); break;
  case 25: check<V>("uniqueBy 2", [=] { return gen::uniqueBy<V>(2, gen::map(base(), Add()), Key()); }); break;
  case 26: check<V>("unique", [=] { return gen::unique<V>(gen::map(base(), Add())); }); break;
  case 27: check<std::set<int>>("set", [=] { return gen::container<std::set<int>>(gen::map(base(), Add())); }); break;
  case 28: check<std::map<int, int>>("map container", [=] { return gen::container<std::map<int, int>>(gen::map(base(), Add()), gen::map(base(), Add())); }); break;
  case 29: check<std::multimap<int, int>>("multimap", [=] { return gen::container<std::multimap<int, int>>(gen::map(base(), Add()), gen::map(base(), Add())); }); break;
  case 30: check<std::array<int, 3>>("array", [=] { return gen::container<std::array<int, 3>>(gen::map(base(), Add())); }); break;
  case 31: check<int>("exec", [=] { return gen::exec([a = Add(), b = base()] { return a(*b) * 10 + *gen::map(b, a); }); }); break;
  case 32: check<int>("exec args", [=] { return gen::exec([a = Add()](bool x, bool y) { return a(x) * 10 + y; }); }); break;
  case 33: check<int>("nested exec", [=] { return gen::exec([a = Add(), b = base()] { return a(*gen::exec([a, b] { return a(*b) + *b; })) * 10 + *b; }); }); break;
  case 34: check<Obj>("build", [=] { return gen::build<Obj>(gen::set(&Obj::a, gen::map(base(), Add())), gen::set(&Obj::s, gen::just(std::string("a string that lives on the heap")))); }); break;
  case 35: check<Obj>("build set", [=] { return gen::build(gen::just(Obj()), gen::set(&Obj::set, gen::map(base(), Add()))); }); break;
  case 36: check<std::shared_ptr<int>>("makeShared", [=] { return gen::makeShared<int>(gen::map(base(), Add())); }); break;
  case 37: check<int>("lazy", [=] { return gen::lazy([a = Add(), b = base()] { return gen::map(b, a); }); }); break;
  case 38: check<int>("distinctFrom", [=] { return gen::distinctFrom(gen::map(base(), Add()), 4); }); break;
  case 39: check<V>("nonEmpty", [=] { return gen::nonEmpty(gen::container<V>(gen::map(base(), Add()))); }); break;
  case 40: check<std::string>("string", [=] { return gen::container<std::string>(gen::map(gen::inRange<int>(97, 100), [a = Add()](int x) { return (char)a(x); })); }); break;
  case 41: check<int>("suchThat of mapcat", [=] { return gen::suchThat(gen::mapcat(gen::suchThat(base(), Small()), Bind()), Small()); }); break;
  case 42: check<V>("filtered container", [=] { return gen::suchThat(gen::container<V>(gen::suchThat(base(), Small())), Big()); }); break;
  case 43: check<std::pair<V, int>>("dependent", [=] { return gen::mapcat(gen::container<V>(base()), [a = Add()](const V &v) { return gen::pair(gen::just(v), gen::map(gen::inRange(0, (int)v.size() + 1), a)); }); }); break;
  case 44: check<int>("named", [=] { return gen::map(base(), Add()).as("a name that lives on the heap, too"); }); break;
  case 45: check<std::string>("commands", [=] { return gen::map(state::gen::commands(M(), [a = Add()](const M &m) { return a(m.n) >= 0 ? state::gen::execOneOf<Inc>(m) : state::gen::execOneOf<Inc>(m); }), &textAll); }); break;
  case 46: check<std::string>("commands, initial state function", [=] { return gen::map(state::gen::commands([a = Add()] { M m; m.n = a(0); return m; }, state::gen::execOneOfWithArgs<Inc>()), &textAll); }); break;
  case 47: check<std::deque<int>>("deque", [=] { return gen::container<std::deque<int>>(gen::mapcat(base(), Bind())); }); break;
  case 48: check<std::list<int>>("unique list", [=] { return gen::unique<std::list<int>>(2, gen::mapcat(base(), Bind())); }); break;
  case 49: check<std::unique_ptr<int>>("makeUnique", [=] { return gen::makeUnique<int>(gen::map(base(), Add())); }); break;
  case 50: check<int>("function pointer generator", [=] { return Gen<int>([a = Add()](const Random &r, int n) { return shrinkable::map(gen::inRange(0, 9)(r, n), a); }); }); break;
  case 51: check<int>("shrinkable combinators", [=] { return Gen<int>([a = Add(), b = Bind(), d = Down(), s = Small()](const Random &r, int n) {
             auto x = shrinkable::shrinkRecur(int(Random(r).next() % 9), d);
             auto y = shrinkable::mapcat(shrinkable::map(x, a), [=](int v) { return b(v)(r, n); });
             return *shrinkable::filter(shrinkable::postShrink(y, d), s);
           }); }); break;
  case 52: check<std::pair<int, int>>("shrinkable pair", [=] { return Gen<std::pair<int, int>>([d = Down()](const Random &r, int) {
             return shrinkable::pair(shrinkable::shrinkRecur(int(Random(r).next() % 9), d), shrinkable::shrink([] { return 2; }, [d](int x) { return seq::map(d(x), [](int y) { return shrinkable::just(y); }); }));
           }); }); break;
  case 53: check<int>("mapShrinks", [=] { return Gen<int>([d = Down()](const Random &r, int) {
             return shrinkable::mapShrinks(shrinkable::shrinkRecur(int(Random(r).next() % 9), d), [d](Seq<Shrinkable<int>> &&q) {
               return seq::concat(seq::map(d(5), [](int v) { return shrinkable::just(v); }), std::move(q));
             });
           }); }); break;
  default: break;
  }
}
