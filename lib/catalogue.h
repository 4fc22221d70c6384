// A catalogue of generators with what each of them promises, used by the harnesses of C06, C12 and C13.
#pragma once
// CAT_PART selects one of kParts parts of the catalogue so that they compile in parallel.
#define CAT_PARTS 12
#define CAT_CAT2(a, b) a##b
#define CAT_CAT(a, b) CAT_CAT2(a, b)
#include "script.h"
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/Configuration.h"
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace cat {
using namespace rc;

// --- canonical text of a value (independent of rapidcheck's own show) -------------------------------------
inline std::string K(bool b) { return b ? "T" : "F"; }
template <typename T>
typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, std::string>::type K(T x) { return std::to_string(x); }
inline std::string K(double d) {
  char b[64];
  snprintf(b, sizeof b, "%a", d);
  return b;
}
inline std::string K(float d) { return K((double)d) + "f"; }
inline std::string K(long double d) {
  char b[64];
  snprintf(b, sizeof b, "%La", d);
  return b;
}
struct Pt {
  int x = 0, y = 0, z = 0;
  Pt() = default;
  Pt(int x_, int y_) : x(x_), y(y_) {}
  void setY(int v) { y = v; }
  void setYZ(int a, const int &b) {
    y = a;
    z = b;
  }
};
struct Base { virtual ~Base() = default; int v = 0; };
struct Derived : Base { explicit Derived(int x) { v = x; } };
inline std::string K(const Pt &p) { return "P" + K(p.x) + "/" + K(p.y) + "/" + K(p.z); }
template <typename C> std::string Kseq(const C &c, bool sort);
template <typename T, typename A> std::string K(const std::vector<T, A> &c);
template <typename T> std::string K(const std::deque<T> &c);
template <typename T> std::string K(const std::list<T> &c);
template <typename T> std::string K(const std::forward_list<T> &c);
template <typename T, size_t N> std::string K(const std::array<T, N> &c);
template <typename T> std::string K(const std::basic_string<T> &c);
template <typename... T> std::string K(const std::set<T...> &c);
template <typename... T> std::string K(const std::multiset<T...> &c);
template <typename... T> std::string K(const std::map<T...> &c);
template <typename... T> std::string K(const std::multimap<T...> &c);
template <typename... T> std::string K(const std::unordered_set<T...> &c);
template <typename... T> std::string K(const std::unordered_multiset<T...> &c);
template <typename... T> std::string K(const std::unordered_map<T...> &c);
template <typename... T> std::string K(const std::unordered_multimap<T...> &c);
template <typename T> std::string K(const Maybe<T> &m);
template <typename T> std::string K(const std::unique_ptr<T> &p);
template <typename T> std::string K(const std::shared_ptr<T> &p);
template <typename R, typename P> std::string K(const std::chrono::duration<R, P> &d) { return K(d.count()) + "d"; }
template <typename C, typename D> std::string K(const std::chrono::time_point<C, D> &d) { return K(d.time_since_epoch()) + "t"; }
template <typename A, typename B> std::string K(const std::pair<A, B> &p);
template <size_t I = 0, typename... T>
typename std::enable_if<I == sizeof...(T), std::string>::type Ktup(const std::tuple<T...> &) { return ""; }
template <size_t I = 0, typename... T>
typename std::enable_if<(I < sizeof...(T)), std::string>::type Ktup(const std::tuple<T...> &t);
template <typename... T> std::string K(const std::tuple<T...> &t) { return "<" + Ktup(t) + ">"; }
inline std::string K(const std::shared_ptr<Base> &p) { return p ? "B" + K(p->v) : "null"; }

template <typename C> std::string Kseq(const C &c, bool sort) {
  std::vector<std::string> v;
  for (const auto &x : c) v.push_back(K(x));
  if (sort) std::sort(v.begin(), v.end());
  std::string s = "[";
  for (auto &x : v) s += x + ",";
  return s + "]";
}
template <typename T, typename A> std::string K(const std::vector<T, A> &c) { return Kseq(c, false); }
template <typename T> std::string K(const std::deque<T> &c) { return Kseq(c, false); }
template <typename T> std::string K(const std::list<T> &c) { return Kseq(c, false); }
template <typename T> std::string K(const std::forward_list<T> &c) { return Kseq(c, false); }
template <typename T, size_t N> std::string K(const std::array<T, N> &c) { return Kseq(c, false); }
template <typename T> std::string K(const std::basic_string<T> &c) { return "s" + Kseq(c, false); }
template <typename... T> std::string K(const std::set<T...> &c) { return Kseq(c, false); }
template <typename... T> std::string K(const std::multiset<T...> &c) { return Kseq(c, false); }
template <typename... T> std::string K(const std::map<T...> &c) { return Kseq(c, false); }
template <typename... T> std::string K(const std::multimap<T...> &c) { return Kseq(c, true); }
template <typename... T> std::string K(const std::unordered_set<T...> &c) { return Kseq(c, true); }
template <typename... T> std::string K(const std::unordered_multiset<T...> &c) { return Kseq(c, true); }
template <typename... T> std::string K(const std::unordered_map<T...> &c) { return Kseq(c, true); }
template <typename... T> std::string K(const std::unordered_multimap<T...> &c) { return Kseq(c, true); }
template <typename T> std::string K(const Maybe<T> &m) { return m ? "J(" + K(*m) + ")" : "N"; }
template <typename T> std::string K(const std::unique_ptr<T> &p) { return p ? "u" + K(*p) : "null"; }
template <typename T> std::string K(const std::shared_ptr<T> &p) { return p ? "p" + K(*p) : "null"; }
template <typename A, typename B> std::string K(const std::pair<A, B> &p) { return "(" + K(p.first) + ":" + K(p.second) + ")"; }
template <size_t I, typename... T>
typename std::enable_if<(I < sizeof...(T)), std::string>::type Ktup(const std::tuple<T...> &t) { return K(std::get<I>(t)) + ";" + Ktup<I + 1>(t); }

// --- what is known about a generator ----------------------------------------------------------------------
enum Fails { Never, Sometimes, Always };   // Sometimes: a generation failure is a legal outcome
template <typename T>
struct Info {
  std::string name;
  std::function<Gen<T>()> make;
  std::function<bool(const T &)> ok;            // the promise
  std::function<bool(const T &)> isMin;         // documented minimum, reachable from every value
  Fails fails = Never;
  bool distinct = true;                         // distinct nodes on a path have distinct values
  bool shrinks = true;                          // false: promises no shrinks at all
  std::vector<uint64_t> alphabet{0, 1, 2, 5};
  int points = 4;
  std::vector<int> sizes{0, 1, 2, 3, 100};
  bool large = false;                           // long values: only the first draws are enumerated, the others follow a pattern
};

const uint64_t kOnes = ~uint64_t(0);
const std::vector<uint64_t> kInts = {0, 1, 2, 5, 100, kOnes, 0x8000000000000000ULL, 0x5A5A5A5A5A5A5A5AULL, 0x7fffffff, 0x80};
const std::vector<uint64_t> kText = {0x0101010101010102ULL, 0xC3C3C3C3C3C3C3C3ULL, 0x3, 0xFFFFFFFFFFFFFFFFULL, 0x6162636465666768ULL};

template <typename C> bool sizeIs(const C &c, size_t n) { return (size_t)std::distance(c.begin(), c.end()) == n; }
template <typename C, typename F> bool all(const C &c, F f) {
  for (const auto &x : c)
    if (!f(x)) return false;
  return true;
}
struct EmptyC {
  template <typename C> bool operator()(const C &c) const { return c.begin() == c.end(); }
};
struct Any {
  template <typename C> bool operator()(const C &) const { return true; }
};

struct Entry {
  std::string name;
  std::function<void()> body;
};

template <typename Check>
struct Table {
  std::vector<Entry> entries;
  template <typename T>
  Info<T> &add(std::string name, std::function<Gen<T>()> make, std::function<bool(const T &)> ok, std::function<bool(const T &)> isMin) {
    auto i = std::make_shared<Info<T>>();
    i->name = name;
    i->make = make;
    i->ok = ok;
    i->isMin = isMin;
    entries.push_back({name, [i] { Check::template run<T>(*i); }});
    return *i;
  }
};

template <typename Check>
const std::vector<Entry> &catalogue() {
  static const std::vector<Entry> entries = [] {
    Table<Check> t;
    auto none = nullptr;
#if CAT_PART == 0
    // numbers
    auto num = [&](auto zero, const char *name) {
      using T = decltype(zero);
      auto &i = t.template add<T>(std::string("arbitrary ") + name, [] { return gen::arbitrary<T>(); }, Any(), [](const T &x) { return x == T(0); });
      i.alphabet = kInts;
      i.points = 2;
      i.sizes = {0, 1, 50, 100, 200};
    };
    num((signed char)0, "signed char");
    num((unsigned char)0, "unsigned char");
    num(short(0), "short");
    num((unsigned short)0, "unsigned short");
    num(int(0), "int");
    num(unsigned(0), "unsigned");
    num(long(0), "long");
    num((unsigned long)0, "unsigned long");
    num((long long)0, "long long");
    num((unsigned long long)0, "unsigned long long");
    num(float(0), "float");
    num(double(0), "double");
    {
      auto &i = t.template add<bool>("arbitrary bool", [] { return gen::arbitrary<bool>(); }, Any(), [](bool b) { return !b; });
      i.points = 1;
    }
    auto range = [&](auto lo, auto hi, const char *name) {
      using T = decltype(lo);
      T h = hi;
      auto &i = t.template add<T>(std::string("inRange ") + name, [=] { return gen::inRange<T>(lo, h); }, [=](const T &x) { return lo <= x && x < h; }, [=](const T &x) { return x == lo; });
      i.alphabet = kInts;
      i.points = 1;
      i.sizes = {0, 1, 3, 50, 99, 100, 101};
    };
    range(int(-3), 4, "int [-3,4)");
    range(int(5), 9, "int [5,9)");
    range(int(-10), -4, "int [-10,-4)");
    range(int(7), 8, "int [7,8)");
    range((signed char)-128, 127, "int8 [-128,127)");
    range((short)-5, 30000, "int16 [-5,30000)");
    range((unsigned char)3, 255, "uint8 [3,255)");
    range(std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), "int full");
    range((unsigned long)0, kOnes, "uint64 full");
    range(std::numeric_limits<long>::min(), std::numeric_limits<long>::max(), "int64 full");
    range((unsigned long)kOnes - 5, kOnes, "uint64 top");
    {
      auto sgn = [&](const char *name, std::function<Gen<int>()> g, std::function<bool(int)> ok) -> Info<int> & {
        auto &i = t.template add<int>(name, g, [=](const int &x) { return ok(x); }, none);
        i.alphabet = {1, 0, 2, kOnes, 0x80000000u, 0xFFFFFFFEu};
        i.points = 3;
        i.fails = Sometimes;
        i.sizes = {0, 1, 50, 100};
        return i;
      };
      sgn("nonZero", [] { return gen::nonZero<int>(); }, [](int x) { return x != 0; });
      sgn("positive", [] { return gen::positive<int>(); }, [](int x) { return x > 0; });
      sgn("negative", [] { return gen::negative<int>(); }, [](int x) { return x < 0; });
      sgn("nonNegative", [] { return gen::nonNegative<int>(); }, [](int x) { return x >= 0; }).isMin = [](const int &x) { return x == 0; };
      sgn("distinctFrom 0", [] { return gen::distinctFrom(0); }, [](int x) { return x != 0; });
      sgn("distinctFrom 1 of [0,3)", [] { return gen::distinctFrom(gen::inRange(0, 3), 1); }, [](int x) { return x == 0 || x == 2; });
      sgn("suchThat even", [] { return gen::suchThat<int>([](int x) { return x % 2 == 0; }); }, [](int x) { return x % 2 == 0; }).isMin = [](const int &x) { return x == 0; };
      sgn("suchThat of suchThat", [] { return gen::suchThat(gen::suchThat(gen::inRange(0, 20), [](int x) { return x % 2 == 1; }), [](int x) { return x % 3 == 0; }); }, [](int x) { return x % 6 == 3 && x > 0 && x < 20; });
    }
#endif
#if CAT_PART == 1
    // selections
    auto sel = [&](const char *name, std::function<Gen<int>()> g, std::set<int> from) -> Info<int> & {
      auto &i = t.template add<int>(name, g, [=](const int &x) { return from.count(x) != 0; }, none);
      i.alphabet = {0, 1, 2, 3, 4, 6, kOnes};
      i.points = 2;
      return i;
    };
    sel("elementOf vector", [] { return gen::elementOf(std::vector<int>{7, 3, 9}); }, {7, 3, 9});
    sel("elementOf list", [] { return gen::elementOf(std::list<int>{7, 3, 9}); }, {7, 3, 9});
    sel("elementOf set", [] { return gen::elementOf(std::set<int>{7, 3, 9}); }, {7, 3, 9});
    sel("elementOf one", [] { return gen::elementOf(std::vector<int>{4}); }, {4});
    sel("element", [] { return gen::element(5, 6, 7, 8); }, {5, 6, 7, 8});
    sel("weightedElement", [] { return gen::weightedElement<int>({{0, 1}, {2, 2}, {0, 3}, {1, 4}, {0, 5}}); }, {2, 4});
    sel("sizedElementOf", [] { return gen::sizedElementOf(std::vector<int>{7, 3, 9, 1, 8}); }, {7, 3, 9, 1, 8}).isMin = [](const int &x) { return x == 7; };
    sel("sizedElement", [] { return gen::sizedElement(7, 3, 9); }, {7, 3, 9}).isMin = [](const int &x) { return x == 7; };
    sel("oneOf", [] { return gen::oneOf(gen::just(1), gen::inRange(5, 8), gen::element(20, 30)); }, {1, 5, 6, 7, 20, 30});
    sel("weightedOneOf", [] { return gen::weightedOneOf<int>({{0, gen::just(1)}, {1, gen::inRange(5, 8)}, {3, gen::just(9)}}); }, {5, 6, 7, 9});
    sel("sizedOneOf", [] { return gen::sizedOneOf(gen::just(1), gen::inRange(5, 8), gen::just(9)); }, {1, 5, 6, 7, 9}).distinct = false;
    sel("just", [] { return gen::just(11); }, {11});
    sel("lazy", [] { return gen::lazy([] { return gen::inRange(3, 6); }); }, {3, 4, 5}).isMin = [](const int &x) { return x == 3; };
    {
      auto &i = t.template add<char>("elementOf string", [] { return gen::elementOf(std::string("xyz")); }, [](const char &c) { return c >= 'x' && c <= 'z'; }, none);
      i.points = 1;
      auto &j = t.template add<std::string>("element strings", [] { return gen::element<std::string>("a", "bb", ""); }, [](const std::string &s) { return s == "a" || s == "bb" || s == ""; }, none);
      j.points = 1;
      auto &k = t.template add<bool>("elementOf vector<bool>", [] { return gen::elementOf(std::vector<bool>{true, true}); }, [](bool b) { return b; }, none);
      k.points = 1;
    }
    // optional
    t.template add<Maybe<int>>("maybe [2,6)", [] { return gen::maybe(gen::inRange(2, 6)); }, [](const Maybe<int> &m) { return !m || (*m >= 2 && *m < 6); }, [](const Maybe<int> &m) { return !m; });
    t.template add<Maybe<Maybe<bool>>>("maybe maybe", [] { return gen::arbitrary<Maybe<Maybe<bool>>>(); }, Any(), [](const Maybe<Maybe<bool>> &m) { return !m; });
    // tuples
    t.template add<std::tuple<>>("empty tuple", [] { return gen::tuple(); }, Any(), Any());
    t.template add<std::tuple<int>>("tuple of one", [] { return gen::tuple(gen::inRange(1, 4)); }, [](const std::tuple<int> &x) { return std::get<0>(x) >= 1 && std::get<0>(x) < 4; }, [](const std::tuple<int> &x) { return std::get<0>(x) == 1; });
    t.template add<std::tuple<int, bool, char>>("tuple of three", [] { return gen::tuple(gen::inRange(1, 4), gen::arbitrary<bool>(), gen::element('a', 'b')); },
        [](const std::tuple<int, bool, char> &x) { return std::get<0>(x) >= 1 && std::get<0>(x) < 4 && (std::get<2>(x) == 'a' || std::get<2>(x) == 'b'); },
        [](const std::tuple<int, bool, char> &x) { return std::get<0>(x) == 1 && !std::get<1>(x); });
    t.template add<std::pair<int, int>>("pair", [] { return gen::pair(gen::inRange(0, 3), gen::inRange(10, 13)); }, [](const std::pair<int, int> &p) { return p.first >= 0 && p.first < 3 && p.second >= 10 && p.second < 13; },
        [](const std::pair<int, int> &p) { return p.first == 0 && p.second == 10; });
    t.template add<std::tuple<std::pair<bool, int>, std::tuple<bool>>>("nested tuple", [] { return gen::tuple(gen::pair(gen::arbitrary<bool>(), gen::inRange(4, 7)), gen::tuple(gen::arbitrary<bool>())); },
        [](const std::tuple<std::pair<bool, int>, std::tuple<bool>> &x) { return std::get<0>(x).second >= 4 && std::get<0>(x).second < 7; }, none);
    {
      auto &i = t.template add<std::tuple<bool, unsigned char>>("arbitrary tuple", [] { return gen::arbitrary<std::tuple<bool, unsigned char>>(); }, Any(), [](const std::tuple<bool, unsigned char> &x) { return x == std::make_tuple(false, (unsigned char)0); });
      i.sizes = {0, 5, 100};
      auto &j = t.template add<std::pair<bool, Maybe<bool>>>("arbitrary pair", [] { return gen::arbitrary<std::pair<bool, Maybe<bool>>>(); }, Any(), [](const std::pair<bool, Maybe<bool>> &x) { return !x.first && !x.second; });
      j.sizes = {0, 5, 100};
    }
#endif
    // containers
    auto in = [](int lo, int hi) { return [=](int x) { return lo <= x && x < hi; }; };
    std::vector<int> small{0, 1, 2, 3};
    auto seqs = [&](auto proto, const char *name, bool uniqueKeys = false) {
      using C = decltype(proto);
      auto &i = t.template add<C>(std::string("container ") + name, [] { return gen::container<C>(gen::inRange(2, 6)); }, [=](const C &c) { return all(c, in(2, 6)); }, EmptyC());
      i.sizes = small;
      i.points = 4;
      i.fails = uniqueKeys ? Sometimes : Never;
      auto &j = t.template add<C>(std::string("container of 2 ") + name, [] { return gen::container<C>(2, gen::inRange(2, 6)); }, [=](const C &c) { return sizeIs(c, 2) && all(c, in(2, 6)); }, none);
      j.sizes = {0, 2, 100};
      j.points = 4;
      j.fails = uniqueKeys ? Sometimes : Never;   // sets: too few different values in the script
      auto &k = t.template add<C>(std::string("container of 0 ") + name, [] { return gen::container<C>(0, gen::inRange(2, 6)); }, EmptyC(), EmptyC());
      k.points = 1;
      auto &l = t.template add<C>(std::string("nonEmpty ") + name, [] { return gen::nonEmpty(gen::container<C>(gen::inRange(2, 6))); }, [=](const C &c) { return !EmptyC()(c) && all(c, in(2, 6)); }, [=](const C &c) { return sizeIs(c, 1) && *c.begin() == 2; });
      l.sizes = {0, 1, 2};
      l.points = 4;
      l.fails = Sometimes;
      l.alphabet = {1, 0, 2, 5};
    };
#if CAT_PART == 2
    seqs(std::vector<int>(), "vector");
    seqs(std::deque<int>(), "deque");
    seqs(std::list<int>(), "list");
    seqs(std::forward_list<int>(), "forward_list");
#endif
#if CAT_PART == 3
    seqs(std::multiset<int>(), "multiset");
    seqs(std::unordered_multiset<int>(), "unordered_multiset");
    seqs(std::set<int>(), "set", true);
    seqs(std::unordered_set<int>(), "unordered_set", true);
#endif
    auto maps = [&](auto proto, const char *name, bool uniqueKeys) {
      using C = decltype(proto);
      auto okEl = [](const C &c) {
        for (auto &p : c)
          if (p.first < 0 || p.first >= 4 || p.second < 10 || p.second >= 13) return false;
        return true;
      };
      (void)uniqueKeys;
      auto &i = t.template add<C>(std::string("container ") + name, [] { return gen::container<C>(gen::inRange(0, 4), gen::inRange(10, 13)); }, okEl, EmptyC());
      i.sizes = {0, 1, 2};
      i.fails = Sometimes;
      i.points = 5;
      i.alphabet = {1, 0, 2};
      auto &j = t.template add<C>(std::string("container of 2 ") + name, [] { return gen::container<C>(2, gen::inRange(0, 4), gen::inRange(10, 13)); }, [=](const C &c) { return okEl(c) && sizeIs(c, 2); }, none);
      j.sizes = {2, 100};
      j.fails = Sometimes;
      j.points = 5;
      j.alphabet = {1, 0, 2};
      auto &k = t.template add<C>(std::string("arbitrary ") + name, [] { return gen::arbitrary<C>(); }, Any(), EmptyC());
      k.sizes = {0, 1, 2, 3};
      k.fails = Sometimes;
      k.points = 4;
      k.alphabet = {1, 0, 2, 3};
    };
#if CAT_PART == 4
    maps(std::map<int, int>(), "map", true);
    maps(std::unordered_map<int, int>(), "unordered_map", true);
#endif
#if CAT_PART == 5
    maps(std::multimap<int, int>(), "multimap", false);
    maps(std::unordered_multimap<int, int>(), "unordered_multimap", false);
#endif
#if CAT_PART == 2
    t.template add<std::array<int, 3>>("array", [] { return gen::container<std::array<int, 3>>(gen::inRange(2, 6)); }, [=](const std::array<int, 3> &c) { return all(c, in(2, 6)); }, [](const std::array<int, 3> &c) { return c == std::array<int, 3>{{2, 2, 2}}; });
    t.template add<std::array<int, 3>>("array with count", [] { return gen::container<std::array<int, 3>>(3, gen::inRange(2, 6)); }, [=](const std::array<int, 3> &c) { return all(c, in(2, 6)); }, none);
    t.template add<std::array<bool, 2>>("arbitrary array", [] { return gen::arbitrary<std::array<bool, 2>>(); }, Any(), [](const std::array<bool, 2> &c) { return !c[0] && !c[1]; });
    t.template add<std::array<int, 3>>("array with wrong count", [] { return gen::container<std::array<int, 3>>(2, gen::inRange(2, 6)); }, Any(), none).fails = Always;
    for (int n : {0, 1, 4, 6, 7, 9, 12, 30, 100, 259}) t.template add<std::array<int, 3>>("array with count " + std::to_string(n), [=] { return gen::container<std::array<int, 3>>(static_cast<std::size_t>(n), gen::inRange(2, 6)); }, Any(), none).fails = Always;
    t.template add<std::vector<bool>>("arbitrary vector<bool>", [] { return gen::arbitrary<std::vector<bool>>(); }, Any(), EmptyC()).sizes = small;
    t.template add<std::list<bool>>("arbitrary list<bool>", [] { return gen::arbitrary<std::list<bool>>(); }, Any(), EmptyC()).sizes = small;
    t.template add<std::set<bool>>("arbitrary set<bool>", [] { return gen::arbitrary<std::set<bool>>(); }, Any(), EmptyC()).fails = Sometimes;
#endif
#if CAT_PART == 4
    t.template add<std::vector<std::vector<bool>>>("nested vector", [] { return gen::container<std::vector<std::vector<bool>>>(gen::arbitrary<std::vector<bool>>()); }, Any(), EmptyC()).sizes = {0, 1, 2, 3};
    t.template add<std::vector<std::pair<bool, int>>>("vector of pairs", [] { return gen::container<std::vector<std::pair<bool, int>>>(gen::pair(gen::arbitrary<bool>(), gen::inRange(3, 6))); },
        [](const std::vector<std::pair<bool, int>> &v) { return all(v, [](const std::pair<bool, int> &p) { return p.second >= 3 && p.second < 6; }); }, EmptyC()).sizes = small;
    {
      auto &i = t.template add<std::map<int, std::set<int>>>("map to sets", [] { return gen::container<std::map<int, std::set<int>>>(gen::inRange(0, 4), gen::container<std::set<int>>(gen::inRange(5, 8))); },
          [=](const std::map<int, std::set<int>> &m) { return all(m, [=](const std::pair<const int, std::set<int>> &p) { return in(0, 4)(p.first) && all(p.second, in(5, 8)); }); }, EmptyC());
      i.sizes = {0, 1, 2};
      i.fails = Sometimes;
      i.points = 5;
      i.alphabet = {1, 0, 2};
      auto &j = t.template add<std::vector<std::unique_ptr<int>>>("vector of unique_ptr", [] { return gen::container<std::vector<std::unique_ptr<int>>>(gen::makeUnique<int>(gen::inRange(2, 5))); },
          [=](const std::vector<std::unique_ptr<int>> &v) { return all(v, [=](const std::unique_ptr<int> &p) { return p && in(2, 5)(*p); }); }, EmptyC());
      j.sizes = {0, 1, 2, 3};
    }
#endif
#if CAT_PART == 6
    // unique containers
    auto uni = [&](const char *name, std::function<Gen<std::vector<int>>()> g, int mod, int count) -> Info<std::vector<int>> & {
      auto &i = t.template add<std::vector<int>>(name, g,
          [=](const std::vector<int> &v) {
            std::set<int> keys;
            for (int x : v)
              if (x < 0 || x >= 6 || !keys.insert(mod ? x % mod : x).second) return false;
            return count < 0 || (int)v.size() == count;
          }, none);
      if (count < 0) i.isMin = EmptyC();
      i.sizes = {0, 1, 2, 3, 100};
      i.points = 5;
      i.alphabet = {1, 0, 2, 5};
      i.fails = Sometimes;
      return i;
    };
    uni("unique", [] { return gen::unique<std::vector<int>>(gen::inRange(0, 6)); }, 0, -1).sizes = small;
    uni("unique 3", [] { return gen::unique<std::vector<int>>(3, gen::inRange(0, 6)); }, 0, 3);
    uni("unique 0", [] { return gen::unique<std::vector<int>>(0, gen::inRange(0, 6)); }, 0, 0).points = 1;
    uni("uniqueBy mod 3", [] { return gen::uniqueBy<std::vector<int>>(gen::inRange(0, 6), [](int x) { return x % 3; }); }, 3, -1).sizes = small;
    uni("uniqueBy 2 mod 3", [] { return gen::uniqueBy<std::vector<int>>(2, gen::inRange(0, 6), [](int x) { return x % 3; }); }, 3, 2);
    uni("uniqueBy with captured table", [] {
      auto table = std::vector<std::string>{"a", "b", "c", "a", "b", "c"};
      return gen::uniqueBy<std::vector<int>>(gen::inRange(0, 6), [table](int x) { return table[x]; });
    }, 3, -1).sizes = small;
    uni("uniqueBy with std::function", [] {
      auto big = std::make_shared<std::vector<int>>(100, 3);
      std::function<int(const int &)> f = [big](const int &x) { return x % (*big)[50]; };
      auto g = gen::uniqueBy<std::vector<int>>(gen::inRange(0, 6), f);
      if (f(4) != 1) throw std::runtime_error("key function of the caller changed");
      return g;
    }, 3, -1).sizes = small;
    {
      auto &i = t.template add<std::set<int>>("unique into set", [] { return gen::unique<std::set<int>>(2, gen::inRange(0, 6)); }, [=](const std::set<int> &s) { return s.size() == 2 && all(s, in(0, 6)); }, none);
      i.fails = Sometimes;
      i.alphabet = {1, 0, 2, 5};
    }
#endif
#if CAT_PART == 7
    // text
    {
      auto noNul = [](const std::string &s) { return s.find('\0') == std::string::npos; };
      auto str = [&](const char *name, std::function<Gen<std::string>()> g, std::function<bool(const std::string &)> ok) -> Info<std::string> & {
        auto &i = t.template add<std::string>(name, g, ok, EmptyC());
        i.alphabet = kText;
        i.points = 3;
        i.sizes = small;
        return i;
      };
      str("string", [] { return gen::string<std::string>(); }, noNul);
      str("arbitrary string", [] { return gen::arbitrary<std::string>(); }, noNul);
      auto &l = str("long string", [] { return gen::resize(10, gen::string<std::string>()); }, noNul);
      l.sizes = {0, 100};
      auto &i = t.template add<std::wstring>("wstring", [] { return gen::string<std::wstring>(); }, [](const std::wstring &s) { return s.find(L'\0') == std::wstring::npos; }, EmptyC());
      i.alphabet = kText;
      i.points = 3;
      i.sizes = small;
      auto &c = t.template add<std::string>("container string", [] { return gen::container<std::string>(gen::elementOf(std::string("abc"))); }, [](const std::string &s) { return all(s, [](char x) { return x >= 'a' && x <= 'c'; }); }, EmptyC());
      c.sizes = small;
      auto &ch = t.template add<char>("character", [] { return gen::character<char>(); }, [](const char &x) { return x != '\0'; }, [](const char &x) { return x == 'a'; });
      ch.alphabet = kText;
      ch.points = 2;
      auto &wc = t.template add<wchar_t>("wide character", [] { return gen::character<wchar_t>(); }, [](const wchar_t &x) { return x != L'\0'; }, [](const wchar_t &x) { return x == L'a'; });
      wc.alphabet = kText;
      wc.points = 2;
      auto &c16 = t.template add<char16_t>("character 16", [] { return gen::character<char16_t>(); }, [](const char16_t &x) { return x != 0; }, [](const char16_t &x) { return x == u'a'; });
      c16.alphabet = kText;
      c16.points = 2;
      auto &uc = t.template add<unsigned char>("unsigned character", [] { return gen::character<unsigned char>(); }, [](const unsigned char &x) { return x != 0; }, [](const unsigned char &x) { return x == 'a'; });
      uc.alphabet = kText;
      uc.points = 2;
      auto &s32 = t.template add<std::u32string>("u32string", [] { return gen::string<std::u32string>(); }, [](const std::u32string &s) { return s.find(U'\0') == std::u32string::npos; }, EmptyC());
      s32.alphabet = kText;
      s32.points = 3;
      s32.sizes = small;
      auto &vs = t.template add<std::vector<std::string>>("vector of strings", [] { return gen::container<std::vector<std::string>>(gen::string<std::string>()); }, [=](const std::vector<std::string> &v) { return all(v, noNul); }, EmptyC());
      vs.alphabet = kText;
      vs.points = 3;
      vs.sizes = {0, 1, 2};
      auto &ms = t.template add<std::map<std::string, bool>>("map from strings", [] { return gen::container<std::map<std::string, bool>>(gen::string<std::string>(), gen::arbitrary<bool>()); }, Any(), EmptyC());
      ms.alphabet = kText;
      ms.points = 4;
      ms.sizes = {0, 1, 2};
      ms.fails = Sometimes;
    }
#endif
#if CAT_PART == 8
    // transformations
    t.template add<int>("map", [] { return gen::map(gen::inRange(0, 5), [](int x) { return x * 10 + 1; }); }, [](const int &x) { return x % 10 == 1 && x <= 41; }, [](const int &x) { return x == 1; });
    t.template add<std::string>("map to string", [] { return gen::map<bool>([](bool b) { return std::string(b ? "yes" : "no"); }); }, [](const std::string &s) { return s == "yes" || s == "no"; }, [](const std::string &s) { return s == "no"; });
    {
      auto &i = t.template add<std::vector<bool>>("mapcat", [] { return gen::mapcat(gen::inRange<size_t>(1, 4), [](size_t n) { return gen::container<std::vector<bool>>(n, gen::arbitrary<bool>()); }); },
          [](const std::vector<bool> &v) { return v.size() >= 1 && v.size() < 4; }, [](const std::vector<bool> &v) { return v == std::vector<bool>{false}; });
      i.distinct = false;
      auto &j = t.template add<std::pair<int, int>>("dependent pair", [] { return gen::mapcat(gen::inRange(1, 5), [](int n) { return gen::pair(gen::just(n), gen::inRange(0, n)); }); },
          [](const std::pair<int, int> &p) { return p.first >= 1 && p.first < 5 && p.second >= 0 && p.second < p.first; }, [](const std::pair<int, int> &p) { return p.first == 1 && p.second == 0; });
      j.distinct = false;
      auto &k = t.template add<int>("join", [] { return gen::join(gen::element(gen::inRange(0, 4), gen::inRange(10, 14))); }, [](const int &x) { return (x >= 0 && x < 4) || (x >= 10 && x < 14); }, none);
      k.distinct = false;
      auto &f = t.template add<int>("mapcat that can fail", [] { return gen::mapcat(gen::inRange(0, 4), [](int n) { return gen::inRange(1, n); }); }, [](const int &x) { return x >= 1 && x < 3; }, none);
      f.distinct = false;
      f.fails = Sometimes;
    }
    t.template add<int>("apply", [] { return gen::apply([](int a, bool b) { return a * 2 + (b ? 1 : 0); }, gen::inRange(1, 4), gen::arbitrary<bool>()); }, [](const int &x) { return x >= 2 && x <= 7; }, [](const int &x) { return x == 2; });
    t.template add<long>("cast", [] { return gen::cast<long>(gen::inRange<int>(-2, 3)); }, [](const long &x) { return x >= -2 && x < 3; }, [](const long &x) { return x == -2; });
    t.template add<std::vector<bool>>("resize", [] { return gen::resize(2, gen::arbitrary<std::vector<bool>>()); }, [](const std::vector<bool> &v) { return v.size() <= 2; }, EmptyC());
    t.template add<std::vector<bool>>("scale", [] { return gen::scale(0.5, gen::arbitrary<std::vector<bool>>()); }, [](const std::vector<bool> &v) { return v.size() <= 3; }, EmptyC()).sizes = {0, 1, 2, 6};
    t.template add<std::pair<int, int>>("withSize", [] { return gen::withSize([](int s) { return gen::pair(gen::just(s), gen::inRange(0, 3)); }); }, [](const std::pair<int, int> &p) { return p.second >= 0 && p.second < 3; }, none);
    {
      auto &i = t.template add<int>("noShrink", [] { return gen::noShrink(gen::inRange(0, 5)); }, [](const int &x) { return x >= 0 && x < 5; }, none);
      i.shrinks = false;
      auto &j = t.template add<std::pair<int, int>>("noShrink inside pair", [] { return gen::pair(gen::noShrink(gen::inRange(0, 5)), gen::inRange(0, 3)); }, [](const std::pair<int, int> &p) { return p.first < 5 && p.second < 3; }, [](const std::pair<int, int> &p) { return p.second == 0; });
      (void)j;
      auto &k = t.template add<int>("shrink", [] {
        return gen::shrink(gen::element(12, 8, 3), [](int x) {
          std::vector<int> v;
          if (x > 2) v = {x / 2, x - 1};
          return seq::fromContainer(v);
        });
      }, [](const int &x) { return x >= 1 && x <= 12; }, [](const int &x) { return x <= 2; });
      (void)k;
    }
#endif
#if CAT_PART == 9
    // executed, constructed, built
    {
      auto &i = t.template add<std::pair<int, int>>("exec", [] {
        return gen::exec([] {
          int a = *gen::inRange(1, 5);
          int b = *gen::inRange(0, a);
          return std::make_pair(a, b);
        });
      }, [](const std::pair<int, int> &p) { return p.first >= 1 && p.first < 5 && p.second >= 0 && p.second < p.first; }, [](const std::pair<int, int> &p) { return p.first == 1 && p.second == 0; });
      i.distinct = false;
      i.sizes = {0, 3, 100};
      auto &j = t.template add<std::vector<int>>("exec loop", [] {
        return gen::exec([] {
          std::vector<int> v;
          while (*gen::arbitrary<bool>() && v.size() < 4) v.push_back(*gen::inRange<int>(0, 4));
          return v;
        });
      }, [](const std::vector<int> &v) { return v.size() <= 4; }, EmptyC());
      j.distinct = false;
      j.sizes = {0, 100};
      auto &k = t.template add<int>("exec with arguments", [] { return gen::exec([](bool b, unsigned char c) { return (b ? 1000 : 0) + c; }); }, [](const int &x) { return x >= 0 && x < 1256; }, [](const int &x) { return x == 0; });
      k.sizes = {0, 2, 5};
      k.distinct = false;
    }
    auto pt = [](const Pt &p) { return p.x >= 1 && p.x < 4 && p.y >= 5 && p.y < 8; };
    auto ptMin = [](const Pt &p) { return p.x == 1 && p.y == 5; };
    t.template add<Pt>("construct", [] { return gen::construct<Pt>(gen::inRange(1, 4), gen::inRange(5, 8)); }, pt, ptMin);
    t.template add<Pt>("build", [] { return gen::build<Pt>(gen::set(&Pt::x, gen::inRange(1, 4)), gen::set(&Pt::setY, gen::inRange(5, 8))); }, pt, ptMin);
    t.template add<Pt>("build multi", [] { return gen::build<Pt>(gen::set(&Pt::x, gen::inRange(1, 4)), gen::set(&Pt::setYZ, gen::tuple(gen::inRange(5, 8), gen::inRange(9, 11)))); },
        [=](const Pt &p) { return pt(p) && p.z >= 9 && p.z < 11; }, [=](const Pt &p) { return ptMin(p) && p.z == 9; });
    t.template add<Pt>("build on generated", [] { return gen::build(gen::construct<Pt>(gen::just(-1), gen::inRange(20, 23)), gen::set(&Pt::x, gen::inRange(1, 4))); }, [](const Pt &p) { return p.x >= 1 && p.x < 4 && p.y >= 20 && p.y < 23; }, [](const Pt &p) { return p.x == 1 && p.y == 20; });
    t.template add<std::unique_ptr<Pt>>("makeUnique", [] { return gen::makeUnique<Pt>(gen::inRange(1, 4), gen::inRange(5, 8)); }, [=](const std::unique_ptr<Pt> &p) { return p && pt(*p); }, [=](const std::unique_ptr<Pt> &p) { return ptMin(*p); });
    t.template add<std::shared_ptr<Pt>>("makeShared", [] { return gen::makeShared<Pt>(gen::inRange(1, 4), gen::inRange(5, 8)); }, [=](const std::shared_ptr<Pt> &p) { return p && pt(*p); }, [=](const std::shared_ptr<Pt> &p) { return ptMin(*p); });
    t.template add<std::unique_ptr<Pt>>("build unique_ptr", [] { return gen::build(gen::makeUnique<Pt>(), gen::set(&Pt::x, gen::inRange(1, 4)), gen::set(&Pt::setY, gen::inRange(5, 8))); }, [=](const std::unique_ptr<Pt> &p) { return p && pt(*p); }, [=](const std::unique_ptr<Pt> &p) { return ptMin(*p); });
    {
      auto &i = t.template add<std::chrono::milliseconds>("duration", [] { return gen::arbitrary<std::chrono::milliseconds>(); }, Any(), [](const std::chrono::milliseconds &d) { return d.count() == 0; });
      i.alphabet = kInts;
      i.points = 1;
      using TP = std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>;
      auto &j = t.template add<TP>("time point", [] { return gen::arbitrary<TP>(); }, Any(), [](const TP &d) { return d.time_since_epoch().count() == 0; });
      j.alphabet = kInts;
      j.points = 1;
    }
#endif
#if CAT_PART == 10
    // promises that cannot be met
    auto bad = [&](const char *name, auto make) {
      using T = typename decltype(make())::ValueType;
      auto &i = t.template add<T>(std::string("impossible ") + name, make, [](const T &) { return false; }, none);
      i.fails = Always;
      i.points = 3;
      i.sizes = {0, 1, 5, 100};
      i.alphabet = {1, 0, 5};
    };
    bad("elementOf nothing", [] { return gen::elementOf(std::vector<int>()); });
    bad("elementOf empty string", [] { return gen::elementOf(std::string()); });
    bad("elementOf empty set", [] { return gen::elementOf(std::set<int>()); });
    bad("sizedElementOf nothing", [] { return gen::sizedElementOf(std::vector<int>()); });
    bad("weights all zero", [] { return gen::weightedElement<int>({{0, 1}, {0, 2}}); });
    bad("no weights", [] { return gen::weightedElement<int>({}); });
    bad("weightedOneOf zero", [] { return gen::weightedOneOf<int>({{0, gen::just(1)}}); });
    bad("empty range", [] { return gen::inRange(3, 3); });
    bad("reversed range", [] { return gen::inRange(4, 1); });
    bad("reversed wide range", [] { return gen::inRange<long>(std::numeric_limits<long>::max(), std::numeric_limits<long>::min()); });
    bad("reversed unsigned range", [] { return gen::inRange<unsigned long>(kOnes, 0); });
    bad("suchThat false", [] { return gen::suchThat<int>([](int) { return false; }); });
    bad("nonEmpty of empty", [] { return gen::nonEmpty(gen::just(std::vector<int>())); });
    bad("distinctFrom only value", [] { return gen::distinctFrom(gen::just(4), 4); });
    bad("unique 4 of 3", [] { return gen::unique<std::vector<int>>(4, gen::inRange(0, 3)); });
    bad("uniqueBy 2 of 1 key", [] { return gen::uniqueBy<std::vector<int>>(2, gen::inRange(0, 9), [](int) { return 0; }); });
    bad("set of 4 from 3", [] { return gen::container<std::set<int>>(4, gen::inRange(0, 3)); });
    bad("unordered_set of 2 from 1", [] { return gen::container<std::unordered_set<int>>(2, gen::just(1)); });
    bad("map of 3 from 2 keys", [] { return gen::container<std::map<bool, int>>(3, gen::arbitrary<bool>(), gen::just(0)); });
    bad("map with failing values", [] { return gen::container<std::map<int, int>>(1, gen::just(1), gen::inRange(1, 1)); });
    bad("vector of impossible", [] { return gen::container<std::vector<int>>(1, gen::inRange(1, 1)); });
    bad("array of impossible", [] { return gen::container<std::array<int, 2>>(gen::inRange(1, 1)); });
    bad("pair with impossible", [] { return gen::pair(gen::just(1), gen::inRange(1, 1)); });
    bad("map of impossible", [] { return gen::map(gen::inRange(1, 1), [](int x) { return x; }); });
    bad("mapcat to impossible", [] { return gen::mapcat(gen::inRange(0, 4), [](int) { return gen::inRange(1, 1); }); });
    bad("exec with impossible", [] { return gen::exec([] { return *gen::inRange(0, 4) + *gen::inRange(1, 1); }); });
    bad("construct with impossible", [] { return gen::construct<Pt>(gen::inRange(1, 1), gen::just(1)); });
    bad("build with impossible", [] { return gen::build<Pt>(gen::set(&Pt::x, gen::inRange(1, 1))); });
    bad("oneOf impossible", [] { return gen::oneOf(gen::inRange(1, 1), gen::inRange(3, 2)); });
#endif
#if CAT_PART == 11
    // long values: lengths around the size limit, elements following a pattern
    auto large = [&](auto &i) {
      i.large = true;
      i.sizes = {33, 100};
      i.alphabet = {100, 33, 64};
      i.points = 1;
    };
    auto lseq = [&](auto proto, const char *name, bool keyed) {
      using C = decltype(proto);
      auto ok = in(10, 500);
      auto &i = t.template add<C>(std::string("large ") + name, [] { return gen::container<C>(gen::inRange(10, 500)); }, [=](const C &c) { return std::distance(c.begin(), c.end()) <= 100 && all(c, ok); }, EmptyC());
      i.fails = keyed ? Sometimes : Never;
      large(i);
      for (size_t n : {16u, 33u, 65u, 130u}) {
        auto &j = t.template add<C>(std::string("large fixed ") + std::to_string(n) + name, [=] { return gen::container<C>(n, gen::inRange(10, 500)); }, [=](const C &c) { return sizeIs(c, n) && all(c, ok); }, none);
        j.fails = keyed ? Sometimes : Never;
        large(j);
        j.sizes = {50, 100};
      }
    };
    lseq(std::vector<int>(), "vector", false);
    lseq(std::list<int>(), "list", false);
    lseq(std::set<int>(), "set", true);
    lseq(std::unordered_set<int>(), "unordered_set", true);
    lseq(std::unordered_multiset<int>(), "unordered_multiset", false);
    auto lmap = [&](auto proto, const char *name) {
      using C = decltype(proto);
      auto okEl = [](const C &c) {
        for (auto &p : c)
          if (p.first < 0 || p.first >= 400 || p.second < 10 || p.second >= 13) return false;
        return c.size() <= 100;
      };
      auto &i = t.template add<C>(std::string("large ") + name, [] { return gen::container<C>(gen::inRange(0, 400), gen::inRange(10, 13)); }, okEl, EmptyC());
      i.fails = Sometimes;
      large(i);
      auto &j = t.template add<C>(std::string("large fixed ") + name, [] { return gen::container<C>(40, gen::inRange(0, 400), gen::inRange(10, 13)); }, [=](const C &c) { return okEl(c) && sizeIs(c, 40); }, none);
      j.fails = Sometimes;
      large(j);
    };
    lmap(std::map<int, int>(), "map");
    lmap(std::unordered_map<int, int>(), "unordered_map");
    lmap(std::multimap<int, int>(), "multimap");
    {
      auto distinctBy = [](const std::vector<int> &v, int mod) {
        std::set<int> keys;
        for (int x : v)
          if (x < 0 || x >= 300 || !keys.insert(x % mod).second) return false;
        return true;
      };
      auto &i = t.template add<std::vector<int>>("large unique", [] { return gen::unique<std::vector<int>>(gen::inRange(0, 300)); }, [=](const std::vector<int> &v) { return v.size() <= 100 && distinctBy(v, 300); }, EmptyC());
      i.fails = Sometimes;
      large(i);
      auto &j = t.template add<std::vector<int>>("large uniqueBy", [] { return gen::uniqueBy<std::vector<int>>(30, gen::inRange(0, 300), [](int x) { return x % 70; }); }, [=](const std::vector<int> &v) { return v.size() == 30 && distinctBy(v, 70); }, none);
      j.fails = Sometimes;
      large(j);
      auto noNul = [](const std::string &s) { return s.size() <= 100 && s.find('\0') == std::string::npos; };
      auto &k = t.template add<std::string>("large string", [] { return gen::string<std::string>(); }, noNul, EmptyC());
      large(k);
      auto &w = t.template add<std::wstring>("large wstring", [] { return gen::string<std::wstring>(); }, [](const std::wstring &s) { return s.size() <= 100 && s.find(L'\0') == std::wstring::npos; }, EmptyC());
      large(w);
      auto &c = t.template add<std::string>("large container string", [] { return gen::container<std::string>(gen::elementOf(std::string("abcdefg"))); }, [](const std::string &s) { return s.size() <= 100 && all(s, [](char x) { return x >= 'a' && x <= 'g'; }); }, EmptyC());
      large(c);
      auto &a = t.template add<std::array<int, 70>>("large array", [] { return gen::container<std::array<int, 70>>(gen::inRange(2, 6)); }, [=](const std::array<int, 70> &x) { return all(x, in(2, 6)); }, [=](const std::array<int, 70> &x) { return all(x, in(2, 3)); });
      large(a);
      auto &n = t.template add<std::vector<std::vector<bool>>>("large nested vector", [] { return gen::arbitrary<std::vector<std::vector<bool>>>(); }, [](const std::vector<std::vector<bool>> &v) { return v.size() <= 100 && all(v, [](const std::vector<bool> &x) { return x.size() <= 100; }); }, EmptyC());
      large(n);
      n.sizes = {10, 20, 30};
      auto numbers = [] {
        std::vector<int> v;
        for (int x = 0; x < 300; x++) v.push_back(1000 - x);
        return v;
      }();
      auto from = [](const int &x) { return x > 700 && x <= 1000; };
      auto &e = t.template add<int>("elementOf 300", [=] { return gen::elementOf(numbers); }, from, none);
      large(e);
      auto &z = t.template add<int>("sizedElementOf 300", [=] { return gen::sizedElementOf(numbers); }, from, [](const int &x) { return x == 1000; });
      large(z);
      auto &x = t.template add<std::vector<int>>("large exec", [] {
        return gen::exec([] {
          int n = *gen::inRange(20, 50);
          std::vector<int> v;
          for (int i = 0; i < n; i++) v.push_back(*gen::inRange(i, i + 10));
          return v;
        });
      }, [](const std::vector<int> &v) {
        for (size_t i = 0; i < v.size(); i++)
          if (v[i] < (int)i || v[i] >= (int)i + 10) return false;
        return v.size() >= 20 && v.size() < 50;
      }, [](const std::vector<int> &v) {
        for (size_t i = 0; i < v.size(); i++)
          if (v[i] != (int)i) return false;
        return v.size() == 20;
      });
      x.distinct = false;
      large(x);
    }
#endif
    return t.entries;
  }();
  return entries;
}

inline void script(const std::vector<uint64_t> &alphabet, int points) {
  vcr::Script s;
  s.alphabet = alphabet;
  s.maxPoints = points;
  vcr::reset(s);
}
// The draws for one catalogue entry; large values follow one of several arithmetic progressions after the first draws.
template <typename T>
void script(const Info<T> &info, int more) {
  if (!info.large) return script(info.alphabet, info.points + more);
  static const std::vector<std::pair<uint64_t, uint64_t>> patterns = {{0, 1}, {3, 7}, {0x0101010101010101ULL, 0x0102030405060708ULL}, {1000, kOnes}};
  auto p = patterns[vc::pick((int)patterns.size(), "pattern")];
  vcr::Script s;
  s.alphabet = info.alphabet;
  s.maxPoints = info.points;
  s.fill = p.first;
  s.stride = p.second;
  vcr::reset(s);
}
} // namespace cat
