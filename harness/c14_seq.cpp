#include <numeric>
// C14: sequences against lists; handles with value semantics.
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/seq/Operations.h"
#include "rapidcheck/seq/SeqIterator.h"
#include <deque>
#include <list>
#include <set>

using namespace rc;
using V = std::vector<int>;

namespace {
struct E {
  Seq<int> s;
  V v;
  std::string d;
};

V drain(Seq<int> s, size_t limit = 200) {
  V o;
  while (auto x = s.next()) {
    o.push_back(*x);
    if (o.size() > limit) vc::fail("sequence does not end");
  }
  VC_CHECK(!s.next() && !s.next(), "ended sequence yields again");
  vc::step(o.size() + 3);
  return o;
}

struct Boom {};

// Counts down and throws instead of yielding element `at`.
struct ThrowingSeq {
  int i, at, n;
  Maybe<int> operator()() {
    if (i == at) throw Boom();
    if (i >= n) return Nothing;
    return i++;
  }
};
struct StdThrowingSeq {
  int i;
  Maybe<int> operator()() {
    if (i == 2) throw std::runtime_error("x");
    return i++;
  }
};

E leaf(int which) {
  switch (which) {
  case 0: return {Seq<int>(), {}, "empty"};
  case 1: return {Seq<int>(Nothing), {}, "nothing"};
  case 2: return {seq::just(4), {4}, "just(4)"};
  case 3: return {seq::just(1, 2, 3), {1, 2, 3}, "just(1,2,3)"};
  case 4: return {seq::fromContainer(V{}), {}, "fromContainer[]"};
  case 5: return {seq::fromContainer(V{3, 1, 3, 2}), {3, 1, 3, 2}, "fromContainer[3132]"};
  case 6: return {seq::range(0, 3), {0, 1, 2}, "range(0,3)"};
  case 7: return {seq::range(2, -1), {2, 1, 0}, "range(2,-1)"};
  case 8: return {seq::range(5, 5), {}, "range(5,5)"};
  case 9: return {seq::fromContainer(std::list<int>{7, 8}), {7, 8}, "list[78]"};
  case 10: return {seq::fromContainer(std::set<int>{2, 1, 0}), {0, 1, 2}, "set[012]"};
  case 11: {
    V v{5, 6};
    return {seq::fromIteratorRange(v.begin(), v.end()), {5, 6}, "iterators[56]"};
  }
  case 12: return {seq::take(3, seq::iterate(1, [](int x) { return x * 2; })), {1, 2, 4}, "take3(iterate)"};
  case 13: return {seq::take(2, seq::repeat(9)), {9, 9}, "take2(repeat9)"};
  case 14: return {makeSeq<ThrowingSeq>(ThrowingSeq{0, 2, 5}), {0, 1}, "throws at 2"};
  case 15: return {Seq<int>(StdThrowingSeq{0}), {0, 1}, "throws at 2 (std)"};
  case 16: return {makeSeq<ThrowingSeq>(ThrowingSeq{0, 0, 5}), {}, "throws at once"};
  case 17: return {seq::fromContainer(std::deque<int>{1, 0, 1}), {1, 0, 1}, "deque[101]"};
  case 18: return {seq::cast<int>(seq::take(3, seq::index())), {0, 1, 2}, "take3(index)"};
  case 19: {
    const V v{0, 2};
    return {seq::fromContainer(v), {0, 2}, "const[02]"};
  }
  }
  return {};
}
constexpr int kLeaves = 20;
constexpr int kUnary = 27;
constexpr int kBinary = 8;

bool odd(int x) { return x % 2 != 0; }

E unary(int which, E e) {
  V o;
  auto &v = e.v;
  auto fromSeq = [&](Seq<int> s, std::string name) { return E{std::move(s), o, name + "(" + e.d + ")"}; };
  switch (which) {
  case 0: case 1: case 2: case 3: {
    size_t n = which;
    o.assign(v.begin() + std::min(n, v.size()), v.end());
    return fromSeq(seq::drop(n, e.s), "drop" + std::to_string(n));
  }
  case 4: case 5: case 6: case 7: {
    size_t n = which - 4;
    o.assign(v.begin(), v.begin() + std::min(n, v.size()));
    return fromSeq(seq::take(n, e.s), "take" + std::to_string(n));
  }
  case 8: case 9: case 10: {
    auto p = [which](int x) { return which == 8 ? odd(x) : which == 9 ? !odd(x) : x != 2; };
    size_t i = 0;
    while (i < v.size() && p(v[i])) i++;
    o.assign(v.begin() + i, v.end());
    return fromSeq(seq::dropWhile(e.s, p), "dropWhile");
  }
  case 11: case 12: case 13: {
    auto p = [which](int x) { return which == 11 ? odd(x) : which == 12 ? !odd(x) : x != 2; };
    for (int x : v) {
      if (!p(x)) break;
      o.push_back(x);
    }
    return fromSeq(seq::takeWhile(e.s, p), "takeWhile");
  }
  case 14: for (int x : v) o.push_back(x * 10 + 1); return fromSeq(seq::map(e.s, [](int x) { return x * 10 + 1; }), "map");
  case 15: for (int x : v) if (odd(x)) o.push_back(x); return fromSeq(seq::filter(e.s, odd), "filter odd");
  case 16: for (int x : v) if (x == 2) o.push_back(x); return fromSeq(seq::filter(e.s, [](int x) { return x == 2; }), "filter 2");
  case 17: return fromSeq(seq::filter(e.s, [](int) { return false; }), "filter none");
  case 18: // flat map: x copies of x (0..3)
    for (int x : v) for (int i = 0; i < x % 4; i++) o.push_back(x);
    return fromSeq(seq::mapcat(e.s, [](int x) { return seq::take((size_t)(((x % 4) + 4) % 4 == x % 4 ? x % 4 : 0), seq::repeat(x)); }), "mapcat");
  case 19: for (int x : v) if (odd(x)) o.push_back(x + 1);
    return fromSeq(seq::mapMaybe(e.s, [](int x) { return odd(x) ? Maybe<int>(x + 1) : Maybe<int>(); }), "mapMaybe");
  case 20: for (int x : v) o.push_back((int)(short)x); return fromSeq(seq::cast<int>(seq::cast<short>(e.s)), "cast");
  case 21: if (v.empty()) return e; // cycling an empty sequence never yields
    for (size_t i = 0; i < 5; i++) o.push_back(v[i % v.size()]);
    return fromSeq(seq::take(5, seq::cycle(e.s)), "take5(cycle)");
  case 22: for (int x : v) { if (x == 2) break; o.push_back(x); } // mapper throws on 2
    return fromSeq(seq::map(e.s, [](int x) { if (x == 2) throw Boom(); return x; }), "map throws on 2");
  case 23: for (int x : v) { if (x == 2) break; if (odd(x)) o.push_back(x); }
    return fromSeq(seq::filter(e.s, [](int x) -> bool { if (x == 2) throw Boom(); return odd(x); }), "filter throws on 2");
  case 24: for (int x : v) { o.push_back(x); o.push_back(x); }
    return fromSeq(seq::join(seq::map(e.s, [](int x) { return seq::just(x, x); })), "join(map dup)");
  case 25: o = v; { Seq<int> t; t = e.s; return fromSeq(std::move(t), "assigned"); }
  case 26: o = v; { Seq<int> t(std::move(e.s)); return fromSeq(t, "moved"); }
  }
  return e;
}
E binary(int which, E a, E b) {
  V o;
  auto &x = a.v;
  auto &y = b.v;
  auto mk = [&](Seq<int> s, std::string n) { return E{std::move(s), o, n + "(" + a.d + "," + b.d + ")"}; };
  size_t m = std::min(x.size(), y.size());
  switch (which) {
  case 0: o = x; o.insert(o.end(), y.begin(), y.end()); return mk(seq::concat(a.s, b.s), "concat");
  case 1: for (size_t i = 0; i < m; i++) o.push_back(x[i] * 100 + y[i]); return mk(seq::zipWith([](int p, int q) { return p * 100 + q; }, a.s, b.s), "zip");
  case 2: o = x; o.insert(o.end(), y.begin(), y.end()); o.insert(o.end(), x.begin(), x.end());
    return mk(seq::concat(a.s, b.s, a.s), "concat3");
  case 3: o = x; o.insert(o.end(), y.begin(), y.end());
    return mk(seq::join(seq::fromContainer(std::vector<Seq<int>>{a.s, b.s})), "join");
  case 4: o = y; o.insert(o.end(), x.begin(), x.end());
    return mk(seq::join(seq::just(Seq<int>(), b.s, Seq<int>(), a.s, Seq<int>())), "join with empties");
  case 5: for (size_t i = 0; i < m; i++) o.push_back(x[i] + y[i] + (int)i); 
    return mk(seq::zipWith([](int p, int q, std::size_t i) { return p + q + (int)i; }, a.s, b.s, seq::index()), "zip3");
  case 6: { // for each of a, all of b
    for (int p : x) for (int q : y) o.push_back(p * 10 + q);
    auto bs = b.s;
    return mk(seq::mapcat(a.s, [bs](int p) { return seq::map(bs, [p](int q) { return p * 10 + q; }); }), "product");
  }
  case 7: { // assigning over a partly consumed sequence
    o = y;
    Seq<int> t = a.s;
    t.next();
    t = b.s;
    return mk(t, "overwritten");
  }
  }
  return a;
}

void checkExpr(const E &e) {
  vc::note(e.d);
  auto got = drain(e.s);
  VC_CHECK(got == e.v, e.d << " yields " << vc::strv(got) << " expected " << vc::strv(e.v));
  // copies at every position
  Seq<int> s = e.s;
  for (size_t i = 0; i <= e.v.size(); i++) {
    Seq<int> c = s;
    V want(e.v.begin() + i, e.v.end());
    auto rest = drain(c);
    VC_CHECK(rest == want, "copy of " << e.d << " after " << i << " elements yields " << vc::strv(rest) << " expected " << vc::strv(want));
    auto x = s.next();
    VC_CHECK(!!x == (i < e.v.size()) && (!x || *x == e.v[i]), e.d << " disturbed by its copy at " << i);
  }
  // an ended sequence can be copied and assigned
  Seq<int> c = s, t = e.s;
  VC_CHECK(!c.next(), "copy of an ended sequence yields");
  t = s;
  VC_CHECK(!t.next(), "assigned from an ended sequence but yields");
  vc::matched();
  vc::state(e.d);
  vc::outcome(vc::strv(e.v));
  vc::sample(e.d + " = " + vc::strv(e.v));
}
} // namespace

VC_SUITE(leaves, 1) { checkExpr(leaf(vc::pick(kLeaves))); }
VC_SUITE(depth2, 1) {
  E e = leaf(vc::pick(kLeaves));
  int u = vc::pick(kUnary);
  checkExpr(unary(u, std::move(e)));
}
VC_SUITE(depth3, 1) {
  E e = leaf(vc::pick(kLeaves));
  e = unary(vc::pick(kUnary), std::move(e));
  checkExpr(unary(vc::pick(kUnary), std::move(e)));
}
VC_SUITE(binary2, 1) {
  int w = vc::pick(kBinary);
  E a = leaf(vc::pick(kLeaves)), b = leaf(vc::pick(kLeaves));
  checkExpr(binary(w, a, b));
}
VC_SUITE(binaryUnary, 2) {
  int l = vc::pick(kLeaves);
  int w = vc::pick(kBinary);
  E a = leaf(l), b = leaf(vc::pick(kLeaves));
  int u = vc::pick(vc::thorough() ? kUnary : 0 + kUnary);
  checkExpr(unary(u, binary(w, a, b)));
}
VC_SUITE(unaryBinary, 4) {
  int l = vc::pick(kLeaves);
  int u = vc::pick(kUnary);
  int w = vc::pick(kBinary);
  E a = unary(u, leaf(l));
  E b = leaf(vc::pick(kLeaves));
  checkExpr(vc::pick(2) ? binary(w, a, b) : binary(w, b, a));
}
VC_SUITE(depth4, 8) {
  int l = vc::pick(kLeaves);
  if (!vc::thorough() && l != 5 && l != 3 && l != 0 && l != 14) return;
  E e = leaf(l);
  e = unary(vc::pick(kUnary), std::move(e));
  e = unary(vc::pick(kUnary), std::move(e));
  checkExpr(unary(vc::pick(kUnary), std::move(e)));
}

// --- handles -----------------------------------------------------------------------------------------
// Three handles; operations next, copy-assign, move-assign, copy-construct-and-swap, self assignment, reset to a source.
namespace {
struct Slot {
  Seq<int> s;
  V v;        // remaining elements
  bool known = true; // false after being moved from (only assignment allowed then)
};
void handles(int depth, int nh, std::vector<int> sources, bool exprs) {
  std::vector<Slot> h(nh);
  int src = vc::pick((int)sources.size());
  E e = leaf(sources[src]);
  if (exprs) {
    int u = vc::pick(kUnary + 1);
    if (u < kUnary) e = unary(u, e);
  }
  h[0] = {e.s, e.v, true};
  std::string log = e.d;
  for (int i = 0; i < depth; i++) {
    int a = vc::pick(nh);
    int op = vc::pick(6);
    int b = (op >= 1 && op <= 3) ? vc::pick(nh) : 0;
    Slot &x = h[a], &y = h[b];
    switch (op) {
    case 0: {
      if (!x.known) return;
      auto n = x.s.next();
      log += " next" + std::to_string(a);
      VC_CHECK(!!n == !x.v.empty(), log << ": " << (n ? "an element" : "no element") << " but " << x.v.size() << " remain");
      if (n) {
        VC_CHECK(*n == x.v.front(), log << ": got " << *n << " expected " << x.v.front());
        x.v.erase(x.v.begin());
      }
      break;
    }
    case 1:
      if (!y.known) return;
      log += " " + std::to_string(a) + "=copy" + std::to_string(b);
      x.s = y.s;
      x.v = y.v;
      x.known = true;
      break;
    case 2:
      if (!y.known || a == b) return;
      log += " " + std::to_string(a) + "=move" + std::to_string(b);
      x.s = std::move(y.s);
      x.v = y.v;
      x.known = true;
      y.known = false;
      break;
    case 3: {
      if (!y.known) return;
      log += " " + std::to_string(a) + "=Seq(copy" + std::to_string(b) + ")";
      Seq<int> t(y.s);
      V tv = y.v;
      x.s = std::move(t);
      x.v = tv;
      x.known = true;
      break;
    }
    case 4:
      log += " " + std::to_string(a) + "=source";
      x.s = e.s;
      x.v = e.v;
      x.known = true;
      break;
    case 5:
      log += " " + std::to_string(a) + "=empty";
      x.s = Seq<int>();
      x.v.clear();
      x.known = true;
      break;
    }
    vc::step();
  }
  for (int a = 0; a < nh; a++)
    if (h[a].known) {
      auto got = drain(h[a].s);
      VC_CHECK(got == h[a].v, log << ": handle " << a << " has " << vc::strv(got) << " left, expected " << vc::strv(h[a].v));
    }
  VC_CHECK(drain(e.s) == e.v, log << ": source disturbed");
  vc::matched();
  std::string st = e.d;
  for (auto &x : h) st += x.known ? vc::strv(x.v) : "?";
  vc::state(st);
  vc::sample(log);
}
} // namespace
VC_SUITE(handles2, 4) {
  handles(vc::thorough() ? 5 : 4, 2, {0, 2, 3, 5, 7, 9, 10, 11, 12, 14, 16}, false);
}
VC_SUITE(handles3, 4) { handles(vc::thorough() ? 4 : 3, 3, {0, 3, 5, 9, 14}, false); }
VC_SUITE(handlesExpr, 8) { handles(3, 2, {3, 5, 9, 14, 10, 6, 12, 0}, true); }

// --- operations --------------------------------------------------------------------------------------
VC_SUITE(operations, 1) {
  int l = vc::pick(kLeaves);
  int u = vc::pick(kUnary + 1);
  E e = leaf(l);
  if (u < kUnary) e = unary(u, std::move(e));
  vc::note(e.d);
  auto &v = e.v;
  VC_CHECK(seq::length(e.s) == v.size(), "length of " << e.d);
  V each;
  seq::forEach(e.s, [&](int x) { each.push_back(x); });
  VC_CHECK(each == v, "forEach of " << e.d);
  auto last = seq::last(e.s);
  VC_CHECK(!!last == !v.empty() && (!last || *last == v.back()), "last of " << e.d);
  for (int x = -1; x < 10; x++) {
    VC_CHECK(seq::contains(e.s, x) == (std::count(v.begin(), v.end(), x) > 0), "contains " << x << " in " << e.d);
    VC_CHECK(seq::all(e.s, [x](int y) { return y != x; }) == (std::count(v.begin(), v.end(), x) == 0), "all != " << x << " in " << e.d);
    VC_CHECK(seq::any(e.s, [x](int y) { return y == x; }) == (std::count(v.begin(), v.end(), x) > 0), "any == " << x << " in " << e.d);
  }
  for (size_t i = 0; i <= v.size() + 2; i++) {
    auto x = seq::at(e.s, i);
    VC_CHECK(!!x == (i < v.size()) && (!x || *x == v[i]), "at " << i << " of " << e.d);
  }
  VC_CHECK(!seq::at(e.s, (size_t)-1), "at the largest index");
  for (size_t n : {(size_t)-1, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)-1 >> 1}) {
    VC_CHECK(drain(seq::take(n, e.s)) == v, "take " << n << " of " << e.d);
    VC_CHECK(drain(seq::drop(n, e.s)).empty(), "drop " << n << " of " << e.d);
    VC_CHECK(!seq::at(e.s, n), "at " << n << " of " << e.d);
  }
  V it;
  for (auto i = begin(e.s); i != end(e.s); ++i) it.push_back(*i);
  VC_CHECK(it == v, "iteration over " << e.d);
  V it2;
  for (int x : e.s) it2.push_back(x);
  VC_CHECK(it2 == v, "range-for over " << e.d);
  V it3;
  for (auto i = begin(e.s); i != end(e.s);) {
    auto j = i++;
    it3.push_back(*j);
  }
  VC_CHECK(it3 == v, "post-increment iteration over " << e.d);
  std::string txt = "[";
  for (size_t i = 0; i < v.size(); i++) txt += (i ? ", " : "") + std::to_string(v[i]);
  txt += "]";
  VC_CHECK(vc::str(e.s) == txt, "printed as " << vc::str(e.s) << " expected " << txt);
  VC_CHECK(drain(e.s) == v, "operations disturbed " << e.d);
  vc::matched(10);
  vc::step(50);
  vc::state(e.d);
}
// Sequences of any length: counting, positions and ends are not limited to small numbers.
VC_SUITE(lengths, 8) {
  static const int N[] = {0, 1, 31, 32, 33, 100, 127, 128, 129, 255, 256, 257, 1000, 4097, 32767, 32768, 65535, 65536, 65537, 100000};
  int n = N[vc::pick(20)], k = N[vc::pick(20)], op = vc::pick(12);
  auto s = op == 11 ? [n] { std::vector<int> v(n); std::iota(v.begin(), v.end(), 0); return seq::fromContainer(std::move(v)); }() : seq::range(0, n);
  std::vector<int> want;
  auto upTo = [&](int a, int b, int mul, int add) { for (int i = a; i < b; i++) want.push_back(i * mul + add); };
  switch (op) {
  case 0: s = seq::take(k, s); upTo(0, std::min(n, k), 1, 0); break;
  case 1: s = seq::drop(k, s); upTo(std::min(n, k), n, 1, 0); break;
  case 2: s = seq::takeWhile(s, [k](int x) { return x < k; }); upTo(0, std::min(n, k), 1, 0); break;
  case 3: s = seq::dropWhile(s, [k](int x) { return x < k; }); upTo(std::min(n, k), n, 1, 0); break;
  case 4: s = seq::filter(s, [k](int x) { return x >= k; }); upTo(std::min(n, k), n, 1, 0); break;
  case 5: s = seq::concat(s, seq::range(0, k)); upTo(0, n, 1, 0); upTo(0, k, 1, 0); break;
  case 6: s = seq::zipWith([](int a, int b) { return a * 2 + b; }, s, seq::range(0, k)); upTo(0, std::min(n, k), 3, 0); break;
  case 7: s = seq::mapcat(s, [k](int x) { return x == k || x == 0 ? seq::just(x, -1) : Seq<int>(); }); if (n > 0) want = {0, -1}; if (k && k < n) want.push_back(k), want.push_back(-1); break;
  case 8: s = seq::mapMaybe(s, [k](int x) { return x % 2 ? Maybe<int>(x + k) : Maybe<int>(); }); for (int i = 1; i < n; i += 2) want.push_back(i + k); break;
  case 9: s = seq::take(k, n ? seq::cycle(s) : s); for (int i = 0; i < k && n; i++) want.push_back(i % n); break;
  case 10: s = seq::join(seq::map(seq::range(0, n), [k](int x) { return x < k ? seq::just(x) : Seq<int>(); })); upTo(0, std::min(n, k), 1, 0); break;
  case 11: upTo(0, n, 1, 0); break;
  }
  std::string d = "operation " + std::to_string(op) + " on " + std::to_string(n) + " elements with " + std::to_string(k);
  VC_CHECK(seq::length(s) == want.size(), d << ": length " << seq::length(s) << " instead of " << want.size());
  auto l = seq::last(s);
  VC_CHECK(!!l == !want.empty() && (!l || *l == want.back()), d << ": last");
  for (int i : N) {
    if (i > 300 && op != 0 && op != 5 && op != 11) break;
    auto x = seq::at(s, i);
    VC_CHECK(!!x == ((size_t)i < want.size()) && (!x || *x == want[i]), d << ": element " << i);
  }
  auto c = s;
  for (size_t i = 0; i < want.size(); i++) {
    auto x = c.next();
    VC_CHECK(x && *x == want[i], d << ": element " << i);
    if (i == want.size() / 2) { auto c2 = c; c = std::move(c2); }
  }
  VC_CHECK(!c.next() && !c.next(), d << ": does not end");
  vc::matched();
  vc::step(want.size());
  vc::state(d);
}
VC_SUITE(equality, 1) {
  E a = leaf(vc::pick(kLeaves)), b = leaf(vc::pick(kLeaves));
  int u = vc::pick(kUnary);
  a = unary(u, a);
  VC_CHECK((a.s == b.s) == (a.v == b.v), a.d << " == " << b.d);
  VC_CHECK((a.s != b.s) == (a.v != b.v), a.d << " != " << b.d);
  VC_CHECK((b.s == a.s) == (a.v == b.v), b.d << " == " << a.d);
  VC_CHECK(drain(a.s) == a.v && drain(b.s) == b.v, "comparison disturbed its arguments");
  vc::matched(3);
  vc::step(3);
  vc::state(a.d + b.d);
}
namespace {
template <typename T>
void ranges(T lo, int span) {
  T a = T(lo + T(vc::pick(span))), b = T(lo + T(vc::pick(span)));
  auto s = seq::range<T>(a, b);
  std::vector<T> got, want;
  for (T x = a; x != b; x = a < b ? T(x + 1) : T(x - 1)) want.push_back(x);
  while (auto x = s.next()) {
    got.push_back(*x);
    VC_CHECK(got.size() <= want.size(), "range yields too much");
  }
  VC_CHECK(got == want, "range(" << +a << "," << +b << ")");
  VC_CHECK(!s.next(), "range continues");
  vc::matched();
  vc::step(got.size());
  vc::state(vc::str(+a) + ":" + vc::str(+b));
}
} // namespace
VC_SUITE(rangeInt8, 1) { ranges<signed char>(-128, 256); }
VC_SUITE(rangeU8, 1) { ranges<unsigned char>(0, 256); }
VC_SUITE(rangeIntMin, 1) { ranges<int>(INT32_MIN, 12); }
VC_SUITE(rangeIntMax, 1) { ranges<int>(INT32_MAX - 11, 12); }
VC_SUITE(rangeU64Max, 1) { ranges<uint64_t>(UINT64_MAX - 11, 12); }
VC_SUITE(subranges, 1) {
  size_t a = vc::pick(6), n = vc::pick(9);
  auto s = seq::subranges(a, a + n);
  std::vector<std::pair<size_t, size_t>> got, want;
  for (size_t len = n; len >= 1; len--)
    for (size_t i = a; i + len <= a + n; i++) want.push_back({i, i + len});
  while (auto x = s.next()) got.push_back(*x);
  VC_CHECK(got == want, "subranges(" << a << "," << a + n << ")");
  vc::matched();
  vc::step(got.size() + 1);
  vc::state(a * 100 + n);
}

// Sequences of handles (shrinkables, generators, strings): an element that has been handed out must not
// disturb copies of the rest.
namespace {
Shrinkable<int> elem(int i, Shrinkable<int> *) { return shrinkable::just(i); }
Gen<int> elem(int i, Gen<int> *) { return gen::just(i); }
std::string elem(int i, std::string *) { return std::string(30, char('a' + i)); }
std::shared_ptr<int> elem(int i, std::shared_ptr<int> *) { return std::make_shared<int>(i); }
int num(const Shrinkable<int> &s) { return s.value(); }
int num(const Gen<int> &g) { return g(Random(1), 1).value(); }
int num(const std::string &s) { return s.size() == 30 ? s[0] - 'a' : -1; }
int num(const std::shared_ptr<int> &p) { return p ? *p : -1; }

template <typename T>
void handles() {
  T *tag = nullptr;
  auto make = [&](int how) -> Seq<T> {
    switch (how) {
    case 0: return seq::just(elem(0, tag), elem(1, tag), elem(2, tag));
    case 1: return seq::fromContainer(std::vector<T>{elem(0, tag), elem(1, tag), elem(2, tag)});
    case 2: return seq::fromContainer(std::list<T>{elem(0, tag), elem(1, tag), elem(2, tag)});
    case 3: return seq::concat(seq::just(elem(0, tag)), seq::map(seq::just(1, 2), [=](int x) { return elem(x, tag); }));
    case 4: return seq::drop(1, seq::just(elem(3, tag), elem(0, tag), elem(1, tag), elem(2, tag)));
    default: return seq::filter(seq::fromContainer(std::deque<T>{elem(3, tag), elem(0, tag), elem(1, tag), elem(2, tag)}), [](const T &x) { return num(x) != 3; });
    }
  };
  struct H {
    Seq<T> s;
    int at;
  };
  std::vector<H> h;
  h.push_back({make(vc::pick(6, "sequence")), 0});
  h.push_back({Seq<T>(), 3});
  std::string hist;
  int n = vc::thorough() ? 7 : 6;
  for (int i = 0; i < n; i++) {
    int op = vc::pick(6, "operation");
    int a = op & 1, b = 1 - a;
    hist += "nNcCmM"[op];
    vc::step();
    if (op < 2) {
      auto x = h[a].s.next();
      VC_CHECK(bool(x) == (h[a].at < 3), "history " << hist << ": wrong end");
      if (x) {
        VC_CHECK(num(*x) == h[a].at, "history " << hist << ": yields " << num(*x) << " instead of " << h[a].at);
        h[a].at++;
      }
    } else if (op < 4) {
      h[a].s = h[b].s;
      h[a].at = h[b].at;
    } else {
      h[a].s = std::move(h[b].s);
      h[a].at = h[b].at;
      h[b].s = Seq<T>();
      h[b].at = 3;
    }
  }
  for (auto &x : h) {
    Seq<T> c(x.s);
    for (int k = x.at; k < 3; k++) {
      auto e = c.next();
      VC_CHECK(e && num(*e) == k, "history " << hist << ": copy of the rest loses element " << k);
    }
    VC_CHECK(!c.next(), "history " << hist << ": copy does not end");
  }
  vc::matched();
  vc::state(hist);
  vc::outcome(std::to_string(h[0].at) + std::to_string(h[1].at));
}
} // namespace
VC_SUITE(handles, 4, {}) {
  switch (vc::pick(4, "element type")) {
  case 0: handles<Shrinkable<int>>(); break;
  case 1: handles<Gen<int>>(); break;
  case 2: handles<std::string>(); break;
  case 3: handles<std::shared_ptr<int>>(); break;
  }
}
