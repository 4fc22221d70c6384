// C15: shrinkable transformations against a reference tree algebra, on every ordered tree up to a node bound.
#include "vc.h"
#include "tree.h"
#include "rapidcheck.h"
#include "rapidcheck/shrinkable/Operations.h"
#include "rapidcheck/shrinkable/Transform.h"
#include "rapidcheck/seq/Operations.h"

using namespace rc;
using vt::Tree;

namespace {
template <typename T, typename Enc>
Tree readEnc(const Shrinkable<T> &s, Enc enc, int &budget, int order) {
  Tree t;
  if (--budget < 0) vc::fail("shrink tree larger than expected");
  vc::step();
  if (order == 0) { // value first
    t.id = enc(s.value());
    auto q = s.shrinks();
    while (auto k = q.next()) t.kids.push_back(readEnc(*k, enc, budget, order));
  } else if (order == 1) { // shrinks first, all of them before descending
    std::vector<Shrinkable<T>> v;
    auto q = s.shrinks();
    while (auto k = q.next()) {
      v.push_back(*k);
      if ((int)v.size() > budget + 1) vc::fail("shrink list longer than expected");
    }
    q = Seq<Shrinkable<T>>();
    for (auto &k : v) t.kids.push_back(readEnc(k, enc, budget, order));
    t.id = enc(s.value());
  } else { // only temporaries: parents are gone when children are looked at
    auto q = Shrinkable<T>(s).shrinks();
    auto copy = q;
    while (auto k = q.next()) {
      auto k2 = copy.next();
      if (!k2) vc::fail("copied shrink sequence ends early");
      k = Nothing;
      t.kids.push_back(readEnc(*k2, enc, budget, order));
    }
    t.id = enc(s.value());
  }
  return t;
}

// Every handle is dropped before what was obtained from it is used: the sequence of shrinks is all that is left of
// the parent while the children are looked at, a child is all that is left of the sequence.
template <typename T, typename Enc>
Tree readGone(Shrinkable<T> s, Enc enc, int &budget) {
  Tree t;
  if (--budget < 0) vc::fail("shrink tree larger than expected");
  vc::step();
  Maybe<Shrinkable<T>> only(std::move(s));
  t.id = enc(only->value());
  auto q = only->shrinks();
  only = Nothing;
  std::vector<Shrinkable<T>> v;
  while (auto k = q.next()) {
    v.push_back(std::move(*k));
    if ((int)v.size() > budget + 1) vc::fail("shrink list longer than expected");
  }
  q = Seq<Shrinkable<T>>();
  for (auto &k : v) t.kids.push_back(readGone(std::move(k), enc, budget));
  return t;
}

// A callable which owns memory, so that using it after it is gone is noticed.
template <typename F>
struct Owning {
  F f;
  std::unique_ptr<int> alive;
  Owning(F g) : f(std::move(g)), alive(new int(1)) {}
  Owning(const Owning &o) : f(o.f), alive(new int(*o.alive)) {}
  Owning(Owning &&o) : f(std::move(o.f)), alive(std::move(o.alive)) {}
  template <typename... Args>
  auto operator()(Args &&... args) const -> decltype(f(std::forward<Args>(args)...)) {
    if (!alive || *alive != 1) vc::fail("a function was used after it had been moved from or destroyed");
    return f(std::forward<Args>(args)...);
  }
  ~Owning() { if (alive) *alive = 0; }
};
template <typename F>
Owning<F> own(F f) { return Owning<F>(std::move(f)); }

template <typename T, typename Enc>
void expectTree(Shrinkable<T> s, const Tree &want, Enc enc, const std::string &what) {
  for (int order = 0; order < 4; order++) {
    int budget = vt::count(want) + 2;
    Tree got = order < 3 ? readEnc(s, enc, budget, order) : readGone(std::move(s), enc, budget);
    VC_CHECK(vt::same(got, want), what << ": tree " << vt::show(got) << " expected " << vt::show(want));
  }
  vc::matched(4);
}
auto plain = [](int x) { return x; };

// reference algebra
template <typename F>
Tree rMap(const Tree &t, F f) {
  Tree o;
  o.id = f(t.id);
  for (auto &k : t.kids) o.kids.push_back(rMap(k, f));
  return o;
}
template <typename P>
bool rFilter(const Tree &t, P p, Tree &o) {
  if (!p(t.id)) return false;
  o = Tree();
  o.id = t.id;
  for (auto &k : t.kids) {
    Tree c;
    if (rFilter(k, p, c)) o.kids.push_back(c);
  }
  return true;
}
Tree rPair(const Tree &a, const Tree &b) {
  Tree o;
  o.id = a.id * 1000 + b.id;
  for (auto &k : a.kids) o.kids.push_back(rPair(k, b));
  for (auto &k : b.kids) o.kids.push_back(rPair(a, k));
  return o;
}
template <typename F>
Tree rMapcat(const Tree &t, F f) { // f: int -> Tree
  Tree u = f(t.id), o;
  o.id = u.id;
  for (auto &k : t.kids) o.kids.push_back(rMapcat(k, f));
  for (auto &k : u.kids) o.kids.push_back(k);
  return o;
}
template <typename F>
Tree rRecur(int v, F f) {
  Tree o;
  o.id = v;
  for (int x : f(v)) o.kids.push_back(rRecur(x, f));
  return o;
}
int N(int q, int t) { return vc::thorough() ? t : q; }
} // namespace

VC_SUITE(mapping, 1) {
  Tree t = vt::pickTree(N(6, 8));
  auto base = vt::ids(t);
  auto f = own([](int x) { return x * 7 + 3; });
  auto m = shrinkable::map(base, f);
  expectTree(std::move(m), rMap(t, f), plain, "map of " + vt::show(t));
  auto str = shrinkable::map(base, own([](int x) { return std::string(x, 'x'); }));
  expectTree(std::move(str), t, [](const std::string &s) { return (int)s.size(); }, "map to string of " + vt::show(t));
  auto mm = shrinkable::map(shrinkable::map(base, f), f);
  expectTree(std::move(mm), rMap(rMap(t, f), f), plain, "map twice of " + vt::show(t));
  expectTree(base, t, plain, "argument of map");
  vc::state(vt::show(t));
  vc::sample(vt::show(t));
}
VC_SUITE(filtering, 1) {
  Tree t = vt::pickTree(N(6, 7));
  int n = vt::count(t);
  int mask = vc::pick(1 << n);
  auto p = own([mask](int x) { return (mask >> x & 1) != 0; });
  Tree want;
  bool any = rFilter(t, p, want);
  auto m = shrinkable::filter(vt::ids(t), p);
  VC_CHECK(!!m == any, "filter of " << vt::show(t) << " with mask " << mask << (any ? " yields nothing" : " keeps a rejected root"));
  if (m) expectTree(std::move(*m), want, plain, "filter of " + vt::show(t) + " mask " + std::to_string(mask));
  vc::matched();
  vc::step();
  vc::state(vt::show(t) + std::to_string(mask));
  vc::sample(vt::show(t) + " mask " + std::to_string(mask));
}
VC_SUITE(pairing, 1) {
  Tree a = vt::pickTree(N(4, 5)), b = vt::pickTree(N(4, 5));
  auto p = shrinkable::pair(vt::ids(a), vt::ids(b));
  expectTree(std::move(p), rPair(a, b), [](const std::pair<int, int> &x) { return x.first * 1000 + x.second; }, "pair of " + vt::show(a) + " and " + vt::show(b));
  vc::state(vt::show(a) + "|" + vt::show(b));
  vc::sample(vt::show(a) + "|" + vt::show(b));
}
VC_SUITE(chaining, 1) {
  Tree a = vt::pickTree(N(4, 5));
  int n = vt::count(a);
  // a different second tree for each value of the first
  std::vector<Tree> second;
  for (int i = 0; i < n; i++) second.push_back(vt::pickTree(N(3, 3)));
  auto sec = [second](int x) { return rMap(second[x], [x](int y) { return x * 100 + y; }); };
  auto m = shrinkable::mapcat(vt::ids(a), own([sec](int x) { return vt::ids(sec(x)); }));
  std::string d = "chain of " + vt::show(a);
  for (auto &s : second) d += " ; " + vt::show(s);
  expectTree(std::move(m), rMapcat(a, sec), plain, d);
  vc::state(d);
  vc::sample(d);
}
VC_SUITE(postShrinking, 1) {
  Tree a = vt::pickTree(N(5, 6));
  int k = vc::pick(4);
  auto f = [k](int x) { // shrinks of x in a finite descending family
    std::vector<int> o;
    if (k == 0) return o;
    if (k == 1 && x > 0) o.push_back(x / 2);
    if (k == 2) for (int i = 0; i < x && i < 3; i++) o.push_back(i);
    if (k == 3 && x > 1) o = {x - 1, 0};
    return o;
  };
  auto s = shrinkable::postShrink(vt::ids(a), own([f](int x) { return seq::fromContainer(f(x)); }));
  auto want = rMapcat(a, [f](int x) { return rRecur(x, f); });
  expectTree(std::move(s), want, plain, "postShrink of " + vt::show(a) + " with " + std::to_string(k));
  // shrinkRecur, shrink and just on their own
  int v = vt::count(a);
  expectTree(shrinkable::shrinkRecur(v, own([f](int x) { return seq::fromContainer(f(x)); })), rRecur(v, f), plain, "shrinkRecur");
  Tree one;
  one.id = v;
  expectTree(shrinkable::just(v), one, plain, "just");
  Tree two = one;
  for (int x : f(v)) {
    two.kids.emplace_back();
    two.kids.back().id = x;
  }
  expectTree(shrinkable::shrink(own([v] { return v; }), own([f](int x) { return seq::map(seq::fromContainer(f(x)), own([](int y) { return shrinkable::just(y); })); })),
             two, plain, "shrink");
  expectTree(shrinkable::lambda(own([v] { return v; })), one, plain, "lambda");
  expectTree(shrinkable::just(v, seq::map(seq::fromContainer(f(v)), [](int y) { return shrinkable::just(y); })), two, plain, "just with shrinks");
  vc::state(vt::show(a) + std::to_string(k));
}
VC_SUITE(mapShrinks, 1) {
  Tree a = vt::pickTree(N(6, 7));
  size_t n = vc::pick(4);
  int kind = vc::pick(3);
  auto s = shrinkable::mapShrinks(vt::ids(a), own([=](Seq<Shrinkable<int>> q) {
    return kind == 0 ? seq::drop(n, q) : kind == 1 ? seq::take(n, q) : seq::concat(q, seq::take(n, q));
  }));
  Tree want = a;
  size_t m = std::min(n, a.kids.size());
  if (kind == 0) want.kids.assign(a.kids.begin() + m, a.kids.end());
  if (kind == 1) want.kids.assign(a.kids.begin(), a.kids.begin() + m);
  if (kind == 2) want.kids.insert(want.kids.end(), a.kids.begin(), a.kids.begin() + m);
  expectTree(std::move(s), want, plain, "mapShrinks of " + vt::show(a));
  vc::state(vt::show(a) + std::to_string(n) + std::to_string(kind));
}
// Combinations of two transformations.
VC_SUITE(combined, 1) {
  Tree a = vt::pickTree(N(4, 5));
  int mask = vc::pick(16);
  auto p = [mask](int x) { return (mask >> (x & 3) & 1) != 0; };
  Tree want;
  bool any = rFilter(rMap(a, [](int x) { return x + 1; }), p, want);
  auto m = shrinkable::filter(shrinkable::map(vt::ids(a), [](int x) { return x + 1; }), p);
  VC_CHECK(!!m == any, "filter after map");
  Tree b = vt::pickTree(3);
  if (m) {
    expectTree(shrinkable::pair(*m, vt::ids(b)), rPair(want, b), [](const std::pair<int, int> &x) { return x.first * 1000 + x.second; }, "pair of a filtered map");
    auto sec = [b](int x) { return rMap(b, [x](int y) { return x * 100 + y; }); };
    expectTree(shrinkable::mapcat(*m, [sec](int x) { return vt::ids(sec(x)); }), rMapcat(want, sec), plain, "chain of a filtered map");
  }
  auto pp = shrinkable::filter(shrinkable::pair(vt::ids(a), vt::ids(b)), own([p](const std::pair<int, int> &x) { return p(x.first + x.second); }));
  Tree pw;
  bool anyp = rFilter(rPair(a, b), [&](int e) { return p(e / 1000 + e % 1000); }, pw);
  VC_CHECK(!!pp == anyp, "filter of a pair");
  if (pp) expectTree(std::move(*pp), pw, [](const std::pair<int, int> &x) { return x.first * 1000 + x.second; }, "filter of a pair");
  vc::matched(2);
  vc::state(vt::show(a) + std::to_string(mask) + vt::show(b));
}

VC_SUITE(walking, 1) {
  Tree t = vt::pickTree(N(6, 8));
  auto s = vt::ids(t);
  std::vector<size_t> path;
  // every path of length <= 4 with indices 0..4 and a huge one
  std::vector<std::vector<size_t>> paths{{}};
  for (size_t i = 0; i < paths.size(); i++)
    if (paths[i].size() < (vc::thorough() ? 5u : 4u))
      for (size_t k : {size_t(0), size_t(1), size_t(2), size_t(3), size_t(4), ~size_t(0)}) {
        if (paths.size() > 3000) break;
        auto p = paths[i];
        p.push_back(k);
        paths.push_back(p);
      }
  for (auto &p : paths) {
    const Tree *x = &t;
    for (auto k : p) {
      if (k >= x->kids.size()) {
        x = nullptr;
        break;
      }
      x = &x->kids[k];
    }
    auto r = shrinkable::walkPath(s, p);
    VC_CHECK(!!r == !!x, "walkPath " << vc::strv(p) << " in " << vt::show(t) << (r ? " leads to a node" : " leads nowhere"));
    if (r) {
      int b = vt::count(*x) + 1;
      VC_CHECK(vt::same(vt::readBack(*r, b), *x), "walkPath " << vc::strv(p) << " in " << vt::show(t) << " leads to the wrong node");
    }
    vc::step(p.size() + 1);
    vc::matched();
  }
  vc::state(vt::show(t));
}
VC_SUITE(searching, 1) {
  Tree t = vt::pickTree(N(6, 7));
  int n = vt::count(t);
  int mask = vc::pick(1 << n);
  auto p = [mask](int x) { return (mask >> x & 1) != 0; };
  const Tree *cur = &t;
  size_t moves = 0;
  bool moved = true;
  while (moved) {
    moved = false;
    for (auto &k : cur->kids)
      if (p(k.id)) {
        cur = &k;
        moves++;
        moved = true;
        break;
      }
  }
  auto r = shrinkable::findLocalMin(vt::ids(t), p);
  VC_CHECK(r.first == cur->id && r.second == moves, "findLocalMin in " << vt::show(t) << " mask " << mask << " gives " << r.first << "/" << r.second
                                                                       << " expected " << cur->id << "/" << moves);
  bool all = true;
  vt::visit(t, [&](Tree &x) { all = all && p(x.id); });
  VC_CHECK(shrinkable::all(vt::ids(t), [&](const Shrinkable<int> &s) { return p(s.value()); }) == all, "all() in " << vt::show(t) << " mask " << mask);
  std::vector<int> imm, wi;
  auto q = shrinkable::immediateShrinks(vt::ids(t));
  while (auto x = q.next()) imm.push_back(*x);
  for (auto &k : t.kids) wi.push_back(k.id);
  VC_CHECK(imm == wi, "immediateShrinks of " << vt::show(t));
  vc::matched(3);
  vc::step(n);
  vc::state(vt::show(t) + std::to_string(mask));
}
VC_SUITE(comparing, 1) {
  Tree a = vt::pickTree(5), b = vt::pickTree(5);
  int d = vc::pick(vt::count(b) + 1); // change one label, or none
  if (d < vt::count(b)) vt::visit(b, [&](Tree &x) { if (x.id == d) x.label = 1; });
  auto vb = vt::realise<int>(b, [](const Tree &x) { return x.id + 50 * x.label; });
  Tree bb = b;
  vt::visit(bb, [](Tree &x) { x.id += 50 * x.label; });
  bool eq = vt::same(a, bb);
  VC_CHECK((vt::ids(a) == vb) == eq && (vt::ids(a) != vb) == !eq, "equality of " << vt::show(a) << " and " << vt::show(bb));
  vc::matched();
  vc::step(2);
  vc::state(vt::show(a) + "|" + vt::show(bb));
}
// Exceptions: a throwing value surfaces where asked for; throwing shrinks count as no (further) shrinks; siblings are intact.
VC_SUITE(throwing, 1) {
  Tree t = vt::pickTree(N(5, 6));
  int n = vt::count(t);
  int bad = vc::pick(n);
  int where = vc::pick(2);
  auto root = std::make_shared<const Tree>(t);
  struct Ex {};
  if (where == 0) {
    // mapping function throws on one node
    auto m = shrinkable::map(vt::ids(t), [bad](int x) {
      if (x == bad) throw Ex();
      return x;
    });
    std::function<void(const Shrinkable<int> &, const Tree &)> go = [&](const Shrinkable<int> &s, const Tree &w) {
      bool threw = false;
      int v = -1;
      try {
        v = s.value();
      } catch (const Ex &) {
        threw = true;
      }
      VC_CHECK(threw == (w.id == bad) && (threw || v == w.id), "value of node " << w.id << " in " << vt::show(t) << " with a throwing map");
      auto q = s.shrinks();
      size_t i = 0;
      while (auto k = q.next()) {
        VC_CHECK(i < w.kids.size(), "too many shrinks");
        go(*k, w.kids[i++]);
      }
      VC_CHECK(i == w.kids.size(), "shrinks lost below a throwing map");
      vc::step();
    };
    go(m, t);
  } else {
    // shrinks() of one node throws
    std::function<Shrinkable<int>(const Tree *)> mk = [&mk, root, bad](const Tree *x) -> Shrinkable<int> {
      return shrinkable::lambda([x, root] { return x->id; },
                                [x, root, bad, mk]() -> Seq<Shrinkable<int>> {
                                  if (x->id == bad) throw Ex();
                                  std::vector<Shrinkable<int>> v;
                                  for (auto &k : x->kids) v.push_back(mk(&k));
                                  return seq::fromContainer(std::move(v));
                                });
    };
    Tree want = t;
    vt::visit(want, [&](Tree &x) { if (x.id == bad) x.kids.clear(); });
    expectTree(mk(root.get()), want, plain, "throwing shrinks in " + vt::show(t));
    expectTree(shrinkable::map(mk(root.get()), [](int x) { return x; }), want, plain, "throwing shrinks below map in " + vt::show(t));
  }
  vc::matched();
  vc::state(vt::show(t) + std::to_string(bad) + std::to_string(where));
}
// Handles: copies, assignments and moves of shrinkables in any order keep the trees they stand for; every
// implementation object is destroyed exactly once, when its last handle goes.
namespace {
int live = 0;
struct Counted {
  int v;
  explicit Counted(int x) : v(x) { live++; }
  Counted(const Counted &o) : v(o.v) { live++; }
  ~Counted() { live--; }
  int value() const { return v; }
  Seq<Shrinkable<int>> shrinks() const { return seq::just(shrinkable::just(v + 1)); }
};
} // namespace
VC_SUITE(handles, 1) {
  live = 0;
  std::string log;
  {
    std::vector<Maybe<Shrinkable<int>>> h(3);
    std::vector<int> v(3, -1); // -1: no handle; -2: moved from
    for (int i = 0; i < N(5, 6); i++) {
      int op = vc::pick(5), a = vc::pick(3);
      int b = op == 1 || op == 2 ? vc::pick(3) : 0;
      if (op == 0) {
        h[a] = makeShrinkable<Counted>(i);
        v[a] = i;
      } else if (op == 1) {
        if (v[b] < 0 || v[a] == -1) return;
        *h[a] = *h[b];
        v[a] = v[b];
      } else if (op == 2) {
        if (v[b] < 0 || v[a] == -1 || a == b) return;
        *h[a] = std::move(*h[b]);
        v[a] = v[b];
        v[b] = -2;
      } else if (op == 3) {
        h[a] = Nothing;
        v[a] = -1;
      } else {
        if (v[a] < 0) return;
        int nx = (a + 1) % 3;
        h[nx] = Shrinkable<int>(*h[a]);
        v[nx] = v[a];
      }
      log += " " + std::to_string(op) + std::to_string(a) + std::to_string(b);
      std::set<int> distinct;
      for (int x : v) if (x >= 0) distinct.insert(x);
      VC_CHECK(live == (int)distinct.size(), log << ": " << live << " implementation objects alive, " << distinct.size() << " referenced");
      for (int j = 0; j < 3; j++)
        if (v[j] >= 0) {
          VC_CHECK(h[j]->value() == v[j], log << ": handle " << j << " lost its value");
          VC_CHECK(seq::length(h[j]->shrinks()) == 1, log << ": handle " << j << " lost its shrinks");
        }
      vc::step();
    }
  }
  VC_CHECK(live == 0, log << ": " << live << " implementation objects leaked");
  vc::matched();
  vc::state(log);
}

// Generators with shrinks taken away or added: at every size, however many shrinks there are.
VC_SUITE(generators, 8) {
  static const int W[] = {0, 1, 2, 7, 8, 9, 16, 33, 63, 64, 65, 100, 128, 129, 257, 1000};
  int size = vc::pick(203);
  if (size > 200) size = size == 201 ? 5000 : std::numeric_limits<int>::max();
  int width = W[vc::pick(16)], more = W[vc::pick(16)];
  // values are numbers of up to three digits, 1000 * level + index
  Gen<int> g([=](const Random &, int s) {
    VC_CHECK(s == size, "called at size " << s << " instead of " << size);
    return shrinkable::shrinkRecur(1000, [=](int x) { return x / 1000 > 2 ? Seq<int>() : seq::map(seq::range(0, width), [=](int i) { return (x / 1000 + 1) * 1000 + i; }); });
  });
  auto plain = gen::noShrink(g)(Random(uint64_t(1)), size);
  VC_CHECK(plain.value() == 1000, "noShrink changes the value");
  VC_CHECK(!plain.shrinks().next(), "noShrink leaves shrinks of " << width << " at size " << size);
  auto both = gen::shrink(g, [=](int x) { return seq::map(seq::range(0, more), [=](int i) { return -(x * 1000 + i) - 1; }); })(Random(uint64_t(1)), size);
  std::function<void(const Shrinkable<int> &, int, int)> look = [&](const Shrinkable<int> &s, int x, int level) {
    VC_CHECK(s.value() == x, "value " << s.value() << " instead of " << x);
    if (level > 1) return;
    auto q = s.shrinks();
    auto expect = [&](int y, bool descend) {
      auto n = q.next();
      VC_CHECK(n, "the shrinks of " << x << " end before " << y << " (" << width << " and " << more << ", size " << size << ")");
      VC_CHECK(n->value() == y, "shrink " << n->value() << " of " << x << " instead of " << y << " (" << width << " and " << more << ", size " << size << ")");
      vc::step();
      if (descend) look(*n, y, level + 1);
    };
    for (int i = 0; i < width; i++) expect((x / 1000 + 1) * 1000 + i, level == 0 && (i == 0 || i == width - 1));
    if (level == 0)
      for (int i = 0; i < more; i++) expect(-(x * 1000 + i) - 1, false);
    else
      for (int i = 0; i < std::min(more, 3); i++) expect(-(x * 1000 + i) - 1, false);
    if (level == 0) VC_CHECK(!q.next(), "more shrinks than expected");
  };
  look(both, 1000, 0);
  vc::matched();
  vc::state(std::to_string(size) + "/" + std::to_string(width) + "/" + std::to_string(more));
}
// Far larger than the enumerated trees: a root with very many shrinks, and a very long chain of them.
namespace {
template <typename T, typename Enc>
void expectLevel(const Shrinkable<T> &s, long self, const std::vector<long> &want, Enc enc, const std::string &what) {
  VC_CHECK(enc(s.value()) == self, what << ": the value is " << enc(s.value()) << ", expected " << self);
  auto q = s.shrinks();
  size_t i = 0;
  while (auto k = q.next()) {
    VC_CHECK(i < want.size(), what << ": more than the " << want.size() << " shrinks there should be");
    long v = enc(k->value());
    VC_CHECK(v == want[i], what << ": shrink " << i << " of " << want.size() << " is " << v << ", expected " << want[i]);
    i++;
    vc::step();
  }
  VC_CHECK(i == want.size(), what << ": " << i << " shrinks instead of " << want.size());
  vc::matched();
}
// A chain: 0 -> 1 -> ... -> n
Shrinkable<int> chainFrom(int n) {
  return shrinkable::shrinkRecur(0, [n](int x) { return x < n ? seq::just(x + 1) : Seq<int>(); });
}
} // namespace
VC_SUITE(manyShrinks, 16) {
  static const std::vector<int> ns{31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048,
                                   2049, 4095, 4096, 4097, 9999, 10000, 10001, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 100001};
  int n = ns[vc::pick(ns.size())];
  std::string d = " of a value with " + std::to_string(n) + " shrinks";
  auto wide = shrinkable::shrink([] { return 0; }, [n](int) { return seq::map(seq::range(1, n + 1), [](int x) { return shrinkable::just(x); }); });
  std::vector<long> all, w;
  for (int i = 1; i <= n; i++) all.push_back(i);
  auto id = [](int x) { return (long)x; };
  expectLevel(wide, 0, all, id, "shrinks" + d);
  for (auto x : all) w.push_back(3 * x + 1);
  expectLevel(shrinkable::map(wide, [](int x) { return 3 * x + 1; }), 1, w, id, "map" + d);
  for (int keep : {0, 1, 2}) { // every one, every second, only the last one
    auto p = [=](int x) { return x == 0 || keep == 0 || (keep == 1 ? x % 2 == 1 : x == n); };
    w.clear();
    for (auto x : all)
      if (p(x)) w.push_back(x);
    auto f = shrinkable::filter(wide, p);
    VC_CHECK(!!f, "filter" + d + " rejects a root that satisfies the predicate");
    expectLevel(*f, 0, w, id, "filter" + d);
    auto m = shrinkable::findLocalMin(wide, [=](int x) { return x == 0 ? true : (keep == 0 ? x == n / 2 : keep == 1 ? x == n : false); });
    long at = keep == 0 ? n / 2 : keep == 1 ? n : 0;
    VC_CHECK(m.first == at && m.second == (at ? 1u : 0u), "findLocalMin" + d << " gives " << m.first << "/" << m.second << ", expected " << at);
  }
  auto pe = [](const std::pair<int, int> &x) { return x.first * 1000000L + x.second; };
  w.clear();
  for (auto x : all) w.push_back(x * 1000000L);
  expectLevel(shrinkable::pair(wide, shrinkable::just(0)), 0, w, pe, "first of a pair" + d);
  for (auto x : all) w.push_back(x);
  expectLevel(shrinkable::pair(wide, wide), 0, w, pe, "pair" + d);
  w.clear();
  for (auto x : all) w.push_back(x);
  expectLevel(shrinkable::pair(shrinkable::just(0), wide), 0, w, pe, "second of a pair" + d);
  w.clear();
  for (auto x : all) w.push_back(2 * x);
  for (auto x : all) w.push_back(-x);
  expectLevel(shrinkable::mapcat(wide, [=](int x) { return x == 0 ? shrinkable::map(wide, [](int y) { return -y; }) : shrinkable::just(2 * x); }), 0, w, id, "chain" + d);
  w = all;
  for (auto x : all) w.push_back(x + n);
  expectLevel(shrinkable::postShrink(wide, [n](int x) { return x == 0 ? seq::range(n + 1, 2 * n + 1) : Seq<int>(); }), 0, w, id, "postShrink" + d);
  w = all;
  w.erase(w.begin());
  expectLevel(shrinkable::mapShrinks(wide, [](Seq<Shrinkable<int>> q) { return seq::drop(1, q); }), 0, w, id, "mapShrinks" + d);
  expectLevel(shrinkable::shrinkRecur(0, [n](int x) { return x == 0 ? seq::range(1, n + 1) : Seq<int>(); }), 0, all, id, "shrinkRecur" + d);
  for (size_t i : {size_t(0), size_t(n / 2), size_t(n - 1), size_t(n), size_t(n) + 1, size_t(n) + (size_t(1) << 32)}) {
    auto r = shrinkable::walkPath(wide, std::vector<size_t>{i});
    VC_CHECK(!!r == (i < size_t(n)) && (!r || r->value() == (int)i + 1), "walkPath to " << i << d);
  }
  size_t seen = 0;
  VC_CHECK(shrinkable::all(wide, [&](const Shrinkable<int> &s) { seen++; return s.value() >= 0; }) && seen == size_t(n) + 1,
           "all()" + d << " looks at " << seen << " nodes");
  VC_CHECK(!shrinkable::all(wide, [&](const Shrinkable<int> &s) { return s.value() != n; }), "all()" + d << " misses the last one");
  long count = 0;
  auto imm = shrinkable::immediateShrinks(wide);
  while (auto x = imm.next()) VC_CHECK(*x == ++count, "immediateShrinks" + d);
  VC_CHECK(count == n, "immediateShrinks" + d << " gives " << count);
  auto other = shrinkable::shrink([] { return 0; }, [n](int) { return seq::map(seq::range(1, n + 1), [n](int x) { return shrinkable::just(x == n ? 0 : x); }); });
  auto shorter = shrinkable::shrink([] { return 0; }, [n](int) { return seq::map(seq::range(1, n), [](int x) { return shrinkable::just(x); }); });
  VC_CHECK(wide == wide && !(wide == other) && !(wide == shorter) && !(shorter == wide), "comparison" + d);
  vc::matched(12);
  vc::state("wide" + std::to_string(n));
}
VC_SUITE(longChains, 16) {
  static const std::vector<int> ns{31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 4095, 4096, 4097, 9999, 10000, 10001};
  int n = ns[vc::pick(ns.size())];
  std::string d = " of a chain of " + std::to_string(n) + " shrinks";
  // follows the only chain there is and returns the values on it
  auto follow = [&](const Shrinkable<int> &s) {
    std::vector<int> v{s.value()};
    auto cur = s;
    for (;;) {
      auto q = cur.shrinks();
      auto k = q.next();
      if (!k) return v;
      vc::step();
      VC_CHECK(!q.next() || v.size() > (size_t)n, "more than one shrink" + d);
      v.push_back(k->value());
      VC_CHECK(v.size() <= 2u * n + 3, "a longer chain than expected" + d);
      cur = std::move(*k);
    }
  };
  auto expect = [&](const Shrinkable<int> &s, int last, std::function<int(int)> f, const std::string &what) {
    auto v = follow(s);
    VC_CHECK((int)v.size() == last + 1, what << d << ": " << v.size() - 1 << " steps, expected " << last);
    for (int i = 0; i <= last; i++) VC_CHECK(v[i] == f(i), what << d << ": step " << i << " is " << v[i] << ", expected " << f(i));
    vc::matched();
  };
  auto same = [](int x) { return x; };
  auto c = chainFrom(n);
  expect(c, n, same, "shrinkRecur");
  expect(shrinkable::map(c, [](int x) { return 5 * x - 2; }), n, [](int x) { return 5 * x - 2; }, "map");
  for (int last : {n, n - 1, n / 2, 0}) {
    auto f = shrinkable::filter(c, [last](int x) { return x <= last; });
    VC_CHECK(!!f, "filter" + d);
    expect(*f, last, same, "filter");
    auto m = shrinkable::findLocalMin(c, [last](int x) { return x <= last; });
    VC_CHECK(m.first == last && m.second == (size_t)last, "findLocalMin" + d << " gives " << m.first << " after " << m.second << " steps, expected " << last);
  }
  expect(shrinkable::map(shrinkable::pair(c, shrinkable::just(1)), [](const std::pair<int, int> &p) { return p.first; }), n, same, "first of a pair");
  expect(shrinkable::map(shrinkable::pair(shrinkable::just(1), c), [](const std::pair<int, int> &p) { return p.second; }), n, same, "second of a pair");
  expect(shrinkable::mapcat(c, [](int x) { return shrinkable::just(x); }), n, same, "chain");
  expect(shrinkable::mapcat(shrinkable::just(0), [c](int) { return c; }), n, same, "chain");
  expect(shrinkable::postShrink(shrinkable::just(0), [n](int x) { return x < n ? seq::just(x + 1) : Seq<int>(); }), n, same, "postShrink");
  expect(shrinkable::postShrink(c, [](int) { return Seq<int>(); }), n, same, "postShrink");
  auto r = shrinkable::walkPath(c, std::vector<size_t>(n, 0));
  VC_CHECK(r && r->value() == n, "walkPath" + d);
  VC_CHECK(!shrinkable::walkPath(c, std::vector<size_t>(n + 1, 0)), "walkPath beyond the end" + d);
  if (n <= 1025) { // (all() and the comparison recurse)
    int seen = 0;
    VC_CHECK(shrinkable::all(c, [&](const Shrinkable<int> &s) { return s.value() == seen++; }) && seen == n + 1, "all()" + d << " looks at " << seen);
    VC_CHECK(c == chainFrom(n) && c != chainFrom(n - 1) && c != chainFrom(n + 1), "comparison" + d);
  }
  vc::matched(6);
  vc::state("chain" + std::to_string(n));
}
// Very many handles to one value: it lives until the last of them is gone, in whatever order they go, and no longer.
VC_SUITE(manyHandles, 12) {
  static const std::vector<int> ns{1, 2, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 131073};
  int n = ns[vc::pick(ns.size())], order = vc::pick(3), how = vc::pick(2);
  int alive = 0;
  struct Life {
    int *n;
    Life(int *p) : n(p) { ++*n; }
    Life(const Life &o) : n(o.n) { ++*n; }
    ~Life() { --*n; }
  };
  {
    Life probe(&alive);
    std::vector<Shrinkable<int>> v;
    v.reserve(n);
    {
      auto first = how == 0 ? shrinkable::shrink([probe] { return 7; }, [](int) { return seq::just(shrinkable::just(6)); })
                            : shrinkable::map(shrinkable::shrink([probe] { return 5; }, [](int) { return seq::just(shrinkable::just(4)); }), [](int x) { return x + 2; });
      const auto &view = first;
      for (int i = 1; i < n; i++) v.push_back(i % 2 ? view : v.back());
      v.push_back(std::move(first));
    }
    auto ok = [&](const Shrinkable<int> &s) {
      auto q = s.shrinks();
      auto k = q.next();
      return s.value() == 7 && k && k->value() == 6 && !q.next();
    };
    while (!v.empty()) {
      VC_CHECK(alive == 2, "with " << v.size() << " of " << n << " handles left, the value has been destroyed");
      size_t l = v.size();
      if (l < 4 || l % 16384 < 2 || (l % 128 < 2 && l < 1100)) VC_CHECK(ok(v.front()) && ok(v.back()), "with " << l << " of " << n << " handles left, the value or its shrinks have changed");
      if (order == 1 && l > 1) std::swap(v[l / 2], v.back());
      if (order == 2 && l > 1) v.back() = v[0]; // replaced before it goes
      v.pop_back();
      vc::step();
    }
    VC_CHECK(alive == 1, "the value outlives the last of " << n << " handles");
  }
  vc::matched();
  vc::state(std::to_string(n) + "," + std::to_string(order) + std::to_string(how));
}
