// C23: generators and shrinkables shared between threads.
#include "mt.h"
#include "vc.h"
#include "rapidcheck.h"

using namespace rc;

namespace mt { void count(int d); int counted(); }

namespace {
// Owned by an implementation object: use after destruction, double destruction and leaks show.
struct Payload {
  int *p;
  explicit Payload(int v) : p(new int(v)) { mt::count(1); }
  Payload(const Payload &o) : p(new int(*o.p)) { mt::count(1); }
  Payload(Payload &&o) : p(new int(*o.p)) { mt::count(1); }
  Payload &operator=(const Payload &) = delete;
  ~Payload() {
    *p = -1;
    delete p;
    mt::count(-1);
  }
};
struct GenImpl {
  Payload x;
  Shrinkable<int> operator()(const Random &, int size) const { return shrinkable::just(*x.p + size); }
};
struct ShrImpl {
  Payload x;
  int value() const { return *x.p; }
  Seq<Shrinkable<int>> shrinks() const { return seq::just(shrinkable::just(*x.p + 1), shrinkable::just(*x.p + 2)); }
};

template <typename H> struct Kit;
template <> struct Kit<Gen<int>> {
  static Gen<int> make(int v) { return Gen<int>(GenImpl{Payload(v)}); }
  static bool good(const Gen<int> &g, int v) { return g(Random(), 5).value() == v + 5; }
  static Gen<int> other(const Gen<int> &g) { return g.as("name"); }
};
template <> struct Kit<Shrinkable<int>> {
  static Shrinkable<int> make(int v) { return makeShrinkable<ShrImpl>(ShrImpl{Payload(v)}); }
  static bool good(const Shrinkable<int> &s, int v) {
    if (s.value() != v) return false;
    auto q = s.shrinks();
    auto a = q.next(), b = q.next(), c = q.next();
    return a && b && !c && a->value() == v + 1 && b->value() == v + 2;
  }
  static Shrinkable<int> other(const Shrinkable<int> &s) { return shrinkable::map(s, [](int x) { return x; }); }
};

// The handles of one thread.  h[0] starts as a copy made before the threads start.
enum Op { Copy, CopyShared, Assign, AssignShared, MoveCtor, MoveAssign, Use, Drop, Other, kOps, SelfAssign = kOps, AssignBack };
const char *const kNames[] = {"copy", "copy-shared", "assign", "assign-shared", "move", "move-assign", "use", "drop", "derive", "self-assign", "assign-back"};

template <typename H>
struct Own {
  H *h[2] = {nullptr, nullptr};
  int v[2] = {0, 0};
  void drop(int i) {
    delete h[i];
    h[i] = nullptr;
  }
};
template <typename H>
void run(Own<H> &o, const std::vector<int> &prog, const H &shared, int sv) {
  for (int op : prog) {
    if (!o.h[0] && o.h[1]) {
      std::swap(o.h[0], o.h[1]);
      std::swap(o.v[0], o.v[1]);
    }
    switch (op) {
    case Copy:
      if (!o.h[0]) break;
      o.drop(1);
      o.h[1] = new H(*o.h[0]);
      o.v[1] = o.v[0];
      break;
    case CopyShared:
      o.drop(1);
      o.h[1] = new H(shared);
      o.v[1] = sv;
      break;
    case Assign:
      if (!o.h[0] || !o.h[1]) break;
      *o.h[1] = *o.h[0];
      o.v[1] = o.v[0];
      break;
    case AssignShared:
      if (!o.h[0]) break;
      *o.h[0] = shared;
      o.v[0] = sv;
      break;
    case MoveCtor:
      if (!o.h[0]) break;
      o.drop(1);
      o.h[1] = new H(std::move(*o.h[0]));
      o.v[1] = o.v[0];
      o.drop(0);
      break;
    case MoveAssign:
      if (!o.h[0] || !o.h[1]) break;
      *o.h[1] = std::move(*o.h[0]);
      o.v[1] = o.v[0];
      o.drop(0);
      break;
    case Use:
      if (o.h[0] && !Kit<H>::good(*o.h[0], o.v[0])) mt::fail("a shared object gave a wrong value");
      if (!o.h[0] && !Kit<H>::good(shared, sv)) mt::fail("a shared object gave a wrong value");
      break;
    case Drop: o.drop(0); break;
    case SelfAssign: {
      if (!o.h[0]) break;
      H *volatile self = o.h[0];
      *self = *o.h[0];
      break;
    }
    case AssignBack:
      if (!o.h[0] || !o.h[1]) break;
      *o.h[0] = *o.h[1];
      o.v[0] = o.v[1];
      break;
    case Other: {
      if (!o.h[0]) break;
      H d = Kit<H>::other(*o.h[0]);
      if (!Kit<H>::good(d, o.v[0]) && std::is_same<H, Gen<int>>::value) mt::fail("a derived object gave a wrong value");
      break;
    }
    }
  }
  o.drop(0);
  o.drop(1);
}

// Which operations make sense first, to leave out programs equal to shorter ones.
bool useless(const std::vector<int> &p) {
  bool h1 = false;
  for (int op : p) {
    if ((op == Assign || op == MoveAssign) && !h1) return true;
    if (op == Copy || op == CopyShared || op == MoveCtor) h1 = op != MoveCtor;
    if (op == MoveAssign) h1 = false;
  }
  return false;
}

template <typename H>
void handles(int config, const std::vector<std::vector<int>> &progs) {
  vc::note("configuration " + std::to_string(config));
  for (auto &p : progs) {
    std::string s = "thread:";
    for (int op : p) s += std::string(" ") + kNames[op];
    vc::note(s);
  }
  mt::session([&] {
    // config: 0 everybody shares one object which the main thread lets go of first, 1 the main thread keeps it,
    // 2 the threads share one object and assign from another one
    H *shared = new H(Kit<H>::make(10));
    H *base = config == 2 ? new H(Kit<H>::make(20)) : shared;
    int bv = config == 2 ? 20 : 10;
    auto *own = new Own<H>[progs.size()];
    for (size_t i = 0; i < progs.size(); i++) {
      own[i].h[0] = new H(*base);
      own[i].v[0] = bv;
    }
    bool noShared = config == 0;
    H *keep = shared;
    if (config == 2) delete base;
    if (noShared) { // "shared" is then another object
      delete shared;
      keep = new H(Kit<H>::make(30));
    }
    int sv = noShared ? 30 : 10;
    std::vector<std::function<void()>> fs;
    for (size_t i = 0; i < progs.size(); i++) fs.push_back([&, i] { run(own[i], progs[i], *keep, sv); });
    mt::parallel(fs);
    if (!Kit<H>::good(*keep, sv)) mt::fail("the remaining object gave a wrong value");
    delete keep;
    if (mt::counted()) mt::fail("implementation objects alive after the last copy is gone: " + std::to_string(mt::counted()));
  });
  vc::matched();
}
std::vector<int> program(int code, int len) {
  std::vector<int> p;
  for (int i = 0; i < len; i++) {
    p.push_back(code % kOps);
    code /= kOps;
  }
  return p;
}
int power(int n) {
  int r = 1;
  while (n--) r *= kOps;
  return r;
}
template <typename H>
void two(int len) {
  int n = power(len);
  int a = vc::pick(n);
  int config = vc::pick(3);
  int b = vc::pick(n);
  if (b < a) return;
  auto pa = program(a, len), pb = program(b, len);
  if (useless(pa) || useless(pb)) return;
  handles<H>(config, {pa, pb});
}
// Assigning what is held already: to the handle itself, and from another handle on the same object.
template <typename H>
void again() {
  int k = vc::pick(2 * kOps + 5);
  int config = vc::pick(3);
  int other = vc::pick(kOps + 1);
  std::vector<int> a;
  if (k < kOps) a = {SelfAssign, k};
  else if (k < 2 * kOps) a = {k - kOps, SelfAssign};
  else if (k == 2 * kOps) a = {SelfAssign};
  else a = {k & 1 ? Copy : CopyShared, AssignBack, k < 2 * kOps + 3 ? Use : SelfAssign};
  std::vector<int> b = {other};
  if (useless(a) || useless(b)) return;
  if (other == kOps) handles<H>(config, {a});
  else handles<H>(config, {a, b});
}
template <typename H>
void three() {
  int a = vc::pick(kOps);
  int config = vc::pick(3);
  int b = vc::pick(kOps), c = vc::pick(kOps);
  if (b < a || c < b) return;
  handles<H>(config, {program(a, 1), program(b, 1), program(c, 1)});
}
int quick2(int q, int t) { return vc::thorough() ? t : q; }
} // namespace

VC_SUITE(genTwo, 9, o.maxDev = vc::thorough() ? 4 : 2) { two<Gen<int>>(2); }
VC_SUITE(shrinkableTwo, 9, o.maxDev = vc::thorough() ? 4 : 2) { two<Shrinkable<int>>(2); }
VC_SUITE(genAgain, 8, o.maxDev = vc::thorough() ? 3 : 2) { again<Gen<int>>(); }
VC_SUITE(shrinkableAgain, 8, o.maxDev = vc::thorough() ? 3 : 2) { again<Shrinkable<int>>(); }
VC_SUITE(genThree, 9, o.maxDev = vc::thorough() ? 3 : 2) { three<Gen<int>>(); }
VC_SUITE(shrinkableThree, 9, o.maxDev = vc::thorough() ? 3 : 2) { three<Shrinkable<int>>(); }

// --- first use of default generators ---------------------------------------------------------------------------
namespace {
struct Mine {
  int a;
  std::string s;
};
int g_made = 0;
} // namespace
namespace rc {
template <>
struct Arbitrary<Mine> {
  static Gen<Mine> arbitrary() {
    return gen::build<Mine>(gen::set(&Mine::a), gen::set(&Mine::s));
  }
};
} // namespace rc
namespace {
std::string text(int x) { return std::to_string(x); }
std::string text(bool x) { return x ? "t" : "f"; }
std::string text(double x) { return std::to_string(x); }
std::string text(const std::string &x) { return x; }
std::string text(const Mine &m) { return text(m.a) + m.s; }
template <typename A, typename B> std::string text(const std::pair<A, B> &p) { return text(p.first) + ":" + text(p.second); }
template <typename T> std::string text(const std::vector<T> &v) {
  std::string s;
  for (const auto &x : v) s += text(x) + ",";
  return s;
}
template <typename T> std::string text(const Maybe<T> &m) { return m ? text(*m) : "-"; }
template <typename T>
std::string observe(const Gen<T> &g, int seed) {
  auto s = g(Random(seed), 3);
  std::string r = text(s.value());
  auto q = s.shrinks();
  for (int i = 0; i < 2; i++) {
    auto n = q.next();
    if (!n) break;
    r += "|" + text(n->value());
  }
  return r;
}
template <typename T>
void firstUse(int threads) {
  mt::session([&] {
    std::vector<std::string> got(threads);
    std::vector<std::function<void()>> fs;
    for (int i = 0; i < threads; i++) fs.push_back([&, i] { got[i] = observe(gen::arbitrary<T>(), i / 2); });
    mt::parallel(fs);
    for (int i = 0; i < threads; i++) {
      auto want = observe(gen::arbitrary<T>(), i / 2);
      if (got[i] != want) mt::fail("thread " + std::to_string(i + 1) + " got '" + got[i] + "', alone the generator gives '" + want + "'");
    }
  });
  vc::matched();
}
} // namespace
VC_SUITE(firstUse, 8, o.maxDev = vc::thorough() ? 2 : 1) {
  int which = vc::pick(8);
  int threads = vc::thorough() ? 2 + vc::pick(2) : 2;
  switch (which) {
  case 0: return firstUse<int>(threads);
  case 1: return firstUse<bool>(threads);
  case 2: return firstUse<double>(threads);
  case 3: return firstUse<std::string>(threads);
  case 4: return firstUse<std::vector<int>>(threads);
  case 5: return firstUse<std::pair<int, bool>>(threads);
  case 6: return firstUse<Mine>(threads);
  case 7: return firstUse<Maybe<std::vector<bool>>>(threads);
  }
}
