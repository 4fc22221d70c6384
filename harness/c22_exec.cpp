// C22: values picked inside a property or an executed generator.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "detail/Testing.h"
#include "rapidcheck/detail/Property.h"

using namespace rc;
using namespace rc::detail;

namespace {
struct V { // a picked value: which random state made it, and how far it has been shrunk
  int x = 0;
  std::string origin;
  bool root = true;
  int size = 0;
  bool operator==(const V &o) const { return x == o.x && origin == o.origin; }
};
std::ostream &operator<<(std::ostream &os, const V &v) { return os << "<" << v.x << "@" << v.origin << ">"; }
Gen<V> rawGen(int mod) {
  return Gen<V>([mod](const Random &random, int size) {
    auto r = random;
    V v;
    v.x = (int)(r.next() % mod);
    v.origin = std::to_string(random.node()) + "." + std::to_string(random.pos());
    v.size = size;
    return shrinkable::shrinkRecur(std::move(v), [](const V &p) {
      std::vector<V> s;
      for (int i = 0; i < p.x; i++) {
        V c = p;
        c.x = i;
        c.root = false;
        s.push_back(c);
      }
      return seq::fromContainer(s);
    });
  });
}
struct Arg : V {};
std::ostream &operator<<(std::ostream &os, const Arg &v) { return os << "arg" << static_cast<const V &>(v); }
} // namespace

namespace rc {
template <>
struct Arbitrary<Arg> {
  static Gen<Arg> arbitrary() {
    return gen::map(rawGen(3), [](const V &v) {
      Arg a;
      static_cast<V &>(a) = v;
      return a;
    });
  }
};
} // namespace rc

namespace {
struct Pick {
  std::string name, shown; // as the example must list it
  std::vector<V> parts;    // the atomic values it consists of
  bool failed = false;
  bool operator==(const Pick &o) const { return name == o.name && shown == o.shown && parts == o.parts && failed == o.failed; }
};
using Log = std::vector<Pick>;
std::string show(const Log &l) {
  std::string s;
  for (auto &p : l) s += p.name + "=" + p.shown + " ";
  return s;
}

enum Op { Named, Unnamed, IfLast, LoopLast, Nested, Inner, Failing, Caught, NOps };
// Executes a program; every pick is logged. Returns normally or throws what the picks throw.
void execute(const std::vector<int> &prog, Log &log) {
  int last = 1;
  int serial = 0;
  auto atom = [&](const Gen<V> &g, const std::string &name) {
    V v = *g;
    log.push_back({name, vc::str(v), {v}});
    last = v.x;
  };
  for (int op : prog) {
    serial++;
    switch (op) {
    case Named: atom(rawGen(3).as("n" + std::to_string(serial)), "n" + std::to_string(serial)); break;
    case Unnamed: atom(rawGen(2), typeToString<V>()); break;
    case IfLast:
      if (last > 0) atom(rawGen(3), typeToString<V>());
      break;
    case LoopLast:
      for (int i = 0, n = last; i < n; i++) atom(rawGen(2).as("loop"), "loop");
      break;
    case Nested: { // a generator that itself picks, dependent
      auto g = gen::exec([] {
        std::vector<V> vs;
        vs.push_back(*rawGen(2));
        if (vs[0].x) vs.push_back(*rawGen(2));
        return vs;
      });
      auto vs = *g.as("nested");
      Pick p{"nested", toString(vs), vs};
      log.push_back(p);
      last = vs.back().x;
      break;
    }
    case Inner: { // picking inside a function given to a generator is not picking in this body
      bool thrown = false;
      auto g = gen::map(rawGen(2), [&thrown](const V &v) {
        try {
          *rawGen(2);
          vc::failSoft("a pick inside a mapping function succeeds");
        } catch (const std::runtime_error &) {
          thrown = true;
        }
        return v;
      });
      // lazily evaluated: must not outlive `thrown`, so only look at it through a shared flag
      (void)thrown;
      atom(Gen<V>([g](const Random &r, int s) { return shrinkable::just(g(r, s).value()); }).as("inner"), "inner");
      if (thrown) vc::outcome("pick inside a mapping function refused");
      break;
    }
    case Failing: {
      auto g = Gen<V>([](const Random &random, int size) -> Shrinkable<V> {
                 auto s = rawGen(2)(random, size);
                 if (s.value().x == 0) throw GenerationFailure("nope");
                 return shrinkable::just(s.value());
               }).as("failing");
      try {
        V v = *g;
        log.push_back({"failing", vc::str(v), {v}});
        last = v.x;
      } catch (const GenerationFailure &e) {
        log.push_back({"Generation failed", e.what(), {}, true});
        throw;
      }
      break;
    }
    case Caught: { // the body recovers from a failed pick
      auto g = Gen<V>([](const Random &random, int size) -> Shrinkable<V> {
                 auto s = rawGen(2)(random, size);
                 if (s.value().x == 0) throw std::runtime_error("boom");
                 return shrinkable::just(s.value());
               }).as("caught");
      try {
        V v = *g;
        log.push_back({"caught", vc::str(v), {v}});
        last = v.x;
      } catch (const std::runtime_error &e) {
        log.push_back({"Exception while generating", e.what(), {}, true});
      }
      break;
    }
    }
  }
}
// One entry shrunk by one step?
bool directShrink(const Pick &from, const Pick &to) {
  if (from.failed || to.failed || from.name != to.name) return false;
  // exactly one atom is smaller, atoms before are equal, atoms after are fresh or gone
  for (size_t i = 0; i < from.parts.size(); i++) {
    if (i >= to.parts.size()) return false;
    if (from.parts[i] == to.parts[i]) continue;
    return to.parts[i].origin == from.parts[i].origin && to.parts[i].x < from.parts[i].x;
  }
  return false;
}
long countShrinks(const Pick &p) { // direct shrinks of a pick that was itself never shrunk before
  long n = 0;
  if (p.name == "inner" || p.name == "failing" || p.name == "caught") return 0;
  for (auto &v : p.parts) n += v.x;
  return n;
}
void checkFresh(const Pick &p, const std::string &where) {
  for (auto &v : p.parts)
    if (!v.root) vc::fail(where + ": pick " + p.name + "=" + p.shown + " after the shrunk one is not generated anew");
}
void checkOrigins(const Log &l, int size, const std::string &where) {
  std::set<std::string> seen;
  for (auto &p : l)
    for (auto &v : p.parts) {
      if (!seen.insert(v.origin).second) vc::fail(where + ": two picks share random state " + v.origin + ": " + show(l));
      if (v.size != size) vc::fail(where + ": pick made with size " + std::to_string(v.size));
    }
}
// child of parent, where picks before `fixed` cannot be shrunk any more; returns the index shrunk
size_t checkChild(const Log &parent, const Log &child, const std::string &where) {
  size_t i = 0;
  while (i < parent.size() && i < child.size() && parent[i] == child[i]) i++;
  if (i >= parent.size() || i >= child.size()) vc::fail(where + ": " + show(child) + "is no shrink of " + show(parent));
  if (!directShrink(parent[i], child[i])) vc::fail(where + ": in " + show(child) + "pick " + std::to_string(i) + " is not a shrink of that in " + show(parent));
  for (size_t j = i + 1; j < child.size(); j++) checkFresh(child[j], where);
  return i;
}
template <typename T, typename F>
struct Walk {
  F logOf;         // Shrinkable<T> -> Log
  int size;
  long budget;
  std::vector<std::string> freshOrigins; // per position in the root
  void go(const Shrinkable<T> &s, const Log &me, size_t fixed, const std::string &path, int depth) {
    vc::step();
    checkOrigins(me, size, path);
    vc::state(vc::hashStr(show(me)));
    std::vector<Shrinkable<T>> kids;
    std::vector<Log> logs;
    auto q = s.shrinks();
    while (auto k = q.next()) {
      kids.push_back(*k);
      Log l = logOf(*k);
      Log again = logOf(*k);
      std::string p = path + "." + std::to_string(logs.size());
      if (!(l == again)) vc::fail(p + ": first " + show(l) + "then " + show(again));
      logs.push_back(l);
      budget--;
      if (logs.size() > 300) vc::fail(path + ": too many shrinks");
    }
    size_t prev = 0;
    std::vector<size_t> idx;
    for (size_t i = 0; i < logs.size(); i++) {
      size_t at = checkChild(me, logs[i], path + "." + std::to_string(i));
      for (size_t j = 0; j < i; j++)
        if (logs[j].size() > at && idx[j] == at && logs[j][at] == logs[i][at]) vc::fail(path + ": the same shrink twice");
      prev = at;
      idx.push_back(at);
      vc::matched();
    }
    (void)prev;
    // nothing is left out: every pick from the shrunk one on offers each of its shrinks
    for (size_t i = fixed; i < me.size(); i++) {
      long n = 0;
      for (size_t a : idx) n += a == i;
      bool whole = i > fixed || path == "r";
      if (!whole && me[i].name == "nested") continue; // partly shrunk: what is left depends on the part shrunk
      if (n != countShrinks(me[i])) vc::fail(path + ": pick " + std::to_string(i) + " of " + show(me) + "is shrunk in " + std::to_string(n) + " ways instead of " + std::to_string(countShrinks(me[i])));
    }
    for (size_t i = 0; i < kids.size(); i++) {
      if (budget <= 0) return;
      go(kids[i], logs[i], idx[i], path + "." + std::to_string(i), depth + 1);
    }
  }
};
template <typename T, typename F>
void walk(const Shrinkable<T> &s, const Log &l, int size, F logOf) {
  Walk<T, F> w{logOf, size, vc::thorough() ? 400 : 60};
  w.go(s, l, 0, "r", 0);
}

void script(int points) {
  vcr::Script sc;
  sc.alphabet = {1, 0, 2};
  sc.maxPoints = points;
  vcr::reset(sc);
}
std::vector<int> pickProgram(int maxLen) {
  std::vector<int> p;
  p.push_back(vc::pick(NOps));
  while ((int)p.size() < maxLen) {
    int o = vc::pick(NOps + 1);
    if (o == NOps) break;
    p.push_back(o);
  }
  return p;
}
} // namespace

// Executed generators: all programs, all scripts, the shrink tree.
VC_SUITE(execGen, 8) {
  auto prog = pickProgram(vc::thorough() ? 4 : 3);
  script(vc::thorough() ? 7 : 5);
  int size = 7;
  auto current = std::make_shared<Log>();
  bool canFail = false;
  for (int o : prog) canFail = canFail || o == Failing;
  auto g = gen::exec([=] {
    Log l;
    *current = Log();
    try {
      execute(prog, l);
    } catch (...) {
      *current = l;
      throw;
    }
    *current = l;
    return l;
  });
  Random random(uint64_t(0));
  auto s = g(random, size);
  auto logOf = [=](const Shrinkable<Log> &x) {
    try {
      Log l = x.value();
      return l;
    } catch (const GenerationFailure &) {
      if (!canFail) vc::fail("generation failure out of nowhere");
      return *current;
    }
  };
  Log root = logOf(s);
  for (auto &p : root) checkFresh(p, "root");
  bool rootFails = !root.empty() && root.back().failed && root.back().name == "Generation failed";
  if (rootFails) {
    vc::outcome("root fails");
    return; // value and shrinks of a failed generation are not specified further
  }
  Log same = logOf(g(random, size));
  VC_CHECK(same == root, "generated anew: " << show(same) << "instead of " << show(root));
  Walk<Log, decltype(logOf)> w{logOf, size, vc::thorough() ? 400 : 60};
  // nodes below a failed generation have no shrinks to be judged
  struct Guard {};
  std::function<void(const Shrinkable<Log> &, const Log &, size_t, const std::string &)> go;
  if (!canFail) {
    w.go(s, root, 0, "r", 0);
  } else {
    auto q = s.shrinks();
    int i = 0;
    while (auto k = q.next()) {
      Log l = logOf(*k);
      checkChild(root, l, "r." + std::to_string(i++));
      checkOrigins(l, size, "r");
      vc::matched();
    }
  }
  vc::outcome(std::to_string(root.size()) + " picks");
  vc::sample(show(root));
}

// Properties: what the example lists, with and without arguments.
namespace {
template <typename Body>
void checkProperty(Body body, std::shared_ptr<Log> current, int how, const std::string &desc) {
  auto prop = toProperty(body);
  Random random(uint64_t(0));
  int size = 5;
  auto s = prop(random, size);
  auto logOf = [=](const Shrinkable<CaseDescription> &x) {
    auto d = x.value();
    Log ran = *current;
    auto ex = d.example();
    std::string got, want;
    for (auto &e : ex) got += e.first + "=" + e.second + " ";
    want = show(ran);
    if (got != want) vc::fail(desc + ": the example lists " + got + "but the run picked " + want);
    auto again = d.example();
    if (again != ex) vc::fail(desc + ": the example changes when asked for again");
    bool genFailed = !ran.empty() && ran.back().name == "Generation failed";
    auto type = genFailed ? CaseResult::Type::Discard : how == 1 ? CaseResult::Type::Failure : how == 2 ? CaseResult::Type::Discard : CaseResult::Type::Success;
    if (d.result.type != type) vc::fail(desc + ": wrong kind of result");
    return ran;
  };
  Log root = logOf(s);
  for (auto &p : root) checkFresh(p, desc);
  walk(s, root, size, logOf);
  vc::outcome(desc + " " + std::to_string(root.size()));
  vc::sample(desc + ": " + show(root));
}
Pick argPick(const std::vector<V> &vs, const std::string &type, const std::string &shown) { return {type, shown, vs}; }
} // namespace
VC_SUITE(property, 8) {
  auto prog = pickProgram(3);
  int how = vc::pick(3);
  int args = vc::pick(4);
  script(vc::thorough() ? 7 : 4);
  auto cur = std::make_shared<Log>();
  auto body = [=](Log &l) {
    struct Save { std::shared_ptr<Log> c; Log &l; ~Save() { *c = l; } } save{cur, l};
    execute(prog, l);
    if (how == 1) RC_FAIL("fails");
    if (how == 2) RC_DISCARD("discards");
  };
  switch (args) {
  case 0: checkProperty([=] { Log l; body(l); }, cur, how, "no arguments"); break;
  case 1:
    checkProperty([=](const Arg &a) {
      Log l{argPick({a}, typeToString<std::tuple<Arg>>(), toString(std::make_tuple(a)))};
      body(l);
    }, cur, how, "one argument");
    break;
  case 2:
    checkProperty([=](Arg a, const Arg &b) {
      Log l{argPick({a, b}, typeToString<std::tuple<Arg, Arg>>(), toString(std::make_tuple(a, b)))};
      body(l);
    }, cur, how, "two arguments");
    break;
  case 3:
    checkProperty([=](Arg &&a) {
      Log l{argPick({a}, typeToString<std::tuple<Arg>>(), toString(std::make_tuple(a)))};
      Arg stolen = std::move(a);
      body(l);
    }, cur, how, "rvalue argument");
    break;
  }
}

// Bodies that pick a great many times: every level along a few descents is judged in full.
namespace {
template <typename T, typename F>
void descend(Shrinkable<T> s, Log me, int size, int strategy, int depth, F logOf) {
  size_t fixed = 0;
  std::string path = "r";
  for (int d = 0;; d++) {
    checkOrigins(me, size, path);
    if (d >= depth) return;
    std::vector<Shrinkable<T>> kids;
    std::vector<long> count(me.size(), 0);
    std::vector<size_t> idx;
    std::vector<Log> logs;
    auto q = s.shrinks();
    while (auto k = q.next()) {
      Log l = logOf(*k);
      size_t at = checkChild(me, l, path + "." + std::to_string(kids.size()));
      count[at]++;
      idx.push_back(at);
      kids.push_back(*k);
      logs.push_back(l);
      vc::step();
      if (kids.size() > 2000) vc::fail(path + ": too many shrinks");
    }
    for (size_t i = fixed; i < me.size(); i++) {
      if (me[i].name == "nested" && i == fixed && d > 0) continue;
      if (count[i] != countShrinks(me[i])) vc::fail(path + ": pick " + std::to_string(i) + " of " + show(me) + "is shrunk in " + std::to_string(count[i]) + " ways instead of " + std::to_string(countShrinks(me[i])));
    }
    vc::matched((long)kids.size());
    if (kids.empty()) return;
    size_t next = strategy == 0 ? 0 : strategy == 1 ? kids.size() - 1 : strategy == 2 ? kids.size() / 2 : (size_t)(d * 7 + 3) % kids.size();
    fixed = idx[next];
    s = kids[next];
    me = logs[next];
    VC_CHECK(logOf(s) == me, path << ": another log when asked again");
    path += "." + std::to_string(next);
    vc::state(vc::hashStr(show(me)));
  }
}
std::vector<int> longProgram(int kind, int len) {
  std::vector<int> p;
  for (int i = 0; i < len; i++) {
    switch (kind) {
    case 0: p.push_back(Named); break;
    case 1: p.push_back(Unnamed); break;
    case 2: p.push_back(i % 2 ? IfLast : Named); break;
    case 3: p.push_back(i % 5 == 4 ? LoopLast : Named); break;
    case 4: p.push_back(i % 7 == 6 ? Nested : Unnamed); break;
    case 5: p.push_back(i % 3 == 2 ? Caught : Named); break;
    }
  }
  return p;
}
} // namespace
VC_SUITE(manyPicks, 36, {}) {
  int c = vc::pick(36, "program, pattern");
  static const int lens[] = {9, 17, 33, 65, 100, 130};
  int len = lens[vc::pick(vc::thorough() ? 6 : 4, "picks")];
  auto prog = longProgram(c % 6, len);
  vcr::Script sc;
  sc.maxPoints = 0;
  static const int patterns[6][2] = {{1, 0}, {2, 0}, {0, 1}, {1, 1}, {5, 7}, {2, 5}};
  sc.fill = patterns[c / 6][0];
  sc.stride = patterns[c / 6][1];
  vcr::reset(sc);
  int strategy = vc::pick(4, "descent");
  bool property = vc::pick(2, "property");
  int depth = vc::thorough() ? 40 : 8, size = 6;
  Random random(uint64_t(0));
  if (!property) {
    auto g = gen::exec([=] {
      Log l;
      execute(prog, l);
      return l;
    });
    auto s = g(random, size);
    Log root = s.value();
    for (auto &p : root) checkFresh(p, "root");
    descend(s, root, size, strategy, depth, [](const Shrinkable<Log> &x) { return x.value(); });
  } else {
    auto cur = std::make_shared<Log>();
    auto s = toProperty([=] {
      Log l;
      execute(prog, l);
      *cur = l;
    })(random, size);
    auto logOf = [=](const Shrinkable<CaseDescription> &x) {
      auto d = x.value();
      Log ran = *cur;
      auto ex = d.example();
      VC_CHECK(ex.size() == ran.size(), "the example lists " << ex.size() << " picks of " << ran.size());
      for (size_t i = 0; i < ex.size(); i++) VC_CHECK(ex[i].first == ran[i].name && ex[i].second == ran[i].shown, "entry " << i << " of the example is " << ex[i].first << "=" << ex[i].second << " but the run picked " << ran[i].name << "=" << ran[i].shown);
      return ran;
    };
    Log root = logOf(s);
    descend(s, root, size, strategy, depth, logOf);
  }
  vc::outcome(std::to_string(len) + " operations");
}

// Executed generators with arguments
VC_SUITE(execArgs, 3) {
  int c = vc::pick(3);
  script(5);
  Random random(uint64_t(0));
  auto logOf = [](const Shrinkable<Log> &x) { return x.value(); };
  auto tn = typeToString<V>();
  Gen<Log> g = c == 0 ? gen::exec([=](const Arg &a) { return Log{argPick({a}, "args", "")}; })
             : c == 1 ? gen::exec([=](Arg a, Arg b) { return Log{argPick({a, b}, "args", "")}; })
                      : gen::exec([=](Arg a, Arg b) {
                          Log l{argPick({a, b}, "args", "")};
                          if (a.x > b.x) { V v = *rawGen(3); l.push_back({tn, vc::str(v), {v}}); }
                          return l;
                        });
  auto s = g(random, 4);
  // a tuple's components may all be shrunk again, so only the relation between parent and child is judged
  std::vector<Shrinkable<Log>> level{s};
  long budget = 200;
  while (!level.empty() && budget > 0) {
    std::vector<Shrinkable<Log>> next;
    for (auto &n : level) {
      Log me = n.value();
      checkOrigins(me, 4, "args");
      auto q = n.shrinks();
      long k = 0;
      while (auto ch = q.next()) {
        Log l = ch->value();
        k++;
        budget--;
        size_t at = 0;
        while (at < me.size() && at < l.size() && me[at] == l[at]) at++;
        if (at >= me.size() || at >= l.size()) vc::fail("no shrink: " + show(l));
        int diff = 0;
        for (size_t i = 0; i < me[at].parts.size(); i++)
          if (!(me[at].parts[i] == l[at].parts[i])) {
            diff++;
            if (l[at].parts[i].origin != me[at].parts[i].origin || l[at].parts[i].x >= me[at].parts[i].x) vc::fail("argument not shrunk but replaced");
          }
        VC_CHECK(diff == 1, "shrinks " << diff << " components at once");
        for (size_t j = at + 1; j < l.size(); j++) checkFresh(l[j], "args");
        vc::matched();
        vc::step();
        vc::state(vc::hashStr(vc::strv(std::vector<int>{l[0].parts[0].x, (int)l[0].parts.size()}) + show(l)));
        next.push_back(*ch);
      }
      long want = 0;
      for (auto &v : me[0].parts) want += v.x;
      if (me.size() == 1 && !(k >= want)) vc::fail("arguments offer " + std::to_string(k) + " shrinks instead of " + std::to_string(want));
    }
    level.swap(next);
  }
}

// Picking where nothing is being generated is an error, before, after and between executions.
VC_SUITE(outside, 1) {
  int c = vc::pick(6);
  script(4);
  auto outside = [](const std::string &where) {
    try {
      *rawGen(2);
    } catch (const std::runtime_error &e) {
      VC_CHECK(!std::string(e.what()).empty(), "message");
      vc::step();
      return;
    } catch (...) {
      vc::fail(where + ": another kind of exception");
    }
    vc::fail(where + ": a pick outside succeeds");
  };
  outside("before");
  Random random(uint64_t(0));
  if (c == 0) gen::exec([] { return (*rawGen(3)).x; })(random, 3).value();
  if (c == 1) {
    auto s = gen::exec([]() -> int { *rawGen(3); throw GenerationFailure("x"); })(random, 3);
    try { s.value(); } catch (const GenerationFailure &) {}
  }
  if (c == 2) {
    Gen<V> g([&](const Random &r, int sz) { outside("inside a generator function"); return rawGen(2)(r, sz); });
    gen::exec([=] { return *g; })(random, 3).value();
    g(random, 3).value();
  }
  if (c == 3) toProperty([] { *rawGen(3); RC_FAIL("x"); })(random, 3).value();
  if (c == 4) {
    auto q = gen::exec([] { return (*rawGen(3)).x + (*rawGen(3)).x; })(random, 3).shrinks();
    while (auto k = q.next()) outside("between shrinks");
  }
  if (c == 5) { // a listener runs outside, a body inside
    struct L : TestListener {
      std::function<void()> f;
      void onTestCaseFinished(const CaseDescription &d) override { f(); d.example(); f(); }
      void onShrinkTried(const CaseDescription &, bool) override { f(); }
      void onTestFinished(const TestMetadata &, const TestResult &) override { f(); }
    } l;
    l.f = [&] { outside("listener"); };
    TestParams p;
    p.maxSuccess = 3;
    testProperty(toProperty([] { return (*rawGen(3)).x < 2; }), TestMetadata(), p, l);
  }
  outside("after");
  vc::matched();
  vc::outcome(std::to_string(c));
  vc::state(c);
}

// Whole runs: the counterexample lists the picks of the final, minimal run.
VC_SUITE(runs, 8) {
  auto prog = pickProgram(2);
  for (int o : prog)
    if (o == Failing || o == Caught) return;
  int threshold = vc::pick(4);
  script(vc::thorough() ? 6 : 5);
  std::vector<Log> logs;
  TestParams p;
  p.maxSuccess = 3;
  p.maxSize = 5;
  struct Quiet : TestListener {
    void onTestCaseFinished(const CaseDescription &) override {}
    void onShrinkTried(const CaseDescription &, bool) override {}
    void onTestFinished(const TestMetadata &, const TestResult &) override {}
  } q;
  auto total = [](const Log &l) { int t = 0; for (auto &k : l) for (auto &v : k.parts) t += v.x; return t; };
  auto res = testProperty(toProperty([&] {
                            Log l;
                            execute(prog, l);
                            logs.push_back(l);
                            return total(l) <= threshold;
                          }),
                          TestMetadata(), p, q);
  bool anyFailed = false;
  for (auto &l : logs) anyFailed = anyFailed || total(l) > threshold;
  VC_CHECK(res.is<FailureResult>() == anyFailed, "verdict");
  if (anyFailed) {
    auto &f = res.get<FailureResult>();
    bool match = false;
    std::string got;
    for (auto &e : f.counterExample) got += e.first + "=" + e.second + " ";
    for (auto &l : logs) match = match || (total(l) > threshold && show(l) == got);
    VC_CHECK(match, "the counterexample " << got << "is none of the failing runs");
    vc::outcome("fails with " + std::to_string(f.counterExample.size()));
  } else
    vc::outcome("passes");
  vc::step(logs.size());
  vc::matched();
  vc::state(vc::hashStr(vcr::log()));
}

// Handles to generators: whatever way a handle came to hold a generator, a pick from it is a pick from that generator
// under the name it was given.
VC_SUITE(handles, 36) {
  struct Ref { int value = 0; std::string name; bool live = true; };
  std::vector<Gen<int>> h{gen::just(1), gen::just(2).as("two"), gen::just(3).as("three")};
  std::vector<Ref> ref{{1, ""}, {2, "two"}, {3, "three"}};
  std::string log;
  // (the handle which is written, what is done)
  const int ops = 36;
  auto op = [&](int c) {
    int i = c / 12, j = c % 12;
    const std::string n = "n" + std::to_string(j % 2);
    if (j < 3) { // copy assignment, also to itself
      if (!ref[j].live) return false;
      h[i] = static_cast<const Gen<int> &>(h[j]);
      ref[i] = ref[j];
    } else if (j < 6) { // move assignment
      int k = j - 3;
      if (k == i || !ref[k].live) return false;
      h[i] = std::move(h[k]);
      ref[i] = ref[k];
      ref[k].live = false;
    } else if (j < 9) { // a named copy, assigned from a temporary or a handle
      int k = j - 6;
      if (!ref[k].live) return false;
      if (k == i)
        h[i] = h[k].as(n);
      else {
        const Gen<int> named = h[k].as(n);
        h[i] = named;
      }
      ref[i] = ref[k];
      ref[i].name = n;
    } else if (j == 9) { // named copy of itself through a handle
      if (!ref[i].live) return false;
      const Gen<int> named = h[i].as(n);
      h[i] = named;
      ref[i].name = n;
    } else if (j == 10) { // name taken away
      if (!ref[i].live) return false;
      const Gen<int> named = h[i].as("");
      h[i] = named;
      ref[i].name = "";
    } else { // swap
      int k = (i + 1) % 3;
      if (!ref[i].live || !ref[k].live) return false;
      std::swap(h[i], h[k]);
      std::swap(ref[i], ref[k]);
    }
    log += " " + std::to_string(c);
    vc::step();
    return true;
  };
  if (!op(vc::pick(ops))) return;
  const int depth = vc::thorough() ? 4 : 3;
  for (int d = 1; d < depth; d++)
    if (!op(vc::pick(ops))) return;
  std::vector<int> got;
  auto p = toProperty([&] {
    got.clear();
    for (int i = 0; i < 3; i++)
      if (ref[i].live) got.push_back(*h[i]);
    return false;
  });
  auto desc = p(Random(uint64_t(1)), 4).value();
  Example want;
  std::vector<int> values;
  for (int i = 0; i < 3; i++)
    if (ref[i].live) {
      values.push_back(ref[i].value);
      want.emplace_back(ref[i].name.empty() ? typeToString<int>() : ref[i].name, std::to_string(ref[i].value));
      VC_CHECK(h[i].name() == ref[i].name, "after" << log << ": handle " << i << " is named '" << h[i].name() << "', expected '" << ref[i].name << "'");
    }
  VC_CHECK(got == values, "after" << log << ": picked " << vc::strv(got) << ", expected " << vc::strv(values));
  auto ex = desc.example();
  VC_CHECK(ex == want, "after" << log << ": the example is " << toString(ex) << ", expected " << toString(want));
  vc::matched();
  vc::state(vc::hashStr(log));
}
// Very many handles to one generator.
VC_SUITE(manyHandles, 12) {
  static const std::vector<int> ns{1, 2, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 131073};
  int n = ns[vc::pick(ns.size())], order = vc::pick(3);
  int alive = 0;
  struct Life {
    int *n;
    Life(int *p) : n(p) { ++*n; }
    Life(const Life &o) : n(o.n) { ++*n; }
    ~Life() { --*n; }
  };
  {
    Life probe(&alive);
    std::vector<Gen<int>> v;
    v.reserve(n);
    {
      Gen<int> first([probe](const Random &, int) { return shrinkable::just(7); });
      for (int i = 1; i < n; i++) v.push_back(i % 3 == 0 ? first.as("x") : i % 3 == 1 ? first : v.back());
      v.push_back(std::move(first));
    }
    while (!v.empty()) {
      size_t l = v.size();
      VC_CHECK(alive == 2, "with " << l << " of " << n << " handles left, the generator has been destroyed");
      if (l < 4 || l % 16384 < 2 || (l % 128 < 2 && l < 1100)) {
        int got = 0;
        toProperty([&] { got = *v.front() * 10 + *v.back(); })(Random(uint64_t(1)), 1).value();
        VC_CHECK(got == 77, "with " << l << " of " << n << " handles left, picks give " << got);
      }
      if (order == 1 && l > 1) std::swap(v[l / 2], v.back());
      if (order == 2 && l > 1) v.back() = v[0];
      v.pop_back();
      vc::step();
    }
    VC_CHECK(alive == 1, "the generator outlives the last of " << n << " handles");
  }
  vc::matched();
  vc::state(std::to_string(n) + "," + std::to_string(order));
}
