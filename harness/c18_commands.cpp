// C18: generated and shrunk command sequences are valid.
#include "state_model.h"
#include <algorithm>
#include <cstring>
#include <set>
using namespace sm;

namespace {
struct MoveModelTag {};

// Valid from the initial state; returns the state before every command.
std::vector<Model> preStates(const Seqn &s, const Model &init, const std::string &where) {
  std::vector<Model> r;
  Model m = init;
  for (size_t i = 0; i < s.size(); i++) {
    if (!preOk(s[i]->kind, s[i]->x, m))
      vc::fail(where + ": " + show(s) + " contains " + s[i]->name() + " at " + std::to_string(i) + " whose precondition does not hold in " + m.str());
    r.push_back(m);
    applySpec(s[i]->kind, s[i]->x, m);
    vc::step();
  }
  return r;
}
// Is `child` what remains of `cand` when invalid commands are regenerated in place or dropped?
bool repaired(const Seqn &cand, const Seqn &child, const Model &init, std::string *why = nullptr) {
  Model m = init;
  size_t j = 0;
  for (auto &c : cand) {
    if (preOk(c->kind, c->x, m)) {
      if (j >= child.size() || !child[j]->same(*c)) return false;
    } else {
      if (j >= child.size() || child[j]->origin != c->origin) continue; // dropped
      if (!(child[j]->seen == m)) {
        if (why) *why = "regenerated for state " + child[j]->seen.str() + " but stands in " + m.str();
        return false;
      }
    }
    applySpec(child[j]->kind, child[j]->x, m);
    j++;
  }
  return j == child.size();
}
Seqn without(const Seqn &s, size_t l, size_t r) {
  Seqn o(s.begin(), s.begin() + l);
  o.insert(o.end(), s.begin() + r, s.end());
  return o;
}
Seqn replaced(const Seqn &s, size_t i, int x) {
  Seqn o = s;
  o[i] = std::make_shared<const Cmd>(s[i]->kind, x, s[i]->origin, s[i]->seen, s[i]->size);
  return o;
}

struct Explore {
  Model init;
  int size;
  long budget;
  size_t limit;
  long nodes = 0;

  std::vector<Shrinkable<state::Commands<Base>>> check(const Shrinkable<state::Commands<Base>> &s, const Seqn &me, const std::string &path) {
    auto pre = preStates(me, init, path);
    for (auto &c : me)
      if (c->size != size) vc::fail(path + ": command generated with size " + std::to_string(c->size));
    if (me.size() > limit) vc::fail(path + ": " + show(me) + " is longer than the limit");
    vc::state(vc::hashStr(show(me)));
    std::vector<Shrinkable<state::Commands<Base>>> kids;
    std::vector<Seqn> vals;
    auto q = s.shrinks();
    while (auto k = q.next()) {
      kids.push_back(*k);
      vals.push_back(cast(k->value()));
      if (kids.size() > 20000) vc::fail(path + ": too many shrinks");
    }
    nodes += kids.size();
    // A shrink keeps everything before the place it changes, so the place is known (origins are distinct).
    size_t n = me.size();
    std::set<std::string> distinct;
    for (auto &c : me) distinct.insert(c->origin);
    if (distinct.size() != n) vc::fail(path + ": two commands of " + show(me) + " were generated from the same random state");
    std::vector<std::vector<size_t>> at(n + 1);
    for (size_t i = 0; i < vals.size(); i++) {
      size_t p = 0;
      while (p < n && p < vals[i].size() && vals[i][p]->same(*me[p])) p++;
      at[p].push_back(i);
    }
    // every child is one removal or one shrunk command
    for (size_t p = 0; p <= n; p++)
      for (size_t i : at[p]) {
        std::string cp = path + "." + std::to_string(i), why;
        preStates(vals[i], init, cp + " (from " + show(me) + ")");
        bool ok = false;
        for (size_t r = p + 1; r <= n && !ok; r++) ok = repaired(without(me, p, r), vals[i], init, &why);
        if (p < n)
          for (int x : smaller(me[p]->x))
            if (!ok && preOk(me[p]->kind, x, pre[p])) ok = repaired(replaced(me, p, x), vals[i], init, &why);
        if (!ok) vc::fail(cp + ": " + show(vals[i]) + " is not " + show(me) + " with a part removed or one command shrunk " + why);
        vc::matched();
      }
    // every contiguous part is removed in some child, every valid shrink of every command appears
    for (size_t l = 0; l < n; l++)
      for (size_t r = l + 1; r <= n; r++) {
        bool found = false;
        auto cand = without(me, l, r);
        for (size_t i : at[l]) found = found || repaired(cand, vals[i], init);
        if (!found) vc::fail(path + ": no shrink of " + show(me) + " removes commands " + std::to_string(l) + ".." + std::to_string(r - 1));
      }
    for (size_t k = 0; k < n; k++)
      for (int x : smaller(me[k]->x)) {
        if (!preOk(me[k]->kind, x, pre[k])) continue;
        bool found = false;
        auto cand = replaced(me, k, x);
        for (size_t i : at[k]) found = found || repaired(cand, vals[i], init);
        if (!found) vc::fail(path + ": no shrink of " + show(me) + " shrinks command " + std::to_string(k) + " to operand " + std::to_string(x));
      }
    return kids;
  }
  void tree(const Shrinkable<state::Commands<Base>> &root) {
    std::vector<std::pair<Shrinkable<state::Commands<Base>>, std::string>> level{{root, "root"}}, next;
    while (!level.empty() && nodes < budget) {
      next.clear();
      for (auto &p : level) {
        auto kids = check(p.first, cast(p.first.value()), p.second);
        for (size_t i = 0; i < kids.size(); i++) next.push_back({kids[i], p.second + "." + std::to_string(i)});
        if (nodes >= budget) break;
      }
      level.swap(next);
    }
    // straight descents to the end
    for (int mode = 0; mode < 3; mode++) {
      auto s = root;
      std::string p = "root";
      for (int d = 0;; d++) {
        if (d > 200) vc::fail("chain of more than 200 shrinks from " + show(cast(root.value())));
        auto kids = check(s, cast(s.value()), p);
        if (kids.empty()) break;
        size_t i = mode == 0 ? kids.size() - 1 : mode == 1 ? kids.size() / 2 : (kids.size() * 3 / 4 + d) % kids.size();
        p += "." + std::to_string(i);
        auto k = kids[i];
        s = k;
      }
      if (!cast(s.value()).empty()) vc::fail("ends in " + show(cast(s.value())));
    }
  }
};

Model initOf(int i) {
  Model m;
  if (i == 1) m.v = {1};
  if (i == 2) m.v = {0, 2};
  return m;
}
const std::vector<std::vector<int>> kSets = {
    {Push, Pop}, {Pop, Push, Del}, {Top, Push, Nop}, {Push, Del, Top}, {Push}, {Del}, {Nop, Pop},
};

template <typename MakeGen>
void runOne(const Model &init, int size, long budget, int points, std::vector<uint64_t> alphabet, MakeGen mk, const std::string &desc) {
  vcr::Script sc;
  sc.alphabet = alphabet;
  sc.maxPoints = points;
  vcr::reset(sc);
  Random random(uint64_t(0));
  std::vector<Model> asked;
  // The number of commands asked for, seen through commands that are always valid.
  size_t wanted = 0;
  {
    auto g = state::gen::commands(init, [](const Model &m) { return Gen<BaseSP>([m](const Random &r, int sz) { return shrinkable::just<BaseSP>(std::make_shared<const Cmd>(Nop, 0, originOf(r), m, sz)); }); });
    wanted = g(random, size).value().size();
    VC_CHECK(wanted >= 1 && wanted <= (size_t)size + 1, "size " << size << ": " << wanted << " commands");
  }
  auto g = mk();
  auto s = g(random, size);
  Seqn v;
  try {
    v = cast(s.value());
  } catch (const GenerationFailure &e) {
    VC_CHECK(!std::string(e.what()).empty(), "failure without a message");
    vc::outcome(desc + " fails");
    vc::matched();
    return;
  }
  auto pre = preStates(v, init, "root");
  VC_CHECK(v.size() == wanted, "asked for " << wanted << " commands, got " << show(v) << " instead of a failure");
  for (size_t i = 0; i < v.size(); i++)
    VC_CHECK(v[i]->seen == pre[i], "command " << i << " of " << show(v) << " was generated for state " << v[i]->seen.str() << " but stands in " << pre[i].str());
  Explore e{init, size, budget, (size_t)size + 1};
  e.tree(s);
  vc::outcome(desc + " length " + std::to_string(v.size()));
  vc::sample(desc + " " + show(v) + ": " + std::to_string(e.nodes) + " shrinks checked");
}
} // namespace

// All raw number scripts for several command alphabets.
VC_SUITE(raw, 16) {
  int c = vc::pick(16);
  int init = c / 8 + (c % 8 == 7 ? 0 : 0), set = c % 8;
  std::vector<int> kinds = set < 7 ? kSets[set] : std::vector<int>{Push, Pop, Del, Top, Nop};
  int size = vc::pick(4);
  RawGen rg{kinds};
  Model m = initOf(init);
  bool th = vc::thorough();
  std::vector<uint64_t> al = kinds.size() > 3 ? std::vector<uint64_t>{0, 1, 2, 3, 4} : std::vector<uint64_t>{0, 1, 2, 5};
  if (!th && size >= 2 && kinds.size() <= 3) al = {0, 1, 2};
  runOne(m, size, th ? 600 : 150, th ? 9 : (size >= 2 ? 7 : 6), al, [&] { return state::gen::commands(m, rg); }, "set " + std::to_string(set));
}

// Command generators that fail or discard for some numbers: another one is tried.
VC_SUITE(flaky, 8) {
  int c = vc::pick(8);
  RawGen rg{kSets[c % 4]};
  rg.failKind = c / 4;
  int size = vc::pick(3);
  Model m = initOf(0);
  runOne(m, size, vc::thorough() ? 400 : 100, vc::thorough() ? 9 : 7, {0, 1, 3}, [&] { return state::gen::commands(m, rg); }, "flaky " + std::to_string(c));
}

// Longer sequences: every number in turn replaced in a fixed background.
VC_SUITE(longer, 8, o.maxDev = vc::thorough() ? 4 : 3) {
  int c = vc::pick(8);
  std::vector<int> kinds = c < 4 ? std::vector<int>{Nop, Push, Pop, Del, Top} : std::vector<int>{Push, Nop, Pop, Top, Del};
  if (c % 4 == 1) kinds = {Nop, Pop, Push};
  RawGen rg{kinds};
  int size = 5 + c % 4;
  Model m = initOf(c % 3);
  runOne(m, size, 120, 18, {7, 0, 1, 2, 3, 4}, [&] { return state::gen::commands(m, rg); }, "long " + std::to_string(c));
}

// Sequences far longer than the ones above: every direct shrink of the root and of a few nodes below it.
VC_SUITE(hundred, 24, {}) {
  int c = vc::pick(24, "size, commands");
  static const int sizes[] = {20, 40, 60, 100};
  int size = sizes[c % 4];
  if (size == 100 && !vc::thorough()) size = 80;
  static const std::vector<std::vector<int>> sets = {{Nop}, {Push, Pop}, {Push, Nop, Pop, Top, Del}, {Nop, Push, Pop}, {Push, Del, Nop, Top}, {Push, Nop, Nop, Nop, Nop, Nop, Nop, Pop}};
  RawGen rg{sets[c / 4]};
  Model m = initOf(vc::pick(2, "initial state"));
  static const int patterns[][2] = {{97, 0}, {19, 1}, {77, 5}, {58, 7}, {91, 3}};
  int pat = vc::pick(5, "numbers");
  vcr::Script sc;
  sc.maxPoints = 0;
  sc.fill = patterns[pat][0];
  sc.stride = patterns[pat][1];
  vcr::reset(sc);
  auto s = state::gen::commands(m, rg)(Random(uint64_t(0)), size);
  Seqn v;
  try {
    v = cast(s.value());
  } catch (const GenerationFailure &) {
    vc::outcome("fails");
    return;
  }
  auto pre = preStates(v, m, "root");
  for (size_t i = 0; i < v.size(); i++)
    VC_CHECK(v[i]->seen == pre[i], "command " << i << " of " << show(v) << " was generated for state " << v[i]->seen.str() << " but stands in " << pre[i].str());
  Explore e{m, size, 0, (size_t)size + 1};
  int mode = vc::pick(4, "descent");
  std::string p = "root";
  for (int d = 0; d < (vc::thorough() ? 8 : 3); d++) {
    auto kids = e.check(s, cast(s.value()), p);
    if (kids.empty()) break;
    size_t i = mode == 0 ? kids.size() - 1 : mode == 1 ? kids.size() / 2 : mode == 2 ? kids.size() / 3 : std::min<size_t>(kids.size() - 1, v.size() + 1);
    p += "." + std::to_string(i);
    auto k = kids[i];
    s = k;
  }
  vc::outcome("length " + std::to_string(v.size()));
}

// The initial state given by a callable; a callable result is used, not a stale copy.
VC_SUITE(callable, 4) {
  int init = vc::pick(3);
  int set = vc::pick(4);
  int size = vc::pick(3);
  RawGen rg{kSets[set]};
  Model m = initOf(init);
  runOne(m, size, 100, 7, {0, 1, 2}, [&] { return state::gen::commands([m] { return m; }, rg); }, "callable");
}

// No command is ever valid, or only some states have one: failure with a message, no hang, never an invalid sequence.
VC_SUITE(dead, 1) {
  int c = vc::pick(3);
  int size = vc::pick(6);
  std::vector<int> kinds = c == 0 ? std::vector<int>{Del} : c == 1 ? std::vector<int>{Pop} : std::vector<int>{Push};
  RawGen rg{kinds};
  Model m;
  vcr::Script sc;
  sc.alphabet = {0, 1, 2, 3, 4, 5};
  sc.maxPoints = 3;
  vcr::reset(sc);
  auto s = state::gen::commands(m, rg)(Random(uint64_t(0)), size);
  bool failed = false;
  try {
    auto v = cast(s.value());
    preStates(v, m, "root");
    VC_CHECK(c == 2, "a sequence without any valid command: " << show(v));
  } catch (const GenerationFailure &e) {
    failed = true;
    VC_CHECK(!std::string(e.what()).empty(), "no message");
  }
  vc::outcome(failed ? "fails" : "works");
  vc::state(vc::mix(c, vc::mix(size, failed)));
  vc::step();
  vc::matched();
}

// ---- commands constructed by execOneOf / execOneOfWithArgs ---------------------------------------
namespace {
struct EModel {
  int sum = 0, n = 0;
};
struct ESut {};
using EBase = state::Command<EModel, ESut>;
std::string ekind(const EBase &c) { std::ostringstream os; c.show(os); return os.str(); }
struct EAdd : EBase { // picks an operand, discards some
  int x, sawSum, sawN;
  explicit EAdd(const EModel &m) : x(*gen::resize(100, gen::inRange(0, 6))), sawSum(m.sum), sawN(m.n) { RC_PRE(x != 1 && x != 3); }
  void checkPreconditions(const EModel &m) const override { RC_PRE(m.sum + x <= 6); }
  void apply(EModel &m) const override { m.sum += x; m.n++; }
  void show(std::ostream &os) const override { os << "A" << x; }
};
struct ESub : EBase { // operand depends on the state given
  int x, sawSum, sawN;
  explicit ESub(const EModel &m) : x(*gen::resize(100, gen::inRange(0, m.sum + 1))), sawSum(m.sum), sawN(m.n) {}
  void checkPreconditions(const EModel &m) const override { RC_PRE(m.sum >= x && m.sum > 0); }
  void apply(EModel &m) const override { m.sum -= x; m.n++; }
  void show(std::ostream &os) const override { os << "S" << x; }
};
struct EZero : EBase { // default constructible only
  void checkPreconditions(const EModel &m) const override { RC_PRE(m.n < 3); }
  void apply(EModel &m) const override { m.sum = 0; m.n++; }
  void show(std::ostream &os) const override { os << "Z"; }
};
std::string eshow(const state::Commands<EBase> &s) {
  std::string r;
  for (auto &c : s) r += ekind(*c) + " ";
  return r;
}
struct EInfo { int kind, x, sawSum, sawN; };
EInfo einfo(const EBase &c) {
  if (auto a = dynamic_cast<const EAdd *>(&c)) return {0, a->x, a->sawSum, a->sawN};
  if (auto a = dynamic_cast<const ESub *>(&c)) return {1, a->x, a->sawSum, a->sawN};
  if (dynamic_cast<const EZero *>(&c)) return {2, 0, -1, -1};
  vc::fail("unknown command");
}
bool evalid(const EInfo &i, const EModel &m) { return i.kind == 0 ? m.sum + i.x <= 6 && i.x != 1 && i.x != 3 : i.kind == 1 ? m.sum >= i.x && m.sum > 0 : m.n < 3; }
void eapply(const EInfo &i, EModel &m) {
  m.n++;
  if (i.kind == 0) m.sum += i.x;
  if (i.kind == 1) m.sum -= i.x;
  if (i.kind == 2) m.sum = 0;
}
std::vector<EModel> echeck(const state::Commands<EBase> &s, const std::string &where, bool root) {
  std::vector<EModel> pre;
  EModel m;
  for (auto &c : s) {
    auto i = einfo(*c);
    if (!evalid(i, m)) vc::fail(where + ": " + eshow(s) + "contains the invalid command " + ekind(*c));
    if (root && i.sawN >= 0 && (i.sawSum != m.sum || i.sawN != m.n)) vc::fail(where + ": " + eshow(s) + ": " + ekind(*c) + " was constructed for another state than its own");
    pre.push_back(m);
    eapply(i, m);
  }
  vc::step(s.size());
  return pre;
}
std::vector<int> ekinds(const state::Commands<EBase> &s) {
  std::vector<int> r;
  for (auto &c : s) r.push_back(einfo(*c).kind);
  return r;
}
bool subsequence(const std::vector<int> &a, const std::vector<int> &b) {
  size_t j = 0;
  for (size_t i = 0; i < b.size() && j < a.size(); i++)
    if (a[j] == b[i]) j++;
  return j == a.size();
}
// what a picked operand x of inRange(0, hi) shrinks to
std::vector<int> rangeShrinks(int x) {
  std::vector<int> r;
  auto q = shrink::towards(x, 0);
  while (auto v = q.next()) r.push_back(*v);
  return r;
}
bool g_kindFixed = true; // the kind of a regenerated command does not depend on the state
void etree(const Shrinkable<state::Commands<EBase>> &s, const std::string &path, long &budget) {
  auto me = s.value();
  auto pre = echeck(me, path, path == "root");
  std::vector<state::Commands<EBase>> vals;
  std::vector<Shrinkable<state::Commands<EBase>>> kids;
  auto q = s.shrinks();
  while (auto k = q.next()) {
    kids.push_back(*k);
    vals.push_back(k->value());
    echeck(vals.back(), path + "." + std::to_string(vals.size() - 1), false);
    if (g_kindFixed && !subsequence(ekinds(vals.back()), ekinds(me))) vc::fail(path + ": " + eshow(vals.back()) + "is not made of commands of " + eshow(me));
    budget--;
    vc::matched();
  }
  vc::state(vc::hashStr(eshow(me)));
  // shrunk operands are offered wherever they are valid, whatever other shrinks discard
  for (size_t i = 0; i < me.size(); i++) {
    auto inf = einfo(*me[i]);
    if (inf.kind != 0) continue;
    for (int x : rangeShrinks(inf.x)) {
      EInfo to = inf;
      to.x = x;
      if (!evalid(to, pre[i])) continue;
      bool found = false;
      for (auto &v : vals) {
        if (v.size() <= i) continue;
        auto vi = einfo(*v[i]);
        bool prefix = vi.kind == 0 && vi.x == x;
        for (size_t j = 0; j < i && prefix; j++) prefix = ekind(*v[j]) == ekind(*me[j]);
        found = found || prefix;
      }
      if (!found) vc::fail(path + ": no shrink of " + eshow(me) + "replaces " + ekind(*me[i]) + " by A" + std::to_string(x) + " although that is valid");
    }
  }
  for (size_t l = 0; l < me.size(); l++) { // each single command can go
    bool found = false;
    for (auto &v : vals) {
      if (v.size() < l) continue;
      bool prefix = v.size() < me.size();
      for (size_t j = 0; j < l && prefix; j++) prefix = ekind(*v[j]) == ekind(*me[j]);
      found = found || prefix;
    }
    if (!found) vc::fail(path + ": no shrink of " + eshow(me) + "removes command " + std::to_string(l));
  }
  for (size_t i = 0; i < kids.size(); i++) {
    if (budget <= 0) return;
    etree(kids[i], path + "." + std::to_string(i), budget);
  }
}
template <typename G>
void erun(G g, int size, int points, const std::string &desc) {
  vcr::Script sc;
  sc.alphabet = {0, 1, 2, 3, 5};
  if (!vc::thorough()) sc.alphabet = {0, 1, 2, 5};
  sc.maxPoints = points;
  vcr::reset(sc);
  Random random(uint64_t(0));
  auto s = g(random, size);
  try {
    s.value();
  } catch (const GenerationFailure &) {
    vc::outcome(desc + " fails");
    vc::matched();
    return;
  }
  VC_CHECK(s.value().size() <= (size_t)size + 1 && s.value().size() >= 1, "length " << s.value().size() << " at size " << size);
  long budget = vc::thorough() ? 600 : 150;
  etree(s, "root", budget);
  vc::outcome(desc + " " + std::to_string(s.value().size()));
  vc::sample(desc + " " + eshow(s.value()));
}
} // namespace

VC_SUITE(execOneOf, 4) {
  int c = vc::pick(4);
  int size = vc::pick(4);
  int pts = vc::thorough() ? 8 : 7;
  EModel m;
  g_kindFixed = c != 3;
  if (c == 0) erun(state::gen::commands(m, state::gen::execOneOfWithArgs<EAdd, ESub, EZero>()), size, pts, "withArgs");
  if (c == 1) erun(state::gen::commands(m, &state::gen::execOneOf<EAdd, ESub>), size, pts, "plain");
  if (c == 2) erun(state::gen::commands([=] { return m; }, [](const EModel &s) { return state::gen::execOneOfWithArgs<ESub, EAdd>()(s); }), size, pts, "callable");
  if (c == 3) erun(state::gen::commands(m, [](const EModel &s) { return s.n % 2 ? state::gen::execOneOfWithArgs<EZero, ESub>()(s) : state::gen::execOneOfWithArgs<EAdd>()(s); }), size, pts, "alternating");
}

// ---- exceptions: an error of the test code is not taken for an invalid command ---------------------
namespace {
struct TModel { int n = 0; };
struct TSut {};
using TBase = state::Command<TModel, TSut>;
enum Where { InFunc, InGen, InPre, InApply, InCtor };
enum What { FailureResult_, DiscardResult_, GenFailure, StdError, IntError };
const char *whereName[] = {"generator function", "generator", "checkPreconditions", "apply", "constructor"};
void throwIt(int what) {
  switch (what) {
  case FailureResult_: RC_FAIL("my failure");
  case DiscardResult_: RC_DISCARD("my discard");
  case GenFailure: throw GenerationFailure("my generation failure");
  case StdError: throw std::runtime_error("my error");
  default: throw 4711;
  }
}
struct TPlan {
  int where, what, at; // thrown when the model has seen `at` commands (and, for retries, only by the first `times` attempts)
  int times;
  int done = 0;
  bool hit(int w, int n) { return w == where && n == at && done < times && ++done; }
};
TPlan *g_plan;
struct TCmd : TBase {
  explicit TCmd(const TModel &m) {
    if (g_plan->hit(InCtor, m.n)) throwIt(g_plan->what);
  }
  void checkPreconditions(const TModel &m) const override {
    if (g_plan->hit(InPre, m.n)) throwIt(g_plan->what);
  }
  void apply(TModel &m) const override {
    if (g_plan->hit(InApply, m.n)) throwIt(g_plan->what);
    m.n++;
  }
};
} // namespace
VC_SUITE(throwing, 25) {
  int c = vc::pick(25, "where, what");
  TPlan plan{c / 5, c % 5, vc::pick(3, "at"), 0};
  static const int kTimes[] = {1, 99, 100, 1000000};
  plan.times = kTimes[vc::pick(4, "times")];
  g_plan = &plan;
  int never = -1;
  vcr::Script sc;
  sc.maxPoints = 0;
  sc.fill = 3 + vc::pick(2, "numbers");
  vcr::reset(sc);
  int size = 4 + vc::pick(3);
  auto g = state::gen::commands(TModel(), [](const TModel &m) -> Gen<std::shared_ptr<const TBase>> {
    if (g_plan->hit(InFunc, m.n)) throwIt(g_plan->what);
    if (g_plan->where == InGen) return Gen<std::shared_ptr<const TBase>>([m](const Random &, int) {
      if (g_plan->hit(InGen, m.n)) throwIt(g_plan->what);
      return shrinkable::just<std::shared_ptr<const TBase>>(std::make_shared<const TCmd>(m));
    });
    return state::gen::execOneOfWithArgs<TCmd>()(m);
  });
  std::swap(plan.at, never);
  size_t want = g(Random(uint64_t(0)), size).value().size(); // without any exception
  std::swap(plan.at, never);
  auto s = g(Random(uint64_t(0)), size);
  std::string got;
  size_t n = 0;
  try {
    n = s.value().size();
    got = "ok";
  } catch (const GenerationFailure &e) {
    got = std::string("generation failure: ") + e.what();
  } catch (const rc::detail::CaseResult &r) {
    got = std::string(r.type == rc::detail::CaseResult::Type::Failure ? "failure: " : r.type == rc::detail::CaseResult::Type::Discard ? "discard: " : "success: ") + r.description;
  } catch (const std::exception &e) {
    got = std::string("exception: ") + e.what();
  } catch (int i) {
    got = "int: " + std::to_string(i);
  }
  bool reached = (size_t)plan.at < want;
  auto has = [&](const char *a, const char *b) { return got.compare(0, strlen(a), a) == 0 && got.find(b) != std::string::npos; };
  std::string what = std::string("thrown by the ") + whereName[plan.where] + " " + std::to_string(plan.times) + " times: " + got;
  VC_CHECK(reached == (plan.done > 0), what << ": the command is not reached");
  if (got == "ok") VC_CHECK(n == want, what << ": " << n << " commands instead of " << want);
  if (!reached) VC_CHECK(got == "ok", what);
  else if (plan.what == FailureResult_) VC_CHECK(has("failure: ", "my failure"), what);
  else if (plan.what == StdError) VC_CHECK(has("exception: ", "my error"), what);
  else if (plan.what == IntError) VC_CHECK(has("int: ", "4711"), what);
  else if (plan.where == InApply && plan.what == DiscardResult_) VC_CHECK(has("generation failure: ", "my discard"), what); // documented
  else if (plan.where == InApply || plan.where == InFunc || (plan.where == InPre && plan.what == GenFailure)) // an invalid state or command: tried again or reported
    VC_CHECK(got == "ok" || has("generation failure: ", "") || has("discard: ", "my discard"), what);
  else if (plan.times < 100) VC_CHECK(got == "ok", what << " although a later attempt would succeed"); // tried again
  else VC_CHECK(has("generation failure: ", ""), what);
  if (got == "ok") { // nothing throws any more or what throws is one invalid shrink among others
    auto q = s.shrinks();
    size_t k = 0;
    while (auto x = q.next()) k++;
    if (plan.times == 1) VC_CHECK(k == want * (want + 1) / 2, what << ": " << k << " shrinks");
  }
  vc::step();
  vc::matched();
  vc::outcome(whereName[plan.where] + got.substr(0, 12));
  vc::state(vc::mix(c, vc::mix(plan.at, vc::mix(plan.times, size))));
}

// ---- shrinks of commands that cannot be evaluated or are invalid are passed over, the others all stay ----
namespace {
enum Kind { Fine, FailsToGenerate, Discards, PreFails, NumKinds };
struct SCmd : TBase {
  int id, x;
  SCmd(int i, int v) : id(i), x(v) {}
  void checkPreconditions(const TModel &) const override {
    if (x % NumKinds == PreFails) RC_DISCARD("not now");
  }
  void apply(TModel &m) const override { m.n++; }
};
using SP = std::shared_ptr<const TBase>;
// The alternative number i of command `id` has the value 10 * (i + 1) * NumKinds + kind.
Shrinkable<SP> sAlternative(int id, int i, int kind, std::vector<int> deeper) {
  int x = 10 * (i + 1) * NumKinds + kind;
  return shrinkable::lambda([=]() -> SP {
    if (kind == FailsToGenerate) throw GenerationFailure("no value");
    if (kind == Discards) RC_DISCARD("no value");
    return std::make_shared<const SCmd>(id, x);
  }, [=] {
    std::vector<Shrinkable<SP>> v;
    for (size_t k = 0; k < deeper.size(); k++) v.push_back(sAlternative(id, 10 * (i + 1) + (int)k, deeper[k], {}));
    return seq::fromContainer(std::move(v));
  });
}
} // namespace
VC_SUITE(shrinksThatThrow, 16) {
  int c = vc::pick(NumKinds * NumKinds * NumKinds, "kinds of the alternatives of the first command");
  std::vector<std::vector<int>> kinds(3);
  for (int k = 0; k < 3; k++, c /= NumKinds) kinds[0].push_back(c % NumKinds);
  int alternatives = vc::pick(3, "alternatives of the second command");
  for (int k = 0; k < alternatives; k++) kinds[1].push_back(vc::pick(NumKinds, "kind"));
  kinds[2] = {Fine};
  vcr::Script sc;
  sc.maxPoints = 0;
  sc.fill = 3; // one number for everything: the length is 3 (or less for small sizes)
  vcr::reset(sc);
  int size = 4 + vc::pick(3, "size");
  auto next = std::make_shared<int>(0);
  auto g = state::gen::commands(TModel(), [=](const TModel &) -> Gen<SP> {
    return Gen<SP>([=](const Random &, int) {
      int id = (*next)++;
      auto ks = kinds[id < 3 ? id : 2];
      return shrinkable::lambda([=]() -> SP { return std::make_shared<const SCmd>(id, 0); }, [=] {
        std::vector<Shrinkable<SP>> v;
        for (size_t i = 0; i < ks.size(); i++) v.push_back(sAlternative(id, (int)i, ks[i], kinds[1]));
        return seq::fromContainer(std::move(v));
      });
    });
  });
  auto s = g(Random(uint64_t(0)), size);
  size_t n = s.value().size();
  VC_CHECK(n > 0 && *next == (int)n, "no commands to shrink");
  struct Rec {
    static void check(const Shrinkable<state::Commands<TBase>> &s, const std::vector<std::vector<int>> &kinds, int depth) {
      auto me = s.value();
      auto at = [&](size_t i) { return static_cast<const SCmd &>(*me[i]); };
      // what can replace each command: the valid alternatives of what it is now
      std::vector<std::vector<int>> want(me.size());
      for (size_t i = 0; i < me.size(); i++) {
        int x = at(i).x, id = at(i).id, alt = x / NumKinds / 10; // 0: the original
        if (alt >= 10) continue;
        auto &ks = x ? kinds[1] : kinds[id < 3 ? id : 2];
        for (size_t k = 0; k < ks.size(); k++)
          if (ks[k] == Fine) want[i].push_back(x ? 10 * (10 * alt + (int)k + 1) * NumKinds : 10 * ((int)k + 1) * NumKinds);
      }
      std::vector<std::vector<int>> got(me.size());
      size_t removals = 0;
      auto q = s.shrinks();
      while (auto k = q.next()) {
        auto v = k->value();
        if (v.size() < me.size()) {
          removals++;
          continue;
        }
        VC_CHECK(v.size() == me.size(), "a shrink is longer");
        size_t diff = 0, where = 0;
        for (size_t i = 0; i < v.size(); i++) {
          auto &a = static_cast<const SCmd &>(*v[i]);
          VC_CHECK(a.id == at(i).id, "a shrink has the commands in another order");
          VC_CHECK(a.x % NumKinds == Fine, "a shrink contains the invalid command " << a.x);
          if (a.x != at(i).x) diff++, where = i;
        }
        VC_CHECK(diff == 1, "a shrink changes " << diff << " commands");
        got[where].push_back(static_cast<const SCmd &>(*v[where]).x);
        if (depth > 0) check(*k, kinds, depth - 1);
        vc::step();
      }
      VC_CHECK(removals == me.size() * (me.size() + 1) / 2, removals << " shrinks remove commands from " << me.size());
      for (size_t i = 0; i < me.size(); i++) {
        std::sort(got[i].begin(), got[i].end());
        VC_CHECK(got[i] == want[i], "command " << i << " (" << at(i).x << ") shrinks to " << vc::strv(got[i]) << " instead of " << vc::strv(want[i]));
        vc::state(vc::hashStr(vc::strv(got[i])));
      }
    }
  };
  Rec::check(s, kinds, 1);
  vc::matched();
}

// ---- what a command need not define, and how commands are constructed from several arguments -------
namespace named {
struct Plain : TBase {};
struct Pair : TBase {
  int a, b;
  Pair(int x, int y) : a(x), b(y) {}
  void show(std::ostream &os) const override { os << "pair " << a << " " << b; }
};
struct First : TBase { // not constructible from (int, int): default constructed
  int a;
  explicit First(int x) : a(x) {}
  First() : a(-1) {}
  void show(std::ostream &os) const override { os << "first " << a; }
};
} // namespace named
VC_SUITE(defaults, 1) {
  int nargs = vc::pick(3), which = vc::pick(3), a = vc::pick(3), b = vc::pick(2);
  vcr::Script sc;
  sc.fill = 0;
  vcr::reset(sc);
  std::string text;
  auto take = [&](const Gen<std::shared_ptr<const TBase>> &g) {
    auto s = g(Random(uint64_t(0)), 10);
    auto p = s.value();
    std::ostringstream os;
    p->show(os);
    text = os.str();
    TModel m;
    m.n = 5;
    p->checkPreconditions(m); // nothing to check
    p->apply(m);              // changes nothing
    TSut sut;
    p->run(m, sut); // does nothing
    VC_CHECK(m.n == 5 && p->nextState(m).n == 5, "the default apply changed the model");
    VC_CHECK(rc::toString(*p) == text, "shown as " << rc::toString(*p) << " instead of " << text);
    state::Commands<TBase> cs{p, p};
    VC_CHECK(rc::toString(cs) == text + "\n" + text + "\n", "a sequence is shown as " << rc::toString(cs));
    VC_CHECK(state::isValidSequence(cs, m) && state::isValidCommand(*p, m), "always valid");
  };
  using named::Plain; using named::Pair; using named::First;
  namespace sg = state::gen;
  if (nargs == 0) which == 0 ? take(sg::execOneOfWithArgs<Plain>()()) : take(sg::execOneOfWithArgs<First>()());
  if (nargs == 1) which == 0 ? take(sg::execOneOfWithArgs<Plain>()(a)) : take(sg::execOneOfWithArgs<First>()(a));
  if (nargs == 2) which == 0 ? take(sg::execOneOfWithArgs<Plain>()(a, b)) : which == 1 ? take(sg::execOneOfWithArgs<First>()(a, b)) : take(sg::execOneOfWithArgs<Pair>()(a, b));
  std::string want = which == 0 ? "named::Plain" : nargs == 1 ? "first " + std::to_string(a) : nargs == 2 && which == 2 ? "pair " + std::to_string(a) + " " + std::to_string(b) : "first -1";
  VC_CHECK(text == want, "shown as " << text << " instead of " << want);
  vc::step();
  vc::matched();
  vc::outcome(text);
  vc::state(vc::mix(nargs, vc::mix(which, vc::mix(a, b))));
}
