// C19: stateful checks run model and system in lockstep.
#include "state_model.h"
using namespace sm;
using namespace rc::detail;

namespace {
// Faults of the system under test; they depend only on the commands run so far in the case.
enum Fault { None, PushTop, ThirdRun, PopAfterPush2, DelAny, SizeTwo, ThrowStd, DiscardOnTop, NonFatal, NFaults, Late, ManyPush };
const char *faultName[] = {"none", "push2", "third", "pop after push>=1", "del", "size two", "throw", "discard", "nonfatal", "", "late", "many pushes"};
struct Entry { int kind, x; };
// true if the fault strikes when the last of `run` is executed
bool strikes(int f, const std::vector<Entry> &run) {
  const Entry &l = run.back();
  switch (f) {
  case PushTop: return l.kind == Push && l.x == 2;
  case ThirdRun: return run.size() == 3;
  case PopAfterPush2: {
    if (l.kind != Pop) return false;
    for (auto &e : run)
      if (e.kind == Push && e.x >= 1) return true;
    return false;
  }
  case DelAny: case ThrowStd: return l.kind == Del;
  case SizeTwo: {
    int n = 0;
    for (auto &e : run) n += e.kind == Push ? 1 : e.kind == Pop || e.kind == Del ? -1 : 0;
    return n == 2 && l.kind == Push;
  }
  case DiscardOnTop: return l.kind == Top;
  case Late: return run.size() == 25;
  case ManyPush: {
    int n = 0;
    for (auto &e : run) n += e.kind == Push;
    return l.kind == Push && n == 12;
  }
  case NonFatal: return l.kind == Push && l.x >= 1;
  default: return false;
  }
}
std::string showRun(const std::vector<Entry> &r) {
  std::string s;
  for (auto &e : r) s += kindName(e.kind) + std::to_string(e.x) + "\n";
  return s;
}
struct Case {
  std::vector<Entry> run;
  bool finished = false; // state::check returned
  bool struck = false;
};
struct World {
  Model init;
  int fault;
  std::vector<Case> cases;
  int madeInitial = 0;

  void onRun(int kind, int x, const Model &m) {
    Case &c = cases.back();
    Model want = init;
    for (auto &e : c.run) applySpec(e.kind, e.x, want);
    if (!(want == m)) vc::fail("command " + std::to_string(c.run.size()) + " (" + kindName(kind) + std::to_string(x) + " after " + showRun(c.run) + ") was given state " + m.str() + ", the commands before it lead to " + want.str());
    if (c.struck && fault != NonFatal) vc::fail("a command runs after the one that failed");
    if (!preOk(kind, x, m)) vc::fail(std::string("a command is run whose precondition does not hold: ") + kindName(kind) + std::to_string(x) + " in " + m.str());
    c.run.push_back({kind, x});
    vc::step();
    if (strikes(fault, c.run)) {
      c.struck = true;
      if (fault == ThrowStd) throw std::runtime_error("sut broke");
      if (fault == DiscardOnTop) RC_DISCARD("sut discards");
      if (fault == NonFatal) { rc::detail::ImplicitParam<rc::detail::param::CurrentPropertyContext>::value()->reportResult(CaseResult(CaseResult::Type::Failure, "nonfatal")); return; }
      RC_FAIL("sut broke");
    }
  }
};
struct Rec : TestListener {
  std::function<size_t()> now = [] { return size_t(0); }; // index of the body run that just ended
  std::vector<size_t> caseRun, shrinkRun;
  std::vector<CaseDescription> cases;
  std::vector<std::pair<CaseDescription, bool>> shrinks;
  void onTestCaseFinished(const CaseDescription &d) override { cases.push_back(d); caseRun.push_back(now()); }
  void onShrinkTried(const CaseDescription &d, bool a) override { shrinks.push_back({d, a}); shrinkRun.push_back(now()); }
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};
std::string sequenceText(const CaseDescription &d) {
  auto ex = d.example();
  if (ex.size() != 1) return "?" + std::to_string(ex.size());
  return ex[0].second;
}
std::vector<Entry> parse(const std::string &t) {
  std::vector<Entry> r;
  std::istringstream is(t);
  std::string l;
  while (std::getline(is, l)) {
    if (l.size() < 2) vc::fail("counterexample line '" + l + "'");
    int k = -1;
    for (int i = 0; i < NKinds; i++)
      if (l.substr(0, l.size() - 1) == kindName(i)) k = i;
    if (k < 0) vc::fail("counterexample line '" + l + "'");
    r.push_back({k, l.back() - '0'});
  }
  return r;
}
// Does this sequence (from init) fail? -1 invalid, 0 passes, 1 fails at its last command, 2 fails earlier
int evaluate(const std::vector<Entry> &s, const World &w, size_t *at = nullptr) {
  Model m = w.init;
  std::vector<Entry> run;
  bool nf = false;
  for (size_t i = 0; i < s.size(); i++) {
    if (!preOk(s[i].kind, s[i].x, m)) return -1;
    run.push_back(s[i]);
    if (strikes(w.fault, run) && w.fault != DiscardOnTop) {
      if (at) *at = i;
      if (w.fault != NonFatal) return i + 1 == s.size() ? 1 : 2;
      nf = true;
    }
    applySpec(s[i].kind, s[i].x, m);
  }
  return nf ? 2 : 0;
}
// The body ran a prefix of exactly the sequence described
void checkCase(const Case &c, const CaseDescription &d, const World &w, const std::string &where) {
  auto text = sequenceText(d);
  if (text[0] == '?') { // generation failed: nothing ran
    if (!c.run.empty()) vc::fail(where + ": commands ran although nothing was generated");
    return;
  }
  if (text == "Generation failed" || (d.result.type == CaseResult::Type::Discard && c.run.empty() && !c.finished)) {
    if (!c.run.empty()) vc::fail(where + ": commands ran although nothing was generated");
    return;
  }
  auto seq = parse(text);
  if (c.finished) {
    if (showRun(c.run) != text) vc::fail(where + ": the sequence is\n" + text + "but what ran is\n" + showRun(c.run));
  } else {
    if (c.run.size() > seq.size() || !c.struck) vc::fail(where + ": the sequence is\n" + text + "but what ran is\n" + showRun(c.run));
    std::vector<Entry> pre(seq.begin(), seq.begin() + c.run.size());
    if (showRun(pre) != showRun(c.run)) vc::fail(where + ": the sequence is\n" + text + "but what ran is\n" + showRun(c.run));
  }
  auto want = !c.struck ? CaseResult::Type::Success : w.fault == DiscardOnTop ? CaseResult::Type::Discard : CaseResult::Type::Failure;
  if (d.result.type != want) vc::fail(where + ": result type " + std::to_string((int)d.result.type) + " for sequence\n" + text);
  if (c.finished == (c.struck && w.fault != NonFatal)) vc::fail(where + ": check " + (c.finished ? "returned" : "did not return") + " for sequence\n" + text);
  vc::matched();
}
void runProperty(World &w, const RawGen &rg, int variant, int maxSuccess, int maxSize, const std::string &desc) {
  auto body = [&] {
    w.cases.push_back(Case());
    Sut sut;
    sut.onRun = [&](int k, int x, const Model &m) { w.onRun(k, x, m); };
    if (variant == 0) state::check(w.init, sut, rg);
    if (variant == 1)
      state::check([&] { w.madeInitial++; return w.init; }, sut, rg);
    w.cases.back().finished = true;
  };
  TestParams p;
  p.maxSuccess = maxSuccess;
  p.maxSize = maxSize;
  p.maxDiscardRatio = 5;
  Rec rec;
  rec.now = [&] { return w.cases.size() - 1; };
  auto result = testProperty(toProperty(body), TestMetadata(), p, rec);
  std::vector<Case> ran = w.cases; // describing an example may run the body again
  if (rec.cases.size() + rec.shrinks.size() > ran.size()) vc::fail("more notifications than runs of the body");
  for (size_t i = 0; i < rec.cases.size(); i++) checkCase(ran[rec.caseRun[i]], rec.cases[i], w, desc + " case " + std::to_string(i));
  for (size_t i = 0; i < rec.shrinks.size(); i++) checkCase(ran[rec.shrinkRun[i]], rec.shrinks[i].first, w, desc + " shrink " + std::to_string(i));
  if (result.is<FailureResult>()) {
    auto f = result.get<FailureResult>();
    if (f.counterExample.size() != 1) vc::fail("counterexample of " + std::to_string(f.counterExample.size()) + " parts");
    auto seq = parse(f.counterExample[0].second);
    size_t at = 0;
    int e = evaluate(seq, w, &at);
    if (e < 0) vc::fail(desc + ": the reported counterexample is not valid:\n" + f.counterExample[0].second);
    if (e == 0) vc::fail(desc + ": the reported counterexample does not fail:\n" + f.counterExample[0].second);
    if (at + 1 != seq.size()) vc::fail(desc + ": the last command of the reported counterexample is not needed:\n" + f.counterExample[0].second);
    for (size_t l = 0; l < seq.size(); l++) // no command can be left out
      for (size_t r = l + 1; r <= seq.size(); r++) {
        auto s = seq;
        s.erase(s.begin() + l, s.begin() + r);
        if (evaluate(s, w) > 0) vc::fail(desc + ": commands " + std::to_string(l) + ".." + std::to_string(r - 1) + " of the reported counterexample are not needed:\n" + f.counterExample[0].second);
      }
    if (f.description.find(w.fault == NonFatal ? "nonfatal" : "sut broke") == std::string::npos) vc::fail(desc + ": message is " + f.description);
    vc::outcome(desc + " fails with " + std::to_string(seq.size()) + " commands");
    vc::sample(desc + ": " + f.counterExample[0].second);
  } else {
    for (auto &c : ran)
      if (c.struck && w.fault != DiscardOnTop) vc::fail(desc + ": a command failed but the property did not");
    vc::outcome(desc + (result.is<SuccessResult>() ? " passes" : " gives up"));
  }
  std::string st;
  for (auto &c : ran) st += showRun(c.run) + ";";
  vc::state(vc::hashStr(st));
}
} // namespace

// Complete property runs over all number scripts, for every fault of the system.
VC_SUITE(property, 18) {
  int c = vc::pick(NFaults * 2);
  World w;
  w.fault = c / 2;
  int variant = c % 2;
  static const std::vector<std::vector<int>> sets = {{Push, Pop, Del}, {Nop, Push, Top, Del, Pop}};
  int set = vc::pick(2);
  RawGen rg{sets[set]};
  if (vc::pick(2)) w.init.v = {1};
  vcr::Script sc;
  sc.alphabet = set == 0 ? std::vector<uint64_t>{0, 1, 2, 5} : std::vector<uint64_t>{1, 0, 2, 3, 4};
  sc.maxPoints = vc::thorough() ? 7 : 5;
  vcr::reset(sc);
  runProperty(w, rg, variant, 2, 3, faultName[w.fault]);
}
// Longer sequences, larger sizes, few deviations from a background.
VC_SUITE(longRuns, 18, o.maxDev = vc::thorough() ? 3 : 2) {
  int c = vc::pick(NFaults * 2);
  World w;
  w.fault = c / 2;
  int variant = c % 2;
  int set = vc::pick(3);
  RawGen rg{set == 0 ? std::vector<int>{Nop, Push, Pop, Del, Top} : set == 1 ? std::vector<int>{Push, Pop, Top, Nop} : std::vector<int>{Top, Nop, Push, Del}};
  vcr::Script sc;
  sc.alphabet = {3, 0, 1, 2, 5};
  sc.maxPoints = 16;
  vcr::reset(sc);
  runProperty(w, rg, variant, 3, 7, faultName[w.fault]);
}

// Sequences of up to a hundred commands, faults that need dozens of them.
VC_SUITE(manyCommands, 16, {}) {
  int c = vc::pick(16);
  static const int faults[] = {None, Late, ManyPush, ThirdRun, PopAfterPush2, DelAny, DiscardOnTop, NonFatal};
  World w;
  w.fault = faults[c / 2];
  int variant = c % 2;
  int set = vc::pick(4);
  RawGen rg{set == 0 ? std::vector<int>{Nop, Push, Pop, Del, Top} : set == 1 ? std::vector<int>{Push, Pop, Nop} : set == 2 ? std::vector<int>{Nop} : std::vector<int>{Push, Nop, Pop, Nop, Del, Nop}};
  if (vc::pick(2)) w.init.v = {1};
  static const int patterns[][2] = {{97, 0}, {19, 1}, {77, 5}, {58, 7}, {91, 3}};
  int pat = vc::pick(5, "numbers"), size = vc::thorough() ? 100 : 60;
  vcr::Script sc;
  sc.maxPoints = 0;
  sc.fill = patterns[pat][0];
  sc.stride = patterns[pat][1];
  vcr::reset(sc);
  runProperty(w, rg, variant, 3, size, faultName[w.fault]);
}

// runAll, applyAll, isValidSequence, isValidCommand, nextState on every sequence of commands, valid or not.
VC_SUITE(direct, 16) {
  int first = vc::pick(16);
  World w;
  if (first % 2) w.init.v = {1};
  w.fault = (first / 2) % 4 == 0 ? None : (first / 2) % 4 == 1 ? ThirdRun : (first / 2) % 4 == 2 ? PopAfterPush2 : SizeTwo;
  bool viaCallable = first / 8;
  int len = vc::pick(vc::thorough() ? 6 : 5);
  std::vector<Entry> es;
  state::Commands<Base> cmds;
  for (int i = 0; i < len; i++) {
    static const Entry A[] = {{Push, 0}, {Push, 2}, {Pop, 0}, {Del, 1}, {Top, 1}, {Nop, 0}};
    Entry e = A[vc::pick(6)];
    es.push_back(e);
    cmds.push_back(std::make_shared<const Cmd>(e.kind, e.x, "", Model(), 0));
  }
  // reference
  Model m = w.init;
  size_t valid = 0;
  while (valid < es.size() && preOk(es[valid].kind, es[valid].x, m)) {
    VC_CHECK(state::isValidCommand(*cmds[valid], m), "valid command " << valid << " of " << showRun(es) << " reported invalid");
    Model before = m;
    Model next = cmds[valid]->nextState(m);
    VC_CHECK(m == before, "nextState changed its argument");
    applySpec(es[valid].kind, es[valid].x, m);
    VC_CHECK(next == m, "nextState");
    valid++;
  }
  bool allValid = valid == es.size();
  if (!allValid) VC_CHECK(!state::isValidCommand(*cmds[valid], m), "invalid command " << valid << " of " << showRun(es) << " reported valid");
  Model initBefore = w.init;
  auto mk = [&] { return w.init; };
  VC_CHECK((viaCallable ? state::isValidSequence(cmds, mk) : state::isValidSequence(cmds, w.init)) == allValid, "isValidSequence of " << showRun(es));
  {
    Model a = w.init;
    bool discarded = false;
    try {
      state::applyAll(cmds, a);
    } catch (const CaseResult &r) {
      discarded = r.type == CaseResult::Type::Discard;
    }
    VC_CHECK(discarded == !allValid, "applyAll of " << showRun(es));
    VC_CHECK(a == m, "applyAll of " << showRun(es) << " leads to " << a.str());
  }
  w.cases.push_back(Case());
  Sut sut;
  sut.onRun = [&](int k, int x, const Model &mm) { w.onRun(k, x, mm); };
  int how = 0; // 0 returned, 1 discard, 2 failure
  try {
    if (viaCallable) state::runAll(cmds, mk, sut); else state::runAll(cmds, w.init, sut);
  } catch (const CaseResult &r) {
    how = r.type == CaseResult::Type::Discard ? 1 : 2;
  }
  VC_CHECK(w.init == initBefore, "the initial state was changed");
  size_t fails = es.size() + 1;
  {
    std::vector<Entry> run;
    for (size_t i = 0; i < valid; i++) {
      run.push_back(es[i]);
      if (strikes(w.fault, run)) { fails = i; break; }
    }
  }
  if (fails < valid) {
    VC_CHECK(how == 2 && w.cases[0].run.size() == fails + 1, "runAll of " << showRun(es) << " ends with " << how << " after " << w.cases[0].run.size());
  } else {
    VC_CHECK(how == (allValid ? 0 : 1) && w.cases[0].run.size() == valid, "runAll of " << showRun(es) << " ends with " << how << " after " << w.cases[0].run.size());
  }
  for (size_t i = 0; i < w.cases[0].run.size(); i++)
    VC_CHECK(w.cases[0].run[i].kind == es[i].kind && w.cases[0].run[i].x == es[i].x, "order");
  vc::matched();
  vc::outcome(std::to_string(how) + (allValid ? " valid" : " invalid"));
  vc::state(vc::hashStr(showRun(es) + vc::str(first)));
}

// A model that can only be moved: made anew for generation and for running, never shared.
namespace {
int g_aliveModels = 0;
struct MModel {
  std::unique_ptr<std::vector<int>> v{new std::vector<int>()};
  MModel() { g_aliveModels++; }
  MModel(MModel &&o) noexcept : v(std::move(o.v)) { g_aliveModels++; }
  MModel &operator=(MModel &&) = default;
  ~MModel() { g_aliveModels--; }
};
struct MSut {
  std::vector<int> v;
  int failAt = 100;
  bool *struck = nullptr;
};
using MBase = state::Command<MModel, MSut>;
struct MPush : MBase {
  int x;
  MPush() : x(*gen::resize(100, gen::inRange(0, 3))) {}
  void checkPreconditions(const MModel &m) const override { RC_PRE(m.v->size() < 3u); }
  void apply(MModel &m) const override { m.v->push_back(x); }
  void run(const MModel &m, MSut &s) const override {
    if (*m.v != s.v) vc::fail("model " + vc::strv(*m.v) + " and system " + vc::strv(s.v) + " are out of step");
    s.v.push_back(x);
    if ((int)s.v.size() >= s.failAt) {
      *s.struck = true;
      RC_FAIL("full");
    }
  }
  void show(std::ostream &os) const override { os << "push" << x; }
};
struct MPop : MBase {
  explicit MPop(const MModel &m) { RC_PRE(!m.v->empty()); }
  void checkPreconditions(const MModel &m) const override { RC_PRE(!m.v->empty()); }
  void apply(MModel &m) const override { m.v->pop_back(); }
  void run(const MModel &m, MSut &s) const override {
    if (*m.v != s.v) vc::fail("model " + vc::strv(*m.v) + " and system " + vc::strv(s.v) + " are out of step");
    s.v.pop_back();
  }
  void show(std::ostream &os) const override { os << "pop"; }
};
} // namespace

VC_SUITE(moveOnly, 6) {
  int c = vc::pick(6);
  vcr::Script sc;
  sc.alphabet = {0, 1, 2, 5};
  sc.maxPoints = vc::thorough() ? 9 : 7;
  vcr::reset(sc);
  g_aliveModels = 0;
  bool any = false;
  std::string text;
  {
    TestParams p;
    p.maxSuccess = 2;
    p.maxSize = 3;
    Rec rec;
    auto mkGen = [](const MModel &m) -> Gen<std::shared_ptr<const MBase>> {
      bool empty = m.v->empty();
      return Gen<std::shared_ptr<const MBase>>([empty](const Random &random, int size) {
        auto r = random;
        uint64_t k = r.split().next() % 2;
        return gen::exec([k, empty]() -> std::shared_ptr<const MBase> {
          if (k == 0) return std::make_shared<const MPush>();
          MModel mm;
          if (!empty) mm.v->push_back(0);
          return std::make_shared<const MPop>(mm);
        })(r, size);
      });
    };
    auto res = testProperty(toProperty([&] {
                              MSut s;
                              s.failAt = 1 + c % 3 + (c >= 3 ? 10 : 0);
                              bool struck = false;
                              s.struck = &struck;
                              struct Note { bool &any, &s; ~Note() { any = any || s; } } note{any, struck};
                              state::check([] { return MModel(); }, s, mkGen);
                              if (struck) vc::fail("check returned after a failing command");
                            }),
                            TestMetadata(), p, rec);
    VC_CHECK(res.is<FailureResult>() == any, "verdict");
    if (any) {
      auto &ce = res.get<FailureResult>().counterExample;
      VC_CHECK(ce.size() == 1, "parts");
      text = ce[0].second;
      std::string want;
      for (int i = 0; i <= c % 3; i++) want += "push0\n";
      VC_CHECK(text == want, "counterexample is\n" << text << "instead of\n" << want);
    }
  }
  VC_CHECK(g_aliveModels == 0, g_aliveModels << " model objects are left over");
  vc::step();
  vc::matched();
  vc::outcome(text);
  vc::state(vc::hashStr(text + vcr::log()));
}

// A command whose precondition, model transition or run ends exceptionally: only a discard is about validity,
// every other error comes out as it is, and nothing after it is run.
namespace me {
struct Model_ { std::vector<int> applied; };
struct Sut_ { std::vector<int> run; };
enum Where { InPre, InApply, InRun };
enum What { Nothing_, Discard_, Failure_, Success_, Generation_, Std_, Int_, NumWhat };
void raise(int what) {
  switch (what) {
  case Discard_: RC_DISCARD("mine");
  case Failure_: RC_FAIL("mine");
  case Success_: RC_SUCCEED("mine");
  case Generation_: throw GenerationFailure("mine");
  case Std_: throw std::runtime_error("mine");
  case Int_: throw 4711;
  }
}
struct C : state::Command<Model_, Sut_> {
  int id, where, what;
  C(int i, int w, int t) : id(i), where(w), what(t) {}
  void checkPreconditions(const Model_ &m) const override {
    VC_CHECK((int)m.applied.size() == id, "command " << id << " checked after " << m.applied.size());
    if (where == InPre) raise(what);
  }
  void apply(Model_ &m) const override {
    if (where == InApply) raise(what);
    m.applied.push_back(id);
  }
  void run(const Model_ &m, Sut_ &s) const override {
    VC_CHECK((int)m.applied.size() == id, "command " << id << " run after " << m.applied.size());
    if (where == InRun) raise(what);
    s.run.push_back(id);
  }
};
template <typename F>
int outcomeOf(F f) {
  try {
    f();
  } catch (const rc::detail::CaseResult &r) {
    return r.type == rc::detail::CaseResult::Type::Discard ? Discard_ : r.type == rc::detail::CaseResult::Type::Failure ? Failure_ : Success_;
  } catch (const GenerationFailure &) {
    return Generation_;
  } catch (const std::exception &e) {
    return e.what() == std::string("mine") ? Std_ : 99;
  } catch (int) {
    return Int_;
  }
  return Nothing_;
}
} // namespace me
VC_SUITE(modelErrors, 7) {
  using namespace me;
  int what = vc::pick(NumWhat), where = vc::pick(3), n = vc::pick(4), at = vc::pick(4);
  bool callable = vc::pick(2);
  std::vector<std::shared_ptr<const state::Command<Model_, Sut_>>> cmds;
  for (int i = 0; i < n; i++) cmds.push_back(std::make_shared<const C>(i, where, i == at ? what : Nothing_));
  bool there = at < n && what != Nothing_;
  std::string log = "error " + std::to_string(what) + " in " + (where == InPre ? "checkPreconditions" : where == InApply ? "apply" : "run") + " of command " + std::to_string(at) + " of " + std::to_string(n);
  auto mk = [] { return Model_(); };
  Model_ m;
  int o = outcomeOf([&] { state::applyAll(cmds, m); });
  VC_CHECK(o == (there && where != InRun ? what : Nothing_), log << ": applyAll gives " << o);
  VC_CHECK((int)m.applied.size() == (there && where != InRun ? at : n), log << ": applyAll applies " << m.applied.size());
  bool valid = false;
  o = outcomeOf([&] { valid = callable ? state::isValidSequence(cmds, mk) : state::isValidSequence(cmds, Model_()); });
  bool modelError = there && where != InRun;
  VC_CHECK(o == (modelError && what != Discard_ ? what : Nothing_), log << ": isValidSequence gives " << o);
  if (o == Nothing_) VC_CHECK(valid == !modelError, log << ": isValidSequence says " << valid);
  Sut_ sut;
  o = outcomeOf([&] { if (callable) state::runAll(cmds, mk, sut); else state::runAll(cmds, Model_(), sut); });
  VC_CHECK(o == (there ? what : Nothing_), log << ": runAll gives " << o);
  VC_CHECK((int)sut.run.size() == (there ? at + (where == InApply) : n), log << ": runAll runs " << sut.run.size());
  for (size_t i = 0; i < sut.run.size(); i++) VC_CHECK(sut.run[i] == (int)i, log << ": order");
  if (there) {
    Model_ b;
    for (int i = 0; i < at; i++) b.applied.push_back(i);
    o = outcomeOf([&] { valid = state::isValidCommand(*cmds[at], b); });
    VC_CHECK(o == (where == InPre && what != Discard_ ? what : Nothing_), log << ": isValidCommand gives " << o);
    if (o == Nothing_) VC_CHECK(valid == !(where == InPre), log << ": isValidCommand says " << valid);
    o = outcomeOf([&] { auto x = cmds[at]->nextState(b); VC_CHECK((int)x.applied.size() == at + 1, log << ": nextState"); });
    VC_CHECK(o == (where == InApply ? what : Nothing_), log << ": nextState gives " << o);
    VC_CHECK((int)b.applied.size() == at, log << ": nextState changes its argument");
  }
  vc::step();
  vc::matched();
  vc::outcome(log.substr(0, 12));
  vc::state(vc::mix(what, vc::mix(where, vc::mix(n, at))));
}
