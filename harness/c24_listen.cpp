// C24: progress notifications.
#include "tree.h"
#include "script.h"
#include "rapidcheck.h"
#include "rapidcheck/BeforeMinimalTestCase.h"
#include "detail/Testing.h"
#include "detail/LogTestListener.h"
#include "detail/ReproduceListener.h"
#include "detail/MulticastTestListener.h"
#include "detail/DefaultTestListener.h"
#include "detail/StringSerialization.h"
#include "rapidcheck/detail/Configuration.h"
#include <regex>

using namespace rc;
using namespace rc::detail;

namespace {
struct Ev {
  char kind;         // c case, s shrink, f finished, m before minimal
  std::string what;
  bool operator==(const Ev &o) const { return kind == o.kind && what == o.what; }
};
std::vector<std::string> *g_order = nullptr; // what every listener saw, in global order
std::string descText(const CaseDescription &d) {
  std::string s = std::to_string((int)d.result.type) + ":" + d.result.description + ":";
  for (auto &t : d.tags) s += t + ",";
  if (d.example)
    for (auto &e : d.example()) s += ":" + e.first + "=" + e.second;
  return s;
}
struct Rec : TestListener {
  int id;
  std::vector<Ev> evs;
  std::vector<std::string> *order;
  explicit Rec(int i, std::vector<std::string> *o) : id(i), order(o) {}
  void add(char k, const std::string &w) {
    evs.push_back({k, w});
    if (order) order->push_back(std::string(1, k) + w + "@" + std::to_string(id));
  }
  void onTestCaseFinished(const CaseDescription &d) override { add('c', descText(d)); }
  void onShrinkTried(const CaseDescription &d, bool accepted) override { add('s', descText(d) + (accepted ? "!" : ".")); }
  void onTestFinished(const TestMetadata &m, const TestResult &r) override { add('f', m.id + "/" + m.description + "/" + toString(r)); }
};
// Several recorders behind the library's own multicast
struct Hub {
  std::vector<std::string> order;
  std::vector<Rec *> recs;
  std::unique_ptr<MulticastTestListener> cast;
  explicit Hub(int n) {
    MulticastTestListener::Listeners ls;
    for (int i = 0; i < n; i++) {
      auto r = new Rec(i, &order);
      recs.push_back(r);
      ls.emplace_back(r);
    }
    cast.reset(new MulticastTestListener(std::move(ls)));
  }
};

// A run is a sequence of cases; a failing case carries a tree of shrinks labelled with outcomes.
CaseDescription describe(int label, const std::string &name) {
  CaseDescription d;
  d.result = CaseResult(label == 0 ? CaseResult::Type::Failure : label == 1 ? CaseResult::Type::Success : CaseResult::Type::Discard, "desc " + name);
  d.tags = {"tag " + name, "t"};
  d.example = [name] { return Example{{"example", name}}; };
  return d;
}
std::vector<std::string> *g_minimal = nullptr;

struct RunPlan {
  std::vector<int> outcomes; // 0 fail 1 pass 2 discard, in case order
  vt::Tree tree;             // of the failing case; labels 0 fail 1 pass 2 discard
};
void addExpected(const vt::Tree &t, const std::string &prefix, std::vector<Ev> &out) {
  for (auto &k : t.kids) {
    auto name = prefix + std::to_string(k.id);
    out.push_back({'s', descText(describe(k.label, name)) + (k.label == 0 ? "!" : ".")});
    if (k.label == 0) {
      addExpected(k, prefix, out);
      return;
    }
  }
}
} // namespace

VC_SUITE(events, 12) {
  TestParams p;
  int c = vc::pick(12);
  p.maxSuccess = c % 4;
  p.maxDiscardRatio = (c / 4) % 3 == 2 ? 1 : (c / 4) % 3;
  p.disableShrinking = c >= 8;
  p.maxSize = 3;
  p.seed = 1;
  vcr::reset(vcr::Script());
  int nodes = vc::thorough() ? 7 : 6;
  // the plan unfolds while the search asks for cases
  std::vector<Ev> want;
  int succ = 0, disc = 0, cases = 0;
  bool over = p.maxSuccess == 0, failed = false, gaveUp = false;
  vt::Tree tree;
  Property prop([&](const Random &, int) -> Shrinkable<CaseDescription> {
    if (over) vc::fail("a case is run although the test is over");
    int o = vc::pick(3); // 0 pass, 1 discard, 2 fail
    std::string name = "case" + std::to_string(cases++) + "/";
    int label = o == 0 ? 1 : o == 1 ? 2 : 0;
    want.push_back({'c', descText(describe(label, name + "0"))});
    if (o == 0 && ++succ >= p.maxSuccess) over = true;
    if (o == 1 && ++disc > p.maxDiscardRatio * p.maxSuccess) over = gaveUp = true;
    if (o == 2) {
      over = failed = true;
      tree = vt::pickTree(nodes);
      vt::visit(tree, [&](vt::Tree &t) { t.label = t.id == 0 ? 0 : vc::pick(t.kids.empty() ? 3 : 2); });
      if (!p.disableShrinking) addExpected(tree, name, want);
      auto sp = std::make_shared<const vt::Tree>(tree);
      return vt::realise<CaseDescription>(sp, sp.get(), [name](const vt::Tree &t) { return describe(t.label, name + std::to_string(t.id)); });
    }
    return shrinkable::just(describe(label, name + "0"));
  });
  TestMetadata meta;
  meta.id = "the id";
  meta.description = "the description";
  int n = 1 + vc::pick(3);
  Hub hub(n);
  auto res = testProperty(prop, meta, p, *hub.cast);
  want.push_back({'f', "the id/the description/" + toString(res)});
  VC_CHECK(res.is<FailureResult>() == failed && res.is<GaveUpResult>() == gaveUp, "verdict " << toString(res));
  // each listener: exactly the events, in order; all listeners in registration order per event
  for (auto *r : hub.recs) {
    for (size_t i = 0; i < r->evs.size() || i < want.size(); i++) {
      std::string g = i < r->evs.size() ? r->evs[i].kind + r->evs[i].what : "nothing", w = i < want.size() ? want[i].kind + want[i].what : "nothing";
      VC_CHECK(g == w, "listener " << r->id << " of " << n << ", notification " << i << " is " << g << " instead of " << w << "; tree " << vt::show(tree));
    }
  }
  size_t k = 0;
  for (auto &e : want)
    for (int i = 0; i < n; i++, k++) VC_CHECK(k < hub.order.size() && hub.order[k] == std::string(1, e.kind) + e.what + "@" + std::to_string(i), "notification " << k << " in global order");
  VC_CHECK(k == hub.order.size(), "more notifications than events");
  vc::step(want.size());
  vc::matched();
  vc::state(vc::hashStr(vt::show(tree) + std::to_string(cases) + std::to_string(succ) + std::to_string(disc)));
  vc::outcome(failed ? "failed" : gaveUp ? "gave up" : "passed");
  if (failed && want.size() > 5) vc::sample(vt::show(tree) + ": " + std::to_string(want.size()) + " notifications");
}

// Long runs, long descents, many shrinks and many listeners.
namespace {
vt::Tree longTree(int shape, int n) { // labels: 0 fails, 1 passes
  vt::Tree root;
  int next = 0;
  root.id = next++;
  root.label = 0;
  vt::Tree *cur = &root;
  auto add = [&](vt::Tree *t, int label) -> vt::Tree * {
    vt::Tree k;
    k.id = next++;
    k.label = label;
    t->kids.push_back(k);
    return &t->kids.back();
  };
  switch (shape) {
  case 0: for (int i = 0; i < n; i++) cur = add(cur, 0); break;                      // a straight descent
  case 1: for (int i = 0; i < n; i++) add(cur, 1); break;                            // nothing fails
  case 2: for (int i = 0; i < n; i++) add(cur, i == n - 1 ? 0 : 1); break;           // only the last one fails
  case 3: for (int i = 0; i < n / 4 + 1; i++) { for (int j = 0; j < 3; j++) add(cur, 1 + j % 2); cur = add(cur, 0); } break;
  case 4: for (int i = 0; i < n; i++) add(cur, 1 + i % 2); break;                    // passes and discards
  }
  return root;
}
} // namespace
VC_SUITE(longEvents, 15, {}) {
  int c = vc::pick(15, "tree, size");
  static const int ns[] = {40, 130, 300};
  int n = ns[c / 5];
  int before = vc::pick(3, "cases before") * 120, pattern = vc::pick(3, "their outcomes"), listeners = 1 + vc::pick(3, "listeners") * 8;
  bool fails = vc::pick(2, "fails");
  vt::Tree tree = longTree(c % 5, n);
  TestParams p;
  p.maxSuccess = before + 1;
  p.maxDiscardRatio = 10;
  vcr::reset(vcr::Script());
  std::vector<Ev> want;
  int i = 0, succ = 0;
  Property prop([&](const Random &, int) -> Shrinkable<CaseDescription> {
    int label = pattern == 0 ? 1 : pattern == 1 ? 1 + i % 2 : 1 + (i % 30 >= 10);
    if (fails && i >= before) label = 0;
    std::string name = "case" + std::to_string(i++) + "/";
    want.push_back({'c', descText(describe(label, name + "0"))});
    succ += label == 1;
    if (label) return shrinkable::just(describe(label, name + "0"));
    addExpected(tree, name, want);
    auto sp = std::make_shared<const vt::Tree>(tree);
    return vt::realise<CaseDescription>(sp, sp.get(), [name](const vt::Tree &t) { return describe(t.label, name + std::to_string(t.id)); });
  });
  TestMetadata meta;
  meta.id = "the id";
  Hub hub(listeners);
  auto res = testProperty(prop, meta, p, *hub.cast);
  want.push_back({'f', "the id//" + toString(res)});
  VC_CHECK(res.is<FailureResult>() == fails && res.is<SuccessResult>() == !fails, "verdict " << toString(res));
  for (auto *r : hub.recs)
    for (size_t k = 0; k < r->evs.size() || k < want.size(); k++) {
      std::string g = k < r->evs.size() ? r->evs[k].kind + r->evs[k].what : "nothing", w = k < want.size() ? want[k].kind + want[k].what : "nothing";
      VC_CHECK(g == w, "listener " << r->id << " of " << listeners << ", notification " << k << " is " << g << " instead of " << w);
    }
  size_t k = 0;
  for (auto &e : want)
    for (int l = 0; l < listeners; l++, k++) VC_CHECK(k < hub.order.size() && hub.order[k] == std::string(1, e.kind) + e.what + "@" + std::to_string(l), "notification " << k << " in global order");
  VC_CHECK(k == hub.order.size(), "more notifications than events");
  // and the log of the same run
  for (int sw = 0; sw < 4; sw++) {
    std::ostringstream os;
    LogTestListener log(os, sw & 1, sw & 2);
    long dots = 0, xs = 0, acc = 0, rej = 0;
    auto count = [&](char ch) { long r = 0; for (char x : os.str()) r += x == ch; return r; };
    bool inShrink = false;
    for (auto &e : want) {
      if (e.kind == 'c') {
        int type = e.what[0] - '0';
        if (type == (int)CaseResult::Type::Failure) {
          if (sw & 1) VC_CHECK(count('.') == dots && count('x') == xs, "progress marks: " << count('.') << " and " << count('x') << " for " << dots << " passes and " << xs << " discards");
          else VC_CHECK(os.str().empty(), "progress although it is off");
          dots = 0;
          CaseDescription d;
          d.result = CaseResult(CaseResult::Type::Failure, "");
          log.onTestCaseFinished(d);
          os.str("");
          inShrink = true;
          continue;
        }
        (type == (int)CaseResult::Type::Success ? dots : xs)++;
        CaseDescription d;
        d.result = CaseResult((CaseResult::Type)type, "");
        log.onTestCaseFinished(d);
      } else if (e.kind == 's') {
        bool a = e.what.back() == '!';
        (a ? acc : rej)++;
        log.onShrinkTried(CaseDescription(), a);
      }
    }
    if (inShrink) VC_CHECK(count('.') == (sw & 2 ? rej : 0) && count('!') == (sw & 2 ? acc : 0), "shrink marks: " << os.str() << " for " << rej << " rejected and " << acc << " accepted");
    else VC_CHECK(count('.') == (sw & 1 ? dots : 0) && count('x') == (sw & 1 ? xs : 0), "progress marks: " << os.str() << " for " << dots << " passes and " << xs << " discards");
    vc::step(want.size());
  }
  vc::matched();
  vc::state(vc::mix(c, before * 100 + pattern * 10 + listeners + fails * 1000));
  vc::outcome(fails ? "failed" : "passed");
}

// The progress log: every sequence of notifications, for every switch setting.
namespace {
// what a log may print for a notification: class of each printed character
std::string strip(std::string s) {
  std::string r;
  for (char ch : s) if (ch != '\n') r += ch;
  return r;
}
} // namespace
VC_SUITE(log, 4) {
  int sw = vc::pick(4);
  bool progress = sw & 1, shrinking = sw & 2;
  bool viaDefault = vc::pick(2);
  std::ostringstream os;
  {
    Configuration cfg;
    cfg.verboseProgress = progress;
    cfg.verboseShrinking = shrinking;
    std::unique_ptr<TestListener> l;
    if (viaDefault) l = makeDefaultTestListener(cfg, os);
    else l.reset(new LogTestListener(os, progress, shrinking));
    int tests = 1 + vc::pick(2);
    for (int t = 0; t < tests; t++) {
      int len = vc::pick(vc::thorough() ? 7 : 6);
      bool failed = false;
      std::string seq;
      for (int i = 0; i < len; i++) {
        size_t before = os.str().size();
        if (!failed) {
          int o = vc::pick(3); // 0 fail 1 pass 2 discard
          l->onTestCaseFinished(describe(o, "x"));
          std::string got = os.str().substr(before);
          if (!progress) VC_CHECK(got.empty(), "prints '" << got << "' for a case although progress is off");
          else if (o == 1) VC_CHECK(strip(got) == ".", "prints '" << got << "' for a passed case");
          else if (o == 2) VC_CHECK(strip(got) == "x", "prints '" << got << "' for a discarded case");
          else VC_CHECK(strip(got).size() > 1 && strip(got).find("ailure") != std::string::npos, "prints '" << got << "' for a failure");
          if (o == 0) failed = true;
          seq += "fpd"[o];
        } else {
          bool a = vc::pick(2);
          l->onShrinkTried(describe(a ? 0 : 1 + (i % 2), "y"), a);
          std::string got = os.str().substr(before);
          if (!shrinking) VC_CHECK(got.empty(), "prints '" << got << "' for a shrink although that is off");
          else VC_CHECK(got == (a ? "!" : "."), "prints '" << got << "' for a shrink " << (a ? "accepted" : "rejected"));
          seq += a ? '!' : '-';
        }
        vc::step();
      }
      size_t before = os.str().size();
      TestMetadata meta;
      l->onTestFinished(meta, failed ? TestResult(FailureResult()) : TestResult(SuccessResult()));
      std::string got = os.str().substr(before);
      VC_CHECK(strip(got).empty(), "prints '" << got << "' at the end of a test");
      VC_CHECK(got.empty() == !(progress || shrinking), "line end");
      vc::state(vc::hashStr(seq + std::to_string(sw)));
    }
  }
  if (!progress && !shrinking) VC_CHECK(os.str().empty(), "prints '" << os.str() << "' although everything is off");
  vc::matched();
  vc::outcome(std::to_string(sw) + (os.str().empty() ? " silent" : " prints"));
}

// The reproduce hint, over every sequence of tests.
VC_SUITE(hint, 1) {
  int n = vc::pick(vc::thorough() ? 6 : 5);
  bool viaDefault = vc::pick(2);
  static const char *ids[] = {"", "a", "some property", "b \"quoted\\"};
  std::ostringstream os;
  std::map<std::string, std::vector<Reproduce>> want;
  {
    std::unique_ptr<TestListener> l;
    if (viaDefault) l = makeDefaultTestListener(Configuration(), os);
    else l.reset(new ReproduceListener(os));
    for (int i = 0; i < n; i++) {
      int kind = vc::pick(4), id = kind == 0 ? vc::pick(4) : 1 + i % 3;
      TestMetadata m;
      m.id = ids[id];
      m.description = m.id;
      TestResult r = SuccessResult();
      if (kind == 0) {
        FailureResult f;
        f.numSuccess = i;
        f.description = "d";
        f.reproduce.random = Random(uint64_t(i + 1));
        f.reproduce.size = i;
        f.reproduce.shrinkPath = {size_t(i), 1};
        if (id) want[ids[id]].push_back(f.reproduce);
        r = f;
      }
      if (kind == 2) r = GaveUpResult();
      if (kind == 3) r = Error("e");
      l->onTestFinished(m, r);
      vc::step();
    }
    VC_CHECK(os.str().empty(), "prints before the end");
  }
  std::string out = os.str();
  if (want.empty()) {
    VC_CHECK(out.empty(), "prints '" << out << "' although no test with an id failed");
  } else {
    auto at = out.find("RC_PARAMS=\"reproduce=");
    VC_CHECK(at != std::string::npos, "no hint: '" << out << "'");
    auto start = at + 11, end = out.find('"', start);
    VC_CHECK(end != std::string::npos && out.find("RC_PARAMS", end) == std::string::npos, "hint is '" << out << "'");
    Configuration c = configFromString(out.substr(start, end - start), Configuration());
    VC_CHECK(c.reproduce.size() == want.size(), "the hint names " << c.reproduce.size() << " tests, " << want.size() << " failed");
    for (auto &w : want) {
      auto it = c.reproduce.find(w.first);
      VC_CHECK(it != c.reproduce.end(), "the hint does not name '" << w.first << "'");
      bool any = false;
      for (auto &r : w.second) any = any || r == it->second;
      VC_CHECK(any, "the hint gives another failure for '" << w.first << "'");
    }
  }
  vc::matched();
  vc::state(vc::hashStr(out));
  vc::outcome(std::to_string(want.size()));
}

// Nothing is notified when failures are reproduced or tests are skipped in a reproduce run, and the library's
// default listener, driven by whole runs, prints one mark per case and shrink.
VC_SUITE(whole, 4) {
  int sw = vc::pick(4);
  Configuration cfg;
  cfg.verboseProgress = sw & 1;
  cfg.verboseShrinking = sw & 2;
  cfg.testParams.maxSuccess = 3;
  cfg.testParams.maxDiscardRatio = 1;
  cfg.testParams.maxSize = 3;
  vcr::Script sc;
  sc.alphabet = {0, 1, 2, 3};
  sc.maxPoints = vc::thorough() ? 9 : 7;
  vcr::reset(sc);
  std::ostringstream os;
  int passes = 0, discards = 0, fails = 0, accepted = 0, rejected = 0;
  Rec rec(0, nullptr);
  std::string text;
  TestResult res = SuccessResult();
  bool id = vc::pick(2);
  {
    MulticastTestListener::Listeners ls;
    ls.push_back(makeDefaultTestListener(cfg, os));
    auto r = new Rec(1, nullptr);
    ls.emplace_back(r);
    MulticastTestListener both(std::move(ls));
    TestMetadata m;
    if (id) m.id = m.description = "p";
    auto prop = toProperty([] {
      int x = *gen::resize(100, gen::inRange(0, 4));
      if (x == 1) RC_DISCARD("one");
      RC_ASSERT(x < 2);
    });
    res = checkProperty(prop, m, cfg.testParams, both, {});
    rec.evs = r->evs;
    text = os.str();
  }
  for (auto &e : rec.evs) {
    if (e.kind == 'c') (e.what[0] == '0' ? passes : e.what[0] == '2' ? discards : fails)++; // enum order below
    if (e.kind == 's') (e.what.back() == '!' ? accepted : rejected)++;
  }
  static_assert((int)CaseResult::Type::Success == 0 && (int)CaseResult::Type::Failure == 1 && (int)CaseResult::Type::Discard == 2, "");
  VC_CHECK((fails == 1) == res.is<FailureResult>() && fails <= 1, "failures notified: " << fails);
  if (res.is<SuccessResult>()) VC_CHECK(passes == res.get<SuccessResult>().numSuccess, passes << " passes notified");
  if (res.is<FailureResult>()) VC_CHECK(passes == res.get<FailureResult>().numSuccess && accepted == (int)res.get<FailureResult>().reproduce.shrinkPath.size(), "failure counts");
  if (res.is<GaveUpResult>()) VC_CHECK(passes == res.get<GaveUpResult>().numSuccess && discards == 4, "gave-up counts");
  long dots = 0, xs = 0, bangs = 0;
  auto cut = text.find("Found failure");
  std::string head = text.substr(0, cut == std::string::npos ? text.size() : cut), tail;
  if (cut != std::string::npos) tail = text.substr(text.find('\n', cut));
  else if (!(sw & 1)) { tail = head; head.clear(); }
  for (char ch : head) { dots += ch == '.'; xs += ch == 'x'; }
  VC_CHECK(dots == (sw & 1 ? passes : 0) && xs == (sw & 1 ? discards : 0), "progress '" << head << "' for " << passes << " passes and " << discards << " discards");
  dots = 0;
  for (char ch : tail) { dots += ch == '.'; bangs += ch == '!'; }
  VC_CHECK(dots == (sw & 2 ? rejected : 0) && bangs == (sw & 2 ? accepted : 0), "shrinking '" << tail << "' for " << accepted << " accepted and " << rejected << " rejected");
  VC_CHECK((os.str().find("reproduce=") != std::string::npos) == (id && res.is<FailureResult>()), "hint");
  vc::step(rec.evs.size());
  vc::matched();
  vc::state(vc::hashStr(vcr::log() + std::to_string(sw)));
  vc::outcome(res.is<SuccessResult>() ? "passed" : res.is<GaveUpResult>() ? "gave up" : "failed");
}

// Many failing tests: each of them is named in the hint.
VC_SUITE(manyHints, 1) {
  static const int N[] = {1, 2, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000};
  int n = N[vc::pick(19)], others = vc::pick(3);
  bool viaDefault = vc::pick(2);
  std::ostringstream os;
  {
    std::unique_ptr<TestListener> l;
    if (viaDefault) l = makeDefaultTestListener(Configuration(), os);
    else l.reset(new ReproduceListener(os));
    for (int i = 0; i < n; i++) {
      for (int k = 0; k < others; k++) l->onTestFinished({"passing " + std::to_string(i), ""}, k ? TestResult(GaveUpResult()) : TestResult(SuccessResult()));
      FailureResult f;
      f.reproduce.random = Random(uint64_t(i));
      f.reproduce.size = i;
      f.reproduce.shrinkPath.assign(i % 50, i);
      l->onTestFinished({"test number " + std::to_string(i), ""}, f);
      vc::step();
    }
  }
  auto out = os.str();
  auto at = out.find("reproduce="), end = out.find('"', at);
  VC_CHECK(at != std::string::npos && end != std::string::npos, "no hint: " << out.substr(0, 200));
  auto c = configFromString(out.substr(at, end - at), Configuration());
  VC_CHECK((int)c.reproduce.size() == n, "the hint names " << c.reproduce.size() << " tests, " << n << " failed");
  for (int i = 0; i < n; i++) {
    auto it = c.reproduce.find("test number " + std::to_string(i));
    VC_CHECK(it != c.reproduce.end(), "test " << i << " of " << n << " is not named");
    VC_CHECK(it->second.random == Random(uint64_t(i)) && it->second.size == i && it->second.shrinkPath == std::vector<size_t>(i % 50, i), "test " << i << " of " << n << " is named with other data");
  }
  vc::matched();
  vc::state(std::to_string(n) + "/" + std::to_string(others) + "/" + std::to_string(viaDefault));
}
