// C01: verdict, counts and stopping rule of a property run, for every sequence of case outcomes.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "detail/Testing.h"

using namespace rc;
using namespace rc::detail;

namespace {

struct Rec : TestListener {
  std::vector<CaseResult::Type> cases;
  int shrinksTried = 0;
  int finished = 0;
  void onTestCaseFinished(const CaseDescription &d) override { cases.push_back(d.result.type); }
  void onShrinkTried(const CaseDescription &, bool) override { shrinksTried++; }
  void onTestFinished(const TestMetadata &, const TestResult &) override { finished++; }
};

using T = CaseResult::Type;
const T kinds[3] = {T::Success, T::Discard, T::Failure};

struct Model {
  int succ = 0, disc = 0;
  int verdict = -1; // 0 ok 1 failed 2 gave up
  void feed(const TestParams &p, int kind) {
    if (kind == 0) succ++;
    if (kind == 1) {
      disc++;
      if (static_cast<long long>(disc) > static_cast<long long>(p.maxDiscardRatio) * p.maxSuccess) verdict = 2;
    }
    if (kind == 2) verdict = 1;
    if (verdict < 0 && succ >= p.maxSuccess) verdict = 0;
  }
};

void body(int maxMS, int maxRatio, bool viaSearch) {
  TestParams p;
  p.maxSuccess = vc::pick(maxMS + 1);
  p.maxDiscardRatio = vc::pick(maxRatio + 1);
  p.maxSize = 5;
  p.disableShrinking = !viaSearch && vc::pick(2) == 1;
  p.seed = 42;
  vcr::reset(vcr::Script());
  Model m;
  if (p.maxSuccess == 0) m.verdict = 0;
  std::vector<int> seq;
  bool over = false;
  // The property: its outcome is the explorer's decision.  The shrink phase re-evaluates the failing case.
  auto prop = toProperty([&] {
    int k;
    if (m.verdict >= 0) {
      // only re-runs of the deciding case are legitimate now
      if (m.verdict == 0) {
        over = true;
        return;
      }
      k = seq.back();
    } else {
      k = vc::pick(3);
      seq.push_back(k);
      m.feed(p, k);
      vc::state("s" + std::to_string(p.maxSuccess) + "," + std::to_string(p.maxDiscardRatio) + "," +
                std::to_string(m.succ) + "," + std::to_string(m.disc) + "," + std::to_string(m.verdict));
    }
    if (k == 1) RC_DISCARD("skip" + std::to_string(seq.size()));
    if (k == 2) RC_FAIL("bad" + std::to_string(seq.size()));
  });
  Rec rec;
  std::string want = vc::strv(seq);
  if (viaSearch) {
    auto res = searchProperty(prop, p, rec);
    VC_CHECK(m.verdict >= 0, "search stopped before a verdict was due after " << seq.size() << " cases");
    VC_CHECK(!over, "cases run after the run had already succeeded");
    auto expect = m.verdict == 0 ? SearchResult::Type::Success
                                 : m.verdict == 1 ? SearchResult::Type::Failure : SearchResult::Type::GaveUp;
    VC_CHECK(res.type == expect, "wrong verdict for outcomes " << vc::strv(seq) << " expected " << m.verdict);
    VC_CHECK(res.numSuccess == m.succ, "numSuccess " << res.numSuccess << " expected " << m.succ);
    VC_CHECK(res.numDiscarded == m.disc, "numDiscarded " << res.numDiscarded << " expected " << m.disc);
  } else {
    TestMetadata md;
    md.id = "x";
    auto res = testProperty(prop, md, p, rec);
    VC_CHECK(m.verdict >= 0, "run stopped before a verdict was due after " << seq.size() << " cases");
    VC_CHECK(!over, "cases run after the run had already succeeded");
    int got = res.is<SuccessResult>() ? 0 : res.is<FailureResult>() ? 1 : res.is<GaveUpResult>() ? 2 : 3;
    VC_CHECK(got == m.verdict, "verdict " << got << " expected " << m.verdict << " for outcomes " << vc::strv(seq)
                                          << " maxSuccess=" << p.maxSuccess << " ratio=" << p.maxDiscardRatio);
    int n = got == 0 ? res.get<SuccessResult>().numSuccess
                     : got == 1 ? res.get<FailureResult>().numSuccess : res.get<GaveUpResult>().numSuccess;
    VC_CHECK(n == m.succ, "reported " << n << " passed cases, " << m.succ << " passed; outcomes " << vc::strv(seq));
    auto last = std::to_string(seq.size());
    if (got == 1)
      VC_CHECK(res.get<FailureResult>().description.find("bad" + last) != std::string::npos,
               "failure description is not that of the failing case: " << res.get<FailureResult>().description);
    if (got == 2)
      VC_CHECK(res.get<GaveUpResult>().description.find("skip" + last) != std::string::npos,
               "give-up description is not that of the last discarded case: " << res.get<GaveUpResult>().description);
    VC_CHECK(rec.finished == 1, "end of test announced " << rec.finished << " times");
    VC_CHECK(rec.shrinksTried == 0, "shrinks tried although the case has none");
  }
  VC_CHECK(rec.cases.size() == seq.size(), "announced " << rec.cases.size() << " cases, ran " << seq.size());
  for (size_t i = 0; i < seq.size(); i++) VC_CHECK(rec.cases[i] == kinds[seq[i]], "announced outcome differs at " << i);
  vc::step(seq.size());
  vc::matched();
  vc::outcome(std::to_string(m.verdict) + "/" + std::to_string(m.succ) + "/" + std::to_string(m.disc));
  vc::sample("maxSuccess=" + std::to_string(p.maxSuccess) + " ratio=" + std::to_string(p.maxDiscardRatio) +
             " outcomes(0 pass,1 discard,2 fail)=" + vc::strv(seq) + " -> verdict " + std::to_string(m.verdict));
}

} // namespace


// Long runs: a default outcome everywhere except at a bounded number of enumerated positions.
static void longRun(int maxSuccess, int ratio, int dflt, int maxDev) {
  TestParams p;
  p.maxSuccess = maxSuccess;
  p.maxDiscardRatio = ratio;
  p.maxSize = 3;
  p.seed = 7;
  vcr::reset(vcr::Script());
  Model m;
  if (p.maxSuccess == 0) m.verdict = 0;
  long n = 0;
  int lastKind = 0;
  auto prop = toProperty([&] {
    int k;
    if (m.verdict >= 0) {
      k = m.verdict == 0 ? 0 : lastKind;
      if (m.verdict == 0) vc::failSoft("case run after success");
    } else {
      int c = vc::choose(3);
      k = c == 0 ? dflt : (dflt + c) % 3;
      lastKind = k;
      n++;
      m.feed(p, k);
    }
    if (k == 1) RC_DISCARD("skip");
    if (k == 2) RC_FAIL("bad");
  });
  (void)maxDev;
  Rec rec;
  TestMetadata md;
  auto res = testProperty(prop, md, p, rec);
  VC_CHECK(m.verdict >= 0, "run stopped before a verdict was due after " << n << " cases, succ=" << m.succ << " disc=" << m.disc);
  int got = res.is<SuccessResult>() ? 0 : res.is<FailureResult>() ? 1 : res.is<GaveUpResult>() ? 2 : 3;
  VC_CHECK(got == m.verdict, "verdict " << got << " expected " << m.verdict << " after " << n << " cases, succ=" << m.succ << " disc=" << m.disc);
  int ns = got == 0 ? res.get<SuccessResult>().numSuccess
                    : got == 1 ? res.get<FailureResult>().numSuccess : res.get<GaveUpResult>().numSuccess;
  VC_CHECK(ns == m.succ, "reported " << ns << " passed cases, " << m.succ << " passed");
  VC_CHECK((long)rec.cases.size() == n, "announced " << rec.cases.size() << " ran " << n);
  vc::state("L" + std::to_string(maxSuccess) + "," + std::to_string(ratio) + "," + std::to_string(m.succ) + "," + std::to_string(m.disc) + "," + std::to_string(got));
  vc::step(n);
  vc::matched();
  vc::outcome(std::to_string(got) + "/" + std::to_string(m.succ) + "/" + std::to_string(m.disc));
}

VC_SUITE(run, 1) { body(vc::thorough() ? 4 : 3, vc::thorough() ? 4 : 3, false); }
VC_SUITE(search, 1) { body(vc::thorough() ? 4 : 3, vc::thorough() ? 4 : 3, true); }
VC_SUITE(run4, 1) { body(4, 2, false); }
VC_SUITE(longPass, 1, o.maxDev = vc::thorough() ? 3 : 2) { longRun(25, 1, 0, 2); }
VC_SUITE(longDiscard, 1, o.maxDev = vc::thorough() ? 3 : 2) { longRun(10, 3, 1, 2); }
VC_SUITE(defaultsPass, 1, o.maxDev = vc::thorough() ? 2 : 1) { longRun(100, 10, 0, 1); }
VC_SUITE(defaultsDiscard, 1, o.maxDev = 1) { longRun(100, 10, 1, 1); }

// Extreme parameters: the deciding event comes early, the limits are huge.
VC_SUITE(extreme, 1) {
  static const int S[] = {1, 3, 1000, 100000, 1073741824, 2147483647};
  static const int R[] = {0, 1, 10, 21474, 21475, 42950, 50000, 1000000, 2147483, 2147484, 21474837, 715827883, 1431655766, 2147483647};
  static const int Z[] = {0, 1, 100, 2147483, 2147483646, 2147483647};
  TestParams p;
  p.maxSuccess = S[vc::pick(6)];
  p.maxDiscardRatio = R[vc::pick(14)];
  p.maxSize = Z[vc::pick(6)];
  int horizon = 5;
  vcr::reset(vcr::Script());
  Model m;
  std::vector<int> seq;
  auto prop = toProperty([&] {
    int k = 2;
    if (m.verdict < 0) {
      k = (int)seq.size() >= horizon ? 2 : vc::pick(2);
      seq.push_back(k);
      m.feed(p, k);
    } else if (!seq.empty()) {
      k = seq.back();
    }
    if (k == 1) RC_DISCARD("skip");
    if (k == 2) RC_FAIL("bad");
  });
  Rec rec;
  auto res = testProperty(prop, TestMetadata(), p, rec);
  int got = res.is<SuccessResult>() ? 0 : res.is<FailureResult>() ? 1 : res.is<GaveUpResult>() ? 2 : 3;
  VC_CHECK(got == m.verdict, "verdict " << got << " expected " << m.verdict << " for outcomes " << vc::strv(seq)
                                        << " maxSuccess=" << p.maxSuccess << " ratio=" << p.maxDiscardRatio);
  VC_CHECK(rec.cases.size() == seq.size(), "cases announced");
  vc::state("X" + std::to_string(p.maxSuccess) + "," + std::to_string(p.maxDiscardRatio) + vc::strv(seq));
  vc::step(seq.size());
  vc::matched();
  vc::outcome(std::to_string(got) + "/" + std::to_string(m.succ) + "/" + std::to_string(m.disc));
}

// Verdicts that come late: what is reported does not depend on how long the run took.
VC_SUITE(late, 8, {}) {
  static const int N[] = {50, 99, 100, 101, 128, 255, 256, 257, 500, 999, 1000, 1001, 1024, 4096, 5000, 10000, 32768, 65536, 70000, 100001};
  int passes = N[vc::pick(20, "passes")], end = vc::pick(4, "end");
  TestParams p;
  p.maxSuccess = end == 0 ? passes : passes + 1;
  p.maxDiscardRatio = end == 3 ? 1 : 0;
  p.maxSize = 3;
  vcr::reset(vcr::Script());
  long n = 0, limit = end == 0 ? passes : end == 3 ? (long)passes + 1 + p.maxSuccess : (long)passes + 1;
  struct Counting : TestListener {
    long cases = 0, finished = 0, tried = 0;
    void onTestCaseFinished(const CaseDescription &) override { cases++; }
    void onShrinkTried(const CaseDescription &, bool) override { tried++; }
    void onTestFinished(const TestMetadata &, const TestResult &) override { finished++; }
  } rec;
  bool decided = false;
  const std::string reason = "why" + std::string(passes > 1001 ? 10 : 70000, 'x') + "end"; // of what ended the run
  auto prop = toProperty([&] {
    n++;
    if (n <= passes) return;
    decided = true;
    if (end == 1) RC_FAIL(reason);
    RC_DISCARD(reason);
  });
  auto res = testProperty(prop, TestMetadata(), p, rec);
  std::string what = std::to_string(passes) + " passes, then " + std::vector<std::string>{"the end", "a failure", "a discarded case", "discarded cases"}[end];
  int got = res.is<SuccessResult>() ? 0 : res.is<FailureResult>() ? 1 : res.is<GaveUpResult>() ? 2 : 3;
  VC_CHECK(got == std::min(end, 2), what << ": verdict " << got);
  VC_CHECK(decided == (end != 0), what << ": " << n << " cases run");
  int ns = got == 0 ? res.get<SuccessResult>().numSuccess : got == 1 ? res.get<FailureResult>().numSuccess : res.get<GaveUpResult>().numSuccess;
  VC_CHECK(ns == passes, what << ": " << ns << " passed cases reported");
  if (got) {
    const auto desc = got == 1 ? res.get<FailureResult>().description : res.get<GaveUpResult>().description;
    VC_CHECK(desc.find(reason) != std::string::npos, what << ": the reason is not reported: " << desc.substr(0, 100));
  }
  VC_CHECK(rec.cases == limit, what << ": " << rec.cases << " cases announced instead of " << limit);
  VC_CHECK(rec.finished == 1 && rec.tried == 0, what << ": notifications");
  vc::state(what);
  vc::step(n);
  vc::matched();
}
