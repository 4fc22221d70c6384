// C06: complete runs with the real random engine: the same seed and parameters execute the same cases.
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/TestListener.h"
#include "detail/Testing.h"
#include "rapidcheck/detail/PropertyContext.h"
#include "rapidcheck/detail/Property.h"
#include <map>
#include <sstream>

using namespace rc;
using namespace rc::detail;

namespace {
struct Rec : TestListener {
  std::string log;
  void onTestCaseFinished(const CaseDescription &d) override { add('c', d); }
  void onShrinkTried(const CaseDescription &d, bool accepted) override { add(accepted ? 'A' : 'r', d); }
  void onTestFinished(const TestMetadata &, const TestResult &) override { log += "end;"; }
  void add(char k, const CaseDescription &d) {
    std::ostringstream os;
    os << k << (int)d.result.type << d.result.description;
    for (auto &t : d.tags) os << "#" << t;
    if (d.example)
      for (auto &p : d.example()) os << "(" << p.first << "=" << p.second << ")";
    log += os.str() + ";";
  }
};
template <typename F> Property prop(F f) { return toProperty(std::move(f)); }

using Cases = std::shared_ptr<std::vector<std::string>>;
Property make(int which, Cases out) {
  auto rec = [out](const std::string &s) { out->push_back(s); };
  switch (which) {
  case 0: return prop([=](int a, int b) { rec(toString(a) + "," + toString(b)); RC_ASSERT(a + 0L < 40); });
  case 1: return prop([=](const std::vector<int> &v) { rec(toString(v)); RC_ASSERT(v.size() < 5); });
  case 2: return prop([=](const std::string &s) { rec(toString(s)); RC_ASSERT(s.find('b') == std::string::npos); });
  case 3: return prop([=](const std::map<int, std::string> &m) { rec(toString(m)); RC_PRE(m.size() != 3u); RC_ASSERT(m.size() < 6); });
  case 4: return prop([=] {
      auto n = *gen::inRange(0, 10);
      auto v = *gen::container<std::vector<int>>(n, gen::inRange(0, 100));
      rec(toString(v));
      RC_TAG(n);
      for (int x : v) RC_ASSERT(x != 77);
    });
  case 5: return prop([=](double d, Maybe<int> m) { rec(toString(d) + toString(m)); RC_CLASSIFY(d > 0); RC_ASSERT(!(m && *m > 60)); });
  case 6: return prop([=](const std::set<int> &s, const std::unordered_map<int, bool> &u) { std::map<int, bool> o(u.begin(), u.end()); rec(toString(s) + toString(o)); RC_ASSERT(s.size() + u.size() < 9); });
  case 7: return prop([=] {
      auto u = *gen::unique<std::vector<int>>(gen::inRange(0, 1000));
      auto p = *gen::oneOf(gen::just(1), gen::inRange(5, 50));
      auto t = *gen::exec([] { auto a = *gen::inRange(0, 9); auto b = *gen::inRange(a, 10); return a * 10 + b; });
      rec(toString(u) + toString(p) + toString(t));
      RC_ASSERT(u.size() + p < 55);
    });
  case 8: return prop([=](unsigned char c, const std::pair<bool, std::vector<bool>> &p) { rec(toString(c) + toString(p)); if (c > 200) throw std::runtime_error("thrown"); });
  default: return prop([=](const std::wstring &w, float f) { rec(std::to_string(w.size()) + (w.empty() ? "" : std::to_string((long)w[0])) + std::to_string(f)); RC_ASSERT(w.size() < 20); });
  }
}
const int kProps = 10;
struct Run {
  std::string result, log;
  std::vector<std::string> cases;
  bool operator==(const Run &o) const { return result == o.result && log == o.log && cases == o.cases; }
};
Run runOnce(int which, const TestParams &p) {
  Run r;
  auto cases = std::make_shared<std::vector<std::string>>();
  Rec l;
  TestMetadata m;
  m.id = "id";
  auto res = testProperty(make(which, cases), m, p, l);
  std::ostringstream os;
  printResultMessage(res, os);
  FailureResult f;
  if (res.match(f)) os << "|" << f.reproduce;
  r.result = os.str();
  r.log = l.log;
  r.cases = *cases;
  return r;
}
} // namespace

VC_SUITE(runs, 32, {}) {
  static const uint64_t seeds[] = {0, 1, 2, 42, 12345, ~uint64_t(0), uint64_t(1) << 63, 0xdeadbeef};
  int first = vc::pick((vc::thorough() ? 8 : 4) * kProps, "seed and property");
  int si = first / kProps, which = first % kProps;
  TestParams p;
  p.seed = seeds[si];
  p.maxSuccess = vc::pick(2) ? 100 : 25;
  p.maxSize = vc::pick(2) ? 100 : 12;
  p.disableShrinking = vc::pick(2);
  Run a = runOnce(which, p);
  vc::step(a.cases.size());
  Run b = runOnce(which, p);
  VC_CHECK(a == b, "two runs with the same seed and parameters differ: " << a.cases.size() << " and " << b.cases.size() << " cases, results " << a.result << " / " << b.result);
  // other runs in between, nested runs and other random use must not matter
  for (int k = 1; k <= 2; k++) runOnce((which + k) % kProps, p);
  Random other(p.seed);
  for (int i = 0; i < 10; i++) other.next();
  Run c = runOnce(which, p);
  VC_CHECK(a == c, "a run differs after other runs");
  Run inner;
  auto nested = prop([&](int) {
    inner = runOnce(which, p);
  });
  TestParams once;
  once.seed = 99;
  once.maxSuccess = 1;
  Rec l;
  testProperty(nested, TestMetadata(), once, l);
  VC_CHECK(a == inner, "a run differs when executed inside another property");
  vc::matched(4);
  vc::state(a.result + a.log);
  vc::outcome(a.result.substr(0, 20));
  vc::sample(a.result.substr(0, 120));
}

// Different seeds must actually give different runs (otherwise the comparison above would be vacuous).
VC_SUITE(seedsMatter, 1, {}) {
  int which = vc::pick(kProps, "property");
  std::map<std::string, int> seen;
  for (uint64_t s = 0; s < 20; s++) {
    TestParams p;
    p.seed = s;
    p.maxSuccess = 30;
    p.disableShrinking = true;
    Run r = runOnce(which, p);
    std::string k;
    for (auto &x : r.cases) k += x + "|";
    seen[k]++;
    vc::step(r.cases.size());
  }
  VC_CHECK(seen.size() > 15, "only " << seen.size() << " different runs for 20 seeds");
  vc::matched();
  vc::outcome("distinct");
}
