// C25: reports tell what happened.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "detail/Testing.h"
#include "rapidcheck/detail/Configuration.h"
#include <cstdlib>
#include <cmath>
#include <regex>

using namespace rc;
using namespace rc::detail;

namespace {
const int kSuccess = 4, kRatio = 1;
// the library reads this once per process
int setParams() {
  setenv("RC_PARAMS", "max_success=4 max_discard_ratio=1 max_size=3 seed=7", 1);
  return 0;
}
int g_params = setParams();

std::string message(const TestResult &r) {
  std::ostringstream os;
  printResultMessage(r, os);
  return os.str();
}
struct Captured { // std::cerr while in scope
  std::ostringstream os;
  std::streambuf *old;
  Captured() : old(std::cerr.rdbuf(os.rdbuf())) {}
  ~Captured() { std::cerr.rdbuf(old); }
};
std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> r;
  std::istringstream is(s);
  std::string l;
  while (std::getline(is, l)) r.push_back(l);
  return r;
}
std::string joined(const Tags &t) {
  std::string s;
  for (size_t i = 0; i < t.size(); i++) s += (i ? ", " : "") + t[i];
  return s;
}
// Reads a success message back and compares it with what happened.
void checkSuccess(const std::string &msg, int numSuccess, const Distribution &dist) {
  auto ls = lines(msg);
  std::smatch m;
  if (ls.empty() || !std::regex_search(ls[0], m, std::regex("OK.* (-?[0-9]+) tests?"))) vc::fail("success message: " + msg);
  if (m[1] != std::to_string(numSuccess)) vc::fail("message says " + m[1].str() + " tests, there were " + std::to_string(numSuccess));
  std::multiset<std::pair<std::string, int>> want, got;
  for (auto &d : dist) want.insert({joined(d.first), d.second});
  double last = 1000;
  for (size_t i = 1; i < ls.size(); i++) {
    if (!std::regex_match(ls[i], m, std::regex("\\s*([0-9.]+)% - (.*)"))) vc::fail("distribution line '" + ls[i] + "'");
    double pct = std::stod(m[1]);
    if (pct > last + 0.006) vc::fail("distribution not in descending order:\n" + msg);
    last = pct;
    // which entry is it? (equal texts must have equal or distinguishable counts)
    bool found = false;
    for (auto &w : want)
      if (w.first == m[2] && std::fabs(100.0 * w.second / numSuccess - pct) < 0.0051 && !found) {
        got.insert(w);
        want.erase(want.find(w));
        found = true;
        break;
      }
    if (!found) vc::fail("line '" + ls[i] + "' is not the share of any set of tags (" + std::to_string(numSuccess) + " tests)");
  }
  if (!want.empty()) vc::fail("no line for tags '" + want.begin()->first + "' with count " + std::to_string(want.begin()->second) + " in\n" + msg);
}
} // namespace

VC_SUITE(success, 8) {
  static const int N[] = {1, 2, 3, 7, 100, 101, 1000, 2147483647};
  int n = N[vc::pick(8)];
  static const std::vector<Tags> T = {{"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"x, y", "\"q\""}, {""}};
  static const int C[] = {0, 1, 2, 3, 50, 1000};
  Distribution d;
  int left = n;
  int kinds = vc::thorough() ? 6 : 4;
  int off = vc::thorough() ? 0 : vc::pick(3);
  for (int i = 0; i < kinds && left > 0; i++) {
    int c = C[vc::pick(6)];
    if (c > left) c = left;
    if (c) d[T[(i + off) % 6]] = c;
    left -= c;
  }
  if (left > 0 && vc::pick(2)) d[{"rest"}] = left;
  SuccessResult s;
  s.numSuccess = n;
  s.distribution = d;
  auto msg = message(TestResult(s));
  checkSuccess(msg, n, d);
  vc::step();
  vc::matched();
  vc::state(vc::hashStr(msg));
}

// Many different sets of tags.
VC_SUITE(manyTags, 8, {}) {
  static const int K[] = {5, 8, 13, 16, 17, 20, 33, 50, 64, 100};
  int k = K[vc::pick(10, "sets")];
  int counts = vc::pick(8, "counts"), names = vc::pick(5, "names"), rest = vc::pick(3, "untagged");
  SuccessResult s;
  long total = 0;
  for (int i = 0; i < k; i++) {
    long c = 1;
    switch (counts) {
    case 0: c = 5; break;
    case 1: c = i + 1; break;
    case 2: c = k - i; break;
    case 3: c = 1 + (i * 37) % k; break;
    case 4: c = 1 + (i * 7) % 4; break;
    case 5: c = i == k / 2 ? 9000 : i % 3 + 1; break;
    case 6: c = i % 2 ? 1000 + i : 1000 - i; break;
    case 7: c = 1L << (i % 14); break;
    }
    Tags t;
    auto nr = std::to_string(i);
    switch (names) {
    case 0: t = {"t" + nr}; break;
    case 1: t = {"common", "t" + nr}; break;
    case 2: for (int j = 0; j < 1 + i % 4; j++) t.push_back((j ? "m" : "t") + nr + "." + std::to_string(j)); break;
    case 3: for (int j = 0; j < 7; j++) t.push_back((i >> j) & 1 ? "yes" : "no"); break;
    case 4: t = {std::string(i + 1, 'x')}; break;
    }
    s.distribution[t] = (int)c;
    total += c;
  }
  VC_CHECK((int)s.distribution.size() == k, "the harness made equal sets of tags");
  s.numSuccess = (int)(total + (rest == 0 ? 0 : rest == 1 ? 1 : total));
  auto msg = message(TestResult(s));
  checkSuccess(msg, s.numSuccess, s.distribution);
  VC_CHECK((int)lines(msg).size() == k + 1, "one line per set of tags");
  vc::step();
  vc::matched();
  vc::state(vc::hashStr(msg));
}
// Long runs: what the cases recorded is what is counted, over the whole run.
VC_SUITE(longRuns, 6, {}) {
  static const int N[] = {10, 64, 100, 101, 256, 1000};
  int n = N[vc::pick(6, "cases")];
  int pat = vc::pick(8, "tags"), disc = vc::pick(3, "discards");
  TestParams p;
  p.maxSuccess = n;
  p.maxSize = 20;
  vcr::reset(vcr::Script());
  struct Quiet : TestListener {
    void onTestCaseFinished(const CaseDescription &) override {}
    void onShrinkTried(const CaseDescription &, bool) override {}
    void onTestFinished(const TestMetadata &, const TestResult &) override {}
  } q;
  int i = 0, passed = 0;
  Distribution want;
  auto res = testProperty(toProperty([&] {
                            int c = i++;
                            Tags t;
                            switch (pat) {
                            case 0: t = {std::to_string(c % 7)}; break;
                            case 1: if (c % 3) t = {std::to_string(c % 3), "x"}; break;
                            case 2: t = {std::to_string(c)}; break;
                            case 3: for (int k = 0; k < c % 12; k++) t.push_back(std::to_string(k)); break;
                            case 4: t = {c < 50 ? "early" : "late"}; break;
                            case 5: t.assign(40, std::to_string(c % 2)); break;
                            case 6: if (c % 5) t = std::vector<Tags>{Tags(1, ""), Tags{"", std::string("x")}, Tags{std::string("x"), ""}, Tags(2, "")}[c % 5 - 1]; break;
                            case 7: t = std::vector<Tags>{Tags{"a, b"}, Tags{"a", "b"}, Tags{"a\nb"}, Tags{std::string("a\0b", 3)}, Tags{"a"}, Tags{std::string(5000, 'a')}}[c % 6]; break;
                            }
                            for (auto &x : t) ImplicitParam<param::CurrentPropertyContext>::value()->addTag(x);
                            if (disc == 1 && c % 4 == 3) RC_DISCARD("d");
                            if (disc == 2 && c % 20 < 9) RC_PRE(false);
                            passed++;
                            if (!t.empty()) want[t]++;
                          }),
                          TestMetadata(), p, q);
  VC_CHECK(res.is<SuccessResult>(), "verdict " << toString(res));
  auto &s = res.get<SuccessResult>();
  VC_CHECK(s.numSuccess == n && passed == n, passed << " passed, " << s.numSuccess << " reported");
  VC_CHECK(s.distribution == want, "distribution " << toString(s.distribution) << " instead of " << toString(want));
  if (pat != 7) checkSuccess(message(res), n, want); // these texts do not tell the tags apart
  vc::step(i);
  vc::matched();
  vc::state(std::to_string(n) + "/" + std::to_string(pat) + "/" + std::to_string(disc));
}
// Long counterexamples and long texts are printed to the end.
VC_SUITE(longFailure, 4, {}) {
  static const int K[] = {5, 16, 17, 64, 200, 1000};
  int k = K[vc::pick(6, "parts")], len = vc::pick(4, "length");
  static const int L[] = {1, 80, 1000, 70000};
  if (k * L[len] > 5000000) return;
  FailureResult f;
  f.numSuccess = k * 3;
  f.reproduce.shrinkPath.assign(k * 7, 1);
  for (int i = 0; i < k; i++) {
    std::string v = std::to_string(i) + ":";
    while ((int)v.size() < L[len]) v += i % 3 ? "ab\n" : "0123456789";
    f.counterExample.push_back({i % 2 ? "type " + std::to_string(i) : "int", v});
  }
  f.description = "first line";
  for (int i = 0; i < k; i++) f.description += "\nline " + std::to_string(i) + std::string(L[len] % 997, '.');
  auto msg = message(TestResult(f));
  std::smatch m;
  auto head = lines(msg)[0];
  VC_CHECK(std::regex_search(head, m, std::regex("after ([0-9]+) test")) && m[1] == std::to_string(k * 3 + 1), "counts in " << head);
  VC_CHECK(std::regex_search(head, m, std::regex("([0-9]+) shrinks")) && m[1] == std::to_string(k * 7), "counts in " << head);
  size_t pos = msg.find('\n');
  for (auto &e : f.counterExample) {
    auto part = e.first + ":\n" + e.second;
    size_t at = msg.find(part, pos);
    VC_CHECK(at != std::string::npos, "counterexample part " << e.second.substr(0, 20) << " missing");
    pos = at + part.size();
  }
  VC_CHECK(msg.find(f.description, pos) != std::string::npos, "description missing");
  vc::step(k);
  vc::matched();
  vc::state(std::to_string(k) + "/" + std::to_string(len));
}
// Every number of tests and of shrinks up to a bound, and around larger powers.
VC_SUITE(counts, 8) {
  static const std::vector<int> big{4095, 4096, 4097, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 131072};
  int c = vc::pick(1400 + (int)big.size()), n = c < 1400 ? c : big[c - 1400];
  for (int what = 0; what < 3; what++) {
    FailureResult f;
    f.numSuccess = what == 0 ? n : what == 1 ? 7 : n;
    int sh = what == 0 ? 3 : n;
    f.reproduce.shrinkPath.assign(sh, 0);
    f.description = "why";
    auto head = lines(message(TestResult(f)))[0];
    std::smatch m;
    VC_CHECK(std::regex_search(head, m, std::regex("Falsifiable after ([-0-9]+) test")) && m[1] == std::to_string(f.numSuccess + 1),
             "'" << head << "' for " << f.numSuccess << " passed cases and a failing one");
    if (std::regex_search(head, m, std::regex("([0-9]+) shrink(s?)"))) VC_CHECK(m[1] == std::to_string(sh) && (m[2] == "s") == (sh != 1), "'" << head << "' for " << sh << " shrinks");
    else VC_CHECK(sh == 0, "'" << head << "' does not mention " << sh << " shrinks");
    vc::step();
  }
  SuccessResult ok;
  ok.numSuccess = n;
  auto msg = message(TestResult(ok));
  std::smatch m;
  VC_CHECK(std::regex_search(msg, m, std::regex("([-0-9]+) test")) && m[1] == std::to_string(n), "'" << msg << "' for " << n << " passed cases");
  GaveUpResult g;
  g.numSuccess = n;
  g.description = "why";
  msg = message(TestResult(g));
  VC_CHECK(std::regex_search(msg, m, std::regex("after ([-0-9]+) test")) && m[1] == std::to_string(n), "'" << msg << "' for " << n << " passed cases");
  vc::matched(5);
  vc::state((uint64_t)n);
}
VC_SUITE(failure, 1) {
  static const int N[] = {0, 1, 2, 9, 99, 100, 2147483646};
  static const int S[] = {0, 1, 2, 3, 10, 257};
  static const char *D[] = {"", "main.cpp:3:\nRC_ASSERT(x)\n\nExpands to:\n1", "Exception thrown with message:\nboom\n\nLog:\nhi 5 tests"};
  static const std::vector<std::pair<std::string, std::string>> E = {{"int", "7"}, {"std::tuple<int, std::string>", "(1, \"a\\nb\")"}, {"", ""}, {"Generation failed", "why"}};
  FailureResult f;
  f.numSuccess = N[vc::pick(7)];
  int sh = S[vc::pick(6)];
  f.reproduce.shrinkPath.assign(sh, 3);
  f.reproduce.size = 1;
  f.description = D[vc::pick(3)];
  int ne = vc::pick(4);
  for (int i = 0; i < ne; i++) f.counterExample.push_back(E[vc::pick(4)]);
  auto msg = message(TestResult(f));
  auto ls = lines(msg);
  std::smatch m;
  VC_CHECK(std::regex_search(ls[0], m, std::regex("Falsifiable after ([-0-9]+) tests?")), "first line '" << ls[0] << "'");
  VC_CHECK(m[1] == std::to_string((int64_t)f.numSuccess + 1), "says " << m[1] << " tests for " << f.numSuccess << " passed and one failed");
  if (std::regex_search(ls[0], m, std::regex("([0-9]+) shrink(s?)"))) VC_CHECK(m[1] == std::to_string(sh) && (m[2] == "s") == (sh != 1), "says " << m[1] << " shrinks, there were " << sh);
  else VC_CHECK(sh == 0, "does not mention " << sh << " shrinks: " << ls[0]);
  // every part of the counterexample in order, then the description at the end
  size_t pos = msg.find('\n');
  for (auto &e : f.counterExample) {
    auto part = e.first + ":\n" + e.second;
    size_t at = msg.find(part, pos);
    VC_CHECK(at != std::string::npos, "counterexample part " << e.first << " = " << e.second << " missing in\n" << msg);
    pos = at + part.size();
  }
  VC_CHECK(msg.size() >= f.description.size() && msg.find(f.description, pos) != std::string::npos, "description missing in\n" << msg);
  vc::step();
  vc::matched();
  vc::state(vc::hashStr(msg));
}

VC_SUITE(others, 1) {
  static const int N[] = {0, 1, 2, 100, 2147483647};
  static const char *D[] = {"", "why", "a\nb 3 tests\n"};
  int n = N[vc::pick(5)];
  std::string d = D[vc::pick(3)];
  if (vc::pick(2)) {
    GaveUpResult g;
    g.numSuccess = n;
    g.description = d;
    auto msg = message(TestResult(g));
    std::smatch m;
    auto l = lines(msg)[0];
    VC_CHECK(std::regex_search(l, m, std::regex("Gave up after ([-0-9]+) tests?")) && m[1] == std::to_string(n), "message " << msg);
    VC_CHECK(msg.find(d, l.size()) != std::string::npos, "reason missing in " << msg);
  } else {
    auto msg = message(TestResult(Error(d)));
    VC_CHECK(msg.find(d) != std::string::npos && !msg.empty() && msg.find("OK") == std::string::npos && msg.find("ailure") != std::string::npos, "message " << msg);
  }
  vc::step();
  vc::matched();
  vc::state(vc::mix(n, vc::hashStr(d)));
}

// Whole programmatic checks: every sequence of outcomes with tags; what rc::check returns and prints.
namespace {
enum { Pass, PassTagA, PassTagAB, PassTagBA, PassClassify, Discard, Fail, Throw, ReturnsSame, NOut };
struct World {
  std::vector<int> outcomes;
  Distribution dist;
  int passed = 0, discarded = 0;
  bool failed = false, gaveUp = false, over = false;
  int next(int n) {
    if (over) return outcomes.back(); // the deciding case is evaluated again
    int o = vc::pick(n);
    outcomes.push_back(o);
    if (o == Discard) {
      if (++discarded > kSuccess * kRatio) gaveUp = over = true;
    } else if (o == Fail || o == Throw) {
      failed = over = true;
    } else {
      passed++;
      if (o == PassTagA) dist[{"\"a\""}]++;
      if (o == PassTagAB) dist[{"\"a\"", "\"b\""}]++;
      if (o == PassTagBA) dist[{"\"b\"", "\"a\""}]++;
      if (o == PassClassify) dist[{"o == PassClassify", "7"}]++;
      if (passed >= kSuccess) over = true;
    }
    return o;
  }
};
void act(int o) {
  // tags of cases that do not pass must not count
  if (o == PassTagA || o == Discard) RC_TAG("a");
  if (o == PassTagAB || o == Fail) RC_TAG("a", "b");
  if (o == PassTagBA) { RC_TAG("b"); RC_TAG(std::string("a")); }
  RC_CLASSIFY(o == PassClassify);
  RC_CLASSIFY(o == PassClassify, 7);
  RC_CLASSIFY(o == 99, "never");
  if (o == Discard) RC_DISCARD("not this one");
  if (o == Fail) RC_FAIL("the reason");
  if (o == Throw) throw std::runtime_error("the reason");
}
void judge(World &w, bool ret, const std::string &out, const std::string &name) {
  bool ok = !w.failed && !w.gaveUp;
  VC_CHECK(w.over, "the check ended early");
  VC_CHECK(ret == ok, "rc::check returned " << ret << " for outcomes " << vc::strv(w.outcomes));
  if (!name.empty()) VC_CHECK(out.find(name) != std::string::npos, "the description is not printed");
  auto at = [&](const char *t) { return out.find(t); };
  int kinds = (at("OK, passed") != std::string::npos) + (at("Falsifiable") != std::string::npos) + (at("Gave up") != std::string::npos);
  VC_CHECK(kinds == 1, "verdicts printed: " << kinds << " in " << out);
  std::smatch m;
  if (ok) {
    std::string msg = out.substr(at("OK, passed"));
    while (!msg.empty() && msg.back() == '\n') msg.pop_back();
    checkSuccess(msg, w.passed, w.dist);
  } else if (w.failed) {
    VC_CHECK(std::regex_search(out, m, std::regex("Falsifiable after ([0-9]+) test")) && m[1] == std::to_string(w.passed + 1), "failure after " << w.passed << " passed is reported as " << out);
    VC_CHECK(out.find("the reason") != std::string::npos, "reason missing in " << out);
    VC_CHECK(out.find('%') == std::string::npos, "a distribution is printed for a failure");
  } else {
    VC_CHECK(std::regex_search(out, m, std::regex("Gave up after ([0-9]+) test")) && m[1] == std::to_string(w.passed), "giving up after " << w.passed << " passed is reported as " << out);
    VC_CHECK(out.find("not this one") != std::string::npos, "reason missing in " << out);
  }
  vc::matched();
  vc::step(w.outcomes.size());
  vc::state(vc::hashStr(vc::strv(w.outcomes)));
  vc::outcome(ok ? "ok" : w.failed ? "failed" : "gave up");
}
} // namespace
VC_SUITE(check, 9) {
  World w;
  int first = vc::pick(9);
  bool named = first % 2;
  vcr::reset(vcr::Script());
  Captured cap;
  bool once = false;
  // the first decision shards the suite
  auto body = [&] {
    int o;
    if (!once) {
      once = true;
      w.outcomes.push_back(first);
      w.outcomes.pop_back();
    }
    o = w.next(NOut);
    act(o == ReturnsSame ? Pass : o);
  };
  bool ret = named ? rc::check("the name", body) : rc::check(body);
  judge(w, ret, cap.os.str(), named ? "the name" : "");
}
// Properties returning a value, with arguments and picks: all parts of the counterexample are printed.
VC_SUITE(counterexample, 1) {
  vcr::Script sc;
  sc.alphabet = {0, 1, 2, 3};
  sc.maxPoints = vc::thorough() ? 8 : 6;
  vcr::reset(sc);
  int limit = vc::pick(4);
  Captured cap;
  std::vector<std::pair<int, std::pair<int, bool>>> runs; // a, b and the verdict
  bool ret = rc::check("ce", [&](bool arg) {
    int a = *gen::resize(100, gen::inRange(0, 4)).as("first");
    int b = *gen::resize(100, gen::inRange(10, 14));
    RC_LOG() << "logged " << a;
    bool ok = a + (b - 10) + arg <= limit;
    runs.push_back({a * 100 + b, {arg, ok}});
    return ok;
  });
  bool anyFail = false;
  for (auto &r : runs) anyFail = anyFail || !r.second.second;
  std::string out = cap.os.str();
  VC_CHECK(ret == !anyFail, "rc::check returned " << ret);
  if (anyFail) {
    auto last = runs.back();
    VC_CHECK(!last.second.second, "the last run is not a failing one");
    std::string arg = last.second.first ? "(true)" : "(false)";
    std::string parts[] = {"std::tuple<bool>:\n" + arg, "first:\n" + std::to_string(last.first / 100), "int:\n" + std::to_string(last.first % 100), "Returned false", "logged " + std::to_string(last.first / 100)};
    size_t pos = 0;
    for (auto &p : parts) {
      auto at = out.find(p, pos);
      VC_CHECK(at != std::string::npos, "'" << p << "' missing (in order) in\n" << out);
      pos = at + p.size();
    }
  } else
    VC_CHECK(out.find("OK, passed 4 tests") != std::string::npos, "message " << out);
  vc::step(runs.size());
  vc::matched();
  vc::state(vc::hashStr(vcr::log()));
  vc::outcome(anyFail ? "failed" : "ok");
}

// Records compare equal exactly if everything they say is equal.
namespace {
template <typename T>
void sameExactly(const char *what, const std::vector<T> &all) { // all are different
  int i = vc::pick((int)all.size()), j = vc::pick((int)all.size());
  T a = all[i], b = all[j];
  std::string w = std::string(what) + " " + std::to_string(i) + " and " + std::to_string(j);
  VC_CHECK((a == b) == (i == j), w << " compare wrongly");
  VC_CHECK((a != b) == (i != j), w << " compare wrongly (!=)");
  vc::step(2);
  vc::matched();
  vc::state(w);
}
std::vector<Reproduce> reproduces() {
  std::vector<Reproduce> v;
  for (uint64_t seed : {1, 2})
    for (int size : {0, 1, 256})
      for (auto &path : std::vector<std::vector<size_t>>{{}, {0}, {1}, {0, 0}, {0, 1}, {1, 0}, {256}, {(size_t)1 << 40}, std::vector<size_t>(300, 7)}) {
        Reproduce r;
        r.random = Random(seed);
        r.size = size;
        r.shrinkPath = path;
        v.push_back(r);
      }
  return v;
}
const std::vector<std::string> kTexts = {"", "a", "b", "ab", "a ", std::string("a\0", 2), std::string("a\0b", 3)};
} // namespace
VC_SUITE(equality, 10) {
  int kind = vc::pick(10);
  auto rs = reproduces();
  switch (kind) {
  case 0: {
    std::vector<CaseResult> v;
    for (auto t : {CaseResult::Type::Success, CaseResult::Type::Failure, CaseResult::Type::Discard})
      for (auto &d : kTexts) v.push_back(CaseResult(t, d));
    return sameExactly("case results", v);
  }
  case 1: return sameExactly("reproduction data", rs);
  case 2: {
    std::vector<SuccessResult> v;
    for (int n : {0, 1, 100, 256})
      for (auto &d : std::vector<Distribution>{{}, {{{}, 1}}, {{{"a"}, 1}}, {{{"a"}, 2}}, {{{"b"}, 1}}, {{{"a", "b"}, 1}}, {{{"b", "a"}, 1}}, {{{"a"}, 1}, {{"b"}, 1}}, {{{"a"}, 257}}})
        v.push_back({n, d});
    return sameExactly("success results", v);
  }
  case 3: {
    std::vector<FailureResult> v;
    for (int n : {0, 1, 256})
      for (auto &d : {std::string(), std::string("a"), std::string("b")})
        for (size_t r : {0, 1, 2, 9, 28})
          for (auto &e : std::vector<Example>{{}, {{"", ""}}, {{"a", "b"}}, {{"b", "a"}}, {{"a", "c"}}, {{"c", "b"}}, {{"a", "b"}, {"a", "b"}}, {{"a", "b"}, {"a", "c"}}})
            v.push_back({n, d, rs[r], e});
    return sameExactly("failure results", v);
  }
  case 4: {
    std::vector<GaveUpResult> v;
    for (int n : {0, 1, 256})
      for (auto &d : kTexts) v.push_back({n, d});
    return sameExactly("give-up results", v);
  }
  case 5: {
    std::vector<Error> v;
    for (auto &d : kTexts) v.push_back(Error(d));
    return sameExactly("errors", v);
  }
  case 6: {
    std::vector<TestParams> v;
    for (uint64_t seed : {uint64_t(0), uint64_t(1), uint64_t(1) << 32})
      for (int a : {0, 1, 256})
        for (int b : {0, 1, 256})
          for (int c : {0, 1, 256})
            for (bool d : {false, true}) {
              TestParams p;
              p.seed = seed;
              p.maxSuccess = a;
              p.maxSize = b;
              p.maxDiscardRatio = c;
              p.disableShrinking = d;
              v.push_back(p);
            }
    return sameExactly("parameters", v);
  }
  case 7: {
    std::vector<TestMetadata> v;
    for (auto &a : kTexts)
      for (auto &b : kTexts) v.push_back({a, b});
    return sameExactly("metadata", v);
  }
  case 8: {
    std::vector<Configuration> v;
    for (int p : {0, 1, 2})
      for (int f : {0, 1, 2, 3})
        for (int r : {0, 1, 2, 3, 4, 5}) {
          Configuration c;
          c.testParams.seed = p == 1;
          c.testParams.maxSize += p == 2;
          c.verboseProgress = f & 1;
          c.verboseShrinking = f & 2;
          if (r == 1) c.reproduce[""] = rs[0];
          if (r == 2) c.reproduce["a"] = rs[0];
          if (r == 3) c.reproduce["a"] = rs[2];
          if (r == 4) c.reproduce["a"] = rs[0], c.reproduce["b"] = rs[2];
          if (r == 5) c.reproduce["a"] = rs[2], c.reproduce["b"] = rs[0];
          v.push_back(c);
        }
    return sameExactly("configurations", v);
  }
  case 9: {
    std::vector<CaseDescription> v;
    for (int type : {0, 1})
      for (auto &t : std::vector<Tags>{{}, {"a"}, {"a", "b"}, {"b", "a"}})
        for (int e : {0, 1, 2, 3}) {
          CaseDescription d;
          d.result = CaseResult(type ? CaseResult::Type::Failure : CaseResult::Type::Success, "x");
          d.tags = t;
          if (e == 1) d.example = [] { return Example(); };
          if (e == 2) d.example = [] { return Example{{"a", "b"}}; };
          if (e == 3) d.example = [] { return Example{{"a", "c"}}; };
          v.push_back(d);
        }
    return sameExactly("case descriptions", v);
  }
  }
}
