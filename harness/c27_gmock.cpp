// C27: Google Mock integration: expectations count for the current case, and for nothing else.
#include <gmock/gmock.h>
#include "hostrun.h"
#include "rapidcheck/gmock.h"

using namespace rc;

namespace {
struct Mock {
  MOCK_METHOD(int, call, (int));
};
// What one case does, in order.
enum Step { ExpectTrue, ExpectFalse, AddFailure, Succeed, MockMet, MockMissed, MockTwice, MockWrong, Discard, FailIt, Throw, kSteps };
const char *const kNames[] = {"EXPECT(true)", "EXPECT(false)", "ADD_FAILURE", "SUCCEED", "mock met", "mock not called", "mock called twice", "mock called with another value", "discard", "RC_FAIL", "throw"};

void perform(int step) {
  switch (step) {
  case ExpectTrue: EXPECT_EQ(1, 1); break;
  case ExpectFalse: EXPECT_EQ(1, 2) << "note-ExpectFalse"; break;
  case AddFailure: ADD_FAILURE() << "note-AddFailure"; break;
  case Succeed: SUCCEED() << "note-Succeed"; break;
  case MockMet: {
    Mock m;
    EXPECT_CALL(m, call(1)).WillOnce(::testing::Return(3));
    m.call(1);
    break;
  }
  case MockMissed: {
    Mock m;
    EXPECT_CALL(m, call(1)).WillOnce(::testing::Return(3));
    break;
  }
  case MockTwice: {
    Mock m;
    EXPECT_CALL(m, call(1)).WillOnce(::testing::Return(3));
    m.call(1);
    m.call(1);
    break;
  }
  case MockWrong: {
    Mock m;
    EXPECT_CALL(m, call(1)).WillOnce(::testing::Return(3));
    m.call(2);
    m.call(1);
    break;
  }
  case Discard: RC_DISCARD("no");
  case FailIt: RC_FAIL("told to");
  case Throw: throw std::runtime_error("boom");
  }
}
// 0 pass 1 discard 2 fail: what such a case comes to
int meaning(const std::vector<int> &steps) {
  bool failed = false;
  for (int s : steps) {
    if (s == Discard) return 1;
    if (s == FailIt || s == Throw) return 2;
    if (s == ExpectFalse || s == AddFailure || s == MockMissed || s == MockTwice || s == MockWrong) failed = true;
  }
  return failed ? 2 : 0;
}
bool ends(int s) { return s == Discard || s == FailIt || s == Throw; }

std::vector<std::vector<int>> g_cases;
size_t g_next = 0;
std::string g_seen; // by the delegate
bool g_outside = false;
struct Delegate : ::testing::EmptyTestEventListener {
  void OnTestPartResult(const ::testing::TestPartResult &r) override {
    g_seen += std::string(r.failed() ? "failure:" : "success:") + (r.message() ? r.message() : "") + ";";
  }
};
} // namespace

TEST(Gmock, all) {
  ADD_FAILURE() << "note-before";
  auto r = rc::detail::checkTestable([] {
    // the last one is repeated when it is run again for the report
    if (g_next < g_cases.size()) g_next++;
    auto now = g_cases[g_next - 1];
    for (int s : now) perform(s);
  });
  std::string during = g_seen;
  ADD_FAILURE() << "note-after";
  std::ostringstream os;
  rc::detail::printResultMessage(r, os);
  int v = r.is<rc::detail::SuccessResult>() ? 0 : r.is<rc::detail::GaveUpResult>() ? 1 : 2;
  int num = v == 0 ? r.get<rc::detail::SuccessResult>().numSuccess : v == 1 ? r.get<rc::detail::GaveUpResult>().numSuccess
                                                                      : r.is<rc::detail::FailureResult>() ? r.get<rc::detail::FailureResult>().numSuccess : -1;
  host::give(std::to_string(v) + "\1" + std::to_string(num) + "\1" + os.str() + "\1" + during + "\1" + g_seen.substr(during.size()));
}

VC_SUITE(gmock, 11) {
  // up to three cases; the last one runs twice more: once as the minimal case (there is nothing to shrink)
  int longest = 3;
  std::vector<std::vector<int>> cases;
  int passes = 0, discards = 0, want = 0;
  bool failed = false;
  for (int c = 0; passes < 2 && discards <= 2 && !failed; c++) {
    std::vector<int> steps;
    int len = c == 0 ? longest : vc::thorough() ? 2 : 1; 
    for (int i = 0; i < len; i++) {
      int s = c == 0 && i == 0 ? vc::pick(kSteps) : vc::pick(kSteps + 1);
      if (s == kSteps) break;
      steps.push_back(s);
      if (ends(s)) break;
    }
    cases.push_back(steps);
    std::string n = "case:";
    for (int s : steps) n += std::string(" ") + kNames[s] + ",";
    vc::note(n);
    switch (meaning(steps)) {
    case 0: passes++; break;
    case 1: discards++; break;
    case 2: failed = true; break;
    }
  }
  want = failed ? 2 : discards > 2 ? 1 : 0;
  auto r = host::run("max_success=2 max_discard_ratio=1 max_size=4 seed=3", [&] {
    g_cases = cases;
    std::string f = "--gtest_filter=Gmock.all";
    char *argv[] = {(char *)"program", &f[0], nullptr};
    int argc = 2;
    ::testing::InitGoogleMock(&argc, argv);
    auto &ls = ::testing::UnitTest::GetInstance()->listeners();
    delete ls.Release(ls.default_result_printer());
    ls.Append(new rc::gmock::RapidCheckListener(std::unique_ptr<::testing::TestEventListener>(new Delegate)));
    return RUN_ALL_TESTS();
  });
  std::vector<std::string> f(1);
  for (char ch : r.text) {
    if (ch == '\1') f.emplace_back();
    else f.back() += ch;
  }
  if (f.size() != 5) vc::fail("the test was not run to its end: " + r.text + r.err);
  static const char *const V[] = {"held", "gave up", "was falsified"};
  VC_CHECK(f[0] == std::to_string(want), "the property " << V[atoi(f[0].c_str())] << ", it should be that it " << V[want] << "\n" << f[2]);
  VC_CHECK(f[1] == std::to_string(passes), f[1] << " passes reported instead of " << passes << "\n" << f[2]);
  // the report names what failed in that case
  if (want == 2)
    for (int s : cases.back()) {
      if (s == ExpectFalse) VC_CHECK(f[2].find("note-ExpectFalse") != std::string::npos, "the failed expectation is not in the report\n" << f[2]);
      if (s == AddFailure) VC_CHECK(f[2].find("note-AddFailure") != std::string::npos, "the failure is not in the report\n" << f[2]);
      if (s == MockMissed) VC_CHECK(f[2].find("never called") != std::string::npos, "the missed call is not in the report\n" << f[2]);
      break; // the first one; what is reported for several is C05's matter
    }
  // nothing of the cases reaches the delegate, everything else does
  VC_CHECK(f[3].find("note-before") != std::string::npos && f[4].find("note-after") != std::string::npos, "what happened outside of the property did not reach the delegate");
  VC_CHECK(f[3].find("note-Ex") == std::string::npos && f[3].find("note-Add") == std::string::npos && f[3].find("note-Su") == std::string::npos && f[3].find("called") == std::string::npos,
           "results of a case leaked to the delegate: " << f[3]);
  VC_CHECK(std::count(f[3].begin(), f[3].end(), ';') == 1, "the delegate saw " << f[3]);
  vc::step((long)cases.size());
  vc::matched();
  vc::state(vc::hashStr(r.text));
  vc::outcome(V[want]);
}

// A failed expectation is shrunk like a failed RC_ASSERT.
namespace {
int g_kind = 0, g_k = 0;
}
TEST(Gmock, shrinks) {
  auto describe = [](const rc::detail::TestResult &r) {
    std::string s;
    if (r.is<rc::detail::FailureResult>()) {
      const auto &f = r.get<rc::detail::FailureResult>();
      s = "failed after " + std::to_string(f.numSuccess);
      for (auto i : f.reproduce.shrinkPath) s += " " + std::to_string(i);
      for (auto &e : f.counterExample) s += " " + e.first + "=" + e.second;
    } else {
      s = "not failed";
    }
    return s;
  };
  auto a = describe(rc::detail::checkTestable([](const std::vector<int> &v, int x) {
    RC_PRE(x != 3);
    RC_ASSERT((int)v.size() + x < g_k);
  }));
  auto b = describe(rc::detail::checkTestable([](const std::vector<int> &v, int x) {
    RC_PRE(x != 3);
    bool good = (int)v.size() + x < g_k;
    switch (g_kind) {
    case 0: EXPECT_TRUE(good); break;
    case 1: {
      Mock m;
      EXPECT_CALL(m, call(1)).Times(::testing::AtLeast(1));
      if (good) m.call(1);
      break;
    }
    case 2: {
      EXPECT_TRUE(good);
      EXPECT_TRUE(true);
      SUCCEED();
      break;
    }
    }
  }));
  host::give(a + "\1" + b);
}
VC_SUITE(gmockShrink, 3) {
  g_kind = vc::pick(3);
  g_k = vc::pick(9) - 2;
  int seed = vc::pick(vc::thorough() ? 30 : 6);
  auto r = host::run("max_success=20 max_size=8 seed=" + std::to_string(seed), [&] {
    std::string f = "--gtest_filter=Gmock.shrinks";
    char *argv[] = {(char *)"program", &f[0], nullptr};
    int argc = 2;
    ::testing::InitGoogleMock(&argc, argv);
    rc::gmock::RapidCheckListener::install();
    return RUN_ALL_TESTS();
  });
  auto i = r.text.find('\1');
  VC_CHECK(i != std::string::npos, "the test was not run to its end " << r.err);
  VC_CHECK(r.text.substr(0, i) == r.text.substr(i + 1), "with expectations " << r.text.substr(i + 1) << ", with assertions " << r.text.substr(0, i));
  vc::step(2);
  vc::matched();
  vc::state(vc::hashStr(r.text));
  vc::outcome(r.text.substr(0, 6));
}

// Every event of a test program reaches the delegate, in order.
namespace {
struct Trace : ::testing::TestEventListener {
  std::string s;
  void OnTestProgramStart(const ::testing::UnitTest &) override { s += "program{"; }
  void OnTestIterationStart(const ::testing::UnitTest &, int i) override { s += "iteration" + std::to_string(i) + "{"; }
  void OnEnvironmentsSetUpStart(const ::testing::UnitTest &) override { s += "envup{"; }
  void OnEnvironmentsSetUpEnd(const ::testing::UnitTest &) override { s += "}"; }
  void OnTestCaseStart(const ::testing::TestCase &c) override { s += std::string("case:") + c.name() + "{"; }
  void OnTestSuiteStart(const ::testing::TestSuite &c) override { s += std::string("suite:") + c.name() + "{"; }
  void OnTestSuiteEnd(const ::testing::TestSuite &) override { s += "}"; }
  void OnTestDisabled(const ::testing::TestInfo &t) override { s += std::string("disabled:") + t.name() + ";"; }
  void OnTestStart(const ::testing::TestInfo &t) override { s += std::string("test:") + t.name() + "{"; }
  void OnTestPartResult(const ::testing::TestPartResult &r) override { s += std::string(r.failed() ? "failure:" : "success:") + r.message() + ";"; }
  void OnTestEnd(const ::testing::TestInfo &) override { s += "}"; }
  void OnTestCaseEnd(const ::testing::TestCase &) override { s += "}"; }
  void OnEnvironmentsTearDownStart(const ::testing::UnitTest &) override { s += "envdown{"; }
  void OnEnvironmentsTearDownEnd(const ::testing::UnitTest &) override { s += "}"; }
  void OnTestIterationEnd(const ::testing::UnitTest &, int) override { s += "}"; }
  void OnTestProgramEnd(const ::testing::UnitTest &) override { s += "}"; }
};
} // namespace
TEST(Events, a) { EXPECT_TRUE(false) << "first"; SUCCEED() << "second"; }
TEST(Events, b) { FAIL() << "fatal"; }
TEST(Events, DISABLED_c) { FAIL() << "not run"; }
VC_SUITE(events, 1) {
  static const char *const F[] = {"Events.*", "Events.a", "Events.b", "nothing", "Events.*"};
  int which = vc::pick(5);
  bool install = vc::pick(2);
  auto r = host::run("", [&] {
    std::string f = std::string("--gtest_filter=") + F[which], rep = which == 4 ? "--gtest_repeat=2" : "--gtest_repeat=1";
    char *argv[] = {(char *)"program", &f[0], &rep[0], nullptr};
    int argc = 3;
    ::testing::InitGoogleMock(&argc, argv);
    auto &ls = ::testing::UnitTest::GetInstance()->listeners();
    Trace *plain = new Trace, *wrapped = new Trace;
    if (install) {
      rc::gmock::RapidCheckListener::install(); // wraps the default printer
    } else {
      delete ls.Release(ls.default_result_printer());
      ls.Append(new rc::gmock::RapidCheckListener(std::unique_ptr<::testing::TestEventListener>(wrapped)));
    }
    ls.Append(plain);
    RUN_ALL_TESTS();
    std::cout.flush();
    host::give(plain->s + "\1" + wrapped->s);
    return 0;
  });
  auto i = r.text.find('\1');
  std::string a = r.text.substr(0, i), b = r.text.substr(i + 1);
  // closing events are given in reverse order of registration; all that matters is the content
  if (!install) VC_CHECK(a == b, "the delegate saw " << b << " instead of " << a);
  else if (which < 3 || which == 4) VC_CHECK(r.out.find("Events") != std::string::npos && r.out.find(which == 2 ? "fatal" : "first") != std::string::npos, "the default output is gone: " << r.out);
  if (install && (which == 0 || which == 4)) VC_CHECK(r.out.find("DISABLED_c") != std::string::npos, "the default output does not mention the disabled test: " << r.out);
  vc::step(1);
  vc::matched();
  vc::state(vc::hashStr(r.text));
}
