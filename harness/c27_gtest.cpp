// C27: Google Test integration.
#include <gtest/gtest.h>
#include "hostrun.h"
#include "rapidcheck/gtest.h"
#include <regex>

namespace {
std::vector<std::string> g_events;
void ev(const std::string &s) { g_events.push_back(s); }
template <int N>
struct Fix : ::testing::Test {
  Fix() { ev("ctor"); }
  ~Fix() override { ev("dtor"); }
  void SetUp() override { ev("setup"); }
  void TearDown() override { ev("teardown"); }
  int mine = 0;
};
struct Fixture : Fix<0> {};
template <typename T>
struct Typed : Fix<1> {};
using Types = ::testing::Types<int, short>;
} // namespace
RC_GTEST_PROP(Props, property, (int a)) { host::propertyBody(a); }
RC_GTEST_PROP(Props, other, (int)) { ev("other"); }
// the same names in other test cases: different tests
RC_GTEST_PROP(Another, property, (int)) { ev("other"); }
RC_GTEST_PROP(Another, fixture, (int)) { ev("other"); }
RC_GTEST_PROP(Another, typed, (int)) { ev("other"); }
struct FixtureB : Fix<2> {};
RC_GTEST_FIXTURE_PROP(FixtureB, fixture, (int)) { ev("other"); }
RC_GTEST_FIXTURE_PROP(Fixture, fixture, (int a)) {
  ev("body" + std::to_string(mine++));
  host::propertyBody(a);
}
TYPED_TEST_SUITE(Typed, Types, );
RC_GTEST_TYPED_FIXTURE_PROP(Typed, typed, (TypeParam a)) {
  ev("body" + std::to_string(this->mine++));
  // of two instances only one runs the property
  if (std::is_same<TypeParam, int>::value) host::propertyBody(int(a)); else ev("other");
}

namespace {
struct Collect : ::testing::EmptyTestEventListener {
  std::string *out;
  explicit Collect(std::string *o) : out(o) {}
  void OnTestPartResult(const ::testing::TestPartResult &r) override {
    if (r.failed()) *out += std::string(r.message()) + "\n";
  }
};
bool runGtest(const std::string &filter, std::string *messages) {
  std::string f = "--gtest_filter=" + filter;
  char *argv[] = {(char *)"program", &f[0], nullptr};
  int argc = 2;
  ::testing::InitGoogleTest(&argc, argv);
  auto &ls = ::testing::UnitTest::GetInstance()->listeners();
  delete ls.Release(ls.default_result_printer());
  ls.Append(new Collect(messages));
  return RUN_ALL_TESTS() != 0;
}
} // namespace
VC_SUITE(gtest, 3) {
  static const char *const F[] = {"Props.property", "Fixture_RapidCheck.fixture", "Typed/0.typed"};
  int way = vc::pick(3);
  host::verdictSuite([=] {
    std::string m;
    bool failed = runGtest(F[way], &m);
    if (way) {
      // a fresh fixture per executed case, set up and torn down once.  (The typed test also instantiates the
      // host's own fixture around the whole property.)
      auto e = g_events;
      if (way == 2) {
        if (e.size() < 4 || e[0] != "ctor" || e[1] != "setup" || e[e.size() - 2] != "teardown" || e.back() != "dtor") {
          std::cerr << "bad outer fixture\n";
          abort();
        }
        e = std::vector<std::string>(e.begin() + 2, e.end() - 2);
      }
      static const char *const W[] = {"ctor", "setup", "body0", "teardown", "dtor"};
      bool ok = e.size() % 5 == 0 && (int)(e.size() / 5) == host::plan().calls;
      for (size_t i = 0; ok && i < e.size(); i++) ok = e[i] == W[i % 5];
      if (!ok) {
        for (auto &x : e) std::cerr << x << " ";
        std::cerr << ": every case must have its own fixture, set up and torn down once\n";
        abort();
      }
    }
    host::give(m);
    return failed;
  });
}

// What a failing property prints as its reproduction makes a later run of the program repeat exactly that
// failure, and nothing else is run.
VC_SUITE(gtestReproduce, 1) {
  host::Plan p;
  p.body = host::Threshold;
  p.k = vc::pick(8) - 2;
  int way = vc::pick(3);
  static const char *const F[] = {"Props.*:Another.*", "Fixture_RapidCheck.fixture:FixtureB_RapidCheck.*:Props.other:Another.*", "Typed/*:Props.other:Another.*"};
  auto once = [&](const std::string &params) {
    return host::run(params, [&] {
      host::plan() = p;
      std::string m;
      bool failed = runGtest(F[way], &m);
      int others = 0;
      for (auto &e : g_events) others += e == "other";
      host::give(m + "\1" + std::to_string(others) + "\1" + std::to_string(host::plan().calls));
      return failed ? 1 : 0;
    }, true);
  };
  std::string base = std::string(host::params()) + " max_success=30";
  auto a = once(base);
  std::smatch mt;
  bool hint = std::regex_search(a.err, mt, std::regex("reproduce=([A-Za-z0-9+/=_-]+)"));
  VC_CHECK(hint == (a.rc != 0), "hint printed: " << hint << ", failed: " << a.rc << "\n" << a.err);
  vc::outcome(a.rc ? "failed" : "held");
  if (!hint) return;
  auto b = once(base + " reproduce=" + mt[1].str());
  VC_CHECK(b.rc, "the reproduction does not fail");
  // the number of tests is that of the run at hand, everything else must be the same
  auto report = [](const std::string &t) { return std::regex_replace(t.substr(0, t.find('\1')), std::regex("after [0-9]+ test"), ""); };
  std::string am = report(a.text), bm = report(b.text);
  VC_CHECK(am == bm, "reported '" << am << "', when reproduced '" << bm << "'");
  VC_CHECK(b.text.substr(b.text.find('\1'), 2) == "\1" "0", "another property was run while reproducing");
  vc::step(2);
  vc::matched();
  vc::state(vc::hashStr(a.text));
}
