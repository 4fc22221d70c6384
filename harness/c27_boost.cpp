// C27: Boost.Test integration.
#define BOOST_TEST_NO_MAIN
#define BOOST_TEST_ALTERNATIVE_INIT_API
#include <boost/test/included/unit_test.hpp>
#include "hostrun.h"
#include "rapidcheck/boost_test.h"
#include <regex>

namespace {
std::vector<std::string> g_events;
void ev(const std::string &s) { g_events.push_back(s); }
} // namespace

BOOST_AUTO_TEST_SUITE(Suite)
RC_BOOST_PROP(property, (int a)) { host::propertyBody(a); }

class Fixture {
protected:
  Fixture() { ev("ctor"); }
  ~Fixture() { ev("dtor"); }
  int mine = 0;
};
RC_BOOST_FIXTURE_PROP(fixture, Fixture, (int a)) {
  ev("body" + std::to_string(mine++));
  host::propertyBody(a);
}
RC_BOOST_PROP(other, ()) {
  ev("other");
}
BOOST_AUTO_TEST_SUITE_END()
// the same names in another suite: different tests
BOOST_AUTO_TEST_SUITE(Another)
RC_BOOST_PROP(property, (int)) { ev("other"); }
RC_BOOST_PROP(fixture, (int)) { ev("other"); }
BOOST_AUTO_TEST_SUITE(Suite)
RC_BOOST_PROP(property, (int)) { ev("other"); }
BOOST_AUTO_TEST_SUITE_END()
BOOST_AUTO_TEST_SUITE_END()

namespace {
bool runBoost(const std::string &name, const std::function<void()> &more = [] {}) {
  std::string arg = "--run_test=" + name;
  std::string log = "--log_level=all";
  std::string col = "--color_output=no";
  char *argv[] = {(char *)"program", &arg[0], &log[0], &col[0], nullptr};
  std::ostringstream os;
  // Boost.Test writes its log to stdout: take it from there
  auto *old = std::cout.rdbuf();
  int rc = boost::unit_test::unit_test_main([] { return true; }, 4, argv);
  std::cout.rdbuf(old);
  more();
  return rc != 0;
}
} // namespace
VC_SUITE(boostTest, 2) {
  int fixture = vc::pick(2);
  host::verdictSuite([=] {
    bool failed = runBoost(fixture ? "Suite/fixture" : "Suite/property", [=] {
      // one fresh fixture per executed case
      bool ok = true;
      size_t n = g_events.size();
      if (fixture) ok = n && n % 3 == 0 && (int)(n / 3) == host::plan().calls;
      for (size_t i = 0; ok && i < n; i += 3) ok = g_events[i] == "ctor" && g_events[i + 1] == "body0" && g_events[i + 2] == "dtor";
      if (!ok) {
        std::cerr << "every case must have its own fixture\n";
        abort();
      }
    });
    std::cout.flush();
    std::cerr.flush();
    fflush(stdout);
    // both streams hold the log
    std::string s;
    for (int fd : {1, 2}) {
      off_t end = lseek(fd, 0, SEEK_CUR);
      std::string b(end, 0);
      if (pread(fd, &b[0], end, 0) < 0) abort();
      s += b;
    }
    for (auto &ch : s)
      if (ch == '\1') ch = ' ';
    host::give(s);
    return failed;
  });
}

// Like the suite of the same kind for Google Test.
VC_SUITE(boostReproduce, 1) {
  host::Plan p;
  p.body = host::Threshold;
  p.k = vc::pick(8) - 2;
  int fixture = vc::pick(2);
  auto once = [&](const std::string &params) {
    return host::run(params, [&] {
      host::plan() = p;
      bool failed = runBoost(fixture ? "Suite/fixture,other:Another" : "Suite/property,other:Another");
      int others = 0;
      for (auto &e : g_events) others += e == "other";
      host::give(std::to_string(others) + " " + std::to_string(host::plan().calls));
      return failed ? 1 : 0;
    }, true);
  };
  std::string base = std::string(host::params()) + " max_success=30";
  auto a = once(base);
  std::smatch mt;
  bool hint = std::regex_search(a.err, mt, std::regex("reproduce=([A-Za-z0-9+/=_-]+)"));
  VC_CHECK(hint == (a.rc != 0), "hint printed: " << hint << ", failed: " << a.rc << "\n" << a.err);
  vc::outcome(a.rc ? "failed" : "held");
  if (!hint) return;
  auto b = once(base + " reproduce=" + mt[1].str());
  VC_CHECK(b.rc, "the reproduction does not fail");
  VC_CHECK(b.text[0] == '0', "another property was run while reproducing");
  auto values = [](const host::Ran &r) {
    std::string t = r.out + r.err, v;
    std::smatch m;
    std::regex e("Expands to:\\s+([^\\n]*)");
    return std::regex_search(t, m, e) ? m[1].str() : std::string("none");
  };
  VC_CHECK(values(a) == values(b), "the counterexample was '" << values(a) << "', reproduced '" << values(b) << "'");
  vc::step(2);
  vc::matched();
  vc::state(vc::hashStr(a.out));
}
