// C27: Catch2 integration.
#include <catch2/catch_test_macros.hpp>
#include <catch2/catch_session.hpp>
#include <catch2/reporters/catch_reporter_event_listener.hpp>
#include <catch2/reporters/catch_reporter_registrars.hpp>
#include "hostrun.h"
#include "rapidcheck/catch.h"

namespace {
bool g_verbose = false;
std::string g_messages;
int g_plain = 0;
struct Listener : Catch::EventListenerBase {
  using EventListenerBase::EventListenerBase;
  void assertionEnded(const Catch::AssertionStats &s) override {
    if (s.assertionResult.isOk()) return;
    for (auto &m : s.infoMessages) g_messages += m.message + "\n";
    g_messages += std::string(s.assertionResult.getMessage()) + "\n";
  }
};
} // namespace
CATCH_REGISTER_LISTENER(Listener)
TEST_CASE("property") { rc::prop("description", &host::propertyBody, g_verbose); }
TEST_CASE("around") {
  rc::prop("first", [] {});
  rc::prop("second", &host::propertyBody, g_verbose);
  SECTION("plain") {
    g_plain++;
    CHECK(true);
  }
}
namespace {
bool runCatch(const char *name) {
  Catch::Session session;
  const char *argv[] = {"program", name, "-o", "/dev/null"};
  int rc = session.run(4, argv);
  host::give(g_messages);
  if (std::string(name) == "around" && g_plain != 1) {
    std::cerr << "the sections beside the property were run " << g_plain << " times\n";
    abort();
  }
  return rc != 0;
}
} // namespace
VC_SUITE(catch2, 4) {
  int way = vc::pick(4);
  host::verdictSuite([=] {
    g_verbose = way & 1;
    return runCatch(way & 2 ? "around" : "property");
  });
}
