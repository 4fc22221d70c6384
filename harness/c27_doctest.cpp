// C27: doctest integration.
#define DOCTEST_CONFIG_IMPLEMENT
#include <doctest/doctest.h>
#include "hostrun.h"
#include "rapidcheck/doctest.h"

namespace {
bool g_verbose = false;
bool g_named = true;
}
TEST_CASE("property") {
  if (g_named) rc::doctest::check("description", &host::propertyBody, g_verbose);
  else rc::doctest::check(&host::propertyBody, g_verbose);
}
TEST_CASE("around") {
  rc::doctest::check("first", [] {}, false);
  rc::doctest::check("second", &host::propertyBody, false);
  SUBCASE("plain") { CHECK(true); }
}
namespace {
bool runDoctest(const char *name) {
  std::ostringstream os;
  doctest::Context ctx;
  ctx.setOption("test-case", name);
  ctx.setOption("no-colors", true);
  ctx.setOption("no-breaks", true);
  ctx.setCout(&os);
  int rc = ctx.run();
  host::give(os.str());
  return rc != 0;
}
} // namespace
VC_SUITE(doctest, 8) {
  int way = vc::pick(8);
  host::verdictSuite([=] {
    g_named = way & 1;
    g_verbose = way & 2;
    return runDoctest(way & 4 ? "around" : "property");
  });
}
