// C03: rc::beforeMinimalTestCase, the documented place for a breakpoint, is reached exactly once per falsified property,
// between the search/shrinking and the last run of the minimal case. Built with -finstrument-functions, so that the
// call is seen like a breakpoint would see it, wherever the function is defined.
#include "tree.h"
#include "script.h"
#include "rapidcheck.h"
#include "rapidcheck/BeforeMinimalTestCase.h"
#include "detail/Testing.h"

using namespace rc;
using namespace rc::detail;
using vt::Tree;

#define NOINST __attribute__((no_instrument_function))
namespace {
std::vector<int> g_trace; // ids of the cases run; -1: the hook was called
bool g_on = false;
} // namespace
extern "C" NOINST void __cyg_profile_func_enter(void *fn, void *) {
  if (!g_on || fn != (void *)&rc::beforeMinimalTestCase) return;
  g_on = false;
  g_trace.push_back(-1);
  g_on = true;
}
extern "C" NOINST void __cyg_profile_func_exit(void *, void *) {}

namespace {
const Tree *minimum(const Tree &t, std::vector<size_t> &path) {
  const Tree *m = &t;
  for (bool moved = true; moved;) {
    moved = false;
    for (size_t i = 0; i < m->kids.size() && !moved; i++)
      if (m->kids[i].label == 2) {
        path.push_back(i);
        m = &m->kids[i];
        moved = true;
      }
  }
  return m;
}
std::string showTrace() {
  std::string s;
  for (int i : g_trace) s += i < 0 ? "HOOK " : std::to_string(i) + " ";
  return s;
}
void expectHook(int id, const std::string &what) {
  long n = std::count(g_trace.begin(), g_trace.end(), -1);
  VC_CHECK(n == 1, what << ": beforeMinimalTestCase was called " << n << " times: " << showTrace());
  auto it = std::find(g_trace.begin(), g_trace.end(), -1);
  VC_CHECK(it + 1 != g_trace.end(), what << ": the minimal case is not run after beforeMinimalTestCase: " << showTrace());
  for (++it; it != g_trace.end(); ++it) VC_CHECK(*it == id, what << ": case " << *it << " is run after beforeMinimalTestCase, the minimal one is " << id << ": " << showTrace());
}
} // namespace

VC_SUITE(breakpoint, 1) {
  TestParams p;
  p.maxSuccess = 3;
  p.maxSize = 10;
  int how = vc::pick(4); // bit 0: shrinking disabled, bit 1: other cases before the failing one
  p.disableShrinking = how & 1;
  Tree t = vt::pickTree(vc::thorough() ? 6 : 5);
  vt::visit(t, [](Tree &x) { x.label = vc::pick(3); }); // the root too: without a failure the hook is not called
  std::vector<int> label;
  vt::visit(t, [&](Tree &x) {
    if ((int)label.size() <= x.id) label.resize(x.id + 1);
    label[x.id] = x.label;
  });
  vcr::reset(vcr::Script());
  int first = how & 2 ? 2 : 0, ran = 0;
  Gen<int> g = [=](const Random &, int) { return vt::ids(t); };
  auto prop = toProperty([&] {
    int id = *g;
    g_trace.push_back(id);
    if (ran < first) {
      if (ran++ % 2) RC_DISCARD("early");
      return;
    }
    if (label[id] == 1) RC_DISCARD("no");
    if (label[id] == 2) RC_FAIL("node" + std::to_string(id));
  });
  struct Quiet : TestListener {
    void onTestCaseFinished(const CaseDescription &) override {}
    void onShrinkTried(const CaseDescription &, bool) override {}
    void onTestFinished(const TestMetadata &, const TestResult &) override {}
  } l;
  g_trace.clear();
  g_on = true;
  auto res = testProperty(prop, TestMetadata(), p, l);
  g_on = false;
  if (t.label != 2) {
    VC_CHECK(!res.is<FailureResult>() && std::count(g_trace.begin(), g_trace.end(), -1) == 0, "beforeMinimalTestCase without a failure: " << showTrace());
    vc::outcome("no failure");
  } else {
    std::vector<size_t> path;
    auto m = p.disableShrinking ? &t : minimum(t, path);
    VC_CHECK(res.is<FailureResult>(), "failing case not reported");
    expectHook(m->id, "run");
    // and in reproduce mode
    auto f = res.get<FailureResult>();
    g_trace.clear();
    g_on = true;
    auto res2 = reproduceProperty(prop, f.reproduce);
    g_on = false;
    VC_CHECK(res2.is<FailureResult>(), "not reproduced");
    expectHook(m->id, "reproduction");
    vc::outcome("failure");
  }
  vc::state(vt::show(t) + std::to_string(how));
  vc::step(g_trace.size());
  vc::matched();
}
