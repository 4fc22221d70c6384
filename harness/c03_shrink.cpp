// C03: the shrink phase, for every small shrink tree and every labelling of its nodes.
#include "tree.h"
#include "script.h"
#include "rapidcheck.h"
#include "detail/Testing.h"

using namespace rc;
using namespace rc::detail;
using vt::Tree;

namespace {
// labels: 0 pass, 1 discard, 2 fail
using Ty = CaseResult::Type;
const Ty kTypes[3] = {Ty::Success, Ty::Discard, Ty::Failure};

struct Rec : TestListener {
  std::vector<Ty> cases;
  std::vector<std::string> caseDesc;
  std::vector<std::pair<std::string, bool>> tried;
  std::vector<TestResult> results;
  void onTestCaseFinished(const CaseDescription &d) override { cases.push_back(d.result.type); }
  void onShrinkTried(const CaseDescription &d, bool a) override { tried.emplace_back(d.result.description, a); }
  void onTestFinished(const TestMetadata &, const TestResult &r) override { results.push_back(r); }
};

struct Expect {
  const Tree *min;
  std::vector<size_t> path;
  std::vector<std::pair<std::string, bool>> tried;
};
std::string name(const Tree &t) { return "node" + std::to_string(t.id); }

Expect reference(const Tree &root) {
  Expect e;
  e.min = &root;
  bool moved = true;
  while (moved) {
    moved = false;
    for (size_t i = 0; i < e.min->kids.size(); i++) {
      const Tree &k = e.min->kids[i];
      bool fails = k.label == 2;
      e.tried.emplace_back(name(k), fails);
      if (fails) {
        e.path.push_back(i);
        e.min = &k;
        moved = true;
        break;
      }
    }
  }
  return e;
}

Tree labelled(int maxNodes) {
  Tree t = vt::pickTree(maxNodes);
  vt::visit(t, [](Tree &x) { x.label = x.id == 0 ? 2 : vc::pick(3); });
  return t;
}

CaseDescription describe(const Tree &t) {
  CaseDescription d;
  d.result = CaseResult(kTypes[t.label], name(t));
  auto n = name(t);
  d.example = [n] { return Example{{"e", n}}; };
  return d;
}

void verify(const Tree &t, const TestParams &p, const TestResult &res, const Rec &rec, bool viaBody) {
  auto e = reference(t);
  if (p.disableShrinking) {
    e.min = &t;
    e.path.clear();
    e.tried.clear();
  }
  VC_CHECK(res.is<FailureResult>(), "failing case not reported as failure");
  const auto &f = res.get<FailureResult>();
  auto nm = name(*e.min);
  VC_CHECK(f.description == nm, "reported message '" << f.description << "' expected " << nm << " tree " << vt::show(t));
  VC_CHECK(f.counterExample.size() == 1 && f.counterExample[0].second == (viaBody ? std::to_string(e.min->id) : nm),
           "reported counterexample is not the minimum, tree " << vt::show(t));
  VC_CHECK(f.reproduce.shrinkPath == e.path,
           "shrink path " << vc::strv(f.reproduce.shrinkPath) << " expected " << vc::strv(e.path) << " tree " << vt::show(t));
  VC_CHECK(rec.tried.size() == e.tried.size(), "tried " << rec.tried.size() << " shrinks, expected " << e.tried.size()
                                                        << " tree " << vt::show(t));
  for (size_t i = 0; i < e.tried.size(); i++)
    VC_CHECK(rec.tried[i] == e.tried[i], "shrink attempt " << i << " was " << rec.tried[i].first << (rec.tried[i].second ? " accepted" : " rejected")
                                                           << ", expected " << e.tried[i].first << " tree " << vt::show(t));
  VC_CHECK(rec.results.size() == 1 && rec.results[0] == res, "end of test notification");
  vc::state(vt::show(t));
  vc::step(e.tried.size() + 1);
  vc::matched();
  vc::outcome(nm + vc::strv(e.path));
  vc::sample("tree (labels 0 pass,1 discard,2 fail) " + vt::show(t) + " -> min " + nm + " path " + vc::strv(e.path));
}

void direct(int n) {
  TestParams p;
  p.maxSuccess = 3;
  p.maxSize = 10;
  p.disableShrinking = false;
  vcr::reset(vcr::Script());
  Tree t = labelled(n);
  auto prop = Property([=](const Random &, int) { return vt::realise<CaseDescription>(t, describe); });
  Rec rec;
  auto res = testProperty(prop, TestMetadata(), p, rec);
  verify(t, p, res, rec, false);
  // the search/shrink pieces used on their own agree
  Rec rec2;
  auto sr = shrinkTestCase(vt::realise<CaseDescription>(t, describe), rec2);
  auto e = reference(t);
  VC_CHECK(sr.second == e.path && sr.first.value().result.description == name(*e.min), "shrinkTestCase alone");
  VC_CHECK(rec2.tried == e.tried, "shrinkTestCase notifications");
}
} // namespace

VC_SUITE(direct, 1) { direct(vc::thorough() ? 9 : 8); }

// The same through a property body that draws the tree's value from a generator; with pass/discard cases before
// the failing one and with shrinking disabled as alternatives.
VC_SUITE(body, 1) {
  TestParams p;
  p.maxSuccess = 4;
  p.maxSize = 10;
  p.disableShrinking = vc::pick(2) == 1;
  vcr::reset(vcr::Script());
  int before = vc::pick(3); // 0: fails at once, 1: one pass first, 2: one discard first
  Tree t = labelled(vc::thorough() ? 7 : 6);
  std::vector<int> label;
  vt::visit(t, [&](Tree &x) {
    if ((int)label.size() <= x.id) label.resize(x.id + 1);
    label[x.id] = x.label;
  });
  int cases = 0;
  bool searching = true;
  Gen<int> g = [=](const Random &, int) { return vt::ids(t); };
  std::vector<int> finalRuns;
  auto prop = toProperty([&] {
    int id = *g;
    if (searching && before != 0 && cases == 0) {
      cases++;
      if (before == 2) RC_DISCARD("early");
      return;
    }
    searching = false;
    finalRuns.push_back(id);
    switch (label[id]) {
    case 1: throw CaseResult(CaseResult::Type::Discard, "node" + std::to_string(id));
    case 2: throw CaseResult(CaseResult::Type::Failure, "node" + std::to_string(id));
    default: throw CaseResult(CaseResult::Type::Success, "node" + std::to_string(id));
    }
  });
  Rec rec;
  auto res = testProperty(prop, TestMetadata(), p, rec);
  verify(t, p, res, rec, true);
  VC_CHECK(res.get<FailureResult>().numSuccess == (before == 1 ? 1 : 0), "numSuccess");
  auto e = reference(t);
  VC_CHECK(!finalRuns.empty() && finalRuns.back() == (p.disableShrinking ? 0 : e.min->id), "last case run is not the reported one");
}

// Long chains and wide nodes: index bookkeeping over many levels/siblings.
VC_SUITE(chains, 1) {
  // each level has `w` children; exactly one of them (enumerated) fails, or none: stop
  int w = 1 + vc::pick(3);
  int depth = 0;
  Tree root;
  root.label = 2;
  Tree *cur = &root;
  int id = 1;
  int maxDepth = w == 1 ? 40 : w == 2 ? 9 : 7;
  while (depth < maxDepth) {
    int k = vc::pick(w + 1);
    for (int i = 0; i < w; i++) {
      Tree x;
      x.id = id++;
      x.label = i + 1 == k ? 2 : (i % 2);
      cur->kids.push_back(x);
    }
    if (k == 0) break;
    cur = &cur->kids[k - 1];
    depth++;
  }
  vcr::reset(vcr::Script());
  TestParams p;
  auto prop = Property([=](const Random &, int) { return vt::realise<CaseDescription>(root, describe); });
  Rec rec;
  auto res = testProperty(prop, TestMetadata(), p, rec);
  verify(root, p, res, rec, false);
}

// Very wide nodes: the failing child is at an enumerated index of many.
VC_SUITE(wide, 1) {
  static const int N[] = {1, 2, 127, 128, 255, 256, 257, 300, 1000};
  int n = N[vc::pick(9)];
  int at = vc::pick(n > 300 ? 300 : n) + (n > 300 ? n - 300 : 0);
  Tree root;
  root.label = 2;
  for (int i = 0; i < n; i++) {
    Tree x;
    x.id = i + 1;
    x.label = i == at ? 2 : (i % 2);
    root.kids.push_back(x);
  }
  vcr::reset(vcr::Script());
  TestParams p;
  auto prop = Property([=](const Random &, int) { return vt::realise<CaseDescription>(root, describe); });
  Rec rec;
  auto res = testProperty(prop, TestMetadata(), p, rec);
  verify(root, p, res, rec, false);
}

// Trees far larger than any fixed limit an implementation might have: `depth` levels of `width` children each, of which
// only the last, the first or a middle one fails; built lazily.
VC_SUITE(huge, 8) {
  static const int D[][2] = {{1, 2000},  {1, 5000},  {1, 40000}, {1, 70000}, {2, 12000}, {3, 3000}, {30, 400},
                             {300, 60}, {3000, 4}, {20000, 1}, {70000, 1}, {9000, 2}, {2, 66000}, {400, 260}};
  int pickd = vc::pick(14);
  int depth = D[pickd][0], width = D[pickd][1];
  int mode = vc::pick(3);
  bool viaWalk = vc::pick(2);
  int at = mode == 0 ? width - 1 : mode == 1 ? 0 : width / 2;
  std::function<Shrinkable<CaseDescription>(int, bool)> mk = [&mk, depth, width, at](int d, bool fails) {
    return shrinkable::lambda(
        [=] {
          CaseDescription c;
          c.result = CaseResult(fails ? Ty::Failure : d % 2 ? Ty::Discard : Ty::Success, "level" + std::to_string(d));
          c.example = [d] { return Example{{"e", std::to_string(d)}}; };
          return c;
        },
        [=, &mk]() -> Seq<Shrinkable<CaseDescription>> {
          if (d >= depth || !fails) return Seq<Shrinkable<CaseDescription>>();
          return seq::map(seq::range(0, width), [=, &mk](int i) { return mk(d + 1, i == at); });
        });
  };
  vcr::reset(vcr::Script());
  auto root = mk(0, true);
  size_t want = (size_t)depth * (at + 1) + 0;
  if (!viaWalk) {
    struct Count : TestListener {
      size_t tried = 0, accepted = 0;
      void onTestCaseFinished(const CaseDescription &) override {}
      void onShrinkTried(const CaseDescription &, bool a) override { tried++, accepted += a; }
      void onTestFinished(const TestMetadata &, const TestResult &) override {}
    } l;
    auto prop = Property([=](const Random &, int) { return root; });
    auto res = testProperty(prop, TestMetadata(), TestParams(), l);
    VC_CHECK(res.is<FailureResult>(), "failing case not reported");
    const auto &f = res.get<FailureResult>();
    VC_CHECK(f.description == "level" + std::to_string(depth), "stopped at " << f.description << " although a direct shrink still fails; levels "
                                                                             << depth << " width " << width << " failing child " << at);
    VC_CHECK(f.reproduce.shrinkPath == std::vector<size_t>(depth, at), "shrink path");
    VC_CHECK(l.accepted == (size_t)depth && l.tried == want, "tried " << l.tried << " expected " << want);
    vc::step(l.tried);
  } else {
    // the recorded path is walked to the same case
    Reproduce r;
    r.size = 3;
    r.shrinkPath.assign(depth, at);
    auto prop = Property([=](const Random &, int) { return root; });
    auto res = reproduceProperty(prop, r);
    VC_CHECK(res.is<FailureResult>() && res.get<FailureResult>().description == "level" + std::to_string(depth), "path not walked");
    vc::step(want);
  }
  vc::state(std::to_string(pickd * 10 + mode * 2 + viaWalk));
  vc::matched();
  vc::outcome(std::to_string(depth));
}

// A failing value whose shrinks() throws is its own minimum; a shrink whose value throws surfaces as that case's failure.
VC_SUITE(throwing, 1) {
  int n = 1 + vc::pick(4);
  int throwAt = vc::pick(n + 1); // node whose shrink list throws; n: none
  vcr::reset(vcr::Script());
  std::function<Shrinkable<int>(int)> mk = [&](int i) -> Shrinkable<int> {
    return shrinkable::lambda([=] { return i; },
                              [=]() -> Seq<Shrinkable<int>> {
                                if (i == throwAt) throw std::runtime_error("no shrinks");
                                if (i + 1 < n) return seq::just(mk(i + 1));
                                return Seq<Shrinkable<int>>();
                              });
  };
  Gen<int> g = [=](const Random &, int) { return mk(0); };
  auto prop = toProperty([&] {
    int v = *g;
    RC_FAIL("node" + std::to_string(v));
  });
  TestParams p;
  Rec rec;
  auto res = testProperty(prop, TestMetadata(), p, rec);
  int want = std::min(n - 1, throwAt);
  VC_CHECK(res.is<FailureResult>() && (int)res.get<FailureResult>().reproduce.shrinkPath.size() == want, "throwing shrinks");
  VC_CHECK(res.get<FailureResult>().counterExample[0].second == std::to_string(want), "counterexample");
  vc::matched();
  vc::step(n);
  vc::state("t" + std::to_string(n) + "," + std::to_string(throwAt));
}

// Whatever a failure says, it is a failure: long, empty and equal texts, logs and tags do not matter.
VC_SUITE(sayings, 1) {
  static const size_t L[] = {0, 1, 80, 1000, 5000, 70000};
  size_t len = L[vc::pick(6)], at = L[vc::pick(6)];
  int how = vc::pick(4);
  TestParams p;
  p.maxSuccess = 1;
  vcr::reset(vcr::Script());
  Gen<int> g = [](const Random &, int) { return shrinkable::shrinkRecur(12, [](int x) { return x ? seq::just(x - 1) : Seq<int>(); }); };
  std::vector<int> ran;
  Rec rec;
  auto res = testProperty(toProperty([&]() -> std::string {
                            int x = *g;
                            ran.push_back(x);
                            if (x < 3) return "";
                            std::string text(x % 2 ? len : at, 'x');
                            if (how == 1) RC_LOG() << std::string(len, 'l');
                            if (how == 2)
                              for (size_t i = 0; i < len % 100; i++) RC_TAG(x, i);
                            if (how == 3) return "n" + text;
                            throw CaseResult(CaseResult::Type::Failure, text);
                          }),
                          TestMetadata(), p, rec);
  std::string what = "texts of " + std::to_string(len) + " and " + std::to_string(at) + ": ";
  VC_CHECK(res.is<FailureResult>(), what << "verdict");
  auto &f = res.get<FailureResult>();
  VC_CHECK(f.reproduce.shrinkPath == std::vector<size_t>(9, 0), what << "shrink path " << vc::strv(f.reproduce.shrinkPath));
  VC_CHECK(f.counterExample.size() == 1 && f.counterExample[0].second == "3", what << "counterexample");
  vc::state(what + std::to_string(how));
  vc::step(ran.size());
  vc::matched();
}
