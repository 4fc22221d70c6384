// C04: reproduction of failures, through Reproduce values, strings, configuration and a real second process.
#include "tree.h"
#include "rapidcheck.h"
#include "detail/Testing.h"
#include "detail/ReproduceListener.h"
#include "detail/DefaultTestListener.h"
#include "detail/StringSerialization.h"
#include "rapidcheck/detail/Configuration.h"
#include "rapidcheck/Check.h"
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

using namespace rc;
using namespace rc::detail;
using vt::Tree;

namespace {
struct Quiet : TestListener {
  int cases = 0, shrinks = 0, finished = 0;
  void onTestCaseFinished(const CaseDescription &) override { cases++; }
  void onShrinkTried(const CaseDescription &, bool) override { shrinks++; }
  void onTestFinished(const TestMetadata &, const TestResult &) override { finished++; }
};

// A property drawing (random number, size, tree node); its outcome is that of the node, for the failing case.
struct Prop {
  Tree t;
  int failAt;                   // number of passing cases before the failing one
  int discards = 0;             // number of discarded cases right before the failing one
  std::vector<int> label;
  int cases = 0;
  bool searching = true;
  std::vector<std::string> ran; // what the body saw, each time
  bool operator()() {
    auto tree = t;
    Gen<std::pair<uint64_t, int>> head = [](const Random &r, int size) {
      Random c(r);
      return shrinkable::just(std::make_pair(c.next(), size));
    };
    Gen<int> g = [tree](const Random &, int) { return vt::ids(tree); };
    auto h = *head;
    int id = *g;
    int extra = *gen::inRange(0, 1000);
    ran.push_back(std::to_string(h.first) + ":" + std::to_string(h.second) + ":" + std::to_string(id));
    (void)extra;
    if (searching && cases < failAt) {
      cases++;
      return true;
    }
    if (searching && cases < failAt + discards) {
      cases++;
      RC_DISCARD("before");
    }
    searching = false;
    int l = id < (int)label.size() ? label[id] : 0;
    if (l == 1) RC_DISCARD("disc");
    if (l == 2) RC_FAIL("node" + std::to_string(id) + "@" + std::to_string(h.first));
    return true;
  }
};

std::shared_ptr<Prop> pickProp(int maxNodes, int failAt) {
  auto p = std::make_shared<Prop>();
  p->t = vt::pickTree(maxNodes);
  p->failAt = failAt;
  vt::visit(p->t, [&](Tree &x) {
    x.label = x.id == 0 ? 2 : vc::pick(3);
    p->label.push_back(x.label);
  });
  return p;
}
Property toProp(std::shared_ptr<Prop> p) {
  return toProperty([p] { return (*p)(); });
}

void sameFailure(const FailureResult &a, const FailureResult &b, const char *what) {
  VC_CHECK(a.description == b.description, what << ": message differs: " << a.description << " vs " << b.description);
  VC_CHECK(a.counterExample == b.counterExample, what << ": counterexample differs");
  VC_CHECK(a.reproduce == b.reproduce, what << ": reproduce info differs");
}
} // namespace

VC_SUITE(roundtrip, 8) {
  static const uint64_t seeds[] = {0, 1, 0x8000000000000000ULL, 0xffffffffffffffffULL};
  int cfg = vc::pick(4 * 4 * 2 * 2);
  static const int kDiscards[] = {0, 10, 9, 25};
  int discards = kDiscards[vc::pick(vc::thorough() ? 4 : 2)];
  TestParams p;
  p.seed = seeds[cfg % 4];
  p.maxSuccess = 5;
  p.maxSize = 200;
  int failAt = (cfg / 4) % 4;
  p.disableShrinking = (cfg / 16) % 2;
  bool disable2 = (cfg / 32) % 2;
  auto pr = pickProp(discards ? 4 : vc::thorough() ? 6 : 5, failAt);
  pr->discards = discards;
  auto prop = toProp(pr);
  Quiet q;
  TestMetadata md;
  md.id = "the id";
  auto res = checkProperty(prop, md, p, q, {});
  VC_CHECK(res.is<FailureResult>(), "must fail");
  const auto f = res.get<FailureResult>();
  {
    // the case that failed in the search had this size; the reproduction information has to say so
    auto first = pr->ran[failAt + discards];
    auto a = first.find(':');
    VC_CHECK(first.substr(a + 1, first.rfind(':') - a - 1) == std::to_string(f.reproduce.size),
             "the failing case ran as " << first << " but size " << f.reproduce.size << " is reported");
  }
  auto minimal = pr->ran.back();

  // through a string and the configuration
  std::unordered_map<std::string, Reproduce> map{{"the id", f.reproduce}};
  auto str = reproduceMapToString(map);
  auto map2 = stringToReproduceMap(str);
  VC_CHECK(map2 == map, "reproduce map changed by the string round trip");
  auto config = configFromString("reproduce=" + str);
  VC_CHECK(config.reproduce == map, "reproduce map changed by the configuration");
  auto config2 = configFromString(configToString(config));
  VC_CHECK(config2.reproduce == map, "reproduce map changed by printing the configuration");
  auto config3 = configFromString(configToMinimalString(config));
  VC_CHECK(config3.reproduce == map, "reproduce map changed by printing the minimal configuration");

  auto p2 = p;
  p2.disableShrinking = disable2;
  p2.seed = 987654321;
  p2.maxSuccess = 1;
  p2.maxSize = 3;
  pr->ran.clear();
  Quiet q2;
  auto res2 = checkProperty(prop, md, p2, q2, config.reproduce);
  VC_CHECK(res2.is<FailureResult>(), "failure was not reproduced: " << vt::show(pr->t));
  const auto f2 = res2.get<FailureResult>();
  VC_CHECK(q2.cases == 0 && q2.shrinks == 0, "reproduction searched for other cases");
  if (!disable2) {
    sameFailure(f, f2, "reproduction");
    VC_CHECK(pr->ran.back() == minimal, "reproduction executed " << pr->ran.back() << " instead of " << minimal);
    VC_CHECK(f2.numSuccess == 0, "numSuccess");
    // every case it executed lies on the way from the original case to the minimal one
    for (auto &r : pr->ran)
      VC_CHECK(r.substr(0, r.rfind(':')) == minimal.substr(0, minimal.rfind(':')), "other random state used in reproduction");
  } else {
    VC_CHECK(f2.reproduce.shrinkPath.empty(), "path must be dropped when shrinking is disabled");
    VC_CHECK(pr->ran.back() == minimal.substr(0, minimal.rfind(':')) + ":0", "original case not reproduced with shrinking disabled: " << pr->ran.back());
  }
  // once more: reproduction is repeatable
  Quiet q3;
  auto res3 = checkProperty(prop, md, p2, q3, config.reproduce);
  VC_CHECK(res3 == res2, "second reproduction differs");
  vc::state(vt::show(pr->t) + std::to_string(cfg));
  vc::step(3);
  vc::matched();
  vc::outcome(f.description + vc::strv(f.reproduce.shrinkPath));
  vc::sample("tree " + vt::show(pr->t) + " seed " + std::to_string(p.seed) + " case " + std::to_string(failAt) + " -> RC_PARAMS reproduce=" + str);
}

// Long shrink paths with large indices.
VC_SUITE(longpaths, 8) {
  static const int I[] = {0, 1, 63, 64, 127, 128, 129, 255, 256, 300, 16383, 16384, 32768, 65535, 65536, 70001};
  static const int D[] = {1, 2, 3, 31, 32, 33, 127, 128, 129, 255, 256, 257, 1000, 5000};
  int depth = D[vc::pick(14)];
  std::vector<int> idx;
  for (int d = 0; d < std::min(depth, 3); d++) idx.push_back(I[vc::pick(depth > 300 ? 2 : depth > 3 ? 5 : depth == 3 && !vc::thorough() ? 10 : depth == 2 ? 12 : 16)]);
  for (int d = 3; d < depth; d++) idx.push_back(d % 7 == 3 ? idx[d % 3] : d % 2);
  int size = vc::pick(depth > 3 ? 1 : 4);
  static const int SZ[] = {0, 100, 65536, 2147483647};
  // value: list of indices so far; node at level d has idx[d]+2 children, the idx[d]-th fails
  std::function<Shrinkable<std::vector<int>>(std::vector<int>)> mk = [&, idx](std::vector<int> v) -> Shrinkable<std::vector<int>> {
    return shrinkable::lambda([=] { return v; }, [=]() -> Seq<Shrinkable<std::vector<int>>> {
      if (v.size() >= idx.size()) return Seq<Shrinkable<std::vector<int>>>();
      return seq::map(seq::range(0, idx[v.size()] + 2), [=](int i) {
        auto w = v;
        w.push_back(i);
        return mk(w);
      });
    });
  };
  auto fails = [=](const std::vector<int> &v) {
    for (size_t i = 0; i < v.size(); i++)
      if (v[i] != idx[i]) return false;
    return true;
  };
  Gen<std::vector<int>> g = [&](const Random &, int) { return mk({}); };
  std::vector<int> last;
  int lastSize = -1;
  auto prop = toProperty([&] {
    auto v = *g;
    lastSize = *gen::withSize([](int s) { return gen::just(s); });
    last = v;
    RC_ASSERT(!fails(v));
  });
  Reproduce r;
  r.random = Random(123);
  r.size = SZ[size];
  r.shrinkPath.assign(idx.begin(), idx.end());
  auto str = reproduceMapToString({{"p", r}});
  auto m = configFromString("reproduce=" + str).reproduce;
  VC_CHECK(m.size() == 1 && m.at("p") == r, "reproduce string round trip of path " << vc::strv(idx));
  TestMetadata md;
  md.id = "p";
  Quiet q;
  auto res = checkProperty(prop, md, TestParams(), q, m);
  VC_CHECK(res.is<FailureResult>(), "not reproduced, path " << vc::strv(idx));
  VC_CHECK(last == idx, "reproduced the wrong case");
  VC_CHECK(lastSize == r.size, "size " << lastSize << " expected " << r.size);
  VC_CHECK(res.get<FailureResult>().reproduce == r, "reproduce info");
  vc::state(vc::strv(idx) + std::to_string(size));
  vc::matched();
  vc::step(depth);
}

// The property changed: every way in which the recorded path no longer leads to a failure is an error, never success.
VC_SUITE(stale, 1) {
  auto pr = pickProp(vc::thorough() ? 6 : 5, 0);
  pr->searching = false;
  auto prop = toProp(pr);
  int len = vc::pick(4);
  Reproduce r;
  r.random = Random(5);
  r.size = 7;
  for (int i = 0; i < len; i++) r.shrinkPath.push_back(vc::pick(4));
  // the picks around the tree have no shrinks except the last (an integer) - only follow tree paths
  const Tree *n = &pr->t;
  bool valid = true, leavesTree = false;
  for (auto i : r.shrinkPath) {
    if (i < n->kids.size()) n = &n->kids[i];
    else {
      leavesTree = true; // continues into shrinks of the extra integer, whose count is not ours to know
      break;
    }
  }
  if (leavesTree) {
    // use a property without the extra pick for the out-of-tree paths
    auto tree = pr->t;
    auto label = pr->label;
    Gen<int> g = [tree](const Random &, int) { return vt::ids(tree); };
    prop = toProperty([=] {
      int id = *g;
      if (label[id] == 1) RC_DISCARD("d");
      RC_ASSERT(label[id] != 2);
    });
    valid = false;
  }
  TestMetadata md;
  md.id = "p";
  Quiet q;
  auto res = checkProperty(prop, md, TestParams(), q, {{"p", r}});
  if (!valid) VC_CHECK(res.is<Error>(), "path that does not exist any more did not give an error");
  else if (n->label == 2) VC_CHECK(res.is<FailureResult>(), "still failing case not reported");
  else VC_CHECK(res.is<Error>(), "case that no longer fails did not give an error");
  vc::state(vt::show(pr->t) + vc::strv(r.shrinkPath));
  vc::matched();
  vc::step();
  vc::outcome(res.is<Error>() ? "error" : "fail");
}

// Sets of properties: which are named by the listener, which are run and which are skipped.
VC_SUITE(sets, 1) {
  static const std::string ids[] = {"a", "", "b c='\"\\", "a b"};
  int n = 1 + vc::pick(3);
  struct P {
    std::string id;
    int kind; // 0 pass, 1 fail, 2 give up
    int runs = 0;
  };
  std::vector<P> ps(n);
  for (int i = 0; i < n; i++) {
    ps[i].id = ids[(vc::pick(2) + i) % 4] == "a" && i > 0 ? "p" + std::to_string(i) : ids[i % 4];
    if (vc::pick(4) == 1) ps[i].id = "";
    ps[i].kind = vc::pick(3);
  }
  auto mkProp = [&](int i) {
    return toProperty([&ps, i] {
      int x = *gen::inRange(0, 100);
      ps[i].runs++;
      if (ps[i].kind == 1) RC_ASSERT(x < 0);
      if (ps[i].kind == 2) RC_DISCARD("no");
    });
  };
  TestParams p;
  p.maxSuccess = 3;
  p.seed = 77;
  std::ostringstream os;
  std::map<std::string, FailureResult> first;
  {
    auto l = makeDefaultTestListener(Configuration(), os);
    for (int i = 0; i < n; i++) {
      TestMetadata md;
      md.id = ps[i].id;
      auto res = checkProperty(mkProp(i), md, p, *l, {});
      VC_CHECK((ps[i].kind == 0) == res.is<SuccessResult>(), "verdict");
      if (res.is<FailureResult>() && !ps[i].id.empty() && !first.count(ps[i].id)) first.emplace(ps[i].id, res.get<FailureResult>());
    }
  }
  auto out = os.str();
  auto pos = out.find("reproduce=");
  VC_CHECK((pos != std::string::npos) == !first.empty(), "reproduce hint printed iff something with an id failed: " << out);
  vc::state(out.substr(0, 20) + std::to_string(n));
  if (!first.empty()) {
    auto e = out.find('"', pos);
    VC_CHECK(e != std::string::npos, "hint not closed");
    auto config = configFromString(out.substr(pos, e - pos));
    VC_CHECK(config.reproduce.size() == first.size(), "hint names " << config.reproduce.size() << " of " << first.size() << " failed properties");
    for (auto &f : first) {
      VC_CHECK(config.reproduce.count(f.first), "hint does not name " << f.first);
      VC_CHECK(config.reproduce.at(f.first) == f.second.reproduce, "hint has wrong data for " << f.first);
    }
    for (int i = 0; i < n; i++) {
      TestMetadata md;
      md.id = ps[i].id;
      ps[i].runs = 0;
      Quiet q;
      auto res = checkProperty(mkProp(i), md, p, q, config.reproduce);
      bool listed = !ps[i].id.empty() && first.count(ps[i].id);
      if (!listed) {
        VC_CHECK(res.is<SuccessResult>() && ps[i].runs == 0, "unlisted property was run in a reproduce run");
        VC_CHECK(res.get<SuccessResult>().numSuccess == 0, "skipped property reports passed cases");
      } else {
        VC_CHECK(res.is<FailureResult>(), "listed property not reproduced");
        sameFailure(first.at(ps[i].id), res.get<FailureResult>(), "listed");
      }
    }
  }
  vc::matched();
  vc::step(2 * n);
  vc::outcome(std::to_string(first.size()));
}

// End to end: a child process fails and prints the hint, a second child with that RC_PARAMS reproduces it.
static std::string runChild(const std::string &params, int mask, int &nfail) {
  char path[] = "/tmp/vc_e2e_XXXXXX";
  int fd = mkstemp(path);
  pid_t pid = fork();
  if (pid == 0) {
    setenv("RC_PARAMS", params.c_str(), 1);
    dup2(fd, 2);
    dup2(fd, 1);
    int rc_ = 0;
    for (int i = 0; i < 3; i++) {
      bool ok = rc::check("prop " + std::to_string(i), [=](const std::vector<int> &v) {
        RC_TAG("t");
        if ((mask >> i) & 1) RC_ASSERT(v.size() < 2u + i);
      });
      if (!ok) rc_ |= 1 << i;
    }
    exit(rc_);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  nfail = WIFEXITED(st) ? WEXITSTATUS(st) : 255;
  std::ifstream f(path);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  close(fd);
  unlink(path);
  return s;
}
static std::string section(const std::string &out, int i) {
  auto a = out.find("- prop " + std::to_string(i));
  if (a == std::string::npos) return "";
  auto f = out.find("Falsifiable", a);
  auto nextp = out.find("- prop " + std::to_string(i + 1), a);
  if (f == std::string::npos || (nextp != std::string::npos && f > nextp)) return "";
  f = out.find('\n', f);
  auto e = out.find("\n\n- prop", f);
  auto e2 = out.find("Some of your", f);
  return out.substr(f, std::min(e, e2) - f);
}
static std::string rstrip(std::string s) {
  while (!s.empty() && s.back() == '\n') s.pop_back();
  return s;
}
VC_SUITE(endToEnd, 4) {
  int mask = vc::pick(8);
  static const char *seeds[] = {"1", "18446744073709551615", "42"};
  std::string seed = seeds[vc::pick(3)];
  int noshrink = vc::pick(2);
  int r1 = 0, r2 = 0;
  std::string base = "seed=" + seed + (noshrink ? " noshrink=1" : "");
  auto o1 = runChild(base, mask, r1);
  VC_CHECK(r1 == mask, "first run: failing properties " << r1 << " expected " << mask << "\n" << o1);
  auto o1b = runChild(base, mask, r2);
  VC_CHECK(o1b == o1 && r2 == r1, "same seed, different run");
  auto pos = o1.find("reproduce=", o1.find("To reproduce these"));
  VC_CHECK((mask != 0) == (pos != std::string::npos && o1.find("To reproduce these") != std::string::npos), "hint\n" << o1);
  if (mask) {
    auto e = o1.find('"', pos);
    auto params = o1.substr(pos, e - pos);
    auto o2 = runChild(params, mask, r2);
    VC_CHECK(r2 == mask, "reproduce run: failing properties " << r2 << " expected " << mask << "\n" << o2);
    for (int i = 0; i < 3; i++)
      VC_CHECK(rstrip(section(o1, i)) == rstrip(section(o2, i)),
               "report of property " << i << " differs:\n" << section(o1, i) << "\n--\n" << section(o2, i));
    // with the defect repaired the reproduce run must not claim success for it
    auto o3 = runChild(params, 0, r2);
    VC_CHECK(r2 == mask, "repaired property reported as success in reproduce run\n" << o3);
  }
  vc::state(base + std::to_string(mask));
  vc::matched();
  vc::step(3);
  vc::outcome(std::to_string(mask));
}
