// C02: the sequence of sizes given to generators during a run.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "detail/Testing.h"

using namespace rc;
using namespace rc::detail;

namespace {

// Reference: size of the case with `i` passed cases before it and no pending discards.
long long refSize(long long maxSuccess, long long maxSize, long long i) {
  long long numSizes = maxSize + 1;
  long long full = (maxSuccess / numSizes) * numSizes;
  if (i < full) return i % numSizes;
  long long rest = maxSuccess - full;
  if (rest == 1) return 0;
  return (i - full) * maxSize / (rest - 1);
}

struct Quiet : TestListener {
  void onTestCaseFinished(const CaseDescription &) override {}
  void onShrinkTried(const CaseDescription &, bool) override {}
  void onTestFinished(const TestMetadata &, const TestResult &) override {}
};

// A property generator that reports its size argument and yields the outcome decided by `next`.
Property sizedProperty(std::vector<int> &sizes, std::function<CaseResult::Type()> next) {
  return Property([&sizes, next](const Random &, int size) {
    sizes.push_back(size);
    CaseDescription d;
    d.result = CaseResult(next(), "r");
    d.example = [] { return Example(); };
    return shrinkable::just(d);
  });
}

void checkClean(int maxSuccess, int maxSize, const std::vector<int> &sizes) {
  VC_CHECK((int)sizes.size() == maxSuccess, "ran " << sizes.size() << " cases");
  for (int i = 0; i < maxSuccess; i++) {
    VC_CHECK(sizes[i] >= 0 && sizes[i] <= maxSize, "case " << i << " of max_success=" << maxSuccess << " max_size=" << maxSize
                                                           << " has size " << sizes[i] << " outside the range");
    VC_CHECK(sizes[i] == refSize(maxSuccess, maxSize, i), "case " << i << " of max_success=" << maxSuccess << " max_size="
                                                                  << maxSize << " has size " << sizes[i] << ", expected "
                                                                  << refSize(maxSuccess, maxSize, i));
  }
  if (maxSuccess >= 1) VC_CHECK(sizes.front() == 0, "first size " << sizes.front());
}

} // namespace

VC_SUITE(clean, 8) {
  int lim = vc::thorough() ? 160 : 64;
  TestParams p;
  p.maxSuccess = vc::pick(lim + 1);
  p.maxSize = vc::pick(lim + 1);
  vcr::reset(vcr::Script());
  std::vector<int> sizes;
  Quiet q;
  auto r = searchProperty(sizedProperty(sizes, [] { return CaseResult::Type::Success; }), p, q);
  VC_CHECK(r.type == SearchResult::Type::Success, "did not succeed");
  checkClean(p.maxSuccess, p.maxSize, sizes);
  for (size_t i = 0; i < sizes.size(); i++) vc::state(vc::mix(vc::mix(p.maxSuccess, p.maxSize * 1000 + i), sizes[i]));
  vc::step(sizes.size());
  vc::matched();
  vc::outcome(vc::strv(sizes));
  vc::sample("max_success=" + std::to_string(p.maxSuccess) + " max_size=" + std::to_string(p.maxSize) + " sizes=" + vc::strv(sizes));
}

VC_SUITE(defaults, 4) {
  static const int S[] = {99, 100, 101, 102, 150, 200, 201, 202, 203, 204, 250, 303, 304, 1000, 1010, 1011, 1012, 5000};
  static const int Z[] = {0, 1, 2, 9, 10, 49, 50, 99, 100, 101, 199, 200, 201, 999, 1000, 4999, 5000};
  TestParams p;
  p.maxSuccess = S[vc::pick(18)];
  p.maxSize = Z[vc::pick(17)];
  vcr::reset(vcr::Script());
  std::vector<int> sizes;
  Quiet q;
  searchProperty(sizedProperty(sizes, [] { return CaseResult::Type::Success; }), p, q);
  checkClean(p.maxSuccess, p.maxSize, sizes);
  vc::step(sizes.size());
  vc::matched();
  vc::outcome(vc::strv(sizes));
  for (auto s : sizes) vc::state(vc::mix(p.maxSuccess, vc::mix(p.maxSize, s)));
}

// Large parameters: the size arithmetic must not wrap.
VC_SUITE(large, 8) {
  static const int S[] = {2, 3, 50, 1000, 46341, 65536, 100000};
  static const int Z[] = {46340, 46341, 65535, 65536, 99998, 99999, 100000, 1000000, 42949673, 1073741824, 2147483646, 2147483647};
  TestParams p;
  p.maxSize = Z[vc::pick(12)];
  p.maxSuccess = S[vc::pick(7)];
  vcr::reset(vcr::Script());
  std::vector<int> sizes;
  Quiet q;
  searchProperty(sizedProperty(sizes, [] { return CaseResult::Type::Success; }), p, q);
  checkClean(p.maxSuccess, p.maxSize, sizes);
  vc::step(sizes.size());
  vc::matched();
  vc::state("L" + std::to_string(p.maxSuccess) + "/" + std::to_string(p.maxSize));
  vc::outcome(std::to_string(vc::hashStr(vc::strv(sizes))));
}

// Discards: runs of consecutive discards of enumerated lengths before each pass.
VC_SUITE(discards, 1) {
  static const int L[] = {0, 1, 9, 10, 11, 20, 35};
  static const int PS[][2] = {{1, 3}, {2, 0}, {3, 5}, {4, 1}, {4, 100}, {5, 2}};
  int c = vc::pick(6);
  TestParams p;
  p.maxSuccess = PS[c][0];
  p.maxSize = PS[c][1];
  p.maxDiscardRatio = 1000;
  vcr::reset(vcr::Script());
  int passed = 0, left = L[vc::pick(7)], recent = 0;
  bool fresh = true;
  std::vector<int> sizes;
  std::vector<long long> want;
  Quiet q;
  auto prop = sizedProperty(sizes, [&]() -> CaseResult::Type {
    if (!fresh && false) return CaseResult::Type::Success;
    want.push_back(refSize(p.maxSuccess, p.maxSize, passed) + recent / 10);
    if (left > 0) {
      left--;
      recent++;
      return CaseResult::Type::Discard;
    }
    passed++;
    recent = 0;
    left = passed < p.maxSuccess ? L[vc::pick(vc::thorough() || p.maxSuccess < 5 ? 7 : 5)] : 0;
    return CaseResult::Type::Success;
  });
  auto r = searchProperty(prop, p, q);
  VC_CHECK(r.type == SearchResult::Type::Success, "did not succeed");
  VC_CHECK(sizes.size() == want.size(), "count");
  for (size_t i = 0; i < sizes.size(); i++)
    VC_CHECK(sizes[i] == want[i], "case " << i << " size " << sizes[i] << " expected " << want[i] << " (max_success=" << p.maxSuccess
                                          << " max_size=" << p.maxSize << ")");
  vc::step(sizes.size());
  vc::matched();
  vc::state(vc::strv(sizes));
  vc::outcome(vc::strv(sizes));
  vc::sample("max_success=" + std::to_string(p.maxSuccess) + " max_size=" + std::to_string(p.maxSize) + " sizes=" + vc::strv(sizes));
}

// Raising the size after discards does not wrap either, however large the sizes already are.
VC_SUITE(discardsLarge, 1) {
  static const int L[] = {0, 9, 10, 25, 40};
  static const int Z[] = {2147483640, 2147483645, 2147483646, 2147483647};
  TestParams p;
  p.maxSuccess = 2 + vc::pick(2);
  p.maxSize = Z[vc::pick(4)];
  p.maxDiscardRatio = 1000;
  vcr::reset(vcr::Script());
  int passed = 0, left = L[vc::pick(5)], recent = 0;
  std::vector<int> sizes;
  std::vector<long long> want;
  Quiet q;
  auto prop = sizedProperty(sizes, [&]() -> CaseResult::Type {
    want.push_back(std::min(2147483647LL, (long long)refSize(p.maxSuccess, p.maxSize, passed) + recent / 10));
    if (left > 0) {
      left--;
      recent++;
      return CaseResult::Type::Discard;
    }
    passed++;
    recent = 0;
    left = passed < p.maxSuccess ? L[vc::pick(5)] : 0;
    return CaseResult::Type::Success;
  });
  auto r = searchProperty(prop, p, q);
  VC_CHECK(r.type == SearchResult::Type::Success, "did not succeed");
  VC_CHECK(sizes.size() == want.size(), "count");
  for (size_t i = 0; i < sizes.size(); i++)
    VC_CHECK(sizes[i] == want[i], "case " << i << " size " << sizes[i] << " expected " << want[i] << " (max_success=" << p.maxSuccess
                                          << " max_size=" << p.maxSize << ")");
  vc::step(sizes.size());
  vc::matched();
  vc::state(vc::strv(sizes));
  vc::outcome(vc::strv(sizes));
}

// Very long runs of discards: the size goes on rising for as long as they last.
VC_SUITE(discardsLong, 8) {
  static const std::vector<int> L{0, 9, 99, 127, 128, 255, 256, 500, 999, 1000, 1279, 1280, 2550, 2559, 2560, 2570, 5000, 9999, 10001, 32767, 32768, 65535, 65536, 327690, 655365};
  int first = L[vc::pick(L.size())], second = L[vc::pick(L.size())];
  if ((long)first + second > (vc::thorough() ? 2000000 : 400000)) return;
  TestParams p;
  p.maxSuccess = 4;
  p.maxSize = vc::pick(2) ? 100 : 3;
  p.maxDiscardRatio = 1000000;
  vcr::reset(vcr::Script());
  const int runs[] = {first, second, 0, 35, 0};
  int passed = 0, left = first, recent = 0;
  std::vector<int> sizes;
  std::vector<long long> want;
  Quiet q;
  auto prop = sizedProperty(sizes, [&]() -> CaseResult::Type {
    want.push_back(refSize(p.maxSuccess, p.maxSize, passed) + recent / 10);
    if (left > 0) {
      left--;
      recent++;
      return CaseResult::Type::Discard;
    }
    recent = 0;
    left = runs[++passed];
    return CaseResult::Type::Success;
  });
  auto r = searchProperty(prop, p, q);
  VC_CHECK(r.type == SearchResult::Type::Success, "did not succeed");
  VC_CHECK(sizes.size() == want.size(), "count");
  for (size_t i = 0; i < sizes.size(); i++)
    VC_CHECK(sizes[i] == want[i], "case " << i << " has size " << sizes[i] << ", expected " << want[i] << " (after " << first << " and " << second << " discards)");
  vc::step(sizes.size());
  vc::matched();
  vc::state(std::to_string(first) + "," + std::to_string(second) + "," + std::to_string(p.maxSize));
}

// The size of the failing case is the one reported for reproduction, and it is the size the body's generators see.
VC_SUITE(bodySize, 1) {
  TestParams p;
  p.maxSuccess = 1 + vc::pick(8);
  p.maxSize = vc::pick(8);
  int failAt = vc::pick(p.maxSuccess);
  vcr::reset(vcr::Script());
  int i = 0;
  std::vector<int> seen;
  auto prop = toProperty([&] {
    int s = *gen::withSize([](int sz) { return gen::just(sz); });
    seen.push_back(s);
    if (i >= failAt) RC_FAIL("x");
    i++;
  });
  Quiet q;
  auto res = testProperty(prop, TestMetadata(), p, q);
  VC_CHECK(res.is<FailureResult>(), "must fail");
  for (int k = 0; k <= failAt; k++)
    VC_CHECK(seen[k] == refSize(p.maxSuccess, p.maxSize, k), "case " << k << " saw size " << seen[k]);
  VC_CHECK(res.get<FailureResult>().reproduce.size == refSize(p.maxSuccess, p.maxSize, failAt), "reported size");
  vc::step(seen.size());
  vc::matched();
  vc::state(vc::strv(seen));
}
