// C05: outcome, description, log and tags of a single test case for every program of actions up to a depth.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/Property.h"
#include "rapidcheck/detail/PropertyContext.h"

using namespace rc;
using namespace rc::detail;

namespace {

struct Model {
  int type = 0; // 0 success 1 fail 2 discard
  std::vector<std::string> msgs;
  std::vector<std::string> log;
  std::vector<std::string> tags;
  int picks = 0;
  void report(int t, const std::string &tok) {
    if (type == 2) return;
    if (t == 2) {
      type = 2;
      msgs = {tok};
    } else if (t == 1) {
      if (type == 0) msgs.clear();
      type = 1;
      msgs.push_back(tok);
    } else if (type == 0) {
      msgs = {tok};
    }
  }
};

std::vector<std::string> tokens(const std::string &s) {
  std::vector<std::string> out;
  size_t p = 0;
  while ((p = s.find("<<", p)) != std::string::npos) {
    auto e = s.find(">>", p);
    if (e == std::string::npos) break;
    out.push_back(s.substr(p + 2, e - p - 2));
    p = e + 2;
  }
  return out;
}
std::string join(const std::vector<std::string> &v) {
  std::string o;
  for (auto &x : v) o += "[" + x + "]";
  return o;
}

struct MyEx : std::runtime_error {
  using std::runtime_error::runtime_error;
};
struct Weird {};

struct Fatal {}; // internal marker: never thrown

int evals = 0;
bool evalTo(bool v) {
  evals++;
  return v;
}

void runNested(int kind);

// Executes one action on the real context and on the model.  Returns only if the action is not fatal.
// Actions: see names; `tok` is unique per position.
const char *kNames[] = {"report-success", "report-failure", "report-discard", "RC_LOG(msg)", "RC_LOG()<<", "RC_TAG(t)", "RC_TAG(1,t)",
                        "RC_CLASSIFY(true)", "RC_CLASSIFY(false)", "RC_CLASSIFY(true,t,2)", "RC_ASSERT ok", "RC_PRE ok", "RC_SUCCEED_IF no",
                        "RC_ASSERT_FALSE ok", "RC_ASSERT_THROWS ok", "RC_ASSERT_THROWS_AS ok", "pick", "nested",
                        // fatal from here
                        "RC_ASSERT bad", "RC_ASSERT_FALSE bad", "RC_ASSERT_THROWS bad", "RC_ASSERT_THROWS_AS other", "RC_ASSERT_THROWS_AS none",
                        "RC_FAIL", "RC_SUCCEED", "RC_SUCCEED_IF yes", "RC_PRE bad", "RC_DISCARD", "throw std::exception", "throw std::string",
                        "throw int", "throw const char*", "throw GenerationFailure", "failing pick", "throwing pick", "throw CaseResult success"};
constexpr int kNonFatal = 18;
constexpr int kAll = 36;

void act(int a, const std::string &tok, Model &m) {
  const std::string T = "<<" + tok + ">>";
  auto ctx = ImplicitParam<param::CurrentPropertyContext>::value();
  evals = 0;
  switch (a) {
  case 0: m.report(0, tok); VC_SOFT(ctx->reportResult(CaseResult(CaseResult::Type::Success, T)), "result not handled"); break;
  case 1: m.report(1, tok); VC_SOFT(ctx->reportResult(CaseResult(CaseResult::Type::Failure, T)), "result not handled"); break;
  case 2: m.report(2, tok); VC_SOFT(ctx->reportResult(CaseResult(CaseResult::Type::Discard, T)), "result not handled"); break;
  case 3: m.log.push_back(tok); RC_LOG(T); break;
  case 4: m.log.push_back(tok); RC_LOG() << T; break;
  case 5: m.tags.push_back(rc::toString(tok)); RC_TAG(tok); break;
  case 6: m.tags.push_back("1"); m.tags.push_back(rc::toString(tok)); RC_TAG(1, tok); break;
  case 7: m.tags.push_back("evalTo(true)"); RC_CLASSIFY(evalTo(true)); VC_SOFT(evals == 1, "condition evaluated " << evals << " times"); break;
  case 8: RC_CLASSIFY(evalTo(false)); VC_SOFT(evals == 1, "condition evaluated " << evals << " times"); break;
  case 9: m.tags.push_back(rc::toString(tok)); m.tags.push_back("2"); RC_CLASSIFY(evalTo(true), tok, 2); VC_SOFT(evals == 1, "condition evaluated " << evals << " times"); break;
  case 10: RC_ASSERT(evalTo(true)); VC_SOFT(evals == 1, "assert argument evaluated " << evals << " times"); break;
  case 11: RC_PRE(evalTo(true)); VC_SOFT(evals == 1, "pre argument evaluated " << evals << " times"); break;
  case 12: RC_SUCCEED_IF(evalTo(false)); VC_SOFT(evals == 1, "succeed_if argument evaluated " << evals << " times"); break;
  case 13: RC_ASSERT_FALSE(evalTo(false)); VC_SOFT(evals == 1, "assert_false argument evaluated " << evals << " times"); break;
  case 14: RC_ASSERT_THROWS((evalTo(true) ? throw Weird() : void())); VC_SOFT(evals == 1, "assert_throws evaluated " << evals << " times"); break;
  case 15: RC_ASSERT_THROWS_AS((evalTo(true) ? throw MyEx("x") : void()), std::runtime_error); VC_SOFT(evals == 1, "assert_throws_as evaluated " << evals << " times"); break;
  case 16: m.picks++; (void)*gen::just(std::string("v")); break;
  case 17: runNested(tok.back() % 3); break;
  // fatal
  case 18: { m.report(1, tok); std::string s = T, e = "no"; RC_ASSERT(s == e); break; }
  case 19: { m.report(1, tok); std::string s = T, e = "zz"; RC_ASSERT_FALSE(s != e); break; }
  case 20: m.report(1, "?"); RC_ASSERT_THROWS(evalTo(true)); break;
  case 21: m.report(1, "?"); RC_ASSERT_THROWS_AS(throw Weird(), std::exception); break;
  case 22: m.report(1, "?"); RC_ASSERT_THROWS_AS(evalTo(true), std::exception); break;
  case 23: m.report(1, tok); RC_FAIL(T); break;
  case 24: m.report(0, tok); RC_SUCCEED(T); break;
  case 25: { m.report(0, tok); std::string s = T, e = "zz"; RC_SUCCEED_IF(s != e); break; }
  case 26: { m.report(2, tok); std::string s = T, e = "no"; RC_PRE(s == e); break; }
  case 27: m.report(2, tok); RC_DISCARD(T); break;
  case 28: m.report(1, tok); throw MyEx(T);
  case 29: m.report(1, tok); throw T;
  case 30: m.report(1, "?"); throw 17;
  case 31: m.report(1, "?"); throw "const char";
  case 32: m.report(2, tok); throw GenerationFailure(T);
  case 33: m.report(2, "?"); m.picks++; (void)*gen::suchThat(gen::just(1), [](int) { return false; }); break;
  case 34: {
    m.report(1, tok);
    m.picks++;
    (void)*Gen<int>([T](const Random &, int) -> Shrinkable<int> { throw std::runtime_error(T); });
    break;
  }
  case 35: m.report(0, tok); throw CaseResult(CaseResult::Type::Success, T);
  }
  if (a >= kNonFatal) vc::failSoft(std::string("body continued after ") + kNames[a]);
}

void runNested(int kind) {
  auto inner = toProperty([=] {
    RC_TAG("inner-tag");
    RC_LOG("<<inner-log>>");
    (void)*gen::just(1);
    if (kind == 0) RC_FAIL("<<inner-fail>>");
    if (kind == 1) RC_DISCARD("<<inner-discard>>");
  });
  auto d = inner(Random(1), 3).value();
  VC_SOFT(d.result.type == (kind == 0 ? CaseResult::Type::Failure : kind == 1 ? CaseResult::Type::Discard : CaseResult::Type::Success),
          "nested property outcome");
  VC_SOFT(d.tags == Tags{rc::toString("inner-tag")}, "nested property tags");
}

void compare(const CaseDescription &d, const Model &m, const std::string &prog) {
  static const CaseResult::Type ty[3] = {CaseResult::Type::Success, CaseResult::Type::Failure, CaseResult::Type::Discard};
  VC_CHECK(d.result.type == ty[m.type], "outcome " << d.result.type << " expected " << ty[m.type] << " for program " << prog);
  VC_CHECK(d.tags == m.tags, "tags " << join(d.tags) << " expected " << join(m.tags) << " for program " << prog);
  auto desc = d.result.description;
  auto lp = desc.rfind("Log:\n");
  std::string head = desc, tail;
  if (!m.log.empty()) {
    VC_CHECK(lp != std::string::npos, "log missing from description of " << prog << ": " << desc);
    head = desc.substr(0, lp);
    tail = desc.substr(lp);
  } else {
    VC_CHECK(lp == std::string::npos, "unexpected log section for " << prog);
  }
  VC_CHECK(tokens(tail) == m.log, "log " << join(tokens(tail)) << " expected " << join(m.log) << " for program " << prog);
  std::vector<std::string> want;
  bool unknown = false;
  for (auto &x : m.msgs) {
    if (x == "?") unknown = true;
    else want.push_back(x);
  }
  VC_CHECK(tokens(head) == want, "description reasons " << join(tokens(head)) << " expected " << join(want) << " for program " << prog << ": " << desc);
  if (unknown) VC_CHECK(!head.empty(), "no reason given");
  VC_CHECK((int)d.example().size() == m.picks, "example lists " << d.example().size() << " picks, made " << m.picks << " in " << prog);
}

template <typename F>
void go(int depth, F finish) {
  vcr::reset(vcr::Script());
  Model m;
  std::string prog;
  std::vector<int> acts;
  bool built = false;
  // the program is chosen while the body runs the first time; later evaluations repeat it
  auto property = toProperty([&]() -> decltype(finish(m)) {
    if (built) vc::failSoft("body evaluated again without being asked");
    built = true;
    for (int i = 0; i < depth; i++) {
      int a = vc::pick(kAll + 1);
      if (a == kAll) break;
      prog += std::string(kNames[a]) + "; ";
      act(a, "p" + std::to_string(i), m);
    }
    return finish(m);
  });
  auto d = property(Random(1), 10).value();
  if (!built) vc::fail("body not run");
  compare(d, m, prog);
  vc::state(prog + std::to_string(m.type));
  vc::step(1);
  vc::matched();
  vc::outcome(d.result.description + join(d.tags));
  vc::sample(prog + " -> " + (m.type == 0 ? "pass" : m.type == 1 ? "fail" : "discard"));
}

} // namespace

VC_SUITE(voidBody, 37) {
  go(vc::thorough() ? 6 : 5, [](Model &m) {
    m.report(0, "?");
    // "no exceptions thrown" replaces earlier success reasons
  });
}
// Cases that report, log, tag and pick dozens of times before a last action.
VC_SUITE(manyActions, 36, {}) {
  int last = vc::pick(36, "last action");
  static const std::vector<std::vector<int>> cycles = {{3}, {4}, {5}, {6}, {9}, {0}, {1}, {16}, {3, 5, 16}, {0, 1}, {1, 3, 4}, {10, 11, 12, 13}, {7, 8, 9}, {16, 17, 3}, {0, 3, 5}, {1, 5, 16, 4}};
  auto &cyc = cycles[vc::pick((int)cycles.size(), "cycle")];
  static const int lens[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 257, 400};
  int len = lens[vc::pick(vc::thorough() ? 13 : 12, "length")];
  int discardAt = vc::pick(3, "discard");
  vcr::reset(vcr::Script());
  Model m;
  auto property = toProperty([&] {
    for (int i = 0; i < len; i++) {
      if (discardAt == 2 && i == len / 2) act(2, "dd", m);
      act(cyc[i % cyc.size()], "p" + std::to_string(i), m);
    }
    if (discardAt == 1) act(2, "de", m);
    act(last, "last", m);
    m.report(0, "?");
  });
  auto d = property(Random(1), 10).value();
  compare(d, m, std::to_string(len) + " times " + vc::strv(cyc) + " then " + kNames[last]);
  vc::state(std::to_string(last) + vc::strv(cyc) + std::to_string(len * 3 + discardAt));
  vc::step(len);
  vc::matched();
}
VC_SUITE(boolBody, 37) {
  go(vc::thorough() ? 5 : 4, [](Model &m) -> bool {
    bool r = vc::pick(2) == 0;
    m.report(r ? 0 : 1, "?");
    return r;
  });
}
VC_SUITE(stringBody, 37) {
  go(vc::thorough() ? 5 : 4, [](Model &m) -> std::string {
    bool r = vc::pick(2) == 0;
    m.report(r ? 0 : 1, r ? "?" : "ret");
    return r ? "" : "<<ret>>";
  });
}
VC_SUITE(resultBody, 37) {
  go(vc::thorough() ? 5 : 4, [](Model &m) -> CaseResult {
    int r = vc::pick(3);
    m.report(r, "ret");
    return CaseResult(r == 0 ? CaseResult::Type::Success : r == 1 ? CaseResult::Type::Failure : CaseResult::Type::Discard, "<<ret>>");
  });
}

// Repeated evaluation of one case: the second evaluation starts with a clean context.
VC_SUITE(reevaluate, 1) {
  vcr::reset(vcr::Script());
  std::vector<int> acts;
  int n = 1 + vc::pick(2);
  for (int i = 0; i < n; i++) acts.push_back(vc::pick(kAll));
  Model m;
  auto property = toProperty([&] {
    m = Model();
    for (size_t i = 0; i < acts.size(); i++) act(acts[i], "q" + std::to_string(i), m);
    m.report(0, "?");
  });
  auto s = property(Random(1), 10);
  auto d1 = s.value();
  compare(d1, m, "first");
  auto d2 = s.value();
  compare(d2, m, "second");
  VC_CHECK(d1 == d2, "two evaluations of one case differ");
  vc::matched();
  vc::step(2);
  vc::state(vc::strv(acts));
}

// Text of the assertion messages: location, the macro with its argument, and the expansion.
namespace {
std::string messageOf(std::function<void()> f) {
  try {
    f();
  } catch (const CaseResult &r) {
    return r.description;
  }
  return "(nothing)";
}
#define EXPECT_MSG(STMT, ...)                                                                                     \
  do {                                                                                                            \
    int line = 0;                                                                                                 \
    auto msg = messageOf([&] { line = __LINE__; STMT; });                                                         \
    std::vector<std::string> parts{std::string(__FILE__) + ":" + std::to_string(line), __VA_ARGS__};               \
    size_t p = 0;                                                                                                 \
    for (auto &x : parts) {                                                                                       \
      auto q = msg.find(x, p);                                                                                    \
      VC_CHECK(q != std::string::npos, "message '" << msg << "' lacks '" << x << "'");                            \
      p = q + x.size();                                                                                           \
    }                                                                                                             \
    vc::matched();                                                                                                \
    vc::state(msg);                                                                                               \
  } while (0)
} // namespace
VC_SUITE(messages, 1) {
  int a = vc::pick(5) - 2, b = vc::pick(5) - 2;
  auto A = std::to_string(a), B = std::to_string(b);
  std::string sa(a + 2, 'x'), sb(b + 2, 'x');
  auto truth = [&](const char *what, bool holds, std::function<void()> f) {
    bool threw = messageOf(f) != "(nothing)";
    VC_CHECK(threw == !holds, what << " on " << a << "," << b << (threw ? " reported" : " did not report"));
    vc::step();
  };
  truth("RC_ASSERT ==", a == b, [&] { RC_ASSERT(a == b); });
  truth("RC_ASSERT !=", a != b, [&] { RC_ASSERT(a != b); });
  truth("RC_ASSERT <", a < b, [&] { RC_ASSERT(a < b); });
  truth("RC_ASSERT >", a > b, [&] { RC_ASSERT(a > b); });
  truth("RC_ASSERT <=", a <= b, [&] { RC_ASSERT(a <= b); });
  truth("RC_ASSERT >=", a >= b, [&] { RC_ASSERT(a >= b); });
  truth("RC_ASSERT &", a & b, [&] { RC_ASSERT(a & b); });
  truth("RC_ASSERT |", a | b, [&] { RC_ASSERT(a | b); });
  truth("RC_ASSERT ^", a ^ b, [&] { RC_ASSERT(a ^ b); });
  truth("RC_ASSERT &&", a && b, [&] { RC_ASSERT(a && b); });
  truth("RC_ASSERT ||", a || b, [&] { RC_ASSERT(a || b); });
  truth("RC_ASSERT + ==", a + b == 1, [&] { RC_ASSERT(a + b == 1); });
  truth("RC_ASSERT * ==", a * b == 2, [&] { RC_ASSERT(a * b == 2); });
  truth("RC_ASSERT - <", a - b < 1, [&] { RC_ASSERT(a - b < 1); });
  truth("RC_ASSERT % ==", a % 3 == b % 3, [&] { RC_ASSERT(a % 3 == b % 3); });
  truth("RC_ASSERT / ==", a / 2 == b / 2, [&] { RC_ASSERT(a / 2 == b / 2); });
  truth("RC_ASSERT << ==", ((a + 2) << 1) == b, [&] { RC_ASSERT((a + 2) << 1 == b); });
  truth("RC_ASSERT >> ==", ((a + 2) >> 1) == b, [&] { RC_ASSERT((a + 2) >> 1 == b); });
  truth("RC_ASSERT plain", a, [&] { RC_ASSERT(a); });
  truth("RC_ASSERT string", sa == sb, [&] { RC_ASSERT(sa == sb); });
  truth("RC_ASSERT_FALSE", !(a < b), [&] { RC_ASSERT_FALSE(a < b); });
  truth("RC_PRE", a < b, [&] { RC_PRE(a < b); });
  truth("RC_SUCCEED_IF", !(a < b), [&] { RC_SUCCEED_IF(a < b); });
  if (a != b) {
    EXPECT_MSG(RC_ASSERT(a == b), "RC_ASSERT(a == b)", "Expands to:", A + " == " + B);
    EXPECT_MSG(RC_ASSERT_FALSE(a != b), "RC_ASSERT_FALSE(a != b)", "Expands to:", A + " != " + B);
    EXPECT_MSG(RC_PRE(a == b), "RC_PRE(a == b)", "Expands to:", A + " == " + B);
    EXPECT_MSG(RC_SUCCEED_IF(a != b), "RC_SUCCEED_IF(a != b)", "Expands to:", A + " != " + B);
    EXPECT_MSG(RC_ASSERT(sa == sb), "RC_ASSERT(sa == sb)", "Expands to:", "\"" + sa + "\" == \"" + sb + "\"");
    EXPECT_MSG(RC_ASSERT(a + 10 == b + 10), "RC_ASSERT(a + 10 == b + 10)", "Expands to:", A + " + 10 == " + std::to_string(b + 10));
  }
  EXPECT_MSG(RC_FAIL("why " + A), "RC_FAIL(", "why " + A);
  EXPECT_MSG(RC_SUCCEED("why " + A), "RC_SUCCEED(", "why " + A);
  EXPECT_MSG(RC_DISCARD("why " + A), "RC_DISCARD(", "why " + A);
  EXPECT_MSG(RC_ASSERT_THROWS(a + b), "RC_ASSERT_THROWS(a + b)", "No exception");
  EXPECT_MSG(RC_ASSERT_THROWS_AS(a + b, std::exception), "RC_ASSERT_THROWS_AS(a + b, std::exception)", "No exception");
  EXPECT_MSG(RC_ASSERT_THROWS_AS(throw 1, std::exception), "RC_ASSERT_THROWS_AS(throw 1, std::exception)", "std::exception");
}

// The right operand of && and || is only evaluated when the left one does not decide (known findings: it always is).
namespace {
void shortCircuit(bool isAnd) {
  int macro = vc::pick(4);
  bool a = !isAnd; // decides the whole condition
  bool touched = false;
  auto f = [&] { touched = true; return true; };
  auto run = [&](std::function<void()> body) {
    try {
      body();
    } catch (const CaseResult &) {
    }
  };
  if (isAnd) {
    if (macro == 0) run([&] { RC_ASSERT(a && f()); });
    if (macro == 1) run([&] { RC_PRE(a && f()); });
    if (macro == 2) run([&] { RC_ASSERT_FALSE(a && f()); });
    if (macro == 3) run([&] { RC_SUCCEED_IF(a && f()); });
  } else {
    if (macro == 0) run([&] { RC_ASSERT(a || f()); });
    if (macro == 1) run([&] { RC_PRE(a || f()); });
    if (macro == 2) run([&] { RC_ASSERT_FALSE(a || f()); });
    if (macro == 3) run([&] { RC_SUCCEED_IF(a || f()); });
  }
  vc::step();
  vc::state(vc::mix(isAnd, macro));
  VC_CHECK(!touched, "an assertion of (a " << (isAnd ? "&&" : "||") << " f()) evaluates f() although a is " << (a ? "true" : "false"));
  vc::matched();
}
} // namespace
VC_SUITE(shortCircuitAnd, 1) { shortCircuit(true); }
VC_SUITE(shortCircuitOr, 1) { shortCircuit(false); }

// Texts of every kind come through unchanged: messages, logs and tags.
VC_SUITE(texts, 16, {}) {
  static const std::vector<std::string> T = {"", std::string(1, '\0'), std::string("a\0b", 3), "\n", " ", "\n\nLog:\nno", "\xff\xfe", "\t%s%d\\", std::string(5000, 'x'),
                                             std::string(70000, 'y') + "\n" + std::string(70000, 'z')};
  int kind = vc::pick(10, "kind");
  const auto &t = T[vc::pick(10, "text")], &u = T[vc::pick(10, "other text")];
  auto tag = [](const std::string &x) { ImplicitParam<param::CurrentPropertyContext>::value()->addTag(x); };
  auto d = toProperty([&]() -> std::string {
             auto ctx = ImplicitParam<param::CurrentPropertyContext>::value();
             tag(t);
             tag(u);
             switch (kind) {
             case 0: RC_LOG() << u; RC_FAIL(t);
             case 1: RC_LOG("p"); RC_LOG(u); RC_DISCARD(t);
             case 2: RC_LOG() << u; RC_SUCCEED(t);
             case 3: ctx->reportResult(CaseResult(CaseResult::Type::Failure, t)); ctx->reportResult(CaseResult(CaseResult::Type::Failure, u)); break;
             case 4: ctx->reportResult(CaseResult(CaseResult::Type::Discard, t)); ctx->reportResult(CaseResult(CaseResult::Type::Discard, u)); break;
             case 5: throw std::runtime_error(t);
             case 6: throw std::string(t);
             case 7: throw GenerationFailure(t);
             case 8: return t;
             case 9: ctx->reportResult(CaseResult(CaseResult::Type::Failure, t)); throw std::string(u);
             }
             return "";
           })(Random(uint64_t(1)), 0).value();
  const int F = (int)CaseResult::Type::Failure, D = (int)CaseResult::Type::Discard, S = (int)CaseResult::Type::Success;
  const int want[] = {F, D, S, F, D, F, F, D, t.empty() ? S : F, F};
  std::string what = "kind " + std::to_string(kind) + " with " + rc::toString(t.substr(0, 20)) + " and " + rc::toString(u.substr(0, 20)) + ": ";
  VC_CHECK((int)d.result.type == want[kind], what << "outcome " << (int)d.result.type);
  VC_CHECK((d.tags == Tags{t, u}), what << "tags " << rc::toString(d.tags).substr(0, 200));
  const auto &desc = d.result.description;
  auto part = [&](size_t from, const std::string &x) {
    auto p = desc.find(x, from);
    VC_CHECK(p != std::string::npos, what << "the description lacks " << rc::toString(x.substr(0, 20)) << ": " << rc::toString(desc.substr(0, 300)));
    return p + x.size();
  };
  // what() ends at the first NUL
  size_t at = part(0, kind == 5 || kind == 7 ? std::string(t.c_str()) : t);
  if (kind == 3 || kind == 9) part(at, u);
  if (kind <= 2) part(at, u);
  if (kind == 4) VC_CHECK(desc == t, what << "not the first one is kept");
  if (kind <= 2) {
    std::string end = kind == 1 ? "p\n" + u + "\n" : u; // a logged message is a line of its own
    VC_CHECK(desc.size() >= end.size() && desc.compare(desc.size() - end.size(), end.size(), end) == 0, what << "the description does not end with the log");
  }
  vc::state(what);
  vc::step();
  vc::matched();
}

// The text of a condition is its tag, however short; tags of which some or all show as nothing.
namespace {
struct Void {};
std::ostream &operator<<(std::ostream &os, const Void &) { return os; }
} // namespace
VC_SUITE(classify, 1) {
  bool a = vc::pick(2), ab = vc::pick(2), b = vc::pick(2);
  auto d = toProperty([=] {
             RC_CLASSIFY(a);
             RC_CLASSIFY(ab);
             RC_CLASSIFY(!b);
             RC_CLASSIFY(b, Void());
             RC_CLASSIFY(a, Void(), 1);
             RC_CLASSIFY(a, 2, Void());
             RC_CLASSIFY(a, Void(), Void());
             RC_CLASSIFY(ab, std::string());
             RC_TAG(Void());
             RC_TAG(Void(), 3, Void());
             RC_TAG(a, b);
             RC_TAG(std::string());
           })(Random(uint64_t(1)), 0).value();
  Tags want;
  auto add = [&](bool when, Tags t) {
    if (when) want.insert(want.end(), t.begin(), t.end());
  };
  add(a, {"a"});
  add(ab, {"ab"});
  add(!b, {"!b"});
  add(b, {""});
  add(a, {"", "1"});
  add(a, {"2", ""});
  add(a, {"", ""});
  add(ab, {"\"\""});
  add(true, {""});
  add(true, {"", "3", ""});
  add(true, {a ? "true" : "false", b ? "true" : "false"});
  add(true, {"\"\""});
  VC_CHECK(d.tags == want, "tags " << rc::toString(d.tags) << " instead of " << rc::toString(want));
  VC_CHECK(d.result.type == CaseResult::Type::Success, "outcome");
  vc::state(rc::toString(want));
  vc::step(12);
  vc::matched();
}
