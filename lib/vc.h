// Exhaustive explorer used by every harness in /verif/harness.
//
// A harness defines suites (VC_SUITE).  A suite body is run once per execution; every nondeterministic
// decision it makes goes through vc::choose(n).  The explorer runs the body for every sequence of choices
// (depth first, replaying the prefix), optionally bounded by the number of deviations from choice 0.
// Violations are recorded (never only thrown: the code under test catches exceptions), confirmed by replay
// and reported together with the choice sequence that reaches them.
#pragma once
#include <cstdint>
#include <cstddef>
#include <exception>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace vc {

struct Stop {};            // thrown to abandon an execution after a violation was recorded

struct Opts {
  int maxDev = -1;         // bound on the number of non-default choices; -1: none
  long maxExecs = -1;      // hard cap on executions (run is then reported as capped)
};

// --- inside a suite body -------------------------------------------------------------------------
int choose(int n, const char *label = "");   // enumerated decision, 0..n-1 (n >= 1); c != 0 is a deviation
int pick(int n, const char *label = "");     // enumerated decision that is never counted as a deviation
bool replaying();
std::vector<int> ahead();                    // the decisions already fixed for the rest of this execution
void state(uint64_t h);                      // an observed state (canonical hash)
void state(const std::string &s);
void outcome(const std::string &s);          // an observed final outcome (for vacuity reporting)
void step(long n = 1);                       // n transitions (operations of the real code) executed
void matched(long n = 1);                    // n traces compared against the reference model
void sample(const std::string &s);           // keep a few written-out cases
void note(const std::string &s);             // narrative for the replay file of this execution
[[noreturn]] void fail(const std::string &msg);
void failSoft(const std::string &msg);       // records without throwing (for use inside code under test)
bool failed();
bool thorough();
uint64_t seed();
int shard();
int nshards();

// --- suite registry ------------------------------------------------------------------------------
using Body = std::function<void()>;
struct SuiteDef {
  const char *name;
  int shards;                                // first choice of the body is partitioned over shards
  std::function<void(Opts &)> config;
  Body body;
};
int registerSuite(SuiteDef d);
int mainImpl(int argc, char **argv);

inline uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2);
  a *= 0xff51afd7ed558ccdULL;
  a ^= a >> 33;
  return a;
}
uint64_t hashStr(const std::string &s);

template <typename T>
std::string str(const T &t) {
  std::ostringstream os;
  os << t;
  return os.str();
}
template <typename T>
std::string strv(const T &c) {
  std::ostringstream os;
  os << "[";
  bool first = true;
  for (const auto &x : c) {
    if (!first) os << ",";
    first = false;
    os << +x;
  }
  os << "]";
  return os.str();
}

} // namespace vc

#define VC_CAT2(a, b) a##b
#define VC_CAT(a, b) VC_CAT2(a, b)
// VC_SUITE(name, shards, config-statement using `o`) { body }
#define VC_SUITE(NAME, ...) VC_SUITE_(NAME, __VA_ARGS__)
#define VC_SUITE_(NAME, SHARDS, ...)                                                             \
  static void VC_CAT(vc_body_, NAME)();                                                          \
  static int VC_CAT(vc_reg_, NAME) = ::vc::registerSuite(                                        \
      {#NAME, SHARDS, [](::vc::Opts &o) { (void)o; __VA_ARGS__; }, &VC_CAT(vc_body_, NAME)});    \
  static void VC_CAT(vc_body_, NAME)()

#define VC_CHECK(COND, MSG)                                                                      \
  do {                                                                                           \
    if (!(COND)) {                                                                               \
      std::ostringstream vc_os;                                                                  \
      vc_os << MSG << "  [" #COND "]";                                                           \
      ::vc::fail(vc_os.str());                                                                   \
    }                                                                                            \
  } while (0)

#define VC_SOFT(COND, MSG)                                                                       \
  do {                                                                                           \
    if (!(COND)) {                                                                               \
      std::ostringstream vc_os;                                                                  \
      vc_os << MSG << "  [" #COND "]";                                                           \
      ::vc::failSoft(vc_os.str());                                                               \
    }                                                                                            \
  } while (0)
