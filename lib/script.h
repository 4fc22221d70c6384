// Control of the scripted entropy source (see shim/rapidcheck/Random.h).
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace vcr {
// Values an individual draw can take; index 0 is the default answer.
struct Script {
  std::vector<uint64_t> alphabet{0};
  int maxPoints = 1 << 30;      // draws after this many take alphabet[0] without a choice
  bool sequential = false;      // true: draws are taken from `fixed` in order
  std::vector<uint64_t> fixed;
  uint64_t fill = 0;            // sequential: what follows after `fixed`
  uint64_t stride = 0;          // not 0: draws after `maxPoints` are fill, fill + stride, fill + 2 stride, ...
};
void reset(const Script &s);    // start of an execution
long draws();                   // draws decided so far in this execution
std::string log();              // "node.pos=value" list
} // namespace vcr
