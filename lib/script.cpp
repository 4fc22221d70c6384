#include "script.h"
#include "vc.h"
#include "rapidcheck/Random.h"
#include <map>
#include <ostream>
#include <tuple>
#include <unordered_map>

namespace vcr {
namespace {
Script S;
std::unordered_map<uint64_t, uint64_t> memo;
std::map<std::tuple<uint32_t, uint32_t, int>, uint32_t> kids;
std::map<std::tuple<uint64_t, uint64_t, uint64_t, uint64_t>, uint32_t> roots;
uint32_t nextNode = 1;
long nDraws = 0;
std::vector<std::pair<uint64_t, uint64_t>> logv;
} // namespace

void reset(const Script &s) {
  S = s;
  memo.clear();
  kids.clear();
  roots.clear();
  nextNode = 1;
  nDraws = 0;
  logv.clear();
}
uint64_t draw(uint32_t node, uint32_t pos) {
  uint64_t key = (static_cast<uint64_t>(node) << 32) | pos;
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  uint64_t v;
  if (S.sequential) {
    v = nDraws < (long)S.fixed.size() ? S.fixed[nDraws] : S.fill;
  } else if (nDraws >= S.maxPoints) {
    v = S.stride ? S.fill + S.stride * static_cast<uint64_t>(nDraws - S.maxPoints) : S.alphabet[0];
  } else {
    v = S.alphabet[vc::choose((int)S.alphabet.size())];
  }
  if (++nDraws > 200000) {
    vc::failSoft("more than 200000 random numbers drawn in one execution: generation does not end");
    throw vc::Stop();
  }
  memo[key] = v;
  logv.push_back({key, v});
  return v;
}
uint32_t child(uint32_t node, uint32_t pos, int side) {
  auto k = std::make_tuple(node, pos, side);
  auto it = kids.find(k);
  if (it != kids.end()) return it->second;
  return kids[k] = nextNode++;
}
uint32_t rootFor(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  auto k = std::make_tuple(a, b, c, d);
  auto it = roots.find(k);
  if (it != roots.end()) return it->second;
  return roots[k] = nextNode++;
}
long draws() { return nDraws; }
std::string log() {
  std::string o;
  for (auto &p : logv)
    o += std::to_string(p.first >> 32) + "." + std::to_string(p.first & 0xffffffff) + "=" + std::to_string(p.second) + " ";
  return o;
}
} // namespace vcr

namespace rc {
std::ostream &operator<<(std::ostream &os, const Random &r) {
  return os << "R" << r.node() << "." << r.pos();
}
} // namespace rc
