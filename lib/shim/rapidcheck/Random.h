// Scripted replacement for rc::Random used by the harnesses that own all randomness.
//
// It has the public interface of the real engine, but it is a *name* for a position in a lazily built
// split tree.  What next() returns at a position is decided by the explorer (vcr::draw) the first time
// that position is asked and remembered for the rest of the execution, so every copy of a generator state
// keeps yielding the same stream, exactly as with the real engine, while the explorer enumerates the streams.
#pragma once
#include <array>
#include <cstdint>
#include <functional>
#include <iosfwd>
#include <limits>

namespace vcr {
uint64_t draw(uint32_t node, uint32_t pos);
uint32_t child(uint32_t node, uint32_t pos, int side);
uint32_t rootFor(uint64_t a, uint64_t b, uint64_t c, uint64_t d);
} // namespace vcr

namespace rc {

class Random {
public:
  using Key = std::array<uint64_t, 4>;
  using Number = uint64_t;

  Random() : Random(Key{{0, 0, 0, 0}}) {}
  Random(const Key &k) : m_node(vcr::rootFor(k[0], k[1], k[2], k[3])), m_pos(0) {}
  Random(uint64_t seed) : Random(Key{{seed, seed, seed, seed}}) {}

  Random split() {
    Random right(*this);
    right.m_node = vcr::child(m_node, m_pos, 1);
    right.m_pos = 0;
    m_node = vcr::child(m_node, m_pos, 0);
    m_pos = 0;
    return right;
  }
  Number next() { return vcr::draw(m_node, m_pos++); }

  uint32_t node() const { return m_node; }
  uint32_t pos() const { return m_pos; }

  friend bool operator==(const Random &l, const Random &r) {
    return l.m_node == r.m_node && l.m_pos == r.m_pos;
  }
  friend bool operator!=(const Random &l, const Random &r) { return !(l == r); }
  friend bool operator<(const Random &l, const Random &r) {
    return l.m_node != r.m_node ? l.m_node < r.m_node : l.m_pos < r.m_pos;
  }
  template <typename It>
  friend It serialize(const Random &r, It out) {
    for (int i = 0; i < 4; i++) *out++ = static_cast<uint8_t>(r.m_node >> (8 * i));
    for (int i = 0; i < 4; i++) *out++ = static_cast<uint8_t>(r.m_pos >> (8 * i));
    return out;
  }
  template <typename It>
  friend It deserialize(It b, It e, Random &r) {
    uint32_t v[2] = {0, 0};
    for (int k = 0; k < 2; k++)
      for (int i = 0; i < 4; i++) {
        if (b == e) throw 1;
        v[k] |= static_cast<uint32_t>(static_cast<uint8_t>(*b)) << (8 * i);
        ++b;
      }
    r.m_node = v[0];
    r.m_pos = v[1];
    return b;
  }

private:
  uint32_t m_node;
  uint32_t m_pos;
};

std::ostream &operator<<(std::ostream &os, const Random &random);

} // namespace rc

namespace std {
template <>
struct hash<rc::Random> {
  std::size_t operator()(const rc::Random &r) const {
    return (static_cast<std::size_t>(r.node()) << 20) ^ r.pos();
  }
};
} // namespace std

#include "rapidcheck/detail/Serialization.h"
