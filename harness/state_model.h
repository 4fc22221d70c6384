// A small bounded multiset-with-order model and its commands, shared by the C18 and C19 harnesses.
#pragma once
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "rapidcheck/state.h"
#include "detail/Testing.h"
#include <functional>
#include <memory>

namespace sm {
using namespace rc;

struct Model {
  std::vector<int> v;
  int serial = 0; // number of commands applied so far
  bool operator==(const Model &o) const { return v == o.v && serial == o.serial; }
  std::string str() const { return vc::strv(v) + "#" + std::to_string(serial); }
};

enum Kind { Push, Pop, Del, Top, Nop, NKinds };
inline const char *kindName(int k) {
  static const char *n[] = {"Push", "Pop", "Del", "Top", "Nop"};
  return n[k];
}
constexpr int kCap = 2;

// The specification of the commands, used by the commands themselves and by the reference.
inline bool preOk(int kind, int x, const Model &m) {
  switch (kind) {
  case Push: return (int)m.v.size() < kCap;
  case Pop: return !m.v.empty();
  case Del:
    for (int y : m.v)
      if (y == x) return true;
    return false;
  case Top: return !m.v.empty() && m.v.back() >= x;
  default: return true;
  }
}
inline void applySpec(int kind, int x, Model &m) {
  m.serial++;
  if (kind == Push) m.v.push_back(x);
  if (kind == Pop) m.v.pop_back();
  if (kind == Del)
    for (size_t i = 0; i < m.v.size(); i++)
      if (m.v[i] == x) {
        m.v.erase(m.v.begin() + i);
        break;
      }
}

struct Sut {
  std::function<void(int kind, int x, const Model &)> onRun;
};
using Base = state::Command<Model, Sut>;
struct Cmd : Base {
  int kind, x;
  std::string origin; // which random state it was generated from
  Model seen;         // model state given to the generator function
  int size;
  Cmd(int k, int xx, std::string o, Model s, int sz) : kind(k), x(xx), origin(std::move(o)), seen(std::move(s)), size(sz) {}
  void checkPreconditions(const Model &m) const override { RC_PRE(preOk(kind, x, m)); }
  void apply(Model &m) const override {
    if (!preOk(kind, x, m)) vc::fail("apply of " + name() + " in state " + m.str() + " whose precondition does not hold");
    applySpec(kind, x, m);
  }
  void run(const Model &m, Sut &s) const override { s.onRun(kind, x, m); }
  std::string name() const { return std::string(kindName(kind)) + std::to_string(x); }
  void show(std::ostream &os) const override { os << name(); }
  bool same(const Cmd &o) const { return kind == o.kind && x == o.x && origin == o.origin; }
};
using BaseSP = std::shared_ptr<const Base>;
using Seqn = std::vector<std::shared_ptr<const Cmd>>;
inline std::vector<int> smaller(int x) { // shrinks of an operand
  std::vector<int> r;
  for (int i = 0; i < x; i++) r.push_back(i);
  return r;
}
// every operand smaller than the value, in order, recursively
inline Shrinkable<BaseSP> cmdShrinkable(int kind, int x, const std::string &origin, const Model &m, int size) {
  return shrinkable::map(shrinkable::shrinkRecur(int(x), [](int v) { return seq::fromContainer(smaller(v)); }), [=](int v) -> BaseSP { return std::make_shared<const Cmd>(kind, v, origin, m, size); });
}
inline Seqn cast(const state::Commands<Base> &c) {
  Seqn r;
  for (auto &p : c) {
    auto q = std::dynamic_pointer_cast<const Cmd>(p);
    if (!q) vc::fail("a command in the sequence is not one that was generated");
    r.push_back(q);
  }
  return r;
}
inline std::string show(const Seqn &s) {
  std::string r = "[";
  for (auto &c : s) r += (r.size() > 1 ? " " : "") + c->name() + "@" + c->origin;
  return r + "]";
}
inline std::string originOf(const Random &r) { return std::to_string(r.node()) + "." + std::to_string(r.pos()); }

// Commands drawing kind and operand from raw numbers; `kinds` restricts and orders what can be drawn.
struct RawGen {
  std::vector<int> kinds;
  int maxOperand = 2;
  int failKind = -1;   // number that makes the command generator itself fail
  std::function<bool(int, int, const Model &)> filter; // extra knowledge: what the generator never yields in a state
  Gen<BaseSP> operator()(const Model &m) const {
    auto self = *this;
    return Gen<BaseSP>([self, m](const Random &random, int size) -> Shrinkable<BaseSP> {
      auto r = random;
      uint64_t k = r.next(), n = self.kinds.size() + (self.failKind >= 0 ? 1 : 0);
      if (k % n == self.kinds.size()) {
        if (self.failKind == 0) throw GenerationFailure("no command");
        throw rc::detail::CaseResult(rc::detail::CaseResult::Type::Discard, "not now");
      }
      int kind = self.kinds[k % n];
      int x = kind == Pop || kind == Nop ? 0 : (int)(r.next() % (self.maxOperand + 1));
      return cmdShrinkable(kind, x, originOf(random), m, size);
    });
  }
};
} // namespace sm
