// C20: Maybe, Variant, Any as plain values - every operation sequence up to a depth against a plain model,
// with instance tracking (each contained object constructed and destroyed exactly once) and throwing copies.
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/Maybe.h"
#include "rapidcheck/detail/Variant.h"
#include "rapidcheck/detail/Any.h"
#include <cstring>
#include <map>
#include <memory>
#include <new>

using namespace rc;
using rc::detail::Any;
using rc::detail::Variant;

namespace {
struct Boom {};
std::map<const void *, int> g_live; // address -> kind
int g_throwIn = -1;                 // the n-th throwing operation from now throws
void enter(const void *p, int kind) {
  if (g_live.count(p)) vc::failSoft("object constructed on top of a living object");
  g_live[p] = kind;
}
void leave(const void *p, int kind) {
  auto it = g_live.find(p);
  if (it == g_live.end()) {
    vc::failSoft("object destroyed that does not exist (double destruction?)");
    return;
  }
  if (it->second != kind) vc::failSoft("object destroyed as the wrong type");
  g_live.erase(it);
}
void use(const void *p, int kind) {
  auto it = g_live.find(p);
  if (it == g_live.end() || it->second != kind) vc::failSoft("use of an object that does not exist or has another type");
}
void maybeThrow() {
  if (g_throwIn >= 0 && g_throwIn-- == 0) throw Boom();
}
// Copy operations can throw; move operations throw only if MT.  Moved-from objects hold -1.
template <int K, bool MT = false>
struct Tr {
  int v;
  char pad[K]; // alternatives of different size
  explicit Tr(int x) : v(x) { maybeThrowMove(); enter(this, K); }
  Tr(const Tr &o) : v(o.v) {
    use(&o, K);
    maybeThrow();
    enter(this, K);
  }
  Tr(Tr &&o) noexcept(!MT) : v(o.v) {
    use(&o, K);
    maybeThrowMove();
    o.v = -1;
    enter(this, K);
  }
  Tr &operator=(const Tr &o) {
    use(this, K);
    use(&o, K);
    maybeThrow();
    v = o.v;
    return *this;
  }
  Tr &operator=(Tr &&o) noexcept(!MT) {
    use(this, K);
    use(&o, K);
    maybeThrowMove();
    if (this != &o) {
      v = o.v;
      o.v = -1;
    }
    return *this;
  }
  ~Tr() { leave(this, K); }
  static void maybeThrowMove() {
    if (MT) maybeThrow();
  }
  bool operator==(const Tr &o) const {
    use(this, K);
    use(&o, K);
    return v == o.v;
  }
};
template <int K, bool MT>
std::ostream &operator<<(std::ostream &os, const Tr<K, MT> &t) {
  use(&t, K);
  return os << "T" << K << ":" << t.v;
}

struct Guard {
  Guard() {
    g_live.clear();
    g_throwIn = -1;
  }
  static void end(const std::string &log) {
    VC_CHECK(g_live.empty(), "after" << log << ": " << g_live.size() << " contained objects leaked");
  }
};

// ---------------------------------------------------------------- Maybe
constexpr int kNone = -100;
template <typename T>
void checkMaybe(const Maybe<T> &m, int want, const std::string &log) {
  VC_CHECK((bool)m == (want != kNone), "after" << log << ": initialised=" << (bool)m << ", expected " << (want != kNone));
  if (want != kNone) {
    VC_CHECK((*m).v == want && m->v == want, "after" << log << ": holds " << m->v << ", expected " << want);
    use(&*m, 0 + sizeof(m->pad));
  }
}

template <typename T>
void maybeSeq(int depth, bool throwing) {
  Guard g;
  std::string log;
  int first = vc::pick(2 * 16);
  {
    alignas(Maybe<T>) unsigned char raw[2][sizeof(Maybe<T>)];
    std::memset(raw, 0xEE, sizeof raw); // not by luck zero
    Maybe<T> *m[2];
    int model[2];
    int init = vc::pick(3);
    for (int i = 0; i < 2; i++) {
      if ((init >> i & 1) == 0) {
        m[i] = new (raw[i]) Maybe<T>(T(10 + i));
        model[i] = 10 + i;
      } else if (init == 1) {
        m[i] = new (raw[i]) Maybe<T>();
        model[i] = kNone;
      } else {
        m[i] = new (raw[i]) Maybe<T>(Nothing);
        model[i] = kNone;
      }
    }
    log = " init" + std::to_string(init);
    for (int d = 0; d < depth; d++) {
      int c = d == 0 ? first : vc::pick(2 * 16);
      int i = c / 16, op = c % 16, j = 1 - i;
      int v = 20 + d;
      int th = throwing ? vc::choose(2) : 0;
      log += " " + std::to_string(op) + (i ? "b" : "a") + (th ? "!" : "");
      std::unique_ptr<T> src(new T(v)); // made before the fault is armed
      g_throwIn = th ? 0 : -1;
      int before[2] = {model[0], model[1]};
      bool threw = false;
      int onThrow = model[i]; // assignment that throws keeps the old value
      try {
        switch (op) {
        case 0: if (model[i] == kNone) onThrow = kNone; *m[i] = static_cast<const T &>(*src); model[i] = v; break;
        case 1: *m[i] = std::move(*src); model[i] = v; break;
        case 2: *m[i] = Nothing; model[i] = kNone; break;
        case 3: m[i]->reset(); model[i] = kNone; break;
        case 4: onThrow = kNone; m[i]->init(v); model[i] = v; break;
        case 5: onThrow = kNone; m[i]->init(*src); model[i] = v; break;
        case 6: *m[i] = static_cast<const Maybe<T> &>(*m[j]); model[i] = model[j]; break;
        case 7: { auto &self = *m[i]; self = static_cast<const Maybe<T> &>(*m[i]); break; }
        case 8: *m[i] = std::move(*m[j]); model[i] = model[j]; if (model[j] != kNone) model[j] = -1; break;
        case 9: { auto &self = *m[i]; self = std::move(*m[i]); break; }
        case 10: if (model[j] != kNone) { *m[i] = static_cast<const T &>(**m[j]); model[i] = model[j]; } break;
        case 11: if (model[i] != kNone) { *m[i] = static_cast<const T &>(**m[i]); } break;
        case 12: { // copies are independent
          Maybe<T> c1(*m[i]);
          Maybe<T> c2 = c1;
          g_throwIn = -1;
          checkMaybe(c2, model[i], log + " (copy)");
          VC_CHECK(c1 == *m[i] && !(c1 != *m[i]), "after" << log << ": a copy does not compare equal");
          c1.reset();
          if (c2) c2->v = 77;
          break;
        }
        case 13: { // move out and back
          Maybe<T> c1(std::move(*m[i]));
          if (model[i] != kNone) onThrow = -1;
          int held = model[i];
          if (model[i] != kNone) model[i] = -1;
          checkMaybe(*m[i], model[i], log + " (moved from)");
          checkMaybe(c1, held, log + " (move constructed)");
          *m[i] = std::move(c1);
          model[i] = held;
          break;
        }
        case 14: if (model[i] != kNone) { (**m[i]).v = v; model[i] = v; } break;
        case 15: m[i]->~Maybe<T>(); model[i] = kNone; m[i] = nullptr; // re-created from the other one
          std::memset(raw[i], 0xEE, sizeof raw[i]);
          try {
            m[i] = new (raw[i]) Maybe<T>(*m[j]);
            model[i] = model[j];
          } catch (const Boom &) {
            m[i] = new (raw[i]) Maybe<T>();
            onThrow = kNone;
            throw;
          }
          break;
        }
      } catch (const Boom &) {
        threw = true;
      }
      g_throwIn = -1;
      if (threw) {
        model[i] = onThrow;
        model[j] = before[j];
        log += "~";
      }
      for (int k = 0; k < 2; k++) checkMaybe(*m[k], model[k], log);
      bool eq = model[0] == model[1];
      VC_CHECK((*m[0] == *m[1]) == eq && (*m[0] != *m[1]) == !eq, "after" << log << ": comparison is wrong");
      src.reset();
      VC_CHECK((int)g_live.size() == (model[0] != kNone) + (model[1] != kNone),
               "after" << log << ": " << g_live.size() << " contained objects exist");
      vc::step();
      vc::state("m" + std::to_string(model[0]) + "," + std::to_string(model[1]) + "," + std::to_string(d));
    }
    m[0]->~Maybe<T>();
    m[1]->~Maybe<T>();
  }
  Guard::end(log);
  vc::matched();
  vc::sample(log);
}

// ---------------------------------------------------------------- Variant
using A = Tr<1>;
using B = Tr<24>;
using V = Variant<A, B, int>;
struct Alt {
  int kind; // 0 A, 1 B, 2 int
  int v;
  bool operator==(const Alt &o) const { return kind == o.kind && v == o.v; }
};
std::string show(const Alt &a) { return std::string(1, "ABi"[a.kind]) + std::to_string(a.v); }

void checkVariant(const V &v, const Alt &want, const std::string &log) {
  const bool is[3] = {v.is<A>(), v.is<B>(), v.is<int>()};
  for (int k = 0; k < 3; k++)
    VC_CHECK(is[k] == (want.kind == k), "after" << log << ": alternative " << k << " is " << (is[k] ? "" : "not ") << "held, expected " << show(want));
  int got = want.kind == 0 ? v.get<A>().v : want.kind == 1 ? v.get<B>().v : v.get<int>();
  VC_CHECK(got == want.v, "after" << log << ": holds " << got << ", expected " << show(want));
  A a(-7);
  B b(-7);
  int n = -7;
  bool ma = v.match(a), mb = v.match(b), mi = v.match(n);
  VC_CHECK(ma == (want.kind == 0) && mb == (want.kind == 1) && mi == (want.kind == 2), "after" << log << ": match accepts the wrong type");
  VC_CHECK(a.v == (ma ? want.v : -7) && b.v == (mb ? want.v : -7) && n == (mi ? want.v : -7), "after" << log << ": match gives the wrong value");
  std::ostringstream os;
  os << v;
  std::string ws = want.kind == 2 ? std::to_string(want.v) : "T" + std::to_string(want.kind == 0 ? 1 : 24) + ":" + std::to_string(want.v);
  VC_CHECK(os.str() == ws, "after" << log << ": printed as " << os.str() << ", expected " << ws);
}
V *makeV(void *at, int kind, int v) {
  switch (kind) {
  case 0: return new (at) V(A(v));
  case 1: { const B b(v); return new (at) V(b); }
  default: { int n = v; return new (at) V(n); }
  }
}
constexpr int kVOps = 14;
void variantSeq(int depth, bool throwing) {
  Guard g;
  std::string log;
  int first = vc::pick(2 * kVOps);
  {
    alignas(V) unsigned char raw[2][sizeof(V)];
    std::memset(raw, 0xEE, sizeof raw);
    int k0 = vc::pick(9);
    V *m[2] = {makeV(raw[0], k0 / 3, 10), makeV(raw[1], k0 % 3, 11)};
    Alt model[2] = {{k0 / 3, 10}, {k0 % 3, 11}};
    log = " init" + show(model[0]) + show(model[1]);
    for (int d = 0; d < depth; d++) {
      int c = d == 0 ? first : vc::pick(2 * kVOps);
      int i = c / kVOps, op = c % kVOps, j = 1 - i;
      int v = 20 + d;
      int th = throwing ? vc::choose(2) : 0;
      log += " " + std::to_string(op) + (i ? "b" : "a") + (th ? "!" : "");
      bool threw = false;
      const Alt before[2] = {model[0], model[1]};
      Alt onThrow = model[i];
      {
        A a(v);
        B b(v);
        const int n = v;
        g_throwIn = th ? 0 : -1;
        try {
          switch (op) {
          case 0: *m[i] = static_cast<const A &>(a); model[i] = {0, v}; break;
          case 1: *m[i] = std::move(a); model[i] = {0, v}; break;
          case 2: *m[i] = static_cast<const B &>(b); model[i] = {1, v}; break;
          case 3: *m[i] = std::move(b); model[i] = {1, v}; break;
          case 4: *m[i] = n; model[i] = {2, v}; break;
          case 5: *m[i] = static_cast<const V &>(*m[j]); model[i] = model[j]; break;
          case 6: { V &self = *m[i]; self = static_cast<const V &>(*m[i]); break; }
          case 7: *m[i] = std::move(*m[j]); model[i] = model[j]; if (model[j].kind != 2) model[j].v = -1; break;
          case 8: { V &self = *m[i]; self = std::move(*m[i]); break; }
          case 9: { // assign from the value held by itself
            if (model[i].kind == 0) *m[i] = static_cast<const A &>(m[i]->get<A>());
            else if (model[i].kind == 1) *m[i] = static_cast<const B &>(m[i]->get<B>());
            else *m[i] = static_cast<const int &>(m[i]->get<int>());
            break;
          }
          case 10: { // copies are independent
            V c1(*m[i]);
            V c2 = c1;
            g_throwIn = -1;
            checkVariant(c2, model[i], log + " (copy)");
            VC_CHECK(c1 == *m[i] && !(c1 != *m[i]), "after" << log << ": a copy does not compare equal");
            c1 = 5;
            c2 = B(9);
            break;
          }
          case 11: { // move out and back
            V c1(std::move(*m[i]));
            g_throwIn = -1;
            checkVariant(c1, model[i], log + " (move constructed)");
            Alt mf = model[i];
            if (mf.kind != 2) mf.v = -1;
            checkVariant(*m[i], mf, log + " (moved from)");
            *m[i] = std::move(c1);
            break;
          }
          case 12: { // take the value out
            if (model[i].kind == 0) { A x = std::move(*m[i]).get<A>(); VC_CHECK(x.v == model[i].v, "after" << log << ": rvalue get"); model[i].v = -1; }
            else if (model[i].kind == 1) { B x = std::move(*m[i]).get<B>(); VC_CHECK(x.v == model[i].v, "after" << log << ": rvalue get"); model[i].v = -1; }
            else { m[i]->get<int>() = v; model[i].v = v; }
            break;
          }
          case 13:
            m[i]->~V();
            std::memset(raw[i], 0xEE, sizeof raw[i]);
            try {
              m[i] = new (raw[i]) V(static_cast<const V &>(*m[j]));
              model[i] = model[j];
            } catch (const Boom &) {
              m[i] = new (raw[i]) V(3);
              onThrow = {2, 3};
              throw;
            }
            break;
          }
        } catch (const Boom &) {
          threw = true;
        }
        g_throwIn = -1;
      }
      if (threw) {
        model[i] = onThrow;
        model[j] = before[j];
        log += "~";
      }
      for (int k = 0; k < 2; k++) checkVariant(*m[k], model[k], log);
      bool eq = model[0] == model[1];
      VC_CHECK((*m[0] == *m[1]) == eq && (*m[0] != *m[1]) == !eq, "after" << log << ": comparison is wrong");
      VC_CHECK((int)g_live.size() == (model[0].kind != 2) + (model[1].kind != 2), "after" << log << ": " << g_live.size() << " contained objects exist");
      vc::step();
      vc::state("v" + show(model[0]) + show(model[1]) + std::to_string(d));
    }
    m[0]->~V();
    m[1]->~V();
  }
  Guard::end(log);
  vc::matched();
  vc::sample(log);
}

// ---------------------------------------------------------------- Any
using M = std::unique_ptr<A>; // movable only
constexpr int kAnyOps = 13;
void anySeq(int depth, bool throwing) {
  Guard g;
  std::string log;
  int first = vc::pick(2 * kAnyOps);
  {
    Any m[2];
    Alt model[2] = {{-1, 0}, {-1, 0}}; // kind -1: null, 3: string, 4: move-only
    for (int d = 0; d < depth; d++) {
      int c = d == 0 ? first : vc::pick(2 * kAnyOps);
      int i = c / kAnyOps, op = c % kAnyOps, j = 1 - i;
      int v = 20 + d;
      int th = throwing ? vc::choose(2) : 0;
      log += " " + std::to_string(op) + (i ? "b" : "a") + (th ? "!" : "");
      {
        A a(v);
        B b(v);
        g_throwIn = th ? 0 : -1;
        Alt old = model[i];
        try {
          switch (op) {
          case 0: m[i] = Any::of(a); model[i] = {0, v}; break;
          case 1: m[i] = Any::of(std::move(a)); model[i] = {0, v}; break;
          case 2: m[i] = Any::of(static_cast<const B &>(b)); model[i] = {1, v}; break;
          case 3: m[i] = Any::of(v); model[i] = {2, v}; break;
          case 4: { std::string s = std::to_string(v); m[i] = Any::of(s); model[i] = {3, v}; break; }
          case 5: m[i] = Any::of(M(new A(v))); model[i] = {4, v}; break;
          case 6: m[i] = std::move(m[j]); model[i] = model[j]; model[j] = {-1, 0}; break;
          case 7: { Any &self = m[i]; self = std::move(m[i]); break; }
          case 8: m[i].reset(); model[i] = {-1, 0}; break;
          case 9: m[i] = Any(); model[i] = {-1, 0}; break;
          case 10: { Any t(std::move(m[i])); VC_CHECK(!m[i], "after" << log << ": moved-from any is not null"); VC_CHECK((bool)t == (model[i].kind >= 0), "after" << log << ": moved any"); m[i] = std::move(t); break; }
          case 11: // change in place
            if (model[i].kind == 0) { m[i].get<A>().v = v; model[i].v = v; }
            else if (model[i].kind == 1) { m[i].get<B>().v = v; model[i].v = v; }
            else if (model[i].kind == 2) { m[i].get<int>() = v; model[i].v = v; }
            else if (model[i].kind == 3) { m[i].get<std::string>() = std::to_string(v); model[i].v = v; }
            break;
          case 12: std::swap(m[0], m[1]); std::swap(model[0], model[1]); break;
          }
        } catch (const Boom &) {
          model[i] = old;
          log += "~";
        }
        g_throwIn = -1;
      }
      int live = 0;
      for (int k = 0; k < 2; k++) {
        VC_CHECK((bool)m[k] == (model[k].kind >= 0), "after" << log << ": null-ness is wrong");
        const Any &cm = m[k];
        std::ostringstream os, ot;
        os << cm;
        cm.showType(ot);
        std::string ws;
        switch (model[k].kind) {
        case 0: live++; VC_CHECK(cm.get<A>().v == model[k].v, "after" << log << ": wrong value"); ws = "T1:" + std::to_string(model[k].v); break;
        case 1: live++; VC_CHECK(cm.get<B>().v == model[k].v && m[k].get<B>().v == model[k].v, "after" << log << ": wrong value"); ws = "T24:" + std::to_string(model[k].v); break;
        case 2: VC_CHECK(cm.get<int>() == model[k].v, "after" << log << ": wrong value"); ws = std::to_string(model[k].v); VC_CHECK(ot.str() == "int", "type of int shown as " << ot.str()); break;
        case 3: VC_CHECK(cm.get<std::string>() == std::to_string(model[k].v), "after" << log << ": wrong value"); ws = "\"" + std::to_string(model[k].v) + "\""; break;
        case 4: live++; VC_CHECK(cm.get<M>()->v == model[k].v, "after" << log << ": wrong value"); break;
        default: VC_CHECK(ot.str().empty(), "type of a null any shown"); break;
        }
        if (model[k].kind != 4) VC_CHECK(os.str() == ws, "after" << log << ": shown as " << os.str() << ", expected " << ws);
      }
      VC_CHECK((int)g_live.size() == live, "after" << log << ": " << g_live.size() << " contained objects exist, expected " << live);
      vc::step();
      vc::state("a" + std::to_string(model[0].kind) + "," + std::to_string(model[0].v) + "," + std::to_string(model[1].kind) + "," + std::to_string(model[1].v) + "," + std::to_string(d));
    }
  }
  Guard::end(log);
  vc::matched();
  vc::sample(log);
}
// Alignment and size: values of over-aligned and differently sized alternatives stay intact.
struct alignas(32) Wide { double d[4]; bool operator==(const Wide &o) const { return d[0] == o.d[0] && d[3] == o.d[3]; } };
} // namespace

VC_SUITE(maybe, 8) { maybeSeq<Tr<1>>(vc::thorough() ? 4 : 3, true); }
VC_SUITE(maybeMoveThrows, 8) { maybeSeq<Tr<3, true>>(vc::thorough() ? 4 : 3, true); }
VC_SUITE(variant, 8) { variantSeq(vc::thorough() ? 4 : 3, true); }
VC_SUITE(any, 8) { anySeq(vc::thorough() ? 4 : 3, true); }
VC_SUITE(alignment, 1) {
  using W = Variant<char, Wide, std::string>;
  int ops = vc::pick(27);
  struct { char c; W w; } s{'x', W('y')};
  char expectC = 'x';
  int kind = 0;
  for (int i = 0; i < 3; i++, ops /= 3) {
    kind = ops % 3;
    if (kind == 0) s.w = char('a' + i);
    if (kind == 1) s.w = Wide{{1.0 + i, 2, 3, 4.0 + i}};
    if (kind == 2) s.w = std::string(40, char('a' + i));
    W copy(s.w);
    VC_CHECK(copy == s.w, "copy differs");
    if (kind == 1) VC_CHECK(reinterpret_cast<uintptr_t>(&copy.get<Wide>()) % 32 == 0 && copy.get<Wide>().d[3] == 4.0 + i, "over-aligned alternative");
    if (kind == 2) VC_CHECK(copy.get<std::string>() == std::string(40, char('a' + i)), "string alternative");
    Maybe<Wide> mw;
    mw = Wide{{1, 2, 3, 4}};
    VC_CHECK(reinterpret_cast<uintptr_t>(&*mw) % 32 == 0, "over-aligned maybe");
    vc::step();
  }
  VC_CHECK(s.c == expectC, "neighbouring object overwritten");
  vc::matched();
}

// Many alternatives: every operation between any two of six alternatives, also of the same type of content.
namespace {
using M6 = Variant<Tr<1>, Tr<24>, Tr<2>, Tr<40>, Tr<3>, Tr<8>>;
constexpr int kPad[6] = {1, 24, 2, 40, 3, 8};
template <int K>
void check6(const M6 &v, int kind, int want, const std::string &log) {
  bool here = kPad[kind] == K;
  VC_CHECK(v.is<Tr<K>>() == here, log << ": says it holds " << (here ? "no " : "") << "T" << K);
  Tr<K> t(-7);
  VC_CHECK(v.match(t) == here, log << ": match accepts the wrong type");
  VC_CHECK(t.v == (here ? want : -7), log << ": match gives the wrong value");
  if (here) VC_CHECK(v.get<Tr<K>>().v == want, log << ": holds " << v.get<Tr<K>>().v << ", expected " << want);
}
void check6(const M6 &v, int kind, int want, const std::string &log) {
  check6<1>(v, kind, want, log);
  check6<24>(v, kind, want, log);
  check6<2>(v, kind, want, log);
  check6<40>(v, kind, want, log);
  check6<3>(v, kind, want, log);
  check6<8>(v, kind, want, log);
  std::ostringstream os;
  os << v;
  VC_CHECK(os.str() == "T" + std::to_string(kPad[kind]) + ":" + std::to_string(want), log << ": printed as " << os.str());
}
template <typename F>
auto with6(int kind, int v, F f) -> decltype(f(Tr<1>(v))) {
  switch (kind) {
  case 0: return f(Tr<1>(v));
  case 1: return f(Tr<24>(v));
  case 2: return f(Tr<2>(v));
  case 3: return f(Tr<40>(v));
  case 4: return f(Tr<3>(v));
  default: return f(Tr<8>(v));
  }
}
struct Make6 { template <typename T> M6 operator()(T t) const { return M6(std::move(t)); } };
struct Assign6 {
  M6 *m;
  bool move;
  template <typename T> int operator()(T t) const {
    if (move) *m = std::move(t);
    else *m = static_cast<const T &>(t);
    return 0;
  }
};
} // namespace
VC_SUITE(variantOfMany, 6) {
  Guard g;
  int first = vc::pick(6);
  std::string log = "from " + std::to_string(first);
  {
    M6 a = with6(first, 10, Make6{});
    int kind = first, value = 10;
    int depth = vc::thorough() ? 3 : 2;
    for (int d = 0; d < depth; d++) {
      int op = vc::pick(6), to = vc::pick(6), w = 20 + d;
      bool throws = vc::choose(2);
      log += ", " + std::to_string(op) + " with " + std::to_string(to) + (throws ? "!" : "");
      M6 b = with6(to, w, Make6{});
      int bv = w, bk = to;
      g_throwIn = throws ? 0 : -1;
      try {
        if (op == 0) a = static_cast<const M6 &>(b), kind = to, value = w;
        if (op == 1) a = std::move(b), kind = to, value = w, bv = -1;
        if (op == 2) with6(to, w, Assign6{&a, false}), kind = to, value = w;
        if (op == 3) with6(to, w, Assign6{&a, true}), kind = to, value = w;
        if (op == 4) std::swap(a, b), std::swap(kind, bk), std::swap(value, bv);
        if (op == 5) { M6 c(a); M6 e(std::move(b)); g_throwIn = -1; check6(c, kind, value, log + " (copied)"); check6(e, to, w, log + " (moved)"); bv = -1; c = std::move(e); check6(c, to, w, log + " (moved there)"); }
      } catch (const Boom &) {
        log += "~";
      }
      g_throwIn = -1;
      check6(a, kind, value, log);
      check6(b, bk, bv, log + " (other)");
      bool eq = kind == bk && value == bv;
      VC_CHECK((a == b) == eq && (b == a) == eq && (a != b) == !eq, log << ": comparison is wrong");
      VC_CHECK(g_live.size() == 2, log << ": " << g_live.size() << " contained objects exist");
      vc::step();
      vc::state(vc::mix(kind, vc::mix(value, vc::mix(d, op))));
    }
  }
  Guard::end(log);
  vc::matched();
  vc::sample(log);
}
