// C21: implicit parameters follow dynamic scoping.
//  - programs: every nesting of bindings, scopes, reads, writes and exceptions up to an operation budget
//  - nested: every nesting of properties / executed generators with logs, tags, picks and exceptions
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/ImplicitParam.h"
#include "rapidcheck/detail/Property.h"
#include "rapidcheck/detail/PropertyContext.h"
#include <memory>
#include <utility>

using namespace rc;
using namespace rc::detail;

namespace {
int g_liveB = 0;
struct Obj {
  std::unique_ptr<int> p;
  explicit Obj(int v) : p(new int(v)) { g_liveB++; }
  Obj(Obj &&o) : p(new int(*o.p)) { g_liveB++; }
  Obj &operator=(Obj &&o) { *p = *o.p; return *this; }
  ~Obj() { g_liveB--; }
};
bool g_defaultThrows = false;
struct Boom {};
struct PA {
  using ValueType = int;
  static int defaultValue() { return 1000; }
};
struct PB {
  using ValueType = Obj;
  static Obj defaultValue() {
    if (g_defaultThrows) throw Boom();
    return Obj(1001);
  }
};
struct PC { // default computed from another parameter, as a default may be any code
  using ValueType = std::string;
  static std::string defaultValue() { return "d" + std::to_string(ImplicitParam<PA>::value()); }
};
struct Cell {
  bool has = false;
  int v = 0;
};
struct Frame {
  int kind; // 0 scope, 1 A, 2 B, 3 C
  int v = 0;
  Cell def[3];
};
struct Unwind {
  int levels;
};
struct Run {
  std::vector<Frame> st;
  int budget;
  int serial = 0;
  std::string log;
  int maxNest = 0;
  int first = -1;

  int &look(int p) {
    for (size_t i = st.size(); i-- > 0;) {
      if (st[i].kind == 1 + p) return st[i].v;
      if (st[i].kind == 0) {
        Cell &c = st[i].def[p];
        if (!c.has) {
          // the default of C is derived from the A that is visible right then
          int v = p == 2 ? look(0) : 1000 + p;
          c.has = true;
          c.v = v;
        }
        return c.v;
      }
    }
    abort();
  }
  // C holds "d<n>" or "d<n>" style strings for values: the model keeps the number
  int realValue(int p) {
    if (p == 0) return ImplicitParam<PA>::value();
    if (p == 1) return *ImplicitParam<PB>::value().p;
    return atoi(ImplicitParam<PC>::value().c_str() + 1);
  }
  void writeReal(int p, int v) {
    if (p == 0) ImplicitParam<PA>::value() = v;
    else if (p == 1) ImplicitParam<PB>::value() = Obj(v);
    else ImplicitParam<PC>::value() = "w" + std::to_string(v);
  }
  void read(int p) {
    int got = realValue(p), want = look(p);
    VC_CHECK(got == want, "after" << log << ": parameter " << char('A' + p) << " is " << got << ", expected " << want);
    vc::step();
  }
  void level(int nest) {
    if (nest > maxNest) maxNest = nest;
    while (budget > 0) {
      int op = first >= 0 ? first : vc::pick(12 + (nest > 0 ? 1 : 0));
      first = -1;
      if (op == 0) return;
      budget--;
      if (op <= 3) {
        log += std::string(" ?") + char('A' + op - 1);
        read(op - 1);
      } else if (op <= 6) {
        int p = op - 4, v = ++serial;
        log += std::string(" ") + char('A' + p) + "=" + std::to_string(v);
        look(p) = v; // creates the default first
        writeReal(p, v);
      } else if (op <= 9) {
        int p = op - 7, v = 100 + ++serial;
        log += std::string(" {") + char('A' + p) + std::to_string(v);
        size_t depth = st.size();
        try {
          Frame f{1 + p, v};
          if (p == 0) {
            ImplicitParam<PA> b(v);
            st.push_back(f);
            level(nest + 1);
          } else if (p == 1) {
            ImplicitParam<PB> b((Obj(v)));
            st.push_back(f);
            level(nest + 1);
          } else {
            ImplicitParam<PC> b("b" + std::to_string(v));
            st.push_back(f);
            level(nest + 1);
          }
        } catch (Unwind &u) {
          st.resize(depth);
          log += " }!";
          if (--u.levels > 0) throw;
          readAll();
          continue;
        }
        st.resize(depth);
        log += " }";
        readAll();
      } else if (op == 10) {
        log += " [";
        size_t depth = st.size();
        try {
          ImplicitScope s;
          st.push_back(Frame{0});
          level(nest + 1);
        } catch (Unwind &u) {
          st.resize(depth);
          log += " ]!";
          if (--u.levels > 0) throw;
          readAll();
          continue;
        }
        st.resize(depth);
        log += " ]";
        readAll();
      } else if (op == 11) { // a default that throws leaves everything as it was
        log += " !B";
        bool visible = false;
        for (size_t i = st.size(); i-- > 0;) {
          if (st[i].kind == 2) { visible = true; break; }
          if (st[i].kind == 0) { visible = st[i].def[1].has; break; }
        }
        g_defaultThrows = true;
        bool threw = false;
        try {
          (void)ImplicitParam<PB>::value();
        } catch (const Boom &) {
          threw = true;
        }
        g_defaultThrows = false;
        VC_CHECK(threw == !visible, "after" << log << ": default of B " << (threw ? "computed although a binding is visible" : "not computed"));
      } else {
        int k = vc::pick(nest) + 1;
        log += " throw" + std::to_string(k);
        throw Unwind{k};
      }
    }
  }
  // reading must not create defaults that the program did not ask for: only read what exists
  void readAll() {
    for (int p = 0; p < 3; p++) {
      bool visible = false;
      for (size_t i = st.size(); i-- > 0;) {
        if (st[i].kind == 1 + p) { visible = true; break; }
        if (st[i].kind == 0) { visible = st[i].def[p].has; break; }
      }
      if (visible) read(p);
    }
  }
};
void program(int budget) {
  int c = vc::pick(24);
  int outer = c % 2; // inside an outer scope or at the bottom
  Run r;
  r.first = c / 2;
  r.budget = budget;
  // the bottom level lives for the whole process: bring it to a known state
  r.st.push_back(Frame{0});
  ImplicitParam<PA>::value() = 1000;
  ImplicitParam<PB>::value() = Obj(1001);
  ImplicitParam<PC>::value() = "d1000";
  for (int p = 0; p < 3; p++) r.st[0].def[p] = Cell{true, p == 2 ? 1000 : 1000 + p};
  int live = g_liveB;
  if (outer) {
    ImplicitScope s;
    r.st.push_back(Frame{0});
    r.level(0);
    r.readAll();
  } else {
    r.level(0);
  }
  r.st.resize(1);
  r.readAll();
  VC_CHECK(g_liveB == live, "after" << r.log << ": " << g_liveB - live << " bound values are left over");
  vc::state(r.log);
  vc::matched();
  vc::sample(r.log);
}

// Parameters that were never used before, at the bottom level: every program of two steps, each on its
// own parameter type.
template <int K>
struct Fresh {
  using ValueType = int;
  static int defaultValue() { return 5; }
};
template <int K>
std::string freshRun(bool inScope) {
  using P = ImplicitParam<Fresh<K>>;
  std::string log;
  int k = K % 64, cur = 5;
  auto body = [&] {
    for (int i = 0; i < 2; i++, k /= 8) {
      log += " " + std::to_string(k % 8);
      switch (k % 8) {
      case 0: if (P::value() != cur) return; break;
      case 1: P::value() = cur = 40 + i; break;
      case 2: { P b(50 + i); if (P::value() != 50 + i) { log += "(binding not seen)"; return; } } if (P::value() != cur) return; break;
      case 3: { P b(60 + i); P::value() = 70; if (P::value() != 70) { log += "(assignment lost)"; return; } } break;
      case 4: { ImplicitScope s; P::value() = 80; } break;
      case 5: { ImplicitScope s; P b(90); ImplicitScope s2; if (P::value() != 5) { log += "(scope does not hide)"; return; } } break;
      case 6: { P b(60 + i); } break;
      case 7: { ImplicitScope s; } break;
      }
    }
  };
  if (inScope) {
    ImplicitScope s;
    body();
    if (P::value() != cur) return log + ": value " + std::to_string(P::value()) + " expected " + std::to_string(cur);
  } else {
    body();
    if (P::value() != cur) return log + ": value " + std::to_string(P::value()) + " expected " + std::to_string(cur);
  }
  if (log.back() == ')') return log;
  if (inScope) { // nothing may be left behind by the scope
    if (P::value() != 5) return log + ": scope left a binding behind";
  }
  return "";
}
using FreshFn = std::string (*)(bool);
template <int... I>
std::vector<FreshFn> freshTable(std::integer_sequence<int, I...>) {
  return {&freshRun<I>...};
}

// ---------------------------------------------------------------- nested properties and generators
struct PModel {
  std::vector<std::string> log, tags, picks;
  bool fail = false;
};
std::vector<std::string> tokens(const std::string &s) {
  std::vector<std::string> out;
  size_t p = 0;
  while ((p = s.find("<<", p)) != std::string::npos) {
    auto e = s.find(">>", p);
    if (e == std::string::npos) break;
    out.push_back(s.substr(p + 2, e - p - 2));
    p = e + 2;
  }
  return out;
}
struct Thrown {};
struct Nest {
  int serial = 0;
  std::string prog;
  std::vector<int> limit; // actions per level
  // inProperty: logs and tags belong to `m`; otherwise they are not observable there
  void actions(int lvl, PModel &m, bool inProperty) {
    for (int n = 0; n < limit[lvl]; n++) {
      bool deeper = lvl + 1 < (int)limit.size();
      int a = vc::pick(lvl == 0 && n == 0 ? 9 : 9);
      if (a == 8) return;
      if (a >= 4 && !deeper) a = a % 4;
      std::string tok = "k" + std::to_string(serial++);
      switch (a) {
      case 0:
        prog += " log";
        if (inProperty) {
          RC_LOG("<<" + tok + ">>");
          m.log.push_back(tok);
        }
        break;
      case 1:
        prog += " tag";
        if (inProperty) {
          RC_TAG(tok);
          m.tags.push_back(rc::toString(tok));
        }
        break;
      case 2: {
        prog += " pick";
        auto v = *gen::just(tok).as("n" + tok);
        m.picks.push_back(tok);
        VC_SOFT(v == tok, "picked " << v << " instead of " << tok << " in" << prog);
        break;
      }
      case 3:
        prog += " fail";
        if (inProperty) {
          ImplicitParam<param::CurrentPropertyContext>::value()->reportResult(CaseResult(CaseResult::Type::Failure, "<<" + tok + ">>"));
          m.fail = true;
        }
        break;
      case 4: { // nested property evaluated directly inside the body
        prog += " property(";
        nestedProperty(lvl + 1);
        prog += " )";
        break;
      }
      case 5: { // executed generator
        prog += " exec(";
        auto inner = std::make_shared<PModel>();
        auto ran = std::make_shared<bool>(false);
        auto v = *gen::exec([this, inner, ran, lvl] {
          if (!*ran) {
            *ran = true;
            actions(lvl + 1, *inner, false);
          }
          return 7;
        });
        m.picks.push_back("7");
        VC_SOFT(v == 7 && *ran, "executed generator gives " << v);
        prog += " )";
        break;
      }
      case 6: { // generator code that runs a property
        prog += " gen(";
        auto ran = std::make_shared<bool>(false);
        auto v = *gen::map(gen::just(8), [this, ran, lvl](int x) {
          if (!*ran) {
            *ran = true;
            nestedProperty(lvl + 1);
          }
          return x;
        });
        m.picks.push_back("8");
        VC_SOFT(v == 8, "mapped generator gives " << v);
        prog += " )";
        break;
      }
      case 7: { // leaving nested generation by an exception
        prog += " throwing(";
        auto inner = std::make_shared<PModel>();
        auto ran = std::make_shared<bool>(false);
        bool caught = false;
        try {
          (void)*gen::exec([this, inner, ran, lvl]() -> int {
            if (!*ran) {
              *ran = true;
              actions(lvl + 1, *inner, false);
            }
            throw Thrown();
          });
        } catch (const Thrown &) {
          caught = true;
        }
        VC_SOFT(caught, "exception lost");
        m.picks.push_back("!");
        prog += " )";
        break;
      }
      }
    }
  }
  void nestedProperty(int lvl) {
    auto pm = std::make_shared<PModel>();
    PModel &m = *pm;
    auto ran = std::make_shared<bool>(false);
    auto prop = toProperty([this, ran, pm, lvl] {
      if (!*ran) {
        *ran = true;
        actions(lvl, *pm, true);
      }
    });
    auto d = prop(Random(uint64_t(3)), 5).value();
    compare(d, m);
  }
  void compare(const CaseDescription &d, const PModel &m) {
    VC_SOFT(d.tags == m.tags, "tags of a property were lost or mixed up in" << prog);
    VC_SOFT((d.result.type == CaseResult::Type::Failure) == m.fail, "outcome of a property mixed up in" << prog << ": " << d.result.description);
    auto desc = d.result.description;
    auto lp = desc.rfind("Log:\n");
    auto got = lp == std::string::npos ? std::vector<std::string>() : tokens(desc.substr(lp));
    VC_SOFT(got == m.log, "log of a property was lost or mixed up in" << prog << ": " << desc);
    auto ex = d.example();
    VC_SOFT(ex.size() == m.picks.size(), "example lists " << ex.size() << " picks, made " << m.picks.size() << " in" << prog);
    for (size_t i = 0; i < std::min(ex.size(), m.picks.size()); i++)
      if (m.picks[i][0] == 'k') VC_SOFT(ex[i].first == "n" + m.picks[i] && ex[i].second == rc::toString(m.picks[i]), "example of a property mixed up in" << prog);
  }
};
void nested(std::vector<int> limit) {
  vcr::reset(vcr::Script());
  Nest n;
  n.limit = limit;
  ImplicitParam<PA>::value() = 1000;
  {
    ImplicitParam<PA> outer(321);
    n.nestedProperty(0);
    VC_CHECK(ImplicitParam<PA>::value() == 321, "binding around a property lost in" << n.prog);
  }
  // outside of any property the framework defaults are visible again
  bool threw = false;
  try {
    (void)*gen::just(1);
  } catch (const std::exception &) {
    threw = true;
  }
  VC_CHECK(threw, "picking outside of a property is accepted after" << n.prog);
  vc::state(n.prog);
  vc::step(n.serial);
  vc::matched();
  vc::sample(n.prog);
}
} // namespace

VC_SUITE(programs, 8) { program(vc::thorough() ? 6 : 5); }
VC_SUITE(fresh, 1) {
  static const auto table = freshTable(std::make_integer_sequence<int, 128>());
  int k = vc::pick((int)table.size());
  auto e = table[k](k >= 64);
  VC_CHECK(e.empty(), "unused parameter, steps" << e);
  vc::matched();
}
VC_SUITE(nestedWide, 8) { nested(vc::thorough() ? std::vector<int>{3, 2} : std::vector<int>{2, 2}); }
VC_SUITE(nestedDeep, 8) { nested(vc::thorough() ? std::vector<int>{2, 2, 1} : std::vector<int>{1, 2, 1}); }

// Very deep nesting, many bindings in one scope and many defaults in one scope.
namespace {
struct Thing {
  std::unique_ptr<ImplicitScope> scope;
  std::unique_ptr<ImplicitParam<PA>> a;
  std::unique_ptr<ImplicitParam<PB>> b;
  int visibleA, visibleB; // before it was established
};
} // namespace
VC_SUITE(deep, 8) {
  static const int N[] = {1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4096, 32768, 65535, 65536, 65537, 70000};
  int n = N[vc::pick(29)], what = vc::pick(6), touch = vc::pick(3);
  std::string log = std::to_string(n) + " levels of kind " + std::to_string(what) + (touch == 0 ? "" : touch == 1 ? ", the defaults changed" : ", every third one looked at");
  g_defaultThrows = false;
  {
    ImplicitScope all;
    ImplicitParam<PA> outerA(-1);
    ImplicitParam<PB> outerB(Obj(-2));
    std::vector<Thing> st;
    int va = -1, vb = -2;
    auto look = [&](const char *when, int i) {
      int a = ImplicitParam<PA>::value(), b = *ImplicitParam<PB>::value().p;
      VC_CHECK(a == va && b == vb, log << ", " << when << " " << i << ": sees " << a << ", " << b << " instead of " << va << ", " << vb);
    };
    look("at the start", 0);
    for (int i = 0; i < n; i++) {
      Thing t;
      t.visibleA = va;
      t.visibleB = vb;
      int kind = what == 0 ? 0 : what == 1 ? 1 : what == 2 ? 2 : what == 3 ? i % 3 : what == 4 ? (i * 7 / 3) % 3 : (i % 50 ? 1 + i % 2 : 0);
      if (kind == 0) t.scope.reset(new ImplicitScope), va = 1000, vb = 1001;
      if (kind == 1) t.a.reset(new ImplicitParam<PA>(va = 10 + i));
      if (kind == 2) t.b.reset(new ImplicitParam<PB>(Obj(vb = 20 + i)));
      st.push_back(std::move(t));
      if (touch == 1 && kind == 0) ImplicitParam<PA>::value() = va = 2000 + i, *ImplicitParam<PB>::value().p = vb = 3000 + i;
      if (touch != 2 || i % 3 == 0) look("established", i);
    }
    look("innermost", n);
    for (int i = n; i-- > 0;) {
      va = st.back().visibleA;
      vb = st.back().visibleB;
      st.pop_back();
      if (touch != 2 || i % 3 == 0) look("left", i);
    }
    look("at the end", 0);
  }
  VC_CHECK(g_liveB <= 1, log << ": " << g_liveB << " values leaked");
  vc::matched();
  vc::step(n);
  vc::state(log);
}
