// C27: Boost types: an optional is a Maybe in other clothes.
#include "script.h"
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/boost.h"

using namespace rc;

namespace {
std::string text(const Maybe<int> &m) { return m ? std::to_string(*m) : "-"; }
std::string text(const ::boost::optional<int> &m) { return m ? std::to_string(*m) : "-"; }
std::string text(const Maybe<std::string> &m) { return m ? "s" + *m : "-"; }
std::string text(const ::boost::optional<std::string> &m) { return m ? "s" + *m : "-"; }
template <typename T>
std::string tree(const Shrinkable<T> &s, int width, int depth) {
  std::string r;
  try {
    r = text(s.value());
  } catch (...) {
    r = "throws";
  }
  if (!depth) return r;
  auto q = s.shrinks();
  for (int i = 0; i < width; i++) {
    auto n = q.next();
    if (!n) break;
    r += "{" + tree(*n, width, depth - 1) + "}";
  }
  return r;
}
template <typename T>
void compare(Gen<T> g, int size) {
  auto a = tree(gen::maybe(g)(Random(), size), 6, 3);
  auto log = vcr::log();
  auto b = tree(gen::boost::optional(g)(Random(), size), 6, 3);
  VC_CHECK(a == b, "optional " << b << ", maybe " << a);
  vc::step(2);
  vc::matched();
  vc::state(vc::hashStr(a));
}
} // namespace
VC_SUITE(optional, 6) {
  int which = vc::pick(6);
  vcr::Script sc;
  sc.alphabet = {0, 1, 5, ~0ULL, 0x8000000000000000ULL};
  sc.maxPoints = vc::thorough() ? 5 : 3;
  vcr::reset(sc);
  int size = vc::pick(6);
  switch (which) {
  case 0: return compare(gen::inRange(0, 5), size);
  case 1: return compare(gen::just(3), size);
  case 2: return compare(gen::arbitrary<int>(), size);
  case 3: return compare(gen::container<std::string>(gen::inRange('a', 'd')), size);
  case 4: {
    auto a = tree(gen::arbitrary<Maybe<int>>()(Random(), size), 6, 2);
    auto b = tree(gen::arbitrary<::boost::optional<int>>()(Random(), size), 6, 2);
    VC_CHECK(a == b, "arbitrary optional " << b << ", maybe " << a);
    vc::step(2);
    vc::matched();
    vc::state(vc::hashStr(a));
    return;
  }
  case 5: { // shown like the value in it, in any place
    auto s = gen::boost::optional(gen::inRange(0, 5))(Random(), size).value();
    std::string want = s ? std::to_string(*s) : "boost::none";
    VC_CHECK(toString(s) == want, "shown as " << toString(s));
    std::vector<::boost::optional<int>> v{s, s};
    VC_CHECK(toString(v) == "[" + want + ", " + want + "]", "shown as " << toString(v));
    vc::step(2);
    vc::matched();
    vc::state(vc::hashStr(want));
  }
  }
}
