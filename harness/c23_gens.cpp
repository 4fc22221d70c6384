// C23: every generator of the catalogue used by several threads at once.
#include "mt.h"
#include "catalogue.h"

using namespace rc;

namespace {
template <typename T>
std::string look(const Shrinkable<T> &s, int width, int depth) {
  std::string r;
  try {
    r = cat::K(s.value());
  } catch (...) {
    r = "throws";
  }
  if (!depth) return r;
  auto q = s.shrinks();
  for (int i = 0; i < width; i++) {
    auto n = q.next();
    if (!n) break;
    r += "{" + look(*n, width, depth - 1) + "}";
  }
  return r;
}

struct Check {
  template <typename T>
  static void run(const cat::Info<T> &i) {
    int config = vc::pick(2);
    int size = vc::thorough() ? 1 + 2 * vc::pick(3) : 2;
    int seed = vc::pick(vc::thorough() ? 6 : 2);
    mt::session([&] {
      const int n = 2;
      std::string got[n];
      std::vector<std::function<void()>> fs;
      auto *gen = new Gen<T>(i.make());
      Shrinkable<T> *shared = config ? new Shrinkable<T>((*gen)(Random(seed), size)) : nullptr;
      for (int t = 0; t < n; t++) {
        if (config == 0) {
          auto *own = new Gen<T>(*gen);
          fs.push_back([=, &got] {
            Random r(seed);
            got[t] = look((*own)(r, size), 2, 1);
            delete own;
          });
        } else {
          auto *own = new Shrinkable<T>(*shared);
          fs.push_back([=, &got] {
            got[t] = look(*own, 2, 1);
            delete own;
          });
        }
      }
      mt::parallel(fs);
      std::string want = look(config ? *shared : (*gen)(Random(seed), size), 2, 1);
      for (int t = 0; t < n; t++)
        if (got[t] != want) mt::fail("thread " + std::to_string(t + 1) + " saw " + got[t] + ", alone one sees " + want);
      delete shared;
      delete gen;
      mt::outcome(want);
    });
    vc::matched();
  }
};
} // namespace

VC_SUITE(together, 8, o.maxDev = 1) {
  // the first choice selects the shard, the entries are spread over the shards
  int part = vc::pick(8);
  const auto &c = cat::catalogue<Check>();
  std::vector<size_t> mine;
  for (size_t i = part; i < c.size(); i += 8) mine.push_back(i);
  if (mine.empty()) return;
  const auto &e = c[mine[vc::pick((int)mine.size())]];
  vc::note(e.name);
  if (e.name.find("exec") != std::string::npos) return; // runs in the context of the calling test, see DESIGN.md
  e.body();
}
