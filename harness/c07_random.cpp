// C07: the splittable random engine, explored over split/draw/copy/serialize histories.
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/Serialization.h"
#include <algorithm>
#include <map>
#include <memory>
#include <unordered_map>
#include <unordered_set>

using namespace rc;

namespace {
using Bytes = std::vector<uint8_t>;
Bytes ser(const Random &r) {
  Bytes b;
  serialize(r, std::back_inserter(b));
  return b;
}
void deser(const Bytes &b, Random &out) {
  auto it = deserialize(b.begin(), b.end(), out);
  if (it != b.end()) vc::fail("reading a serialized state back consumed " + std::to_string(it - b.begin()) + " of " + std::to_string(b.size()) + " bytes");
}

// A position in the tree of splits and draws.
struct Pos {
  std::string path;
  int draws = 0;
  std::string key() const { return path + "#" + std::to_string(draws); }
};

// Position -> number, both ways.  A state is either split or drawn from, never both (Random.h), so nothing is
// required about the numbers of a state and those of the states split from it.
struct Book {
  std::unordered_map<std::string, uint64_t> of;
  std::unordered_map<uint64_t, std::vector<Pos>> by;
  static bool related(const std::string &a, const std::string &b) {
    return a.size() != b.size() && a.compare(0, std::min(a.size(), b.size()), b, 0, std::min(a.size(), b.size())) == 0;
  }
  void record(const Pos &pos, uint64_t n) {
    auto r = of.emplace(pos.key(), n);
    if (!r.second) {
      if (r.first->second != n)
        vc::fail("position " + pos.key() + " gave number " + std::to_string(n) + " but before " + std::to_string(r.first->second));
      vc::matched();
      return;
    }
    auto &q = by[n];
    for (const auto &p : q)
      if (!related(p.path, pos.path)) vc::fail("positions " + pos.key() + " and " + p.key() + " give the same number " + std::to_string(n));
    q.push_back(pos);
  }
};

const uint64_t kSeeds[] = {0, 1, 2, 42, 0x8000000000000000ULL, ~0ULL, 0x0123456789ABCDEFULL, 0xFFFFFFFF00000000ULL};
} // namespace

// Histories of operations on two engine objects.
VC_SUITE(pool, 256, {}) {
  // ops 0..1 next i; 2..3 split i, right half to the other; 4..5 split i, keep right half in i, left to other;
  // 6..7 copy-construct other from i; 8 copy-assign 0->1; 9 copy-assign 1->0; 10..13 roundtrip i->j; 14..15 split i, keep the left half only
  struct Obj { Random r; Pos p; };
  static const int kOps = 16;
  int depth = vc::thorough() ? 6 : 5;
  Obj o[2] = {{Random(uint64_t(7)), {"s7:", 0}}, {Random(uint64_t(7)), {"s7:", 0}}};
  Book book;
  std::string log;
  int first = vc::pick(256, "first two ops");
  for (int d = 0; d < depth; d++) {
    int op = d == 0 ? first / 16 : d == 1 ? first % 16 : vc::pick(kOps, "op");
    int i = op & 1, j = 1 - i;
    log += " " + std::to_string(op);
    switch (op) {
    case 0: case 1:
      book.record(o[i].p, o[i].r.next());
      o[i].p.draws++;
      break;
    case 2: case 3: {
      if (o[i].p.draws) return;
      Random right = o[i].r.split();
      o[j].r = right;
      o[j].p = {o[i].p.path + "R", 0};
      o[i].p.path += "L";
      break;
    }
    case 4: case 5: {
      if (o[i].p.draws) return;
      Random left(o[i].r);
      Random right = left.split();
      o[i].r = std::move(right);
      o[j].r = std::move(left);
      o[j].p = {o[i].p.path + "L", 0};
      o[i].p.path += "R";
      break;
    }
    case 6: case 7: {
      Random c(o[i].r);
      o[j].r.next();           // disturb the target first: the copy must not be affected
      o[j].r = c;
      c.next();
      o[j].p = o[i].p;
      break;
    }
    case 8: case 9: o[j].r = o[i].r; o[j].p = o[i].p; break;
    case 10: case 11: deser(ser(o[i].r), o[j].r); o[j].p = o[i].p; break;
    case 12: case 13: {
      Random fresh;
      deser(ser(o[i].r), fresh);
      Random other(uint64_t(99));
      other.next();
      deser(ser(o[i].r), other);
      VC_CHECK(fresh == o[i].r && other == o[i].r, "after" << log << ": state read back differs from the serialized one");
      o[i].r = other;
      break;
    }
    case 14: case 15:
      if (o[i].p.draws) return;
      o[i].r.split();
      o[i].p.path += "L";
      break;
    }
    vc::step();
    bool same = o[0].p.key() == o[1].p.key();
    VC_CHECK((o[0].r == o[1].r) == same && (o[0].r != o[1].r) == !same,
             "after" << log << ": positions " << o[0].p.key() << " and " << o[1].p.key() << " compare " << (o[0].r == o[1].r ? "equal" : "different"));
    bool lt = o[0].r < o[1].r, gt = o[1].r < o[0].r;
    VC_CHECK(!(lt && gt) && (lt || gt) == !same, "after" << log << ": ordering of " << o[0].p.key() << " and " << o[1].p.key() << " is inconsistent");
    if (same) VC_CHECK(std::hash<Random>()(o[0].r) == std::hash<Random>()(o[1].r), "equal states hash differently");
    VC_CHECK((ser(o[0].r) == ser(o[1].r)) == same, "after" << log << ": encodings of " << o[0].p.key() << " and " << o[1].p.key() << " wrongly (un)equal");
  }
  // Each object continues exactly like an engine driven to that position directly.
  for (int i = 0; i < 2; i++) {
    Random ref(uint64_t(7));
    for (char c : o[i].p.path.substr(3)) {
      Random right = ref.split();
      if (c == 'R') ref = right;
    }
    Book b2;
    for (int k = 0; k < o[i].p.draws; k++) b2.record({"", k}, ref.next());
    VC_CHECK(ref == o[i].r, "after" << log << ": object " << i << " is not at position " << o[i].p.key());
    for (int k = 0; k < 6; k++) {
      uint64_t n = o[i].r.next();
      VC_CHECK(n == ref.next(), "after" << log << ": object " << i << " at " << o[i].p.key() << " continues differently");
      b2.record({"", 100 + k}, n);
      book.record(o[i].p, n);
      o[i].p.draws++;
    }
  }
  vc::state(log);
  vc::matched();
  vc::sample("ops" + log);
}

namespace {
uint64_t g_pairs, g_dist;
int g_minDist;
void leafDraws(Random r, const std::string &path, int n, Book &book) {
  uint64_t prev = 0;
  for (int i = 0; i < n; i++) {
    uint64_t x = r.next();
    book.record({path, i}, x);
    if (i) {
      int d = __builtin_popcountll(prev ^ x);
      g_pairs++;
      g_dist += d;
      g_minDist = std::min(g_minDist, d);
    }
    prev = x;
  }
  vc::step(n);
}
// Every node of the split tree; copies are drawn from.
void walk(Random r, const std::string &path, int depth, int draws, Book &book, std::map<Bytes, std::string> &encs) {
  leafDraws(r, path, draws, book);
  auto e = encs.emplace(ser(r), path);
  if (e.first->second != path) vc::fail("positions " + path + " and " + e.first->second + " have the same state");
  if (!depth) return;
  Random left(r), again(r);
  Random right = left.split();
  Random right2 = again.split();
  if (!(left == again) || !(right == right2)) vc::fail("splitting equal states twice gave different states at " + path);
  if (left == right || left == r || right == r) vc::fail("a split of " + path + " gave a state equal to another of the three");
  walk(left, path + "L", depth - 1, draws, book, encs);
  walk(right, path + "R", depth - 1, draws, book, encs);
}
std::string pattern(int kind, int len) {
  std::string s;
  for (int i = 0; i < len; i++) s += kind == 0 ? 'L' : kind == 1 ? 'R' : kind == 2 ? (i % 2 ? 'L' : 'R') : ((i * i + i / 3) % 3 ? 'R' : 'L');
  return s;
}
Random follow(Random r, const std::string &path) {
  for (char c : path) {
    Random right = r.split();
    if (c == 'R') r = right;
  }
  return r;
}
} // namespace

// Complete split trees below a set of prefixes (around the internal 64-split boundary), all seeds in one book:
// every position of every seed has its own number.
VC_SUITE(tree, 4, {}) {
  int kind = vc::pick(4, "prefix pattern");
  int depth = vc::thorough() ? 10 : 6;
  Book book;
  std::map<Bytes, std::string> encs;
  g_pairs = g_dist = 0;
  g_minDist = 64;
  for (uint64_t seed : kSeeds)
    for (int len : {0, 57, 60, 63, 64, 121, 127, 128, 190}) {
      std::string p = pattern(kind, len);
      walk(follow(Random(seed), p), std::to_string(seed) + ":" + p, depth, 5, book, encs);
    }
  VC_CHECK(g_minDist >= 6 && g_dist > 28 * g_pairs && g_dist < 36 * g_pairs,
           "consecutive numbers are related: mean bit distance " << double(g_dist) / g_pairs << ", minimum " << g_minDist);
  vc::state(std::to_string(kind));
  vc::sample("pattern " + std::to_string(kind) + ": " + std::to_string(book.of.size()) + " positions");
  vc::outcome("all numbers different");
}

// Long split chains with at most two turns: all positions distinct, including before/after each 64 splits.
VC_SUITE(chains, 2, {}) {
  bool main = vc::pick(2, "main direction");
  char m = main ? 'R' : 'L', t = main ? 'L' : 'R';
  int n = vc::thorough() ? 330 : 140;
  Book book;
  std::map<Bytes, std::string> encs;
  auto leaf = [&](const Random &r, const std::string &name) {
    Bytes e = ser(r);
    auto ins = encs.emplace(e, name);
    if (ins.first->second != name) vc::fail("positions " + name + " and " + ins.first->second + " have the same state");
    leafDraws(r, name, 2, book);
    Random back(uint64_t(3));
    deser(e, back);
    if (!(back == r)) vc::fail("state at " + name + " changed by serialization");
    Random a(r), b(back);
    Random ar = a.split(), br = b.split();
    if (!(a == b) || !(ar == br)) vc::fail("state at " + name + " splits differently after serialization");
  };
  auto advance = [&](Random &r, std::string &name, char c) {
    Random right = r.split();
    if (c == 'R') r = right;
    name += c;
  };
  Random r0(uint64_t(5));
  std::string n0;
  for (int i = 0; i <= n; i++) {
    leaf(r0, n0);
    Random r1(r0);
    std::string n1 = n0;
    advance(r1, n1, t);
    for (int j = i + 1; j <= n; j++) {
      leaf(r1, n1);
      if (j % 8 == 0 || j % 64 >= 62 || j % 64 <= 2) {
        Random r2(r1);
        std::string n2 = n1;
        advance(r2, n2, t);
        leaf(r2, n2);
      }
      advance(r1, n1, m);
    }
    advance(r0, n0, m);
  }
  vc::state(std::to_string(main));
  vc::outcome("all numbers different");
  vc::sample(std::string("chains of ") + m + " with up to two turns, " + std::to_string(book.of.size()) + " positions");
}

// Serialize and read back at every draw count, into fresh and used targets, then continue.
VC_SUITE(roundtrip, 64, {}) {
  int s = vc::pick(64, "seed x prefix");
  uint64_t seed = kSeeds[s % 8];
  static const int lens[] = {0, 1, 2, 31, 63, 64, 65, 129};
  std::string p = pattern(s / 8 % 4, lens[s / 8]);
  int at = vc::pick(vc::thorough() ? 300 : 40, "draws before");
  int target = vc::pick(4, "target");
  int other = vc::pick(3, "draws in target");
  Random r = follow(Random(seed), p);
  for (int i = 0; i < at; i++) r.next();
  Bytes e = ser(r);
  Random keep(r);
  Random t = target == 0 ? Random() : target == 1 ? follow(Random(uint64_t(77)), "RRL") : target == 2 ? Random(r) : follow(Random(seed), p);
  for (int i = 0; i < other * 3; i++) t.next();
  deser(e, t);
  VC_CHECK(t == r, "state after " << at << " draws differs when read back into a" << (target ? " used" : " default") << " engine with " << other * 3 << " draws");
  VC_CHECK(ser(t) == e, "encoding of the state read back differs");
  // garbage after the encoding is not consumed
  Bytes g = e;
  g.insert(g.end(), {0xFF, 0x80, 0x00});
  Random t2;
  auto it = deserialize(g.begin(), g.end(), t2);
  VC_CHECK(it - g.begin() == (long)e.size() && t2 == r, "reading back consumed a different number of bytes when data follows");
  if (!at) {
    Random a(r), b(t);
    Random ar = a.split(), br = b.split();
    VC_CHECK(a == b && ar == br, "splits differ after reading back");
    for (int i = 0; i < 9; i++) {
      VC_CHECK(a.next() == b.next(), "left split continues differently");
      VC_CHECK(ar.next() == br.next(), "right split continues differently");
    }
  }
  for (int i = 0; i < 12; i++) {
    uint64_t x = r.next();
    VC_CHECK(t.next() == x, "number " << i << " after reading back at " << at << " draws differs");
    VC_CHECK(t2.next() == x, "number " << i << " after reading back (with data following) at " << at << " draws differs");
  }
  VC_CHECK(r == t, "states differ after continuing");
  VC_CHECK(ser(keep) == e, "drawing from a copy changed the original");
  vc::step(24);
  vc::matched();
  vc::state(std::to_string(s) + "/" + std::to_string(at));
  vc::outcome("roundtrip ok");
}

// Draw counters near representation boundaries, entered through the documented encoding of a state
// (key, bits, counter, bit count).  Only used while that encoding is what the engine itself writes.
namespace {
void compact(uint64_t v, Bytes &b) {
  do {
    uint8_t x = v & 0x7F;
    v >>= 7;
    b.push_back(v ? x | 0x80 : x);
  } while (v);
}
// Encoding of `base` (an undrawn state) moved to another counter.
bool craft(const Random &base, uint64_t counter, Bytes &out) {
  Bytes e = ser(base);
  if (e.size() < 35 || e[e.size() - 2] != 0) return false;
  uint8_t bitsi = e.back();
  out.assign(e.begin(), e.end() - 2);
  compact(counter, out);
  out.push_back(bitsi);
  return true;
}
} // namespace
VC_SUITE(counters, 10, {}) {
  int where = vc::pick(10, "boundary");
  static const uint64_t bounds[] = {128, 256, 16384, 1ULL << 21, 1ULL << 31, 1ULL << 32, 1ULL << 48, 1ULL << 56, 1ULL << 63, 0 /* 2^64 */};
  int path = vc::pick(6, "path");
  static const int lens[] = {0, 1, 63, 64, 65, 128};
  int off = vc::pick(19, "offset");
  Random base = follow(Random(uint64_t(11)), pattern(path % 4, lens[path]));
  // is the encoding the expected one?
  {
    Random d(base);
    for (int i = 0; i < 130; i++) {
      Bytes c;
      if (!craft(base, i, c) || c != ser(d)) {
        vc::outcome("encoding not the expected one: not entered");
        return;
      }
      d.next();
    }
  }
  uint64_t c0 = bounds[where] - 9 + off;
  if (where == 9 && off > 8) return;   // beyond the last counter
  Bytes e;
  craft(base, c0, e);
  Random r;
  deser(e, r);
  VC_CHECK(ser(r) == e, "state at counter " << c0 << " changes its encoding when read");
  Book book;
  // numbers of the first positions and of the splits' first positions must not come back
  {
    Random d(base);
    for (int i = 0; i < 12; i++) book.record({"B", i}, d.next());
    Random l(base);
    l.split();
    for (int i = 0; i < 12; i++) book.record({"BL", i}, l.next());
  }
  Random s(r);
  uint64_t c = c0;
  for (int i = 0; i < 24; i++) {
    uint64_t x = s.next();
    c++;
    book.record({"B", 1000 + i}, x);
    Random t(uint64_t(1));
    t.next();
    deser(ser(s), t);
    if (c > c0) {   // not wrapped: the same position entered directly
      Bytes e2;
      craft(base, c, e2);
      VC_CHECK(ser(s) == e2, "after " << i + 1 << " draws from counter " << c0 << " the state is not at the following counter");
      Random u;
      deser(e2, u);
      VC_CHECK(u == s, "state entered at counter " << c << " differs from the one reached by drawing");
    }
    Random a(s);
    for (int k = 0; k < 9; k++) {
      uint64_t want = a.next();
      VC_CHECK(t.next() == want, "number " << k << " after reading back at counter " << c0 << "+" << i + 1 << " differs");
    }
    vc::step(10);
  }
  vc::matched();
  vc::state(std::to_string(where) + "/" + std::to_string(path) + "/" + std::to_string(off));
  vc::sample("counter " + std::to_string(c0));
  vc::outcome("counter boundary ok");
}

// Different seeds and keys give different streams: all single-bit neighbours, small seeds, permuted keys.
VC_SUITE(keys, 3, {}) {
  int family = vc::pick(3, "family");
  std::vector<std::pair<std::string, Random>> all;
  if (family == 0) {
    for (uint64_t s = 0; s < (vc::thorough() ? 65536u : 8192u); s++) all.push_back({"seed" + std::to_string(s), Random(s)});
    for (int b = 14; b < 64; b++) {
      all.push_back({"seedbit" + std::to_string(b), Random(1ULL << b | 1ULL << 63 | 0x5000)});
      if (b != 63) all.push_back({"seedbitonly" + std::to_string(b), Random((1ULL << b) | 0x10000000)});
    }
    std::map<std::string, int> seen;
    std::vector<std::pair<std::string, Random>> uniq;
    for (auto &p : all) {
      Bytes e = ser(p.second);
      if (!seen[std::string(e.begin(), e.end())]++) uniq.push_back(p);
    }
    VC_CHECK(uniq.size() + 2 >= all.size(), "different seeds give equal states");
    all = uniq;
  } else {
    for (int base = 0; base < 3; base++)
      for (int b = 0; b <= 256; b++) {
        Random::Key k = base == 0 ? Random::Key{{0, 0, 0, 0}} : base == 1 ? Random::Key{{1, 2, 4, 8}} : Random::Key{{~0ULL, 7, ~0ULL - 5, 1ULL << 63}};
        if (family == 2) std::swap(k[0], k[2]), std::swap(k[1], k[3]);
        if (family == 2 && base == 0) k = Random::Key{{3, 3, 3, 3}};
        if (b < 256) k[b / 64] ^= 1ULL << (b % 64);
        all.push_back({"key" + std::to_string(base) + "^" + std::to_string(b), Random(k)});
      }
    std::sort(all.begin(), all.end(), [](const std::pair<std::string, Random> &a, const std::pair<std::string, Random> &b) { return ser(a.second) < ser(b.second); });
    all.erase(std::unique(all.begin(), all.end(), [](const std::pair<std::string, Random> &a, const std::pair<std::string, Random> &b) { return ser(a.second) == ser(b.second); }), all.end());
    VC_CHECK(all.size() >= 760, "different keys give equal states: only " << all.size());
  }
  Book book;
  g_pairs = g_dist = 0;
  g_minDist = 64;
  std::vector<uint64_t> firsts;
  for (auto &p : all) {
    leafDraws(p.second, p.first + ":", 6, book);
    Random l(p.second), r = l.split();
    leafDraws(l, p.first + ":L", 3, book);
    leafDraws(r, p.first + ":R", 3, book);
    firsts.push_back(Random(p.second).next());
  }
  // neighbours' first numbers are unrelated too
  uint64_t dist = 0;
  for (size_t i = 1; i < firsts.size(); i++) dist += __builtin_popcountll(firsts[i] ^ firsts[i - 1]);
  double mean = double(dist) / (firsts.size() - 1);
  VC_CHECK(mean > 30 && mean < 34, "first numbers of neighbouring seeds or keys are related: mean bit distance " << mean);
  VC_CHECK(g_minDist >= 6 && g_dist > 30 * g_pairs && g_dist < 34 * g_pairs, "consecutive numbers are related: mean bit distance " << double(g_dist) / g_pairs);
  vc::state(std::to_string(family));
  vc::sample("family " + std::to_string(family) + ": " + std::to_string(all.size()) + " engines, " + std::to_string(book.of.size()) + " different numbers");
  vc::outcome("all streams different");
}

// Bits are balanced over all positions of a complete tree (no output bit is constant or skewed).
VC_SUITE(balance, 8, {}) {
  int s = vc::pick(8, "seed");
  int depth = 11;
  std::vector<Random> level{Random(kSeeds[s])};
  for (int d = 0; d < depth; d++) {
    std::vector<Random> nxt;
    for (auto &r : level) {
      Random l(r), q = l.split();
      nxt.push_back(l);
      nxt.push_back(q);
    }
    level.swap(nxt);
  }
  for (int draw = 0; draw < 8; draw++) {
    int ones[64] = {};
    for (auto &r : level) {
      uint64_t x = r.next();
      for (int b = 0; b < 64; b++) ones[b] += x >> b & 1;
    }
    for (int b = 0; b < 64; b++)   // 2048 positions: mean 1024, sd 22.6; 8 sd
      VC_CHECK(ones[b] > 1024 - 181 && ones[b] < 1024 + 181, "bit " << b << " of draw " << draw << " is set at " << ones[b] << " of 2048 positions");
    vc::step(2048);
  }
  vc::state(std::to_string(s));
  vc::outcome("balanced");
}
