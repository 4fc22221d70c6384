// C28: BitStream against a reference bit queue.
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/BitStream.h"
#include <algorithm>
#include <set>

using namespace rc;
using namespace rc::detail;

namespace {
struct Feed {
  std::vector<uint64_t> words;
  size_t used = 0;
};
template <typename W>
struct Source {
  Feed *f;
  W next() {
    if (f->used >= f->words.size()) {
      vc::failSoft("more random numbers drawn than bits requested");
      return 0;
    }
    return (W)f->words[f->used++];
  }
};
uint64_t scramble(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
Feed makeFeed(int kind, size_t n) {
  Feed f;
  for (size_t i = 0; i < n; i++)
    f.words.push_back(kind == 0 ? scramble(i + 1) : kind == 1 ? ~scramble(i + 1) : kind == 2 ? ~0ULL : (i % 2 ? 0 : 0xAAAAAAAAAAAAAAAAULL));
  return f;
}
// Reference: bit i of the stream.
struct Queue {
  const Feed *f;
  int wordBits;
  size_t pos = 0;
  int bit() {
    size_t w = pos / wordBits, b = pos % wordBits;
    pos++;
    return f->words[w] >> b & 1;
  }
  size_t wordsNeeded() const { return (pos + wordBits - 1) / wordBits; }
};
template <typename T>
int width() { return (int)sizeof(T) * 8; }

// Expected value of a request: the next n bits, low bit first; signed types are sign extended from bit n-1.
template <typename T>
T expect(Queue &q, int n) {
  if (std::is_same<T, bool>::value) return T(q.bit() != 0);
  n = std::min(n, width<T>());
  unsigned __int128 v = 0;
  for (int i = 0; i < n; i++) v |= (unsigned __int128)q.bit() << i;
  if (std::is_signed<T>::value && n > 0 && (v >> (n - 1) & 1)) v |= ~(unsigned __int128)0 << n;
  return (T)v;
}

template <typename T, typename S>
void request(BitStream<S> &s, Queue &q, const Feed &f, int n, const char *name, std::string &log) {
  log += std::string(" ") + name + ":" + std::to_string(n);
  T got = n < 0 ? s.template next<T>() : s.template next<T>(n);
  T want = expect<T>(q, n < 0 ? width<T>() : n);
  VC_CHECK(got == want, "after" << log << ": got " << +got << " expected " << +want);
  VC_CHECK(f.used == q.wordsNeeded(), "after" << log << ": " << f.used << " random numbers drawn for " << q.pos << " bits");
  vc::step();
}
constexpr int kTypes = 12;
template <typename S>
void requestType(int t, BitStream<S> &s, Queue &q, const Feed &f, int n, std::string &log) {
  switch (t) {
  case 0: request<bool>(s, q, f, n, "bool", log); break;
  case 1: request<uint8_t>(s, q, f, n, "u8", log); break;
  case 2: request<int8_t>(s, q, f, n, "i8", log); break;
  case 3: request<uint16_t>(s, q, f, n, "u16", log); break;
  case 4: request<int16_t>(s, q, f, n, "i16", log); break;
  case 5: request<uint32_t>(s, q, f, n, "u32", log); break;
  case 6: request<int32_t>(s, q, f, n, "i32", log); break;
  case 7: request<uint64_t>(s, q, f, n, "u64", log); break;
  case 8: request<int64_t>(s, q, f, n, "i64", log); break;
  case 9: request<char>(s, q, f, n, "char", log); break;
  case 10: request<wchar_t>(s, q, f, n, "wchar", log); break;
  case 11: request<unsigned long long>(s, q, f, n, "ull", log); break;
  }
}
template <typename W>
void sequence(int depth, const std::vector<int> &widths, const std::vector<int> &firstWidths, int kinds) {
  int c = vc::pick((int)firstWidths.size() * kTypes);
  int kind = vc::pick(kinds);
  Feed f = makeFeed(kind, 16);
  if (sizeof(W) < 8)
    for (auto &w : f.words) w &= (W)~W(0);
  BitStream<Source<W>> s(Source<W>{&f});
  Queue q{&f, (int)sizeof(W) * 8};
  std::string log;
  f.words.resize(64 * 8, 0x5a5a5a5a5a5a5a5aULL & (uint64_t)(W)~W(0));
  requestType(c % kTypes, s, q, f, firstWidths[c / kTypes], log);
  for (int i = 1; i < depth; i++) {
    int t = vc::pick(kTypes);
    int w = vc::pick((int)widths.size());
    requestType(t, s, q, f, widths[w], log);
  }
  vc::matched();
  vc::state(log + std::to_string(kind));
  vc::sample(log);
}
const std::vector<int> kAll = {-1, 0, 1, 2, 3, 5, 7, 8, 9, 13, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 1 << 20};
const std::vector<int> kSome = {-1, 0, 1, 7, 16, 33, 63, 64, 200};
} // namespace

VC_SUITE(pairs, 1) { sequence<uint64_t>(2, kAll, kAll, 4); }
VC_SUITE(triples, 8) { sequence<uint64_t>(3, vc::thorough() ? kAll : kSome, kAll, 2); }
VC_SUITE(quads, 8) { sequence<uint64_t>(4, vc::thorough() ? kSome : std::vector<int>{1, 31, 64}, vc::thorough() ? std::vector<int>{-1, 1, 33, 63} : std::vector<int>{1, 3, 62}, 1); }
VC_SUITE(source32, 4) { sequence<uint32_t>(vc::thorough() ? 3 : 2, kAll, kAll, 4); }

// Every bit pattern of small widths, at several offsets in the word: a bijection onto the representable values.
namespace {
template <typename T>
void bijection(int maxBits) {
  int n = 1 + vc::pick(std::min(maxBits, width<T>()));
  int off = std::vector<int>{0, 1, 17, 47, 60, 63}[vc::pick(6)];
  std::set<__int128> seen;
  for (uint64_t p = 0; p < (1ULL << n); p++) {
    Feed f;
    f.words = {off ? ((p << off) | (off < 64 ? (p * 7 & ((1ULL << off) - 1)) : 0)) : p, 0};
    if (off) f.words[1] = (off + n > 64 ? p >> (64 - off) : 0);
    if (!off && n == 64) f.words[0] = p;
    BitStream<Source<uint64_t>> s(Source<uint64_t>{&f});
    if (off) (void)s.next<uint64_t>(off);
    T v = s.template next<T>(n);
    __int128 want = p;
    if (std::is_signed<T>::value && (p >> (n - 1) & 1)) want -= (__int128)1 << n;
    VC_CHECK((__int128)v == want, "pattern " << p << " of " << n << " bits at offset " << off << " gives " << +v << " expected " << (long)want);
    seen.insert(v);
    vc::step();
  }
  VC_CHECK(seen.size() == (1ULL << n), "only " << seen.size() << " values from " << n << " bits");
  vc::matched(1 << n);
  vc::state((uint64_t)n * 100 + off);
}
} // namespace
VC_SUITE(bijU8, 1) { bijection<uint8_t>(8); }
VC_SUITE(bijI8, 1) { bijection<int8_t>(8); }
VC_SUITE(bijU16, 1) { bijection<uint16_t>(vc::thorough() ? 16 : 13); }
VC_SUITE(bijI16, 1) { bijection<int16_t>(vc::thorough() ? 16 : 13); }
VC_SUITE(bijI32, 1) { bijection<int32_t>(vc::thorough() ? 16 : 12); }
VC_SUITE(bijI64, 1) { bijection<int64_t>(vc::thorough() ? 16 : 12); }
VC_SUITE(bijU64, 1) { bijection<uint64_t>(vc::thorough() ? 16 : 12); }

// Size-scaled requests: bits used per size.
namespace {
template <typename T>
void sized() {
  static const std::vector<int> extra = {1000, 65536, 1 << 24, 33554431, 33554432, 1 << 26, 1 << 27, 1 << 28, 1 << 30, 0x7fffffff};
  int c = vc::pick(260 + (int)extra.size());
  int size = c < 260 ? c : extra[c - 260];
  auto bitsAt = [](int size) {
    Feed f = makeFeed(0, 8);
    BitStream<Source<uint64_t>> s(Source<uint64_t>{&f});
    T v = s.template nextWithSize<T>(size);
    uint64_t rest = s.template next<uint64_t>(64);
    int found = -1;
    for (int k = 0; k <= 64; k++) {
      Queue q{&f, 64};
      T w = k ? expect<T>(q, k) : T(0);
      if (w == v && expect<uint64_t>(q, 64) == rest && (int)q.pos == k + 64) {
        found = k;
        break;
      }
    }
    vc::step(2);
    return found;
  };
  int k = bitsAt(size);
  VC_CHECK(k >= 0, "value and following bits at size " << size << " are not consecutive bits of the stream");
  VC_CHECK(k <= width<T>(), "more bits than the type has");
  if (size == 0) VC_CHECK(k == 0, k << " bits used at size 0");
  if (size >= 100) VC_CHECK(k == width<T>(), "only " << k << " bits used at size " << size);
  if (size > 0 && c < 260) {
    int p = bitsAt(size - 1);
    VC_CHECK(p <= k, "fewer bits at size " << size << " (" << k << ") than at the size before (" << p << ")");
  }
  vc::matched();
  vc::state((uint64_t)size);
  vc::outcome(std::to_string(k));
}
} // namespace
VC_SUITE(sizedU8, 1) { sized<uint8_t>(); }
VC_SUITE(sizedI8, 1) { sized<int8_t>(); }
VC_SUITE(sizedU16, 1) { sized<uint16_t>(); }
VC_SUITE(sizedI16, 1) { sized<int16_t>(); }
VC_SUITE(sizedU32, 1) { sized<uint32_t>(); }
VC_SUITE(sizedI32, 1) { sized<int32_t>(); }
VC_SUITE(sizedU64, 1) { sized<uint64_t>(); }
VC_SUITE(sizedI64, 1) { sized<int64_t>(); }
VC_SUITE(sizedChar, 1) { sized<char>(); }

// Streams over a copied and over a referenced source.
VC_SUITE(sources, 1) {
  int n = 1 + vc::pick(64), m = vc::pick(65);
  uint64_t seed = vc::pick(3);
  Random r(seed), ref(seed);
  auto copyStream = bitStreamOf(static_cast<const Random &>(r));
  uint64_t a = copyStream.next<uint64_t>(n);
  VC_CHECK(r == ref, "a stream over a copy advanced the original");
  auto refStream = bitStreamOf(r);
  uint64_t b = refStream.next<uint64_t>(n);
  VC_CHECK(a == b, "copying and referencing streams differ");
  Random adv(seed);
  adv.next();
  VC_CHECK(r == adv, "a stream over a reference did not advance the source once");
  refStream.next<uint64_t>(m);
  if (n + m > 64) adv.next();
  VC_CHECK(r == adv, "source not advanced exactly as bits are used up");
  vc::matched(3);
  vc::step(3);
  vc::state((uint64_t)n * 100 + m);
}
// Long runs: thousands of requests of two alternating widths and types from one stream, also through a copy of it.
template <typename W>
static void longRun() {
  static const std::vector<int> ws{1, 3, 7, 8, 13, 31, 32, 33, 63, 64};
  int t1 = vc::pick(kTypes), t2 = vc::pick(kTypes);
  int w1 = ws[vc::pick(ws.size())], w2 = ws[vc::pick(ws.size())];
  const int count = vc::thorough() ? 20000 : 1500;
  Feed f = makeFeed(0, (size_t)count * 64 * 8 / (sizeof(W) * 64) + 16);
  if (sizeof(W) < 8)
    for (auto &w : f.words) w &= (uint64_t)(W)~W(0);
  BitStream<Source<W>> s(Source<W>{&f});
  Queue q{&f, (int)sizeof(W) * 8};
  std::string log;
  for (int i = 0; i < count; i++) {
    log = " " + std::to_string(i) + " requests";
    if (i % 97 == 96) { // goes on through a copy
      BitStream<Source<W>> c(s);
      requestType(i % 2 ? t1 : t2, c, q, f, i % 2 ? w1 : w2, log);
      s = c;
    } else
      requestType(i % 2 ? t1 : t2, s, q, f, i % 2 ? w1 : w2, log);
  }
  vc::matched();
  vc::state(std::to_string(t1) + "," + std::to_string(t2) + "," + std::to_string(w1) + "," + std::to_string(w2));
}
VC_SUITE(longRuns64, 12) { longRun<uint64_t>(); }
VC_SUITE(longRuns32, 12) { longRun<uint32_t>(); }
