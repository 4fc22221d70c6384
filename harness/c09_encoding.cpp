// C09: binary and text encodings (AddressSanitizer + UBSan on; every buffer is an exactly sized heap block).
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/Configuration.h"
#include "rapidcheck/detail/Results.h"
#include "rapidcheck/detail/Serialization.h"
#include "detail/Base64.h"
#include "detail/ParseException.h"
#include "detail/StringSerialization.h"
#include <algorithm>
#include <cstring>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <unordered_map>

using namespace rc;
using namespace rc::detail;

namespace {
using Bytes = std::vector<uint8_t>;

std::string hex(const Bytes &b) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (uint8_t x : b) {
    s += d[x >> 4];
    s += d[x & 15];
  }
  return s;
}
std::string hexs(const std::string &s) { return hex(Bytes(s.begin(), s.end())); }

// An exactly sized heap copy, so that AddressSanitizer sees any read outside.
struct Exact {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Exact(const Bytes &b, size_t len) : p(new uint8_t[len ? len : 1]), n(len) {
    if (len) std::memcpy(p.get(), b.data(), len);
    else {
      p.reset(static_cast<uint8_t *>(nullptr));
    }
  }
  const uint8_t *begin() const { return p.get(); }
  const uint8_t *end() const { return p.get() + n; }
};

// codecs -----------------------------------------------------------------------------------------
struct Fixed {
  static const char *name() { return "fixed"; }
  template <typename T>
  static void enc(const T &v, Bytes &b) { serialize(v, std::back_inserter(b)); }
  template <typename It, typename T>
  static It dec(It b, It e, T &v) { return deserialize(b, e, v); }
};
struct Compact {
  static const char *name() { return "compact"; }
  template <typename T>
  static void enc(const T &v, Bytes &b) { serializeCompact(v, std::back_inserter(b)); }
  template <typename It, typename T>
  static It dec(It b, It e, T &v) { return deserializeCompact(b, e, v); }
};
struct Range {
  static const char *name() { return "compact range"; }
  template <typename T>
  static void enc(const T &v, Bytes &b) { serializeCompact(v.begin(), v.end(), std::back_inserter(b)); }
  template <typename It, typename T>
  static It dec(It b, It e, T &v) {
    v.clear();
    return deserializeCompact<typename T::value_type>(b, e, std::back_inserter(v)).first;
  }
};
struct MapC {
  static const char *name() { return "map"; }
  template <typename T>
  static void enc(const T &v, Bytes &b) { serializeMap(v, std::back_inserter(b)); }
  template <typename It, typename T>
  static It dec(It b, It e, T &v) { return deserializeMap(b, e, v); }
};
template <size_t N>
struct FixedN {
  static const char *name() { return "n values"; }
  template <typename T>
  static void enc(const T &v, Bytes &b) { serializeN(v.begin(), v.size(), std::back_inserter(b)); }
  template <typename It, typename T>
  static It dec(It b, It e, T &v) {
    v.clear();
    return deserializeN<typename T::value_type>(b, e, N, std::back_inserter(v));
  }
};

// Decodes and reports what happened: 1 value, 0 serialization error.
template <typename C, typename T, typename It>
int decode(It b, It e, T &out, size_t &used, const std::string &ctx) {
  try {
    It it = C::dec(b, e, out);
    used = std::distance(b, it);
    return 1;
  } catch (const SerializationException &x) {
    if (std::string(x.what()).empty() || x.message() != x.what()) vc::failSoft("serialization error without a message: " + ctx);
    return 0;
  } catch (const std::exception &x) {
    vc::failSoft(std::string(C::name()) + ": decoding reports another kind of exception: " + x.what() + ": " + ctx);
    return -1;
  }
}

// Everything about one value: round trip, trailing data, truncations, iterator kinds, used targets.
template <typename C, typename T>
void value(const T &v, const T &other, const std::string &name) {
  Bytes b;
  C::enc(v, b);
  std::string ctx = std::string(C::name()) + " encoding of " + name + " = " + (b.size() < 200 ? hex(b) : std::to_string(b.size()) + " bytes");
  {
    Exact x(b, b.size());
    T out = other;
    size_t used = 0;
    int r = decode<C>(x.begin(), x.end(), out, used, ctx);
    VC_CHECK(r == 1, "does not decode: " << ctx);
    VC_CHECK(out == v, "decodes to another value: " << ctx);
    VC_CHECK(used == b.size(), "decoding consumed " << used << " of " << b.size() << " bytes: " << ctx);
  }
  for (uint8_t tail : {0x00, 0xFF, 0x80}) {
    Bytes t = b;
    t.push_back(tail);
    t.push_back(tail);
    T out = other;
    size_t used = 0;
    VC_CHECK(decode<C>(t.begin(), t.end(), out, used, ctx) == 1 && out == v && used == b.size(), "decodes differently when more data follows: " << ctx);
  }
  {
    std::list<char> l(b.begin(), b.end());   // signed elements, forward iteration only
    T out = other;
    size_t used = 0;
    VC_CHECK(decode<C>(l.begin(), l.end(), out, used, ctx) == 1 && out == v && used == b.size(), "decodes differently from signed bytes: " << ctx);
  }
  size_t step = b.size() > 300 ? b.size() / 7 : 1;
  for (size_t n = 0; n < b.size(); n += step) {
    Exact x(b, n);
    T out = other;
    size_t used = 0;
    int r = decode<C>(x.begin(), x.end(), out, used, ctx);
    VC_CHECK(r == 0, "truncated to " << n << " bytes it still decodes: " << ctx);
    vc::step();
  }
  vc::step(5);
  vc::matched();
}

template <typename T>
std::vector<T> boundary() {
  std::vector<T> r;
  using L = std::numeric_limits<T>;
  using U = typename std::make_unsigned<T>::type;
  for (int b = 0; b < (int)sizeof(T) * 8; b++)
    for (int d = -1; d <= 1; d++) {
      U u = (U)(((unsigned long long)1 << b) + (unsigned long long)(long long)d);
      r.push_back((T)u);
      r.push_back((T)(U)~u);
    }
  r.push_back(L::min());
  r.push_back(L::max());
  r.push_back((T)(U)0x0123456789ABCDEFULL);
  r.push_back((T)(U)0xFEDCBA9876543210ULL);
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}
template <typename T>
void ints(const char *name) {
  std::vector<T> vs;
  if (sizeof(T) == 1 || (sizeof(T) == 2 && vc::thorough()))
    for (long x = std::numeric_limits<T>::min(); x <= (long)std::numeric_limits<T>::max(); x++) vs.push_back((T)x);
  else
    vs = boundary<T>();
  for (T v : vs) {
    std::string n = std::string(name) + " " + std::to_string(v);
    value<Fixed, T>(v, (T)0x55, n);
    value<Compact, T>(v, (T)0x55, n);
  }
  vc::state(name);
  vc::outcome("integer");
  vc::sample(std::string(name) + ": " + std::to_string(vs.size()) + " values");
}
} // namespace

VC_SUITE(integers, 13, {}) {
  switch (vc::pick(13, "type")) {
  case 0: ints<int8_t>("int8"); break;
  case 1: ints<uint8_t>("uint8"); break;
  case 2: ints<int16_t>("int16"); break;
  case 3: ints<uint16_t>("uint16"); break;
  case 4: ints<int32_t>("int32"); break;
  case 5: ints<uint32_t>("uint32"); break;
  case 6: ints<int64_t>("int64"); break;
  case 7: ints<uint64_t>("uint64"); break;
  case 8: ints<char>("char"); break;
  case 9: ints<long long>("long long"); break;
  case 10: ints<unsigned long long>("unsigned long long"); break;
  case 11: ints<long>("long"); break;
  case 12: ints<wchar_t>("wchar_t"); break;
  }
}

namespace {
template <typename T>
void ranges(const char *name, const std::vector<T> &vals) {
  int len = vc::pick(4, "length");
  std::vector<T> v;
  for (int i = 0; i < len; i++) v.push_back(vals[vc::pick((int)vals.size(), "value")]);
  value<Range>(v, std::vector<T>{T(1), T(2)}, std::string(name) + " " + vc::strv(v));
  if (len == 3) value<FixedN<3>>(v, std::vector<T>{}, std::string(name) + " " + vc::strv(v));
  vc::state(std::string(name) + vc::strv(v));
  vc::outcome("range");
}
std::string pickString(int maxLen) {
  static const char cs[] = {'\0', 'a', '\x7f', '\x80', '\xff'};
  int len = vc::pick(maxLen + 1, "length");
  std::string s;
  for (int i = 0; i < len; i++) s += cs[vc::pick(5, "char")];
  return s;
}
} // namespace
VC_SUITE(compactRanges, 4, {}) {
  switch (vc::pick(4, "type")) {
  case 0: ranges<uint8_t>("uint8", {0, 1, 127, 128, 255}); break;
  case 1: ranges<int16_t>("int16", {0, -1, 127, 128, -32768, 32767, 16383, 16384}); break;
  case 2: ranges<uint64_t>("uint64", {0, 127, 128, 16384, 1ULL << 35, (1ULL << 63) - 1, 1ULL << 63, ~0ULL}); break;
  case 3: ranges<int>("int", {0, -1, 63, 64, 128, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()}); break;
  }
}
VC_SUITE(longRanges, 20, {}) {
  static const std::vector<int> lens{126, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 131073};
  int len = lens[vc::pick((int)lens.size(), "length")];
  std::vector<uint32_t> v;
  for (int i = 0; i < len; i++) v.push_back((uint32_t)i * 2654435761u >> (i % 32));
  value<Range>(v, std::vector<uint32_t>{}, "range of " + std::to_string(len));
  std::string s;
  for (int i = 0; i < len; i++) s += (char)(i * 7);
  value<Fixed>(s, std::string("old"), "string of " + std::to_string(len));
  std::unordered_map<int, int> m;
  for (int i = 0; i < len; i++) m[i * 77] = i;
  value<Fixed>(m, std::unordered_map<int, int>{{1, 2}}, "map of " + std::to_string(len));
  vc::state(std::to_string(len));
  vc::outcome("long");
}
VC_SUITE(strings, 1, {}) {
  std::string s = pickString(vc::thorough() ? 6 : 4);
  value<Fixed>(s, std::string(vc::pick(2) ? "something longer than any" : ""), "string " + hexs(s));
  vc::state(hexs(s));
}
VC_SUITE(composites, 6, {}) {
  int kind = vc::pick(6, "kind");
  auto num = [] { static const int n[] = {0, -1, 300}; return n[vc::pick(3, "number")]; };
  switch (kind) {
  case 0: {
    std::pair<int, std::string> p{num(), pickString(2)};
    value<Fixed>(p, std::pair<int, std::string>{9, "nine"}, "pair<int,string>");
    break;
  }
  case 1: {
    std::pair<std::string, std::pair<uint8_t, std::string>> p{pickString(2), {(uint8_t)num(), pickString(1)}};
    value<Fixed>(p, decltype(p){"x", {3, "y"}}, "pair<string,pair<uint8,string>>");
    break;
  }
  case 2: {
    std::unordered_map<std::string, int> m;
    int n = vc::pick(4, "entries");
    for (int i = 0; i < n; i++) m[pickString(1)] = num();
    value<Fixed>(m, decltype(m){{"old", 1}}, "unordered_map<string,int> of " + std::to_string(m.size()));
    break;
  }
  case 3: {
    std::map<std::pair<int, std::string>, std::string> m;
    int n = vc::pick(4, "entries");
    for (int i = 0; i < n; i++) {
      int k = num();
      m[{k, pickString(1)}] = i ? "v" : "";
    }
    value<MapC>(m, decltype(m){{{1, "old"}, "1"}}, "map<pair<int,string>,string> of " + std::to_string(m.size()));
    break;
  }
  case 4: {
    std::unordered_map<int, std::unordered_map<std::string, uint16_t>> m;
    int n = vc::pick(3, "entries");
    for (int i = 0; i < n; i++) {
      auto &in = m[num()];
      int k = vc::pick(3, "inner entries");
      for (int j = 0; j < k; j++) in[pickString(1)] = (uint16_t)(j * 255);
    }
    value<Fixed>(m, decltype(m){{5, {{"old", 1}}}}, "nested unordered_map of " + std::to_string(m.size()));
    break;
  }
  case 5: {
    std::vector<std::pair<int, std::string>> v;
    for (int i = 0; i < 3; i++) {
      int k = num();
      v.push_back({k, pickString(1)});
    }
    value<FixedN<3>>(v, decltype(v){}, "3 pairs");
    break;
  }
  }
  vc::state(std::to_string(kind));
  vc::outcome("composite");
}

namespace {
Random pickRandom() {
  Random r(vc::pick(2, "seed") ? uint64_t(0) : 0xFEDCBA9876543210ULL);
  static const int splits[] = {0, 1, 7, 63, 64, 65};
  int n = splits[vc::pick(6, "splits")];
  for (int i = 0; i < n; i++) {
    Random q = r.split();
    if (i % 2 == 0) r = q;
  }
  static const int draws[] = {0, 1, 4, 127, 128};
  n = draws[vc::pick(5, "draws")];
  for (int i = 0; i < n; i++) r.next();
  return r;
}
Reproduce pickReproduce() {
  Reproduce r;
  r.random = pickRandom();
  static const int sizes[] = {0, 100, 128, std::numeric_limits<int>::max()};
  r.size = sizes[vc::pick(4, "size")];
  static const size_t idx[] = {0, 1, 127, 128, ~size_t(0)};
  int n = vc::pick(3, "path");
  for (int i = 0; i < n; i++) r.shrinkPath.push_back(idx[vc::pick(5, "index")]);
  return r;
}
Reproduce simple(int k) {
  Reproduce r;
  r.random = Random(uint64_t(k) * 0x9E3779B97F4A7C15ULL);
  for (int i = 0; i < k; i++) {
    Random q = r.random.split();
    if (i % 2) r.random = q;
  }
  r.size = k * 50;
  for (int i = 0; i < k; i++) r.shrinkPath.push_back(i * 100);
  return r;
}
} // namespace
VC_SUITE(states, 2, {}) {
  if (vc::pick(2, "kind") == 0) {
    Random r = pickRandom();
    value<Fixed>(r, Random(uint64_t(4)), "random state");
  } else {
    Reproduce r = pickReproduce();
    Reproduce old;
    old.size = 3;
    old.shrinkPath = {1, 2, 3};
    value<Fixed>(r, old, "reproduce data");
  }
  vc::outcome("state");
}

// Concatenated encodings of different kinds decode in sequence.
namespace {
struct Item {
  std::function<void(Bytes &)> enc;
  std::function<const uint8_t *(const uint8_t *, const uint8_t *)> dec;
};
template <typename C, typename T>
Item item(T v, T other) {
  Item i;
  i.enc = [v](Bytes &b) { C::enc(v, b); };
  i.dec = [v, other](const uint8_t *b, const uint8_t *e) {
    T out = other;
    const uint8_t *it = C::dec(b, e, out);
    if (!(out == v)) vc::fail("a value in a concatenation decoded differently");
    return it;
  };
  return i;
}
std::vector<Item> menu() {
  return {item<Fixed, uint8_t>(0x80, 1), item<Fixed, int32_t>(-2, 1), item<Fixed, uint64_t>(1ULL << 63, 1), item<Compact, uint32_t>(300, 1),
          item<Compact, int64_t>(-1, 1), item<Fixed, std::string>("", "x"), item<Fixed, std::string>(std::string("\0\xff", 2), "x"),
          item<Range, std::vector<uint16_t>>({}, {4}), item<Range, std::vector<uint16_t>>({128, 65535}, {4}),
          item<Fixed, std::unordered_map<std::string, int>>({{"k", 1}, {"l", 2}}, {}), item<Fixed, Random>(Random(uint64_t(3)), Random()),
          item<Fixed, Reproduce>(simple(2), simple(1)), item<Fixed, std::pair<int8_t, std::string>>({-1, "p"}, {0, ""})};
}
} // namespace
VC_SUITE(concatenation, 13, {}) {
  auto m = menu();
  int first = vc::pick(13, "first");
  int n = 1 + vc::pick(vc::thorough() ? 4 : 3, "count");
  std::vector<int> ids{first};
  for (int i = 1; i < n; i++) ids.push_back(vc::pick((int)m.size(), "item"));
  Bytes b;
  for (int id : ids) m[id].enc(b);
  Exact x(b, b.size());
  const uint8_t *p = x.begin();
  try {
    for (int id : ids) {
      p = m[id].dec(p, x.end());
      VC_CHECK(p >= x.begin() && p <= x.end(), "decoding ran past the end: " << vc::strv(ids));
      vc::step();
    }
  } catch (const std::exception &e) {
    vc::fail(std::string("decoding the concatenation failed: ") + e.what() + vc::strv(ids));
  }
  VC_CHECK(p == x.end(), "decoding the concatenation left " << x.end() - p << " bytes: " << vc::strv(ids));
  vc::state(vc::strv(ids));
  vc::matched();
}

// Arbitrary bytes through every decoder.
namespace {
template <typename C, typename T>
void arbitrary(const Bytes &b, const char *name) {
  Exact x(b, b.size());
  T out{};
  size_t used = 0;
  std::string ctx = std::string(name) + " from " + hex(b);
  int r = decode<C>(x.begin(), x.end(), out, used, ctx);
  vc::step();
  if (r == 1) {
    VC_CHECK(used <= b.size(), "consumed " << used << " bytes: " << ctx);
    // whatever was decoded is a proper value: it survives being written and read again
    Bytes b2;
    C::enc(out, b2);
    T again{};
    VC_CHECK(decode<C>(b2.begin(), b2.end(), again, used, ctx) == 1 && again == out, "decoded value does not survive re-encoding: " << ctx);
    // and does not depend on what follows
    vc::outcome(std::string(name) + " value");
  } else {
    vc::outcome(std::string(name) + " error");
  }
}
void decodeAll(const Bytes &b) {
  arbitrary<Fixed, uint8_t>(b, "uint8");
  arbitrary<Fixed, int16_t>(b, "int16");
  arbitrary<Fixed, uint64_t>(b, "uint64");
  arbitrary<Compact, uint8_t>(b, "compact uint8");
  arbitrary<Compact, int8_t>(b, "compact int8");
  arbitrary<Compact, int16_t>(b, "compact int16");
  arbitrary<Compact, int32_t>(b, "compact int32");
  arbitrary<Compact, uint32_t>(b, "compact uint32");
  arbitrary<Compact, int64_t>(b, "compact int64");
  arbitrary<Compact, uint64_t>(b, "compact uint64");
  arbitrary<Fixed, std::string>(b, "string");
  arbitrary<Fixed, std::pair<uint8_t, std::string>>(b, "pair");
  arbitrary<Range, std::vector<uint64_t>>(b, "compact range");
  arbitrary<Range, std::vector<uint8_t>>(b, "compact range uint8");
  arbitrary<Fixed, std::unordered_map<std::string, uint8_t>>(b, "map");
  arbitrary<Fixed, std::unordered_map<uint8_t, std::string>>(b, "map2");
  arbitrary<Fixed, Random>(b, "random");
  arbitrary<Fixed, std::unordered_map<std::string, Reproduce>>(b, "reproduce map");
}
} // namespace
VC_SUITE(anyBytes, 257, {}) {
  int first = vc::pick(257, "first");
  Bytes b;
  if (first < 256) {
    b.push_back((uint8_t)first);
    int more = vc::pick(2, "second?");
    if (more) b.push_back((uint8_t)vc::pick(256, "second"));
  }
  decodeAll(b);
  vc::state(hex(b));
}
VC_SUITE(anyBytesLong, 8, {}) {
  static const uint8_t cs[] = {0, 1, 2, 3, 0x7F, 0x80, 0x81, 0xFF};
  Bytes b{cs[vc::pick(8, "byte")]};
  int len = vc::thorough() ? 6 : 4;
  for (int i = 1; i < len; i++) b.push_back(cs[vc::pick(8, "byte")]);
  decodeAll(b);
  vc::state(hex(b));
}
// Runs of continuation bytes around and beyond the widest integer, claims of huge lengths.
VC_SUITE(overlong, 6, {}) {
  static const uint8_t fill[] = {0x80, 0xFF, 0x81, 0x8F, 0xC0, 0xFE};
  uint8_t f = fill[vc::pick(6, "fill")];
  int n = vc::pick(vc::thorough() ? 300 : 40, "run length");
  static const int last[] = {-1, 0, 1, 2, 3, 0x0F, 0x40, 0x7F};
  int l = last[vc::pick(8, "last byte")];
  int rest = vc::pick(3, "bytes after");
  Bytes b(n, f);
  if (l >= 0) b.push_back((uint8_t)l);
  for (int i = 0; i < rest; i++) b.push_back('x');
  decodeAll(b);
  vc::state(hex(b));
}
// Random state and reproduce data: the fixed part present, every short continuation.
VC_SUITE(randomTail, 8, {}) {
  static const uint8_t cs[] = {0, 1, 2, 63, 64, 65, 0x80, 0xFF};
  Bytes key(32, 0x5A);
  int len = 1 + vc::pick(vc::thorough() ? 6 : 4, "length");
  for (int i = 0; i < len; i++) key.push_back(cs[vc::pick(8, "byte")]);
  {
    Exact x(key, key.size());
    Random r;
    size_t used = 0;
    if (decode<Fixed>(x.begin(), x.end(), r, used, hex(key)) == 1) {
      VC_CHECK(used <= key.size(), "random state read past the end");
      // the state is usable: it draws and, if nothing was drawn, splits without undefined behaviour
      Random d(r);
      for (int i = 0; i < 5; i++) d.next();
      Bytes e;
      Fixed::enc(r, e);
      Random r2;
      VC_CHECK(decode<Fixed>(e.begin(), e.end(), r2, used, hex(key)) == 1 && r2 == r, "decoded random state does not survive re-encoding: " << hex(key));
      Bytes tail(e.end() - 2, e.end());
      if (tail[0] == 0) {   // no draws yet
        Random s(r);
        for (int i = 0; i < 70; i++) s.split();
      }
      vc::outcome("random value");
    } else {
      vc::outcome("random error");
    }
  }
  // the same bytes as reproduce data, complete and truncated
  Bytes rep = key;
  Bytes tail{100, 0, 0, 0, 2, 5, 0x80, 1};
  rep.insert(rep.end(), tail.begin(), tail.end());
  for (size_t n = key.size(); n <= rep.size(); n++) {
    Exact x(rep, n);
    Reproduce out;
    size_t used = 0;
    if (decode<Fixed>(x.begin(), x.end(), out, used, hex(rep)) == 1) VC_CHECK(used <= n, "reproduce data read past the end");
    vc::step();
  }
  vc::state(hex(key));
}

// base64 -------------------------------------------------------------------------------------------
namespace {
void b64(const Bytes &b, std::map<std::string, Bytes> *all = nullptr) {
  std::string t = base64Encode(b);
  for (char c : t) VC_CHECK(std::isalnum((unsigned char)c) || c == '+' || c == '_' || c == '-', "text contains '" << c << "' for " << hex(b));
  try {
    Bytes back = base64Decode(t);
    VC_CHECK(back == b, hex(b) << " encodes to " << t << " which decodes to " << hex(back));
  } catch (const std::exception &e) {
    vc::fail("encoding " + t + " of " + hex(b) + " does not decode: " + e.what());
  }
  vc::step();
  vc::matched();
}
bool inAlphabet(char c) {
  static std::string a;
  if (a.empty()) {
    // derive the alphabet from the encoder: every 6-bit value appears
    std::string chars;
    for (int i = 0; i < 256; i++)
      for (int j = 0; j < 256; j += 15) chars += base64Encode({(uint8_t)i, (uint8_t)j, (uint8_t)(i ^ j)});
    std::sort(chars.begin(), chars.end());
    chars.erase(std::unique(chars.begin(), chars.end()), chars.end());
    a = chars;
  }
  return a.find(c) != std::string::npos && c != 0;
}
void b64dec(const std::string &t) {
  std::string copy(t);
  bool bad = false;
  for (char c : t) bad = bad || !inAlphabet(c);
  try {
    Bytes b = base64Decode(t);
    VC_CHECK(!bad, "text with characters outside the alphabet decodes: " << hexs(t));
    VC_CHECK(t.size() % 4 != 1, "text of impossible length decodes: " << t);
    VC_CHECK(b.size() == t.size() * 3 / 4, "text " << t << " decodes to " << b.size() << " bytes");
    vc::outcome("decoded");
  } catch (const ParseException &e) {
    VC_CHECK(e.position() <= t.size() && !e.message().empty(), "parse error at " << e.position() << " of " << t.size() << " without use");
    vc::outcome("rejected");
  } catch (const std::exception &e) {
    vc::fail(std::string("base64 decoding throws ") + e.what() + " for " + hexs(t));
  }
  vc::step();
}
} // namespace
VC_SUITE(base64, 257, {}) {
  int a = vc::pick(257, "first");
  if (a == 256) {
    b64({});
    vc::state("empty");
    return;
  }
  b64({(uint8_t)a});
  for (int x = 0; x < 256; x++) {
    b64({(uint8_t)a, (uint8_t)x});
    int stepz = vc::thorough() ? 1 : 17;
    for (int z = 0; z < 256; z += stepz) b64({(uint8_t)a, (uint8_t)x, (uint8_t)(z ^ (a * 31))});
  }
  vc::state(std::to_string(a));
  vc::outcome("base64");
}
VC_SUITE(base64Long, 5, {}) {
  static const uint8_t cs[] = {0, 0xFF, 0x80, 0x01, 0x3F};
  Bytes b{cs[vc::pick(5, "byte")]};
  int len = 3 + vc::pick(vc::thorough() ? 6 : 4, "length");
  for (int i = 0; i < len; i++) b.push_back(cs[vc::pick(5, "byte")]);
  b64(b);
  vc::state(hex(b));
}
// Every length, far beyond that of any single record, with several patterns.
VC_SUITE(base64Lengths, 16, {}) {
  int len = vc::pick(vc::thorough() ? 5000 : 1600, "length");
  for (int pattern = 0; pattern < 6; pattern++) {
    Bytes b(len);
    for (int i = 0; i < len; i++)
      b[i] = pattern == 0 ? 0 : pattern == 1 ? 0xFF : pattern == 2 ? i * 37 + 11 : pattern == 3 ? (i * i) >> 3 : pattern == 4 ? 0x55 : (i + 3 >= len ? 0xFF : 0);
    b64(b);
  }
  vc::state(std::to_string(len));
}
VC_SUITE(base64Any, 257, {}) {
  int a = vc::pick(257, "first");
  std::string pre;
  static const char some[] = {'A', 'z', '_', '+', '/', '=', ' ', '\0', '\x80', '\xff', '-', '"'};
  if (a == 256) {
    b64dec("");
    return;
  }
  for (int lead = 0; lead < 4; lead++) {
    std::string p(lead, 'B');
    b64dec(p + (char)a);
    for (int b = 0; b < 256; b += vc::thorough() || !lead ? 1 : 13) {
      b64dec(p + (char)a + (char)b);
      for (char c : some) {
        b64dec(p + (char)a + (char)b + c);
        if (vc::thorough())
          for (char d : some) b64dec(p + (char)a + (char)b + c + d);
      }
    }
  }
  vc::state(std::to_string(a));
}

// Reproduce strings: round trips of maps, every truncation, every one-character change, as configuration.
VC_SUITE(reproduceText, 5, {}) {
  static const char *ids[] = {"", "a", "some/id with space", "\xc3\xa9\"'\\=", "id2"};
  int mask = vc::pick(32, "ids");
  std::unordered_map<std::string, Reproduce> m;
  for (int i = 0; i < 5; i++)
    if (mask >> i & 1) m[ids[i]] = simple(i + (mask % 3));
  std::string t = reproduceMapToString(m);
  try {
    VC_CHECK(stringToReproduceMap(t) == m, "reproduce map decodes differently from " << t);
    Configuration c = configFromString("reproduce=" + t);
    VC_CHECK(c.reproduce == m, "reproduce map read through the configuration differs: " << t);
  } catch (const std::exception &e) {
    vc::fail(std::string("valid reproduce string rejected: ") + e.what());
  }
  vc::matched();
  auto attempt = [&](const std::string &s, const char *what, bool mustFail) {
    bool ok = false;
    try {
      stringToReproduceMap(s);
      ok = true;
    } catch (const ParseException &e) {
      if (e.message().empty()) vc::fail("parse error without a message");
    } catch (const std::exception &e) {
      vc::fail(std::string(what) + " reproduce string reports another kind of exception: " + e.what() + " for " + s);
    }
    if (ok && mustFail) vc::fail(std::string(what) + " reproduce string is accepted: " + s);
    bool cok = false;
    try {
      configFromString("max_size=3 reproduce='" + s + "'");
      cok = true;
    } catch (const ConfigurationException &e) {
      if (std::string(e.what()).find("reproduce") == std::string::npos) vc::fail(std::string("configuration error for a bad reproduce string does not say so: ") + e.what());
    } catch (const std::exception &e) {
      vc::fail(std::string("configuration with ") + what + " reproduce string reports another kind of exception: " + e.what());
    }
    if (ok != cok) vc::fail(std::string(what) + " reproduce string: configuration and decoder disagree: " + s);
    vc::outcome(ok ? std::string(what) + " accepted" : std::string(what) + " rejected");
    vc::step();
  };
  for (size_t n = 0; n < t.size(); n++) attempt(t.substr(0, n), "truncated", true);
  static const std::string subst = "AB_z+9";
  for (size_t i = 0; i < t.size(); i++) {
    for (char c : vc::thorough() ? std::string("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+_") : subst) {
      std::string s = t;
      s[i] = c;
      attempt(s, "changed", false);
    }
    for (char c : {'=', '/', '\x80', ' '}) {
      std::string s = t;
      s[i] = c;
      attempt(s, "non-base64", true);
    }
  }
  vc::state(std::to_string(mask));
  vc::sample("reproduce map with " + std::to_string(m.size()) + " entries: " + std::to_string(t.size()) + " characters, all truncations and changes");
}
