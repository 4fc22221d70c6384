// C26: rendering of values.
#include "vc.h"
#include "script.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/Variant.h"
#include "rapidcheck/detail/Any.h"
#include "rapidcheck/detail/Results.h"
#include <iomanip>
#include <memory>
#include <set>

using namespace rc;

namespace {
// ---- stream settings ------------------------------------------------------------------------------
struct Settings {
  std::ios::fmtflags flags;
  std::streamsize precision, width;
  char fill;
  bool operator==(const Settings &o) const { return flags == o.flags && precision == o.precision && fill == o.fill; }
};
Settings of(std::ostream &os) { return {os.flags(), os.precision(), os.width(), os.fill()}; }
void dress(std::ostream &os, int how) {
  if (how == 1) os << std::hex << std::showbase << std::uppercase;
  if (how == 2) os << std::setprecision(11) << std::fixed << std::showpos;
  if (how == 3) os << std::setfill('*') << std::left << std::boolalpha << std::showpoint;
  if (how == 4) os << std::oct << std::scientific << std::setprecision(1) << std::internal;
}
const int kDress = 5;
// The rendering on a plain stream; on every other stream the settings come back as they were.
template <typename T>
std::string rendered(const T &v) {
  std::string plain;
  for (int d = 0; d < kDress; d++) {
    std::ostringstream os;
    dress(os, d);
    Settings before = of(os);
    show(v, os);
    if (!(of(os) == before)) vc::fail("showing " + toString(v) + " changes the settings of the stream (set up " + std::to_string(d) + ")");
    if (d == 0) plain = os.str();
    vc::step();
  }
  if (plain != toString(v)) vc::fail("toString gives " + toString(v) + ", show gives " + plain);
  return plain;
}
template <typename T>
void expect(const T &v, const std::string &want, const char *what) {
  std::string got = rendered(v);
  if (got != want) vc::fail(std::string(what) + " is shown as " + got + " instead of " + want);
  vc::matched();
  vc::state(vc::hashStr(what + got));
}

// ---- strings --------------------------------------------------------------------------------------
int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
// Reads a quoted rendering back with two-digit hexadecimal escapes; false if it is not readable.
bool unquote(const std::string &s, std::string &out) {
  out.clear();
  if (s.size() < 2 || s.front() != '"' || s.back() != '"') return false;
  for (size_t i = 1; i + 1 < s.size(); i++) {
    char c = s[i];
    if (c == '"' || c < 0x20 || c > 0x7e) return false;
    if (c != '\\') { out += c; continue; }
    if (++i + 1 >= s.size()) return false;
    switch (s[i]) {
    case '0': out += '\0'; break;
    case 'a': out += '\a'; break;
    case 'b': out += '\b'; break;
    case 'f': out += '\f'; break;
    case 'n': out += '\n'; break;
    case 'r': out += '\r'; break;
    case 't': out += '\t'; break;
    case 'v': out += '\v'; break;
    case '\\': out += '\\'; break;
    case '"': out += '"'; break;
    case 'x': {
      if (i + 3 >= s.size() + 0 || hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0) return false;
      out += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
      i += 2;
      break;
    }
    default: return false;
    }
  }
  return true;
}
std::string hexOf(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    char b[8];
    snprintf(b, sizeof b, "%02x ", c);
    r += b;
  }
  return r;
}
std::set<std::string> *g_shown = nullptr;
void checkString(const std::string &s) {
  std::string r = toString(s), back;
  if (!unquote(r, back)) vc::fail("bytes " + hexOf(s) + "are shown as " + r + " which is not a quoted, escaped string");
  if (back != s) vc::fail("bytes " + hexOf(s) + "are shown as " + r + " which reads as " + hexOf(back));
  vc::matched();
  vc::step();
}
} // namespace

// Every string of up to two bytes, and all longer ones over the delicate characters.
VC_SUITE(bytes, 16) {
  int a = vc::pick(256);
  if (a == 0) {
    checkString("");
    for (int b = 0; b < 256; b++) checkString(std::string(1, (char)b));
    rendered(std::string("\x01\xff\\\"\n 0"));
  }
  for (int b = 0; b < 256; b++) {
    std::string s{(char)a, (char)b};
    checkString(s);
    checkString("x" + s + "1");
    if (b % 16 == 0) rendered(s);
  }
  vc::state(a);
}
VC_SUITE(strings, 17) {
  static const char A[] = {'\0', '\x01', '\x0f', '\n', '\t', ' ', '"', '\\', '0', '1', 'a', 'n', 'x', 'F', '\x7f', '\x80', '\xff'};
  int n = sizeof A;
  std::string s;
  int first = vc::pick(n);
  s += A[first];
  int len = 1 + vc::pick(vc::thorough() ? 4 : 3);
  while ((int)s.size() < len) s += A[vc::pick(n)];
  checkString(s);
  if (s.size() < 3) {
    expect(s.c_str(), toString(std::string(s.c_str())), "C string");
    expect(std::vector<std::string>{s, s}, "[" + toString(s) + ", " + toString(s) + "]", "vector of strings");
  }
  vc::state(vc::hashStr(s));
  vc::outcome(std::to_string(s.size()));
  if (s.size() == 3 && first < 3) vc::sample(hexOf(s) + "-> " + toString(s));
}

// ---- numbers, characters, booleans ----------------------------------------------------------------
VC_SUITE(scalars, 1) {
  int i = vc::pick(256);
  expect((char)i, std::to_string((int)(char)i), "char");
  expect((unsigned char)i, std::to_string(i), "unsigned char");
  expect((signed char)i, std::to_string((int)(signed char)i), "signed char");
  expect(i % 2 == 1, i % 2 ? "true" : "false", "bool");
  expect(i * 16777259 - 5, std::to_string(i * 16777259 - 5), "int");
  expect((uint64_t)-1 - i, std::to_string((uint64_t)-1 - i), "uint64_t");
  expect((int64_t)(((uint64_t)1 << 63) + i), std::to_string((int64_t)(((uint64_t)1 << 63) + i)), "int64_t");
  expect((short)(i * 257), std::to_string((short)(i * 257)), "short");
  expect(std::vector<signed char>{(signed char)i}, "[" + std::to_string((int)(signed char)i) + "]", "vector of int8_t");
  expect(std::make_pair((char)i, i % 2 == 0), "(" + std::to_string((int)(char)i) + ", " + (i % 2 ? "false" : "true") + ")", "pair of char and bool");
}

// ---- structure ------------------------------------------------------------------------------------
namespace {
struct Opaque { int x; };
struct Mine { int x; };
void showValue(const Mine &m, std::ostream &os) { os << "mine" << m.x; }
struct Streamed { int x; };
std::ostream &operator<<(std::ostream &os, const Streamed &m) { return os << "streamed" << m.x; }
bool operator<(const Mine &a, const Mine &b) { return a.x < b.x; }
// element renderings as the reference expects them
std::string txt(int x) { return std::to_string(x); }
std::string txt(bool b) { return b ? "true" : "false"; }
std::string txt(char c) { return std::to_string((int)c); }
std::string txt(const Opaque &) { return "<\?\?\?>"; }
std::string txt(const Mine &m) { return "mine" + std::to_string(m.x); }
std::string txt(const Streamed &m) { return "streamed" + std::to_string(m.x); }
std::string txt(const std::string &s) {
  std::string r = "\"";
  for (char c : s) r += c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '\n' ? "\\n" : std::string(1, c);
  return r + "\"";
}
template <typename A, typename B> std::string txt(const std::pair<A, B> &p);
template <typename... T> std::string txt(const std::tuple<T...> &t);
template <typename T> std::string txt(const Maybe<T> &m);
template <typename T> std::string txt(const std::vector<T> &v);
template <typename T> std::string txt(const std::set<T> &v);
template <typename C> std::string refC(const C &c, const char *l, const char *r) {
  std::string s = l;
  bool first = true;
  for (const auto &e : c) { if (!first) s += ", "; first = false; s += txt(e); }
  return s + r;
}
template <typename A, typename B> std::string txt(const std::pair<A, B> &p) { return "(" + txt(p.first) + ", " + txt(p.second) + ")"; }
template <typename Tup, size_t... I> std::string refT(const Tup &t, std::index_sequence<I...>) {
  std::vector<std::string> v{txt(std::get<I>(t))...};
  std::string s = "(";
  for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + v[i];
  return s + ")";
}
template <typename... T> std::string txt(const std::tuple<T...> &t) { return refT(t, std::index_sequence_for<T...>()); }
template <typename T> std::string txt(const Maybe<T> &m) { return m ? txt(*m) : "Nothing"; }
template <typename T> std::string txt(const std::vector<T> &v) { return refC(v, "[", "]"); }
template <typename T> std::string txt(const std::set<T> &v) { return refC(v, "{", "}"); }

// unordered: each element once, in some order
template <typename C>
void expectUnordered(const C &c, const char *what) {
  std::string want = refC(c, "{", "}"); // iteration order of the container itself
  expect(c, want, what);
}
template <typename T>
struct Values;
template <> struct Values<int> { static int at(int i) { static const int v[] = {0, -3, 12}; return v[i]; } };
template <> struct Values<bool> { static bool at(int i) { return i == 1; } };
template <> struct Values<char> { static char at(int i) { return "a\n,"[i]; } };
template <> struct Values<std::string> { static std::string at(int i) { static const char *v[] = {"", "a, b", "]\"\\"}; return v[i]; } };
template <> struct Values<Opaque> { static Opaque at(int i) { return {i}; } };
template <> struct Values<Mine> { static Mine at(int i) { return {i}; } };
template <> struct Values<Streamed> { static Streamed at(int i) { return {i}; } };
template <typename A, typename B> struct Values<std::pair<A, B>> { static std::pair<A, B> at(int i) { return {Values<A>::at(i), Values<B>::at(2 - i)}; } };
template <typename T> struct Values<Maybe<T>> { static Maybe<T> at(int i) { return i == 0 ? Maybe<T>() : Maybe<T>(Values<T>::at(i)); } };
template <typename T> struct Values<std::vector<T>> { static std::vector<T> at(int i) { std::vector<T> v; for (int k = 0; k < i; k++) v.push_back(Values<T>::at(k)); return v; } };
template <typename T> struct Values<std::set<T>> { static std::set<T> at(int i) { std::set<T> v; for (int k = 0; k < i; k++) v.insert(Values<T>::at(k)); return v; } };
template <typename A, typename B, typename C> struct Values<std::tuple<A, B, C>> { static std::tuple<A, B, C> at(int i) { return std::make_tuple(Values<A>::at(i), Values<B>::at((i + 1) % 3), Values<C>::at((i + 2) % 3)); } };

template <typename T>
std::vector<T> pickValues(int max) {
  std::vector<T> v;
  int n = vc::pick(max + 1);
  for (int i = 0; i < n; i++) v.push_back(Values<T>::at(vc::pick(3)));
  return v;
}
template <typename T>
void sequences() {
  auto v = pickValues<T>(3);
  std::string want = refC(v, "[", "]");
  expect(v, want, "vector");
  expect(std::deque<T>(v.begin(), v.end()), want, "deque");
  expect(std::list<T>(v.begin(), v.end()), want, "list");
  expect(std::forward_list<T>(v.begin(), v.end()), want, "forward_list");
  expect(std::vector<std::vector<T>>{v, {}, v}, "[" + want + ", [], " + want + "]", "nested vector");
  if (v.size() == 3) expect(std::array<T, 3>{{v[0], v[1], v[2]}}, want, "array");
  if (v.size() == 2) {
    T a = v[0], b = v[1];
    expect(std::array<T, 2>{{v[0], v[1]}}, want, "array");
    expect(std::make_pair(a, b), "(" + txt(a) + ", " + txt(b) + ")", "pair");
    expect(std::make_tuple(a, b, 7), "(" + txt(a) + ", " + txt(b) + ", 7)", "tuple");
    expect(std::make_pair(v, std::make_tuple(a)), "(" + want + ", (" + txt(a) + "))", "pair of vector and tuple");
    expect(std::make_tuple(a, std::make_tuple(), b, v), "(" + txt(a) + ", (), " + txt(b) + ", " + want + ")", "tuple with an empty one");
    expect(Maybe<std::pair<T, T>>(std::make_pair(a, b)), "(" + txt(a) + ", " + txt(b) + ")", "optional pair");
  }
  if (v.size() == 1) {
    expect(Maybe<T>(v[0]), txt(v[0]), "optional");
    expect(v[0], txt(v[0]), "element");
    expect(std::make_tuple(v[0]), "(" + txt(v[0]) + ")", "tuple of one");
    expect(Maybe<Maybe<T>>(Maybe<T>(v[0])), txt(v[0]), "optional optional");
  }
  if (v.empty()) {
    expect(Maybe<T>(), "Nothing", "empty optional");
    expect(std::tuple<>(), "()", "empty tuple");
    expect(std::array<T, 0>(), "[]", "empty array");
  }
  {
    std::ostringstream os;
    showCollection("<<", ">>", v, os);
    VC_CHECK(os.str() == refC(v, "<<", ">>"), "showCollection gives " << os.str());
  }
  auto copy = v;
  expect(seq::fromContainer(copy), want, "sequence");
  // pointers: the pointee, then the address
  for (auto &e : v) {
    T x = e;
    T *p = &x;
    std::ostringstream addr;
    addr << std::hex << std::showbase << (const void *)p;
    std::string pw = txt(x) + " (" + addr.str() + ")";
    expect(p, pw, "pointer");
    if (!std::is_same<T, char>::value) { // that would be a C string
      const T *cp = p;
      expect(cp, pw, "pointer to const");
    }
    expect(std::vector<T *>{p, p}, "[" + pw + ", " + pw + "]", "vector of pointers");
    auto sp = std::make_shared<T>(x);
    std::ostringstream sa;
    sa << std::hex << std::showbase << (const void *)sp.get();
    expect(sp, txt(x) + " (" + sa.str() + ")", "shared_ptr");
    std::unique_ptr<T> up(new T(x));
    std::ostringstream ua;
    ua << std::hex << std::showbase << (const void *)up.get();
    expect(up, txt(x) + " (" + ua.str() + ")", "unique_ptr");
    T **pp = &p;
    std::ostringstream ppa;
    ppa << std::hex << std::showbase << (const void *)pp;
    expect(pp, pw + " (" + ppa.str() + ")", "pointer to pointer");
  }
}
template <typename T>
void isNull(const T &v, const char *what) {
  std::string s = rendered(v);
  if (s.find("null") == std::string::npos) vc::fail(std::string(what) + " that is null is shown as " + s);
  std::string in = rendered(std::make_pair(7, 8));
  (void)in;
  vc::matched();
}
template <typename T>
void nulls() {
  isNull(static_cast<T *>(nullptr), "pointer");
  isNull(std::shared_ptr<T>(), "shared_ptr");
  isNull(std::unique_ptr<T>(), "unique_ptr");
  T *p = nullptr;
  T **pp = &p;
  isNull(pp, "pointer to pointer");
  isNull(std::make_pair(p, 3), "pair");
  isNull(std::vector<std::shared_ptr<T>>(2), "vector of shared_ptr");
  isNull(Maybe<T *>(p), "optional pointer");
}
template <typename T>
void sets() {
  auto v = pickValues<T>(3);
  std::set<T> s(v.begin(), v.end());
  expect(s, refC(s, "{", "}"), "set");
  std::multiset<T> m(v.begin(), v.end());
  expect(m, refC(m, "{", "}"), "multiset");
  std::map<T, int> mp;
  std::multimap<T, std::vector<T>> mm;
  int i = 0;
  for (auto &e : v) {
    mp[e] = i++;
    mm.emplace(e, std::vector<T>(i % 3, e));
  }
  expect(mp, refC(mp, "{", "}"), "map");
  expect(mm, refC(mm, "{", "}"), "multimap");
}
template <typename T>
void hashed() {
  auto v = pickValues<T>(3);
  expectUnordered(std::unordered_set<T>(v.begin(), v.end()), "unordered_set");
  expectUnordered(std::unordered_multiset<T>(v.begin(), v.end()), "unordered_multiset");
  std::unordered_map<T, T> m;
  std::unordered_multimap<T, std::pair<int, T>> mm;
  int i = 0;
  for (auto &e : v) {
    m[e] = v[0];
    mm.emplace(e, std::make_pair(i++, e));
  }
  expectUnordered(m, "unordered_map");
  expectUnordered(mm, "unordered_multimap");
}
} // namespace
VC_SUITE(seqInt, 1) { sequences<int>(); }
VC_SUITE(seqChar, 1) { sequences<char>(); }
VC_SUITE(seqString, 1) { sequences<std::string>(); }
VC_SUITE(seqOpaque, 1) { sequences<Opaque>(); }
VC_SUITE(seqMine, 1) { sequences<Mine>(); }
VC_SUITE(seqStreamed, 1) { sequences<Streamed>(); }
VC_SUITE(seqPair, 1) { sequences<std::pair<int, std::string>>(); }
VC_SUITE(seqMaybe, 1) { sequences<Maybe<int>>(); }
VC_SUITE(seqVector, 1) { sequences<std::vector<std::string>>(); }
VC_SUITE(seqTuple, 1) { sequences<std::tuple<int, Mine, std::string>>(); }
VC_SUITE(seqSet, 1) { sequences<std::set<int>>(); }
VC_SUITE(setsInt, 1) { sets<int>(); }
VC_SUITE(setsString, 1) { sets<std::string>(); }
VC_SUITE(setsPair, 1) { sets<std::pair<int, std::string>>(); }
VC_SUITE(setsVector, 1) { sets<std::vector<int>>(); }
VC_SUITE(setsChar, 1) { sets<char>(); }
VC_SUITE(hashInt, 1) { hashed<int>(); }
VC_SUITE(hashString, 1) { hashed<std::string>(); }
VC_SUITE(boolVector, 1) {
  auto v = pickValues<bool>(4);
  expect(v, refC(v, "[", "]"), "vector<bool>");
}
VC_SUITE(null, 1) {
  switch (vc::pick(6)) {
  case 0: nulls<int>(); break;
  case 1: nulls<std::string>(); break;
  case 2: nulls<Opaque>(); break;
  case 3: nulls<std::vector<int>>(); break;
  case 4: nulls<Mine>(); break;
  case 5:
    isNull(static_cast<const char *>(nullptr), "C string");
    isNull(std::vector<const char *>{"a", nullptr}, "vector of C strings");
    expect(std::vector<const char *>{"a", "\n"}, "[\"a\", \"\\n\"]", "vector of C strings");
    break;
  }
}
// Pointers of every kind: the value they point at (if there is one) and the address, nothing else that lies in memory.
namespace {
std::string hexOf(const volatile void *p) {
  std::ostringstream os;
  os << const_cast<const void *>(p);
  return os.str();
}
void pointerIs(const std::string &got, const std::string &value, const volatile void *p, const char *what) {
  VC_CHECK(got.find(hexOf(p)) != std::string::npos, what << " is shown without its address: " << got);
  VC_CHECK(got.substr(0, value.size()) == value, what << " to " << value << " is shown as " << got);
  VC_CHECK(got.size() <= value.size() + hexOf(p).size() + 3, what << " to " << value << " is shown with more than value and address: " << got);
  vc::step();
}
template <typename T>
void pointersTo(T value, const std::string &want, const char *what) {
  struct {
    T x[1];
    char after[32];
  } m{{value}, "XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX"};
  T *p = m.x;
  pointerIs(rendered(p), want, p, what);
  const T *c = m.x;
  if (!std::is_same<T, char>::value) pointerIs(rendered(c), want, p, what);
  std::string in = rendered(std::vector<T *>{p});
  VC_CHECK(in == "[" + rendered(p) + "]", what << " in a vector is shown as " << in);
  std::unique_ptr<T> u(new T(value));
  std::ostringstream os;
  show(u, os);
  pointerIs(os.str(), want, u.get(), what);
  auto s = std::make_shared<T>(value);
  pointerIs(rendered(s), want, s.get(), what);
  T **pp = &p;
  std::string two = rendered(pp);
  VC_CHECK(two.substr(0, want.size()) == want && two.find(hexOf(p)) != std::string::npos && two.find(hexOf(pp)) != std::string::npos, what << ": pointer to pointer shown as " << two);
}
int someFunction(int x) { return x; }
} // namespace
VC_SUITE(pointers, 1) {
  int k = vc::pick(11);
  switch (k) {
  case 0: pointersTo<int>(42, "42", "int *"); break;
  case 1: pointersTo<char>('A', "65", "char *"); break;
  case 2: pointersTo<signed char>('A', "65", "signed char *"); break;
  case 3: pointersTo<unsigned char>(200, "200", "unsigned char *"); break;
  case 4: pointersTo<wchar_t>(L'A', "65", "wchar_t *"); break;
  case 5: pointersTo<bool>(true, "true", "bool *"); break;
  case 6: pointersTo<Opaque>(Opaque{1}, "<\?\?\?>", "pointer to a type without operator"); break;
  case 7: pointersTo<Mine>(Mine{7}, "mine7", "pointer to a user type"); break;
  case 8: pointersTo<int64_t>(-5, "-5", "int64_t *"); break;
  case 9: {
    volatile int v = 3;
    volatile int *pv = &v;
    std::string got = rendered(pv);
    VC_CHECK(got.find(hexOf(pv)) != std::string::npos, "volatile pointer shown without its address: " << got);
    break;
  }
  case 10: {
    int x = 5;
    void *p = &x;
    const void *c = &x;
    pointerIs(rendered(p), "", p, "void *");
    pointerIs(rendered(c), "", p, "const void *");
    pointerIs(rendered(std::shared_ptr<void>(p, [](void *) {})), "", p, "shared_ptr<void>");
    isNull(static_cast<void *>(nullptr), "void *");
    isNull(static_cast<int (*)(int)>(nullptr), "function pointer");
    pointerIs(rendered(&someFunction), "", (const void *)&someFunction, "function pointer");
    break;
  }
  }
  vc::matched();
  vc::state((uint64_t)k);
}
VC_SUITE(anyVariant, 1) {
  using detail::Any;
  using V = detail::Variant<int, std::string, Streamed, Maybe<char>>;
  int i = vc::pick(3), k = vc::pick(4);
  if (k == 0) {
    expect(V(Values<int>::at(i)), txt(Values<int>::at(i)), "variant");
    auto a = Any::of(Values<int>::at(i));
    expect(a, txt(Values<int>::at(i)), "any");
  }
  if (k == 1) {
    auto a = Any::of(Values<std::string>::at(i));
    expect(a, txt(Values<std::string>::at(i)), "any");
  }
  if (k == 2) expect(V(Streamed{i}), txt(Streamed{i}), "variant");
  if (k == 3) expect(V(Maybe<char>(Values<char>::at(i))), txt(Values<char>::at(i)), "variant");
}
// Rendering never consumes or changes a value: sequences, optional values, containers of them.
VC_SUITE(unchanged, 1) {
  int n = vc::pick(4), drop = vc::pick(3);
  auto s = seq::range(0, n);
  for (int i = 0; i < drop; i++) s.next();
  std::string first = rendered(s), second = rendered(s);
  VC_CHECK(first == second, "shown twice: " << first << " and " << second);
  std::vector<int> want, got;
  for (int i = drop; i < n; i++) want.push_back(i);
  while (auto v = s.next()) got.push_back(*v);
  VC_CHECK(got == want, "after being shown the sequence yields " << vc::strv(got));
  VC_CHECK(first == refC(want, "[", "]"), "sequence shown as " << first);
  // infinite sequences are cut
  auto inf = seq::iterate(0, [](int x) { return x + 1; });
  std::string t = toString(inf);
  VC_CHECK(t.size() < 100000 && t.find("...") != std::string::npos && t.substr(0, 10) == "[0, 1, 2, ", "infinite sequence shown as " << t.substr(0, 40));
  vc::matched();
  vc::state(vc::mix(n, drop));
}
// The message of a distribution leaves the stream alone.
VC_SUITE(reports, 1) {
  int c = vc::pick(4), d = vc::pick(kDress);
  detail::TestResult r = detail::Error("e");
  if (c == 0) { detail::SuccessResult s; s.numSuccess = 3; s.distribution[{"a", "b"}] = 2; s.distribution[{"c"}] = 1; r = s; }
  if (c == 1) { detail::FailureResult f; f.numSuccess = 3; f.description = "d"; f.counterExample = {{"n", "v"}}; f.reproduce.shrinkPath = {1}; f.reproduce.size = 0; r = f; }
  if (c == 2) { detail::GaveUpResult g; g.numSuccess = 2; g.description = "d"; r = g; }
  std::ostringstream os;
  dress(os, d);
  auto before = of(os);
  printResultMessage(r, os);
  VC_CHECK(of(os) == before, "printing a result changes the settings of the stream");
  vc::matched();
  vc::state(vc::mix(c, d));
}
// Type names: complete, recursive, distinct.
namespace {
template <typename T> std::string tn() { return detail::typeToString<T>(); }
}
VC_SUITE(types, 1) {
  struct E { std::string got, want; };
  std::vector<E> es = {
      {tn<int>(), "int"}, {tn<const int>(), "const int"}, {tn<volatile int>(), "volatile int"}, {tn<const volatile int>(), "const volatile int"},
      {tn<int &>(), "int &"}, {tn<int &&>(), "int &&"}, {tn<const int &>(), "const int &"}, {tn<int *>(), "int *"}, {tn<int **>(), "int **"}, {tn<int ***>(), "int ***"},
      {tn<const int *>(), "const int *"}, {tn<std::string>(), "std::string"}, {tn<std::wstring>(), "std::wstring"}, {tn<std::u16string>(), "std::u16string"}, {tn<std::u32string>(), "std::u32string"},
      {tn<std::vector<std::string>>(), "std::vector<std::string>"}, {tn<std::deque<int>>(), "std::deque<int>"}, {tn<std::list<int>>(), "std::list<int>"}, {tn<std::forward_list<int>>(), "std::forward_list<int>"},
      {tn<std::set<int>>(), "std::set<int>"}, {tn<std::multiset<int>>(), "std::multiset<int>"}, {tn<std::map<int, std::string>>(), "std::map<int, std::string>"}, {tn<std::multimap<int, bool>>(), "std::multimap<int, bool>"},
      {tn<std::unordered_set<int>>(), "std::unordered_set<int>"}, {tn<std::unordered_multiset<int>>(), "std::unordered_multiset<int>"}, {tn<std::unordered_map<int, bool>>(), "std::unordered_map<int, bool>"},
      {tn<std::unordered_multimap<int, bool>>(), "std::unordered_multimap<int, bool>"}, {tn<std::array<int, 3>>(), "std::array<int, 3>"}, {tn<std::pair<int, std::vector<bool>>>(), "std::pair<int, std::vector<bool>>"},
      {tn<std::tuple<>>(), "std::tuple<>"}, {tn<std::tuple<int>>(), "std::tuple<int>"}, {tn<std::tuple<int, std::string, bool>>(), "std::tuple<int, std::string, bool>"},
      {tn<std::unique_ptr<int>>(), "std::unique_ptr<int>"}, {tn<std::shared_ptr<std::string>>(), "std::shared_ptr<std::string>"},
      {tn<std::map<std::pair<int, bool>, std::vector<std::tuple<std::string, const int *>>>>(), "std::map<std::pair<int, bool>, std::vector<std::tuple<std::string, const int *>>>"}};
  int i = vc::pick((int)es.size());
  VC_CHECK(es[i].got == es[i].want, "type shown as " << es[i].got << " instead of " << es[i].want);
  for (size_t k = 0; k < es.size(); k++)
    if ((int)k != i) VC_CHECK(es[k].got != es[i].got, "two types are both shown as " << es[i].got);
  vc::matched();
  vc::state(i);
}

// Long values: nothing is left out.
VC_SUITE(longValues, 4) {
  static const size_t N[] = {50, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4096, 4097, 10000, 65535, 65536, 65537};
  size_t n = N[vc::pick(vc::thorough() ? 25 : 22)];
  int kind = vc::pick(5);
  std::string want;
  auto list = [&](const char *a, const char *b, const std::function<std::string(size_t)> &f) {
    want = a;
    for (size_t i = 0; i < n; i++) want += (i ? ", " : "") + f(i);
    want += b;
  };
  auto num = [](size_t i) { return std::to_string(i); };
  std::string got;
  switch (kind) {
  case 0: {
    std::vector<int> v;
    for (size_t i = 0; i < n; i++) v.push_back((int)i);
    list("[", "]", num);
    got = toString(v);
    break;
  }
  case 1: {
    std::set<int> v;
    for (size_t i = 0; i < n; i++) v.insert((int)i);
    list("{", "}", num);
    got = toString(v);
    break;
  }
  case 2: {
    std::map<int, std::string> v;
    for (size_t i = 0; i < n; i++) v[(int)i] = "v";
    list("{", "}", [](size_t i) { return "(" + std::to_string(i) + ", \"v\")"; });
    got = toString(v);
    break;
  }
  case 3: {
    std::list<std::vector<int>> v;
    for (size_t i = 0; i < n; i++) v.push_back({(int)i});
    list("[", "]", [](size_t i) { return "[" + std::to_string(i) + "]"; });
    got = toString(v);
    break;
  }
  default: {
    std::string s;
    for (size_t i = 0; i < n; i++) s += char(i * 7);
    checkString(s);
    break;
  }
  }
  VC_CHECK(got == want, "a value of " << n << " elements (kind " << kind << ") is not shown completely: " << got.size() << " characters instead of " << want.size());
  auto tup = std::make_tuple(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, std::string("x"));
  VC_CHECK(toString(tup) == "(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, \"x\")", "tuple of twelve: " << toString(tup));
  vc::matched();
  vc::step(n);
  vc::state((uint64_t)(n * 8 + kind));
}
