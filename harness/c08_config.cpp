// C08: configuration strings.
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/Configuration.h"
#include "detail/MapParser.h"
#include "detail/ParseException.h"
#include "detail/StringSerialization.h"
#include <algorithm>
#include <climits>
#include <cstdlib>
#include <map>
#include <sys/wait.h>
#include <unistd.h>

using namespace rc;
using namespace rc::detail;

namespace {
using Map = std::map<std::string, std::string>;

std::string vis(const std::string &s) {
  std::string r = "<";
  for (unsigned char c : s) {
    if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + ">";
}

// Reference reading of the grammar: pairs `key`, `key=` or `key=value` separated by white space, white space
// allowed around '='; a key or value starting with a quote extends to the matching quote, backslash making the
// next character literal; an unquoted key ends at '=' or white space, an unquoted value at white space.
struct RefParse {
  Map map;
  bool error = false;      // a quote is not closed
  bool emptyKey = false;   // outside the grammar: no key where one is needed
};
RefParse refParse(const std::string &s) {
  RefParse r;
  size_t i = 0;
  auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  auto skip = [&] { while (i < s.size() && ws(s[i])) i++; };
  // returns false on an unclosed quote
  auto word = [&](std::string &out, bool key) {
    out.clear();
    if (i < s.size() && (s[i] == '"' || s[i] == '\'')) {
      char q = s[i++];
      for (;;) {
        if (i >= s.size()) return false;
        if (s[i] == q) {
          i++;
          return true;
        }
        if (s[i] == '\\') {
          i++;
          if (i >= s.size()) return false;
        }
        out += s[i++];
      }
    }
    while (i < s.size() && !ws(s[i]) && !(key && s[i] == '=')) out += s[i++];
    return true;
  };
  for (;;) {
    skip();
    if (i >= s.size()) return r;
    std::string k, v;
    if (!word(k, true)) {
      r.error = true;
      return r;
    }
    if (k.empty()) {
      r.emptyKey = true;
      return r;
    }
    skip();
    if (i < s.size() && s[i] == '=') {
      i++;
      skip();
      if (!word(v, false)) {
        r.error = true;
        return r;
      }
    }
    r.map[k] = v;
  }
}

std::string showMap(const Map &m) {
  std::string s = "{";
  for (auto &p : m) s += vis(p.first) + ":" + vis(p.second) + " ";
  return s + "}";
}

void checkParse(const std::string &s) {
  RefParse ref = refParse(s);
  try {
    Map m = parseMap(s);
    VC_CHECK(!ref.error, vis(s) << " is accepted although a quote is not closed");
    if (!ref.emptyKey) VC_CHECK(m == ref.map, vis(s) << " parses to " << showMap(m) << " instead of " << showMap(ref.map));
    for (auto &p : ref.map)   // pairs before a malformed one
      if (!ref.emptyKey) VC_CHECK(m.count(p.first), "key lost");
    vc::outcome(ref.emptyKey ? "no key" : "parsed");
  } catch (const ParseException &e) {
    VC_CHECK(ref.error || ref.emptyKey, vis(s) << " is rejected: " << e.what());
    VC_CHECK(e.position() <= s.size() && !e.message().empty() && std::string(e.what()).find(e.message()) != std::string::npos, "parse error without position or message for " << vis(s));
    vc::outcome("rejected");
  } catch (const std::exception &e) {
    vc::fail("parsing " + vis(s) + " throws " + e.what());
  }
  // and as a configuration
  try {
    Configuration d;
    d.testParams.maxSize = 77;
    Configuration c = configFromString(s, d);
    VC_CHECK(!ref.error, vis(s) << " is accepted as a configuration");
    if (!ref.emptyKey) VC_CHECK(c == d, vis(s) << " changed the configuration to " << c << " without naming a parameter");
  } catch (const ConfigurationException &e) {
    VC_CHECK(ref.error || ref.emptyKey, vis(s) << " is rejected as a configuration: " << e.what());
    VC_CHECK(std::string(e.what()).size() > 0, "empty message");
  } catch (const std::exception &e) {
    vc::fail("reading configuration " + vis(s) + " throws " + e.what());
  }
  vc::step(2);
  vc::matched();
}
} // namespace

// Every string up to a length over the characters the grammar distinguishes.
VC_SUITE(strings, 56, {}) {
  static const char cs[] = {'a', 'b', '=', ' ', '\'', '"', '\\'};
  int first = vc::pick(56, "length, first");
  int len = first / 7;
  if (len > (vc::thorough() ? 7 : 6)) return;
  std::string s;
  for (int i = 0; i < len; i++) s += cs[i ? vc::pick(7, "char") : first % 7];
  if (!len && first % 7) return;
  checkParse(s);
  vc::state(s);
}
// All bytes at every place of short templates.
VC_SUITE(bytes, 256, {}) {
  char c = (char)vc::pick(256, "byte");
  static const char *templates[] = {"@", "@a=b", "a@=b", "a=@b", "a=b@", "'@'=b", "a='@'", "a=\"\\@\"", "a=b @ c=d", "a @= b", "'\\@'", "a=b@c=d", "\"@", "a@", "a=b '@@'=@"};
  std::string t = templates[vc::pick(15, "template")];
  std::string s;
  for (char x : t) s += x == '@' ? c : x;
  checkParse(s);
  vc::state(vis(s));
}
// Maps written and read back, both quote styles.
VC_SUITE(mapRoundtrip, 11, {}) {
  static const char cs[] = {'a', '=', ' ', '\'', '"', '\\', '\n', '\t', '\0', '\xff', 'Z'};
  int n = 11;
  std::string k(1, cs[vc::pick(n, "char")]);
  int lk = vc::pick(3, "key length");
  for (int i = 0; i < lk; i++) k += cs[vc::pick(n, "char")];
  std::string v;
  int lv = vc::pick(vc::thorough() ? 4 : 3, "value length");
  for (int i = 0; i < lv; i++) v += cs[vc::pick(n, "char")];
  Map m{{k, v}};
  int more = vc::pick(3, "others");
  if (more > 0) m.insert({"b", more == 1 ? "" : "x y"});
  if (more > 1) m.insert({"", std::string()}), m.erase("");
  for (bool dq : {true, false}) {
    std::string s = mapToString(m, dq);
    try {
      Map back = parseMap(s);
      VC_CHECK(back == m, showMap(m) << " is written as " << vis(s) << " and read back as " << showMap(back));
    } catch (const std::exception &e) {
      vc::fail(showMap(m) + " is written as " + vis(s) + " which is rejected: " + e.what());
    }
    vc::step();
  }
  vc::matched();
  vc::outcome("map");
}

namespace {
struct Param {
  const char *key;
  int kind;   // 0 uint64, 1 non-negative int, 2 bool
};
const Param kParams[] = {{"seed", 0}, {"max_success", 1}, {"max_size", 1}, {"max_discard_ratio", 1}, {"noshrink", 2}, {"verbose_progress", 2}, {"verbose_shrinking", 2}};
void setParam(Configuration &c, int i, uint64_t v) {
  switch (i) {
  case 0: c.testParams.seed = v; break;
  case 1: c.testParams.maxSuccess = (int)v; break;
  case 2: c.testParams.maxSize = (int)v; break;
  case 3: c.testParams.maxDiscardRatio = (int)v; break;
  case 4: c.testParams.disableShrinking = v; break;
  case 5: c.verboseProgress = v; break;
  case 6: c.verboseShrinking = v; break;
  }
}
Reproduce simple(int k) {
  Reproduce r;
  r.random = Random(uint64_t(k) * 0x9E3779B97F4A7C15ULL);
  for (int i = 0; i < k; i++) r.random.split();
  r.size = k * 37;
  for (int i = 0; i < k; i++) r.shrinkPath.push_back(i * 100);
  return r;
}
std::unordered_map<std::string, Reproduce> repMap(int k) {
  std::unordered_map<std::string, Reproduce> m;
  if (k == 1) m["id"] = simple(0);
  if (k == 2) m["a/b c=\"d\\'"] = simple(2), m[""] = simple(1), m["\xc3\xa9"] = simple(70);
  return m;
}
Configuration defaultsOf(int k) {
  Configuration d;
  if (k == 1) {
    d.testParams.seed = 5;
    d.testParams.maxSuccess = 7;
    d.testParams.maxSize = 9;
    d.testParams.maxDiscardRatio = 3;
    d.testParams.disableShrinking = true;
    d.verboseProgress = true;
    d.verboseShrinking = true;
    d.reproduce = repMap(1);
  }
  return d;
}
bool sameConfig(const Configuration &a, const Configuration &b) {
  return a.testParams.seed == b.testParams.seed && a.testParams.maxSuccess == b.testParams.maxSuccess && a.testParams.maxSize == b.testParams.maxSize &&
      a.testParams.maxDiscardRatio == b.testParams.maxDiscardRatio && a.testParams.disableShrinking == b.testParams.disableShrinking &&
      a.verboseProgress == b.verboseProgress && a.verboseShrinking == b.verboseShrinking && a.reproduce == b.reproduce;
}
void inDomain(const Configuration &c, const std::string &s) {
  VC_CHECK(c.testParams.maxSuccess >= 0 && c.testParams.maxSize >= 0 && c.testParams.maxDiscardRatio >= 0, "values outside the documented domain accepted from " << vis(s));
}

// A value text and what it must mean.
struct Val {
  const char *text;
  int cls;            // 0: number, 1: not a number at all, 2: readable either way (must be rejected or mean `v`)
  unsigned __int128 v;
};
unsigned __int128 big(uint64_t hi, uint64_t lo) { return (unsigned __int128)hi << 64 | lo; }
const std::vector<Val> &vals() {
  static const std::vector<Val> v = {{"0", 0, 0}, {"1", 0, 1}, {"2", 0, 2}, {"100", 0, 100}, {"2147483646", 0, 2147483646}, {"2147483647", 0, 2147483647}, {"2147483648", 0, 2147483648u},
    {"4294967295", 0, 4294967295u}, {"4294967296", 0, 4294967296ull}, {"9223372036854775807", 0, 9223372036854775807ull}, {"9223372036854775808", 0, 9223372036854775808ull},
    {"18446744073709551615", 0, ~0ull}, {"18446744073709551616", 0, big(1, 0)}, {"18446744073709551617", 0, big(1, 1)}, {"99999999999999999999999999", 0, big(~0ull, 0)},
    {"", 1, 0}, {"abc", 1, 0}, {"x1", 1, 0}, {"-", 1, 0}, {"true", 1, 0}, {"''", 1, 0}, {"\"\"", 1, 0}, {"=", 1, 0}, {".5", 1, 0}, {"foo=1", 1, 0},
    {"'1'", 0, 1}, {"\"1\"", 0, 1}, {"'\\1'", 0, 1}, {"\"\\0\"", 0, 0}, {"'1\\00'", 0, 100},
    {"10abc", 2, 10}, {"1.5", 2, 1}, {"1e3", 2, 1}, {"0x10", 2, 0}, {"+7", 2, 7}, {"+1", 2, 1}, {"' 1'", 2, 1}, {"'1 '", 2, 1}, {"007", 0, 7}, {"01", 0, 1}, {"00", 0, 0}, {"-0", 2, 0}};
  return v;
}
const char *kNegative[] = {"-1", "-2147483648", "-2147483649", "-99999999999999999999"};
} // namespace

// One or two parameters given, every kind of value text, against every default.
VC_SUITE(params, 49, {}) {
  int pp = vc::pick(49, "two parameters");
  int p1 = pp / 7, p2 = pp % 7;
  const auto &vs = vals();
  int n = (int)vs.size() + 4;
  int a = vc::pick(n, "value");
  static const int second[] = {-1, 0, 1, 5, 6, 11, 12, 16, 15};
  int b = second[vc::pick(9, "second value")];
  int def = vc::pick(2, "defaults");
  int style = vc::pick(4, "style");
  Configuration want = defaultsOf(def);
  bool reject = false, either = false;
  std::string blame;
  Configuration got;
  std::string s;
  bool freeSeed = false;   // seed given as something without a documented meaning
  auto add = [&](int p, int vi) {
    std::string text = vi < (int)vs.size() ? vs[vi].text : kNegative[vi - vs.size()];
    std::string key = kParams[p].key;
    if (style == 1) key = "'" + key + "'";
    if (style == 2) key = "\"" + key.substr(0, 2) + "\\" + key.substr(2) + "\"";
    s += (s.empty() ? (style == 3 ? " \n" : "") : (style == 3 ? "\t\v " : " ")) + key + (style == 3 ? "  =\t" : "=") + text;
    bool rej = false, eith = false;
    uint64_t v = 0;
    if (vi >= (int)vs.size()) {
      if (kParams[p].kind == 0) freeSeed = true;
      else rej = true;
    } else {
      const Val &x = vs[vi];
      unsigned __int128 max = kParams[p].kind == 0 ? (unsigned __int128)~0ull : kParams[p].kind == 1 ? (unsigned __int128)INT_MAX : (unsigned __int128)1;
      if (x.cls == 1 || x.v > max) rej = true;
      else {
        v = (uint64_t)x.v;
        if (x.cls == 2) eith = true;
      }
    }
    if (rej) {
      reject = true;
      blame += std::string(" ") + kParams[p].key;
    }
    if (eith) either = true, blame += std::string(" ") + kParams[p].key;
    if (!rej) setParam(want, p, v);
  };
  // a later duplicate replaces an earlier pair altogether
  if (b >= 0 && p1 == p2) {
    std::string head = std::string(kParams[p1].key) + "=" + (a < (int)vs.size() ? vs[a].text : kNegative[a - vs.size()]);
    s = head;
    // the empty texts would swallow the following word
    if (std::string(a < (int)vs.size() ? vs[a].text : "x").empty()) return;
    add(p2, b);
  } else {
    if (b >= 0 && std::string(a < (int)vs.size() ? vs[a].text : "x").empty()) return;
    add(p1, a);
    if (b >= 0) add(p2, b);
  }
  if (s.find("= ") != std::string::npos && style != 3) return;
  vc::step();
  try {
    got = configFromString(s, defaultsOf(def));
  } catch (const ConfigurationException &e) {
    VC_CHECK(reject || either || freeSeed, vis(s) << " is rejected: " << e.what());
    std::string w = e.what();
    bool names = freeSeed && w.find("seed") != std::string::npos;
    for (auto &p : kParams)
      if (blame.find(p.key) != std::string::npos && w.find(p.key) != std::string::npos) names = true;
    VC_CHECK(names, "error for " << vis(s) << " does not name the parameter: " << w);
    vc::outcome("rejected");
    vc::matched();
    return;
  } catch (const std::exception &e) {
    vc::fail("reading " + vis(s) + " throws " + e.what());
  }
  VC_CHECK(!reject, vis(s) << " is accepted as " << got);
  inDomain(got, s);
  if (freeSeed) want.testParams.seed = got.testParams.seed;
  VC_CHECK(sameConfig(got, want), vis(s) << " gives " << got << " instead of " << want);
  vc::matched();
  vc::outcome("accepted");
  vc::state(s + std::to_string(def));
}

// Unknown keys, missing values, several parameters, order, and the reproduce parameter.
VC_SUITE(mixed, 6, {}) {
  static const char *toks[] = {"seed=3", "max_success=4", "max_size = 5", "noshrink=1", "unknown=abc", "flag", "'quoted key'=\"quoted value\"", "reproduce=AA", "seed='6'", "verbose_progress=1", "max_discard_ratio\t=\n8", "Seed=9"};
  int n = vc::thorough() ? 5 : 4;
  std::string s;
  Configuration want = defaultsOf(1);
  int first = vc::pick(6, "first");
  for (int i = 0; i < n; i++) {
    int t = i ? vc::pick(12, "token") : first;
    s += std::string(i ? " " : "") + toks[t];
    switch (t) {
    case 0: want.testParams.seed = 3; break;
    case 1: want.testParams.maxSuccess = 4; break;
    case 2: want.testParams.maxSize = 5; break;
    case 3: want.testParams.disableShrinking = true; break;
    case 7: want.reproduce.clear(); break;
    case 8: want.testParams.seed = 6; break;
    case 9: want.verboseProgress = true; break;
    case 10: want.testParams.maxDiscardRatio = 8; break;
    }
  }
  try {
    Configuration got = configFromString(s, defaultsOf(1));
    VC_CHECK(sameConfig(got, want), vis(s) << " gives " << got << " instead of " << want);
  } catch (const std::exception &e) {
    vc::fail(vis(s) + " is rejected: " + e.what());
  }
  vc::step();
  vc::matched();
  vc::state(s);
}

// Every configuration value survives being printed.
VC_SUITE(values, 40, {}) {
  static const uint64_t seeds[] = {0, 1, 1ULL << 63, ~0ULL, 10000000000000000000ULL};
  static const int ints[] = {0, 1, 10, 99, 100, 101, 1000, INT_MAX};
  int first = vc::pick(40, "seed, max_success");
  Configuration c;
  c.testParams.seed = seeds[first / 8];
  c.testParams.maxSuccess = ints[first % 8];
  c.testParams.maxSize = ints[vc::pick(8, "max_size")];
  static const int ratios[] = {0, 1, 9, 10, 11, 100, INT_MAX};
  c.testParams.maxDiscardRatio = ratios[vc::pick(7, "ratio")];
  c.testParams.disableShrinking = vc::pick(2);
  c.verboseProgress = vc::pick(2);
  c.verboseShrinking = vc::pick(2);
  c.reproduce = repMap(vc::pick(3));
  std::string full = configToString(c), minimal = configToMinimalString(c);
  try {
    for (int d = 0; d < 2; d++) {
      Configuration back = configFromString(full, defaultsOf(d));
      VC_CHECK(sameConfig(back, c), "printed as " << vis(full) << " and read back (defaults " << d << ") as " << back);
      VC_CHECK(back == c && !(back != c), "equal configurations compare different");
    }
    Configuration back = configFromString(minimal);
    VC_CHECK(sameConfig(back, c), "printed minimally as " << vis(minimal) << " and read back as " << back);
    Map mm = parseMap(minimal), fm = parseMap(full);
    VC_CHECK(mm.count("seed"), "minimal form " << vis(minimal) << " does not give the seed");
    Map dm = parseMap(configToString(Configuration()));
    for (auto &p : fm) {
      bool differs = !dm.count(p.first) || dm[p.first] != p.second;
      if (p.first != "seed") VC_CHECK((mm.count(p.first) != 0) == differs, "minimal form " << vis(minimal) << (differs ? " lacks " : " repeats the default of ") << p.first);
    }
    for (auto &p : mm) VC_CHECK(fm.count(p.first) && fm[p.first] == p.second, "minimal form has " << p.first << " differently");
    VC_CHECK(vc::str(c) == full, "streaming gives another text than configToString");
  } catch (const std::exception &e) {
    vc::fail("configuration " + vis(full) + " / " + vis(minimal) + " is not read back: " + e.what());
  }
  // equality sees every field
  for (int f = 0; f < 8; f++) {
    Configuration o = c;
    if (f < 7) {
      uint64_t cur[] = {c.testParams.seed, (uint64_t)c.testParams.maxSuccess, (uint64_t)c.testParams.maxSize, (uint64_t)c.testParams.maxDiscardRatio, c.testParams.disableShrinking, c.verboseProgress, c.verboseShrinking};
      setParam(o, f, f >= 4 ? !cur[f] : cur[f] ^ 1);
    } else {
      o.reproduce["id"] = simple(5);
    }
    VC_CHECK(o != c && !(o == c), "configurations differing in field " << f << " compare equal");
  }
  vc::step(5);
  vc::matched();
  vc::state(full);
  vc::outcome("value");
}

// Parameters nobody sets have their documented defaults, wherever they come from.
// Every single-character slip in a reproduce string: replaced, dropped, doubled, cut off.
// A great many pairs, and very long ones: all of them are read, and a known parameter among them counts wherever it is.
VC_SUITE(many, 24, {}) {
  static const std::vector<int> ns{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4096, 65536};
  int n = ns[vc::pick((int)ns.size(), "count")], kind = vc::pick(4, "kind");
  if (kind == 0 || kind == 1) { // n pairs, one parameter at every or a few positions
    std::vector<int> at;
    for (int i = 0; i <= n; i++)
      if (n <= 33 || i < 2 || i + 2 > n || i == n / 2) at.push_back(i);
    for (int pos : at) {
      Map want;
      std::string text;
      for (int i = 0; i <= n; i++) {
        std::string key = i == pos ? "max_success" : "key" + std::to_string(i);
        std::string value = i == pos ? "77" : kind == 0 ? std::to_string(i) : "v " + std::to_string(i);
        want[key] = value;
        text += (i ? " " : "") + key + "=" + (kind == 0 ? value : "\"" + value + "\"");
      }
      Map got;
      try {
        got = parseMap(text);
      } catch (const std::exception &e) {
        vc::fail(std::to_string(n) + " pairs are not read: " + e.what());
      }
      VC_CHECK(got == want, n << " pairs: " << got.size() << " of " << want.size() << " are read, or with other values");
      VC_CHECK(parseMap(mapToString(got)) == want, n << " pairs are not read back from the printed text");
      try { // (keys of no known parameter may be an error, but must not change what the known ones say)
        auto c = configFromString(text);
        VC_CHECK(c.testParams.maxSuccess == 77, n << " pairs: max_success at position " << pos << " is " << c.testParams.maxSuccess);
        Configuration o;
        o.testParams.maxSuccess = 77;
        o.testParams.seed = c.testParams.seed;
        VC_CHECK(sameConfig(c, o), n << " pairs: other parameters change");
      } catch (const ConfigurationException &) {
      }
      vc::step(3);
    }
  } else if (kind == 2) { // keys and values of length n, plain and quoted, with escapes
    for (int form = 0; form < 4; form++) {
      std::string key(n, 'k'), value;
      for (int i = 0; i < n; i++) value += form == 0 ? char('a' + i % 26) : form == 1 ? " \"\\'="[i % 5] : form == 2 ? '\\' : (i % 2 ? '"' : 'x');
      Map want{{key, value}, {"after", "1"}};
      Map got;
      try {
        got = parseMap(mapToString(want));
      } catch (const std::exception &e) {
        vc::fail("a value of " + std::to_string(n) + " characters is not read back: " + e.what());
      }
      VC_CHECK(got == want, "a key and value of " << n << " characters (form " << form << ") change");
      std::string spaced = std::string(n, ' ') + key + std::string(n, '\t') + "=" + std::string(n, '\n') + "v" + std::string(n, ' ') + "max_size" + std::string(n, ' ') + "=" + std::string(n, ' ') + "5" + std::string(n, ' ');
      VC_CHECK(parseMap(spaced) == (Map{{key, "v"}, {"max_size", "5"}}), n << " blanks between the parts");
      vc::step(2);
    }
  } else { // reproduce data of many properties, with long ids and paths
    if (n > 4096) return;
    Configuration c;
    c.testParams.seed = 5;
    for (int i = 0; i < n; i++) {
      Reproduce r = simple(i);
      r.shrinkPath.assign(i % 7 == 3 ? n : i % 5, (size_t)i * 1000003);
      c.reproduce["id " + std::to_string(i) + std::string(i % 11 == 5 ? n : 0, '=')] = r;
    }
    if (n > 257) while (c.reproduce.size() > 300) c.reproduce.erase(c.reproduce.begin());
    try {
      auto back = configFromString(configToString(c));
      VC_CHECK(sameConfig(back, c), n << " reproduced properties are not read back");
      back = configFromString(configToMinimalString(c));
      VC_CHECK(sameConfig(back, c), n << " reproduced properties are not read back from the minimal form");
    } catch (const std::exception &e) {
      vc::fail(std::to_string(n) + " reproduced properties are not read back: " + e.what());
    }
    vc::step(2);
  }
  vc::matched();
  vc::state(std::to_string(n) + "," + std::to_string(kind));
  vc::outcome("many");
}
VC_SUITE(reproduceTypos, 24, {}) {
  int which = vc::pick(6, "map");
  std::unordered_map<std::string, Reproduce> m;
  for (int i = 0; i < 1 + which % 2; i++) {
    Reproduce r;
    r.random = Random(uint64_t(which) * 0x9E3779B97F4A7C15ULL + 3);
    for (int k = 0; k < which + i; k++) {
      Random q = r.random.split();
      if (k % 2) r.random = q;
    }
    r.size = std::vector<int>{0, 7, 100, 255, 4096, 0x7fffffff}[which];
    for (int k = 0; k < which; k++) r.shrinkPath.push_back(k * 100);
    m[i ? "another one" : "id"] = r;
  }
  const std::string good = reproduceMapToString(m);
  static const std::string chars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_ !\"'$";
  int kind = vc::pick(4, "slip");
  size_t at = vc::pick((int)good.size(), "place");
  for (size_t c = 0; c < (kind == 0 || kind == 2 ? chars.size() : 1); c++) {
    std::string s = good;
    if (kind == 0) s[at] = chars[c];
    if (kind == 1) s.erase(at, 1);
    if (kind == 2) s.insert(at, 1, chars[c]);
    if (kind == 3) s = s.substr(0, at);
    const std::string text = mapToString(Map{{"reproduce", s}});
    try {
      Configuration got = configFromString(text, Configuration());
      for (auto &p : got.reproduce)
        VC_CHECK(p.second.size >= 0, vis(text) << " is accepted and asks for a case of size " << p.second.size);
      Configuration again = configFromString(configToString(got), Configuration());
      VC_CHECK(again.reproduce == got.reproduce, vis(text) << " is accepted but changes when it is written and read again");
    } catch (const ConfigurationException &e) {
      VC_CHECK(std::string(e.what()).find("reproduce") != std::string::npos, vis(text) << " is rejected without naming the parameter: " << e.what());
    } catch (const std::exception &e) {
      vc::fail("reading " + vis(text) + " throws " + e.what());
    }
    vc::step();
  }
  vc::matched();
  vc::state(std::to_string(which) + "/" + std::to_string(kind) + "/" + std::to_string(at));
}
VC_SUITE(defaults, 1, {}) {
  int from = vc::pick(5, "source");
  TestParams p;
  Configuration c;
  if (from == 0) c.testParams = p;
  if (from == 1) c = configFromString("");
  if (from == 2) c = configFromString("unknown=1 seed=0");
  if (from == 3) c = configFromString(configToMinimalString(Configuration()));
  if (from == 4) c = configFromString(configToString(Configuration()));
  VC_CHECK(c.testParams.maxSuccess == 100, "max_success defaults to " << c.testParams.maxSuccess);
  VC_CHECK(c.testParams.maxSize == 100, "max_size defaults to " << c.testParams.maxSize);
  VC_CHECK(c.testParams.maxDiscardRatio == 10, "max_discard_ratio defaults to " << c.testParams.maxDiscardRatio);
  VC_CHECK(!c.testParams.disableShrinking && !c.verboseProgress && !c.verboseShrinking && c.reproduce.empty(), "a flag is set by default: " << c);
  vc::state(vc::str(from));
  vc::matched();
}

// The global configuration from the RC_PARAMS environment variable, each in its own process.
VC_SUITE(environment, 1, {}) {
  struct Env { const char *params; bool ok; uint64_t seed; int maxSize; };
  // Everything not given has its documented default (doc/configuration.md).
  static const Env envs[] = {{nullptr, true, 0, 100}, {"", true, 0, 100}, {"seed=17", true, 17, 100}, {"max_size=3", true, 0, 3}, {"seed='18446744073709551615' max_size=0", true, ~0ull, 0},
    {"  seed\t=\n4 noshrink=1 verbose_progress=1 reproduce=AA", true, 4, 100}, {"foo", true, 0, 100}, {"seed=x", false, 0, 0}, {"max_size=-1", false, 0, 0}, {"max_size=2147483648", false, 0, 0},
    {"seed='1", false, 0, 0}, {"reproduce=A", false, 0, 0}, {"reproduce=AB=", false, 0, 0}, {"noshrink=maybe", false, 0, 0}, {"reproduce=____", false, 0, 0}, {"max_success=", false, 0, 0}};
  const Env &e = envs[vc::pick(16, "environment")];
  int out[2], err[2];
  if (pipe(out) || pipe(err)) return;
  fflush(nullptr);
  pid_t pid = fork();
  if (!pid) {
    dup2(err[1], 2);
    dup2(out[1], 1);
    close(out[0]);
    close(err[0]);
    if (e.params) setenv("RC_PARAMS", e.params, 1);
    else unsetenv("RC_PARAMS");
    try {
      const Configuration &c = configuration();
      const Configuration &again = configuration();
      std::string s = configToString(c);
      if (&c != &again) s = "two objects";
      if (write(1, s.data(), s.size()) < 0) _exit(3);
      _exit(0);
    } catch (...) {
      _exit(2);
    }
  }
  close(out[1]);
  close(err[1]);
  auto slurp = [](int fd) {
    std::string s;
    char b[4096];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    close(fd);
    return s;
  };
  std::string eo = slurp(err[0]), oo = slurp(out[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  std::string what = std::string("RC_PARAMS=") + (e.params ? e.params : "(unset)");
  if (e.ok) {
    VC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, what << " is not accepted: " << eo);
    Configuration c;
    try {
      c = configFromString(oo);
      const std::string head = "Using configuration: ";
      size_t at = eo.find(head);
      VC_CHECK(at != std::string::npos, what << ": the configuration used is not announced: " << eo);
      std::string line = eo.substr(at + head.size());
      line = line.substr(0, line.find('\n'));
      VC_CHECK(configFromString(line) == c, what << ": announced configuration " << line << " is not the one used: " << oo);
    } catch (const ConfigurationException &x) {
      vc::fail(what + ": announced or used configuration is not readable: " + x.what());
    }
    if (e.seed) VC_CHECK(c.testParams.seed == e.seed, what << ": seed is " << c.testParams.seed);
    VC_CHECK(c.testParams.maxSize == e.maxSize, what << ": max_size is " << c.testParams.maxSize);
    bool flags = e.params && std::string(e.params).find("noshrink=1") != std::string::npos;   // the one with flags sets these two
    VC_CHECK(c.testParams.maxSuccess == 100 && c.testParams.maxDiscardRatio == 10, what << ": max_success or max_discard_ratio is not the documented default: " << c);
    VC_CHECK(c.testParams.disableShrinking == flags && c.verboseProgress == flags && !c.verboseShrinking && c.reproduce.empty(), what << ": the flags are not the documented defaults: " << c);
  } else {
    VC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) < 126, what << " is accepted or crashes, status " << st << ": " << oo);
    VC_CHECK(WEXITSTATUS(st) == 1 && eo.size() > 10, what << " ends with status " << WEXITSTATUS(st) << " and message " << vis(eo));
  }
  vc::state(what);
  vc::matched();
  vc::outcome(e.ok ? "environment accepted" : "environment rejected");
}
