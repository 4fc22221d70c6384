#include "vc.h"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <chrono>

namespace vc {
namespace {

std::vector<SuiteDef> &suites() {
  static std::vector<SuiteDef> s;
  return s;
}

struct Point {
  int n;
  int c;
  bool free;
};

// Shared with the driver: lets it see progress and, after a crash, the choices of the fatal execution.
struct Live {
  uint64_t execs;
  uint32_t npoints;
  uint32_t done;
  int16_t choice[16384];
};

struct Explorer {
  std::vector<int> prefix, prefixN;
  std::vector<Point> trace;
  size_t pos = 0;
  bool replay = false;
  int shard = 0, nshards = 1;
  bool thorough = false;
  uint64_t seed = 1;

  long execs = 0, transitions = 0, matched = 0, choices = 0;
  std::unordered_set<uint64_t> states, outcomes;
  bool statesFull = false;
  std::vector<std::string> samples;
  std::vector<std::string> notes;
  bool capped = false;
  bool failed = false;
  std::string failMsg;
  Live *live = nullptr;
};

Explorer *E = nullptr;
constexpr size_t kMaxStates = 30000000;

std::string jsonEsc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    default:
      if (c < 0x20 || c > 0x7e) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        o += b;
      } else {
        o += c;
      }
    }
  }
  return o;
}

void runOnce(const Body &body) {
  E->pos = 0;
  E->trace.clear();
  E->notes.clear();
  E->failed = false;
  E->failMsg.clear();
  if (E->live) {
    E->live->npoints = 0;
    E->live->execs = E->execs + 1;
  }
  try {
    body();
  } catch (const Stop &) {
  } catch (const std::exception &e) {
    if (!E->failed) {
      E->failed = true;
      E->failMsg = std::string("unexpected exception escaped: ") + e.what();
    }
  } catch (...) {
    if (!E->failed) {
      E->failed = true;
      E->failMsg = "unexpected non-standard exception escaped";
    }
  }
  E->execs++;
}

} // namespace

int registerSuite(SuiteDef d) {
  suites().push_back(std::move(d));
  return 0;
}

static int decide(int n, bool isFree) {
  if (n < 1) {
    fprintf(stderr, "harness error: choose(%d)\n", n);
    _exit(3);
  }
  int c;
  if (E->pos < E->prefix.size()) {
    c = E->prefix[E->pos];
    if (c >= n || (E->pos < E->prefixN.size() && E->prefixN[E->pos] != n)) {
      // Replay divergence.  The bodies take every decision through choose(), so this means the code under
      // test behaved differently than in an earlier execution with the same decisions: hidden state.
      fail("behaviour differs between two executions with identical inputs (hidden state): decision " +
           std::to_string(E->pos) + " had " +
           std::to_string(E->pos < E->prefixN.size() ? E->prefixN[E->pos] : -1) + " alternatives, now " +
           std::to_string(n));
    }
  } else {
    c = 0;
    if (E->pos == 0 && E->nshards > 1) {
      c = E->shard;
      if (c >= n) c = -1;
    }
  }
  if (c < 0) {
    // empty shard
    E->trace.push_back({n, n, isFree});
    throw Stop{};
  }
  E->trace.push_back({n, c, isFree});
  if (E->live && E->live->npoints < 16384) {
    E->live->choice[E->live->npoints] = static_cast<int16_t>(c);
    E->live->npoints++;
  }
  E->pos++;
  E->choices++;
  return c;
}

int choose(int n, const char *) { return decide(n, false); }
int pick(int n, const char *) { return decide(n, true); }

bool replaying() { return E->replay; }
std::vector<int> ahead() {
  return E->pos < E->prefix.size() ? std::vector<int>(E->prefix.begin() + E->pos, E->prefix.end()) : std::vector<int>();
}
void state(uint64_t h) {
  if (E->states.size() < kMaxStates) E->states.insert(h);
  else E->statesFull = true;
}
uint64_t hashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ULL;
  }
  return mix(h, s.size());
}
void state(const std::string &s) { state(hashStr(s)); }
void outcome(const std::string &s) {
  if (E->outcomes.size() < 2000000) E->outcomes.insert(hashStr(s));
}
void step(long n) { E->transitions += n; }
void matched(long n) { E->matched += n; }
void sample(const std::string &s) {
  // keep the first, then exponentially rarer ones
  static long seen = 0;
  seen++;
  if (E->samples.size() < 5 && (seen & (seen - 1)) == 0) E->samples.push_back(s.substr(0, 400));
}
void note(const std::string &s) {
  if (E->notes.size() < 400) E->notes.push_back(s);
}
void failSoft(const std::string &msg) {
  if (!E->failed) {
    E->failed = true;
    E->failMsg = msg;
  }
}
void fail(const std::string &msg) {
  failSoft(msg);
  throw Stop{};
}
bool failed() { return E->failed; }
bool thorough() { return E->thorough; }
uint64_t seed() { return E->seed; }
int shard() { return E->shard; }
int nshards() { return E->nshards; }

static void writeReplay(const std::string &path, const std::string &suite, const std::vector<int> &ch,
                        const std::string &msg, const std::vector<std::string> &notes) {
  std::ofstream f(path);
  f << "suite " << suite << "\n";
  f << "choices";
  for (int c : ch) f << " " << c;
  f << "\n# " << msg << "\n";
  for (auto &n : notes) f << "# | " << n << "\n";
}

int mainImpl(int argc, char **argv) {
  std::string suite, out, live, replayFile, replayOut;
  int shard = 0;
  bool list = false, thoroughFlag = false;
  uint64_t seed = 1;
  double budget = 1e9;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nextArg = [&] { return std::string(argv[++i]); };
    if (a == "--list") list = true;
    else if (a == "--suite") suite = nextArg();
    else if (a == "--shard") shard = std::stoi(nextArg());
    else if (a == "--out") out = nextArg();
    else if (a == "--live") live = nextArg();
    else if (a == "--replay") replayFile = nextArg();
    else if (a == "--replay-out") replayOut = nextArg();
    else if (a == "--thorough") thoroughFlag = true;
    else if (a == "--budget") budget = std::stod(nextArg());
    else if (a == "--seed") seed = std::stoull(nextArg());
  }
  static Explorer ex;
  E = &ex;
  ex.thorough = thoroughFlag;
  ex.seed = seed;
  if (list) {
    for (auto &s : suites()) printf("%s %d\n", s.name, s.shards);
    return 0;
  }
  if (!replayFile.empty()) {
    std::ifstream f(replayFile);
    std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "suite") is >> suite;
      if (k == "choices") {
        int c;
        while (is >> c) ex.prefix.push_back(c);
      }
    }
  }
  SuiteDef *def = nullptr;
  for (auto &s : suites())
    if (s.name == suite) def = &s;
  if (!def) {
    fprintf(stderr, "no such suite %s\n", suite.c_str());
    return 3;
  }
  Opts o;
  def->config(o);
  if (!replayFile.empty()) {
    ex.replay = true;
    runOnce(def->body);
    if (ex.failed) {
      printf("REPRODUCED %s\n", ex.failMsg.c_str());
      for (auto &n : ex.notes) printf("  | %s\n", n.c_str());
      return 1;
    }
    printf("NOT REPRODUCED\n");
    return 0;
  }
  ex.shard = shard;
  ex.nshards = def->shards;
  if (!live.empty()) {
    int fd = open(live.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(Live)) == 0) {
      void *p = mmap(nullptr, sizeof(Live), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) ex.live = static_cast<Live *>(p);
    }
    if (fd >= 0) close(fd);
  }
  auto t0 = std::chrono::steady_clock::now();
  std::string verdict = "ok", msg;
  std::vector<int> badChoices;
  while (true) {
    runOnce(def->body);
    if (ex.failed) {
      // confirm: replay the same choices and demand the same failure
      std::vector<int> ch;
      for (auto &p : ex.trace) ch.push_back(p.c);
      std::string m1 = ex.failMsg;
      ex.prefix = ch;
      ex.prefixN.clear();
      bool wasReplay = ex.replay;
      ex.replay = true;
      runOnce(def->body);
      ex.replay = wasReplay;
      if (!ex.failed) {
        // Deterministic given the choices would fail again; a failure that needs the history of
        // earlier executions in this process is still a failure of the code (hidden state): keep it.
        verdict = "violation";
        msg = m1 + "  (seen only after the earlier executions of this run)";
      } else {
        verdict = "violation";
        msg = m1;
      }
      badChoices = ch;
      break;
    }
    if (o.maxExecs >= 0 && ex.execs >= o.maxExecs) {
      ex.capped = true;
      break;
    }
    if ((ex.execs & 63) == 0 || budget < 1e8) {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) {
        ex.capped = true;
        break;
      }
    }
    // next choice sequence
    auto tr = ex.trace;
    bool more = false;
    while (!tr.empty()) {
      auto &p = tr.back();
      int inc = (tr.size() == 1 && ex.nshards > 1) ? ex.nshards : 1;
      int dev = 0;
      if (o.maxDev >= 0) {
        for (size_t i = 0; i + 1 < tr.size(); i++) dev += (tr[i].c != 0) && !tr[i].free;
        if (!p.free) dev += 1;
      }
      if (p.c + inc < p.n && (o.maxDev < 0 || dev <= o.maxDev)) {
        p.c += inc;
        more = true;
        break;
      }
      tr.pop_back();
    }
    if (!more) break;
    ex.prefix.clear();
    ex.prefixN.clear();
    for (auto &p : tr) {
      ex.prefix.push_back(p.c);
      ex.prefixN.push_back(p.n);
    }
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (verdict == "violation" && !replayOut.empty())
    writeReplay(replayOut, suite, badChoices, msg, ex.notes);
  std::ostringstream js;
  js << "{\"suite\":\"" << suite << "\",\"shard\":" << shard << ",\"verdict\":\"" << verdict << "\",\"msg\":\""
     << jsonEsc(msg) << "\",\"executions\":" << ex.execs << ",\"transitions\":" << ex.transitions + ex.choices
     << ",\"states\":" << ex.states.size() << ",\"matched\":" << ex.matched << ",\"outcomes\":" << ex.outcomes.size()
     << ",\"capped\":" << (ex.capped ? "true" : "false") << ",\"wall\":" << wall << ",\"maxdev\":" << o.maxDev
     << ",\"samples\":[";
  for (size_t i = 0; i < ex.samples.size(); i++) js << (i ? "," : "") << "\"" << jsonEsc(ex.samples[i]) << "\"";
  js << "]}\n";
  if (!out.empty()) {
    std::ofstream f(out);
    f << js.str();
  } else {
    std::cout << js.str();
    for (auto &n : ex.notes)
      if (verdict == "violation") std::cout << "  | " << n << "\n";
  }
  fflush(nullptr);
  if (ex.live) ex.live->done = 1;
  _exit(verdict == "violation" ? 1 : 0);
}

} // namespace vc

#ifndef VC_NO_MAIN
int main(int argc, char **argv) { return vc::mainImpl(argc, argv); }
#endif
