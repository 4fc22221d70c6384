// Runs a test program of a host framework in a child process (C27): own configuration, own statics, output and
// results collected.
#pragma once
#include "vc.h"
#include "rapidcheck.h"
#include "rapidcheck/detail/Configuration.h"
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace host {
struct Shared {
  int done;
  int rc;
  size_t len;
  char text[1 << 20];
};
struct Ran {
  int rc = 0;          // what the child's function returned
  std::string text;    // what it handed over with give()
  std::string out;     // stdout
  std::string err;     // stderr
};
inline Shared *&shared() {
  static Shared *s = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return s;
}
// In the child.
inline void give(const std::string &s) {
  auto *S = shared();
  size_t n = std::min(s.size(), sizeof S->text - S->len);
  memcpy(S->text + S->len, s.data(), n);
  S->len += n;
}
inline std::string slurp(int fd) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char b[4096];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
  close(fd);
  return s;
}
inline Ran run(const std::string &params, const std::function<int()> &f, bool regularExit = false) {
  auto *S = shared();
  S->done = 0;
  S->rc = 0;
  S->len = 0;
  int o = memfd_create("out", 0), e = memfd_create("err", 0);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(3);
  }
  if (pid == 0) {
    dup2(o, 1);
    dup2(e, 2);
    alarm(60);
    setenv("RC_PARAMS", params.c_str(), 1);
    S->rc = f();
    std::cout.flush();
    std::cerr.flush();
    fflush(stdout);
    fflush(stderr);
    S->done = 1;
    if (regularExit) exit(0); // destroys statics
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  Ran r;
  r.rc = S->rc;
  r.text.assign(S->text, S->len);
  r.out = slurp(o);
  r.err = slurp(e);
  if (!S->done)
    vc::fail("the test program ended early: " + (WIFSIGNALED(st) ? std::string(strsignal(WTERMSIG(st))) : "status " + std::to_string(WEXITSTATUS(st))) + "\n" + r.err.substr(0, 500));
  return r;
}
inline std::string trim(const std::string &s) {
  auto a = s.find_first_not_of(" \t\r|"), b = s.find_last_not_of(" \t\r|");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
inline std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> v;
  std::istringstream is(s);
  std::string l;
  while (std::getline(is, l)) {
    l = trim(l);
    if (!l.empty()) v.push_back(l);
  }
  return v;
}
// Every line of the report, in order, within the text.
inline bool contains(const std::string &text, const std::string &report) {
  auto t = lines(text), r = lines(report);
  size_t i = 0;
  for (auto &l : t)
    if (i < r.size() && l.find(r[i]) != std::string::npos) i++;
  return i == r.size();
}

// --- the property every framework runs -------------------------------------------------------------------------
enum Act { Pass, Discard, Fail, Throw, Tag, kActs };
enum Body { Scripted, Threshold, GivesUp, Tags, Late, kBodies };
struct Plan {
  Body body = Scripted;
  std::vector<int> acts;   // of the executed cases, in order; afterwards everything passes
  int k = 0;
  size_t next = 0;
  int calls = 0;
};
inline Plan &plan() {
  static Plan p;
  return p;
}
inline void propertyBody(int a) {
  auto &p = plan();
  p.calls++;
  switch (p.body) {
  case Scripted:
    switch (p.next < p.acts.size() ? p.acts[p.next++] : (int)Pass) {
    case Discard: RC_DISCARD("not this one");
    case Fail: RC_FAIL("told to fail");
    case Throw: throw std::runtime_error("boom\nand more");
    case Tag: RC_TAG(std::string("tagged")); break;
    default: break;
    }
    break;
  case Threshold: RC_ASSERT(a < p.k); break;
  case GivesUp: RC_PRE(false); break;
  case Tags: RC_TAG(a % 2); break;
  case Late: // a long run which goes wrong after k passed cases
    if (p.calls > p.k) {
      if (p.acts[0] == Discard) RC_DISCARD("not this one, " + std::string(5000, 'x'));
      if (p.acts[0] == Fail) RC_FAIL("told to fail, " + std::string(5000, 'x'));
      if (p.acts[0] == Throw) throw std::runtime_error("boom\nand more, " + std::string(5000, 'x'));
    }
    break;
  default: break;
  }
}

enum Verdict { Held, Failed, Gave };
constexpr int kMax = 3; // max_success; the discard ratio is 1
inline const char *params() { return "max_success=3 max_discard_ratio=1 max_size=6 seed=7"; }
// Picks a body and says what must happen.
inline Verdict choosePlan(Plan &p) {
  p.body = (Body)vc::pick(kBodies);
  switch (p.body) {
  case Scripted: {
    int pass = 0, discard = 0;
    while (pass < kMax) {
      int a = vc::pick(kActs);
      p.acts.push_back(a);
      if (a == Fail || a == Throw) {
        // what the shrinks of the failing case do (its argument may have some)
        for (int i = 0; i < 2; i++) {
          static const int S[] = {Pass, Discard, Fail};
          p.acts.push_back(S[vc::pick(3)]);
        }
        return Failed;
      }
      if (a == Discard) {
        if (++discard > kMax) return Gave;
      } else {
        pass++;
      }
    }
    return Held;
  }
  case Threshold:
    p.k = vc::pick(8) - 2;
    return p.k > 5 ? Held : Held; // decided by the values: see expected()
  case GivesUp: return Gave;
  case Late: {
    static const int K[] = {4, 9, 10, 11, 20, 39};
    p.k = K[vc::pick(6)];
    p.acts = {vc::pick(4)};
    return p.acts[0] == Pass ? Held : p.acts[0] == Discard ? Gave : Failed;
  }
  default: return Held;
  }
}
// The verdict and the report of the same property, run without any framework.
inline std::pair<Verdict, std::string> expected() {
  auto keep = plan();
  rc::detail::TestMetadata m;
  auto r = rc::detail::checkTestable(&propertyBody, m);
  plan() = keep;
  std::ostringstream os;
  rc::detail::printResultMessage(r, os);
  if (r.template is<rc::detail::SuccessResult>())
    return {Held, r.template get<rc::detail::SuccessResult>().distribution.empty() ? "" : os.str()};
  return {r.template is<rc::detail::GaveUpResult>() ? Gave : Failed, os.str()};
}

// One exploration step for a framework.  `program` runs the host's test of the property and returns whether the
// host failed it; it hands the failure messages over with give().
inline void verdictSuite(const std::function<bool()> &program, bool runHost = true) {
  Plan p;
  Verdict v = choosePlan(p);
  auto r = run(p.body == Late ? "max_success=40 max_discard_ratio=1 max_size=6 seed=7" : params(), [&] {
    plan() = p;
    auto e = expected();
    give(std::to_string((int)e.first) + "\1" + e.second + "\1");
    plan() = p;
    bool failed = program();
    give("\1" + std::to_string(plan().calls));
    return failed ? 1 : 0;
  });
  // text: verdict \1 report \1 messages \1 calls
  std::vector<std::string> f(1);
  for (char ch : r.text) {
    if (ch == '\1') f.emplace_back();
    else f.back() += ch;
  }
  if (f.size() != 4) vc::fail("harness error: fields");
  auto e = (Verdict)atoi(f[0].c_str());
  std::string acts;
  for (int a : p.acts) acts += std::to_string(a) + " ";
  vc::note("body " + std::to_string(p.body) + " k " + std::to_string(p.k) + " acts " + acts);
  vc::note("report: " + f[1]);
  vc::note("messages: " + f[2]);
  vc::note("stdout: " + r.out);
  if (p.body != Threshold) VC_CHECK(e == v, "the property itself ended with verdict " << e << " instead of " << v);
  VC_CHECK((r.rc != 0) == (e != Held), "the host test " << (r.rc ? "failed" : "passed") << " although the property " << (e == Held ? "held" : e == Gave ? "gave up" : "was falsified") << "\n" << f[1]);
  if (e != Held) VC_CHECK(contains(f[2], f[1]), "the failure message lacks the report\n" << f[1] << "\nmessage:\n" << f[2]);
  else if (!f[1].empty()) VC_CHECK(contains(r.out, f[1]), "the distribution is not printed\n" << f[1] << "\noutput:\n" << r.out);
  VC_CHECK(atoi(f[3].c_str()) > 0, "the property was not run");
  vc::step(atoi(f[3].c_str()));
  vc::matched();
  vc::state(vc::hashStr(r.text));
  vc::outcome(e == Held ? "held" : e == Gave ? "gave up" : "failed");
}
} // namespace host
