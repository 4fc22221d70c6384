// Controlled concurrency for the harness of C23.  The scenario and rapidcheck are compiled with
// -fsanitize=thread, but linked against mt_rt.cpp instead of libtsan: it serialises the threads, lets the
// explorer decide at every synchronisation operation which thread goes on, and checks every other memory access
// with vector clocks (happens-before races), freed blocks included.
//
// Every execution runs in a forked child, so function-local statics are new in each of them.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace mt {
// Runs `body` in a child; decisions are the explorer's, violations are reported through vc::fail.
void session(const std::function<void()> &body);
// Inside a session: runs the functions as threads 1..n under the scheduler until all have ended.
void parallel(const std::vector<std::function<void()>> &threads);
[[noreturn]] void fail(const std::string &msg); // inside a session
void outcome(const std::string &s);             // inside a session: hashed into the execution's state
int self();
} // namespace mt
