// Virtual time and environment events.  clock_gettime() and select() are
// interposed: the control loop's timers run against a virtual clock that only
// advances when the daemon is idle, and scripted environment events (bus
// traffic, signals, file changes) are injected at exact virtual instants.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace vt
{
constexpr int64_t ms = 1000000ll;
constexpr int64_t sec = 1000000000ll;
constexpr int64_t never = INT64_MAX / 4;

void reset();                 // back to time 0, no events, virtual time on
void real();                  // virtual time off (pass-through)
int64_t now();                // virtual ns since reset
void set(int64_t ns);         // jump
void advance(int64_t ns);
int64_t epochMs();            // wall clock the code under test sees, in ms

// Event at virtual time t (ordered by t, then insertion).
void at(int64_t t, std::function<void()> fn);
void clearEvents();
// Called when the daemon would sleep past this instant (once).
void deadline(int64_t t, std::function<void()> fn);
// Called on every idle wait, before time advances.
void onIdle(std::function<void()> fn);
uint64_t idleCount();

// Paths with the given prefix are redirected into dir (fopen/open/stat).
void redirect(const std::string& prefix, const std::string& dir);
} // namespace vt
