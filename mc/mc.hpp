// Stateless explicit-state model checker: exhaustively enumerates every
// resolution of the nondeterministic choices an execution makes (depth-first,
// by re-execution), sharded over worker processes.  Executions run the real
// implementation; a violation is replayed before it is reported.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
// Not derived from std::exception so that the code under test cannot swallow
// it in a catch (const std::exception&).
struct Violation
{};

// ---- usable from inside an execution ----
int choose(int n, const char* label = "");    // free nondeterminism: 0..n-1
int chooseDev(int n, const char* label = ""); // like choose; nonzero costs 1
                                              // deviation from the default run
template <typename T>
const T& pick(const std::vector<T>& v, const char* label = "")
{
    return v[choose(static_cast<int>(v.size()), label)];
}
[[noreturn]] void fail(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void op(uint64_t n = 1);         // count transitions taken
void compare(uint64_t n = 1);    // count implementation-vs-model comparisons
void state(uint64_t h);          // record a distinct state
void outcome(uint64_t h);        // record a distinct observable outcome
void cover(const char* what);    // non-vacuity counter
bool thorough();
bool replaying();
const std::string& scratch();    // private scratch dir of this process
[[noreturn]] void endIsolated(); // end this isolated execution normally now

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 29;
    return h;
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103u)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i)
        h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
inline uint64_t hashD(double d, uint64_t h)
{
    if (d == 0)
        d = 0; // merge signed zeros
    if (d != d)
        return mix(h, 0x7ff8dead);
    return mix(h, hashBytes(&d, sizeof d));
}
inline uint64_t hashS(const std::string& s, uint64_t h)
{
    return mix(h, hashBytes(s.data(), s.size()));
}

struct Suite
{
    std::string name;
    std::function<void()> fn;
    int devQuick = 1 << 20;    // deviation bound (quick tier)
    int devThorough = 1 << 20; // deviation bound (thorough tier)
    bool isolate = false;      // fork every execution
    std::vector<std::string> mustCover; // expected non-vacuity labels
};
int addSuite(Suite s);

// nearly-equal for values computed through several floating point steps
inline bool near(double a, double b, double tol = 1e-9)
{
    if (a != a || b != b)
        return (a != a) && (b != b);
    if (a == b)
        return true;
    double d = a > b ? a - b : b - a;
    double m = (a < 0 ? -a : a) + (b < 0 ? -b : b);
    return d <= tol * (m > 1 ? m : 1);
}
} // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SUITE(...)                                                          \
    static int MC_CAT(mc_suite_, __LINE__) = mc::addSuite(mc::Suite{__VA_ARGS__})
