#include "vtime.hpp"

#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <list>

namespace
{
constexpr int64_t epochBase = 1700000000ll * 1000000000ll;
constexpr int64_t monoBase = 1000ll * 1000000000ll;
bool on = false;
int64_t t = 0;
uint64_t idles = 0;
struct Ev
{
    int64_t t;
    std::function<void()> fn;
};
std::list<Ev>& events()
{
    static auto* l = new std::list<Ev>;
    return *l;
}
int64_t dl = vt::never;
std::function<void()>& dlFn()
{
    static auto* f = new std::function<void()>;
    return *f;
}
std::function<void()>& idleFn()
{
    static auto* f = new std::function<void()>;
    return *f;
}
std::vector<std::pair<std::string, std::string>>& redirs()
{
    static auto* v = new std::vector<std::pair<std::string, std::string>>;
    return *v;
}
const char* map(const char* p, std::string& store)
{
    if (!p)
        return p;
    for (auto& [pre, dir] : redirs())
        if (strncmp(p, pre.c_str(), pre.size()) == 0)
        {
            store = dir + (p + pre.size());
            return store.c_str();
        }
    return p;
}
} // namespace

namespace vt
{
void reset()
{
    on = true;
    t = 0;
    idles = 0;
    events().clear();
    dl = never;
    dlFn() = nullptr;
    idleFn() = nullptr;
}
void real()
{
    on = false;
}
int64_t now()
{
    return t;
}
void set(int64_t n)
{
    t = n;
}
void advance(int64_t n)
{
    t += n;
}
int64_t epochMs()
{
    return (epochBase + t) / 1000000;
}
void at(int64_t when, std::function<void()> fn)
{
    auto& l = events();
    auto it = std::find_if(l.begin(), l.end(),
                           [&](const Ev& e) { return e.t > when; });
    l.insert(it, Ev{when, std::move(fn)});
}
void clearEvents()
{
    events().clear();
}
void deadline(int64_t when, std::function<void()> fn)
{
    dl = when;
    dlFn() = std::move(fn);
}
void onIdle(std::function<void()> fn)
{
    idleFn() = std::move(fn);
}
uint64_t idleCount()
{
    return idles;
}
void redirect(const std::string& p, const std::string& d)
{
    for (auto& [q, e] : redirs())
        if (q == p)
        {
            e = d;
            return;
        }
    redirs().emplace_back(p, d);
}
} // namespace vt

extern "C"
{
int clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!on)
        return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    int64_t v = t + ((id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
                         ? epochBase
                         : monoBase);
    ts->tv_sec = v / 1000000000ll;
    ts->tv_nsec = v % 1000000000ll;
    return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* out)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out)
        *out = ts.tv_sec;
    return ts.tv_sec;
}

int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv)
{
    auto realSel = [&](int64_t usec) {
        timespec ts{usec / 1000000, (usec % 1000000) * 1000};
        return static_cast<int>(
            syscall(SYS_pselect6, n, r, w, e, &ts, nullptr));
    };
    if (!on)
    {
        if (!tv)
            return static_cast<int>(
                syscall(SYS_pselect6, n, r, w, e, nullptr, nullptr));
        return realSel(tv->tv_sec * 1000000ll + tv->tv_usec);
    }
    int64_t timeout =
        tv ? tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll : vt::never;
    int res = realSel(0);
    if (res != 0)
        return res;
    if (timeout == 0)
        return 0;
    ++idles;
    if (idleFn())
        idleFn()();
    int64_t wake = timeout >= vt::never ? vt::never : t + timeout;
    auto zero = [&] {
        if (r)
            FD_ZERO(r);
        if (w)
            FD_ZERO(w);
        if (e)
            FD_ZERO(e);
        return 0;
    };
    int64_t ev = events().empty() ? vt::never : events().front().t;
    if (ev <= wake && ev <= dl && ev < vt::never)
    {
        if (ev > t)
            t = ev;
        auto fn = std::move(events().front().fn);
        events().pop_front();
        fn();
        return zero();
    }
    if (dl < wake && dl < vt::never) // timers due at the deadline run first
    {
        if (dl > t)
            t = dl;
        auto fn = std::move(dlFn());
        dl = vt::never;
        dlFn() = nullptr;
        fn();
        return zero();
    }
    if (wake >= vt::never)
    {
        // nothing will ever happen again: stop instead of sleeping for ever
        if (dlFn())
        {
            auto fn = std::move(dlFn());
            dlFn() = nullptr;
            dl = vt::never;
            fn();
            return zero();
        }
        static const char msg[] = "vtime: idle forever\n";
        if (write(2, msg, sizeof msg - 1) < 0)
        {}
        _exit(97);
    }
    t = wake;
    return zero();
}

FILE* fopen(const char* p, const char* m)
{
    using F = FILE* (*)(const char*, const char*);
    static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "fopen"));
    std::string s;
    return f(map(p, s), m);
}
FILE* fopen64(const char* p, const char* m)
{
    using F = FILE* (*)(const char*, const char*);
    static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "fopen64"));
    std::string s;
    return f(map(p, s), m);
}
int open(const char* p, int fl, ...)
{
    using F = int (*)(const char*, int, ...);
    static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "open"));
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    std::string s;
    return f(map(p, s), fl, mode);
}
int stat(const char* p, struct stat* st)
{
    using F = int (*)(const char*, struct stat*);
    static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "stat"));
    std::string s;
    return f(map(p, s), st);
}
int stat64(const char* p, struct stat64* st)
{
    using F = int (*)(const char*, struct stat64*);
    static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "stat64"));
    std::string s;
    return f(map(p, s), st);
}
int access(const char* p, int m)
{
    using F = int (*)(const char*, int);
    static F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, "access"));
    std::string s;
    return f(map(p, s), m);
}
}
