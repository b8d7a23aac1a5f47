#include "mc.hpp"

#include "vtime.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <streambuf>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc
{
namespace
{
constexpr int maxTrace = 2048;
constexpr int maxHashes = 1 << 14;
constexpr int maxCover = 64;

struct Choice
{
    int16_t c, n;
    bool dev;
    char label[21];
};
struct Slot
{
    std::atomic<uint64_t> heartbeat;
    std::atomic<uint64_t> execs, ops, compares, choices, diverged;
    std::atomic<int> len;   // choices made so far in the current execution
    std::atomic<int> plen;  // forced prefix length
    int16_t prefix[maxTrace];
    int16_t prefixN[maxTrace]; // arity seen when the prefix was recorded
    Choice trace[maxTrace];
    std::atomic<int> nStates, nOutcomes;
    uint64_t states[maxHashes];
    uint64_t outcomes[maxHashes];
    std::atomic<bool> violated;
    char msg[4096];
    int nCover;
    char coverName[maxCover][48];
    uint64_t coverCount[maxCover];
    std::atomic<bool> busy, done, truncated;
    std::atomic<uint64_t> distinctStates, distinctOutcomes;
    std::atomic<int> maxLen;
    std::atomic<int> curPrefix;
    // the latest executions of the process, for violations that need them
    static constexpr int maxHist = 64, maxHistLen = 256;
    std::atomic<int> nHist;
    int histLen[maxHist];
    int16_t hist[maxHist][maxHistLen];
    void remember()
    {
        int k = nHist++ % maxHist, l = len.load();
        histLen[k] = l <= maxHistLen ? l : -1;
        for (int i = 0; i < l && l <= maxHistLen; ++i)
            hist[k][i] = trace[i].c;
    }
    // the last n of them, in order
    std::vector<std::vector<int16_t>> last(int n) const
    {
        std::vector<std::vector<int16_t>> out;
        int all = nHist.load();
        for (int j = std::max({0, all - n, all - maxHist}); j < all; ++j)
            if (int k = j % maxHist; histLen[k] >= 0)
                out.emplace_back(hist[k], hist[k] + histLen[k]);
        return out;
    }
};
using History = std::vector<std::vector<int16_t>>;
struct Shared
{
    std::atomic<int> nextPrefix;
    std::atomic<bool> stop;
    int nPrefixes;
};

Slot* slot = nullptr; // slot of the running execution
bool gReplay = false;
bool gThorough = false;
bool gKeepGoing = false;
int gDev = 1 << 20;
std::string gScratch;
std::vector<Suite>& suites()
{
    static std::vector<Suite> s;
    return s;
}

int64_t realNs()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}

int doChoose(int n, const char* label, bool dev)
{
    if (n <= 0)
    {
        fprintf(stderr, "mc: choose(%d) %s\n", n, label);
        abort();
    }
    int pos = slot->len.load(std::memory_order_relaxed);
    if (pos >= maxTrace)
    {
        fprintf(stderr, "mc: trace too long\n");
        abort();
    }
    int c = pos < slot->plen.load(std::memory_order_relaxed)
                ? slot->prefix[pos]
                : 0;
    if (pos < slot->plen.load(std::memory_order_relaxed) &&
        (c >= n || (slot->prefixN[pos] && slot->prefixN[pos] != n)))
    {
        // the execution did not follow its recorded prefix: some source of
        // nondeterminism is not under the explorer's control
        slot->diverged.fetch_add(1, std::memory_order_relaxed);
        if (c >= n)
            c = n - 1;
    }
    Choice& t = slot->trace[pos];
    t.c = static_cast<int16_t>(c);
    t.n = static_cast<int16_t>(n);
    t.dev = dev;
    snprintf(t.label, sizeof t.label, "%s", label);
    slot->len.store(pos + 1, std::memory_order_relaxed);
    slot->choices.fetch_add(1, std::memory_order_relaxed);
    if (gReplay)
        note("choose %s = %d of %d%s", label, c, n, dev ? " (dev)" : "");
    return c;
}

struct NullBuf : std::streambuf
{
    int overflow(int c) override
    {
        return c == EOF ? 0 : c;
    }
    std::streamsize xsputn(const char*, std::streamsize n) override
    {
        return n;
    }
};
} // namespace

int addSuite(Suite s)
{
    suites().push_back(std::move(s));
    return 0;
}
int choose(int n, const char* label)
{
    return doChoose(n, label, false);
}
int chooseDev(int n, const char* label)
{
    return doChoose(n, label, true);
}
void fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (!slot->violated.load())
    {
        vsnprintf(slot->msg, sizeof slot->msg, fmt, ap);
        slot->violated = true;
    }
    va_end(ap);
    if (gReplay)
        note("FAIL: %s", slot->msg);
    throw Violation{};
}
void note(const char* fmt, ...)
{
    if (!gReplay)
        return;
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 2)
        n = sizeof buf - 2;
    buf[n++] = '\n';
    if (write(1, buf, n) < 0)
    {}
}
void op(uint64_t n)
{
    slot->ops.fetch_add(n, std::memory_order_relaxed);
}
void compare(uint64_t n)
{
    slot->compares.fetch_add(n, std::memory_order_relaxed);
}
void state(uint64_t h)
{
    int i = slot->nStates.load(std::memory_order_relaxed);
    if (i < maxHashes)
    {
        slot->states[i] = h;
        slot->nStates.store(i + 1, std::memory_order_relaxed);
    }
}
void outcome(uint64_t h)
{
    int i = slot->nOutcomes.load(std::memory_order_relaxed);
    if (i < maxHashes)
    {
        slot->outcomes[i] = h;
        slot->nOutcomes.store(i + 1, std::memory_order_relaxed);
    }
}
void cover(const char* what)
{
    for (int i = 0; i < slot->nCover; ++i)
        if (!strcmp(slot->coverName[i], what))
        {
            ++slot->coverCount[i];
            return;
        }
    if (slot->nCover < maxCover)
    {
        snprintf(slot->coverName[slot->nCover], 48, "%s", what);
        slot->coverCount[slot->nCover] = 1;
        ++slot->nCover;
    }
}
bool thorough()
{
    return gThorough;
}
bool replaying()
{
    return gReplay;
}
const std::string& scratch()
{
    return gScratch;
}

namespace
{
void makeScratch()
{
    const char* base = getenv("MC_SCRATCH");
    gScratch = std::string(base ? base : "/tmp") + "/mc." +
               std::to_string(getpid());
    std::filesystem::create_directories(gScratch);
}
void dropScratch()
{
    std::error_code ec;
    if (!gScratch.empty())
        std::filesystem::remove_all(gScratch, ec);
}

void silence()
{
    if (getenv("MC_STDERR"))
        return;
    static NullBuf nb;
    std::cerr.rdbuf(&nb);
    std::cout.rdbuf(&nb);
    std::clog.rdbuf(&nb);
    int fd = open("/dev/null", O_WRONLY);
    if (!gReplay)
        dup2(fd, 2);
    close(fd);
}

} // namespace
void endIsolated()
{
    slot->execs.fetch_add(1, std::memory_order_relaxed);
    slot->heartbeat.fetch_add(1, std::memory_order_relaxed);
    dropScratch();
    _exit(0);
}
namespace
{
// Run the execution described by slot->prefix in this process.
void runHere(const Suite& s)
{
    slot->len = 0;
    slot->nStates = 0;
    slot->nOutcomes = 0;
    vt::reset();
    try
    {
        s.fn();
    }
    catch (const Violation&)
    {}
    catch (const std::exception& e)
    {
        if (!slot->violated.load())
        {
            snprintf(slot->msg, sizeof slot->msg,
                     "unexpected exception escaped: %s", e.what());
            slot->violated = true;
            note("FAIL: %s", slot->msg);
        }
    }
    slot->execs.fetch_add(1, std::memory_order_relaxed);
    slot->heartbeat.fetch_add(1, std::memory_order_relaxed);
}

// Run one execution, isolated when the suite asks for it. Returns false when
// the execution crashed (message filled in).
void runOne(const Suite& s)
{
    if (!s.isolate)
    {
        runHere(s);
        return;
    }
    pid_t p = fork();
    if (p == 0)
    {
        makeScratch();
        runHere(s);
        dropScratch();
        _exit(0);
    }
    int st = 0;
    int64_t t0 = realNs();
    int waited = 0;
    while (true)
    {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p)
            break;
        usleep(waited < 200 ? 50 : 500);
        ++waited;
        if (realNs() - t0 > 40ll * 1000000000ll)
        {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            snprintf(slot->msg, sizeof slot->msg,
                     "execution did not terminate (hang or busy loop)");
            slot->violated = true;
            break;
        }
    }
    std::error_code ec;
    const char* base = getenv("MC_SCRATCH");
    std::filesystem::remove_all(std::string(base ? base : "/tmp") + "/mc." +
                                    std::to_string(p),
                                ec);
    slot->heartbeat.fetch_add(1, std::memory_order_relaxed);
    if (!slot->violated && !(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    {
        if (WIFSIGNALED(st))
            snprintf(slot->msg, sizeof slot->msg,
                     "the code under test crashed (signal %d)", WTERMSIG(st));
        else
            snprintf(slot->msg, sizeof slot->msg,
                     "the code under test exited unexpectedly (status %d)",
                     WEXITSTATUS(st));
        slot->violated = true;
    }
}

// Advance to the next execution in DFS order keeping the first `keep`
// choices.  Returns false when the subtree is exhausted.
bool advance(Slot* sl, int keep)
{
    int len = sl->len.load();
    int devs = 0;
    std::vector<int> devUpTo(len + 1, 0);
    for (int i = 0; i < len; ++i)
    {
        devUpTo[i] = devs;
        if (sl->trace[i].dev && sl->trace[i].c)
            ++devs;
    }
    for (int i = len - 1; i >= keep; --i)
    {
        const Choice& c = sl->trace[i];
        if (c.c + 1 >= c.n)
            continue;
        if (c.dev && devUpTo[i] + 1 > gDev)
            continue;
        for (int j = 0; j < i; ++j)
        {
            sl->prefix[j] = sl->trace[j].c;
            sl->prefixN[j] = sl->trace[j].n;
        }
        sl->prefix[i] = static_cast<int16_t>(c.c + 1);
        sl->prefixN[i] = c.n;
        sl->plen = i + 1;
        return true;
    }
    return false;
}

std::string esc(const std::string& s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += c;
        }
        else if ((unsigned char)c < 0x20)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += c;
    }
    return o;
}

void* shm(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(3);
    }
    return p;
}

struct Result
{
    uint64_t execs = 0, ops = 0, compares = 0, choices = 0, states = 0,
             outcomes = 0;
    int maxDepth = 0;
    bool complete = true;
    bool violated = false;
    std::string msg;
    std::vector<Choice> trace;
    History history;
    std::map<std::string, uint64_t> cover;
    double wall = 0;
    int flaky = 0;
    uint64_t diverged = 0;
};

void saveSet(const std::unordered_set<uint64_t>& s, const std::string& path)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f)
        return;
    for (uint64_t h : s)
        fwrite(&h, 8, 1, f);
    fclose(f);
}
void loadSet(std::unordered_set<uint64_t>& s, const std::string& path)
{
    FILE* f = fopen(path.c_str(), "rb");
    if (!f)
        return;
    uint64_t h;
    while (fread(&h, 8, 1, f) == 1)
        s.insert(h);
    fclose(f);
    unlink(path.c_str());
}

// Child process: replays a trace; returns true if it violates.
bool confirm(const Suite& s, const std::vector<int16_t>& prefix, Slot* sl,
             int seconds, std::string& msg, bool verbose,
             std::vector<Choice>* trace = nullptr,
             const History& history = {})
{
    sl->violated = false;
    sl->msg[0] = 0;
    auto load = [sl](const std::vector<int16_t>& prefix) {
        for (size_t i = 0; i < prefix.size(); ++i)
        {
            sl->prefix[i] = prefix[i];
            sl->prefixN[i] = 0;
        }
        sl->plen = static_cast<int>(prefix.size());
    };
    load(prefix);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0)
    {
        if (verbose)
            gReplay = true;
        slot = sl;
        makeScratch();
        silence();
        for (auto& h : history)
        {
            load(h);
            runOne(s);
            if (sl->violated)
                _exit(0);
        }
        load(prefix);
        runOne(s);
        dropScratch();
        _exit(0);
    }
    int st = 0;
    int64_t t0 = realNs();
    bool hung = false;
    while (waitpid(p, &st, WNOHANG) != p)
    {
        usleep(1000);
        if (realNs() - t0 > seconds * 1000000000ll)
        {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            hung = true;
            break;
        }
    }
    std::error_code ec;
    const char* base = getenv("MC_SCRATCH");
    std::filesystem::remove_all(std::string(base ? base : "/tmp") + "/mc." +
                                    std::to_string(p),
                                ec);
    if (trace)
    {
        trace->clear();
        for (int i = 0; i < sl->len.load(); ++i)
            trace->push_back(sl->trace[i]);
    }
    if (sl->violated)
    {
        msg = sl->msg;
        return true;
    }
    if (hung)
    {
        msg = "execution did not terminate (hang or busy loop)";
        return true;
    }
    if (WIFSIGNALED(st))
    {
        msg = "the code under test crashed (signal " +
              std::to_string(WTERMSIG(st)) + ")";
        return true;
    }
    if (WEXITSTATUS(st) != 0)
    {
        msg = "the code under test exited unexpectedly (status " +
              std::to_string(WEXITSTATUS(st)) + ")";
        return true;
    }
    return false;
}

Result explore(const Suite& s, int jobs, double budget)
{
    Result res;
    int64_t t0 = realNs();
    gDev = gThorough ? s.devThorough : s.devQuick;
    Shared* sh = static_cast<Shared*>(shm(sizeof(Shared)));
    Slot* slots = static_cast<Slot*>(shm(sizeof(Slot) * (jobs + 1)));
    constexpr int maxPrefixes = 1 << 14;
    constexpr int maxPrefixLen = 64;
    int16_t* prefTab = static_cast<int16_t*>(
        shm(sizeof(int16_t) * maxPrefixes * (maxPrefixLen + 1)));
    const char* base = getenv("MC_SCRATCH");
    std::string tmp = std::string(base ? base : "/tmp") + "/mcset." +
                      std::to_string(getpid());

    // --- frontier: split the choice tree into subtree prefixes ---
    fflush(nullptr);
    pid_t fp = fork();
    if (fp == 0)
    {
        slot = &slots[jobs];
        makeScratch();
        silence();
        std::vector<std::vector<int16_t>> cur{{}}, leaves;
        const size_t target = s.isolate ? 64 : 256;
        while (!cur.empty() && cur.size() + leaves.size() < target)
        {
            std::vector<std::vector<int16_t>> nxt;
            for (auto& p : cur)
            {
                for (size_t i = 0; i < p.size(); ++i)
                {
                    slot->prefix[i] = p[i];
                    slot->prefixN[i] = 0;
                }
                slot->plen = static_cast<int>(p.size());
                runOne(s);
                if (slot->violated)
                {
                    dropScratch();
                    _exit(0);
                }
                slot->remember();
                if (slot->len.load() <= (int)p.size() ||
                    p.size() >= maxPrefixLen)
                {
                    leaves.push_back(p);
                    continue;
                }
                int devs = 0;
                for (size_t i = 0; i < p.size(); ++i)
                    if (slot->trace[i].dev && slot->trace[i].c)
                        ++devs;
                const Choice& c = slot->trace[p.size()];
                int lim = (c.dev && devs + 1 > gDev) ? 1 : c.n;
                for (int k = 0; k < lim; ++k)
                {
                    auto q = p;
                    q.push_back(static_cast<int16_t>(k));
                    nxt.push_back(std::move(q));
                }
            }
            if (nxt.size() + leaves.size() > maxPrefixes)
                break;
            cur = std::move(nxt);
        }
        for (auto& p : leaves)
            cur.push_back(p);
        int n = 0;
        for (auto& p : cur)
        {
            int16_t* e = prefTab + n * (maxPrefixLen + 1);
            e[0] = static_cast<int16_t>(p.size());
            for (size_t i = 0; i < p.size(); ++i)
                e[i + 1] = p[i];
            ++n;
        }
        sh->nPrefixes = n;
        dropScratch();
        _exit(0);
    }
    auto wait1 = [&](pid_t pid, Slot* sl, int hangS, bool& hung) {
        int st = 0;
        uint64_t hb = ~0ull;
        int64_t t = realNs();
        hung = false;
        while (waitpid(pid, &st, WNOHANG) != pid)
        {
            usleep(500);
            if (sl->heartbeat.load() != hb)
            {
                hb = sl->heartbeat.load();
                t = realNs();
            }
            else if (realNs() - t > hangS * 1000000000ll)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                hung = true;
                break;
            }
        }
        return st;
    };
    auto traceOf = [](Slot* sl) {
        std::vector<int16_t> v;
        for (int i = 0; i < sl->len.load(); ++i)
            v.push_back(sl->trace[i].c);
        // forced choices not yet consumed when the process died
        return v;
    };
    bool hung = false;
    int st = wait1(fp, &slots[jobs], 45, hung);
    auto report = [&](Slot* sl) {
        auto tr = traceOf(sl);
        static Slot past;
        past.nHist = sl->nHist.load();
        memcpy(past.histLen, sl->histLen, sizeof past.histLen);
        memcpy(past.hist, sl->hist, sizeof past.hist);
        std::string orig = sl->violated ? sl->msg : "crash or hang";
        std::string msg;
        std::vector<Choice> full;
        for (int k = 0; k < 3; ++k)
            if (confirm(s, tr, &slots[jobs], 60, msg, false, &full))
            {
                res.violated = true;
                res.msg = msg;
                res.trace = full;
                return true;
            }
        // It may take what earlier executions left behind in the process:
        // state that the code keeps where it should not.
        for (int n = 1; !s.isolate && n <= Slot::maxHist; n *= 4)
        {
            auto h = past.last(n);
            if (h.empty() ||
                !confirm(s, tr, &slots[jobs], 60, msg, false, &full, h))
                continue;
            res.violated = true;
            res.msg = msg + " (after " + std::to_string(h.size()) +
                      " earlier executions in the same process)";
            res.trace = full;
            res.history = h;
            return true;
        }
        res.flaky++;
        fprintf(stderr, "mc: unconfirmed in suite %s: %s\n", s.name.c_str(),
                orig.c_str());
        return false;
    };
    if (slots[jobs].violated || hung || st != 0)
    {
        if (!report(&slots[jobs]))
        {
            // could not be reproduced alone: retry the frontier once in a
            // fresh process is pointless if state leaked; treat as violation
            res.violated = true;
            res.msg = std::string("not reproducible in isolation: ") +
                      slots[jobs].msg;
        }
        res.wall = (realNs() - t0) / 1e9;
        res.execs = slots[jobs].execs;
        return res;
    }

    int64_t deadline = t0 + static_cast<int64_t>(budget * 1e9);
    std::vector<pid_t> pids(jobs, 0);
    std::vector<int64_t> lastT(jobs, realNs());
    std::vector<uint64_t> lastHb(jobs, 0);
    std::vector<int> gen(jobs, 0);
    auto spawn = [&](int w, bool resume) {
        fflush(nullptr);
        pid_t p = fork();
        if (p)
        {
            pids[w] = p;
            lastT[w] = realNs();
            return;
        }
        slot = &slots[w];
        slot->nHist = 0;
        makeScratch();
        silence();
        std::unordered_set<uint64_t> S, O;
        bool first = resume;
        while (!sh->stop.load())
        {
            int idx;
            int keep;
            bool have = true;
            if (first)
            {
                idx = slot->curPrefix;
                keep = prefTab[idx * (maxPrefixLen + 1)];
                have = advance(slot, keep);
                first = false;
            }
            else
            {
                idx = sh->nextPrefix.fetch_add(1);
                if (idx >= sh->nPrefixes)
                    break;
                int16_t* e = prefTab + idx * (maxPrefixLen + 1);
                keep = e[0];
                for (int i = 0; i < keep; ++i)
                {
                    slot->prefix[i] = e[i + 1];
                    slot->prefixN[i] = 0;
                }
                slot->plen = keep;
                slot->curPrefix = idx;
            }
            slot->busy = true;
            while (have)
            {
                runOne(s);
                int l = slot->len.load();
                if (l > slot->maxLen)
                    slot->maxLen = l;
                for (int i = 0; i < slot->nStates; ++i)
                    S.insert(slot->states[i]);
                for (int i = 0; i < slot->nOutcomes; ++i)
                    O.insert(slot->outcomes[i]);
                if (slot->violated)
                {
                    saveSet(S, tmp + ".s." + std::to_string(getpid()));
                    saveSet(O, tmp + ".o." + std::to_string(getpid()));
                    dropScratch();
                    _exit(0);
                }
                slot->remember();
                if (sh->stop.load())
                    break;
                if (realNs() > deadline)
                {
                    slot->truncated = true;
                    break;
                }
                have = advance(slot, keep);
            }
            slot->busy = false;
            if (slot->truncated)
                break;
        }
        saveSet(S, tmp + ".s." + std::to_string(getpid()));
        saveSet(O, tmp + ".o." + std::to_string(getpid()));
        slot->done = true;
        dropScratch();
        _exit(0);
    };
    for (int w = 0; w < jobs; ++w)
        spawn(w, false);
    std::vector<pid_t> all;
    int live = jobs;
    std::vector<bool> alive(jobs, true);
    std::unordered_set<uint64_t> S, O;
    auto absorb = [&](pid_t p) {
        loadSet(S, tmp + ".s." + std::to_string(p));
        loadSet(O, tmp + ".o." + std::to_string(p));
    };
    while (live > 0)
    {
        usleep(500);
        for (int w = 0; w < jobs; ++w)
        {
            if (!alive[w])
                continue;
            int wst = 0;
            bool dead = waitpid(pids[w], &wst, WNOHANG) == pids[w];
            bool hang = false;
            if (!dead)
            {
                uint64_t hb = slots[w].heartbeat.load();
                if (hb != lastHb[w] || !slots[w].busy)
                {
                    lastHb[w] = hb;
                    lastT[w] = realNs();
                }
                else if (realNs() - lastT[w] > 45ll * 1000000000ll)
                {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &wst, 0);
                    dead = hang = true;
                }
                if (!dead)
                    continue;
            }
            absorb(pids[w]);
            std::error_code ec;
            std::filesystem::remove_all(
                std::string(base ? base : "/tmp") + "/mc." +
                    std::to_string(pids[w]),
                ec);
            if (slots[w].violated || hang || wst != 0)
            {
                if (!res.violated && report(&slots[w]))
                {
                    sh->stop = true;
                }
                if (res.violated || gen[w] > 5)
                {
                    alive[w] = false;
                    --live;
                    if (!res.violated)
                    {
                        res.complete = false;
                    }
                    continue;
                }
                // unreproducible: go on after it
                slots[w].violated = false;
                slots[w].msg[0] = 0;
                ++gen[w];
                spawn(w, true);
                continue;
            }
            alive[w] = false;
            --live;
        }
    }
    for (int w = 0; w <= jobs; ++w)
    {
        res.execs += slots[w].execs;
        res.ops += slots[w].ops;
        res.compares += slots[w].compares;
        res.choices += slots[w].choices;
        res.diverged += slots[w].diverged;
        res.maxDepth = std::max(res.maxDepth, slots[w].maxLen.load());
        if (slots[w].truncated)
            res.complete = false;
        for (int i = 0; i < slots[w].nCover; ++i)
            res.cover[slots[w].coverName[i]] += slots[w].coverCount[i];
    }
    if (res.violated)
        res.complete = false;
    res.states = S.size();
    res.outcomes = O.size();
    res.wall = (realNs() - t0) / 1e9;
    munmap(slots, sizeof(Slot) * (jobs + 1));
    munmap(sh, sizeof(Shared));
    munmap(prefTab, sizeof(int16_t) * maxPrefixes * (maxPrefixLen + 1));
    return res;
}
} // namespace
} // namespace mc

int main(int argc, char** argv)
{
    using namespace mc;
    std::string out, only, replay;
    int jobs = 8;
    double budget = 200;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--thorough")
            gThorough = true;
        else if (a == "--keep-going")
            gKeepGoing = true;
        else if (a == "--out")
            out = val();
        else if (a == "--suite")
            only = val();
        else if (a == "--jobs")
            jobs = std::stoi(val());
        else if (a == "--budget")
            budget = std::stod(val());
        else if (a == "--replay")
            replay = val(); // file: suite name, then choices
        else if (a == "--list")
        {
            for (auto& s : suites())
                puts(s.name.c_str());
            return 0;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    if (!replay.empty())
    {
        std::ifstream f(replay);
        std::string sn;
        f >> sn;
        std::vector<int16_t> pre;
        int x;
        History h;
        while (f >> x)
            if (x == -1) // an earlier execution in the same process
            {
                h.push_back(std::move(pre));
                pre.clear();
            }
            else
                pre.push_back(static_cast<int16_t>(x));
        for (auto& s : suites())
            if (s.name == sn)
            {
                Slot* sl = static_cast<Slot*>(shm(sizeof(Slot)));
                std::string msg;
                bool v = confirm(s, pre, sl, 120, msg, true, nullptr, h);
                printf("%s\n", v ? ("REPLAY-VIOLATION " + msg).c_str()
                                 : "REPLAY-OK");
                return v ? 1 : 0;
            }
        fprintf(stderr, "no such suite %s\n", sn.c_str());
        return 2;
    }
    FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(o, "{\"suites\": [");
    bool firstS = true;
    bool bad = false;
    int n = 0;
    for (auto& s : suites())
        if (only.empty() || s.name == only)
            ++n;
    int64_t start = realNs();
    int idx = 0;
    for (auto& s : suites())
    {
        if (!only.empty() && s.name != only)
            continue;
        // share what is left of the time budget over the remaining suites
        double left = budget - (realNs() - start) / 1e9;
        double mine = left / (n - idx) * (n - idx > 1 ? 1.6 : 1.0);
        ++idx;
        if (mine < 5)
            mine = 5;
        Result r = explore(s, jobs, mine);
        bad |= r.violated;
        fprintf(o,
                "%s\n{\"name\":\"%s\",\"execs\":%lu,\"ops\":%lu,\"compares\":%lu,"
                "\"choices\":%lu,\"states\":%lu,\"outcomes\":%lu,\"depth\":%d,"
                "\"complete\":%s,\"violated\":%s,\"flaky\":%d,\"diverged\":%lu,\"wall\":%.2f,"
                "\"msg\":\"%s\",\"devBound\":%d,",
                firstS ? "" : ",", esc(s.name).c_str(), r.execs, r.ops,
                r.compares, r.choices, r.states, r.outcomes, r.maxDepth,
                r.complete ? "true" : "false", r.violated ? "true" : "false",
                r.flaky, r.diverged, r.wall, esc(r.msg).c_str(), gDev >= (1 << 20) ? -1 : gDev);
        fprintf(o, "\"trace\":[");
        for (size_t i = 0; i < r.trace.size(); ++i)
            fprintf(o, "%s[%d,%d,\"%s\"]", i ? "," : "", r.trace[i].c,
                    r.trace[i].n, esc(r.trace[i].label).c_str());
        fprintf(o, "],\"history\":[");
        for (size_t j = 0; j < r.history.size(); ++j)
        {
            fprintf(o, "%s[", j ? "," : "");
            for (size_t i = 0; i < r.history[j].size(); ++i)
                fprintf(o, "%s%d", i ? "," : "", r.history[j][i]);
            fprintf(o, "]");
        }
        fprintf(o, "],\"cover\":{");
        bool fc = true;
        for (auto& [k, v] : r.cover)
        {
            fprintf(o, "%s\"%s\":%lu", fc ? "" : ",", esc(k).c_str(), v);
            fc = false;
        }
        fprintf(o, "},\"uncovered\":[");
        fc = true;
        for (auto& m : s.mustCover)
            if (!r.cover.count(m))
            {
                fprintf(o, "%s\"%s\"", fc ? "" : ",", esc(m).c_str());
                fc = false;
            }
        fprintf(o, "]}");
        firstS = false;
        fflush(o);
        if (bad && !gKeepGoing)
            break;
    }
    fprintf(o, "]}\n");
    if (o != stdout)
        fclose(o);
    return bad ? 1 : 0;
}
