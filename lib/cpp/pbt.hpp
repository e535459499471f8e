// A small property-based testing engine: every random decision of a case is one bounded draw on a
// "choice tape".  The tape comes from a PRNG (search), from a file (replay), or from an edited copy of a
// failing tape (shrinking); a case is therefore a pure function of its tape, and replays bit for bit.
//
// Cases run in a forked child so that a crash, an abort or a hang of the code under test is itself an
// observable outcome (reported, shrunk and replayed like any other failure).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <exception>
#include <stdexcept>
#include <map>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <fcntl.h>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

inline uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static const int MAXLABELS = 400, LABELLEN = 56, MAXTAPE = 1 << 17, MSGLEN = 1 << 14, MAXSAMPLES = 4, SAMPLELEN = 400;

struct Shared {
    volatile int64_t caseNo;
    volatile int done;               // 0 running, 1 all done, 2 failure (exception style)
    volatile uint64_t evals, nontrivial, discards, ticks;
    int nlabels;
    char labels[MAXLABELS][LABELLEN];
    uint64_t counts[MAXLABELS];
    int nsamples;
    char samples[MAXSAMPLES][SAMPLELEN];
    char msg[MSGLEN];
    char desc[MSGLEN];
    uint32_t tapeLen;
    uint64_t tape[MAXTAPE];
    uint32_t bound_dummy;
    uint64_t nhash;
    uint64_t hashes[1];
};

class Tape {
public:
    // search mode
    uint64_t rng = 0;
    bool replay = false;
    std::vector<uint64_t> in;
    size_t pos = 0;
    Shared *sh = nullptr;
    uint64_t hash = 1469598103934665603ull;
    bool trivial = true;
    bool describing = false;
    std::string desc;

    // a number in [0, n)
    uint64_t below(uint64_t n) {
        uint64_t v;
        if (replay) {
            v = pos < in.size() ? in[pos] : 0;
            pos++;
            if (n) v = v < n ? v : v % n;      // n == 0 means the whole 64-bit range
        } else {
            v = splitmix(rng);
            if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
        }
        if (sh && sh->tapeLen < (uint32_t)MAXTAPE) { sh->tape[sh->tapeLen] = v; sh->tapeLen++; }
        hash = (hash ^ (v + 0x9E3779B9u)) * 1099511628211ull;
        hash ^= hash >> 29;
        return v;
    }
    uint64_t u64() { return below(0); }
    // inclusive range; the low end is the simplest
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool coin(uint64_t num = 1, uint64_t den = 2) { return below(den) >= den - num; }   // 0 -> false (simplest)
    // index drawn with weights; index 0 is the simplest
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t tot = 0; for (unsigned x : w) tot += x;
        uint64_t r = below(tot); size_t i = 0;
        for (unsigned x : w) { if (r < x) return i; r -= x; i++; }
        return i - 1;
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }

    void label(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[LABELLEN]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        if (!sh) return;
        for (int i = 0; i < sh->nlabels; i++) if (!strcmp(sh->labels[i], b)) { sh->counts[i]++; return; }
        if (sh->nlabels < MAXLABELS) { strcpy(sh->labels[sh->nlabels], b); sh->counts[sh->nlabels++] = 1; }
    }
    void nontrivial() { trivial = false; }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!describing) return;
        va_list ap; va_start(ap, fmt); char *s = nullptr; if (vasprintf(&s, fmt, ap) >= 0) { desc += s; free(s); } va_end(ap);
        if (sh) { strncpy(sh->desc, desc.c_str(), MSGLEN - 1); sh->desc[MSGLEN - 1] = 0; }
    }
};

[[noreturn]] inline void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); char *s = nullptr; if (vasprintf(&s, fmt, ap) < 0) s = strdup("?"); va_end(ap);
    Failure f; f.msg = s; free(s); throw f;
}
#define PBT_CHECK(cond, ...) do { if (!(cond)) pbt::fail(__VA_ARGS__); } while (0)

// Did f() end in abort() (a failed assertion)?  Used where the specified outcome of a call is to fail hard.
inline sigjmp_buf &abortJmp() { static sigjmp_buf b; return b; }
inline void abortHandler(int) { siglongjmp(abortJmp(), 1); }
template <class F> bool aborts(F f) {
    struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = abortHandler; sigemptyset(&sa.sa_mask); sa.sa_flags = SA_NODEFER;
    sigaction(SIGABRT, &sa, &old);
    bool r;
    if (sigsetjmp(abortJmp(), 1) == 0) { f(); r = false; } else r = true;
    sigaction(SIGABRT, &old, nullptr);
    return r;
}

struct Prop {
    std::string name;
    uint64_t weight;                  // share of the case budget
    std::function<void(Tape &)> fn;
    unsigned timeout;                 // seconds of wall clock one case may take
};

inline std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
inline bool isHang(const std::string &msg) { return msg.find("(hang)") != std::string::npos; }
inline void addProp(const std::string &n, uint64_t w, std::function<void(Tape &)> f, unsigned timeout = 120) { props().push_back({n, w, f, timeout}); }

inline std::string jsonEsc(const std::string &s) {
    std::string o; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct Outcome { bool failed = false; bool discarded = false; std::string msg, desc; std::vector<uint64_t> tape; bool range = false; uint64_t from = 0, to = 0; };

class Runner {
    Shared *sh; size_t shSize; uint64_t maxCases;
    uint64_t seed; bool quiet = true;
    std::function<void()> childInit;
public:
    Runner(uint64_t seed_, uint64_t maxCases_) : maxCases(maxCases_), seed(seed_) {
        shSize = sizeof(Shared) + 8 * (maxCases + 16);
        sh = (Shared *)mmap(nullptr, shSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (sh == MAP_FAILED) { perror("mmap"); exit(3); }
    }
    void setChildInit(std::function<void()> f) { childInit = f; }

    static void silence() {
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0) { dup2(fd, 1); if (!getenv("PBT_VERBOSE")) dup2(fd, 2); close(fd); }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    }
    static void arm(unsigned secs) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; setitimer(ITIMER_REAL, &it, nullptr); }

    uint64_t caseSeed(const Prop &p, uint64_t i) {
        uint64_t h = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
        for (char c : p.name) h = (h ^ (unsigned char)c) * 1099511628211ull;
        uint64_t x = h + i * 0xD1B54A32D192ED03ull; splitmix(x); return x;
    }

    // runs one case inside the current process; fills msg on failure
    int execCase(const Prop &p, Tape &t) {
        try { p.fn(t); return 0; }
        catch (Failure &f) { strncpy(sh->msg, f.msg.c_str(), MSGLEN - 1); return 1; }
        catch (Discard &) { return 2; }
        catch (std::exception &e) { snprintf(sh->msg, MSGLEN, "unexpected C++ exception: %s", e.what()); return 1; }
        catch (std::exception *e) { snprintf(sh->msg, MSGLEN, "unexpected C++ exception (thrown as a pointer): %s", e->what()); return 1; }
        catch (...) { snprintf(sh->msg, MSGLEN, "unexpected C++ exception of unknown type"); return 1; }
    }

    // one tape in a fresh child
    Outcome runTape(const Prop &p, const std::vector<uint64_t> &tape, bool describe) {
        Outcome o;
        sh->msg[0] = sh->desc[0] = 0; sh->tapeLen = 0; sh->done = 0;
        int nl = sh->nlabels; std::vector<uint64_t> saved(sh->counts, sh->counts + nl);
        pid_t pid = fork();
        if (pid == 0) {
            silence(); if (childInit) childInit();
            Tape t; t.replay = true; t.in = tape; t.sh = sh; t.describing = describe;
            arm(p.timeout);
            int r = execCase(p, t);
            arm(0);
            sh->done = 1 + r;
            _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        sh->nlabels = nl; std::copy(saved.begin(), saved.end(), sh->counts);
        o.tape.assign(sh->tape, sh->tape + sh->tapeLen);
        o.desc = sh->desc;
        if (sh->done == 2) { o.failed = true; o.msg = sh->msg; }
        else if (sh->done == 3) { o.discarded = true; }
        else if (sh->done == 0) { o.failed = true; o.msg = crashMsg(st, p); }
        else if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { /* finished the case; the exit itself is ours */ }
        return o;
    }
    static std::string crashMsg(int st, const Prop &p) {
        char b[200];
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            if (s == SIGALRM) snprintf(b, sizeof b, "did not return within %u s (hang)", p.timeout);
            else snprintf(b, sizeof b, "the process died of signal %d (%s)", s, strsignal(s));
        } else snprintf(b, sizeof b, "the process exited unexpectedly with status %d", WEXITSTATUS(st));
        return b;
    }

    Outcome shrink(const Prop &p, Outcome best, double budget) {
        struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
        auto left = [&]() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return budget - (double)(t.tv_sec - t0.tv_sec) - 1e-9 * (t.tv_nsec - t0.tv_nsec); };
        if (best.msg.find("(hang)") != std::string::npos) return best;      // each attempt would cost a full timeout
        auto better = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
            if (a.size() != b.size()) return a.size() < b.size();
            return a < b;
        };
        auto tryTape = [&](const std::vector<uint64_t> &cand) {
            if (cand == best.tape) return false;
            Outcome o = runTape(p, cand, false);
            if (o.failed && o.msg.find("(hang)") == std::string::npos && better(o.tape, best.tape)) { best = o; return true; }
            return false;
        };
        bool progress = true;
        while (progress && left() > 0) {
            progress = false;
            for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
                for (size_t i = 0; i + k <= best.tape.size() && left() > 0;) {
                    std::vector<uint64_t> c = best.tape; c.erase(c.begin() + i, c.begin() + i + k);
                    if (tryTape(c)) progress = true; else i += (k > 4 ? k / 2 : 1);
                }
            }
            for (size_t i = 0; i < best.tape.size() && left() > 0; i++) {
                if (best.tape[i] == 0) continue;
                std::vector<uint64_t> c = best.tape; c[i] = 0;
                if (tryTape(c)) { progress = true; continue; }
                uint64_t lo = 0, hi = best.tape[i];           // binary search towards the smallest failing draw
                for (int s = 0; s < 70 && hi - lo > 1 && left() > 0; s++) {
                    uint64_t mid = lo + (hi - lo) / 2; c = best.tape; if (i >= c.size()) break; c[i] = mid;
                    if (tryTape(c)) { progress = true; hi = i < best.tape.size() ? best.tape[i] : 0; } else lo = mid;
                }
                if (i < best.tape.size() && best.tape[i] > 0 && left() > 0) { c = best.tape; c[i]--; if (tryTape(c)) progress = true; }
            }
        }
        Outcome o = runTape(p, best.tape, true);
        if (o.failed) { o.tape = best.tape; return o; }
        return best;
    }

    // search; returns true on failure (out set)
    bool search(const Prop &p, uint64_t cases, double budget, Outcome &out) {
        struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
        uint64_t next = 0;
        sh->evals = sh->nontrivial = sh->discards = 0; sh->nlabels = 0; sh->nsamples = 0; sh->nhash = 0;
        if (cases > maxCases) cases = maxCases;
        while (next < cases) {
            sh->done = 0; sh->msg[0] = sh->desc[0] = 0; sh->caseNo = next; sh->tapeLen = 0;
            pid_t pid = fork();
            if (pid == 0) {
                silence(); if (childInit) childInit();
                for (uint64_t i = next; i < cases; i++) {
                    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
                    if ((double)(t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > budget) break;
                    Tape tp; tp.sh = sh; tp.rng = caseSeed(p, i);
                    sh->caseNo = i; sh->tapeLen = 0; sh->ticks++;
                    if ((sh->ticks & 63) == 1 || p.timeout < 60) arm(p.timeout);
                    tp.describing = sh->nsamples < MAXSAMPLES && (i % 7 == 3 || cases < 20);
                    int r = execCase(p, tp);
                    if (r == 1) { sh->done = 2; _exit(0); }
                    if (r == 2) { sh->discards++; continue; }
                    sh->evals++;
                    if (!tp.trivial) {
                        sh->nontrivial++;
                        sh->hashes[sh->nhash] = tp.hash; sh->nhash++;
                        if (tp.describing && sh->nsamples < MAXSAMPLES && !tp.desc.empty()) { strncpy(sh->samples[sh->nsamples], tp.desc.c_str(), SAMPLELEN - 1); sh->nsamples++; }
                    }
                }
                arm(0);
                sh->done = 1; _exit(0);
            }
            int st = 0; waitpid(pid, &st, 0);
            if (sh->done == 1) return false;
            // a failure or a crash at sh->caseNo: replay it alone from its recorded tape
            uint64_t at = sh->caseNo;
            Outcome o; o.failed = true;
            o.msg = sh->done == 2 ? std::string(sh->msg) : crashMsg(st, p);
            o.tape.assign(sh->tape, sh->tape + sh->tapeLen);
            if (sh->tapeLen >= (uint32_t)MAXTAPE) o.tape.clear();
            bool hang = isHang(o.msg);            // every further attempt may cost a full timeout
            Outcome again = runTape(p, o.tape, true);
            for (int k = 0; !again.failed && k < (hang ? std::min(retries(), 3) : retries()); k++) again = runTape(p, o.tape, true);
            if (again.failed) { out = again; out.tape = o.tape; return true; }
            // Not reproducible alone: either it depends on the cases run before it in the same process (a
            // history; deterministic, so it can be replayed as a range), or it is a one-off.
            {
                int nl = sh->nlabels; std::vector<uint64_t> saved(sh->counts, sh->counts + nl); uint64_t ev = sh->evals, nt = sh->nontrivial, di = sh->discards;
                Outcome h; bool ok = true;
                for (int k = 0; k < (hang ? 1 : 3) && ok; k++) { h = runRange(p, next, at); ok = h.failed; }
                if (ok && (hang || isHang(h.msg))) { out = h; out.range = true; out.from = next; out.to = at; out.tape.clear(); }
                else if (ok) {
                    uint64_t from = next;
                    for (uint64_t step = (at - from) / 2; step > 0; step /= 2)
                        while (from + step <= at) { Outcome c = runRange(p, from + step, at); if (!c.failed) break; from += step; h = c; }
                    out = h; out.range = true; out.from = from; out.to = at; out.tape.clear();
                }
                sh->nlabels = nl; std::copy(saved.begin(), saved.end(), sh->counts); sh->evals = ev; sh->nontrivial = nt; sh->discards = di;
                if (ok) return true;
            }
            // with real threads a schedule need not come back: three such cases count as a failure, a hang does not
            bool scarce = o.msg.find("(hang)") != std::string::npos || o.msg.find("signal 9 ") != std::string::npos || o.msg.find("temporarily unavailable") != std::string::npos || o.msg.find("bad_alloc") != std::string::npos;
            if (retries() && !scarce && ++once >= 3) { o.desc = "(not reproduced; three cases failed)"; out = o; return true; }
            flaky++; flakyMsg = o.msg + " [case " + std::to_string(at) + "]";
            next = at + 1;
            if (flaky > 50 || (hang && ++hangs >= 3)) return false;
        }
        return false;
    }
    // cases from..to (inclusive) of the search, one after another in one child
    Outcome runRange(const Prop &p, uint64_t from, uint64_t to) {
        Outcome o;
        sh->done = 0; sh->msg[0] = sh->desc[0] = 0;
        pid_t pid = fork();
        if (pid == 0) {
            silence(); if (childInit) childInit();
            for (uint64_t i = from; i <= to; i++) {
                Tape tp; tp.sh = sh; tp.rng = caseSeed(p, i); sh->tapeLen = 0; sh->caseNo = i;
                tp.describing = i == to;
                arm(p.timeout);
                if (execCase(p, tp) == 1) { sh->done = 2; _exit(0); }
            }
            arm(0); sh->done = 1; _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        if (sh->done == 2) { o.failed = true; o.msg = sh->msg; } else if (sh->done == 0) { o.failed = true; o.msg = crashMsg(st, p); }
        o.desc = sh->desc;
        if (o.failed) { char b[100]; snprintf(b, sizeof b, " [in a history of cases ending at case %lld]", (long long)sh->caseNo); o.msg += b; }
        return o;
    }
    uint64_t flaky = 0; std::string flakyMsg; int once = 0, hangs = 0;
    static int retries() { static int r = [] { const char *e = getenv("PBT_RETRIES"); return e ? atoi(e) : 0; }(); return r; }     // for harnesses whose schedule is not controlled

    std::string stats(const Prop &p, const char *config) {
        std::unordered_set<uint64_t> s(sh->hashes, sh->hashes + sh->nhash);
        std::ostringstream o;
        o << "{\"config\":\"" << jsonEsc(config) << "\",\"prop\":\"" << jsonEsc(p.name) << "\",\"evals\":" << sh->evals << ",\"nontrivial\":" << sh->nontrivial
          << ",\"distinct\":" << s.size() << ",\"discards\":" << sh->discards << ",\"flaky\":" << flaky << ",\"flakyMsg\":\"" << jsonEsc(flakyMsg) << "\",\"labels\":{";
        for (int i = 0; i < sh->nlabels; i++) o << (i ? "," : "") << "\"" << jsonEsc(sh->labels[i]) << "\":" << sh->counts[i];
        o << "},\"samples\":[";
        for (int i = 0; i < sh->nsamples; i++) o << (i ? "," : "") << "\"" << jsonEsc(sh->samples[i]) << "\"";
        o << "]";
        return o.str();      // caller closes the object
    }
};

inline std::string tapeJson(const std::vector<uint64_t> &t) {
    std::ostringstream o; o << "[";
    for (size_t i = 0; i < t.size(); i++) o << (i ? "," : "") << "\"" << t[i] << "\"";
    o << "]"; return o.str();
}

// Command line:  HARNESS --seed S --cases N --budget SECS --config NAME [--only PROP]      -> JSON lines on stdout
//                HARNESS --replay FILE    (FILE: first line the property name, then one draw per line)
//                HARNESS --list
inline int mainDriver(int argc, char **argv, std::function<void()> childInit = nullptr) {
    uint64_t seed = 1, cases = 1000; double budget = 60; std::string only, replay, config = "default"; double shrinkBudget = 20;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10);
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--shrink") shrinkBudget = atof(val().c_str());
        else if (a == "--only") only = val();
        else if (a == "--config") config = val();
        else if (a == "--replay") replay = val();
        else if (a == "--list") { for (auto &p : props()) printf("%s\n", p.name.c_str()); return 0; }
    }
    if (!replay.empty()) {
        std::ifstream f(replay); std::string name; std::getline(f, name);
        std::vector<uint64_t> t; std::string l; bool isRange = false; unsigned long long rangeSeed = 1, rangeFrom = 0, rangeTo = 0;
        while (std::getline(f, l)) if (l.compare(0, 6, "RANGE ") == 0) isRange = sscanf(l.c_str(), "RANGE %llu %llu %llu", &rangeSeed, &rangeFrom, &rangeTo) == 3; else if (!l.empty()) t.push_back(strtoull(l.c_str(), 0, 10));
        for (auto &p : props()) if (p.name == name) {
            Runner r(rangeSeed, 1000000); r.setChildInit(childInit);
            Outcome o = isRange ? r.runRange(p, rangeFrom, rangeTo) : r.runTape(p, t, true);
            printf("{\"failed\":%s,\"msg\":\"%s\",\"case\":\"%s\"}\n", o.failed ? "true" : "false", jsonEsc(o.msg).c_str(), jsonEsc(o.desc).c_str());
            return o.failed ? 1 : 0;
        }
        fprintf(stderr, "unknown property %s\n", name.c_str()); return 3;
    }
    uint64_t totw = 0; for (auto &p : props()) if (only.empty() || p.name.compare(0, only.size(), only) == 0) totw += p.weight;
    uint64_t maxc = 0; for (auto &p : props()) if (only.empty() || p.name.compare(0, only.size(), only) == 0) maxc = std::max(maxc, cases * p.weight / std::max<uint64_t>(1, totw) + 1);
    struct timespec g0; clock_gettime(CLOCK_MONOTONIC, &g0);
    for (auto &p : props()) {
        if (!only.empty() && p.name.compare(0, only.size(), only) != 0) continue;
        struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        Runner r(seed, maxc); r.setChildInit(childInit);
        uint64_t n = std::max<uint64_t>(1, cases * p.weight / totw);
        Outcome o;
        bool bad = r.search(p, n, budget * p.weight / totw + 1, o);
        std::string st = r.stats(p, config.c_str());
        if (bad) {
            bool stable = true; std::string range = "null";
            if (o.range) { char b[120]; snprintf(b, sizeof b, "\"RANGE %llu %llu %llu\"", (unsigned long long)seed, (unsigned long long)o.from, (unsigned long long)o.to); range = b; }
            else {
                Outcome orig = o;
                o = r.shrink(p, o, shrinkBudget);
                for (int k = 0; k < 3 && stable && !isHang(o.msg); k++) { Outcome c = r.runTape(p, o.tape, true); if (!c.failed) stable = false; }
                if (!stable) {      // fall back to the unshrunk case
                    o = orig; stable = true;
                    for (int k = 0; k < 3 && stable; k++) { Outcome c = r.runTape(p, o.tape, true); if (!c.failed) stable = false; }
                }
            }
            printf("%s,\"failure\":{\"msg\":\"%s\",\"case\":\"%s\",\"stable\":%s,\"range\":%s,\"tape\":%s}}\n", st.c_str(), jsonEsc(o.msg).c_str(), jsonEsc(o.desc).c_str(), stable ? "true" : "false", range.c_str(), tapeJson(o.tape).c_str());
        } else printf("%s}\n", st.c_str());
        fflush(stdout);
    }
    return 0;
}

} // namespace pbt
