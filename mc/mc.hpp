// Exhaustive enumeration framework: a "space" is a finite, totally indexed set of
// executions; every index is run against the implementation and judged by an oracle.
// Workers share the index range dynamically; any failing index can be replayed alone.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc
{
typedef uint64_t u64;

// the driver's own strings come from an uninstrumented C++ library: known initialised
inline const char* cl(std::string const& s)
{
#ifdef MC_UNPOISON
    __msan_unpoison(s.data(), s.size() + 1);
#endif
    return s.c_str();
}

// a case that runs long but advances says so
inline std::atomic<u64>*& beat()
{
    static std::atomic<u64>* p = nullptr;
    return p;
}
inline void alive()
{
    if (beat()) beat()->fetch_add(1, std::memory_order_relaxed);
}
// processor time of one of our own worker processes, in seconds
inline double cpu_of(int pid)
{
    char f[64], b[1024];
    snprintf(f, sizeof f, "/proc/%d/stat", pid);
    FILE* h = fopen(f, "r");
    if (!h) return 0;
    size_t n = fread(b, 1, sizeof b - 1, h);
    fclose(h);
    b[n] = 0;
    const char* p = strrchr(b, ')');
    unsigned long u = 0, s = 0;
    if (!p || sscanf(p + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s) != 2) return 0;
    return (double)(u + s) / (double)sysconf(_SC_CLK_TCK);
}
struct Ctx
{
    bool failed = false;
    bool verbose = false;
    u64 checks = 0;  // oracle comparisons
    u64 trans = 0;   // implementation steps judged
    u64 states = 0;  // extra states found by searches (0: the case itself is the state)
    u64 hash = 1469598103934665603ull;
    std::string msg;
    std::string key;
    std::string where;

    void mix(float f)
    {
        if (f == 0.f) f = 0.f; // merge signed zeros
        uint32_t b;
        std::memcpy(&b, &f, 4);
        hash = (hash ^ b) * 1099511628211ull;
    }
    void mixs(std::string const& s)
    {
        for (size_t i = 0; i != s.size(); ++i) hash = (hash ^ (unsigned char)s[i]) * 1099511628211ull;
    }
    void fail(std::string const& k, const char* fmt, ...)
    {
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        if (!failed)
        {
            failed = true;
            key    = k;
            msg    = buf;
        }
        if (verbose) printf("FAIL %s: %s\n", k.c_str(), buf);
    }
    // |got - want| <= k * 2^-23 * mag, non-finite results always fail
    bool near(const char* k_, const char* comp, float got, double want, double mag, double k = 48)
    {
        ++checks;
        mix(got);
        double tol = k * 1.1920929e-7 * mag + 1e-30;
        double d   = std::fabs((double)got - want);
        if (verbose) printf("  %s.%s got %.9g want %.9g tol %.3g\n", k_, comp, got, want, tol);
        if (!(d <= tol))
        {
            fail(k_, "%s component %s: got %.9g, expected %.9g (tolerance %.3g)", k_, comp, (double)got, want, tol);
            return false;
        }
        return true;
    }
    bool expect(bool c, const char* k_, const char* text)
    {
        ++checks;
        if (verbose) printf("  %s: %s: %s\n", k_, text, c ? "ok" : "FALSE");
        if (!c) fail(k_, "%s: does not hold: %s", k_, text);
        return c;
    }
};

struct Space
{
    std::string name;
    u64 size;
    std::function<void(u64, Ctx&)> run;
    std::function<std::string(u64)> show;
};

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

inline std::string jesc(std::string const& s)
{
    std::string o;
    for (size_t i = 0; i != s.size(); ++i)
    {
        unsigned char c = s[i];
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline std::string fmtv(const char* n, const float* v, int k)
{
    std::string s = n;
    s += "(";
    char b[40];
    for (int i = 0; i != k; ++i)
    {
        snprintf(b, sizeof b, "%s%.9g", i ? "," : "", (double)v[i]);
        s += b;
    }
    return s + ")";
}

// decode a mixed-radix index
struct Dig
{
    u64 i;
    explicit Dig(u64 x) : i(x) {}
    u64 operator()(u64 radix)
    {
        u64 r = i % radix;
        i /= radix;
        return r;
    }
};

inline u64 ipow(u64 b, int e)
{
    u64 r = 1;
    while (e--) r *= b;
    return r;
}

struct Slot
{
    std::atomic<u64> space, idx, beat, checks, trans, states, done, active;
};

enum { BITS = 1 << 20 };
struct Shared
{
    std::atomic<u64> next;
    std::atomic<u64> nviol;
    Slot slots[64];
    std::atomic<uint32_t> bits[BITS / 32];
};

struct Args
{
    std::string tier = "quick";
    std::string group;
    int jobs      = 8;
    bool lite     = false;
    bool thorough() const { return tier == "thorough"; }
    double hang_s = 30;
};

inline int run_main(int argc, char** argv, std::function<std::vector<Space>(Args const&)> mk)
{
    Args a;
    std::string rs, only;
    u64 ri      = 0;
    bool replay = false, list = false;
    std::string viofile = "violations.tmp";
    for (int i = 1; i < argc; ++i)
    {
        std::string s = argv[i];
        if (s == "--tier") a.tier = argv[++i];
        else if (s == "--group") a.group = argv[++i];
        else if (s == "--jobs") a.jobs = atoi(argv[++i]);
        else if (s == "--lite") a.lite = true;
        else if (s == "--hang") a.hang_s = atof(argv[++i]);
        else if (s == "--viofile") viofile = argv[++i];
        else if (s == "--only") only = argv[++i];
        else if (s == "--list") list = true;
        else if (s == "--replay") { replay = true; rs = argv[++i]; ri = strtoull(argv[++i], 0, 10); }
    }
    std::vector<Space> sp = mk(a);
    if (list)
    {
        u64 t = 0;
        for (size_t i = 0; i != sp.size(); ++i) { printf("%12llu %s\n", (unsigned long long)sp[i].size, sp[i].name.c_str()); t += sp[i].size; }
        printf("%12llu total\n", (unsigned long long)t);
        return 0;
    }
    if (replay)
    {
        for (size_t i = 0; i != sp.size(); ++i)
            if (sp[i].name == rs)
            {
                printf("replay %s #%llu: %s\n", rs.c_str(), (unsigned long long)ri, sp[i].show ? sp[i].show(ri).c_str() : "");
                fflush(stdout);
                Ctx c;
                c.verbose = true;
                sp[i].run(ri, c);
                printf("%s\n", c.failed ? "VIOLATED" : "HELD");
                return c.failed ? 1 : 0;
            }
        printf("no such space\n");
        return 2;
    }
    Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    printf("{\"spaces\":[");
    std::string viols;
    bool firstv = true;
    u64 tot_cases = 0, tot_checks = 0, tot_trans = 0, tot_states = 0;
    std::vector<std::string> samples;
    std::set<std::string> seenkeys;
    bool first = true;
    int hung   = 0; // spaces with executions that never ended
    for (size_t s = 0; s != sp.size(); ++s)
    {
        if (!only.empty() && sp[s].name.find(only) == std::string::npos) continue;
        if (hung >= 2) break;
        std::memset((void*)sh, 0, sizeof(Shared));
        double t0 = now();
        u64 n     = sp[s].size;
        int J     = a.jobs;
        if ((u64)J > n) J = (int)(n ? n : 1);
        u64 chunk = n / (J * 32) + 1;
        if (chunk > 4096) chunk = 4096;
        ::unlink(cl(viofile));
        fflush(stdout);
        std::vector<pid_t> pids(J, 0);
        auto spawn = [&](int w) {
            pid_t p = fork();
            if (p == 0)
            {
                Slot& sl = sh->slots[w];
                for (;;)
                {
                    u64 b = sh->next.fetch_add(chunk);
                    if (b >= n || sh->nviol.load() > 24) break;
                    u64 e = b + chunk < n ? b + chunk : n;
                    for (u64 i = b; i != e; ++i)
                    {
                        sl.idx.store(i, std::memory_order_relaxed);
                        sl.active.store(1, std::memory_order_relaxed);
                        sl.beat.fetch_add(1, std::memory_order_relaxed);
                        beat() = &sl.beat;
                        Ctx c;
                        sp[s].run(i, c);
                        sl.checks.fetch_add(c.checks, std::memory_order_relaxed);
                        sl.trans.fetch_add(c.trans ? c.trans : 1, std::memory_order_relaxed);
                        sl.states.fetch_add(c.states ? c.states : 1, std::memory_order_relaxed);
                        sl.done.fetch_add(1, std::memory_order_relaxed);
                        u64 h = (c.hash ^ (c.hash >> 29)) % BITS;
                        sh->bits[h / 32].fetch_or(1u << (h % 32), std::memory_order_relaxed);
                        if (c.failed)
                        {
                            if (sh->nviol.fetch_add(1) <= 24)
                            {
                                std::string show = sp[s].show ? sp[s].show(i) : "";
                                std::string l = "{\"space\":\"" + jesc(sp[s].name) + "\",\"idx\":" + std::to_string(i) + ",\"key\":\"" + jesc(c.key)
                                                + "\",\"msg\":\"" + jesc(c.msg) + "\",\"case\":\"" + jesc(show) + "\"}\n";
                                int fd = open(cl(viofile), O_WRONLY | O_APPEND | O_CREAT, 0644);
                                if (write(fd, cl(l), l.size())) {}
                                close(fd);
                            }
                        }
                    }
                    sl.active.store(0);
                }
                sl.active.store(0);
                _exit(0);
            }
            pids[w] = p;
        };
        for (int w = 0; w != J; ++w) spawn(w);
        // a case hangs when its process burns hang_s seconds of processor time on it (a busy machine
        // alone must not look like a hang), or sits there blocked for eight times as long
        std::vector<u64> lastbeat(J, 0);
        std::vector<double> lastt(J, now()), lastcpu(J, 0);
        double lastscan = 0;
        int live = J;
        while (live)
        {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0)
            {
                for (int w = 0; w != J; ++w)
                    if (pids[w] == p)
                    {
                        pids[w] = 0;
                        --live;
                        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
                        {
                            sh->nviol.fetch_add(1);
                            u64 i = sh->slots[w].idx.load();
                            std::string show = sp[s].show ? sp[s].show(i) : "";
                            std::string how = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
                            std::string l = "{\"space\":\"" + jesc(sp[s].name) + "\",\"idx\":" + std::to_string(i) + ",\"key\":\"crash\",\"msg\":\"process died: " + how + "\",\"case\":\"" + jesc(show) + "\"}\n";
                            int fd = open(cl(viofile), O_WRONLY | O_APPEND | O_CREAT, 0644);
                            if (write(fd, cl(l), l.size())) {}
                            close(fd);
                            if (sh->nviol.load() <= 24) { spawn(w); ++live; lastt[w] = now(); lastcpu[w] = 0; }
                        }
                    }
                continue;
            }
            double t = now();
            if (t - lastscan < 0.5) { usleep(n < 20000 ? 1000 : 10000); continue; }
            lastscan = t;
            for (int w = 0; w != J; ++w)
            {
                if (!pids[w]) continue;
                u64 b = sh->slots[w].beat.load();
                if (b != lastbeat[w]) { lastbeat[w] = b; lastt[w] = t; lastcpu[w] = cpu_of(pids[w]); }
                else if (sh->slots[w].active.load() && t - lastt[w] > a.hang_s && (cpu_of(pids[w]) - lastcpu[w] > a.hang_s || t - lastt[w] > 8 * a.hang_s))
                {
                    u64 i = sh->slots[w].idx.load();
                    std::string show = sp[s].show ? sp[s].show(i) : "";
                    std::string l = "{\"space\":\"" + jesc(sp[s].name) + "\",\"idx\":" + std::to_string(i) + ",\"key\":\"hang\",\"msg\":\"no result within the time limit\",\"case\":\"" + jesc(show) + "\"}\n";
                    int fd = open(cl(viofile), O_WRONLY | O_APPEND | O_CREAT, 0644);
                    if (write(fd, cl(l), l.size())) {}
                    close(fd);
                    sh->nviol.fetch_add(1000);
                    kill(pids[w], SIGKILL);
                    int st2;
                    waitpid(pids[w], &st2, 0);
                    pids[w] = 0;
                    --live;
                }
            }
            usleep(n < 20000 ? 1000 : 10000);
        }
        u64 done = 0, ch = 0, tr = 0, stt = 0, outc = 0;
        for (int w = 0; w != J; ++w)
        {
            done += sh->slots[w].done;
            ch += sh->slots[w].checks;
            tr += sh->slots[w].trans;
            stt += sh->slots[w].states;
        }
        for (int i = 0; i != BITS / 32; ++i) outc += __builtin_popcount(sh->bits[i].load());
        printf("%s{\"name\":\"%s\",\"size\":%llu,\"done\":%llu,\"states\":%llu,\"transitions\":%llu,\"checks\":%llu,\"distinct_outcomes_min\":%llu,\"wall_s\":%.2f}",
               first ? "" : ",\n", cl(jesc(sp[s].name)), (unsigned long long)n, (unsigned long long)done, (unsigned long long)stt,
               (unsigned long long)tr, (unsigned long long)ch, (unsigned long long)outc, now() - t0);
        first = false;
        if (sh->nviol.load() >= 1000) ++hung;
        tot_cases += done;
        tot_checks += ch;
        tot_trans += tr;
        tot_states += stt;
        if (sp[s].show && n && samples.size() < 6) samples.push_back(sp[s].name + ": " + sp[s].show(n / 2));
        FILE* f = fopen(cl(viofile), "r");
        if (f)
        {
            char* line = nullptr;
            size_t cap = 0;
            ssize_t len;
            while ((len = getline(&line, &cap, f)) > 0)
            {
#ifdef MC_UNPOISON
                __msan_unpoison(line, len + 1);
#endif
                if (line[len - 1] == '\n') line[--len] = 0;
                viols += (firstv ? "" : ",\n") + std::string(line);
                firstv = false;
            }
            free(line);
            fclose(f);
            ::unlink(cl(viofile));
        }
    }
    printf("],\n\"cases\":%llu,\"states\":%llu,\"transitions\":%llu,\"checks\":%llu,\n\"samples\":[", (unsigned long long)tot_cases,
           (unsigned long long)tot_states, (unsigned long long)tot_trans, (unsigned long long)tot_checks);
    for (size_t i = 0; i != samples.size(); ++i) printf("%s\"%s\"", i ? "," : "", cl(jesc(samples[i])));
    printf("],\n\"violations\":[%s]}\n", cl(viols));
    return firstv ? 0 : 1;
}
} // namespace mc
