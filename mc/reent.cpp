// C20: every public operation is a function of its operands, and reentrant.
// Histories: the result of each operation as the first thing a fresh process does is the
// reference; all ordered pairs and triples of operations must reproduce it bit for bit.
// Schedules: one operation is single-stepped and another complete operation runs between its
// machine instructions (a signal handler preempting it there).
#include "opalpha.hpp"
#include <ucontext.h>
using namespace mc;

#define X(n) extern "C" const OpDesc* OPT_CAT(ops_, n)(int* k);
CFGLIST
#undef X

static const OpDesc* tab;
static int nops;
enum { MAXIN = 24, NOUT = 16 };
struct Val { float f[NOUT]; int changed; };
struct OpIn
{
    std::vector<std::array<float, MAXIN>> in; // operand tuples
    size_t base;                              // first of their references
    std::vector<int> few;                     // a few of them
};
static std::vector<OpIn> ops;
static Val* ref_; // shared with workers

// operand values of one code: two general values, each component of the first changed in turn,
// a canonical value and values at the ends of the exponent range
static Ops vals(char c)
{
    Ops a = operands(c, false), r;
    int n = arity(c);
    std::vector<float> b0 = a[a.size() * 2 / 3], b1 = a[a.size() / 3];
    bool zero = true;
    for (float x : b0) zero &= x == 0.f;
    if (zero) b0 = a.back();
    r.push_back(b0);
    if (c == 'i') { r.push_back({3.f}); r.push_back({-7.f}); return r; }
    r.push_back(b1);
    for (int j = 0; j != n; ++j)
    {
        std::vector<float> g = b0;
        g[j] = g[j] == 0.f ? 0.75f : g[j] * 1.25f;
        r.push_back(g);
    }
    std::vector<float> neg = b0, tiny = b0, sub = b0;
    for (float& x : neg) x = -x;
    for (float& x : tiny) x *= 3e-20f;
    for (float& x : sub) x = (x == 0.f ? 1.f : x) * 1.1e-39f;
    r.push_back(a[0]);
    r.push_back(neg);
    r.push_back(tiny);
    r.push_back(sub);
    return r;
}

static void ref_run(int o, size_t k, Val& v)
{
    std::memset(&v, 0, sizeof v);
    float in[MAXIN];
    std::copy(ops[o].in[k].begin(), ops[o].in[k].end(), in);
    v.changed = tab[o].run(in, v.f);
}
static bool same(Val const& a, Val const& b) { return std::memcmp(a.f, b.f, sizeof a.f) == 0; }
static std::string call(int o, size_t k)
{
    std::string s = tab[o].name;
    const float* f = ops[o].in[k].data();
    for (const char* a = tab[o].args; *a; ++a) { s += fmtv((std::string(" ") + *a).c_str(), f, arity(*a)); f += arity(*a); }
    return s;
}
static bool check(Ctx& c, int o, size_t k, Val const& v, const char* when)
{
    Val const& w = ref_[ops[o].base + k];
    ++c.checks;
    if (same(v, w)) return true;
    int j = 0;
    while (std::memcmp(&v.f[j], &w.f[j], 4) == 0) ++j;
    c.fail(tab[o].name, "%s: result %d is %.9g %s, %.9g as the first call of a process", call(o, k).c_str(), j, v.f[j], when, w.f[j]);
    return false;
}

// single stepping
static volatile long steps, target;   // target < 0: interrupt at every instruction
static int int_op;
static size_t int_k;
static float int_in[MAXIN], int_out[NOUT];
static volatile int interrupted;
static void on_trap(int, siginfo_t*, void* u)
{
    long s = steps;
    steps = s + 1;
    if (target < 0 || s == target)
    {
        tab[int_op].run(int_in, int_out);
        interrupted = 1;
    }
    if (target >= 0 && s >= target) ((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
}
static void stepped(int o, size_t k, Val& v)
{
    std::memset(&v, 0, sizeof v);
    float in[MAXIN];
    std::copy(ops[o].in[k].begin(), ops[o].in[k].end(), in);
    auto f = tab[o].run;
    steps = 0;
    interrupted = 0;
    asm volatile("lea -128(%%rsp), %%rsp\n\tpushfq\n\torq $0x100, (%%rsp)\n\tpopfq\n\tlea 128(%%rsp), %%rsp" ::: "cc", "memory");
    v.changed = f(in, v.f);
    asm volatile("lea -128(%%rsp), %%rsp\n\tpushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq\n\tlea 128(%%rsp), %%rsp" ::: "cc", "memory");
}
static void set_int(int o, size_t k)
{
    int_op = o;
    int_k = k;
    std::copy(ops[o].in[k].begin(), ops[o].in[k].end(), int_in);
}

static std::vector<Space> make(Args const& A)
{
    
#define X(n) tab = OPT_CAT(ops_, n)(&nops);
    CFGLIST
#undef X
    ops.resize(nops);
    size_t total = 0, limit = A.thorough() ? 200 : 60;
    for (int o = 0; o != nops; ++o)
    {
        std::vector<Ops> l;
        const char* a = tab[o].args;
        for (int i = 0; a[i]; ++i) l.push_back(vals(a[i]));
        // all tuples in which at most one operand is not its first value, and the rest up to the limit
        for (u64 pass = 0; pass != 2; ++pass)
            for (u64 i = 0; i != product_size(l) && ops[o].in.size() < limit; ++i)
            {
                Dig d(i);
                int dev = 0;
                for (auto& x : l) dev += d(x.size()) != 0;
                if ((dev <= 1) == (pass == 1)) continue;
                std::array<float, MAXIN> f{};
                pick(l, i, f.data());
                ops[o].in.push_back(f);
            }
        ops[o].base = total;
        total += ops[o].in.size();
        int n = (int)ops[o].in.size();
        ops[o].few = {0, 1 % n, (n - 1) % n};
    }
    // references: every call as the first one of a fresh process
    ref_ = (Val*)mmap(0, total * sizeof(Val), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::memset((void*)ref_, 0xab, total * sizeof(Val));
    fflush(stdout);
    std::vector<pid_t> js;
    int J = A.jobs;
    for (int w = 0; w != J; ++w)
    {
        pid_t p = fork();
        if (p == 0)
        {
            for (int o = w; o < nops; o += J)
                for (size_t k = 0; k != ops[o].in.size(); ++k)
                {
                    pid_t q = fork();
                    if (q == 0) { ref_run(o, k, ref_[ops[o].base + k]); _exit(0); }
                    int st;
                    waitpid(q, &st, 0);
                }
            _exit(0);
        }
        js.push_back(p);
    }
    for (pid_t p : js) { int st; waitpid(p, &st, 0); }

    std::vector<Space> out;
    // every call leaves its operands alone, and repeating it gives the same
    out.push_back(Space{"single calls", (u64)nops,
        [](u64 i, Ctx& c) {
            int o = (int)i;
            c.states = ops[o].in.size();
            for (size_t k = 0; k != ops[o].in.size(); ++k)
                for (int rep = 0; rep != 3; ++rep)
                {
                    Val v;
                    ref_run(o, k, v);
                    ++c.trans;
                    c.mix(v.f[0]);
                    if (!check(c, o, k, v, rep ? "when repeated" : "after other calls")) return;
                    ++c.checks;
                    if (v.changed) { c.fail(std::string(tab[o].name) + " operand", "%s changed its operands (mask %d)", call(o, k).c_str(), v.changed); return; }
                    if (ref_[ops[o].base + k].changed) { c.fail(std::string(tab[o].name) + " operand", "%s changed its operands as a first call (mask %d)", call(o, k).c_str(), v.changed); return; }
                }
        },
        [](u64 i) { return std::string(tab[i].name); }});
    // the same operation on all ordered pairs of operand tuples, and back to the first
    out.push_back(Space{"one operation, tuple u, tuple v, tuple u", (u64)nops,
        [](u64 i, Ctx& c) {
            int o = (int)i;
            size_t n = ops[o].in.size();
            c.states = n * n;
            for (size_t u = 0; u != n; ++u)
                for (size_t v = 0; v != n; ++v)
                {
                    Val x, y, z;
                    ref_run(o, u, x);
                    ref_run(o, v, y);
                    ref_run(o, u, z);
                    c.trans += 3;
                    if (!check(c, o, u, x, "after a call on other operands") || !check(c, o, v, y, ("after " + (c.verbose ? call(o, u) : std::string("another call of it"))).c_str()) || !check(c, o, u, z, "after other calls of it")) return;
                }
        },
        [](u64 i) { return std::string(tab[i].name); }});
    // all ordered pairs of operations with all their operand tuples
    out.push_back(Space{"all ordered pairs of operations", (u64)nops * nops,
        [=](u64 i, Ctx& c) {
            int a = (int)(i / nops), b = (int)(i % nops);
            size_t nb = ops[b].in.size(), na = std::min(ops[a].in.size(), A.thorough() ? ops[a].in.size() : (size_t)24);
            if (A.lite) { na = std::min(na, (size_t)6); nb = std::min(nb, (size_t)12); }
            c.states = na * nb;
            for (size_t u = 0; u != na; ++u)
                for (size_t v = 0; v != nb; ++v)
                {
                    Val x, y;
                    ref_run(a, u, x);
                    ref_run(b, v, y);
                    c.trans += 2;
                    if (!same(y, ref_[ops[b].base + v])) { check(c, b, v, y, ("after " + call(a, u)).c_str()); return; }
                    ++c.checks;
                }
        },
        [](u64 i) { return std::string(tab[i / nops].name) + " then " + tab[i % nops].name; }});
    // all ordered triples
    if (!A.lite || A.thorough())
        out.push_back(Space{"all ordered triples of operations", (u64)nops * nops,
            [=](u64 i, Ctx& c) {
                int a = (int)(i / nops), b = (int)(i % nops);
                int F = A.thorough() ? 3 : 2;
                c.states = nops * F * F * F;
                for (int d = 0; d != nops; ++d)
                    for (int f = 0; f != F * F * F; ++f)
                    {
                        size_t u = ops[a].few[f % F], v = ops[b].few[f / F % F], w = ops[d].few[f / F / F];
                        Val x;
                        ref_run(a, u, x);
                        ref_run(b, v, x);
                        ref_run(d, w, x);
                        c.trans += 3;
                        ++c.checks;
                        if (!same(x, ref_[ops[d].base + w])) { check(c, d, w, x, ("after " + call(a, u) + ", " + call(b, v)).c_str()); return; }
                    }
            },
            [](u64 i) { return std::string(tab[i / nops].name) + ", " + tab[i % nops].name + ", every operation"; }});
    // preemption
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, 0);
    int istep = A.lite && !A.thorough() ? 7 : 1;
    out.push_back(Space{"preempted between all instructions by another operation", (u64)nops * ((nops + istep - 1) / istep),
        [=](u64 i, Ctx& c) {
            int nb = (nops + istep - 1) / istep, a = (int)(i / nb), b = (int)(i % nb) * istep;
            if (istep != 1) b = (b + a % istep) % nops;
            for (int f = 0; f != 1 + (A.thorough() ? 1 : 0); ++f)
            {
                Val v;
                target = -1;
                set_int(b, ops[b].few[1 - f]);
                stepped(a, ops[a].few[f], v);
                c.trans += steps;
                c.states += steps;
                if (steps < 8) { c.fail("stepping", "no steps taken"); return; }
                if (!same(v, ref_[ops[a].base + ops[a].few[f]])) { check(c, a, ops[a].few[f], v, ("preempted by " + call(b, int_k)).c_str()); return; }
                if (std::memcmp(int_out, ref_[ops[b].base + int_k].f, sizeof(float) * tab[b].nout))
                {
                    c.fail(tab[b].name, "%s gives another result when it preempts %s", call(b, int_k).c_str(), call(a, ops[a].few[f]).c_str());
                    return;
                }
                ++c.checks;
            }
        },
        [=](u64 i) { int nb = (nops + istep - 1) / istep; return std::string(tab[i / nb].name) + " preempted by operation " + std::to_string((i % nb) * istep); }});
    // one preemption only, at each instruction in turn, by the same operation on other operands
    // and by operations spread over the table
    int nothers = A.thorough() ? 40 : A.lite ? -1 : 6; // lite: one of the two self-preemptions
    out.push_back(Space{"preempted once, at each instruction in turn", (u64)nops * (2 + nothers),
        [=](u64 i, Ctx& c) {
            int a = (int)(i / (2 + nothers)), k = (int)(i % (2 + nothers));
            int b = k < 2 ? a : (int)((a + (u64)(k - 1) * nops / (nothers + 1)) % nops);
            set_int(b, ops[b].few[k < 2 ? k + 1 : 1]);
            for (long t = 0;; ++t)
            {
                Val v;
                target = t;
                alive();
                stepped(a, ops[a].few[0], v);
                c.trans += 1;
                if (!interrupted) { c.states = t; break; }
                ++c.checks;
                if (!same(v, ref_[ops[a].base + ops[a].few[0]])) { check(c, a, ops[a].few[0], v, ("preempted at instruction " + std::to_string(t) + " by " + call(b, int_k)).c_str()); return; }
            }
        },
        [=](u64 i) { return std::string(tab[i / (2 + nothers)].name) + " interruption " + std::to_string(i % (2 + nothers)); }});
    return out;
}
int main(int argc, char** argv) { return run_main(argc, argv, make); }
