// C18: every public operation in every build configuration, on the same operands.
// With several configurations linked in, results are compared; built with a sanitizer and a
// single configuration, every operation runs under it on the same operands.
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#define MC_UNPOISON 1
#endif
#endif
#include "opalpha.hpp"
using namespace mc;

#define X(n) extern "C" const OpDesc* OPT_CAT(ops_, n)(int* k);
CFGLIST
#undef X
typedef const OpDesc* (*Fn)(int*);
struct Cfg { const char* name; Fn f; };
static const Cfg cfgs[] = {
#define X(n) {#n, OPT_CAT(ops_, n)},
    CFGLIST
#undef X
};
enum { NC = sizeof(cfgs) / sizeof(cfgs[0]) };
static const OpDesc* tab[NC];
static int nops;
static std::vector<Space> out;

static double norminf(const float* f, int n)
{
    double m = 0;
    for (int i = 0; i != n; ++i) m = std::fmax(m, std::fabs(f[i]));
    return m;
}
// magnitude that scales differences, and whether the operands are in the operation's domain
static double magnitude(OpDesc const& o, const float* in, const float* res, bool& skip)
{
    const char* a = o.args;
    double m = 1, s = 0, big = 0;
    const float* f = in;
    const float* last = in;
    for (int i = 0; a[i]; ++i)
    {
        double n = norminf(f, arity(a[i]));
        if (a[i] == 'T' || a[i] == 'M' || a[i] == 'l' || a[i] == 'p' || a[i] == 'x') n = std::fmax(1., n);
        if (a[i] == 'V') n = 1;
        big = std::fmax(big, n);
        m *= n;
        s += n;
        last = f;
        f += arity(a[i]);
    }
    double r = norminf(res, o.nout);
    switch (o.scale)
    {
    case 'e': return 0;
    case 'm': return 8 * m;
    case 'd': return 8 * m * std::fmax(1., norminf(last, arity(a[strlen(a) - 1])));
    case 'q': // translator of two points: quotient by the weights
    {
        double w = std::fabs((double)in[3] * in[7]);
        if (w < 1e-12 || m / w > 1e7) skip = true;
        return 8 * m / w;
    }
    case 's': return s;
    case 'r': return 4 * r;
    case 'V': return 8 * m * m;
    case 'v':
    {
        double v = norminf(in, arity(a[0]));
        if (a[0] != 'R' && a[0] != 'P') v = std::fmax(1., v);
        double e = norminf(in + arity(a[0]), arity(a[1]));
        return 16 * v * v * e;
    }
    case 'n':
    {
        // norm relative to the size of the components
        double e = 0, all = norminf(in, o.nin);
        switch (a[0])
        {
        case 'P': case 'D': e = norminf(in, 3); break;
        case 'X': e = std::fabs(in[3]); break;
        case 'L': e = norminf(in + 3, 3); break;
        case 'N': e = norminf(in, 4); break;
        default: e = all;
        }
        if (!(e > 0)) { skip = true; return 0; }
        double q = all / e;
        if (q > 1e5) { skip = true; return 0; }
        return 4 * r * (a[0] == 'L' || a[0] == 'N' ? 4 + q : 1.);
    }
    case 'x':
    case 'y':
    {
        if (a[0] == 'M' || a[0] == 'R')
        {
            // logarithm: away from the places where it is ill-conditioned
            double sn = norminf(in + 1, 3);
            if (sn < 0.05 && a[0] == 'M') { if (sn != 0 || in[0] < 0) skip = true; }
            if (std::fabs(in[0]) < 1e-6 && a[0] == 'M') skip = true;
            if (in[0] < -0.998) skip = true;
            return 64 * std::fmax(1., s);
        }
        if (a[0] == 'L' || a[0] == 'B') // exponential: angle reduction amplifies with the angle
        {
            double n = norminf(in, o.nin);
            if (n > 50) skip = true;
            double e = a[0] == 'L' ? norminf(in + 3, 3) : n;
            if (a[0] == 'L' && e < 1e-2 * n && e != 0) skip = true;
            return 16 * (1 + n) * (1 + n);
        }
        return 64 * std::fmax(1., m) * std::fmax(1., s);
    }
    case 'h':
        // roots are ill-conditioned where the scalar part is close to -1
        if (a[0] != 'b' && in[0] < -0.99) { skip = true; return 0; }
        return 512 * std::fmax(1., s) * std::fmax(1., s);
    case 'E': return 64 * (1 + s) / std::fmax(0.02, std::cos(in[1]));
    case 't': return 64 * m * m;
    }
    (void)big;
    return 8 * m;
}

static std::vector<Space> make(Args const& A)
{
    for (int k = 0; k != NC; ++k)
    {
        int n;
        tab[k] = cfgs[k].f(&n);
        if (k && n != nops) { fprintf(stderr, "tables differ\n"); exit(3); }
        nops = n;
    }
    u64 limit = A.lite ? 3000 : A.thorough() ? 1000000 : 40000;
    for (int o = 0; o != nops; ++o)
    {
        auto l = std::make_shared<std::vector<Ops>>(operand_lists(tab[0][o], limit, A.thorough()));
        out.push_back(Space{tab[0][o].name, product_size(*l),
            [=](u64 i, Ctx& c) {
                float in[32] = {0}, r[NC][16];
                pick(*l, i, in);
                for (int k = 0; k != NC; ++k)
                {
                    std::memset(r[k], 0, sizeof r[k]);
                    tab[k][o].run(in, r[k]);
#ifdef MSAN
                    long at = __msan_test_shadow(r[k], sizeof(float) * tab[k][o].nout);
                    __msan_unpoison(r[k], sizeof r[k]);
                    if (at >= 0)
                    {
                        c.fail(tab[k][o].name, "%s result %ld is left uninitialised", tab[k][o].name, at / 4);
                        return;
                    }
#endif
                }
                OpDesc const& d = tab[0][o];
                c.trans = NC;
                for (int j = 0; j != d.nout; ++j) c.mix(r[0][j]);
                if (c.verbose)
                    for (int k = 0; k != NC; ++k) printf("  %-28s %s\n", cfgs[k].name, fmtv("", r[k], d.nout).c_str());
                bool skip = false;
                double tol = magnitude(d, in, r[0], skip) * 1.1920929e-7 + (d.scale == 'e' ? 0 : 1e-30);
                ++c.checks;
                if (skip) return;
                for (int k = 1; k != NC; ++k)
                    for (int j = 0; j != d.nout; ++j)
                    {
                        double a = r[0][j], b = r[k][j];
                        if (std::isnan(a) && std::isnan(b)) continue;
                        if (a == b || std::fabs(a - b) <= tol) continue;
                        // log and root of a half turn: either sign of the axis is a correct branch
                        c.fail(d.name, "%s result %d: %.9g in build %s, %.9g in build %s (tolerance %.3g)", d.name, j, a, cfgs[0].name, b, cfgs[k].name, tol);
                        return;
                    }
            },
            [=](u64 i) {
                float in[32];
                pick(*l, i, in);
                std::string s = tab[0][o].name;
                const float* f = in;
                for (const char* a = tab[0][o].args; *a; ++a) { s += fmtv((std::string(" ") + *a).c_str(), f, arity(*a)); f += arity(*a); }
                return s;
            }});
    }
    return out;
}
int main(int argc, char** argv) { return run_main(argc, argv, make); }
