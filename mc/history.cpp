// C09: every history of typed versor operations up to a depth, and the closure of a finite
// generator set under all of them, against the group of rigid motions in double precision.
#include "ver.hpp"
#include <deque>
#include <unordered_map>
using namespace mc;

static std::vector<Space> out;
static Args A;

enum Ty { RO, TR, MO };
static const char* TN[] = {"rotor", "translator", "motor"};

struct Val
{
    Ty ty;
    union { rotor r; translator t; motor m; };
    MV ref;        // unit even element
    double tmax;   // largest translation scale met so far
    Val() : ty(RO) {}
};
static void comps(Val const& v, float* f, int& n)
{
    if (v.ty == RO) { EV<rotor>::get(v.r, f); n = 4; }
    else if (v.ty == TR) { EV<translator>::get(v.t, f); n = 3; }
    else { EV<motor>::get(v.m, f); n = 8; }
}
static const Comp* ctab(Ty t) { return t == RO ? EV<rotor>::comps() : t == TR ? EV<translator>::comps() : EV<motor>::comps(); }
static std::string showv(Val const& v)
{
    float f[8]; int n;
    comps(v, f, n);
    return fmtv(TN[v.ty], f, n);
}
static double tscale(MV const& r)
{
    double s = 0;
    for (int b : {3, 5, 9, 15}) s += std::fabs(r.v[b]);
    return 1 + s;
}
static MV clean(MV r)
{
    // renormalise the reference exactly onto the motor manifold
    double n = 0;
    for (int b : {0, 12, 10, 6}) n += r.v[b] * r.v[b];
    n = std::sqrt(n);
    for (int i = 0; i != 16; ++i) { r.v[i] /= n; }
    double q = r.v[0] * r.v[15] - r.v[12] * r.v[3] + r.v[10] * r.v[5] - r.v[6] * r.v[9];
    r.v[15] -= q * r.v[0];
    r.v[3] += q * r.v[12];
    r.v[5] -= q * r.v[10];
    r.v[9] += q * r.v[6];
    for (int i = 0; i != 16; ++i) r.m[i] = std::fabs(r.v[i]);
    return r;
}
// ---- generators -----------------------------------------------------------------------
struct Gen { std::string name; Val v; };
static Val mkval(Ty ty, MV ref)
{
    Val v;
    v.ty  = ty;
    v.ref = clean(ref);
    float f[8];
    const Comp* c = ctab(ty);
    int n = ty == RO ? 4 : ty == TR ? 3 : 8;
    for (int i = 0; i != n; ++i) f[i] = (float)(c[i].sign * v.ref.v[c[i].blade]);
    if (ty == RO) v.r = EV<rotor>::make(f);
    else if (ty == TR) v.t = EV<translator>::make(f);
    else v.m = EV<motor>::make(f);
    v.tmax = tscale(v.ref);
    return v;
}
static Val R_(V3 ax, double ang) { return mkval(RO, q_mv(axis_angle(ax, ang / 2))); }
static Val T_(V3 d) { return mkval(TR, t_mv(d)); }
static Val M_(V3 ax, double ang, V3 d) { return mkval(MO, ref::gp(t_mv(d), q_mv(axis_angle(ax, ang / 2)))); }
// values produced by other library operations (their unnamed lanes must be harmless as well)
static Val from(rotor x) { Val v; v.ty = RO; v.r = x; v.ref = clean(mv(x)); v.tmax = tscale(v.ref); return v; }
static Val from(translator x) { Val v; v.ty = TR; v.t = x; v.ref = clean(mv(x)); v.tmax = tscale(v.ref); return v; }
static Val from(motor x) { Val v; v.ty = MO; v.m = x; v.ref = clean(mv(x)); v.tmax = tscale(v.ref); return v; }

static std::vector<Gen> gens(bool big)
{
    std::vector<Gen> g;
    g.push_back(Gen{"Rz90", R_(V3{{0, 0, 1}}, PI / 2)});
    g.push_back(Gen{"R123", R_(V3{{1, 2, 3}}, 1.1)});
    g.push_back(Gen{"Tx", T_(V3{{1, 0, 0}})});
    g.push_back(Gen{"Tobl", T_(V3{{-0.7, 1.3, 2.1}})});
    g.push_back(Gen{"Mx", M_(V3{{1, 0, 0}}, 2.5, V3{{0, 1, -2}})});
    g.push_back(Gen{"Mobl", M_(V3{{-2, 1, 1}}, -1.9, V3{{0.5, 3, 1}})});
    if (big)
    {
        g.push_back(Gen{"Rx180", R_(V3{{1, 0, 0}}, PI)});
        g.push_back(Gen{"R111", R_(V3{{1, 1, 1}}, 4 * PI / 3)});
        g.push_back(Gen{"Tz", T_(V3{{0, 0, -10}})});
        g.push_back(Gen{"M180", M_(V3{{0, 1, 0}}, PI, V3{{1, 1, 1}})});
        g.push_back(Gen{"Rsmall", R_(V3{{0, 1, 0}}, 1e-3)});
    }
    return g;
}
static std::vector<Gen> starts()
{
    std::vector<Gen> g = gens(true);
    g.push_back(Gen{"point*point", from(point(1, 2, 3) * point(-2, 0.5f, 4))});
    g.push_back(Gen{"point/point", from(point(3, 2, 1) / point(-1, 5, 4))});
    g.push_back(Gen{"T/T", from(translator(2, 1, 2, 2) / translator(1, 0, 3, 4))});
    g.push_back(Gen{"exp(ideal)", from(exp(ideal_line(1, -2, 0.5f)))});
    g.push_back(Gen{"sqrt(T)", from(sqrt(translator(3, 1, 1, 1)))});
    g.push_back(Gen{"branch*branch", from(branch(0.6f, 0, 0.8f) * branch(0, 1, 0))});
    g.push_back(Gen{"branch/branch", from(branch(0.6f, 0, 0.8f) / branch(0, 0.6f, -0.8f))});
    g.push_back(Gen{"exp(branch)", from(exp(branch(0.3f, -0.5f, 0.7f)))});
    g.push_back(Gen{"rotor(euler)", from(rotor(euler_angles{0.3f, 0.7f, -1.1f}))});
    g.push_back(Gen{"plane*plane", from(plane(1, 0, 0, 2) * plane(0.6f, 0.8f, 0, -1))});
    g.push_back(Gen{"line*line", from(line(0, -2, 1, 1, 0, 0) * line(1, 0, 3, 0, 1, 0))});
    g.push_back(Gen{"screw", from(motor(1.3f, 2.f, line(0, 1, -2, 1, 0, 0)))});
    g.push_back(Gen{"exp(line)", from(exp(line(0.5f, 1, -2, 0.3f, -0.6f, 0.2f)))});
    g.push_back(Gen{"sqrt(M)", from(sqrt(motor(1.3f, 2.f, line(0, 1, -2, 1, 0, 0))))});
    return g;
}
// elements near the special ones (identity, half turn, full turn), with either sign
static std::vector<Gen> nearby(bool big)
{
    std::vector<Gen> g;
    std::vector<double> off{0, 1e-5, 3e-4, 2e-3, 2e-2, 0.2};
    if (big) for (double o : {1e-6, 1e-4, 1e-3, 7e-3, 0.05, 0.5, 1.0}) off.push_back(o);
    const V3 ax[3] = {V3{{0, 0, 1}}, V3{{0, -1, 0}}, V3{{2, 1, -2}}};
    const V3 ds[4] = {V3{{0, 0, 0}}, V3{{1e-4, 0, 0}}, V3{{0, 2, -1}}, V3{{0, 0, 3}}};
    char nm[80];
    for (double base : {0.0, PI / 2, PI, 2 * PI})
        for (double o : off)
            for (int s : {1, -1})
            {
                if (o == 0 && s < 0) continue;
                for (int x = 0; x != (big ? 3 : 2); ++x)
                {
                    snprintf(nm, sizeof nm, "(%.4g%+.0e axis%d)", base, s * o, x);
                    g.push_back(Gen{std::string("R") + nm, R_(ax[2 - x], base + s * o)});
                    for (int d = 0; d != 4; ++d)
                        if (big || d == 1 || d == 3 - x) g.push_back(Gen{std::string("M") + nm + "d" + std::to_string(d), M_(ax[2 - x], base + s * o, ds[d])});
                }
            }
    for (double l : {0.0, 1e-5, 3e-3, 1.0, 30.0}) g.push_back(Gen{"T" + std::to_string(l), T_(V3{{l, -2 * l, l / 2}})});
    return g;
}
// displacements of every order of magnitude, with and without rotations
static std::vector<Gen> sizes(bool big)
{
    std::vector<Gen> g;
    std::vector<V3> ds;
    for (double m : {1.37e-3, 2.53, 317.3, 1763.7, 40317.3, 231457.9, 3141592.7})
    {
        ds.push_back(V3{{m, 0, 0}});
        ds.push_back(V3{{0, 0, -m}});
        ds.push_back(V3{{0.3 * m, -m, 1}});
        if (big) { ds.push_back(V3{{0, m, 0}}); ds.push_back(V3{{-m, -0.7 * m, 0.4 * m}}); ds.push_back(V3{{-m, m, -m}}); }
    }
    std::vector<std::pair<V3, double>> rs{{V3{{0, 0, 1}}, 0}, {V3{{0, 0, 1}}, PI / 2}, {V3{{1, 2, 3}}, 1.1}, {V3{{-2, 1, 0.5}}, 1e-4}, {V3{{0, -1, 0}}, PI}, {V3{{1, -1, 1}}, -5}};
    if (big) { rs.push_back({V3{{1, 0, 0}}, -1e-2}); rs.push_back({V3{{1, 1, 0}}, 2 * PI - 1e-3}); rs.push_back({V3{{3, 1, -1}}, PI + 1e-3}); }
    char nm[60];
    for (size_t r = 0; r != rs.size(); ++r)
    {
        snprintf(nm, sizeof nm, "R%d", (int)r);
        g.push_back(Gen{nm, R_(rs[r].first, rs[r].second)});
        for (size_t d = 0; d != ds.size(); ++d)
        {
            snprintf(nm, sizeof nm, "M%d(%g,%g,%g)", (int)r, ds[d][0], ds[d][1], ds[d][2]);
            g.push_back(Gen{nm, M_(rs[r].first, rs[r].second, ds[d])});
        }
    }
    for (auto& d : ds)
    {
        snprintf(nm, sizeof nm, "T(%g,%g,%g)", d[0], d[1], d[2]);
        g.push_back(Gen{nm, T_(d)});
    }
    return g;
}
// the 48 elements over the rotations of the cube combined with a few displacements, with the
// components that vanish exactly zero (half turns about parallel axes, exact whole turns, ...)
static std::vector<Gen> exact(bool big)
{
    std::vector<MV> rot;
    const double h = std::sqrt(0.5);
    const int idx[4] = {0, 12, 10, 6};
    auto put = [&](double a, double b, double c_, double d) {
        MV m;
        const double f[4] = {a, b, c_, d};
        for (int i = 0; i != 4; ++i) m.set(idx[i], f[i]);
        rot.push_back(m);
    };
    for (int i = 0; i != 4; ++i)
        for (int s : {1, -1}) put(s * (i == 0), s * (i == 1), s * (i == 2), s * (i == 3));
    for (int k = 0; k != 16; ++k) put(k & 1 ? -.5 : .5, k & 2 ? -.5 : .5, k & 4 ? -.5 : .5, k & 8 ? -.5 : .5);
    for (int i = 0; i != 4; ++i)
        for (int j = i + 1; j != 4; ++j)
            for (int k = 0; k != 4; ++k)
            {
                double f[4] = {0, 0, 0, 0};
                f[i] = k & 1 ? -h : h;
                f[j] = k & 2 ? -h : h;
                put(f[0], f[1], f[2], f[3]);
            }
    std::vector<V3> ds;
    if (big)
    {
        for (int x : {0, 2, -1}) for (int y : {0, -3, 1}) for (int z : {0, 1, 5}) ds.push_back(V3{{(double)x, (double)y, (double)z}});
    }
    else ds = {V3{{0, 0, 0}}, V3{{2, 0, 0}}, V3{{0, -3, 0}}, V3{{0, 1, 4}}, V3{{1, -2, 0.5}}, V3{{0, 0, 1}}};
    std::vector<Gen> g;
    char nm[80];
    for (size_t r = 0; r != rot.size(); ++r)
    {
        snprintf(nm, sizeof nm, "cube%d", (int)r);
        g.push_back(Gen{std::string("R") + nm, mkval(RO, rot[r])});
        for (size_t d = 0; d != ds.size(); ++d) g.push_back(Gen{std::string("M") + nm + "d" + std::to_string(d), mkval(MO, ref::gp(t_mv(ds[d]), rot[r]))});
    }
    for (auto& d : ds) g.push_back(Gen{"T", T_(d)});
    return g;
}
// ---- operations -----------------------------------------------------------------------
static Val mul(Val const& a, Val const& b)
{
    Val o;
    switch (a.ty * 3 + b.ty)
    {
    case RO * 3 + RO: o.ty = RO; o.r = a.r * b.r; break;
    case RO * 3 + TR: o.ty = MO; o.m = a.r * b.t; break;
    case RO * 3 + MO: o.ty = MO; o.m = a.r * b.m; break;
    case TR * 3 + RO: o.ty = MO; o.m = a.t * b.r; break;
    case TR * 3 + TR: o.ty = TR; o.t = a.t * b.t; break;
    case TR * 3 + MO: o.ty = MO; o.m = a.t * b.m; break;
    case MO * 3 + RO: o.ty = MO; o.m = a.m * b.r; break;
    case MO * 3 + TR: o.ty = MO; o.m = a.m * b.t; break;
    default: o.ty = MO; o.m = a.m * b.m; break;
    }
    o.ref  = clean(ref::gp(a.ref, b.ref));
    o.tmax = a.tmax + b.tmax;
    return o;
}
static bool divi(Val const& a, Val const& b, Val& o)
{
    switch (a.ty * 3 + b.ty)
    {
    case RO * 3 + RO: o.ty = RO; o.r = a.r / b.r; break;
    case TR * 3 + TR: o.ty = TR; o.t = a.t / b.t; break;
    case MO * 3 + RO: o.ty = MO; o.m = a.m / b.r; break;
    case MO * 3 + TR: o.ty = MO; o.m = a.m / b.t; break;
    case MO * 3 + MO: o.ty = MO; o.m = a.m / b.m; break;
    default: return false;
    }
    o.ref  = clean(ref::gp(a.ref, ref::rev(b.ref)));
    o.tmax = a.tmax + b.tmax;
    return true;
}
template <class X> static X act(Val const& v, X const& x) { return v.ty == RO ? v.r(x) : v.ty == TR ? v.t(x) : v.m(x); }
static direction actd(Val const& v, direction const& x) { return v.ty == RO ? v.r(x) : v.ty == MO ? v.m(x) : x; }

enum { UREV, UINV, UINVERT, UCONV, UASSIGN, UNORM, UCONSTRAIN, UNEG, UCOPY, NUN };
static const char* UN[] = {"~", "inverse()", "invert()", "motor(x)", "motor=x", "normalized()", "constrained()", "-", "copy"};
static bool unary(int k, Val const& a, Val& o)
{
    o = a;
    switch (k)
    {
    case UREV:
        if (a.ty == TR) return false;
        if (a.ty == RO) o.r = ~a.r; else o.m = ~a.m;
        o.ref = ref::rev(a.ref);
        return true;
    case UINV:
        if (a.ty == RO) o.r = a.r.inverse(); else if (a.ty == TR) o.t = a.t.inverse(); else o.m = a.m.inverse();
        o.ref = ref::rev(a.ref);
        return true;
    case UINVERT:
        if (a.ty == RO) o.r.invert(); else if (a.ty == TR) o.t.invert(); else o.m.invert();
        o.ref = ref::rev(a.ref);
        return true;
    case UCONV:
        if (a.ty == MO) return false;
        o.ty = MO;
        o.m  = a.ty == RO ? motor(a.r) : motor(a.t);
        return true;
    case UASSIGN:
        if (a.ty == MO) return false;
        {
            motor m(9, 8, 7, 6, 5, 4, 3, 2);
            if (a.ty == RO) m = a.r; else m = a.t;
            o.ty = MO;
            o.m  = m;
        }
        return true;
    case UNORM:
        if (a.ty == TR) return false;
        if (a.ty == RO) o.r = a.r.normalized(); else o.m = a.m.normalized();
        return true;
    case UCONSTRAIN:
    {
        if (a.ty == TR) return false;
        float s;
        if (a.ty == RO) { o.r = a.r.constrained(); s = a.r.scalar(); } else { o.m = a.m.constrained(); s = a.m.scalar(); }
        float s2 = a.ty == RO ? o.r.scalar() : o.m.scalar();
        bool flipped = std::signbit(s) != std::signbit(s2);
        if (std::fabs(s) > 1e-4 ? a.ref.v[0] < 0 : flipped) o.ref = ref::scale(a.ref, -1);
        return true;
    }
    case UNEG:
        if (a.ty == TR) return false;
        if (a.ty == RO) o.r = -a.r; else o.m = -a.m;
        o.ref = ref::scale(a.ref, -1);
        return true;
    default:
    {
        Val t = a;
        o     = t;
        return true;
    }
    }
}
// ---- judgement ------------------------------------------------------------------------
static const float PP[3][4] = {{1, 2, 3, 1}, {-4, 0.5f, 2, 1}, {0, 0, 0, 1}};
static const float PL[2][4] = {{0.6f, 0, 0.8f, 2}, {0, -1, 0, 0.5f}};
static const float LN[2][6] = {{0, -3, 2, 1, 0, 0}, {1, 1, -2, 0.6f, 0.8f, 0.7f}};
static const float DR[2][3] = {{0, 0, 1}, {0.6f, -0.8f, 0}};

static MV withm(MV w, double s)
{
    for (int i = 0; i != 16; ++i) w.m[i] = s;
    return w;
}
static bool judge(Ctx& c, Val const& v, int depth, const char* what)
{
    float f[8]; int n;
    comps(v, f, n);
    const Comp* t = ctab(v.ty);
    double k = 12 * (depth + 2);
    bool ok  = true;
    for (int i = 0; i != n; ++i)
    {
        bool ideal = t[i].blade & 1;
        ok &= c.near(what, t[i].name, f[i], t[i].sign * v.ref.v[t[i].blade], ideal ? v.tmax : 1, k);
    }
    if (v.ty != TR)
    {
        double nn = (double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2] + (double)f[3] * f[3];
        ok &= c.near("unit norm", what, (float)nn, 1, 1, k);
        if (v.ty == MO)
        {
            double q = (double)f[0] * f[7] - (double)f[1] * f[4] - (double)f[2] * f[5] - (double)f[3] * f[6];
            ok &= c.near("unit norm (dual part)", what, (float)q, 0, v.tmax, k);
        }
    }
    return ok;
}
static bool probe(Ctx& c, Val const& v, int depth, int kind, const char* what)
{
    double k  = 40 * (depth + 2);
    double ts = v.tmax;
    bool ok   = true;
    switch (kind)
    {
    case 0:
        for (auto& p : PP) ok &= agree(c, what, act(v, mk<point>(p)), withm(ref::sandwich(v.ref, Emb<point>::mv(p)), 5 + 2 * ts), k);
        break;
    case 1:
        for (auto& p : PL) ok &= agree(c, what, act(v, mk<plane>(p)), withm(ref::sandwich(v.ref, Emb<plane>::mv(p)), 3 + 2 * ts), k);
        break;
    case 2:
        for (auto& p : LN) ok &= agree(c, what, act(v, mk<line>(p)), withm(ref::sandwich(v.ref, Emb<line>::mv(p)), 5 + 4 * ts), k);
        break;
    case 3:
        for (auto& p : DR) if (v.ty != TR) ok &= agree(c, what, actd(v, mk<direction>(p)), withm(ref::sandwich(v.ref, Emb<direction>::mv(p)), 2), k);
        break;
    default:
        if (v.ty == MO)
        {
            MV o;
            o.set(14, 1);
            ok &= agree(c, what, v.m(origin()), withm(ref::sandwich(v.ref, o), 1 + 2 * ts), k);
        }
    }
    return ok;
}
static bool samepoint(Ctx& c, const char* what, point a, point b, double s, double k)
{
    float f[4], g[4];
    EV<point>::get(a, f);
    EV<point>::get(b, g);
    bool ok = true;
    for (int i = 0; i != 4; ++i) ok &= c.near(what, EV<point>::comps()[i].name, f[i], g[i], s, k);
    return ok;
}

struct Machine
{
    std::vector<Gen> G;
    int nops() const { return (int)G.size() * 3 + NUN; }
    std::string opname(int k) const
    {
        int g = (int)G.size();
        if (k < g) return G[k].name + "*x";
        if (k < 2 * g) return "x*" + G[k - g].name;
        if (k < 3 * g) return "x/" + G[k - 2 * g].name;
        return UN[k - 3 * g];
    }
    // apply operation k; returns false when not provided for the type
    bool step(Ctx& c, Val const& a, int k, Val& o, int depth, bool rel) const
    {
        int g = (int)G.size();
        const point p = mk<point>(PP[depth % 2]);
        double kk = 40 * (depth + 3);
        if (k < g)
        {
            o = mul(G[k].v, a);
            if (rel) samepoint(c, "(g*x)(p) = g(x(p))", act(o, p), act(G[k].v, act(a, p)), 5 + 2 * o.tmax, kk);
        }
        else if (k < 2 * g)
        {
            o = mul(a, G[k - g].v);
            if (rel) samepoint(c, "(x*g)(p) = x(g(p))", act(o, p), act(a, act(G[k - g].v, p)), 5 + 2 * o.tmax, kk);
        }
        else if (k < 3 * g)
        {
            if (!divi(a, G[k - 2 * g].v, o)) return false;
            if (rel) samepoint(c, "(x/g)(g(p)) = x(p)", act(o, act(G[k - 2 * g].v, p)), act(a, p), 5 + 3 * o.tmax, kk);
        }
        else
        {
            if (!unary(k - 3 * g, a, o)) return false;
            if (rel)
            {
                if (k - 3 * g <= UINVERT) samepoint(c, "reverse undoes", act(o, act(a, p)), p, 5 + 3 * o.tmax, kk);
                else samepoint(c, "same motion", act(o, p), act(a, p), 5 + 2 * o.tmax, kk);
                if (k - 3 * g == UCONSTRAIN) c.expect((o.ty == RO ? o.r.scalar() : o.m.scalar()) >= 0, "constrained", "scalar part is not negative");
            }
        }
        c.trans++;
        return true;
    }
    void dfs(Ctx& c, Val const& v, int depth, int maxdepth, std::string* path) const
    {
        if (c.failed) return;
        int N = nops();
        for (int k = 0; k != N && !c.failed; ++k)
        {
            Val o;
            if (!step(c, v, k, o, depth, true)) continue;
            c.states++;
            judge(c, o, depth, "composition");
            if (depth <= 2) for (int q = 0; q != 5; ++q) probe(c, o, depth, q, "image");
            else probe(c, o, depth, (k + depth + (int)c.states) % 5, "image");
            if (c.failed) { c.msg = "after " + path[0] + " " + opname(k) + ": " + c.msg + " value " + showv(o); return; }
            if (depth < maxdepth)
            {
                std::string p = path[0] + " " + opname(k) + ";";
                dfs(c, o, depth + 1, maxdepth, &p);
            }
        }
    }
};

static std::vector<Space> mk_(Args const& a)
{
    A = a;
    out.clear();
    Machine M;
    M.G = gens(A.thorough());
    std::vector<Gen> S = starts();
    int D = A.lite ? 2 : 3;
    if (A.thorough() && !A.lite) D = 4;
    // histories: start value, first operation, then every continuation
    for (int cfg = 0; cfg != 1; ++cfg)
    {
        u64 n = (u64)M.nops();
        out.push_back(Space{"all histories to depth " + std::to_string(D + 1), S.size() * n * n,
                            [=](u64 i, Ctx& c) {
                                Dig d(i);
                                int k2 = (int)d(n), k = (int)d(n);
                                Val v = S[d(S.size())].v, o, o2;
                                judge(c, v, 0, "start");
                                std::string path = showv(v) + ": " + M.opname(k) + "; " + M.opname(k2) + ";";
                                if (!M.step(c, v, k, o, 0, true)) { c.mix(0); return; }
                                judge(c, o, 0, "composition");
                                for (int q = 0; q != 5; ++q) probe(c, o, 0, q, "image");
                                if (!M.step(c, o, k2, o2, 1, true)) { c.mix(0); return; }
                                judge(c, o2, 1, "composition");
                                for (int q = 0; q != 5; ++q) probe(c, o2, 1, q, "image");
                                if (c.failed) { c.msg = "after " + path + " " + c.msg; return; }
                                M.dfs(c, o2, 2, D, &path);
                            },
                            [=](u64 i) {
                                Dig d(i);
                                int k2 = (int)d(n), k = (int)d(n);
                                return "start " + S[d(S.size())].name + ", then " + M.opname(k) + ", " + M.opname(k2) + ", then every continuation";
                            }});
    }
    // every ordered pair of near-special elements: product, quotient, inverse products, images
    for (int which = 0; which != 3; ++which)
    {
        std::vector<Gen> E = which == 2 ? sizes(a.thorough()) : which ? exact(a.thorough()) : nearby(a.thorough());
        out.push_back(Space{which == 2 ? "pairs of motions of any size" : which ? "pairs of motions of the cube, exact" : "pairs of near-special elements", E.size() * E.size(),
                            [=](u64 i, Ctx& c) {
                                Dig d(i);
                                Val x = E[d(E.size())].v, y = E[d(E.size())].v, o, w;
                                Machine P;
                                P.G.push_back(Gen{"", y});
                                for (int k = 0; k != 3 && !c.failed; ++k)
                                {
                                    if (!P.step(c, x, k, o, 0, true)) continue;
                                    judge(c, o, 0, k == 2 ? "quotient" : "composition");
                                    for (int q = 0; q != 5; ++q) probe(c, o, 0, q, "image");
                                    for (int un = 0; un != NUN && !c.failed; ++un)
                                        if (P.step(c, o, 3 + un, w, 1, true)) { judge(c, w, 1, UN[un]); probe(c, w, 1, un % 5, UN[un]); }
                                    if (unary(UINV, x, w))
                                    {
                                        Val z = mul(w, o);
                                        judge(c, z, 2, "inverse times product");
                                        probe(c, z, 2, 0, "inverse times product");
                                    }
                                }
                                if (c.failed) c.msg = showv(x) + " with " + showv(y) + ": " + c.msg;
                            },
                            [=](u64 i) {
                                Dig d(i);
                                std::string s = E[d(E.size())].name;
                                return s + " with " + E[d(E.size())].name;
                            }});
    }
    // closure: octahedral rotations and unit translations inside a box, every typed product,
    // until no new state appears; float values are those reached by the shortest history
    int B = A.lite ? 1 : (A.thorough() ? 4 : 2);
    out.push_back(Space{"closure of the integer motions, box " + std::to_string(B), 4,
                        [=](u64 which, Ctx& c) {
                            std::vector<Gen> G;
                            for (int ax = 0; ax != 3; ++ax)
                                for (int s : {1, -1})
                                {
                                    V3 u{{0, 0, 0}}, w{{0, 0, 0}};
                                    u[ax] = 1;
                                    w[ax] = s;
                                    Val r = R_(u, s * PI / 2), t = T_(w);
                                    if (which & 1) { Val o; unary(UCONV, r, o); r = o; unary(UCONV, t, o); t = o; }
                                    G.push_back(Gen{"R", r});
                                    G.push_back(Gen{"T", t});
                                }
                            bool left = which & 2;
                            std::unordered_map<std::string, int> seen;
                            std::deque<std::pair<Val, int>> q;
                            Val id;
                            {
                                MV o;
                                o.set(0, 1);
                                id = mkval(MO, o);
                            }
                            auto key = [](Val const& v) {
                                float f[8]; int n;
                                comps(v, f, n);
                                std::string s;
                                char b[16];
                                for (int i = 0; i != n; ++i) { snprintf(b, sizeof b, "%d,", (int)std::lround(f[i] * 16)); s += b; }
                                return s;
                            };
                            q.push_back({id, 0});
                            seen[key(id)] = 0;
                            c.states = 1;
                            int deepest = 0;
                            while (!q.empty() && !c.failed)
                            {
                                auto cur = q.front();
                                q.pop_front();
                                for (auto& g : G)
                                {
                                    Val o = left ? mul(g.v, cur.first) : mul(cur.first, g.v);
                                    // displacement of the origin decides whether we stay in the box
                                    MV org;
                                    org.set(14, 1);
                                    MV im = ref::sandwich(o.ref, org);
                                    bool in = true;
                                    for (int b : {13, 11, 7}) in &= std::fabs(im.v[b]) < B + 0.5;
                                    if (!in) continue;
                                    o.tmax = 2 + 2 * B;
                                    c.trans++;
                                    judge(c, o, cur.second, "closure");
                                    for (int pr = 0; pr != 5; ++pr) probe(c, o, cur.second, pr, "closure image");
                                    for (int un = 0; un != NUN; ++un)
                                    {
                                        Val w;
                                        if (!unary(un, o, w)) continue;
                                        c.trans++;
                                        judge(c, w, cur.second, UN[un]);
                                        probe(c, w, cur.second, 0, UN[un]);
                                    }
                                    if (seen.insert({key(o), 1}).second)
                                    {
                                        c.states++;
                                        q.push_back({o, cur.second + 1});
                                        deepest = std::max(deepest, cur.second + 1);
                                    }
                                }
                            }
                            u64 want = 48ull * ipow(2 * B + 1, 3);
                            if (!c.failed && c.states != want) c.fail("closure", "reached %llu states, the group has %llu in the box", (unsigned long long)c.states, (unsigned long long)want);
                            if (c.verbose) printf("%llu states, depth %d\n", (unsigned long long)c.states, deepest);
                        },
                        [](u64 i) { return std::string(i & 2 ? "multiplying on the left" : "multiplying on the right") + (i & 1 ? ", generators as motors" : ", generators as rotors and translators"); }});
    return out;
}
int main(int c, char** v) { return run_main(c, v, mk_); }
