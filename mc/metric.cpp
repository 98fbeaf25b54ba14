// C10 (norms, normalization, inverses), C14 (projections), C15 (constructors), C19 (distances and angles).
#include "prod.hpp"
using namespace mc;

static std::vector<Space> out;
static Args A;

// 1/sqrt of the Study number V ~V, so that V * study_rsqrt is V normalized
static MV study_rsqrt(MV const& v)
{
    MV n = ref::gp(v, ref::rev(v));
    double s = n.v[0], t = n.v[15];
    MV d;
    d.v[0]  = 1 / std::sqrt(s);
    d.m[0]  = n.m[0] / (s * std::sqrt(s));
    d.v[15] = -t / (2 * s * std::sqrt(s));
    d.m[15] = n.m[15] / (s * std::sqrt(s)) * (n.m[0] / s);
    return d;
}
// float must be able to carry the squares and cubes
static bool in_range(double s) { return s > 1e-22 && s < 1e18; }
// float must be able to carry the square
static bool in_square(double s) { return s > 1e-36 && s < 1e36; }
static bool in_range_wide(double s) { return s > 1e-34 && s < 1e34; }
// float must be able to carry the result
static bool in_float(MV const& w)
{
    for (double m : w.m) if (m > 1e36) return false;
    return true;
}

template <class T> void each(std::string nm, std::function<void(Ctx&, const float*)> f)
{
    auto wrap = [](std::function<void(u64, float*)> get, std::function<void(Ctx&, const float*)> f) {
        return [=](u64 i, Ctx& c) { float v[8]; get(i, v); c.trans = 1; f(c, v); };
    };
    auto shw = [](std::function<void(u64, float*)> get) {
        return [=](u64 i) { float v[8]; get(i, v); return fmtv(EV<T>::nm(), v, EV<T>::N); };
    };
    int n = EV<T>::N;
    {
        Lat l(n, L5, n > 6 && !A.thorough() ? 3 : 5);
        std::function<void(u64, float*)> g = [l](u64 i, float* v) { l.get(i, v); };
        out.push_back(Space{nm + " lattice", l.size(), wrap(g, f), shw(g)});
    }
    {
        DevSpace d(n, A.lite ? 1 : A.thorough() ? 4 : 3, WIDE, NW);
        if (!A.thorough() && n > 6) d = DevSpace(n, A.lite ? 1 : 2, WIDE, NW);
        std::function<void(u64, float*)> g = [d](u64 i, float* v) { d.get(i, v); };
        out.push_back(Space{nm + " deviations", d.size(), wrap(g, f), shw(g)});
    }
    {
        auto p = probes(n, true);
        // every probe at every power of ten that single precision can still square
        std::function<void(u64, float*)> g = [p, n](u64 i, float* v) {
            float s = (float)std::pow(10., (double)(i % 35) - 17);
            for (int k = 0; k != n; ++k) v[k] = p[i / 35][k] * s;
        };
        out.push_back(Space{nm + " scaled probes", (u64)p.size() * 35, wrap(g, f), shw(g)});
        // and every probe at norm (or weight) close to one, from both sides
        std::function<void(u64, float*)> h = [p, n](u64 i, float* v) {
            auto const& q = p[i / 138];
            u64 k = i % 138;
            double s = 0;
            int cls = (int)(k / 46);
            // norm of all coefficients, of the last ones, or of the first ones
            for (int j = 0; j != n; ++j) if (cls == 0 || (cls == 1 ? j >= n - (n == 4 ? 1 : 3) : j < (n == 8 ? 4 : 3))) s += (double)q[j] * q[j];
            s = s > 0 ? 1 / std::sqrt(s) : 1;
            double e = std::ldexp(1., -(int)(k % 46 / 2));
            s *= (k & 1) ? 1 - e * 0.999 : 1 + e * 0.999;
            for (int j = 0; j != n; ++j) v[j] = (float)(q[j] * s);
        };
        out.push_back(Space{nm + " nearly normalized probes", (u64)p.size() * 138, wrap(h, f), shw(h)});
    }
    {
        auto m = std::make_shared<std::vector<Made<T>>>(made<T>(false, 8));
        for (auto& x : made<T>(true, 8)) m->push_back(x);
        out.push_back(Space{nm + " of produced elements", (u64)m->size(),
                            [m, f](u64 i, Ctx& c) { float v[8]; EV<T>::get((*m)[i].v, v); Stead<T> s(0, v, &(*m)[i].v); c.trans = 1; f(c, v); },
                            [m](u64 i) { return std::string((*m)[i].how) + " = " + show((*m)[i].v); }});
    }
}

template <class T> T norm_copy(T const& x) { T const y = x; return y.normalized(); }
template <class T> T norm_inplace(T x) { x.normalize(); return x; }
template <class T> bool same_bits(T const& a, T const& b)
{
    float x[8], y[8];
    EV<T>::get(a, x);
    EV<T>::get(b, y);
    return std::memcmp(x, y, sizeof(float) * EV<T>::N) == 0;
}
template <class T> void self_close(Ctx& c, const char* k, T const& a, MV const& w, double tol)
{
    agree(c, k, a, w, tol);
}

// normalization of T whose norm is the Study norm
template <class T> void study_normal()
{
    std::string nm = std::string("normalize ") + EV<T>::nm();
    each<T>(nm, [nm](Ctx& c, const float* f) {
        MV x = Emb<T>::mv(f);
        MV n = ref::gp(x, ref::rev(x));
        if (!(EV<T>::N <= 4 ? in_square : in_range_wide)(n.v[0])) return;
        MV want = ref::gp(x, study_rsqrt(x));
        if (!in_float(want)) return;
        T v = mk<T>(f);
        T y = norm_copy(v);
        agree(c, nm.c_str(), y, want, 64);
        T z = norm_inplace(v);
        agree(c, (nm + " in place").c_str(), z, want, 64);
        // normalizing a unit element changes nothing but rounding
        T y2 = norm_copy(y);
        MV yy = mv(y);
        for (int k = 0; k != 16; ++k) if (yy.m[k] < want.m[k]) yy.m[k] = want.m[k];
        agree(c, (nm + " twice").c_str(), y2, yy, 96);
        for (int k = 0; k != EV<T>::N; ++k)
        {
            float g[8];
            EV<T>::get(v, g);
            if (std::memcmp(&g[k], &f[k], 4)) c.fail(nm + " operand", "normalized() modified its operand");
        }
    });
}
// inverse through multiplication
template <class T> MV inv_ref(MV const& x) { return ref::inverse_even(x); }
template <class T> struct Inv
{
    static void run()
    {
        std::string nm = std::string("inverse of ") + EV<T>::nm();
        each<T>(nm, [nm](Ctx& c, const float* f) {
            MV x = Emb<T>::mv(f);
            MV n = ref::gp(x, ref::rev(x));
            if (!in_range_wide(n.v[0])) return;
            MV want = ref::inverse_even(x);
            if (!in_float(want)) return;
            T const v = mk<T>(f);
            T i = v.inverse();
            agree(c, nm.c_str(), i, want, 64);
            T j = v;
            j.invert();
            agree(c, (nm + " in place").c_str(), j, want, 64);
        });
    }
};

static void c10()
{
    // ---- norms
    each<plane>("norm of plane", [](Ctx& c, const float* f) {
        double s = (double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2];
        if (s != 0 && !in_square(s)) return;
        plane const p = mk<plane>(f);
        c.near("plane norm", "norm", p.norm(), std::sqrt(s), std::sqrt(s), 24);
    });
    each<branch>("norm of branch", [](Ctx& c, const float* f) {
        double s = (double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2];
        if (s != 0 && !in_square(s)) return;
        branch b = mk<branch>(f);
        c.near("branch squared norm", "norm", b.squared_norm(), s, s, 24);
        c.near("branch norm", "norm", b.norm(), std::sqrt(s), std::sqrt(s), 24);
    });
    each<ideal_line>("norm of ideal line", [](Ctx& c, const float* f) {
        double s = (double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2];
        if (s != 0 && !in_square(s)) return;
        ideal_line b = mk<ideal_line>(f);
        c.near("ideal squared norm", "norm", b.squared_ideal_norm(), s, s, 24);
        c.near("ideal norm", "norm", b.ideal_norm(), std::sqrt(s), std::sqrt(s), 24);
    });
    each<line>("norm of line", [](Ctx& c, const float* f) {
        double s = (double)f[3] * f[3] + (double)f[4] * f[4] + (double)f[5] * f[5];
        if (s != 0 && !in_square(s)) return;
        line b = mk<line>(f);
        c.near("line squared norm", "norm", b.squared_norm(), s, s, 24);
        c.near("line norm", "norm", b.norm(), std::sqrt(s), std::sqrt(s), 24);
    });
    // the same for elements whose unused lanes hold values: results of products
    each<line>("norms of produced elements", [](Ctx& c, const float* f) {
        // a plane and a line produced by joins and meets of general operands
        float pf[4] = {f[3], f[4], f[5], 2.f};
        float qf[4] = {f[0], f[1], f[2], 1.f};
        plane p = mk<plane>(pf);
        point q = mk<point>(qf);
        line l = p | q;
        double s = (double)pf[0] * pf[0] + (double)pf[1] * pf[1] + (double)pf[2] * pf[2];
        if (!in_square(s)) return;
        c.near("line norm of p|P", "norm", l.norm(), std::sqrt(s), std::sqrt(s), 24);
        plane r = q | l;
        MV w = ref::dot(Emb<point>::mv(qf), mv(l));
        double rs = std::sqrt(w.v[2] * w.v[2] + w.v[4] * w.v[4] + w.v[8] * w.v[8]);
        c.near("plane norm of P|l", "norm", r.norm(), rs, w.m[2] + w.m[4] + w.m[8], 24);
    });
    // ---- normalization
    each<plane>("normalize plane", [](Ctx& c, const float* f) {
        double s = (double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2];
        if (!in_square(s)) return;
        MV want = ref::scale(Emb<plane>::mv(f), 1 / std::sqrt(s));
        if (!in_float(want)) return;
        plane const p = mk<plane>(f);
        plane y = p.normalized();
        agree(c, "normalize plane", y, want, 24);
        agree(c, "normalize plane in place", norm_inplace(p), want, 24);
        agree(c, "normalize plane twice", y.normalized(), want, 32);
        c.near("normalize plane", "norm", y.norm(), 1, 1, 24);
    });
    each<branch>("normalize branch", [](Ctx& c, const float* f) {
        double s = (double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2];
        if (!in_square(s)) return;
        MV want = ref::scale(Emb<branch>::mv(f), 1 / std::sqrt(s));
        if (!in_float(want)) return;
        branch const p = mk<branch>(f);
        branch y = p.normalized();
        agree(c, "normalize branch", y, want, 24);
        agree(c, "normalize branch in place", norm_inplace(p), want, 24);
        agree(c, "normalize branch twice", y.normalized(), want, 32);
    });
    each<direction>("normalize direction", [](Ctx& c, const float* f) {
        double s = (double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2];
        if (!in_square(s)) return;
        MV want = ref::scale(Emb<direction>::mv(f), 1 / std::sqrt(s));
        if (!in_float(want)) return;
        direction const p = mk<direction>(f);
        direction y = p.normalized();
        agree(c, "normalize direction", y, want, 24);
        agree(c, "normalize direction in place", norm_inplace(p), want, 24);
        agree(c, "normalize direction twice", y.normalized(), want, 32);
    });
    each<point>("normalize point", [](Ctx& c, const float* f) {
        if (!(std::fabs(f[3]) > 1e-11)) return;
        MV want = ref::scale(Emb<point>::mv(f), 1 / (double)f[3]);
        if (!in_float(want)) return;
        point const p = mk<point>(f);
        point y = p.normalized();
        agree(c, "normalize point", y, want, 24);
        agree(c, "normalize point in place", norm_inplace(p), want, 24);
        agree(c, "normalize point twice", y.normalized(), want, 32);
    });
    study_normal<line>();
    study_normal<rotor>();
    study_normal<motor>();
    // ---- inverses
    Inv<branch>::run();
    Inv<line>::run();
    Inv<rotor>::run();
    Inv<motor>::run();
    each<translator>("inverse of translator", [](Ctx& c, const float* f) {
        translator const t = mk<translator>(f);
        MV want = Emb<translator>::mv(f);
        for (int k : {3, 5, 9}) want.v[k] = -want.v[k];
        agree(c, "inverse of translator", t.inverse(), want, 8);
        translator u = t;
        u.invert();
        agree(c, "inverse of translator in place", u, want, 8);
    });
    each<plane>("inverse of plane", [](Ctx& c, const float* f) {
        double s = (double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2];
        if (!in_square(s)) return;
        MV want = ref::scale(Emb<plane>::mv(f), 1 / s);
        if (!in_float(want)) return;
        plane const p = mk<plane>(f);
        agree(c, "inverse of plane", p.inverse(), want, 24);
        plane q = p;
        q.invert();
        agree(c, "inverse of plane in place", q, want, 24);
    });
    each<point>("inverse of point", [](Ctx& c, const float* f) {
        if (!(std::fabs(f[3]) > 1e-9)) return;
        // projectively: P * inverse(P) is a non-zero scalar of magnitude one
        point const p = mk<point>(f);
        point q = p.inverse();
        point r = p;
        r.invert();
        MV want = ref::scale(Emb<point>::mv(f), 1 / ((double)f[3] * f[3]));
        float g[4];
        EV<point>::get(q, g);
        // orientation of a point is not part of the claim: compare with the sign of w
        double sg = (g[3] < 0) == (want.v[14] < 0) ? 1 : -1;
        agree(c, "inverse of point", q, ref::scale(want, sg), 24);
        agree(c, "inverse of point in place", r, ref::scale(want, sg), 24);
    });
    // ---- constraint to the short arc
    each<rotor>("constrain rotor", [](Ctx& c, const float* f) {
        rotor const r = mk<rotor>(f);
        rotor y = r.constrained(), z = r;
        z.constrain();
        // (a scalar part of either zero satisfies the constraint with both signs)
        double sg = f[0] < 0 ? -1 : 1;
        if (f[0] == 0)
        {
            float g[4];
            EV<rotor>::get(y, g);
            double d = 0;
            for (int k = 0; k != 4; ++k) d += (double)g[k] * f[k];
            if (d < 0) sg = -1;
        }
        MV want = ref::scale(Emb<rotor>::mv(f), sg);
        agree(c, "constrain rotor", y, want, 1);
        agree(c, "constrain rotor in place", z, want, 1);
        c.expect(y.scalar() >= 0, "constrain rotor", "scalar part is non-negative");
    });
    each<motor>("constrain motor", [](Ctx& c, const float* f) {
        motor const r = mk<motor>(f);
        motor y = r.constrained(), z = r;
        z.constrain();
        // (a scalar part of either zero satisfies the constraint with both signs)
        double sg = f[0] < 0 ? -1 : 1;
        if (f[0] == 0)
        {
            float g[8];
            EV<motor>::get(y, g);
            double d = 0;
            for (int k = 0; k != 8; ++k) d += (double)g[k] * f[k];
            if (d < 0) sg = -1;
        }
        MV want = ref::scale(Emb<motor>::mv(f), sg);
        agree(c, "constrain motor", y, want, 1);
        agree(c, "constrain motor in place", z, want, 1);
        c.expect(y.scalar() >= 0, "constrain motor", "scalar part is non-negative");
    });
}

// ---------------------------------------------------------------- Euclidean helpers
static V3 operator+(V3 a, V3 b) { return V3{{a[0] + b[0], a[1] + b[1], a[2] + b[2]}}; }
static V3 operator-(V3 a, V3 b) { return V3{{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static V3 operator*(double s, V3 b) { return V3{{s * b[0], s * b[1], s * b[2]}}; }
static double dotp(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(V3 a, V3 b) { return V3{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static double len(V3 a) { return std::sqrt(dotp(a, a)); }
static V3 unit(V3 a) { return (1 / len(a)) * a; }
static std::string vs(V3 a)
{
    char b[80];
    snprintf(b, sizeof b, "(%g,%g,%g)", a[0], a[1], a[2]);
    return b;
}
// unit line through q with direction u (the orientation of join(q, q + u))
static void line_f(V3 q, V3 u, float* f)
{
    MV P, Q;
    P.v[13] = -q[0]; P.v[11] = q[1]; P.v[7] = -q[2]; P.v[14] = 1;
    Q.v[13] = -u[0]; Q.v[11] = u[1]; Q.v[7] = -u[2]; // P & (P + u), without the rounding of P + u
    for (int i = 0; i != 16; ++i) { P.m[i] = std::fabs(P.v[i]); Q.m[i] = std::fabs(Q.v[i]); }
    MV l = ref::reg(P, Q);
    const Comp* c = EV<line>::comps();
    for (int i = 0; i != 6; ++i) f[i] = (float)(c[i].sign * l.v[c[i].blade]);
}
static std::vector<V3> dirs(int level)
{
    std::vector<V3> v;
    for (V3 a : axes(level)) v.push_back(unit(a));
    return v;
}
static std::vector<V3> positions(bool thorough, bool lite)
{
    std::vector<V3> v;
    int K = lite ? 1 : thorough ? 4 : 3;
    for (int x = -K; x <= K; ++x)
        for (int y = -K; y <= K; ++y)
            for (int z = -K; z <= K; ++z) v.push_back(V3{{(double)x, (double)y, (double)z}});
    v.push_back(V3{{0.37, -1.21, 2.83}});
    v.push_back(V3{{-40, 17.5, 93}});
    v.push_back(V3{{1e-3, 2e-3, -1e-3}});
    v.push_back(V3{{1000, -2000, 3000}});
    v.push_back(V3{{1000, -2000, 3000.5}});
    for (double e : {1e-1, 1e-2, 1e-4, 1e-6})
    {
        v.push_back(V3{{1, 1 + e, 1}});
        v.push_back(V3{{e, -2 * e, 0}});
        v.push_back(V3{{0, 0, e}});
        v.push_back(V3{{-2 - e, 1 - e, 2}});
    }
    return v;
}
static std::vector<V3> few_pos()
{
    std::vector<V3> v;
    for (int x = -1; x <= 1; ++x)
        for (int y = -1; y <= 1; ++y)
            for (int z = -1; z <= 1; ++z)
                if ((x + y + z) % 2 == 0) v.push_back(V3{{(double)x, (double)y, (double)z}});
    v.push_back(V3{{0.37, -1.21, 2.83}});
    v.push_back(V3{{-40, 17.5, 93}});
    v.push_back(V3{{1000, -2000, 3000}});
    return v;
}
static point mkpt(V3 p) { return point((float)p[0], (float)p[1], (float)p[2]); }
static plane mkpl(V3 n, double d) { return plane((float)n[0], (float)n[1], (float)n[2], (float)d); }
static line mkln(V3 q, V3 u) { float f[6]; line_f(q, u, f); return mk<line>(f); }
static void close3(Ctx& c, const char* k, point const& p, V3 w, double scale, double tol)
{
    double x = p.x() / (double)p.w(), y = p.y() / (double)p.w(), z = p.z() / (double)p.w();
    c.near(k, "x", (float)x, w[0], scale, tol);
    c.near(k, "y", (float)y, w[1], scale, tol);
    c.near(k, "z", (float)z, w[2], scale, tol);
}
// x and y are multiples of each other, and neither vanishes
static void parallel(Ctx& c, const char* k, const float* x, const float* y, int n, double tol)
{
    double nx = 0, ny = 0;
    for (int i = 0; i != n; ++i) { nx += (double)x[i] * x[i]; ny += (double)y[i] * y[i]; }
    nx = std::sqrt(nx);
    ny = std::sqrt(ny);
    ++c.checks;
    if (!(nx > 0 && ny > 0)) { c.fail(k, "%s: an element vanishes", k); return; }
    for (int i = 0; i != n; ++i)
        for (int j = i + 1; j != n; ++j)
        {
            double m = (double)x[i] * y[j] - (double)x[j] * y[i];
            if (!(std::fabs(m) <= tol * nx * ny)) { c.fail(k, "%s: not proportional: minor (%d,%d) is %g of %g", k, i, j, m, nx * ny); return; }
        }
}

// every pair of normalized elements that other operations returned
template <class X, class Y, class F> static void madepairs(const char* nm, F f)
{
    auto mx = std::make_shared<std::vector<Made<X>>>(made<X>(true, A.lite ? 1 : A.thorough() ? 6 : 4));
    auto my = std::make_shared<std::vector<Made<Y>>>(made<Y>(true, A.lite ? 1 : A.thorough() ? 6 : 4));
    u64 nx = mx->size();
    out.push_back(Space{std::string(nm) + " of produced operands", nx * my->size(),
                        [=](u64 i, Ctx& c) { c.trans = 1; f(c, (*mx)[i % nx].v, (*my)[i / nx].v); },
                        [=](u64 i) { return (*mx)[i % nx].how + std::string(" = ") + show((*mx)[i % nx].v) + " and " + (*my)[i / nx].how + std::string(" = ") + show((*my)[i / nx].v); }});
}
// ---------------------------------------------------------------- C14
static void c14()
{
    madepairs<point, line>("projection", [](Ctx& c, point a, line b) { agree(c, "project(point, line)", project(a, b), ref::ext(ref::dot(mv(a), mv(b)), mv(b)), 96); });
    madepairs<point, plane>("projection", [](Ctx& c, point a, plane b) { agree(c, "project(point, plane)", project(a, b), ref::ext(ref::dot(mv(a), mv(b)), mv(b)), 96); });
    madepairs<line, plane>("projection", [](Ctx& c, line a, plane b) { agree(c, "project(line, plane)", project(a, b), ref::ext(ref::dot(mv(a), mv(b)), mv(b)), 96); });
    madepairs<plane, point>("projection", [](Ctx& c, plane a, point b) { agree(c, "project(plane, point)", project(a, b), ref::dot(ref::dot(mv(a), mv(b)), mv(b)), 96); });
    madepairs<line, point>("projection", [](Ctx& c, line a, point b) { agree(c, "project(line, point)", project(a, b), ref::dot(ref::dot(mv(a), mv(b)), mv(b)), 96); });
    madepairs<plane, line>("projection", [](Ctx& c, plane a, line b) { agree(c, "project(plane, line)", project(a, b), ref::dot(ref::dot(mv(a), mv(b)), mv(b)), 96); });
    auto P = positions(A.thorough(), A.lite);
    auto D = dirs(A.lite ? 0 : A.thorough() ? 2 : 1);
    auto Q = few_pos();
    std::vector<double> ds = {0., 1., -1., 2.5, -0.3, 100., 1e-3, -1e-5, 1.001, -4000.};
    out.push_back(Space{"point onto line", (u64)P.size() * Q.size() * D.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 p = P[g(P.size())], q = Q[g(Q.size())], u = D[g(D.size())];
                            point a = mkpt(p);
                            line l = mkln(q, u);
                            double sc = 1 + len(p) + len(q);
                            point r = project(a, l);
                            c.trans = 2;
                            agree(c, "project(point, line)", r, ref::ext(ref::dot(mv(a), mv(l)), mv(l)), 96);
                            close3(c, "point onto line: nearest point", r, q + dotp(p - q, u) * u, sc, 64);
                            point r2 = project(r, l);
                            float f[4], h[4];
                            EV<point>::get(r, f);
                            EV<point>::get(r2, h);
                            parallel(c, "point onto line twice", f, h, 4, 64 * 1.2e-7 * sc);
                        },
                        [=](u64 i) { Dig g(i); V3 p = P[g(P.size())], q = Q[g(Q.size())], u = D[g(D.size())]; return "point " + vs(p) + " line through " + vs(q) + " along " + vs(u); }});
    out.push_back(Space{"point onto plane", (u64)P.size() * ds.size() * D.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 p = P[g(P.size())], n = D[g(D.size())];
                            double d = ds[g(ds.size())];
                            point a = mkpt(p);
                            plane b = mkpl(n, d);
                            double sc = 1 + len(p) + std::fabs(d);
                            point r = project(a, b);
                            c.trans = 2;
                            agree(c, "project(point, plane)", r, ref::ext(ref::dot(mv(a), mv(b)), mv(b)), 96);
                            close3(c, "point onto plane: nearest point", r, p - (dotp(n, p) + d) * n, sc, 64);
                            float f[4], h[4];
                            EV<point>::get(r, f);
                            EV<point>::get(project(r, b), h);
                            parallel(c, "point onto plane twice", f, h, 4, 64 * 1.2e-7 * sc);
                        },
                        [=](u64 i) { Dig g(i); V3 p = P[g(P.size())], n = D[g(D.size())]; return "point " + vs(p) + " plane normal " + vs(n) + " d " + std::to_string(ds[g(ds.size())]); }});
    out.push_back(Space{"line onto plane", (u64)Q.size() * D.size() * ds.size() * D.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 q = Q[g(Q.size())], u = D[g(D.size())], n = D[g(D.size())];
                            double d = ds[g(ds.size())];
                            line l = mkln(q, u);
                            plane b = mkpl(n, d);
                            double sc = 1 + len(q) + std::fabs(d);
                            line r = project(l, b);
                            c.trans = 2;
                            agree(c, "project(line, plane)", r, ref::ext(ref::dot(mv(l), mv(b)), mv(b)), 96);
                            V3 w = u - dotp(n, u) * n;
                            if (len(w) < 1e-3) return; // perpendicular: the projection is a single point
                            // the projected line joins the projections of two points of the line
                            V3 q2 = q - (dotp(n, q) + d) * n;
                            float f[6], h[6], e[6];
                            EV<line>::get(r, f);
                            line_f(q2, w, e);
                            parallel(c, "line onto plane: lies in the plane below the line", f, e, 6, 128 * 1.2e-7 * sc / len(w));
                            EV<line>::get(project(r, b), h);
                            parallel(c, "line onto plane twice", f, h, 6, 128 * 1.2e-7 * sc / len(w));
                        },
                        [=](u64 i) { Dig g(i); V3 q = Q[g(Q.size())], u = D[g(D.size())], n = D[g(D.size())]; return "line through " + vs(q) + " along " + vs(u) + " plane normal " + vs(n) + " d " + std::to_string(ds[g(ds.size())]); }});
    out.push_back(Space{"plane onto point", (u64)P.size() * ds.size() * D.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 p = P[g(P.size())], n = D[g(D.size())];
                            double d = ds[g(ds.size())];
                            point a = mkpt(p);
                            plane b = mkpl(n, d);
                            double sc = 1 + len(p) + std::fabs(d);
                            plane r = project(b, a);
                            c.trans = 2;
                            agree(c, "project(plane, point)", r, ref::dot(ref::dot(mv(b), mv(a)), mv(a)), 96);
                            float f[4], h[4], e[4] = {(float)n[0], (float)n[1], (float)n[2], (float)-dotp(n, p)};
                            EV<plane>::get(r, f);
                            parallel(c, "plane onto point: parallel through the point", f, e, 4, 64 * 1.2e-7 * sc);
                            EV<plane>::get(project(r, a), h);
                            parallel(c, "plane onto point twice", f, h, 4, 64 * 1.2e-7 * sc);
                        },
                        [=](u64 i) { Dig g(i); V3 p = P[g(P.size())], n = D[g(D.size())]; return "point " + vs(p) + " plane normal " + vs(n) + " d " + std::to_string(ds[g(ds.size())]); }});
    out.push_back(Space{"line onto point", (u64)P.size() * Q.size() * D.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 p = P[g(P.size())], q = Q[g(Q.size())], u = D[g(D.size())];
                            point a = mkpt(p);
                            line l = mkln(q, u);
                            double sc = 1 + len(p) + len(q);
                            line r = project(l, a);
                            c.trans = 2;
                            agree(c, "project(line, point)", r, ref::dot(ref::dot(mv(l), mv(a)), mv(a)), 96);
                            float f[6], h[6], e[6];
                            EV<line>::get(r, f);
                            line_f(p, u, e);
                            parallel(c, "line onto point: parallel through the point", f, e, 6, 64 * 1.2e-7 * sc);
                            EV<line>::get(project(r, a), h);
                            parallel(c, "line onto point twice", f, h, 6, 64 * 1.2e-7 * sc);
                        },
                        [=](u64 i) { Dig g(i); V3 p = P[g(P.size())], q = Q[g(Q.size())], u = D[g(D.size())]; return "point " + vs(p) + " line through " + vs(q) + " along " + vs(u); }});
    out.push_back(Space{"plane onto line", (u64)Q.size() * D.size() * ds.size() * D.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 q = Q[g(Q.size())], u = D[g(D.size())], n = D[g(D.size())];
                            double d = ds[g(ds.size())];
                            line l = mkln(q, u);
                            plane b = mkpl(n, d);
                            double sc = 1 + len(q) + std::fabs(d);
                            plane r = project(b, l);
                            c.trans = 2;
                            agree(c, "project(plane, line)", r, ref::dot(ref::dot(mv(b), mv(l)), mv(l)), 96);
                            V3 w = n - dotp(n, u) * u;
                            if (len(w) < 1e-3) return; // plane perpendicular to the line
                            float f[4], h[4], e[4] = {(float)w[0], (float)w[1], (float)w[2], (float)-dotp(w, q)};
                            EV<plane>::get(r, f);
                            parallel(c, "plane onto line: contains the line", f, e, 4, 128 * 1.2e-7 * sc / len(w));
                            EV<plane>::get(project(r, l), h);
                            parallel(c, "plane onto line twice", f, h, 4, 128 * 1.2e-7 * sc / len(w));
                        },
                        [=](u64 i) { Dig g(i); V3 q = Q[g(Q.size())], u = D[g(D.size())], n = D[g(D.size())]; return "line through " + vs(q) + " along " + vs(u) + " plane normal " + vs(n) + " d " + std::to_string(ds[g(ds.size())]); }});
    // every enumerated operand pair, unit or not: the documented formulas, component by component
    auto formulas = [&](std::string tag, std::function<u64(int)> sz, std::function<void(int, u64, float*)> get) {
        auto add = [&](std::string nm, int n, std::function<void(Ctx&, const float*)> f) {
            out.push_back(Space{nm + " " + tag, sz(n), [=](u64 i, Ctx& c) { float v[16]; get(n, i, v); f(c, v); }, [=](u64 i) { float v[16]; get(n, i, v); return fmtv("operands", v, n); }});
        };
        add("formula project(point,line)", 10, [](Ctx& c, const float* f) { point a = mk<point>(f); line b = mk<line>(f + 4); agree(c, "formula project(point,line)", project(a, b), ref::ext(ref::dot(mv(a), mv(b)), mv(b)), 96); });
        add("formula project(point,plane)", 8, [](Ctx& c, const float* f) { point a = mk<point>(f); plane b = mk<plane>(f + 4); agree(c, "formula project(point,plane)", project(a, b), ref::ext(ref::dot(mv(a), mv(b)), mv(b)), 96); });
        add("formula project(line,plane)", 10, [](Ctx& c, const float* f) { plane b = mk<plane>(f); line a = mk<line>(f + 4); agree(c, "formula project(line,plane)", project(a, b), ref::ext(ref::dot(mv(a), mv(b)), mv(b)), 96); });
        add("formula project(plane,point)", 8, [](Ctx& c, const float* f) { point b = mk<point>(f); plane a = mk<plane>(f + 4); agree(c, "formula project(plane,point)", project(a, b), ref::dot(ref::dot(mv(a), mv(b)), mv(b)), 96); });
        add("formula project(line,point)", 10, [](Ctx& c, const float* f) { point b = mk<point>(f); line a = mk<line>(f + 4); agree(c, "formula project(line,point)", project(a, b), ref::dot(ref::dot(mv(a), mv(b)), mv(b)), 96); });
        add("formula project(plane,line)", 10, [](Ctx& c, const float* f) { plane a = mk<plane>(f); line b = mk<line>(f + 4); agree(c, "formula project(plane,line)", project(a, b), ref::dot(ref::dot(mv(a), mv(b)), mv(b)), 96); });
    };
    if (!A.lite)
        formulas("lattice", [](int n) { return ipow(n > 8 && !A.thorough() ? 2 : 3, n); },
                 [](int n, u64 i, float* v) { static const float B[] = {0, 1, -1}; static const float C[] = {1, -1}; if (n > 8 && !A.thorough()) Lat(n, C, 2).get(i, v); else Lat(n, B, 3).get(i, v); });
    int k = A.lite ? 1 : A.thorough() ? 3 : 2;
    DevSpace d8(8, k, WIDES, NWS), d10(10, k, WIDES, NWS);
    formulas("deviations", [=](int n) { return n == 8 ? d8.size() : d10.size(); }, [=](int n, u64 i, float* v) { (n == 8 ? d8 : d10).get(i, v); });
}

// ---------------------------------------------------------------- C15
static void c15()
{
    std::vector<V3> ax = axes(A.lite ? 0 : A.thorough() ? 2 : 1);
    std::vector<double> sc = {1., 2., 1e-3, 1000., 0.1, 7e5, 3e-6, 3e-7, 1e-9, 1e-13, 1e-17, 1e-5, 1e-2, 1e8, 1e12, 1e17};
    for (int k = 1; k <= 22; k += 1 + (k > 8)) { sc.push_back(1 + std::ldexp(0.9, -k)); sc.push_back(1 - std::ldexp(0.9, -k)); }
    if (A.lite) sc.resize(20);
    // axes whose length is the listed scale itself
    for (size_t k = 0, n = ax.size(); k != n; ++k) if (len(ax[k]) != 1) ax.push_back(unit(ax[k]));
    std::vector<double> an;
    {
        int n = A.lite ? 12 : A.thorough() ? 720 : 96;
        for (int k = -2 * n; k <= 2 * n; ++k) an.push_back(2 * PI * k / n);
        for (double s : {1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-12, 1e-20, 20., 100., 1000., 12345.})
            for (double b : {0., PI, 2 * PI})
                for (double g : {1., -1.}) an.push_back(b + g * s);
    }
    out.push_back(Space{"rotor from angle and axis", (u64)ax.size() * sc.size() * an.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            double s = sc[g(sc.size())];
                            V3 a = s * ax[g(ax.size())];
                            float fa[3] = {(float)a[0], (float)a[1], (float)a[2]};
                            float t = (float)an[g(an.size())];
                            rotor r(t, fa[0], fa[1], fa[2]);
                            double n = std::sqrt((double)fa[0] * fa[0] + (double)fa[1] * fa[1] + (double)fa[2] * fa[2]);
                            double h = 0.5 * (double)t, S = std::sin(h), C = std::cos(h);
                            c.trans = 1;
                            c.near("rotor", "scalar", r.scalar(), C, std::fabs(C) + 1e-7, 8);
                            c.near("rotor", "e23", r.e23(), S * fa[0] / n, std::fabs(S * fa[0] / n), 8);
                            c.near("rotor", "e31", r.e31(), S * fa[1] / n, std::fabs(S * fa[1] / n), 8);
                            c.near("rotor", "e12", r.e12(), S * fa[2] / n, std::fabs(S * fa[2] / n), 8);
                        },
                        [=](u64 i) { Dig g(i); double s = sc[g(sc.size())]; V3 a = s * ax[g(ax.size())]; char b[40]; snprintf(b, 40, "%.9g", an[g(an.size())]); return std::string("angle ") + b + " axis " + vs(a); }});
    // the rotation itself: turning a point by the angle about the axis (clockwise seen along it)
    auto ps = few_pos();
    std::vector<double> an2;
    for (int k = -24; k <= 24; ++k) an2.push_back(2 * PI * k / 24);
    out.push_back(Space{"rotor turns points by its angle", (u64)ax.size() * an2.size() * ps.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 a = ax[g(ax.size())], u = unit(a), p = ps[g(ps.size())];
                            double t = an2[g(an2.size())];
                            rotor r((float)t, (float)a[0], (float)a[1], (float)a[2]);
                            V3 w = std::cos(t) * p - std::sin(t) * cross(u, p) + (dotp(u, p) * (1 - std::cos(t))) * u;
                            c.trans = 2;
                            close3(c, "rotor turns point", r(mkpt(p)), w, 1 + len(p), 48);
                        },
                        [=](u64 i) { Dig g(i); V3 a = ax[g(ax.size())], p = ps[g(ps.size())]; char b[40]; snprintf(b, 40, "%.9g", an2[g(an2.size())]); return std::string("angle ") + b + " axis " + vs(a) + " point " + vs(p); }});
    std::vector<double> dd = {0., 1., -1., 0.5, 2., -3., 1e-3, -1e-3, 100., -4000., 12345.678, 1e-6, 0.1, -0.7, 1e-4, -1e-5, 20., 1e6, 0.999, -1.001, 234567.8, -7.63};
    out.push_back(Space{"translator from distance and axis", (u64)ax.size() * sc.size() * dd.size() * ps.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            double s = sc[g(sc.size())];
                            V3 a = s * ax[g(ax.size())];
                            float fa[3] = {(float)a[0], (float)a[1], (float)a[2]};
                            float d = (float)dd[g(dd.size())];
                            V3 p = ps[g(ps.size())];
                            translator t(d, fa[0], fa[1], fa[2]);
                            V3 v = unit(V3{{fa[0], fa[1], fa[2]}});
                            c.trans = 2;
                            c.near("translator", "e01", t.e01(), -0.5 * d * v[0], std::fabs(0.5 * d * v[0]), 8);
                            c.near("translator", "e02", t.e02(), -0.5 * d * v[1], std::fabs(0.5 * d * v[1]), 8);
                            c.near("translator", "e03", t.e03(), -0.5 * d * v[2], std::fabs(0.5 * d * v[2]), 8);
                            close3(c, "translator moves point", t(mkpt(p)), p + (double)d * v, len(p) + std::fabs(d), 32);
                        },
                        [=](u64 i) { Dig g(i); double s = sc[g(sc.size())]; V3 a = s * ax[g(ax.size())]; double d = dd[g(dd.size())]; return "distance " + std::to_string(d) + " axis " + vs(a) + " point " + vs(ps[g(ps.size())]); }});
    auto D = dirs(A.lite ? 0 : A.thorough() ? 2 : 1);
    auto Q = few_pos();
    std::vector<double> an3;
    for (int k = -48; k <= 48; ++k) an3.push_back(2 * PI * k / 24);
    for (double s : {0.3, 1e-2, 1e-3, 1e-4, -1e-4, 1e-6, -1e-2, 10., -25.}) an3.push_back(s);
    std::vector<double> d3 = {0., 1., -1., 2.5, -0.3, 100., 1e-3, -1e-4, 1e-6, -30., 3000., 1.37, -87.3, 5123.7};
    std::vector<V3> few = {V3{{0, 0, 0}}, V3{{1, -2, 3}}, V3{{0.37, -1.21, 2.83}}, V3{{-40, 17.5, 93}}};
    out.push_back(Space{"motor from angle, distance and line", (u64)Q.size() * D.size() * an3.size() * d3.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 q = Q[g(Q.size())], u = D[g(D.size())];
                            double t = an3[g(an3.size())], d = d3[g(d3.size())];
                            line l = mkln(q, u);
                            motor m((float)t, (float)d, l);
                            // turns by t about the line (a line through (e23,e31,e12) counter-clockwise) and moves d along it
                            float f[6];
                            EV<line>::get(l, f);
                            V3 w = {{f[3], f[4], f[5]}};
                            c.trans = 1 + few.size();
                            for (V3 p : few)
                            {
                                V3 r = p - q;
                                V3 z = q + std::cos(t) * r + std::sin(t) * cross(w, r) + (dotp(w, r) * (1 - std::cos(t))) * w + d * w;
                                close3(c, "screw motion", m(mkpt(p)), z, (1 + len(p) + len(q)) * (1 + std::fabs(t)) + std::fabs(d), 48);
                            }
                        },
                        [=](u64 i) { Dig g(i); V3 q = Q[g(Q.size())], u = D[g(D.size())]; double t = an3[g(an3.size())], d = d3[g(d3.size())]; return "angle " + std::to_string(t) + " distance " + std::to_string(d) + " line through " + vs(q) + " along " + vs(u); }});
    // directions
    int n = 3;
    DevSpace dv(n, 3, WIDE, NW);
    out.push_back(Space{"direction from coordinates", dv.size(),
                        [=](u64 i, Ctx& c) {
                            float f[3];
                            dv.get(i, f);
                            double s = std::sqrt((double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2]);
                            if (!in_range(s * s)) return;
                            direction d(f[0], f[1], f[2]);
                            const char* nm[] = {"x", "y", "z"};
                            float o[3] = {d.x(), d.y(), d.z()};
                            for (int k = 0; k != 3; ++k) c.near("direction", nm[k], o[k], f[k] / s, std::fabs(f[k] / s), 16);
                            // a direction is a point at infinity: no operation translates it
                            direction e = motor(1.f, 0.f, 0.f, 0.f, 5.f, -6.f, 7.f, 0.f)(d);
                            float p[3] = {e.x(), e.y(), e.z()};
                            for (int k = 0; k != 3; ++k) c.near("direction under translation", nm[k], p[k], f[k] / s, std::fabs(f[k] / s), 24);
                        },
                        [=](u64 i) { float f[3]; dv.get(i, f); return fmtv("direction", f, 3); }});
}

// ---------------------------------------------------------------- C19
static V3 xyz(point p) { double w = p.w(); return V3{{p.x() / w, p.y() / w, p.z() / w}}; }
static void c19()
{
    madepairs<point, point>("distance", [](Ctx& c, point a, point b) { c.near("distance of points", "norm", (a & b).norm(), len(xyz(a) - xyz(b)), 1 + len(xyz(a)) + len(xyz(b)), 48); });
    madepairs<point, plane>("distance", [](Ctx& c, point a, plane b) {
        V3 n = {{b.x(), b.y(), b.z()}}, p = xyz(a);
        double sd = a.w() * (dotp(n, p) + b.d()), sc = 1 + len(p) + std::fabs(b.d());
        c.near("meet of point and plane", "e0123", (a ^ b).e0123(), -sd, sc, 48);
        c.near("meet of plane and point", "e0123", (b ^ a).e0123(), sd, sc, 48);
        c.near("join of point and plane", "scalar", (a & b).scalar(), sd, sc, 48);
        c.near("join of plane and point", "scalar", (b & a).scalar(), -sd, sc, 48);
    });
    madepairs<point, line>("distance", [](Ctx& c, point a, line b) {
        V3 u = {{b.e23(), b.e31(), b.e12()}}, m = {{b.e01(), b.e02(), b.e03()}};
        V3 q = cross(u, m); // a point of the line, up to the orientation of the moment
        double d1 = len(cross(xyz(a) - q, u)), d2 = len(cross(xyz(a) + q, u));
        float n = (a & b).norm();
        double want = std::fabs(n - d1) < std::fabs(n - d2) ? d1 : d2;
        MV j = ref::reg(mv(a), mv(b));
        double ex = std::sqrt(j.v[2] * j.v[2] + j.v[4] * j.v[4] + j.v[8] * j.v[8]), sc = 1 + len(xyz(a)) + len(q);
        c.near("join of point and line", "norm", n, ex, sc, 64);
        c.near("join of line and point", "norm", (b & a).norm(), ex, sc, 64);
        c.near("join of point and line", "distance", n, want, sc, 64);
    });
    madepairs<plane, plane>("angle", [](Ctx& c, plane a, plane b) {
        V3 m = {{a.x(), a.y(), a.z()}}, n = {{b.x(), b.y(), b.z()}};
        c.near("inner product of planes", "cosine", a | b, dotp(m, n), 1, 24);
        c.near("meet of planes", "sine", (a ^ b).norm(), len(cross(m, n)), 1, 24);
    });
    madepairs<line, line>("angle", [](Ctx& c, line a, line b) {
        V3 m = {{a.e23(), a.e31(), a.e12()}}, n = {{b.e23(), b.e31(), b.e12()}};
        c.near("inner product of lines", "cosine", a | b, -dotp(m, n), 1, 24);
        MV w = ref::ext(mv(a), mv(b));
        c.near("meet of lines", "distance times sine", (a ^ b).e0123(), w.v[15], w.m[15], 24);
    });
    auto P = positions(A.thorough(), A.lite);
    auto D = dirs(A.lite ? 0 : A.thorough() ? 2 : 1);
    auto Q = few_pos();
    std::vector<double> ds = {0., 1., -1., 2.5, -0.3, 100., 1e-3, -1e-5, 1.001, -4000.};
    // positions and offsets at every order of magnitude
    auto F = std::make_shared<std::vector<V3>>();
    auto FD = std::make_shared<std::vector<double>>();
    for (int k = -9; k <= 12; ++k)
        for (double m : A.lite ? std::vector<double>{1} : A.thorough() ? std::vector<double>{1, 1.4, 1.9, 2.6, 3.3, 4.7, 6.1, 8.2} : std::vector<double>{1, 1.9, 3.3, 6.1})
        {
            double t = m * std::pow(10, k);
            for (V3 u : {V3{{1, 0, 0}}, V3{{0, -1, 0}}, V3{{0, 0, 1}}, V3{{-1, 2, 0.5}}, V3{{1, 1, -1}}}) { F->push_back(t * u); F->push_back(-t * u); }
            FD->push_back(t);
            FD->push_back(-t);
        }
    F->push_back(V3{{0, 0, 0}});
    FD->push_back(0);
    auto D1 = dirs(0);
    out.push_back(Space{"distance of two points, any orders of magnitude", (u64)F->size() * F->size(),
                        [=](u64 i, Ctx& c) {
                            V3 p = (*F)[i % F->size()], q = (*F)[i / F->size()];
                            line l = mkpt(p) & mkpt(q);
                            c.near("distance of points", "norm", l.norm(), len(V3{{(double)(float)p[0] - (float)q[0], (double)(float)p[1] - (float)q[1], (double)(float)p[2] - (float)q[2]}}), len(p) + len(q), 16);
                        },
                        [=](u64 i) { return vs((*F)[i % F->size()]) + " " + vs((*F)[i / F->size()]); }});
    out.push_back(Space{"distance of point and plane, any orders of magnitude", (u64)F->size() * FD->size() * D1.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 p = (*F)[g(F->size())], n = D1[g(D1.size())];
                            double d = (*FD)[g(FD->size())];
                            point a = mkpt(p);
                            plane b = mkpl(n, d);
                            double sd = dotp(n, p) + d, sc = len(p) + std::fabs(d);
                            c.trans = 4;
                            c.near("meet of plane and point", "e0123", (b ^ a).e0123(), sd, sc, 16);
                            c.near("meet of point and plane", "e0123", (a ^ b).e0123(), -sd, sc, 16);
                            c.near("join of plane and point", "scalar", (b & a).scalar(), -sd, sc, 16);
                            c.near("join of point and plane", "scalar", (a & b).scalar(), sd, sc, 16);
                        },
                        [=](u64 i) { Dig g(i); V3 p = (*F)[g(F->size())], n = D1[g(D1.size())]; return "point " + vs(p) + " plane normal " + vs(n) + " d " + std::to_string((*FD)[g(FD->size())]); }});
    out.push_back(Space{"distance of point and line, any orders of magnitude", (u64)F->size() * F->size() * (A.thorough() ? D1.size() : 5),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 p = (*F)[g(F->size())], q = (*F)[g(F->size())], u = D1[(g(64) * 7) % D1.size()];
                            line l = mkln(q, u);
                            point a = mkpt(p);
                            V3 r = p - q;
                            double dist = len(r - dotp(r, u) * u), sc = len(p) + len(q);
                            c.trans = 2;
                            c.near("join of point and line", "norm", (a & l).norm(), dist, sc, 32);
                            c.near("join of line and point", "norm", (l & a).norm(), dist, sc, 32);
                        },
                        [=](u64 i) { Dig g(i); V3 p = (*F)[g(F->size())], q = (*F)[g(F->size())], u = D1[(g(64) * 7) % D1.size()]; return "point " + vs(p) + " line through " + vs(q) + " along " + vs(u); }});
    out.push_back(Space{"separation of parallel planes, any orders of magnitude", (u64)D1.size() * FD->size() * FD->size() * 2,
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 m = D1[g(D1.size())];
                            double d = (*FD)[g(FD->size())], e = (*FD)[g(FD->size())];
                            double s = g(2) ? -1 : 1;
                            line l = mkpl(m, d) ^ mkpl(s * m, s * e);
                            ideal_line il(l.e01(), l.e02(), l.e03());
                            c.near("ideal norm of the meet", "separation", il.ideal_norm(), std::fabs(d - e), std::fabs(d) + std::fabs(e), 16);
                            c.near("norm of the meet", "norm", l.norm(), 0, 1, 4);
                        },
                        [=](u64 i) { Dig g(i); V3 m = D1[g(D1.size())]; double d = (*FD)[g(FD->size())], e = (*FD)[g(FD->size())]; return "planes " + vs(m) + " d " + std::to_string(d) + " " + std::to_string(e); }});
    out.push_back(Space{"two lines, any orders of magnitude", (u64)F->size() * F->size() * 9,
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 q = (*F)[g(F->size())], p = (*F)[g(F->size())];
                            int j = (int)g(9);
                            V3 u = D1[j % 3 * 5 % D1.size()], w = D1[(j / 3 * 4 + 1) % D1.size()];
                            line a = mkln(q, u), b = mkln(p, w);
                            c.near("inner product of lines", "cosine", a | b, -dotp(u, w), 1, 16);
                            c.trans = 2;
                            c.near("meet of lines", "distance times sine", std::fabs((a ^ b).e0123()), std::fabs(dotp(p - q, cross(u, w))), len(p) + len(q), 32);
                        },
                        [=](u64 i) { Dig g(i); V3 q = (*F)[g(F->size())], p = (*F)[g(F->size())]; return "lines through " + vs(q) + " and " + vs(p) + " case " + std::to_string(g(9)); }});
    out.push_back(Space{"distance of two points", (u64)P.size() * P.size(),
                        [=](u64 i, Ctx& c) {
                            V3 p = P[i % P.size()], q = P[i / P.size()];
                            line l = mkpt(p) & mkpt(q);
                            c.near("distance of points", "norm", l.norm(), len(V3{{(double)(float)p[0] - (float)q[0], (double)(float)p[1] - (float)q[1], (double)(float)p[2] - (float)q[2]}}), len(p) + len(q), 16);
                        },
                        [=](u64 i) { return vs(P[i % P.size()]) + " " + vs(P[i / P.size()]); }});
    out.push_back(Space{"distance of point and plane", (u64)P.size() * ds.size() * D.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 p = P[g(P.size())], n = D[g(D.size())];
                            double d = ds[g(ds.size())];
                            point a = mkpt(p);
                            plane b = mkpl(n, d);
                            double sd = dotp(n, p) + d, sc = 1 + len(p) + std::fabs(d);
                            kln::dual m1 = a ^ b, m2 = b ^ a;
                            kln::dual j1 = a & b, j2 = b & a;
                            c.trans = 4;
                            // signed distance; the sign flips with the operand order
                            c.near("meet of plane and point", "e0123", m2.e0123(), sd, sc, 16);
                            c.near("meet of point and plane", "e0123", m1.e0123(), -sd, sc, 16);
                            c.near("join of plane and point", "scalar", j2.scalar(), -sd, sc, 16);
                            c.near("join of point and plane", "scalar", j1.scalar(), sd, sc, 16);
                        },
                        [=](u64 i) { Dig g(i); V3 p = P[g(P.size())], n = D[g(D.size())]; return "point " + vs(p) + " plane normal " + vs(n) + " d " + std::to_string(ds[g(ds.size())]); }});
    out.push_back(Space{"distance of point and line", (u64)P.size() * Q.size() * D.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 p = P[g(P.size())], q = Q[g(Q.size())], u = D[g(D.size())];
                            line l = mkln(q, u);
                            point a = mkpt(p);
                            V3 r = p - q;
                            double dist = len(r - dotp(r, u) * u), sc = 1 + len(p) + len(q);
                            plane j = a & l, k = l & a;
                            c.trans = 2;
                            c.near("join of point and line", "norm", j.norm(), dist, sc, 32);
                            c.near("join of line and point", "norm", k.norm(), dist, sc, 32);
                        },
                        [=](u64 i) { Dig g(i); V3 p = P[g(P.size())], q = Q[g(Q.size())], u = D[g(D.size())]; return "point " + vs(p) + " line through " + vs(q) + " along " + vs(u); }});
    // a point exactly on a line or plane with exactly representable coordinates: exactly zero, not NaN
    out.push_back(Space{"incidences on the integer grid", 125 * 27,
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 p = {{(double)g(5) - 2, (double)g(5) - 2, (double)g(5) - 2}}, q = {{(double)g(3) - 1, (double)g(3) - 1, (double)g(3) - 1}};
                            point a = mkpt(p), b = mkpt(q);
                            line l = a & b;
                            c.near("point on its own line", "norm", (a & l).norm(), 0, 0, 1);
                            c.near("other point on the line", "norm", (b & l).norm(), 0, 0, 1);
                            line z = a & a;
                            c.near("distance of a point to itself", "norm", z.norm(), 0, 0, 1);
                            c.trans = 4;
                        },
                        [=](u64 i) { return "grid case " + std::to_string(i); }});
    out.push_back(Space{"angle of two planes", (u64)D.size() * D.size() * ds.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 m = D[g(D.size())], n = D[g(D.size())];
                            double d = ds[g(ds.size())];
                            plane a = mkpl(m, d), b = mkpl(n, 1 - d);
                            c.near("inner product of planes", "cosine", a | b, dotp(m, n), 1, 16);
                            line l = a ^ b;
                            V3 x = cross(m, n);
                            c.near("meet of planes", "sine", l.norm(), len(x), 1, 16);
                            c.trans = 2;
                        },
                        [=](u64 i) { Dig g(i); V3 m = D[g(D.size())], n = D[g(D.size())]; return "planes " + vs(m) + " " + vs(n) + " d " + std::to_string(ds[g(ds.size())]); }});
    out.push_back(Space{"separation of parallel planes", (u64)D.size() * ds.size() * ds.size() * 2,
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 m = D[g(D.size())];
                            double d = ds[g(ds.size())], e = ds[g(ds.size())];
                            double s = g(2) ? -1 : 1;
                            plane a = mkpl(m, d), b = mkpl(s * m, s * e);
                            line l = a ^ b;
                            ideal_line il(l.e01(), l.e02(), l.e03());
                            c.near("ideal norm of the meet", "separation", il.ideal_norm(), std::fabs(d - e), std::fabs(d) + std::fabs(e), 16);
                            c.near("norm of the meet", "norm", l.norm(), 0, 1, 4);
                        },
                        [=](u64 i) { Dig g(i); V3 m = D[g(D.size())]; double d = ds[g(ds.size())], e = ds[g(ds.size())]; return "planes " + vs(m) + " d " + std::to_string(d) + " " + std::to_string(e); }});
    out.push_back(Space{"two lines", (u64)Q.size() * Q.size() * D.size() * D.size(),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V3 q = Q[g(Q.size())], p = Q[g(Q.size())], u = D[g(D.size())], w = D[g(D.size())];
                            line a = mkln(q, u), b = mkln(p, w);
                            float fa[6], fb[6];
                            EV<line>::get(a, fa);
                            EV<line>::get(b, fb);
                            double dt = dotp(V3{{fa[3], fa[4], fa[5]}}, V3{{fb[3], fb[4], fb[5]}});
                            c.near("inner product of lines", "cosine", a | b, -dotp(u, w), 1, 16);
                            (void)dt;
                            V3 x = cross(u, w);
                            double want = std::fabs(dotp(p - q, x));
                            kln::dual m = a ^ b;
                            c.trans = 2;
                            c.near("meet of lines", "distance times sine", std::fabs(m.e0123()), want, 1 + len(p) + len(q), 32);
                        },
                        [=](u64 i) { Dig g(i); V3 q = Q[g(Q.size())], p = Q[g(Q.size())], u = D[g(D.size())], w = D[g(D.size())]; return "line through " + vs(q) + " along " + vs(u) + ", line through " + vs(p) + " along " + vs(w); }});
}

#ifndef GRP
#    define GRP 10
#endif
int main(int argc, char** argv)
{
    return run_main(argc, argv, [](Args const& a) {
        A = a;
#if GRP == 10
        c10();
#elif GRP == 14
        c14();
#elif GRP == 15
        c15();
#else
        c19();
#endif
        return out;
    });
}
