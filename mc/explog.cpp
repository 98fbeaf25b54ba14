// C11 (exponential and logarithm), C12 (square roots), C13 (Euler angles).
#include "prod.hpp"
using namespace mc;

static std::vector<Space> out;
static Args A;

static MV strip(MV x) { for (double& m : x.m) m = 0; for (int i = 0; i != 16; ++i) x.m[i] = std::fabs(x.v[i]); return x; }
// exponential by power series with scaling and squaring, nothing shared with the closed form
static MV exp_ref(MV b)
{
    double a = std::sqrt(b.v[12] * b.v[12] + b.v[10] * b.v[10] + b.v[6] * b.v[6]);
    int k = 0;
    while (a > 0.25) { a /= 2; ++k; }
    MV x = strip(ref::scale(b, std::ldexp(1., -k)));
    MV r = ref::scalar(1), t = ref::scalar(1);
    for (int n = 1; n <= 14; ++n)
    {
        t = strip(ref::scale(ref::gp(t, x), 1. / n));
        r = strip(ref::add(r, t));
    }
    for (; k; --k) r = strip(ref::gp(r, r));
    return r;
}
static double len3(const float* f) { return std::sqrt((double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2]); }
static double real_len(MV const& m) { return std::sqrt(m.v[12] * m.v[12] + m.v[10] * m.v[10] + m.v[6] * m.v[6]); }
static double ideal_len(MV const& m) { return std::sqrt(m.v[3] * m.v[3] + m.v[5] * m.v[5] + m.v[9] * m.v[9]); }

// same components with given absolute tolerances for the real and the ideal part, up to sign
// when either sign denotes the same motion
template <class T> bool same_motion(Ctx& c, const char* k, T const& got, MV const& want, double tr, double ti, bool sign_free)
{
    MV g = mv(got);
    double sg = 1;
    if (sign_free)
    {
        double d = 0;
        for (int i : {0, 12, 10, 6}) d += g.v[i] * want.v[i];
        if (d < 0) sg = -1;
    }
    bool ok = true;
    for (int i = 0; i != EV<T>::N; ++i)
    {
        Comp const& q = EV<T>::comps()[i];
        double t = (q.blade & 1) ? ti : tr;
        ok &= c.near(k, q.name, (float)(q.sign * g.v[q.blade]), sg * q.sign * want.v[q.blade], t, 1 / 1.1920929e-7);
    }
    return ok;
}
static const double EPS = 1.1920929e-7;

static std::vector<double> magnitudes(bool thorough)
{
    std::vector<double> v = {0., 1e-30, 1e-20, 1e-19, 1e-18, 1e-15, 1e-13, 1e-12, 1e-10, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 2.5e-4, 1e-3, 1e-2, 0.1, 0.3, 0.5, 1., 1.5, 2., 2.5, 3., 10., 50.};
    int n = thorough ? 480 : 96;
    for (int k = 1; k <= n; ++k) v.push_back(PI * k / n);
    for (double s : {1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7})
        for (double b : {PI / 2, PI, 2 * PI})
            for (double g : {1., -1.}) v.push_back(b + g * s);
    return v;
}

// unit motors of every kind, as even multivectors
struct Motors
{
    std::vector<MV> v;
    Motors(bool thorough, bool lite)
    {
        std::vector<Q4> q = lite ? few_rotors() : all_rotors(true);
        // vanishing angles, where the bivector loses its squares
        for (V3 a : {V3{{0, 0, 1}}, V3{{1, -2, 3}}, V3{{-1, 0, 0}}})
            for (double t : {1e-8, 1e-9, 1e-10, 1e-12, 1e-13, 1e-14, 1e-16, 1e-18, 1e-19, 1e-20, 1e-22, 1e-25, 1e-30})
            {
                q.push_back(axis_angle(a, t));
                Q4 n = axis_angle(a, t);
                for (double& x : n) x = -x;
                q.push_back(n);
            }
        q.push_back(Q4{{1, 0, 0, 0}});
        q.push_back(Q4{{-1, 0, 0, 0}});
        for (int s = 0; s != 3; ++s)
            for (double g : {1., -1.}) { Q4 h{{0, 0, 0, 0}}; h[1 + s] = g; q.push_back(h); }
        for (V3 d : displacements(thorough))
            for (Q4 const& r : q) v.push_back(ref::gp(t_mv(d), q_mv(r)));
    }
};

// the listed unit elements, and those that other operations returned
template <class T> void both(std::string nm, u64 n, std::function<T(u64)> get, std::function<void(T const, Ctx&)> f)
{
    out.push_back(Space{nm, n, [=](u64 i, Ctx& c) { f(get(i), c); }, [=](u64 i) { return show(get(i)); }});
    auto m = std::make_shared<std::vector<Made<T>>>(made<T>(true, 8));
    out.push_back(Space{nm + " of produced elements", m->size(), [=](u64 i, Ctx& c) { f((*m)[i].v, c); }, [=](u64 i) { return std::string((*m)[i].how) + " = " + show((*m)[i].v); }});
}

static void c11()
{
    auto ax = axes(A.lite ? 0 : A.thorough() ? 2 : 1);
    auto mg = magnitudes(A.thorough());
    out.push_back(Space{"exp(branch)", (u64)ax.size() * mg.size(),
                        [=](u64 i, Ctx& c) {
                            V3 a = ax[i % ax.size()];
                            double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]), t = mg[i / ax.size()];
                            float f[3] = {float(t * a[0] / n), float(t * a[1] / n), float(t * a[2] / n)};
                            rotor r = exp(mk<branch>(f));
                            double u = len3(f), S = u > 0 ? std::sin(u) / u : 1;
                            c.trans = 1;
                            double tol = EPS * 8 * (1 + u);
                            c.near("exp(branch)", "scalar", r.scalar(), std::cos(u), tol, 1 / EPS);
                            // relative accuracy of the bivector part for small angles
                            double tb = EPS * 8 * (u < 1 ? u : 1 + u);
                            c.near("exp(branch)", "e23", r.e23(), S * f[0], tb, 1 / EPS);
                            c.near("exp(branch)", "e31", r.e31(), S * f[1], tb, 1 / EPS);
                            c.near("exp(branch)", "e12", r.e12(), S * f[2], tb, 1 / EPS);
                        },
                        [=](u64 i) { V3 a = ax[i % ax.size()]; char b[120]; snprintf(b, 120, "branch along (%g,%g,%g) of length %.9g", a[0], a[1], a[2], mg[i / ax.size()]); return std::string(b); }});
    Lat bl(3, WIDES, NWS);
    out.push_back(Space{"exp(branch) lattice", bl.size(),
                        [=](u64 i, Ctx& c) {
                            float f[3];
                            bl.get(i, f);
                            double u = len3(f);
                            if (u > 100) return;
                            rotor r = exp(mk<branch>(f));
                            same_motion(c, "exp(branch) lattice", r, exp_ref(Emb<branch>::mv(f)), 12 * EPS * (1 + u), 0, false);
                        },
                        [=](u64 i) { float f[3]; bl.get(i, f); return fmtv("branch", f, 3); }});
    Lat il(3, WIDE, NW);
    out.push_back(Space{"exp and log of ideal lines", il.size(),
                        [=](u64 i, Ctx& c) {
                            float f[3], g[3], h[3];
                            il.get(i, f);
                            ideal_line l = mk<ideal_line>(f);
                            translator t = exp(l);
                            EV<translator>::get(t, g);
                            EV<ideal_line>::get(log(t), h);
                            c.trans = 2;
                            for (int k = 0; k != 3; ++k)
                            {
                                c.near("exp(ideal line)", "component", g[k], f[k], 0, 1);
                                c.near("log(translator)", "component", h[k], f[k], 0, 1);
                            }
                            // the translator moves points accordingly
                            point p = t(point(1, 2, 3));
                            c.near("exp(ideal line) applied", "x", p.x(), 1 - 2. * f[0], 1 + 2 * std::fabs(f[0]), 8);
                            c.near("exp(ideal line) applied", "y", p.y(), 2 - 2. * f[1], 2 + 2 * std::fabs(f[1]), 8);
                            c.near("exp(ideal line) applied", "z", p.z(), 3 - 2. * f[2], 3 + 2 * std::fabs(f[2]), 8);
                        },
                        [=](u64 i) { float f[3]; il.get(i, f); return fmtv("ideal_line", f, 3); }});
    // bivectors in general: axis, magnitude, ideal part
    auto dsp = displacements(A.thorough());
    {
        std::vector<V3> x2 = A.lite ? std::vector<V3>(ax.begin(), ax.begin() + 6) : ax;
        out.push_back(Space{"exp(line)", (u64)x2.size() * mg.size() * dsp.size(),
                            [=](u64 i, Ctx& c) {
                                Dig g(i);
                                V3 a = x2[g(x2.size())];
                                double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]), t = mg[g(mg.size())];
                                V3 d = dsp[g(dsp.size())];
                                float f[6] = {(float)d[0], (float)d[1], (float)d[2], float(t * a[0] / n), float(t * a[1] / n), float(t * a[2] / n)};
                                line l = mk<line>(f);
                                motor m = exp(l);
                                c.trans = 1;
                                double u = len3(f + 3), b = len3(f);
                                MV w = exp_ref(Emb<line>::mv(f));
                                same_motion(c, "exp(line)", m, w, 16 * EPS * (1 + u), 24 * EPS * (1 + u) * b, false);
                                // the displacement along the axis is as accurate as the products it is the sum of
                                double pr = 0;
                                for (int k = 0; k != 3; ++k) pr += std::fabs((double)f[k] * f[3 + k]);
                                if (u > 1e-18 || u == 0) c.near("exp(line) displacement along the axis", "e0123", m.e0123(), w.v[15], 24 * EPS * (1 + u) * pr + 1e-14 * b * (u < 1 ? u : 1), 1 / EPS);
                                // small rotations keep their relative accuracy
                                if (u < 1e-3 && u > 1e-18)
                                {
                                    double k = 16 * EPS * u;
                                    c.near("exp(line) small rotation", "e23", m.e23(), w.v[12], k, 1 / EPS);
                                    c.near("exp(line) small rotation", "e31", m.e31(), -w.v[10], k, 1 / EPS);
                                    c.near("exp(line) small rotation", "e12", m.e12(), w.v[6], k, 1 / EPS);
                                }
                            },
                            [=](u64 i) {
                                Dig g(i);
                                V3 a = x2[g(x2.size())];
                                double t = mg[g(mg.size())];
                                V3 d = dsp[g(dsp.size())];
                                char b[200];
                                snprintf(b, 200, "real part along (%g,%g,%g) of length %.9g, ideal part (%g,%g,%g)", a[0], a[1], a[2], t, d[0], d[1], d[2]);
                                return std::string(b);
                            }});
    }
    // exponentials of lines, branches and ideal lines that other operations returned
    {
        auto ml = std::make_shared<std::vector<Made<line>>>(made<line>(false, 8));
        for (auto& x : made<line>(true, 8)) ml->push_back(x);
        out.push_back(Space{"exp(line) of produced elements", ml->size(),
                            [=](u64 i, Ctx& c) {
                                line const l = (*ml)[i].v;
                                float f[6];
                                EV<line>::get(l, f);
                                double u = len3(f + 3), b = len3(f);
                                if (u > 100) return;
                                same_motion(c, "exp(line)", exp(l), exp_ref(mv(l)), 16 * EPS * (1 + u), 24 * EPS * (1 + u) * b, false);
                            },
                            [=](u64 i) { return std::string((*ml)[i].how) + " = " + show((*ml)[i].v); }});
        auto mb = std::make_shared<std::vector<Made<branch>>>(made<branch>(false, 8));
        for (auto& x : made<branch>(true, 8)) mb->push_back(x);
        out.push_back(Space{"exp(branch) of produced elements", mb->size(),
                            [=](u64 i, Ctx& c) {
                                branch const l = (*mb)[i].v;
                                float f[3];
                                EV<branch>::get(l, f);
                                double u = len3(f);
                                if (u > 100) return;
                                same_motion(c, "exp(branch)", exp(l), exp_ref(mv(l)), 12 * EPS * (1 + u), 0, false);
                            },
                            [=](u64 i) { return std::string((*mb)[i].how) + " = " + show((*mb)[i].v); }});
        auto mi = std::make_shared<std::vector<Made<ideal_line>>>(made<ideal_line>(false, 8));
        out.push_back(Space{"exp(ideal line) of produced elements", mi->size(),
                            [=](u64 i, Ctx& c) {
                                ideal_line const l = (*mi)[i].v;
                                MV w = ref::add(mv(l), ref::scalar(1));
                                translator t = exp(l);
                                agree(c, "exp(ideal_line)", t, w, 4);
                                agree(c, "motor(exp(ideal_line))", motor(t), w, 4);
                                agree(c, "exp(ideal_line) on a point", t(point(1, 2, 3)), ref::sandwich(w, mv(point(1, 2, 3))), 16);
                                agree(c, "exp(ideal_line) on a plane", t(plane(1, 2, 3, 4)), ref::sandwich(w, mv(plane(1, 2, 3, 4))), 16);
                            },
                            [=](u64 i) { return std::string((*mi)[i].how) + " = " + show((*mi)[i].v); }});
        auto mt = std::make_shared<std::vector<Made<translator>>>(made<translator>(false, 8));
        out.push_back(Space{"log(translator) of produced elements", mt->size(),
                            [=](u64 i, Ctx& c) {
                                translator const t = (*mt)[i].v;
                                ideal_line l = log(t);
                                float f[3], g[3];
                                EV<translator>::get(t, f);
                                EV<ideal_line>::get(l, g);
                                for (int k = 0; k != 3; ++k) c.near("log(translator)", "component", g[k], f[k], 0, 1);
                                agree(c, "exp(log(translator)) on a point", exp(l)(point(1, 2, 3)), ref::sandwich(mv(t), mv(point(1, 2, 3))), 16);
                                agree(c, "norm of log(translator)", (float)l.ideal_norm(), ref::scalar(std::sqrt((double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2])), 24);
                            },
                            [=](u64 i) { return std::string((*mt)[i].how) + " = " + show((*mt)[i].v); }});
    }
    // rotors
    std::vector<Q4> q = all_rotors(!A.lite);
    for (V3 a : {V3{{0, 0, 1}}, V3{{1, -2, 3}}})
        for (double t : {1e-8, 1e-10, 1e-15, 1e-18, 1e-19, 1e-20, 1e-25, 1e-30})
            for (double s : {1., -1.})
            {
                Q4 r = axis_angle(a, t);
                for (double& x : r) x *= s;
                q.push_back(r);
            }
    // unit rotors whose scalar part rounds past one
    for (float s : {1.0000001f, -1.0000001f, 0.99999994f})
        for (double e : {0., 1e-4, -3e-5, 1e-3}) q.push_back(Q4{{s, e, 0, -e}});
    auto logr = [](rotor const r, Ctx& c) {
                            branch l = log(r);
                            float f[3], g[4];
                            EV<branch>::get(l, f);
                            EV<rotor>::get(r, g);
                            double s = len3(g + 1);
                            c.trans = 3;
                            for (int k = 0; k != 3; ++k) if (!std::isfinite(f[k])) { c.fail("log(rotor) finite", "log is not finite"); return; }
                            // value: angle times axis
                            if (s > 1e-18)
                            {
                                double al = std::atan2(s, (double)g[0]);
                                for (int k = 0; k != 3; ++k)
                                {
                                    static const char* nm[] = {"e23", "e31", "e12"};
                                    c.near("log(rotor)", nm[k], f[k], al * g[1 + k] / s, 16 * EPS * al, 1 / EPS);
                                }
                            }
                            MV w = mv(r);
                            // (the square of a vector part that small is denormal: the angle next to a full turn that it encodes keeps only as many bits)
                            double den = s > 0 && s < 2e-19 && g[0] < 0 ? std::min(2.0, 5e-45 / (s * s)) : 0;
                            same_motion(c, "exp(log(rotor))", exp(l), w, 24 * EPS + den, 0, true);
                            // an n-th root multiplied n times
                            for (int n : {2, 3, 5})
                            {
                                rotor h = exp(l / n), p = h;
                                for (int k = 1; k != n; ++k) p = p * h;
                                c.trans += n + 1;
                                same_motion(c, "root of rotor", p, w, 48 * n * EPS, 0, true);
                            }
                        };
    both<rotor>("log(rotor)", q.size(), [q](u64 i) { return mk_rotor(q[i]); }, logr);
    auto M = std::make_shared<Motors>(A.thorough(), A.lite);
    auto logm = [](motor const m, Ctx& c) {
                            line l = log(m);
                            c.trans = 3;
                            float f[6];
                            EV<line>::get(l, f);
                            for (int k = 0; k != 6; ++k) if (!std::isfinite(f[k])) { c.fail("log(motor) finite", "log is not finite: e%d is %g", k, f[k]); return; }
                            MV w = mv(m);
                            double a = real_len(w), b = ideal_len(w) + std::fabs(w.v[15]);
                            // the logarithm of a motor close to minus a translator turns by almost a full
                            // turn about a remote axis: its condition is that of the axis
                            double cond = w.v[0] < 0 ? 1 + PI / (a > 1e-6 ? a : 1e-6) : 1;
                            if (w.v[0] < 0 && a <= 1e-6) cond = a < 1e-18 ? 1 : 1e30;
                            MV e = exp_ref(mv(l));
                            double tr = 32 * EPS, ti = 48 * EPS * b * cond;
                            bool tiny = a < 1e-18;
                            same_motion(c, "exact exponential of log(motor)", m, e, tr, ti, true);
                            double u = len3(f + 3);
                            c.expect(u <= PI * (1 + 1e-6), "log(motor) principal", "the angle of the logarithm is at most half a turn");
                            if (!(w.v[0] < 0) && !tiny)
                            {
                                // small angles keep their relative accuracy
                                double al = std::atan2(a, w.v[0]);
                                c.near("log(motor) angle", "angle", (float)u, al, 24 * EPS * al, 1 / EPS);
                            }
                            motor r = exp(l);
                            same_motion(c, "exp(log(motor))", r, w, tr, ti * 1.5, true);
                            if (!(w.v[0] < 0) && !tiny)
                            {
                                double pr = std::fabs(w.v[15]) + std::fabs(w.v[12] * w.v[3]) + std::fabs(w.v[10] * w.v[5]) + std::fabs(w.v[6] * w.v[9]);
                                c.near("exp(log(motor)) displacement along the axis", "e0123", r.e0123(), w.v[15], 64 * EPS * pr + 1e-14 * b, 1 / EPS);
                            }
                            for (int n : {2, 3})
                            {
                                motor h = exp(l / n), p = h;
                                for (int k = 1; k != n; ++k) p = p * h;
                                c.trans += n + 1;
                                same_motion(c, "root of motor", p, w, 64 * n * EPS, 64 * n * EPS * b * cond, true);
                            }
                        };
    both<motor>("log(motor)", M->v.size(), [M](u64 i) { return mk_motor(M->v[i]); }, logm);
}

static void c12()
{
    std::vector<Q4> q = all_rotors(!A.lite);
    auto cond = [](double s) { return 2 / std::sqrt(2 * (1 + s) > 1e-30 ? 2 * (1 + s) : 1e-30); };
    auto sqrtr = [=](rotor const r, Ctx& c) {
                            MV w = mv(r);
                            double k = cond(w.v[0]);
                            if (k > 2000) return;
                            rotor h = sqrt(r);
                            c.trans = 2;
                            same_motion(c, "sqrt(rotor) squared", h * h, w, 24 * EPS * k, 0, false);
                            MV e = ref::add(w, ref::scalar(1));
                            double n = std::sqrt(e.v[0] * e.v[0] + real_len(e) * real_len(e));
                            same_motion(c, "sqrt(rotor)", h, ref::scale(e, 1 / n), 16 * EPS * k, 0, false);
                            // small angles keep their relative accuracy
                            MV hm = mv(h), hh = mv(h * h);
                            double al = real_len(w);
                            for (int i : {12, 10, 6})
                            {
                                c.near("sqrt(rotor) small angle", "bivector part", (float)hm.v[i], e.v[i] / n, 24 * EPS * al * k, 1 / EPS);
                                c.near("sqrt(rotor) squared small angle", "bivector part", (float)hh.v[i], w.v[i], 48 * EPS * al * k, 1 / EPS);
                            }
                            // the points move half way
                            for (V3 p : {V3{{1, 2, 3}}, V3{{0, 0, 1}}})
                            {
                                point x((float)p[0], (float)p[1], (float)p[2]);
                                point a = h(h(x)), b = r(x);
                                c.near("sqrt(rotor) twice on a point", "x", a.x(), b.x(), 4 * k, 24);
                                c.near("sqrt(rotor) twice on a point", "y", a.y(), b.y(), 4 * k, 24);
                                c.near("sqrt(rotor) twice on a point", "z", a.z(), b.z(), 4 * k, 24);
                            }
                        };
    both<rotor>("sqrt(rotor)", q.size(), [q](u64 i) { return mk_rotor(q[i]); }, sqrtr);
    Lat il(3, WIDE, NW);
    out.push_back(Space{"sqrt(translator)", il.size(),
                        [=](u64 i, Ctx& c) {
                            float f[3], g[3], h[3];
                            il.get(i, f);
                            translator const t = mk<translator>(f);
                            translator s = sqrt(t);
                            EV<translator>::get(s, g);
                            EV<translator>::get(s * s, h);
                            c.trans = 2;
                            for (int k = 0; k != 3; ++k)
                            {
                                c.near("sqrt(translator)", "component", g[k], 0.5 * f[k], std::fabs(f[k]), 2);
                                c.near("sqrt(translator) squared", "component", h[k], f[k], std::fabs(f[k]), 4);
                            }
                        },
                        [=](u64 i) { float f[3]; il.get(i, f); return fmtv("translator", f, 3); }});
    auto M = std::make_shared<Motors>(A.thorough(), A.lite);
    auto sqrtm = [=](motor const m, Ctx& c) {
                            MV w = mv(m);
                            double k = cond(w.v[0]);
                            if (k > 500) return;
                            motor h = sqrt(m);
                            c.trans = 2;
                            double b = ideal_len(w) + std::fabs(w.v[15]);
                            same_motion(c, "sqrt(motor) squared", h * h, w, 32 * EPS * k, 64 * EPS * b * k * k, false);
                            // the root itself, to the relative accuracy of the angle and of the displacement along the axis
                            {
                                MV e = strip(ref::add(w, ref::scalar(1))), n = ref::gp(e, ref::rev(e)), rs = ref::scalar(1 / std::sqrt(n.v[0]));
                                rs.set(15, -n.v[15] / (2 * n.v[0] * std::sqrt(n.v[0])));
                                MV want = ref::gp(e, rs), hm = mv(h);
                                double al = real_len(w);
                                for (int i : {12, 10, 6}) c.near("sqrt(motor) small angle", "bivector part", (float)hm.v[i], want.v[i], 24 * EPS * al * k, 1 / EPS);
                                double pr = std::fabs(w.v[15]) + std::fabs(w.v[12] * w.v[3]) + std::fabs(w.v[10] * w.v[5]) + std::fabs(w.v[6] * w.v[9]);
                                c.near("sqrt(motor) displacement along the axis", "e0123", (float)hm.v[15], want.v[15], 48 * EPS * pr * k * k + 1e-14 * b, 1 / EPS);
                            }
                            // unit: h ~h = 1
                            MV u = ref::gp(mv(h), ref::rev(mv(h)));
                            c.near("sqrt(motor) unit", "scalar", (float)u.v[0], 1, 1, 32);
                            c.near("sqrt(motor) unit", "e0123", (float)u.v[15], 0, 1 + u.m[15] + b * k, 16);
                            point x(1, 2, 3);
                            point a = h(h(x)), d = m(x);
                            double sc = (4 + 2 * b) * k * k;
                            c.near("sqrt(motor) twice on a point", "x", a.x(), d.x(), sc, 48);
                            c.near("sqrt(motor) twice on a point", "y", a.y(), d.y(), sc, 48);
                            c.near("sqrt(motor) twice on a point", "z", a.z(), d.z(), sc, 48);
                        };
    both<motor>("sqrt(motor)", M->v.size(), [M](u64 i) { return mk_motor(M->v[i]); }, sqrtm);
    auto ax = axes(2);
    out.push_back(Space{"sqrt(branch)", ax.size(),
                        [=](u64 i, Ctx& c) {
                            V3 a = ax[i];
                            double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
                            float f[3] = {float(a[0] / n), float(a[1] / n), float(a[2] / n)};
                            branch const b = mk<branch>(f);
                            rotor h = sqrt(b);
                            c.trans = 2;
                            same_motion(c, "sqrt(branch) squared", h * h, Emb<branch>::mv(f), 24 * EPS, 0, false);
                            MV e = ref::scale(ref::add(Emb<branch>::mv(f), ref::scalar(1)), std::sqrt(0.5));
                            same_motion(c, "sqrt(branch)", h, e, 16 * EPS, 0, false);
                        },
                        [=](u64 i) { V3 a = ax[i]; char b[80]; snprintf(b, 80, "unit branch along (%g,%g,%g)", a[0], a[1], a[2]); return std::string(b); }});
    {
        auto mb = std::make_shared<std::vector<Made<branch>>>(made<branch>(true, 8));
        out.push_back(Space{"sqrt(branch) of produced elements", mb->size(),
                            [=](u64 i, Ctx& c) {
                                branch const b = (*mb)[i].v;
                                rotor h = sqrt(b);
                                same_motion(c, "sqrt(branch) squared", h * h, mv(b), 24 * EPS, 0, false);
                            },
                            [=](u64 i) { return std::string((*mb)[i].how) + " = " + show((*mb)[i].v); }});
        auto mt = std::make_shared<std::vector<Made<translator>>>(made<translator>(false, 8));
        out.push_back(Space{"sqrt(translator) of produced elements", mt->size(),
                            [=](u64 i, Ctx& c) {
                                translator const t = (*mt)[i].v;
                                translator h = sqrt(t);
                                agree(c, "sqrt(translator) squared", h * h, mv(t), 8);
                                agree(c, "sqrt(translator) on a plane twice", h(h(plane(1, 2, 3, 4))), ref::sandwich(mv(t), mv(plane(1, 2, 3, 4))), 24);
                                MV half = mv(t);
                                for (int k = 1; k != 16; ++k) { half.v[k] /= 2; half.m[k] /= 2; }
                                agree(c, "motor(sqrt(translator))", motor(h), half, 8);
                            },
                            [=](u64 i) { return std::string((*mt)[i].how) + " = " + show((*mt)[i].v); }});
    }
    // branches produced by other operations, whose scalar lane must stay out of the root
    std::vector<Q4> q2 = few_rotors();
    out.push_back(Space{"sqrt of a logarithm's branch", q2.size(),
                        [=](u64 i, Ctx& c) {
                            branch b = log(mk_rotor(q2[i]));
                            MV w = mv(b);
                            double n = std::sqrt(1 + real_len(w) * real_len(w));
                            rotor h = sqrt(b);
                            same_motion(c, "sqrt(log(rotor))", h, ref::scale(ref::add(w, ref::scalar(1)), 1 / n), 16 * EPS, 0, false);
                        },
                        [=](u64 i) { return show(mk_rotor(q2[i])); }});
}

static void c13()
{
    std::vector<double> an;
    int n = A.lite ? 6 : A.thorough() ? 90 : 36;
    for (int k = -2 * n; k <= 2 * n; ++k) an.push_back(PI * k / n);
    for (double s : {1e-2, 1e-3, 1e-4, 1e-6})
        for (double b : {0., PI / 2, -PI / 2, PI})
            for (double g : {1., -1.}) an.push_back(b + g * s);
    for (double s : {0.3, 1., -2., 7., -20.}) an.push_back(s);
    auto back = [](Ctx& c, rotor r) {
        MV w = mv(r);
        euler_angles e = r.as_euler_angles();
        c.trans += 2;
        if (!(std::isfinite(e.roll) && std::isfinite(e.pitch) && std::isfinite(e.yaw))) { c.fail("as_euler_angles finite", "angles are not finite"); return; }
        c.expect(std::fabs((double)e.pitch) <= PI / 2 + 1e-6, "as_euler_angles pitch", "pitch within a quarter turn");
        // near gimbal lock single precision resolves the pitch to about the root of its precision
        double sp = 2 * (w.v[0] * -w.v[10] - w.v[12] * w.v[6]);
        double cp = std::sqrt(std::fabs(1 - sp * sp));
        double tol = 6e-7 + 3e-6 / (cp + 1e-3);
        MV rr = mv(rotor(e));
        double d = 0;
        for (int i : {0, 12, 10, 6}) d += rr.v[i] * w.v[i];
        double sg = d < 0 ? -1 : 1;
        static const char* nm[] = {"scalar", "e23", "e31", "e12"};
        int j = 0;
        for (int i : {0, 12, 10, 6}) c.near("rotor from as_euler_angles", nm[j++], (float)rr.v[i], sg * w.v[i], tol, 1 / EPS);
    };
    out.push_back(Space{"rotor from Euler angles", ipow(an.size(), 3),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            euler_angles e;
                            e.roll = (float)an[g(an.size())];
                            e.pitch = (float)an[g(an.size())];
                            e.yaw = (float)an[g(an.size())];
                            rotor r(e);
                            MV x = q_mv(axis_angle(V3{{1, 0, 0}}, 0.5 * (double)e.roll)), y = q_mv(axis_angle(V3{{0, 1, 0}}, 0.5 * (double)e.pitch)), z = q_mv(axis_angle(V3{{0, 0, 1}}, 0.5 * (double)e.yaw));
                            MV w = ref::gp(x, ref::gp(y, z));
                            same_motion(c, "rotor(euler_angles)", r, w, 12 * EPS, 0, false);
                            c.trans = 1;
                            back(c, r);
                        },
                        [=](u64 i) { Dig g(i); char b[120]; double x = an[g(an.size())], y = an[g(an.size())], z = an[g(an.size())]; snprintf(b, 120, "roll %.9g pitch %.9g yaw %.9g", x, y, z); return std::string(b); }});
    std::vector<Q4> q = all_rotors(!A.lite);
    both<rotor>("Euler angles of any rotor", q.size(), [q](u64 i) { return mk_rotor(q[i]); }, [=](rotor const r, Ctx& c) { back(c, r); });
    // the angles of a product of axis rotors
    out.push_back(Space{"Euler angles of composed axis rotations", ipow(an.size(), 3),
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            rotor x((float)an[g(an.size())], 1.f, 0.f, 0.f), y((float)an[g(an.size())], 0.f, 1.f, 0.f), z((float)an[g(an.size())], 0.f, 0.f, 1.f);
                            back(c, x * y * z);
                        },
                        [=](u64 i) { Dig g(i); char b[120]; double x = an[g(an.size())], y = an[g(an.size())], z = an[g(an.size())]; snprintf(b, 120, "rotations %.9g about x, %.9g about y, %.9g about z", x, y, z); return std::string(b); }});
}

#ifndef GRP
#    define GRP 11
#endif
int main(int argc, char** argv)
{
    return run_main(argc, argv, [](Args const& a) {
        A = a;
#if GRP == 11
        c11();
#elif GRP == 12
        c12();
#else
        c13();
#endif
        return out;
    });
}
