// Alphabets of unit versors, and probes.
#pragma once
#include "ent.hpp"
#include <algorithm>
#include <memory>
#include <array>

typedef std::array<double, 4> Q4; // scalar, e23, e31, e12
typedef std::array<double, 3> V3;

inline Q4 axis_angle(V3 a, double half)
{
    double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
    double s = std::sin(half) / n;
    return Q4{{std::cos(half), s * a[0], s * a[1], s * a[2]}};
}

// level 1 adds the directions of a grid of 5^3, level 2 those of 7^3 points
inline std::vector<V3> axes(int level)
{
    std::vector<V3> v;
    for (int x = -1; x <= 1; ++x)
        for (int y = -1; y <= 1; ++y)
            for (int z = -1; z <= 1; ++z)
                if (x || y || z) v.push_back(V3{{(double)x, (double)y, (double)z}});
    v.push_back(V3{{1, 2, 3}});
    v.push_back(V3{{-2, 3, 6}});
    v.push_back(V3{{3, -4, 12}});
    v.push_back(V3{{0.01, 0.2, -5}});
    v.push_back(V3{{1e-4, 1, 0}});
    // close to parallel or perpendicular to others of this list
    for (double e : {1e-1, 1e-2, 1e-3, 1e-5})
    {
        v.push_back(V3{{e, 0, 1}});
        v.push_back(V3{{1, -e, e * e}});
        v.push_back(V3{{1 + e, 1, -1}});
    }
    if (level)
        for (int K = level + 1, x = -K; x <= K; ++x)
            for (int y = -K; y <= K; ++y)
                for (int z = -K; z <= K; ++z)
                    if (std::abs(x) > 1 || std::abs(y) > 1 || std::abs(z) > 1) v.push_back(V3{{(double)x, (double)y, (double)z}});
    return v;
}

static const double PI = 3.14159265358979323846;

// rotation angles in (-2pi, 2pi]
inline std::vector<double> angles(bool thorough)
{
    std::vector<double> v;
    int n = thorough ? 48 : 24;
    for (int k = -n; k <= n; ++k) v.push_back(2 * PI * k / n);
    static const double sm[] = {0.3, 0.1, 0.03, 1e-2, 3e-3, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7};
    for (double s : sm)
        for (double b : {0., PI / 2, PI, -PI, 2 * PI, -2 * PI})
            for (double sg : {1., -1.})
            {
                double a = b + sg * s;
                if (std::fabs(a) < 2 * PI + 1e-9) v.push_back(a);
            }
    return v;
}

inline std::vector<Q4> lattice_rotors(int K)
{
    std::vector<Q4> v;
    for (int a = -K; a <= K; ++a)
        for (int b = -K; b <= K; ++b)
            for (int c = -K; c <= K; ++c)
                for (int d = -K; d <= K; ++d)
                {
                    int g = 0;
                    for (int x : {a, b, c, d})
                    {
                        int y = std::abs(x), z = g;
                        while (y) { int t = z % y; z = y; y = t; }
                        g = z;
                    }
                    if (g != 1) continue; // primitive vectors only
                    double n = std::sqrt(double(a * a + b * b + c * c + d * d));
                    v.push_back(Q4{{a / n, b / n, c / n, d / n}});
                }
    return v;
}
inline std::vector<Q4> all_rotors(bool thorough)
{
    std::vector<Q4> v = lattice_rotors(thorough ? 3 : 2);
    for (V3 a : axes(thorough ? 2 : 0))
        for (double t : angles(thorough)) v.push_back(axis_angle(a, t / 2));
    return v;
}
inline std::vector<Q4> few_rotors()
{
    std::vector<Q4> v = lattice_rotors(1);
    for (V3 a : {V3{{1, 2, 3}}, V3{{0, 0, 1}}, V3{{-1, 1, 0}}})
        for (double t : {1e-6, 1e-3, 0.7, PI / 2, 3., PI, 4.5, -0.4, -2.}) v.push_back(axis_angle(a, t / 2));
    return v;
}
// displacement vectors
inline std::vector<V3> displacements(bool thorough)
{
    std::vector<V3> v;
    int K = thorough ? 2 : 1;
    for (int x = -K; x <= K; ++x)
        for (int y = -K; y <= K; ++y)
            for (int z = -K; z <= K; ++z) v.push_back(V3{{(double)x, (double)y, (double)z}});
    static const double mg[] = {1e-6, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 0.999, 1.001, 3, 20, 100, 1e3, 1e4, 1e6};
    for (double m : mg)
    {
        v.push_back(V3{{m, 0, 0}});
        v.push_back(V3{{0, -m, 0}});
        v.push_back(V3{{0, 0, m}});
        v.push_back(V3{{0.37 * m, -1.21 * m, 2.83 * m}});
        v.push_back(V3{{-m, m * 0.01, m}});
    }
    for (double m : {2345.67, 76543.21})
    {
        v.push_back(V3{{-m, 0.713 * m, 0.291 * m}});
        v.push_back(V3{{0.1, -0.77 * m, m}});
    }
    for (double m : {1e-5, 0.03, 50.0, 5e3, 7e4})
        for (int k = 0; k != 3; ++k)
            for (double s : {1., -1.})
            {
                V3 d{{0, 0, 0}};
                d[k] = s * m;
                v.push_back(d);
                d[(k + 1) % 3] = 0.5;
                v.push_back(d);
            }
    return v;
}
inline rotor mk_rotor(Q4 const& q)
{
    float b[4] = {(float)q[0], (float)q[1], (float)q[2], (float)q[3]};
    return EV<rotor>::make(b);
}
inline translator mk_translator(V3 const& d)
{
    float b[3] = {(float)(-0.5 * d[0]), (float)(-0.5 * d[1]), (float)(-0.5 * d[2])};
    return EV<translator>::make(b);
}
inline MV q_mv(Q4 const& q)
{
    MV o;
    o.set(0, q[0]);
    o.set(12, q[1]);
    o.set(10, -q[2]);
    o.set(6, q[3]);
    return o;
}
inline MV t_mv(V3 const& d)
{
    MV o;
    o.set(0, 1);
    o.set(3, -0.5 * d[0]);
    o.set(5, -0.5 * d[1]);
    o.set(9, -0.5 * d[2]);
    return o;
}
// float components of a motor given as an even multivector
inline void motor_f(MV const& m, float* f)
{
    const Comp* c = EV<motor>::comps();
    for (int i = 0; i != 8; ++i) f[i] = (float)(c[i].sign * m.v[c[i].blade]);
}
inline motor mk_motor(MV const& m)
{
    float f[8];
    motor_f(m, f);
    return EV<motor>::make(f);
}
// translate after rotating
inline motor mk_motor(Q4 const& q, V3 const& d) { return mk_motor(ref::gp(t_mv(d), q_mv(q))); }


// probe vectors for an entity of n components: lattice of up to two non-zeros plus dense ones
inline std::vector<std::vector<float>> probes(int n, bool wide)
{
    std::vector<std::vector<float>> v;
    for (int i = 0; i != n; ++i)
    {
        std::vector<float> f(n, 0.f);
        for (float s : {1.f, -2.f}) { f[i] = s; v.push_back(f); }
        if (wide) for (float s : {1e-3f, 1234.5f, -2e-5f, -6e4f, 8e5f}) { f[i] = s; v.push_back(f); }
        for (int j = i + 1; j != n; ++j)
        {
            std::vector<float> g(n, 0.f);
            g[i] = 1; g[j] = -1; v.push_back(g);
            g[j] = 3; v.push_back(g);
        }
    }
    for (int b = 1; b != NBASE; ++b)
    {
        std::vector<float> f(n);
        for (int i = 0; i != n; ++i) f[i] = baseval(b, i);
        v.push_back(f);
        if (wide)
            for (float s : {1e-3f, 1000.f, -3e5f})
            {
                std::vector<float> g = f;
                for (float& x : g) x *= s;
                v.push_back(g);
            }
    }
    return v;
}
inline bool unchanged(const void* a, const void* b, size_t n) { return std::memcmp(a, b, n) == 0; }
