// Reference model: the 16-dimensional algebra P(R*(3,0,1)) in double precision, written
// from the definition (blades as bit sets, reordering sign, metric e0^2=0, ei^2=1).
// Every coefficient carries the sum of absolute values of the terms that formed it, which
// scales the rounding tolerance.
#pragma once
#include <cmath>

namespace ref
{
struct MV
{
    double v[16];
    double m[16];
    MV()
    {
        for (int i = 0; i != 16; ++i) v[i] = m[i] = 0;
    }
    void set(int b, double x)
    {
        v[b] = x;
        m[b] = std::fabs(x);
    }
};
inline int pc(unsigned x) { return __builtin_popcount(x); }
// sign of reordering e_a e_b into canonical order (no metric)
inline int rsign(unsigned a, unsigned b)
{
    int n = 0;
    for (unsigned t = a >> 1; t; t >>= 1) n += pc(t & b);
    return n & 1 ? -1 : 1;
}
inline int gps(unsigned a, unsigned b) { return (a & b & 1) ? 0 : rsign(a, b); }
struct Tab
{
    int s[16][16];
    Tab()
    {
        for (int a = 0; a != 16; ++a)
            for (int b = 0; b != 16; ++b) s[a][b] = gps(a, b);
    }
};
inline Tab const& tab()
{
    static Tab t;
    return t;
}
template <class F> inline MV prod(MV const& a, MV const& b, F keep)
{
    MV o;
    Tab const& t = tab();
    for (int i = 0; i != 16; ++i)
        if (a.m[i] != 0)
            for (int j = 0; j != 16; ++j)
                if (b.m[j] != 0 && keep(i, j))
                {
                    int s = t.s[i][j];
                    if (!s) continue;
                    o.v[i ^ j] += s * a.v[i] * b.v[j];
                    o.m[i ^ j] += a.m[i] * b.m[j];
                }
    return o;
}
struct KAll { bool operator()(int, int) const { return true; } };
struct KExt { bool operator()(int i, int j) const { return !(i & j); } };
struct KDot
{
    bool operator()(int i, int j) const
    {
        int d = pc(i) - pc(j);
        return pc(i ^ j) == (d < 0 ? -d : d);
    }
};
inline MV gp(MV const& a, MV const& b) { return prod(a, b, KAll()); }
inline MV ext(MV const& a, MV const& b) { return prod(a, b, KExt()); }
inline MV dot(MV const& a, MV const& b) { return prod(a, b, KDot()); }
inline MV add(MV const& a, MV const& b, double sb = 1)
{
    MV o;
    for (int i = 0; i != 16; ++i)
    {
        o.v[i] = a.v[i] + sb * b.v[i];
        o.m[i] = a.m[i] + std::fabs(sb) * b.m[i];
    }
    return o;
}
inline MV scale(MV const& a, double s)
{
    MV o;
    for (int i = 0; i != 16; ++i)
    {
        o.v[i] = a.v[i] * s;
        o.m[i] = a.m[i] * std::fabs(s);
    }
    return o;
}
inline MV rev(MV a)
{
    for (int i = 0; i != 16; ++i)
        if (pc(i) & 2) a.v[i] = -a.v[i];
    return a;
}
// Poincare dual J: e_S -> e_T with signs such that plane (x,y,z,d) <-> point (x,y,z,w),
// e01<->e23, e02<->e31, e03<->e12, 1<->e0123.
inline MV dual(MV const& a)
{
    static const int to[16]  = {15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0};
    // e1 -> e032 = -e023 ; e2 -> e013 ; e3 -> e021 = -e012 ; e02 <-> e31 = -e13
    static const int sg[16] = {1, 1, -1, 1, 1, -1, 1, -1, -1, 1, -1, 1, 1, -1, 1, 1};
    MV o;
    for (int i = 0; i != 16; ++i)
    {
        o.v[to[i]] = sg[i] * a.v[i];
        o.m[to[i]] = a.m[i];
    }
    return o;
}
inline MV reg(MV const& a, MV const& b) { return dual(ext(dual(a), dual(b))); }
inline MV sandwich(MV const& v, MV const& x) { return gp(gp(v, x), rev(v)); }
inline MV scalar(double s)
{
    MV o;
    o.set(0, s);
    return o;
}
// inverse of an even element (or bivector) through its Study norm  n = V ~V = s + t e0123
inline MV inverse_even(MV const& a)
{
    MV n   = gp(a, rev(a));
    double s = n.v[0], t = n.v[15];
    MV d;
    d.v[0]  = 1 / s;
    d.m[0]  = n.m[0] / (s * s);
    d.v[15] = -t / (s * s);
    d.m[15] = n.m[15] / (s * s) + 2 * n.m[15] * n.m[0] / (s * s) / std::fabs(s);
    return gp(rev(a), d);
}
} // namespace ref
