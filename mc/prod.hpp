// Elements as they come out of other operations. What an operation returns may differ from
// the element built afresh with the same components only in lanes that hold no component, so
// nothing that is computed from it may differ either.
#pragma once
#include "ver.hpp"

struct Base
{
    plane p, q;
    point P, Q;
    direction d;
    line l, k;
    ideal_line i;
    branch b, e;
    rotor r, s;
    translator t, u;
    motor m, n;
    kln::dual z;
    float a, x;
};
// coefficient set number j; unit: every element normalized
inline Base base_elements(int j, bool unit)
{
    Base o;
    int at = j * 3;
    auto next = [&](float* f, int n) { for (int k = 0; k != n; ++k) f[k] = baseval(j % 2 ? 4 : 3, at + k); at += n; };
    float f[8];
    auto norm = [&](float* f, int from, int n) { double s = 0; for (int k = from; k != from + n; ++k) s += (double)f[k] * f[k]; s = std::sqrt(s); for (int k = 0; k != 6; ++k) f[k] = float(f[k] / s); };
    auto pl = [&] { next(f, 4); if (unit) norm(f, 0, 3); return EV<plane>::make(f); };
    auto pt = [&] { next(f, 4); if (unit) f[3] = 1.f; return EV<point>::make(f); };
    auto br = [&] { next(f, 3); if (unit) norm(f, 0, 3); return EV<branch>::make(f); };
    auto ln = [&] {
        next(f, 6);
        if (unit)
        {
            norm(f, 3, 3);
            double dt = 0;
            for (int k = 0; k != 3; ++k) dt += (double)f[k] * f[3 + k];
            for (int k = 0; k != 3; ++k) f[k] = float(f[k] - dt * f[3 + k]);
        }
        return EV<line>::make(f);
    };
    auto qt = [&] { next(f, 4); Q4 q{{f[0], f[1], f[2], f[3]}}; double s = 0; for (double v : q) s += v * v; if (unit) for (double& v : q) v /= std::sqrt(s); return q; };
    auto ro = [&] { return mk_rotor(qt()); };
    auto tr = [&] { next(f, 3); return EV<translator>::make(f); };
    auto mo = [&] { if (!unit) { next(f, 8); return EV<motor>::make(f); } Q4 q = qt(); next(f, 3); return mk_motor(q, V3{{f[0], f[1], f[2]}}); };
    o.p = pl(); o.q = pl(); o.P = pt(); o.Q = pt();
    next(f, 3); if (unit) norm(f, 0, 3); o.d = EV<direction>::make(f);
    o.l = ln(); o.k = ln();
    next(f, 3); o.i = EV<ideal_line>::make(f);
    o.b = br(); o.e = br(); o.r = ro(); o.s = ro(); o.t = tr(); o.u = tr(); o.m = mo(); o.n = mo();
    next(f, 2); o.z = EV<kln::dual>::make(f);
    o.a = baseval(4, j + 2); o.x = 0.5f + 0.25f * j;
    return o;
}
template <class T> struct Made { std::string how; T v; };
template <class T> struct Prod { const char* how; T (*f)(Base const&); };
#define MK(expr) {#expr, [](Base const& B) -> T { using namespace kln; Base c = B; (void)c; return expr; }}
#define ASG(stm) {#stm, [](Base const& B) -> T { Base c = B; stm; return c.OUT; }}
template <class V, class X> inline X arr(V const& v, X const& x)
{
    X a[3] = {x, x, x}, b[3];
    v(a, b, 3);
    return b[2];
}
template <class T> struct Producers;
template <> struct Producers<plane>
{
    typedef plane T;
    static std::vector<Prod<T>> get()
    {
        return {MK(c.p), MK(!c.P), MK(c.p + c.q), MK(c.p - c.q), MK(c.p * 2.f), MK(3 * c.p), MK(c.p / 3.f), MK(c.p / 7), MK(-c.p), MK(c.p.normalized()), MK(c.p.inverse()), MK(c.p += c.q), MK(c.p *= c.a),
                MK(c.l | c.p), MK(c.p | c.l), MK(c.p | c.i), MK(c.i | c.p), MK(c.P | c.l), MK(c.l | c.P), MK(c.P & c.l), MK(c.l & c.P), MK(c.P & c.b), MK(c.b & c.P), MK(c.P & c.i), MK(c.i & c.P),
                MK(c.p(c.q)), MK(c.r(c.p)), MK(c.t(c.p)), MK(c.m(c.p)), MK(arr(c.r, c.p)), MK(arr(c.m, c.p)), MK(project(c.p, c.P)), MK(project(c.p, c.l)), MK(!!c.p)};
    }
};
template <> struct Producers<point>
{
    typedef point T;
    static std::vector<Prod<T>> get()
    {
        return {MK(c.P), MK(point(c.a, c.x, 2.f)), MK(!c.p), MK(c.P + c.Q), MK(c.P - c.Q), MK(c.P * 2.f), MK(3 * c.P), MK(c.P / 3.f), MK(c.P / 7), MK(-c.P), MK(~c.P), MK(c.P.normalized()), MK(c.P.inverse()),
                MK(c.P -= c.Q), MK(c.P /= c.a), MK(c.p ^ c.b), MK(c.b ^ c.p), MK(c.p ^ c.i), MK(c.i ^ c.p), MK(c.p ^ c.l), MK(c.l ^ c.p), MK(c.p(c.P)), MK(c.r(c.P)), MK(c.t(c.P)), MK(c.m(c.P)), MK(c.m(origin())),
                MK(arr(c.r, c.P)), MK(arr(c.m, c.P)), MK(project(c.P, c.l)), MK(project(c.P, c.p)), MK(origin())};
    }
};
template <> struct Producers<direction>
{
    typedef direction T;
    static std::vector<Prod<T>> get()
    {
        return {MK(c.d), MK(direction(c.a, c.x, 2.f)), MK(c.d + c.d * 3.f), MK(c.d - c.d * 2.f), MK(2.f * c.d), MK(c.d / 3.f), MK(c.d / 7), MK(-c.d), MK(c.d.normalized()), MK(c.r(c.d)), MK(c.m(c.d)), MK(arr(c.r, c.d)), MK(arr(c.m, c.d))};
    }
};
template <> struct Producers<line>
{
    typedef line T;
    static std::vector<Prod<T>> get()
    {
        return {MK(c.l), MK(line(c.b)), MK(line(c.i)), MK(line(-c.b)), MK(line(!c.i)), MK(line(log(c.t))), MK(line(log(c.r))), MK(c.p ^ c.q), MK(c.P & c.Q), MK(c.p | c.P), MK(c.P | c.p), MK(c.z * c.l), MK(c.l * c.z), MK(c.l + c.k), MK(c.l - c.k), MK(c.l * 2.f),
                MK(3 * c.l), MK(c.l / 3.f), MK(c.l / 7), MK(c.l *= 1.5f), MK(c.l /= c.a), MK(-c.l), MK(~c.l), MK(c.l.normalized()), MK(c.l.inverse()), MK(!c.l), MK(project(c.l, c.p)), MK(project(c.l, c.P)), MK(c.p(c.l)), MK(c.r(c.l)), MK(c.t(c.l)), MK(c.m(c.l)),
                MK(arr(c.r, c.l)), MK(arr(c.m, c.l)), MK(log(c.m)), MK(log(c.m) / 3.f), MK(log(motor(c.t))), MK(log(motor(c.r)))};
    }
};
template <> struct Producers<ideal_line>
{
    typedef ideal_line T;
    static std::vector<Prod<T>> get()
    {
        return {MK(c.i), MK(!c.b), MK(c.i + c.i * 3.f), MK(c.i - c.i * 3.f), MK(c.i * 2.f), MK(c.i / 3.f), MK(c.i / 7), MK(-c.i), MK(~c.i), MK(log(c.t)), MK(log(c.t) / 3.f), MK(log(sqrt(c.t))), MK(!log(c.r)), MK(log(c.P * c.Q)), MK(log(exp(c.i)))};
    }
};
template <> struct Producers<branch>
{
    typedef branch T;
    static std::vector<Prod<T>> get()
    {
        return {MK(c.b), MK(!c.i), MK(c.b + c.e), MK(c.b - c.e), MK(c.b * 2.f), MK(c.b / 3.f), MK(c.b / 7), MK(c.b += c.e), MK(-c.b), MK(~c.b), MK(c.b.normalized()), MK(c.b.inverse()), MK(log(c.r)), MK(log(c.r) / 3.f), MK(c.r(c.b)), MK(!log(c.t)), MK(log(c.b * c.e)), MK(log(exp(c.b))), MK(-log(c.r)), MK(!!c.b)};
    }
};
template <> struct Producers<rotor>
{
    typedef rotor T;
    static std::vector<Prod<T>> get()
    {
        return {MK(c.r), MK(rotor(c.a, c.x, 2.f, -1.f)), MK(rotor(c.r.as_euler_angles())), MK(c.b * c.e), MK(c.r * c.s), MK(c.b / c.e), MK(c.r / c.s), MK(sqrt(c.r)), MK(sqrt(c.b)), MK(exp(c.b)), MK(exp(log(c.r))), MK(exp(log(c.r) / 3.f)), MK(c.r.normalized()),
                MK(c.r.inverse()), MK(c.r.constrained()), MK(~c.r), MK(-c.r), MK(c.r + c.s), MK(c.r - c.s), MK(c.r * 2.f), MK(c.r / 3.f), MK(c.r *= c.a), MK(sqrt(log(c.r)))};
    }
};
template <> struct Producers<translator>
{
    typedef translator T;
    static std::vector<Prod<T>> get()
    {
        return {MK(c.t), MK(translator(c.a, c.x, 2.f, -1.f)), MK(c.P * c.Q), MK(c.P / c.Q), MK(c.t * c.u), MK(c.t / c.u), MK(exp(c.i)), MK(sqrt(c.t)), MK(c.t.inverse()), MK(c.t + c.u), MK(c.t - c.u), MK(c.t * 2.f), MK(c.t / 3.f), MK(c.t / 7), MK(c.t *= c.a), MK(exp(log(c.t) / 3.f)), MK(exp(!log(c.r))), MK(exp(!c.b))};
    }
};
template <> struct Producers<motor>
{
    typedef motor T;
    static std::vector<Prod<T>> get()
    {
        return {MK(c.m), MK(motor(c.a, c.x, c.l.normalized())), MK(motor(c.r)), MK(motor(c.t)), MK(motor(c.P * c.Q)), MK(motor(c.t * c.u)), MK(motor(exp(c.i))), MK(c.m = c.r), MK(c.m = c.t), MK(c.m = c.t / c.u), MK(c.p * c.q), MK(c.p * c.P), MK(c.P * c.p), MK(c.l * c.k), MK(c.l / c.k),
                MK(c.r * c.t), MK(c.t * c.r), MK(c.r * c.m), MK(c.m * c.r), MK(c.t * c.m), MK(c.m * c.t), MK(c.m * c.n), MK(c.m / c.r), MK(c.m / c.t), MK(c.m / c.n), MK(c.p / c.q), MK(exp(c.l)), MK(exp(log(c.m))), MK(exp(log(c.m) / 3.f)), MK(exp(line(c.i))), MK(exp(line(c.b))), MK(sqrt(c.m)), MK(sqrt(motor(c.t))), MK(c.m.normalized()),
                MK(c.m.inverse()), MK(c.m.constrained()), MK(~c.m), MK(-c.m), MK(c.m + c.n), MK(c.m - c.n), MK(c.m * 2.f), MK(c.m / 3.f), MK(c.m *= c.a)};
    }
};
template <> struct Producers<kln::dual>
{
    typedef kln::dual T;
    static std::vector<Prod<T>> get()
    {
        return {MK(c.z), MK(!c.z), MK(c.p ^ c.P), MK(c.P ^ c.p), MK(c.p & c.P), MK(c.P & c.p), MK(c.b ^ c.i), MK(c.i ^ c.b), MK(c.l ^ c.k), MK(c.l ^ c.i), MK(c.i ^ c.l), MK(c.l ^ c.b), MK(c.b ^ c.l), MK(c.z + c.z * 2.f), MK(c.z - c.z * 3.f), MK(c.z / 3.f)};
    }
};
template <> struct Producers<float>
{
    typedef float T;
    static std::vector<Prod<T>> get() { return {MK(c.a), MK(c.p | c.q), MK(c.l | c.k)}; }
};
template <> struct Producers<origin>
{
    typedef origin T;
    static std::vector<Prod<T>> get() { return {MK(origin())}; }
};
#undef MK

// every producer on every base set; only finite elements, and with unit set only elements of
// unit norm (real part, or homogeneous coordinate)
template <class T> std::vector<Made<T>> made(bool unit, int sets)
{
    std::vector<Made<T>> v;
    for (Prod<T> const& p : Producers<T>::get())
        for (int j = 0; j != sets; ++j)
        {
            T x = p.f(base_elements(j, unit));
            float f[8];
            EV<T>::get(x, f);
            bool ok = true, any = EV<T>::N == 0;
            for (int k = 0; k != EV<T>::N; ++k) { ok &= std::isfinite(f[k]) && std::fabs(f[k]) < 1e8f; any |= f[k] != 0; }
            if (!ok || !any) continue;
            if (unit && EV<T>::N > 1)
            {
                MV m = Emb<T>::mv(f), n = ref::gp(m, ref::rev(m));
                if (!(std::fabs(std::fabs(n.v[0]) - 1) < 1e-5 && std::fabs(n.v[15]) < 1e-4)) continue;
            }
            v.push_back(Made<T>{p.how, x});
        }
    return v;
}
