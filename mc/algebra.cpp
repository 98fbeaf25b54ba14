// C01-C04: every product of every operand pair against the reference algebra.
#include "prod.hpp"
using namespace mc;

static std::vector<Space> out;
static Args A;

template <class X, class Y, class R, class F, class G> void bin(const char* group, const char* opname, F f, G g, bool divide = false)
{
    if (A.group != group) return;
    std::string nm = std::string(EV<X>::nm()) + opname + EV<Y>::nm();
    const int n1 = EV<X>::N, n2 = EV<Y>::N, n = n1 + n2;
    auto run = [=](const float* v, Ctx& c) {
        X x = mk<X>(v);
        Y y = mk<Y>(v + n1);
        if (divide)
        {
            // divisor must be invertible and well scaled
            double s = 0, mx = 0;
            MV b = Emb<Y>::mv(v + n1);
            for (int i = 0; i != 16; ++i)
                if (!(i & 1) && b.v[i] != 0) { s += b.v[i] * b.v[i]; }
            for (int i = 0; i != 16; ++i) mx = std::fmax(mx, b.m[i]);
            if (s < 1e-12 || mx * mx / s > 1e6) { c.mix(0); return; }
            if (std::is_same<X, point>::value && std::fabs(v[3]) < 1e-6f) { c.mix(0); return; }
        }
        R r = f(x, y);
        MV w = g(Emb<X>::mv(v), Emb<Y>::mv(v + n1));
        c.trans = 1;
        agree<R>(c, nm.c_str(), r, w, divide ? 96 : 48);
        // operands untouched
        float b[8];
        EV<X>::get(x, b);
        for (int i = 0; i != n1; ++i) if (std::memcmp(&b[i], &v[i], 4)) c.fail(nm + " operand", "left operand was modified");
        EV<Y>::get(y, b);
        for (int i = 0; i != n2; ++i) if (std::memcmp(&b[i], &v[n1 + i], 4)) c.fail(nm + " operand", "right operand was modified");
    };
    auto shw = [=](const float* v) { return fmtv(EV<X>::nm(), v, n1) + opname + fmtv(EV<Y>::nm(), v + n1, n2); };
    auto add = [&](std::string tag, u64 size, std::function<void(u64, float*)> get) {
        out.push_back(Space{nm + " " + tag, size, [=](u64 i, Ctx& c) { float v[16]; get(i, v); run(v, c); },
                            [=](u64 i) { float v[16]; get(i, v); return shw(v); }});
    };
    // lattice
    {
        bool five = n <= (A.thorough() ? 10 : 9);
        bool three = n <= (A.lite ? 9 : (A.thorough() ? 16 : 13));
        if (A.lite) five = n <= 5;
        if (five) { Lat l(n, L5, 5); add("lattice{0,1,-1,2,-3}", l.size(), [l](u64 i, float* v) { l.get(i, v); }); }
        else if (three) { Lat l(n, L3, 3); add("lattice{0,1,-1}", l.size(), [l](u64 i, float* v) { l.get(i, v); }); }
        else
        {
            // all pairs of coordinates carrying all lattice values, per operand side, is covered by deviations below; add sparse lattice
            static const float L2[] = {1.f, -2.f};
            Lat l(n, L2, 2);
            add("lattice{1,-2}", l.size(), [l](u64 i, float* v) { l.get(i, v); });
        }
    }
    {
        DevSpace d(n, 2, A.lite ? WIDES : WIDE, A.lite ? (int)NWS : (int)NW);
        add("deviations<=2", d.size(), [d](u64 i, float* v) { d.get(i, v); });
    }
    if (!A.lite)
    {
        DevSpace d(n, A.thorough() ? 4 : 3, WIDES, NWS);
        add(A.thorough() ? "deviations<=4" : "deviations<=3", d.size(), [d](u64 i, float* v) { d.get(i, v); });
    }
    // every scale pair on dense operands
    add("scales", (u64)NBASE * NBASE * NW * NW, [=](u64 i, float* v) {
        Dig d(i);
        int b1 = (int)d(NBASE), b2 = (int)d(NBASE);
        float s1 = WIDE[d(NW)], s2 = WIDE[d(NW)];
        for (int j = 0; j != n1; ++j) v[j] = baseval(b1, j) * s1;
        for (int j = 0; j != n2; ++j) v[n1 + j] = baseval(b2, j + 3) * s2;
    });
    // operands that other operations returned
    {
        auto mx = std::make_shared<std::vector<Made<X>>>(made<X>(false, A.thorough() ? 8 : 4));
        auto my = std::make_shared<std::vector<Made<Y>>>(made<Y>(false, A.thorough() ? 8 : 4));
        u64 nx = mx->size();
        out.push_back(Space{nm + " of produced operands", nx * my->size(),
                            [=](u64 i, Ctx& c) {
                                float v[16];
                                Made<X> const& x = (*mx)[i % nx];
                                Made<Y> const& y = (*my)[i / nx];
                                EV<X>::get(x.v, v);
                                EV<Y>::get(y.v, v + n1);
                                Stead<X> sx(0, v, &x.v);
                                Stead<Y> sy(1, v + n1, &y.v);
                                run(v, c);
                            },
                            [=](u64 i) { return std::string((*mx)[i % nx].how) + " = " + ::show((*mx)[i % nx].v) + opname + (*my)[i / nx].how + " = " + ::show((*my)[i / nx].v); }});
    }
}

template <class X, class R, class F, class G> void un(const char* group, const char* opname, F f, G g)
{
    if (A.group != group) return;
    std::string nm = std::string(opname) + EV<X>::nm();
    const int n = EV<X>::N;
    auto run = [=](const float* v, Ctx& c) {
        X x = mk<X>(v);
        R r = f(x);
        agree<R>(c, nm.c_str(), r, g(Emb<X>::mv(v)), 0);
        // involution, bit for bit
        X back = f(r);
        float a[8];
        EV<X>::get(back, a);
        for (int i = 0; i != n; ++i)
            if (std::memcmp(&a[i], &v[i], 4)) c.fail(nm + " involution", "!!x differs from x in component %d: %.9g vs %.9g", i, a[i], v[i]);
        c.trans = 2;
    };
    auto add = [&](std::string tag, u64 size, std::function<void(u64, float*)> get) {
        out.push_back(Space{nm + " " + tag, size, [=](u64 i, Ctx& c) { float v[16]; get(i, v); run(v, c); },
                            [=](u64 i) { float v[16]; get(i, v); return opname + fmtv(EV<X>::nm(), v, n); }});
    };
    Lat l(n, L5, 5);
    add("lattice", l.size(), [l](u64 i, float* v) { l.get(i, v); });
    DevSpace d(n, n < 3 ? n : 3, WIDE, NW);
    add("deviations", d.size(), [d](u64 i, float* v) { d.get(i, v); });
    auto mx = std::make_shared<std::vector<Made<X>>>(made<X>(false, 6));
    out.push_back(Space{nm + " of produced operands", (u64)mx->size(),
                        [=](u64 i, Ctx& c) { float v[16]; EV<X>::get((*mx)[i].v, v); Stead<X> sx(0, v, &(*mx)[i].v); run(v, c); },
                        [=](u64 i) { return std::string((*mx)[i].how) + " = " + ::show((*mx)[i].v); }});
}

struct Bang
{
    template <class T> auto operator()(T x) const -> decltype(!x) { return !x; }
};

static MV ptpt(MV const& a, MV const& b)
{
    // translator proportional to a*b with unit scalar part
    MV p = ref::gp(a, b);
    MV o;
    o.set(0, 1);
    for (int i : {3, 5, 9})
    {
        o.v[i] = p.v[i] / p.v[0];
        o.m[i] = p.m[i] / std::fabs(p.v[0]);
    }
    return o;
}

// incidence facts of the property texts, checked on the implementation results themselves
static void incidence()
{
    if (A.group == "C01")
    {
        // three planes meet in their common point; parallel planes meet in an ideal line
        static const float L[] = {0, 1, -1, 2};
        int nv = A.thorough() ? 4 : 3;
        Lat l(12, L, nv);
        if (A.lite) l = Lat(12, L, 2);
        out.push_back(Space{"three planes meet", l.size(), [l](u64 i, Ctx& c) {
            float v[12];
            l.get(i, v);
            plane a = EV<plane>::make(v), b = EV<plane>::make(v + 4), d = EV<plane>::make(v + 8);
            point p = a ^ b ^ d;
            c.trans = 2;
            MV w = ref::ext(ref::ext(mv(a), mv(b)), mv(d));
            agree(c, "a^b^c", p, w);
            // the homogeneous point satisfies each plane equation exactly (small integers)
            const float* pl[3] = {v, v + 4, v + 8};
            for (int k = 0; k != 3; ++k)
            {
                float r = pl[k][0] * p.x() + pl[k][1] * p.y() + pl[k][2] * p.z() + pl[k][3] * p.w();
                c.expect(r == 0.f, "a^b^c incidence", "common point lies on every plane");
            }
            if (v[0] == v[4] && v[1] == v[5] && v[2] == v[6])
            {
                line q = a ^ b;
                c.expect(q.e23() == 0.f && q.e31() == 0.f && q.e12() == 0.f, "parallel planes", "meet of parallel planes is ideal");
            }
        }, [l](u64 i) { float v[12]; l.get(i, v); return fmtv("planes", v, 12); }});
    }
    if (A.group == "C04")
    {
        static const float L[] = {0, 1, -1, 3};
        int nv = A.thorough() ? 4 : 3;
        Lat l(9, L, nv);
        static const float WS[] = {1, 2, -1, 0.5};
        out.push_back(Space{"join of points is incident", l.size() * 64, [l](u64 i, Ctx& c) {
            float v[9];
            l.get(i / 64, v);
            u64 k = i % 64;
            float w[3] = {WS[k % 4], WS[k / 4 % 4], WS[k / 16]};
            point P[3];
            for (int j = 0; j != 3; ++j)
            {
                float f[4] = {v[3 * j] * w[j], v[3 * j + 1] * w[j], v[3 * j + 2] * w[j], w[j]};
                P[j] = EV<point>::make(f);
            }
            line q = P[0] & P[1];
            plane pl = P[0] & P[1] & P[2];
            plane pl2 = P[2] & q;
            c.trans = 4;
            for (int j = 0; j != 3; ++j)
            {
                float r = pl.x() * P[j].x() + pl.y() * P[j].y() + pl.z() * P[j].z() + pl.d() * P[j].w();
                c.expect(r == 0.f, "join of three points", "every point lies on the plane");
                float r2 = pl2.x() * P[j].x() + pl2.y() * P[j].y() + pl2.z() * P[j].z() + pl2.d() * P[j].w();
                c.expect(r2 == 0.f, "join of three points", "every point lies on the plane (point & line)");
                if (j < 2)
                {
                    plane z = q & P[j];
                    c.expect(z.x() == 0 && z.y() == 0 && z.z() == 0 && z.d() == 0, "join of two points", "each point joined with the line is nothing");
                }
            }
            bool distinct = v[0] != v[3] || v[1] != v[4] || v[2] != v[5];
            bool zero = q.e23() == 0 && q.e31() == 0 && q.e12() == 0;
            c.expect(distinct != zero, "join of two points", "distinct points and only they span a line");
            agree(c, "point&point&point", pl, ref::reg(ref::reg(mv(P[0]), mv(P[1])), mv(P[2])));
        }, [l](u64 i) { float v[9]; l.get(i / 64, v); return fmtv("points", v, 9) + " weights#" + std::to_string(i % 64); }});
    }
}

static std::vector<Space> spaces(Args const& a)
{
    A = a;
    out.clear();
    using ref::ext; using ref::gp; using ref::dot; using ref::reg; using ref::scale; using ref::inverse_even;
#define BIN(G, X, OP, Y, R, REF) bin<X, Y, R>(G, #OP, [](X x, Y y) { return x OP y; }, REF)
#if GRP == 1
    auto E = [](MV const& x, MV const& y) { return ext(x, y); };
    BIN("C01", plane, ^, plane, line, E);
    BIN("C01", plane, ^, branch, point, E);
    BIN("C01", branch, ^, plane, point, E);
    BIN("C01", plane, ^, ideal_line, point, E);
    BIN("C01", ideal_line, ^, plane, point, E);
    BIN("C01", plane, ^, line, point, E);
    BIN("C01", line, ^, plane, point, E);
    BIN("C01", plane, ^, point, kln::dual, E);
    BIN("C01", point, ^, plane, kln::dual, E);
    BIN("C01", branch, ^, ideal_line, kln::dual, E);
    BIN("C01", ideal_line, ^, branch, kln::dual, E);
    BIN("C01", line, ^, line, kln::dual, E);
    BIN("C01", line, ^, ideal_line, kln::dual, E);
    BIN("C01", ideal_line, ^, line, kln::dual, E);
    BIN("C01", line, ^, branch, kln::dual, E);
    BIN("C01", branch, ^, line, kln::dual, E);

#endif
#if GRP == 2
    auto P = [](MV const& x, MV const& y) { return gp(x, y); };
    BIN("C02", plane, *, plane, motor, P);
    BIN("C02", plane, *, point, motor, P);
    BIN("C02", point, *, plane, motor, P);
    BIN("C02", branch, *, branch, rotor, P);
    BIN("C02", line, *, line, motor, P);
    BIN("C02", rotor, *, rotor, rotor, P);
    BIN("C02", kln::dual, *, line, line, P);
    BIN("C02", line, *, kln::dual, line, P);
    BIN("C02", rotor, *, translator, motor, P);
    BIN("C02", translator, *, rotor, motor, P);
    BIN("C02", translator, *, translator, translator, P);
    BIN("C02", rotor, *, motor, motor, P);
    BIN("C02", motor, *, rotor, motor, P);
    BIN("C02", translator, *, motor, motor, P);
    BIN("C02", motor, *, translator, motor, P);
    BIN("C02", motor, *, motor, motor, P);
    bin<point, point, translator>("C02", "*", [](point x, point y) { return x * y; }, [](MV const& x, MV const& y) { return ptpt(x, y); }, true);
#define DIV(X, Y, R, REF) bin<X, Y, R>("C02", "/", [](X x, Y y) { return x / y; }, REF, true)
    auto Q = [](MV const& x, MV const& y) { return gp(x, inverse_even(y)); };
    DIV(branch, branch, rotor, Q);
    DIV(rotor, rotor, rotor, Q);
    DIV(translator, translator, translator, Q);
    DIV(line, line, motor, Q);
    DIV(motor, rotor, motor, Q);
    DIV(motor, translator, motor, Q);
    DIV(motor, motor, motor, Q);
    DIV(plane, plane, motor, [](MV const& x, MV const& y) {
        double n = y.v[2] * y.v[2] + y.v[4] * y.v[4] + y.v[8] * y.v[8];
        return scale(gp(x, y), 1 / n);
    });
    DIV(point, point, translator, [](MV const& x, MV const& y) { return ptpt(x, y); });

#endif
#if GRP == 3
    auto D = [](MV const& x, MV const& y) { return dot(x, y); };
    BIN("C03", plane, |, plane, float, D);
    BIN("C03", plane, |, line, plane, D);
    BIN("C03", line, |, plane, plane, D);
    BIN("C03", plane, |, ideal_line, plane, D);
    BIN("C03", ideal_line, |, plane, plane, D);
    BIN("C03", plane, |, point, line, D);
    BIN("C03", point, |, plane, line, D);
    BIN("C03", line, |, line, float, D);
    BIN("C03", point, |, line, plane, D);
    BIN("C03", line, |, point, plane, D);
    BIN("C03", point, |, point, float, D);

#endif
#if GRP == 4
    auto J = [](MV const& x, MV const& y) { return reg(x, y); };
    BIN("C04", point, &, point, line, J);
    BIN("C04", point, &, line, plane, J);
    BIN("C04", line, &, point, plane, J);
    BIN("C04", point, &, branch, plane, J);
    BIN("C04", branch, &, point, plane, J);
    BIN("C04", point, &, ideal_line, plane, J);
    BIN("C04", ideal_line, &, point, plane, J);
    BIN("C04", plane, &, point, kln::dual, J);
    BIN("C04", point, &, plane, kln::dual, J);
    auto U = [](MV const& x) { return ref::dual(x); };
    un<plane, point>("C04", "!", Bang(), U);
    un<point, plane>("C04", "!", Bang(), U);
    un<line, line>("C04", "!", Bang(), U);
    un<ideal_line, branch>("C04", "!", Bang(), U);
    un<branch, ideal_line>("C04", "!", Bang(), U);
    un<kln::dual, kln::dual>("C04", "!", Bang(), U);
#endif
    incidence();
    return out;
}
int main(int c, char** v) { return run_main(c, v, spaces); }
