// C29: every operation available both in the symbolic engine and in the SSE library. The engine derives
// the formula once from fully general operands (its own parser and products); the formula is then
// evaluated at every enumerated coefficient vector and compared with the SSE operation.
#include "symbridge.hpp"
#include "ver.hpp"
using namespace mc;

static std::vector<Space> out;
static Args A;

struct Formula
{
    struct T { int blade; double c; std::vector<signed char> v; };
    std::vector<T> t;
    std::string text;
};
// variables: x0.. (first operand), y0.. (second operand)
static Formula formula(std::string const& s, int n1)
{
    Formula f;
    f.text = s;
    for (auto const& k : sym_value(s))
    {
        Formula::T t{(int)k.blade, k.coef, {}};
        for (auto const& v : k.vars)
            for (int e = 0; e < v.second; ++e) t.v.push_back((signed char)(atoi(v.first.c_str() + 1) + (v.first[0] == 'y' ? n1 : 0)));
        f.t.push_back(t);
    }
    return f;
}
static MV at(Formula const& f, const float* v)
{
    MV o;
    for (auto const& t : f.t)
    {
        double x = t.c;
        for (int k : t.v) x *= (double)v[k];
        if (t.blade >= 0 && t.blade < 16)
        {
            o.v[t.blade] += x;
            o.m[t.blade] += std::fabs(x);
        }
    }
    return o;
}
// general element of a type, written in the shell's notation with the documented basis element names
template <class T> std::string general(const char* var, bool reversed = false)
{
    std::string s = "(";
    if (std::is_same<T, translator>::value) s += "1";
    if (std::is_same<T, origin>::value) s += "e123";
    for (int i = 0; i != EV<T>::N; ++i)
    {
        if (s.size() > 1) s += " + ";
        s += var + std::to_string(i);
        const char* n = EV<T>::comps()[i].name;
        if (std::strcmp(n, "scalar")) s += std::string(" ") + n;
    }
    s += ")";
    return reversed ? "~" + s : s;
}
template <class R> void compare(Ctx& c, const char* key, R const& r, MV const& w, double k)
{
    agree<R>(c, key, r, w, k);
    // nothing outside the components of the result type
    bool in[16] = {};
    for (int i = 0; i != EV<R>::N; ++i) in[EV<R>::comps()[i].blade] = true;
    if (std::is_same<R, translator>::value) in[0] = true;
    for (int b = 0; b != 16; ++b)
        if (!in[b] && !(std::fabs(w.v[b]) <= k * 1.2e-7 * w.m[b] + 1e-30)) c.fail(key, "the symbolic result has a component outside the type of the SSE result (blade %d: %g)", b, w.v[b]);
}
// pattern: a formula in which X and Y stand for the operands; the default is "X op Y"
static std::string fill(std::string const& p, std::string const& x, std::string const& y)
{
    std::string o;
    for (char ch : p) o += ch == 'X' ? x : ch == 'Y' ? y : std::string(1, ch);
    return o;
}
template <class X, class Y, class F> void bin(const char* op, F f, const char* pattern = nullptr, double k = 48, std::vector<const char*> mag = {}, int px = 0, int py = 0)
{
    typedef decltype(f(std::declval<X>(), std::declval<Y>())) R;
    const int n1 = EV<X>::N, n2 = EV<Y>::N, n = n1 + n2;
    std::string nm = std::string(EV<X>::nm()) + " " + op + " " + EV<Y>::nm();
    auto fo = std::make_shared<Formula>(formula(pattern ? fill(pattern, general<X>("x"), general<Y>("y")) : general<X>("x") + " " + op + " " + general<Y>("y"), n1));
    // formulas whose terms the engine has already cancelled: the size of the rounded intermediates
    auto mo = std::make_shared<std::vector<Formula>>();
    for (auto p : mag) mo->push_back(formula(fill(p, general<X>("x"), general<Y>("y")), n1));
    auto run = [=](const float* v, Ctx& c) {
        X x = EV<X>::make(v);
        Y y = EV<Y>::make(v + n1);
        R r = f(x, y);
        c.trans = 1;
        MV w = at(*fo, v);
        for (auto& g : *mo)
        {
            MV h = at(g, v);
            for (int b = 0; b != 16; ++b) w.m[b] += h.m[b];
        }
        if (px)
        {
            // long products: the engine has cancelled terms that the SSE operations round on the way;
            // no intermediate exceeds the product of the 1-norms of the factors
            double sx = std::is_same<X, translator>::value, sy = std::is_same<Y, translator>::value, b = 1;
            for (int i = 0; i != n; ++i) (i < n1 ? sx : sy) += std::fabs(v[i]);
            for (int i = 0; i != px; ++i) b *= sx;
            for (int i = 0; i != py; ++i) b *= sy;
            for (int i = 0; i != 16; ++i) w.m[i] += b;
        }
        compare<R>(c, nm.c_str(), r, w, k);
    };
    auto add = [&](std::string tag, u64 size, std::function<void(u64, float*)> get) {
        out.push_back(Space{nm + " " + tag, size, [=](u64 i, Ctx& c) { float v[16]; get(i, v); run(v, c); },
                            [=](u64 i) { float v[16]; get(i, v); return fo->text + " at " + fmtv("", v, n); }});
    };
    int nv = n <= (A.thorough() ? 8 : 6) ? 5 : n <= (A.lite ? 8 : A.thorough() ? 14 : 12) ? 3 : 2;
    static const float L2[] = {1.f, -2.f};
    Lat l(n, nv == 5 ? L5 : nv == 3 ? L3 : L2, nv);
    add("lattice", l.size(), [l](u64 i, float* v) { l.get(i, v); });
    DevSpace d(n, A.lite ? 1 : A.thorough() ? 3 : 2, A.thorough() ? WIDE : WIDES, A.thorough() ? (int)NW : (int)NWS);
    if (A.thorough() && n > 10) d = DevSpace(n, 3, WIDES, NWS);
    add("deviations", d.size(), [d](u64 i, float* v) { d.get(i, v); });
}
// translator factors: the product of two points is only proportional
template <class V, class X> void sandwich(const char* vn, std::shared_ptr<std::vector<std::vector<float>>> vs)
{
    const int n1 = EV<V>::N, n2 = EV<X>::N;
    std::string nm = std::string(vn) + "(" + EV<X>::nm() + ")";
    auto fo = std::make_shared<Formula>(formula(general<V>("x") + " * " + general<X>("y") + " * " + general<V>("x", true), n1));
    auto fn = std::make_shared<Formula>(formula(general<V>("x") + " * " + general<V>("x", true), n1)); // squared norm
    auto run = [=](const float* v, Ctx& c) {
        V q = EV<V>::make(v);
        X x = EV<X>::make(v + n1);
        auto r = q(x);
        typedef decltype(r) R;
        c.trans = 1;
        MV w = at(*fo, v);
        // a point and a direction share their basis elements: a direction is not translated, its e123 is zero
        compare<R>(c, nm.c_str(), r, w, 96);
        MV s = at(*fn, v);
        if (std::fabs(s.v[0] - 1) > 1e-5 || std::fabs(s.v[15]) > 1e-5 * (1 + s.m[15])) c.fail("harness", "operand is not a unit versor");
    };
    auto add = [&](std::string tag, u64 n, std::function<void(u64, float*)> get) {
        u64 m = vs->size();
        out.push_back(Space{nm + " " + tag, n * m,
            [=](u64 i, Ctx& c) { float v[16]; std::copy((*vs)[i % m].begin(), (*vs)[i % m].end(), v); get(i / m, v + n1); run(v, c); },
            [=](u64 i) { float v[16]; std::copy((*vs)[i % m].begin(), (*vs)[i % m].end(), v); get(i / m, v + n1); return fo->text + " at " + fmtv("", v, n1 + n2); }});
    };
    if (n2 == 0) { add("once", 1, [](u64, float*) {}); return; }
    auto pr = std::make_shared<std::vector<std::vector<float>>>(probes(n2, A.thorough()));
    add("probes", pr->size(), [pr](u64 i, float* f) { std::copy((*pr)[i].begin(), (*pr)[i].end(), f); });
}
// plane reflection has the versor on both sides, unreversed
template <class X> void reflect(std::shared_ptr<std::vector<std::vector<float>>> vs)
{
    const int n2 = EV<X>::N;
    std::string nm = std::string("plane(") + EV<X>::nm() + ")";
    auto fo = std::make_shared<Formula>(formula(general<plane>("x") + " * " + general<X>("y") + " * " + general<plane>("x"), 4));
    auto pr = std::make_shared<std::vector<std::vector<float>>>(probes(n2, true));
    u64 m = vs->size();
    auto get = [=](u64 i, float* v) { std::copy((*vs)[i % m].begin(), (*vs)[i % m].end(), v); std::copy((*pr)[i / m].begin(), (*pr)[i / m].end(), v + 4); };
    out.push_back(Space{nm, m * pr->size(),
        [=](u64 i, Ctx& c) {
            float v[16];
            get(i, v);
            plane p = EV<plane>::make(v);
            X x = EV<X>::make(v + 4);
            X r = p(x);
            c.trans = 1;
            compare<X>(c, nm.c_str(), r, at(*fo, v), 96);
        },
        [=](u64 i) { float v[16]; get(i, v); return fo->text + " at " + fmtv("", v, 4 + n2); }});
}

static std::vector<Space> make(Args const& a)
{
    A = a;
#define B(X, OP, Y) bin<X, Y>(#OP, [](X x, Y y) { return x OP y; })
    B(plane, ^, plane); B(plane, ^, branch); B(branch, ^, plane); B(plane, ^, ideal_line); B(ideal_line, ^, plane); B(plane, ^, line); B(line, ^, plane);
    B(plane, ^, point); B(point, ^, plane); B(branch, ^, ideal_line); B(ideal_line, ^, branch); B(line, ^, line); B(line, ^, ideal_line); B(ideal_line, ^, line);
    B(line, ^, branch); B(branch, ^, line);
    B(plane, *, plane); B(plane, *, point); B(point, *, plane); B(branch, *, branch); B(line, *, line); B(rotor, *, rotor); B(kln::dual, *, line); B(line, *, kln::dual);
    B(rotor, *, translator); B(translator, *, rotor); B(translator, *, translator); B(rotor, *, motor); B(motor, *, rotor); B(translator, *, motor); B(motor, *, translator);
    B(motor, *, motor);
    B(plane, |, plane); B(plane, |, line); B(line, |, plane); B(plane, |, ideal_line); B(ideal_line, |, plane); B(plane, |, point); B(point, |, plane); B(line, |, line);
    B(point, |, line); B(line, |, point); B(point, |, point);
    B(point, &, point); B(point, &, line); B(line, &, point); B(point, &, branch); B(branch, &, point); B(point, &, ideal_line); B(ideal_line, &, point); B(plane, &, point); B(point, &, plane);
    // composite operations: the derivation as written in the shell, in one formula
#define PR(X, Y, P) bin<X, Y>("projected to", [](X x, Y y) { return project(x, y); }, P, 96)
    PR(point, line, "(X | Y) ^ Y"); PR(point, plane, "(X | Y) ^ Y"); PR(line, plane, "(X | Y) ^ Y"); PR(plane, point, "(X | Y) | Y"); PR(line, point, "(X | Y) | Y");
    PR(plane, line, "(X | Y) | Y");
#define C2(X, OP, Y, E, P) bin<X, Y>(OP, [](X x, Y y) { return E; }, P, 96)
    C2(rotor, "with reverse of", rotor, x * ~y, "X * ~Y"); C2(motor, "with reverse of", motor, x * ~y, "X * ~Y"); C2(motor, "reversed, with", rotor, ~x * y, "~X * Y");
    C2(line, "with reverse of", line, (~x) | y, "~X | Y");
    C2(motor, "negated, times", translator, (-x) * y, "-X * Y"); C2(line, "difference joined with", point, (x + x) & y, "(X - -X) & Y");
    C2(rotor, "plus", rotor, x + y, "X + Y"); C2(motor, "minus", motor, x - y, "X - Y"); C2(point, "minus", point, x - y, "X - Y"); C2(line, "minus", line, x - y, "X - Y");
    C2(plane, "minus", plane, x - y, "X - Y"); bin<line, line>("commutator", [](line x, line y) { return (x * y) - (y * x); }, "X * Y - Y * X", 96, {"X * Y", "Y * X"});
    bin<rotor, rotor>("commutator", [](rotor x, rotor y) { return (x * y) - (y * x); }, "X * Y - Y * X", 96, {"X * Y", "Y * X"});
    bin<motor, motor>("commutator", [](motor x, motor y) { return (x * y) - (y * x); }, "X * Y - Y * X", 96, {"X * Y", "Y * X"});
    bin<branch, branch>("anticommutator", [](branch x, branch y) { return (x * y) + (y * x); }, "X * Y + Y * X", 96, {"X * Y", "Y * X"});
    // longer derivations: three to six factors, commutators, sandwiches of composed motions
#define C3(X, OP, Y, PX, PY, E, P) bin<X, Y>(OP, [](X x, Y y) { return E; }, P, 96, {}, PX, PY)
    C3(rotor, "cubed with", rotor, 2, 1, x * y * x, "X * Y * X"); C3(rotor, "squared with square of", rotor, 2, 2, (x * x) * (y * y), "X * X * (Y * Y)");
    C3(rotor, "group commutator", rotor, 2, 2, x * y * (~x) * (~y), "X * Y * ~X * ~Y"); C3(motor, "then thrice", rotor, 1, 3, x * y * y * y, "X * Y * Y * Y");
    C3(translator, "around", rotor, 2, 2, x * y * x * y, "X * Y * X * Y"); C3(plane, "reflected in four", plane, 2, 2, (x * y) * (x * y), "X * Y * (X * Y)");
    C3(branch, "times itself and", branch, 2, 2, (x * y) * (x * y), "X * Y * (X * Y)"); C3(line, "times itself and", line, 2, 2, (x * y) * (y * x), "X * Y * (Y * X)");
    C3(point, "joined twice with", line, 2, 1, ((x & y) & x), "X & Y & X"); C3(plane, "met with difference of", plane, 2, 2, (x ^ y) ^ (x - y), "X ^ Y ^ (X - Y)");
    C3(line, "in the plane of", point, 2, 1, ((x & y) ^ x), "(X & Y) ^ X");
    C3(plane, "through inner products with", line, 1, 3, (((x | y) | y) | y), "X | Y | Y | Y"); C3(point, "through inner products with", line, 1, 3, (((x | y) | y) | y), "X | Y | Y | Y");
    C3(motor, "composed with inverse order of", rotor, 2, 2, (x * y) * (~(y * x)), "X * Y * ~(Y * X)"); C3(motor, "composed with inverse order of", translator, 2, 2, (x * y) * (~(y * x)), "X * Y * ~(Y * X)");
    C3(motor, "cubed", rotor, 3, 1, x * x * x * y, "X * X * X * Y"); C3(rotor, "sixfold product", rotor, 3, 3, x * y * x * y * x * y, "X * Y * X * Y * X * Y");
    // unit versors
    auto rot = std::make_shared<std::vector<std::vector<float>>>(), tr = std::make_shared<std::vector<std::vector<float>>>(), mo = std::make_shared<std::vector<std::vector<float>>>(),
         pl = std::make_shared<std::vector<std::vector<float>>>();
    std::vector<Q4> rs = A.lite ? lattice_rotors(1) : all_rotors(A.thorough());
    std::vector<V3> ds = displacements(A.thorough());
    for (auto& q : rs) rot->push_back({(float)q[0], (float)q[1], (float)q[2], (float)q[3]});
    for (auto& d : ds) tr->push_back({(float)(-0.5 * d[0]), (float)(-0.5 * d[1]), (float)(-0.5 * d[2])});
    std::vector<Q4> fr = few_rotors();
    for (size_t i = 0; i < fr.size(); i += A.lite ? 7 : 1)
        for (size_t j = 0; j < ds.size(); j += A.lite ? 5 : 1)
        {
            float f[8];
            motor_f(ref::gp(t_mv(ds[j]), q_mv(fr[i])), f);
            mo->push_back(std::vector<float>(f, f + 8));
        }
    for (auto& ax : axes(A.thorough() ? 2 : 0))
        for (double d : {0., 1., -3., 0.25, 100.})
        {
            double n = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]);
            pl->push_back({(float)(ax[0] / n), (float)(ax[1] / n), (float)(ax[2] / n), (float)d});
        }
    sandwich<rotor, plane>("rotor", rot); sandwich<rotor, branch>("rotor", rot); sandwich<rotor, line>("rotor", rot); sandwich<rotor, point>("rotor", rot); sandwich<rotor, direction>("rotor", rot);
    sandwich<translator, plane>("translator", tr); sandwich<translator, line>("translator", tr); sandwich<translator, point>("translator", tr);
    sandwich<motor, plane>("motor", mo); sandwich<motor, line>("motor", mo); sandwich<motor, point>("motor", mo); sandwich<motor, direction>("motor", mo); sandwich<motor, origin>("motor", mo);
    reflect<plane>(pl); reflect<line>(pl); reflect<point>(pl);
    return out;
}
int main(int c, char** v) { return run_main(c, v, make); }
