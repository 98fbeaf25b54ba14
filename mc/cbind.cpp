// C22: every function of the C interface, called from C, against the C++ operation it names.
#include "ver.hpp"
extern "C" void c_call(int op, const float* i1, const float* i2, float* o, float* k1, float* k2);
extern "C" void c_init(int op, const float* i, float* o);
using namespace mc;

static std::vector<Space> out;
static Args A;

// raw lanes of an entity
template <class T> static void raw(T const& x, float* o) { std::memcpy(o, &x, sizeof(T)); }

static void judge(Ctx& c, const char* nm, const float* got, const float* want, int n)
{
    double mag = 0;
    for (int i = 0; i != n; ++i) if (std::fabs(want[i]) > mag) mag = std::fabs(want[i]);
    for (int i = 0; i != n; ++i)
    {
        ++c.checks;
        c.mix(got[i]);
        if (c.verbose) printf("  %s[%d] C %.9g C++ %.9g\n", nm, i, got[i], want[i]);
        if (std::isnan(want[i]) && std::isnan(got[i])) continue;
        if (!(got[i] == want[i] || std::fabs((double)got[i] - want[i]) <= 8 * 1.2e-7 * mag))
            c.fail(nm, "%s lane %d: the C function returns %.9g, the C++ operation %.9g", nm, i, got[i], want[i]);
    }
}
typedef std::vector<std::vector<float>> Ops;

template <class X> static Ops lanes(std::vector<std::vector<float>> const& comps)
{
    Ops o;
    for (auto const& f : comps)
    {
        std::vector<float> l(8, 0.f);
        X x = mk<X>(f.data());
        raw(x, l.data());
        o.push_back(l);
    }
    return o;
}
template <class X> static Ops general(int extra)
{
    const int n = EV<X>::N;
    auto v = probes(n, true);
    DevSpace d(n, extra, WIDES, NWS);
    for (u64 i = 0; i != d.size(); ++i)
    {
        std::vector<float> f(n);
        d.get(i, f.data());
        v.push_back(f);
    }
    return lanes<X>(v);
}
static Ops unit_motors()
{
    std::vector<std::vector<float>> v;
    for (Q4 const& q : A.thorough() ? lattice_rotors(2) : few_rotors())
        for (V3 const& d : displacements(false))
        {
            std::vector<float> f(8);
            motor_f(ref::gp(t_mv(d), q_mv(q)), f.data());
            v.push_back(f);
        }
    return lanes<motor>(v);
}
static Ops unit_rotors()
{
    std::vector<std::vector<float>> v;
    for (Q4 const& q : all_rotors(false)) v.push_back({(float)q[0], (float)q[1], (float)q[2], (float)q[3]});
    return lanes<rotor>(v);
}

template <class X, class Y, class R, class F> static void bin(int op, const char* nm, Ops const& xs, Ops const& ys, F f)
{
    auto px = std::make_shared<Ops>(xs), py = std::make_shared<Ops>(ys);
    u64 nx = xs.size(), ny = ys.size();
    std::string name = nm;
    out.push_back(Space{name, nx * ny,
        [=](u64 i, Ctx& c) {
            float i1[8], i2[8], got[8] = {0}, k1[8] = {0}, k2[8] = {0}, want[8] = {0};
            std::copy((*px)[i % nx].begin(), (*px)[i % nx].end(), i1);
            std::copy((*py)[i / nx].begin(), (*py)[i / nx].end(), i2);
            X x;
            Y y;
            std::memcpy((void*)&x, i1, sizeof x);
            std::memcpy((void*)&y, i2, sizeof y);
            R r = f(x, y);
            raw(r, want);
            c_call(op, i1, i2, got, k1, k2);
            c.trans = 2;
            judge(c, name.c_str(), got, want, sizeof(R) / 4);
            c.expect(!std::memcmp(k1, i1, sizeof(X)) && !std::memcmp(k2, i2, sizeof(Y)), "operands", "the operands are unchanged");
        },
        [=](u64 i) { return name + fmtv(" ", (*px)[i % nx].data(), sizeof(X) / 4) + fmtv(" ", (*py)[i / nx].data(), sizeof(Y) / 4); }});
}
template <class R> static void init(int op, const char* nm, int n, R (*f)(const float*))
{
    std::string name = nm;
    DevSpace d(n, A.lite ? 2 : n < 4 ? n : 4, WIDES, NWS);
    out.push_back(Space{name, d.size(),
        [=](u64 i, Ctx& c) {
            float v[8], got[8] = {0}, want[8] = {0};
            d.get(i, v);
            R r = f(v);
            raw(r, want);
            c_init(op, v, got);
            judge(c, name.c_str(), got, want, sizeof(R) / 4);
        },
        [=](u64 i) { float v[8]; d.get(i, v); return name + fmtv("", v, n); }});
}
static std::vector<Space> make(Args const& a)
{
    A = a;
    init<plane>(0, "kln_plane_init", 4, [](const float* v) { return plane(v[0], v[1], v[2], v[3]); });
    init<line>(1, "kln_line_init", 6, [](const float* v) { return line(v[0], v[1], v[2], v[3], v[4], v[5]); });
    init<point>(2, "kln_point_init", 3, [](const float* v) { return point(v[0], v[1], v[2]); });
    int e = A.lite ? 1 : 2;
    auto few = [&](Ops o, size_t n) {
        if (A.thorough()) n *= 4;
        if (o.size() <= n) return o;
        Ops r;
        for (size_t i = 0; i != n; ++i) r.push_back(o[i * o.size() / n]);
        return r;
    };
    Ops pl = general<plane>(e), pt = general<point>(e), li = general<line>(e), ro = general<rotor>(e), tr = general<translator>(e), mo = general<motor>(e);
    size_t N = A.lite ? 150 : 700;
    bin<plane, point, point>(0, "kln_reflect_point", few(pl, N), few(pt, N), [](plane const& p, point const& x) { return p(x); });
    bin<plane, line, line>(1, "kln_reflect_line", few(pl, N), few(li, N), [](plane const& p, line const& x) { return p(x); });
    bin<plane, plane, plane>(2, "kln_reflect_plane", few(pl, N), few(pl, N), [](plane const& p, plane const& x) { return p(x); });
    bin<rotor, point, point>(3, "kln_rotate_point", few(ro, N), few(pt, N), [](rotor const& p, point const& x) { return p(x); });
    bin<rotor, line, line>(4, "kln_rotate_line", few(ro, N), few(li, N), [](rotor const& p, line const& x) { return p(x); });
    bin<rotor, plane, plane>(5, "kln_rotate_plane", few(ro, N), few(pl, N), [](rotor const& p, plane const& x) { return p(x); });
    bin<translator, point, point>(6, "kln_translate_point", few(tr, N), few(pt, N), [](translator const& p, point const& x) { return p(x); });
    bin<translator, line, line>(7, "kln_translate_line", few(tr, N), few(li, N), [](translator const& p, line const& x) { return p(x); });
    bin<translator, plane, plane>(8, "kln_translate_plane", few(tr, N), few(pl, N), [](translator const& p, plane const& x) { return p(x); });
    bin<motor, point, point>(9, "kln_motor_point", few(mo, N), few(pt, N), [](motor const& p, point const& x) { return p(x); });
    bin<motor, line, line>(10, "kln_motor_line", few(mo, N), few(li, N), [](motor const& p, line const& x) { return p(x); });
    bin<motor, plane, plane>(11, "kln_motor_plane", few(mo, N), few(pl, N), [](motor const& p, plane const& x) { return p(x); });
    // composition: the first argument acts first
    bin<rotor, rotor, rotor>(12, "kln_compose_rotors", few(ro, N), few(ro, N), [](rotor const& p, rotor const& q) { return q * p; });
    bin<translator, translator, translator>(13, "kln_compose_translators", few(tr, N), few(tr, N), [](translator const& p, translator const& q) { return q * p; });
    bin<rotor, translator, motor>(14, "kln_compose_rotor_translator", few(ro, N), few(tr, N), [](rotor const& p, translator const& q) { return q * p; });
    bin<translator, rotor, motor>(15, "kln_compose_translator_rotor", few(tr, N), few(ro, N), [](translator const& p, rotor const& q) { return q * p; });
    bin<motor, motor, motor>(16, "kln_compose_motors", few(mo, N), few(mo, N), [](motor const& p, motor const& q) { return q * p; });
    // logarithm and exponential; the second operand only checks that a bystander is left alone
    Ops um = unit_motors(), one(1, std::vector<float>(8, 0.f));
    bin<motor, motor, line>(17, "motor_log", um, one, [](motor const& p, motor const&) { return log(p); });
    bin<motor, motor, line>(17, "motor_log of any motor", few(mo, N * 40), one, [](motor const& p, motor const&) { return log(p); });
    bin<line, line, motor>(18, "line_exp", few(li, N * 40), one, [](line const& p, line const&) { return exp(p); });
    // unit versors acting on entities
    Ops ur = unit_rotors();
    bin<rotor, point, point>(3, "kln_rotate_point, unit rotors", few(ur, N), few(pt, N / 4), [](rotor const& p, point const& x) { return p(x); });
    bin<motor, point, point>(9, "kln_motor_point, unit motors", few(um, N), few(pt, N / 4), [](motor const& p, point const& x) { return p(x); });
    bin<motor, line, line>(10, "kln_motor_line, unit motors", few(um, N), few(li, N / 4), [](motor const& p, line const& x) { return p(x); });
    bin<motor, plane, plane>(11, "kln_motor_plane, unit motors", few(um, N), few(pl, N / 4), [](motor const& p, plane const& x) { return p(x); });
    return out;
}
int main(int argc, char** argv) { return run_main(argc, argv, make); }
