// C16 (components, loads, stores, conversions), C17 (linear operators, reversion, comparisons).
#include "ver.hpp"
#include <climits>
#include <set>
using namespace mc;

static std::vector<Space> out;
static Args A;

// bit patterns a component can carry
static std::vector<float> bitvals(bool thorough)
{
    std::vector<float> v = {0.f, -0.f, 1.f, -1.f, 2.5f, -3.f, 1e-45f, -1e-40f, 3.4e38f, -3.4e38f, HUGE_VALF, -HUGE_VALF, 1.17549435e-38f, 16777217.f};
    float nan;
    uint32_t b = 0x7fc12345u;
    std::memcpy(&nan, &b, 4);
    v.push_back(nan);
    if (thorough)
        for (float f : {0.1f, -1e-10f, 1e30f, 12345.678f}) v.push_back(f);
    return v;
}
static bool beq(float a, float b) { return std::memcmp(&a, &b, 4) == 0; }
struct Acc
{
    Ctx& c;
    std::string who;
    void eq(const char* what, float got, float want)
    {
        ++c.checks;
        c.mix(got);
        if (!beq(got, want))
        {
            uint32_t g, w;
            std::memcpy(&g, &got, 4);
            std::memcpy(&w, &want, 4);
            c.fail(who + " " + what, "%s %s: got %.9g (%08x), expected %.9g (%08x)", who.c_str(), what, got, g, want, w);
        }
    }
};

// every accessor of an entity against the components it must return
static void accessors(Acc a, plane const& p, const float* f)
{
    a.eq("x", p.x(), f[0]); a.eq("e1", p.e1(), f[0]); a.eq("y", p.y(), f[1]); a.eq("e2", p.e2(), f[1]);
    a.eq("z", p.z(), f[2]); a.eq("e3", p.e3(), f[2]); a.eq("d", p.d(), f[3]); a.eq("e0", p.e0(), f[3]);
}
static void accessors(Acc a, point const& p, const float* f)
{
    a.eq("x", p.x(), f[0]); a.eq("e032", p.e032(), f[0]); a.eq("y", p.y(), f[1]); a.eq("e013", p.e013(), f[1]);
    a.eq("z", p.z(), f[2]); a.eq("e021", p.e021(), f[2]); a.eq("w", p.w(), f[3]); a.eq("e123", p.e123(), f[3]);
}
static void accessors(Acc a, direction const& p, const float* f) { a.eq("x", p.x(), f[0]); a.eq("y", p.y(), f[1]); a.eq("z", p.z(), f[2]); }
template <class T> static void ideals(Acc a, T const& l, const float* f)
{
    a.eq("e01", l.e01(), f[0]); a.eq("e10", l.e10(), -f[0]); a.eq("e02", l.e02(), f[1]); a.eq("e20", l.e20(), -f[1]);
    a.eq("e03", l.e03(), f[2]); a.eq("e30", l.e30(), -f[2]);
}
template <class T> static void reals(Acc a, T const& l, const float* f)
{
    a.eq("e23", l.e23(), f[0]); a.eq("e32", l.e32(), -f[0]); a.eq("e31", l.e31(), f[1]); a.eq("e13", l.e13(), -f[1]);
    a.eq("e12", l.e12(), f[2]); a.eq("e21", l.e21(), -f[2]);
}
static void accessors(Acc a, ideal_line const& l, const float* f) { ideals(a, l, f); }
static void accessors(Acc a, branch const& l, const float* f)
{
    reals(a, l, f);
    a.eq("x", l.x(), f[0]); a.eq("y", l.y(), f[1]); a.eq("z", l.z(), f[2]);
}
static void accessors(Acc a, line const& l, const float* f) { ideals(a, l, f); reals(a, l, f + 3); }
static void accessors(Acc a, rotor const& r, const float* f) { a.eq("scalar", r.scalar(), f[0]); reals(a, r, f + 1); }
static void accessors(Acc a, translator const& t, const float* f) { ideals(a, t, f); a.eq("scalar", t.scalar(), 1.f); }
static void accessors(Acc a, motor const& m, const float* f)
{
    a.eq("scalar", m.scalar(), f[0]); reals(a, m, f + 1); ideals(a, m, f + 4); a.eq("e0123", m.e0123(), f[7]);
}
static void accessors(Acc a, kln::dual const& d, const float* f) { a.eq("scalar", d.scalar(), f[0]); a.eq("e0123", d.e0123(), f[1]); a.eq("p", d.p, f[0]); a.eq("q", d.q, f[1]); }

// components in which at most k positions deviate from distinct markers
template <class T> void compspace(std::string nm, std::function<void(Ctx&, const float*)> f, int n = EV<T>::N)
{
    auto v = std::make_shared<std::vector<float>>(bitvals(A.thorough()));
    DevSpace d(n, n < 3 ? n : A.lite ? 1 : 3, v->data(), (int)v->size());
    out.push_back(Space{nm, d.size(), [=](u64 i, Ctx& c) { (void)v; float g[8]; d.get(i, g); f(c, g); }, [=](u64 i) { (void)v; float g[8]; d.get(i, g); return fmtv(nm.c_str(), g, n); }});
}

// a float array whose bytes before the start and after the end fault, at any float offset
struct Guarded
{
    char* base;
    size_t page;
    Guarded()
    {
        page = sysconf(_SC_PAGESIZE);
        base = (char*)mmap(0, 3 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base, page, PROT_NONE);
        mprotect(base + 2 * page, page, PROT_NONE);
    }
    float* ending(int n) { return (float*)(base + 2 * page) - n; }
    float* starting() { return (float*)(base + page); }
    // 16-byte aligned + off floats, in the middle of the page
    float* at(int off) { return (float*)(base + page + page / 2) + off; }
};
static Guarded& guarded() { static Guarded g; return g; }

// placements of an n-float array: 0..7 offsets, 8 at the end of a page, 9 at its start
enum { PLACES = 10 };
static float* place(int k, int n)
{
    Guarded& g = guarded();
    std::memset(g.base + g.page, 0x5a, g.page);
    return k < 8 ? g.at(k) : k == 8 ? g.ending(n) : g.starting();
}
static bool page_intact(const float* p, int n)
{
    Guarded& g = guarded();
    for (char* c = g.base + g.page; c != g.base + 2 * g.page; ++c)
        if (!(c >= (char*)p && c < (char*)(p + n)) && *c != 0x5a) return false;
    return true;
}

// load: mem holds the floats in memory order, ord maps memory position -> component (-1: none)
template <class T> void loadspace(std::string nm, int n, std::vector<int> ord, std::function<T(float*)> ld)
{
    auto v = std::make_shared<std::vector<float>>(bitvals(A.thorough()));
    DevSpace d(n, 2, v->data(), (int)v->size());
    out.push_back(Space{nm, d.size() * PLACES,
                        [=](u64 i, Ctx& c) {
                            (void)v;
                            float m[8], f[8];
                            d.get(i / PLACES, m);
                            for (int k = 0; k != n; ++k) if (ord[k] < 0) m[k] = 0;
                            float* p = place(i % PLACES, n);
                            std::memcpy(p, m, n * sizeof(float));
                            T const x = ld(p);
                            c.expect(std::memcmp(p, m, n * sizeof(float)) == 0, nm.c_str(), "the source array is unchanged");
                            for (int k = 0; k != n; ++k) if (ord[k] >= 0) f[ord[k]] = m[k];
                            // the source may be reused at once
                            std::memset(p, 0x77, n * sizeof(float));
                            accessors(Acc{c, nm}, x, f);
                            std::memset(p, 0x5a, n * sizeof(float));
                            c.expect(page_intact(p, n), nm.c_str(), "memory around the array is unchanged");
                        },
                        [=](u64 i) { (void)v; float m[8]; d.get(i / PLACES, m); return fmtv("array", m, n) + " placement " + std::to_string(i % PLACES); }});
}
template <class T> void storespace(std::string nm, std::vector<int> ord, std::function<void(T const&, float*)> st)
{
    auto v = std::make_shared<std::vector<float>>(bitvals(A.thorough()));
    int n = EV<T>::N;
    DevSpace d(n, 2, v->data(), (int)v->size());
    out.push_back(Space{nm, d.size() * PLACES,
                        [=](u64 i, Ctx& c) {
                            (void)v;
                            float f[8];
                            d.get(i / PLACES, f);
                            T const x = mk<T>(f);
                            float* p = place(i % PLACES, 4);
                            st(x, p);
                            Acc a{c, nm};
                            for (int k = 0; k != 4; ++k) if (ord[k] >= 0) a.eq("stored float", p[k], f[ord[k]]);
                            c.expect(page_intact(p, 4), nm.c_str(), "exactly four floats are written");
                            accessors(a, x, f);
                        },
                        [=](u64 i) { (void)v; float f[8]; d.get(i / PLACES, f); return fmtv(EV<T>::nm(), f, n) + " placement " + std::to_string(i % PLACES); }});
}

static void c16()
{
    compspace<plane>("plane(a,b,c,d)", [](Ctx& c, const float* f) { plane const p(f[0], f[1], f[2], f[3]); accessors(Acc{c, "plane"}, p, f); plane q = p; plane r; r = q; accessors(Acc{c, "copied plane"}, r, f); });
    compspace<point>("point(x,y,z)", [](Ctx& c, const float* f) { float g[4] = {f[0], f[1], f[2], 1.f}; point const p(f[0], f[1], f[2]); accessors(Acc{c, "point"}, p, g); point r; r = p; accessors(Acc{c, "copied point"}, r, g); }, 3);
    compspace<line>("line(a..f)", [](Ctx& c, const float* f) { line const l(f[0], f[1], f[2], f[3], f[4], f[5]); accessors(Acc{c, "line"}, l, f); line r; r = l; accessors(Acc{c, "copied line"}, r, f); });
    compspace<ideal_line>("ideal_line(a,b,c)", [](Ctx& c, const float* f) {
        ideal_line const l(f[0], f[1], f[2]);
        accessors(Acc{c, "ideal_line"}, l, f);
        float g[6] = {f[0], f[1], f[2], 0, 0, 0};
        line m(l), n(1, 2, 3, 4, 5, 6);
        accessors(Acc{c, "line(ideal_line)"}, m, g);
        n = l;
        accessors(Acc{c, "line = ideal_line"}, n, g);
    });
    compspace<branch>("branch(a,b,c)", [](Ctx& c, const float* f) {
        branch const l(f[0], f[1], f[2]);
        accessors(Acc{c, "branch"}, l, f);
        float g[6] = {0, 0, 0, f[0], f[1], f[2]};
        line m(l), n(1, 2, 3, 4, 5, 6);
        accessors(Acc{c, "line(branch)"}, m, g);
        n = l;
        accessors(Acc{c, "line = branch"}, n, g);
    });
    compspace<motor>("motor(a..h)", [](Ctx& c, const float* f) { motor const m(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]); accessors(Acc{c, "motor"}, m, f); motor r; r = m; accessors(Acc{c, "copied motor"}, r, f); });
    compspace<kln::dual>("dual{p,q}", [](Ctx& c, const float* f) { kln::dual d{f[0], f[1]}; accessors(Acc{c, "dual"}, d, f); });
    compspace<rotor>("rotor to motor", [](Ctx& c, const float* f) {
        rotor const r = mk<rotor>(f);
        accessors(Acc{c, "rotor"}, r, f);
        float g[8] = {f[0], f[1], f[2], f[3], 0, 0, 0, 0};
        motor m(r), n(1, 2, 3, 4, 5, 6, 7, 8);
        accessors(Acc{c, "motor(rotor)"}, m, g);
        n = r;
        accessors(Acc{c, "motor = rotor"}, n, g);
        accessors(Acc{c, "rotor afterwards"}, r, f);
    });
    compspace<translator>("translator to motor", [](Ctx& c, const float* f) {
        translator const t = mk<translator>(f);
        accessors(Acc{c, "translator"}, t, f);
        float g[8] = {1, 0, 0, 0, f[0], f[1], f[2], 0};
        motor m(t), n(1, 2, 3, 4, 5, 6, 7, 8);
        accessors(Acc{c, "motor(translator)"}, m, g);
        n = t;
        accessors(Acc{c, "motor = translator"}, n, g);
        accessors(Acc{c, "translator afterwards"}, t, f);
    });
    // translators made by other means carry nothing of their scalar into the motor
    compspace<translator>("computed translator to motor", [](Ctx& c, const float* f) {
        for (int k = 0; k != 3; ++k) if (!(std::fabs(f[k]) < 1e30f)) return;
        translator t = mk<translator>(f);
        translator u = exp(ideal_line(f[0], f[1], f[2]));
        translator w = t * translator(0.f, 1.f, 0.f, 0.f);
        translator z = point(0, 0, 0) * point(0, 0, 0);
        float g[8] = {1, 0, 0, 0, f[0], f[1], f[2], 0};
        for (translator q : {t, u})
        {
            motor n(1, 2, 3, 4, 5, 6, 7, 8);
            n = q;
            accessors(Acc{c, "motor = exp(ideal_line)"}, n, g);
            accessors(Acc{c, "motor(exp(ideal_line))"}, motor(q), g);
        }
        for (translator q : {w, z})
        {
            motor n(q), m2(1, 2, 3, 4, 5, 6, 7, 8);
            m2 = q;
            c.expect(n.scalar() == 1.f && m2.scalar() == 1.f, "motor of a product of translators", "scalar part is 1");
            c.expect(n.e0123() == 0.f && m2.e0123() == 0.f, "motor of a product of translators", "e0123 part is 0");
        }
    });
    out.push_back(Space{"origin", 1, [](u64, Ctx& c) { point p = origin(); float f[4] = {0, 0, 0, 1}; accessors(Acc{c, "origin"}, p, f); }, nullptr});
    // loads
    loadspace<plane>("plane::load", 4, {3, 0, 1, 2}, [](float* p) { plane x(9, 9, 9, 9); x.load(p); return x; });
    loadspace<plane>("plane(float*)", 4, {3, 0, 1, 2}, [](float* p) { return plane(p); });
    loadspace<point>("point::load", 4, {3, 0, 1, 2}, [](float* p) { point x(9, 9, 9); x.load(p); return x; });
    loadspace<direction>("direction(float*)", 4, {-1, 0, 1, 2}, [](float* p) { return direction(p); });
    loadspace<rotor>("rotor::load_normalized", 4, {0, 1, 2, 3}, [](float* p) { rotor x; x.load_normalized(p); return x; });
    loadspace<translator>("translator::load_normalized", 4, {-1, 0, 1, 2}, [](float* p) { translator x; x.load_normalized(p); return x; });
    loadspace<motor>("motor::load", 8, {0, 1, 2, 3, 7, 4, 5, 6}, [](float* p) { motor x; x.load(p); return x; });
    // stores
    storespace<point>("point::store", {3, 0, 1, 2}, [](point const& x, float* p) { x.store(p); });
    storespace<rotor>("rotor::store", {0, 1, 2, 3}, [](rotor const& x, float* p) { x.store(p); });
    storespace<branch>("branch::store", {-1, 0, 1, 2}, [](branch const& x, float* p) { x.store(p); });
}

// ---------------------------------------------------------------- C17
// components that take part in + - and scaling: all of EV<T>
template <class T> struct Has { enum { intscale = 1, eq = 0, neg = 1, rev = 1 }; };
template <> struct Has<plane> { enum { intscale = 1, eq = 1, neg = 1, rev = 0 }; };
template <> struct Has<point> { enum { intscale = 1, eq = 0, neg = 1, rev = 1 }; };
template <> struct Has<direction> { enum { intscale = 1, eq = 0, neg = 1, rev = 0 }; };
template <> struct Has<line> { enum { intscale = 1, eq = 1, neg = 1, rev = 1 }; };
template <> struct Has<rotor> { enum { intscale = 1, eq = 1, neg = 1, rev = 1 }; };
template <> struct Has<motor> { enum { intscale = 1, eq = 1, neg = 1, rev = 1 }; };
template <> struct Has<translator> { enum { intscale = 1, eq = 0, neg = 0, rev = 0 }; };
template <> struct Has<kln::dual> { enum { intscale = 0, eq = 0, neg = 0, rev = 0 }; };

// which components unary minus flips (documented: the distance of a plane and the
// homogeneous coordinate of a point stay), and which reversion flips
template <class T> int neg_sign(int) { return -1; }
template <> int neg_sign<plane>(int i) { return i == 3 ? 1 : -1; }
template <> int neg_sign<point>(int i) { return i == 3 ? 1 : -1; }
template <class T> int rev_sign(int i)
{
    int g = ref::pc(EV<T>::comps()[i].blade);
    return (g & 2) ? -1 : 1;
}

template <class T> void cmp(Ctx& c, std::string const& k, T const& got, const double* want, const double* mag, double ulps)
{
    float f[8];
    EV<T>::get(got, f);
    for (int i = 0; i != EV<T>::N; ++i) c.near(k.c_str(), EV<T>::comps()[i].name, f[i], want[i], mag[i], ulps);
}
template <class T> void same(Ctx& c, std::string const& k, T const& x, const float* f)
{
    float g[8];
    EV<T>::get(x, g);
    for (int i = 0; i != EV<T>::N; ++i)
    {
        ++c.checks;
        if (!beq(g[i], f[i])) c.fail(k, "%s: component %s changed from %.9g to %.9g", k.c_str(), EV<T>::comps()[i].name, f[i], g[i]);
    }
}

template <class T, bool I> struct IntScale { static void run(Ctx&, std::string const&, const float*, int) {} };
template <class T> struct IntScale<T, true>
{
    static void run(Ctx& c, std::string const& nm, const float* f, int s)
    {
        double w[8], m[8];
        const int n = EV<T>::N;
        T const a = mk<T>(f);
        for (int i = 0; i != n; ++i) { w[i] = (double)f[i] * (double)(float)s; m[i] = std::fabs(w[i]); }
        cmp(c, nm + " * int", a * s, w, m, 1);
        cmp(c, "int * " + nm, s * a, w, m, 1);
        T x = a;
        T& ref = (x *= s);
        cmp(c, nm + " *= int", x, w, m, 1);
        c.expect(&ref == &x, "compound", "*= returns its left operand");
        c.trans += 3;
        if (s != 0)
        {
            for (int i = 0; i != n; ++i) { w[i] = (double)f[i] / (double)(float)s; m[i] = std::fabs(w[i]); }
            cmp(c, nm + " / int", a / s, w, m, 6);
            T y = a;
            y /= s;
            cmp(c, nm + " /= int", y, w, m, 6);
            c.trans += 2;
        }
        same(c, nm + " operand of int scaling", a, f);
    }
};
template <class T, bool E> struct Eq { static void run(Ctx&, std::string const&, const float*, const float*) {} };
template <class T> struct Eq<T, true>
{
    static void run(Ctx& c, std::string const& nm, const float* f, const float* g)
    {
        T const a = mk<T>(f), b = mk<T>(g);
        bool e = true;
        double worst = 0;
        for (int i = 0; i != EV<T>::N; ++i)
        {
            e &= f[i] == g[i];
            float d = f[i] - g[i];
            worst = std::max(worst, (double)std::fabs(d));
        }
        ++c.checks;
        if ((a == b) != e) c.fail(nm + " ==", "%s == gives %d although the components are %s", nm.c_str(), !e, e ? "all equal" : "not all equal");
        for (float eps : {1e-6f, 0.5f, 1.f, 2.f, 3.f, 1000.f, 1e-3f, 0.f, -1.f, 1.5f, 1e-9f, 1e-20f, 30.f, 2e4f, 3.25e7f, 1e15f})
        {
            ++c.checks;
            if (a.approx_eq(b, eps) != (worst < (double)eps)) c.fail(nm + " approx_eq", "%s approx_eq with epsilon %g gives %d, largest difference is %.9g", nm.c_str(), eps, a.approx_eq(b, eps), worst);
        }
        c.trans += 8;
    }
};
template <class T, bool N_> struct Neg { static void run(Ctx&, std::string const&, const float*) {} };
template <class T> struct Neg<T, true>
{
    static void run(Ctx& c, std::string const& nm, const float* f)
    {
        T const a = mk<T>(f);
        double w[8], m[8];
        for (int i = 0; i != EV<T>::N; ++i) { w[i] = neg_sign<T>(i) * (double)f[i]; m[i] = 0; }
        cmp(c, "-" + nm, -a, w, m, 1);
        same(c, nm + " operand of unary minus", a, f);
        ++c.trans;
    }
};
template <class T, bool R> struct Rev { static void run(Ctx&, std::string const&, const float*) {} };
template <class T> struct Rev<T, true>
{
    static void run(Ctx& c, std::string const& nm, const float* f)
    {
        T const a = mk<T>(f);
        double w[8], m[8];
        for (int i = 0; i != EV<T>::N; ++i) { w[i] = rev_sign<T>(i) * (double)f[i]; m[i] = 0; }
        cmp(c, "~" + nm, ~a, w, m, 1);
        cmp(c, "~~" + nm, ~~a, [&] { for (int i = 0; i != EV<T>::N; ++i) w[i] = f[i]; return w; }(), m, 1);
        same(c, nm + " operand of reversion", a, f);
        ++c.trans;
    }
};

template <class T> void pairop(Ctx& c, const float* f, const float* g)
{
    std::string nm = EV<T>::nm();
    const int n = EV<T>::N;
    T const a = mk<T>(f), b = mk<T>(g);
    double s[8], d[8], m[8];
    for (int i = 0; i != n; ++i)
    {
        s[i] = (double)f[i] + g[i];
        d[i] = (double)f[i] - g[i];
        m[i] = std::fabs(f[i]) + std::fabs(g[i]);
    }
    cmp(c, nm + " +", a + b, s, m, 1);
    cmp(c, nm + " -", a - b, d, m, 1);
    T x = a, y = b;
    T& rx = (x += y);
    cmp(c, nm + " +=", x, s, m, 1);
    same(c, nm + " right operand of +=", y, g);
    x = a;
    T& ry = (x -= y);
    cmp(c, nm + " -=", x, d, m, 1);
    same(c, nm + " right operand of -=", y, g);
    c.expect(&rx == &x && &ry == &x, "compound", "+= and -= return their left operand");
    same(c, nm + " left operand of +", a, f);
    same(c, nm + " right operand of +", b, g);
    Eq<T, Has<T>::eq>::run(c, nm, f, g);
    c.trans += 4;
}
template <class T> void selfop(Ctx& c, const float* f)
{
    std::string nm = EV<T>::nm();
    const int n = EV<T>::N;
    double s[8], z[8], m[8];
    for (int i = 0; i != n; ++i) { s[i] = 2 * (double)f[i]; z[i] = 0; m[i] = 0; }
    T x = mk<T>(f);
    x += x;
    cmp(c, nm + " += itself", x, s, m, 1);
    x = mk<T>(f);
    x -= x;
    cmp(c, nm + " -= itself", x, z, m, 1);
    x = mk<T>(f);
    cmp(c, nm + " + itself", x + x, s, m, 1);
    cmp(c, nm + " - itself", x - x, z, m, 1);
    Neg<T, Has<T>::neg>::run(c, nm, f);
    Rev<T, Has<T>::rev>::run(c, nm, f);
    Eq<T, Has<T>::eq>::run(c, nm, f, f);
    c.trans += 4;
}
template <class T> void scaleop(Ctx& c, const float* f, float s)
{
    std::string nm = EV<T>::nm();
    const int n = EV<T>::N;
    double w[8], m[8];
    T const a = mk<T>(f);
    for (int i = 0; i != n; ++i) { w[i] = (double)f[i] * s; m[i] = std::fabs(w[i]); }
    cmp(c, nm + " * float", a * s, w, m, 1);
    cmp(c, "float * " + nm, s * a, w, m, 1);
    T x = a;
    T& rx = (x *= s);
    cmp(c, nm + " *= float", x, w, m, 1);
    c.expect(&rx == &x, "compound", "*= returns its left operand");
    c.trans += 3;
    if (s != 0)
    {
        for (int i = 0; i != n; ++i) { w[i] = (double)f[i] / s; m[i] = std::fabs(w[i]); }
        cmp(c, nm + " / float", a / s, w, m, 6);
        T y = a;
        T& ry = (y /= s);
        cmp(c, nm + " /= float", y, w, m, 6);
        c.expect(&ry == &y, "compound", "/= returns its left operand");
        c.trans += 2;
    }
    same(c, nm + " operand of scaling", a, f);
}
static const float SCAL[] = {0.f, 1.f, -1.f, 2.f, 0.5f, -3.f, 0.1f, 1e-6f, 1e6f, 7.f, 1e-12f, -1e12f, 0.33333334f,
                             -0.01f, 1e-3f, -1e-4f, 1e-5f, -1e-7f, 1e-8f, -1e-9f, 1e-10f, 100.f, -1e3f, 1e4f, -1e5f, 1e7f, -1e8f, 1e9f, -1e10f, 4.f, -0.25f, 0.9999999f, 1.0000001f, -2.f, 10.f, 65536.f, -1048576.f, 16777216.f, 33554432.f};
static const std::vector<int>& iscal()
{
    // every integer scale, around powers of two and of ten, with both signs
    static std::vector<int> v = [] {
        std::set<long long> s;
        for (long long k = -12; k <= 12; ++k) s.insert(k);
        for (int e = 4; e <= 31; ++e) for (int o : {-1, 0, 1}) for (int g : {1, -1}) s.insert(g * ((1LL << e) + o));
        for (long long t = 100; t <= 1000000000; t *= 10) for (int m : {1, 2, 3, 7}) for (int g : {1, -1}) s.insert(g * m * t);
        std::vector<int> w;
        for (long long x : s) if (x >= INT_MIN && x <= INT_MAX) w.push_back((int)x);
        return w;
    }();
    return v;
}

template <class T> void linear()
{
    const int n = EV<T>::N;
    std::string nm = EV<T>::nm();
    {
        DevSpace d(2 * n, A.lite ? 1 : A.thorough() ? 3 : 2, WIDE, NW);
        out.push_back(Space{nm + " pairs, deviations", d.size(), [=](u64 i, Ctx& c) { float f[16]; d.get(i, f); pairop<T>(c, f, f + n); }, [=](u64 i) { float f[16]; d.get(i, f); return fmtv("a", f, n) + fmtv(" b", f + n, n); }});
    }
    if (2 * n <= 12)
    {
        Lat l(2 * n, L3, 3);
        out.push_back(Space{nm + " pairs, lattice", l.size(), [=](u64 i, Ctx& c) { float f[16]; l.get(i, f); pairop<T>(c, f, f + n); }, [=](u64 i) { float f[16]; l.get(i, f); return fmtv("a", f, n) + fmtv(" b", f + n, n); }});
    }
    // pairs that differ in exactly one component, or none (equality)
    {
        DevSpace d(n, 1, WIDE, NW);
        out.push_back(Space{nm + " near equal pairs", d.size() * n * 6,
                            [=](u64 i, Ctx& c) {
                                float f[16];
                                d.get(i / (n * 6), f);
                                std::copy(f, f + n, f + n);
                                static const float del[] = {0.f, 0.5f, 1.f, -2.f, 1e-7f, -0.f};
                                f[n + i % n] += del[i / n % 6];
                                pairop<T>(c, f, f + n);
                            },
                            [=](u64 i) { float f[16]; d.get(i / (n * 6), f); return fmtv("a", f, n) + " component " + std::to_string(i % n) + " moved by delta #" + std::to_string(i / n % 6); }});
    }
    {
        DevSpace d(n, A.lite ? 1 : A.thorough() ? 3 : 2, WIDE, NW);
        out.push_back(Space{nm + " with itself, negation, reversion", d.size(), [=](u64 i, Ctx& c) { float f[8]; d.get(i, f); selfop<T>(c, f); }, [=](u64 i) { float f[8]; d.get(i, f); return fmtv("a", f, n); }});
        const u64 ns = sizeof SCAL / sizeof *SCAL, ni = iscal().size();
        out.push_back(Space{nm + " scaling by float", d.size() * ns, [=](u64 i, Ctx& c) { float f[8]; d.get(i / ns, f); scaleop<T>(c, f, SCAL[i % ns]); }, [=](u64 i) { float f[8]; d.get(i / ns, f); return fmtv("a", f, n) + fmtv(" s", SCAL + i % ns, 1); }});
        out.push_back(Space{nm + " scaling by int", d.size() * ni, [=](u64 i, Ctx& c) { float f[8]; d.get(i / ni, f); IntScale<T, Has<T>::intscale>::run(c, nm, f, iscal()[i % ni]); }, [=](u64 i) { float f[8]; d.get(i / ni, f); return fmtv("a", f, n) + " s " + std::to_string(iscal()[i % ni]); }});
    }
    // chains of compound operators equal the same chain of binary ones
    {
        static const int DEPTH = 4;
        u64 seqs = ipow(6, DEPTH);
        auto pr = probes(n, false);
        out.push_back(Space{nm + " operator chains", seqs * pr.size(),
                            [=](u64 i, Ctx& c) {
                                Dig g(i);
                                const float* f = pr[g(pr.size())].data();
                                float h[8];
                                for (int k = 0; k != n; ++k) h[k] = baseval(4, k + 3);
                                T const b = mk<T>(h);
                                T x = mk<T>(f);
                                double w[8], m[8];
                                for (int k = 0; k != n; ++k) { w[k] = f[k]; m[k] = std::fabs(w[k]); }
                                for (int s = 0; s != DEPTH; ++s)
                                {
                                    int o = (int)g(6);
                                    switch (o)
                                    {
                                    case 0: x += b; break;
                                    case 1: x -= b; break;
                                    case 2: x *= 3.f; break;
                                    case 3: x /= -2.f; break;
                                    case 4: x += x; break;
                                    default: x -= 0.25f * x; break;
                                    }
                                    for (int k = 0; k != n; ++k)
                                    {
                                        switch (o)
                                        {
                                        case 0: w[k] += h[k]; m[k] += std::fabs(h[k]); break;
                                        case 1: w[k] -= h[k]; m[k] += std::fabs(h[k]); break;
                                        case 2: w[k] *= 3; m[k] *= 3; break;
                                        case 3: w[k] /= -2; m[k] /= 2; break;
                                        case 4: w[k] *= 2; m[k] *= 2; break;
                                        default: w[k] *= 0.75; m[k] *= 1.25; break;
                                        }
                                    }
                                    ++c.trans;
                                }
                                cmp(c, nm + " operator chain", x, w, m, 24);
                                same(c, nm + " right operand of a chain", b, h);
                            },
                            [=](u64 i) { Dig g(i); auto& f = pr[g(pr.size())]; std::string s = fmtv("a", f.data(), n) + " ops"; for (int k = 0; k != DEPTH; ++k) s += " " + std::to_string(g(6)); return s; }});
    }
}

// Comparison must not look at lanes that hold no component: an element returned by any
// operation equals the element with the same components built afresh.
template <class T> void fresh(Ctx& c, const char* how, T const& x)
{
    float f[8];
    EV<T>::get(x, f);
    for (int i = 0; i != EV<T>::N; ++i) if (!std::isfinite(f[i])) return;
    T const y = mk<T>(f);
    ++c.checks;
    ++c.trans;
    if (!(x == y) || !(y == x) || !x.approx_eq(y, 1e-6f)) c.fail(std::string("equality of a produced ") + EV<T>::nm(), "%s from %s differs from the %s with the same components", EV<T>::nm(), how, EV<T>::nm());
}
static void produced()
{
    DevSpace d(16, A.lite ? 1 : 2, WIDES, NWS);
    out.push_back(Space{"equality of produced elements", d.size(),
                        [=](u64 i, Ctx& c) {
                            float f[16];
                            d.get(i, f);
                            plane p = mk<plane>(f), q = mk<plane>(f + 4);
                            point P = mk<point>(f + 8), Q = mk<point>(f + 12);
                            line l = mk<line>(f + 1), k = mk<line>(f + 8);
                            branch b = mk<branch>(f + 3);
                            ideal_line il = mk<ideal_line>(f + 6);
                            rotor r = mk<rotor>(f + 2);
                            motor m = mk<motor>(f + 5);
                            fresh<line>(c, "plane ^ plane", p ^ q);
                            fresh<line>(c, "point & point", P & Q);
                            fresh<line>(c, "plane | point", p | P);
                            fresh<line>(c, "point | plane", P | p);
                            fresh<line>(c, "project(line, plane)", project(l, p));
                            fresh<line>(c, "project(line, point)", project(l, P));
                            fresh<line>(c, "!line", !l);
                            fresh<line>(c, "-line", -l);
                            fresh<line>(c, "~line", ~l);
                            fresh<line>(c, "line + line", l + k);
                            fresh<line>(c, "line - line", l - k);
                            fresh<line>(c, "line * float", l * f[0]);
                            fresh<line>(c, "line(branch)", line(b));
                            fresh<line>(c, "line(-branch)", line(-b));
                            fresh<line>(c, "line(ideal_line)", line(il));
                            fresh<line>(c, "plane(line)", p(l));
                            fresh<line>(c, "rotor(line)", r(l));
                            fresh<line>(c, "motor(line)", m(l));
                            fresh<line>(c, "translator(line)", mk<translator>(f)(l));
                            fresh<plane>(c, "line | plane", l | p);
                            fresh<plane>(c, "point & line", P & l);
                            fresh<plane>(c, "line & point", l & P);
                            fresh<plane>(c, "!point", !P);
                            fresh<plane>(c, "motor(plane)", m(p));
                            fresh<plane>(c, "plane(plane)", q(p));
                            fresh<plane>(c, "project(plane, point)", project(p, P));
                            fresh<rotor>(c, "branch * branch", b * mk<branch>(f + 10));
                            fresh<rotor>(c, "rotor * rotor", r * mk<rotor>(f + 11));
                            fresh<motor>(c, "line * line", l * k);
                            fresh<motor>(c, "plane * plane", p * q);
                            fresh<motor>(c, "motor * rotor", m * r);
                            fresh<motor>(c, "motor(rotor)", motor(r));
                            fresh<motor>(c, "translator * rotor", mk<translator>(f) * r);
                        },
                        [=](u64 i) { float f[16]; d.get(i, f); return fmtv("values", f, 16); }});
    DevSpace d8(8, A.lite ? 1 : 3, WIDES, NWS);
    out.push_back(Space{"equality of normalized and inverted elements", d8.size(),
                        [=](u64 i, Ctx& c) {
                            float f[8];
                            d8.get(i, f);
                            line l = mk<line>(f);
                            motor m = mk<motor>(f);
                            rotor r = mk<rotor>(f);
                            plane p = mk<plane>(f);
                            double s = (double)f[3] * f[3] + (double)f[4] * f[4] + (double)f[5] * f[5];
                            if (s > 1e-10) { fresh<line>(c, "normalized line", l.normalized()); fresh<line>(c, "inverse line", l.inverse()); fresh<motor>(c, "exp(line)", exp(l)); }
                            s = (double)f[0] * f[0] + (double)f[1] * f[1] + (double)f[2] * f[2];
                            if (s > 1e-10)
                            {
                                fresh<motor>(c, "normalized motor", m.normalized());
                                fresh<line>(c, "log(motor)", log(m.normalized()));
                                fresh<motor>(c, "inverse motor", m.inverse());
                                fresh<rotor>(c, "normalized rotor", r.normalized());
                                fresh<rotor>(c, "inverse rotor", r.inverse());
                                fresh<plane>(c, "normalized plane", p.normalized());
                                fresh<plane>(c, "inverse plane", p.inverse());
                            }
                            // the logarithm of any element without rotation
                            fresh<line>(c, "log(translation)", log(motor(1, 0, 0, 0, f[0], f[1], f[2], 0)));
                        },
                        [=](u64 i) { float f[8]; d8.get(i, f); return fmtv("values", f, 8); }});
}

static void c17()
{
    linear<plane>();
    linear<point>();
    linear<direction>();
    linear<line>();
    linear<ideal_line>();
    linear<branch>();
    linear<rotor>();
    linear<translator>();
    linear<motor>();
    linear<kln::dual>();
    produced();
}

#ifndef GRP
#    define GRP 16
#endif
int main(int argc, char** argv)
{
    return run_main(argc, argv, [](Args const& a) {
        A = a;
#if GRP == 16
        c16();
#else
        c17();
#endif
        return out;
    });
}
