// Binding between Klein entities and the reference model. Entities are built and read
// through the public API only.
#pragma once
#include "mc.hpp"
#include "ref.hpp"
#include <type_traits>
#include <klein/klein.hpp>

using namespace kln;
using ref::MV;

// canonical blade indices (bits: e0=1,e1=2,e2=4,e3=8) and sign of each named component
struct Comp { const char* name; int blade; int sign; };

template <class T> struct EV;
#define COMPS(...) \
    static const Comp* comps() { static const Comp c[] = {__VA_ARGS__}; return c; }

inline MV mvof(const Comp* c, int n, const float* f)
{
    MV o;
    for (int i = 0; i != n; ++i) o.set(c[i].blade, c[i].sign * (double)f[i]);
    return o;
}

template <> struct EV<plane>
{
    enum { N = 4 };
    static const char* nm() { return "plane"; }
    COMPS({"e1", 2, 1}, {"e2", 4, 1}, {"e3", 8, 1}, {"e0", 1, 1})
    static plane make(const float* f) { return plane(f[0], f[1], f[2], f[3]); }
    static void get(plane const& p, float* o) { o[0] = p.x(); o[1] = p.y(); o[2] = p.z(); o[3] = p.d(); }
};
template <> struct EV<point>
{
    enum { N = 4 };
    static const char* nm() { return "point"; }
    COMPS({"e032", 13, -1}, {"e013", 11, 1}, {"e021", 7, -1}, {"e123", 14, 1})
    static point make(const float* f) { float b[4] = {f[3], f[0], f[1], f[2]}; point p; p.load(b); return p; }
    static void get(point const& p, float* o) { o[0] = p.x(); o[1] = p.y(); o[2] = p.z(); o[3] = p.w(); }
};
template <> struct EV<direction>
{
    enum { N = 3 };
    static const char* nm() { return "direction"; }
    COMPS({"e032", 13, -1}, {"e013", 11, 1}, {"e021", 7, -1})
    static direction make(const float* f) { float b[4] = {0.f, f[0], f[1], f[2]}; return direction(b); }
    static void get(direction const& p, float* o) { o[0] = p.x(); o[1] = p.y(); o[2] = p.z(); }
};
template <> struct EV<line>
{
    enum { N = 6 };
    static const char* nm() { return "line"; }
    COMPS({"e01", 3, 1}, {"e02", 5, 1}, {"e03", 9, 1}, {"e23", 12, 1}, {"e31", 10, -1}, {"e12", 6, 1})
    static line make(const float* f) { return line(f[0], f[1], f[2], f[3], f[4], f[5]); }
    static void get(line const& l, float* o) { o[0] = l.e01(); o[1] = l.e02(); o[2] = l.e03(); o[3] = l.e23(); o[4] = l.e31(); o[5] = l.e12(); }
};
template <> struct EV<ideal_line>
{
    enum { N = 3 };
    static const char* nm() { return "ideal_line"; }
    COMPS({"e01", 3, 1}, {"e02", 5, 1}, {"e03", 9, 1})
    static ideal_line make(const float* f) { return ideal_line(f[0], f[1], f[2]); }
    static void get(ideal_line const& l, float* o) { o[0] = l.e01(); o[1] = l.e02(); o[2] = l.e03(); }
};
template <> struct EV<branch>
{
    enum { N = 3 };
    static const char* nm() { return "branch"; }
    COMPS({"e23", 12, 1}, {"e31", 10, -1}, {"e12", 6, 1})
    static branch make(const float* f) { return branch(f[0], f[1], f[2]); }
    static void get(branch const& l, float* o) { o[0] = l.e23(); o[1] = l.e31(); o[2] = l.e12(); }
};
template <> struct EV<rotor>
{
    enum { N = 4 };
    static const char* nm() { return "rotor"; }
    COMPS({"scalar", 0, 1}, {"e23", 12, 1}, {"e31", 10, -1}, {"e12", 6, 1})
    static rotor make(const float* f) { float b[4] = {f[0], f[1], f[2], f[3]}; rotor r; r.load_normalized(b); return r; }
    static void get(rotor const& r, float* o) { o[0] = r.scalar(); o[1] = r.e23(); o[2] = r.e31(); o[3] = r.e12(); }
};
template <> struct EV<translator>
{
    enum { N = 3 };
    static const char* nm() { return "translator"; }
    COMPS({"e01", 3, 1}, {"e02", 5, 1}, {"e03", 9, 1})
    static translator make(const float* f) { float b[4] = {0.f, f[0], f[1], f[2]}; translator t; t.load_normalized(b); return t; }
    static void get(translator const& t, float* o) { o[0] = t.e01(); o[1] = t.e02(); o[2] = t.e03(); }
};
template <> struct EV<motor>
{
    enum { N = 8 };
    static const char* nm() { return "motor"; }
    COMPS({"scalar", 0, 1}, {"e23", 12, 1}, {"e31", 10, -1}, {"e12", 6, 1}, {"e01", 3, 1}, {"e02", 5, 1}, {"e03", 9, 1}, {"e0123", 15, 1})
    static motor make(const float* f) { return motor(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]); }
    static void get(motor const& m, float* o)
    {
        o[0] = m.scalar(); o[1] = m.e23(); o[2] = m.e31(); o[3] = m.e12();
        o[4] = m.e01(); o[5] = m.e02(); o[6] = m.e03(); o[7] = m.e0123();
    }
};
template <> struct EV<kln::dual>
{
    enum { N = 2 };
    static const char* nm() { return "dual"; }
    COMPS({"scalar", 0, 1}, {"e0123", 15, 1})
    static kln::dual make(const float* f) { return kln::dual{f[0], f[1]}; }
    static void get(kln::dual const& d, float* o) { o[0] = d.scalar(); o[1] = d.e0123(); }
};
template <> struct EV<float>
{
    enum { N = 1 };
    static const char* nm() { return "scalar"; }
    COMPS({"scalar", 0, 1})
    static float make(const float* f) { return f[0]; }
    static void get(float const& d, float* o) { o[0] = d; }
};
template <> struct EV<origin>
{
    enum { N = 0 };
    static const char* nm() { return "origin"; }
    static const Comp* comps() { return nullptr; }
    static origin make(const float*) { return origin(); }
    static void get(origin const&, float*) {}
};

// embedding of entity coefficients in the algebra
template <class T> struct Emb
{
    static MV mv(const float* f) { return mvof(EV<T>::comps(), EV<T>::N, f); }
};
template <> struct Emb<translator>
{
    static MV mv(const float* f) { MV o = mvof(EV<translator>::comps(), 3, f); o.set(0, 1); return o; }
};
template <> struct Emb<origin>
{
    static MV mv(const float*) { MV o; o.set(14, 1); return o; }
};

// the element with given components: built afresh, unless an element that another operation
// returned has been put in the place of these very coefficients
template <class T> struct Stead
{
    static const float*& at(int k) { static const float* p[2]; return p[k]; }
    static const T*& el(int k) { static const T* p[2]; return p[k]; }
    int k;
    Stead(int k_, const float* f, T const* x) : k(k_) { at(k) = f; el(k) = x; }
    ~Stead() { at(k) = nullptr; }
};
template <class T> inline T mk(const float* f)
{
    if (f == Stead<T>::at(0) && f) return *Stead<T>::el(0);
    if (f == Stead<T>::at(1) && f) return *Stead<T>::el(1);
    return EV<T>::make(f);
}

template <class T> inline std::string show(T const& x)
{
    float f[8];
    EV<T>::get(x, f);
    return mc::fmtv(EV<T>::nm(), f, EV<T>::N);
}
template <class T> inline MV mv(T const& x)
{
    float f[8];
    EV<T>::get(x, f);
    return Emb<T>::mv(f);
}
// compare an entity with a reference multivector on the components of its type; when
// whole is set, the reference must have nothing outside those components
template <class T> inline bool agree(mc::Ctx& c, const char* key, T const& got, MV const& want, double k = 48, double magscale = 1)
{
    float f[8];
    EV<T>::get(got, f);
    bool ok = true;
    for (int i = 0; i != EV<T>::N; ++i)
    {
        Comp const& q = EV<T>::comps()[i];
        ok &= c.near(key, q.name, f[i], q.sign * want.v[q.blade], want.m[q.blade] * magscale, k);
    }
    return ok;
}
// value alphabets --------------------------------------------------------------------------
// lattice values
static const float L3[] = {0.f, 1.f, -1.f};
static const float L5[] = {0.f, 1.f, -1.f, 2.f, -3.f};
// wide alphabet for deviations
static const float WIDE[] = {0.f, -0.f, 1.f, -1.f, 2.f, -2.f, 3.f, -3.f, 0.5f, -0.5f, 0.33333334f, -0.7f, 7.f, -10.f, 0.1f, 100.25f, -1000.f, 1e-3f, -1e-3f,
                             12345.678f, -65536.f, 1e6f, -1e6f, 1e-6f, -1e-6f, 1.0000001f, 4097.f, 1e-10f, 3.1415927f, -255.f};
enum { NW = sizeof(WIDE) / sizeof(WIDE[0]) };
static const float WIDES[] = {0.f, 1.f, -1.f, 3.f, -0.5f, 0.33333334f, 10.f, -1000.f, 1e-3f, 12345.678f, -1e6f, 1e-6f, 70000.f, -0.02f};
enum { NWS = sizeof(WIDES) / sizeof(WIDES[0]) };
// base vectors around which coordinates deviate
static const int NBASE = 6;
inline float baseval(int b, int i)
{
    static const float prim[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61};
    static const float frac[] = {0.37f, -1.21f, 2.83f, 0.59f, -0.11f, 1.73f, -3.07f, 0.91f, 1.13f, -0.47f, 0.23f, -2.19f, 0.67f, 3.31f, -1.39f, 0.83f, 0.29f, -0.71f};
    switch (b)
    {
    case 0: return 0.f;
    case 1: return 1.f;
    case 2: return prim[i % 18];
    case 3: return (i & 1) ? -prim[i % 18] : prim[(i * 5 + 3) % 18];
    case 4: return frac[i % 18];
    default: return 100.f * frac[(i * 7 + 2) % 18];
    }
}
// all vectors of length n that differ from a base in at most k given coordinates
struct DevSpace
{
    int n, k, nw;
    const float* w;
    std::vector<std::vector<int>> pos; // all k-subsets
    DevSpace(int n_, int k_, const float* w_, int nw_) : n(n_), k(k_ < n_ ? k_ : n_), nw(nw_), w(w_)
    {
        std::vector<int> s(k);
        gen(0, 0, s);
    }
    void gen(int d, int from, std::vector<int>& s)
    {
        if (d == k) { pos.push_back(s); return; }
        for (int i = from; i < n; ++i) { s[d] = i; gen(d + 1, i + 1, s); }
    }
    mc::u64 size() const { return NBASE * pos.size() * mc::ipow(nw, k); }
    void get(mc::u64 i, float* f) const
    {
        mc::Dig d(i);
        int b = (int)d(NBASE);
        for (int j = 0; j != n; ++j) f[j] = baseval(b, j);
        std::vector<int> const& p = pos[d(pos.size())];
        for (int j = 0; j != k; ++j) f[p[j]] = w[d(nw)];
    }
};
// full lattice
struct Lat
{
    int n, nv;
    const float* v;
    Lat(int n_, const float* v_, int nv_) : n(n_), nv(nv_), v(v_) {}
    mc::u64 size() const { return mc::ipow(nv, n); }
    void get(mc::u64 i, float* f) const
    {
        mc::Dig d(i);
        for (int j = 0; j != n; ++j) f[j] = v[d(nv)];
    }
};
