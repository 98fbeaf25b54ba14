// One build of the table of public operations. CFG names it; -Dkln=<unique> keeps its inline
// functions apart from those of other builds in the same program.
#include "opt.hpp"
#include <klein/klein.hpp>
#include <cstring>
#include <vector>

using namespace kln;

namespace
{
// reading operands
template <class T> struct Rd;
template <> struct Rd<plane> { enum { N = 4 }; static plane get(const float* f) { return plane(f[0], f[1], f[2], f[3]); } };
template <> struct Rd<point> { enum { N = 4 }; static point get(const float* f) { return point(_mm_set_ps(f[2], f[1], f[0], f[3])); } };
template <> struct Rd<direction> { enum { N = 3 }; static direction get(const float* f) { return direction(_mm_set_ps(f[2], f[1], f[0], 0.f)); } };
template <> struct Rd<line> { enum { N = 6 }; static line get(const float* f) { return line(f[0], f[1], f[2], f[3], f[4], f[5]); } };
template <> struct Rd<ideal_line> { enum { N = 3 }; static ideal_line get(const float* f) { return ideal_line(f[0], f[1], f[2]); } };
template <> struct Rd<branch> { enum { N = 3 }; static branch get(const float* f) { return branch(f[0], f[1], f[2]); } };
template <> struct Rd<rotor> { enum { N = 4 }; static rotor get(const float* f) { return rotor(_mm_set_ps(f[3], f[2], f[1], f[0])); } };
template <> struct Rd<translator> { enum { N = 3 }; static translator get(const float* f) { float b[4] = {0.f, f[0], f[1], f[2]}; translator t; t.load_normalized(b); return t; } };
template <> struct Rd<motor> { enum { N = 8 }; static motor get(const float* f) { return motor(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]); } };
template <> struct Rd<kln::dual> { enum { N = 2 }; static kln::dual get(const float* f) { return kln::dual{f[0], f[1]}; } };
template <> struct Rd<float> { enum { N = 1 }; static float get(const float* f) { return f[0]; } };
template <> struct Rd<int> { enum { N = 1 }; static int get(const float* f) { return (int)f[0]; } };
template <> struct Rd<euler_angles> { enum { N = 3 }; static euler_angles get(const float* f) { euler_angles e; e.roll = f[0]; e.pitch = f[1]; e.yaw = f[2]; return e; } };
struct vec3f { float x, y, z; };
template <> struct Rd<vec3f> { enum { N = 3 }; static vec3f get(const float* f) { vec3f v = {f[0], f[1], f[2]}; return v; } };
// writing results
inline int put(plane const& p, float* o) { o[0] = p.x(); o[1] = p.y(); o[2] = p.z(); o[3] = p.d(); return 4; }
inline int put(point const& p, float* o) { o[0] = p.x(); o[1] = p.y(); o[2] = p.z(); o[3] = p.w(); return 4; }
inline int put(direction const& p, float* o) { o[0] = p.x(); o[1] = p.y(); o[2] = p.z(); return 3; }
inline int put(line const& l, float* o) { o[0] = l.e01(); o[1] = l.e02(); o[2] = l.e03(); o[3] = l.e23(); o[4] = l.e31(); o[5] = l.e12(); return 6; }
inline int put(ideal_line const& l, float* o) { o[0] = l.e01(); o[1] = l.e02(); o[2] = l.e03(); return 3; }
inline int put(branch const& l, float* o) { o[0] = l.e23(); o[1] = l.e31(); o[2] = l.e12(); return 3; }
inline int put(rotor const& r, float* o) { o[0] = r.scalar(); o[1] = r.e23(); o[2] = r.e31(); o[3] = r.e12(); return 4; }
inline int put(translator const& t, float* o) { o[0] = t.e01(); o[1] = t.e02(); o[2] = t.e03(); return 3; }
inline int put(motor const& m, float* o)
{
    o[0] = m.scalar(); o[1] = m.e23(); o[2] = m.e31(); o[3] = m.e12();
    o[4] = m.e01(); o[5] = m.e02(); o[6] = m.e03(); o[7] = m.e0123();
    return 8;
}
inline int put(kln::dual const& d, float* o) { o[0] = d.scalar(); o[1] = d.e0123(); return 2; }
inline int put(float d, float* o) { o[0] = d; return 1; }
inline int put(bool d, float* o) { o[0] = d ? 1.f : 0.f; return 1; }
inline int put(euler_angles const& e, float* o) { o[0] = e.roll; o[1] = e.pitch; o[2] = e.yaw; return 3; }
struct F16 { float f[16]; };
inline int put(F16 const& x, float* o) { std::memcpy(o, x.f, 64); return 16; }
struct F8 { float f[8]; };
inline int put(F8 const& x, float* o) { std::memcpy(o, x.f, 32); return 8; }
struct F4 { float f[4]; };
inline int put(F4 const& x, float* o) { std::memcpy(o, x.f, 16); return 4; }
inline F16 mat(mat4x4 const& m) { F16 r; std::memcpy(r.f, m.data, 64); return r; }
inline F16 mat(mat3x4 const& m) { F16 r; std::memcpy(r.f, m.data, 64); r.f[3] = r.f[7] = r.f[11] = 0; r.f[15] = 1; return r; }
inline F4 lanes(__m128 v) { F4 r; _mm_storeu_ps(r.f, v); return r; }
inline int outn(plane const*) { return 4; }
inline int outn(point const*) { return 4; }
inline int outn(direction const*) { return 3; }
inline int outn(line const*) { return 6; }
inline int outn(ideal_line const*) { return 3; }
inline int outn(branch const*) { return 3; }
inline int outn(rotor const*) { return 4; }
inline int outn(translator const*) { return 3; }
inline int outn(motor const*) { return 8; }
inline int outn(kln::dual const*) { return 2; }
inline int outn(float const*) { return 1; }
inline int outn(bool const*) { return 1; }
inline int outn(euler_angles const*) { return 3; }
inline int outn(F16 const*) { return 16; }
inline int outn(F8 const*) { return 8; }
inline int outn(F4 const*) { return 4; }

std::vector<OpDesc>& table()
{
    static std::vector<OpDesc> t;
    return t;
}
template <class T> struct Plain { typedef T type; };
template <class T> struct Plain<T&> { typedef T type; };
// did a call change an operand that it must leave alone?
template <class T> struct Seen
{
#ifdef OPT_OPERANDS
    unsigned char b[sizeof(T)];
    explicit Seen(T const& t) { std::memcpy(b, &t, sizeof b); }
    int changed(T const& t, bool byref) const { return byref && std::memcmp(b, &t, sizeof b) ? 1 : 0; }
#else
    explicit Seen(T const&) {}
    int changed(T const&, bool) const { return 0; }
#endif
};
template <class T> struct IsRef { enum { v = 0 }; };
template <class T> struct IsRef<T&> { enum { v = 1 }; };
template <class L, class R, class A_> struct Un
{
    typedef typename Plain<A_>::type A;
    enum { N = Rd<A>::N };
    static L*& l() { static L* p; return p; }
    static int run(const float* in, float* out)
    {
        A a = Rd<A>::get(in);
        Seen<A> sa(a);
        put((*l())(a), out);
        return sa.changed(a, IsRef<A_>::v);
    }
};
template <class L, class R, class A_, class B_> struct Bi
{
    typedef typename Plain<A_>::type A;
    typedef typename Plain<B_>::type B;
    enum { N = Rd<A>::N + Rd<B>::N };
    static L*& l() { static L* p; return p; }
    static int run(const float* in, float* out)
    {
        A a = Rd<A>::get(in);
        B b = Rd<B>::get(in + Rd<A>::N);
        Seen<A> sa(a);
        Seen<B> sb(b);
        put((*l())(a, b), out);
        return sa.changed(a, IsRef<A_>::v) + 2 * sb.changed(b, IsRef<B_>::v);
    }
};
template <class L, class R, class A_, class B_, class C_> struct Tr
{
    typedef typename Plain<A_>::type A;
    typedef typename Plain<B_>::type B;
    typedef typename Plain<C_>::type C;
    enum { N = Rd<A>::N + Rd<B>::N + Rd<C>::N };
    static L*& l() { static L* p; return p; }
    static int run(const float* in, float* out)
    {
        A a = Rd<A>::get(in);
        B b = Rd<B>::get(in + Rd<A>::N);
        C c = Rd<C>::get(in + Rd<A>::N + Rd<B>::N);
        Seen<A> sa(a);
        Seen<B> sb(b);
        Seen<C> sc(c);
        put((*l())(a, b, c), out);
        return sa.changed(a, IsRef<A_>::v) + 2 * sb.changed(b, IsRef<B_>::v) + 4 * sc.changed(c, IsRef<C_>::v);
    }
};
template <class F, class L, class R> void add(const char* n, const char* args, char sc, L l)
{
    F::l() = new L(l);
    OpDesc d = {n, args, sc, F::N, outn((typename Plain<R>::type const*)0), &F::run};
    table().push_back(d);
}
template <class L, class R, class A> void reg2(const char* n, const char* args, char sc, L l, R (L::*)(A) const) { add<Un<L, R, A>, L, R>(n, args, sc, l); }
template <class L, class R, class A, class B> void reg2(const char* n, const char* args, char sc, L l, R (L::*)(A, B) const) { add<Bi<L, R, A, B>, L, R>(n, args, sc, l); }
template <class L, class R, class A, class B, class C> void reg2(const char* n, const char* args, char sc, L l, R (L::*)(A, B, C) const) { add<Tr<L, R, A, B, C>, L, R>(n, args, sc, l); }
template <class L> void reg(const char* n, const char* args, char sc, L l) { reg2(n, args, sc, l, &L::operator()); }

#define BIN(codes, sc, X, op, Y) reg(#X " " #op " " #Y, codes, sc, [](X& a, Y& b) { return a op b; })

// joined C strings that live for ever (std::string's code is not seen by every sanitizer)
const char* cat(const char* a, const char* b)
{
    size_t n = 0, m = 0;
    while (a[n]) ++n;
    while (b[m]) ++m;
    char* r = new char[n + m + 1];
    for (size_t i = 0; i != n; ++i) r[i] = a[i];
    for (size_t i = 0; i <= m; ++i) r[n + i] = b[i];
    return r;
}
template <class T> void arith(const char* code, const char* nm)
{
    reg(cat(nm, " + "), cat(code, code), 's', [](T& a, T& b) { return a + b; });
    reg(cat(nm, " - "), cat(code, code), 's', [](T& a, T& b) { return a - b; });
    reg(cat(nm, " += "), cat(code, code), 's', [](T a, T& b) { a += b; return a; });
    reg(cat(nm, " -= "), cat(code, code), 's', [](T a, T& b) { a -= b; return a; });
    reg(cat(nm, " * float"), cat(code, "S"), 'm', [](T& a, float& b) { return a * b; });
    reg(cat(nm, " float *"), cat(code, "S"), 'm', [](T& a, float& b) { return b * a; });
    reg(cat(nm, " / float"), cat(code, "S"), 'r', [](T& a, float& b) { return a / b; });
    reg(cat(nm, " *= float"), cat(code, "S"), 'm', [](T a, float& b) { a *= b; return a; });
    reg(cat(nm, " /= float"), cat(code, "S"), 'r', [](T a, float& b) { a /= b; return a; });
}
template <class T> void arith_int(const char* code, const char* nm)
{
    reg(cat(nm, " * int"), cat(code, "i"), 'm', [](T& a, int& b) { return a * b; });
    reg(cat(nm, " int *"), cat(code, "i"), 'm', [](T& a, int& b) { return b * a; });
    reg(cat(nm, " / int"), cat(code, "i"), 'r', [](T& a, int& b) { return a / b; });
    reg(cat(nm, " *= int"), cat(code, "i"), 'm', [](T a, int& b) { a *= b; return a; });
    reg(cat(nm, " /= int"), cat(code, "i"), 'r', [](T a, int& b) { a /= b; return a; });
}
template <class V, class X> void batch(const char* nm, const char* codes)
{
    reg(nm, codes, 'v', [](V& v, X& a) {
        X in[3], o[3];
        in[0] = a;
        in[1] = v(a);
        in[2] = a;
        v(in, o, 3);
        F16 r;
        std::memset(&r, 0, sizeof r);
        put(o[0], r.f);
        put(o[2], r.f + 8);
        return r;
    });
    // in place, with the second element an image of the first
}
template <class V, class X> void batch_inplace(const char* nm, const char* codes)
{
    reg(nm, codes, 'v', [](V& v, X& a) {
        X b[2];
        b[0] = a;
        b[1] = a;
        v(b, b, 2);
        F16 r;
        std::memset(&r, 0, sizeof r);
        put(b[0], r.f);
        put(b[1], r.f + 8);
        return r;
    });
}

void build()
{
    // meet
    BIN("PP", 'm', plane, ^, plane); BIN("PB", 'm', plane, ^, branch); BIN("BP", 'm', branch, ^, plane);
    BIN("PI", 'm', plane, ^, ideal_line); BIN("IP", 'm', ideal_line, ^, plane); BIN("PL", 'm', plane, ^, line); BIN("LP", 'm', line, ^, plane);
    BIN("PX", 'm', plane, ^, point); BIN("XP", 'm', point, ^, plane); BIN("BI", 'm', branch, ^, ideal_line); BIN("IB", 'm', ideal_line, ^, branch);
    BIN("LL", 'm', line, ^, line); BIN("LI", 'm', line, ^, ideal_line); BIN("IL", 'm', ideal_line, ^, line); BIN("LB", 'm', line, ^, branch); BIN("BL", 'm', branch, ^, line);
    // join, dual
    BIN("XX", 'm', point, &, point); BIN("XL", 'm', point, &, line); BIN("LX", 'm', line, &, point); BIN("XB", 'm', point, &, branch); BIN("BX", 'm', branch, &, point);
    BIN("XI", 'm', point, &, ideal_line); BIN("IX", 'm', ideal_line, &, point); BIN("PX", 'm', plane, &, point); BIN("XP", 'm', point, &, plane);
    reg("!plane", "P", 'e', [](plane& a) { return !a; });
    reg("!point", "X", 'e', [](point& a) { return !a; });
    reg("!line", "L", 'e', [](line& a) { return !a; });
    reg("!branch", "B", 'e', [](branch& a) { return !a; });
    reg("!ideal_line", "I", 'e', [](ideal_line& a) { return !a; });
    reg("!dual", "U", 'e', [](kln::dual& a) { return !a; });
    // inner product
    BIN("PP", 'm', plane, |, plane); BIN("PL", 'm', plane, |, line); BIN("LP", 'm', line, |, plane); BIN("PI", 'm', plane, |, ideal_line); BIN("IP", 'm', ideal_line, |, plane);
    BIN("PX", 'm', plane, |, point); BIN("XP", 'm', point, |, plane); BIN("LL", 'm', line, |, line); BIN("XL", 'm', point, |, line); BIN("LX", 'm', line, |, point); BIN("XX", 'm', point, |, point);
    // geometric product and division
    BIN("PP", 'm', plane, *, plane); BIN("PX", 'm', plane, *, point); BIN("XP", 'm', point, *, plane); BIN("BB", 'm', branch, *, branch); BIN("LL", 'm', line, *, line);
    BIN("Xx", 'q', point, *, point); BIN("QQ", 'm', rotor, *, rotor); BIN("UL", 'm', kln::dual, *, line); BIN("LU", 'm', line, *, kln::dual);
    BIN("QT", 'm', rotor, *, translator); BIN("TQ", 'm', translator, *, rotor); BIN("TT", 's', translator, *, translator); BIN("QN", 'm', rotor, *, motor); BIN("NQ", 'm', motor, *, rotor);
    BIN("TN", 'm', translator, *, motor); BIN("NT", 'm', motor, *, translator); BIN("NN", 'm', motor, *, motor);
    BIN("Pp", 'd', plane, /, plane); BIN("xx", 'd', point, /, point); BIN("Bb", 'd', branch, /, branch); BIN("QR", 'd', rotor, /, rotor); BIN("TT", 's', translator, /, translator);
    BIN("Ll", 'd', line, /, line); BIN("NR", 'd', motor, /, rotor); BIN("NT", 'd', motor, /, translator); BIN("NM", 'd', motor, /, motor);
    // arithmetic
    arith<plane>("P", "plane"); arith<point>("X", "point"); arith<direction>("D", "direction"); arith<line>("L", "line"); arith<ideal_line>("I", "ideal_line"); arith<branch>("B", "branch");
    arith<rotor>("Q", "rotor"); arith<translator>("T", "translator"); arith<motor>("N", "motor"); arith<kln::dual>("U", "dual");
    arith_int<plane>("P", "plane"); arith_int<point>("X", "point"); arith_int<direction>("D", "direction"); arith_int<line>("L", "line"); arith_int<ideal_line>("I", "ideal_line");
    arith_int<branch>("B", "branch"); arith_int<rotor>("Q", "rotor"); arith_int<translator>("T", "translator"); arith_int<motor>("N", "motor");
    reg("-plane", "P", 'e', [](plane& a) { return -a; });
    reg("-point", "X", 'e', [](point& a) { return -a; });
    reg("~point", "X", 'e', [](point& a) { return ~a; });
    reg("-direction", "D", 'e', [](direction& a) { return -a; });
    reg("-line", "L", 'e', [](line& a) { return -a; });
    reg("~line", "L", 'e', [](line& a) { return ~a; });
    reg("-ideal_line", "I", 'e', [](ideal_line& a) { return -a; });
    reg("~ideal_line", "I", 'e', [](ideal_line& a) { return ~a; });
    reg("-branch", "B", 'e', [](branch& a) { return -a; });
    reg("~branch", "B", 'e', [](branch& a) { return ~a; });
    reg("-rotor", "Q", 'e', [](rotor& a) { return -a; });
    reg("~rotor", "Q", 'e', [](rotor& a) { return ~a; });
    reg("-motor", "N", 'e', [](motor& a) { return -a; });
    reg("~motor", "N", 'e', [](motor& a) { return ~a; });
    reg("plane == plane", "PP", 'e', [](plane& a, plane& b) { return a == b; });
    reg("line == line", "LL", 'e', [](line& a, line& b) { return a == b; });
    reg("rotor == rotor", "QQ", 'e', [](rotor& a, rotor& b) { return a == b; });
    reg("motor == motor", "NN", 'e', [](motor& a, motor& b) { return a == b; });
    reg("plane approx_eq", "PPS", 'e', [](plane& a, plane& b, float& e) { return a.approx_eq(b, e); });
    reg("line approx_eq", "LLS", 'e', [](line& a, line& b, float& e) { return a.approx_eq(b, e); });
    reg("rotor approx_eq", "QQS", 'e', [](rotor& a, rotor& b, float& e) { return a.approx_eq(b, e); });
    reg("motor approx_eq", "NNS", 'e', [](motor& a, motor& b, float& e) { return a.approx_eq(b, e); });
    // application
    reg("plane(plane)", "PP", 'v', [](plane& v, plane& a) { return v(a); });
    reg("plane(line)", "PL", 'v', [](plane& v, line& a) { return v(a); });
    reg("plane(point)", "PX", 'v', [](plane& v, point& a) { return v(a); });
    reg("rotor(plane)", "RP", 'v', [](rotor& v, plane& a) { return v(a); });
    reg("rotor(branch)", "RB", 'v', [](rotor& v, branch& a) { return v(a); });
    reg("rotor(line)", "RL", 'v', [](rotor& v, line& a) { return v(a); });
    reg("rotor(point)", "RX", 'v', [](rotor& v, point& a) { return v(a); });
    reg("rotor(direction)", "RD", 'v', [](rotor& v, direction& a) { return v(a); });
    reg("translator(plane)", "TP", 'v', [](translator& v, plane& a) { return v(a); });
    reg("translator(line)", "TL", 'v', [](translator& v, line& a) { return v(a); });
    reg("translator(point)", "TX", 'v', [](translator& v, point& a) { return v(a); });
    reg("motor(plane)", "MP", 'v', [](motor& v, plane& a) { return v(a); });
    reg("motor(line)", "ML", 'v', [](motor& v, line& a) { return v(a); });
    reg("motor(point)", "MX", 'v', [](motor& v, point& a) { return v(a); });
    reg("motor(direction)", "MD", 'v', [](motor& v, direction& a) { return v(a); });
    reg("motor(origin)", "M", 'V', [](motor& v) { return v(origin()); });
    batch<rotor, plane>("rotor(plane*)", "RP"); batch<rotor, line>("rotor(line*)", "RL"); batch<rotor, point>("rotor(point*)", "RX"); batch<rotor, direction>("rotor(direction*)", "RD");
    batch<motor, plane>("motor(plane*)", "MP"); batch<motor, line>("motor(line*)", "ML"); batch<motor, point>("motor(point*)", "MX"); batch<motor, direction>("motor(direction*)", "MD");
    batch_inplace<rotor, plane>("rotor(plane*) in place", "RP"); batch_inplace<rotor, line>("rotor(line*) in place", "RL"); batch_inplace<rotor, point>("rotor(point*) in place", "RX");
    batch_inplace<rotor, direction>("rotor(direction*) in place", "RD"); batch_inplace<motor, plane>("motor(plane*) in place", "MP"); batch_inplace<motor, line>("motor(line*) in place", "ML");
    batch_inplace<motor, point>("motor(point*) in place", "MX"); batch_inplace<motor, direction>("motor(direction*) in place", "MD");
    // matrices
    reg("rotor::as_mat3x4", "R", 'V', [](rotor& r) { return mat(r.as_mat3x4()); });
    reg("rotor::as_mat4x4", "R", 'V', [](rotor& r) { return mat(r.as_mat4x4()); });
    reg("motor::as_mat3x4", "M", 'V', [](motor& r) { return mat(r.as_mat3x4()); });
    reg("motor::as_mat4x4", "M", 'V', [](motor& r) { return mat(r.as_mat4x4()); });
    reg("mat4x4(xyzw)", "MX", 'v', [](motor& r, point& p) { mat4x4 m = r.as_mat4x4(); return lanes(m(_mm_set_ps(p.w(), p.z(), p.y(), p.x()))); });
    reg("mat3x4(xyzw)", "MX", 'v', [](motor& r, point& p) { mat3x4 m = r.as_mat3x4(); F4 o = lanes(m(_mm_set_ps(p.w(), p.z(), p.y(), p.x()))); o.f[3] = 0; return o; });
    // norms, normalization, inverse
    reg("plane::norm", "P", 'r', [](plane& a) { return a.norm(); });
    reg("plane::normalized", "P", 'n', [](plane& a) { return a.normalized(); });
    reg("plane::inverse", "P", 'n', [](plane& a) { return a.inverse(); });
    reg("point::normalized", "X", 'n', [](point& a) { return a.normalized(); });
    reg("point::inverse", "X", 'n', [](point& a) { return a.inverse(); });
    reg("direction::normalized", "D", 'n', [](direction& a) { return a.normalized(); });
    reg("ideal_line::ideal_norm", "I", 'r', [](ideal_line& a) { return a.ideal_norm(); });
    reg("ideal_line::squared_ideal_norm", "I", 'r', [](ideal_line& a) { return a.squared_ideal_norm(); });
    reg("branch::norm", "B", 'r', [](branch& a) { return a.norm(); });
    reg("branch::squared_norm", "B", 'r', [](branch& a) { return a.squared_norm(); });
    reg("branch::normalized", "B", 'n', [](branch& a) { return a.normalized(); });
    reg("branch::inverse", "B", 'n', [](branch& a) { return a.inverse(); });
    reg("line::norm", "L", 'r', [](line& a) { return a.norm(); });
    reg("line::squared_norm", "L", 'r', [](line& a) { return a.squared_norm(); });
    reg("line::normalized", "L", 'n', [](line& a) { return a.normalized(); });
    reg("line::inverse", "L", 'n', [](line& a) { return a.inverse(); });
    reg("rotor::normalized", "Q", 'n', [](rotor& a) { return a.normalized(); });
    reg("rotor::inverse", "Q", 'n', [](rotor& a) { return a.inverse(); });
    reg("rotor::constrained", "Q", 'e', [](rotor& a) { return a.constrained(); });
    reg("translator::inverse", "T", 'e', [](translator& a) { return a.inverse(); });
    reg("motor::normalized", "N", 'n', [](motor& a) { return a.normalized(); });
    reg("motor::inverse", "N", 'n', [](motor& a) { return a.inverse(); });
    reg("motor::constrained", "N", 'e', [](motor& a) { return a.constrained(); });
    // exp, log, sqrt, Euler angles
    reg("exp(branch)", "B", 'x', [](branch& a) { return exp(a); });
    reg("exp(ideal_line)", "I", 'e', [](ideal_line& a) { return exp(a); });
    reg("exp(line)", "L", 'x', [](line& a) { return exp(a); });
    reg("log(rotor)", "R", 'x', [](rotor& a) { return log(a); });
    reg("log(translator)", "T", 'e', [](translator& a) { return log(a); });
    reg("log(motor)", "M", 'x', [](motor& a) { return log(a); });
    reg("sqrt(rotor)", "R", 'h', [](rotor& a) { return sqrt(a); });
    reg("sqrt(branch)", "b", 'h', [](branch& a) { return sqrt(a); });
    reg("sqrt(translator)", "T", 'r', [](translator& a) { return sqrt(a); });
    reg("sqrt(motor)", "M", 'h', [](motor& a) { return sqrt(a); });
    reg("rotor(euler)", "E", 'x', [](euler_angles& e) { return rotor(e); });
    reg("as_euler_angles", "E", 'E', [](euler_angles& e) { rotor r(e); return r.as_euler_angles(); });
#ifdef OPT_OPERANDS
    // (its angles differ between builds at the seams, so this one is not compared there)
    reg("rotor::as_euler_angles", "R", 'E', [](rotor& r) { return r.as_euler_angles(); });
#endif
    // projections
    reg("project(point,line)", "xl", 't', [](point& a, line& b) { return project(a, b); });
    reg("project(point,plane)", "xp", 't', [](point& a, plane& b) { return project(a, b); });
    reg("project(line,plane)", "lp", 't', [](line& a, plane& b) { return project(a, b); });
    reg("project(plane,point)", "px", 't', [](plane& a, point& b) { return project(a, b); });
    reg("project(line,point)", "lx", 't', [](line& a, point& b) { return project(a, b); });
    reg("project(plane,line)", "pl", 't', [](plane& a, line& b) { return project(a, b); });
    // constructors, conversions, loads and stores
    reg("rotor(angle,axis)", "AV", 'x', [](float& a, vec3f& v) { return rotor(a, v.x, v.y, v.z); });
    reg("translator(distance,axis)", "SV", 'm', [](float& a, vec3f& v) { return translator(a, v.x, v.y, v.z); });
    reg("motor(angle,distance,line)", "ASl", 'y', [](float& a, float& d, line& l) { return motor(a, d, l); });
    reg("direction(x,y,z)", "V", 'r', [](vec3f& v) { return direction(v.x, v.y, v.z); });
    reg("point(x,y,z)", "V", 'e', [](vec3f& v) { return point(v.x, v.y, v.z); });
    reg("motor(rotor)", "Q", 'e', [](rotor& r) { return motor(r); });
    reg("motor(translator)", "T", 'e', [](translator& t) { return motor(t); });
    reg("motor = rotor", "NQ", 'e', [](motor m, rotor& r) { m = r; return m; });
    reg("motor = translator", "NT", 'e', [](motor m, translator& r) { m = r; return m; });
    reg("line(branch)", "B", 'e', [](branch& b) { return line(b); });
    reg("line(ideal_line)", "I", 'e', [](ideal_line& b) { return line(b); });
    reg("origin", "S", 'e', [](float) { return point(origin()); });
    reg("plane load", "P", 'e', [](plane& p) { float b[4]; put(p, b); plane q(b); plane r; r.load(b); F8 o; put(q, o.f); put(r, o.f + 4); return o; });
    reg("point load/store", "X", 'e', [](point& p) { alignas(16) float b[4]; p.store(b); point q; q.load(b); return q; });
    reg("rotor load/store", "Q", 'e', [](rotor& p) { alignas(16) float b[4]; p.store(b); rotor q; q.load_normalized(b); return q; });
    reg("branch store", "B", 'e', [](branch& p) { alignas(16) float b[4]; p.store(b); F4 o; std::memcpy(o.f, b, 16); return o; });
    reg("motor load", "N", 'e', [](motor& m) {
        alignas(16) float b[8];
        b[0] = m.scalar(); b[1] = m.e23(); b[2] = m.e31(); b[3] = m.e12();
        b[4] = m.e0123(); b[5] = m.e01(); b[6] = m.e02(); b[7] = m.e03();
        motor q;
        q.load(b);
        return q;
    });
    reg("direction(float*)", "D", 'n', [](direction& d) { float b[4] = {0.f, d.x(), d.y(), d.z()}; return direction(b); });
    reg("negated accessors", "N", 'e', [](motor& m) { F8 o; o.f[0] = m.e21(); o.f[1] = m.e13(); o.f[2] = m.e32(); o.f[3] = m.e10(); o.f[4] = m.e20(); o.f[5] = m.e30(); o.f[6] = m.e12(); o.f[7] = m.scalar(); return o; });
    reg("negated line accessors", "L", 'e', [](line& m) { F8 o; o.f[0] = m.e21(); o.f[1] = m.e13(); o.f[2] = m.e32(); o.f[3] = m.e10(); o.f[4] = m.e20(); o.f[5] = m.e30(); o.f[6] = 0; o.f[7] = 0; return o; });
    reg("negated rotor accessors", "Q", 'e', [](rotor& m) { F4 o; o.f[0] = m.e21(); o.f[1] = m.e13(); o.f[2] = m.e32(); o.f[3] = m.scalar(); return o; });
    reg("branch accessors", "B", 'e', [](branch& m) { F8 o; o.f[0] = m.e21(); o.f[1] = m.e13(); o.f[2] = m.e32(); o.f[3] = m.x(); o.f[4] = m.y(); o.f[5] = m.z(); o.f[6] = 0; o.f[7] = 0; return o; });
    reg("plane accessors", "P", 'e', [](plane& m) { F4 o; o.f[0] = m.e1(); o.f[1] = m.e2(); o.f[2] = m.e3(); o.f[3] = m.e0(); return o; });
    reg("point accessors", "X", 'e', [](point& m) { F4 o; o.f[0] = m.e032(); o.f[1] = m.e013(); o.f[2] = m.e021(); o.f[3] = m.e123(); return o; });
    reg("translator accessors", "T", 'e', [](translator& m) { F4 o; o.f[0] = m.e10(); o.f[1] = m.e20(); o.f[2] = m.e30(); o.f[3] = m.scalar(); return o; });
}
} // namespace

extern "C" const OpDesc* OPT_CAT(ops_, CFG)(int* n)
{
    if (table().empty()) build();
    *n = (int)table().size();
    return table().data();
}
