// C21: the GLSL library, executed, against the reference algebra and the C++ library.
#include "ver.hpp"
#include "glslshim.hpp"
namespace glsl
{
#include KLEIN_GLSL
}
using namespace mc;

static std::vector<Space> out;
static Args A;

// component of each lane of the documented layout
static const Comp P0[4] = {{"e0", 1, 1}, {"e1", 2, 1}, {"e2", 4, 1}, {"e3", 8, 1}};
static const Comp P1[4] = {{"1", 0, 1}, {"e23", 12, 1}, {"e31", 10, -1}, {"e12", 6, 1}};
static const Comp P2[4] = {{"e0123", 15, 1}, {"e01", 3, 1}, {"e02", 5, 1}, {"e03", 9, 1}};
static const Comp P3[4] = {{"e123", 14, 1}, {"e032", 13, -1}, {"e013", 11, 1}, {"e021", 7, -1}};

static glsl::vec4 v4(const float* f) { return glsl::vec4(f[0], f[1], f[2], f[3]); }
static MV part(const Comp* c, const float* f) { return mvof(c, 4, f); }
static void judge(Ctx& c, const char* key, const Comp* l, glsl::vec4 const& got, MV const& want, double k = 48)
{
    for (int i = 0; i != 4; ++i) c.near(key, l[i].name, got.d[i], l[i].sign * want.v[l[i].blade], want.m[l[i].blade], k);
}
static MV madd(MV a, MV const& b) { return ref::add(a, b); }

struct Mot
{
    float f[8]; // p1, p2
};
static Mot motf(MV const& m)
{
    Mot r;
    for (int i = 0; i != 4; ++i)
    {
        r.f[i]     = (float)(P1[i].sign * m.v[P1[i].blade]);
        r.f[4 + i] = (float)(P2[i].sign * m.v[P2[i].blade]);
    }
    return r;
}
static MV motmv(const float* f) { return madd(part(P1, f), part(P2, f + 4)); }
static motor cxx(const float* f) { return motor(f[0], f[1], f[2], f[3], f[5], f[6], f[7], f[4]); }

static void sp(std::string const& name, u64 n, std::function<void(u64, Ctx&)> run, std::function<std::string(u64)> shw) { out.push_back(Space{name, n, run, shw}); }

static void c_rr(Ctx& c, const float* v)
{
    glsl::kln_rotor a, b;
    a.p1 = v4(v);
    b.p1 = v4(v + 4);
    glsl::kln_rotor const r = glsl::kln_mul(a, b);
    judge(c, "kln_mul(rotor,rotor)", P1, r.p1, ref::gp(part(P1, v), part(P1, v + 4)));
    if (!(a.p1 == v4(v)) || !(b.p1 == v4(v + 4))) c.fail("operand", "rotor operand changed");
    // and the C++ library
    rotor const q = mk<rotor>(v) * mk<rotor>(v + 4);
    MV m = ref::gp(part(P1, v), part(P1, v + 4));
    MV w = mv(q);
    for (int i = 0; i != 16; ++i) w.m[i] = m.m[i];
    judge(c, "rotor*rotor in C++", P1, r.p1, w, 96);
}
static void c_tt(Ctx& c, const float* v)
{
    glsl::kln_translator a, b;
    a.p2 = v4(v);
    b.p2 = v4(v + 4);
    glsl::kln_translator const r = glsl::kln_mul(a, b);
    MV x = part(P2, v), y = part(P2, v + 4);
    x.set(0, 1);
    y.set(0, 1);
    judge(c, "kln_mul(translator,translator)", P2, r.p2, ref::gp(x, y));
}
static void c_mm(Ctx& c, const float* v)
{
    glsl::kln_motor a, b;
    a.p1 = v4(v);
    a.p2 = v4(v + 4);
    b.p1 = v4(v + 8);
    b.p2 = v4(v + 12);
    glsl::kln_motor const r = glsl::kln_mul(a, b);
    MV w = ref::gp(motmv(v), motmv(v + 8));
    judge(c, "kln_mul(motor,motor) p1", P1, r.p1, w);
    judge(c, "kln_mul(motor,motor) p2", P2, r.p2, w);
    motor const q = cxx(v) * cxx(v + 8);
    MV x = mv(q);
    for (int i = 0; i != 16; ++i) x.m[i] = w.m[i];
    judge(c, "motor*motor in C++ p1", P1, r.p1, x, 96);
    judge(c, "motor*motor in C++ p2", P2, r.p2, x, 96);
}
// a: versor components in GLSL order (8), rot: only p1 counts; e: entity components in GLSL order
static void c_apply(Ctx& c, bool rot, int kind, const float* m, const float* e)
{
    glsl::kln_rotor R;
    R.p1 = v4(m);
    glsl::kln_motor M;
    M.p1 = v4(m);
    M.p2 = v4(m + 4);
    MV V = rot ? part(P1, m) : motmv(m);
    c.trans = 1;
    if (kind == 0)
    {
        glsl::kln_plane p;
        p.p0 = v4(e);
        glsl::kln_plane const q = rot ? glsl::kln_apply(R, p) : glsl::kln_apply(M, p);
        MV w = ref::sandwich(V, part(P0, e));
        judge(c, rot ? "kln_apply(rotor,plane)" : "kln_apply(motor,plane)", P0, q.p0, w);
        plane const x = rot ? mk<rotor>(m)(plane(e[1], e[2], e[3], e[0])) : cxx(m)(plane(e[1], e[2], e[3], e[0]));
        MV y = mv(x);
        for (int i = 0; i != 16; ++i) y.m[i] = w.m[i];
        judge(c, "plane application in C++", P0, q.p0, y, 96);
    }
    else if (kind == 1)
    {
        glsl::kln_point p;
        p.p3 = v4(e);
        glsl::kln_point const q = rot ? glsl::kln_apply(R, p) : glsl::kln_apply(M, p);
        MV w = ref::sandwich(V, part(P3, e));
        judge(c, rot ? "kln_apply(rotor,point)" : "kln_apply(motor,point)", P3, q.p3, w);
        float f[4] = {e[1], e[2], e[3], e[0]};
        point const x = rot ? mk<rotor>(m)(mk<point>(f)) : cxx(m)(mk<point>(f));
        MV y = mv(x);
        for (int i = 0; i != 16; ++i) y.m[i] = w.m[i];
        judge(c, "point application in C++", P3, q.p3, y, 96);
    }
    else
    {
        glsl::kln_point const q = glsl::kln_apply(M);
        MV o;
        o.set(14, 1);
        MV w = ref::sandwich(V, o);
        w.v[14] = 1; // the scalar of a unit motor's norm
        judge(c, "kln_apply(motor)", P3, q.p3, w);
        point const x = cxx(m)(origin());
        MV y = mv(x);
        for (int i = 0; i != 16; ++i) y.m[i] = w.m[i];
        judge(c, "origin application in C++", P3, q.p3, y, 96);
    }
    if (!(R.p1 == v4(m)) || !(M.p2 == v4(m + 4))) c.fail("operand", "versor operand changed");
}

static std::vector<Space> make(Args const& a)
{
    A = a;
    // products: multilinear, checked on all coefficient values
    auto prodspace = [&](const char* nm, int n, void (*f)(Ctx&, const float*)) {
        auto shw = [=](const float* v) { return fmtv(nm, v, n); };
        auto add = [&](std::string tag, u64 size, std::function<void(u64, float*)> get) {
            sp(std::string(nm) + " " + tag, size, [=](u64 i, Ctx& c) { float v[16]; get(i, v); f(c, v); }, [=](u64 i) { float v[16]; get(i, v); return shw(v); });
        };
        if (n == 8)
        {
            Lat l(n, L5, A.lite ? 3 : 5);
            add("lattice", l.size(), [l](u64 i, float* v) { l.get(i, v); });
        }
        else
        {
            static const float L2[] = {1.f, -2.f};
            Lat l(n, L2, 2);
            add("lattice{1,-2}", l.size(), [l](u64 i, float* v) { l.get(i, v); });
            if (A.thorough())
            {
                Lat k(n, L3, 3);
                add("lattice{0,1,-1}", k.size(), [k](u64 i, float* v) { k.get(i, v); });
            }
        }
        DevSpace d(n, 2, A.lite ? WIDES : WIDE, A.lite ? (int)NWS : (int)NW);
        add("deviations<=2", d.size(), [d](u64 i, float* v) { d.get(i, v); });
        if (!A.lite)
        {
            DevSpace e(n, A.thorough() ? 4 : 3, WIDES, NWS);
            add("deviations<=3+", e.size(), [e](u64 i, float* v) { e.get(i, v); });
        }
    };
    prodspace("kln_mul(rotor,rotor)", 8, c_rr);
    prodspace("kln_mul(translator,translator)", 8, c_tt);
    prodspace("kln_mul(motor,motor)", 16, c_mm);
    // applications of unit versors
    auto rots = std::make_shared<std::vector<Mot>>();
    for (Q4 const& q : all_rotors(A.thorough())) rots->push_back(motf(q_mv(q)));
    auto mots = std::make_shared<std::vector<Mot>>();
    auto fr = few_rotors();
    auto ds = displacements(A.thorough());
    for (Q4 const& q : fr)
        for (V3 const& d : ds) mots->push_back(motf(ref::gp(t_mv(d), q_mv(q))));
    // pure translators and dense unit motors as motors
    for (V3 const& d : displacements(true)) mots->push_back(motf(t_mv(d)));
    if (!A.lite)
        for (Q4 const& q : all_rotors(A.thorough()))
            for (V3 const& d : {V3{{1, -2, 3}}, V3{{0.3, 100, -7}}}) mots->push_back(motf(ref::gp(t_mv(d), q_mv(q))));
    auto pr = std::make_shared<std::vector<std::vector<float>>>(probes(4, !A.lite));
    Lat l(4, L5, A.lite ? 3 : 5);
    for (u64 i = 0; i != l.size(); ++i)
    {
        std::vector<float> f(4);
        l.get(i, f.data());
        pr->push_back(f);
    }
    if (A.lite && mots->size() > 400) mots->resize(400);
    for (int rot = 0; rot != 2; ++rot)
        for (int kind = 0; kind != (rot ? 2 : 3); ++kind)
        {
            static const char* kn[] = {"plane", "point", "origin"};
            auto vs = rot ? rots : mots;
            u64 nv = vs->size(), ne = kind == 2 ? 1 : pr->size();
            std::string nm = std::string("kln_apply(") + (rot ? "rotor" : "motor") + "," + kn[kind] + ")";
            sp(nm, nv * ne, [=](u64 i, Ctx& c) { c_apply(c, rot, kind, (*vs)[i % nv].f, (*pr)[i / nv].data()); },
               [=](u64 i) { return nm + " " + fmtv("versor p1,p2 ", (*vs)[i % nv].f, rot ? 4 : 8) + (kind == 2 ? "" : fmtv(kn[kind], (*pr)[i / nv].data(), 4)); });
        }
    // histories: products of motors applied, against the motions applied one after another
    {
        auto gm = std::make_shared<std::vector<Mot>>();
        for (Q4 const& q : {axis_angle(V3{{0, 0, 1}}, PI / 4), axis_angle(V3{{1, 0, 0}}, PI / 2), axis_angle(V3{{1, 1, 1}}, PI / 3), axis_angle(V3{{1, 2, 3}}, 0.35), axis_angle(V3{{0, 1, 0}}, 1.9), axis_angle(V3{{1, 0, 0}}, 0)})
            for (V3 const& d : {V3{{0, 0, 0}}, V3{{1, -2, 3}}, V3{{0.5, 20, -7}}}) gm->push_back(motf(ref::gp(t_mv(d), q_mv(q))));
        u64 n = gm->size();
        int depth = A.lite ? 2 : A.thorough() ? 4 : 3;
        static const float pts[3][4] = {{1, 2, 3, 4}, {1, 0, 0, 0}, {0, 1, -1, 2}};
        sp("histories of kln_mul then kln_apply", 3 * ipow(n, depth),
           [=](u64 i, Ctx& c) {
               Dig d(i);
               const float* e = pts[d(3)];
               glsl::kln_motor acc;
               MV w, p = part(P3, e), pl = part(P0, e);
               for (int k = 0; k != depth; ++k)
               {
                   const float* m = (*gm)[d(n)].f;
                   glsl::kln_motor M;
                   M.p1 = v4(m);
                   M.p2 = v4(m + 4);
                   if (k) acc = glsl::kln_mul(M, acc);
                   else acc = M;
                   p = ref::sandwich(motmv(m), p);
                   pl = ref::sandwich(motmv(m), pl);
               }
               c.trans = depth + 2;
               glsl::kln_point x;
               x.p3 = v4(e);
               glsl::kln_plane y;
               y.p0 = v4(e);
               judge(c, "history applied to a point", P3, glsl::kln_apply(acc, x).p3, p, 96);
               judge(c, "history applied to a plane", P0, glsl::kln_apply(acc, y).p0, pl, 96);
           },
           [=](u64 i) { return "history #" + std::to_string(i); });
    }
    return out;
}
int main(int argc, char** argv) { return run_main(argc, argv, make); }
