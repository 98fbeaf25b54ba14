// C05 (plane reflection), C06 (versor application), C07 (batches), C08 (matrices).
#include "prod.hpp"
using namespace mc;

static std::vector<Space> out;
static Args A;

template <class T> T keep(T const& x) { return x; }

// ---------------------------------------------------------------- C05
struct Mirrors
{
    std::vector<std::array<float, 4>> v;
    Mirrors(bool thorough)
    {
        for (V3 n : axes(thorough ? 2 : 1))
        {
            double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
            for (double d : {0., 1., -1., 2.5, -0.3, 1e-3, 100., -4000., -1e-5, 2e4, -3e5, 5123.7, -234567.8})
                v.push_back(std::array<float, 4>{{float(n[0] / l), float(n[1] / l), float(n[2] / l), float(d)}});
        }
    }
};

template <class X> void reflect1(std::vector<std::array<float, 4>> const& mir, std::string tag, u64 n, std::function<void(u64, float*)> get)
{
    std::string nm = std::string("plane(") + EV<X>::nm() + ")";
    u64 m = mir.size();
    out.push_back(Space{nm + " " + tag, m * n,
                        [=](u64 i, Ctx& c) {
                            float f[8];
                            get(i / m, f);
                            plane p = mk<plane>(mir[i % m].data());
                            X x = mk<X>(f);
                            X const y = p(x);
                            c.trans = 2;
                            MV pm = Emb<plane>::mv(mir[i % m].data());
                            agree(c, nm.c_str(), y, ref::gp(ref::gp(pm, Emb<X>::mv(f)), pm));
                            // reflecting twice restores the original
                            X z = p(y);
                            MV w = Emb<X>::mv(f), yy = mv(y);
                            MV back = ref::gp(ref::gp(pm, yy), pm);
                            for (int k = 0; k != 16; ++k) w.m[k] = back.m[k] * 2 + w.m[k];
                            agree(c, (nm + " twice").c_str(), z, w, 64);
                            if (!unchanged(&x, &(const X&)mk<X>(f), sizeof x)) c.fail(nm + " operand", "operand modified");
                        },
                        [=](u64 i) { float f[8]; get(i / m, f); return fmtv("plane", mir[i % m].data(), 4) + fmtv(EV<X>::nm(), f, EV<X>::N); }});
}
template <class X> void reflect(Mirrors const& M, Mirrors const& Few)
{
    const int n = EV<X>::N;
    auto pr = probes(n, true);
    reflect1<X>(M.v, "probes", pr.size(), [pr](u64 i, float* f) { std::copy(pr[i].begin(), pr[i].end(), f); });
    Lat l(n, L3, 3);
    reflect1<X>(M.v, "lattice", l.size(), [l](u64 i, float* f) { l.get(i, f); });
    if (!A.lite)
    {
        DevSpace d(n, A.thorough() ? 3 : 2, WIDE, NW);
        std::vector<std::array<float, 4>> few;
        for (size_t i = 0; i < M.v.size(); i += 11) few.push_back(M.v[i]);
        reflect1<X>(few, "deviations", d.size(), [d](u64 i, float* f) { d.get(i, f); });
    }
    // mirrors and elements that other operations returned
    {
        auto mp = std::make_shared<std::vector<Made<plane>>>(made<plane>(true, A.thorough() ? 8 : 4));
        auto mx = std::make_shared<std::vector<Made<X>>>(made<X>(false, A.thorough() ? 8 : 4));
        std::string nm = std::string("plane(") + EV<X>::nm() + ")";
        u64 np = mp->size();
        out.push_back(Space{nm + " of produced elements", np * mx->size(),
                            [=](u64 i, Ctx& c) {
                                plane const p = (*mp)[i % np].v;
                                X const x = (*mx)[i / np].v;
                                MV pm = mv(p), xm = mv(x);
                                agree(c, nm.c_str(), p(x), ref::gp(ref::gp(pm, xm), pm));
                            },
                            [=](u64 i) { return std::string((*mp)[i % np].how) + " = " + show((*mp)[i % np].v) + "(" + (*mx)[i / np].how + " = " + show((*mx)[i / np].v) + ")"; }});
    }
    // composition of two reflections is the motor that is their product
    auto pp = probes(n, false);
    auto m = Few.v;
    std::string nm = std::string("two reflections of ") + EV<X>::nm();
    out.push_back(Space{nm, (u64)m.size() * m.size() * pp.size(),
                        [=](u64 i, Ctx& c) {
                            Dig d(i);
                            const float* f = pp[d(pp.size())].data();
                            const float* a = m[d(m.size())].data();
                            const float* b = m[d(m.size())].data();
                            plane p = mk<plane>(a), q = mk<plane>(b);
                            X x = mk<X>(f);
                            X y = q(p(x));
                            X z = (q * p)(x);
                            c.trans = 4;
                            MV pm = Emb<plane>::mv(a), qm = Emb<plane>::mv(b), xm = Emb<X>::mv(f);
                            MV w = ref::gp(ref::gp(qm, ref::gp(ref::gp(pm, xm), pm)), qm);
                            agree(c, nm.c_str(), y, w, 96);
                            agree(c, (nm + " as motor").c_str(), z, w, 96);
                        },
                        [=](u64 i) {
                            Dig d(i);
                            auto& f = pp[d(pp.size())];
                            auto& a = m[d(m.size())];
                            auto& b = m[d(m.size())];
                            return fmtv("p", a.data(), 4) + fmtv(" q", b.data(), 4) + fmtv(" x", f.data(), EV<X>::N);
                        }});
}
static void c05()
{
    Mirrors M(A.thorough());
    Mirrors F(false);
    std::vector<std::array<float, 4>> few;
    for (size_t i = 0; i < F.v.size(); i += A.lite ? 9 : 3) few.push_back(F.v[i]);
    F.v = few;
    reflect<plane>(M, F);
    reflect<line>(M, F);
    reflect<point>(M, F);
    // points on the mirror are fixed
    auto m = M.v;
    out.push_back(Space{"points of the mirror are fixed", (u64)m.size() * 125,
                        [=](u64 i, Ctx& c) {
                            const float* a = m[i / 125].data();
                            u64 k = i % 125;
                            double v[3] = {double(k % 5) - 2, double(k / 5 % 5) - 2, double(k / 25) - 2};
                            double r = a[0] * v[0] + a[1] * v[1] + a[2] * v[2] + a[3];
                            float f[4] = {float(v[0] - r * a[0]), float(v[1] - r * a[1]), float(v[2] - r * a[2]), 1.f};
                            point y = mk<plane>(a)(mk<point>(f));
                            MV w = Emb<point>::mv(f);
                            double mg = 4 * (std::fabs(a[3]) + 4);
                            for (int q = 0; q != 16; ++q) if (w.v[q] != 0 || q == 13 || q == 11 || q == 7) w.m[q] = mg;
                            agree(c, "fixed point", y, w, 48);
                        },
                        [=](u64 i) { return fmtv("plane", m[i / 125].data(), 4) + " lattice point #" + std::to_string(i % 125); }});
}

// ---------------------------------------------------------------- C06
// one space: versor list x entity list
template <class V, class X> struct App
{
    typedef X R;
};
template <class V, class X, class R>
void apply(const char* vn, std::string tag, u64 nv, std::function<V(u64)> gv, u64 ne, std::function<void(u64, float*)> ge)
{
    std::string nm = std::string(vn) + "(" + EV<X>::nm() + ")";
    out.push_back(Space{nm + " " + tag, nv * ne,
                        [=](u64 i, Ctx& c) {
                            float f[8];
                            ge(i / nv, f);
                            V const v = gv(i % nv);
                            V const v0 = gv(i % nv);
                            X x = mk<X>(f);
                            R y = v(x);
                            c.trans = 1;
                            agree(c, nm.c_str(), y, ref::sandwich(mv(v), Emb<X>::mv(f)));
                            if (!unchanged(&v, &v0, sizeof v)) c.fail(nm + " operand", "versor modified");
                            float g[8];
                            EV<X>::get(x, g);
                            for (int k = 0; k != EV<X>::N; ++k) if (std::memcmp(&g[k], &f[k], 4)) c.fail(nm + " operand", "operand modified");
                        },
                        [=](u64 i) { float f[8]; ge(i / nv, f); return show(gv(i % nv)) + "(" + fmtv(EV<X>::nm(), f, EV<X>::N) + ")"; }});
}
// versors and elements that other operations returned
template <class V, class X, class R> void produced(const char* vn)
{
    auto mvs = std::make_shared<std::vector<Made<V>>>(made<V>(true, A.thorough() ? 8 : 4));
    auto mx = std::make_shared<std::vector<Made<X>>>(made<X>(false, A.thorough() ? 8 : 4));
    std::string nm = std::string(vn) + "(" + EV<X>::nm() + ")";
    u64 np = mvs->size();
    out.push_back(Space{nm + " of produced elements", np * mx->size(),
                        [=](u64 i, Ctx& c) {
                            V const v = (*mvs)[i % np].v;
                            X const x = (*mx)[i / np].v;
                            agree(c, nm.c_str(), R(v(x)), ref::sandwich(mv(v), mv(x)));
                        },
                        [=](u64 i) { return std::string((*mvs)[i % np].how) + " = " + show((*mvs)[i % np].v) + "(" + (*mx)[i / np].how + " = " + show((*mx)[i / np].v) + ")"; }});
}
template <class V, class X, class R = X>
void applies(const char* vn, u64 nv, std::function<V(u64)> gv, u64 nf, std::function<V(u64)> gf)
{
    const int n = EV<X>::N;
    produced<V, X, R>(vn);
    auto pr = probes(n, false);
    if (n == 0) pr.assign(1, std::vector<float>());
    apply<V, X, R>(vn, "all versors x probes", nv, gv, pr.size(), [pr](u64 i, float* f) { std::copy(pr[i].begin(), pr[i].end(), f); });
    if (n == 0) return;
    Lat l(n, L3, 3);
    apply<V, X, R>(vn, "few versors x lattice", nf, gf, l.size(), [l](u64 i, float* f) { l.get(i, f); });
    if (A.lite) return;
    DevSpace d(n, A.thorough() ? 2 : 1, WIDE, NW);
    apply<V, X, R>(vn, "few versors x deviations", nf, gf, d.size(), [d](u64 i, float* f) { d.get(i, f); });
}
static void c06()
{
    std::vector<Q4> R = A.lite ? few_rotors() : all_rotors(A.thorough());
    std::vector<Q4> RF = few_rotors();
    std::vector<V3> T = displacements(A.thorough());
    std::vector<V3> TF;
    for (size_t i = 0; i < T.size(); i += A.lite ? 7 : 4) TF.push_back(T[i]);
    std::vector<Q4> RF2;
    for (size_t i = 0; i < RF.size(); i += 3) RF2.push_back(RF[i]);
    auto gr  = [R](u64 i) { return mk_rotor(R[i]); };
    auto grf = [RF](u64 i) { return mk_rotor(RF[i]); };
    applies<rotor, plane>("rotor", R.size(), gr, RF.size(), grf);
    applies<rotor, branch>("rotor", R.size(), gr, RF.size(), grf);
    applies<rotor, line>("rotor", R.size(), gr, RF.size(), grf);
    applies<rotor, point>("rotor", R.size(), gr, RF.size(), grf);
    applies<rotor, direction>("rotor", R.size(), gr, RF.size(), grf);
    DevSpace td(3, 3, WIDES, NWS);
    auto gt  = [td](u64 i) { float f[3]; td.get(i, f); return mk<translator>(f); };
    auto gtf = [T](u64 i) { return mk_translator(T[i]); };
    u64 ntd = A.lite ? td.size() / 8 : td.size();
    applies<translator, plane>("translator", ntd, gt, T.size(), gtf);
    applies<translator, line>("translator", ntd, gt, T.size(), gtf);
    applies<translator, point>("translator", ntd, gt, T.size(), gtf);
    auto gm  = [R, T](u64 i) { return mk_motor(R[i % R.size()], T[i / R.size()]); };
    auto gmf = [RF2, TF](u64 i) { return mk_motor(RF2[i % RF2.size()], TF[i / RF2.size()]); };
    u64 nm = (u64)R.size() * T.size(), nmf = (u64)RF2.size() * TF.size();
    applies<motor, plane>("motor", nm, gm, nmf, gmf);
    applies<motor, line>("motor", nm, gm, nmf, gmf);
    applies<motor, point>("motor", nm, gm, nmf, gmf);
    applies<motor, direction>("motor", nm, gm, nmf, gmf);
    applies<motor, origin, point>("motor", nm, gm, nmf, gmf);
}

// ---------------------------------------------------------------- C07
// memory laid out against inaccessible pages on both sides
struct Arena
{
    char* base;
    size_t page, pages;
    Arena(size_t p) : pages(p)
    {
        page = sysconf(_SC_PAGESIZE);
        base = (char*)mmap(0, page * (pages + 2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base, page, PROT_NONE);
        mprotect(base + page * (pages + 1), page, PROT_NONE);
    }
    char* lo() { return base + page; }
    char* hi() { return base + page * (pages + 1); }
};
static Arena& arena(int k)
{
    static Arena* a[2] = {nullptr, nullptr};
    if (!a[k]) a[k] = new Arena(A.thorough() ? 66000 : 2100);
    return *a[k];
}
// placements of the two arrays
static const char* PLACE[] = {"distinct, at page ends", "distinct, at page starts", "in place", "distinct, canaries around", "in place, canaries around", "in and out adjacent", "out before in, adjacent"};
template <class V, class X> void batch(const char* vn, std::vector<V> vs, std::vector<u64> counts, int large = 0)
{
    std::string nm = std::string(vn) + "(" + EV<X>::nm() + "*)";
    std::string tag = nm + (large == 2 ? ", huge arrays" : large ? ", large arrays" : "");
    const int n = EV<X>::N;
    u64 nc = counts.size(), np = large == 2 ? 3 : 7, nb = large == 2 ? 1 : A.lite || large ? 2 : NBASE;
    out.push_back(Space{tag, vs.size() * nc * np * nb,
                        [=](u64 i, Ctx& c) {
                            Dig d(i);
                            int base = (int)d(nb);
                            u64 cnt  = counts[d(nc)];
                            int pl   = (int)d(np);
                            if (large == 2 && pl == 1) pl = 3;
                            V v      = vs[d(vs.size())];
                            size_t bytes = cnt * sizeof(X);
                            Arena &a = arena(0), &b = arena(1);
                            X *in, *o;
                            const size_t G = 4 * sizeof(X);
                            bool can = pl >= 3;
                            switch (pl)
                            {
                            case 0: in = (X*)(a.hi() - bytes); o = (X*)(b.hi() - bytes); break;
                            case 1: in = (X*)a.lo(); o = (X*)b.lo(); break;
                            case 2: in = o = (X*)(a.hi() - bytes); break;
                            case 3: in = (X*)(a.lo() + G); o = (X*)(b.lo() + G); break;
                            case 4: in = o = (X*)(a.lo() + G); break;
                            case 5: in = (X*)(a.lo() + G); o = in + cnt; break;
                            default: o = (X*)(a.lo() + G); in = o + cnt; break;
                            }
                            size_t span = (pl >= 5 ? 2 : 1) * bytes + 2 * G;
                            if (can)
                            {
                                std::memset(a.lo(), 0xA5, span);
                                std::memset(b.lo(), 0x5A, span);
                            }
                            std::vector<float> src(cnt * n + 1);
                            for (u64 k = 0; k != cnt; ++k)
                            {
                                for (int q = 0; q != n; ++q)
                                {
                                    float s = base == 0 ? float((k * 31 + q * 7) % 11) - 5.f : baseval(base, q) * (1.f + 0.25f * float(k % 9)) * (((k + q) % 3) ? 1.f : -1.f);
                                    src[k * n + q] = s;
                                }
                                in[k] = mk<X>(&src[k * n]);
                            }
                            if (in != o && !can) std::memset((void*)o, 0x5A, bytes);
                            std::vector<char> insave((char*)in, (char*)in + bytes);
                            std::vector<char> single(bytes + 1);
                            for (u64 k = 0; k != cnt; ++k) { X r = v(in[k]); std::memcpy(&single[k * sizeof(X)], &r, sizeof r); }
                            v(in, o, (size_t)cnt);
                            c.trans = cnt + 1;
                            MV vm = mv(v);
                            for (u64 k = 0; k != cnt; ++k)
                            {
                                MV w = ref::sandwich(vm, Emb<X>::mv(&src[k * n]));
                                X one;
                                std::memcpy(&one, &single[k * sizeof(X)], sizeof one);
                                if (!agree(c, nm.c_str(), o[k], w)) c.fail(nm, "element %llu of %llu", (unsigned long long)k, (unsigned long long)cnt);
                                // same as single application
                                float g[8], h[8];
                                EV<X>::get(o[k], g);
                                EV<X>::get(one, h);
                                for (int q = 0; q != n; ++q) c.near((nm + " vs single").c_str(), EV<X>::comps()[q].name, g[q], h[q], w.m[EV<X>::comps()[q].blade], 8);
                            }
                            if (in != o && bytes && std::memcmp(in, insave.data(), bytes)) c.fail(nm + " input", "input array was modified");
                            if (can)
                            {
                                auto gap = [&](char* lo, char* hi, unsigned char val) {
                                    for (char* q = lo; q != hi; ++q) if ((unsigned char)*q != val) { c.fail(nm + " bounds", "memory outside the output was written, offset %ld", (long)(q - (char*)o)); return; }
                                };
                                gap(a.lo(), a.lo() + G, 0xA5);
                                gap(a.lo() + span - G, a.lo() + span, 0xA5);
                                if (pl == 3) { gap(b.lo(), b.lo() + G, 0x5A); gap(b.lo() + span - G, b.lo() + span, 0x5A); }
                            }
                        },
                        [=](u64 i) {
                            Dig d(i);
                            int base = (int)d(nb);
                            u64 cnt  = counts[d(nc)];
                            int pl   = (int)d(np);
                            if (large == 2 && pl == 1) pl = 3;
                            return show(vs[d(vs.size())]) + " on " + std::to_string(cnt) + " elements, " + PLACE[pl] + ", values #" + std::to_string(base);
                        }});
}
// arrays of elements, and versors, that other operations returned
template <class V, class X> void batch_made(const char* vn)
{
    std::string nm = std::string(vn) + "(" + EV<X>::nm() + "*)";
    auto mvs = std::make_shared<std::vector<Made<V>>>(made<V>(true, 3));
    auto mx = std::make_shared<std::vector<Made<X>>>(made<X>(false, 2));
    out.push_back(Space{nm + " of produced elements", (u64)mvs->size() * mx->size() * 2,
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V const v = (*mvs)[g(mvs->size())].v;
                            u64 from = g(mx->size());
                            std::vector<X> in, res;
                            for (u64 k = 0; k != 9; ++k) in.push_back((*mx)[(from + k) % mx->size()].v);
                            res = in;
                            bool same = g(2);
                            if (same) v(res.data(), res.data(), 9);
                            else v(in.data(), res.data(), 9);
                            c.trans = 9;
                            for (u64 k = 0; k != 9; ++k) agree(c, nm.c_str(), res[k], ref::sandwich(mv(v), mv(in[k])));
                        },
                        [=](u64 i) { Dig g(i); auto& v = (*mvs)[g(mvs->size())]; auto& x = (*mx)[g(mx->size())]; return std::string(v.how) + " = " + show(v.v) + " on nine elements from " + x.how + (g(2) ? " in place" : ""); }});
}
// one array of elements of every kind and size, for versors of every kind
template <class V, class X> void batch_all(const char* vn, std::vector<V> const& vs)
{
    std::string nm = std::string(vn) + "(" + EV<X>::nm() + "*)";
    auto xs = std::make_shared<std::vector<X>>();
    for (auto const& f : probes(EV<X>::N, true)) xs->push_back(mk<X>(f.data()));
    auto pv = std::make_shared<std::vector<V>>(vs);
    out.push_back(Space{nm + " of elements of every kind", (u64)pv->size() * 10,
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V const v = (*pv)[g(pv->size())];
                            u64 from = g(5);
                            bool same = g(2);
                            std::vector<X> in(xs->begin() + from, xs->end()), res = in;
                            if (same) v(res.data(), res.data(), res.size());
                            else v(in.data(), res.data(), in.size());
                            c.trans = in.size();
                            MV const vm = mv(v);
                            for (u64 k = 0; k != in.size(); ++k) agree(c, nm.c_str(), res[k], ref::sandwich(vm, mv(in[k])));
                        },
                        [=](u64 i) { Dig g(i); std::string s = show((*pv)[g(pv->size())]); u64 f = g(5); return s + " on all elements from number " + std::to_string(f) + (g(2) ? " in place" : ""); }});
    // short arrays, starting at every element
    auto wv = std::make_shared<std::vector<V>>();
    for (size_t i = 0; i < vs.size(); i += A.thorough() ? 1 : vs.size() / 40 + 1) wv->push_back(vs[i]);
    const u64 NL = 5;
    out.push_back(Space{nm + " of few elements of every kind", (u64)wv->size() * xs->size() * NL,
                        [=](u64 i, Ctx& c) {
                            Dig g(i);
                            V const v = (*wv)[g(wv->size())];
                            u64 n = 1 + g(NL), from = g(xs->size());
                            std::vector<X> in, res;
                            for (u64 k = 0; k != n; ++k) in.push_back((*xs)[(from + k) % xs->size()]);
                            res = in;
                            v(in.data(), res.data(), n);
                            c.trans = n;
                            MV const vm = mv(v);
                            for (u64 k = 0; k != n; ++k) agree(c, nm.c_str(), res[k], ref::sandwich(vm, mv(in[k])));
                        },
                        [=](u64 i) { Dig g(i); std::string s = show((*wv)[g(wv->size())]); u64 n = 1 + g(NL); return s + " on " + std::to_string(n) + " elements, the first " + show((*xs)[g(xs->size())]); }});
}
static void c07()
{
    {
        std::vector<Q4> R = A.thorough() ? all_rotors(false) : few_rotors();
        std::vector<V3> T = displacements(false);
        std::vector<rotor> vr;
        std::vector<motor> vm;
        for (auto const& q : R) vr.push_back(mk_rotor(q));
        for (size_t i = 0; i < R.size(); i += A.lite ? 5 : 1)
        {
            vm.push_back(mk_motor(R[i], V3{{0, 0, 0}}));
            for (size_t j = i % 7; j < T.size(); j += 7) vm.push_back(mk_motor(R[i], T[j]));
        }
        for (auto const& d : T) vm.push_back(mk_motor(Q4{{1, 0, 0, 0}}, d));
        batch_all<rotor, plane>("rotor", vr); batch_all<rotor, line>("rotor", vr); batch_all<rotor, point>("rotor", vr); batch_all<rotor, direction>("rotor", vr);
        batch_all<motor, plane>("motor", vm); batch_all<motor, line>("motor", vm); batch_all<motor, point>("motor", vm); batch_all<motor, direction>("motor", vm);
    }
    batch_made<rotor, plane>("rotor"); batch_made<rotor, line>("rotor"); batch_made<rotor, point>("rotor"); batch_made<rotor, direction>("rotor");
    batch_made<motor, plane>("motor"); batch_made<motor, line>("motor"); batch_made<motor, point>("motor"); batch_made<motor, direction>("motor");
    std::vector<u64> counts;
    u64 top = A.lite ? 9 : (A.thorough() ? 80 : 20);
    for (u64 i = 0; i <= top; ++i) counts.push_back(i);
    std::vector<u64> large;
    for (u64 i : {21, 22, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 67, 100, 127, 128, 129, 130, 255, 256, 257, 258, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5003})
        if (i > top && !(A.lite && i > 300)) large.push_back(i);
    std::vector<rotor> rs, rs2;
    std::vector<motor> ms, ms2;
    std::vector<Q4> R = few_rotors();
    std::vector<V3> T = displacements(false);
    for (size_t i = 0; i < R.size(); i += A.thorough() ? 1 : 4) rs.push_back(mk_rotor(R[i]));
    for (size_t i = 0; i < R.size(); i += A.thorough() ? 2 : 6)
        for (size_t j = 0; j < T.size(); j += A.thorough() ? 5 : 9) ms.push_back(mk_motor(R[i], T[j]));
    for (size_t i = 0; i < rs.size(); i += rs.size() / 3) rs2.push_back(rs[i]);
    for (size_t i = 0; i < ms.size(); i += ms.size() / 3) ms2.push_back(ms[i]);
    std::vector<u64> huge = {65535, 65536, 65537, 65539};
    if (!A.lite) huge.push_back(131075);
    if (A.thorough()) { huge.push_back(1048583); huge.push_back(4194307); }
    std::vector<rotor> rs3(1, rs[rs.size() / 2]);
    std::vector<motor> ms3(1, ms[ms.size() / 2]);
    for (int k = 0; k != 3; ++k)
    {
        std::vector<rotor> const& r = k == 2 ? rs3 : k ? rs2 : rs;
        std::vector<motor> const& m = k == 2 ? ms3 : k ? ms2 : ms;
        std::vector<u64> const& n = k == 2 ? huge : k ? large : counts;
        batch<rotor, plane>("rotor", r, n, k);
        batch<rotor, line>("rotor", r, n, k);
        batch<rotor, point>("rotor", r, n, k);
        batch<rotor, direction>("rotor", r, n, k);
        batch<motor, plane>("motor", m, n, k);
        batch<motor, line>("motor", m, n, k);
        batch<motor, point>("motor", m, n, k);
        batch<motor, direction>("motor", m, n, k);
    }
    // a null array of no elements
    out.push_back(Space{"count zero, null arrays", 8, [](u64 i, Ctx& c) {
        rotor r = mk_rotor(Q4{{1, 0, 0, 0}});
        motor m = mk_motor(Q4{{1, 0, 0, 0}}, V3{{1, 2, 3}});
        switch (i)
        {
        case 0: r((plane*)nullptr, (plane*)nullptr, 0); break;
        case 1: r((line*)nullptr, (line*)nullptr, 0); break;
        case 2: r((point*)nullptr, (point*)nullptr, 0); break;
        case 3: r((direction*)nullptr, (direction*)nullptr, 0); break;
        case 4: m((plane*)nullptr, (plane*)nullptr, 0); break;
        case 5: m((line*)nullptr, (line*)nullptr, 0); break;
        case 6: m((point*)nullptr, (point*)nullptr, 0); break;
        default: m((direction*)nullptr, (direction*)nullptr, 0); break;
        }
        c.expect(true, "null", "returned");
    }, [](u64 i) { return "overload " + std::to_string(i); }});
}

// ---------------------------------------------------------------- C08
__attribute__((noinline)) static void poison(uint32_t pat)
{
    volatile uint32_t buf[2048];
    for (int i = 0; i != 2048; ++i) buf[i] = pat;
    __asm__ volatile("" ::: "memory");
    // registers as well
    uint32_t v[4] = {pat, pat, pat, pat};
    __asm__ volatile("movups %0, %%xmm0\n movups %0,%%xmm1\n movups %0,%%xmm2\n movups %0,%%xmm3\n movups %0,%%xmm4\n movups %0,%%xmm5\n movups %0,%%xmm6\n movups %0,%%xmm7\n"
                     "movups %0,%%xmm8\n movups %0,%%xmm9\n movups %0,%%xmm10\n movups %0,%%xmm11\n movups %0,%%xmm12\n movups %0,%%xmm13\n movups %0,%%xmm14\n movups %0,%%xmm15\n"
                     :
                     : "m"(v)
                     : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
}
template <class M, class V> struct Get;
template <class V> struct Get<mat3x4, V> { static __attribute__((noinline)) void go(V const& v, mat3x4* o) { *o = v.as_mat3x4(); } };
template <class V> struct Get<mat4x4, V> { static __attribute__((noinline)) void go(V const& v, mat4x4* o) { *o = v.as_mat4x4(); } };

template <class M, class V> void matrix(const char* nm_, u64 nv, std::function<V(u64)> gv, bool rot, bool lattice)
{
    std::string nm = nm_;
    std::vector<std::vector<float>> pr = probes(4, true);
    if (lattice)
    {
        pr.clear();
        DevSpace d(4, 2, WIDES, NWS);
        for (u64 i = 0; i != d.size(); ++i) { std::vector<float> f(4); d.get(i, f.data()); pr.push_back(f); }
    }
    out.push_back(Space{nm + (lattice ? " x deviations" : " x probes"), nv,
                        [=](u64 i, Ctx& c) {
                            V v = gv(i), v0 = gv(i);
                            M a, b;
                            std::memset((void*)&a, 0x11, sizeof a);
                            std::memset((void*)&b, 0x22, sizeof b);
                            poison(0x7fc00000u);
                            Get<M, V>::go(v, &a);
                            poison(0xc479c000u);
                            Get<M, V>::go(v, &b);
                            if (!unchanged(&v, &v0, sizeof v)) c.fail(nm + " operand", "versor modified");
                            for (int k = 0; k != 16; ++k)
                                if (!(a.data[k] == b.data[k])) { c.fail(nm + " indeterminate", "element %d is indeterminate: %g or %g", k, a.data[k], b.data[k]); return; }
                            MV vm = mv(v);
                            static const int PB[4] = {13, 11, 7, 14};
                            static const int PS[4] = {-1, 1, -1, 1};
                            // columns are the images of the basis points
                            for (int col = 0; col != 4; ++col)
                            {
                                MV e;
                                e.set(PB[col], PS[col]);
                                MV w = ref::sandwich(vm, e);
                                for (int row = 0; row != 4; ++row)
                                {
                                    char cn[16];
                                    snprintf(cn, sizeof cn, "(%d,%d)", row, col);
                                    c.near(nm.c_str(), cn, a.data[4 * col + row], PS[row] * w.v[PB[row]], std::fmax(w.m[PB[row]], 1), 16);
                                }
                                if (col < 3) c.expect(a.data[4 * col + 3] == 0.f, nm.c_str(), "fourth row of the rotation block is zero");
                                if (rot && col == 3) for (int row = 0; row != 3; ++row) c.expect(a.data[12 + row] == 0.f, nm.c_str(), "a rotor has no translation column");
                            }
                            // orthonormal rotation block
                            for (int p = 0; p != 3; ++p)
                                for (int q = p; q != 3; ++q)
                                {
                                    double s = 0;
                                    for (int r = 0; r != 3; ++r) s += (double)a.data[4 * p + r] * a.data[4 * q + r];
                                    c.near((nm + " orthonormal").c_str(), "dot", (float)s, p == q, 1, 24);
                                }
                            // application
                            for (auto const& f : pr)
                            {
                                __m128 x = _mm_loadu_ps(f.data());
                                float y[4], z[4];
                                _mm_storeu_ps(y, a(x));
                                MV w = ref::sandwich(vm, Emb<point>::mv(f.data()));
                                EV<point>::get(v(mk<point>(f.data())), z);
                                for (int r = 0; r != 4; ++r)
                                {
                                    c.near((nm + " applied").c_str(), EV<point>::comps()[r].name, y[r], PS[r] * w.v[PB[r]], w.m[PB[r]], 48);
                                    c.near((nm + " vs application").c_str(), EV<point>::comps()[r].name, y[r], z[r], w.m[PB[r]], 48);
                                }
                                if (f[3] == 0)
                                {
                                    EV<direction>::get(v(mk<direction>(f.data())), z);
                                    for (int r = 0; r != 3; ++r) c.near((nm + " vs direction").c_str(), EV<point>::comps()[r].name, y[r], z[r], w.m[PB[r]], 48);
                                }
                            }
                            c.trans = 2 + pr.size();
                        },
                        [=](u64 i) { return show(gv(i)); }});
}
static void c08()
{
    std::vector<Q4> R = A.lite ? few_rotors() : all_rotors(A.thorough());
    std::vector<V3> T = displacements(A.thorough());
    std::vector<V3> T2;
    T2.push_back(V3{{0, 0, 0}});
    for (size_t i = 0; i < T.size(); i += A.thorough() ? 1 : 2) T2.push_back(T[i]);
    for (double m : {137.71, 1013.37, 2000.02, 33333.3})
    {
        T2.push_back(V3{{m, 1, 0}});
        T2.push_back(V3{{-0.53 * m, 0.61 * m, 0.59 * m}});
    }
    auto gr = [R](u64 i) { return mk_rotor(R[i]); };
    auto gm = [R, T2](u64 i) { return mk_motor(R[i % R.size()], T2[i / R.size()]); };
    u64 nm = (u64)R.size() * T2.size();
    auto mr = std::make_shared<std::vector<Made<rotor>>>(made<rotor>(true, 8));
    auto mm = std::make_shared<std::vector<Made<motor>>>(made<motor>(true, 8));
    auto gmr = [mr](u64 i) { return (*mr)[i].v; };
    auto gmm = [mm](u64 i) { return (*mm)[i].v; };
    matrix<mat3x4, rotor>("produced rotor.as_mat3x4", mr->size(), gmr, true, false);
    matrix<mat4x4, rotor>("produced rotor.as_mat4x4", mr->size(), gmr, true, false);
    matrix<mat3x4, motor>("produced motor.as_mat3x4", mm->size(), gmm, false, false);
    matrix<mat4x4, motor>("produced motor.as_mat4x4", mm->size(), gmm, false, false);
    matrix<mat3x4, rotor>("rotor.as_mat3x4", R.size(), gr, true, false);
    matrix<mat4x4, rotor>("rotor.as_mat4x4", R.size(), gr, true, false);
    matrix<mat3x4, motor>("motor.as_mat3x4", nm, gm, false, false);
    matrix<mat4x4, motor>("motor.as_mat4x4", nm, gm, false, false);
    if (A.lite) return;
    std::vector<Q4> RF = few_rotors();
    auto grf = [RF](u64 i) { return mk_rotor(RF[i]); };
    auto gmf = [RF, T2](u64 i) { return mk_motor(RF[i / T2.size()], T2[i % T2.size()]); };
    u64 nmf = (u64)RF.size() * T2.size() / (A.thorough() ? 1 : 8);
    matrix<mat3x4, rotor>("rotor.as_mat3x4", RF.size(), grf, true, true);
    matrix<mat4x4, rotor>("rotor.as_mat4x4", RF.size(), grf, true, true);
    matrix<mat3x4, motor>("motor.as_mat3x4", nmf, gmf, false, true);
    matrix<mat4x4, motor>("motor.as_mat4x4", nmf, gmf, false, true);
}

static std::vector<Space> mk_(Args const& a)
{
    A = a;
    out.clear();
#if GRP == 5
    c05();
#elif GRP == 6
    c06();
#elif GRP == 7
    c07();
#elif GRP == 8
    c08();
#endif
    return out;
}
int main(int c, char** v) { return run_main(c, v, mk_); }
