// C23-C28: the symbolic engine (algebra, polynomials, parser, printing, shell) explored exhaustively
// within bounds and judged by the reference model of symref.hpp. One group per property (-DGRP=n).
#include "symref.hpp"
#include <fstream>
#include <sys/resource.h>
#include "ga.hpp"
#include "parser.hpp"
#include "poly.hpp"
#include "repl.hpp"
#include <memory>
#include <sstream>
#include <stdexcept>
using namespace mc;

static std::vector<Space> out;
static Args A;
static sr::Sig const PGA = {3, 0, 1};

// ---- bridging -----------------------------------------------------------------------------
static mon tomon(sr::Mon const& m)
{
    mon o;
    for (auto const& f : m) o.push(f.first, f.second);
    return o;
}
static poly topoly(sr::Poly const& p)
{
    poly o;
    for (auto const& t : p) o.push(tomon(t.first), (float)t.second);
    return o;
}
static mv tomv(sr::Mv const& m, algebra const& a)
{
    mv o{a};
    for (auto const& t : m) o.push(t.first, topoly(t.second));
    return o;
}
// reads the stored form back, checking that it is canonical
static bool frommon(mon const& m, sr::Mon& o)
{
    for (auto const& f : m.factors)
    {
        if (f.second == 0 || o.count(f.first)) return false;
        o[f.first] = f.second;
    }
    return true;
}
static bool frompoly(poly const& p, sr::Poly& o)
{
    mon const* prev = nullptr;
    for (auto const& t : p.terms)
    {
        sr::Mon m;
        if (!frommon(t.first, m) || t.second == 0.f || o.count(m)) return false;
        if (prev && !(*prev < t.first)) return false;
        prev = &t.first;
        o[m] = t.second;
    }
    return true;
}
static bool frommv(mv const& m, sr::Mv& o)
{
    for (auto const& t : m.terms)
    {
        if (t.second.terms.empty()) return false;
        if (!frompoly(t.second, o[t.first])) return false;
    }
    return true;
}
static void judge(Ctx& c, const char* key, mv const& got, sr::Mv const& want, double rel = 0)
{
    sr::Mv g;
    bool canon = frommv(got, g);
    ++c.checks;
    c.mixs(sr::text(want));
    if (c.verbose) printf("  %s got %s\n    want %s\n", key, sr::text(g).c_str(), sr::text(want).c_str());
    if (!canon) c.fail(key, "%s: result is not in canonical form (empty or zero terms): %s, expected %s", key, sr::text(g).c_str(), sr::text(want).c_str());
    else if (!sr::same(g, want, rel)) c.fail(key, "%s: got %s, expected %s", key, sr::text(g).substr(0, 700).c_str(), sr::text(want).substr(0, 700).c_str());
}
static void judge(Ctx& c, const char* key, poly const& got, sr::Poly const& want)
{
    sr::Poly g;
    bool canon = frompoly(got, g);
    ++c.checks;
    sr::Mv gm, wm;
    gm[0] = g;
    wm[0] = want;
    c.mixs(sr::text(wm));
    if (c.verbose) printf("  %s got %s want %s\n", key, sr::text(gm).c_str(), sr::text(wm).c_str());
    if (!canon || !sr::same(g, want, 0)) c.fail(key, "%s: got %s%s, expected %s", key, sr::text(gm).c_str(), canon ? "" : " (not canonical)", sr::text(wm).c_str());
}
static sr::Poly P(double c, std::initializer_list<std::pair<const char*, int>> f = {})
{
    sr::Mon m;
    for (auto& x : f) m[x.first] = x.second;
    sr::Poly p;
    sr::padd(p, m, c);
    return p;
}

#if GRP == 23
static std::string sgn(sr::Sig s) { return "(" + std::to_string(s.p) + "," + std::to_string(s.q) + "," + std::to_string(s.r) + ")"; }
static std::string bl(sr::Blade b)
{
    std::string o = "e{";
    for (unsigned i : sr::idx(b)) o += std::to_string(i) + " ";
    return o + "}";
}
static void blade(Ctx& c, const char* key, int32_t got, sr::BR w)
{
    ++c.checks;
    // results encode sign * (blade + 1), 0 for a vanishing product
    int64_t want = w.sign == 0 ? 0 : (int64_t)w.sign * ((int64_t)w.b + 1);
    if (c.verbose) printf("  %s got %d want %lld\n", key, got, (long long)want);
    if (got != want) c.fail(key, "%s: got %d, expected %lld (sign * (blade + 1))", key, got, (long long)want);
}
static void pair_case(Ctx& c, algebra const& a, sr::Sig s, sr::Blade x, sr::Blade y)
{
    c.trans += 3;
    sr::BR g = sr::gp(x, y, s);
    blade(c, "geometric product of blades", a.mul(x, y), g);
    blade(c, "exterior product of blades", a.ext(x, y), sr::ext(x, y, s));
    blade(c, "inner product of blades", a.dot(x, y), sr::dot(x, y, s));
    c.mix((float)g.sign);
    c.mix((float)g.b);
}
static std::vector<sr::Sig> sigs(unsigned lo, unsigned hi)
{
    std::vector<sr::Sig> v;
    for (unsigned d = lo; d <= hi; ++d)
        for (unsigned r = 0; r <= d; ++r)
            for (unsigned q = 0; q + r <= d; ++q) v.push_back(sr::Sig{d - q - r, q, r});
    return v;
}
static std::vector<Space> make(Args const& a)
{
    A = a;
    // all blade pairs of every signature up to a dimension
    {
        struct E { sr::Sig s; u64 base; };
        auto v = std::make_shared<std::vector<E>>();
        u64 n  = 0;
        for (auto s : sigs(0, A.lite ? 4 : A.thorough() ? 9 : 7))
        {
            v->push_back(E{s, n});
            n += (u64)1 << (2 * s.dim());
        }
        auto get = [v](u64 i, sr::Sig& s, sr::Blade& x, sr::Blade& y) {
            size_t lo = 0, hi = v->size();
            while (hi - lo > 1) { size_t m = (lo + hi) / 2; ((*v)[m].base <= i ? lo : hi) = m; }
            s = (*v)[lo].s;
            u64 k = i - (*v)[lo].base;
            x = (sr::Blade)(k >> s.dim());
            y = (sr::Blade)(k & (((u64)1 << s.dim()) - 1));
        };
        out.push_back(Space{"blade pairs of every signature", n,
            [get](u64 i, Ctx& c) {
                sr::Sig s; sr::Blade x, y;
                get(i, s, x, y);
                algebra al{s.p, s.q, s.r};
                pair_case(c, al, s, x, y);
                if (y == 0)
                {
                    ++c.checks;
                    if (al.rev(x) != (sr::revsign(x) < 0)) c.fail("reversion of a blade", "reversion parity of %s in %s is wrong", bl(x).c_str(), sgn(s).c_str());
                    if (x == 0 && al.pss() != (s.dim() ? (uint32_t)(((u64)1 << s.dim()) - 1) : 0u)) c.fail("pseudoscalar", "pss is %u", al.pss());
                    if (!(al == algebra{s.p, s.q, s.r}) || al == algebra{s.p + 1, s.q, s.r} || al == algebra{s.p, s.q + 1, s.r} || al == algebra{s.p, s.q, s.r + 1})
                        c.fail("algebra equality", "equality of algebras %s", sgn(s).c_str());
                }
            },
            [get](u64 i) { sr::Sig s; sr::Blade x, y; get(i, s, x, y); return "algebra " + sgn(s) + " " + bl(x) + " , " + bl(y); }});
    }
    // large signatures: structured blades
    {
        auto sv = std::make_shared<std::vector<sr::Sig>>();
        for (unsigned d = 8; d <= 30; ++d)
            for (unsigned r = 0; r <= d; ++r)
                for (unsigned q = 0; q + r <= d; ++q)
                    if (A.thorough() || (r <= 2 || q <= 1 || r + q == d) ) sv->push_back(sr::Sig{d - q - r, q, r});
        auto bv = [](unsigned d) {
            std::vector<sr::Blade> b;
            u64 full = ((u64)1 << d) - 1;
            auto put = [&](u64 x) { b.push_back((sr::Blade)(x & full)); };
            put(0); put(full); put(0x55555555u); put(0xaaaaaaaau); put(0x33333333u); put(0x0f0f0f0fu); put(0xff); put(0xff00); put(0x1ff); put(full >> 1); put(full ^ 2);
            for (unsigned i = 0; i < d; i += (d > 16 && i != 7 && i != 8 && i + 2 < d ? 2 : 1)) { put((u64)1 << i); put(((u64)1 << i) | ((u64)1 << (d - 1))); put(((u64)3 << i)); put(full ^ ((u64)1 << i)); }
            std::sort(b.begin(), b.end());
            b.erase(std::unique(b.begin(), b.end()), b.end());
            return b;
        };
        out.push_back(Space{"structured blades of large signatures", (u64)(A.lite ? 20 : sv->size()),
            [sv, bv](u64 i, Ctx& c) {
                sr::Sig s = (*sv)[i];
                algebra al{s.p, s.q, s.r};
                std::vector<sr::Blade> b = bv(s.dim());
                c.states = b.size() * b.size();
                for (auto x : b)
                {
                    ++c.checks;
                    if (al.rev(x) != (sr::revsign(x) < 0)) c.fail("reversion of a blade", "reversion parity of %s in %s is wrong", bl(x).c_str(), sgn(s).c_str());
                    for (auto y : b)
                    {
                        bool was = c.failed;
                        pair_case(c, al, s, x, y);
                        if (c.failed && !was) c.msg += " for " + bl(x) + " , " + bl(y);
                    }
                }
            },
            [sv](u64 i) { return "algebra " + sgn((*sv)[i]); }});
    }
    // associativity and the grade laws through the implementation's own results
    {
        auto sv = std::make_shared<std::vector<sr::Sig>>(sigs(1, A.lite ? 2 : A.thorough() ? 5 : 4));
        auto n1 = std::make_shared<std::vector<u64>>();
        u64 n = 0;
        for (auto s : *sv) { n1->push_back(n); n += (u64)1 << (3 * s.dim()); }
        auto get = [sv, n1](u64 i, sr::Sig& s, sr::Blade* b) {
            size_t k = std::upper_bound(n1->begin(), n1->end(), i) - n1->begin() - 1;
            s = (*sv)[k];
            u64 r = i - (*n1)[k];
            for (int j = 0; j != 3; ++j) { b[j] = (sr::Blade)(r & (((u64)1 << s.dim()) - 1)); r >>= s.dim(); }
        };
        out.push_back(Space{"associativity on blade triples", n,
            [get](u64 i, Ctx& c) {
                sr::Sig s; sr::Blade b[3];
                get(i, s, b);
                algebra al{s.p, s.q, s.r};
                for (int k = 0; k != 2; ++k)
                {
                    auto f = [&](int32_t x, int32_t y) -> int32_t {
                        if (!x || !y) return 0;
                        int32_t g = k ? al.ext(std::abs(x) - 1, std::abs(y) - 1) : al.mul(std::abs(x) - 1, std::abs(y) - 1);
                        ++c.trans;
                        return (x < 0) != (y < 0) ? -g : g;
                    };
                    int32_t x = b[0] + 1, y = b[1] + 1, z = b[2] + 1;
                    c.expect(f(f(x, y), z) == f(x, f(y, z)), k ? "exterior associativity" : "geometric associativity", "(a b) c == a (b c)");
                }
                c.mix((float)i);
            },
            [get](u64 i) { sr::Sig s; sr::Blade b[3]; get(i, s, b); return "algebra " + sgn(s) + " " + bl(b[0]) + bl(b[1]) + bl(b[2]); }});
    }
    // regressive product and dual of (3,0,1)
    out.push_back(Space{"regressive product of (3,0,1)", 256,
        [](u64 i, Ctx& c) {
            sr::Blade x = (sr::Blade)(i / 16), y = (sr::Blade)(i % 16);
            algebra al{3, 0, 1};
            blade(c, "regressive product of blades", al.reg(x, y), sr::reg31(x, y));
            sr::BR d = sr::dual31(x);
            blade(c, "dual of a blade", al.dual(x), d);
            int32_t dd = al.dual(std::abs(al.dual(x)) - 1);
            c.expect((al.dual(x) < 0 ? -dd : dd) == (int32_t)x + 1, "dual is an involution", "dual(dual(x)) == x");
            c.mix((float)i);
        },
        [](u64 i) { return bl((sr::Blade)(i / 16)) + " & " + bl((sr::Blade)(i % 16)); }});
    // multivectors with polynomial coefficients: all pairs of two-term multivectors
    {
        std::vector<sr::Sig> ss = {{3, 0, 1}, {2, 1, 0}, {1, 3, 0}, {0, 2, 1}, {2, 0, 2}};
        std::vector<sr::Poly> cs = {P(1), P(-2, {{"a", 1}}), sr::padd(P(1, {{"a", 1}}), P(-1, {{"b", 1}})), sr::padd(P(0.5, {{"a", -1}}), P(1, {{"b", 1}}))};
        if (A.lite) { ss.resize(1); cs.resize(2); }
        for (auto s : ss)
        {
            unsigned nb = 1u << s.dim();
            // multivectors: every single term, and every pair of blades with a fixed choice of coefficients
            auto mvs = std::make_shared<std::vector<sr::Mv>>();
            mvs->push_back(sr::Mv());
            for (unsigned x = 0; x != nb; ++x)
                for (auto const& p : cs) { sr::Mv m; sr::add(m, x, p); mvs->push_back(m); }
            unsigned step = A.thorough() ? 1 : 3;
            for (unsigned x = 0, k = 0; x != nb; ++x)
                for (unsigned y = x + 1; y != nb; ++y, ++k)
                {
                    if (k % step && !(x == 0)) continue;
                    sr::Mv m;
                    sr::add(m, x, cs[k % cs.size()]);
                    sr::add(m, y, cs[(k / cs.size() + 1) % cs.size()]);
                    mvs->push_back(m);
                }
            u64 n = mvs->size();
            out.push_back(Space{"products and sums of multivectors of " + sgn(s), n * n,
                [mvs, s, n](u64 i, Ctx& c) {
                    sr::Mv const &x = (*mvs)[i / n], &y = (*mvs)[i % n];
                    algebra al{s.p, s.q, s.r};
                    mv mx = tomv(x, al), my = tomv(y, al);
                    bool pga = s.p == 3 && s.q == 0 && s.r == 1;
                    c.trans = pga ? 12 : 10;
                    judge(c, "a * b", mx * my, sr::mul('*', x, y, s));
                    judge(c, "a ^ b", mx ^ my, sr::mul('^', x, y, s));
                    judge(c, "a | b", mx | my, sr::mul('|', x, y, s));
                    judge(c, "a + b", mx + my, sr::add(x, y));
                    { mv t = mx; t *= my; judge(c, "a *= b", t, sr::mul('*', x, y, s)); }
                    { mv t = mx; t ^= my; judge(c, "a ^= b", t, sr::mul('^', x, y, s)); }
                    { mv t = mx; t |= my; judge(c, "a |= b", t, sr::mul('|', x, y, s)); }
                    { mv t = mx; t += my; judge(c, "a += b", t, sr::add(x, y)); }
                    { mv t = mx; t -= my; judge(c, "a -= b", t, sr::add(x, y, -1)); }
                    if (pga)
                    {
                        judge(c, "a & b", mx & my, sr::mul('&', x, y, s));
                        mv t = mx; t &= my;
                        judge(c, "a &= b", t, sr::mul('&', x, y, s));
                    }
                    if (i % n == 0)
                    {
                        judge(c, "-a", -mx, sr::neg(x));
                        judge(c, "~a", ~mx, sr::rev(x));
                        judge(c, "-(moved a)", -mv(mx), sr::neg(x));
                        judge(c, "~(moved a)", ~mv(mx), sr::rev(x));
                        judge(c, "-~a", -~mx, sr::neg(sr::rev(x)));
                        judge(c, "~-a", ~-mx, sr::neg(sr::rev(x)));
                        { mv t = mx; t *= t; judge(c, "a *= a", t, sr::mul('*', x, x, s)); }
                        { mv t = mx; t ^= t; judge(c, "a ^= a", t, sr::mul('^', x, x, s)); }
                        { mv t = mx; t |= t; judge(c, "a |= a", t, sr::mul('|', x, x, s)); }
                        { mv t = mx; t += mv(mx); judge(c, "a += copy of a", t, sr::add(x, x)); }
                        { mv t = mx; t -= mv(mx); judge(c, "a -= copy of a", t, sr::Mv()); }
                        { mv t = mx; t += t; judge(c, "a += a", t, sr::add(x, x)); }
                        { mv t = mx; t -= t; judge(c, "a -= a", t, sr::Mv()); }
                        { mv t = mx; t = t * my; judge(c, "a = a * b", t, sr::mul('*', x, y, s)); }
                    }
                    judge(c, "left operand afterwards", mx, x);
                    judge(c, "right operand afterwards", my, y);
                },
                [mvs, n](u64 i) { return sr::text((*mvs)[i / n]) + " , " + sr::text((*mvs)[i % n]); }});
        }
    }
    // fully general symbolic multivectors, grade subsets on each side
    {
        out.push_back(Space{"general symbolic multivectors by grade subset", (u64)(A.lite ? 40 : 31 * 31),
            [](u64 i, Ctx& c) {
                algebra al{3, 0, 1};
                auto gen = [](unsigned mask, const char* v) {
                    sr::Mv m;
                    for (unsigned b = 0; b != 16; ++b)
                        if (mask >> sr::grade(b) & 1) sr::add(m, b, P(1, {{(std::string(v) + std::to_string(b)).c_str(), 1}}));
                    return m;
                };
                sr::Mv x = gen(1 + (unsigned)(i / 31), "x"), y = gen(1 + (unsigned)(i % 31), "y");
                mv mx = tomv(x, al), my = tomv(y, al);
                judge(c, "general a * b", mx * my, sr::mul('*', x, y, PGA));
                judge(c, "general a ^ b", mx ^ my, sr::mul('^', x, y, PGA));
                judge(c, "general a | b", mx | my, sr::mul('|', x, y, PGA));
                judge(c, "general a & b", mx & my, sr::mul('&', x, y, PGA));
                judge(c, "general sandwich", (mx * my) * ~mx, sr::mul('*', sr::mul('*', x, y, PGA), sr::rev(x), PGA));
                c.trans = 6;
            },
            [](u64 i) { return "grade masks " + std::to_string(1 + i / 31) + " , " + std::to_string(1 + i % 31); }});
    }
    return out;
}
#endif

#if GRP == 24
static sr::Mon M(int a, int b, int v3)
{
    sr::Mon m;
    if (a) m["a"] = a;
    if (b) m["ab"] = b;
    if (v3) m["b"] = v3;
    return m;
}
static std::string mt(sr::Mon const& m)
{
    std::string o;
    for (auto& f : m) o += f.first + "^" + std::to_string(f.second) + " ";
    return o.empty() ? "1" : o;
}
static std::string pt(sr::Poly const& p)
{
    std::string o;
    char b[40];
    for (auto& t : p) { snprintf(b, sizeof b, "%+g ", t.second); o += b + mt(t.first); }
    return o.empty() ? "0" : o;
}
static std::vector<Space> make(Args const& a)
{
    A = a;
    // histories of monomial pushes
    {
        int depth = A.lite ? 3 : A.thorough() ? 6 : 5;
        u64 nop   = 15; // 3 variables x exponents -2..2
        out.push_back(Space{"monomial push histories", ipow(nop, depth),
            [=](u64 i, Ctx& c) {
                static const char* vs[] = {"b", "a", "ab"};
                Dig d(i);
                mon m, lhs, rhs, prod;
                sr::Mon w;
                for (int k = 0; k != depth; ++k)
                {
                    int v = (int)d(3), e = (int)d(5) - 2;
                    m.push(vs[v], e);
                    (k & 1 ? lhs : rhs).push(vs[v], e);
                    if (e && (w[vs[v]] += e) == 0) w.erase(vs[v]);
                    sr::Mon g;
                    c.expect(frommon(m, g) && g == w, "monomial push", "factors are the sum of the pushed exponents, without zeros");
                    ++c.trans;
                }
                prod = lhs * rhs;
                c.expect(prod == m && rhs * lhs == m, "monomial product", "product does not depend on order or grouping");
                c.expect(std::hash<mon>{}(prod) == std::hash<mon>{}(m), "monomial hash", "equal monomials hash equally");
                int deg = 0;
                for (auto& f : w) deg += f.second;
                c.expect(m.degree() == deg, "degree", "degree is the sum of exponents");
                c.mixs(mt(w));
            },
            [=](u64 i) {
                static const char* vs[] = {"b", "a", "ab"};
                Dig d(i);
                std::string o = "push ";
                for (int k = 0; k != depth; ++k) { int v = (int)d(3), e = (int)d(5) - 2; o += std::string(vs[v]) + "^" + std::to_string(e) + " "; }
                return o;
            }});
    }
    // ordering is a strict total order consistent with equality and products
    {
        auto ms = std::make_shared<std::vector<sr::Mon>>();
        int e = A.lite ? 1 : 2;
        for (int x = -e; x <= e; ++x)
            for (int y = -e; y <= e; ++y)
                for (int z = -e; z <= e; ++z) ms->push_back(M(x, y, z));
        auto im = std::make_shared<std::vector<mon>>();
        for (auto& m : *ms) im->push_back(tomon(m));
        u64 n = ms->size();
        out.push_back(Space{"monomial pairs", n * n,
            [=](u64 i, Ctx& c) {
                mon const &x = (*im)[i / n], &y = (*im)[i % n];
                bool eq = i / n == i % n;
                c.expect((x == y) == eq, "monomial equality", "equal exactly when the factors are equal");
                c.expect((x < y) + (y < x) + (x == y) == 1, "monomial order", "exactly one of <, >, == holds");
                int dx = x.degree(), dy = y.degree();
                c.expect(dx == dy || (x < y) == (dx < dy), "monomial order", "smaller degree comes first");
                mon p = x;
                p *= y;
                sr::Mon g, w = sr::mmul((*ms)[i / n], (*ms)[i % n]);
                c.expect(frommon(p, g) && g == w, "monomial *=", "product adds exponents");
                mon q = x * y;
                c.expect(q == p && y * x == p, "monomial product commutes", "x*y == y*x");
                mon s = x;
                s *= s;
                sr::Mon gs;
                c.expect(frommon(s, gs) && gs == sr::mmul((*ms)[i / n], (*ms)[i / n]), "monomial *= itself", "square doubles exponents");
                c.mixs(mt(w));
                c.trans = 4;
            },
            [=](u64 i) { return mt((*ms)[i / n]) + " , " + mt((*ms)[i % n]); }});
        u64 n2 = A.thorough() ? n : n < 60 ? n : 60;
        out.push_back(Space{"monomial triples", n2 * n2 * n2,
            [=](u64 i, Ctx& c) {
                auto at = [&](u64 k) -> mon const& { return (*im)[n2 == n ? k : k * 2]; };
                mon const &x = at(i / n2 / n2), &y = at(i / n2 % n2), &z = at(i % n2);
                c.expect(!(x < y && y < z) || x < z, "monomial order", "transitive");
                if (i % 7 == 0) c.expect((x * y) * z == x * (y * z), "monomial product associates", "(xy)z == x(yz)");
                c.mix((float)(i % 4096));
            },
            [=](u64 i) { auto at = [&](u64 k) { return mt((*ms)[n2 == n ? k : k * 2]); }; return at(i / n2 / n2) + " , " + at(i / n2 % n2) + " , " + at(i % n2); }});
    }
    std::vector<sr::Mon> mm = {M(0, 0, 0), M(1, 0, 0), M(0, 0, 1), M(1, 0, -1), M(-1, 0, 0), M(2, 0, 0)};
    std::vector<double> cf = {1, -1, 2, -0.5, 0};
    // histories over two polynomial registers
    {
        struct Op { int kind; sr::Mon m; double c; };
        auto ops = std::make_shared<std::vector<Op>>();
        for (auto& m : mm)
            for (double f : cf) ops->push_back(Op{0, m, f});
        for (int k = 1; k != 11; ++k) ops->push_back(Op{k, {}, 0});
        u64 no    = ops->size();
        int depth = A.lite ? 2 : A.thorough() ? 5 : 4;
        auto opt = [](Op const& o) -> std::string {
            static const char* nm[] = {"", "p+=q", "p*=q", "p=-p", "p=-poly(p)", "swap", "p=p+q", "p=q*p", "p+=p", "p*=p", "q=p"};
            if (o.kind) return nm[o.kind];
            char b[40];
            snprintf(b, sizeof b, "p.push(%g ", o.c);
            return b + mt(o.m) + ")";
        };
        out.push_back(Space{"polynomial operation histories", ipow(no, depth),
            [=](u64 i, Ctx& c) {
                Dig d(i);
                poly p, q;
                sr::Poly wp, wq;
                // a fixed start that already holds terms
                q.push(tomon(M(1, 0, 0)), 1.f);
                q.push(tomon(M(0, 0, 0)), -1.f);
                sr::padd(wq, M(1, 0, 0), 1);
                sr::padd(wq, M(0, 0, 0), -1);
                for (int k = 0; k != depth; ++k)
                {
                    Op const& o = (*ops)[d(no)];
                    switch (o.kind)
                    {
                    case 0: p.push(tomon(o.m), (float)o.c); sr::padd(wp, o.m, o.c); break;
                    case 1: p += q; wp = sr::padd(wp, wq); break;
                    case 2: p *= q; wp = sr::pmul(wp, wq); break;
                    case 3: p = -p; wp = sr::pneg(wp); break;
                    case 4: p = -poly(p); wp = sr::pneg(wp); break;
                    case 5: std::swap(p, q); std::swap(wp, wq); break;
                    case 6: p = p + q; wp = sr::padd(wp, wq); break;
                    case 7: p = q * p; wp = sr::pmul(wp, wq); break;
                    case 8: p += p; wp = sr::padd(wp, wp); break;
                    case 9: p *= p; wp = sr::pmul(wp, wp); break;
                    case 10: q = p; wq = wp; break;
                    }
                    ++c.trans;
                    std::string key = o.kind ? opt(o) : std::string("push");
                    judge(c, key.c_str(), p, wp);
                }
                judge(c, "q", q, wq);
            },
            [=](u64 i) {
                Dig d(i);
                std::string o = "q=a-1; ";
                for (int k = 0; k != depth; ++k) o += opt((*ops)[d(no)]) + "; ";
                return o;
            }});
    }
    // coefficients of every magnitude: one term against another
    {
        auto cs = std::make_shared<std::vector<float>>();
        int  e0 = A.lite ? 6 : 60;
        for (int e = -e0; e <= e0; e += A.lite ? 3 : A.thorough() ? 1 : 2)
            for (float m : {1.f, 1.5f, 1.f + 1.f / (1 << 23), 2.f - 1.f / (1 << 23), 1.f + 1.f / 1024, 1.f - 1.f / 4096})
                for (int sg : {1, -1}) cs->push_back(std::ldexp(sg * m, e));
        u64 n = cs->size();
        out.push_back(Space{"coefficients of every magnitude", n * n,
            [=](u64 i, Ctx& c) {
                float  x = (*cs)[i / n], y = (*cs)[i % n];
                sr::Mon m = M(1, 0, 0), k = M(0, 0, 1);
                auto one = [&](sr::Mon const& mm_, float f) { poly p; p.push(tomon(mm_), f); return p; };
                auto ref = [&](sr::Mon const& mm_, double f) { sr::Poly p; sr::padd(p, mm_, (double)(float)f); return p; };
                poly p = one(m, x);
                p.push(tomon(m), y);
                judge(c, "push twice", p, ref(m, (double)x + y));
                poly q = one(m, x);
                q += one(m, y);
                judge(c, "+=", q, ref(m, (double)x + y));
                judge(c, "+", one(m, x) + one(m, y), ref(m, (double)x + y));
                judge(c, "*", one(m, x) * one(k, y), ref(sr::mmul(m, k), (double)x * y));
                poly r = one(M(0, 0, 0), x);
                r *= one(m, y);
                judge(c, "*=", r, ref(m, (double)x * y));
                // two terms with a common product
                poly s2 = one(m, x);
                s2.push(tomon(k), y);
                sr::Poly w = ref(m, x);
                sr::padd(w, k, y);
                judge(c, "two terms", s2, w);
                sr::Poly w2 = ref(m, -x);
                sr::padd(w2, k, -y);
                judge(c, "negated", -s2, w2);
                sr::Poly zero;
                judge(c, "sum with its negative", s2 + -s2, zero);
                c.trans = 8;
            },
            [=](u64 i) { char b[80]; snprintf(b, sizeof b, "coefficients %.9g and %.9g", (*cs)[i / n], (*cs)[i % n]); return std::string(b); }});
    }
    // growth: powers, long sums, long products and large exponents
    {
        int n = A.lite ? 6 : A.thorough() ? 24 : 18;
        out.push_back(Space{"powers, long sums and long products", (u64)n * 6,
            [=](u64 i, Ctx& c) {
                int k = (int)(i / 6) + 1;
                poly p;
                sr::Poly w;
                switch (i % 6)
                {
                case 0: case 1: case 2: { // (u v)^k by repeated multiplication, from either side
                    sr::Poly b;
                    if (i % 6 == 0) { sr::padd(b, M(1, 0, 0), 1); sr::padd(b, M(0, 0, 1), -1); }
                    if (i % 6 == 1) { sr::padd(b, M(1, 0, 0), 1); sr::padd(b, M(0, 0, 0), 1); }
                    if (i % 6 == 2) { sr::padd(b, M(1, 0, 0), 1); sr::padd(b, M(-1, 0, 0), 1); }
                    sr::padd(w, M(0, 0, 0), 1);
                    p.push(mon{}, 1.f);
                    poly ib = topoly(b);
                    for (int j = 0; j != k; ++j)
                    {
                        if (j & 1) p *= ib; else p = ib * p;
                        w = sr::pmul(w, b);
                        judge(c, "power", p, w);
                    }
                    break; }
                case 3: { // sum over many variables, squared
                    for (int j = 0; j != k * 3; ++j)
                    {
                        sr::Mon m;
                        m["x" + std::to_string(j * 7 % (k * 3))] = 1 + j % 2;
                        p.push(tomon(m), (float)(j + 1));
                        sr::padd(w, m, j + 1);
                    }
                    judge(c, "long sum", p, w);
                    judge(c, "square of a long sum", p * p, sr::pmul(w, w));
                    poly q = p;
                    q *= p;
                    judge(c, "square of a long sum in place", q, sr::pmul(w, w));
                    break; }
                case 4: { // one monomial of many factors, against its inverse
                    sr::Mon m, inv;
                    for (int j = 0; j != k * 3; ++j) { std::string v = "y" + std::to_string(j * 5 % (k * 3)); m[v] = (j % 7) - 9; inv[v] = 9 - (j % 7); }
                    p.push(tomon(m), 2.f);
                    poly q;
                    q.push(tomon(inv), 0.5f);
                    sr::padd(w, M(0, 0, 0), 1);
                    judge(c, "product with the inverse monomial", p * q, w);
                    mon mm1 = tomon(m);
                    mm1 *= tomon(inv);
                    c.expect(mm1 == mon{} && tomon(m) * tomon(inv) == mon{}, "monomial product", "a monomial times its inverse is one");
                    break; }
                case 5: { // large exponents
                    int e = 1 << k;
                    sr::Mon m, m2;
                    m["a"] = e;
                    m["b"] = 1 - e;
                    m2["a"] = -e - 1;
                    m2["b"] = e;
                    p.push(tomon(m), 1.f);
                    sr::Poly b;
                    sr::padd(w, m, 1);
                    sr::padd(b, m2, 3);
                    judge(c, "large exponents", p * topoly(b), sr::pmul(w, b));
                    c.expect(tomon(m).degree() == 1 && tomon(m2).degree() == -1, "degree", "degree of large exponents");
                    break; }
                }
                c.trans = k;
            },
            [=](u64 i) { static const char* nm[] = {"(a-b)^", "(a+1)^", "(a+1/a)^", "sum of 3*", "monomial of 3*", "exponents 2^"}; return nm[i % 6] + std::to_string(i / 6 + 1); }});
    }
    // pairs of exponents of every size: each sum and product adds them exactly
    {
        auto es = std::make_shared<std::vector<int>>();
        int dense = A.lite ? 12 : A.thorough() ? 300 : 140;
        for (int e = -dense; e <= dense; ++e) es->push_back(e);
        for (int k = 4; k != 30; ++k)
            for (int o = -2; o <= 2; ++o)
                for (int sg : {1, -1}) { int e = sg * ((1 << k) + o); if (std::abs(e) > dense) es->push_back(e); }
        for (int e : {200, 1000, 10000, 99999, 100000, 123456789}) for (int sg : {1, -1}) if (e > dense) es->push_back(sg * e);
        u64 n = es->size();
        out.push_back(Space{"pairs of exponents of every size", n * n,
            [=](u64 i, Ctx& c) {
                int x = (*es)[i / n], y = (*es)[i % n];
                auto MM = [](int a_, int b_) { sr::Mon m; if (a_) m["a"] = a_; if (b_) m["k"] = b_; return m; };
                sr::Mon w = MM(x + y, 1), g;
                mon p;
                p.push("a", x);
                p.push("k");
                p.push("a", y);
                c.expect(frommon(p, g) && g == w, "monomial push", "exponents of every size add");
                mon l = tomon(MM(x, 1)), r = tomon(MM(y, 0)), lr = l * r;
                g.clear();
                c.expect(frommon(lr, g) && g == w && r * l == lr && lr == p, "monomial product", "exponents of every size add");
                mon q = r;
                q *= l;
                c.expect(q == p, "monomial *=", "exponents of every size add");
                c.expect(p.degree() == x + y + 1, "degree", "degree is the sum of exponents");
                mon ly = tomon(MM(y, 1));
                c.expect((l == ly) == (x == y), "monomial equality", "equal exactly when the exponents are");
                c.expect((l < ly) == (x < y) && (ly < l) == (y < x), "monomial order", "ordered by degree");
                poly pl, pr;
                pl.push(l, 3.f);
                pr.push(r, 2.f);
                pr.push(mon{}, 1.f);
                sr::Poly wl, wr;
                sr::padd(wl, MM(x, 1), 3);
                sr::padd(wr, MM(y, 0), 2);
                sr::padd(wr, MM(0, 0), 1);
                judge(c, "product", pl * pr, sr::pmul(wl, wr));
                judge(c, "sum", pl + pr, sr::padd(wl, wr));
                c.trans = 6;
            },
            [=](u64 i) { return "exponents " + std::to_string((*es)[i / n]) + " and " + std::to_string((*es)[i % n]); }});
    }
    // operands of every size: number of terms of both factors, number of factors of both monomials, length of names
    {
        auto ns = std::make_shared<std::vector<int>>();
        for (int k = 0; k <= (A.lite ? 5 : 20); ++k) ns->push_back(k);
        if (!A.lite) for (int k : {24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000}) if (A.thorough() || k < 600) ns->push_back(k);
        u64 n = ns->size();
        out.push_back(Space{"operands of every number of terms", n * n * 3,
            [=](u64 i, Ctx& c) {
                Dig d(i);
                int kind = (int)d(3), x = (*ns)[d(n)], y = (*ns)[d(n)];
                if ((u64)x * y > (A.thorough() ? 60000u : 5000u)) { x = std::min(x, 24); }
                auto mk = [&](int k, const char* v, int step, poly& p, sr::Poly& w) {
                    for (int j = 0; j != k; ++j)
                    {
                        sr::Mon m;
                        if (kind == 0) m[v + std::to_string(j * step)] = 1; // many variables
                        else { m[v] = 1 + j * step; if (kind == 2 && j) m["k"] = -j; } // one variable, many exponents
                        float f = (float)((j % 5) - 2 ? (j % 5) - 2 : 7);
                        p.push(tomon(m), f);
                        sr::padd(w, m, f);
                    }
                };
                poly p, q;
                sr::Poly wp, wq;
                mk(x, "x", 1, p, wp);
                mk(y, kind == 2 ? "y" : "x", kind == 0 ? 2 : 1, q, wq);
                judge(c, "product of long sums", p * q, sr::pmul(wp, wq));
                judge(c, "sum of long sums", p + q, sr::padd(wp, wq));
                poly r = p;
                r += q;
                judge(c, "sum in place", r, sr::padd(wp, wq));
                r += -p;
                judge(c, "sum minus one summand", r, wq);
                judge(c, "negated long sum", -p, sr::pneg(wp));
                c.trans = 5;
            },
            [=](u64 i) { Dig d(i); int kind = (int)d(3), x = (*ns)[d(n)], y = (*ns)[d(n)]; return "kind " + std::to_string(kind) + " with " + std::to_string(x) + " and " + std::to_string(y) + " terms"; }});
        out.push_back(Space{"monomials of every number of factors", n * n * 2,
            [=](u64 i, Ctx& c) {
                Dig d(i);
                int shared = (int)d(2), x = (*ns)[d(n)], y = (*ns)[d(n)];
                sr::Mon m, k;
                for (int j = 0; j != x; ++j) m["v" + std::to_string(j)] = 1 + j % 3;
                for (int j = 0; j != y; ++j) k[(shared ? "v" : "w") + std::to_string(j * 2)] = j % 4 - 2 ? j % 4 - 2 : 3;
                mon im = tomon(m), ik = tomon(k);
                sr::Mon w = sr::mmul(m, k), g;
                c.expect(frommon(im * ik, g) && g == w, "monomial product", "factors of both operands");
                c.expect(ik * im == im * ik, "monomial product commutes", "x*y == y*x");
                im *= ik;
                g.clear();
                c.expect(frommon(im, g) && g == w, "monomial *=", "factors of both operands");
                int deg = 0;
                for (auto& f : w) deg += f.second;
                c.expect(im.degree() == deg, "degree", "sum of exponents");
                mon rev;
                for (auto it = w.rbegin(); it != w.rend(); ++it) rev.push(it->first, it->second);
                c.expect(rev == im && std::hash<mon>{}(rev) == std::hash<mon>{}(im), "monomial push", "order of pushes is irrelevant");
                c.trans = 4;
            },
            [=](u64 i) { Dig d(i); int kind = (int)d(2), x = (*ns)[d(n)], y = (*ns)[d(n)]; return std::to_string(kind) + ": monomials of " + std::to_string(x) + " and " + std::to_string(y) + " factors"; }});
        // two names equal up to one position
        int nl = A.lite ? 8 : A.thorough() ? 200 : 72;
        out.push_back(Space{"names of every length", (u64)nl * nl * 4,
            [=](u64 i, Ctx& c) {
                Dig d(i);
                int kind = (int)d(4), len = 1 + (int)d(nl), pos = (int)d(nl) % len;
                std::string u(len, 'q'), v = u;
                if (kind == 0) v[pos] = 'r';
                else if (kind == 1) v[pos] = 'Q';
                else if (kind == 2) v[pos] = '7';
                else v += std::string(1 + pos % 3, 'q');
                sr::Mon mu{{u, 1}}, mv_{{v, 1}};
                mon iu = tomon(mu), iv = tomon(mv_);
                c.expect(!(iu == iv) && (iu < iv) != (iv < iu), "names", "different names are different variables");
                poly p;
                p.push(iu, 1.f);
                p.push(iv, -1.f);
                sr::Poly w;
                sr::padd(w, mu, 1);
                sr::padd(w, mv_, -1);
                judge(c, "difference of two variables", p, w);
                judge(c, "square of a difference", p * p, sr::pmul(w, w));
                c.trans = 2;
            },
            [=](u64 i) { Dig d(i); int kind = (int)d(4), len = 1 + (int)d(nl); return "names of length " + std::to_string(len) + " kind " + std::to_string(kind); }});
    }
    // ring axioms on all triples of a set of polynomials
    {
        auto ps = std::make_shared<std::vector<sr::Poly>>();
        ps->push_back(sr::Poly());
        std::vector<double> c2 = {1, -1, 2};
        for (auto& m : mm)
            for (double f : c2) { sr::Poly p; sr::padd(p, m, f); ps->push_back(p); }
        for (size_t x = 0; x != mm.size(); ++x)
            for (size_t y = x + 1; y != mm.size(); ++y)
                for (double f : c2) { sr::Poly p; sr::padd(p, mm[x], 1); sr::padd(p, mm[y], f); ps->push_back(p); }
        if (A.lite) ps->resize(20);
        else if (A.thorough())
            for (size_t x = 0; x != mm.size(); ++x)
                for (size_t y = x + 1; y != mm.size(); ++y)
                    for (size_t z = y + 1; z != mm.size(); ++z)
                        for (double f : {1.0, -1.0}) { sr::Poly p; sr::padd(p, mm[x], 1); sr::padd(p, mm[y], f); sr::padd(p, mm[z], -f); ps->push_back(p); }
        auto ip = std::make_shared<std::vector<poly>>();
        for (auto& p : *ps) ip->push_back(topoly(p));
        u64 n = ps->size();
        out.push_back(Space{"ring axioms on polynomial triples", n * n * n,
            [=](u64 i, Ctx& c) {
                u64 ix = i / n / n, iy = i / n % n, iz = i % n;
                poly const &x = (*ip)[ix], &y = (*ip)[iy], &z = (*ip)[iz];
                sr::Poly const &wx = (*ps)[ix], &wy = (*ps)[iy], &wz = (*ps)[iz];
                judge(c, "x * (y + z)", x * (y + z), sr::pmul(wx, sr::padd(wy, wz)));
                poly l = x * y, r = x * z;
                l += r;
                judge(c, "x y + x z", l, sr::pmul(wx, sr::padd(wy, wz)));
                judge(c, "(x * y) * z", (x * y) * z, sr::pmul(sr::pmul(wx, wy), wz));
                judge(c, "(x + y) + z", (x + y) + z, sr::padd(sr::padd(wx, wy), wz));
                if (iz == 0)
                {
                    judge(c, "y * x", y * x, sr::pmul(wx, wy));
                    judge(c, "x + y", x + y, sr::padd(wx, wy));
                    judge(c, "y + x", y + x, sr::padd(wx, wy));
                    judge(c, "x + -x", x + -x, sr::Poly());
                    judge(c, "operand x afterwards", x, wx);
                }
                c.trans = 9;
            },
            [=](u64 i) { return pt((*ps)[i / n / n]) + " , " + pt((*ps)[i / n % n]) + " , " + pt((*ps)[i % n]); }});
    }
    // the order of pushes is irrelevant: all permutations of every list of terms
    {
        int len = A.lite ? 4 : 5;
        int nt  = A.thorough() ? 10 : 8;
        u64 fact = 1;
        for (int k = 2; k <= len; ++k) fact *= k;
        auto ts = std::make_shared<std::vector<std::pair<sr::Mon, double>>>();
        for (auto& m : mm) { ts->push_back({m, 1}); if ((int)ts->size() < nt) ts->push_back({m, -1}); }
        ts->resize(nt);
        out.push_back(Space{"push order permutations", ipow(nt, len) * fact,
            [=](u64 i, Ctx& c) {
                Dig d(i);
                u64 perm = d(fact);
                std::vector<int> sel;
                for (int k = 0; k != len; ++k) sel.push_back((int)d(nt));
                sr::Poly w;
                for (int s : sel) sr::padd(w, (*ts)[s].first, (*ts)[s].second);
                poly p, q;
                for (int k = len; k; --k)
                {
                    int j = (int)(perm % k);
                    perm /= k;
                    auto const& t = (*ts)[sel[j]];
                    p.push(tomon(t.first), (float)t.second);
                    poly one;
                    one.push(tomon(t.first), (float)t.second);
                    q += one;
                    sel.erase(sel.begin() + j);
                    c.trans += 2;
                }
                judge(c, "pushes in any order", p, w);
                judge(c, "sums in any order", q, w);
            },
            [=](u64 i) { return "permutation case " + std::to_string(i); }});
    }
    return out;
}
#endif

// ---- execution of the parser --------------------------------------------------------------
#if GRP == 25 || GRP == 26 || GRP == 28
struct Res
{
    bool ok = false;
    bool stdex = true;
    mv value;
    std::string what;
};
static Res run_parse(std::string const& s, algebra const& a)
{
    Res r;
    try
    {
        r.value = parse(s, a);
        r.ok    = true;
    }
    catch (std::exception const& e)
    {
        r.what = e.what();
    }
    catch (...)
    {
        r.stdex = false;
    }
    return r;
}
static std::string esc(std::string const& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s)
        if (c < 32 || c > 126 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += c;
    return o.size() > 120 ? o.substr(0, 100) + "...\" (" + std::to_string(s.size()) + " bytes)" : o + "\"";
}
#endif

#if GRP == 25
// allocation accounting and poisoning: fresh memory is filled with a pattern, so that anything
// that depends on indeterminate data differs between two runs with different patterns
static unsigned char g_pat = 0;
static u64 g_alloc, g_peak_budget = ~0ull;
static bool g_over;
void* operator new(size_t n)
{
    g_alloc += n;
    if (g_alloc > g_peak_budget)
    {
        g_over = true;
        throw std::bad_alloc();
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (n < 4096) memset(p, g_pat, n);
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
__attribute__((noinline)) static void scribble(unsigned char v)
{
    volatile unsigned char b[6000];
    for (size_t i = 0; i != sizeof b; ++i) b[i] = v;
}
static std::string tokens_text(std::string const& s, algebra const& a)
{
    try
    {
        std::vector<token> t = tokenize(s, a);
        std::string o;
        for (auto& k : t)
        {
            char b[64];
            switch (k.type)
            {
            case token_type::element: snprintf(b, sizeof b, "E%x%d ", (unsigned)k.e.value, (int)k.e.negative); o += b; break;
            case token_type::number: snprintf(b, sizeof b, "N%.9g ", (double)k.num); o += b; break;
            case token_type::identifier: o += "I" + std::string(k.id.data, k.id.size) + " "; break;
            case token_type::delimiter: o += std::string("D") + k.delimiter + " "; break;
            case token_type::op: o += std::string("O") + k.op + " "; break;
            case token_type::eof: o += "$"; break;
            default: o += "? "; break;
            }
        }
        return o;
    }
    catch (std::exception const& e)
    {
        return std::string("throws ") + e.what();
    }
}
// The harness's own work goes through the counting allocator as well, hence the generous constant.
static void safe_case(Ctx& c, std::string const& s, algebra const& al)
{
    std::string tx[2], vx[2];
    for (int k = 0; k != 2; ++k)
    {
        g_pat = k ? 0xff : 0x01;
        // an input in a heap block of exactly its size (reads past the end are caught by the sanitizer)
        std::unique_ptr<std::string> in(new std::string(s));
        in->shrink_to_fit();
        g_alloc       = 0;
        g_over        = false;
        g_peak_budget = 4096 + 400 * (u64)s.size();
        scribble(g_pat);
        std::vector<token> t;
        try { t = tokenize(*in, al); }
        catch (std::exception const&) {}
        g_peak_budget = ~0ull;
        if (g_over) { c.fail("tokenizer memory", "tokenizing %zu bytes allocated more than 4096 + 400 n bytes", s.size()); return; }
        if (t.size() > s.size() + 1) c.fail("token count", "%zu tokens from %zu bytes", t.size(), s.size());
        g_peak_budget = (u64)1 << 28;
        scribble((unsigned char)(g_pat ^ 0x5a));
        tx[k] = tokens_text(*in, al);
        scribble(g_pat);
        Res r = run_parse(*in, al);
        g_peak_budget = ~0ull;
        ++c.trans;
        if (!r.stdex) c.fail("exception type", "parse threw something that is not a std::exception");
        sr::Mv g;
        if (r.ok) frommv(r.value, g);
        vx[k] = r.ok ? sr::text(g) : "throws " + r.what;
    }
    c.mixs(vx[0]);
    if (c.verbose) printf("  tokens: %s\n  result: %s\n", tx[0].c_str(), vx[0].c_str());
    c.expect(tx[0] == tx[1], "tokens depend on uninitialised data", "same tokens whatever fresh memory holds");
    c.expect(vx[0] == vx[1], "result depends on uninitialised data", "same result whatever fresh memory holds");
    // the parser stays usable
    Res r = run_parse("2a*e21+1", al);
    sr::Mv w, g;
    (void)g;
    if (r.ok) c.fail("later input", "a malformed probe was accepted");
    r = run_parse("a*e21+2", al);
    sr::add(w, 6, P(-1, {{"a", 1}}));
    sr::add(w, 0, P(2));
    if (!r.ok) c.fail("later input", "a well-formed probe was refused: %s", r.what.c_str());
    else judge(c, "later input", r.value, w);
}
static std::string bytes_of(u64 i, int len, std::string const& alpha)
{
    std::string s;
    for (int k = 0; k != len; ++k) { s += alpha[i % alpha.size()]; i /= alpha.size(); }
    return s;
}
static std::vector<Space> make(Args const& a)
{
    A = a;
    static algebra al{3, 0, 1};
    std::string all;
    for (int i = 0; i != 256; ++i) all += (char)i;
    for (int len = 0; len <= (A.lite ? 1 : A.thorough() ? 3 : 2); ++len)
        out.push_back(Space{"all byte strings of length " + std::to_string(len), ipow(256, len),
                            [=](u64 i, Ctx& c) { safe_case(c, bytes_of(i, len, all), al); }, [=](u64 i) { return esc(bytes_of(i, len, all)); }});
    // one or more representatives of every class of bytes the tokenizer distinguishes
    std::string cls = std::string("ea19. ()+*~^@") + '\0' + '\xe9';
    for (int len = 3; len <= (A.lite ? 3 : A.thorough() ? 6 : 5); ++len)
        out.push_back(Space{"class representatives, length " + std::to_string(len), ipow(cls.size(), len),
                            [=](u64 i, Ctx& c) { safe_case(c, bytes_of(i, len, cls), al); }, [=](u64 i) { return esc(bytes_of(i, len, cls)); }});
    // digit runs of every length around the buffer size, with a dot at every position, in several contexts
    {
        static const char* ctx[][2] = {{"", ""}, {"(", ")"}, {"-", "e1"}, {"a+", "*b"}, {"", " "}, {" ", "."}, {"e1*", "a"}, {"1 ", "("}};
        int maxlen = 80;
        auto mk = [=](u64 i) {
            Dig d(i);
            int k = (int)d(8), len = 1 + (int)d(maxlen), dot = (int)d(maxlen + 2), dig = (int)d(3);
            std::string n(len, "091"[dig]);
            if (dot <= len) n.insert(dot ? dot : 1, ".");
            if (dot == 0) n.insert(1, "."); // two dots
            return ctx[k][0] + n + ctx[k][1];
        };
        out.push_back(Space{"digit runs", (u64)8 * maxlen * (maxlen + 2) * (A.lite ? 1 : 3), [=](u64 i, Ctx& c) { safe_case(c, mk(i), al); }, [=](u64 i) { return esc(mk(i)); }});
    }
    // element digit runs
    {
        auto mk = [](u64 i) {
            Dig d(i);
            std::string s = "e";
            int len = 1 + (int)d(6);
            for (int k = 0; k != len; ++k) s += (char)('0' + d(10));
            return s;
        };
        out.push_back(Space{"element digit strings", (u64)(A.lite ? 20000 : A.thorough() ? 6000000 : 600000), [=](u64 i, Ctx& c) { safe_case(c, mk(i), al); }, [=](u64 i) { return esc(mk(i)); }});
    }
    // repetition of short patterns, closed or not: length and nesting
    {
        static const char* pre[] = {"(", "-", "~", "+", "a+", "2*", "(-(", "a*(", "e1^", " ", "e", "9", "a", "1+(", "~(-", "a|", "e2&", ")", "((a)+", "\t\n"};
        static const char* mid[] = {"", "a", "1", "e12", "@", ")"};
        int maxn = 400;
        auto mk = [=](u64 i) {
            Dig d(i);
            int p = (int)d(20), m = (int)d(6), close = (int)d(3);
            u64 r = d(30);
            static const int reps[30] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 20, 24, 30, 31, 32, 33, 40, 63, 64, 65, 100, 128, 200, 256, 400};
            (void)maxn;
            int n = reps[r];
            std::string s;
            for (int k = 0; k != n; ++k) s += pre[p];
            s += mid[m];
            int opens = (int)std::count(s.begin(), s.end(), '(') - (int)std::count(s.begin(), s.end(), ')');
            if (close && opens > 0) s += std::string(opens - (close == 2), ')');
            return s;
        };
        out.push_back(Space{"repeated patterns and nesting", (u64)20 * 6 * 3 * (A.lite ? 10 : 30), [=](u64 i, Ctx& c) { safe_case(c, mk(i), al); }, [=](u64 i) { return esc(mk(i)); }});
    }
    // nesting far beyond what a recursive reader's stack holds
    {
        static const char* pre[] = {"(", "-(", "a*(", "~(", "(a+", "((", "1|(", ")(", "(-~", "e1^("};
        static const char* mid[] = {"", "a", ")", "@"};
        static const int reps[] = {255, 256, 257, 258, 500, 1000, 4000, 16000, 50000, 200000};
        int nr = A.lite ? 9 : 10;
        auto mk = [=](u64 i) {
            Dig d(i);
            int p = (int)d(10), m = (int)d(4), close = (int)d(3), n = reps[d(nr)];
            std::string s;
            for (int k = 0; k != n; ++k) s += pre[p];
            s += mid[m];
            long opens = (long)std::count(s.begin(), s.end(), '(') - (long)std::count(s.begin(), s.end(), ')');
            if (close && opens > 0) s += std::string(opens - (close == 2), ')');
            return s;
        };
        auto name = [](u64 i) {
            Dig d(i);
            int p = (int)d(10), m = (int)d(4), close = (int)d(3), r = (int)d(10);
            return std::to_string(reps[r]) + " times " + pre[p] + ", then " + mid[m] + (close == 0 ? "" : close == 1 ? ", closed" : ", closed but one");
        };
        out.push_back(Space{"deep nesting", (u64)10 * 4 * 3 * nr, [=](u64 i, Ctx& c) { safe_case(c, mk(i), al); }, name});
    }
    // two inputs in turn: the second answer does not depend on the first
    {
        auto v = std::make_shared<std::vector<std::string>>(std::vector<std::string>{
            "", "a", "1", "e1", "a*b", "(", ")", "a)", "(a", "@", "a@", "1.2.3", "e9", "e11", "e1 e2", "a b", "+", "-", "~e12", "2*", "*2", "a e01", "e0123*e0",
            std::string("a\0b", 3), std::string(31, '9'), std::string(32, '9'), "((((a))))", "e", "ee", "e e", "2e", "e1a", "a|b&c^d*f", "-~-~e12", "0", "0*a", "a-a", " ", "\t",
            "e12345", ".5", "5.", "\xff", "a#b", "a,b", "1e5", "a+(b*(c-(d)))", "a - b - c"});
        u64 n = v->size();
        out.push_back(Space{"pairs of inputs in turn", n * n,
            [=](u64 i, Ctx& c) {
                auto txt = [&](std::string const& s) {
                    Res r = run_parse(s, al);
                    sr::Mv g;
                    if (r.ok) frommv(r.value, g);
                    return r.ok ? sr::text(g) : "throws " + r.what;
                };
                std::string alone = txt((*v)[i % n]);
                safe_case(c, (*v)[i / n], al);
                std::string after = txt((*v)[i % n]);
                c.expect(alone == after, "second input", "same answer as alone");
            },
            [=](u64 i) { return esc((*v)[i / n]) + " then " + esc((*v)[i % n]); }});
    }
    return out;
}
#endif

#if GRP == 26
static void eval_case(Ctx& c, std::string const& s, sr::Sig sig, algebra const& al)
{
    bool wok = true;
    sr::Mv w;
    try { w = sr::eval(s, sig); }
    catch (sr::Bad const&) { wok = false; }
    Res r = run_parse(s, al);
    ++c.checks;
    if (!r.ok && sr::nesting(s) > 256) { c.mixs("too deep"); return; } // may be refused
    c.mixs(wok ? sr::text(w) : "refused");
    if (c.verbose) printf("  %s: implementation %s, expected %s\n", esc(s).c_str(), r.ok ? "accepts" : ("refuses: " + r.what).c_str(), wok ? sr::text(w).c_str() : "refusal");
    if (wok && !r.ok) c.fail("well-formed expression refused", "refused with '%s', expected value %s", r.what.c_str(), sr::text(w).substr(0, 500).c_str());
    else if (!wok && r.ok)
    {
        sr::Mv g;
        frommv(r.value, g);
        c.fail("malformed expression accepted", "accepted with value %s", sr::text(g).substr(0, 500).c_str());
    }
    else if (wok) judge(c, "value of the expression", r.value, w, 1e-6);
}
static std::vector<Space> make(Args const& a)
{
    A = a;
    static algebra al{3, 0, 1};
    // every sequence of tokens, with several renderings of the space between them
    {
        static const char* T[] = {"2", "a", "e1", "e20", "+", "-", "~", "*", "^", "&", "|", "(", ")"};
        for (int len = 0; len <= (A.lite ? 4 : A.thorough() ? 7 : 6); ++len)
        {
            auto mk = [=](u64 i) {
                std::string s;
                u64 k = i;
                static const char* gap[] = {" ", "", "\t", "  ", "\n", " \r"};
                const char* prev = "";
                for (int j = 0; j != len; ++j)
                {
                    const char* t = T[k % 13];
                    k /= 13;
                    // no gap is possible unless both neighbours are words
                    bool words = std::isalnum((unsigned char)*prev) && std::isalnum((unsigned char)*t);
                    unsigned h = (unsigned)((i * 2654435761u) >> 7) + j;
                    const char* g = j == 0 ? "" : words && h % 6 == 1 ? " " : gap[h % 6];
                    s += g;
                    s += t;
                    prev = t;
                }
                return s;
            };
            out.push_back(Space{"token sequences of length " + std::to_string(len), ipow(13, len), [=](u64 i, Ctx& c) { eval_case(c, mk(i), PGA, al); }, [=](u64 i) { return esc(mk(i)); }});
        }
    }
    // every string over an alphabet with all character classes
    {
        static const char ch[] = "ae102 +*().~#";
        for (int len = 1; len <= (A.lite ? 3 : A.thorough() ? 6 : 5); ++len)
        {
            auto mk = [=](u64 i) {
                std::string s;
                for (int j = 0; j != len; ++j) { s += ch[i % 13]; i /= 13; }
                return s;
            };
            out.push_back(Space{"character strings of length " + std::to_string(len), ipow(13, len), [=](u64 i, Ctx& c) { eval_case(c, mk(i), PGA, al); }, [=](u64 i) { return esc(mk(i)); }});
        }
        // every byte in every position of some expressions
        static const char* base[] = {"a*e1+2", "(a-b)^e12", "2.5 e01", "~e013", "e1|e1&e123"};
        auto mk = [](u64 i) {
            Dig d(i);
            std::string s = base[d(5)];
            unsigned char b = (unsigned char)d(256);
            unsigned pos = (unsigned)d(11);
            bool ins = d(2) != 0;
            if (pos > s.size()) pos = (unsigned)s.size();
            if (ins) s.insert(s.begin() + pos, (char)b);
            else if (pos < s.size()) s[pos] = (char)b;
            return s;
        };
        out.push_back(Space{"every byte at every position", 5 * 256 * 11 * 2, [=](u64 i, Ctx& c) { eval_case(c, mk(i), PGA, al); }, [=](u64 i) { return esc(mk(i)); }});
    }
    // all basis element spellings in several algebras
    {
        static const sr::Sig ss[] = {{3, 0, 1}, {2, 0, 0}, {5, 1, 0}, {8, 1, 1}, {7, 0, 1}, {8, 0, 1}, {0, 0, 1}};
        int len = A.lite ? 3 : A.thorough() ? 6 : 5;
        auto mk = [=](u64 i) {
            Dig d(i);
            d(7);
            int n = 1 + (int)d(len);
            std::string s = d(2) ? "3 e" : "e";
            for (int k = 0; k != n; ++k) s += (char)('0' + d(10));
            return s;
        };
        out.push_back(Space{"basis element spellings", 7 * (u64)len * 2 * ipow(10, len),
            [=](u64 i, Ctx& c) {
                sr::Sig s = ss[i % 7];
                algebra x{s.p, s.q, s.r};
                eval_case(c, mk(i), s, x);
            },
            [=](u64 i) { sr::Sig s = ss[i % 7]; return esc(mk(i)) + " in (" + std::to_string(s.p) + "," + std::to_string(s.q) + "," + std::to_string(s.r) + ")"; }});
    }
    // precedence and grouping: every choice of operators between general operands, every parenthesization, unary prefixes
    {
        static const char* opn[5] = {"(2 + a e1 + e02 - e123)", "(1 - b e2 + e31)", "(e0 + 3 e12 + e0123)", "(c + e3 - 2 e01)", "(5 + e1 + e23 + d e021)"};
        static const char* un[] = {"", "-", "~", "-~", "+", "--", "~~"};
        static const char ops[] = "|&^*+-";
        // shapes: nested grouping of n operands as index ranges [i,j] wrapped in parentheses
        for (int n = 2; n <= (A.lite ? 3 : A.thorough() ? 5 : 4); ++n)
        {
            std::vector<std::vector<std::pair<int, int>>> sh;
            sh.push_back({});
            for (int i = 0; i != n; ++i)
                for (int j = i + 1; j != n; ++j)
                {
                    if (j - i == n - 1) continue;
                    sh.push_back({{i, j}});
                    for (int k = i; k != n; ++k)
                        for (int l = k + 1; l != n; ++l)
                        {
                            if (l - k == n - 1 || (k == i && l == j)) continue;
                            bool nested = k >= i && l <= j, disjoint = k > j;
                            if (nested || disjoint) sh.push_back({{i, j}, {k, l}});
                        }
                }
            auto shapes = std::make_shared<std::vector<std::vector<std::pair<int, int>>>>(sh);
            u64 ns = sh.size(), nu = n <= 3 ? 7 : A.thorough() ? 4 : 3;
            auto mk = [=](u64 i) {
                Dig d(i);
                auto const& s = (*shapes)[d(ns)];
                int upos = (int)d(n + 1), u = (int)d(nu);
                std::string o;
                for (int k = 0; k != n; ++k)
                {
                    if (k) { o += ' '; o += ops[d(6)]; o += ' '; }
                    if (k == upos) o += un[u];
                    for (auto& r : s) if (r.first == k) o += "(";
                    if (k + 1 == upos && upos == n) o += un[u];
                    o += opn[k];
                    for (auto& r : s) if (r.second == k) o += ")";
                }
                return o;
            };
            out.push_back(Space{"operators and grouping of " + std::to_string(n) + " operands", ns * (n + 1) * nu * ipow(6, n - 1),
                                [=](u64 i, Ctx& c) { eval_case(c, mk(i), PGA, al); }, [=](u64 i) { return mk(i); }});
        }
    }
    // the expressions of the scripts that come with the repository
    if (const char* files = getenv("KLEIN_SCRIPTS"))
    {
        auto v = std::make_shared<std::vector<std::string>>();
        std::istringstream fs(files);
        for (std::string fn; fs >> fn;)
        {
            std::ifstream in(fn);
            for (std::string l; std::getline(in, l);)
            {
                size_t k = 0;
                while (k < l.size() && sr::is_space(l[k])) ++k;
                if (k != l.size() && l[k] != '#') v->push_back(l);
            }
        }
        out.push_back(Space{"expressions of the repository's scripts", v->size(), [=](u64 i, Ctx& c) { eval_case(c, (*v)[i], PGA, al); }, [=](u64 i) { return esc((*v)[i]); }});
    }
    // numbers: every decimal spelling up to a length, around the documented limit
    {
        int len = A.lite ? 3 : 5;
        auto mk = [=](u64 i) {
            std::string s;
            for (int j = 0; j != len; ++j) { s += "0123456789."[i % 11]; i /= 11; }
            return s;
        };
        static const char* pre[] = {"(", "-(", "a*(", "~(", "(a+", "e1|(", "(-~", "e1^(", "e12&(", "2 - ("};
        static const char* mid[] = {"a", "2e1", "e12 - 1", ""};
        static const char* bef[] = {"", "(a)+", "((b))*(e1)-", "(((e2))+((1)+(e3)))^"};
        static const char* aft[] = {"", "", "+(a)", " - ((e12))"};
        auto mkn = [](u64 i) {
            Dig d(i);
            int p = (int)d(10), m = (int)d(4), n = 1 + (int)d(300), un = (int)d(3);
            // groups closed before and after it do not count
            int ba = (int)d(4);
            std::string s = bef[ba];
            for (int k = 0; k != n; ++k) s += pre[p];
            s += mid[m] + std::string(n + un - 1, ')');
            return s + aft[ba];
        };
        out.push_back(Space{"nesting of every depth", (u64)10 * 4 * 3 * 300 * 4, [=](u64 i, Ctx& c) { eval_case(c, mkn(i), PGA, al); }, [=](u64 i) { return esc(mkn(i)); }});
        out.push_back(Space{"decimal spellings", ipow(11, len), [=](u64 i, Ctx& c) { eval_case(c, mk(i), PGA, al); }, [=](u64 i) { return esc(mk(i)); }});
        auto mk2 = [](u64 i) {
            Dig d(i);
            int n = 25 + (int)d(12), dot = (int)d(38);
            std::string s(n, "123"[d(3)]);
            if (dot && dot < n) s.insert(dot, ".");
            static const char* suf[] = {"", " e1", "*a", ")"};
            return s + suf[d(4)];
        };
        out.push_back(Space{"long numbers", 12 * 38 * 3 * 4, [=](u64 i, Ctx& c) { eval_case(c, mk2(i), PGA, al); }, [=](u64 i) { return esc(mk2(i)); }});
        // names of every length, compared with a name that differs in one place
        int nl = A.lite ? 12 : A.thorough() ? 300 : 100;
        auto mk3 = [=](u64 i) {
            Dig d(i);
            int form = (int)d(4), kind = (int)d(4), len = 1 + (int)d(nl), pos = (int)d(nl) % len;
            std::string u(len, 'q'), v = u;
            if (kind == 0) v[pos] = 'r';
            else if (kind == 1) v[pos] = 'Q';
            else if (kind == 2 && pos) v[pos] = '7';
            else v += std::string(1 + pos % 3, 'q');
            static const char* f[] = {"U - V", "U*V e1", "(2*U + e1*V)*V", "U e12 & V e0123 | ~(V e1)"};
            std::string o;
            for (const char* x = f[form]; *x; ++x) { if (*x == 'U') o += u; else if (*x == 'V') o += v; else o += *x; }
            return o;
        };
        out.push_back(Space{"names of every length", (u64)nl * nl * 16, [=](u64 i, Ctx& c) { eval_case(c, mk3(i), PGA, al); }, [=](u64 i) { return esc(mk3(i)); }});
        // chains: every number of operands, unary signs or blanks
        static const char* cop[] = {"+", "-", "*", "|", "&", "^"};
        static const char* cel[] = {"e1", "(1 + e2)", "v", "(e0 - 2)", "e0123", "~(3 + e12)"};
        int nc = A.lite ? 10 : A.thorough() ? 700 : 300;
        auto mk4 = [=](u64 i) {
            Dig d(i);
            const char *o1 = cop[d(6)], *o2 = cop[d(6)];
            const char* el = cel[d(6)];
            int n = 1 + (int)d(nc);
            std::string o = "(a + e1 - e013)";
            // values must stay within single precision
            bool grows = el[0] == '(' || el[0] == '~';
            if (grows && n > 12) n = n % 12 + 1;
            for (int k = 0; k != n; ++k)
            {
                o += k & 1 ? o2 : o1;
                if (el[0] == 'v') o += (*o1 == '+' || *o1 == '-') && (*o2 == '+' || *o2 == '-') ? "v" + std::to_string(k) : "v";
                else o += el;
            }
            return o;
        };
        out.push_back(Space{"chains of every length", (u64)216 * nc, [=](u64 i, Ctx& c) { eval_case(c, mk4(i), PGA, al); }, [=](u64 i) { return esc(mk4(i)); }});
        static const char* un[] = {"-", "~", "+", "-~", " ", "\t", "\r\n", "- ", "~ -", "~~~-"};
        static const char* fr[] = {"$a e12", "2 $ e12", "(a e1 - e012)*$(b + e12)", "a$", "1 - $e21"};
        auto mk5 = [=](u64 i) {
            Dig d(i);
            const char *u = un[d(10)], *f = fr[d(5)];
            int n = (int)d(nc * 2);
            std::string run;
            for (int k = 0; k != n; ++k) run += u;
            std::string o;
            for (const char* x = f; *x; ++x) { if (*x == '$') o += run; else o += *x; }
            return o;
        };
        out.push_back(Space{"runs of signs and blanks of every length", (u64)50 * nc * 2, [=](u64 i, Ctx& c) { eval_case(c, mk5(i), PGA, al); }, [=](u64 i) { return esc(mk5(i)); }});
    }
    return out;
}
#endif

#if GRP == 27
static void print_case(Ctx& c, sr::Mv const& w, algebra const& al, unsigned dim, bool after_token)
{
    mv m = tomv(w, al);
    std::ostringstream os;
    if (after_token)
    {
        token t;
        t.type = token_type::element;
        t.e.value = 3;
        t.e.negative = true;
        os << t;
        os.str("");
    }
    os << m;
    std::string s = os.str();
    ++c.checks;
    c.mixs(s);
    if (c.verbose) printf("  printed: [%s]\n", s.c_str());
    sr::Mv g;
    try { g = sr::read_printed(s, dim); }
    catch (sr::Bad const&)
    {
        c.fail("printed text", "the text '%s' does not denote a multivector; printed was %s", s.c_str(), sr::text(w).c_str());
        return;
    }
    // six significant digits
    if (!sr::same(g, w, 5.1e-6)) c.fail("printed text", "the text '%s' denotes %s, printed was %s", s.c_str(), sr::text(g).c_str(), sr::text(w).c_str());
}
static std::vector<Space> make(Args const& a)
{
    A = a;
    static algebra al{3, 0, 1};
    std::vector<double> cf = {1, -1, 2, -0.5, 1234567, -3e-7};
    if (A.thorough()) for (double d : {10.0, -999999.0, 1e6, 0.1f + 0.0, 1e-5, 3.25e20}) cf.push_back((float)d);
    for (double& d : cf) d = (float)d;
    std::vector<sr::Mon> mm = {{}, {{"a", 1}}, {{"a", 2}}, {{"a", -1}}, {{"a", 1}, {"b", 1}}, {{"b12", -3}}, {{"a", 12}, {"zz", 2}}, {{"e", 1}}};
    if (A.lite) { mm.resize(4); cf.resize(3); }
    auto terms = std::make_shared<std::vector<std::pair<sr::Mon, double>>>();
    for (auto& m : mm) for (double d : cf) terms->push_back({m, d});
    u64 nt = terms->size();
    // all polynomials of up to three of the terms, in one blade
    {
        auto mk = [=](u64 i, sr::Blade& b, bool& tok) {
            Dig d(i);
            sr::Poly p;
            u64 x = d(nt + 1), y = d(nt + 1), z = d(nt + 1);
            for (u64 k : {x, y, z}) if (k) { auto& t = (*terms)[k - 1]; p[t.first] = t.second; }
            static const sr::Blade bs[] = {0, 1, 6, 15};
            b   = bs[d(4)];
            tok = d(2) != 0;
            sr::Mv m;
            if (!p.empty()) m[b] = p;
            return m;
        };
        out.push_back(Space{"polynomials of up to three terms", (nt + 1) * (nt + 1) * (nt + 1) * 8,
            [=](u64 i, Ctx& c) { sr::Blade b; bool t; sr::Mv m = mk(i, b, t); print_case(c, m, al, 4, t); },
            [=](u64 i) { sr::Blade b; bool t; return sr::text(mk(i, b, t)); }});
    }
    // all multivectors of up to three blades
    {
        std::vector<sr::Poly> cs = {P(1), P(-1), P(2), P(1, {{"a", 1}}), P(-1, {{"a", 2}}), sr::padd(P(1), P(-1, {{"b", -1}})), sr::padd(sr::padd(P(1), P(3, {{"a", 1}})), P(-1, {{"a", 1}, {"b", 2}})), sr::Poly()};
        auto cp = std::make_shared<std::vector<sr::Poly>>(cs);
        u64 nc = cs.size();
        auto mk = [=](u64 i) {
            Dig d(i);
            sr::Mv m;
            for (int k = 0; k != 3; ++k)
            {
                sr::Blade b = (sr::Blade)d(16);
                sr::Poly const& p = (*cp)[d(nc)];
                if (!p.empty()) m[b] = p;
            }
            return m;
        };
        out.push_back(Space{"multivectors of up to three blades", A.lite ? 20000 : ipow(16 * nc, 3), [=](u64 i, Ctx& c) { print_case(c, mk(i), al, 4, false); }, [=](u64 i) { return sr::text(mk(i)); }});
    }
    // every subset of blades (unit coefficients of alternating kinds)
    {
        auto mk = [](u64 i) {
            Dig d(i);
            u64 mask = d(65536), kind = d(3);
            sr::Mv m;
            for (unsigned b = 0; b != 16; ++b)
                if (mask >> b & 1) m[b] = kind == 0 ? P(1) : kind == 1 ? P(b % 2 ? -1 : 1) : b % 2 ? P(1, {{"a", 1}}) : sr::padd(P(-1), P(2, {{"a", 1}}));
            return m;
        };
        out.push_back(Space{"every set of blades", 65536 * 3, [=](u64 i, Ctx& c) { print_case(c, mk(i), al, 4, false); }, [=](u64 i) { return sr::text(mk(i)); }});
    }
    // coefficients of every binary exponent and a grid of mantissas, bare, with a variable, in front of a blade, in a sum
    {
        int nm = A.lite ? 4 : A.thorough() ? 65536 : 4096;
        auto mk = [=](u64 i) {
            Dig d(i);
            uint32_t m = (uint32_t)d(nm), e = (uint32_t)d(255), sg = (uint32_t)d(2), k = (uint32_t)d(6);
            // mantissas spread over the range, both ends and the neighbours of the ends included
            uint32_t mant = m == 0 ? 0 : m == 1 ? 0x7fffff : m == 2 ? 1 : m == 3 ? 0x7ffffe : (uint32_t)((u64)m * 0x7fffff / nm);
            uint32_t bits = sg << 31 | e << 23 | mant;
            float f;
            std::memcpy(&f, &bits, 4);
            sr::Mv w;
            if (f == 0) return w;
            switch (k)
            {
            case 0: w[0] = P(f); break;
            case 1: w[6] = P(f); break;
            case 2: w[0] = P(f, {{"a", 1}}); break;
            case 3: w[15] = P(f, {{"e", -2}}); break;
            case 4: w[1] = sr::padd(P(f), P(f, {{"a", 1}})); break;
            case 5: w[0] = P(1); w[3] = P(f); break;
            }
            return w;
        };
        out.push_back(Space{"coefficients of every magnitude", (u64)nm * 255 * 2 * 6, [=](u64 i, Ctx& c) { print_case(c, mk(i), al, 4, false); }, [=](u64 i) { return sr::text(mk(i)); }});
    }
    // coefficients at every distance from round numbers
    {
        static const float ctr[] = {1.f, 2.f, 3.f, 5.f, 10.f, 12.f, 100.f, 1000.f, 65536.f, 100000.f, 1e6f, 0.5f, 0.25f, 0.1f, 0.01f, 0.001f, 1e-4f, 1e-5f};
        const u64 nc = sizeof ctr / sizeof *ctr;
        auto mk = [=](u64 i) {
            Dig d(i);
            float f = ctr[d(nc)];
            int k = (int)d(24), up = (int)d(2), sg = (int)d(2), w3 = (int)d(2), place = (int)d(6);
            f *= 1.f + (up ? 1.f : -1.f) * (w3 ? 1.5f : 1.f) * std::ldexp(1.f, -k);
            if (sg) f = -f;
            sr::Mv w;
            if (f == 0) return w;
            switch (place)
            {
            case 0: w[0] = P(f); break;
            case 1: w[6] = P(f); break;
            case 2: w[0] = P(f, {{"a", 1}}); break;
            case 3: w[15] = P(f, {{"e", -2}}); break;
            case 4: w[1] = sr::padd(P(f), P(f, {{"a", 1}})); break;
            case 5: w[0] = P(1); w[3] = P(f); break;
            }
            return w;
        };
        out.push_back(Space{"coefficients at every distance from round numbers", nc * 24 * 2 * 2 * 2 * 6, [=](u64 i, Ctx& c) { print_case(c, mk(i), al, 4, false); }, [=](u64 i) { return sr::text(mk(i)); }});
    }
    // exponents of every size, in every position of a monomial
    {
        auto mk = [](u64 i) {
            Dig d(i);
            int ex = (int)d(301) - 150, pos = (int)d(3), k = (int)d(4);
            sr::Mon m;
            static const char* v[] = {"a", "b1", "zz"};
            for (int j = 0; j != 3; ++j)
            {
                int x = j == pos ? ex : k == 0 ? 0 : k == 1 ? 1 : k == 2 ? -1 : 12;
                if (x) m[v[j]] = x;
            }
            sr::Mv w;
            w[k % 2 ? 6 : 0] = sr::Poly{{m, k > 1 ? -1.0 : 1.0}};
            return w;
        };
        out.push_back(Space{"exponents of every size", 301 * 3 * 4, [=](u64 i, Ctx& c) { print_case(c, mk(i), al, 4, false); }, [=](u64 i) { return sr::text(mk(i)); }});
    }
    // coefficients of every number of terms, monomials of every number of factors, names of every length
    {
        auto ns = std::make_shared<std::vector<int>>();
        for (int k = 1; k <= (A.lite ? 6 : 70); ++k) ns->push_back(k);
        if (!A.lite) for (int k : {99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 2000}) ns->push_back(k);
        u64 n = ns->size();
        auto mk = [=](u64 i) {
            Dig d(i);
            int kind = (int)d(8), k = (*ns)[d(n)], sg = (int)d(3);
            sr::Mv w;
            sr::Poly p;
            double f = sg == 0 ? 1 : sg == 1 ? -1 : 2.5;
            switch (kind % 4)
            {
            case 0: for (int j = 0; j != k; ++j) p[sr::Mon{{"x" + std::to_string(j), 1}}] = f; break;
            case 1: for (int j = 0; j != k; ++j) { sr::Mon m; if (j) m["a"] = j; p[m] = j % 2 ? f : -f; } break;
            case 2: { sr::Mon m; for (int j = 0; j != k; ++j) m["y" + std::to_string(j)] = 1 + j % 3; p[m] = f; break; }
            case 3: p[sr::Mon{{std::string(k, 'n'), 1 + sg}, {"a", -2}}] = f; break;
            }
            static const sr::Blade bs[] = {0, 5};
            w[bs[kind / 4]] = p;
            if (sg == 2) w[11] = P(-1);
            return w;
        };
        out.push_back(Space{"coefficients of every length", n * 24, [=](u64 i, Ctx& c) { print_case(c, mk(i), al, 4, false); }, [=](u64 i) { return sr::text(mk(i)).substr(0, 2000); }});
        // many blades, each with many terms, in a larger algebra
        out.push_back(Space{"multivectors of every size", (u64)(A.lite ? 6 : 60) * 3,
            [=](u64 i, Ctx& c) {
                static algebra big{9, 0, 1};
                int nb = (int)(i / 3 + 1), kind = (int)(i % 3);
                sr::Mv w;
                for (int b = 0; b != nb * 8; ++b)
                {
                    sr::Poly p;
                    if (kind == 0) p = P(b % 3 - 1 ? b % 3 - 1 : 4);
                    else for (int j = 0; j != (kind == 1 ? 3 : nb); ++j) p[sr::Mon{{"c" + std::to_string(j), 1 + b % 2}}] = j - 1 ? j - 1 : 5;
                    w[(sr::Blade)((b * 37) % 1024)] = p;
                }
                print_case(c, w, big, 10, false);
            },
            [](u64 i) { return std::to_string((i / 3 + 1) * 8) + " blades, kind " + std::to_string(i % 3); }});
    }
    // all blades of a ten-dimensional algebra
    out.push_back(Space{"blades of ten dimensions", 1024 * 3,
        [](u64 i, Ctx& c) {
            static algebra big{8, 1, 1};
            sr::Mv m;
            m[(sr::Blade)(i % 1024)] = i / 1024 == 0 ? P(1) : i / 1024 == 1 ? P(-1) : sr::padd(P(1, {{"a", 1}}), P(1));
            print_case(c, m, big, 10, false);
        },
        [](u64 i) { return "blade " + std::to_string(i % 1024) + " coefficient kind " + std::to_string(i / 1024); }});
    // values computed by the engine (cancellation leaves no residue in the text)
    {
        std::vector<sr::Mv> vs;
        for (unsigned b = 0; b != 16; ++b)
            for (int k = 0; k != 3; ++k)
            {
                sr::Mv m;
                m[b] = k == 0 ? P(1) : k == 1 ? P(-1, {{"a", 1}}) : sr::padd(P(1, {{"a", 1}}), P(1));
                if (k) m[(b * 7 + 3) % 16] = P(2);
                vs.push_back(m);
            }
        auto v = std::make_shared<std::vector<sr::Mv>>(vs);
        u64 n = vs.size();
        out.push_back(Space{"printed results of operations", n * n * 6,
            [=](u64 i, Ctx& c) {
                Dig d(i);
                char op = "*^|&+-"[d(6)];
                sr::Mv const &x = (*v)[d(n)], &y = (*v)[d(n)];
                mv mx = tomv(x, al), my = tomv(y, al), r{al};
                sr::Mv w;
                switch (op)
                {
                case '*': r = mx * my; break;
                case '^': r = mx ^ my; break;
                case '|': r = mx | my; break;
                case '&': r = mx & my; break;
                case '+': r = mx; r += my; break;
                case '-': r = mx; r -= my; break;
                }
                w = op == '+' || op == '-' ? sr::add(x, y, op == '+' ? 1 : -1) : sr::mul(op, x, y, PGA);
                std::ostringstream os;
                os << r;
                ++c.checks;
                c.mixs(os.str());
                if (c.verbose) printf("  printed: [%s]\n", os.str().c_str());
                try { if (!sr::same(sr::read_printed(os.str(), 4), w, 5.1e-6)) throw sr::Bad(); }
                catch (sr::Bad const&) { c.fail("printed result", "printed '%s' for %s", os.str().c_str(), sr::text(w).c_str()); }
            },
            [=](u64 i) { Dig d(i); char op = "*^|&+-"[d(6)]; u64 x = d(n), y = d(n); return sr::text((*v)[x]) + " " + op + " " + sr::text((*v)[y]); }});
    }
    return out;
}
#endif

#if GRP == 28
// expected answer of the shell to one line
struct Want
{
    int kind; // 0 echo of the line, 1 blank, 2 value, 3 error, 4 dot command (no output)
    sr::Mv v;
};
static Want want1(std::string const& l)
{
    size_t k = 0;
    while (k < l.size() && sr::is_space(l[k])) ++k;
    if (k == l.size()) return Want{1, {}};
    if (l[k] == '#') return Want{0, {}};
    if (l[k] == '.') return Want{4, {}};
    if (sr::nesting(l) > 256)
    {
        // balanced ones are (((...a...))): may be refused or answered with a
        if (std::count(l.begin(), l.end(), '(') != std::count(l.begin(), l.end(), ')')) return Want{3, {}};
        return Want{5, sr::eval("a", PGA)};
    }
    try { return Want{2, sr::eval(l, PGA)}; }
    catch (sr::Bad const&) { return Want{3, {}}; }
}
static Want want(std::string const& l)
{
    static std::string last;
    static Want lastw{1, {}};
    if (l.size() > 64 && l == last) return lastw;
    if (l.size() > 64) { Want w = want1(l); last = l; lastw = w; return w; }
    return want1(l);
}
static void session(Ctx& c, std::vector<std::string> const& lines, bool final_newline)
{
    std::string in;
    for (size_t i = 0; i != lines.size(); ++i) in += lines[i] + (i + 1 != lines.size() || final_newline ? "\n" : "");
    std::istringstream is(in);
    std::ostringstream os, es;
    std::streambuf *oi = std::cin.rdbuf(is.rdbuf()), *oo = std::cout.rdbuf(os.rdbuf()), *oe = std::cerr.rdbuf(es.rdbuf());
    std::cin.clear();
    // a new session starts with new streams
    static const std::ios plain(nullptr);
    std::cout.copyfmt(plain);
    std::cerr.copyfmt(plain);
    std::cin.copyfmt(plain);
    std::cerr.setf(std::ios::unitbuf);
    bool thrown = false;
    try
    {
        repl r;
        r.run();
    }
    catch (...)
    {
        thrown = true;
    }
    std::cin.rdbuf(oi);
    std::cout.rdbuf(oo);
    std::cerr.rdbuf(oe);
    c.trans += lines.size();
    c.mixs(os.str());
    std::string o = os.str(), e = es.str();
    if (c.verbose) printf("  input %s\n  output %s\n  errors %s\n", esc(in).c_str(), esc(o).c_str(), esc(e).c_str());
    if (thrown) { c.fail("session", "an exception left the shell"); return; }
    size_t pos = 0;
    int errors = 0, el = 0, deep = 0;
    for (char ch : e) el += ch == '\n';
    for (auto& l : lines) { Want w = want(l); errors += w.kind == 3; deep += w.kind == 5; }
    bool refused = el != errors; // the too deeply nested lines were refused
    if (refused) errors += deep;
    for (size_t i = 0; i != lines.size(); ++i)
    {
        // a last line without newline that is empty is not a line
        if (i + 1 == lines.size() && !final_newline && lines[i].empty()) break;
        Want w = want(lines[i]);
        ++c.checks;
        if (w.kind == 3 || w.kind == 4 || (w.kind == 5 && refused)) continue;
        size_t nl = o.find('\n', pos);
        if (nl == std::string::npos) { c.fail("missing answer", "line %zu (%s) got no answer line", i + 1, esc(lines[i]).c_str()); return; }
        std::string got = o.substr(pos, nl - pos);
        pos = nl + 1;
        bool ok = true;
        if (w.kind == 0) ok = got == lines[i];
        else if (w.kind == 1) ok = got.find_first_not_of(" \t\r\v\f") == std::string::npos;
        else
        {
            try { ok = sr::same(sr::read_printed(got, 4), w.v, 5.1e-6); }
            catch (sr::Bad const&) { ok = false; }
        }
        if (!ok) { c.fail("wrong answer", "line %zu (%s) was answered %s", i + 1, esc(lines[i]).c_str(), esc(got).c_str()); return; }
    }
    if (pos != o.size()) c.fail("extra output", "unexpected output %s", esc(o.substr(pos)).c_str());
    if (el != errors) c.fail("error lines", "%d lines on the error stream for %d malformed lines", el, errors);
}
static const std::vector<std::string>& pool()
{
    static std::vector<std::string> p = {"e1*e2", "# note", "", "a*b", "1.5*a", "(a", "a)b", "@", ".break", "  # x", " \t", "a # b", "2*e4", "e1 - e1", "1", "e1|e1", "#", "1+e12", "a,b", "~e12", "e", "3e0 - 2e1*a",
                                        ".", "a.b", "#.#", " .x", "-a", "a -", "2..5", "e0123 & e0", "\xc3\xa9", "e1^e2^e3"};
    return p;
}
static std::vector<Space> make(Args const& a)
{
    A = a;
    u64 n = pool().size();
    for (int len = 0; len <= (A.lite ? 2 : A.thorough() ? 5 : 4); ++len)
    {
        auto mk = [=](u64 i) {
            std::vector<std::string> l;
            for (int k = 0; k != len; ++k) { l.push_back(pool()[i % n]); i /= n; }
            return l;
        };
        auto sh = [=](u64 i) { std::string s; for (auto& l : mk(i / 2)) s += esc(l) + " "; return s + (i % 2 ? "(final newline)" : "(no final newline)"); };
        out.push_back(Space{"sessions of " + std::to_string(len) + " lines", 2 * ipow(n, len), [=](u64 i, Ctx& c) { session(c, mk(i / 2), i % 2); }, sh});
    }
    // every single line up to a length over the characters the shell distinguishes, between two ordinary lines
    {
        static const char ch[] = {'a', 'e', '1', '.', '#', ' ', '*', '(', ')', '\t', '-', ',', '\r'};
        for (int len = 1; len <= (A.lite ? 3 : A.thorough() ? 5 : 4); ++len)
        {
            auto mk = [=](u64 i) {
                std::string s;
                for (int j = 0; j != len; ++j) { s += ch[i % 13]; i /= 13; }
                return s;
            };
            out.push_back(Space{"any line of length " + std::to_string(len) + " between two others", ipow(13, len),
                                [=](u64 i, Ctx& c) { session(c, {"e1*e2", mk(i), "a+1"}, true); }, [=](u64 i) { return esc(mk(i)); }});
        }
    }
    // every byte value in a comment, in an expression, in a command and alone; every pair of bytes in a comment
    {
        static const char* pat[] = {"%", "# %", "#%x", "# a%b", "a%", "a%b", "%a", "a+%", ".%", " %", "% # x", "%#x", "e1%", "e1*%e2", "(%a)", "1%", "##%%", "%%"};
        u64 P = sizeof pat / sizeof *pat;
        auto mk = [=](u64 i) {
            int b = (int)(i % 255);
            std::string s, t = pat[i / 255];
            for (char ch : t) s += ch == '%' ? (char)(b < 10 ? b : b + 1) : ch; // a line feed ends the line
            return s;
        };
        out.push_back(Space{"every byte in every place of a line", 255 * P, [=](u64 i, Ctx& c) { session(c, {"e1*e2", mk(i), "a+1"}, true); }, [=](u64 i) { return esc(mk(i)); }});
        auto mk2 = [=](u64 i) {
            int b = (int)(i % 255), d = (int)(i / 255);
            std::string s = "#";
            s += (char)(b < 10 ? b : b + 1);
            s += (char)(d < 10 ? d : d + 1);
            return s + ".";
        };
        if (!A.lite) out.push_back(Space{"every pair of bytes in a comment", 255 * 255, [=](u64 i, Ctx& c) { session(c, {mk2(i), "a+1"}, true); }, [=](u64 i) { return esc(mk2(i)); }});
    }
    // any short line leaves no trace: followed by a malformed, an ordinary and a comment line in every order,
    // and by any other short line
    {
        static const char ch[] = {'a', 'e', '1', '.', '#', ' ', '*', '(', ')', '\t', '-', ',', '\r', '!', ';', '\\', '"', ':', '='};
        static const char* tail[6][3] = {{"(a", "e1*e2", "# n"}, {"(a", "# n", "a+1"}, {"a+1", "a)b", "#n"}, {"a*b", " # n", "@"}, {"# n", "1+", "e12"}, {"#", "e3", "e4"}};
        const u64 z = sizeof ch;
        auto word = [z](u64& i, u64 maxlen) {
            // all words of length 1..maxlen in one index
            u64 tot = 0;
            for (u64 l = 1; l <= maxlen; ++l) tot += ipow(z, l);
            u64 k = i % tot;
            i /= tot;
            u64 len = 1;
            while (k >= ipow(z, len)) k -= ipow(z, len++);
            std::string s;
            for (u64 j = 0; j != len; ++j) { s += ch[k % z]; k /= z; }
            return s;
        };
        u64 n2 = z + z * z, n3 = n2 + z * z * z;
        auto mk3 = [=](u64 i) { std::vector<std::string> l{word(i, 3)}; for (auto t : tail[i]) l.push_back(t); return l; };
        auto mk2 = [=](u64 i) { std::string a1 = word(i, 2), b1 = word(i, 2); std::vector<std::string> l{a1, b1}; for (auto t : tail[i]) l.push_back(t); return l; };
        auto sh = [](std::vector<std::string> const& l) { std::string s; for (auto& x : l) s += esc(x) + " "; return s; };
        out.push_back(Space{"any line of up to 3 characters before others", (A.lite ? n2 : n3) * 6,
                            [=](u64 i, Ctx& c) { session(c, A.lite ? mk2(i % n2 + i / n2 * n2 * n2) : mk3(i), true); }, [=](u64 i) { return sh(A.lite ? mk2(i % n2 + i / n2 * n2 * n2) : mk3(i)); }});
        if (!A.lite) out.push_back(Space{"any two lines of up to 2 characters before others", n2 * n2 * (A.thorough() ? 6 : 1), [=](u64 i, Ctx& c) { session(c, mk2(i), true); }, [=](u64 i) { return sh(mk2(i)); }});
    }
    // values of every size and shape, then another: the way one is printed does not colour the next
    {
        auto vals = std::make_shared<std::vector<std::string>>();
        for (int k = -12; k <= 14; k += A.lite ? 4 : A.thorough() ? 1 : 2)
            for (const char* m : {"1", "15", "1234567", "99999951"})
            {
                std::string digits = m, t;
                int pt = k + 1; // digits before the point
                if (pt <= 0) t = "0." + std::string(-pt, '0') + digits;
                else if ((int)digits.size() <= pt) t = digits + std::string(pt - digits.size(), '0');
                else t = digits.substr(0, pt) + "." + digits.substr(pt);
                for (const char* f : {"%", "%*a", "-%*a*e12"}) { std::string w = f; w.replace(w.find('%'), 1, t); vals->push_back(w); }
            }
        for (const char* w : {"0", "a^b", "a*a*a", "(a+b)*(a-b)*e12", "e0123", "1+a+b*e1", "e1-e1", "-1", "-a", "a*b*c*x*y*z", "~e12", "0*a", "1-1"}) vals->push_back(w);
        u64 nv = vals->size();
        out.push_back(Space{"any two values in turn", nv * nv, [=](u64 i, Ctx& c) { session(c, {(*vals)[i % nv], (*vals)[i / nv], (*vals)[i % nv]}, true); },
                            [=](u64 i) { return (*vals)[i % nv] + " then " + (*vals)[i / nv]; }});
    }
    // words that shells tend to know, as commands, comments and expressions
    {
        static const char* words[] = {"quit", "exit", "q", "help", "h", "?", "break", "clear", "reset", "set", "let", "echo", "quiet", "verbose", "debug", "load", "save", "pga", "algebra", "algebra 3 0 1", "precision", "precision 3", "history",
                                      "last", "ans", "_", "eof", "end", "off", "on", "break on", "break off", "#", "##", "!", "pragma", "include", "define x 2", "x=2", "ans = 3", "EOF", "bye", "version", "stop"};
        static const char* pres[] = {"", ".", "..", "#", "# ", "##", " .", " #", ":", "\\", "-", "--"};
        static const char* tail[3][4] = {{"e1*e2", "(a", "# n", "a+1"}, {"", "a)b", "ans", "x"}, {"# n", "@", ".break", "0.123456*a"}};
        u64 W = sizeof words / sizeof *words, P = sizeof pres / sizeof *pres;
        auto mk = [=](u64 i) {
            Dig d(i);
            std::string w = words[d(W)];
            w = pres[d(P)] + w;
            int t = (int)d(3);
            std::vector<std::string> l;
            if (d(2)) l.push_back(w);
            l.push_back(w);
            for (auto x : tail[t]) l.push_back(x);
            return l;
        };
        out.push_back(Space{"words shells tend to know", W * P * 6, [=](u64 i, Ctx& c) { session(c, mk(i), true); }, [=](u64 i) { std::string s; for (auto& x : mk(i)) s += esc(x) + " "; return s; }});
    }
    // lines of every length scale between two others: numbers, names, operators and nesting without end
    {
        static const char* pre[] = {"(", "-", "a+", "9", "a", " ", "#", "((", ")", "~", "1+", "e1|"};
        static const int reps[] = {16, 31, 32, 64, 100, 128, 255, 256, 257, 1000, 4096, 10000, 65536, 1000000};
        int nr = A.lite ? 12 : 14;
        auto mk = [=](u64 i) {
            Dig d(i);
            const char* p = pre[d(12)];
            int n = reps[d(nr)];
            std::string t;
            if (n > 10000 && std::strchr("ae1", *p) && p[1]) n = 10000; // value grows with every operand
            for (int k = 0; k != n; ++k) t += p;
            int tail = (int)d(3);
            if (tail) t += "a";
            if (tail == 2) t += std::string(std::max<long>(0, (long)std::count(t.begin(), t.end(), '(') - (long)std::count(t.begin(), t.end(), ')')), ')');
            return t;
        };
        out.push_back(Space{"long lines between two others", (u64)12 * nr * 3, [=](u64 i, Ctx& c) { session(c, {"e1*e2", mk(i), "a+1"}, true); },
            [](u64 i) { Dig d(i); std::string p = pre[d(12)]; return "pattern " + p + ", case " + std::to_string(i); }});
    }
    // the same line repeated: nothing accumulates
    out.push_back(Space{"long sessions of one pair of lines", n * n,
        [=](u64 i, Ctx& c) {
            std::vector<std::string> l;
            for (int k = 0; k != (A.lite ? 10 : 60); ++k) l.push_back(pool()[k % 2 ? i / n : i % n]);
            session(c, l, true);
        },
        [=](u64 i) { return "60 lines alternating " + esc(pool()[i % n]) + " and " + esc(pool()[i / n]); }});
    // sessions of every number of lines, every line with an answer of its own
    {
        auto ns = std::make_shared<std::vector<int>>();
        for (int k = 1; k <= (A.lite ? 20 : 400); ++k) ns->push_back(k);
        if (!A.lite) for (int k : {499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10000, 16384, 20000, 32769}) ns->push_back(k);
        if (A.thorough()) for (int k : {65535, 65536, 65537, 100000, 131073, 300000}) ns->push_back(k);
        u64 m = ns->size();
        out.push_back(Space{"sessions of every number of lines", m * 7,
            [=](u64 i, Ctx& c) {
                int k = (*ns)[i / 7], kind = (int)(i % 7);
                std::vector<std::string> l;
                for (int j = 0; j != k; ++j)
                {
                    std::string t = std::to_string(j);
                    switch (kind)
                    {
                    case 0: l.push_back(t + "+a"); break;
                    case 1: l.push_back("# " + t); break;
                    case 2: l.push_back(j + 1 == k ? "e1*e2" : "("); break;
                    case 3: l.push_back(j + 1 == k ? "e1*e2" : ".x" + t); break;
                    case 4: l.push_back(j + 1 == k ? "e1*e2" : ""); break;
                    case 5: l.push_back(j % 5 == 0 ? "#" + t : j % 5 == 1 ? t + " e1" : j % 5 == 2 ? t + " e" + "11" : j % 5 == 3 ? "" : "x" + t + "*e3"); break;
                    case 6: l.push_back(j + 1 == k ? "e1*e2" : "e12"); break;
                    }
                }
                session(c, l, k % 2 == 0);
            },
            [=](u64 i) { return std::to_string((*ns)[i / 7]) + " lines of kind " + std::to_string(i % 7); }});
    }
    // the real program: exit status, both streams
    if (const char* bin = getenv("KLEIN_SHELL"))
    {
        std::string b = bin;
        u64 m = A.lite ? 6 : A.thorough() ? n : 14;
        out.push_back(Space{"sessions of the shell program", 1 + m + m * m,
            [=](u64 i, Ctx& c) {
                std::vector<std::string> l;
                if (i && i <= m) l = {pool()[i - 1]};
                else if (i) l = {pool()[(i - 1 - m) / m], pool()[(i - 1 - m) % m]};
                std::string in, o, e;
                for (auto& x : l) in += x + "\n";
                int pi[2], po[2], pe[2];
                if (pipe(pi) || pipe(po) || pipe(pe)) { c.fail("harness", "pipe"); return; }
                pid_t p = fork();
                if (!p)
                {
                    dup2(pi[0], 0); dup2(po[1], 1); dup2(pe[1], 2);
                    for (int f : {pi[0], pi[1], po[0], po[1], pe[0], pe[1]}) close(f);
                    alarm(20);
                    execl(b.c_str(), b.c_str(), (char*)0);
                    _exit(127);
                }
                close(pi[0]); close(po[1]); close(pe[1]);
                if (write(pi[1], in.data(), in.size())) {}
                close(pi[1]);
                char buf[4096];
                ssize_t k;
                while ((k = read(po[0], buf, sizeof buf)) > 0) o.append(buf, k);
                while ((k = read(pe[0], buf, sizeof buf)) > 0) e.append(buf, k);
                close(po[0]); close(pe[0]);
                int st;
                waitpid(p, &st, 0);
                c.expect(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit status", "the shell exits with status 0 at end of input");
                // same text as the in-process session, which is judged above
                std::istringstream is(in);
                std::ostringstream os, es;
                std::streambuf *oi = std::cin.rdbuf(is.rdbuf()), *oo = std::cout.rdbuf(os.rdbuf()), *oe = std::cerr.rdbuf(es.rdbuf());
                std::cin.clear();
                { repl r; r.run(); }
                std::cin.rdbuf(oi); std::cout.rdbuf(oo); std::cerr.rdbuf(oe);
                c.expect(o == os.str() && e == es.str(), "program output", "the program answers like the session loop");
                session(c, l, true);
                c.mixs(o);
            },
            [=](u64 i) { return "program session " + std::to_string(i); }});
    }
    return out;
}
#endif

int main(int argc, char** argv)
{
#if !defined(__SANITIZE_ADDRESS__) && GRP != 25
    // a runaway evaluation ends in bad_alloc instead of taking the machine's memory
    struct rlimit r = {(rlim_t)2 << 30, (rlim_t)2 << 30};
    setrlimit(RLIMIT_AS, &r);
#endif
    return run_main(argc, argv, make);
}
