// Operand alphabets for the codes of opt.hpp.
#pragma once
#include "ver.hpp"
#include "opt.hpp"

typedef std::vector<std::vector<float>> Ops;

inline Ops sub(Ops const& o, size_t n)
{
    if (o.size() <= n) return o;
    Ops r;
    for (size_t i = 0; i != n; ++i) r.push_back(o[i * o.size() / n]);
    return r;
}
// general coefficient vectors of n components, none of them all zero unless zero is set
inline Ops general(int n, bool zero)
{
    Ops v;
    if (zero) v.push_back(std::vector<float>(n, 0.f));
    for (auto& f : probes(n, true)) v.push_back(f);
    DevSpace d(n, n < 2 ? n : 2, WIDES, NWS);
    for (mc::u64 i = 0; i < d.size(); i += 3)
    {
        std::vector<float> f(n);
        d.get(i, f.data());
        bool nz = zero;
        for (float x : f) nz |= x != 0.f;
        if (nz) v.push_back(f);
    }
    return v;
}
inline Ops operands(char code, bool thorough)
{
    Ops v;
    switch (code)
    {
    case 'P': case 'X': return general(4, false);
    case 'Q': return general(4, false);
    case 'D': case 'V': return general(3, false);
    case 'I': return general(3, true);
    case 'T': return general(3, true);
    case 'L': return general(6, false);
    case 'N': return general(8, false);
    case 'U': return general(2, true);
    case 'B': return general(3, false);
    case 'S': for (float f : {1.f, -1.f, 2.f, 0.5f, -3.7f, 1e-3f, 1234.5f, 0.33333334f, 1e6f, 3.14159f}) v.push_back({f}); return v;
    case 'i': for (float f : {1.f, -1.f, 2.f, 3.f, -7.f, 1000.f}) v.push_back({f}); return v;
    case 'A': for (double a : angles(thorough)) v.push_back({(float)a}); return v;
    case 'p':
        for (V3 n : axes(thorough ? 2 : 0))
            for (double d : {0., 1., -2.5, 1e-3, 100.})
            {
                double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
                v.push_back({float(n[0] / l), float(n[1] / l), float(n[2] / l), float(d)});
            }
        return v;
    case 'x':
        for (V3 const& d : displacements(thorough)) v.push_back({(float)d[0], (float)d[1], (float)d[2], 1.f});
        return v;
    case 'b':
        for (V3 n : axes(thorough ? 2 : 0))
        {
            double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
            v.push_back({float(n[0] / l), float(n[1] / l), float(n[2] / l)});
        }
        return v;
    case 'l':
        for (V3 n : axes(thorough ? 2 : 0))
            for (V3 q : {V3{{0, 0, 0}}, V3{{1, -2, 3}}, V3{{0.3, 20, -7}}, V3{{0, 0, 1}}, V3{{-1, 0.5, 0}}})
            {
                double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
                double u[3] = {n[0] / l, n[1] / l, n[2] / l};
                // moment q x u
                v.push_back({float(-(q[1] * u[2] - q[2] * u[1])), float(-(q[2] * u[0] - q[0] * u[2])), float(-(q[0] * u[1] - q[1] * u[0])), float(u[0]), float(u[1]), float(u[2])});
            }
        return v;
    case 'R':
        for (Q4 const& q : all_rotors(thorough)) v.push_back({(float)q[0], (float)q[1], (float)q[2], (float)q[3]});
        return v;
    case 'M':
        for (Q4 const& q : few_rotors())
            for (V3 const& d : displacements(thorough))
            {
                std::vector<float> f(8);
                motor_f(ref::gp(t_mv(d), q_mv(q)), f.data());
                v.push_back(f);
            }
        return v;
    case 'E':
        for (int r = -6; r <= 6; ++r)
            for (int p = -7; p <= 7; ++p)
                for (int y = -6; y <= 6; ++y) v.push_back({float(r * 0.49), float(p * 0.21), float(y * 0.49)});
        return v;
    }
    return v;
}
// operand lists of one operation, thinned so that their product stays below the limit
inline std::vector<Ops> operand_lists(OpDesc const& o, mc::u64 limit, bool thorough)
{
    std::vector<Ops> l;
    int k = (int)strlen(o.args);
    for (int i = 0; i != k; ++i) l.push_back(operands(o.args[i], thorough));
    for (;;)
    {
        mc::u64 n = 1;
        int big = 0;
        for (int i = 0; i != k; ++i)
        {
            n *= l[i].size();
            if (l[i].size() > l[big].size()) big = i;
        }
        if (n <= limit) return l;
        l[big] = sub(l[big], l[big].size() * 3 / 4);
    }
}
inline mc::u64 product_size(std::vector<Ops> const& l)
{
    mc::u64 n = 1;
    for (auto& x : l) n *= x.size();
    return n;
}
inline void pick(std::vector<Ops> const& l, mc::u64 i, float* in)
{
    mc::Dig d(i);
    for (auto& x : l)
    {
        auto const& f = x[d(x.size())];
        std::copy(f.begin(), f.end(), in);
        in += f.size();
    }
}
