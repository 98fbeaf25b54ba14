// Reference model of the symbolic engine: multivectors over a (p,q,r) metric with polynomial
// coefficients in double precision, a reference reader for expressions (shell grammar) and for
// printed multivectors. Written independently of sym/*.cpp (plain index lists, no bit tricks).
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sr
{
struct Sig
{
    unsigned p, q, r;
    unsigned dim() const { return p + q + r; }
    // degenerate generators first, then positive, then negative
    int square(unsigned i) const { return i < r ? 0 : i < r + p ? 1 : -1; }
};
typedef uint32_t Blade;
inline std::vector<unsigned> idx(Blade b)
{
    std::vector<unsigned> v;
    for (unsigned i = 0; i != 32; ++i)
        if (b >> i & 1u) v.push_back(i);
    return v;
}
inline int grade(Blade b) { return (int)idx(b).size(); }
// sort a list of generators by adjacent swaps, contracting equal neighbours; returns sign (0 if degenerate)
inline int reduce(std::vector<unsigned>& v, Sig const* s)
{
    int sign = 1;
    for (bool again = true; again;)
    {
        again = false;
        for (size_t i = 0; i + 1 < v.size(); ++i)
        {
            if (v[i] > v[i + 1])
            {
                std::swap(v[i], v[i + 1]);
                sign  = -sign;
                again = true;
            }
            else if (v[i] == v[i + 1])
            {
                if (!s) return 0; // exterior
                sign *= s->square(v[i]);
                if (!sign) return 0;
                v.erase(v.begin() + i, v.begin() + i + 2);
                again = true;
                break;
            }
        }
    }
    return sign;
}
inline Blade toblade(std::vector<unsigned> const& v)
{
    Blade b = 0;
    for (unsigned i : v) b |= 1u << i;
    return b;
}
struct BR { int sign; Blade b; };
inline BR cat(Blade a, Blade b, Sig const* s)
{
    std::vector<unsigned> v = idx(a), w = idx(b);
    v.insert(v.end(), w.begin(), w.end());
    int sg = reduce(v, s);
    return BR{sg, sg ? toblade(v) : 0};
}
inline BR gp(Blade a, Blade b, Sig const& s) { return cat(a, b, &s); }
inline BR ext(Blade a, Blade b, Sig const&) { return cat(a, b, nullptr); }
inline BR dot(Blade a, Blade b, Sig const& s)
{
    if (!a || !b) return BR{0, 0};
    BR r = cat(a, b, &s);
    if (r.sign && grade(r.b) != std::abs(grade(a) - grade(b))) r.sign = 0;
    return r;
}
inline int revsign(Blade a)
{
    std::vector<unsigned> v = idx(a);
    std::reverse(v.begin(), v.end());
    return reduce(v, nullptr);
}
// Poincare dual of the plane-based algebra (3,0,1): the basis the shell documents,
// 1 <-> e0123, e0 <-> e123, e1 <-> e032, e2 <-> e013, e3 <-> e021, e01 <-> e23, e02 <-> e31, e03 <-> e12
inline BR dual31(Blade a)
{
    static const struct { unsigned l[5], r[5]; } pr[] = {
        {{0}, {4, 0, 1, 2, 3}}, {{1, 0}, {3, 1, 2, 3}}, {{1, 1}, {3, 0, 3, 2}}, {{1, 2}, {3, 0, 1, 3}}, {{1, 3}, {3, 0, 2, 1}},
        {{2, 0, 1}, {2, 2, 3}}, {{2, 0, 2}, {2, 3, 1}}, {{2, 0, 3}, {2, 1, 2}}};
    for (auto const& e : pr)
        for (int side = 0; side != 2; ++side)
        {
            const unsigned *from = side ? e.r : e.l, *to = side ? e.l : e.r;
            std::vector<unsigned> f(from + 1, from + 1 + from[0]), t(to + 1, to + 1 + to[0]);
            int sf = reduce(f, nullptr), st = reduce(t, nullptr);
            if (toblade(f) == a) return BR{sf * st, toblade(t)};
        }
    return BR{0, 0};
}
inline BR reg31(Blade a, Blade b)
{
    BR x = dual31(a), y = dual31(b);
    BR e = cat(x.b, y.b, nullptr);
    if (!e.sign) return BR{0, 0};
    BR d = dual31(e.b);
    return BR{x.sign * y.sign * e.sign * d.sign, d.b};
}

typedef std::map<std::string, int> Mon; // variable -> exponent (never 0)
typedef std::map<Mon, double> Poly;     // never 0
typedef std::map<Blade, Poly> Mv;       // never empty
inline Mon mmul(Mon a, Mon const& b)
{
    for (auto const& f : b)
        if ((a[f.first] += f.second) == 0) a.erase(f.first);
    return a;
}
inline void padd(Poly& p, Mon const& m, double c)
{
    double& x = p[m];
    x += c;
    if (x == 0) p.erase(m);
}
inline Poly padd(Poly a, Poly const& b)
{
    for (auto const& t : b) padd(a, t.first, t.second);
    return a;
}
inline Poly pmul(Poly const& a, Poly const& b)
{
    Poly o;
    for (auto const& x : a)
        for (auto const& y : b) padd(o, mmul(x.first, y.first), x.second * y.second);
    return o;
}
inline Poly pneg(Poly a)
{
    for (auto& t : a) t.second = -t.second;
    return a;
}
inline void add(Mv& m, Blade b, Poly const& p)
{
    Poly& x = m[b];
    x = padd(x, p);
    if (x.empty()) m.erase(b);
}
inline Mv neg(Mv a)
{
    for (auto& t : a) t.second = pneg(t.second);
    return a;
}
inline Mv add(Mv a, Mv const& b, int s = 1)
{
    for (auto const& t : b) add(a, t.first, s > 0 ? t.second : pneg(t.second));
    return a;
}
inline Mv rev(Mv a)
{
    for (auto& t : a)
        if (revsign(t.first) < 0) t.second = pneg(t.second);
    return a;
}
inline BR bop(char op, Blade a, Blade b, Sig const& s)
{
    return op == '*' ? gp(a, b, s) : op == '^' ? ext(a, b, s) : op == '|' ? dot(a, b, s) : reg31(a, b);
}
inline Mv mul(char op, Mv const& a, Mv const& b, Sig const& s)
{
    // memo of blade products for the signature in use
    struct Memo { Sig s; std::vector<int8_t> sg; std::vector<Blade> b; char op; };
    Mv o;
    for (auto const& x : a)
        for (auto const& y : b)
        {
            BR r;
            if (s.dim() == 4)
            {
                static thread_local std::map<uint32_t, std::vector<BR>> memo;
                uint32_t k = s.p | s.q << 8 | s.r << 16 | (uint32_t)(unsigned char)op << 24;
                std::vector<BR>& t = memo[k];
                if (t.empty())
                    for (int i = 0; i != 256; ++i) t.push_back(op == '&' && !(s.p == 3 && s.r == 1) ? BR{0, 0} : bop(op, i / 16, i % 16, s));
                r = t[(x.first & 15) * 16 + (y.first & 15)];
            }
            else
                r = bop(op, x.first, y.first, s);
            if (!r.sign) continue;
            Poly p = pmul(x.second, y.second);
            add(o, r.b, r.sign < 0 ? pneg(p) : p);
        }
    return o;
}
inline std::string text(Mv const& m)
{
    std::string o;
    char b[40];
    for (auto const& t : m)
    {
        o += o.empty() ? "{" : "; ";
        o += "e";
        for (unsigned i : idx(t.first)) o += std::to_string(i);
        o += ":";
        for (auto const& p : t.second)
        {
            snprintf(b, sizeof b, " %+.9g", p.second);
            o += b;
            for (auto const& f : p.first) o += " " + f.first + "^" + std::to_string(f.second);
        }
    }
    return o.empty() ? "{}" : o + "}";
}

// ---- reference reader of shell expressions -----------------------------------------------
struct Tok
{
    char t; // n number, i identifier, e element, or the character itself; 0 end
    double num;
    std::string id;
    Blade b;
    int sign;
};
struct Bad {};
inline bool is_space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool is_dig(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool is_al(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline std::vector<Tok> lex(std::string const& s, Sig const& sig)
{
    std::vector<Tok> o;
    size_t i = 0;
    while (i < s.size())
    {
        char c = s[i];
        if (is_space(c)) { ++i; continue; }
        if (c == 0) break; // an embedded NUL ends the scan (documented in the tokenizer)
        Tok t{};
        if (std::strchr("()+-~*^&|", c))
        {
            t.t = c;
            ++i;
        }
        else if (is_dig(c))
        {
            size_t b = i;
            while (i < s.size() && is_dig(s[i])) ++i;
            if (i < s.size() && s[i] == '.')
            {
                ++i;
                while (i < s.size() && is_dig(s[i])) ++i;
            }
            // the documented limit on the length of a number
            size_t run = i;
            while (run < s.size() && (is_dig(s[run]) || s[run] == '.')) ++run;
            if (run - b > 31) throw Bad();
            t.t   = 'n';
            t.num = strtof(s.substr(b, i - b).c_str(), nullptr);
        }
        else if (c == 'e' && i + 1 < s.size() && is_dig(s[i + 1]))
        {
            std::vector<unsigned> v;
            for (++i; i < s.size() && is_dig(s[i]); ++i)
            {
                unsigned d = s[i] - '0';
                if (d >= sig.dim() || std::find(v.begin(), v.end(), d) != v.end()) throw Bad();
                v.push_back(d);
            }
            t.t    = 'e';
            t.sign = reduce(v, nullptr);
            t.b    = toblade(v);
        }
        else if (is_al(c))
        {
            size_t b = i;
            while (i < s.size() && (is_al(s[i]) || is_dig(s[i]))) ++i;
            t.t  = 'i';
            t.id = s.substr(b, i - b);
        }
        else
            throw Bad();
        o.push_back(t);
    }
    o.push_back(Tok{});
    return o;
}
struct Reader
{
    std::vector<Tok> const& t;
    Sig sig;
    size_t i = 0;
    Mv primary()
    {
        // unary signs commute with each other
        bool ng = false, rv = false;
        for (; t[i].t == '+' || t[i].t == '-' || t[i].t == '~'; ++i)
        {
            ng ^= t[i].t == '-';
            rv ^= t[i].t == '~';
        }
        Mv o = operand();
        if (ng) o = neg(o);
        return rv ? rev(o) : o;
    }
    Mv operand()
    {
        Tok const& k = t[i];
        Mv o;
        if (k.t == '(')
        {
            ++i;
            o = sum();
            if (t[i].t != ')') throw Bad();
            ++i;
            return o;
        }
        Poly p;
        if (k.t == 'n') { padd(p, Mon(), k.num); ++i; }
        else if (k.t == 'i') { Mon m; m[k.id] = 1; padd(p, m, 1); ++i; }
        else if (k.t == 'e') padd(p, Mon(), 1);
        else throw Bad();
        if (t[i].t == 'e')
        {
            add(o, t[i].b, t[i].sign < 0 ? pneg(p) : p);
            ++i;
        }
        else
            add(o, 0, p);
        return o;
    }
    // binding strength of the products, tightest first
    Mv level(int l)
    {
        static const char ops[] = "|&^*";
        if (l < 0) return primary();
        Mv o = level(l - 1);
        while (t[i].t == ops[l])
        {
            ++i;
            o = mul(ops[l], o, level(l - 1), sig);
        }
        return o;
    }
    Mv sum()
    {
        Mv o = level(3);
        while (t[i].t == '+' || t[i].t == '-')
        {
            int s = t[i].t == '+' ? 1 : -1;
            ++i;
            o = add(o, level(3), s);
        }
        return o;
    }
};
// largest number of parentheses open at once
inline size_t nesting(std::string const& s)
{
    size_t d = 0, m = 0;
    for (char c : s)
    {
        if (c == 0) break;
        if (c == '(') m = std::max(m, ++d);
        else if (c == ')' && d) --d;
    }
    return m;
}
// value of a complete well-formed expression; throws Bad otherwise
inline Mv eval(std::string const& s, Sig const& sig)
{
    std::vector<Tok> t = lex(s, sig);
    Reader r{t, sig};
    Mv o = r.sum();
    if (t[r.i].t != 0) throw Bad();
    return o;
}

// ---- reader of printed multivectors -------------------------------------------------------
// sums and differences of terms; term := [-] ('(' sum-of-monomials ')' | monomial) [element]; monomial := [-][number] {var[^int]}
struct Printed
{
    std::string const& s;
    unsigned dim;
    size_t i = 0;
    void ws() { while (i < s.size() && s[i] == ' ') ++i; }
    bool eat(char c)
    {
        ws();
        if (i < s.size() && s[i] == c) { ++i; return true; }
        return false;
    }
    // another term, added or subtracted?
    bool next(bool& minus)
    {
        minus = false;
        if (eat('+')) return true;
        return minus = eat('-');
    }
    bool at_elem() { ws(); return i + 1 < s.size() && s[i] == 'e' && is_dig(s[i + 1]); }
    void monomial(Poly& p, bool minus = false)
    {
        double c = minus ? -1 : 1;
        bool any = false;
        if (eat('-')) c = -c;
        ws();
        if (i < s.size() && is_dig(s[i]))
        {
            size_t b = i;
            while (i < s.size() && (is_dig(s[i]) || s[i] == '.')) ++i;
            if (i + 2 < s.size() && s[i] == 'e' && (s[i + 1] == '+' || s[i + 1] == '-') && is_dig(s[i + 2]))
            {
                i += 2;
                while (i < s.size() && is_dig(s[i])) ++i;
            }
            c *= atof(s.substr(b, i - b).c_str());
            any = true;
        }
        Mon m;
        for (;;)
        {
            ws();
            if (i >= s.size() || !is_al(s[i]) || at_elem()) break;
            size_t b = i;
            while (i < s.size() && (is_al(s[i]) || is_dig(s[i]))) ++i;
            std::string v = s.substr(b, i - b);
            int ex = 1;
            if (i < s.size() && s[i] == '^')
            {
                ++i;
                size_t e = i;
                if (i < s.size() && s[i] == '-') ++i;
                while (i < s.size() && is_dig(s[i])) ++i;
                if (e == i) throw Bad();
                ex = atoi(s.substr(e, i - e).c_str());
            }
            if (m.count(v) || ex == 0) throw Bad(); // every variable is named once
            m[v] = ex;
            any  = true;
        }
        if (!any && !at_elem()) throw Bad();
        if (p.count(m)) throw Bad(); // every term exactly once
        if (c == 0) throw Bad();
        p[m] = c;
    }
    Mv read()
    {
        Mv o;
        if (s == "0") return o;
        bool minus = false;
        do
        {
            Poly p;
            if (eat('-')) minus = !minus;
            if (eat('('))
            {
                monomial(p);
                for (bool m; next(m);) monomial(p, m);
                if (!eat(')')) throw Bad();
            }
            else
                monomial(p);
            if (minus) p = pneg(p);
            Blade b = 0;
            if (at_elem())
            {
                ++i;
                std::vector<unsigned> v;
                while (i < s.size() && is_dig(s[i])) v.push_back(s[i++] - '0');
                int sg = reduce(v, nullptr);
                if (!sg) throw Bad();
                b = toblade(v);
                if (sg < 0) p = pneg(p);
            }
            if (o.count(b)) throw Bad();
            o[b] = p;
        } while (next(minus));
        ws();
        if (i != s.size()) throw Bad();
        return o;
    }
};
inline Mv read_printed(std::string const& s, unsigned dim)
{
    Printed p{s, dim};
    return p.read();
}
// same terms, coefficients equal to a relative tolerance
inline bool same(Poly const& a, Poly const& b, double rel)
{
    if (a.size() != b.size()) return false;
    for (auto x = a.begin(), y = b.begin(); x != a.end(); ++x, ++y)
        if (x->first != y->first || !(std::fabs(x->second - y->second) <= rel * std::fabs(y->second))) return false;
    return true;
}
inline bool same(Mv const& a, Mv const& b, double rel = 0)
{
    if (a.size() != b.size()) return false;
    for (auto x = a.begin(), y = b.begin(); x != a.end(); ++x, ++y)
        if (x->first != y->first || !same(x->second, y->second, rel)) return false;
    return true;
}
} // namespace sr
