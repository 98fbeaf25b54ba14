#include "symbridge.hpp"
#include "ga.hpp"
#include "parser.hpp"
std::vector<FlatTerm> sym_value(std::string const& s)
{
    algebra a{3, 0, 1};
    mv m = parse(s, a);
    std::vector<FlatTerm> o;
    for (auto const& t : m.terms)
        for (auto const& p : t.second.terms)
        {
            FlatTerm f{t.first, p.second, {}};
            for (auto const& x : p.first.factors) f.vars.push_back({x.first, x.second});
            o.push_back(f);
        }
    return o;
}
