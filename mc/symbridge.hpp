// Flat view of a value computed by the symbolic engine (kept apart from Klein's headers).
#pragma once
#include <string>
#include <vector>
struct FlatTerm { unsigned blade; double coef; std::vector<std::pair<std::string, int>> vars; };
std::vector<FlatTerm> sym_value(std::string const& expression);
