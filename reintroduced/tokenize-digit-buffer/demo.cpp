#include "parser.hpp"
#include "repl.hpp"
#include <cstdio>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static std::string ev(std::string const& s, algebra const& a)
{
    try { std::ostringstream o; o << parse(s, a); return o.str(); }
    catch (std::exception const& e) { return std::string("error"); }
}
[[maybe_unused]] static std::string session(std::string const& in)
{
    std::istringstream i(in);
    std::ostringstream o;
    auto *ci = std::cin.rdbuf(i.rdbuf());
    auto *co = std::cout.rdbuf(o.rdbuf());
    std::cin.clear();
    { repl r; r.run(); }
    std::cin.rdbuf(ci);
    std::cout.rdbuf(co);
    return o.str();
}
int main()
{
    algebra a{3, 0, 1};
    CHECK(ev("12345678901234567890123456789012", a) == "error");
    return bad;
}
