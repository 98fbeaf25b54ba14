#include <klein/klein.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace kln;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static bool near(double a, double b, double t = 1e-3) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
int main()
{
    rotor r(euler_angles{0.4f, 1.53f, 0.9f});
    rotor s(r.as_euler_angles());
    CHECK(std::fabs(r.e12() - s.e12()) < 1e-3f || std::fabs(r.e12() + s.e12()) < 1e-3f);
    CHECK(std::fabs(r.e23() - s.e23()) < 1e-3f || std::fabs(r.e23() + s.e23()) < 1e-3f);
    CHECK(std::fabs(std::fabs(r.scalar()) - std::fabs(s.scalar())) < 1e-4f);
    return bad;
}
