#include <klein/klein.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace kln;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static bool near(double a, double b, double t = 1e-3) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
int main()
{
    motor m(1.5e-3f, 1.f, line(0.f, 0.f, 0.f, 0.f, 0.f, 1.f));
    line l = log(m);
    CHECK(std::fabs(std::fabs(l.e12()) - 0.75e-3f) < 1e-4f);
    return bad;
}
