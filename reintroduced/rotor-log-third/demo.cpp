#include <klein/klein.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace kln;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static bool near(double a, double b, double t = 1e-3) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
int main()
{
    rotor r(2.0943951f, 1.f, 1.f, 1.f);
    rotor q; { float f[4] = {0.5f, 0.5f, 0.5f, 0.5f}; q.load_normalized(f); }
    branch b = log(q);
    CHECK(near(b.norm(), 1.04719755, 1e-5));
    return bad;
}
