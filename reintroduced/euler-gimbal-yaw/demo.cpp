#include <klein/klein.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace kln;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static bool near(double a, double b, double t = 1e-3) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
int main()
{
    euler_angles a; a.roll = 0.7f; a.pitch = -pi_2; a.yaw = 0.2f;
    rotor r(a);
    rotor q(r.as_euler_angles());
    CHECK(q.constrained().approx_eq(r.constrained(), 2e-3f));
    return bad;
}
