#include <klein/klein.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace kln;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static bool near(double a, double b, double t = 1e-3) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
int main()
{
    euler_angles e; e.yaw = 0.3f; e.pitch = 1.5666f; e.roll = -0.2f;
    rotor r(e);
    euler_angles f = r.as_euler_angles();
    CHECK(std::fabs(f.pitch - e.pitch) < 3e-3f);
    rotor q(f);
    rotor d = ~r * q;
    CHECK(std::fabs(d.e31()) < 2e-3f);
    return bad;
}
