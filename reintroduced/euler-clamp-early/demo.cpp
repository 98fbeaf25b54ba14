#include <klein/klein.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace kln;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static bool near(double a, double b, double t = 1e-3) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
int main()
{
    euler_angles a; a.roll = 0.7f; a.pitch = 1.552f; a.yaw = 0.2f;
    rotor r(a);
    euler_angles b = r.as_euler_angles();
    CHECK(near(b.pitch, a.pitch, 2e-3) && near(b.yaw, a.yaw, 2e-2));
    return bad;
}
