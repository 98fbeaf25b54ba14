#include <klein/klein.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace kln;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static bool near(double a, double b, double t = 1e-3) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
int main()
{
    rotor r(euler_angles{0.9f, 1.56f, 0.2f});
    euler_angles e = r.as_euler_angles();
    rotor s(e);
    CHECK(std::fabs(std::fabs(r.scalar()*s.scalar()+r.e23()*s.e23()+r.e31()*s.e31()+r.e12()*s.e12()) - 1) < 1e-6f && std::fabs(e.pitch - 1.56f) < 3e-3f);
    return bad;
}
