#include <klein/klein.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace kln;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static bool near(double a, double b, double t = 1e-3) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
int main()
{
    rotor r(1.f, 1.f, 2.f, 3.f);
    line in[2] = {line(1.f, 2.f, 3.f, 4.f, 5.f, 6.f), line(-3.f, 1.f, 2.f, 4.f, 5.f, 6.f)}, out[2];
    r(in, out, 2);
    for (int i = 0; i != 2; ++i) CHECK(out[i].approx_eq(r(in[i]), 1e-3f));
    return bad;
}
