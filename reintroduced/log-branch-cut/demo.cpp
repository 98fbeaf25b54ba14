#include <klein/klein.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
using namespace kln;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("line %d: %s\n", __LINE__, #c); } } while (0)
static bool near(double a, double b, double t = 1e-3) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
int main()
{
    // a turn just short of a full one (of the double cover) with pitch
    motor m = exp(line(0.3f, 0.f, 3.13f * 0.2f, 0.f, 0.f, 3.13f));
    motor n = exp(log(m));
    CHECK(near(m.e03(), n.e03()) && near(m.e0123(), n.e0123()));
    CHECK(std::fabs(m.e03() - n.e03()) < 1e-4f);
    return bad;
}
