// Generated by tools/gen_glslshim.py. GLSL vector types with swizzles, for executing GLSL source as C++.
// Fresh vectors hold NaN, so a result that depends on an unset component is a NaN.
#pragma once
#include <cmath>
#include <limits>
namespace glsl {
struct vec2; struct vec3; struct vec4;
template <int N> struct vec_of;
template <> struct vec_of<2> { typedef vec2 type; }; template <> struct vec_of<3> { typedef vec3 type; }; template <> struct vec_of<4> { typedef vec4 type; };
template <int M, int... I> struct Swz
{
    float d[M];
    typedef typename vec_of<sizeof...(I)>::type V;
    operator V() const;
    Swz() = default;
    Swz(Swz const&) = default;
    Swz& operator=(V const& v);
    Swz& operator=(Swz const& v);
    Swz& operator+=(V const& v); Swz& operator-=(V const& v); Swz& operator*=(V const& v); Swz& operator*=(float v); Swz& operator/=(float v);
};
struct vec2
{
    union
    {
        float d[2];
        struct { float x, y; };
        struct { float r, g; };
        struct { float s, t; };
        Swz<2, 0, 0> xx; Swz<2, 0, 1> xy; Swz<2, 1, 0> yx; Swz<2, 1, 1> yy; Swz<2, 0, 0, 0> xxx; Swz<2, 0, 0, 1> xxy; Swz<2, 0, 1, 0> xyx; Swz<2, 0, 1, 1> xyy; Swz<2, 1, 0, 0> yxx; Swz<2, 1, 0, 1> yxy; Swz<2, 1, 1, 0> yyx; Swz<2, 1, 1, 1> yyy; Swz<2, 0, 0, 0, 0> xxxx; Swz<2, 0, 0, 0, 1> xxxy; Swz<2, 0, 0, 1, 0> xxyx; Swz<2, 0, 0, 1, 1> xxyy; Swz<2, 0, 1, 0, 0> xyxx; Swz<2, 0, 1, 0, 1> xyxy; Swz<2, 0, 1, 1, 0> xyyx; Swz<2, 0, 1, 1, 1> xyyy; Swz<2, 1, 0, 0, 0> yxxx; Swz<2, 1, 0, 0, 1> yxxy; Swz<2, 1, 0, 1, 0> yxyx; Swz<2, 1, 0, 1, 1> yxyy; Swz<2, 1, 1, 0, 0> yyxx; Swz<2, 1, 1, 0, 1> yyxy; Swz<2, 1, 1, 1, 0> yyyx; Swz<2, 1, 1, 1, 1> yyyy; Swz<2, 0, 0> rr; Swz<2, 0, 1> rg; Swz<2, 1, 0> gr; Swz<2, 1, 1> gg; Swz<2, 0, 0, 0> rrr; Swz<2, 0, 0, 1> rrg; Swz<2, 0, 1, 0> rgr; Swz<2, 0, 1, 1> rgg; Swz<2, 1, 0, 0> grr; Swz<2, 1, 0, 1> grg; Swz<2, 1, 1, 0> ggr; Swz<2, 1, 1, 1> ggg; Swz<2, 0, 0, 0, 0> rrrr; Swz<2, 0, 0, 0, 1> rrrg; Swz<2, 0, 0, 1, 0> rrgr; Swz<2, 0, 0, 1, 1> rrgg; Swz<2, 0, 1, 0, 0> rgrr; Swz<2, 0, 1, 0, 1> rgrg; Swz<2, 0, 1, 1, 0> rggr; Swz<2, 0, 1, 1, 1> rggg; Swz<2, 1, 0, 0, 0> grrr; Swz<2, 1, 0, 0, 1> grrg; Swz<2, 1, 0, 1, 0> grgr; Swz<2, 1, 0, 1, 1> grgg; Swz<2, 1, 1, 0, 0> ggrr; Swz<2, 1, 1, 0, 1> ggrg; Swz<2, 1, 1, 1, 0> gggr; Swz<2, 1, 1, 1, 1> gggg; Swz<2, 0, 0> ss; Swz<2, 0, 1> st; Swz<2, 1, 0> ts; Swz<2, 1, 1> tt; Swz<2, 0, 0, 0> sss; Swz<2, 0, 0, 1> sst; Swz<2, 0, 1, 0> sts; Swz<2, 0, 1, 1> stt; Swz<2, 1, 0, 0> tss; Swz<2, 1, 0, 1> tst; Swz<2, 1, 1, 0> tts; Swz<2, 1, 1, 1> ttt; Swz<2, 0, 0, 0, 0> ssss; Swz<2, 0, 0, 0, 1> ssst; Swz<2, 0, 0, 1, 0> ssts; Swz<2, 0, 0, 1, 1> sstt; Swz<2, 0, 1, 0, 0> stss; Swz<2, 0, 1, 0, 1> stst; Swz<2, 0, 1, 1, 0> stts; Swz<2, 0, 1, 1, 1> sttt; Swz<2, 1, 0, 0, 0> tsss; Swz<2, 1, 0, 0, 1> tsst; Swz<2, 1, 0, 1, 0> tsts; Swz<2, 1, 0, 1, 1> tstt; Swz<2, 1, 1, 0, 0> ttss; Swz<2, 1, 1, 0, 1> ttst; Swz<2, 1, 1, 1, 0> ttts; Swz<2, 1, 1, 1, 1> tttt;
    };
    vec2() { for (float& f : d) f = std::numeric_limits<float>::quiet_NaN(); }
    vec2(vec2 const& o) { for (int i = 0; i != 2; ++i) d[i] = o.d[i]; }
    vec2& operator=(vec2 const& o) { for (int i = 0; i != 2; ++i) d[i] = o.d[i]; return *this; }
    explicit vec2(float s) { for (float& f : d) f = s; }
    vec2(float a0, float a1) { d[0] = a0; d[1] = a1; }
    explicit vec2(vec3 const& a); explicit vec2(vec4 const& a);
    float& operator[](int i) { return d[i]; }
    float operator[](int i) const { return d[i]; }
};
struct vec3
{
    union
    {
        float d[3];
        struct { float x, y, z; };
        struct { float r, g, b; };
        struct { float s, t, p; };
        Swz<3, 0, 0> xx; Swz<3, 0, 1> xy; Swz<3, 0, 2> xz; Swz<3, 1, 0> yx; Swz<3, 1, 1> yy; Swz<3, 1, 2> yz; Swz<3, 2, 0> zx; Swz<3, 2, 1> zy; Swz<3, 2, 2> zz; Swz<3, 0, 0, 0> xxx; Swz<3, 0, 0, 1> xxy; Swz<3, 0, 0, 2> xxz; Swz<3, 0, 1, 0> xyx; Swz<3, 0, 1, 1> xyy; Swz<3, 0, 1, 2> xyz; Swz<3, 0, 2, 0> xzx; Swz<3, 0, 2, 1> xzy; Swz<3, 0, 2, 2> xzz; Swz<3, 1, 0, 0> yxx; Swz<3, 1, 0, 1> yxy; Swz<3, 1, 0, 2> yxz; Swz<3, 1, 1, 0> yyx; Swz<3, 1, 1, 1> yyy; Swz<3, 1, 1, 2> yyz; Swz<3, 1, 2, 0> yzx; Swz<3, 1, 2, 1> yzy; Swz<3, 1, 2, 2> yzz; Swz<3, 2, 0, 0> zxx; Swz<3, 2, 0, 1> zxy; Swz<3, 2, 0, 2> zxz; Swz<3, 2, 1, 0> zyx; Swz<3, 2, 1, 1> zyy; Swz<3, 2, 1, 2> zyz; Swz<3, 2, 2, 0> zzx; Swz<3, 2, 2, 1> zzy; Swz<3, 2, 2, 2> zzz; Swz<3, 0, 0, 0, 0> xxxx; Swz<3, 0, 0, 0, 1> xxxy; Swz<3, 0, 0, 0, 2> xxxz; Swz<3, 0, 0, 1, 0> xxyx; Swz<3, 0, 0, 1, 1> xxyy; Swz<3, 0, 0, 1, 2> xxyz; Swz<3, 0, 0, 2, 0> xxzx; Swz<3, 0, 0, 2, 1> xxzy; Swz<3, 0, 0, 2, 2> xxzz; Swz<3, 0, 1, 0, 0> xyxx; Swz<3, 0, 1, 0, 1> xyxy; Swz<3, 0, 1, 0, 2> xyxz; Swz<3, 0, 1, 1, 0> xyyx; Swz<3, 0, 1, 1, 1> xyyy; Swz<3, 0, 1, 1, 2> xyyz; Swz<3, 0, 1, 2, 0> xyzx; Swz<3, 0, 1, 2, 1> xyzy; Swz<3, 0, 1, 2, 2> xyzz; Swz<3, 0, 2, 0, 0> xzxx; Swz<3, 0, 2, 0, 1> xzxy; Swz<3, 0, 2, 0, 2> xzxz; Swz<3, 0, 2, 1, 0> xzyx; Swz<3, 0, 2, 1, 1> xzyy; Swz<3, 0, 2, 1, 2> xzyz; Swz<3, 0, 2, 2, 0> xzzx; Swz<3, 0, 2, 2, 1> xzzy; Swz<3, 0, 2, 2, 2> xzzz; Swz<3, 1, 0, 0, 0> yxxx; Swz<3, 1, 0, 0, 1> yxxy; Swz<3, 1, 0, 0, 2> yxxz; Swz<3, 1, 0, 1, 0> yxyx; Swz<3, 1, 0, 1, 1> yxyy; Swz<3, 1, 0, 1, 2> yxyz; Swz<3, 1, 0, 2, 0> yxzx; Swz<3, 1, 0, 2, 1> yxzy; Swz<3, 1, 0, 2, 2> yxzz; Swz<3, 1, 1, 0, 0> yyxx; Swz<3, 1, 1, 0, 1> yyxy; Swz<3, 1, 1, 0, 2> yyxz; Swz<3, 1, 1, 1, 0> yyyx; Swz<3, 1, 1, 1, 1> yyyy; Swz<3, 1, 1, 1, 2> yyyz; Swz<3, 1, 1, 2, 0> yyzx; Swz<3, 1, 1, 2, 1> yyzy; Swz<3, 1, 1, 2, 2> yyzz; Swz<3, 1, 2, 0, 0> yzxx; Swz<3, 1, 2, 0, 1> yzxy; Swz<3, 1, 2, 0, 2> yzxz; Swz<3, 1, 2, 1, 0> yzyx; Swz<3, 1, 2, 1, 1> yzyy; Swz<3, 1, 2, 1, 2> yzyz; Swz<3, 1, 2, 2, 0> yzzx; Swz<3, 1, 2, 2, 1> yzzy; Swz<3, 1, 2, 2, 2> yzzz; Swz<3, 2, 0, 0, 0> zxxx; Swz<3, 2, 0, 0, 1> zxxy; Swz<3, 2, 0, 0, 2> zxxz; Swz<3, 2, 0, 1, 0> zxyx; Swz<3, 2, 0, 1, 1> zxyy; Swz<3, 2, 0, 1, 2> zxyz; Swz<3, 2, 0, 2, 0> zxzx; Swz<3, 2, 0, 2, 1> zxzy; Swz<3, 2, 0, 2, 2> zxzz; Swz<3, 2, 1, 0, 0> zyxx; Swz<3, 2, 1, 0, 1> zyxy; Swz<3, 2, 1, 0, 2> zyxz; Swz<3, 2, 1, 1, 0> zyyx; Swz<3, 2, 1, 1, 1> zyyy; Swz<3, 2, 1, 1, 2> zyyz; Swz<3, 2, 1, 2, 0> zyzx; Swz<3, 2, 1, 2, 1> zyzy; Swz<3, 2, 1, 2, 2> zyzz; Swz<3, 2, 2, 0, 0> zzxx; Swz<3, 2, 2, 0, 1> zzxy; Swz<3, 2, 2, 0, 2> zzxz; Swz<3, 2, 2, 1, 0> zzyx; Swz<3, 2, 2, 1, 1> zzyy; Swz<3, 2, 2, 1, 2> zzyz; Swz<3, 2, 2, 2, 0> zzzx; Swz<3, 2, 2, 2, 1> zzzy; Swz<3, 2, 2, 2, 2> zzzz; Swz<3, 0, 0> rr; Swz<3, 0, 1> rg; Swz<3, 0, 2> rb; Swz<3, 1, 0> gr; Swz<3, 1, 1> gg; Swz<3, 1, 2> gb; Swz<3, 2, 0> br; Swz<3, 2, 1> bg; Swz<3, 2, 2> bb; Swz<3, 0, 0, 0> rrr; Swz<3, 0, 0, 1> rrg; Swz<3, 0, 0, 2> rrb; Swz<3, 0, 1, 0> rgr; Swz<3, 0, 1, 1> rgg; Swz<3, 0, 1, 2> rgb; Swz<3, 0, 2, 0> rbr; Swz<3, 0, 2, 1> rbg; Swz<3, 0, 2, 2> rbb; Swz<3, 1, 0, 0> grr; Swz<3, 1, 0, 1> grg; Swz<3, 1, 0, 2> grb; Swz<3, 1, 1, 0> ggr; Swz<3, 1, 1, 1> ggg; Swz<3, 1, 1, 2> ggb; Swz<3, 1, 2, 0> gbr; Swz<3, 1, 2, 1> gbg; Swz<3, 1, 2, 2> gbb; Swz<3, 2, 0, 0> brr; Swz<3, 2, 0, 1> brg; Swz<3, 2, 0, 2> brb; Swz<3, 2, 1, 0> bgr; Swz<3, 2, 1, 1> bgg; Swz<3, 2, 1, 2> bgb; Swz<3, 2, 2, 0> bbr; Swz<3, 2, 2, 1> bbg; Swz<3, 2, 2, 2> bbb; Swz<3, 0, 0, 0, 0> rrrr; Swz<3, 0, 0, 0, 1> rrrg; Swz<3, 0, 0, 0, 2> rrrb; Swz<3, 0, 0, 1, 0> rrgr; Swz<3, 0, 0, 1, 1> rrgg; Swz<3, 0, 0, 1, 2> rrgb; Swz<3, 0, 0, 2, 0> rrbr; Swz<3, 0, 0, 2, 1> rrbg; Swz<3, 0, 0, 2, 2> rrbb; Swz<3, 0, 1, 0, 0> rgrr; Swz<3, 0, 1, 0, 1> rgrg; Swz<3, 0, 1, 0, 2> rgrb; Swz<3, 0, 1, 1, 0> rggr; Swz<3, 0, 1, 1, 1> rggg; Swz<3, 0, 1, 1, 2> rggb; Swz<3, 0, 1, 2, 0> rgbr; Swz<3, 0, 1, 2, 1> rgbg; Swz<3, 0, 1, 2, 2> rgbb; Swz<3, 0, 2, 0, 0> rbrr; Swz<3, 0, 2, 0, 1> rbrg; Swz<3, 0, 2, 0, 2> rbrb; Swz<3, 0, 2, 1, 0> rbgr; Swz<3, 0, 2, 1, 1> rbgg; Swz<3, 0, 2, 1, 2> rbgb; Swz<3, 0, 2, 2, 0> rbbr; Swz<3, 0, 2, 2, 1> rbbg; Swz<3, 0, 2, 2, 2> rbbb; Swz<3, 1, 0, 0, 0> grrr; Swz<3, 1, 0, 0, 1> grrg; Swz<3, 1, 0, 0, 2> grrb; Swz<3, 1, 0, 1, 0> grgr; Swz<3, 1, 0, 1, 1> grgg; Swz<3, 1, 0, 1, 2> grgb; Swz<3, 1, 0, 2, 0> grbr; Swz<3, 1, 0, 2, 1> grbg; Swz<3, 1, 0, 2, 2> grbb; Swz<3, 1, 1, 0, 0> ggrr; Swz<3, 1, 1, 0, 1> ggrg; Swz<3, 1, 1, 0, 2> ggrb; Swz<3, 1, 1, 1, 0> gggr; Swz<3, 1, 1, 1, 1> gggg; Swz<3, 1, 1, 1, 2> gggb; Swz<3, 1, 1, 2, 0> ggbr; Swz<3, 1, 1, 2, 1> ggbg; Swz<3, 1, 1, 2, 2> ggbb; Swz<3, 1, 2, 0, 0> gbrr; Swz<3, 1, 2, 0, 1> gbrg; Swz<3, 1, 2, 0, 2> gbrb; Swz<3, 1, 2, 1, 0> gbgr; Swz<3, 1, 2, 1, 1> gbgg; Swz<3, 1, 2, 1, 2> gbgb; Swz<3, 1, 2, 2, 0> gbbr; Swz<3, 1, 2, 2, 1> gbbg; Swz<3, 1, 2, 2, 2> gbbb; Swz<3, 2, 0, 0, 0> brrr; Swz<3, 2, 0, 0, 1> brrg; Swz<3, 2, 0, 0, 2> brrb; Swz<3, 2, 0, 1, 0> brgr; Swz<3, 2, 0, 1, 1> brgg; Swz<3, 2, 0, 1, 2> brgb; Swz<3, 2, 0, 2, 0> brbr; Swz<3, 2, 0, 2, 1> brbg; Swz<3, 2, 0, 2, 2> brbb; Swz<3, 2, 1, 0, 0> bgrr; Swz<3, 2, 1, 0, 1> bgrg; Swz<3, 2, 1, 0, 2> bgrb; Swz<3, 2, 1, 1, 0> bggr; Swz<3, 2, 1, 1, 1> bggg; Swz<3, 2, 1, 1, 2> bggb; Swz<3, 2, 1, 2, 0> bgbr; Swz<3, 2, 1, 2, 1> bgbg; Swz<3, 2, 1, 2, 2> bgbb; Swz<3, 2, 2, 0, 0> bbrr; Swz<3, 2, 2, 0, 1> bbrg; Swz<3, 2, 2, 0, 2> bbrb; Swz<3, 2, 2, 1, 0> bbgr; Swz<3, 2, 2, 1, 1> bbgg; Swz<3, 2, 2, 1, 2> bbgb; Swz<3, 2, 2, 2, 0> bbbr; Swz<3, 2, 2, 2, 1> bbbg; Swz<3, 2, 2, 2, 2> bbbb; Swz<3, 0, 0> ss; Swz<3, 0, 1> st; Swz<3, 0, 2> sp; Swz<3, 1, 0> ts; Swz<3, 1, 1> tt; Swz<3, 1, 2> tp; Swz<3, 2, 0> ps; Swz<3, 2, 1> pt; Swz<3, 2, 2> pp; Swz<3, 0, 0, 0> sss; Swz<3, 0, 0, 1> sst; Swz<3, 0, 0, 2> ssp; Swz<3, 0, 1, 0> sts; Swz<3, 0, 1, 1> stt; Swz<3, 0, 1, 2> stp; Swz<3, 0, 2, 0> sps; Swz<3, 0, 2, 1> spt; Swz<3, 0, 2, 2> spp; Swz<3, 1, 0, 0> tss; Swz<3, 1, 0, 1> tst; Swz<3, 1, 0, 2> tsp; Swz<3, 1, 1, 0> tts; Swz<3, 1, 1, 1> ttt; Swz<3, 1, 1, 2> ttp; Swz<3, 1, 2, 0> tps; Swz<3, 1, 2, 1> tpt; Swz<3, 1, 2, 2> tpp; Swz<3, 2, 0, 0> pss; Swz<3, 2, 0, 1> pst; Swz<3, 2, 0, 2> psp; Swz<3, 2, 1, 0> pts; Swz<3, 2, 1, 1> ptt; Swz<3, 2, 1, 2> ptp; Swz<3, 2, 2, 0> pps; Swz<3, 2, 2, 1> ppt; Swz<3, 2, 2, 2> ppp; Swz<3, 0, 0, 0, 0> ssss; Swz<3, 0, 0, 0, 1> ssst; Swz<3, 0, 0, 0, 2> sssp; Swz<3, 0, 0, 1, 0> ssts; Swz<3, 0, 0, 1, 1> sstt; Swz<3, 0, 0, 1, 2> sstp; Swz<3, 0, 0, 2, 0> ssps; Swz<3, 0, 0, 2, 1> sspt; Swz<3, 0, 0, 2, 2> sspp; Swz<3, 0, 1, 0, 0> stss; Swz<3, 0, 1, 0, 1> stst; Swz<3, 0, 1, 0, 2> stsp; Swz<3, 0, 1, 1, 0> stts; Swz<3, 0, 1, 1, 1> sttt; Swz<3, 0, 1, 1, 2> sttp; Swz<3, 0, 1, 2, 0> stps; Swz<3, 0, 1, 2, 1> stpt; Swz<3, 0, 1, 2, 2> stpp; Swz<3, 0, 2, 0, 0> spss; Swz<3, 0, 2, 0, 1> spst; Swz<3, 0, 2, 0, 2> spsp; Swz<3, 0, 2, 1, 0> spts; Swz<3, 0, 2, 1, 1> sptt; Swz<3, 0, 2, 1, 2> sptp; Swz<3, 0, 2, 2, 0> spps; Swz<3, 0, 2, 2, 1> sppt; Swz<3, 0, 2, 2, 2> sppp; Swz<3, 1, 0, 0, 0> tsss; Swz<3, 1, 0, 0, 1> tsst; Swz<3, 1, 0, 0, 2> tssp; Swz<3, 1, 0, 1, 0> tsts; Swz<3, 1, 0, 1, 1> tstt; Swz<3, 1, 0, 1, 2> tstp; Swz<3, 1, 0, 2, 0> tsps; Swz<3, 1, 0, 2, 1> tspt; Swz<3, 1, 0, 2, 2> tspp; Swz<3, 1, 1, 0, 0> ttss; Swz<3, 1, 1, 0, 1> ttst; Swz<3, 1, 1, 0, 2> ttsp; Swz<3, 1, 1, 1, 0> ttts; Swz<3, 1, 1, 1, 1> tttt; Swz<3, 1, 1, 1, 2> tttp; Swz<3, 1, 1, 2, 0> ttps; Swz<3, 1, 1, 2, 1> ttpt; Swz<3, 1, 1, 2, 2> ttpp; Swz<3, 1, 2, 0, 0> tpss; Swz<3, 1, 2, 0, 1> tpst; Swz<3, 1, 2, 0, 2> tpsp; Swz<3, 1, 2, 1, 0> tpts; Swz<3, 1, 2, 1, 1> tptt; Swz<3, 1, 2, 1, 2> tptp; Swz<3, 1, 2, 2, 0> tpps; Swz<3, 1, 2, 2, 1> tppt; Swz<3, 1, 2, 2, 2> tppp; Swz<3, 2, 0, 0, 0> psss; Swz<3, 2, 0, 0, 1> psst; Swz<3, 2, 0, 0, 2> pssp; Swz<3, 2, 0, 1, 0> psts; Swz<3, 2, 0, 1, 1> pstt; Swz<3, 2, 0, 1, 2> pstp; Swz<3, 2, 0, 2, 0> psps; Swz<3, 2, 0, 2, 1> pspt; Swz<3, 2, 0, 2, 2> pspp; Swz<3, 2, 1, 0, 0> ptss; Swz<3, 2, 1, 0, 1> ptst; Swz<3, 2, 1, 0, 2> ptsp; Swz<3, 2, 1, 1, 0> ptts; Swz<3, 2, 1, 1, 1> pttt; Swz<3, 2, 1, 1, 2> pttp; Swz<3, 2, 1, 2, 0> ptps; Swz<3, 2, 1, 2, 1> ptpt; Swz<3, 2, 1, 2, 2> ptpp; Swz<3, 2, 2, 0, 0> ppss; Swz<3, 2, 2, 0, 1> ppst; Swz<3, 2, 2, 0, 2> ppsp; Swz<3, 2, 2, 1, 0> ppts; Swz<3, 2, 2, 1, 1> pptt; Swz<3, 2, 2, 1, 2> pptp; Swz<3, 2, 2, 2, 0> ppps; Swz<3, 2, 2, 2, 1> pppt; Swz<3, 2, 2, 2, 2> pppp;
    };
    vec3() { for (float& f : d) f = std::numeric_limits<float>::quiet_NaN(); }
    vec3(vec3 const& o) { for (int i = 0; i != 3; ++i) d[i] = o.d[i]; }
    vec3& operator=(vec3 const& o) { for (int i = 0; i != 3; ++i) d[i] = o.d[i]; return *this; }
    explicit vec3(float s) { for (float& f : d) f = s; }
    vec3(float a0, float a1, float a2) { d[0] = a0; d[1] = a1; d[2] = a2; }
    vec3(float a, vec2 const& b); vec3(vec2 const& a, float b); explicit vec3(vec4 const& a);
    float& operator[](int i) { return d[i]; }
    float operator[](int i) const { return d[i]; }
};
struct vec4
{
    union
    {
        float d[4];
        struct { float x, y, z, w; };
        struct { float r, g, b, a; };
        struct { float s, t, p, q; };
        Swz<4, 0, 0> xx; Swz<4, 0, 1> xy; Swz<4, 0, 2> xz; Swz<4, 0, 3> xw; Swz<4, 1, 0> yx; Swz<4, 1, 1> yy; Swz<4, 1, 2> yz; Swz<4, 1, 3> yw; Swz<4, 2, 0> zx; Swz<4, 2, 1> zy; Swz<4, 2, 2> zz; Swz<4, 2, 3> zw; Swz<4, 3, 0> wx; Swz<4, 3, 1> wy; Swz<4, 3, 2> wz; Swz<4, 3, 3> ww; Swz<4, 0, 0, 0> xxx; Swz<4, 0, 0, 1> xxy; Swz<4, 0, 0, 2> xxz; Swz<4, 0, 0, 3> xxw; Swz<4, 0, 1, 0> xyx; Swz<4, 0, 1, 1> xyy; Swz<4, 0, 1, 2> xyz; Swz<4, 0, 1, 3> xyw; Swz<4, 0, 2, 0> xzx; Swz<4, 0, 2, 1> xzy; Swz<4, 0, 2, 2> xzz; Swz<4, 0, 2, 3> xzw; Swz<4, 0, 3, 0> xwx; Swz<4, 0, 3, 1> xwy; Swz<4, 0, 3, 2> xwz; Swz<4, 0, 3, 3> xww; Swz<4, 1, 0, 0> yxx; Swz<4, 1, 0, 1> yxy; Swz<4, 1, 0, 2> yxz; Swz<4, 1, 0, 3> yxw; Swz<4, 1, 1, 0> yyx; Swz<4, 1, 1, 1> yyy; Swz<4, 1, 1, 2> yyz; Swz<4, 1, 1, 3> yyw; Swz<4, 1, 2, 0> yzx; Swz<4, 1, 2, 1> yzy; Swz<4, 1, 2, 2> yzz; Swz<4, 1, 2, 3> yzw; Swz<4, 1, 3, 0> ywx; Swz<4, 1, 3, 1> ywy; Swz<4, 1, 3, 2> ywz; Swz<4, 1, 3, 3> yww; Swz<4, 2, 0, 0> zxx; Swz<4, 2, 0, 1> zxy; Swz<4, 2, 0, 2> zxz; Swz<4, 2, 0, 3> zxw; Swz<4, 2, 1, 0> zyx; Swz<4, 2, 1, 1> zyy; Swz<4, 2, 1, 2> zyz; Swz<4, 2, 1, 3> zyw; Swz<4, 2, 2, 0> zzx; Swz<4, 2, 2, 1> zzy; Swz<4, 2, 2, 2> zzz; Swz<4, 2, 2, 3> zzw; Swz<4, 2, 3, 0> zwx; Swz<4, 2, 3, 1> zwy; Swz<4, 2, 3, 2> zwz; Swz<4, 2, 3, 3> zww; Swz<4, 3, 0, 0> wxx; Swz<4, 3, 0, 1> wxy; Swz<4, 3, 0, 2> wxz; Swz<4, 3, 0, 3> wxw; Swz<4, 3, 1, 0> wyx; Swz<4, 3, 1, 1> wyy; Swz<4, 3, 1, 2> wyz; Swz<4, 3, 1, 3> wyw; Swz<4, 3, 2, 0> wzx; Swz<4, 3, 2, 1> wzy; Swz<4, 3, 2, 2> wzz; Swz<4, 3, 2, 3> wzw; Swz<4, 3, 3, 0> wwx; Swz<4, 3, 3, 1> wwy; Swz<4, 3, 3, 2> wwz; Swz<4, 3, 3, 3> www; Swz<4, 0, 0, 0, 0> xxxx; Swz<4, 0, 0, 0, 1> xxxy; Swz<4, 0, 0, 0, 2> xxxz; Swz<4, 0, 0, 0, 3> xxxw; Swz<4, 0, 0, 1, 0> xxyx; Swz<4, 0, 0, 1, 1> xxyy; Swz<4, 0, 0, 1, 2> xxyz; Swz<4, 0, 0, 1, 3> xxyw; Swz<4, 0, 0, 2, 0> xxzx; Swz<4, 0, 0, 2, 1> xxzy; Swz<4, 0, 0, 2, 2> xxzz; Swz<4, 0, 0, 2, 3> xxzw; Swz<4, 0, 0, 3, 0> xxwx; Swz<4, 0, 0, 3, 1> xxwy; Swz<4, 0, 0, 3, 2> xxwz; Swz<4, 0, 0, 3, 3> xxww; Swz<4, 0, 1, 0, 0> xyxx; Swz<4, 0, 1, 0, 1> xyxy; Swz<4, 0, 1, 0, 2> xyxz; Swz<4, 0, 1, 0, 3> xyxw; Swz<4, 0, 1, 1, 0> xyyx; Swz<4, 0, 1, 1, 1> xyyy; Swz<4, 0, 1, 1, 2> xyyz; Swz<4, 0, 1, 1, 3> xyyw; Swz<4, 0, 1, 2, 0> xyzx; Swz<4, 0, 1, 2, 1> xyzy; Swz<4, 0, 1, 2, 2> xyzz; Swz<4, 0, 1, 2, 3> xyzw; Swz<4, 0, 1, 3, 0> xywx; Swz<4, 0, 1, 3, 1> xywy; Swz<4, 0, 1, 3, 2> xywz; Swz<4, 0, 1, 3, 3> xyww; Swz<4, 0, 2, 0, 0> xzxx; Swz<4, 0, 2, 0, 1> xzxy; Swz<4, 0, 2, 0, 2> xzxz; Swz<4, 0, 2, 0, 3> xzxw; Swz<4, 0, 2, 1, 0> xzyx; Swz<4, 0, 2, 1, 1> xzyy; Swz<4, 0, 2, 1, 2> xzyz; Swz<4, 0, 2, 1, 3> xzyw; Swz<4, 0, 2, 2, 0> xzzx; Swz<4, 0, 2, 2, 1> xzzy; Swz<4, 0, 2, 2, 2> xzzz; Swz<4, 0, 2, 2, 3> xzzw; Swz<4, 0, 2, 3, 0> xzwx; Swz<4, 0, 2, 3, 1> xzwy; Swz<4, 0, 2, 3, 2> xzwz; Swz<4, 0, 2, 3, 3> xzww; Swz<4, 0, 3, 0, 0> xwxx; Swz<4, 0, 3, 0, 1> xwxy; Swz<4, 0, 3, 0, 2> xwxz; Swz<4, 0, 3, 0, 3> xwxw; Swz<4, 0, 3, 1, 0> xwyx; Swz<4, 0, 3, 1, 1> xwyy; Swz<4, 0, 3, 1, 2> xwyz; Swz<4, 0, 3, 1, 3> xwyw; Swz<4, 0, 3, 2, 0> xwzx; Swz<4, 0, 3, 2, 1> xwzy; Swz<4, 0, 3, 2, 2> xwzz; Swz<4, 0, 3, 2, 3> xwzw; Swz<4, 0, 3, 3, 0> xwwx; Swz<4, 0, 3, 3, 1> xwwy; Swz<4, 0, 3, 3, 2> xwwz; Swz<4, 0, 3, 3, 3> xwww; Swz<4, 1, 0, 0, 0> yxxx; Swz<4, 1, 0, 0, 1> yxxy; Swz<4, 1, 0, 0, 2> yxxz; Swz<4, 1, 0, 0, 3> yxxw; Swz<4, 1, 0, 1, 0> yxyx; Swz<4, 1, 0, 1, 1> yxyy; Swz<4, 1, 0, 1, 2> yxyz; Swz<4, 1, 0, 1, 3> yxyw; Swz<4, 1, 0, 2, 0> yxzx; Swz<4, 1, 0, 2, 1> yxzy; Swz<4, 1, 0, 2, 2> yxzz; Swz<4, 1, 0, 2, 3> yxzw; Swz<4, 1, 0, 3, 0> yxwx; Swz<4, 1, 0, 3, 1> yxwy; Swz<4, 1, 0, 3, 2> yxwz; Swz<4, 1, 0, 3, 3> yxww; Swz<4, 1, 1, 0, 0> yyxx; Swz<4, 1, 1, 0, 1> yyxy; Swz<4, 1, 1, 0, 2> yyxz; Swz<4, 1, 1, 0, 3> yyxw; Swz<4, 1, 1, 1, 0> yyyx; Swz<4, 1, 1, 1, 1> yyyy; Swz<4, 1, 1, 1, 2> yyyz; Swz<4, 1, 1, 1, 3> yyyw; Swz<4, 1, 1, 2, 0> yyzx; Swz<4, 1, 1, 2, 1> yyzy; Swz<4, 1, 1, 2, 2> yyzz; Swz<4, 1, 1, 2, 3> yyzw; Swz<4, 1, 1, 3, 0> yywx; Swz<4, 1, 1, 3, 1> yywy; Swz<4, 1, 1, 3, 2> yywz; Swz<4, 1, 1, 3, 3> yyww; Swz<4, 1, 2, 0, 0> yzxx; Swz<4, 1, 2, 0, 1> yzxy; Swz<4, 1, 2, 0, 2> yzxz; Swz<4, 1, 2, 0, 3> yzxw; Swz<4, 1, 2, 1, 0> yzyx; Swz<4, 1, 2, 1, 1> yzyy; Swz<4, 1, 2, 1, 2> yzyz; Swz<4, 1, 2, 1, 3> yzyw; Swz<4, 1, 2, 2, 0> yzzx; Swz<4, 1, 2, 2, 1> yzzy; Swz<4, 1, 2, 2, 2> yzzz; Swz<4, 1, 2, 2, 3> yzzw; Swz<4, 1, 2, 3, 0> yzwx; Swz<4, 1, 2, 3, 1> yzwy; Swz<4, 1, 2, 3, 2> yzwz; Swz<4, 1, 2, 3, 3> yzww; Swz<4, 1, 3, 0, 0> ywxx; Swz<4, 1, 3, 0, 1> ywxy; Swz<4, 1, 3, 0, 2> ywxz; Swz<4, 1, 3, 0, 3> ywxw; Swz<4, 1, 3, 1, 0> ywyx; Swz<4, 1, 3, 1, 1> ywyy; Swz<4, 1, 3, 1, 2> ywyz; Swz<4, 1, 3, 1, 3> ywyw; Swz<4, 1, 3, 2, 0> ywzx; Swz<4, 1, 3, 2, 1> ywzy; Swz<4, 1, 3, 2, 2> ywzz; Swz<4, 1, 3, 2, 3> ywzw; Swz<4, 1, 3, 3, 0> ywwx; Swz<4, 1, 3, 3, 1> ywwy; Swz<4, 1, 3, 3, 2> ywwz; Swz<4, 1, 3, 3, 3> ywww; Swz<4, 2, 0, 0, 0> zxxx; Swz<4, 2, 0, 0, 1> zxxy; Swz<4, 2, 0, 0, 2> zxxz; Swz<4, 2, 0, 0, 3> zxxw; Swz<4, 2, 0, 1, 0> zxyx; Swz<4, 2, 0, 1, 1> zxyy; Swz<4, 2, 0, 1, 2> zxyz; Swz<4, 2, 0, 1, 3> zxyw; Swz<4, 2, 0, 2, 0> zxzx; Swz<4, 2, 0, 2, 1> zxzy; Swz<4, 2, 0, 2, 2> zxzz; Swz<4, 2, 0, 2, 3> zxzw; Swz<4, 2, 0, 3, 0> zxwx; Swz<4, 2, 0, 3, 1> zxwy; Swz<4, 2, 0, 3, 2> zxwz; Swz<4, 2, 0, 3, 3> zxww; Swz<4, 2, 1, 0, 0> zyxx; Swz<4, 2, 1, 0, 1> zyxy; Swz<4, 2, 1, 0, 2> zyxz; Swz<4, 2, 1, 0, 3> zyxw; Swz<4, 2, 1, 1, 0> zyyx; Swz<4, 2, 1, 1, 1> zyyy; Swz<4, 2, 1, 1, 2> zyyz; Swz<4, 2, 1, 1, 3> zyyw; Swz<4, 2, 1, 2, 0> zyzx; Swz<4, 2, 1, 2, 1> zyzy; Swz<4, 2, 1, 2, 2> zyzz; Swz<4, 2, 1, 2, 3> zyzw; Swz<4, 2, 1, 3, 0> zywx; Swz<4, 2, 1, 3, 1> zywy; Swz<4, 2, 1, 3, 2> zywz; Swz<4, 2, 1, 3, 3> zyww; Swz<4, 2, 2, 0, 0> zzxx; Swz<4, 2, 2, 0, 1> zzxy; Swz<4, 2, 2, 0, 2> zzxz; Swz<4, 2, 2, 0, 3> zzxw; Swz<4, 2, 2, 1, 0> zzyx; Swz<4, 2, 2, 1, 1> zzyy; Swz<4, 2, 2, 1, 2> zzyz; Swz<4, 2, 2, 1, 3> zzyw; Swz<4, 2, 2, 2, 0> zzzx; Swz<4, 2, 2, 2, 1> zzzy; Swz<4, 2, 2, 2, 2> zzzz; Swz<4, 2, 2, 2, 3> zzzw; Swz<4, 2, 2, 3, 0> zzwx; Swz<4, 2, 2, 3, 1> zzwy; Swz<4, 2, 2, 3, 2> zzwz; Swz<4, 2, 2, 3, 3> zzww; Swz<4, 2, 3, 0, 0> zwxx; Swz<4, 2, 3, 0, 1> zwxy; Swz<4, 2, 3, 0, 2> zwxz; Swz<4, 2, 3, 0, 3> zwxw; Swz<4, 2, 3, 1, 0> zwyx; Swz<4, 2, 3, 1, 1> zwyy; Swz<4, 2, 3, 1, 2> zwyz; Swz<4, 2, 3, 1, 3> zwyw; Swz<4, 2, 3, 2, 0> zwzx; Swz<4, 2, 3, 2, 1> zwzy; Swz<4, 2, 3, 2, 2> zwzz; Swz<4, 2, 3, 2, 3> zwzw; Swz<4, 2, 3, 3, 0> zwwx; Swz<4, 2, 3, 3, 1> zwwy; Swz<4, 2, 3, 3, 2> zwwz; Swz<4, 2, 3, 3, 3> zwww; Swz<4, 3, 0, 0, 0> wxxx; Swz<4, 3, 0, 0, 1> wxxy; Swz<4, 3, 0, 0, 2> wxxz; Swz<4, 3, 0, 0, 3> wxxw; Swz<4, 3, 0, 1, 0> wxyx; Swz<4, 3, 0, 1, 1> wxyy; Swz<4, 3, 0, 1, 2> wxyz; Swz<4, 3, 0, 1, 3> wxyw; Swz<4, 3, 0, 2, 0> wxzx; Swz<4, 3, 0, 2, 1> wxzy; Swz<4, 3, 0, 2, 2> wxzz; Swz<4, 3, 0, 2, 3> wxzw; Swz<4, 3, 0, 3, 0> wxwx; Swz<4, 3, 0, 3, 1> wxwy; Swz<4, 3, 0, 3, 2> wxwz; Swz<4, 3, 0, 3, 3> wxww; Swz<4, 3, 1, 0, 0> wyxx; Swz<4, 3, 1, 0, 1> wyxy; Swz<4, 3, 1, 0, 2> wyxz; Swz<4, 3, 1, 0, 3> wyxw; Swz<4, 3, 1, 1, 0> wyyx; Swz<4, 3, 1, 1, 1> wyyy; Swz<4, 3, 1, 1, 2> wyyz; Swz<4, 3, 1, 1, 3> wyyw; Swz<4, 3, 1, 2, 0> wyzx; Swz<4, 3, 1, 2, 1> wyzy; Swz<4, 3, 1, 2, 2> wyzz; Swz<4, 3, 1, 2, 3> wyzw; Swz<4, 3, 1, 3, 0> wywx; Swz<4, 3, 1, 3, 1> wywy; Swz<4, 3, 1, 3, 2> wywz; Swz<4, 3, 1, 3, 3> wyww; Swz<4, 3, 2, 0, 0> wzxx; Swz<4, 3, 2, 0, 1> wzxy; Swz<4, 3, 2, 0, 2> wzxz; Swz<4, 3, 2, 0, 3> wzxw; Swz<4, 3, 2, 1, 0> wzyx; Swz<4, 3, 2, 1, 1> wzyy; Swz<4, 3, 2, 1, 2> wzyz; Swz<4, 3, 2, 1, 3> wzyw; Swz<4, 3, 2, 2, 0> wzzx; Swz<4, 3, 2, 2, 1> wzzy; Swz<4, 3, 2, 2, 2> wzzz; Swz<4, 3, 2, 2, 3> wzzw; Swz<4, 3, 2, 3, 0> wzwx; Swz<4, 3, 2, 3, 1> wzwy; Swz<4, 3, 2, 3, 2> wzwz; Swz<4, 3, 2, 3, 3> wzww; Swz<4, 3, 3, 0, 0> wwxx; Swz<4, 3, 3, 0, 1> wwxy; Swz<4, 3, 3, 0, 2> wwxz; Swz<4, 3, 3, 0, 3> wwxw; Swz<4, 3, 3, 1, 0> wwyx; Swz<4, 3, 3, 1, 1> wwyy; Swz<4, 3, 3, 1, 2> wwyz; Swz<4, 3, 3, 1, 3> wwyw; Swz<4, 3, 3, 2, 0> wwzx; Swz<4, 3, 3, 2, 1> wwzy; Swz<4, 3, 3, 2, 2> wwzz; Swz<4, 3, 3, 2, 3> wwzw; Swz<4, 3, 3, 3, 0> wwwx; Swz<4, 3, 3, 3, 1> wwwy; Swz<4, 3, 3, 3, 2> wwwz; Swz<4, 3, 3, 3, 3> wwww; Swz<4, 0, 0> rr; Swz<4, 0, 1> rg; Swz<4, 0, 2> rb; Swz<4, 0, 3> ra; Swz<4, 1, 0> gr; Swz<4, 1, 1> gg; Swz<4, 1, 2> gb; Swz<4, 1, 3> ga; Swz<4, 2, 0> br; Swz<4, 2, 1> bg; Swz<4, 2, 2> bb; Swz<4, 2, 3> ba; Swz<4, 3, 0> ar; Swz<4, 3, 1> ag; Swz<4, 3, 2> ab; Swz<4, 3, 3> aa; Swz<4, 0, 0, 0> rrr; Swz<4, 0, 0, 1> rrg; Swz<4, 0, 0, 2> rrb; Swz<4, 0, 0, 3> rra; Swz<4, 0, 1, 0> rgr; Swz<4, 0, 1, 1> rgg; Swz<4, 0, 1, 2> rgb; Swz<4, 0, 1, 3> rga; Swz<4, 0, 2, 0> rbr; Swz<4, 0, 2, 1> rbg; Swz<4, 0, 2, 2> rbb; Swz<4, 0, 2, 3> rba; Swz<4, 0, 3, 0> rar; Swz<4, 0, 3, 1> rag; Swz<4, 0, 3, 2> rab; Swz<4, 0, 3, 3> raa; Swz<4, 1, 0, 0> grr; Swz<4, 1, 0, 1> grg; Swz<4, 1, 0, 2> grb; Swz<4, 1, 0, 3> gra; Swz<4, 1, 1, 0> ggr; Swz<4, 1, 1, 1> ggg; Swz<4, 1, 1, 2> ggb; Swz<4, 1, 1, 3> gga; Swz<4, 1, 2, 0> gbr; Swz<4, 1, 2, 1> gbg; Swz<4, 1, 2, 2> gbb; Swz<4, 1, 2, 3> gba; Swz<4, 1, 3, 0> gar; Swz<4, 1, 3, 1> gag; Swz<4, 1, 3, 2> gab; Swz<4, 1, 3, 3> gaa; Swz<4, 2, 0, 0> brr; Swz<4, 2, 0, 1> brg; Swz<4, 2, 0, 2> brb; Swz<4, 2, 0, 3> bra; Swz<4, 2, 1, 0> bgr; Swz<4, 2, 1, 1> bgg; Swz<4, 2, 1, 2> bgb; Swz<4, 2, 1, 3> bga; Swz<4, 2, 2, 0> bbr; Swz<4, 2, 2, 1> bbg; Swz<4, 2, 2, 2> bbb; Swz<4, 2, 2, 3> bba; Swz<4, 2, 3, 0> bar; Swz<4, 2, 3, 1> bag; Swz<4, 2, 3, 2> bab; Swz<4, 2, 3, 3> baa; Swz<4, 3, 0, 0> arr; Swz<4, 3, 0, 1> arg; Swz<4, 3, 0, 2> arb; Swz<4, 3, 0, 3> ara; Swz<4, 3, 1, 0> agr; Swz<4, 3, 1, 1> agg; Swz<4, 3, 1, 2> agb; Swz<4, 3, 1, 3> aga; Swz<4, 3, 2, 0> abr; Swz<4, 3, 2, 1> abg; Swz<4, 3, 2, 2> abb; Swz<4, 3, 2, 3> aba; Swz<4, 3, 3, 0> aar; Swz<4, 3, 3, 1> aag; Swz<4, 3, 3, 2> aab; Swz<4, 3, 3, 3> aaa; Swz<4, 0, 0, 0, 0> rrrr; Swz<4, 0, 0, 0, 1> rrrg; Swz<4, 0, 0, 0, 2> rrrb; Swz<4, 0, 0, 0, 3> rrra; Swz<4, 0, 0, 1, 0> rrgr; Swz<4, 0, 0, 1, 1> rrgg; Swz<4, 0, 0, 1, 2> rrgb; Swz<4, 0, 0, 1, 3> rrga; Swz<4, 0, 0, 2, 0> rrbr; Swz<4, 0, 0, 2, 1> rrbg; Swz<4, 0, 0, 2, 2> rrbb; Swz<4, 0, 0, 2, 3> rrba; Swz<4, 0, 0, 3, 0> rrar; Swz<4, 0, 0, 3, 1> rrag; Swz<4, 0, 0, 3, 2> rrab; Swz<4, 0, 0, 3, 3> rraa; Swz<4, 0, 1, 0, 0> rgrr; Swz<4, 0, 1, 0, 1> rgrg; Swz<4, 0, 1, 0, 2> rgrb; Swz<4, 0, 1, 0, 3> rgra; Swz<4, 0, 1, 1, 0> rggr; Swz<4, 0, 1, 1, 1> rggg; Swz<4, 0, 1, 1, 2> rggb; Swz<4, 0, 1, 1, 3> rgga; Swz<4, 0, 1, 2, 0> rgbr; Swz<4, 0, 1, 2, 1> rgbg; Swz<4, 0, 1, 2, 2> rgbb; Swz<4, 0, 1, 2, 3> rgba; Swz<4, 0, 1, 3, 0> rgar; Swz<4, 0, 1, 3, 1> rgag; Swz<4, 0, 1, 3, 2> rgab; Swz<4, 0, 1, 3, 3> rgaa; Swz<4, 0, 2, 0, 0> rbrr; Swz<4, 0, 2, 0, 1> rbrg; Swz<4, 0, 2, 0, 2> rbrb; Swz<4, 0, 2, 0, 3> rbra; Swz<4, 0, 2, 1, 0> rbgr; Swz<4, 0, 2, 1, 1> rbgg; Swz<4, 0, 2, 1, 2> rbgb; Swz<4, 0, 2, 1, 3> rbga; Swz<4, 0, 2, 2, 0> rbbr; Swz<4, 0, 2, 2, 1> rbbg; Swz<4, 0, 2, 2, 2> rbbb; Swz<4, 0, 2, 2, 3> rbba; Swz<4, 0, 2, 3, 0> rbar; Swz<4, 0, 2, 3, 1> rbag; Swz<4, 0, 2, 3, 2> rbab; Swz<4, 0, 2, 3, 3> rbaa; Swz<4, 0, 3, 0, 0> rarr; Swz<4, 0, 3, 0, 1> rarg; Swz<4, 0, 3, 0, 2> rarb; Swz<4, 0, 3, 0, 3> rara; Swz<4, 0, 3, 1, 0> ragr; Swz<4, 0, 3, 1, 1> ragg; Swz<4, 0, 3, 1, 2> ragb; Swz<4, 0, 3, 1, 3> raga; Swz<4, 0, 3, 2, 0> rabr; Swz<4, 0, 3, 2, 1> rabg; Swz<4, 0, 3, 2, 2> rabb; Swz<4, 0, 3, 2, 3> raba; Swz<4, 0, 3, 3, 0> raar; Swz<4, 0, 3, 3, 1> raag; Swz<4, 0, 3, 3, 2> raab; Swz<4, 0, 3, 3, 3> raaa; Swz<4, 1, 0, 0, 0> grrr; Swz<4, 1, 0, 0, 1> grrg; Swz<4, 1, 0, 0, 2> grrb; Swz<4, 1, 0, 0, 3> grra; Swz<4, 1, 0, 1, 0> grgr; Swz<4, 1, 0, 1, 1> grgg; Swz<4, 1, 0, 1, 2> grgb; Swz<4, 1, 0, 1, 3> grga; Swz<4, 1, 0, 2, 0> grbr; Swz<4, 1, 0, 2, 1> grbg; Swz<4, 1, 0, 2, 2> grbb; Swz<4, 1, 0, 2, 3> grba; Swz<4, 1, 0, 3, 0> grar; Swz<4, 1, 0, 3, 1> grag; Swz<4, 1, 0, 3, 2> grab; Swz<4, 1, 0, 3, 3> graa; Swz<4, 1, 1, 0, 0> ggrr; Swz<4, 1, 1, 0, 1> ggrg; Swz<4, 1, 1, 0, 2> ggrb; Swz<4, 1, 1, 0, 3> ggra; Swz<4, 1, 1, 1, 0> gggr; Swz<4, 1, 1, 1, 1> gggg; Swz<4, 1, 1, 1, 2> gggb; Swz<4, 1, 1, 1, 3> ggga; Swz<4, 1, 1, 2, 0> ggbr; Swz<4, 1, 1, 2, 1> ggbg; Swz<4, 1, 1, 2, 2> ggbb; Swz<4, 1, 1, 2, 3> ggba; Swz<4, 1, 1, 3, 0> ggar; Swz<4, 1, 1, 3, 1> ggag; Swz<4, 1, 1, 3, 2> ggab; Swz<4, 1, 1, 3, 3> ggaa; Swz<4, 1, 2, 0, 0> gbrr; Swz<4, 1, 2, 0, 1> gbrg; Swz<4, 1, 2, 0, 2> gbrb; Swz<4, 1, 2, 0, 3> gbra; Swz<4, 1, 2, 1, 0> gbgr; Swz<4, 1, 2, 1, 1> gbgg; Swz<4, 1, 2, 1, 2> gbgb; Swz<4, 1, 2, 1, 3> gbga; Swz<4, 1, 2, 2, 0> gbbr; Swz<4, 1, 2, 2, 1> gbbg; Swz<4, 1, 2, 2, 2> gbbb; Swz<4, 1, 2, 2, 3> gbba; Swz<4, 1, 2, 3, 0> gbar; Swz<4, 1, 2, 3, 1> gbag; Swz<4, 1, 2, 3, 2> gbab; Swz<4, 1, 2, 3, 3> gbaa; Swz<4, 1, 3, 0, 0> garr; Swz<4, 1, 3, 0, 1> garg; Swz<4, 1, 3, 0, 2> garb; Swz<4, 1, 3, 0, 3> gara; Swz<4, 1, 3, 1, 0> gagr; Swz<4, 1, 3, 1, 1> gagg; Swz<4, 1, 3, 1, 2> gagb; Swz<4, 1, 3, 1, 3> gaga; Swz<4, 1, 3, 2, 0> gabr; Swz<4, 1, 3, 2, 1> gabg; Swz<4, 1, 3, 2, 2> gabb; Swz<4, 1, 3, 2, 3> gaba; Swz<4, 1, 3, 3, 0> gaar; Swz<4, 1, 3, 3, 1> gaag; Swz<4, 1, 3, 3, 2> gaab; Swz<4, 1, 3, 3, 3> gaaa; Swz<4, 2, 0, 0, 0> brrr; Swz<4, 2, 0, 0, 1> brrg; Swz<4, 2, 0, 0, 2> brrb; Swz<4, 2, 0, 0, 3> brra; Swz<4, 2, 0, 1, 0> brgr; Swz<4, 2, 0, 1, 1> brgg; Swz<4, 2, 0, 1, 2> brgb; Swz<4, 2, 0, 1, 3> brga; Swz<4, 2, 0, 2, 0> brbr; Swz<4, 2, 0, 2, 1> brbg; Swz<4, 2, 0, 2, 2> brbb; Swz<4, 2, 0, 2, 3> brba; Swz<4, 2, 0, 3, 0> brar; Swz<4, 2, 0, 3, 1> brag; Swz<4, 2, 0, 3, 2> brab; Swz<4, 2, 0, 3, 3> braa; Swz<4, 2, 1, 0, 0> bgrr; Swz<4, 2, 1, 0, 1> bgrg; Swz<4, 2, 1, 0, 2> bgrb; Swz<4, 2, 1, 0, 3> bgra; Swz<4, 2, 1, 1, 0> bggr; Swz<4, 2, 1, 1, 1> bggg; Swz<4, 2, 1, 1, 2> bggb; Swz<4, 2, 1, 1, 3> bgga; Swz<4, 2, 1, 2, 0> bgbr; Swz<4, 2, 1, 2, 1> bgbg; Swz<4, 2, 1, 2, 2> bgbb; Swz<4, 2, 1, 2, 3> bgba; Swz<4, 2, 1, 3, 0> bgar; Swz<4, 2, 1, 3, 1> bgag; Swz<4, 2, 1, 3, 2> bgab; Swz<4, 2, 1, 3, 3> bgaa; Swz<4, 2, 2, 0, 0> bbrr; Swz<4, 2, 2, 0, 1> bbrg; Swz<4, 2, 2, 0, 2> bbrb; Swz<4, 2, 2, 0, 3> bbra; Swz<4, 2, 2, 1, 0> bbgr; Swz<4, 2, 2, 1, 1> bbgg; Swz<4, 2, 2, 1, 2> bbgb; Swz<4, 2, 2, 1, 3> bbga; Swz<4, 2, 2, 2, 0> bbbr; Swz<4, 2, 2, 2, 1> bbbg; Swz<4, 2, 2, 2, 2> bbbb; Swz<4, 2, 2, 2, 3> bbba; Swz<4, 2, 2, 3, 0> bbar; Swz<4, 2, 2, 3, 1> bbag; Swz<4, 2, 2, 3, 2> bbab; Swz<4, 2, 2, 3, 3> bbaa; Swz<4, 2, 3, 0, 0> barr; Swz<4, 2, 3, 0, 1> barg; Swz<4, 2, 3, 0, 2> barb; Swz<4, 2, 3, 0, 3> bara; Swz<4, 2, 3, 1, 0> bagr; Swz<4, 2, 3, 1, 1> bagg; Swz<4, 2, 3, 1, 2> bagb; Swz<4, 2, 3, 1, 3> baga; Swz<4, 2, 3, 2, 0> babr; Swz<4, 2, 3, 2, 1> babg; Swz<4, 2, 3, 2, 2> babb; Swz<4, 2, 3, 2, 3> baba; Swz<4, 2, 3, 3, 0> baar; Swz<4, 2, 3, 3, 1> baag; Swz<4, 2, 3, 3, 2> baab; Swz<4, 2, 3, 3, 3> baaa; Swz<4, 3, 0, 0, 0> arrr; Swz<4, 3, 0, 0, 1> arrg; Swz<4, 3, 0, 0, 2> arrb; Swz<4, 3, 0, 0, 3> arra; Swz<4, 3, 0, 1, 0> argr; Swz<4, 3, 0, 1, 1> argg; Swz<4, 3, 0, 1, 2> argb; Swz<4, 3, 0, 1, 3> arga; Swz<4, 3, 0, 2, 0> arbr; Swz<4, 3, 0, 2, 1> arbg; Swz<4, 3, 0, 2, 2> arbb; Swz<4, 3, 0, 2, 3> arba; Swz<4, 3, 0, 3, 0> arar; Swz<4, 3, 0, 3, 1> arag; Swz<4, 3, 0, 3, 2> arab; Swz<4, 3, 0, 3, 3> araa; Swz<4, 3, 1, 0, 0> agrr; Swz<4, 3, 1, 0, 1> agrg; Swz<4, 3, 1, 0, 2> agrb; Swz<4, 3, 1, 0, 3> agra; Swz<4, 3, 1, 1, 0> aggr; Swz<4, 3, 1, 1, 1> aggg; Swz<4, 3, 1, 1, 2> aggb; Swz<4, 3, 1, 1, 3> agga; Swz<4, 3, 1, 2, 0> agbr; Swz<4, 3, 1, 2, 1> agbg; Swz<4, 3, 1, 2, 2> agbb; Swz<4, 3, 1, 2, 3> agba; Swz<4, 3, 1, 3, 0> agar; Swz<4, 3, 1, 3, 1> agag; Swz<4, 3, 1, 3, 2> agab; Swz<4, 3, 1, 3, 3> agaa; Swz<4, 3, 2, 0, 0> abrr; Swz<4, 3, 2, 0, 1> abrg; Swz<4, 3, 2, 0, 2> abrb; Swz<4, 3, 2, 0, 3> abra; Swz<4, 3, 2, 1, 0> abgr; Swz<4, 3, 2, 1, 1> abgg; Swz<4, 3, 2, 1, 2> abgb; Swz<4, 3, 2, 1, 3> abga; Swz<4, 3, 2, 2, 0> abbr; Swz<4, 3, 2, 2, 1> abbg; Swz<4, 3, 2, 2, 2> abbb; Swz<4, 3, 2, 2, 3> abba; Swz<4, 3, 2, 3, 0> abar; Swz<4, 3, 2, 3, 1> abag; Swz<4, 3, 2, 3, 2> abab; Swz<4, 3, 2, 3, 3> abaa; Swz<4, 3, 3, 0, 0> aarr; Swz<4, 3, 3, 0, 1> aarg; Swz<4, 3, 3, 0, 2> aarb; Swz<4, 3, 3, 0, 3> aara; Swz<4, 3, 3, 1, 0> aagr; Swz<4, 3, 3, 1, 1> aagg; Swz<4, 3, 3, 1, 2> aagb; Swz<4, 3, 3, 1, 3> aaga; Swz<4, 3, 3, 2, 0> aabr; Swz<4, 3, 3, 2, 1> aabg; Swz<4, 3, 3, 2, 2> aabb; Swz<4, 3, 3, 2, 3> aaba; Swz<4, 3, 3, 3, 0> aaar; Swz<4, 3, 3, 3, 1> aaag; Swz<4, 3, 3, 3, 2> aaab; Swz<4, 3, 3, 3, 3> aaaa; Swz<4, 0, 0> ss; Swz<4, 0, 1> st; Swz<4, 0, 2> sp; Swz<4, 0, 3> sq; Swz<4, 1, 0> ts; Swz<4, 1, 1> tt; Swz<4, 1, 2> tp; Swz<4, 1, 3> tq; Swz<4, 2, 0> ps; Swz<4, 2, 1> pt; Swz<4, 2, 2> pp; Swz<4, 2, 3> pq; Swz<4, 3, 0> qs; Swz<4, 3, 1> qt; Swz<4, 3, 2> qp; Swz<4, 3, 3> qq; Swz<4, 0, 0, 0> sss; Swz<4, 0, 0, 1> sst; Swz<4, 0, 0, 2> ssp; Swz<4, 0, 0, 3> ssq; Swz<4, 0, 1, 0> sts; Swz<4, 0, 1, 1> stt; Swz<4, 0, 1, 2> stp; Swz<4, 0, 1, 3> stq; Swz<4, 0, 2, 0> sps; Swz<4, 0, 2, 1> spt; Swz<4, 0, 2, 2> spp; Swz<4, 0, 2, 3> spq; Swz<4, 0, 3, 0> sqs; Swz<4, 0, 3, 1> sqt; Swz<4, 0, 3, 2> sqp; Swz<4, 0, 3, 3> sqq; Swz<4, 1, 0, 0> tss; Swz<4, 1, 0, 1> tst; Swz<4, 1, 0, 2> tsp; Swz<4, 1, 0, 3> tsq; Swz<4, 1, 1, 0> tts; Swz<4, 1, 1, 1> ttt; Swz<4, 1, 1, 2> ttp; Swz<4, 1, 1, 3> ttq; Swz<4, 1, 2, 0> tps; Swz<4, 1, 2, 1> tpt; Swz<4, 1, 2, 2> tpp; Swz<4, 1, 2, 3> tpq; Swz<4, 1, 3, 0> tqs; Swz<4, 1, 3, 1> tqt; Swz<4, 1, 3, 2> tqp; Swz<4, 1, 3, 3> tqq; Swz<4, 2, 0, 0> pss; Swz<4, 2, 0, 1> pst; Swz<4, 2, 0, 2> psp; Swz<4, 2, 0, 3> psq; Swz<4, 2, 1, 0> pts; Swz<4, 2, 1, 1> ptt; Swz<4, 2, 1, 2> ptp; Swz<4, 2, 1, 3> ptq; Swz<4, 2, 2, 0> pps; Swz<4, 2, 2, 1> ppt; Swz<4, 2, 2, 2> ppp; Swz<4, 2, 2, 3> ppq; Swz<4, 2, 3, 0> pqs; Swz<4, 2, 3, 1> pqt; Swz<4, 2, 3, 2> pqp; Swz<4, 2, 3, 3> pqq; Swz<4, 3, 0, 0> qss; Swz<4, 3, 0, 1> qst; Swz<4, 3, 0, 2> qsp; Swz<4, 3, 0, 3> qsq; Swz<4, 3, 1, 0> qts; Swz<4, 3, 1, 1> qtt; Swz<4, 3, 1, 2> qtp; Swz<4, 3, 1, 3> qtq; Swz<4, 3, 2, 0> qps; Swz<4, 3, 2, 1> qpt; Swz<4, 3, 2, 2> qpp; Swz<4, 3, 2, 3> qpq; Swz<4, 3, 3, 0> qqs; Swz<4, 3, 3, 1> qqt; Swz<4, 3, 3, 2> qqp; Swz<4, 3, 3, 3> qqq; Swz<4, 0, 0, 0, 0> ssss; Swz<4, 0, 0, 0, 1> ssst; Swz<4, 0, 0, 0, 2> sssp; Swz<4, 0, 0, 0, 3> sssq; Swz<4, 0, 0, 1, 0> ssts; Swz<4, 0, 0, 1, 1> sstt; Swz<4, 0, 0, 1, 2> sstp; Swz<4, 0, 0, 1, 3> sstq; Swz<4, 0, 0, 2, 0> ssps; Swz<4, 0, 0, 2, 1> sspt; Swz<4, 0, 0, 2, 2> sspp; Swz<4, 0, 0, 2, 3> sspq; Swz<4, 0, 0, 3, 0> ssqs; Swz<4, 0, 0, 3, 1> ssqt; Swz<4, 0, 0, 3, 2> ssqp; Swz<4, 0, 0, 3, 3> ssqq; Swz<4, 0, 1, 0, 0> stss; Swz<4, 0, 1, 0, 1> stst; Swz<4, 0, 1, 0, 2> stsp; Swz<4, 0, 1, 0, 3> stsq; Swz<4, 0, 1, 1, 0> stts; Swz<4, 0, 1, 1, 1> sttt; Swz<4, 0, 1, 1, 2> sttp; Swz<4, 0, 1, 1, 3> sttq; Swz<4, 0, 1, 2, 0> stps; Swz<4, 0, 1, 2, 1> stpt; Swz<4, 0, 1, 2, 2> stpp; Swz<4, 0, 1, 2, 3> stpq; Swz<4, 0, 1, 3, 0> stqs; Swz<4, 0, 1, 3, 1> stqt; Swz<4, 0, 1, 3, 2> stqp; Swz<4, 0, 1, 3, 3> stqq; Swz<4, 0, 2, 0, 0> spss; Swz<4, 0, 2, 0, 1> spst; Swz<4, 0, 2, 0, 2> spsp; Swz<4, 0, 2, 0, 3> spsq; Swz<4, 0, 2, 1, 0> spts; Swz<4, 0, 2, 1, 1> sptt; Swz<4, 0, 2, 1, 2> sptp; Swz<4, 0, 2, 1, 3> sptq; Swz<4, 0, 2, 2, 0> spps; Swz<4, 0, 2, 2, 1> sppt; Swz<4, 0, 2, 2, 2> sppp; Swz<4, 0, 2, 2, 3> sppq; Swz<4, 0, 2, 3, 0> spqs; Swz<4, 0, 2, 3, 1> spqt; Swz<4, 0, 2, 3, 2> spqp; Swz<4, 0, 2, 3, 3> spqq; Swz<4, 0, 3, 0, 0> sqss; Swz<4, 0, 3, 0, 1> sqst; Swz<4, 0, 3, 0, 2> sqsp; Swz<4, 0, 3, 0, 3> sqsq; Swz<4, 0, 3, 1, 0> sqts; Swz<4, 0, 3, 1, 1> sqtt; Swz<4, 0, 3, 1, 2> sqtp; Swz<4, 0, 3, 1, 3> sqtq; Swz<4, 0, 3, 2, 0> sqps; Swz<4, 0, 3, 2, 1> sqpt; Swz<4, 0, 3, 2, 2> sqpp; Swz<4, 0, 3, 2, 3> sqpq; Swz<4, 0, 3, 3, 0> sqqs; Swz<4, 0, 3, 3, 1> sqqt; Swz<4, 0, 3, 3, 2> sqqp; Swz<4, 0, 3, 3, 3> sqqq; Swz<4, 1, 0, 0, 0> tsss; Swz<4, 1, 0, 0, 1> tsst; Swz<4, 1, 0, 0, 2> tssp; Swz<4, 1, 0, 0, 3> tssq; Swz<4, 1, 0, 1, 0> tsts; Swz<4, 1, 0, 1, 1> tstt; Swz<4, 1, 0, 1, 2> tstp; Swz<4, 1, 0, 1, 3> tstq; Swz<4, 1, 0, 2, 0> tsps; Swz<4, 1, 0, 2, 1> tspt; Swz<4, 1, 0, 2, 2> tspp; Swz<4, 1, 0, 2, 3> tspq; Swz<4, 1, 0, 3, 0> tsqs; Swz<4, 1, 0, 3, 1> tsqt; Swz<4, 1, 0, 3, 2> tsqp; Swz<4, 1, 0, 3, 3> tsqq; Swz<4, 1, 1, 0, 0> ttss; Swz<4, 1, 1, 0, 1> ttst; Swz<4, 1, 1, 0, 2> ttsp; Swz<4, 1, 1, 0, 3> ttsq; Swz<4, 1, 1, 1, 0> ttts; Swz<4, 1, 1, 1, 1> tttt; Swz<4, 1, 1, 1, 2> tttp; Swz<4, 1, 1, 1, 3> tttq; Swz<4, 1, 1, 2, 0> ttps; Swz<4, 1, 1, 2, 1> ttpt; Swz<4, 1, 1, 2, 2> ttpp; Swz<4, 1, 1, 2, 3> ttpq; Swz<4, 1, 1, 3, 0> ttqs; Swz<4, 1, 1, 3, 1> ttqt; Swz<4, 1, 1, 3, 2> ttqp; Swz<4, 1, 1, 3, 3> ttqq; Swz<4, 1, 2, 0, 0> tpss; Swz<4, 1, 2, 0, 1> tpst; Swz<4, 1, 2, 0, 2> tpsp; Swz<4, 1, 2, 0, 3> tpsq; Swz<4, 1, 2, 1, 0> tpts; Swz<4, 1, 2, 1, 1> tptt; Swz<4, 1, 2, 1, 2> tptp; Swz<4, 1, 2, 1, 3> tptq; Swz<4, 1, 2, 2, 0> tpps; Swz<4, 1, 2, 2, 1> tppt; Swz<4, 1, 2, 2, 2> tppp; Swz<4, 1, 2, 2, 3> tppq; Swz<4, 1, 2, 3, 0> tpqs; Swz<4, 1, 2, 3, 1> tpqt; Swz<4, 1, 2, 3, 2> tpqp; Swz<4, 1, 2, 3, 3> tpqq; Swz<4, 1, 3, 0, 0> tqss; Swz<4, 1, 3, 0, 1> tqst; Swz<4, 1, 3, 0, 2> tqsp; Swz<4, 1, 3, 0, 3> tqsq; Swz<4, 1, 3, 1, 0> tqts; Swz<4, 1, 3, 1, 1> tqtt; Swz<4, 1, 3, 1, 2> tqtp; Swz<4, 1, 3, 1, 3> tqtq; Swz<4, 1, 3, 2, 0> tqps; Swz<4, 1, 3, 2, 1> tqpt; Swz<4, 1, 3, 2, 2> tqpp; Swz<4, 1, 3, 2, 3> tqpq; Swz<4, 1, 3, 3, 0> tqqs; Swz<4, 1, 3, 3, 1> tqqt; Swz<4, 1, 3, 3, 2> tqqp; Swz<4, 1, 3, 3, 3> tqqq; Swz<4, 2, 0, 0, 0> psss; Swz<4, 2, 0, 0, 1> psst; Swz<4, 2, 0, 0, 2> pssp; Swz<4, 2, 0, 0, 3> pssq; Swz<4, 2, 0, 1, 0> psts; Swz<4, 2, 0, 1, 1> pstt; Swz<4, 2, 0, 1, 2> pstp; Swz<4, 2, 0, 1, 3> pstq; Swz<4, 2, 0, 2, 0> psps; Swz<4, 2, 0, 2, 1> pspt; Swz<4, 2, 0, 2, 2> pspp; Swz<4, 2, 0, 2, 3> pspq; Swz<4, 2, 0, 3, 0> psqs; Swz<4, 2, 0, 3, 1> psqt; Swz<4, 2, 0, 3, 2> psqp; Swz<4, 2, 0, 3, 3> psqq; Swz<4, 2, 1, 0, 0> ptss; Swz<4, 2, 1, 0, 1> ptst; Swz<4, 2, 1, 0, 2> ptsp; Swz<4, 2, 1, 0, 3> ptsq; Swz<4, 2, 1, 1, 0> ptts; Swz<4, 2, 1, 1, 1> pttt; Swz<4, 2, 1, 1, 2> pttp; Swz<4, 2, 1, 1, 3> pttq; Swz<4, 2, 1, 2, 0> ptps; Swz<4, 2, 1, 2, 1> ptpt; Swz<4, 2, 1, 2, 2> ptpp; Swz<4, 2, 1, 2, 3> ptpq; Swz<4, 2, 1, 3, 0> ptqs; Swz<4, 2, 1, 3, 1> ptqt; Swz<4, 2, 1, 3, 2> ptqp; Swz<4, 2, 1, 3, 3> ptqq; Swz<4, 2, 2, 0, 0> ppss; Swz<4, 2, 2, 0, 1> ppst; Swz<4, 2, 2, 0, 2> ppsp; Swz<4, 2, 2, 0, 3> ppsq; Swz<4, 2, 2, 1, 0> ppts; Swz<4, 2, 2, 1, 1> pptt; Swz<4, 2, 2, 1, 2> pptp; Swz<4, 2, 2, 1, 3> pptq; Swz<4, 2, 2, 2, 0> ppps; Swz<4, 2, 2, 2, 1> pppt; Swz<4, 2, 2, 2, 2> pppp; Swz<4, 2, 2, 2, 3> pppq; Swz<4, 2, 2, 3, 0> ppqs; Swz<4, 2, 2, 3, 1> ppqt; Swz<4, 2, 2, 3, 2> ppqp; Swz<4, 2, 2, 3, 3> ppqq; Swz<4, 2, 3, 0, 0> pqss; Swz<4, 2, 3, 0, 1> pqst; Swz<4, 2, 3, 0, 2> pqsp; Swz<4, 2, 3, 0, 3> pqsq; Swz<4, 2, 3, 1, 0> pqts; Swz<4, 2, 3, 1, 1> pqtt; Swz<4, 2, 3, 1, 2> pqtp; Swz<4, 2, 3, 1, 3> pqtq; Swz<4, 2, 3, 2, 0> pqps; Swz<4, 2, 3, 2, 1> pqpt; Swz<4, 2, 3, 2, 2> pqpp; Swz<4, 2, 3, 2, 3> pqpq; Swz<4, 2, 3, 3, 0> pqqs; Swz<4, 2, 3, 3, 1> pqqt; Swz<4, 2, 3, 3, 2> pqqp; Swz<4, 2, 3, 3, 3> pqqq; Swz<4, 3, 0, 0, 0> qsss; Swz<4, 3, 0, 0, 1> qsst; Swz<4, 3, 0, 0, 2> qssp; Swz<4, 3, 0, 0, 3> qssq; Swz<4, 3, 0, 1, 0> qsts; Swz<4, 3, 0, 1, 1> qstt; Swz<4, 3, 0, 1, 2> qstp; Swz<4, 3, 0, 1, 3> qstq; Swz<4, 3, 0, 2, 0> qsps; Swz<4, 3, 0, 2, 1> qspt; Swz<4, 3, 0, 2, 2> qspp; Swz<4, 3, 0, 2, 3> qspq; Swz<4, 3, 0, 3, 0> qsqs; Swz<4, 3, 0, 3, 1> qsqt; Swz<4, 3, 0, 3, 2> qsqp; Swz<4, 3, 0, 3, 3> qsqq; Swz<4, 3, 1, 0, 0> qtss; Swz<4, 3, 1, 0, 1> qtst; Swz<4, 3, 1, 0, 2> qtsp; Swz<4, 3, 1, 0, 3> qtsq; Swz<4, 3, 1, 1, 0> qtts; Swz<4, 3, 1, 1, 1> qttt; Swz<4, 3, 1, 1, 2> qttp; Swz<4, 3, 1, 1, 3> qttq; Swz<4, 3, 1, 2, 0> qtps; Swz<4, 3, 1, 2, 1> qtpt; Swz<4, 3, 1, 2, 2> qtpp; Swz<4, 3, 1, 2, 3> qtpq; Swz<4, 3, 1, 3, 0> qtqs; Swz<4, 3, 1, 3, 1> qtqt; Swz<4, 3, 1, 3, 2> qtqp; Swz<4, 3, 1, 3, 3> qtqq; Swz<4, 3, 2, 0, 0> qpss; Swz<4, 3, 2, 0, 1> qpst; Swz<4, 3, 2, 0, 2> qpsp; Swz<4, 3, 2, 0, 3> qpsq; Swz<4, 3, 2, 1, 0> qpts; Swz<4, 3, 2, 1, 1> qptt; Swz<4, 3, 2, 1, 2> qptp; Swz<4, 3, 2, 1, 3> qptq; Swz<4, 3, 2, 2, 0> qpps; Swz<4, 3, 2, 2, 1> qppt; Swz<4, 3, 2, 2, 2> qppp; Swz<4, 3, 2, 2, 3> qppq; Swz<4, 3, 2, 3, 0> qpqs; Swz<4, 3, 2, 3, 1> qpqt; Swz<4, 3, 2, 3, 2> qpqp; Swz<4, 3, 2, 3, 3> qpqq; Swz<4, 3, 3, 0, 0> qqss; Swz<4, 3, 3, 0, 1> qqst; Swz<4, 3, 3, 0, 2> qqsp; Swz<4, 3, 3, 0, 3> qqsq; Swz<4, 3, 3, 1, 0> qqts; Swz<4, 3, 3, 1, 1> qqtt; Swz<4, 3, 3, 1, 2> qqtp; Swz<4, 3, 3, 1, 3> qqtq; Swz<4, 3, 3, 2, 0> qqps; Swz<4, 3, 3, 2, 1> qqpt; Swz<4, 3, 3, 2, 2> qqpp; Swz<4, 3, 3, 2, 3> qqpq; Swz<4, 3, 3, 3, 0> qqqs; Swz<4, 3, 3, 3, 1> qqqt; Swz<4, 3, 3, 3, 2> qqqp; Swz<4, 3, 3, 3, 3> qqqq;
    };
    vec4() { for (float& f : d) f = std::numeric_limits<float>::quiet_NaN(); }
    vec4(vec4 const& o) { for (int i = 0; i != 4; ++i) d[i] = o.d[i]; }
    vec4& operator=(vec4 const& o) { for (int i = 0; i != 4; ++i) d[i] = o.d[i]; return *this; }
    explicit vec4(float s) { for (float& f : d) f = s; }
    vec4(float a0, float a1, float a2, float a3) { d[0] = a0; d[1] = a1; d[2] = a2; d[3] = a3; }
    vec4(float a, vec3 const& b) { d[0] = a; for (int i = 0; i != 3; ++i) d[i + 1] = b.d[i]; }
    vec4(vec3 const& b, float a) { d[3] = a; for (int i = 0; i != 3; ++i) d[i] = b.d[i]; }
    vec4(vec2 const& a, vec2 const& b) { d[0] = a.d[0]; d[1] = a.d[1]; d[2] = b.d[0]; d[3] = b.d[1]; }
    vec4(vec2 const& a, float b, float c) { d[0] = a.d[0]; d[1] = a.d[1]; d[2] = b; d[3] = c; }
    vec4(float a, vec2 const& b, float c) { d[0] = a; d[1] = b.d[0]; d[2] = b.d[1]; d[3] = c; }
    vec4(float a, float b, vec2 const& c) { d[0] = a; d[1] = b; d[2] = c.d[0]; d[3] = c.d[1]; }
    float& operator[](int i) { return d[i]; }
    float operator[](int i) const { return d[i]; }
};
inline vec3::vec3(float a, vec2 const& b) { d[0] = a; d[1] = b.d[0]; d[2] = b.d[1]; }
inline vec3::vec3(vec2 const& a, float b) { d[0] = a.d[0]; d[1] = a.d[1]; d[2] = b; }
inline vec3::vec3(vec4 const& a) { for (int i = 0; i != 3; ++i) d[i] = a.d[i]; }
inline vec2::vec2(vec3 const& a) { for (int i = 0; i != 2; ++i) d[i] = a.d[i]; }
inline vec2::vec2(vec4 const& a) { for (int i = 0; i != 2; ++i) d[i] = a.d[i]; }
template <int M, int... I> inline Swz<M, I...>::operator V() const { V v; int k = 0; int q[] = {(v.d[k++] = d[I], 0)...}; (void)q; return v; }
template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator=(V const& w) { V v = w; int k = 0; int q[] = {(d[I] = v.d[k++], 0)...}; (void)q; return *this; }
template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator=(Swz const& w) { return *this = V(w); }
inline vec2 operator+(vec2 const& a, vec2 const& b) { vec2 r; for (int i = 0; i != 2; ++i) r.d[i] = a.d[i] + b.d[i]; return r; }
inline vec2 operator+(float a, vec2 const& b) { return vec2(a) + b; }
inline vec2 operator+(vec2 const& a, float b) { return a + vec2(b); }
inline vec2& operator+=(vec2& a, vec2 const& b) { return a = a + b; }
inline vec2& operator+=(vec2& a, float b) { return a = a + b; }
inline vec2 operator-(vec2 const& a, vec2 const& b) { vec2 r; for (int i = 0; i != 2; ++i) r.d[i] = a.d[i] - b.d[i]; return r; }
inline vec2 operator-(float a, vec2 const& b) { return vec2(a) - b; }
inline vec2 operator-(vec2 const& a, float b) { return a - vec2(b); }
inline vec2& operator-=(vec2& a, vec2 const& b) { return a = a - b; }
inline vec2& operator-=(vec2& a, float b) { return a = a - b; }
inline vec2 operator*(vec2 const& a, vec2 const& b) { vec2 r; for (int i = 0; i != 2; ++i) r.d[i] = a.d[i] * b.d[i]; return r; }
inline vec2 operator*(float a, vec2 const& b) { return vec2(a) * b; }
inline vec2 operator*(vec2 const& a, float b) { return a * vec2(b); }
inline vec2& operator*=(vec2& a, vec2 const& b) { return a = a * b; }
inline vec2& operator*=(vec2& a, float b) { return a = a * b; }
inline vec2 operator/(vec2 const& a, vec2 const& b) { vec2 r; for (int i = 0; i != 2; ++i) r.d[i] = a.d[i] / b.d[i]; return r; }
inline vec2 operator/(float a, vec2 const& b) { return vec2(a) / b; }
inline vec2 operator/(vec2 const& a, float b) { return a / vec2(b); }
inline vec2& operator/=(vec2& a, vec2 const& b) { return a = a / b; }
inline vec2& operator/=(vec2& a, float b) { return a = a / b; }
inline vec2 operator-(vec2 const& a) { vec2 r; for (int i = 0; i != 2; ++i) r.d[i] = -a.d[i]; return r; }
inline vec2 operator+(vec2 const& a) { return a; }
inline bool operator==(vec2 const& a, vec2 const& b) { for (int i = 0; i != 2; ++i) if (a.d[i] != b.d[i]) return false; return true; }
inline float dot(vec2 const& a, vec2 const& b) { float s = a.d[0] * b.d[0]; for (int i = 1; i != 2; ++i) s += a.d[i] * b.d[i]; return s; }
inline float length(vec2 const& a) { return std::sqrt(dot(a, a)); }
inline vec2 normalize(vec2 const& a) { return a / length(a); }
inline vec2 abs(vec2 const& a) { vec2 r; for (int i = 0; i != 2; ++i) r.d[i] = std::fabs(a.d[i]); return r; }
inline vec2 fma(vec2 const& a, vec2 const& b, vec2 const& c) { return a * b + c; }
inline vec2 mix(vec2 const& a, vec2 const& b, float t) { return a * (1.f - t) + b * t; }
inline vec3 operator+(vec3 const& a, vec3 const& b) { vec3 r; for (int i = 0; i != 3; ++i) r.d[i] = a.d[i] + b.d[i]; return r; }
inline vec3 operator+(float a, vec3 const& b) { return vec3(a) + b; }
inline vec3 operator+(vec3 const& a, float b) { return a + vec3(b); }
inline vec3& operator+=(vec3& a, vec3 const& b) { return a = a + b; }
inline vec3& operator+=(vec3& a, float b) { return a = a + b; }
inline vec3 operator-(vec3 const& a, vec3 const& b) { vec3 r; for (int i = 0; i != 3; ++i) r.d[i] = a.d[i] - b.d[i]; return r; }
inline vec3 operator-(float a, vec3 const& b) { return vec3(a) - b; }
inline vec3 operator-(vec3 const& a, float b) { return a - vec3(b); }
inline vec3& operator-=(vec3& a, vec3 const& b) { return a = a - b; }
inline vec3& operator-=(vec3& a, float b) { return a = a - b; }
inline vec3 operator*(vec3 const& a, vec3 const& b) { vec3 r; for (int i = 0; i != 3; ++i) r.d[i] = a.d[i] * b.d[i]; return r; }
inline vec3 operator*(float a, vec3 const& b) { return vec3(a) * b; }
inline vec3 operator*(vec3 const& a, float b) { return a * vec3(b); }
inline vec3& operator*=(vec3& a, vec3 const& b) { return a = a * b; }
inline vec3& operator*=(vec3& a, float b) { return a = a * b; }
inline vec3 operator/(vec3 const& a, vec3 const& b) { vec3 r; for (int i = 0; i != 3; ++i) r.d[i] = a.d[i] / b.d[i]; return r; }
inline vec3 operator/(float a, vec3 const& b) { return vec3(a) / b; }
inline vec3 operator/(vec3 const& a, float b) { return a / vec3(b); }
inline vec3& operator/=(vec3& a, vec3 const& b) { return a = a / b; }
inline vec3& operator/=(vec3& a, float b) { return a = a / b; }
inline vec3 operator-(vec3 const& a) { vec3 r; for (int i = 0; i != 3; ++i) r.d[i] = -a.d[i]; return r; }
inline vec3 operator+(vec3 const& a) { return a; }
inline bool operator==(vec3 const& a, vec3 const& b) { for (int i = 0; i != 3; ++i) if (a.d[i] != b.d[i]) return false; return true; }
inline float dot(vec3 const& a, vec3 const& b) { float s = a.d[0] * b.d[0]; for (int i = 1; i != 3; ++i) s += a.d[i] * b.d[i]; return s; }
inline float length(vec3 const& a) { return std::sqrt(dot(a, a)); }
inline vec3 normalize(vec3 const& a) { return a / length(a); }
inline vec3 abs(vec3 const& a) { vec3 r; for (int i = 0; i != 3; ++i) r.d[i] = std::fabs(a.d[i]); return r; }
inline vec3 fma(vec3 const& a, vec3 const& b, vec3 const& c) { return a * b + c; }
inline vec3 mix(vec3 const& a, vec3 const& b, float t) { return a * (1.f - t) + b * t; }
inline vec4 operator+(vec4 const& a, vec4 const& b) { vec4 r; for (int i = 0; i != 4; ++i) r.d[i] = a.d[i] + b.d[i]; return r; }
inline vec4 operator+(float a, vec4 const& b) { return vec4(a) + b; }
inline vec4 operator+(vec4 const& a, float b) { return a + vec4(b); }
inline vec4& operator+=(vec4& a, vec4 const& b) { return a = a + b; }
inline vec4& operator+=(vec4& a, float b) { return a = a + b; }
inline vec4 operator-(vec4 const& a, vec4 const& b) { vec4 r; for (int i = 0; i != 4; ++i) r.d[i] = a.d[i] - b.d[i]; return r; }
inline vec4 operator-(float a, vec4 const& b) { return vec4(a) - b; }
inline vec4 operator-(vec4 const& a, float b) { return a - vec4(b); }
inline vec4& operator-=(vec4& a, vec4 const& b) { return a = a - b; }
inline vec4& operator-=(vec4& a, float b) { return a = a - b; }
inline vec4 operator*(vec4 const& a, vec4 const& b) { vec4 r; for (int i = 0; i != 4; ++i) r.d[i] = a.d[i] * b.d[i]; return r; }
inline vec4 operator*(float a, vec4 const& b) { return vec4(a) * b; }
inline vec4 operator*(vec4 const& a, float b) { return a * vec4(b); }
inline vec4& operator*=(vec4& a, vec4 const& b) { return a = a * b; }
inline vec4& operator*=(vec4& a, float b) { return a = a * b; }
inline vec4 operator/(vec4 const& a, vec4 const& b) { vec4 r; for (int i = 0; i != 4; ++i) r.d[i] = a.d[i] / b.d[i]; return r; }
inline vec4 operator/(float a, vec4 const& b) { return vec4(a) / b; }
inline vec4 operator/(vec4 const& a, float b) { return a / vec4(b); }
inline vec4& operator/=(vec4& a, vec4 const& b) { return a = a / b; }
inline vec4& operator/=(vec4& a, float b) { return a = a / b; }
inline vec4 operator-(vec4 const& a) { vec4 r; for (int i = 0; i != 4; ++i) r.d[i] = -a.d[i]; return r; }
inline vec4 operator+(vec4 const& a) { return a; }
inline bool operator==(vec4 const& a, vec4 const& b) { for (int i = 0; i != 4; ++i) if (a.d[i] != b.d[i]) return false; return true; }
inline float dot(vec4 const& a, vec4 const& b) { float s = a.d[0] * b.d[0]; for (int i = 1; i != 4; ++i) s += a.d[i] * b.d[i]; return s; }
inline float length(vec4 const& a) { return std::sqrt(dot(a, a)); }
inline vec4 normalize(vec4 const& a) { return a / length(a); }
inline vec4 abs(vec4 const& a) { vec4 r; for (int i = 0; i != 4; ++i) r.d[i] = std::fabs(a.d[i]); return r; }
inline vec4 fma(vec4 const& a, vec4 const& b, vec4 const& c) { return a * b + c; }
inline vec4 mix(vec4 const& a, vec4 const& b, float t) { return a * (1.f - t) + b * t; }
inline vec3 cross(vec3 const& a, vec3 const& b) { return vec3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator+=(V const& v) { return *this = V(*this) + v; }
template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator-=(V const& v) { return *this = V(*this) - v; }
template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator*=(V const& v) { return *this = V(*this) * v; }
template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator*=(float v) { return *this = V(*this) * v; }
template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator/=(float v) { return *this = V(*this) / v; }
using std::sqrt; using std::fabs;
inline float abs(float x) { return std::fabs(x); }
inline float inversesqrt(float x) { return 1.f / std::sqrt(x); }
inline float fma(float a, float b, float c) { return a * b + c; }
}
