#!/usr/bin/env python3
"""Writes mc/glslshim.hpp: the part of GLSL's vector types that GLSL code can use as C++ text."""
import itertools, os
L = "xyzw"; SETS = ["xyzw", "rgba", "stpq"]
o = ["// Generated by tools/gen_glslshim.py. GLSL vector types with swizzles, for executing GLSL source as C++.",
     "// Fresh vectors hold NaN, so a result that depends on an unset component is a NaN.",
     "#pragma once", "#include <cmath>", "#include <limits>", "namespace glsl {",
     "struct vec2; struct vec3; struct vec4;",
     "template <int N> struct vec_of;",
     "template <> struct vec_of<2> { typedef vec2 type; }; template <> struct vec_of<3> { typedef vec3 type; }; template <> struct vec_of<4> { typedef vec4 type; };",
     """template <int M, int... I> struct Swz
{
    float d[M];
    typedef typename vec_of<sizeof...(I)>::type V;
    operator V() const;
    Swz() = default;
    Swz(Swz const&) = default;
    Swz& operator=(V const& v);
    Swz& operator=(Swz const& v);
    Swz& operator+=(V const& v); Swz& operator-=(V const& v); Swz& operator*=(V const& v); Swz& operator*=(float v); Swz& operator/=(float v);
};"""]
for n in (2, 3, 4):
    names = []
    for S in SETS:
        S = S[:n]
        for k in (2, 3, 4):
            for t in itertools.product(range(n), repeat=k):
                names.append("Swz<%d, %s> %s;" % (n, ", ".join(map(str, t)), "".join(S[i] for i in t)))
    o.append("struct vec%d\n{\n    union\n    {\n        float d[%d];" % (n, n))
    for S in SETS:
        o.append("        struct { float %s; };" % ", ".join(S[:n]))
    o.append("        " + " ".join(names))
    o.append("    };")
    o.append("    vec%d() { for (float& f : d) f = std::numeric_limits<float>::quiet_NaN(); }" % n)
    o.append("    vec%d(vec%d const& o) { for (int i = 0; i != %d; ++i) d[i] = o.d[i]; }" % (n, n, n))
    o.append("    vec%d& operator=(vec%d const& o) { for (int i = 0; i != %d; ++i) d[i] = o.d[i]; return *this; }" % (n, n, n))
    o.append("    explicit vec%d(float s) { for (float& f : d) f = s; }" % n)
    o.append("    vec%d(%s) { %s }" % (n, ", ".join("float a%d" % i for i in range(n)), " ".join("d[%d] = a%d;" % (i, i) for i in range(n))))
    if n == 3:
        o.append("    vec3(float a, vec2 const& b); vec3(vec2 const& a, float b); explicit vec3(vec4 const& a);")
    if n == 2:
        o.append("    explicit vec2(vec3 const& a); explicit vec2(vec4 const& a);")
    if n == 4:
        o.append("    vec4(float a, vec3 const& b) { d[0] = a; for (int i = 0; i != 3; ++i) d[i + 1] = b.d[i]; }")
        o.append("    vec4(vec3 const& b, float a) { d[3] = a; for (int i = 0; i != 3; ++i) d[i] = b.d[i]; }")
        o.append("    vec4(vec2 const& a, vec2 const& b) { d[0] = a.d[0]; d[1] = a.d[1]; d[2] = b.d[0]; d[3] = b.d[1]; }")
        o.append("    vec4(vec2 const& a, float b, float c) { d[0] = a.d[0]; d[1] = a.d[1]; d[2] = b; d[3] = c; }")
        o.append("    vec4(float a, vec2 const& b, float c) { d[0] = a; d[1] = b.d[0]; d[2] = b.d[1]; d[3] = c; }")
        o.append("    vec4(float a, float b, vec2 const& c) { d[0] = a; d[1] = b; d[2] = c.d[0]; d[3] = c.d[1]; }")
    o.append("    float& operator[](int i) { return d[i]; }\n    float operator[](int i) const { return d[i]; }\n};")
o.append("inline vec3::vec3(float a, vec2 const& b) { d[0] = a; d[1] = b.d[0]; d[2] = b.d[1]; }")
o.append("inline vec3::vec3(vec2 const& a, float b) { d[0] = a.d[0]; d[1] = a.d[1]; d[2] = b; }")
o.append("inline vec3::vec3(vec4 const& a) { for (int i = 0; i != 3; ++i) d[i] = a.d[i]; }")
o.append("inline vec2::vec2(vec3 const& a) { for (int i = 0; i != 2; ++i) d[i] = a.d[i]; }")
o.append("inline vec2::vec2(vec4 const& a) { for (int i = 0; i != 2; ++i) d[i] = a.d[i]; }")
o.append("""template <int M, int... I> inline Swz<M, I...>::operator V() const { V v; int k = 0; int q[] = {(v.d[k++] = d[I], 0)...}; (void)q; return v; }
template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator=(V const& w) { V v = w; int k = 0; int q[] = {(d[I] = v.d[k++], 0)...}; (void)q; return *this; }
template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator=(Swz const& w) { return *this = V(w); }""")
for n in (2, 3, 4):
    v = "vec%d" % n
    for op in "+-*/":
        o.append("inline %s operator%s(%s const& a, %s const& b) { %s r; for (int i = 0; i != %d; ++i) r.d[i] = a.d[i] %s b.d[i]; return r; }" % (v, op, v, v, v, n, op))
        o.append("inline %s operator%s(float a, %s const& b) { return %s(a) %s b; }" % (v, op, v, v, op))
        o.append("inline %s operator%s(%s const& a, float b) { return a %s %s(b); }" % (v, op, v, op, v))
        o.append("inline %s& operator%s=(%s& a, %s const& b) { return a = a %s b; }" % (v, op, v, v, op))
        o.append("inline %s& operator%s=(%s& a, float b) { return a = a %s b; }" % (v, op, v, op))
    o.append("inline %s operator-(%s const& a) { %s r; for (int i = 0; i != %d; ++i) r.d[i] = -a.d[i]; return r; }" % (v, v, v, n))
    o.append("inline %s operator+(%s const& a) { return a; }" % (v, v))
    o.append("inline bool operator==(%s const& a, %s const& b) { for (int i = 0; i != %d; ++i) if (a.d[i] != b.d[i]) return false; return true; }" % (v, v, n))
    o.append("inline float dot(%s const& a, %s const& b) { float s = a.d[0] * b.d[0]; for (int i = 1; i != %d; ++i) s += a.d[i] * b.d[i]; return s; }" % (v, v, n))
    o.append("inline float length(%s const& a) { return std::sqrt(dot(a, a)); }" % v)
    o.append("inline %s normalize(%s const& a) { return a / length(a); }" % (v, v))
    o.append("inline %s abs(%s const& a) { %s r; for (int i = 0; i != %d; ++i) r.d[i] = std::fabs(a.d[i]); return r; }" % (v, v, v, n))
    o.append("inline %s fma(%s const& a, %s const& b, %s const& c) { return a * b + c; }" % (v, v, v, v))
    o.append("inline %s mix(%s const& a, %s const& b, float t) { return a * (1.f - t) + b * t; }" % (v, v, v))
o.append("inline vec3 cross(vec3 const& a, vec3 const& b) { return vec3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }")
for op in "+-*":
    o.append("template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator%s=(V const& v) { return *this = V(*this) %s v; }" % (op, op))
for op in "*/":
    o.append("template <int M, int... I> inline Swz<M, I...>& Swz<M, I...>::operator%s=(float v) { return *this = V(*this) %s v; }" % (op, op))
o.append("using std::sqrt; using std::fabs;\ninline float abs(float x) { return std::fabs(x); }\ninline float inversesqrt(float x) { return 1.f / std::sqrt(x); }\ninline float fma(float a, float b, float c) { return a * b + c; }")
o.append("}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "glslshim.hpp"), "w").write("\n".join(o) + "\n")
