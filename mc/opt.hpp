// Table of the public operations, usable from several differently built copies of the library
// in one program (the namespace is renamed per copy with -Dkln=...).
#pragma once
struct OpDesc
{
    const char* name;
    const char* args; // operand codes, see arity()
    char scale;       // how differences between builds are scaled, see cross.cpp
    int nin, nout;
    int (*run)(const float* in, float* out); // returns which operands it changed (see OPT_OPERANDS)
};
// P plane p unit plane X point x normalized point D direction L line l unit line I ideal line
// B branch b unit branch R unit rotor Q rotor T translator M unit motor N motor U dual
// S scalar i integer A angle V axis E Euler angles
inline int arity(char c)
{
    switch (c)
    {
    case 'P': case 'p': case 'X': case 'x': case 'R': case 'Q': return 4;
    case 'D': case 'I': case 'B': case 'b': case 'T': case 'V': case 'E': return 3;
    case 'L': case 'l': return 6;
    case 'M': case 'N': return 8;
    case 'U': return 2;
    default: return 1;
    }
}
#define OPT_CAT2(a, b) a##b
#define OPT_CAT(a, b) OPT_CAT2(a, b)
