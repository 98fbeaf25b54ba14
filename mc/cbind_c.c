/* Calls every function of the C interface from C. Component order: that of the header's comments
   is not used; inputs and outputs are the raw lanes of the structures. */
#include <string.h>
#include "klein.h"

#define IN1(T, a) T a; memcpy(&a, i1, sizeof a)
#define IN2(T, b) T b; memcpy(&b, i2, sizeof b)
#define DONE(r) memcpy(o, &r, sizeof r); memcpy(k1, &a, sizeof a); memcpy(k2, &b, sizeof b)
#define BIN(n, f, R, X, Y) case n: { IN1(X, a); IN2(Y, b); R r = f(&a, &b); DONE(r); return; }

/* i1, i2: 8 floats; o: 8 floats; k1, k2: the operands after the call */
void c_call(int op, const float* i1, const float* i2, float* o, float* k1, float* k2)
{
    switch (op)
    {
        BIN(0, kln_reflect_point, kln_point, kln_plane, kln_point)
        BIN(1, kln_reflect_line, kln_line, kln_plane, kln_line)
        BIN(2, kln_reflect_plane, kln_plane, kln_plane, kln_plane)
        BIN(3, kln_rotate_point, kln_point, kln_rotor, kln_point)
        BIN(4, kln_rotate_line, kln_line, kln_rotor, kln_line)
        BIN(5, kln_rotate_plane, kln_plane, kln_rotor, kln_plane)
        BIN(6, kln_translate_point, kln_point, kln_translator, kln_point)
        BIN(7, kln_translate_line, kln_line, kln_translator, kln_line)
        BIN(8, kln_translate_plane, kln_plane, kln_translator, kln_plane)
        BIN(9, kln_motor_point, kln_point, kln_motor, kln_point)
        BIN(10, kln_motor_line, kln_line, kln_motor, kln_line)
        BIN(11, kln_motor_plane, kln_plane, kln_motor, kln_plane)
        BIN(12, kln_compose_rotors, kln_rotor, kln_rotor, kln_rotor)
        BIN(13, kln_compose_translators, kln_translator, kln_translator, kln_translator)
        BIN(14, kln_compose_rotor_translator, kln_motor, kln_rotor, kln_translator)
        BIN(15, kln_compose_translator_rotor, kln_motor, kln_translator, kln_rotor)
        BIN(16, kln_compose_motors, kln_motor, kln_motor, kln_motor)
    case 17: { IN1(kln_motor, a); IN2(kln_motor, b); kln_line r = motor_log(&a); DONE(r); return; }
    case 18: { IN1(kln_line, a); IN2(kln_line, b); kln_motor r = line_exp(&a); DONE(r); return; }
    }
}
void c_init(int op, const float* i, float* o)
{
    if (op == 0) { kln_plane p; kln_plane_init(&p, i[0], i[1], i[2], i[3]); memcpy(o, &p, sizeof p); }
    if (op == 1) { kln_line l; kln_line_init(&l, i[0], i[1], i[2], i[3], i[4], i[5]); memcpy(o, &l, sizeof l); }
    if (op == 2) { kln_point p; kln_point_init(&p, i[0], i[1], i[2]); memcpy(o, &p, sizeof p); }
}
