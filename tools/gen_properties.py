#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for titles/statements)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
K="public/klein/"; X=K+"detail/x86/"

p("C01","Meet (exterior product) is exact for every operand pair and order",
 "For every pair of entity types for which `^` is provided (planes, points, lines, ideal lines, branches, in either order), every component of `a ^ b` equals the exterior product of the two operands as elements of the algebra P(R*(3,0,1)), up to single-precision rounding. Hence swapping the operands changes the sign exactly as their grades dictate, parallel planes meet in an ideal line, and three planes in general position meet in their common point.",
 ["inputs"],"all finite operand coefficients (any sign, zero pattern and magnitude whose products do not overflow), all operand-type pairs, both orders",
 "Tests evaluate one or two sample coefficient vectors per pair; a sign or lane error on a coefficient that is zero or symmetric in the sample, or in the reverse operand order, is invisible to them.",
 [K+"meet.hpp",X+"x86_exterior_product.hpp"],[("ext00/extPB/ext02/ext03 kernels",X+"x86_exterior_product.hpp"),("operator^ overloads",K+"meet.hpp")],["return value of operator^"])
p("C02","Geometric product and division follow the algebra for every type pair",
 "For every pair of types for which `*` is provided (planes, points, branches, lines, rotors, translators, motors, dual numbers), every component of `a * b` equals the geometric product of the operands (for two points: the translator it is proportional to, with unit scalar part). For every pair for which `/` is provided and an invertible divisor, `a / b` is the product of `a` with the inverse of `b`, so that `(a * b) / b` gives back `a` and `b / b` is the identity.",
 ["inputs"],"all operand coefficients, all operand-type pairs in both orders, divisors that are invertible",
 "Tests check one dense sample per product and a single division sample with unit operands; non-commuting lane errors and wrong inverses of non-unit divisors need other coefficients.",
 [K+"geometric_product.hpp",X+"x86_geometric_product.hpp"],[("gp00/gp03/gp11/gp12/gpRT/gp33/gpLL/gpDL/gpMM kernels",X+"x86_geometric_product.hpp"),("operator* and operator/",K+"geometric_product.hpp")],["return value of operator* and operator/"])
p("C03","Symmetric inner product follows the algebra for every type pair",
 "For every pair of types for which `|` is provided (planes, points, lines, ideal lines, in either order), `a | b` equals the grade-|j-k| part of the geometric product of the operands, component by component and with the sign belonging to that operand order.",
 ["inputs"],"all finite operand coefficients, all operand-type pairs, both orders",
 "Tests evaluate one coefficient vector per pair, with many zero coefficients, so wrong lanes or signs on the others are not seen.",
 [K+"inner_product.hpp",X+"x86_inner_product.hpp"],[("dot00/dotPL/dotPIL/dot03/dot11/dotPTL/dot33 kernels",X+"x86_inner_product.hpp"),("operator| overloads",K+"inner_product.hpp")],["return value of operator|"])
p("C04","Join is the dual of meet; the Poincare dual is an involution",
 "The dual map `!` exchanges plane and point, line and line, branch and ideal line, and the two parts of a dual number coefficient by coefficient, so `!!a` is bit-for-bit `a`. For every pair of types for which `&` is provided, `a & b` equals the dual of the exterior product of the duals; in particular the join of two distinct points is the line through both and the join of three points is the plane containing all three.",
 ["inputs"],"all finite operand coefficients, all operand-type pairs, both orders",
 "Tests check a handful of joins of unit-coordinate points and no duals of dense elements.",
 [K+"join.hpp"],[("operator! and operator& overloads",K+"join.hpp")],["return value of operator! and operator&"])
p("C05","Reflection through a plane is the exact sandwich of that plane",
 "Applying a normalized plane `p` to a plane, line or point X yields the reflection of X through `p`: the component-wise value of the sandwich product p X p. Hence points on the mirror are fixed, reflecting twice restores the original, distances and incidences are preserved, and reflecting through two planes in turn equals applying the motor that is their product.",
 ["inputs"],"all unit planes (any offset and orientation), all planes, lines (including non-simple and ideal ones) and points (any weight)",
 "Tests reflect one plane, one line and one point through one mirror each.",
 [K+"plane.hpp",X+"x86_sandwich.hpp"],[("plane::operator()",K+"plane.hpp"),("sw00/sw10/sw20/sw30 kernels",X+"x86_sandwich.hpp")],["plane::operator()"])
p("C06","Applying a rotor, translator or motor equals the sandwich product",
 "For every unit rotor, translator or motor V and every entity X it can be applied to (plane, branch, line, point, direction, and the origin for motors), V(X) equals the component-wise value of V X ~V. A direction is only rotated, never translated, by a motor; applying a motor to the origin gives the same point as applying it to a point at (0,0,0).",
 ["inputs"],"all unit rotors/motors and all translators, all coefficients of the operand (any weight, non-simple lines, ideal elements)",
 "Tests conjugate one or two entities with one or two versors; each kernel has many cross terms whose coefficient in the samples is zero or coincides with another.",
 [K+"rotor.hpp",K+"translator.hpp",K+"motor.hpp",X+"x86_sandwich.hpp",X+"x86_sandwich_cxx11.inl"],[("operator() of rotor, translator, motor",K+"motor.hpp"),("sw012/sw312/swMM/swL2/sw02/sw32/swo12 kernels",X+"x86_sandwich.hpp"),("C++11 copies of the kernels",X+"x86_sandwich_cxx11.inl")],["operator() of rotor, translator, motor"])
p("C07","Batched application equals element-wise application and stays in bounds",
 "Applying a rotor or motor to an array of planes, lines, points or directions stores, for every element, the same result as applying it to that element alone, for any element count including zero. Input and output may be the same array; when they are distinct the input is unchanged, and nothing outside the `count` output elements is read or written.",
 ["inputs","histories"],"all element counts, all array contents, distinct arrays and in-place use, every array position, every versor/entity pairing with a batch form",
 "Tests batch two elements out of place; in-place use, count 0, counts above two and writes past the end are never exercised.",
 [K+"rotor.hpp",K+"motor.hpp",X+"x86_sandwich.hpp",X+"x86_sandwich_cxx11.inl"],[("variadic sandwich kernels (loop over count)",X+"x86_sandwich.hpp"),("batch operator() overloads",K+"motor.hpp")],["output array and its surroundings"])
p("C08","Exported matrices act exactly like the rotor or motor they come from",
 "The 4x4 and 3x4 matrices exported from a unit rotor or motor are column-major and, applied to the coordinates (x, y, z, w) of any point or direction, give the same coordinates as applying the rotor or motor itself. The rotation block is orthonormal, the fourth column is the translation with homogeneous coordinate 1 (all zero translation for a rotor), and the exported memory holds no indeterminate values.",
 ["inputs","histories"],"all unit rotors and motors, all points and directions, whatever the stack or previous calls left behind",
 "Tests compare one motor's matrix on one point and one rotor's matrix on one direction-like vector; garbage translation columns and wrong signs elsewhere pass.",
 [K+"rotor.hpp",K+"motor.hpp",K+"mat3x4.hpp",K+"mat4x4.hpp",X+"x86_matrix.hpp",X+"x86_matrix_cxx11.inl"],[("mat4x4_12",X+"x86_matrix.hpp"),("mat3x4/mat4x4 operator()",K+"mat4x4.hpp")],["data[] of the matrices and their operator()"])
p("C09","Any history of rigid motions composes as the group of rigid motions",
 "After any sequence of compositions, inversions, reversals, assignments and conversions of rotors, translators and motors, applying the accumulated versor to any entity equals applying the individual motions one after another (the rightmost factor first). Every such versor stays a unit element up to rounding, its reverse undoes it, and it preserves distances, angles, incidence and orientation of whatever it is applied to.",
 ["histories"],"all finite sequences of versor operations, in every mix of rotor, translator and motor types",
 "Tests compose at most two versors and check one point; errors that only show after a particular mix of typed products, assignments or inverses never occur there.",
 [K+"geometric_product.hpp",K+"motor.hpp",K+"rotor.hpp",K+"translator.hpp",X+"x86_geometric_product.hpp",X+"x86_sandwich.hpp"],[("typed versor products",K+"geometric_product.hpp"),("motor constructors/assignment from rotor and translator",K+"motor.hpp"),("reverse and invert",K+"motor.hpp")],["components of the accumulated versor; images of probe entities"])
p("C10","Norms, normalization and inverses obey their defining laws",
 "For every element with a nonzero norm, normalizing yields an element proportional to it (for lines and motors: by a Study number) with unit norm and leaves an already unit element unchanged; the inverse times the element is the identity (projectively for points), and constrained rotors and motors have a non-negative scalar part while representing the same motion. Reported norms equal the exact norms, and are zero, not NaN, for elements whose norm is zero.",
 ["inputs"],"all planes, points, directions, branches, lines, rotors, translators and motors of any magnitude, including non-simple lines, unnormalized motors and zero-norm elements",
 "Tests normalize one or two samples per type; the approximate reciprocal square roots, zero-norm and non-simple cases are untested.",
 [K+"plane.hpp",K+"point.hpp",K+"direction.hpp",K+"line.hpp",K+"rotor.hpp",K+"translator.hpp",K+"motor.hpp",X+"x86_sse.hpp"],[("normalize/invert/norm members",K+"motor.hpp"),("rsqrt_nr1/rcp_nr1/sqrt_nr1",X+"x86_sse.hpp")],["norm(), normalized(), inverse(), constrained()"])
p("C11","Exponential and logarithm are mutually inverse on all rigid motions",
 "For every rotor, translator and unit motor, the exponential of its logarithm represents the same rigid motion, and the exponential of a branch, line or ideal line is the unit versor with the rotation angle, axis and translation that the line's coefficients prescribe. Both are finite on their whole domain, including the identity, pure translations, half turns, rotation about axes off the origin and vanishing rotation angle; scaling the logarithm by 1/n and exponentiating gives an n-th root of the motion. (Close to the negative of a pure translation the logarithm is a full turn about a remote axis, and results are as accurate as that axis allows.)",
 ["inputs"],"all unit rotors, translators and motors of either sign; all lines, branches and ideal lines with rotation magnitude below one half turn",
 "Tests round-trip one or two generic samples; the branch points (identity, half turn, pure translation, negative scalar part) are not sampled.",
 [K+"exp_log.hpp",X+"x86_exp_log.hpp"],[("log/exp kernels",X+"x86_exp_log.hpp"),("rotor/branch log and exp",K+"exp_log.hpp")],["exp and log return values and the motions they generate"])
p("C12","Square roots of rotors, translators and motors halve the motion",
 "For every rotor, translator or unit motor other than those with scalar part -1, `sqrt(m)` is a unit versor with `sqrt(m) * sqrt(m)` equal to `m`, and it moves entities along half of the same screw motion. The square root of a unit branch is the rotor whose square is that branch.",
 ["inputs"],"all unit rotors/motors with scalar part above -1 and all translators; all unit branches",
 "Tests take the root of one sample per type.",
 [K+"exp_log.hpp"],[("sqrt overloads",K+"exp_log.hpp"),("motor::normalize",K+"motor.hpp")],["sqrt return value"])
p("C13","Euler angles convert to rotors and back to the same rotation",
 "A rotor built from Euler angles equals the product roll * pitch * yaw of the rotors by those angles about the x, y and z axes, for all angles. Converting any unit rotor to Euler angles and back yields the same rotation, including at gimbal lock (pitch of a quarter turn) and wherever yaw or roll exceed a quarter turn, and the angles returned are finite with pitch within a quarter turn.",
 ["inputs"],"all triples of Euler angles; all unit rotors of either sign",
 "Tests convert one generic triple; gimbal lock and large angles are not covered.",
 [K+"rotor.hpp"],[("rotor(euler_angles)",K+"rotor.hpp"),("rotor::as_euler_angles",K+"rotor.hpp")],["components of the rotor, the angles returned"])
p("C14","Projections land on the target, stay put when repeated, and are nearest",
 "For normalized operands, projecting a point onto a line or plane gives the point of that line or plane nearest to it, and projecting a line onto a plane gives a line in that plane. Projecting a plane or line onto a point gives the plane or line through that point parallel to it, and projecting a plane onto a line a plane through that line. Projecting twice gives the same element as projecting once, up to the scale of the result.",
 ["inputs"],"all points, unit lines and unit planes for which the projection is not degenerate",
 "Tests project one sample per pairing and check a single resulting coordinate set.",
 [K+"projection.hpp",K+"inner_product.hpp",K+"meet.hpp"],[("project overloads",K+"projection.hpp")],["project return value"])
p("C15","Geometric constructors build the motion or direction they describe",
 "A rotor built from an angle and an axis has scalar cos(angle/2) and bivector sin(angle/2) times the normalized axis; a translator built from a distance and an axis moves every point by that distance along the normalized axis; a motor built from an angle, a distance and a unit line is the screw motion by that angle about and distance along that line. A rotor with positive angle turns clockwise seen along its axis direction of the documented convention, exactly as conjugation with those components prescribes. A direction built from x, y, z is a unit direction along them; axes need not be normalized by the caller, and angles of any sign and size are accepted.",
 ["inputs"],"all angles and distances of either sign, all nonzero axes of any length, all unit lines including ones far from the origin",
 "Tests build quarter-turn rotors, unit translators and one screw along the z axis.",
 [K+"rotor.hpp",K+"translator.hpp",K+"motor.hpp",K+"direction.hpp"],[("rotor(float,float,float,float)",K+"rotor.hpp"),("translator(float,float,float,float)",K+"translator.hpp"),("motor(float,float,line)",K+"motor.hpp"),("direction(float,float,float)",K+"direction.hpp")],["components; images of points"])
p("C16","Components, loads and stores map to the documented basis elements",
 "Every component passed to a constructor, loaded from an array, assigned or converted between types is returned bit-for-bit by the accessor of the same basis element (with opposite sign by the accessor with reversed indices), and the remaining components of a converted element are those of the identity embedding. Loading and storing touch exactly the documented number of floats at the documented positions, for arrays of any alignment, and neither alters its source.",
 ["inputs","histories"],"all coefficient values including signed zeros and denormals, all array alignments, all conversion chains between entity types",
 "Tests read back a few components of a few types from 16-byte aligned stack arrays.",
 [K+"plane.hpp",K+"point.hpp",K+"direction.hpp",K+"line.hpp",K+"rotor.hpp",K+"translator.hpp",K+"motor.hpp",K+"dual.hpp"],[("constructors, load/store, accessors",K+"motor.hpp"),("converting constructors and assignments",K+"line.hpp")],["accessors, stored arrays and their neighbourhood"])
p("C17","Linear operators, reversion and comparisons act component-wise",
 "For every entity type, addition, subtraction and scaling or division by a float or int (binary, compound, and scalar on either side) act on each component exactly once, leave the right operand unchanged, and agree with each other when the same operation is written in compound form, including when an element is combined with itself. Reversion and unary minus flip exactly the components they are documented to flip; `==` holds exactly when all components are equal, and `approx_eq` exactly when all differ by less than the given epsilon.",
 ["inputs","histories"],"all coefficients, all nonzero scalar divisors, all entity types, chains of compound operations including self-aliasing",
 "Tests exercise a few operators on a few types with one value each; most overloads have no test.",
 [K+"plane.hpp",K+"point.hpp",K+"direction.hpp",K+"line.hpp",K+"rotor.hpp",K+"translator.hpp",K+"motor.hpp",K+"dual.hpp"],[("arithmetic operator overloads",K+"motor.hpp"),("operator== and approx_eq",K+"plane.hpp")],["components after each operation"])
p("C18","Every build configuration computes the same results",
 "For any input to any public operation, the results computed by all supported builds (SSE3 or SSE4.1 kernels, C++11 or C++17, native intrinsics or SIMDe, any optimization level, gcc or clang) agree up to single-precision rounding, and none of them exhibits undefined behaviour or touches uninitialised memory.",
 ["configurations","inputs"],"all pairs of build configurations, all public operations, all operands in their domain",
 "Each test binary is built once per configuration against fixed samples; the configurations are never compared with one another, and native or clang builds are not tested at all.",
 [X+"x86_sse.hpp",X+"x86_sandwich.hpp",X+"x86_sandwich_cxx11.inl",X+"x86_matrix.hpp",X+"x86_matrix_cxx11.inl",X+"x86_geometric_product.hpp"],[("KLEIN_SSE_4_1 branches",X+"x86_sse.hpp"),("C++11 kernel copies",X+"x86_sandwich_cxx11.inl")],["results of every public operation"])
p("C19","Distances and angles measured through products are the Euclidean ones",
 "For normalized operands: the norm of the join of two points is their distance; the join and meet of a point and a plane carry their signed distance; the norm of the join of a point and a line is their distance, zero when the point is on the line; the inner product of two planes is the cosine of their angle and that of two lines minus the cosine of theirs; the meet of two skew lines measures their distance times the sine of their angle; and the ideal norm of the meet of two parallel planes is their separation.",
 ["inputs"],"all normalized points, unit planes and unit lines, including incident, parallel, antiparallel and far-away configurations",
 "Tests measure one distance and one angle per pairing; zero distances and oblique positions are untested.",
 [K+"join.hpp",K+"meet.hpp",K+"inner_product.hpp",K+"line.hpp",K+"plane.hpp"],[("norm functions",K+"line.hpp"),("join and meet operators",K+"join.hpp")],["scalar(), e0123(), norm(), ideal_norm()"])
p("C20","Operations are pure: results depend on operands only and calls are reentrant",
 "The result of any public operation depends on its operands alone: it is bit-for-bit the same whatever operations ran before it, and it leaves its by-value or const operands unchanged. A call interrupted at any point by any other complete library call (as by a signal handler or another thread) returns what it returns when run alone.",
 ["histories","schedules"],"all ordered sequences of public operations; all points at which one call can be preempted by another",
 "Tests run each operation once, sequentially, in a fixed order.",
 [K+"exp_log.hpp",K+"motor.hpp",K+"rotor.hpp",X+"x86_sandwich.hpp",X+"x86_sse.hpp"],[("no shared mutable state: values in registers and locals only",X+"x86_sandwich.hpp")],["results of every public operation"])
p("C21","The GLSL library computes the same products and motions as the C++ one",
 "Every function of the GLSL library (product of rotors, of translators, of motors; application of rotors and motors to planes, points and the origin) returns, for all unit versors and all operands, the element that the same operation of the algebra defines, hence the same as the C++ library under the documented component layout.",
 ["inputs"],"all unit rotors, translators and motors and all planes and points",
 "The GLSL tests evaluate one sample per function.",
 ["glsl/klein.glsl"],[("kln_mul and kln_apply overloads","glsl/klein.glsl")],["components of the returned structures"])
p("C22","The C bindings return what the C++ operations return",
 "Every function of the C interface returns, for all operands, the same components as the C++ operation it names applied to the same operands in the same order, and does not modify its inputs.",
 ["inputs"],"all functions of the C interface, all operand coefficients",
 "The C bindings have no tests at all.",
 ["c_src/klein.h","c_src/klein_c.cpp"],[("wrapper functions","c_src/klein_c.cpp")],["return values of the C functions"])
p("C23","The symbolic engine's products satisfy the Clifford algebra axioms",
 "For every signature (p, q, r), the symbolic geometric product of basis elements is associative, squares each generator to its metric sign (degenerate generators first, then positive, then negative) and anticommutes distinct generators. The exterior product is its metric-free part, the inner product its grade-|j-k| part (zero when a factor is scalar), reversion reverses the factor order of every blade, and in the algebra (3,0,1) the regressive product is the dual of the exterior product of the duals; all of them extend bilinearly to multivectors with polynomial coefficients.",
 ["inputs","configurations"],"all signatures with up to 30 generators, all basis blades, pairs and triples, all multivectors with polynomial coefficients",
 "The tests check a dozen products in the single signature (3,0,1).",
 ["sym/ga.hpp","sym/ga.cpp"],[("algebra::mul/ext/dot/reg/rev/dual","sym/ga.cpp"),("mv products and prune","sym/ga.cpp")],["terms of the multivector results"])
p("C24","Symbolic coefficients form a commutative polynomial ring in normal form",
 "Monomials (with positive or negative integer exponents) and polynomials obey the laws of a commutative ring: sums and products are commutative, associative and distributive, negation is the additive inverse, and the result does not depend on the order in which terms are pushed, added or multiplied. The stored form is canonical: equal values compare equal, cancelled terms and zero exponents vanish, and the ordering of monomials is a strict total order.",
 ["inputs","histories"],"all monomials and polynomials over any variable names, all sequences of push, addition, multiplication and negation",
 "The tests check one monomial product and four polynomial identities.",
 ["sym/poly.hpp","sym/poly.cpp"],[("mon/poly operators","sym/poly.cpp"),("graded lexical order","sym/poly.cpp")],["factors and terms maps"],
 [("terms","canonical map from monomial to nonzero coefficient","sym/poly.hpp")])
p("C25","The expression parser terminates safely on every input",
 "For every byte string, tokenizing and parsing terminates, tokenizing with memory proportional to the input, either returning a value or throwing a standard exception; it never reads or writes out of bounds, never depends on uninitialised data, and leaves the parser usable for the next input.",
 ["inputs","histories"],"all byte strings (including unknown characters, embedded NULs, non-ASCII bytes, very long numbers and nesting of any depth)",
 "The tests parse about fifteen well-formed expressions.",
 ["sym/parser.hpp","sym/parser.cpp"],[("tokenize and tokenize_number/element/identifier","sym/parser.cpp"),("recursive descent parser","sym/parser.cpp")],["termination, exceptions, sanitizer reports"])
p("C26","A well-formed expression evaluates to its algebraic value; others are refused",
 "Every well-formed expression evaluates to the multivector its operators denote: unary signs and reversion bind tightest, then the inner, regressive, exterior and geometric products in that order, then sums and differences, binary operators of one kind grouping to the left and parentheses overriding. Whitespace between tokens is irrelevant, an index permutation in a basis element contributes its sign, and a string that is not a complete well-formed expression (stray or unbalanced tokens, trailing input, repeated or out-of-range basis indices, unknown characters, numbers of more than 31 characters) is rejected with an exception rather than partly evaluated; so may be an expression with more than 256 parentheses open at once.",
 ["inputs","programs"],"all expressions over numbers, identifiers, basis elements with single-digit indices, the seven operators and parentheses; an embedded NUL ends the input",
 "The tests cover fifteen expressions, at most two operators deep, and no malformed input.",
 ["sym/parser.cpp","docs/shell.md"],[("parse_expr/term/ext/reg/dot/factor","sym/parser.cpp"),("tokenize","sym/parser.cpp")],["value or exception of parse"])
p("C27","Printed multivectors denote exactly the value that was printed",
 "The text printed for any multivector names every nonzero term exactly once with its coefficient, variables, exponents and basis element, and nothing else, so that reading it back in the notation of the shell (juxtaposed factors multiply, `x^n` is a power) yields the same multivector to the printed precision of coefficients; values that differ within that precision print differently and the zero multivector prints as 0.",
 ["inputs"],"all multivectors with polynomial coefficients, including coefficients of 1 and -1, very large and very small ones, negative exponents, pure scalars and cancelled terms, in algebras of up to ten basis vectors",
 "No test inspects printed output.",
 ["sym/poly.cpp","sym/ga.cpp"],[("operator<< for monomials, polynomials, multivectors","sym/ga.cpp")],["text written to the stream"])
p("C28","A shell session answers each line on its own, in order, and never hangs",
 "For every sequence of input lines the shell ends at end of input with exit status 0, echoes comment lines (first character other than blanks is `#`) and blank lines, prints nothing for lines that start with a dot command, prints for every expression line exactly the value of that expression, and reports a malformed line on the error stream without output for it and without affecting any later line. The answer to a line does not depend on the lines before it.",
 ["histories","inputs"],"all sequences of lines (expressions, comments, blank lines, malformed lines, dot commands)",
 "The shell has no tests.",
 ["sym/repl.cpp","sym/main.cpp","sym/parser.cpp","docs/shell.md"],[("repl::run line loop","sym/repl.cpp")],["standard output, standard error, exit status"])
p("C29","Symbolic derivations and SSE kernels agree with each other",
 "Evaluating the symbolic engine's formula for a product or sandwich of fully general entities at numeric coefficients gives the same components as the corresponding SSE operation on those coefficients, so an optimization validated in the shell is valid for the library.",
 ["inputs","programs"],"all operations available in both, all coefficient values",
 "No test relates the two layers; each is tested on its own samples.",
 ["sym/ga.cpp","sym/parser.cpp",X+"x86_sandwich.hpp",X+"x86_geometric_product.hpp"],[("mv products","sym/ga.cpp"),("SSE kernels",X+"x86_geometric_product.hpp")],["components on both sides"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
