"""Which harness decides which property, in which build configurations."""
import os

COMMON_ASSUMPTIONS = [
    "the reference model (mc/ref.hpp) is the definition of the algebra: 16 blades, e0^2=0, e1^2=e2^2=e3^2=1, in double precision",
    "operand values come from the enumerated alphabets; overflow and total underflow of single precision are outside the claim",
    "rounding: a component may differ from the exact value by a small multiple of 2^-23 times the sum of the absolute values of its terms",
]

KFLAGS = "-I{mc} -I{repo}/public"
# name -> (compiler, standard, isa flags, optimisation)
CONF = {
    "gcc-c++17-sse3-simde-O2": ("g++", "17", "-msse3 {simde}", "-O2"),
    "gcc-c++17-sse4.1-simde-O2": ("g++", "17", "-msse4.1 -DKLEIN_SSE_4_1 {simde}", "-O2"),
    "gcc-c++11-sse3-simde-O1": ("g++", "11", "-msse3 {simde}", "-O1"),
    "clang-c++11-sse4.1-native-O2": ("clang++", "11", "-msse4.1 -DKLEIN_SSE_4_1", "-O2"),
    "clang-c++17-sse3-native-O3": ("clang++", "17", "-msse3", "-O3"),
    "gcc-c++17-sse3-simde-O0": ("g++", "17", "-msse3 {simde}", "-O0"),
    "gcc-c++11-sse4.1-native-O3": ("g++", "11", "-msse4.1 -DKLEIN_SSE_4_1", "-O3"),
}
MAIN = ["gcc-c++17-sse3-simde-O2", "gcc-c++17-sse4.1-simde-O2", "gcc-c++11-sse3-simde-O1", "clang-c++11-sse4.1-native-O2", "clang-c++17-sse3-native-O3"]


def kunit(src, conf, args=(), extra="", lite=False, name=None):
    cc, std, isa, opt = CONF[conf]
    run = list(args) + (["--lite"] if lite else [])
    return {"name": (name or conf) + ("-lite" if lite else ""), "build": ["%s -std=c++%s %s %s -w %s %s {mc}/%s -o {out}" % (cc, std, opt, isa, KFLAGS, extra, src)], "run": run}


def kmain(src, *args, **kw):
    def units(tier):
        u = [kunit(src, c, args, **kw) for c in MAIN]
        u.append(kunit(src, "gcc-c++17-sse3-simde-O0", args, lite=True, **kw))
        if tier == "thorough":
            u.append(kunit(src, "gcc-c++11-sse4.1-native-O3", args, **kw))
        return u
    return units


def kload(tier):
    # the debug validations must accept whatever the documentation accepts
    u = kmain("linear.cpp", extra="-DGRP=16")(tier)
    u.append(kunit("linear.cpp", "gcc-c++17-sse3-simde-O0", lite=True, extra="-DGRP=16 -DKLEIN_VALIDATE", name="gcc-c++17-sse3-validate-O0"))
    return u


_REPO = os.environ.get("VERIF_REPO", "/repo")


def sources(d, without):
    """every source file of a directory of the repository (not the programs built from them)"""
    n = sorted(f[:-4] for f in os.listdir(os.path.join(_REPO, d)) if f.endswith(".cpp"))
    return [f for f in n if f not in without]


SYMSRC = sources("sym", ("main", "test"))
CSRC = sources("c_src", ())
# name -> (compiler, flags, runs the reduced spaces, extra environment)
_ASAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -g1"
_ASANENV = {"ASAN_OPTIONS": "detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:abort_on_error=0"}
SYMCONF = {
    "gcc-O2": ("g++", "-O2 -msse4.2", False, {}),
    "clang-O2-NDEBUG": ("clang++", "-O2 -msse4.2 -DNDEBUG", False, {}),
    "gcc-O1-asan-ubsan": ("g++", "-O1 -msse4.2 " + _ASAN, False, _ASANENV),
    "clang-O1-asan-ubsan": ("clang++", "-O1 -msse4.2 " + _ASAN, False, _ASANENV),
}


def symunit(grp, conf, lite=False, env=None, shell=False):
    cc, fl, _, e = SYMCONF[conf]
    base = "%s -std=c++17 %s -w -I{mc} -I{repo}/sym" % (cc, fl)
    cmds = []
    for s in SYMSRC:
        cmds.append("%s -c {repo}/sym/%s.cpp -o {out}.%s.o" % (base, s, s))
    objs = " ".join("{out}.%s.o" % s for s in SYMSRC)
    if shell:
        cmds.append("%s {repo}/sym/main.cpp %s -o {out}.shell" % (base, objs))
    cmds.append("%s -DGRP=%d {mc}/sym.cpp %s -o {out}" % (base, grp, objs))
    ev = dict(e)
    ev.update(env or {})
    return {"name": conf + ("-lite" if lite else ""), "build": cmds, "run": ["--hang", "10"] + (["--lite"] if lite else []), "env": ev}


def kscripts():
    return {"KLEIN_SCRIPTS": "{repo}/scripts/demo.klein {repo}/scripts/test.klein {repo}/scripts/validation.klein"}


def ksym(grp, main=("gcc-O2", "clang-O2-NDEBUG"), lite=("gcc-O1-asan-ubsan",), env=None, shell=False):
    def units(tier):
        u = [symunit(grp, c, False, env, shell) for c in main]
        u += [symunit(grp, c, tier != "thorough", env, shell) for c in lite]
        return u
    return units


def kbridge(tier):
    u = []
    for c in MAIN:
        x = kunit("symsse.cpp", c)
        cc, std, isa, opt = CONF[c]
        pre = ["%s -std=c++17 -O2 -msse4.2 -w -I{repo}/sym -c {repo}/sym/%s.cpp -o {out}.%s.o" % (cc, s, s) for s in SYMSRC]
        pre.append("%s -std=c++17 -O2 -msse4.2 -w -I{mc} -I{repo}/sym -c {mc}/symbridge.cpp -o {out}.br.o" % cc)
        x["build"] = pre + [x["build"][0] + " " + " ".join("{out}.%s.o" % s for s in SYMSRC) + " {out}.br.o"]
        u.append(x)
    return u


def kglsl(tier):
    u = []
    for n, cc, fl, lite in (("gcc-O2", "g++", "-O2 -msse3 {simde}", False), ("clang-O2", "clang++", "-O2 -msse4.1 -DKLEIN_SSE_4_1", False), ("gcc-O0", "g++", "-O0 -msse3 {simde}", True)):
        u.append({"name": "glsl-as-c++-" + n, "run": ["--lite"] if lite else [],
                  "build": ["python3 {mc}/glsl_pre.py {repo}/glsl/klein.glsl {out}.glsl.hpp",
                            "%s -std=c++20 %s -w %s -DKLEIN_GLSL='\"{out}.glsl.hpp\"' {mc}/glsl.cpp -o {out}" % (cc, fl, KFLAGS)]})
    return u


def kcbind(tier):
    u = []
    for c in MAIN + ["gcc-c++17-sse3-simde-O0"]:
        cc, std, isa, opt = CONF[c]
        C = "gcc" if cc == "g++" else "clang"
        fl = "%s %s -w -I{repo}/c_src %s" % (opt, isa, KFLAGS)
        u.append({"name": c + ("-lite" if opt == "-O0" else ""), "run": ["--lite"] if opt == "-O0" else [],
                  "build": ["%s -std=c++%s %s -c {repo}/c_src/%s.cpp -o {out}.k_%s.o" % (cc, std, fl, s, s) for s in CSRC] + ["%s -std=c11 %s -c {mc}/cbind_c.c -o {out}.c.o" % (C, fl),
                            "%s -std=c++%s %s {mc}/cbind.cpp %s {out}.c.o -o {out}" % (cc, std, fl, " ".join("{out}.k_%s.o" % s for s in CSRC))]})
    return u


def has_avx2():
    try:
        f = open("/proc/cpuinfo").read().split()
        return "avx2" in f and "fma" in f
    except OSError:
        return False


def kcross(tier):
    isas = {"sse3": "-msse3", "sse41": "-msse4.1 -DKLEIN_SSE_4_1"}
    inc = {"simde": " {simde}", "native": ""}
    cmds, names = [], []
    combos = [(cc, s, i, n, o) for cc in ("g++", "clang++") for s in ("11", "17") for i in isas for n in inc for o in ("O0", "O2")]
    if tier == "thorough":
        combos += [(cc, s, i, n, o) for cc in ("g++", "clang++") for s in ("11", "14", "17", "20") for i in isas for n in inc for o in ("O1", "O3", "Os")]
    for cc, s, i, n, o in combos:
        nm = "%s_%s_%s_%s_%s" % (cc.replace("+", ""), s, i, n, o)
        names.append(nm)
        cmds.append("%s -std=c++%s -%s %s%s -w %s -DCFG=%s -Dkln=kln_%s -c {mc}/opt.cpp -o {out}.%s.o" % (cc, s, o, isas[i], inc[n], KFLAGS, nm, nm, nm))
    # release builds, other standards and levels, wider vector units (without contraction, whose rounding differs more than the bound)
    more = [("g++", "20", "sse3", "simde", "O3 -DNDEBUG", ""), ("clang++", "20", "sse41", "native", "Os -DNDEBUG", ""), ("g++", "14", "sse41", "native", "Os", ""), ("clang++", "14", "sse3", "simde", "O1", ""),
            ("g++", "17", "sse41", "native", "O1 -DNDEBUG", ""), ("clang++", "17", "sse3", "native", "O3 -DNDEBUG", "")]
    if has_avx2():
        more += [("g++", "17", "sse41", "simde", "O2", "-mavx2 -mfma -ffp-contract=off"), ("clang++", "17", "sse41", "native", "O3", "-mavx2 -mfma -ffp-contract=off"), ("g++", "11", "sse3", "native", "O3", "-mavx2 -mfma -ffp-contract=off")]
    for k, (cc, s, i, n, o, wide) in enumerate(more):
        nm = "%s_%s_%s_%s_%s%s" % (cc.replace("+", ""), s, i, n, o.replace(" -", "_"), "_avx2_fma" if wide else "")
        names.append(nm)
        cmds.append("%s -std=c++%s -%s %s%s %s -w %s -DCFG=%s -Dkln=kln_%s -c {mc}/opt.cpp -o {out}.%s.o" % (cc, s, o, isas[i], inc[n], wide, KFLAGS, nm, nm, nm))
    par = "printf '%s\\n' " + " ".join("'%s'" % c for c in cmds) + " | xargs -P8 -d '\\n' -n1 sh -c"
    lst = " ".join("X(%s)" % n for n in names)
    u = [{"name": "%d builds compared" % len(names), "run": [],
          "build": [par, "g++ -std=c++17 -O2 -msse3 -w %s '-DCFGLIST=%s' {mc}/cross.cpp %s -o {out}" % (KFLAGS, lst, " ".join("{out}.%s.o" % n for n in names))]}]
    san = [("clang-msan-c++17-sse3", "clang++", "17", "-O0 -msse3 -fsanitize=memory", True), ("clang-msan-c++11-sse4.1", "clang++", "11", "-O0 -msse4.1 -DKLEIN_SSE_4_1 -fsanitize=memory", True),
           ("gcc-asan-ubsan-c++17-sse3-simde", "g++", "17", "-O1 -msse3 {simde} -fsanitize=address,undefined -fno-sanitize-recover=all", False),
           ("clang-asan-ubsan-c++11-sse4.1", "clang++", "11", "-O0 -msse4.1 -DKLEIN_SSE_4_1 -fsanitize=address,undefined -fno-sanitize-recover=all", False)]
    for n, cc, s, fl, ms in san:
        ig = "-fsanitize-ignorelist={mc}/msan_ignore.txt" if ms else ""
        u.append({"name": n, "run": [] if tier == "thorough" or n == "gcc-asan-ubsan-c++17-sse3-simde" else ["--lite"], "env": {"ASAN_OPTIONS": "detect_leaks=0"},
                  "build": ["%s -std=c++%s %s -g1 -w %s -DCFG=san -Dkln=kln_san -c {mc}/opt.cpp -o {out}.san.o" % (cc, s, fl, KFLAGS),
                            "%s -std=c++17 %s -g1 %s -w %s '-DCFGLIST=X(san)' {mc}/cross.cpp {out}.san.o -o {out}" % (cc, fl, ig, KFLAGS)]})
    return u


def kreent(tier):
    u = []
    for n, cc, fl, lite in (("gcc-c++17-sse4.1-O2", "g++ -std=c++17", "-O2 -msse4.1 -DKLEIN_SSE_4_1", False), ("clang-c++17-sse3-simde-O2", "clang++ -std=c++17", "-O2 -msse3 {simde}", True),
                            ("gcc-c++11-sse3-O0", "g++ -std=c++11", "-O0 -msse3", True)):
        u.append({"name": n + ("-lite" if lite else ""), "run": ["--lite"] if lite else [],
                  "build": ["%s %s -w %s -DOPT_OPERANDS -DCFG=r -Dkln=kln_r -c {mc}/opt.cpp -o {out}.r.o" % (cc, fl, KFLAGS), "g++ -std=c++17 -O2 -w %s '-DCFGLIST=X(r)' {mc}/reent.cpp {out}.r.o -o {out}" % KFLAGS]})
    return u


CHECKS = {
    "C01": {"units": kmain("algebra.cpp", "--group", "C01", extra="-DGRP=1")},
    "C02": {"units": kmain("algebra.cpp", "--group", "C02", extra="-DGRP=2")},
    "C03": {"units": kmain("algebra.cpp", "--group", "C03", extra="-DGRP=3")},
    "C04": {"units": kmain("algebra.cpp", "--group", "C04", extra="-DGRP=4")},
    "C05": {"units": kmain("versor.cpp", extra="-DGRP=5")},
    "C06": {"units": kmain("versor.cpp", extra="-DGRP=6")},
    "C07": {"units": kmain("versor.cpp", extra="-DGRP=7")},
    "C08": {"units": kmain("versor.cpp", extra="-DGRP=8")},
    "C09": {"units": kmain("history.cpp", extra="-DGRP=9")},
    "C10": {"units": kmain("metric.cpp", extra="-DGRP=10")},
    "C11": {"units": kmain("explog.cpp", extra="-DGRP=11")},
    "C12": {"units": kmain("explog.cpp", extra="-DGRP=12")},
    "C13": {"units": kmain("explog.cpp", extra="-DGRP=13")},
    "C14": {"units": kmain("metric.cpp", extra="-DGRP=14")},
    "C15": {"units": kmain("metric.cpp", extra="-DGRP=15")},
    "C16": {"units": kload},
    "C17": {"units": kmain("linear.cpp", extra="-DGRP=17")},
    "C18": {"units": kcross, "build_failure_is_violation": True},
    "C19": {"units": kmain("metric.cpp", extra="-DGRP=19")},
    "C20": {"units": kreent},
    "C21": {"units": kglsl},
    "C22": {"units": kcbind},
    "C23": {"units": ksym(23)},
    "C24": {"units": ksym(24)},
    "C25": {"units": ksym(25, main=("gcc-O1-asan-ubsan",), lite=("clang-O1-asan-ubsan",))},
    "C26": {"units": ksym(26, env=kscripts())},
    "C27": {"units": ksym(27)},
    "C28": {"units": ksym(28, env={"KLEIN_SHELL": "{out}.shell"}, shell=True)},
    "C29": {"units": kbridge},
}

NOT_APPLICABLE = {}
_REF = ("Exhaustive within the enumerated operand alphabets (lattices, all bounded deviations from several base vectors, unit versors on angle grids); "
        "trusts the reference model mc/ref.hpp, the rounding tolerance and the compilers of the listed configurations.")
_SYM = "Exhaustive within the stated lengths and alphabets; trusts the reference algebra, evaluator and printer-reader in mc/symref.hpp."
TECHNIQUE = {
    "C01": ("exhaustive enumeration of operand states, every result replayed against an explicit reference model", _REF + " Operand lattices contain the monomial basis, so any wrong or missing term of a multilinear kernel changes some enumerated result."),
    "C02": ("exhaustive enumeration of operand states against an explicit reference model", _REF),
    "C03": ("exhaustive enumeration of operand states against an explicit reference model", _REF),
    "C04": ("exhaustive enumeration of operand states against an explicit reference model, involution checked on every state", _REF),
    "C05": ("exhaustive enumeration of mirrors, entities and reflection pairs against the sandwich product of the reference model", _REF),
    "C06": ("exhaustive enumeration of unit versors and entities against the sandwich product of the reference model", _REF),
    "C07": ("exhaustive enumeration of batch length, placement, aliasing and alignment with guard pages, element-wise oracle", _REF + " Out-of-bounds accesses are detected by guard pages, canaries and pre-filled output."),
    "C08": ("exhaustive enumeration of versors and coordinates with poisoned memory, matrix-vs-application oracle", _REF + " Indeterminate output is detected by running each export under different register and stack contents."),
    "C09": ("explicit-state exploration of all operation histories up to a depth and breadth-first closure of a finite motion group, conformance on every transition", _REF),
    "C10": ("exhaustive enumeration of element states against their defining laws in the reference model", _REF),
    "C11": ("exhaustive enumeration of the group's parameter grid including all branch points, exp and log replayed against the reference model", _REF),
    "C12": ("exhaustive enumeration of the group's parameter grid, roots squared and compared with the reference model", _REF),
    "C13": ("exhaustive enumeration of Euler angle triples and unit rotors, including gimbal lock, against the reference model", _REF),
    "C14": ("exhaustive enumeration of incidence configurations against projections computed by the reference model", _REF),
    "C15": ("exhaustive enumeration of constructor arguments against the motion they prescribe in the reference model", _REF),
    "C16": ("exhaustive enumeration of component values, array placements and conversion chains with guard pages, bit-exact oracle", _REF + " Here the oracle is bit-exact: no tolerance."),
    "C17": ("explicit-state exploration of operator sequences over finite coefficient states, component-wise oracle", _REF),
    "C18": ("exhaustive enumeration of the build configurations crossed with every public operation and its operand states; all builds linked into one program and compared, plus memory, address and undefined-behaviour sanitizer builds", "Exhaustive over 32 configurations (80 in the thorough tier) and the enumerated operands; differences are judged relative to the size of the operands, ill-conditioned operands of log, root, exp and Euler angles are left to C11-C13."),
    "C19": ("exhaustive enumeration of geometric configurations against Euclidean distances and angles computed independently", _REF),
    "C20": ("stateless exploration of all ordered pairs and triples of operations and of all points at which one operation can preempt another, by single-stepping the machine code", "Exhaustive over the public operations and a few to 60 operand tuples each; the preempting call runs to completion (nested), truly concurrent partial execution of both calls is not enumerated."),
    "C21": ("exhaustive enumeration of unit versors, entities and histories; the GLSL source is executed as C++ and compared with the reference model and the C++ library", _REF + " The GLSL text runs with a C++ implementation of GLSL's vector types (mc/glslshim.hpp); a GPU's rounding is not modelled."),
    "C22": ("exhaustive enumeration of operand pairs, every C function called from C and compared lane by lane with the C++ operation", "Exhaustive within the enumerated operands (up to 700 x 700 per function in the quick tier); trusts the C++ operations, which C01-C17 decide."),
    "C23": ("explicit enumeration of signatures, basis blades and polynomial multivectors against a reference Clifford algebra", _SYM),
    "C24": ("explicit-state exploration of push/add/multiply/negate sequences against a reference polynomial ring", _SYM),
    "C25": ("exhaustive enumeration of byte strings up to a length and of token-class strings, under sanitizers, allocation budget and memory poisoning", _SYM),
    "C26": ("exhaustive enumeration of token sequences and operator/grouping shapes against an independent evaluator", _SYM),
    "C27": ("exhaustive enumeration of multivectors, printed text read back by an independent reader", _SYM),
    "C28": ("exhaustive exploration of input-line histories of the shell, in process and as a program, against an independent evaluator", _SYM),
    "C29": ("exhaustive enumeration of operand states, symbolic formula of the shell evaluated at each and compared with the SSE result", _SYM),
}
