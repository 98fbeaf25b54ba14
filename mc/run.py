#!/usr/bin/env python3
"""Check driver: builds the exhaustive-exploration harnesses against /repo's working tree in
every configuration of a property, runs them, replays and reports violations, writes evidence.

usage: run.py PROPERTY [--tier quick|thorough] [--keep] [--unit SUBSTR]
"""
import json, os, re, resource, shutil, signal, subprocess, sys, time, fnmatch
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
SIMDE = "-DKLEIN_USE_SIMDE -I/usr/include/simde"
JOBS = min(8, os.cpu_count() or 4)

sys.path.insert(0, HERE)
import checks as table  # noqa: E402


CPU_LIMIT = 30


def limit_cpu():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))


def log(*a):
    print(*a, flush=True)


class Unit:
    def __init__(self, d, build):
        self.d = d
        self.name = d["name"]
        self.bin = os.path.join(build, re.sub(r"[^A-Za-z0-9_.-]", "_", self.name))
        self.build_cmds = [c.format(repo=REPO, mc=HERE, out=self.bin, simde=SIMDE, build=build) for c in d["build"]]
        self.argv = [x.format(repo=REPO, mc=HERE, out=self.bin, build=build) for x in d["run"]]
        self.xenv = {k: x.format(repo=REPO, mc=HERE, out=self.bin, build=build) for k, x in d.get("env", {}).items()}
        self.env = dict(os.environ, **self.xenv)

    def compile(self):
        for c in self.build_cmds:
            r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return c + "\n" + r.stdout[-3000:]
        return None


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=<(.*?)> case=<(.*?)> (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        for t in ("g++", "clang++"):
            subprocess.run([t, "--version"], stdout=subprocess.DEVNULL, check=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        log("setup ok")
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 1
        elif args[i] == "--unit":
            only = args[i + 1]; i += 1
        elif args[i] == "--keep":
            keep = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = table.CHECKS[pid]
    t0 = time.time()
    build = os.path.join(VERIF, ".build", pid)
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build)
    units = [Unit(u, build) for u in chk["units"](tier) if only is None or only in u["name"]]
    with ThreadPoolExecutor(JOBS) as ex:
        errs = list(ex.map(lambda u: u.compile(), units))
    bad = [(u, e) for u, e in zip(units, errs) if e]
    if bad:
        for u, e in bad:
            log("BUILD ERROR in unit %s:\n%s" % (u.name, e))
        if len(bad) == len(units) or not chk.get("build_failure_is_violation"):
            log("check %s could not be built" % pid)
            return 2
    log("%s: built %d harness configurations in %.1f s" % (pid, len(units) - len(bad), time.time() - t0))

    tlimit = chk.get("timeout", {}).get(tier, 780 if tier == "quick" else 14400)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "oracle_comparisons": 0, "exhaustive": True,
           "configurations": [], "spaces": [], "samples": []}
    space_states = {}
    raw = []
    for u, e in zip(units, errs):
        if e:
            raw.append((u, {"space": "build", "idx": 0, "key": "build", "msg": "this configuration no longer compiles", "case": u.name}))
            continue
        tu = time.time()
        viofile = u.bin + ".viol"
        cmd = [u.bin] + u.argv + ["--tier", tier, "--jobs", str(JOBS), "--viofile", viofile]
        if u.d.get("interp"):
            cmd = u.argv + ["--tier", tier, "--jobs", str(JOBS), "--viofile", viofile]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               timeout=max(10, tlimit - (time.time() - t0)), env=u.env, cwd=build)
        except subprocess.TimeoutExpired:
            log("unit %s exceeded the time limit" % u.name)
            return 2
        try:
            j = json.loads(r.stdout)
        except ValueError:
            log("unit %s: no result (exit %s)\n%s\n%s" % (u.name, r.returncode, r.stdout[-1500:], r.stderr[-1500:]))
            return 2
        for s in j["spaces"]:
            if s["done"] != s["size"]:
                cov["exhaustive"] = False
            space_states[s["name"]] = max(space_states.get(s["name"], 0), s["states"])
        cov["transitions"] += j["transitions"]
        cov["traces_validated_against_impl"] += j["cases"]
        cov["oracle_comparisons"] += j["checks"]
        cov["configurations"].append({"name": u.name, "cases": j["cases"], "transitions": j["transitions"], "wall_s": round(time.time() - tu, 2)})
        if not cov["spaces"] or len(j["spaces"]) > len(cov["spaces"]):
            cov["spaces"] = [{k: s[k] for k in ("name", "size", "done", "states", "transitions", "distinct_outcomes_min")} for s in j["spaces"]]
        for s in j["samples"]:
            if len(cov["samples"]) < 10 and s not in cov["samples"]:
                cov["samples"].append(s)
        for k, v in j.get("extra", {}).items():
            cov[k] = v
        for v in j["violations"]:
            raw.append((u, v))
        log("  %-34s %12d executions %12d steps  %6.1f s  %s" % (u.name, j["cases"], j["transitions"], time.time() - tu,
                                                             "%d violating" % len(j["violations"]) if j["violations"] else "held"))
        if any(v["key"] == "hang" for v in j["violations"]):
            log("  (executions without end: the remaining configurations are not explored)")
            break
    cov["states"] = sum(space_states.values())

    # replay before report
    known = [k for k in load_known() if k[0] == pid]
    rdir = os.path.join(VERIF, "replays")
    reported, seen, seen_known, unconfirmed = [], set(), set(), []
    treplay = time.time()
    for u, v in raw:
        kf = [k for k in known if k[1] == v["key"] and fnmatch.fnmatch(v["case"], k[2])]
        if kf:
            if kf[0] not in seen_known:
                seen_known.add(kf[0])
                log("KNOWN-FINDING: property=%s %s" % (pid, kf[0][3]))
            continue
        tag = (v["key"], v["space"])
        if tag in seen or len(reported) >= 8 or (reported and time.time() - treplay > 150):
            continue
        ok = v["space"] == "build"
        text = ""
        rc = []
        if not ok:
            base = ([] if u.d.get("interp") else [u.bin]) + u.argv + ["--tier", tier]
            cmds = [base + ["--replay", v["space"], str(v["idx"])]] * 3 + [base + ["--only", v["space"], "--jobs", str(JOBS), "--viofile", u.bin + ".viol"]] * 2
            hang = v["key"] == "hang"
            for n, rc in enumerate(cmds):
                # a hang is confirmed by the case alone using up its processor time (or staying blocked),
                # never by a busy machine
                one = n < 3
                try:
                    r = subprocess.run(rc, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                       timeout=(240 if hang else 120) if one else 150, env=u.env, cwd=build, preexec_fn=limit_cpu if one and hang else None)
                    text = r.stdout[-6000:]
                    if r.returncode == -signal.SIGXCPU:
                        text += "\nno result within %d s of processor time" % CPU_LIMIT
                        ok = hang
                    elif r.returncode != 0 and r.returncode != 2:
                        ok = True
                except subprocess.TimeoutExpired as ex:
                    text = "no result (blocked)"
                    ok = hang and one
                if ok:
                    break
        if not ok:
            unconfirmed.append((u.name, v))
            continue
        seen.add(tag)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.sh" % (pid, len(reported) + 1))
        with open(path, "w") as f:
            f.write("#!/bin/bash\n# property %s, configuration %s\n# case: %s\n# %s: %s\n" % (pid, u.name, v["case"].replace("\n", "\\n"), v["key"], v["msg"].replace("\n", "\\n")))
            f.write("# recorded replay output:\n" + "".join("#   %s\n" % l for l in text.splitlines()[-60:]))
            f.write("set -e\nmkdir -p %s\n" % build)
            for c in u.build_cmds:
                f.write(c + "\n")
            import shlex
            envs = " ".join("%s=%s" % (k, shlex.quote(x)) for k, x in u.xenv.items())
            f.write("cd %s; %s %s\n" % (build, envs, " ".join(shlex.quote(x) for x in rc)))
        reported.append((path, u, v))
    for path, u, v in reported:
        log("VIOLATION property=%s replay=%s" % (pid, path))
        log("    [%s] %s: %s\n    case: %s" % (u.name, v["key"], v["msg"], v["case"]))
    for n, v in unconfirmed[:5]:
        log("note: not reproduced on replay (not reported): [%s] %s %s" % (n, v["key"], v["case"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "model_checking"), "coverage": cov,
          "assumptions": chk.get("assumptions", []) + table.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if not keep:
        shutil.rmtree(build, ignore_errors=True)
    log("%s %s: %d states, %d executions validated, %d steps, %.1f s -> %s" % (pid, tier, cov["states"], cov["traces_validated_against_impl"],
                                                                   cov["transitions"], time.time() - t0, "VIOLATED" if reported else "held"))
    if reported:
        return 1
    if unconfirmed:
        log("unreproducible failures were seen: treat as an error of the check")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
