#!/usr/bin/env python3
"""Decide one property: compile its contract files against /repo's current
header, let irv discharge every obligation, confirm any failed obligation
natively, write the evidence file.

  check.py <property> [--tier quick|thorough]
  check.py --replay <file>          re-run a recorded violation natively
  check.py --baseline               record the expected reachability witnesses
Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself failed.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
PROOFS = os.path.join(HERE, "proofs")
IRV = os.path.join(BUILD, "irv")
JOBS = int(os.environ.get("VP_JOBS", str(os.cpu_count() or 4)))


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace") + "\ntimeout"


def ensure_irv():
    if not os.path.exists(IRV):
        rc, o, e = sh([os.path.join(HERE, "irv", "build.sh")], 1500)
        if rc:
            print(o, e)
            sys.exit(2)


def properties():
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        return {j["id"]: j for j in map(json.loads, filter(str.strip, f))}


class Unit:
    """One contract file."""

    def __init__(self, src, work):
        self.src = src
        self.name = os.path.splitext(os.path.basename(src))[0]
        self.bc = os.path.join(work, self.name + ".bc")
        self.flags, self.irv, self.native = [], [], True
        self.time = 300
        for line in open(src):
            m = re.match(r"//\s*vp-(\w+):\s*(.*)", line)
            if not m:
                continue
            if m[1] == "flags":
                self.flags += m[2].split()
            elif m[1] == "irv":
                self.irv += re.findall(r"'[^']*'|\S+", m[2])
            elif m[1] == "time":
                self.time = int(m[2])
            elif m[1] == "native":
                self.native = m[2].strip() != "no"
        self.irv = [x.strip("'") for x in self.irv]
        self.work = work
        self.nat = {}

    def compile(self):
        env = dict(os.environ, VP_REPO=REPO)
        return sh([os.path.join(PROOFS, "compile.sh"), self.src, self.bc] + self.flags, 600, env)

    def entries(self):
        rc, o, e = sh([IRV, self.bc], 60)
        if rc:
            raise RuntimeError("irv cannot read %s: %s" % (self.bc, e))
        return o.split()

    def native_prog(self, entry):
        if entry in self.nat:
            return self.nat[entry]
        out = os.path.join(self.work, self.name + "." + entry + ".nat")
        rc, o, e = sh(["clang++-18", "-std=c++20", "-O1", "-g", "-w", "-fsanitize=address,undefined",
                       "-fno-sanitize=vptr,alignment,function", "-fno-sanitize-recover=all", "-DVP_ENTRY=" + entry, "-I" + REPO, "-I" + PROOFS] +
                      self.flags + [self.src, os.path.join(PROOFS, "vp_native.cpp"), "-o", out], 300)
        self.nat[entry] = out if rc == 0 else None
        if rc:
            sys.stderr.write(e[:2000])
        return self.nat[entry]


def replay_text(model):
    r = []
    for v in model["values"]:
        if v["k"] == "v":
            r.append("v " + v["hex"])
        else:
            r.append("r %d %d" % (v["size"], v["else"]) + "".join(" %d:%d" % (a, b) for a, b in v["bytes"]))
    for u in model["uf"]:
        r.append("u %d %d %d" % (u["id"], u["n"], u["else"]) + " " + " ".join(" ".join(map(str, t)) for t in u["t"]))
    return "\n".join(r) + "\n"


NAT_ENV = dict(os.environ, ASAN_OPTIONS="exitcode=1:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=1")


def run_native(prog, *args, timeout=60):
    rc, o, e = sh([prog] + list(args), timeout, NAT_ENV)
    return rc, o + e


class Clock:
    """When the verifier has to be done: a check gets 900 s, and witnesses are searched for behind it."""
    end = None


def verify(unit, entry, tier):
    out = os.path.join(unit.work, unit.name + "." + entry + ".json")
    env = dict(os.environ)
    t = unit.time * (3 if tier == "thorough" else 1)
    if Clock.end:
        t = max(1, min(t, int(Clock.end - time.time())))
    if os.path.exists(out):
        os.unlink(out)
    rc, o, e = sh([IRV, "--entry", entry, "--time", str(t), "--out", out] + unit.irv + [unit.bc], t + 120, env)
    try:
        j = json.load(open(out))
    except Exception:
        j = {"entry": entry, "error": "the verifier stopped (exit %s): %s" % (rc, e[-500:]), "obligations": [], "failures": [],
             "covers": {}, "functions": [], "header_functions": [], "header_lines": [], "contracts": [], "externs": [],
             "loops_inductive": [], "loops_unrolled": [], "instances": 0, "discharged": 0, "by_normal_form": 0, "wall_s": 0,
             "solver": {}, "paths": 0, "throw_exits": 0}
    j["unit"] = unit.name
    return j


def confirm(unit, entry, result, rdir, budget):
    """A native, concrete violation of the entry's contract, or None."""
    if not unit.native:
        return None
    prog = unit.native_prog(entry)
    if not prog:
        return None
    t0 = time.time()
    n = 0

    def attempt(model, why):
        nonlocal n
        n += 1
        path = os.path.join(rdir, "%s.%s.%d.replay" % (unit.name, entry, n))
        with open(path, "w") as f:
            f.write("# unit %s entry %s\n# %s\n" % (unit.name, entry, why) + replay_text(model))
        rc, out = run_native(prog, "replay", path)
        if rc not in (0, 77, -9):
            with open(path, "a") as f:
                f.write("".join("# native: %s\n" % l for l in out.splitlines()[:20]))
            return path, out
        os.unlink(path)
        return None

    for f in result["failures"]:
        if f["model"]:
            r = attempt(f["model"], "failed obligation: %s %s at %s" % (f["kind"], f["name"], f["loc"]))
            if r:
                return r
    # random native runs of the same contract
    rc, out = run_native(prog, "random", os.environ.get("VERIF_SEED", "1"), "6", timeout=60)
    m = re.search(r"SEED (\d+)", out)
    if rc == 1 and m:
        path = os.path.join(rdir, "%s.%s.seed.replay" % (unit.name, entry))
        with open(path, "w") as f:
            f.write("# unit %s entry %s\n# random native run\ns %s\n" % (unit.name, entry, m[1]))
            f.write("".join("# native: %s\n" % l for l in out.splitlines()[:20]))
        return path, out
    # exact bounded exploration, only to find a concrete witness
    for unroll in (2, 5):
        left = budget - (time.time() - t0)
        if left < 10:
            break
        out = os.path.join(unit.work, unit.name + "." + entry + ".hunt.json")
        if os.path.exists(out):
            os.unlink(out)
        lim = min(left, 60)
        sh([IRV, "--entry", entry, "--hunt", str(unroll), "--time", str(lim), "--max-failures", "6", "--out", out] + unit.irv + [unit.bc], lim + 30)
        try:
            h = json.load(open(out))
        except Exception:
            continue
        for f in h["failures"]:
            if f["model"]:
                r = attempt(f["model"], "failed obligation (bounded witness search): %s %s at %s" % (f["kind"], f["name"], f["loc"]))
                if r:
                    return r
    return None


def load_json(p, default):
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return default


ASSUMPTIONS = [
    "clang 18 -std=c++20 compiles the header to LLVM IR faithfully (LLP64-free x86-64, little endian, libstdc++ 13); optimisation passes listed in proofs/compile.sh are trusted",
    "irv (term normaliser, symbolic executor, loop inference) and the back ends (built-in linear step with z3 LIA, z3, cvc5) are trusted",
    "blocks have at most 2^40 bytes and sit at non-overlapping addresses; operator new succeeds up to that size and throws above it",
    "templates are verified for the instantiations the contract files make; within an instantiation every value, length, position and byte is universally quantified",
    "single threaded execution; exceptions other than those thrown by the header end the path and are only accepted where the contract says so",
]


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    ensure_irv()
    if args and args[0] == "--baseline":
        return baseline()
    prop = args[0]
    t0 = time.time()
    work = os.path.join(BUILD, "work", "%s.%d" % (prop, os.getpid()))
    rdir = os.path.join(BUILD, "replay", prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(rdir, exist_ok=True)
    Clock.end = t0 + (560 if tier == "quick" else 3000)
    for f in glob.glob(os.path.join(rdir, "*")):
        os.unlink(f)
    code = decide(prop, tier, work, rdir, t0)
    for f in glob.glob(os.path.join(work, "*")):
        os.unlink(f)
    os.rmdir(work)
    sys.exit(code)


def run_units(prop, tier, work):
    srcs = sorted(glob.glob(os.path.join(PROOFS, prop.lower() + "_*.cpp")))
    units = [Unit(s, work) for s in srcs]
    results, cerr = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        comp = {ex.submit(u.compile): u for u in units}
        jobs = {}
        for c in cf.as_completed(comp):
            u = comp[c]
            rc, o, e = c.result()
            if rc:
                cerr.append((u, e))
                continue
            for en in u.entries():
                jobs[ex.submit(verify, u, en, tier)] = (u, en)
        for jb in cf.as_completed(jobs):
            u, en = jobs[jb]
            results.append((u, en, jb.result()))
            if Clock.end and any(f["model"] and not f["undecided"] for f in results[-1][2]["failures"]):
                Clock.end = min(Clock.end, time.time() + 60)
    results.sort(key=lambda r: (r[0].name, r[1]))
    return units, results, cerr


def decide(prop, tier, work, rdir, t0):
    known = load_json(os.path.join(HERE, "known_findings.json"), {"findings": []})["findings"]
    cover_base = load_json(os.path.join(PROOFS, "covers.json"), {})
    units, results, cerr = run_units(prop, tier, work)
    if not units:
        print("no contract files for", prop)
        return 2
    bad = []      # (unit, entry, result, text)
    findings = []
    for u, e in cerr:
        bad.append((u, None, None, "the contract file does not compile against the current header:\n" + e[:3000]))
    for u, en, r in results:
        kf = [k for k in known if k["property"] == prop and k.get("entry") == en and k.get("status") == "known"]
        if "_KNOWN_" in en:
            # an entry stating the exact behaviour of a recorded finding: it fails as listed
            names = {f["name"] for f in r["failures"]}
            if kf and names and names <= set(kf[0]["obligations"]) and not r["error"]:
                findings.append(kf[0])
                continue
            if not names and not r["error"]:
                continue # repaired
        lost = [c for c in cover_base.get(u.name, {}).get(en, []) if not r["covers"].get(c)]
        if r["failures"] or r["error"] or lost or not r["instances"]:
            txt = []
            if r["error"]:
                txt.append("verifier: " + r["error"])
            for f in r["failures"]:
                txt.append("%s obligation %s: '%s' (%s) at %s\n%s" % (
                    "undecided" if f["undecided"] else "failed", f["kind"], f["name"], f["solver"], f["loc"], f["detail"]))
            for c in lost:
                txt.append("unreachable: the situation '%s' can no longer occur" % c)
            if not r["instances"]:
                txt.append("no obligations generated")
            bad.append((u, en, r, "\n".join(txt)))
    for u, ens in ((u, cover_base.get(u.name, {})) for u in units):
        have = {en for x, en, _ in results if x is u}
        if u not in [x for x, _ in cerr]:
            for en in ens:
                if en not in have:
                    print("missing contract entry", u.name, en)
                    return 2
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    code = 0
    violations = 0
    if bad:
        confirmed, plain = [], []
        for u, en, r, txt in bad:
            budget = 720 - (time.time() - t0)
            c = None
            if en and budget > 15 and len(confirmed) < 2:
                c = confirm(u, en, r, rdir, min(budget, 150))
            if c:
                confirmed.append(c[0])
                with open(c[0], "a") as f:
                    f.write("".join("# %s\n" % l for l in txt.splitlines()))
            else:
                plain.append((u, en, txt))
        if not confirmed:
            for u, en, txt in plain[:3]:
                p = os.path.join(rdir, "%s.%s.obligation.txt" % (u.name, en or "compile"))
                with open(p, "w") as f:
                    f.write("unit %s entry %s\n%s\n" % (u.name, en, txt))
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
        for p in confirmed:
            print("VIOLATION property=%s replay=%s" % (prop, p))
        violations = len(bad)
        code = 1
    evidence(prop, tier, units, results, findings, violations, time.time() - t0)
    if code == 0:
        n = sum(r["instances"] for _, _, r in results)
        print("%s: %d contracts, %d obligations, all discharged, %.1fs" % (prop, len(results), n, time.time() - t0))
    return code


def evidence(prop, tier, units, results, findings, violations, wall):
    tot = lambda k: sum(r.get(k, 0) for _, _, r in results)
    st = lambda k: sum(r["solver"].get(k, 0) for _, _, r in results if r["solver"])
    uni = lambda k: sorted({x for _, _, r in results for x in r.get(k, [])})
    byk = {}
    for _, _, r in results:
        for o in r["obligations"]:
            b = byk.setdefault(o["kind"], [0, 0])
            b[0] += o["instances"]
            b[1] += o["discharged"]
    kf_inst = sum(sum(o["instances"] - o["discharged"] for o in r["obligations"]) for _, en, r in results if "_KNOWN_" in en)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "proof",
        "coverage": {
            "obligations": tot("instances") - kf_inst, "discharged": tot("discharged"),
            "checker_cmd": "./check.py %s --tier %s" % (prop, tier),
            "trusted_base": ["clang 18.1.3 front end and the opt-18 passes of proofs/compile.sh", "irv (/verif/irv)", "z3", "cvc5"],
            "contracts": [{"unit": u.name, "entry": en, "obligations": r["instances"], "discharged": r["discharged"],
                           "paths": r.get("paths", 0), "wall_s": round(r.get("wall_s", 0), 2), "covers": r["covers"],
                           "inductive_loops": r["loops_inductive"]} for u, en, r in results],
            "obligations_by_kind": {k: {"generated": v[0], "discharged": v[1]} for k, v in sorted(byk.items())},
            "back_ends": {"normal_form": tot("by_normal_form"), "linear_integer": st("linear"), "z3_incremental": st("z3_incremental"),
                          "z3_fresh": st("z3_fresh"), "cvc5": st("cvc5"), "model_reuse": st("model_pool") + st("model_hits")},
            "solver_time_s": round(st("seconds"), 2),
            "functions_under_contract": uni("header_functions"),
            "header_lines_executed": len({x for _, _, r in results for x in r.get("header_lines", [])}),
            "assumed_contracts": uni("contracts"), "external_functions_modelled": uni("externs"),
            "loops_by_induction": uni("loops_inductive"), "loops_unrolled_completely": uni("loops_unrolled"),
            "paths_ending_in_allocation_failure": tot("throw_exits"),
            "known_findings": [k["what"] for k in findings],
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def baseline():
    base = load_json(os.path.join(PROOFS, "covers.json"), {})
    only = sys.argv[2:]
    for prop in properties():
        if only and prop not in only:
            continue
        work = os.path.join(BUILD, "work", "base." + prop)
        os.makedirs(work, exist_ok=True)
        units, results, cerr = run_units(prop, "quick", work)
        for u in units:
            base[u.name] = {}
        for u, en, r in results:
            base.setdefault(u.name, {})[en] = sorted(k for k, v in r["covers"].items() if v)
            dead = [k for k, v in r["covers"].items() if not v]
            if dead or r["failures"] or r["error"]:
                print(u.name, en, "unreached:", dead, "failures:", [(f["name"], f["loc"]) for f in r["failures"]], r["error"])
        for u, e in cerr:
            print(u.name, e[:1500])
    names = {os.path.splitext(os.path.basename(s))[0] for s in glob.glob(os.path.join(PROOFS, "*.cpp"))}
    base = {k: v for k, v in base.items() if k in names}
    with open(os.path.join(PROOFS, "covers.json"), "w") as f:
        json.dump(base, f, indent=1, sort_keys=True)
        f.write("\n")


def replay(path):
    m = re.search(r"# unit (\S+) entry (\S+)", open(path).read())
    if not m:
        print("not a native replay file")
        sys.exit(2)
    work = os.path.join(BUILD, "work", "replay.%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    u = Unit(os.path.join(PROOFS, m[1] + ".cpp"), work)
    prog = u.native_prog(m[2])
    rc, out = run_native(prog, "replay", path)
    print(out)
    print("exit", rc)
    sys.exit(rc)


if __name__ == "__main__":
    main()
