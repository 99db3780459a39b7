#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property by symbolic execution of /repo's current source.

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: no verdict.
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS

CPUS = int(os.environ.get("VERIF_CPUS", "8"))
DEFS = ["-DAPPNAME=\"Ergo\"", "-DHAVE_BAGL", "-DHAVE_UX_FLOW", "-DIO_HID_EP_LENGTH=64",
        "-Dsnprintf=app_snprintf", "-Dexplicit_bzero=model_bzero", "-Dmemset_s=model_memset_s"]
# the application's memory is told apart from the model's and the harness's by its sections
APP = ["-include", HERE + "/sdk/include/app_sections.h"]
INC = ["-I" + HERE + "/sdk/include", "-I" + HERE + "/harness", "-I" + REPO + "/src"]
COMMON = ["-std=gnu11", "-w", "-g", "-ftrivial-auto-var-init=pattern", "-fno-strict-aliasing"]
IR = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-inline-functions",
      "-gline-tables-only", "-fno-jump-tables"]
NAT = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize=alignment,pointer-overflow,function,shift-base",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
UB = ["-fsanitize=signed-integer-overflow,shift-exponent,bounds,integer-divide-by-zero,null,bool,enum,return,vla-bound,unreachable",
      "-fsanitize-trap=all"]
SDK = ["buffer", "bip32", "read", "write", "varint", "model", "tape"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def version_defs():
    """The version numbers come from the application's Makefile."""
    mk = open(os.path.join(REPO, "Makefile")).read()
    v = {}
    for k, d in (("M", "MAJOR"), ("N", "MINOR"), ("P", "PATCH")):
        m = re.search(r"^APPVERSION_%s\s*=\s*(\d+)" % k, mk, re.M)
        v[d] = int(m.group(1)) if m else 0
    return ["-DMAJOR_VERSION=%d" % v["MAJOR"], "-DMINOR_VERSION=%d" % v["MINOR"], "-DPATCH_VERSION=%d" % v["PATCH"],
            "-DAPPVERSION=\"%d.%d.%d\"" % (v["MAJOR"], v["MINOR"], v["PATCH"])]


def repo_sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        r += [os.path.join(d, f) for f in fs if f.endswith(".c")]
    return sorted(r)


class NoVerdict(Exception):
    pass


class Builder:
    def __init__(self, work):
        self.work = work
        self.vdefs = version_defs()
        self.done = {}

    def objects(self, kind):
        """kind: ir, ub (IR with traps for undefined behaviour in application code), nat; -nanos: for that device"""
        if kind in self.done:
            return self.done[kind]
        key, out = kind, os.path.join(self.work, kind)
        kind, _, device = kind.partition("-")
        os.makedirs(out, exist_ok=True)
        jobs = []
        srcs = [(s, True) for s in repo_sources()] + [(HERE + "/sdk/%s.c" % s, False) for s in SDK]
        srcs.append((HERE + ("/sdk/native.c" if kind == "nat" else "/sdk/libc.c"), False))
        for s, app in srcs:
            o = os.path.join(out, s.strip("/").replace("/", "_") + (".o" if kind == "nat" else ".bc"))
            f = COMMON + DEFS + self.vdefs + INC + (["-DTARGET_NANOS"] if device else []) + (APP if app else [])
            if s.endswith("native.c"):
                f = [x for x in f if "snprintf" not in x]
            if kind == "nat":
                f = f + NAT + (["-Dmemset=model_memset"] if app else [])
            else:
                f = f + IR + ["-emit-llvm"] + (UB if kind == "ub" and app else [])
            jobs.append((["clang"] + f + ["-c", s, "-o", o], o, s))
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for (cmd, o, s), r in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
                if r.returncode != 0:
                    raise NoVerdict("cannot compile %s:\n%s" % (s, r.stdout[-3000:]))
        objs = [j[1] for j in jobs]
        if kind != "nat":
            lib = os.path.join(self.work, key + "_all.bc")
            r = sh(["llvm-link-18"] + objs + ["-o", lib])
            if r.returncode != 0:
                raise NoVerdict("llvm-link: " + r.stdout[-2000:])
            objs = [lib]
        self.done[key] = objs
        return objs

    def harness(self, h, kind):
        tag = h["tag"]
        device = "-nanos" if "TARGET_NANOS" in h["defs"] else ""
        src = os.path.join(HERE, "harness", h["file"])
        f = COMMON + DEFS + self.vdefs + INC + ["-D" + d for d in h["defs"]]
        base = os.path.join(self.work, tag)
        if kind == "nat":
            r = sh(["clang"] + f + NAT + [src] + self.objects("nat" + device) + ["-o", base + ".exe"])
            if r.returncode != 0:
                raise NoVerdict("native build of %s: %s" % (tag, r.stdout[-3000:]))
            return base + ".exe"
        r = sh(["clang"] + f + IR + (UB if kind == "ub" else []) + ["-emit-llvm", "-c", src, "-o", base + ".h.bc"])
        if r.returncode != 0:
            raise NoVerdict("cannot compile harness %s: %s" % (tag, r.stdout[-3000:]))
        r = sh(["llvm-link-18", base + ".h.bc"] + self.objects(kind + device) + ["-o", base + ".bc"])
        if r.returncode != 0:
            raise NoVerdict("llvm-link %s: %s" % (tag, r.stdout[-2000:]))
        return base + ".bc"


def replay(exe, inputs, timeout=60, strict=False):
    """Run the real code natively on concrete inputs. Returns (verdict, output)."""
    f = tempfile.NamedTemporaryFile("w", suffix=".in", delete=False, dir=os.path.dirname(exe))
    f.write(inputs + "\n")
    f.close()
    env = dict(os.environ, ASAN_OPTIONS="exitcode=86:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=87:print_stacktrace=0")
    if strict:
        env["VERIF_STRICT"] = "1"
    try:
        r = subprocess.run([exe, f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    out = r.stdout
    if r.returncode == 1 and "REPLAY-VIOLATION" in out:
        return "violation", out
    if r.returncode == 0:
        return "held", out
    if r.returncode in (3, 4):
        return "diverged", out
    return "crash", out


def run_harness(b, h, tier, seed, workers, budget):
    kind = "ub" if h.get("ub") else "ir"
    bc = b.harness(h, kind)
    out = os.path.join(b.work, h["tag"] + ".jsonl")
    cmd = [os.path.join(HERE, "build", "symex"), bc, "-o", out, "-e", "harness_main", "-j", str(workers), "-t", str(budget),
           "-S", os.path.join(b.work, "slots"), "-u", str(h.get("unwind", 5000)), "-n", str(h.get("samples", 8 if tier == "quick" else 24)), "-s", str(seed)]
    for k in h.get("known", []):
        cmd += ["-k", k]
    r = sh(cmd)
    recs = [json.loads(l) for l in open(out, errors="replace") if l.strip()] if os.path.exists(out) else []
    summ = [x for x in recs if x["kind"] == "summary"]
    if not summ:
        raise NoVerdict("engine failed on %s: %s" % (h["tag"], r.stdout[-2000:]))
    return recs, summ[0]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    keep = "--keep" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    chk = CHECKS[prop]
    if not os.path.exists(os.path.join(HERE, "build", "symex")):
        os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
        r = sh(["sh", os.path.join(HERE, "engine", "build.sh"), os.path.join(HERE, "build", "symex")])
        if r.returncode != 0:
            print(r.stdout)
            return 2
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for e in json.load(open(kf)).get("findings", []):
            if e.get("status") == "known" and e["property"] == prop:
                known.setdefault(e["assertion"], e)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    status, lines = 0, []
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], harnesses=[], queries=0, sat=0, unsat=0,
               solver_s=0.0, assertions_checked=0, exhaustive=True)
    functions, violations, problems = set(), 0, []
    try:
        b = Builder(work)
        hs = []
        for h in chk["harnesses"]:
            if h.get("tier") == "thorough" and tier != "thorough":
                continue
            if h.get("tier") == "quick" and tier != "quick":
                continue
            h = dict(h)
            h["defs"] = list(h.get("defs", []))
            h["tag"] = h["file"].replace(".c", "") + "".join("_" + re.sub(r"\W", "", d) for d in h["defs"]) + ("_ub" if h.get("ub") else "")
            if only and only not in h["tag"]:
                continue
            h["known"] = list(known)
            hs.append(h)
        kinds = {("ub" if h.get("ub") else "ir") + ("-nanos" if "TARGET_NANOS" in h["defs"] else "") for h in hs}
        for k in kinds:
            b.objects(k)
        nats = sorted({"nat-nanos" if "TARGET_NANOS" in h["defs"] else "nat" for h in hs})
        nat_fut = cf.ThreadPoolExecutor(1).submit(lambda: [b.objects(k) for k in nats])
        n = max(1, len(hs))
        par = min(n, CPUS if n >= CPUS else n)
        total = chk.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
        open(os.path.join(b.work, "slots"), "wb").write(bytes(4096))   # the harnesses share the processors

        def one(h):
            left = total - (time.time() - t0)
            return run_harness(b, h, tier, seed, CPUS, max(5, min(left, h.get("timeout", total))))
        with cf.ThreadPoolExecutor(par) as ex:
            futs = [(h, ex.submit(one, h)) for h in hs]
            results = [(h, f.result()) for h, f in futs]
        nat_fut.result()
        with cf.ThreadPoolExecutor(CPUS) as ex:
            exes = dict(zip([h["tag"] for h in hs], ex.map(lambda h: b.harness(h, "nat"), hs)))
        for h, (recs, s) in results:
            reached = set()
            for r in recs:
                if r["kind"] == "worker":
                    reached |= set(r["reached"])
                    functions |= {f for f in r["functions"] if "/src/" in f and HERE + "/" not in f}
            cov["states"] += s["paths"] + s["forks"]
            cov["transitions"] += s["instructions"]
            cov["queries"] += s["queries"]
            cov["sat"] += s["sat"]
            cov["unsat"] += s["unsat"]
            cov["solver_s"] = round(cov["solver_s"] + s["solver_s"], 3)
            cov["assertions_checked"] += s["asserts"]
            info = dict(harness=h["tag"], bounds=h.get("bounds", ""), paths=s["paths"], queries=s["queries"], solver_s=s["solver_s"],
                        wall_s=s["wall_s"], assumptions_cut=s["killed"], loops_cut=s["bounded"], complete=s["stop"] in (0,) and not s["bounded"],
                        reached=sorted(reached))
            cov["harnesses"].append(info)
            for r in recs:
                if r["kind"] == "error":
                    problems.append("%s: %s" % (h["tag"], r["msg"]))
            bad = 0
            for r in recs:
                if r["kind"] != "violation":
                    continue
                v, out = replay(exes[h["tag"]], r["inputs"], strict=True)
                ok = (r["what"] == "assertion" and v == "violation") or v == "crash" or v == "violation"
                if not ok and r["what"] == "assertion" and v == "timeout":
                    ok = True
                kn = [k for k in known if k in r["msg"]]
                if kn and ok:
                    lines.append("KNOWN-FINDING: property=%s %s" % (prop, known[kn[0]]["what"]))
                    continue
                rd = os.path.join(HERE, "evidence", "replay", "%s-%s-%d" % (prop, h["tag"], bad))
                shutil.rmtree(rd, ignore_errors=True)
                os.makedirs(rd)
                open(rd + "/inputs.txt", "w").write(r["inputs"] + "\n")
                open(rd + "/violation.json", "w").write(json.dumps(dict(r, replay=v, native_output=out[-4000:], harness=h["file"], defs=h["defs"]), indent=1))
                open(rd + "/replay.sh", "w").write(
                    "#!/bin/sh\n# replays the counterexample against the real code in %s\nexec python3 %s/tools/replay.py %s\n" % (REPO, HERE, rd))
                bad += 1
                if ok:
                    violations += 1
                    print("counterexample (%s): %s [%s]\n  at %s\n  native replay: %s" % (h["tag"], r["msg"], r["what"], r["trace"],
                          (out.strip().splitlines() or ["-"])[-1 if v != "crash" else 0][:200]))
                    lines.append("VIOLATION property=%s replay=%s" % (prop, rd))
                    status = 1
                else:
                    problems.append("%s: counterexample for '%s' (%s at %s) not reproduced by the native replay (%s)\n%s"
                                   % (h["tag"], r["msg"], r["what"], r["trace"], v, out[-1500:]))
            if s["stop"] == 2 or s["bounded"]:
                cov["exhaustive"] = False
                print("NOTE: %s: %s; explored %d paths" % (h["tag"], "time budget reached" if s["stop"] == 2 else "loop bound reached", s["paths"]))
            missing = set(s["reach"]) - reached - set(h.get("unreached", []))
            if missing and s["stop"] == 0 and not h.get("known"):
                problems.append("%s: vacuous, not reached: %s" % (h["tag"], ", ".join(sorted(missing))))
            for r in recs:
                if r["kind"] != "sample" or status == 1:
                    continue
                v, out = replay(exes[h["tag"]], r["inputs"])
                lab = "|".join(re.findall(r"^REACHED (.*)$", out, re.M))
                obs = " ".join(re.findall(r"^OBSERVED (.*)$", out, re.M))
                if v != "held" or lab != r["labels"] or obs != r["obs"].strip():
                    problems.append("%s: symbolic path and native run disagree (%s)\n labels %s / %s\n obs %s / %s\n%s"
                                   % (h["tag"], v, r["labels"], lab, r["obs"], obs, out[-1500:]))
                    continue
                cov["traces_validated_against_impl"] += 1
                if len(cov["samples"]) < 12:
                    cov["samples"].append(dict(harness=h["tag"], inputs=r["inputs"][:400], labels=r["labels"], observed=r["obs"].strip()))
        if problems:
            raise NoVerdict("\n".join(problems))
    except NoVerdict as e:
        if status != 1:
            print("NO VERDICT: " + str(e))
            status = 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    cov["functions_encoded"] = sorted(functions)
    cov["rule"] = "every path of the harness program over all values of its symbolic inputs, within the stated bounds"
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=chk.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for l in dict.fromkeys(lines):
        print(l)
    print("%s %s: %s  paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (
        prop, tier, {0: "held", 1: "VIOLATED", 2: "no verdict"}[status], sum(x["paths"] for x in cov["harnesses"]), cov["queries"],
        cov["solver_s"], cov["traces_validated_against_impl"], time.time() - t0))
    return status


if __name__ == "__main__":
    sys.exit(main())
