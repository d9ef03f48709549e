#!/usr/bin/env python3
"""Driver of the solver-based checks.

  run.py setup                      build engine, harness IR and native replay once
  run.py check Pxx [--tier T]       decide one property on /repo's current tree
  run.py replay FILE                re-run a recorded counterexample natively

A check compiles the harnesses of its property together with /repo's current source to one
whole-program LLVM IR file, symbolically executes every harness with the engine in engine/, replays
each counterexample natively, and writes evidence/<id>.json.
Exit: 0 held on everything explored, 1 VIOLATION, 2 the check itself failed.
"""
import collections, glob, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(ROOT, "target")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


class Broken(Exception):
    pass


def cargo(args, cwd, target):
    e = dict(ENV, CARGO_TARGET_DIR=target)
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("cargo %s failed:\n%s" % (" ".join(args), r.stdout[-6000:]))
    return r.stdout


def build_engine():
    t = os.path.join(TARGET, "engine")
    cargo(["build", "--offline", "--release", "-q"], os.path.join(ROOT, "engine"), t)
    return os.path.join(t, "release", "engine")


def build_ir(feature):
    t = os.path.join(TARGET, "ir")
    deps = os.path.join(t, "release", "deps")
    for f in glob.glob(os.path.join(deps, "harness-*.ll")):
        os.remove(f)
    for f in glob.glob(os.path.join(t, "release", ".fingerprint", "harness-*")):
        shutil.rmtree(f)
    cargo(["rustc", "--offline", "--release", "--lib", "--crate-type", "staticlib", "--features", feature, "--",
           "--emit=llvm-ir"], os.path.join(ROOT, "harness"), t)
    lls = glob.glob(os.path.join(deps, "harness-*.ll"))
    if len(lls) != 1:
        raise Broken("expected one IR file, found %r" % lls)
    return lls[0]


def build_native(feature, profile="dev"):
    t = os.path.join(TARGET, "native")
    cargo(["build", "--offline", "-q", "--bin", "replay", "--profile", profile, "--features", feature],
          os.path.join(ROOT, "harness"), t)
    return os.path.join(t, {"dev": "debug"}.get(profile, profile), "replay")


class Par:
    """run a function in a thread, re-raise on join"""

    def __init__(self, f, *a):
        self.r = self.e = None

        def go():
            try:
                self.r = f(*a)
            except BaseException as e:
                self.e = e

        self.t = threading.Thread(target=go, daemon=True)
        self.t.start()

    def get(self):
        self.t.join()
        if self.e:
            raise self.e
        return self.r


def native(binary, cases):
    """[(harness, param, hexmodel)] -> [(outcome, hash)]; a crash of the process is an outcome too"""
    out = []
    i = 0
    while i < len(cases):
        inp = "".join("%s %d %s\n" % c for c in cases[i:])
        try:
            r = subprocess.run([binary], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               errors="replace", timeout=120)
            lines, sig = r.stdout.splitlines(), r.returncode
        except subprocess.TimeoutExpired as e:
            lines, sig = (e.stdout or b"").decode(errors="replace").splitlines(), "timeout"
        for l in lines[: len(cases) - i]:
            o, _, h = l.partition("\t")
            out.append((o, h))
        i = len(out)
        if i < len(cases):
            out.append(("crash %s" % sig, ""))
            i += 1
    return out


def reproduces(v, outcome):
    k = v["kind"]
    if k == "assert":
        return outcome == "assert %d" % v["id"]
    return outcome.startswith("panic") or outcome.startswith("crash")


def known_list():
    p = os.path.join(ROOT, "known-findings.json")
    return json.load(open(p)).get("findings", []) if os.path.exists(p) else []


def check(prop, tier, seed):
    t0 = time.time()
    feature = prop.lower()
    eng_p, ir_p, nat_p = Par(build_engine), Par(build_ir, feature), Par(build_native, feature)
    eng, ir = eng_p.get(), ir_p.get()
    build_s = time.time() - t0
    names = set()
    for l in open(ir, errors="replace"):
        if l.startswith("define "):
            m = re.search(r"@(%st?_\w+)\(" % feature, l)
            if m:
                names.add(m.group(1))
    harnesses = sorted(n for n in names if not n.endswith("__count") and
                       (tier == "thorough" or n.startswith(feature + "_")))
    if not harnesses:
        raise Broken("no harness for " + prop)
    work = os.path.join(TARGET, "run")
    os.makedirs(work, exist_ok=True)
    outf = os.path.join(work, prop + ".json")
    budget = 3000 if tier == "thorough" else 480
    cmd = [eng, ir, "--out", outf, "--seed", str(seed), "--samples", "6", "--xcheck", "4",
           "--time", str(budget), "--job-time", str(900 if tier == "thorough" else 150),
           "--z3-ms", str(60000 if tier == "thorough" else 20000)]
    for h in harnesses:
        cmd += ["--harness", h]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(outf):
        raise Broken("engine failed (%s): %s" % (r.returncode, r.stdout[-3000:]))
    d = json.load(open(outf))
    os.remove(outf)
    nat = nat_p.get()
    jobs = d["jobs"]
    tot = lambda k: sum(j[k] for j in jobs)
    per = collections.defaultdict(list)
    for j in jobs:
        per[j["harness"]].append(j)

    # --- counterexamples, each replayed against the natively compiled crate ---
    viol = [dict(v, harness=j["harness"], param=j["param"]) for j in jobs for v in j["violations"]]
    kn = [dict(v, harness=j["harness"], param=j["param"]) for j in jobs for v in j["known"]]
    groups = collections.OrderedDict()
    for v in viol:
        groups.setdefault((v["harness"], v["kind"], v["id"], v["msg"]), []).append(v)
    pick = [v for g in groups.values() for v in g[:6]]
    confirmed, spurious, unconfirmed = [], [], []
    if pick:
        dev = native(nat, [(v["harness"], v["param"], v["model"]) for v in pick])
        for v, (o, _) in zip(pick, dev):
            v["native"] = o
            v["profile"] = "dev"
            (confirmed if reproduces(v, o) else unconfirmed).append(v)
        if unconfirmed:
            user = build_native(feature, "user")
            res = native(user, [(v["harness"], v["param"], v["model"]) for v in unconfirmed])
            for v, (o, _) in zip(unconfirmed, res):
                if reproduces(v, o):
                    v["native"], v["profile"] = o, "user"
                    confirmed.append(v)
                else:
                    spurious.append(v)
    listed = {(f["harness"], f["id"]): f for f in known_list() if f["property"] == prop}
    known_lines = {}
    if kn:
        res = native(nat, [(v["harness"], v["param"], v["model"]) for v in kn])
        for v, (o, _) in zip(kn, res):
            f = listed.get((v["harness"], v["id"]))
            if o != "known %d" % v["id"]:
                v.update(kind="known", msg="known finding not reproduced natively", native=o)
                spurious.append(v)
            elif f is None:
                v.update(kind="known", msg="a failure outside the listed known findings", native=o, profile="dev")
                confirmed.append(v)
            else:
                known_lines[f["name"]] = f

    # --- vacuity and completeness ---
    broken = list(d["errors"])
    nevermet = []
    for h in harnesses:
        js = per[h]
        if not js:
            broken.append("harness %s has no jobs" % h)
            continue
        r1 = sum(j["reach"].get("1", 0) for j in js)
        if r1 == 0:
            nevermet.append(h)
    incomplete = [j for j in jobs if not j["complete"]]
    done = len(jobs) - len(incomplete)
    if nevermet and not confirmed:
        allinc = [h for h in nevermet if all(not j["complete"] for j in per[h])]
        broken.append("never reached its assertions: %s%s" % (", ".join(nevermet), " (incomplete: %s)" % per[allinc[0]][0]["why"] if allinc else ""))
    if done == 0:
        broken.append("no job completed")

    # --- translation validation: sampled complete paths must behave identically natively ---
    samples = [(j["harness"], j["param"], s) for j in jobs for s in j["samples"]]
    step = max(1, len(samples) // 4000)
    samples = samples[seed % step::step]
    mism = []
    validated = 0
    shown = []
    if samples:
        res = native(nat, [(h, p, s["m"]) for h, p, s in samples])
        for (h, p, s), (o, hsh) in zip(samples, res):
            so = s["o"]
            same = (o == so or (so == "ok" and o == "ok")) and (hsh == s["t"] or o.startswith(("panic", "crash")))
            if so.startswith(("panic", "assert", "known")):
                same = o.split(" ")[0] == so.split(" ")[0]
            if same:
                validated += 1
                if len(shown) < 8 and s["m"] and (h not in [x["harness"] for x in shown]):
                    shown.append({"harness": h, "param": p, "assignment_hex": s["m"], "outcome": so, "trace_hash": s["t"]})
            else:
                mism.append((h, p, s, o, hsh))
    if mism and not confirmed:
        broken.append("engine and native run disagree on %d sampled paths, e.g. %r" % (len(mism), mism[0]))

    for v in spurious:
        broken.append("counterexample not reproduced natively: %s#%s %s id=%s %s model=%s native=%s" %
                      (v["harness"], v["param"], v["kind"], v["id"], v["msg"], v["model"], v.get("native")))

    fns = [f for f in d["functions"] if "osu_file_parser" in f]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("forks"),
            "traces_validated_against_impl": validated,
            "samples": shown,
            "explanation": "states = symbolic paths explored to their end (each covers every input satisfying its path condition); "
                           "transitions = feasible two-sided branches; traces_validated = sampled paths whose solver model was run on the native build with the same outcome and trace.",
            "exhaustive": not incomplete,
            "jobs": len(jobs), "jobs_complete": done,
            "incomplete": [{"harness": j["harness"], "param": j["param"], "why": j["why"] or j["error"]} for j in incomplete[:20]],
            "harnesses": {h: {"jobs": len(js), "paths": sum(j["paths"] for j in js),
                              "symbolic_bytes_max": max((j["nsym"] for j in js), default=0),
                              "reached": sum(j["reach"].get("1", 0) for j in js)} for h, js in per.items()},
            "instructions": tot("steps"),
            "assertions_discharged_on_path": tot("asserts_path"),
            "assertions_discharged_by_solver": tot("asserts_solver"),
            "solver": {"queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
                       "cached": tot("cached"), "byte_domain_decisions": tot("dom"),
                       "byte_domain_decisions_rechecked_by_z3": sum(j.get("xok", 0) for j in jobs),
                       "seconds": round(tot("solver_s"), 2)},
            "functions_encoded": len(d["functions"]),
            "functions_of_the_crate": sorted(fns)[:400],
        },
        "assumptions": [
            "bounds: the input shapes listed in the property's harness module harness/src/%s.rs (and DESIGN.md); everything outside them is not covered" % feature,
            "the encoding is rustc's optimised LLVM IR of the crate with overflow checks on; rustc, LLVM's optimiser, z3 and engine/ are trusted, sampled paths are replayed natively",
            "allocation never fails",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d harnesses, %d/%d jobs complete, %d paths, %d+%d assertions, %d queries (%.1fs), %d traces validated, build %.0fs, total %.0fs" % (
        prop, tier, len(harnesses), done, len(jobs), tot("paths"), tot("asserts_path"), tot("asserts_solver"), tot("queries"), tot("solver_s"), validated, build_s, time.time() - t0))
    for j in incomplete[:5]:
        print("  incomplete: %s#%d %s" % (j["harness"], j["param"], j["why"] or j["error"]))
    for f in known_lines.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if confirmed:
        rd = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        n = 0
        for v in confirmed:
            key = (v["harness"], v["kind"], v["id"], v["msg"])
            if key in seen:
                continue
            seen.add(key)
            p = os.path.join(rd, "%s-%d.json" % (prop, n))
            n += 1
            json.dump({"property": prop, "harness": v["harness"], "param": v["param"], "model": v["model"], "kind": v["kind"],
                       "id": v["id"], "msg": v["msg"], "native_outcome": v["native"], "profile": v["profile"],
                       "how": "python3 run.py replay %s" % p}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  %s#%d %s %s %s -> %s" % (v["harness"], v["param"], v["kind"], v["id"], v["msg"], v["native"]))
            if n >= 20:
                break
        for b in broken:
            print("  note: " + b[:500])
        return 1
    if broken:
        for b in broken[:20]:
            print("CHECK-ERROR: " + b[:1500])
        return 2
    return 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a[:1] == ["setup"]:
        ps = [Par(build_engine), Par(build_ir, "p01"), Par(build_native, "p01")]
        for p in ps:
            p.get()
        return 0
    if a[:1] == ["check"]:
        return check(a[1], tier if tier in ("quick", "thorough") else "quick", seed)
    if a[:1] == ["replay"]:
        v = json.load(open(a[1]))
        b = build_native(v["property"].lower(), v.get("profile", "dev"))
        r = subprocess.run([b, "-v"], input="%s %d %s\n" % (v["harness"], v["param"], v["model"]), text=True)
        return r.returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
