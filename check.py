#!/usr/bin/env python3
"""Runs the exhaustive exploration that decides one property.

  check.py PROP [--tier quick|thorough]     decide property PROP against /repo's working tree
  check.py --replay FILE                    replay one recorded violation against /repo's working tree

The harness sources harness/<prop>_*.cpp are compiled against the headers in /repo (header-only
library), linked with the explorer harness/mc.cpp and run; every case of every space is executed.
"""
import sys, os, json, glob, hashlib, subprocess, time, argparse, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GEOMETRIX_REPO", "/repo")
HARN = os.path.join(HERE, "harness")
FLAGS = ["-std=c++14", "-w", "-O1", "-fno-strict-aliasing", "-D_GLIBCXX_ASSERTIONS",
         "-DBOOST_RESULT_OF_USE_TR1_WITH_DECLTYPE_FALLBACK", "-DBOOST_CHRONO_HEADER_ONLY",
         "-DBOOST_PARAMETER_MAX_ARITY=20", "-I" + REPO, "-I" + HARN]
KINDS = {0: "mismatch", 1: "assertion", 2: "exception", 3: "crash", 4: "hang"}


def sources(prop):
    s = sorted(glob.glob(os.path.join(HARN, prop.lower() + "_*.cpp")))
    if not s:
        sys.exit("no harness for property " + prop)
    return s


def tree_hash(prop, flags):
    h = hashlib.sha256(" ".join(flags).encode())
    files = []
    for root, dirs, fs in os.walk(os.path.join(REPO, "geometrix")):
        dirs.sort()
        files += [os.path.join(root, f) for f in sorted(fs)]
    files += sources(prop) + sorted(glob.glob(os.path.join(HARN, "*.hpp"))) + [os.path.join(HARN, "mc.cpp")]
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def build(prop, asan=False):
    flags = list(FLAGS)
    if asan:
        flags += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-DMC_ASAN", "-g1"]
    key = tree_hash(prop, flags)
    root = os.path.join(HERE, "build")
    bdir = os.path.join(root, prop + ("-asan-" if asan else "-") + key)
    exe = os.path.join(bdir, "mc")
    if os.path.exists(exe):
        return exe
    os.makedirs(root, exist_ok=True)
    for d in os.listdir(root):  # builds of earlier trees
        if d.startswith(prop + ("-asan-" if asan else "-")) and (asan or "-asan-" not in d):
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    tmp = bdir + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    srcs = sources(prop) + [os.path.join(HARN, "mc.cpp")]

    def cc(src):
        obj = os.path.join(tmp, os.path.basename(src) + ".o")
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return src, obj, r
    with ThreadPoolExecutor(max_workers=int(os.environ.get("MC_JOBS", "8"))) as ex:
        res = list(ex.map(cc, srcs))
    for src, obj, r in res:
        if r.returncode:
            lines = r.stdout.splitlines()
            print("BUILD FAILED %s\n%s" % (src, "\n".join([l for l in lines if "error" in l][:20] or lines[-20:])))
            shutil.rmtree(tmp, ignore_errors=True)
            sys.exit(2)
    r = subprocess.run(["g++"] + (["-fsanitize=address,undefined"] if asan else []) + [o for _, o, _ in res] + ["-o", os.path.join(tmp, "mc")])
    if r.returncode:
        sys.exit(2)
    shutil.rmtree(bdir, ignore_errors=True)
    os.rename(tmp, bdir)
    return exe


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run(exe, args):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    return subprocess.run([exe] + args, env=env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--space")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--maxfail", default="200")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        exe = build(r["property"], r.get("asan", False))
        args = ["--replay", "%s:%d" % (r["space"], r["index"])] + (["--tier", "thorough"] if r["tier"] == "thorough" else [])
        sys.exit(run(exe, args).returncode)
    prop = a.prop
    t0 = time.time()
    stages = [False] + ([True] if a.tier == "thorough" else [])
    tot = dict(states=0, transitions=0, cases=0, skipped=0)
    per, samples, viol, knownhits = [], [], [], []
    outcomes = {}
    notes = []
    kf = [k for k in known() if k["property"] == prop and k["status"] == "open"]
    for asan in stages:
        exe = build(prop, asan)
        if a.build_only:
            continue
        out = os.path.join(os.path.dirname(exe), "out-%d.json" % os.getpid())
        # the sanitized build explores the quick bounds again, for memory errors the plain build cannot see
        tier = "quick" if asan else a.tier
        args = ["--tier", tier, "--out", out, "--maxfail", a.maxfail] + (["--case-limit", "60"] if asan else []) + (["--space", a.space] if a.space else [])
        r = run(exe, args)
        if r.returncode:
            print("the explorer failed with exit code %d" % r.returncode)
            sys.exit(2)
        with open(out) as f:
            res = json.load(f)
        os.remove(out)
        if res["cut"]:
            notes.append("exploration cut short after too many failures")
        for s in res["spaces"]:
            if not asan:
                tot["states"] += s["distinct_states"]
                tot["transitions"] += s["transitions"]
                samples += s["samples"][:2]
            tot["cases"] += s["cases"]
            tot["skipped"] += s["skipped"]
            per.append({"space": s["name"] + ("@asan" if asan else ""), "bounds": s["bounds"], "cases_enumerated": s["n"],
                        "outside_precondition": s["skipped"], "transitions": s["transitions"],
                        "distinct_states": s["distinct_states"], "state_table_full": s["table_full"],
                        "failing": s["failing"], "capped": s["capped"], "outcomes": s["outcomes"], "wall_s": s["wall"]})
            for f in s["fails"]:
                if f["kind"] < 0:
                    notes.append("not reproduced on replay: %s:%d (%s)" % (s["name"], f["index"], f["first"]))
                    continue
                hit = [k for k in kf if k["space"] == s["name"] and k["input"] == f["text"] and k["kind"] == KINDS[f["kind"]]]
                if hit:
                    knownhits.append((hit[0], f))
                else:
                    viol.append((s["name"], f, tier, asan))
    if a.build_only:
        return
    for k, f in {id(k): (k, f) for k, f in knownhits}.values():
        print("KNOWN-FINDING: property=%s %s: %s [%s]" % (prop, k["space"], k["input"], k["what"]))
    rdir = os.path.join(HERE, "replays")
    if viol:
        os.makedirs(rdir, exist_ok=True)
    for i, (space, f, tier, asan) in enumerate(viol):
        if i >= int(os.environ.get("MC_SHOW", "12")):
            print("... and %d more failing cases" % (len(viol) - 12))
            break
        p = os.path.join(rdir, "%s-%s-%d.json" % (prop, space, f["index"]))
        with open(p, "w") as fh:
            json.dump({"property": prop, "space": space, "index": f["index"], "tier": tier, "asan": asan,
                       "kind": KINDS[f["kind"]], "input": f["text"], "what": f["msg"], "log": f["log"],
                       "stable_on_replay": f["stable"]}, fh, indent=1)
        print("  %s:%d  %s\n    input: %s\n    %s: %s" % (space, f["index"], "" if f["stable"] else "(not the same on every replay)", f["text"], KINDS[f["kind"]], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    ev = {"property": prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["transitions"],
                       "traces_validated_against_impl": tot["cases"], "samples": samples[:24],
                       "exhaustive": not any(p["capped"] for p in per) and not any("cut short" in n for n in notes),
                       "outside_precondition": tot["skipped"], "spaces": per, "notes": notes},
          "violations": len(viol), "known_findings": len(knownhits), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.space:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    print("%s %s: %d cases, %d distinct states, %d comparisons, %d violations, %.1f s" % (
        prop, a.tier, tot["cases"], tot["states"], tot["transitions"], len(viol), time.time() - t0))
    sys.exit(1 if viol else 0)


main()
