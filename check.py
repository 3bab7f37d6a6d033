#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree.

Exit 0: held on everything explored and proved. Exit 1 with a VIOLATION line otherwise.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
ENV.pop("RUSTFLAGS", None)
HARNESS = os.path.join(HERE, "harness")
SECS = {"quick": 25.0, "thorough": 400.0}[TIER]


class Broken(Exception):
    """The check itself cannot run."""


def sh(cmd, cwd, timeout, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def cargo(cwd, *args, target=None):
    cmd = ["cargo", "build", "--offline", *args]
    if target:
        cmd += ["--target-dir", target]
    rc, out = sh(cmd, cwd, 800)
    if rc != 0:
        raise Broken("cargo build failed:\n" + out[-3000:])


def build_harness():
    cargo(HARNESS, "--release")
    return os.path.join(HARNESS, "target/release/vh")


def replay_path(pid):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, pid + ".json")


def explore(vh, pid, secs, seed):
    """Runs the executable form of the property; returns (coverage, violation or None)."""
    rp = replay_path(pid)
    if os.path.exists(rp):
        os.remove(rp)
    try:
        p = subprocess.run([vh, "run", pid, str(secs), str(10 ** 12), str(seed), rp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 120)
    except subprocess.TimeoutExpired:
        raise Broken("harness did not end")
    try:
        cov = json.loads(p.stdout.strip().split("\n")[-1])
    except Exception:
        cov = None
    if p.returncode in (0, 1) and cov is not None:
        v = cov.pop("violation", None)
        return cov, (v, rp) if v else None
    # the process died (stack overflow, abort): find the case by tracing
    with tempfile.TemporaryDirectory() as d:
        tr = os.path.join(d, "case.json")
        t0 = time.time()
        while time.time() - t0 < 200:
            q = subprocess.run([vh, "run", pid, "60", str(10 ** 12), str(seed), rp, "--trace", tr], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
            if q.returncode not in (0, 1) and os.path.exists(tr):
                shutil.copy(tr, rp)
                cov = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "case on which the process died", "samples": [json.load(open(tr))]}
                return cov, ("the process dies (exit %d): %s" % (q.returncode, q.stderr[-300:]), rp)
            break
    raise Broken("harness died (exit %s) and the case was not found again: %s" % (p.returncode, p.stderr[-500:]))


def explore_variants(vh, pid):
    """P15: the same cases on builds with other features."""
    n = {"quick": 150000, "thorough": 1500000}[TIER]
    tmp = tempfile.mkdtemp(prefix="vp15_")
    try:
        sets = {"memchr+smallvec+lexical": "full,memchr,smallvec,lexical", "no JSON": "nojson", "no std": "alloc"}
        errs = []

        def build(name, feats):
            try:
                cargo(HARNESS, "--release", "--no-default-features", "--features", feats, "--bin", "variant", target=os.path.join(HARNESS, "target", "v_" + re.sub(r"\W+", "_", name)))
            except Exception as e:
                errs.append(e)

        ts = [threading.Thread(target=build, args=x) for x in sets.items()]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
        cases = os.path.join(tmp, "cases")
        sh([vh, "cases", "P15", str(SEED), str(n), cases], tmp, 600)
        exe = {"default": os.path.join(HARNESS, "target/release/variant")}
        exe.update({k: os.path.join(HARNESS, "target", "v_" + re.sub(r"\W+", "_", k), "release/variant") for k in sets})
        ps = {k: subprocess.Popen([e, cases, os.path.join(tmp, "out_" + re.sub(r"\W+", "_", k))]) for k, e in exe.items()}
        for k, p in ps.items():
            p.wait(timeout=800)
        outs = {k: open(os.path.join(tmp, "out_" + re.sub(r"\W+", "_", k))).read().split("\n") for k in exe}
        cs = open(cases).read().split("\n")
        base = outs["default"]
        nontriv = len(set(c for c, b in zip(cs, base) if "\\n" in b or "[" in b))
        cov = {"evaluations": (len(cs) - 1) * len(exe), "distinct_nontrivial": nontriv,
               "rule": "random values, serde trees, documents, mutated texts and number-like tokens encoded or decoded by builds with features: default; %s; results compared case by case; non-trivial: result holds a container or several lines" % "; ".join(sets),
               "samples": [json.loads(c) for c in cs[1:3]]}
        best = None
        for k, o in outs.items():
            for c, x, y in zip(cs, base, o):
                if x != y and (best is None or len(c) < len(best[0])):
                    best = (c, k, x, y)
            if len(o) != len(base) and best is None:
                best = (cs[min(len(o), len(base)) - 1], k, "%d results" % len(base), "%d results: the process died" % len(o))
        if best:
            rp = replay_path(pid)
            json.dump({"property": pid, "case": json.loads(best[0]), "build": best[1], "default": best[2], "differs": best[3],
                       "replay": "build harness bin `variant` with the features named and run it on a file holding the case"}, open(rp, "w"), indent=1)
            return cov, ("build with %s: %s instead of %s" % (best[1], best[3][:300], best[2][:300]), rp)
        return cov, None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore_apps(vh, pid):
    """P17: the command line tool and the JavaScript functions."""
    tmp = tempfile.mkdtemp(prefix="vp17_")
    try:
        errs = []

        def b(f):
            try:
                f()
            except Exception as e:
                errs.append(e)

        os.makedirs(os.path.join(HERE, "apps/target/cli"), exist_ok=True)
        ts = [threading.Thread(target=b, args=(lambda: cargo(os.path.join(HERE, "apps"), "--release"),)),
              threading.Thread(target=b, args=(lambda: cargo(REPO, "-p", "toon-cli", target=os.path.join(HERE, "apps/target/cli")),))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise errs[0]
        cases = os.path.join(tmp, "cases")
        sh([vh, "cases", "P17", str(SEED), "20000", cases], tmp, 600)
        rp = replay_path(pid)
        p = subprocess.run([os.path.join(HERE, "apps/target/release/apps"), cases, os.path.join(HERE, "apps/target/cli/debug/toon-cli"), tmp, rp, str(SECS)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
        try:
            cov = json.loads(p.stdout.strip().split("\n")[-1])
        except Exception:
            json.dump({"property": pid, "case": "see stderr", "stderr": p.stderr[-2000:]}, open(rp, "w"))
            return {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the process died", "samples": [p.stderr[-300:]]}, ("a JavaScript function panics: " + p.stderr[-300:], rp)
        with open(cases) as f:
            cov["samples"] = [json.loads(f.readline()), json.loads(f.readline())]
        v = cov.pop("violation", None)
        return cov, (v, rp) if v else None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known(pid, vh):
    """Prints the findings listed for this property that still fail; never adds to the list."""
    for l in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) probe=(\S+) (.*)", l.strip())
        if m and m.group(1) == pid:
            p = subprocess.run([vh, "probe", m.group(2)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            if p.returncode != 0:
                print("KNOWN-FINDING: property=%s %s" % (pid, m.group(3)))


def main():
    pid = sys.argv[1]
    t0 = time.time()
    import prove

    proof = {}

    def run_proof():
        try:
            proof.update(prove.prove(pid, TIER))
        except Exception as e:  # a defect of the proof machinery is no verdict on the code
            import traceback
            proof.update({"status": "lost", "note": "proof machinery: %s" % traceback.format_exc()[-1500:]})

    th = threading.Thread(target=run_proof)
    th.start()
    vh = build_harness()
    if pid == "P15":
        cov, bad = explore_variants(vh, pid)
    elif pid == "P17":
        cov, bad = explore_apps(vh, pid)
    else:
        cov, bad = explore(vh, pid, SECS, SEED)
    known(pid, vh)
    th.join()
    # a failed obligation asks for a longer search for a failing input
    if not bad and proof.get("status") == "failed" and pid not in ("P15", "P17"):
        cov2, bad = explore(vh, pid, 3 * SECS, SEED + 7919)
        cov["evaluations"] += cov2["evaluations"]
        cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], cov2["distinct_nontrivial"])
    level, coverage, assumptions = prove.evidence(pid, proof, cov)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 1),
          "violations": 1 if bad or proof.get("status") == "failed" else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if bad:
        print("what: " + bad[0][:2000])
        print("VIOLATION property=%s replay=%s" % (pid, bad[1]))
        sys.exit(1)
    if proof.get("status") == "failed":
        rp = replay_path(pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "failed_obligations": proof["failures"], "verifier": proof["command"],
                       "output": proof["output"][-20000:]}, f, indent=1)
        print("what: the verifier no longer accepts: " + "; ".join(proof["failures"])[:2000])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        sys.exit(1)
    print("%s held: %s" % (pid, json.dumps({k: coverage[k] for k in ("obligations", "discharged", "evaluations") if k in coverage})))


if __name__ == "__main__":
    try:
        main()
    except Broken as e:
        print("error of the check: %s" % e)
        sys.exit(3)
