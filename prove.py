"""Deductive step: contracts woven into /repo's functions, decided by Verus (Z3 back end)."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import weave
from rx import Lost

REPO = "/repo"
PROOFS = os.path.join(HERE, "proofs")

# A property whose theorem speaks of the whole way from value to text, or from text to value,
# discharges the contracts of every function on that way in its own check.
ENC, DEC = {"P04", "P09", "P10", "P11", "P13"}, {"P05"}
CHAIN = {"P01": ENC | DEC, "P02": ENC | DEC, "P13": ENC | DEC, "P16": ENC | DEC, "P18": ENC | DEC, "P04": ENC, "P09": ENC, "P10": ENC, "P06": DEC, "P07": DEC, "P08": DEC, "P12": DEC, "P19": DEC}


def load():
    ov = weave.Overlay()
    for p in sorted(glob.glob(os.path.join(PROOFS, "*.ov"))):
        ov.load(p)
    for f in ov.fns:
        f.props = f.props + [p for p, via in CHAIN.items() if p not in f.props and via & set(f.props)]
    return ov


def spec_props(txt):
    m = re.search(r"//@ props (.*)", txt)
    return m.group(1).split() if m else []


class Unit:
    """One rendering of the Verus crate."""

    def __init__(self, ov, repo, lost=(), smoke=False, pid=None, skip=(), only=None):
        self.ov, self.repo, self.why = ov, repo, dict(lost)
        self.elsewhere = {}  # functions whose contracts another property's check discharges
        self.ranges = []  # (first line, last line, kind, key)
        mods = {}
        for f, name, opts in ov.types:
            try:
                mods.setdefault(weave.type_opts(opts)[0] or weave.module_of(f), []).append(("type", name, weave.render_type(repo, f, name, opts)))
            except Lost as e:
                self.why["type " + name] = str(e)
        for f in ov.fns:
            k = f.key
            try:
                if k in self.why:
                    txt = weave.render_fn(repo, f, True)
                elif k in skip or only is not None and k != only:
                    txt = weave.render_fn(repo, f, True)
                elif pid and pid not in f.props and not f.trusted:
                    self.elsewhere[f.name.split("::")[-1]] = f.props
                    txt = weave.render_fn(repo, f, True)
                else:
                    txt = weave.render_fn(repo, f, False)
                    if smoke and not f.trusted:
                        i = txt.index("\n{\n", txt.index("fn "))
                        txt = txt[:i] + "\n{ assert(false);\n" + txt[i + 3:]
            except Lost as e:
                self.why[k] = str(e)
                try:
                    txt = weave.render_fn(repo, f, True)
                except Lost:
                    continue
            except Exception as e:
                self.why[k] = "extraction: %r" % e
                try:
                    txt = weave.render_fn(repo, f, True)
                except Exception:
                    continue
            mods.setdefault(f.module, []).append(("fn", k, txt))
        for name, buf, path in ov.specs:
            mods.setdefault(name, []).insert(0, ("spec", name, "\n".join(buf)))
        tree = {}
        for m in mods:
            t = tree
            for part in m.split("::"):
                t = t.setdefault(part, {})
        out = ["#![feature(pattern)]", "#![allow(unused_imports, unused_parens, unused_variables, unused_mut, dead_code, unused_braces, unused_assignments, non_snake_case, private_interfaces, unreachable_code, unused_must_use)]", "use vstd::prelude::*;", "verus! {"]

        def emit(t, path):
            for name, sub in t.items():
                full = "::".join(path + [name])
                out.append("pub mod %s {" % name)
                out.append("use vstd::prelude::*; use vstd::std_specs::iter::IteratorSpec;")
                if name != "base":
                    out.append("use crate::base::*; broadcast use crate::base::all_axioms;")
                for kind, key, txt in mods.get(full, []):
                    a = len(out) + 1
                    out.extend(txt.split("\n"))
                    self.ranges.append((a, len(out), kind, key))
                emit(sub, path + [name])
                out.append("}")
        emit(tree, [])
        out.append("pub mod canary { use vstd::prelude::*; use crate::base::*; broadcast use crate::base::all_axioms;")
        self.canary_line = len(out) + 1
        out.append("pub proof fn must_fail() ensures false { }")
        out.append("}")
        out.append("} // verus!")
        out.append("fn main() {}")
        self.text = "\n".join(out) + "\n"
        self.mods = mods

    def at(self, line):
        for a, b, kind, key in self.ranges:
            if a <= line <= b:
                return kind, key, a
        if line == self.canary_line:
            return "canary", "canary::must_fail", line
        return None, None, None

    def item_at(self, line):
        """Name of the proof/spec/exec item around a line of a spec block."""
        ls = self.text.split("\n")
        for i in range(min(line, len(ls)) - 1, -1, -1):
            m = re.search(r"\bfn (\w+)", ls[i])
            if m:
                return m.group(1)
        return "?"


def verus(unit, mods, d, timeout, threads=8, rlimit=None, fn=None, opts=(), stop=None):
    p = os.path.join(d, "unit.rs")
    with open(p, "w") as f:
        f.write(unit.text)
    cmd = ["verus", "unit.rs", "--output-json", "--time-expanded", "--error-format=json", "--num-threads", str(threads), "--multiple-errors", "4", "--no-report-long-running"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    for m in mods:
        cmd += ["--verify-only-module", m]
    if fn:
        cmd += ["--verify-function", fn]
    for o in opts:
        cmd += ["--smt-option", o]
    env = dict(os.environ)
    env.pop("RUSTUP_TOOLCHAIN", None)
    t0 = time.time()
    q = subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    while True:
        try:
            q.out, q.err = q.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if time.time() - t0 > timeout or stop is not None and stop.is_set():
                os.killpg(q.pid, signal.SIGKILL)
                q.communicate()
                return cmd, None, [], "timeout", time.time() - t0
    diags = []
    for l in q.err.split("\n"):
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        js = json.loads(q.out)
    except ValueError:
        js = None
    return cmd, js, diags, q.err, time.time() - t0


VERIFY_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic underflow/overflow", "decreases not satisfied",
               "possible division by zero", "possible bit shift", "requires not satisfied", "cannot show invariant", "could not prove termination", "loop invariant", "unable to prove", "assert_by", "failed precondition",
               "cannot prove", "postcondition", "constructed value may fail", "unwrap")


def is_proof_failure(m):
    return any(x in m for x in VERIFY_MSGS)


# ways of running the solver: any of them accepting an obligation is a proof of it
PORTFOLIO = [["smt.case_split=1"], ["smt.case_split=1", "smt.relevancy=1"], ["smt.random_seed=7", "sat.random_seed=7"]]


def one(u, mod, fn, opts, timeout, stop):
    """One function or lemma alone: (proved, definite failure, diagnostics, json)."""
    d = tempfile.mkdtemp(prefix="vprove_")
    try:
        if stop.is_set():
            return False, False, [], None
        cmd, js, diags, err, secs = verus(u, [mod], d, timeout, 1, 60, fn, opts, stop)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    vr = (js or {}).get("verification-results", {})
    ok = bool(vr) and vr.get("errors") == 0 and vr.get("verified", 0) > 0 and not vr.get("encountered-vir-error")
    errs = [g for g in diags if g.get("level") == "error" and not g["message"].startswith(("aborting", "For more"))]
    definite = bool(errs) and not ok and all(is_proof_failure(g["message"]) and "esource limit" not in g["message"] for g in errs) and vr.get("errors", 0) > 0
    return ok, definite, errs, js


def race(u, mod, fn, configs, timeout=240):
    """Runs the configurations at once; the first proof ends them."""
    stop = threading.Event()
    best = (False, False, [], None)
    definite = 0
    with ThreadPoolExecutor(len(configs)) as ex:
        for r in as_completed([ex.submit(one, u, mod, fn, c, timeout, stop) for c in configs]):
            x = r.result()
            if x[0]:
                stop.set()
                return x
            definite += x[1]
            if x[1] or not best[2]:
                best = x
    # a failure counts when a configuration came to an end on it
    return (False, definite > 0, best[2], best[3])


def solo(ov, repo, f, smoke):
    """A function too heavy for the common run, alone in a unit where the others are contracts."""
    u = Unit(ov, repo, (), smoke, only=f.key)
    if f.key in u.why:
        return f, u, None
    r = race(u, f.module, f.name, PORTFOLIO[:1])
    if not r[0] and not smoke:
        r = race(u, f.module, f.name, PORTFOLIO[1:])
    return f, u, r


def decide(repo, mods, props_of_interest=None, timeout=600, smoke=False, rlimit=None, ov=None, threads=8, pid=None):
    """Runs the verifier; functions that cannot be compiled fall back to their contract (lost)."""
    ov = ov or load()
    alone = [f for f in ov.fns if f.solo and f.module in mods and (not pid or pid in f.props)]
    with ThreadPoolExecutor(max(1, len(alone))) as ex:
        jobs = [ex.submit(solo, ov, repo, f, smoke) for f in alone]
        r = decide_main(repo, mods, timeout, smoke, rlimit, ov, max(2, threads - len(alone)), pid, {f.key for f in alone})
        done = [j.result() for j in jobs]
    if r["status"] != "ran":
        return r
    for f, u, x in done:
        if x is None:
            r["lost"][f.key] = u.why[f.key]
        elif x[0]:
            merge(r, x[3], 0)
        elif smoke:
            r["solo_hit"] = r.get("solo_hit", []) + [f.key]
        else:
            compiled = any(is_proof_failure(g["message"]) or "esource limit" in g["message"] for g in x[2])
            if not x[2] or not compiled:
                r["lost"][f.key] = "not accepted: " + "; ".join(g["message"][:200] for g in x[2][:2])
            for g in x[2] if compiled else []:
                spans = [s for s in g.get("spans", []) if s["file_name"].endswith("unit.rs")]
                locs = [(q[0], q[1], s) for s in spans for q in [u.at(s["line_start"])] if q[1]]
                ent = (g["message"], locs or [("fn", f.key, {"is_primary": True})], g)
                if "esource limit" in g["message"]:
                    r["rl"].append(ent)
                else:
                    r["fails"].append(ent)
            merge(r, x[3], 1)
    if not smoke:
        second_chance(r, mods)
    return r


def merge(r, js, failed):
    vr = (js or {}).get("verification-results", {})
    r["verified"] += vr.get("verified", 0)
    if failed:
        r["errors"] += vr.get("errors", 0)
    r["json"].setdefault("times-ms", {}).setdefault("smt", {}).setdefault("smt-run-module-times", []).extend((js or {}).get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []))


def second_chance(r, mods):
    """Obligations the common run did not discharge: again, alone, under the other configurations."""
    u = r["unit"]
    groups = {}
    for lst in ("fails", "rl"):
        for ent in r[lst]:
            k, o = owner(u, ent[1], ent[2])
            if o and not o.startswith("canary"):
                groups.setdefault((k, o), []).append((lst, ent))
    solo_keys = {f.key for f in u.ov.fns if f.solo}
    todo = [x for x in groups if x[1] not in solo_keys][:6]
    with ThreadPoolExecutor(3) as ex:
        def go(x):
            k, o = x
            if k == "fn":
                f = next(f for f in u.ov.fns if f.key == o)
                return x, race(u, f.module, f.name, PORTFOLIO, 150)
            return x, race(u, "::".join(o.split("::")[:-1]), o.split("::")[-1], PORTFOLIO, 150)
        for x, res in ex.map(go, todo):
            if res[0]:
                for lst, ent in groups[x]:
                    r[lst] = [e for e in r[lst] if e is not ent]
                r["errors"] = max(1, r["errors"] - 1)
                merge(r, res[3], 0)
            elif res[1] and not any(lst == "fails" for lst, e in groups[x]):
                # out of resources before, a definite failure now
                for g in res[2]:
                    spans = [s for s in g.get("spans", []) if s["file_name"].endswith("unit.rs")]
                    r["fails"].append((g["message"], [(q[0], q[1], s) for s in spans for q in [u.at(s["line_start"])] if q[1]], g))


def decide_main(repo, mods, timeout, smoke, rlimit, ov, threads, pid, skip):
    lost = {}
    mods = list(mods) + ["canary"]
    for attempt in range(8):
        u = Unit(ov, repo, lost, smoke, pid, skip)
        d = tempfile.mkdtemp(prefix="vprove_")
        try:
            cmd, js, diags, err, secs = verus(u, mods, d, timeout, threads, rlimit)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if js is None and err == "timeout":
            return {"status": "lost", "note": "the verifier did not end in %d s" % timeout, "unit": u, "lost": dict(u.why)}
        vr = (js or {}).get("verification-results", {})
        fails, compile_err, rl = [], [], []
        for g in diags:
            if g.get("level") != "error":
                continue
            m = g["message"]
            if m.startswith("aborting due to") or m.startswith("For more information"):
                continue
            spans = [s for s in g.get("spans", []) if s["file_name"].endswith("unit.rs")]
            ours = [s for s in spans if u.at(s["line_start"])[1]]
            locs = []
            for s in ours:
                kind, key, a = u.at(s["line_start"])
                locs.append((kind, key, s))
            if "rlimit" in m or "Resource limit" in m or "resource limit" in m:
                rl.append((m, locs, g))
            elif is_proof_failure(m) and vr.get("verified", 0) + vr.get("errors", 0) > 0:
                fails.append((m, locs, g))
            else:
                compile_err.append((m, locs, g))
        if not vr.get("verified", 0) + vr.get("errors", 0) and not compile_err:
            return {"status": "lost", "note": "no answer: " + err[-1500:], "unit": u, "lost": dict(u.why)}
        if compile_err:
            new = set()
            for m, locs, g in compile_err:
                for kind, key, s in locs:
                    if kind == "fn" and key not in u.why:
                        new.add((key, m))
            if not new:
                return {"status": "lost", "note": "does not compile: " + "; ".join((g["rendered"] or m)[:600] for m, _, g in compile_err[:4]), "unit": u, "lost": dict(u.why)}
            for k, m in new:
                lost[k] = "not accepted: " + m[:200]
            continue
        break
    else:
        return {"status": "lost", "note": "too many functions lost", "unit": u, "lost": dict(u.why)}
    return {"status": "ran", "unit": u, "cmd": cmd, "json": js, "fails": fails, "rl": rl, "lost": dict(u.why), "secs": secs, "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "compile": compile_err, "err": err}


def owner(u, locs, g):
    """The function whose obligation this is (the body or lemma, not the callee's clause)."""
    fnlocs = [(k, key, s) for k, key, s in locs]
    # Verus marks the body side as primary for assertions and calls, the clause for postconditions
    msg = g["message"]
    if not fnlocs:
        return None, None
    if "postcondition" in msg:
        for k, key, s in fnlocs:
            if "end of the function body" in (s.get("label") or "") or "at this exit" in (s.get("label") or ""):
                return k, (key if k == "fn" else key + "::" + u.item_at(s["line_start"]))
    if "precondition" in msg or "requires" in msg:
        prim = [x for x in fnlocs if x[2]["is_primary"]]
        x = (prim or fnlocs)[0]
        # primary is the call site
        return x[0], (x[1] if x[0] == "fn" else x[1] + "::" + u.item_at(x[2]["line_start"]))
    prim = [x for x in fnlocs if x[2]["is_primary"]]
    x = (prim or fnlocs)[0]
    return x[0], (x[1] if x[0] == "fn" else x[1] + "::" + u.item_at(x[2]["line_start"]))


def clause(g):
    out = []
    for s in g.get("spans", []):
        t = " ".join(x["text"].strip() for x in s.get("text", [])[:2])
        out.append(t[:160])
    return " / ".join(out)


# ---------------------------------------------------------------- per property

# property -> (level, how the statement and the contracts relate)
from prooftable import LEVELS, THEOREMS


def items_of(ov, pid):
    """Functions and lemma modules that carry the property."""
    fns = [f for f in ov.fns if pid in f.props]
    specs = []
    for name, buf, path in ov.specs:
        if pid in spec_props("\n".join(buf)):
            specs.append((name, path))
    return fns, specs


def closure(ov, pid):
    fns, specs = items_of(ov, pid)
    mods = []
    for m in [f.module for f in fns if not f.trusted] + [s[0] for s in specs]:
        if m not in mods:
            mods.append(m)
    return fns, specs, mods


def trusted_scan(u):
    """Every assumption in the rendered unit: trusted contracts, axioms, functions given by contract only."""
    out = []
    ls = u.text.split("\n")
    for i, l in enumerate(ls):
        m = re.search(r"assume_specification(?:<[^\[]*>)?\s*\[(.*)\]\(", l)
        if m:
            out.append("std contract: " + m.group(1))
        if "external_body" in l:
            for j in range(i, min(i + 6, len(ls))):
                m = re.search(r"\b(proof )?fn (\w+)", ls[j])
                if m:
                    o = u.elsewhere.get(m.group(2))
                    out.append("contract discharged by the check of %s: %s" % ("/".join(o) or "no property", m.group(2)) if o is not None else ("axiom: " if m.group(1) else "trusted function: ") + m.group(2))
                    break
                m = re.search(r"\b(struct|enum) (\w+)", ls[j])
                if m:
                    out.append("opaque type: " + m.group(2))
                    break
        if re.search(r"\b(assume|admit)\s*\(", l):
            out.append("assume: " + l.strip()[:80])
    return sorted(set(out))


def prove(pid, tier, repo=None):
    repo = repo or REPO
    ov = load()
    fns, specs, mods = closure(ov, pid)
    if not mods:
        return {"status": "none"}
    r = decide(repo, mods, ov=ov, timeout=700, threads=8, pid=pid)
    u = r["unit"]
    mine = {f.key for f in fns}
    minespec = {s[0] for s in specs}
    lost = {k: w for k, w in r["lost"].items() if k in mine or k.startswith("type ")}
    out = {"fns": sorted(f.key for f in fns if not f.trusted), "given": sorted(f.key for f in fns if f.trusted), "mods": mods, "lost": lost,
           "trusted": trusted_scan(u)}
    if r["status"] != "ran":
        out.update({"status": "lost", "note": r["note"]})
        return out
    fails, undecided, canary, texts = [], [], False, []
    for m, locs, g in r["fails"]:
        k, o = owner(u, locs, g)
        if o and o.startswith("canary"):
            canary = True
            continue
        belongs = o in mine if k == "fn" else (k == "spec" and o.split("::" + o.split("::")[-1])[0] in minespec)
        if belongs:
            fails.append("%s: %s [%s]" % (o, m, clause(g)))
            texts.append(g["rendered"] or m)
    for m, locs, g in r["rl"]:
        k, o = owner(u, locs, g)
        undecided.append("%s: %s" % (o, m))
    times, names = {}, []
    for mm in r["json"].get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in mm.get("function-breakdown", []):
            n = f.get("function", "")
            n = n[n.index("::") + 2:] if "::" in n else n
            names.append(n)
            times[n] = times.get(n, 0) + f.get("time", 0)
    out.update({"command": " ".join(r["cmd"]), "verified": r["verified"], "errors": r["errors"], "solver_ms": sum(times.values()), "secs": round(r["secs"], 1),
                "queries": len(names), "undecided": undecided})
    if not canary or r["verified"] == 0:
        out.update({"status": "lost", "note": "canary: the verifier accepted a false lemma or verified nothing"})
        return out
    if fails:
        out.update({"status": "failed", "failures": sorted(set(fails)), "output": "\n".join(texts)})
        return out
    if undecided or lost:
        out.update({"status": "lost", "note": "; ".join(undecided + ["%s: %s" % x for x in lost.items()])})
        return out
    if pid == "P15":
        import variants
        out["variants"] = v = variants.inventory(repo, ov)
        if v["not_under_contract"]:
            out.update({"status": "lost", "note": "readings under some features that have no contract: " + "; ".join(v["not_under_contract"])})
            return out
    if tier == "thorough":
        # reachability behind every precondition: assert(false) at the start of each body has to fail
        q = decide(repo, mods, ov=ov, timeout=700, smoke=True, pid=pid)
        if q["status"] == "ran":
            hit = set()
            for m, locs, g in q["fails"] + q["rl"]:
                k, o = owner(q["unit"], locs, g)
                hit.add(o)
            hit |= set(q.get("solo_hit", []))
            vac = [f.key for f in fns if not f.trusted and f.key not in hit and f.key not in q["lost"]]
            out["vacuity"] = "assert(false) at the start of %d function bodies: refuted in all but %s" % (len(out["fns"]), vac or "none")
            if vac:
                out.update({"status": "lost", "note": "unreachable bodies: " + ", ".join(vac)})
                return out
    out["status"] = "ok"
    return out


EXTRACTION = "extraction (tools/rx.py, tools/weave.py) drops attributes and cfg'd-out code and rewrites iterator adapters, slices by range, formatting macros and string matches to equivalent loops and calls; see DESIGN.md"


def evidence(pid, proof, cov):
    st = proof.get("status")
    level, expl = LEVELS.get(pid, ("exploration", ""))
    assumptions = []
    if st == "none":
        return "exploration", cov, assumptions
    c = dict(cov)
    c["rule"] = "bounded stand-in and witness search: " + c.get("rule", "")
    n = proof.get("verified", 0)
    c["obligations"] = n + max(0, proof.get("errors", 1) - 1)
    c["discharged"] = n
    c["checker_cmd"] = proof.get("command", "verus (not run)")
    c["trusted_base"] = proof.get("trusted", [])
    c["functions_under_contract"] = proof.get("fns", [])
    c["functions_given_by_contract_only"] = proof.get("given", [])
    c["modules_verified"] = proof.get("mods", [])
    c["back_end"] = "Verus 0.2026.09.13, Z3"
    c["solver_ms"] = proof.get("solver_ms", 0)
    c["solver_queries"] = proof.get("queries", 0)
    if "variants" in proof:
        v = proof["variants"]
        c["feature_readings"] = {"functions_read_under_every_choice_of_features": v["functions"], "with_several_readings_all_under_contract": v["several_readings"], "not_under_contract": v["not_under_contract"]}
    if "vacuity" in proof:
        c["vacuity"] = proof["vacuity"]
    c["explanation"] = expl
    assumptions = [EXTRACTION] + proof.get("trusted", [])
    if st == "lost":
        level = "exploration"
        c["explanation"] = "the deductive step gave no answer on this tree (%s); only the bounded exploration counts. %s" % (proof.get("note", "")[:1500], expl)
        c["lost"] = proof.get("lost", {})
    elif st == "failed":
        c["failed_obligations"] = proof["failures"]
    return level, c, assumptions


def manifest_entry(pid):
    ov = load()
    fns, specs, mods = closure(ov, pid)
    level, expl = LEVELS.get(pid, ("exploration", ""))
    if not mods:
        return ("executable property, seeded exploration", "exploration", "bounded exploration (contracts to come)")
    return ("contract-based deductive verification (Verus) of the functions in /repo, with bounded exploration as witness search", level, expl)


def main():
    """python3 prove.py [--smoke] [--rlimit N] [--dump FILE] MODULE.. : development runs."""
    a = sys.argv[1:]
    smoke = "--smoke" in a
    rl = None
    dump = None
    if "--rlimit" in a:
        i = a.index("--rlimit"); rl = a[i + 1]; del a[i:i + 2]
    if "--dump" in a:
        i = a.index("--dump"); dump = a[i + 1]; del a[i:i + 2]
    repo = REPO
    if "--repo" in a:
        i = a.index("--repo"); repo = a[i + 1]; del a[i:i + 2]
    pid = None
    if "--pid" in a:
        i = a.index("--pid"); pid = a[i + 1]; del a[i:i + 2]
    a = [x for x in a if x != "--smoke"]
    if pid and not a:
        a = closure(load(), pid)[2]
    r = decide(repo, a, smoke=smoke, rlimit=rl, pid=pid)
    u = r["unit"]
    if dump:
        open(dump, "w").write(u.text)
    print("lost:", json.dumps(r["lost"], indent=1))
    if r["status"] != "ran":
        print(r["status"], r["note"])
        return
    for m, locs, g in r["fails"] + r["rl"]:
        k, o = owner(u, locs, g)
        if o and o.startswith("canary"):
            continue
        print("FAIL", o)
        print(g["rendered"][:1800])
    for m, locs, g in r["compile"]:
        print("COMPILE", g["rendered"][:1500])
    print("verified", r["verified"], "errors", r["errors"], "%.1fs" % r["secs"])
    ts = []
    for m in r["json"]["times-ms"].get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            ts.append((f.get("time", 0), f.get("rlimit", 0), f.get("function")))
    ts.sort(reverse=True)
    print(ts[:8])


if __name__ == "__main__":
    main()
