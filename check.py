#!/usr/bin/env python3
"""Decides one property of /repo with Kani/CBMC and writes its evidence.

    python3 check.py C01 [--tier quick|thorough]

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; exit 2: no answer.
"""
import argparse
import concurrent.futures as cf
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402

# the crate with the property's harnesses, and how Kani is called for it
CRATE = dict(name="kani", dir=os.path.join(ROOT, "harness"), flags=[], cbmc=[])
TARGET = os.path.join(ROOT, ".target")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_BUILD_TARGET", None)
PATHS = ["/usr/local/bin", "/root/.cargo/bin"]
ENV["PATH"] = ":".join([ENV.get("PATH", "/usr/bin:/bin")] + PATHS)
START = time.time()
LOCK = threading.Lock()


def say(*a):
    with LOCK:
        print(*a, flush=True)


LIVE = set()
STOP = threading.Event()


def run(cmd, timeout, env=None, inp=None):
    """Runs a command in a process group of its own and ends the group when time is up."""
    with LOCK:
        if STOP.is_set():
            return None, "stopped"
        p = subprocess.Popen(cmd, cwd=CRATE["dir"], env=env or ENV, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        LIVE.add(p)
    try:
        out, _ = p.communicate(inp, timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out or ""
    finally:
        with LOCK:
            LIVE.discard(p)


def stop_all():
    """A reproduced violation settles the property: ends what is still running."""
    with LOCK:
        STOP.set()
        for p in LIVE:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass


# --------------------------------------------------------------------------- Kani

WORKER = threading.local()
WORKERS = itertools.count()


def kani_env(touch):
    """A target directory for each worker: cargo locks it while it compiles."""
    if not hasattr(WORKER, "n"):
        WORKER.n = next(WORKERS)
    return dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, "%s%s-%d" % (CRATE["name"], "-touch" if touch else "", WORKER.n)))


def kani_cmd(touch, extra):
    # reachability is asked by the harnesses' own cover statements
    return ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options", "--no-assertion-reach-checks"] + (
        ["--features", "touch"] if touch else []) + CRATE["flags"] + extra + (["--cbmc-args"] + CRATE["cbmc"] if CRATE["cbmc"] and "--only-codegen" not in extra else [])


def codegen(touch, name):
    """Builds /repo's current sources and the harnesses; every harness is translated again by its own run."""
    rc, out = run(kani_cmd(touch, ["--only-codegen"] + (["--exact", "--harness", "proofs::" + name] if name else [])),
                  600, kani_env(touch))
    if rc != 0:
        say(out[-6000:])
        say("NO-ANSWER: the harnesses do not build against /repo")
        sys.exit(2)


CHECK = re.compile(r"^Check \d+: (\S.*)\n\s*- Status: (\w+)\n\s*- Description: \"(.*)\"(?:\n\s*- Location: (.*))?", re.M)


class Res:
    """The verdict of one harness."""

    def __init__(self, name):
        self.name = name
        self.status = "error"  # ok, failed, timeout, unwind, error
        self.failed = []       # (description, location)
        self.covers = {}
        self.checks = 0
        self.stat = {}
        self.functions = set()
        self.unwind = None
        self.wall = 0.0
        self.out = ""


def parse(r, rc, out):
    r.out = out
    if rc is None or "CBMC timed out" in out:
        r.status = "timeout"
        return
    seen = {}
    unw = False
    for m in CHECK.finditer(out):
        name, status, desc, loc = m.groups()
        loc = (loc or "").replace("../../repo/", "/repo/")
        fm = re.search(r"in function (.*)$", loc)
        if fm and "/repo/" in loc:
            r.functions.add(fm.group(1))
        if ".cover." in name or status in ("SATISFIED", "UNSATISFIABLE"):
            r.covers[desc] = r.covers.get(desc, False) or status == "SATISFIED"
            continue
        r.checks += 1
        if status == "FAILURE":
            if "unwinding assertion" in desc or ".recursion" in name or "recursion unwinding" in desc:
                unw = True
            else:
                r.failed.append((desc, loc))
    num = lambda pat: [float(x) for x in re.findall(pat, out)]
    vc = re.search(r"(\d+) variables, (\d+) clauses", out)
    g = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", out)
    r.stat = dict(
        symex_s=round(sum(num(r"Runtime Symex: ([\d.e-]+)s")), 3),
        solver_s=round(sum(num(r"Runtime Solver: ([\d.e-]+)s")), 3),
        decision_s=round(sum(num(r"Runtime decision procedure: ([\d.e-]+)s")), 3),
        solver_calls=len(num(r"Runtime Solver: ([\d.e-]+)s")),
        steps=int((num(r"size of program expression: (\d+) steps") or [0])[-1]),
        variables=int(vc.group(1)) if vc else 0,
        clauses=int(vc.group(2)) if vc else 0,
        vccs=int(g.group(1)) if g else 0,
        vccs_to_solver=int(g.group(2)) if g else 0,
        solver=(re.findall(r"(?:Solving with|Passing problem to) (\S.*)", out) or ["?"])[-1],
    )
    if "VERIFICATION:- SUCCESSFUL" in out:
        r.status = "ok"
    elif r.failed:
        r.status = "failed"
    elif unw:
        r.status = "unwind"
    elif "VERIFICATION:- FAILED" in out:
        r.status = "error"


def kani(name, touch, budget, unwind=None, playback=False):
    r = Res(name)
    t = time.time()
    extra = ["--exact", "--harness", "proofs::" + name]
    if unwind:
        extra += ["--unwind", str(unwind)]
    if playback:
        extra += ["-Z", "concrete-playback", "--concrete-playback=print"]
    rc, out = run(kani_cmd(touch, extra), max(5, budget), kani_env(touch))
    parse(r, rc, out)
    r.unwind = unwind
    r.wall = round(time.time() - t, 2)
    return r


def decide(name, touch, budget):
    """One harness; when only the loop bound was too small, again with a larger one."""
    end = time.time() + budget
    r = kani(name, touch, budget)
    for u in (40, 130):
        if r.status != "unwind" or end - time.time() < 10:
            break
        r = kani(name, touch, end - time.time(), unwind=u)
    return r


# --------------------------------------------------------------------------- replay

PROFILES = [("dev", []), ("release", ["--release"])]


def build_replay(touch):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TARGET, (CRATE["name"] + "-" if CRATE["name"] != "kani" else "") + ("native-touch" if touch else "native")),
               RUSTUP_TOOLCHAIN="stable")
    bins = {}
    for prof, flag in PROFILES:
        rc, out = run(["cargo", "build", "--offline", "--bin", "replay"] + flag
                      + (["--features", "touch"] if touch else []), 300, env)
        if rc != 0:
            say(out[-3000:])
            say("NO-ANSWER: the replay binary does not build")
            sys.exit(2)
        bins[prof] = os.path.join(env["CARGO_TARGET_DIR"], "debug" if prof == "dev" else "release", "replay")
    return bins


def playback_inputs(out):
    """The input words of the generated unit tests, failing checks first, covers left out."""
    res = []
    for blk in re.findall(r"```\n(.*?)```", out, re.S):
        kind = re.search(r"/// Check for `?(\w+)`?: \"(.*)\"", blk)
        if kind and kind.group(1) == "cover":
            continue
        m = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", blk, re.S)
        if not m:
            continue
        words = [w for w in re.findall(r"vec!\[([\d, ]*)\]", m.group(1))]
        res.append((kind.group(2) if kind else "?", words))
    return res


def replay(prop, name, touch, res, budget, bins, wanted):
    """Replays the solver's counterexamples against the real code. Returns a replay file or None."""
    r = kani(name, touch, budget, unwind=res.unwind, playback=True)
    inputs = playback_inputs(r.out)
    inputs.sort(key=lambda x: x[0] not in wanted)
    say("  %s: %d counterexample(s) from the solver" % (name, len(inputs)))
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    for k, (desc, words) in enumerate(inputs[:40]):
        text = "".join(w + "\n" for w in words)
        seen = []
        for prof, _ in PROFILES:
            rc, out = run([bins[prof], name], 30, inp=text)
            # 101: a failed check or a panic; None: no end; below 0: a signal
            if rc is None or rc == 101 or rc < 0:
                seen.append((prof, "no end within 30 s" if rc is None else out.strip()[-600:]))
        if seen:
            path = os.path.join(d, "%s-%s.txt" % (prop, name))
            with open(path, "w") as f:
                f.write("# property %s, harness %s%s\n# failing check: %s\n" % (prop, name, " (touch)" if touch else "", desc))
                for prof, o in seen:
                    f.write("".join("# %s build: %s\n" % (prof, line) for line in o.splitlines()))
                f.write("# replay: cd %s && cargo run --offline --bin replay%s -- %s < this file\n" % (
                    CRATE["dir"], " --features touch" if touch else "", name))
                f.write(text)
            return path, desc, [p for p, _ in seen]
    return None


# --------------------------------------------------------------------------- known findings

def known():
    """known_findings.json: harness -> failing checks already recorded for it."""
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        k = json.load(f)
    return [e for e in k["findings"]]


# --------------------------------------------------------------------------- main

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only check that the harnesses translate")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS") or os.cpu_count() or 4))
    a = ap.parse_args()
    if a.setup:
        codegen(False, None)
        say("harnesses translate")
        return
    prop = a.prop
    P = PROPS[prop]
    touch = P.get("touch", False)
    if "crate" in P:
        CRATE.update(P["crate"], dir=os.path.join(ROOT, P["crate"]["dir"]))
    a.jobs = min(a.jobs, P.get("jobs", a.jobs))
    names = list(P["quick"]) + (list(P.get("thorough", [])) if a.tier == "thorough" else [])
    total = 780 if a.tier == "quick" else 3000
    per = P.get("budget", 420) if a.tier == "quick" else 2400
    kf = [e for e in known() if e["property"] == prop]
    kf_names = sorted({e["harness"] for e in kf if e["harness"] not in names})

    codegen(touch, names[0])
    results, fresh = {}, {}
    violations, noanswer, findings = [], [], []
    turn = threading.Lock()
    bins = []

    def examine(n, r):
        """Replays what is new in a failed harness; a reproduced violation ends the whole check."""
        listed = {e["check"]: e for e in kf if e["harness"] == n}
        new = sorted({x for x in r.failed if x[0] not in listed})
        fresh[n] = new
        if not new:
            return
        say("  %s: failed check(s): %s" % (n, "; ".join(sorted({x[0] for x in new}))[:1500]))
        with turn:
            if STOP.is_set():
                return
            if not bins:
                bins.append(build_replay(touch))
            got = replay(prop, n, touch, r, max(60, total + 60 - (time.time() - START)), bins[0], {x[0] for x in new})
            if got:
                violations.append((n,) + got)
                stop_all()
            elif not STOP.is_set():
                noanswer.append("%s: counterexample did not reproduce on the real code: %s" % (
                    n, "; ".join("%s (%s)" % x for x in new)[:800]))

    def job(n):
        left = total - (time.time() - START)
        r = decide(n, touch, min(per, left))
        if STOP.is_set():
            r.status = "stopped" if r.status != "failed" else r.status
            return n, r
        say("  %-22s %-8s %4d checks  %6.1f s%s" % (n, r.status, r.checks, r.wall,
            "" if r.unwind is None else "  (unwind %d)" % r.unwind))
        if r.status == "failed":
            examine(n, r)
        return n, r

    todo = names + kf_names
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for n, r in ex.map(job, todo):
            results[n] = r
    # smaller stand-ins for harnesses whose solver ran out of time
    reduced = []
    for n in list(names):
        alt = P.get("fallback", {}).get(n)
        if alt and results[n].status == "timeout" and not STOP.is_set():
            with cf.ThreadPoolExecutor(a.jobs) as ex:
                for m, r in ex.map(job, [x for x in alt if x not in results]):
                    results[m] = r
            if all(results[x].status != "timeout" for x in alt):
                reduced.append(n)
                names.remove(n)
                names += [x for x in alt if x not in names]

    for n in names + kf_names:
        r = results[n]
        listed = {e["check"]: e for e in kf if e["harness"] == n}
        if r.status == "ok":
            if not r.covers.get("harness end", False):
                noanswer.append("%s: vacuous, no input reaches its end" % n)
            for e in listed.values():
                say("note: known finding no longer observed: %s" % e["id"])
        elif r.status == "failed":
            for d in sorted({x[0] for x in r.failed if x[0] in listed}):
                findings.append(listed[d])
        elif not STOP.is_set():
            say(r.out[-1500:])
            noanswer.append("%s: %s" % (n, r.status))

    for e in {e["id"]: e for e in findings}.values():
        say("KNOWN-FINDING: property=%s %s: %s" % (prop, e["id"], e["what"]))
    for n, path, desc, profs in violations:
        say("  broken: %s (harness %s, reproduced in %s build)" % (desc, n, "/".join(profs)))
        say("VIOLATION property=%s replay=%s" % (prop, path))
    for x in noanswer:
        say("NO-ANSWER: " + x)
    evidence(prop, P, a.tier, names, kf_names, results, reduced, violations, noanswer, findings)
    sys.exit(1 if violations else 2 if noanswer else 0)


def evidence(prop, P, tier, names, kf_names, results, reduced, violations, noanswer, findings):
    ran = [results[n] for n in names]
    ok = [r for r in ran if r.status == "ok"]
    functions = sorted(set().union(*[r.functions for r in ran]) if ran else [])
    per = {r.name: dict(status=r.status, checks=r.checks, wall_s=r.wall,
                        covers_reached=sum(r.covers.values()), covers_unreachable=sorted(k for k, v in r.covers.items() if not v),
                        **r.stat) for r in [results[n] for n in names + kf_names]}
    cov = dict(
        explanation="Kani translated the listed functions of /repo's current sources to a CBMC program in which every "
                    "input word is a solver variable; CBMC unrolled it to the stated bounds (each bound is itself an "
                    "obligation) and the solver showed every check to hold for all values, or gave a counterexample "
                    "that was replayed natively.",
        bounds=P["bounds"],
        outside=P.get("outside", ""),
        harnesses=len(ran),
        harnesses_proved=len(ok),
        obligations=sum(r.checks for r in ran),
        discharged=sum(r.checks for r in ok),
        reachability_witnesses=sum(sum(r.covers.values()) for r in ran),
        functions_encoded=functions,
        functions_encoded_count=len(functions),
        vccs_generated=sum(r.stat.get("vccs", 0) for r in ran),
        vccs_to_solver=sum(r.stat.get("vccs_to_solver", 0) for r in ran),
        solver_calls=sum(r.stat.get("solver_calls", 0) for r in ran),
        solver_s=round(sum(r.stat.get("solver_s", 0) for r in ran), 3),
        symex_s=round(sum(r.stat.get("symex_s", 0) for r in ran), 3),
        reduced_bounds=reduced,
        per_harness=per,
        checker_cmd=" ".join(kani_cmd(P.get("touch", False), ["--exact", "--harness", "proofs::<harness>"])) + " (in %s)" % CRATE["dir"],
        trusted_base=["rustc's MIR and Kani's translation of it", "CBMC 6.11.0 and its SAT/SMT back ends",
                      "the specification in /verif/harness, written from the Intel SDM and AMD APM layouts"],
        known_findings=sorted({e["id"] for e in findings}),
        no_answer=noanswer,
    )
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED") or 1), level="other", coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - START, 1), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
