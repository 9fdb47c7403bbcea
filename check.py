#!/usr/bin/env python3
"""Decide one property of /repo: deductive proof of the extracted code, then bounded exploration.

usage: check.py ID [--tier quick|thorough]
exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; anything else: an error.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
REPO = os.environ.get("VERIF_REPO", "/repo")


def env():
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    return e


def cargo_build(manifest, target):
    """Build a crate of /verif against REPO; returns (ok, output)."""
    cmd = ["cargo", "build", "--offline", "--manifest-path", manifest, "--target-dir", target]
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout


class Engine:
    """The bounded part: the real crate through its public API against an independent model."""

    def __init__(self, prop, scratch):
        self.prop, self.scratch = prop, scratch
        self.bin = os.path.join(scratch, "target", "debug", "engine")
        self.build_s = 0.0

    def build(self):
        t = time.time()
        ok, out = cargo_build(os.path.join(HERE, "engine", "Cargo.toml"), os.path.join(self.scratch, "target"))
        self.build_s = time.time() - t
        if not ok:
            raise RuntimeError("the exploration engine does not build against " + REPO + "\n" + out[-4000:])

    def run(self, seed, secs, threads):
        prog = os.path.join(self.scratch, "progress")
        cmd = ["bash", "-c", "ulimit -v 12000000; ulimit -c 0; exec \"$@\"", "-", self.bin, "run", self.prop, str(seed), str(secs), str(threads), prog]
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 200)
        line = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ""
        try:
            return json.loads(line)
        except ValueError:
            pass
        # The process died: the cases it was working on are in the progress files. Try each by itself.
        for t in range(threads):
            try:
                c = int.from_bytes(open(f"{prog}.{t}", "rb").read(8), "little")
            except OSError:
                continue
            if c == 2**64 - 1:
                continue
            q = subprocess.run(cmd[:4] + [self.bin, "replay", self.prop, str(seed), str(c)], env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
            if q.returncode != 0:
                return {"fail": True, "case": c, "error": f"the process ended with status {q.returncode}: {q.stderr[-300:]}", "text": q.stdout[-4000:], "evaluations": 0, "distinct": 0, "samples": []}
        raise RuntimeError(f"the engine ended with status {p.returncode} and no case reproduces it: {p.stderr[-2000:]}")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = json.load(open(os.path.join(HERE, "plan.json")))[prop]
    scratch = tempfile.mkdtemp(prefix="vx-")
    try:
        return decide(prop, tier, seed, plan, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, plan, scratch, t0):
    eng = Engine(prop, scratch)
    result = {}
    errors = []

    def proof():
        try:
            import prove
            result["proof"] = prove.run(plan.get("units", []), plan.get("kani", []), REPO, scratch, tier)
        except Exception as e:  # noqa: BLE001
            import traceback
            errors.append("proof: " + traceback.format_exc())

    th = threading.Thread(target=proof)
    if plan.get("units") or plan.get("kani"):
        th.start()
        started = True
    else:
        started = False
    eng.build()
    secs = plan.get("secs", {"quick": 25, "thorough": 300})[tier]
    r = eng.run(seed, secs, 6)
    if started:
        th.join()
    if errors:
        # The prover itself broke: nothing is proved on this run, the bounded part still decides.
        print(errors[0], file=sys.stderr)
        result["proof"] = {"failed": [], "undecided": ["the proof driver failed: " + errors[0].strip().splitlines()[-1]], "output": errors[0], "obligations": 0, "discharged": 0,
                           "functions": [], "backends": {}, "solver_s": 0, "vacuity": "", "trusted": [], "cmd": "(failed)", "dropped": []}
    pr = result.get("proof")
    # An obligation that is not discharged: look longer for a concrete input.
    if not r["fail"] and pr and (pr["failed"] or pr["undecided"]) and tier == "quick":
        r2 = eng.run(seed + 1, plan.get("more_secs", 90), 8)
        for k in ("evaluations", "distinct"):
            r2[k] += r[k]
        r2["samples"] = r["samples"] + r2["samples"]
        if r2["fail"]:
            r2["seed"] = seed + 1
        r = r2
    return report(prop, tier, seed, plan, r, pr, eng, t0)


def report(prop, tier, seed, plan, r, pr, eng, t0):
    known = known_findings(prop)
    violation = None
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rp = os.path.join(HERE, "replays", f"{prop}.txt")
    if r["fail"]:
        s = r.get("seed", seed)
        hit = next((k for k in known if k in r["error"]), None)
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit}")
        else:
            with open(rp, "w") as f:
                f.write(f"property {prop}\nseed {s}\ncase {r['case']}\nerror {r['error']}\n")
                f.write(f"replay: cargo run --offline --manifest-path {HERE}/engine/Cargo.toml -- replay {prop} {s} {r['case']}\n\n{r['text']}\n")
                if pr and pr["failed"]:
                    f.write("\nfailed obligations:\n" + "\n".join(pr["failed"]) + "\n")
            violation = f"VIOLATION property={prop} replay={rp}"
    if violation is None and pr and pr["failed"]:
        with open(rp, "w") as f:
            f.write(f"property {prop}\nfailed obligations:\n" + "\n".join(pr["failed"]) + "\n\nverifier output:\n" + pr["output"][:200000] + "\n")
        violation = f"VIOLATION property={prop} replay={rp} no-failing-input-found"
    cov = {
        "evaluations": r["evaluations"],
        "distinct_nontrivial": r["distinct"],
        "rule": plan["rule"],
        "samples": [s[:1500] for s in r["samples"]] or ["(none short enough to print)"],
        "exhaustive": False,
    }
    level = plan["level"]
    assumptions = list(plan.get("assumptions", []))
    if pr:
        cov.update(
            obligations=pr["obligations"], discharged=pr["discharged"], checker_cmd=pr["cmd"], trusted_base=pr["trusted"],
            functions_under_contract=pr["functions"], backends=pr["backends"], solver_time_s=pr["solver_s"],
            undecided=pr["undecided"], vacuity=pr["vacuity"], dropped_by_extraction=pr["dropped"],
        )
    else:
        cov["explanation"] = "bounded exploration only"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    if pr:
        print(f"{prop}: {pr['discharged']}/{pr['obligations']} obligations discharged over {len(pr['functions'])} functions; undecided: {pr['undecided'] or 'none'}")
    print(f"{prop}: {r['evaluations']} cases explored, {r['distinct']} distinct and non-trivial ({time.time()-t0:.0f} s)")
    if violation:
        if r["fail"]:
            print(r["error"][:500])
        print(violation)
        return 1
    return 0


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p):
        m = re.match(r"KNOWN-FINDING: property=(\w+) (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


if __name__ == "__main__":
    sys.exit(main())
