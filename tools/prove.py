"""Runs the deductive part of a check: extracts the units from the repository, runs Verus on them, and Kani
harnesses with complete input domains on the crate itself. Nothing is remembered between runs."""
import json, os, re, subprocess, threading, time

import extract
from extract import Undecided

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def env():
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    return e


def build_indexer(scratch):
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "stable"
    t = os.path.join(scratch, "si")
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(HERE, "srcindex", "Cargo.toml"), "--target-dir", t], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("the source indexer does not build\n" + p.stdout[-3000:])
    return os.path.join(t, "debug", "srcindex")


WORKERS = 6
LONG = ["append", "scan", "session", "objects", "props", "emit"]  # these take longest: they start first


class Regions:
    """Which function of the repository a line of a unit belongs to."""

    def __init__(self, text):
        self.at = []
        cur = None
        for line in text.split("\n"):
            m = re.search(r"/\*@fn (.*?)\*/", line)
            if m:
                cur = m.group(1)
            self.at.append(cur)
            if "/*@endfn*/" in line:
                cur = None

    def of(self, n):
        return self.at[n - 1] if 0 < n <= len(self.at) else None


def verus(path, rlimit, timeout, multiple=4):
    cmd = ["verus", path, "--output-json", "--time", "--rlimit", str(rlimit), "--multiple-errors", str(multiple), "--", "--error-format=json"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env())
    except subprocess.TimeoutExpired:
        return None, [], "verus ran out of time"
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        out = json.loads(p.stdout)
    except ValueError:
        out = None
    return out, diags, p.stderr


def blame(d, reg, only=None):
    """The function an error belongs to: the primary span first, then the others."""
    spans = sorted(d["spans"], key=lambda s: not s["is_primary"])
    for s in spans:
        r = reg.of(s["line_start"])
        if r and (only is None or r in only):
            return r
    return None


def name_of(d, fn):
    s = next((s for s in d["spans"] if s["is_primary"]), d["spans"][0] if d["spans"] else None)
    extra = ""
    for x in d["spans"]:
        if x["label"] and ("failed" in x["label"] or "exit" in x["label"] or "precondition" in x["label"]):
            t = " ".join(y["text"].strip() for y in x["text"])[:160]
            extra += f" [{x['label']}: {t}]"
    t = " ".join(y["text"].strip() for y in s["text"])[:200] if s else ""
    return f"{fn}: {d['message']}: {t}{extra}"


def run_unit(name, src, contracts, baseline, scratch, tier, given=()):
    res = {"unit": name, "failed": [], "undecided": [], "output": "", "obligations": 0, "discharged": 0, "functions": [], "solver_s": 0.0, "canaries": [0, 0], "assumed": []}
    unit = extract.Unit(name)
    demote = {}
    rlimit = 40 if tier == "quick" else 100
    out = None
    for rnd in range(4):
        try:
            text = extract.build_unit(unit, src, contracts, baseline, demote=demote, given=given)
        except Undecided as e:
            res["undecided"].append(f"unit {name}: {e}")
            return res
        path = os.path.join(scratch, f"u_{name}.rs")
        open(path, "w").write(text)
        reg = Regions(text)
        out, diags, raw = verus(path, rlimit, 420 if tier == "quick" else 1500)
        live = [f for f in unit.verified if f not in demote]
        vr = out.get("verification-results") if out else None
        errs = [d for d in diags if d["level"] == "error" and d["spans"]]
        compile_failed = vr is None or vr.get("encountered-vir-error") or not vr.get("verified")
        if not compile_failed:
            break
        # the text is outside the verifier's language: leave the functions concerned out and try again
        new = set()
        for d in errs:
            f = blame(d, reg, live)
            if f:
                new.add((f, d["message"][:160]))
        if not new:
            why = errs[0]["message"][:200] if errs else raw[-300:]
            res["undecided"].append(f"unit {name}: {why}")
            res["undecided"] += [f"{k}: {v}" for k, v in demote.items()]
            return res
        for f, m in new:
            demote.setdefault(f, "not accepted by the verifier: " + m)
        out = None
    res["undecided"] += [f"{k}: {v}" for k, v in demote.items()]
    if out is None:
        res["undecided"].append(f"unit {name}: not accepted by the verifier")
        return res
    bad = set()
    for d in errs:
        f = blame(d, reg, live) or blame(d, reg)
        if "rlimit" in d["message"] or "Resource limit" in d["message"]:
            res["undecided"].append(f"{f or name}: the solver gave up")
            continue
        if f is None:
            res["undecided"].append(f"unit {name}: lemma: {name_of(d, '')}")
            continue
        bad.add(f)
        if f in src.soft or (f in src.hints and d["message"].startswith("assertion failed")):
            src.soft.setdefault(f, "an annotation is not for this exit")
            res["undecided"].append(f"{name_of(d, f)}: {src.soft[f]}")
            continue
        res["failed"].append(name_of(d, f))
        res["output"] += d.get("rendered", "") + "\n"
    # a function whose solver gave up somewhere is undecided even if some obligation of it failed as well
    gave = {u.split(": ")[0] for u in res["undecided"] if u.endswith("the solver gave up")}
    if gave:
        drop = [x for x in res["failed"] if x.split(": ")[0] in gave]
        res["failed"] = [x for x in res["failed"] if x.split(": ")[0] not in gave]
        res["undecided"] += drop
    res["functions"] = [f for f in live if f not in bad and f not in gave]
    res["assumed"] = unit.assumed
    br = [b for m in out["times-ms"]["smt"]["smt-run-module-times"] for b in m.get("function-breakdown", [])]
    res["obligations"] = len(br) + len(demote)
    res["discharged"] = sum(1 for b in br if b["success"])
    res["solver_s"] = out["times-ms"]["smt"]["smt-run"] / 1000.0
    # vacuity: with `assert(false)` at its start no function may verify
    if not errs and live:
        # the lemmas have just been proved: this run takes them as they are
        text = extract.given_lemmas(extract.build_unit(unit, src, contracts, baseline, canary=True, demote=dict(demote)))
        path = os.path.join(scratch, f"c_{name}.rs")
        open(path, "w").write(text)
        reg = Regions(text)
        cout, diags, raw = verus(path, rlimit, 420, 1)
        if cout is None or not (cout.get("verification-results") or {}).get("verified"):
            cout, diags, raw = verus(path, rlimit, 420, 1)
        if cout is None or not (cout.get("verification-results") or {}).get("verified"):
            res["undecided"].append(f"unit {name}: the vacuity run gave no answer: {raw[-300:]}")
            return res
        hit = set()
        for d in diags:
            if d["level"] == "error" and d["message"].startswith("assertion failed"):
                f = blame(d, reg, live)
                if f and any("@canary" in y["text"] for s in d["spans"] for y in s["text"]):
                    hit.add(f)
        withbody = [f for f in live if "/*@fn " + f + "*/" in text and "@canary" in text.split("/*@fn " + f + "*/")[1].split("/*@endfn*/")[0]]
        res["canaries"] = [len([f for f in withbody if f in hit]), len(withbody)]
        miss = [f for f in withbody if f not in hit]
        if miss:
            res["undecided"].append(f"unit {name}: contradictory assumptions in {', '.join(miss)}")
    return res


def all_units():
    return sorted(f[:-5] for f in os.listdir(extract.CONTRACTS) if f.endswith(".unit"))


def close(units):
    """Adds the units which verify what these units assume; returns also what is verified nowhere."""
    us = {u: extract.Unit(u) for u in all_units()}
    by = {}
    for u in us.values():
        for f in u.verified:
            by.setdefault(f, u.name)
    todo, seen, trusted = list(units), [], set()
    while todo:
        u = todo.pop(0)
        if u in seen:
            continue
        seen.append(u)
        for f in us[u].assumed:
            if f in by:
                todo.append(by[f])
            else:
                trusted.add(f)
    return seen, sorted(trusted)


TRUSTED_RE = re.compile(r"///\s*TRUSTED:?\s*(.*)")


def homes(units):
    """For every unit the lines whose lemmas it is given: each file of lemmas is proved in one unit of the run."""
    lines = {u: extract.Unit(u).lines for u in units}
    home = {}
    for u in sorted(units, key=lambda u: (len(lines[u]), u)):
        for l in lines[u]:
            if l.startswith("prelude ") or l.startswith("implextra ") and not l.endswith(" laws"):
                home.setdefault(l, u)
    return {u: {l for l in lines[u] if home.get(l, u) != u} for u in units}


def trusted_texts(units):
    out = []
    for u in units:
        for l in extract.Unit(u).lines:
            w = l.split()
            f = w[1] if w[0] == "prelude" else next(x for x in w if x.endswith(".vrs")) if w[0] == "implextra" else None
            if f:
                for m in TRUSTED_RE.finditer(extract.contract_text(f)):
                    t = f"{f}: {m.group(1)}"
                    if t not in out:
                        out.append(t)
    return out


def run(units, kani_harnesses, repo, scratch, tier):
    units, unproved = close(units)
    r = {"failed": [], "undecided": [], "output": "", "obligations": 0, "discharged": 0, "functions": [], "backends": {}, "solver_s": 0.0, "vacuity": "", "trusted": [], "cmd": "", "dropped": []}
    can = [0, 0]
    if units:
        indexer = build_indexer(scratch)
        contracts = extract.parse_contracts()
        bp = os.path.join(extract.CONTRACTS, "baseline.json")
        baseline = json.load(open(bp)) if os.path.exists(bp) else {}
        try:
            src = extract.Source(repo, indexer)
        except Undecided as e:
            r["undecided"].append(str(e))
            src = None
        if src:
            results = {}
            given = homes(units)
            sem = threading.Semaphore(WORKERS)
            exc = []

            def work(u):
                with sem:
                    try:
                        results[u] = run_unit(u, src, contracts, baseline, scratch, tier, given[u])
                    except Exception:  # noqa: BLE001
                        import traceback

                        exc.append(traceback.format_exc())

            ths = [threading.Thread(target=work, args=(u,)) for u in sorted(units, key=lambda u: -os.path.getsize(os.path.join(extract.CONTRACTS, u + '.unit')) if u not in LONG else -10**9 + LONG.index(u))]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if exc:
                raise RuntimeError(exc[0])
            for u in units:
                x = results[u]
                for k in ("failed", "undecided"):
                    r[k] += [y for y in x[k] if y not in r[k]]
                r["output"] += x["output"]
                r["obligations"] += x["obligations"]
                r["discharged"] += x["discharged"]
                r["solver_s"] += x["solver_s"]
                r["functions"] += [f"{f} (verus, unit {u})" for f in x["functions"]]
                can[0] += x["canaries"][0]
                can[1] += x["canaries"][1]
                r["backends"][f"verus/z3 unit {u}"] = x["discharged"]
        r["cmd"] = "verus <unit extracted from /repo/src> for units " + ", ".join(units)
        r["trusted"] += [f"contract assumed, not proved: {f}" for f in unproved] + trusted_texts(units)
        r["dropped"] = ["doc comments, attributes, visibility and module paths are dropped", "std adaptors unknown to the verifier are replaced by functions defined in the preludes", "messages of assert!, panic! and format! are dropped", "`for` loops marked `desugar` are written out as `loop { match it.next() .. }`"]
    if kani_harnesses:
        import kani

        x = kani.run(kani_harnesses, repo, scratch, tier)
        for k in ("failed", "undecided", "functions", "trusted"):
            r[k] += x[k]
        r["output"] += x["output"]
        r["obligations"] += x["obligations"]
        r["discharged"] += x["discharged"]
        r["solver_s"] += x["solver_s"]
        r["backends"]["kani/cbmc"] = x["discharged"]
        r["cmd"] += ("; " if r["cmd"] else "") + x["cmd"]
    r["vacuity"] = f"{can[0]} of {can[1]} functions reject `assert(false)` at their start"
    r["solver_s"] = round(r["solver_s"], 2)
    return r


if __name__ == "__main__":
    import sys, tempfile, shutil

    s = tempfile.mkdtemp(prefix="vp-")
    try:
        x = run(sys.argv[1].split(","), [], os.environ.get("VERIF_REPO", "/repo"), s, "quick")
        x["output"] = x["output"][:3000]
        print(json.dumps(x, indent=1))
    finally:
        shutil.rmtree(s)
