"""Common machinery of the checks: runs the back ends on /repo's current tree, collects obligations,
decides the outcome, writes evidence.

Outcome of an obligation
  proved      the back end accepted it for all inputs (no bound)
  bounded     it was checked up to a stated bound only (never counted as proved)
  failed      the back end rejected it
  undecided   the back end gave no verdict (construct out of reach, resource limit, lost anchor)

Outcome of a check
  a failed obligation            -> VIOLATION (exit 1), with a replayed failing input where one exists
  a native counterexample        -> VIOLATION (exit 1)
  only undecided obligations     -> their bounded stand-in decides; exit 0 if it passes, and the evidence
                                    file says which obligations were not discharged
  nothing could be run at all    -> exit 2 (an error of the check, not a verdict)
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.environ.get("VERIF_TARGET", f"{VERIF}/.target")
WORK = os.environ.get("VERIF_WORK", f"{VERIF}/.work")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


def sh(cmd, timeout=None, env=None, cwd=None):
    """Runs a command in its own process group; returns (rc, stdout, stderr, seconds); rc None on timeout."""
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUST_BACKTRACE": "0"})
    e.update(env or {})
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err, time.time() - t


class Check:
    def __init__(self, prop, budget=840):
        self.prop = prop
        self.t0 = time.time()
        self.budget = budget
        self.obs = []          # dicts: name, backend, status, detail, function, seconds
        self.violations = []   # dicts: obligation, replay, found
        self.known = []
        self.trusted = []
        self.assumptions = []
        self.cmds = []
        self.notes = []
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.functions = []
        self.ran = False       # did anything decide anything?
        self.findings = load_known(prop)

    def left(self):
        return max(5, self.budget - (time.time() - self.t0))

    def add(self, name, backend, status, detail="", function="", seconds=0.0):
        self.obs.append(dict(name=name, backend=backend, status=status, detail=detail[-2000:],
                             function=function, seconds=round(seconds, 3)))
        if status in ("proved", "bounded", "failed"):
            self.ran = True

    def violation(self, obligation, data, found):
        """Reports a violation unless exactly this input is a listed finding."""
        for f in self.findings:
            if f["obligation"] == obligation and (f.get("input") is None or f["input"] == data.get("input")):
                self.known.append((obligation, f["what"]))
                return
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        h = hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:8]
        safe = re.sub(r"[^A-Za-z0-9_.-]", "_", obligation)[:80]
        path = f"{VERIF}/replays/{self.prop}-{safe}-{h}.json"
        data = dict(property=self.prop, obligation=obligation, failing_input_found=found, **data)
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=str)
        self.violations.append(dict(obligation=obligation, replay=path, found=found))

    def finish(self, level="proof"):
        proved = [o for o in self.obs if o["status"] == "proved"]
        bounded = [o for o in self.obs if o["status"] == "bounded"]
        undecided = [o for o in self.obs if o["status"] == "undecided"]
        failed = [o for o in self.obs if o["status"] == "failed"]
        with open(f"{VERIF}/MANIFEST.json") as f:
            level = next((c["level"] for c in json.load(f)["checks"] if c["property"] == self.prop), level)
        backends = {}
        for o in self.obs:
            b = backends.setdefault(o["backend"], dict(obligations=0, proved=0, bounded=0, seconds=0.0))
            b["obligations"] += 1
            b["proved"] += o["status"] == "proved"
            b["bounded"] += o["status"] == "bounded"
            b["seconds"] = round(b["seconds"] + o["seconds"], 3)
        cov = dict(
            obligations=len(proved) + len(failed) + len(undecided),
            discharged=len(proved),
            bounded_obligations=len(bounded),
            undecided=[dict(name=o["name"], backend=o["backend"], why=o["detail"][-300:]) for o in undecided],
            failed=[o["name"] for o in failed],
            checker_cmd=" && ".join(dict.fromkeys(self.cmds)) or "none",
            trusted_base=sorted(set(self.trusted)),
            functions_under_contract=sorted(set(self.functions) | {o["function"] for o in self.obs if o["function"]}),
            back_ends=backends,
            discharged_obligations=[o["name"] for o in proved][:400],
            bounded_names=[dict(name=o["name"], bound=o["detail"][:200]) for o in bounded][:200],
            solver_seconds=round(sum(o["seconds"] for o in self.obs), 2),
            notes=self.notes,
            evaluations=self.evaluations,
            distinct_nontrivial=self.distinct,
            rule="an evaluation is one concrete execution of a contract on the real code with pseudo-random, boundary-biased "
                 "inputs; it is distinct and non-trivial when it met the preconditions, reached the postconditions and its "
                 "inputs differ from every other run of that contract (symbolic obligations are counted separately)",
            samples=(self.samples or [o["name"] for o in (proved + bounded)][:5]),
        )
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.prop}: {len(proved)} proved, {len(bounded)} bounded, {len(undecided)} undecided, "
              f"{len(failed)} failed; {self.evaluations} concrete executions; {ev['wall_s']} s")
        for o in undecided:
            print(f"  undecided: {o['name']} [{o['backend']}] {o['detail'][-200:].strip()}")
        for o, what in dict(self.known).items():
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        for v in self.violations:
            tail = "" if v["found"] else " no-failing-input-found"
            print(f"VIOLATION property={self.prop} replay={v['replay']}{tail}")
        if self.violations:
            sys.exit(1)
        if not self.ran:
            print(f"{self.prop}: no back end could run; no verdict")
            sys.exit(2)
        sys.exit(0)


def load_known(prop):
    p = f"{VERIF}/known_findings.json"
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f).get("open", []) if x["property"] == prop]


# ---------------------------------------------------------------- Kani

def _native(ck, crate, args, timeout):
    env = {"CARGO_TARGET_DIR": f"{TARGET}/kn_{crate}"}
    rc, out, err, s = sh(["cargo", "build", "--offline", "-q"], timeout=min(400, ck.left()), env=env,
                         cwd=f"{VERIF}/kani/{crate}")
    if rc != 0:
        return None, (err or "timeout")[-3000:]
    exe = f"{TARGET}/kn_{crate}/debug/kani_{crate}"
    rc, out, err, s = sh([exe] + args, timeout=timeout)
    return out, err


def kani(ck, crate, function, prefix="", timeout=600, exhaustive_search=20000):
    """Proves every harness of /verif/kani/<crate> with Kani; replays failures natively on the real code."""
    cwd = f"{VERIF}/kani/{crate}"
    env = {"CARGO_TARGET_DIR": f"{TARGET}/kani_{crate}"}
    ck.cmds.append(f"cd {cwd} && cargo kani -j 8 --output-format=terse")
    ck.trusted += ["Kani 0.68 and CBMC/CaDiCaL (code generation, bit-blasting, SAT)", "rustc's MIR for the real source"]
    names = None
    out, err = _native(ck, crate, ["list"], 30)
    native_ok = out is not None
    if native_ok:
        names = out.split()
        # concrete executions first: they are cheap and give replayable inputs
        n = exhaustive_search * (10 if THOROUGH else 1)
        out, _ = _native(ck, crate, ["search", str(SEED), str(n)], min(200, ck.left()))
        refuted = {}
        for l in (out or "").splitlines():
            m = re.match(r"(PASS|FAIL) (\S+) (.*)", l)
            if m and m[1] == "PASS":
                ck.evaluations += int(m[3].split("=")[1])
            elif m:
                refuted[m[2]] = m[3]
        for h, d in refuted.items():
            vals = re.search(r"values=(\S*)", d)[1]
            ck.add(h, "native execution", "failed", d, function)
            ck.violation(h, dict(backend="native execution of the contract on the real code", input=vals, message=d,
                                 how_to_replay=f"cd {cwd} && cargo run --offline -- replay {h} {vals}"), True)
    else:
        ck.notes.append(f"native harness build failed: {err[-500:]}")
        refuted = {}
    if refuted:
        for h in names or []:
            if h not in refuted:
                ck.add(h, "native execution", "bounded", f"{exhaustive_search} concrete executions", function)
        return
    rc, out, err, s = sh(["cargo", "kani", "-j", "8", "--output-format=terse"], timeout=min(timeout, ck.left()), env=env, cwd=cwd)
    res = parse_kani(out)
    if not res and rc != 0:
        why = (err[-1500:] if rc is not None else "timed out")
        ck.notes.append("kani gave no result: " + why[-600:])
    for h in (names or sorted(res)):
        r = res.get(h)
        if r is None:
            ck.add(h, "kani", "undecided", "no verdict from Kani", function)
            if native_ok:
                ck.add(h + " [stand-in]", "native execution", "bounded", f"{exhaustive_search} concrete executions", function)
        elif r["ok"] and r["cover_ok"]:
            ck.add(h, "kani", "proved", "", function, r["time"])
        elif r["ok"]:
            ck.add(h, "kani", "undecided", "a reachability cover was not satisfied (vacuity guard)", function, r["time"])
        else:
            hard = [d for d in r["failed"] if not re.search(r"unwinding assertion|unsupported|not currently supported|recursion", d)]
            if not hard:
                ck.add(h, "kani", "undecided", "; ".join(r["failed"]), function, r["time"])
                if native_ok:
                    ck.add(h + " [stand-in]", "native execution", "bounded", f"{exhaustive_search} concrete executions", function)
                continue
            ck.add(h, "kani", "failed", "; ".join(hard), function, r["time"])
            vals = kani_values(ck, cwd, env, h)
            d = dict(backend="kani", failed_checks=hard, input=vals)
            found = False
            if native_ok and vals is not None:
                o2, _ = _native(ck, crate, ["replay", h, vals], 60)
                found = bool(o2 and "FAIL" in o2)
                d["native_replay"] = o2
                d["how_to_replay"] = f"cd {cwd} && cargo run --offline -- replay {h} {vals}"
            if not found and native_ok:
                o2, _ = _native(ck, crate, ["search", str(SEED + 1), "300000", h], 60)
                m = re.search(r"FAIL \S+ values=(\S*)", o2 or "")
                if m:
                    found = True
                    d.update(input=m[1], native_replay=o2)
            ck.violation(h, d, found)


def parse_kani(out):
    res, cur = {}, {}
    who = None
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (?:[\w:]*::)?(\w+)\.\.\.", l)
        if m:
            cur[m[1]] = m[2]
            if m[1] is None:
                who = m[2]
                res[who] = dict(ok=None, cover_ok=True, failed=[], time=0.0)
            continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m:
            who = cur.get(m[1])
            res[who] = dict(ok=None, cover_ok=True, failed=[], time=0.0)
            continue
        if who is None or who not in res:
            continue
        m = re.match(r"\s*Failed Checks: (.*)", l)
        if m:
            res[who]["failed"].append(m[1])
        m = re.search(r"(\d+) of (\d+) cover properties satisfied", l)
        if m and m[1] != m[2]:
            res[who]["cover_ok"] = False
        if "VERIFICATION:- SUCCESSFUL" in l:
            res[who]["ok"] = True
        if "VERIFICATION:- FAILED" in l:
            res[who]["ok"] = False
        m = re.match(r"Verification Time: ([\d.]+)s", l)
        if m:
            res[who]["time"] = float(m[1])
    return {k: v for k, v in res.items() if v["ok"] is not None}


def kani_values(ck, cwd, env, h):
    rc, out, err, s = sh(["cargo", "kani", "--harness", h, "-Z", "concrete-playback", "--concrete-playback=print"],
                         timeout=min(300, ck.left()), env=env, cwd=cwd)
    m = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S)
    if not m:
        return None
    vals = []
    for v in re.findall(r"vec!\[([\d, ]*)\]", m[1]):
        vals.append("".join("%02x" % int(x) for x in v.split(",") if x.strip()))
    return ",".join(vals)


def main(fn):
    fn()


# ---------------------------------------------------------------- symbolic execution of the real code

FORKS = ("zero tests on anything but the challenge points take the nonzero side: a stored zero and an omitted one "
         "denote the same polynomial (contract of sparse::Polynomial, discharged under C07)",
         "the repr of a non-constant symbolic value is an uninterpreted injective function of its normal form (used for fingerprints)")
HOOK = {"RAGU_VERIF_HOOKS": f"{VERIF}/hooks", "RUSTFLAGS": "--cfg ragu_verif --cap-lints warn"}


def symbolic(ck, crate, n=300, timeout=700, hook=False, only=None, features="", run_env=None, tag="", assume=()):
    """Runs the contracts of ck.prop in /verif/harness/<crate>: proofs over the symbolic field, then concrete runs."""
    cwd = f"{VERIF}/harness"
    tgt = f"{TARGET}/harness" + ("_hook" if hook else "")
    env = {"CARGO_TARGET_DIR": tgt}
    if hook:
        env.update(HOOK)
    feat = ["--features", features] if features else []
    run_env = {"VERIF_LIMIT": "600" if THOROUGH else "240", **(run_env or {})}
    tail = f" [{tag}]" if tag else ""
    ck.cmds.append(f"cd {cwd} && cargo build --offline -p {crate} {' '.join(feat)} && {crate} run {ck.prop} {SEED} {n}")
    ck.trusted += ["the symbolic field (/verif/harness/symf): normal forms of Laurent polynomials over the Pasta fields, "
                   "path forking at comparisons, bounded Buchberger for ideal membership",
                   "rustc's compilation of the real source at the symbolic field type (parametricity: field-generic code uses "
                   "only the ff trait interface)",
                   *assume,
                   "stand-ins for the unavailable forks of ff, group, pasta_curves and blake2b_simd in /verif/stubs"]
    rc, out, err, s = sh(["cargo", "build", "--offline", "-q", "-p", crate] + feat, timeout=min(600, ck.left()), env=env, cwd=cwd)
    if rc != 0:
        why = (err or "")[-2500:] if rc is not None else "build timed out"
        ck.notes.append(f"harness {crate} did not build against the current tree: {why[-1200:]}")
        ck.add(f"harness {crate}", "symbolic execution", "undecided", "harness did not build: " + why[-400:])
        return False
    exe = f"{tgt}/debug/{crate}"
    rc, out, err, s = sh([exe, "run", ck.prop, str(SEED), str(n * (20 if THOROUGH else 1))] + ([only] if only else []),
                         timeout=min(timeout, ck.left()), env=run_env)
    if rc is None:
        ck.notes.append(f"{crate}: stopped at the time limit; contracts not reached are missing below")
    got = 0
    for l in out.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        got += 1
        if d["function"] == "harness thread panicked":
            ck.add(d["contract"], "symbolic execution", "undecided", d["function"])
            continue
        name, fn = d["contract"] + tail, d["function"]
        ck.evaluations += d["pass"] + d["skip"]
        ck.distinct += d["distinct"]
        if d["sample"] and len(ck.samples) < 6:
            ck.samples.append(dict(contract=name, inputs=d["sample"]))
        share = (d["secs"]) / max(1, len(d["obs"]))
        how = f"cd {cwd} && CARGO_TARGET_DIR={tgt} {''.join('%s=%r ' % kv for kv in {**env, **run_env}.items() if kv[0] != 'CARGO_TARGET_DIR')}cargo run --offline -q -p {crate} {' '.join(feat)} -- replay {ck.prop} '{d['contract']}'"
        reported = False
        if d.get("partial") and d["symbolic"] and not d["fail"]:
            ck.add(name, "symbolic execution", "undecided", "stopped at the time limit or ended early", fn)
            if d["pass"]:
                ck.add(name + " [stand-in]", "native execution", "bounded", f"{d['pass']} concrete executions", fn)
        for o in d["obs"]:
            label = f"{name}: {o['label']}"
            if o["status"] == "proved":
                if d["bound"]:
                    ck.add(label, "symbolic execution", "bounded", d["bound"], fn, share)
                else:
                    ck.add(label, "symbolic execution", "proved", "", fn, share)
            elif o["status"] == "failed":
                ck.add(label, "symbolic execution", "failed", o["detail"], fn, share)
                data = dict(backend="symbolic execution, ideal membership", function=fn, failed_obligation=o["detail"])
                found = False
                if o["replayed"]:
                    found = True
                    data.update(input=o["replay"]["inputs"], native_replay=o["replay"]["label"],
                                how_to_replay=how + f" {SEED} " + " ".join(f"'{a}={b}'" for a, b in o["replay"]["inputs"][:40]))
                elif d["fail"]:
                    found = True
                    data.update(input=d["fail"]["inputs"], native_replay=d["fail"]["label"], how_to_replay=how + f" {d['fail']['seed']}")
                reported = True
                ck.violation(label, data, found)
            else:
                ck.add(label, "symbolic execution", "undecided", o["detail"], fn, share)
                if d["pass"]:
                    ck.add(label + " [stand-in]", "native execution", "bounded", f"{d['pass']} concrete executions", fn)
        if d["fail"] and not reported:
            label = f"{name}: {d['fail']['label']}"
            ck.add(label, "native execution", "failed", json.dumps(d["fail"])[:500], fn)
            ck.violation(label, dict(backend="native execution of the contract on the real code", function=fn,
                                     input=d["fail"]["inputs"], how_to_replay=how + f" {d['fail']['seed']}"), True)
        if not d["symbolic"] and d["pass"] and not d["fail"]:
            if d["bound"].startswith("ground:"):
                ck.add(name, "ground evaluation", "proved", d["bound"], fn, d["csecs"])
            else:
                ck.add(name, "native execution", "bounded", f"{d['bound']}; {d['pass']} executions", fn, d["csecs"])
        if d["symbolic"] and d["pass"] == 0 and not d["fail"] and not d["obs"] and not d.get("partial"):
            ck.add(name, "symbolic execution", "undecided", "no obligation generated (vacuous)", fn)
    if got == 0:
        ck.notes.append(f"{crate}: no output: {err[-500:]}")
    return got > 0
