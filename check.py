#!/usr/bin/env python3
"""check.py <property id>: builds the monitors of one property against /repo's working tree, runs
them in worker processes, and turns what they observed into one verdict.

exit 0  the property held on everything that was observed
exit 1  and a line VIOLATION property=<id> replay=<path>: it was refuted
exit 2  no verdict (build failure, harness error, unconfirmed crash, too little observed)
"""
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time

from checks import CHECKS, LEVEL_ASSUMPTIONS

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF, "evidence")
NPROC = min(8, os.cpu_count() or 1)
TICK = os.sysconf("SC_CLK_TCK")
# CPU seconds that one case may take. Cases take milliseconds; Miri and ASan are slower.
CASE_CPU = {"native": 60, "asan": 120, "miri": 120}
# Bytes of address space for a native worker, so that runaway allocation ends the worker and not the sandbox.
MEMORY = 3 << 30
SANITIZER_MARK = re.compile(r"ERROR: AddressSanitizer|error: Undefined Behavior|unsafe precondition\(s\) violated")


class Inconclusive(Exception):
    pass


def env_for(mode):
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e["RUSTFLAGS"] = "--cap-lints=warn"
    e["CARGO_TARGET_DIR"] = BUILD if mode == "native" else BUILD + "-" + mode
    if mode == "asan":
        e["RUSTFLAGS"] = "--cap-lints=warn -Zsanitizer=address"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=3500"
    if mode == "miri":
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check"
    return e


def build(crate, mode):
    """Compiles one harness crate and returns the command that runs it."""
    d = os.path.join(VERIF, "mon", crate)
    name = "mon-" + crate
    if mode == "native":
        cmd = ["cargo", "build", "--release", "--offline"]
        exe = [os.path.join(BUILD, "release", name)]
    elif mode == "asan":
        cmd = ["cargo", "+nightly", "build", "--release", "--offline", "--no-default-features",
               "--target", "x86_64-unknown-linux-gnu"]
        exe = [os.path.join(BUILD + "-asan", "x86_64-unknown-linux-gnu", "release", name)]
    else:
        # Compiles, and interprets once with no case to run; the workers then find everything built.
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--no-default-features", "--", "warmup"]
        exe = ["cargo", "+nightly", "miri", "run", "--offline", "--no-default-features", "-q", "--"]
    p = subprocess.run(cmd, cwd=d, env=env_for(mode), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        tail = p.stdout.decode(errors="replace")[-6000:]
        sys.stderr.write(tail + "\n")
        raise Inconclusive(f"building mon/{crate} ({mode}) failed")
    return exe


def group_cpu(pgid):
    """CPU seconds used by the live processes of a process group that this program started."""
    total = 0
    for pid in os.listdir("/proc"):
        if not pid.isdigit():
            continue
        try:
            with open(f"/proc/{pid}/stat") as f:
                s = f.read()
        except OSError:
            continue
        fields = s[s.rindex(")") + 2:].split()
        if int(fields[2]) == pgid:
            total += int(fields[11]) + int(fields[12])
    return total / TICK


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


class Worker:
    def __init__(self, exe, crate, mode, args, out):
        self.out, self.mode = out, mode
        for suffix in ("", ".state", ".distinct"):
            if os.path.exists(out + suffix):
                os.remove(out + suffix)
        self.err = out + ".stderr"
        with open(self.err, "wb") as err:
            self.p = subprocess.Popen(
                exe + args + ["--out", out],
                cwd=os.path.join(VERIF, "mon", crate),
                env=env_for(mode),
                stdin=subprocess.DEVNULL,
                stdout=subprocess.DEVNULL,
                stderr=err,
                start_new_session=True,
                preexec_fn=limit_memory if mode == "native" else None,
            )
        self.case, self.case_cpu0, self.hung = None, 0.0, False
        self.cut = self.ended = False

    def state(self):
        try:
            with open(self.out + ".state") as f:
                s = f.read(20).strip()
            return int(s) if s else None
        except (OSError, ValueError):
            return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def poll(self, limit):
        """True when the worker has ended, or was ended for a case that took too much CPU."""
        if self.p.poll() is not None:
            return True
        case = self.state()
        cpu = group_cpu(self.p.pid)
        if case != self.case:
            self.case, self.case_cpu0 = case, cpu
        elif case is not None and cpu - self.case_cpu0 > limit:
            self.hung = True
            self.kill()
            return True
        return False

    def report(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def stderr(self):
        try:
            with open(self.err, "rb") as f:
                return f.read()[-20000:].decode(errors="replace")
        except OSError:
            return ""


def violation_in(report):
    return bool(report and report.get("problem") and report["problem"]["kind"] == "violation")


def wait_all(workers, limit, deadline, settled=None, grace=0):
    """Waits for the workers. With `settled`, a worker it is true of ends the others, some time later."""
    live = list(workers)
    end = None
    while live:
        for w in live:
            w.ended = w.poll(limit)
            if w.ended and settled and end is None and settled(w):
                end = time.time() + grace
        live = [w for w in live if not w.ended]
        if end is not None and time.time() > end:
            for w in live:
                w.kill()
                w.cut = True
            return
        if time.time() > deadline:
            for w in live:
                w.kill()
            raise Inconclusive("the workers did not end in time")
        time.sleep(0.05)


def run_stage(pid, stage, tier, seed, scratch, deadline):
    """Runs one stage of a check; returns its merged observations and its problem, if any."""
    crate, mode = stage["crate"], stage["mode"]
    exe = build(crate, mode)
    n = min(NPROC, stage.get("shards", NPROC))
    base = [pid, "--tier", tier, "--seed", str(seed)]
    cases = stage.get("cases", {}).get(tier)
    if cases is not None:
        base += ["--cases", str(cases)]
    base += ["--max-seconds", str(stage.get("seconds", {}).get(tier, 600))]
    tag = f"{crate}-{mode}"
    workers = []
    for k in range(n):
        out = os.path.join(scratch, f"{tag}-{k}.json")
        workers.append(Worker(exe, crate, mode, base + ["--shard", str(k), "--nshards", str(n)], out))
    limit = CASE_CPU[mode]
    wait_all(workers, limit, deadline, lambda w: violation_in(w.report()), 20)

    merged = {"evaluations": 0, "counters": {}, "maxima": {}, "samples": [], "findings": [], "distinct": set(),
              "truncated": False, "lost": []}
    problems, harness = [], []

    def doubtful(w):
        if w.cut or w.state() is None or not (w.report() is None or w.hung):
            return False
        return not (stage.get("only_sanitizer") and w.hung and not SANITIZER_MARK.search(w.stderr()))

    # Cases that ended a worker run again, alone and side by side, unless there is a verdict without them.
    confirmed = {}
    if not any(violation_in(w.report()) for w in workers):
        for w in filter(doubtful, workers):
            out = os.path.join(scratch, f"{tag}-confirm-{w.state()}.json")
            confirmed[w] = Worker(exe, crate, mode, base + ["--only", str(w.state())], out)
        wait_all(list(confirmed.values()), limit * 2, deadline + 60, lambda c: violation_in(c.report()) or c.hung, 5)
    for w in workers:
        r = w.report()
        if w.cut and r is None:
            merged["lost"].append(f"worker at case {w.state()} was ended, another one had a verdict")
            continue
        if r is None or w.hung:
            case = w.state()
            if case is None:
                harness.append(f"{tag}: a worker ended with {w.p.returncode} before its first case: {w.stderr()[-1500:]}")
                continue
            if stage.get("only_sanitizer") and w.hung and not SANITIZER_MARK.search(w.stderr()):
                # Not ending, or being slow under the interpreter, is the business of other properties. The
                # rest of this worker's cases is lost; `least` says how much has to remain.
                merged["lost"].append(f"case {case} used {limit} s of CPU time without a sanitizer report")
                continue
            # Is it this case alone, and again? Only then is it a verdict.
            c = confirmed.get(w)
            if c is None or c.cut:
                merged["lost"].append(f"case {case} ended a worker; another case is reported")
                continue
            r2 = c.report()
            marked = SANITIZER_MARK.search(c.stderr()) is not None
            if stage.get("only_sanitizer") and r2 is None and not marked:
                # Not finishing, or running out of memory, is the business of other properties.
                merged["lost"].append(f"case {case} ended with {c.p.returncode} (hung: {c.hung}) and no sanitizer report: "
                                      f"{c.stderr()[-800:]}")
            elif c.hung:
                problems.append({"kind": "violation", "case": case, "what": f"case does not end within {limit * 2} s of CPU time",
                                 "witness": stage_witness(c)})
            elif r2 is None:
                err = c.stderr()
                if c.p.returncode in (-signal.SIGKILL,):
                    harness.append(f"{tag}: case {case} was killed from outside")
                else:
                    problems.append({"kind": "violation", "case": case,
                                     "what": f"the process died with status {c.p.returncode}" +
                                             (" (sanitizer report)" if marked else ""),
                                     "witness": err[-8000:]})
            elif r2.get("problem"):
                problems.append(r2["problem"])
            else:
                harness.append(f"{tag}: case {case} ended a worker ({w.p.returncode}, hung={w.hung}) but not when run alone: {w.stderr()[-800:]}")
            continue
        merged["evaluations"] += r["evaluations"]
        merged["truncated"] |= r["truncated"]
        for k, v in r["counters"].items():
            merged["counters"][k] = merged["counters"].get(k, 0) + v
        for k, v in r["maxima"].items():
            merged["maxima"][k] = max(merged["maxima"].get(k, 0), v)
        merged["samples"] += r["samples"][:2]
        merged["findings"] += [tuple(f) for f in r["findings"]]
        try:
            with open(w.out + ".distinct", "rb") as f:
                d = f.read()
            merged["distinct"].update(x[0] for x in struct.iter_unpack("<Q", d))
        except OSError:
            pass
        p = r.get("problem")
        if p and p["kind"] == "violation":
            problems.append(p)
        elif p:
            harness.append(f"{tag}: harness error in case {p['case']}: {p['what']}\n{p['witness'][:2000]}")
        elif w.p.returncode != 0:
            # The report was complete, and the process failed afterwards (a sanitizer at exit).
            err = w.stderr()
            if SANITIZER_MARK.search(err):
                problems.append({"kind": "violation", "case": -1, "what": "sanitizer report at exit", "witness": err[-8000:]})
            else:
                harness.append(f"{tag}: worker ended with {w.p.returncode}: {err[-1500:]}")
    for p in problems:
        p["stage"] = tag
        p["rerun"] = " ".join(exe + base + ["--only", str(p["case"]), "--out", "/tmp/replay.json"])
    return merged, problems, harness


def stage_witness(w):
    return w.stderr()[-4000:]


def known_findings():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        sys.stderr.write(f"usage: check.py {'|'.join(sorted(CHECKS))}\n")
        return 2
    pid = sys.argv[1]
    spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 6 * 3600)
    scratch = os.path.join(BUILD, "runs", f"{pid}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
    total = {"evaluations": 0, "distinct": set(), "samples": [], "findings": []}
    stages, problems, harness = {}, [], []
    try:
        for stage in spec["stages"]:
            if tier not in stage.get("tiers", ("quick", "thorough")):
                continue
            s0 = time.time()
            m, p, h = run_stage(pid, stage, tier, seed, scratch, deadline)
            tag = f"{stage['crate']} ({stage['mode']})"
            stages[tag] = {
                "evaluations": m["evaluations"],
                "distinct_nontrivial": len(m["distinct"]),
                "observed": m["counters"],
                "maxima": m["maxima"],
                "stopped_early_by_time_limit": m["truncated"],
                "wall_s": round(time.time() - s0, 1),
            }
            if m["lost"]:
                stages[tag]["workers_lost_without_a_sanitizer_report"] = m["lost"]
            total["evaluations"] += m["evaluations"]
            total["distinct"] |= m["distinct"]
            total["samples"] += m["samples"]
            total["findings"] += m["findings"]
            problems += p
            harness += h
            if not p and not h:
                for key, least in stage.get("least", {}).items():
                    seen = m["counters"].get(key, 0)
                    if seen < least:
                        harness.append(f"{tag}: observed {seen} of '{key}', which is less than {least}")
            if p:
                break
    except Inconclusive as e:
        harness.append(str(e))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings()
    lines, listed, unlisted = [], [], []
    for key, what in dict(total["findings"]).items():
        if (pid, key) in known:
            listed.append(key)
            lines.append(f"KNOWN-FINDING: property={pid} {key}: {known[(pid, key)]}")
        else:
            unlisted.append({"kind": "violation", "case": -1, "what": what, "witness": f"key {key}", "stage": "", "rerun": ""})
    problems += unlisted
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": len(total["distinct"]),
            "rule": spec["rule"],
            "samples": total["samples"][:6] or ["(none)"],
            "stages": stages,
            "known_findings_seen": sorted(listed),
        },
        "assumptions": spec.get("assumptions", []) + LEVEL_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(problems),
    }
    if harness:
        evidence["coverage"]["inconclusive"] = harness
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for line in lines:
        print(line)
    for h in harness:
        sys.stderr.write(f"inconclusive: {h}\n")
    if problems:
        for i, p in enumerate(problems[:4]):
            rel = os.path.join("evidence", "replays", f"{pid}-{i}.txt")
            with open(os.path.join(VERIF, rel), "w") as f:
                f.write(f"property {pid}\nstage {p['stage']}\nseed {seed} tier {tier} case {p['case']}\n"
                        f"{p['what']}\n\n{p['witness']}\n\nrerun (in mon/): {p['rerun']}\n")
            print(f"VIOLATION property={pid} replay={rel}")
            print(f"  {p['what'][:400]}")
        return 1
    if harness:
        return 2
    print(f"{pid}: held on {total['evaluations']} executions, {len(total['distinct'])} distinct and nontrivial, "
          f"in {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
