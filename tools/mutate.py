#!/usr/bin/env python3
"""Mutation survey: which small edits of the code does no monitor notice?

mutate.py WORKDIR WORKERS [SAMPLE] [SEED] copies /repo and /verif to WORKDIR, applies one small edit at a time to
the copy, and runs every monitor briefly. Survivors are listed in WORKDIR/survivors.txt. Nothing here is
part of a check; the survey only shows where the checks may be blind."""
import json, os, random, re, shutil, subprocess, sys, threading, time

FILES = """gearley-recognizer/src/recognizer.rs gearley-recognizer/src/binary_heap.rs gearley-recognizer/src/lookahead.rs
gearley-recognizer/src/predict.rs gearley-recognizer/src/event.rs gearley-recognizer/src/perf_hint.rs
gearley-default-grammar/src/lib.rs gearley-grammar/src/lib.rs gearley-forest/src/item.rs gearley-forest/src/node_handle.rs
gearley-vec2d/src/lib.rs gearley-utils/src/parse.rs gearley-utils/src/cartesian_product.rs
simple-bocage/src/bocage.rs simple-bocage/src/traverse.rs compact-bocage/src/bocage.rs compact-bocage/src/graph.rs
compact-bocage/src/traverse.rs gearley-example-grammars/src/precedenced_math/mod.rs
gearley-example-grammars/src/ambiguous_math/mod.rs""".split()

RULES = [
    (r"(?<![<=-])< (?!=)", ["<= ", "> "]), (r"<= ", ["< "]), (r"(?<![-=>])> (?!=)", [">= ", "< "]), (r">= ", ["> "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ 1\b", [" + 2", ""]), (r" - 1\b", [" - 2", ""]), (r" \+ 2\b", [" + 1"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\|= ", ["&= ", "= "]), (r"(?<=[ (\[])!(?=[a-zP(])", [""]),
    (r"\bif (?!let)(?=[a-z!])", ["if true || ", "if false && "]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
    (r"\.max\(", [".min("]), (r"\.min\(", [".max("]), (r"\.skip\((\w+)\)", [""]), (r"\.take\((.*?)\)", [""]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\bleft_factor\b", ["right_factor"]), (r"\brhs0\b", ["rhs1"]), (r"\blhs\b(?=\.usize)", ["rhs[0]"]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r"<< (\d)", ["<< 0"]), (r">> (\d)", [">> 0"]), (r"0b(\d+)", ["0b1"]),
    (r" as u32\b", [" as u8 as u32", " as u16 as u32"]), (r" as usize\b", [" as u8 as usize"]),
    (r"to_internal\b(?=\()", ["to_external"]), (r"get_lhs\(", ["get_rhs1("]), (r"clear\(\)", ["len()"]),
    (r"u32::MAX", ["0"]), (r"\.rev\(\)", [""]), (r"\.chain\((.*)\)", [""]), (r"\.filter\((\w+)\)", [""]),
    (r"breaks?;", ["continue;"]), (r"continue;", ["break;"]), (r"Some\(result\)", ["None"]),
]
SKIP = re.compile(r"trace!|println!|debug_assert|^\s*//|^\s*#|^\s*use |todo!|^\s*fn |^\s*pub fn |^\s*impl|^\s*pub(\(\w+\))? (struct|trait|enum)|^\s*where|panic!|DEFAULT_|_CAP")


def code_lines(path):
    """Line numbers that are neither in a trace nor in a test."""
    out, skipping, traced = [], False, False
    for i, l in enumerate(open(path).read().split("\n")):
        if "#[test]" in l:
            break
        # Only for the log.
        if "let mut has_predicts" in l:
            traced = True
        if "from_processed_grammars(grammar, maps" in l:
            traced = False
        if traced or "times" in l:
            continue
        if re.search(r"(trace|println)!\($", l.strip()):
            skipping = True
        if skipping:
            if l.strip() in (");", ")"):
                skipping = False
            continue
        if not SKIP.search(l) and l.strip():
            out.append(i)
    return out


def mutants(repo):
    out = []
    for f in FILES:
        p = os.path.join(repo, f)
        lines = open(p).read().split("\n")
        for i in code_lines(p):
            l = lines[i]
            c = l.find("//")
            body = l if c < 0 else l[:c]
            seen = set()
            for pat, reps in RULES:
                for m in re.finditer(pat, body):
                    for r in reps:
                        n = body[:m.start()] + r + body[m.end():]
                        if n != body and n not in seen:
                            seen.add(n)
                            out.append((f, i, n))
            s = body.strip()
            if s.endswith(";") and not re.match(r"(let|return|pub|const|use|static|type|}|\)|break|continue)", s) and s.count("(") == s.count(")"):
                out.append((f, i, ""))
    return out


CHECKS = {"core": "C10 C14 C04 C12 C11 C03 C22 C15 C13 C07 C24 C06 C05 C08 C09 C23 C01 C02 C21 C20".split(),
          "vec2d": ["C16", "C17"], "cart": ["C18"]}


def crates_for(f):
    if "cartesian" in f:
        return ["cart"]
    if "vec2d" in f:
        return ["vec2d", "core"]
    return ["core"]


class Copy:
    def __init__(self, root, k):
        self.d = os.path.join(root, f"w{k}")
        self.repo, self.verif = self.d + "/repo", self.d + "/verif"
        if not os.path.exists(self.d):
            os.makedirs(self.d)
            shutil.copytree("/repo", self.repo, ignore=shutil.ignore_patterns("target", ".git"))
            os.makedirs(self.verif)
            for x in ("mon", "shims", "wrap"):
                shutil.copytree("/verif/" + x, self.verif + "/" + x, ignore=shutil.ignore_patterns("target"))
            subprocess.run(f"grep -rl /repo/ {self.verif}/wrap --include=Cargo.toml | xargs sed -i s,/repo/,{self.repo}/,", shell=True)
        self.env = dict(os.environ, RUSTFLAGS="--cap-lints=allow", CARGO_TARGET_DIR=self.d + "/build", CARGO_NET_OFFLINE="true",
                        CARGO_PROFILE_RELEASE_DEBUG="0")

    def build(self, crate):
        r = subprocess.run(["cargo", "build", "--release", "--offline", "-q", "-j2"], cwd=f"{self.verif}/mon/{crate}", env=self.env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return r.returncode == 0

    def run(self, crate, check, secs, shards=2):
        ps = []
        for k in range(shards):
            out = f"{self.d}/{check}-{k}.json"
            if os.path.exists(out):
                os.remove(out)
            cmd = f"ulimit -v 4000000; exec timeout {secs * 4 + 30} {self.d}/build/release/mon-{crate} {check} --tier quick --seed 1 --max-seconds {secs} --shard {k} --nshards {shards} --out {out}"
            ps.append((out, subprocess.Popen(["bash", "-c", cmd], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        bad = None
        for out, p in ps:
            p.wait()
            try:
                d = json.load(open(out))
                if d["problem"]:
                    bad = d["problem"]["kind"] + ": " + d["problem"]["what"][:80]
            except Exception:
                bad = bad or f"died {p.returncode}"
        return bad


def main():
    root, nw = sys.argv[1], int(sys.argv[2])
    sample = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
    todo = mutants("/repo")
    print(len(todo), "mutants", flush=True)
    rng.shuffle(todo)
    done = set()
    logf = os.path.join(root, "log.txt")
    if os.path.exists(logf):
        done = {tuple(json.loads(l)["id"]) for l in open(logf)}
    todo = [t for t in todo if list(t) and (t[0], t[1], t[2]) not in done]
    if sample:
        todo = todo[:sample]
    lock = threading.Lock()

    def work(k):
        c = Copy(root, k)
        while True:
            with lock:
                if not todo or os.path.exists(root + "/stop"):
                    return
                f, i, n = todo.pop()
            p = os.path.join(c.repo, f)
            orig = open(p).read()
            lines = orig.split("\n")
            old = lines[i]
            lines[i] = n
            open(p, "w").write("\n".join(lines))
            t0, res = time.time(), "survived"
            for crate in crates_for(f):
                if not c.build(crate):
                    res = "build"
                    break
                # First all checks very briefly, then longer.
                for secs in (2, 12):
                    for ch in CHECKS[crate]:
                        bad = c.run(crate, ch, secs)
                        if bad:
                            res = f"{ch}: {bad}"
                            break
                    if res != "survived":
                        break
                if res != "survived":
                    break
            open(p, "w").write(orig)
            with lock:
                with open(logf, "a") as o:
                    o.write(json.dumps({"id": [f, i, n], "old": old.strip(), "res": res, "s": round(time.time() - t0)}) + "\n")
                if res == "survived":
                    with open(root + "/survivors.txt", "a") as o:
                        o.write(f"{f}:{i + 1}\n  - {old.strip()}\n  + {n.strip()}\n")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
