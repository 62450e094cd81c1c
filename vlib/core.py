"""Common machinery: building the harness, executing cases, running TLC, evidence, verdicts."""
import json, os, re, selectors, subprocess, sys, threading, time, random, shutil, signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 2)


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


def log(*a):
    print(*a, flush=True)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{pid}/{seed}")
        self.work = os.path.join(ROOT, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.started = time.time()
        # measured by this run
        self.states = 0            # distinct states of all TLC runs
        self.transitions = 0       # states generated by all TLC runs
        self.validated = 0         # recorded behaviours of /repo judged by TLC
        self.rejected = []         # (case, reason)
        self.models = []           # design level runs
        self.traces = []           # trace validation runs
        self.samples = []
        self.notes = {}
        self.assumptions = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------ harness
    def build(self, hooks=True):
        """Build the harness against the current working tree of /repo. Without hooks only the
        public API of the crate is used."""
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0",
                   RUSTFLAGS="-Awarnings" + (" --cfg auto_palette_verif" if hooks else ""), RUSTC_WRAPPER="")
        env.setdefault("HOME", "/root")
        env.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
        env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
        target = os.path.join(ROOT, "harness", "target", "hooks" if hooks else "plain")
        env["CARGO_TARGET_DIR"] = target
        # cargo judges staleness by mtime: always compile the crate under test anew
        fp = os.path.join(target, "debug", ".fingerprint")
        for name in os.listdir(fp) if os.path.isdir(fp) else []:
            if name.startswith("auto-palette-"):
                shutil.rmtree(os.path.join(fp, name), ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--quiet"] + (["--features", "hooks"] if hooks else [])
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("the harness does not build against /repo:\n" + r.stdout[-4000:])
        self.bin = os.path.join(target, "debug", "ap-harness")

    def execute(self, cases, name="cases", stall=100, procs=CPUS):
        """Run the cases on the real code; one trace record per case, in order. A case during
        which the process dies or does not come back is recorded with that outcome."""
        for n, c in enumerate(cases):
            c.setdefault("id", f"{self.pid}-{name}-{n}")
        chunks = [[] for _ in range(max(1, min(procs, len(cases))))]
        load = [0] * len(chunks)
        pixels = lambda c: c["w"] * c["h"] if c.get("op") == "extract" else 1
        for n, c in sorted(enumerate(cases), key=lambda x: -pixels(x[1])):
            at = load.index(min(load))
            load[at] += pixels(c) + (300 if c.get("op") == "extract" else 0)
            chunks[at].append((n, c))
        results = [None] * len(cases)
        errors, hangs = [], []

        def worker(no, chunk):
            path = os.path.join(self.work, f"{name}.{no}.in")
            with open(path, "w") as f:
                for _, c in chunk:
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
            done = 0
            while done < len(chunk) and not errors and len(hangs) < (3 if stall < 300 else 1):
                p = subprocess.Popen([self.bin, path, str(done)], stdout=subprocess.PIPE,
                                     stderr=subprocess.PIPE, bufsize=0)
                buf, outcome = b"", None
                sel = selectors.DefaultSelector()
                sel.register(p.stdout, selectors.EVENT_READ)
                while outcome is None:
                    if not sel.select(timeout=stall):
                        outcome = "hang"
                        p.kill()
                        break
                    data = os.read(p.stdout.fileno(), 1 << 20)
                    if not data:
                        outcome = "eof"
                        break
                    buf += data
                    while b"\n" in buf:
                        line, buf = buf.split(b"\n", 1)
                        results[chunk[done][0]] = json.loads(line)
                        done += 1
                err = p.stderr.read().decode(errors="replace")
                rc = p.wait()
                if rc == 3:
                    errors.append("harness error: " + err[-2000:])
                    return
                if done < len(chunk):
                    n, c = chunk[done]
                    outcome = "hang" if outcome == "hang" else "abort"
                    if outcome == "hang":
                        hangs.append(n)
                    results[n] = {"in": c, "outcome": outcome, "msg": f"exit {rc} " + err[-200:]}
                    done += 1
            os.remove(path)

        ts = [threading.Thread(target=worker, args=(no, ch)) for no, ch in enumerate(chunks)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errors:
            raise CheckError(errors[0])
        # after a few calls that do not return the others are left out: the verdict is clear
        return [r or {"in": c, "outcome": "skipped"} for r, c in zip(results, cases)]

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=CPUS, timeout=600, extra=(), heap="6g", props=()):
        meta = os.path.join(self.work, f"tlc-{cfg}-{len(self.models) + len(self.traces)}-{time.time_ns()}")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", f"-Djava.io.tmpdir={self.work}", *props, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg + ".cfg",
               *extra, module + ".tla"]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC did not finish {module}/{cfg} in {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        with open(os.path.join(self.work, f"{cfg}.log"), "w") as f:
            f.write(out)
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return dict(module=module, cfg=cfg, rc=r.returncode, out=out, generated=gen, distinct=dis,
                    seconds=round(time.time() - t0, 1),
                    ok="Model checking completed. No error has been found." in out)

    def model(self, module, cfg, expect=None, **kw):
        """A design level run. expect: None (must hold) or the name of the property that has to be
        violated (negative control: shows that the property can fail, i.e. is not vacuous)."""
        r = self.tlc(module, cfg, **kw)
        violated = re.findall(r"Error: (?:Invariant|Action property|Property) (\S+) is violated", r["out"])
        violated += ["Temporal"] if "Temporal properties were violated" in r["out"] else []
        violated += ["Deadlock"] if "Deadlock reached" in r["out"] else []
        if expect is None and not r["ok"]:
            raise CheckError(f"the specification {module}/{cfg} does not satisfy its own properties:\n{r['out'][-3000:]}")
        if expect is not None and expect not in violated:
            raise CheckError(f"negative control {module}/{cfg}: {expect} is not violated:\n{r['out'][-3000:]}")
        if expect is None and r["distinct"] < 2:
            raise CheckError(f"{module}/{cfg}: nothing explored")
        if expect is None:
            never = [a for a, n in re.findall(r"<(\w+) line [^>]*>: \d+:(\d+)", r["out"]) if n == "0"]
            if never:
                raise CheckError(f"{module}/{cfg}: actions never taken: {never}")
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({k: r[k] for k in ("module", "cfg", "generated", "distinct", "seconds")} | {"expected_violation": expect})
        return r

    def generate(self, module, cfg, env=None, **kw):
        """Have TLC enumerate behaviours (or inputs) of the specification; they are replayed on the
        real code by the caller."""
        path = os.path.join(self.work, f"{cfg}.gen.ndjson")
        r = self.tlc(module, cfg, env=dict(env or {}, OUT=path), **kw)
        if not r["ok"] or not os.path.exists(path):
            raise CheckError(f"generation {module}/{cfg} failed:\n{r['out'][-3000:]}")
        with open(path) as f:
            records = [json.loads(line) for line in f if line.strip()]
        self.notes.setdefault("generated_by_tlc", {})[cfg] = len(records)
        return records

    def validate(self, module, cfg, records, name="trace", timeout=850, env=None, workers=CPUS, parts=1, heap="8g"):
        """Check recorded behaviours against the trace specification. Rejected ones are collected."""
        records = [r for r in records if r["outcome"] != "skipped"]
        if not records:
            raise CheckError("no recorded behaviours")
        path = os.path.join(self.work, f"{name}.ndjson")
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        r = self.tlc(module, cfg, env=dict(env or {}, TRACE=path), workers=workers, timeout=timeout, heap=heap)
        rejects = []
        for line in re.findall(r'"REJECT (.*)"', r["out"]):
            cid, event, why = line.split(" ", 2)
            rejects.append((cid, event, why))
        outside = self.outside(r["out"], records) if not r["ok"] else None
        if outside:
            rejects.append(outside)
        if not rejects and not r["ok"]:
            raise CheckError(f"trace validation {module}/{cfg} gave no verdict:\n{r['out'][-4000:]}")
        if rejects and not outside and "Error: " in r["out"]:
            # only the postcondition (all recorded events consumed) may fail when something is rejected
            errs = [e for e in re.findall(r"Error: (.*)", r["out"]) if "POSTCONDITION" not in e.upper() and "post" not in e.lower()]
            if errs:
                raise CheckError(f"trace validation {module}/{cfg} failed:\n{r['out'][-4000:]}")
        by_id = {x["in"]["id"]: x for x in records}
        for cid, event, why in rejects:
            if why.startswith("witness"):
                raise CheckError(f"bad witness in case {cid}: {why}")
            self.rejected.append((by_id[cid], event, why))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.validated += len(records)
        self.traces.append({k: r[k] for k in ("module", "cfg", "generated", "distinct", "seconds")} |
                           {"behaviours": len(records), "rejected": len({c for c, _, _ in rejects})})
        return rejects

    @staticmethod
    def outside(out, records):
        """A recorded event on which the specification has no value: what the code returned is not even of
        the kind (or leaves the range of numbers) that the specification speaks about. On the unchanged
        tree no behaviour is of that kind, so this is a verdict about the code. Exhausted memory is not."""
        m = re.search(r"Error: The behavior up to this point is:.*?/\\ c = (\d+)\s+/\\ pos = (-?\d+)", out, re.S)
        if not m or re.search(r"StackOverflow|OutOfMemory|heap space|GC overhead|fingerprint", out):
            return None
        n = int(m.group(1))
        if not 1 <= n <= len(records):
            return None
        return records[n - 1]["in"]["id"], str(int(m.group(2)) + 1), "the recorded values are outside the domain of the specification"

    # ------------------------------------------------------------------ verdict
    def finish(self, level, exhaustive=None):
        known = load_known(self.pid)
        new, seen = [], {}
        for rec, event, why in self.rejected:
            key = fingerprint(rec)
            if key in known:
                seen[key] = known[key]
            else:
                new.append((rec, event, why))
        replay = None
        if new:
            replay = os.path.join(self.work, "replay.ndjson")
            with open(replay, "w") as f:
                for rec, event, why in new[:20]:
                    f.write(json.dumps({"case": rec["in"], "event": event, "why": why,
                                        "outcome": rec["outcome"], "msg": rec.get("msg", ""), "out": rec.get("out")}) + "\n")
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "samples": self.samples[:5] or ["-"],
            "design_models": self.models, "trace_validation": self.traces, **self.notes,
        }
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.started, 1),
              "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, text in seen.items():
            log(f"KNOWN-FINDING: property={self.pid} {text}")
        log(f"{self.pid} {self.tier}: {self.states} distinct states, {self.validated} recorded behaviours, "
            f"{len(new)} rejected, {ev['wall_s']} s")
        if new:
            for rec, event, why in new[:5]:
                log(f"  rejected: case {rec['in']['id']} event {event}: {why} [{rec['outcome']}] {rec.get('msg','')[:200]}")
            log(f"VIOLATION property={self.pid} replay={os.path.relpath(replay, ROOT)}")
            return 1
        return 0


def fingerprint(rec):
    c = {k: v for k, v in rec["in"].items() if k not in ("id", "wit")}
    return json.dumps(c, sort_keys=True, separators=(",", ":"))


def load_known(pid):
    """known-findings.txt: open findings are lines {"property":..,"status":"open","case":{..},"what":..};
    lines "fixed: ..." are a record only and suppress nothing."""
    known = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("status") == "open" and k["property"] == pid:
                    known[fingerprint({"in": k["case"]})] = k["what"]
    return known
