"""Runs the drivers of /verif/harness on the code in /repo, checks what they recorded against
the TLA+ specifications in /verif/spec with TLC, and model checks the specifications."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    """Something other than the code under test went wrong: exit 2."""


def env_base():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUST_BACKTRACE"] = "1"
    for k in ("CARGO_TARGET_DIR", "RUST_LOG", "RUSTFLAGS", "CARGO_INCREMENTAL", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["RUSTFLAGS"] = "-Awarnings"
    return e


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.toml"),
             os.path.join(VERIF, "harness", "Cargo.lock")]
    for root in roots:
        for d, dirs, names in os.walk(root):
            dirs.sort()
            files += [os.path.join(d, n) for n in sorted(names)]
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build(bins, dimacs=False, asan=False):
    """Builds the given drivers ("real": the command line program) from the current tree.
    Returns the directory of the binaries."""
    target = os.path.join(BUILD, "cargo-asan" if asan else "cargo-dimacs" if dimacs else "cargo")
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "tree.sha256")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    cwd = os.path.join(VERIF, "harness")
    env = env_base()
    out = os.path.join(target, "debug")
    triple = []
    if asan:
        env["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
        env["RUSTFLAGS"] += " -Zsanitizer=address"
        triple = ["--target", "x86_64-unknown-linux-gnu"]
        out = os.path.join(target, triple[1], "debug")
    if old != now and os.path.exists(out):
        # do not rely on modification times
        subprocess.run(["cargo", "clean", "--offline", "-p", "hybridcvrp", "-p", "hx", "--target-dir", target, *triple],
                       cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", target, *triple]
    for b in bins:
        cmd += ["--bin", "hybridcvrp-real" if b == "real" else b]
    if dimacs:
        cmd += ["--features", "dimacs"]
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build against /repo:\n" + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(now)
    return out


def limit(mem_gb):
    def f():
        os.setsid()
        b = int(mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run_proc(cmd, timeout, cwd=None, env=None, mem_gb=8, stdout=None):
    """Returns (rc or None on timeout, stdout+stderr text, seconds)"""
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or env_base(), stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limit(mem_gb))
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace"), time.time() - t0


def tlc(module, cfg, workdir, trace=None, timeout=600, workers=1, heap="3g", extra=(), env_extra=None):
    """Runs TLC. Returns a dict."""
    env = env_base()
    if trace:
        env["TRACE"] = trace
    if env_extra:
        env.update(env_extra)
    md = os.path.join(workdir, f"md-{os.getpid()}-{abs(hash((module, cfg, trace, time.time()))) % 10**12}")
    os.makedirs(md, exist_ok=True)
    gc = ["-XX:+UseSerialGC", "-XX:CICompilerCount=2"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd = ["java", *gc, f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={md}", "-cp", TLA, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", md, "-config", cfg, *extra, module + ".tla"]
    rc, out, secs = run_proc(cmd, timeout, cwd=SPEC, env=env, mem_gb=64)
    shutil.rmtree(md, ignore_errors=True)
    res = {"module": module, "cfg": cfg, "trace": trace, "rc": rc, "out": out, "secs": secs, "states": 0,
           "distinct": 0, "bad": [], "done": None}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        res["states"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\{.*?\})\s*>>', out, re.S):
        res["bad"].append((int(m.group(1)), re.sub(r"\s+", " ", m.group(2))))
    m = re.findall(r'<<"DONE", (\d+)>>', out)
    if m:
        res["done"] = int(m[-1])
    return res


EVAL_ERROR = re.compile(
    r"(Attempted to|The exception was a java\.lang\.RuntimeException|In applying the function|"
    r"CHOOSE|tlc2\.tool\.EvalException|The first argument of|The second argument of|"
    r"evaluating|Overflow when computing)")


class Run:
    """One check: collects violations, counts and samples."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", f"{pid}.{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(EVID, exist_ok=True)
        self.replays = os.path.join(EVID, "replays")
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(f"{pid}-"):
                os.remove(os.path.join(self.replays, f))
        self.violations = []
        self.states = self.transitions = self.traces = self.records = 0
        self.kinds = {}
        self.samples = []
        self.models = []
        self.pool, self.futures, self.replayed, self.drives = None, [], 0, 0
        self.notes = {}
        self.assumptions = []
        self.bins = {}

    thorough = property(lambda s: s.tier == "thorough")

    def bin(self, name, dimacs=False, asan=False):
        key = (name, dimacs, asan)
        if key not in self.bins:
            b = build([name], dimacs, asan)
            self.bins[key] = os.path.join(b, "hybridcvrp-real" if name == "real" else name)
        return self.bins[key]

    def violation(self, what, detail):
        k = len(self.violations)
        path = os.path.join(self.replays, f"{self.pid}-{self.tier}-{self.seed}-{k}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, **detail}, f, indent=1)
        self.violations.append((what, path))
        if k < 5:
            print(f"# {self.pid}: {what}", flush=True)

    # ---- model checking of the specification itself
    def model(self, module, cfg=None, workers=CORES, timeout=800, heap="6g", env_extra=None):
        r = tlc(module, cfg or f"{module}.cfg", self.work, workers=workers, timeout=timeout, heap=heap,
                env_extra=env_extra)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise ToolError(f"TLC on {module} ({cfg}): rc {r['rc']}\n" + r["out"][-3000:])
        if r["distinct"] < 2:
            raise ToolError(f"TLC on {module}: only {r['distinct']} states")
        self.states += r["distinct"]
        self.transitions += r["states"]
        self.models.append({"module": module, "cfg": cfg or f"{module}.cfg", "distinct_states": r["distinct"],
                            "states_generated": r["states"], "seconds": round(r["secs"], 1)})
        return r

    def behaviours(self, module, cfg=None, timeout=800, heap="6g", at_least=2):
        """Model checks the module while it writes its behaviours for the real code.
        Returns the file they are in, one per line."""
        raw = os.path.join(self.work, f"{module}.{cfg or 'cfg'}.raw")
        for workers in (6, 1):
            r = self.model(module, cfg, workers=workers, timeout=timeout, heap=heap, env_extra={"OUT": raw})
            seen = read_behaviours(raw)
            os.remove(raw)
            if seen is not None:
                break
            self.models.pop()
        out = os.path.join(self.work, f"{module}.{cfg or 'cfg'}.behaviours")
        with open(out, "w") as g:
            g.write("".join(x + "\n" for x in seen))
        if len(seen) < at_least:
            raise ToolError(f"{module} has only {len(seen)} behaviours, expected {at_least}")
        self.models[-1]["behaviours_replayed"] = len(seen)
        self.replayed += len(seen)
        return out

    def background(self, *items):
        """Model checks (module, cfg, workers) while the rest of the check goes on."""
        self.pool = self.pool or cf.ThreadPoolExecutor(max_workers=CORES)
        for m, c, w in items:
            self.futures.append(self.pool.submit(self.model, m, c, w))

    def join(self):
        for f in self.futures:
            f.result()
        self.futures = []

    # ---- running a driver
    def drive(self, driver, args=(), parts=CORES, timeout=300, dimacs=False, mem_gb=8):
        """Runs the driver in several processes. Returns the trace files."""
        b = self.bin(driver, dimacs)
        outs = []
        self.drives += 1
        name = f"{driver}.{self.drives}"

        def one(p):
            out = os.path.join(self.work, f"{name}.{p}.ndjson")
            cmd = [b, out, str(self.seed), self.tier, f"{p}/{parts}", *args]
            rc, text, secs = run_proc(cmd, timeout, cwd=self.work, mem_gb=mem_gb)
            return out, cmd, rc, text, secs

        with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
            for out, cmd, rc, text, secs in ex.map(one, range(parts)):
                if rc == 3:
                    raise ToolError("driver: " + text[-2000:])
                if rc != 0:
                    how = "does not finish" if rc is None else f"ends abnormally (status {rc})"
                    self.violation(f"{driver}: the code under test {how}: {first_panic(text)}", {
                        "command": cmd, "status": rc, "seconds": round(secs, 1), "output": text[-6000:],
                        "last_records": tail_lines(out, 3)})
                outs.append(out)
        return [o for o in outs if os.path.exists(o) and os.path.getsize(o) > 0]

    # ---- checking traces against a specification
    def validate(self, module, files, cfg="T.cfg", timeout=600, max_lines=60000, heap="3g", env_extra=None,
                 group=("inst",), samples=2, sample_kinds=None):
        chunks = []
        for f in files:
            chunks += self.split(f, max_lines, group, samples, sample_kinds)
        if not chunks:
            return []

        def one(c):
            return c, tlc(module, cfg, self.work, trace=c, timeout=timeout, heap=heap, env_extra=env_extra)

        results = []
        with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
            for c, r in ex.map(one, chunks):
                self.judge(module, c, r)
                results.append(r)
        return results

    def split(self, path, max_lines, group, samples, sample_kinds):
        """Cuts a trace at group boundaries; a last incomplete line (crash) is dropped."""
        chunks, cur, n = [], [], 0
        groups = 0
        with open(path, "r", errors="replace") as f:
            lines = f.read().split("\n")
        complete = lines[:-1]
        for line in complete:
            m = re.search(r'"k":"([a-zA-Z_]+)"', line)
            kind = m.group(1) if m else "?"
            try_kind = kind
            if try_kind in group:
                groups += 1
                if len(cur) >= max_lines:
                    chunks.append(cur)
                    cur = []
            cur.append(line)
            self.kinds[kind] = self.kinds.get(kind, 0) + 1
            if (sample_kinds is None or kind in sample_kinds) and kind not in group \
                    and sum(1 for s in self.samples if s.get("k") == kind) < samples:
                try:
                    self.samples.append(json.loads(line) if len(line) < 3000 else {"k": kind, "begins": line[:600]})
                except ValueError:
                    pass
            n += 1
        if cur:
            chunks.append(cur)
        self.traces += groups
        self.records += n
        names = []
        for i, c in enumerate(chunks):
            name = f"{path}.c{i}"
            with open(name, "w") as f:
                f.write("\n".join(c) + "\n")
            names.append(name)
        return names

    def judge(self, module, chunk, r):
        self.states += r["distinct"]
        self.transitions += r["states"]
        if r["bad"]:
            with open(chunk) as f:
                lines = f.read().split("\n")
            for line, names in r["bad"][:3]:
                rec = lines[line - 1] if line <= len(lines) else ""
                inst = next((x for x in reversed(lines[:line]) if '"k":"inst"' in x), "")
                what = f"{module}: {names}"
                self.violation(what, {
                    "spec": module, "failing": names, "line": line, "record": parse(rec), "instance": parse(inst),
                    "previous": [parse(x) for x in lines[max(0, line - 3):line - 1]],
                    "disagreements_in_this_chunk": len(r["bad"])})
            return
        if r["rc"] == 0 and r["done"] is not None and "No error has been found" in r["out"]:
            return
        out = r["out"]
        if r["rc"] is None:
            raise ToolError(f"TLC did not finish on {module}")
        if "OutOfMemoryError" in out or "StackOverflow" in out or "Parsing or semantic analysis failed" in out:
            raise ToolError(f"TLC on {module}:\n" + out[-3000:])
        ls = [int(x) for x in re.findall(r"/\\ l = (\d+)", out)]
        if "Error:" in out and EVAL_ERROR.search(out) and ls:
            line = max(ls) + 1
            with open(chunk) as f:
                lines = f.read().split("\n")
            rec = lines[line - 1] if line <= len(lines) else ""
            inst = next((x for x in reversed(lines[:line]) if '"k":"inst"' in x), "")
            err = out[out.index("Error:"):]
            self.violation(f"{module}: the record is outside the specification", {
                "spec": module, "line": line, "record": parse(rec), "instance": parse(inst), "tlc": err[:3000]})
            return
        raise ToolError(f"TLC on {module}: rc {r['rc']}\n" + out[-3000:])

    def need(self, **kinds):
        """Vacuity: enough records of each kind must have been seen (when nothing was violated)"""
        if self.violations:
            return
        for k, v in kinds.items():
            if self.kinds.get(k, 0) < v:
                raise ToolError(f"vacuous: only {self.kinds.get(k, 0)} records of kind {k}, expected {v}")

    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces or self.records,
                "records_compared": self.records, "records_by_kind": self.kinds,
                "models": self.models, "behaviours_of_the_specification_replayed": self.replayed, "samples": self.samples[:6], **self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)


def read_behaviours(path):
    """The different lines TLC has written, or None if some are damaged"""
    seen = {}
    with open(path) as f:
        for line in f:
            try:
                x = json.loads(line)
                if isinstance(x, str):
                    json.loads(x)
                    seen[x] = 1
                else:
                    seen[line.strip()] = 1
            except ValueError:
                return None
    return sorted(seen)


def parse(x):
    try:
        return json.loads(x)
    except ValueError:
        return x[:2000]


def tail_lines(path, k):
    try:
        with open(path, errors="replace") as f:
            return [x[:3000] for x in f.read().split("\n")[-k - 1:] if x]
    except OSError:
        return []


def first_panic(text):
    m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", text)
    if m:
        return f"{m.group(1)} {m.group(2)}"[:200]
    lines = [x for x in text.strip().split("\n") if x]
    return lines[-1][:200] if lines else ""


def main(props):
    if len(sys.argv) < 2 or sys.argv[1] not in props:
        print("usage: check PROPERTY [quick|thorough]   properties:", " ".join(sorted(props)))
        sys.exit(2)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    run = Run(pid, tier, seed)
    try:
        props[pid](run)
        run.join()
    except ToolError as e:
        if not run.violations:
            print(f"ERROR in the check of {pid}: {e}")
            shutil.rmtree(run.work, ignore_errors=True)
            sys.exit(2)
    except Exception:
        if not run.violations:
            shutil.rmtree(run.work, ignore_errors=True)
            raise
    run.finish()
    if run.violations:
        what, path = run.violations[0]
        print(f"{len(run.violations)} disagreements; first: {what}")
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    print(f"OK {pid}: {run.traces} traces, {run.records} records, {run.states} states, "
          f"{time.time() - run.t0:.1f} s")
    sys.exit(0)
