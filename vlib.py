"""Driver library: builds the harness, runs TLC, replays model behaviours in the real code and
validates the recorded traces against the TLA+ trace specifications."""
import json, os, re, shutil, subprocess, sys, time, hashlib, random, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.environ.get("VERIF_TARGET_DIR", os.path.join(ROOT, "target"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, payload):
        super().__init__(what)
        self.what = what
        self.payload = payload


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.work = os.path.join(ROOT, "work", pid + ("-t" if self.thorough else ""))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.rng = random.Random(seed)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "trace_events": 0, "design_runs": [], "event_counts": {}}
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hits = set()
        self.n = 0
        self.lock = threading.Lock()

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, *bins):
        env = dict(os.environ)
        env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never",
                   RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUST_BACKTRACE="0")
        for k in ("RUSTC_WRAPPER", "CARGO_PROFILE_DEV_OPT_LEVEL", "CARGO_PROFILE_DEV_DEBUG", "CARGO_INCREMENTAL"):
            env.pop(k, None)
        lock = os.path.join(HARNESS, "Cargo.lock")
        cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
        for b in bins:
            cmd += ["--bin", b]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("harness build failed:\n" + p.stdout[-6000:])
        self.log("built", *bins)

    # ---------------------------------------------------------------- TLC
    def _cfg(self, name, spec, consts, inv, props, view, constraint, post, symmetry=None):
        s = ["SPECIFICATION " + spec]
        if consts:
            s.append("CONSTANTS")
            for k, v in consts.items():
                s.append("  %s = %s" % (k, v) if not str(v).startswith("<-") else "  %s %s" % (k, v))
        if inv: s.append("INVARIANTS " + " ".join(inv))
        if props: s.append("PROPERTIES " + " ".join(props))
        if view: s.append("VIEW " + view)
        if constraint: s.append("CONSTRAINT " + constraint)
        if post: s.append("POSTCONDITION " + post)
        s.append("CHECK_DEADLOCK FALSE")
        path = os.path.join(self.work, name + ".cfg")
        with open(path, "w") as f:
            f.write("\n".join(s) + "\n")
        return path

    def _java(self, module, cfg, args, env_extra, workers, timeout, heap):
        self.n += 1
        meta = os.path.join(self.work, "meta%d_%s" % (self.n, hashlib.md5(cfg.encode()).hexdigest()[:8]))
        env = dict(os.environ)
        env.pop("JAVA_TOOL_OPTIONS", None)
        env.update(env_extra or {})
        cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % min(4, max(1, workers)),
               "-XX:TieredStopAtLevel=%d" % (4 if workers > 1 else 4),
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
               "-config", cfg] + args + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b""
            out, rc = (o.decode(errors="replace") if isinstance(o, bytes) else o), -1
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out, time.time() - t

    @staticmethod
    def _stats(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m: gen = dist = int(m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        return gen, dist, (int(m[-1]) if m else 0)

    def model(self, module, spec="MSpec", consts=None, inv=(), props=(), view=None, constraint=None, post=None,
              name=None, workers=NCPU, timeout=600, heap="8g", simulate=None, env=None, must_hold=True, coverage=False):
        """Check a design model with TLC (exhaustively, or by simulation when simulate=(num, depth)).
        Returns (emitted cases, stats). A violated invariant of the *specification itself* is a tool error:
        it does not depend on the code under test."""
        name = name or module
        cfg = self._cfg(name + "_%d" % self.n, spec, consts or {}, list(inv), list(props), view, constraint, post)
        args = []
        if simulate:
            num, depth = simulate
            per = max(1, num // workers)
            args += ["-simulate", "num=%d" % per, "-depth", str(depth), "-seed", str(self.seed)]
        if coverage: args += ["-coverage", "1"]
        rc, out, dt = self._java(module, cfg, args, env, workers, timeout, heap)
        with open(os.path.join(self.work, name + "_%d.out" % self.n), "w") as f:
            f.write(out)
        gen, dist, depth = self._stats(out)
        if rc == -1:
            raise ToolError("TLC timed out on %s" % name)
        if rc != 0 and must_hold:
            raise ToolError("TLC rejected the specification %s (rc %d):\n%s" % (name, rc, out[-4000:]))
        cases = []
        for line in out.splitlines():
            if line.startswith('"CASE '):
                cases.append(json.loads(json.loads(line)[5:]))
        cases.sort(key=lambda c: json.dumps(c, sort_keys=True))   # TLC's workers print in any order
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["design_runs"].append({"model": name, "mode": "simulate" if simulate else "exhaustive",
                                        "constants": {k: str(v) for k, v in (consts or {}).items()},
                                        "states": dist, "transitions": gen, "depth": depth, "emitted_cases": len(cases),
                                        "invariants": list(inv) + list(props), "wall_s": round(dt, 1)})
        self.log("model %s: %d states, %d transitions, %d cases, %.1fs" % (name, dist, gen, len(cases), dt))
        return cases, {"rc": rc, "out": out, "states": dist, "gen": gen}

    def refuted(self, module, inv, name, **kw):
        """A deliberately wrong variant of the design: TLC has to find a counterexample to `inv`, or the
        invariant says too little."""
        _, st = self.model(module, inv=inv, name=name, must_hold=False, **kw)
        if "is violated" not in st["out"]:
            raise ToolError("the wrong variant %s was not refuted (rc %d):\n%s" % (name, st["rc"], st["out"][-3000:]))
        self.cov["design_runs"][-1]["mode"] = "refuted, as intended"

    # ---------------------------------------------------------------- harness
    def harness(self, binname, cases, args=(), timeout=300, env=None, jobs=1):
        """Run the real code on the cases; returns the list of recorded sessions (lists of JSON lines)."""
        if jobs > 1 and len(cases) > jobs:
            parts = [cases[len(cases) * i // jobs:len(cases) * (i + 1) // jobs] for i in range(jobs)]
            with ThreadPoolExecutor(jobs) as ex:
                return [x for r in ex.map(lambda p: self.harness(binname, p, args, timeout, env), parts) for x in r]
        with self.lock:
            self.n += 1
            n = self.n
        inp = os.path.join(self.work, "cases%d.ndjson" % n)
        outp = os.path.join(self.work, "trace%d.ndjson" % n)
        with open(inp, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        e = dict(os.environ)
        e.update(env or {})
        e.update(VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, RUST_BACKTRACE="0")
        exe = os.path.join(TARGET, "debug", binname)
        t = time.time()
        try:
            p = subprocess.run([exe, inp, outp] + [str(a) for a in args], env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=self.work)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = "timeout", ""
        lines = []
        if os.path.exists(outp):
            with open(outp) as f:
                lines = [x.rstrip("\n") for x in f if x.strip()]
        if rc == 2:
            raise ToolError("harness %s failed:\n%s" % (binname, out[-4000:]))
        if rc != 0:
            # the process running the real code crashed or hung: that is an observation about the code
            last = split_sessions(lines)[-1] if lines else []
            raise Violation("the code under test %s while executing a case" %
                            ("did not return" if rc == "timeout" else "crashed the process (status %s)" % rc),
                            {"harness": binname, "last_session": last, "output": out[-2000:]})
        sessions = split_sessions(lines)
        self.log("harness %s: %d cases -> %d sessions, %d events, %.1fs" %
                 (binname, len(cases), len(sessions), len(lines), time.time() - t))
        return sessions

    # ---------------------------------------------------------------- trace validation
    def validate(self, module, sessions, consts=None, name=None, timeout=600, heap="2g", jobs=NCPU, max_events=None, env=None):
        """Validate recorded sessions against a trace specification; raises Violation on the first rejection
        that is not a listed known finding."""
        name = name or module
        pending = [s for s in sessions if s]
        total = sum(len(s) for s in pending)
        jobs = max(1, min(jobs, (total // 60) + 1, len(pending)))
        chunks = [[] for _ in range(jobs)]
        sizes = [0] * jobs
        weights = [sum(len(x) for x in s) for s in pending]
        for idx in sorted(range(len(pending)), key=lambda i: -weights[i]):
            s = pending[idx]
            k = sizes.index(min(sizes))
            chunks[k].append(s)
            sizes[k] += weights[idx] + 200 * len(s)
        t = time.time()

        def one(k):
            chunk = chunks[k]
            while True:
                path = os.path.join(self.work, "%s_%d_%d.ndjson" % (name, self.n, k))
                with open(path, "w") as f:
                    for s in chunk:
                        for x in s:
                            f.write(x + "\n")
                nlines = sum(len(s) for s in chunk)
                cfg = self._cfg("%s_c%d_%d" % (name, k, self.n), "TSpec", consts or {}, [], [], None, None, "TraceAccepted")
                ee = {"TRACE": path}
                ee.update(env or {})
                rc, out, dt = self._java(module, cfg, [], ee, 1, timeout, heap)
                gen, dist, depth = self._stats(out)
                self.cov["states"] += dist
                self.cov["transitions"] += gen
                if rc == 0:
                    if dist < nlines + 1:
                        raise ToolError("trace validation of %s accepted with too few states (%d for %d lines)" % (name, dist, nlines))
                    return None, chunk
                m = re.search(r'"STUCK (\d+)', out)
                evalerr = None
                if m:
                    stuck = int(m.group(1))       # 1-based index of the first line that was not accepted
                elif rc == -1:
                    raise ToolError("TLC timed out validating %s" % name)
                else:
                    if "OutOfMemory" in out or "StackOverflow" in out or rc == 150 or "Parsing or semantic analysis failed" in out:
                        raise ToolError("TLC failed on %s:\n%s" % (name, out[-4000:]))
                    # evaluation of the trace action failed on a recorded value: find the line from the state printed
                    ls = re.findall(r"/\\ l = (\d+)", out) or re.findall(r"^l = (\d+)", out, re.M)
                    if not ls:
                        raise ToolError("TLC failed on %s:\n%s" % (name, out[-4000:]))
                    stuck = max(int(x) for x in ls)
                    evalerr = out[-1500:]
                # locate the session
                pos = 0
                for si, s in enumerate(chunk):
                    if pos + len(s) >= stuck:
                        break
                    pos += len(s)
                rel = stuck - pos - 1
                payload = {"property": self.pid, "trace_spec": module, "rejected_event_index": rel,
                           "rejected_event": json.loads(s[rel]), "session": [json.loads(x) for x in s],
                           "tlc": evalerr or out[-600:], "constants": consts or {},
                           "how": "events of one session of the real code; TLC accepts the prefix and rejects rejected_event "
                                  "(TRACE=<session as ndjson> tlc %s.tla)" % module}
                key = self.match_known(payload)
                if key is None:
                    return payload, chunk
                self.known_hits.add(key)
                del chunk[si]
                if not chunk:
                    return None, chunk

        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(one, range(jobs)))
        bad = [r for r, _ in res if r is not None]
        good = sum(len(c) for r, c in res if r is None)
        self.cov["traces_validated_against_impl"] += good
        self.cov["trace_events"] += sum(len(s) for r, c in res if r is None for s in c)
        for s in pending:
            for x in s:
                m = re.search(r'"op":"(\w+)"', x)
                if m:
                    self.cov["event_counts"][m.group(1)] = self.cov["event_counts"].get(m.group(1), 0) + 1
        if pending and len(self.cov["samples"]) < 4:
            for s in (pending[len(pending) // 2],):
                smp = [x if len(x) < 600 else x[:600] + "..." for x in s[:6]]
                self.cov["samples"].append({"trace_spec": module, "session_events": smp})
        self.log("validated %s: %d sessions, %d events, %.1fs%s" %
                 (name, len(pending), total, time.time() - t, " REJECTED" if bad else ""))
        if bad:
            bad.sort(key=lambda b: len(b["session"]))
            raise Violation("a recorded execution is not a behaviour of %s" % module, bad[0])

    # ---------------------------------------------------------------- known findings
    def match_known(self, payload):
        txt = json.dumps(payload["rejected_event"], sort_keys=True, separators=(",", ":"))
        for k in self.known:
            if k["match"] in txt:
                return k["text"]
        return None

    def evidence(self, violations):
        cov = dict(self.cov)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)


def split_sessions(lines):
    out = []
    for x in lines:
        if '"new":1' in x or not out:
            out.append([])
        out[-1].append(x)
    return out


def load_known(pid):
    """KNOWN_FINDINGS.txt: 'finding: property=<id> match=<json substring> :: <what fails>' lines; 'fixed:' lines suppress nothing."""
    res = []
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\w+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                res.append({"match": m.group(2), "text": m.group(3)})
    return res


def main(pid, run, tier, seed):
    ctx = Ctx(pid, tier, seed)
    try:
        run(ctx)
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s%s" % (pid, k["text"], "" if k["text"] in ctx.known_hits else " (not reproduced in this run)"))
        ctx.evidence(0)
        ctx.log("ok: %(states)d states, %(traces_validated_against_impl)d traces validated" % ctx.cov)
        cleanup(ctx)
        return 0
    except Violation as v:
        rp = os.path.join(ROOT, "work", "replay")
        os.makedirs(rp, exist_ok=True)
        txt = json.dumps({"what": v.what, "detail": v.payload}, indent=1)
        path = os.path.join(rp, "%s-%s.json" % (pid, hashlib.md5(txt.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(txt)
        ctx.evidence(1)
        print(v.what)
        ev = v.payload.get("rejected_event")
        if ev is not None:
            print("rejected event:", json.dumps(ev)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        cleanup(ctx)
        return 1
    except ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        return 2


def cleanup(ctx):
    if os.environ.get("VERIF_KEEP"):
        return
    shutil.rmtree(ctx.work, ignore_errors=True)
