"""Shared machinery of the checks: building the harness, running TLC, comparing, evidence."""
import json, os, re, shutil, signal, subprocess, sys, time, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = str(min(8, os.cpu_count() or 4))


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.nvec = 0
        self.samples = []
        self.notes = []
        self.parts = []
        self.assumptions = []
        self.known = []
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)

    def rng(self, name):
        return random.Random(f"{self.seed}/{self.pid}/{name}")

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, msg):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s] {msg}", flush=True)

    def sample(self, x):
        if len(self.samples) < 12:
            t = json.dumps(x)
            self.samples.append(x if len(t) < 3000 else dict(cut=t[:3000]))

    def known_finding(self, line):
        """a listed finding that shows on this tree"""
        print("KNOWN-FINDING: " + line, flush=True)
        self.known.append(line)

    # ---------------------------------------------------------------- build
    def cargo_env(self):
        env = dict(os.environ)
        env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
        env["CARGO_NET_OFFLINE"] = "true"
        env["CARGO_TERM_COLOR"] = "never"
        env["RUSTC_WRAPPER"] = ""
        env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
        # json_quote re-exports a private extern crate, which this rustc denies by default
        env["RUSTFLAGS"] = "-W pub_use_of_private_extern_crate -A warnings --cap-lints warn"
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
        return env

    def cargo(self, crate_dir, timeout=600):
        """build a harness crate; returns (ok, output)"""
        p = subprocess.Popen(["cargo", "build", "--offline"], cwd=crate_dir, env=self.cargo_env(), start_new_session=True,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            out = p.communicate(timeout=timeout)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            return False, f"error: the build did not end within {timeout} s\n" + p.communicate()[0].decode(errors="replace")
        return p.returncode == 0, out

    def harness(self):
        ok, out = self.cargo(os.path.join(VERIF, "harness", "core"))
        if not ok:
            raise ToolError("the harness does not build against /repo:\n" + out[-4000:])
        self.jh = os.path.join(BUILD, "target", "debug", "jh")
        self.log("harness built")

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, env=None, timeout=800, extra=(), on_line=None, heap="8g", tag=None, simulate=None):
        """run TLC on spec/<module>.tla; returns dict(states, generated, violation, trace)"""
        tag = tag or module
        cfg = self.path(tag + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        meta = self.path(tag + ".states")
        shutil.rmtree(meta, ignore_errors=True)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", f"-Xmx{heap}", "-Xss512m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={self.work}", "-cp", TLA, "tlc2.TLC",
               "-config", cfg, "-metadir", meta, "-workers", "1" if simulate else WORKERS, "-fp", "1", "-seed", str(self.seed),
               "-noGenerateSpecTE", "-nowarning", *(["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1])] if simulate else []), *extra, os.path.join(SPEC, module + ".tla")]
        t = time.time()
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        lines = []
        try:
            import threading
            timer = threading.Timer(timeout, p.kill)
            timer.start()
            for raw in p.stdout:
                line = raw.decode(errors="replace").rstrip("\n")
                if on_line and line.startswith('"'):
                    on_line(line)
                else:
                    lines.append(line)
            p.wait()
        finally:
            timer.cancel()
        out = "\n".join(lines)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        r = dict(out=out, generated=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                 violated=None, secs=time.time() - t)
        v = re.search(r"Error: (?:Invariant|Action property|Temporal properties were|Property) ?(\S*) ?(?:is|was|were)? ?violated", out)
        if v:
            r["violated"] = v.group(1) or "property"
            r["trace"] = out[v.start():]
        elif simulate and p.returncode == 0:
            m = re.search(r"The number of states generated: (\d+)", out)
            r["generated"] = r["distinct"] = int(m.group(1)) if m else 0
        elif "Model checking completed. No error has been found." not in out:
            raise ToolError(f"TLC failed on {module} (exit {p.returncode}):\n" + out[-3000:])
        return r

    # ---------------------------------------------------------------- harness runs
    def run_jh(self, args, inp, timeout=600):
        """returns stdout; a crash or hang of the crate under test is a violation"""
        try:
            p = subprocess.run([self.jh, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"harness run over {timeout}s: {args}")
        out = p.stdout.decode(errors="replace")
        if p.returncode == 0:
            return out
        if p.returncode == 3 or p.returncode == 101:
            raise ToolError(f"harness error: {p.stderr.decode(errors='replace')[-2000:]}")
        # the process died or hung inside a case
        try:
            n = int.from_bytes(open(inp + ".at", "rb").read(8), "little")
            with open(inp) as f:
                case = next(l for i, l in enumerate(f) if i == n)
        except Exception:
            raise ToolError(f"harness died (exit {p.returncode}) outside a case: {p.stderr.decode(errors='replace')[-1000:]}")
        what = "hang" if p.returncode == 42 else f"the process died (exit {p.returncode})"
        raise Violation(f"{what} in a call", dict(kind="crash", case=json.loads(case), stderr=p.stderr.decode(errors="replace")[-500:]))

    # ---------------------------------------------------------------- spec -> code
    def vectors(self, name, module, cfg_text, want=None, timeout=800, heap="8g"):
        """TLC explores `module` and emits vectors; the crate must answer each as expected."""
        path = self.path(name + ".vec")
        n = [0]
        with open(path, "w") as f:
            def take(line):
                s = json.loads(line)
                f.write(s + "\n")
                n[0] += 1
                if n[0] in (1, 2, 101):
                    self.sample(dict(vector=json.loads(s), part=name))
            r = self.tlc(module, cfg_text, on_line=take, timeout=timeout, tag=name, heap=heap)
        if r["violated"]:
            raise ToolError(f"the specification itself fails {r['violated']} in {name}:\n{r['trace'][:3000]}")
        if n[0] == 0:
            raise ToolError(f"{name}: no vectors emitted")
        out = self.run_jh(["cmp", path], path)
        m = re.search(r"COMPARED (\d+) (\d+)", out)
        if not m or int(m.group(1)) != n[0]:
            raise ToolError(f"{name}: compared {m and m.group(1)} of {n[0]} vectors")
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.nvec += n[0]
        self.traces += n[0]
        self.parts.append(dict(part=name, direction="spec->code", states=r["distinct"], transitions=r["generated"], vectors=n[0],
                               secs=round(r["secs"], 1)))
        self.log(f"{name}: {r['distinct']} states, {n[0]} vectors replayed in the crate, {m.group(2)} differ")
        if int(m.group(2)):
            d = json.loads(next(l for l in out.splitlines() if l.startswith("DIFF "))[5:])
            raise Violation(f"{name}: the crate does not answer as the specification", dict(kind="vector", **d))
        os.remove(path)

    # ---------------------------------------------------------------- code -> spec
    def traces_of(self, name, cases, tabs=False, module="TraceCases", timeout=800, chunk=None):
        """run the cases in the crate, then have TLC accept or reject what was observed"""
        import num
        cases = list(cases)
        path = self.path(name + ".in")
        with open(path, "w") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        obs = self.path(name + ".obs")
        out = self.run_jh(["exec", path, obs], path)
        m = re.search(r"EXECUTED (\d+)", out)
        if not m or int(m.group(1)) != len(cases):
            raise ToolError(f"{name}: executed {m and m.group(1)} of {len(cases)}")
        allc = []
        with open(obs) as f:
            for line in f:
                c = json.loads(line)
                num.add_tabs(c, tabs)
                allc.append(c)
        self.validate(name, module, allc, timeout, chunk)
        os.remove(path)
        os.remove(obs)

    def validate(self, name, module, allc, timeout=800, chunk=None):
        self.sample(dict(trace=allc[0], part=name))
        self.sample(dict(trace=allc[len(allc) // 2], part=name))
        chunk = chunk or len(allc)
        for lo in range(0, len(allc), chunk):
            part = allc[lo:lo + chunk]
            tp = self.path(name + ".trace")
            with open(tp, "w") as f:
                for c in part:
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
            r = self.tlc(module, open(os.path.join(SPEC, module + ".cfg")).read(), env={"CASES": tp}, timeout=timeout, tag=name)
            self.states += r["distinct"]
            self.transitions += r["generated"] - len(part)
            self.traces += len(part)
            self.parts.append(dict(part=name, direction="code->spec", states=r["distinct"], transitions=r["generated"] - len(part),
                                   traces=len(part), secs=round(r["secs"], 1)))
            self.log(f"{name}: {len(part)} recorded executions validated, {r['distinct']} states")
            if r["violated"]:
                m = re.findall(r"/\\ i = (\d+)", r["trace"]) or re.findall(r"\bi = (\d+)", r["trace"])
                st = re.findall(r"/\\ k = (\d+)", r["trace"])
                if not m:
                    raise ToolError("no case in the TLC counterexample:\n" + r["trace"][:2000])
                case = part[int(m[-1]) - 1]
                raise Violation(f"{name}: no behaviour of the specification explains a recorded execution",
                                dict(kind="trace", case=case, step=int(st[-1]) if st else None))
            os.remove(tp)

    # ---------------------------------------------------------------- end
    def evidence(self, violations):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                                vectors_replayed=self.nvec, parts=self.parts, known_findings=self.known,
                                explanation="; ".join(self.notes)),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
