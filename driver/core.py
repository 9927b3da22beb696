"""Running TLC and the harness, and reporting what a check found."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, ".work")
REPO = os.environ.get("JOTDOWN_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8


class Broken(Exception):
    """The machinery itself failed; nothing is said about the property."""


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.quick = tier == "quick"
        # stop starting new work after this, whatever is left to explore
        self.soft = self.start + (360 if self.quick else 3000)
        self.hard = self.start + (800 if self.quick else 7200)
        self.lock = threading.Lock()
        self.violations = []
        self.states = self.transitions = self.traces = self.events = 0
        self.modules = {}
        self.samples = []
        self.skipped = 0
        self.notes = {}
        self.dir = os.path.join(WORK, f"{prop}-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)
        self.counter = 0

    # --- bookkeeping --------------------------------------------------------
    def path(self, suffix):
        with self.lock:
            self.counter += 1
            return os.path.join(self.dir, f"{self.counter}.{suffix}")

    def late(self):
        return time.time() > self.soft or len(self.violations) >= 40

    def left(self):
        t = self.hard - time.time()
        if t <= 5:
            raise Broken("out of time")
        return t

    def violation(self, what, case):
        with self.lock:
            self.violations.append({"what": what, "case": case})

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    # --- building -----------------------------------------------------------
    def build(self, features=(), name="harness"):
        target = os.path.join(WORK, "target" + ("-" + "-".join(features) if features else ""))
        cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")]
        if features:
            cmd += ["--features", ",".join(features)]
        env = dict(os.environ, CARGO_TARGET_DIR=target)
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=self.left())
        if r.returncode != 0:
            raise Broken("harness does not build:\n" + r.stderr[-4000:])
        return os.path.join(target, "debug", name)

    def build_cli(self):
        target = os.path.join(WORK, "target-cli")
        env = dict(os.environ, CARGO_TARGET_DIR=target)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--locked", "--features", "cli", "--bin", "jotdown",
                            "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                           env=env, capture_output=True, text=True, timeout=self.left())
        if r.returncode != 0:
            raise Broken("tool does not build:\n" + r.stderr[-4000:])
        return os.path.join(target, "debug", "jotdown")

    # --- TLC ----------------------------------------------------------------
    def tlc(self, module, clauses, env, simulate=None, depth=None, seed=None, heap="3g"):
        """Run TLC; gives its output lines.  clauses: lines of the configuration."""
        cfg = self.path("cfg")
        with open(cfg, "w") as f:
            f.write("\n".join(["SPECIFICATION Spec"] + list(clauses)) + "\n")
        meta = self.path("meta")
        cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS,
               "-DTLA-Library=" + SPEC, "tlc2.TLC", "-deadlock", "-workers", "1", "-noGenerateSpecTE",
               "-metadir", meta, "-config", cfg]
        if simulate is not None:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        began = time.time()
        e = dict(os.environ, **{k: str(v) for k, v in env.items()})
        out = self.path("out")
        try:
            with open(out, "w") as f:
                try:
                    subprocess.run(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, cwd=self.dir, timeout=self.left())
                except subprocess.TimeoutExpired:
                    raise Broken(f"TLC ran out of time on {module}")
            with open(out, encoding="utf-8", errors="replace") as f:
                lines = f.read().split("\n")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
            for p in (out, cfg):
                if os.path.exists(p):
                    os.unlink(p)
        text = "\n".join(lines[-60:])
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", text)
        gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not m:
            s = re.findall(r"number of states generated: ([\d,]+)", text)
            if s:
                gen = dis = int(s[-1].replace(",", ""))
        with self.lock:
            self.states += dis
            self.transitions += gen
            x = self.modules.setdefault(module, {"runs": 0, "distinct_states": 0, "states_generated": 0, "seconds": 0})
            x["runs"] += 1
            x["distinct_states"] += dis
            x["states_generated"] += gen
            x["seconds"] = round(x["seconds"] + time.time() - began, 1)
        return lines

    def model(self, module, clauses, env, prefix, **kw):
        """Explore a model: its laws must hold; gives what it wrote out."""
        lines = self.tlc(module, clauses, env, **kw)
        bad = [l for l in lines if l.startswith("Error:") or "LAW" in l[:8]]
        done = any(l.startswith(("Model checking completed. No error", "The number of states generated")) or
                   "Simulation" in l and "finished" in l.lower() for l in lines[-40:])
        if bad or not (done or kw.get("simulate") is not None):
            raise Broken(f"{module} violates its own laws or did not finish:\n" + "\n".join((bad or lines)[-30:])[:3000])
        out = []
        for l in lines:
            if l.startswith('"' + prefix):
                out.append(l.rstrip()[1 + len(prefix):-1].replace('\\"', '"').replace("\\\\", "\\"))
        return out

    def judge(self, module, records, env, describe):
        """Have TLC judge records (JSON texts); each failing one is a violation."""
        if not records:
            return
        path = self.path("json")
        with open(path, "w") as f:
            f.write("[" + "\n,".join(records) + "]")
        lines = self.tlc(module, [], dict(env, IN=path))
        os.unlink(path)
        done = None
        for l in lines:
            m = re.match(r'"VERDICT (\d+) (.*)"$', l)
            if m:
                self.violation(m.group(2).replace('\\"', '"')[:1500], describe(int(m.group(1)) - 1))
            m = re.match(r'"DONE (\d+)"', l)
            if m:
                done = int(m.group(1))
        if done == len(records):
            with self.lock:
                self.traces += len(records)
            return
        text = "\n".join(lines)
        if "OutOfMemory" in text or "GC overhead" in text:
            if len(records) == 1:
                raise Broken(f"{module}: out of memory")
            h = len(records) // 2
            self.judge(module, records[:h], env, describe)
            self.judge(module, records[h:], env, lambda i: describe(i + h))
            return
        # the specification cannot evaluate the record: it is outside of the model
        ats = re.findall(r"^(?:/\\ )?at = (\d+)", text, re.M)
        err = [l for l in lines if not l.startswith('"')]
        if not ats or "Error:" not in text:
            raise Broken(f"{module} failed:\n" + "\n".join(err[-40:]))
        at = int(ats[-1])
        if at >= len(records):
            raise Broken(f"{module} failed after its last record:\n" + "\n".join(err[-40:]))
        # once more alone, to be sure that it is the record
        if len(records) > 1:
            self.judge(module, records[at:at + 1], env, lambda i: describe(at))
            self.judge(module, records[at + 1:], env, lambda i: describe(i + at + 1))
            with self.lock:
                self.traces += at
        else:
            why = next((l for l in err if l.startswith("Error:")), "")
            self.violation("the specification has no account of this observation: " + " ".join(err)[:1200] + why, describe(0))

    # --- harness ------------------------------------------------------------
    def harness(self, binary, args, timeout=None):
        t = min(self.left(), timeout or 700)
        try:
            r = subprocess.run([binary] + args, capture_output=True, text=True, timeout=t, errors="replace")
            return r.returncode, r.stderr[-500:]
        except subprocess.TimeoutExpired:
            return 97, "timeout"

    def observe(self, binary, command, inputs, extra=(), as_json=False):
        """Run inputs (hex lines or JSON texts) through the harness; JSON texts of records, None for
        an input that ends the harness."""
        if not inputs:
            return []
        src, out = self.path("in"), self.path("obs")
        with open(src, "w") as f:
            f.write("[" + ",\n".join(inputs) + "]" if as_json else "\n".join(inputs) + "\n")
        rc, err = self.harness(binary, [command, src, out] + list(extra))
        recs = None
        if rc == 0:
            with open(out, encoding="utf-8") as f:
                text = f.read()
            recs = text[1:-1].rstrip().split("\n,")
            if len(recs) != len(inputs):
                raise Broken(f"{command}: {len(recs)} records for {len(inputs)} inputs")
        for p in (src, out):
            if os.path.exists(p):
                os.unlink(p)
        if recs is not None:
            return recs
        if len(inputs) == 1:
            self.violation(f"the process ended with status {rc}: {err}", {"command": command, "input": inputs[0][:20000]})
            return [None]
        if len(self.violations) >= 3:
            return [None] * len(inputs)
        h = len(inputs) // 2
        return (self.observe(binary, command, inputs[:h], extra, as_json)
                + self.observe(binary, command, inputs[h:], extra, as_json))

    # --- end ----------------------------------------------------------------
    def parallel(self, f, items):
        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            futs = [ex.submit(f, x) for x in items]
            for x in futs:
                x.result()

    def finish(self, assumptions, coverage=None):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples, "tlc_runs": self.modules,
                "inputs_skipped_for_time": self.skipped, **self.notes, **(coverage or {})},
            "assumptions": assumptions,
            "wall_s": round(time.time() - self.start, 1),
            "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.dir, ignore_errors=True)
        if not self.violations:
            print(f"{self.prop}: held on {self.traces} recorded traces; {self.states} states of the specification; "
                  f"{ev['wall_s']} s")
            return 0
        rep = os.path.join(WORK, "replay")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, f"{self.prop}.json")
        # shortest case first
        self.violations.sort(key=lambda v: len(json.dumps(v["case"])))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "violations": self.violations[:20]}, f, indent=1)
        v = self.violations[0]
        print(f"{self.prop}: {len(self.violations)} violations; the first: {json.dumps(v['case'])[:600]}\n  {v['what'][:600]}")
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1
