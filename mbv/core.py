"""Runs TLC and the conformance harness, compares, reports."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def _tail(out):
    lines = [l for l in out.splitlines() if not re.match(r'(Parsing|Semantic|Linting|Computed |"@@)', l)]
    text = "\n".join(lines)
    return text if len(text) < 8000 else text[:5000] + "\n...\n" + text[-3000:]


class Tlc:
    """Result of one TLC run."""

    def __init__(self, name, out, rc, wall):
        self.name, self.out, self.rc, self.wall = name, out, rc, wall
        self.msgs = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"@@'):
                text = json.loads('"' + line[3:-1] + '"') if '\\' in line else line[3:-1]
                self.msgs.append(json.loads(text))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        # The line in the final summary is the last one.
        ms = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct, self.left = map(int, ms[-1]) if ms else (0, 0, -1)
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out
        del m


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.dir = tempfile.mkdtemp(prefix=f"mbv-{pid}-")
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0          # recorded runs of the real code judged by TLC
        self.replayed = 0        # behaviours of the specification replayed in the real code
        self.models = []
        self.violations = []
        self.known = []
        self.samples = []
        self.notes = {}
        self.n = 0
        self._build = None
        self._build_err = None

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- harness
    def start_build(self):
        def go():
            try:
                self._do_build()
            except BaseException as e:  # reported by binary()
                self._build_err = e
        self._build = threading.Thread(target=go)
        self._build.start()

    def _do_build(self):
        env = dict(os.environ, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        fp = os.path.join(HARNESS, "target", "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("subtile-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("harness does not build:\n" + p.stdout[-4000:])
        # A private copy: another check may rebuild the target folder.
        self.exe = os.path.join(self.dir, "conf")
        shutil.copy2(os.path.join(HARNESS, "target", "debug", "conf"), self.exe)

    def binary(self):
        if self._build is None:
            self.start_build()
        self._build.join()
        if self._build_err:
            raise self._build_err
        return self.exe

    def run_cases(self, cases, limit=20):
        """Run cases in the real code; returns the cases with `out`."""
        exe = self.binary()
        results = []
        for c in cases:
            # Some cases run with a logger that formats every message: it may not matter.
            c.setdefault("log", int((c["id"] * 7919 + self.seed * 13) % 10 < 3))
        todo = list(cases)
        hangs = 0
        while todo:
            inp = "\n".join(json.dumps(c, separators=(",", ":")) for c in todo) + "\n"
            scratch = tempfile.mkdtemp(dir=self.dir)
            p = subprocess.run([exe, scratch, str(limit)], input=inp.encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            shutil.rmtree(scratch, ignore_errors=True)
            # The library may print lines of its own.
            out = [json.loads(l[2:]) for l in p.stdout.decode(errors="replace").split("\n") if l.startswith("#R")]
            if p.returncode == 0:
                if len(out) != len(todo):
                    raise ToolError(f"harness answered {len(out)} of {len(todo)} cases")
                results += out
                break
            if p.returncode == 9 and any(e.get("t") == "hang" for r in out for e in r["out"]):
                results += out
                done = {r["id"] for r in out}
                todo = [c for c in todo if c["id"] not in done]
                hangs += 1
                if hangs > 2:
                    break
                continue
            # The process died (stack overflow, abort, out of memory): find the case.
            if len(todo) == 1:
                results.append(dict(todo[0], out=[{"t": "panic", "d": f"process ended: {p.returncode}"}]))
                break
            culprit = self._bisect(exe, todo, limit)
            if culprit is None:
                raise ToolError(f"harness failed: {p.returncode} {p.stderr[-500:]!r}")
            results.append(dict(culprit, out=[{"t": "panic", "d": f"process ended: {p.returncode}"}]))
            todo = [c for c in todo if c["id"] != culprit["id"]]
            hangs += 1
            if hangs > 2:
                break
        results.sort(key=lambda r: r["id"])
        return results

    def _bisect(self, exe, todo, limit):
        lo = todo
        while len(lo) > 1:
            half = lo[:len(lo) // 2]
            inp = "\n".join(json.dumps(c) for c in half) + "\n"
            scratch = tempfile.mkdtemp(dir=self.dir)
            p = subprocess.run([exe, scratch, str(limit)], input=inp.encode(),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            lo = half if p.returncode != 0 else lo[len(lo) // 2:]
        inp = json.dumps(lo[0]) + "\n"
        scratch = tempfile.mkdtemp(dir=self.dir)
        p = subprocess.run([exe, scratch, str(limit)], input=inp.encode(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return lo[0] if p.returncode != 0 else None

    # ---- TLC
    def tlc(self, module, cfg, env=None, workers=4, timeout=600, heap="4g", args=(), name=None):
        self.n += 1
        meta = os.path.join(self.dir, f"tlc{self.n}")
        cfgfile = os.path.join(self.dir, f"{module}{self.n}.cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", f"-Djava.io.tmpdir={self.dir}", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4",
               "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfgfile, *args, module + ".tla"]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timeout on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return Tlc(name or module, p.stdout, p.returncode, time.time() - t0)

    def model(self, module, cfg, name=None, **kw):
        """Exhaustive model checking of a bounded configuration: an error here is an error of the
        specification, not of the code under test."""
        r = self.tlc(module, cfg, name=name, **kw)
        if not r.ok or r.left != 0:
            raise ToolError(f"model {name or module} is not clean:\n" + _tail(r.out))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"model": name or module, "distinct": r.distinct, "generated": r.generated,
                            "wall_s": round(r.wall, 1), "behaviours_printed": len(r.msgs)})
        return r

    def prove(self, module, inv, init="Init", steps=0):
        """An invariant of all values, without bounds, decided by Apalache: for steps = 1 that a step keeps it."""
        t0 = time.time()
        out = os.path.join(self.dir, "apalache")
        e = dict(os.environ, TMPDIR=self.dir, JVM_ARGS=f"-Xmx2g -Djava.io.tmpdir={self.dir}")
        cmd = ["apalache-mc", "check", f"--init={init}", f"--length={steps}", f"--inv={inv}", f"--out-dir={out}",
               f"--run-dir={out}/run", module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            raise ToolError(f"Apalache timeout on {module}")
        finally:
            shutil.rmtree(out, ignore_errors=True)
        if p.returncode != 0 or "The outcome is: NoError" not in p.stdout:
            raise ToolError(f"{module}: {inv} is not proved:\n" + _tail(p.stdout))
        self.models.append({"model": f"{module}: {inv} for all values, {'one step from ' if steps else ''}{init} (Apalache)",
                            "wall_s": round(time.time() - t0, 1)})

    def judge(self, module, cfg, results, name=None, batch=6000, **kw):
        """Trace checking: every recorded run must be accepted by the specification."""
        bad = []
        todo = [results[i:i + batch] for i in range(0, len(results), batch)]
        for part in todo:
            path = os.path.join(self.dir, f"trace{self.n}.ndjson")
            with open(path, "w") as f:
                for r in part:
                    f.write(json.dumps(r, separators=(",", ":")) + "\n")
            kw.setdefault("workers", 8)
            kw.setdefault("heap", "6g")
            r = self.tlc(module, cfg, env={"TRACE": path}, name=name, **kw)
            os.unlink(path)
            verdict = {}
            for m in r.msgs:
                verdict[m["run"]] = m
            # A recorded value of another kind than the specified one (a text for a number) is not
            # comparable for TLC: it differs.
            other = re.search(r"Attempted to (compare|check) equality of .*?^/\\ run = (\d+)$", r.out, re.S | re.M)
            if other and len(verdict) != len(part):
                k = int(other.group(2))
                bad.append((part[k - 1], {"ev": "a value of another kind"}))
                if len(bad) < 5 and len(part) > 1:
                    todo.append(part[:k - 1] + part[k:])
                continue
            if not r.ok or r.left != 0 or len(verdict) != len(part):
                raise ToolError(f"trace check {module}: {len(verdict)} verdicts for {len(part)} runs\n" + _tail(r.out))
            self.states += r.distinct
            self.transitions += r.generated
            self.traces += len(part)
            for k, m in sorted(verdict.items()):
                if not m["ok"]:
                    bad.append((part[k - 1], m))
        for case, m in bad:
            self.violation(case, {"expected_by_specification": m.get("ev")})
        return bad

    # ---- verdicts
    def violation(self, case, info):
        self.violations.append((case, info))

    def sample(self, x):
        if len(self.samples) < 3:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    def finish(self, level):
        wall = time.time() - self.t0
        replay = None
        if self.violations:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, (case, info) in enumerate(self.violations[:5]):
                replay_i = os.path.join("replays", f"{self.pid}-{i}.json")
                with open(os.path.join(VERIF, replay_i), "w") as f:
                    json.dump({"property": self.pid, "seed": self.seed, "case": case, "info": info}, f, indent=1)
                replay = replay or replay_i
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "behaviours_of_the_specification_replayed": self.replayed,
            "models": self.models, "samples": self.samples or ["none"],
        }
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": ["TLC, its JSON modules and the harness in /verif/harness are trusted",
                              "the real code was only observed on the listed runs; the models are exhaustive within their bounds"],
              "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if self.violations:
            case, info = self.violations[0]
            print(json.dumps({"case": case, "info": info})[:2000])
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.states} traces={self.traces} "
              f"replayed={self.replayed} wall={wall:.1f}s")
        return 0


def main(pid, plans):
    ctx = Ctx(pid)
    try:
        level = plans[pid](ctx) or "model_checking"
        return ctx.finish(level)
    except ToolError as e:
        print(f"TOOL ERROR property={pid}: {e}")
        return 2
    except BaseException:
        traceback.print_exc()
        return 2
    finally:
        if ctx._build is not None:
            ctx._build.join()
        shutil.rmtree(ctx.dir, ignore_errors=True)
