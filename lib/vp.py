"""Common machinery of all checks: building /repo's current tree, running drivers,
running TLC (design models, script generation, trace validation), verdicts, evidence.

Exit codes of a check: 0 held, 1 violation (with a VIOLATION line), 2 error of the check.
"""

import atexit
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed: neither 'held' nor 'violated' can be said."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.t0 = time.time()
        self.deadline = self.t0 + (780 if self.quick else 10 * 3600)
        self.scratch = tempfile.mkdtemp(prefix=f"vp-{prop}-")
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = 0
        self.distinct = 0
        self.traces = 0
        self.events = 0
        self.event_counts = {}
        self.samples = []
        self.models = []
        self.notes = []
        self.rejected_mutants = 0
        self.mutants = 0
        self.scripts = 0
        self.findings = []
        self.extra = {}

    # ---------- time
    def left(self):
        return self.deadline - time.time()

    def path(self, name):
        return os.path.join(self.scratch, name)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------- building
    def build_libs(self, libs):
        """Configures and builds the given CMake library targets from REPO's working tree."""
        b = os.path.join(BUILD, "cmake")
        os.makedirs(b, exist_ok=True)
        cmd = ["cmake", "-S", REPO, "-B", b, "-G", "Unix Makefiles", "-DCMAKE_BUILD_TYPE=Debug",
               "-DBUILD_TESTING=OFF", ("-DCMAKE_CXX_FLAGS=-Wno-error " + os.environ.get("VP_LIBFLAGS", "")).rstrip(),
               "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++"]
        env = dict(os.environ, LC_ALL="C.UTF-8", LANG="C.UTF-8")
        for k in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "LDFLAGS"):
            env.pop(k, None)
        r = subprocess.run(cmd, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("cmake configuration failed:\n" + r.stdout[-3000:] + r.stderr[-3000:])
        if libs:
            r = subprocess.run(["make", "-C", b, f"-j{NPROC}"] + list(libs), env=env, capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError("library build failed:\n" + r.stdout[-3000:] + r.stderr[-6000:])
        self.libs = list(libs)
        log(f"[{self.prop}] libs built at {time.time() - self.t0:.0f}s")
        return b

    def _compile_one(self, name, libs, flags, sysinc, link):
        b = os.path.join(BUILD, "cmake")
        src = os.path.join(HARNESS, name + ".cpp")
        out_dir = os.path.join(BUILD, "harness")
        os.makedirs(out_dir, exist_ok=True)
        tag = hashlib.sha1(" ".join(flags).encode()).hexdigest()[:6]
        exe = os.path.join(out_dir, f"{name}-{tag}")
        dep = exe + ".d"
        ar = [os.path.join(b, "src", f"libarchon-{x.lower()}.a") for x in reversed(libs)]
        if os.path.exists(exe) and os.path.exists(dep):
            try:
                t = os.path.getmtime(exe)
                deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
                if all(os.path.getmtime(d) < t for d in deps + ar):
                    return exe
            except (OSError, IndexError):
                pass
        cmd = ["g++", "-std=c++20", "-O1", "-g1", "-pthread", "-fconstexpr-ops-limit=100000000", "-w",
               "-DARCHON_DEBUG=1",
               f"-I{REPO}/src", f"-I{b}/src", f"-I{HARNESS}"] + flags + ["-MMD", "-MF", dep, "-o", exe, src]
        if os.environ.get("VP_CXXFLAGS"):
            cmd += os.environ["VP_CXXFLAGS"].split()
        cmd += ["-Wl,--start-group"] + ar + ["-Wl,--end-group"] + link
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError(f"harness {name} does not compile:\n" + r.stderr[:6000])
        return exe

    def compile(self, name, libs=("Core",), flags=(), link=()):
        t = time.time()
        exe = self._compile_one(name, list(libs), list(flags), None, list(link))
        log(f"[{self.prop}] harness {name} built in {time.time() - t:.0f}s")
        return exe

    def compile_many(self, specs):
        """specs: list of (name, libs, flags, link)"""
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(self.compile, *s) for s in specs]
            return [f.result() for f in futs]

    # ---------- TLC
    def _tlc_raw(self, module, cfg_text, *, args=(), env=None, timeout=None, heap="2g", workers=1, props=()):
        """Runs TLC on specs/<module>.tla with the given configuration text."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg_text)
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", JARS] + list(props) + \
              ["tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", "run.cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        out_path = os.path.join(d, "out")
        with open(out_path, "w") as out:
            try:
                rc = subprocess.run(cmd, cwd=d, env=e, stdout=out, stderr=subprocess.STDOUT,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = None
        text = open(out_path, errors="replace").read()
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        return rc, text

    @staticmethod
    def _counts(text):
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", text)
        if m:
            return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        return 0, 0

    def model(self, module, cfg, *, workers=None, timeout=None, heap="6g", args=(), label=None, allow_timeout=False,
              coverage_actions=()):
        """Model-checks a design specification. A violated invariant here means that the
        specification is inconsistent: an error of the check, not of the code."""
        t = time.time()
        timeout = timeout or max(60, self.left() - 60)
        a = list(args)
        if coverage_actions:
            a += ["-coverage", "1"]
        rc, text = self._tlc_raw(module, cfg, workers=workers or min(NPROC, 8), timeout=timeout, heap=heap, args=a)
        gen, dist = self._counts(text)
        if rc is None:
            if not allow_timeout:
                raise CheckError(f"TLC timed out on model {module}")
        elif rc != 0:
            raise CheckError(f"TLC rejects the design model {module} (rc {rc}):\n{text[-5000:]}")
        for act in coverage_actions:
            m = re.findall(r"^<" + act + r" line .*?>: (\d+):(\d+)", text, re.M)
            if not m or int(m[-1][1]) == 0:
                raise CheckError(f"model {module}: action {act} is never taken (vacuous model)\n" + text[-3000:])
        self.states += gen
        self.distinct += dist
        self.models.append({"module": module, "label": label or module, "states_generated": gen,
                            "distinct_states": dist, "complete": rc == 0 and "-simulate" not in a,
                            "seconds": round(time.time() - t, 1)})
        log(f"[{self.prop}] model {label or module}: {gen} states, {dist} distinct, {time.time() - t:.0f}s")
        return text

    def gen_scripts(self, module, cfg, *, args=(), timeout=None, heap="4g", limit=None, label=None, workers=1):
        """Runs TLC on a generator configuration that prints one 'SCRIPT <json>' line per
        behaviour, and returns the decoded scripts (duplicates removed, order kept)."""
        t = time.time()
        timeout = timeout or max(60, self.left() - 60)
        rc, text = self._tlc_raw(module, cfg, workers=workers, timeout=timeout, heap=heap, args=list(args))
        if rc not in (0, None):
            raise CheckError(f"TLC fails on generator {module} (rc {rc}):\n{text[-5000:]}")
        gen, dist = self._counts(text)
        self.states += gen
        self.distinct += dist
        res, seen = [], set()
        for line in text.splitlines():
            line = line.strip()
            if line.startswith('"SCRIPT '):
                body = json.loads(line)[7:]
                if body not in seen:
                    seen.add(body)
                    res.append(body)
        if not res:
            raise CheckError(f"generator {module} produced no scripts:\n{text[-3000:]}")
        total = len(res)
        if limit and total > limit:  # spread over all of them, the order of which is breadth first
            import random
            keep = random.Random(self.seed * 31 + total).sample(range(total), limit)
            res = [res[i] for i in sorted(keep)]
        res = [json.loads(x) for x in res]
        self.scripts += len(res)
        self.models.append({"module": module, "label": (label or "scripts"), "states_generated": gen,
                            "distinct_states": dist, "scripts": len(res), "scripts_generated": total, "seconds": round(time.time() - t, 1)})
        log(f"[{self.prop}] scripts {label or module}: {len(res)} from {gen} states, {time.time() - t:.0f}s")
        return res

    # ---------- drivers
    def drive(self, exe, args, *, timeout=240, env=None, stdin=None, cwd=None):
        """Runs a driver. Returns (ok, description). Not ok: crash, sanitizer report, hang."""
        e = dict(os.environ, LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=97",
                 UBSAN_OPTIONS="halt_on_error=1:exitcode=97", TSAN_OPTIONS="halt_on_error=1:exitcode=98")
        e.update(env or {})
        try:
            r = subprocess.run([exe] + [str(a) for a in args], env=e, cwd=cwd or self.scratch, input=stdin,
                               capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return False, f"driver did not finish within {timeout}s"
        if r.returncode == 0:
            return True, ""
        tail = (r.stderr[-3500:] + r.stdout[-500:]).decode(errors="replace")
        if r.returncode == 3:
            raise CheckError("driver reports an error of its own: " + tail)
        return False, f"driver ended with status {r.returncode}: {tail}"

    # ---------- trace validation
    def _validate_once(self, module, cfg, trace_path, n, timeout, heap, env=None):
        e = {"TRACE": trace_path}
        e.update(env or {})
        rc, text = self._tlc_raw(module, cfg, env=e, timeout=timeout, heap=heap)
        if rc is None:
            raise CheckError(f"TLC timed out validating a trace against {module}")
        gen, dist = self._counts(text)
        if rc == 0:
            m = re.search(r"TRACE-ACCEPTED (\d+)", text)
            if not m or int(m[1]) != n:
                raise CheckError(f"TLC validated {m and m[1]} events instead of {n} ({module})\n{text[-2000:]}")
            return True, n, text, gen, dist
        m = re.findall(r"TRACE-REJECTED-AT (\d+)", text)
        if m:
            return False, int(m[-1]), text, gen, dist
        if re.search(r"(Invariant|Action property) .* is violated", text):
            lv = re.findall(r"/\\ l = (\d+)", text)
            return False, (int(lv[-1]) - 1 if lv else 0), text, gen, dist
        if re.search(r"TLC threw an unexpected exception|Parsing or semantic analysis failed|OutOfMemory|"
                     r"StackOverflow|Could not|parse|Lexical", text) and "The error occurred when TLC was evaluating" not in text \
                and "error occurred when TLC was evaluating" not in text:
            raise CheckError(f"TLC failed validating against {module} (rc {rc}):\n{text[-5000:]}")
        if "Attempted to" in text or "was not in the domain" in text or "evaluating" in text:
            lv = re.findall(r"/\\ l = (\d+)", text)
            return False, (int(lv[-1]) if lv else 0), text, gen, dist
        raise CheckError(f"TLC failed validating against {module} (rc {rc}):\n{text[-5000:]}")

    def validate(self, module, cfg, traces, *, timeout=None, heap="3g", jobs=None, env=None,
                 mutate=0, mutate_field=None, episode_event="reset", describe=None, mutate_filter=None):
        """Validates recorded traces (paths of ndjson files, one event per line) with TLC.

        A rejection is confirmed by a second validation of the same trace."""
        jobs = jobs or max(1, NPROC - 1)
        timeout = timeout or max(120, self.left() - 30)
        t = time.time()

        def one(p):
            n = 0
            counts, eps = {}, 0
            with open(p) as f:
                for line in f:
                    n += 1
                    m = re.match(r'\{"e":"([^"]*)"', line)
                    k = m[1] if m else "?"
                    counts[k] = counts.get(k, 0) + 1
                    if k == episode_event:
                        eps += 1
            if n == 0:
                raise CheckError(f"empty trace {p}")
            return p, n, counts, max(eps, 1), self._validate_once(module, cfg, p, n, timeout, heap, env)

        with cf.ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, traces))
        for p, n, counts, eps, (ok, at, text, gen, dist) in results:
            self.states += gen
            self.distinct += dist
            if ok:
                self.traces += eps
                self.events += n
                for k, v in counts.items():
                    self.event_counts[k] = self.event_counts.get(k, 0) + v
            else:
                ok2, at2, text2, _, _ = self._validate_once(module, cfg, p, self._nlines(p), timeout, heap, env)
                if ok2:
                    raise CheckError(f"rejection of {p} by {module} not repeatable")
                self.violation(p, at2, text2, module, episode_event, describe)
        if traces and len(self.samples) < 4:
            self.samples.append({"trace_head": [json.loads(x) for x in self._head(traces[0], 6)]})
        log(f"[{self.prop}] validated {sum(r[1] for r in results)} events in {len(traces)} traces against "
            f"{module}, {time.time() - t:.0f}s")
        if mutate:
            self._mutation_control(module, cfg, traces[0], mutate, mutate_field, timeout, heap, env, mutate_filter)

    def _mutation_control(self, module, cfg, trace, count, field, timeout, heap, env, filt=None):
        """Binding control: a trace with one recorded observation corrupted must be rejected."""
        import random
        rng = random.Random(self.seed * 7919 + 13)
        lines = open(trace).read().splitlines()
        lines = lines[:4000]
        cand = []
        fields = [field] if isinstance(field, str) else list(field or ["r"])
        for i, l in enumerate(lines):
            o = json.loads(l)
            for f in fields:
                if f in o and (filt is None or (filt(o, f) if filt.__code__.co_argcount == 2 else filt(o))):
                    cand.append((i, f))
        if not cand:
            raise CheckError("mutation control: no candidate event")
        jobs = []
        for j in range(count):
            i, f = rng.choice(cand)
            o = json.loads(lines[i])
            o[f] = corrupt(o[f], rng)
            p = self.path(f"mut{len(self.models)}-{self.mutants}-{j}.ndjson")
            with open(p, "w") as fh:
                fh.write("\n".join(lines[:i] + [json.dumps(o, separators=(",", ":"))] + lines[i + 1:i + 2]) + "\n")
            jobs.append((p, min(i + 2, len(lines)), o))

        def run(job):
            return job, self._validate_once(module, cfg, job[0], job[1], timeout, heap, env)

        with cf.ThreadPoolExecutor(NPROC - 1) as ex:
            for job, (ok, at, text, _, _) in ex.map(run, jobs):
                self.mutants += 1
                if ok:
                    raise CheckError(f"binding control failed: corrupted event accepted by {module}: {job[2]}")
                self.rejected_mutants += 1

    @staticmethod
    def _nlines(p):
        with open(p) as f:
            return sum(1 for _ in f)

    @staticmethod
    def _head(p, n):
        out = []
        with open(p) as f:
            for line in f:
                out.append(line)
                if len(out) == n:
                    break
        return out

    def violation(self, trace, at, text, module, episode_event="reset", describe=None):
        """at: number of accepted events (the 0-based index of the rejected event)."""
        lines = open(trace).read().splitlines()
        start = at if at < len(lines) else len(lines) - 1
        while start > 0 and not lines[start].startswith('{"e":"%s"' % episode_event):
            start -= 1
        ep = lines[start:at + 1]
        detail = "\n".join(x for x in text.splitlines() if "MISMATCH" in x)[-1500:]
        d = self.replay_dir()
        with open(os.path.join(d, "episode.ndjson"), "w") as f:
            f.write("\n".join(ep) + "\n")
        with open(os.path.join(d, "README"), "w") as f:
            f.write(f"Property {self.prop}: recorded execution of the code that is not a behaviour of "
                    f"specs/{module}.tla.\nThe last line of episode.ndjson is the event that no behaviour "
                    f"explains; the lines before it are accepted.\nSeed {self.seed}, tier {self.tier}.\n"
                    f"Re-run: VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 checks/run.py {self.prop}\n{detail}\n")
        what = f"event not explained by {module}: {ep[-1][:600] if ep else '?'} {detail[:600]}"
        raise Violation(what, d)

    def replay_dir(self):
        d = os.path.join(os.environ.get("VP_REPLAY", os.path.join(VERIF, "replay")), self.prop)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        return d

    def driver_violation(self, what, files=()):
        d = self.replay_dir()
        with open(os.path.join(d, "README"), "w") as f:
            f.write(f"Property {self.prop}\n{what}\nSeed {self.seed}, tier {self.tier}\n"
                    f"Re-run: VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 checks/run.py {self.prop}\n")
        for p in files:
            if p and os.path.exists(p):
                shutil.copy(p, d)
        raise Violation(what, d)

    # ---------- record: run drivers in parallel, one trace file each
    def record(self, jobs, timeout=300, env=None, parallel=None):
        """jobs: list of (exe, args, trace_path); the driver appends events to trace_path.
        A driver that crashes, hangs, or is stopped by a sanitizer while executing legal
        operations breaks the property (confirmed by a second run)."""
        t = time.time()

        def one(job):
            exe, args, p = job
            ok, what = self.drive(exe, args, timeout=timeout, env=env)
            if not ok:
                ok2, what2 = self.drive(exe, args, timeout=timeout, env=env)
                if ok2:
                    raise CheckError("driver failure not repeatable: " + what)
                return p, what2, args
            return p, None, args

        with cf.ThreadPoolExecutor(parallel or max(1, NPROC - 1)) as ex:
            res = list(ex.map(one, jobs))
        for p, what, args in res:
            if what:
                last = self._tail(p)
                self.driver_violation(f"{what}\nargs: {args}\nlast recorded events:\n{last}", [p] if os.path.exists(p) and os.path.getsize(p) < 5e6 else [])
        log(f"[{self.prop}] recorded {len(jobs)} traces, {time.time() - t:.0f}s")
        return [p for p, _, _ in res]

    def play(self, exe, scripts, episodes, steps, jobs, name, *, timeout=300, env=None, parallel=None, extra=()):
        """Runs a driver as `jobs` processes with different seeds; the model-generated scripts
        are dealt out over them, and each adds `episodes` random episodes of `steps` steps."""
        todo = []
        for j in range(jobs):
            sp = "-"
            part = scripts[j::jobs] if scripts else []
            if part:
                sp = self.path(f"{name}-{j}.scripts")
                with open(sp, "w") as f:
                    for x in part:
                        f.write(json.dumps(x, separators=(",", ":")) + "\n")
            todo.append((exe, [self.seed * 1000 + j, episodes, steps, self.path(f"{name}-{j}.ndjson"), sp] + list(extra),
                         self.path(f"{name}-{j}.ndjson")))
        return self.record(todo, timeout=timeout, env=env, parallel=parallel)

    @staticmethod
    def _tail(p, n=8):
        try:
            return "\n".join(open(p, errors="replace").read().splitlines()[-n:])
        except OSError:
            return ""

    def require_events(self, names):
        missing = [n for n in names if not self.event_counts.get(n)]
        if missing:
            raise CheckError(f"vacuous run: no event of kind {missing} was recorded and validated")

    # ---------- evidence
    def evidence(self, level, violations=0):
        cov = {
            "states": self.distinct,
            "transitions": self.states,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "events_by_kind": dict(sorted(self.event_counts.items())),
            "model_runs": self.models,
            "scripts_from_model": self.scripts,
            "corrupted_traces_tried": self.mutants,
            "corrupted_traces_rejected": self.rejected_mutants,
            "evaluations": self.events,
            "samples": self.samples or [{"note": "no trace recorded"}],
        }
        cov.update(self.extra)
        if self.notes:
            cov["explanation"] = " ".join(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        d = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, f"{self.prop}.json"))


def corrupt(v, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, 2])
    if isinstance(v, str):
        return v + "~"
    if isinstance(v, list):
        if v and rng.random() < 0.5:
            i = rng.randrange(len(v))
            return v[:i] + [corrupt(v[i], rng)] + v[i + 1:]
        if v and isinstance(v[0], list):
            return v + [v[0]]
        if v and isinstance(v[0], str):
            return v + ["~"]
        if v and isinstance(v[0], dict):
            return v + [v[0]]
        return v + [7]
    if isinstance(v, dict):
        k = rng.choice(sorted(v))
        return dict(v, **{k: corrupt(v[k], rng)})
    return "~"


def cfg(spec="Spec", constants=None, invariants=(), properties=(), constraints=(), action_constraints=(), view=None,
        symmetry=None, deadlock=False, postcondition=None, init=None, next_=None, subst=None, alias=None):
    out = []
    if init:
        out += [f"INIT {init}", f"NEXT {next_}"]
    else:
        out.append(f"SPECIFICATION {spec}")
    for k, v in (constants or {}).items():
        out.append(f"CONSTANT {k} = {v}")
    for k, v in (subst or {}).items():
        out.append(f"CONSTANT {k} <- {v}")
    out += [f"INVARIANT {x}" for x in invariants]
    out += [f"PROPERTY {x}" for x in properties]
    out += [f"CONSTRAINT {x}" for x in constraints]
    out += [f"ACTION_CONSTRAINT {x}" for x in action_constraints]
    if view:
        out.append(f"VIEW {view}")
    if symmetry:
        out.append(f"SYMMETRY {symmetry}")
    if postcondition:
        out.append(f"POSTCONDITION {postcondition}")
    if alias:
        out.append(f"ALIAS {alias}")
    out.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    return "\n".join(out) + "\n"


def trace_cfg(**kw):
    kw.setdefault("spec", "TraceSpec")
    kw.setdefault("postcondition", "TraceAccepted")
    return cfg(**kw)


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("kind") == "finding"]
