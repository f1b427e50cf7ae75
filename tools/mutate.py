#!/usr/bin/env python3
"""mutate.py PROP COUNT SEED FILE... : mutation analysis (development aid; nothing registered uses it).

Makes COUNT random small changes, one at a time, in lines of FILE... (relative to src/archon) that the drivers of
the check execute (line coverage from tools/cov.py in /tmp/t/cov), and runs the check, cut down to two recorded
traces per driver and without model checking. Survivors are written to /tmp/mu/PROP.SEED.survivors."""
import hashlib
import importlib.util
import os
import pickle
import random
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PROP, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
FILES = sys.argv[4:]
W = f"/tmp/mu/w{os.getpid()}"
if not os.path.exists(W):
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
os.environ.update(VP_REPO=W, VP_BUILD=W + "/_b", VP_REPLAY=W + "/_replay", VP_EVIDENCE=W + "/_ev")
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.dont_write_bytecode = True
import vp  # noqa: E402

vp.NPROC = int(os.environ.get("MU_NPROC", "2"))
vp.log = lambda *a: None
vp.Ctx.model = lambda self, *a, **k: ""
vp.Ctx.require_events = lambda self, *a, **k: None
vp.Ctx._mutation_control = lambda self, *a, **k: None
_gen = vp.Ctx.gen_scripts


def gen(self, module, cfg, **k):
    key = "/tmp/mu/scripts-" + hashlib.sha1((module + str(cfg) + str(k.get("args")) + str(k.get("limit"))).encode()).hexdigest()
    if not os.path.exists(key):
        r = _gen(self, module, cfg, **k)
        pickle.dump(r, open(key + ".t", "wb"))
        os.rename(key + ".t", key)
    return pickle.load(open(key, "rb"))


vp.Ctx.gen_scripts = gen
_rec = vp.Ctx.record
PER = int(os.environ.get("MU_TRACES", "2"))


def rec(self, jobs, **k):
    n = {}
    out = []
    for j in jobs:
        g = (j[0], re.sub(r"\d", "", os.path.basename(j[2])))
        n[g] = n.get(g, 0) + 1
        if n[g] <= PER:
            out.append(j)
    k["timeout"] = 100
    return _rec(self, out, **k)


vp.Ctx.record = rec
os.environ["ASAN_OPTIONS"] = ""
_drive = vp.Ctx.drive
_sub = subprocess.run


def drive(self, exe, args, **k):
    e = dict(k.pop("env", None) or {})
    e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=97:hard_rss_limit_mb=3000"
    return _drive(self, exe, args, env=e, **k)


vp.Ctx.drive = drive

cov = {}
cur = None
for line in open(f"/tmp/t/cov/{PROP}.info"):
    line = line.strip()
    if line.startswith("SF:"):
        cur = line[3:]
    elif line.startswith("DA:"):
        a = line[3:].split(",")
        if int(a[1]) > 0:
            cov.setdefault(cur.replace("/repo/src/archon/", ""), set()).add(int(a[0]))

OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ ", " - "), (r" - ", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"),
       (r"\bfalse\b", "true"), (r"std::min\(", "std::max("), (r"std::max\(", "std::min("), (r" - 1\b", ""), (r" \+ 1\b", ""),
       (r" \+= ", " -= "), (r"\+\+", "--"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
       (r"\bif \((?!constexpr)(.*)\)( \{)?$", r"if (!(\1))\2"), (r"\bbegin\b", "end"), (r"\bfirst\b", "second"), (r"\bx\b", "y"), (r"\bwidth\b", "height"),
       (r" = (\w[^;,]*);$", r" = {};"), (r"= std::move\((.*)\);$", r"= \1;")]


def candidates():
    res = []
    for f in FILES:
        src = open(f"{W}/src/archon/{f}").read().split("\n")
        for n in sorted(cov.get(f, ())):
            l = src[n - 1]
            if re.search(r"ASSERT|static_assert|^\s*//|^(template|inline|class|struct|using)|noexcept\(|^\s*using ", l):
                continue
            code, _, com = l.partition(" //")
            for a, b in OPS:
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    if new != code:
                        res.append((f, n, new))
            s = code.strip()
            if re.match(r"^[\w\.\->\[\]\*\(\):]+ (=|\+=|-=|\*=|/=|\|=|&=|>>=|<<=) [^{]*;$", s) or re.match(r"^(\+\+|--)[^;]*;$", s) \
                    or re.match(r"^[\w:\.\->]+\([^{}]*\);$", s) or s in ("break;", "continue;"):
                res.append((f, n, re.match(r"^\s*", code)[0] + ";"))
    return res


rng = random.Random(SEED)
cands = candidates()
rng.shuffle(cands)
# spread over lines
seen = {}
cands.sort(key=lambda c: seen.setdefault((c[0], c[1]), []).append(1) or len(seen[(c[0], c[1])]))
spec = importlib.util.spec_from_file_location("check", os.path.join(os.path.dirname(HERE), "checks", PROP.lower() + ".py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)


def once():
    ctx = vp.Ctx(PROP, "quick", 1)
    ctx.deadline = time.time() + 400
    try:
        mod.run(ctx)
        return "survived", ""
    except vp.Violation as v:
        return "killed", v.what
    except vp.CheckError as e:
        t = str(e)
        return ("nocompile" if "does not compile" in t or "build failed" in t else "error"), t[-300:]
    except Exception as e:
        return "error", repr(e)[:300]
    finally:
        subprocess.run(["rm", "-rf", ctx.scratch])


tot = {}
t0 = time.time()
done = 0
print(PROP, "base:", once(), f"{time.time() - t0:.0f}s", "candidates", len(cands), flush=True)
for f, n, new in cands:
    if done >= COUNT or os.path.exists("/tmp/mu/stop"):
        break
    p = f"{W}/src/archon/{f}"
    orig = open(p).read()
    lines = orig.split("\n")
    old = lines[n - 1]
    lines[n - 1] = new
    open(p, "w").write("\n".join(lines))
    t = time.time()
    r, why = once()
    open(p, "w").write(orig)
    tot[r] = tot.get(r, 0) + 1
    if r != "nocompile":
        done += 1
    if r in ("survived", "error"):
        with open(f"/tmp/mu/{PROP}.survivors", "a") as o:
            o.write(f"[{r}] {f}:{n}\n  - {old.strip()}\n  + {new.strip()}\n" + (f"  {why}\n" if r == "error" else ""))
print(PROP, SEED, tot, f"{time.time() - t0:.0f}s", flush=True)
subprocess.run(["rm", "-rf", W])
