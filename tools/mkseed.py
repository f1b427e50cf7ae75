"""Helper for writing planted bugs: mkseed.seed(id, property, needs, breaks, edits, demo, libs, flags)."""
import json
import os
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SH = """#!/bin/bash
# Exit 0: the property holds; nonzero: it is broken. Run with cwd at the repository's root, after the build.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
b=_build/src
g++ -std=c++20 -O1 -g -w -pthread -DARCHON_DEBUG=1 {flags} -Isrc -I$b -o "$t/demo" "$here/demo.cpp" \\
    -Wl,--start-group {libs} -Wl,--end-group {link} || exit 8
cd "$t" && {env}timeout {limit} ./demo
"""


def seed(sid, prop, needs, breaks, edits, demo, libs=("Core",), flags="", link="", limit=120, env=""):
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        for path, old, new in edits:
            p = f"{t}/r/{path}"
            s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=t + "/r", capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(SH.format(flags=flags, libs=" ".join(f"$b/libarchon-{x.lower()}.a" for x in reversed(libs)),
                                              link=link, limit=limit, env=env))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
