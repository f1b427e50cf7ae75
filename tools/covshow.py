#!/usr/bin/env python3
"""covshow.py INFO FILE... : prints the lines of FILE (relative to /repo/src/archon) that were instrumented and never executed."""
import sys
info = sys.argv[1:2]
want = sys.argv[2:]
cov = {}
cur = None
for p in info[0].split(","):
    for l in open(p):
        l = l.strip()
        if l.startswith("SF:"):
            cur = l[3:]
        elif l.startswith("DA:"):
            a = l[3:].split(",")
            cov.setdefault(cur, {}).setdefault(int(a[0]), 0)
            cov[cur][int(a[0])] += int(a[1])
if not want:
    for f, d in sorted(cov.items()):
        print(f.replace("/repo/src/archon/", ""), f"{sum(1 for x in d.values() if x)}/{len(d)}")
for w in want:
    for f in cov:
        if f.endswith("/archon/" + w):
            src = open(f).read().split("\n")
            d = cov[f]
            print("==", w, f"{sum(1 for x in d.values() if x)}/{len(d)}")
            for n in sorted(d):
                if d[n] == 0:
                    print(n, src[n - 1])
            import re
            seen = False
            names = []
            fn = None
            for n, l in enumerate(src, 1):
                # function header at namespace level: remember until body
                m = re.match(r"^(?:template<.*> )?(?:inline |constexpr |auto |bool |void |friend ).*?([A-Za-z_~]\w*(?:<[^()]*>)?::)?(operator\W+|[A-Za-z_~]\w*)\(", l)
                if m:
                    fn = (n, l)
                    hit = False
                if l == "}" and fn:
                    if not any(k in d for k in range(fn[0], n + 1)) and n - fn[0] > 1:
                        print("  not instantiated:", fn[0], fn[1][:130])
                    fn = None
