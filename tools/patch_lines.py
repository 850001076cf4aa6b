#!/usr/bin/env python3
"""which planted bugs remove or change lines of the original repository (and not lines of our own fix commits)"""
import os, re, subprocess, sys
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
for b in sorted(os.listdir(S)):
    f, n, own, ctx = None, 0, 0, 0
    for line in open(os.path.join(S, b, "patch.diff"), newline=""):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            blame = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f], text=True, errors="replace").splitlines()
        elif line.startswith("@@"):
            k = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-"):
            h = blame[k - 1].split()[0].lstrip("^")
            n += 1
            own += not base.startswith(h)
            k += 1
        elif line.startswith(" "):
            k += 1
    print("%-22s removes %d lines, %d of them ours%s" % (b, n, own, "   <-- only additions" if n == 0 else "   <-- CHECK" if own else ""))
