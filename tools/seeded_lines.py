"""which planted bugs change only lines of the original repository"""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for b in sorted(os.listdir(f"{V}/seeded")):
    f = None; bad = n = 0
    for line in open(f"{V}/seeded/{b}/patch.diff"):
        if line.startswith("--- a/"): f = line[6:].strip()
        elif line.startswith("@@"): at = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            o = subprocess.run(["git", "-C", "/repo", "blame", "-s", f"-L{at},{at}", f], capture_output=True, text=True).stdout
            n += 1; bad += not o.startswith("^"); at += 1
        elif line.startswith(" "): at += 1
    if bad or not n: print(b, "lines removed:", n, "not original:", bad)
