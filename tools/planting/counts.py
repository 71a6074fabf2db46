"""Which seeded patches remove or change at least one line of the original repository?"""
import os, re, subprocess
S = "/verif/seeded"
for i in sorted(os.listdir(S)):
    f, minus, own = None, 0, 0
    base = {}
    for l in open(f"{S}/{i}/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            base = set(subprocess.run(["git", "-C", "/repo", "show", f"355c71c:{f}"], capture_output=True, text=True).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip():
                minus += 1
                own += l[1:].rstrip("\n") in base
    if not own: print(i, "removed lines", minus, "of the original", own)
