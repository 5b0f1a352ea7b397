"""blame.py: lists planted bugs that change only lines which fix commits added."""
import glob, re, subprocess
BASE = "3dd7805"
run = lambda *a: subprocess.run(a, cwd="/repo", capture_output=True, text=True).stdout
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    olds, f, at = [], None, 0
    for l in open(p):
        l = l.rstrip("\n")
        if l.startswith("--- "): f = l[6:]
        elif l.startswith("@@"): at = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-"): olds.append((f, at)); at += 1
        elif l.startswith(" "): at += 1
    base = []
    for f, n in olds:
        c = run("git", "blame", "-s", "-L", f"{n},{n}", "HEAD", "--", f).split()[0].lstrip("^")
        base.append(subprocess.run(["git", "merge-base", "--is-ancestor", c, BASE], cwd="/repo").returncode == 0)
    if not base or not all(base):
        print(p.split("/")[3], f"{sum(base)} of {len(base)} removed lines are original")
