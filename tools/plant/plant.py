"""plant.py FILE...: FILE defines id, property, needs, breaks, edits
[(path, old, new)], and demo (python) or rust_demo. Makes seeded/<id>, confirms
that it compiles, passes the stable tests and is told apart by its demo."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
WORK = "/tmp/plant-work"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def plant(b):
    d = os.path.join(VERIF, "seeded", b["id"])
    shutil.rmtree(WORK, ignore_errors=True)
    sh(f"mkdir -p {WORK} && cd /repo && git archive HEAD | tar x -C {WORK}; cd {WORK} && git init -q && git add -A . && git -c user.email=a -c user.name=a commit -qm x")
    for path, old, new in b["edits"]:
        p = os.path.join(WORK, path)
        s = open(p).read()
        n = b.get("nth", {}).get(path)
        if s.count(old) != 1:
            return f"{path}: text occurs {s.count(old)} times: {old!r}"
        open(p, "w").write(s.replace(old, new))
        assert "testing" not in path
    diff = sh("git diff -- src scripts", WORK).stdout
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if "rust_demo" in b:
        open(os.path.join(d, "demo.rs"), "w").write(b["rust_demo"].strip() + "\n")
        shutil.copy(os.path.join(HERE, "demo_rust.sh"), os.path.join(d, "demo.sh"))
    else:
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].strip() + "\n")
        shutil.copy(os.path.join(HERE, "lib.py"), d)
        shutil.copy(os.path.join(HERE, "demo.sh"), d)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    # unchanged tree
    r = sh(f"bash /opt/vp/build.sh >/dev/null 2>&1; bash {d}/demo.sh", "/repo")
    if r.returncode != 0:
        return f"demo fails on the unchanged tree ({r.returncode}): {r.stdout[-1500:]}"
    a = sh(f"git apply {d}/patch.diff", "/repo")
    if a.returncode:
        return "does not apply: " + a.stdout
    try:
        r = sh("bash /opt/vp/build.sh", "/repo")
        if r.returncode:
            return "does not build: " + r.stdout[-1500:]
        r = sh("bash /opt/vp/test.sh /tmp/plant-out.json; cat /tmp/plant-out.json", "/repo")
        out = json.load(open("/tmp/plant-out.json"))
        missing = [t for t in STABLE if t not in out.get("passed", [])]
        if missing:
            return f"breaks tests {missing}"
        r = sh(f"bash {d}/demo.sh", "/repo", 300)
        if r.returncode == 0:
            return "demo passes with the change"
        tail = r.stdout.strip().splitlines()[-1:] 
    finally:
        sh("git checkout -- . && bash /opt/vp/build.sh", "/repo")
    return f"ok ({' '.join(tail)[:150]})"

for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for b in g["BUGS"]:
        only = os.environ.get("ONLY")
        if only and b["id"] not in only.split(","):
            continue
        print(b["id"], plant(b), flush=True)
