"""mutate.py OUT.jsonl [--lanes N] [--seed N] [--count N] [--files RE]

Mutation testing of the checks: small random changes to the code of /repo are
made in scratch copies (/tmp/lane*), and those that compile and pass the stable
tests are run against the checks with a part of their cases. OUT gets one line
per mutant; survivors ("survived") are to be looked at by hand.
"""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, threading, time

STABLE = [t.split("::", 2)[2] for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
QUICK = {}
REST = True
CHECKS = {
    "src/encoding_util.rs": "C02 C01 C03 C04 C05 C06 C15",
    "src/dbcharconv.rs": "C02 C01 C04 C15",
    "src/chunk.rs": "C03 C04 C05 C18 C15",
    "src/file.rs": "C04 C05 C20 C17",
    "src/component.rs": "C04 C20 C05 C07",
    "src/main.rs": "C17 C22 C23 C20 C16 C19 C12",
    "src/cli.rs": "C17",
    "src/decompile/": "C04 C05 C06 C18 C21 C14 C13",
    "src/compile/": "C07 C08 C15 C19 C16",
    "src/burn_script/": "C08 C19 C10 C11 C09 C12 C07",
    "src/fm_script_engine/": "C05 C08 C20 C10 C13",
    "src/testing/calc": "C09 C10 C13 C21",
    "src/testing/relation": "C14 C09",
    "src/testing/layout": "C13 C12 C14",
    "src/testing/database": "C13 C14 C12 C09 C10",
    "src/testing/test.rs": "C10 C11 C12 C13 C14 C09 C21",
}

def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        r = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

OPS = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" <= ", [" < "]), (r" >= ", [" > "]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]), (r"\bis_none\b", ["is_some"]), (r"\bis_some\b", ["is_none"]),
    (r"\bis_empty\(\)", ["len() == 1"]), (r"!(?=[a-z])", [""]), (r"\bfirst\(\)", ["last()"]), (r"\blast\(\)", ["first()"]), (r"\.trim\(\)", [""]), (r"\.rev\(\)", [""]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\.\.=", [".."]), (r"(?<!\.)\.\.(?![.=])", ["..="]), (r"\bnext\b", ["prev"]),
]

def mutants(path, text):
    """(line number, new line, kind) for every change to try."""
    out = []
    depth_test = None
    lines = text.split("\n")
    for n, l in enumerate(lines):
        if "#[cfg(test)]" in l:
            break
        st = l.strip()
        if not st or st.startswith("//") or st.startswith("/*") or st.startswith("#[") or st.startswith("use ") or "feature = \"verif\"" in l:
            continue
        def inside(m):
            # in a string literal?
            return l[:m.start()].count('"') % 2 == 1
        for pat, reps in OPS:
            for m in re.finditer(pat, l):
                if inside(m):
                    continue
                for r in reps:
                    out.append((n, l[:m.start()] + r + l[m.end():], pat))
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])|(?<=\.\.)(\d+)|(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?=\.\.)", l):
            if inside(m) or re.match(r"\s*(pub )?const|\s*[A-Z]\w* = \d+,$|\s*self.emit_simple_kv\(\d+, &\[", l):
                continue
            v = int(m[0], 0)
            for w in {v + 1, max(v - 1, 0)} - {v}:
                t = hex(w) if m[0].startswith("0x") else str(w)
                out.append((n, l[:m.start()] + t + l[m.end():], "number"))
        for m in re.finditer(r'"([a-z_]{3,})"', l):
            out.append((n, l[:m.start()] + '"' + m[1] + 'x"' + l[m.end():], "string"))
        if st.endswith(";") and not re.match(r"(let|return|use|pub|mod|type|const|\}|\)|break|continue|panic|static)", st) and st.count("(") == st.count(")") and st.count("{") == st.count("}") and not re.match(r"[.|+&]", st):
            if not lines[n - 1].rstrip().endswith(("=", "(", ",", "|", "&", "+")) :
                out.append((n, "", "deleted"))
        m = re.match(r"(\s*)(\} else )?if (?!let)(.*) \{$", l)
        if m:
            out.append((n, f"{m[1]}{m[2] or ''}if false && ({m[3]}) {{", "if false"))
            out.append((n, f"{m[1]}{m[2] or ''}if true || ({m[3]}) {{", "if true"))
    return out

class Lane:
    def __init__(self, i):
        self.d = f"/tmp/lane{i}"
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        sh(f"cp -a /repo {self.d}/repo; mkdir {self.d}/verif; cp -a /verif/harness /verif/run.sh /verif/known_findings.txt {self.d}/verif/ && rm -rf {self.d}/verif/harness/target")
        sh(f"sed -i 's#/repo#{self.d}/repo#g' verif/run.sh verif/harness/lib/Cargo.toml verif/harness/cli/Cargo.toml verif/harness/check/src/engine.rs", self.d)
        rc, o = sh("./run.sh build", f"{self.d}/verif")
        assert rc == 0, o
        rc, o = self.test()
        assert rc == "ok", o

    def test(self):
        rc, o = sh(". /opt/vp/env.sh; cargo build --offline --locked 2>&1 | tail -30; exit ${PIPESTATUS[0]}", f"{self.d}/repo")
        if rc:
            return "no build", o[-300:]
        rc, o = sh(". /opt/vp/env.sh; timeout 100 cargo test --offline --locked 2>&1", f"{self.d}/repo")
        ok = set(re.findall(r"^test (\S+) \.\.\. ok", o, re.M))
        if not all(t in ok or t.split("::", 1)[-1] in ok for t in STABLE):
            return "tests fail", o[-300:]
        return "ok", ""

    def run(self, m, workers, part):
        path, n, new, kind = m["path"], m["line"] - 1, m["new"], m["kind"]
        p = f"{self.d}/repo/{path}"
        orig = open(p).read()
        lines = orig.split("\n")
        lines[n] = new
        try:
            open(p, "w").write("\n".join(lines))
            r, o = self.test()
            if r != "ok":
                return r, ""
            rc, o = sh("./run.sh build", f"{self.d}/verif")
            if rc:
                return "harness does not build", o[-300:]
            first = next(v for k, v in CHECKS.items() if path.startswith(k)).split()
            for c in first + [f"C{i:02}" for i in range(1, 25) if REST and f"C{i:02}" not in first]:
                cases = max(200, int(QUICK[c] * part))
                rc, o = sh(f"ulimit -v 16000000; {self.d}/verif/harness/target/debug/bfcheck check {c} --workers {workers} --cases {cases} --root {self.d}/verif", f"{self.d}/verif", 400)
                if rc == 1:
                    return "caught", f"{c}: " + next((x for x in o.splitlines() if x.startswith(c + ":")), "")[:160]
                if rc != 0:
                    return "error", f"{c}: rc {rc} " + o[-200:]
            return "survived", ""
        finally:
            open(p, "w").write(orig)

def main():
    a = argparse.ArgumentParser()
    a.add_argument("out"); a.add_argument("--lanes", type=int, default=4); a.add_argument("--seed", type=int, default=1)
    a.add_argument("--count", type=int, default=200); a.add_argument("--files", default=r"src/(?!testing)"); a.add_argument("--part", type=float, default=0.2)
    a.add_argument("--first", type=int, default=0)
    a.add_argument("--near", action="store_true", help="only the checks named for the file")
    a = a.parse_args()
    global REST
    REST = not a.near
    for l in sh("./harness/target/debug/bfcheck list", "/verif")[1].splitlines():
        QUICK[l.split()[0]] = int(re.search(r"quick=(\d+)", l)[1])
    todo = []
    for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        path = f[len("/repo/"):]
        if not re.match(a.files, path):
            continue
        text = open(f).read()
        lines = text.split("\n")
        for n, new, kind in mutants(path, text):
            todo.append({"path": path, "line": n + 1, "old": lines[n], "new": new, "kind": kind})
    random.Random(a.seed).shuffle(todo)
    per = {}
    kept = []
    for m in todo:  # at most two a line
        k = (m["path"], m["line"])
        per[k] = per.get(k, 0) + 1
        if per[k] <= 2 and "header.rs" not in m["path"]:
            kept.append(m)
    todo = kept
    print(len(todo), "mutants in all", flush=True)
    todo = todo[a.first:a.first + a.count]
    lock = threading.Lock()
    count = {}
    def work(i):
        lane = Lane(i)
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop(0)
            t = time.time()
            try:
                r, by = lane.run(m, max(2, 8 // a.lanes), a.part)
            except Exception as e:
                r, by = "failed", repr(e)
            with lock:
                count[r] = count.get(r, 0) + 1
                m.update(result=r, by=by, seconds=round(time.time() - t))
                open(a.out, "a").write(json.dumps(m) + "\n")
                print(r, m["path"], m["line"], m["old"].strip()[:80], "=>", m["new"].strip()[:80], "|", by[:60], count, flush=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.lanes)]
    for t in ts: t.start()
    for t in ts: t.join()

main()
