BUGS = [
dict(id="C23-left-lock", property="C23",
 needs="a run that is killed before its end, and another one after it",
 breaks="a lock file that a killed run leaves behind makes every later run refuse to work",
 edits=[("src/main.rs", '''    let mut file = FmpFile::new();

    if args.test.is_some() {''', '''    let mut file = FmpFile::new();
    std::fs::OpenOptions::new().write(true).create_new(true).open(".burn_fm.lock").expect("Another run is at work here.");

    if args.test.is_some() {'''),
  ("src/main.rs", '''                env.run_tests_with_cleanup();
            }

        }
    }

}''', '''                env.run_tests_with_cleanup();
            }

        }
    }
    std::fs::remove_file(".burn_fm.lock").expect("Unable to unlock.");

}''')],
 demo='''
import os, tempfile, shutil, subprocess, time
d = tempfile.mkdtemp(prefix="demo-")
try:
    open(d + "/a.burn", "w").write("table x: end table;")
    os.mkfifo(d + "/t.burn")
    exe = os.path.abspath("target/debug/burn_fm")
    # waits for its tests until it is killed
    p = subprocess.Popen([exe, "-t", "t.burn", "-c", "a.burn"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    time.sleep(1.5)
    p.kill()
    p.wait()
    r = subprocess.run([exe, "-c", "a.burn"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=30)
    assert r.returncode == 0, r.stderr
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
dict(id="C23-up-to-date", property="C23",
 needs="a run that is killed while it writes the database file, and the same run again",
 breaks="a database file that is newer than its source counts as up to date, also if it was written in part",
 edits=[("src/main.rs", '''            let mut assembler = Assembler::new(&file);
            assembler.assemble_fmp12(&file);
            assembler.emit_assembly(&file.name);''', '''            let age = |p: &Path| p.metadata().and_then(|m| m.modified()).ok();
            let made = age(Path::new(&format!("{}.fmp12", file.name)));
            if made.is_some() && made > age(input) {
                continue;
            }
            let mut assembler = Assembler::new(&file);
            assembler.assemble_fmp12(&file);
            assembler.emit_assembly(&file.name);''')],
 demo='''
import os, tempfile, shutil, subprocess, resource
d = tempfile.mkdtemp(prefix="demo-")
try:
    open(d + "/a.burn", "w").write("table x: end table;")
    os.utime(d + "/a.burn", (1600000000, 1600000000))
    exe = os.path.abspath("target/debug/burn_fm")
    def limit():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (10000, 10000))
    r = subprocess.run([exe, "-c", "a.burn"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30, preexec_fn=limit)
    assert r.returncode < 0
    r = subprocess.run([exe, "-c", "a.burn"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
    assert r.returncode == 0
    n = os.path.getsize(d + "/a.fmp12")
    assert n >= 20000, n
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
dict(id="C23-shared-temporary", property="C23",
 needs="two runs in one directory at the same time",
 breaks="the database file is put together in a temporary file of a fixed name, so runs at the same time mix theirs",
 edits=[("src/compile/assembler.rs", '        write(format!("{}.fmp12", filename), &self.buffer).expect("unable to write to file.");', '        write("burn_fm.tmp", &self.buffer).expect("unable to write to file.");\n        std::fs::rename("burn_fm.tmp", format!("{}.fmp12", filename)).expect("unable to write to file.");')],
 demo='''
import os, tempfile, shutil, subprocess
d = tempfile.mkdtemp(prefix="demo-")
try:
    exe = os.path.abspath("target/debug/burn_fm")
    for i in range(6):
        open(d + "/s%d.burn" % i, "w").write("".join("table t%d_%d: end table;\\n" % (i, j) for j in range(30 * i + 1)))
    def run(i):
        return subprocess.Popen([exe, "-c", "s%d.burn" % i], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    alone = []
    for i in range(6):
        assert run(i).wait() == 0
        alone.append(open(d + "/s%d.fmp12" % i, "rb").read())
    for n in range(150):
        ps = [run(i) for i in range(6)]
        for i, p in enumerate(ps):
            assert p.wait() == 0, (n, i)
        for i in range(6):
            assert open(d + "/s%d.fmp12" % i, "rb").read() == alone[i], (n, i)
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
dict(id="C23-input-aside", property="C23",
 needs="a run that is killed while it reads or runs tests",
 breaks="the source is moved aside while it is compiled, and is gone when the run is killed",
 edits=[("src/main.rs", '''            let mut code = File::open(input).expect("Unable to open file.");
            let mut text = String::new();
            code.read_to_string(&mut text).expect("Unable to parse file to string");
            let tmp = compile''', '''            let busy = format!("{}.busy", f);
            std::fs::rename(input, &busy).expect("Unable to open file.");
            let mut code = File::open(&busy).expect("Unable to open file.");
            let mut text = String::new();
            code.read_to_string(&mut text).expect("Unable to parse file to string");
            std::fs::rename(&busy, input).expect("Unable to open file.");
            let tmp = compile''')],
 demo='''
import os, tempfile, shutil, subprocess, time
d = tempfile.mkdtemp(prefix="demo-")
try:
    os.mkfifo(d + "/a.burn")
    exe = os.path.abspath("target/debug/burn_fm")
    # waits for its source until it is killed
    p = subprocess.Popen([exe, "-c", "a.burn"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    time.sleep(1.5)
    p.kill()
    p.wait()
    assert os.listdir(d) == ["a.burn"], os.listdir(d)
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
]
