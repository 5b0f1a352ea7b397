BUGS = [
dict(id="C22-inspection-unwritable", property="C22",
 needs="the inspection output cannot be written",
 breaks="compiling reports success although the inspection output could not be written",
 edits=[("src/main.rs", '            write("inspect_output/test_compile", json).expect("Unable to write to file.");', '            if write("inspect_output/test_compile", json).is_err() { eprintln!("Unable to write to file."); }')],
 demo='''
import os, tempfile, shutil, subprocess
d = tempfile.mkdtemp(prefix="demo-")
try:
    open(d + "/a.burn", "w").write("table x: end table;")
    os.makedirs(d + "/inspect_output/test_compile")
    r = subprocess.run([os.path.abspath("target/debug/burn_fm"), "-c", "a.burn"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
    assert r.returncode != 0, "success without the inspection output"
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
dict(id="C22-short-write", property="C22",
 needs="the file system takes only part of the database file, as when it is full",
 breaks="the database file is written with a single write, what it does not take is lost",
 edits=[("src/compile/assembler.rs", '        write(format!("{}.fmp12", filename), &self.buffer).expect("unable to write to file.");', '        use std::io::Write;\n        let mut out = File::create(format!("{}.fmp12", filename)).expect("unable to write to file.");\n        out.write(&self.buffer).expect("unable to write to file.");')],
 demo='''
import os, resource, signal, tempfile, shutil, subprocess
d = tempfile.mkdtemp(prefix="demo-")
try:
    open(d + "/a.burn", "w").write("table x: end table;")
    def limit():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (10000, 10000))
    r = subprocess.run([os.path.abspath("target/debug/burn_fm"), "-c", "a.burn"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30, preexec_fn=limit)
    assert r.returncode != 0, "success with a database file of %d bytes" % os.path.getsize(d + "/a.fmp12")
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
dict(id="C22-one-read", property="C22",
 needs="a database file that comes in several reads, as from a pipe or a network file system",
 breaks="only what the first read gives of a database file is decompiled",
 edits=[("src/decompile/decompiler.rs", '''    let mut fmp_file = FmpFile::new();
    let mut buffer = Vec::<u8>::new();
    file.read_to_end(&mut buffer).expect("Unable to read file.");
''', '''    let mut fmp_file = FmpFile::new();
    let mut buffer = vec![0u8; file.metadata().map(|m| m.len() as usize).unwrap_or(0).max(1 << 20)];
    let n = file.read(&mut buffer).expect("Unable to read file.");
    buffer.truncate(n);
''')],
 demo='''
import os, tempfile, shutil, subprocess, threading, time, json
from lib import *
data = database(table(1, "first"), table(2, "second"))
d = tempfile.mkdtemp(prefix="demo-")
try:
    os.mkfifo(d + "/a.fmp12")
    def feed():
        with open(d + "/a.fmp12", "wb", buffering=0) as f:
            try:
                for i in range(0, len(data), 4096):
                    f.write(data[i:i + 4096])
                    time.sleep(0.2)
            except BrokenPipeError:
                pass
    t = threading.Thread(target=feed, daemon=True)
    t.start()
    r = subprocess.run([BIN, "-d", "a.fmp12"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    assert r.returncode == 0, r.returncode
    m = json.load(open(d + "/inspect_output/test_decompile"))
    assert [t["table_name"] for t in m["tables"].values()] == ["first", "second"], m["tables"]
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
dict(id="C22-test-file-unread", property="C22",
 needs="a test file that cannot be read to its end",
 breaks="a test file that cannot be read counts as an empty one",
 edits=[("src/main.rs", '''            code.read_to_string(&mut text).expect("Unable to parse file to string");
            file.tests.append''', '''            let _ = code.read_to_string(&mut text);
            file.tests.append''')],
 demo='''
import os, tempfile, shutil, subprocess
d = tempfile.mkdtemp(prefix="demo-")
try:
    open(d + "/a.burn", "w").write("table x: end table;")
    os.mkdir(d + "/t.burn")
    r = subprocess.run([os.path.abspath("target/debug/burn_fm"), "-c", "a.burn", "-t", "t.burn"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
    assert r.returncode != 0, "success without the test file"
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
dict(id="C16-date-stamp", property="C16",
 needs="two runs on different days",
 breaks="the day of compiling is stamped into the database file",
 edits=[("src/compile/assembler.rs", "        self.emit_layout_data();", "        let day = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() / 86400).unwrap_or(0) as u32;\n        self.buffer.splice(2100..2104, day.to_be_bytes());\n        self.emit_layout_data();")],
 demo='''
import os, tempfile, shutil, subprocess
SHIM = """
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
int clock_gettime(clockid_t c, struct timespec *t) {
  int r = syscall(SYS_clock_gettime, c, t);
  if (r == 0 && c == CLOCK_REALTIME) t->tv_sec += 86400 * 40;
  return r;
}
"""
d = tempfile.mkdtemp(prefix="demo-")
try:
    open(d + "/a.burn", "w").write("table x: end table;")
    open(d + "/shim.c", "w").write(SHIM)
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", d + "/shim.so", d + "/shim.c"], check=True)
    def once(**more):
        subprocess.run([os.path.abspath("target/debug/burn_fm"), "-c", "a.burn"], cwd=d, stdout=subprocess.DEVNULL, timeout=30, check=True, env=dict(os.environ, **more))
        return open(d + "/a.fmp12", "rb").read()
    assert once() == once(LD_PRELOAD=d + "/shim.so"), "the file depends on the day"
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
dict(id="C16-user-name", property="C16",
 needs="two runs by users of different names",
 breaks="the name of the user who compiles is stored in the database file",
 edits=[("src/compile/assembler.rs", '        self.emit_simple_kv(216, &fm_string_encrypt("hello".to_string()));', '        let user = std::env::var("USER").unwrap_or("hello".to_string());\n        self.emit_simple_kv(216, &fm_string_encrypt(user.chars().take(5).collect()));')],
 demo='''
import os, tempfile, shutil, subprocess
d = tempfile.mkdtemp(prefix="demo-")
try:
    open(d + "/a.burn", "w").write("table x: end table;")
    def once(user):
        subprocess.run([os.path.abspath("target/debug/burn_fm"), "-c", "a.burn"], cwd=d, stdout=subprocess.DEVNULL, timeout=30, check=True, env=dict(os.environ, USER=user))
        return open(d + "/a.fmp12", "rb").read()
    assert once("alice") == once("bobby"), "the file depends on the user"
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
dict(id="C17-backup-elsewhere", property="C17",
 needs="a look at the directory for temporary files",
 breaks="decompiling leaves a copy of the inspection output in the directory for temporary files",
 edits=[("src/main.rs", '            write("inspect_output/test_decompile", json).expect("Unable to write to file.");', '            let _ = write(std::env::temp_dir().join("burn_fm.last"), &json);\n            write("inspect_output/test_decompile", json).expect("Unable to write to file.");')],
 demo='''
import os, tempfile, shutil, subprocess
from lib import *
d = tempfile.mkdtemp(prefix="demo-")
try:
    os.mkdir(d + "/tmp")
    open(d + "/a.fmp12", "wb").write(database(table(1, "x")))
    subprocess.run([BIN, "-d", "a.fmp12"], cwd=d, stdout=subprocess.DEVNULL, timeout=30, check=True, env=dict(os.environ, TMPDIR=d + "/tmp"))
    assert os.listdir(d + "/tmp") == [], os.listdir(d + "/tmp")
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
dict(id="C04-low-directory", property="C04",
 needs="a directory numbered 127 that is laid out like a table's",
 breaks="the directory before the first table's is taken for a table",
 edits=[("src/decompile/decompiler.rs", "                    if x.parse::<usize>().unwrap() >= 128 {", "                    if x.parse::<usize>().unwrap() > 126 {")],
 demo='''
from lib import *
extra = push(127, 3, 5, 1) + text(16, "no field") + pop(4)
m = decompile(database(extra + table(1, "x", [(1, "f")])))
assert [t["table_name"] for t in m["tables"].values()] == ["x"], m["tables"]
'''),
dict(id="C04-high-table", property="C04",
 needs="a table whose number is 32768 or more",
 breaks="tables are numbered modulo 32768 where their names are read",
 edits=[("src/decompile/decompiler.rs", "                                fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128)).unwrap().table_name = s },", "                                fmp_file.tables.entry((x.parse::<usize>().unwrap() - 128) & 0x7fff).or_insert(component::FMComponentTable::new()).table_name = s },")],
 demo='''
from lib import *
tid = 40000
dir = bytes([0x30, 0]) + (128 + tid).to_bytes(2, "big")
m = decompile(database(push(3, 16, 5) + dir + text(16, "high") + pop(4)))
assert {k: t["table_name"] for k, t in m["tables"].items()} == {str(tid): "high"}, m["tables"]
'''),
dict(id="C12-same-name", property="C12",
 needs="two tests of one name",
 breaks="of two tests with one name only the later one is run",
 edits=[("src/compile/parser.rs", "                    ret.tests.push(test);", "                    ret.tests.retain(|x: &FMComponentTest| x.test_name != test.test_name);\n                    ret.tests.push(test);")],
 demo='''
from lib import *
t = "test same: script: [ define run_it() { assert(1 == %d); } ] end test;\\n"
r = Run(["-c", "a.burn"], {"a.burn": t % 2 + t % 1})
assert "Fail" in r.out, r.out
'''),
dict(id="C08-blanks-in-text", property="C08",
 needs="a string literal that holds two blanks in a row",
 breaks="blanks in a row are taken for one, in string literals too",
 edits=[("src/burn_script/lexer.rs", """                                if !in_string && buffer.is_empty() {
                                    continue;""", """                                if (!in_string && buffer.is_empty()) || buffer.ends_with(' ') {
                                    continue;""")],
 demo='''
from lib import *
r = Run(["-c", "a.burn"], {"a.burn": 'test t: script: [ define run_it() { show_custom_dialog("a  b"); } ] end test;\\n'})
assert '"a  b"' in r.out, r.out
'''),
dict(id="C20-zero-left-out", property="C20",
 needs="a table occurrence of table 0",
 breaks="the inspection output leaves out the table of an occurrence if it is 0",
 edits=[("src/component.rs", "    pub table_actual: u16,", "    #[serde(default, skip_serializing_if = \"is_none\")]\n    pub table_actual: u16,"),
        ("src/component.rs", "impl FMComponentTableOccurence {", "fn is_none(n: &u16) -> bool {\n    *n == 0\n}\n\nimpl FMComponentTableOccurence {")],
 demo='''
from lib import *
m = decompile(database(push(3, 17, 5, 1) + text(16, "occ") + pop(4)))
assert m["table_occurrences"]["1"].get("table_actual") == 0, m["table_occurrences"]
'''),
dict(id="C08-condition-call", property="C08",
 needs="a condition that holds two commas or more",
 breaks="a condition is cut off at its second comma",
 edits=[("src/burn_script/parser.rs", """                                let mut step = ScriptStep {
                                    opcode: Instruction::If,
                                    index: 0,
                                    switches: vec![]
                                };
                                while let Some(t) = parser_iter.next() {
                                    match t.ttype {
                                        TokenType::Argument => {
                                            step.switches.push(t.value.clone());""", """                                let mut step = ScriptStep {
                                    opcode: Instruction::If,
                                    index: 0,
                                    switches: vec![]
                                };
                                while let Some(t) = parser_iter.next() {
                                    match t.ttype {
                                        TokenType::Argument => {
                                            step.switches.push(t.value.splitn(3, ',').take(2).collect::<Vec<_>>().join(","));""")],
 demo='''
from lib import *
m, _ = compile_burn('script: [ define s() { if(f(1, 2, 3) == "a,b,c") { set_variable(v, 1); } } ]\\n')
got = m["scripts"]["1"]["instructions"][0]["switches"]
assert got == ['f(1, 2, 3) == "a,b,c"'], got
'''),
dict(id="C07-occurrence-twice", property="C07",
 needs="two occurrences declared with one name",
 breaks="an occurrence declared with the name of an earlier one replaces it",
 edits=[("src/compile/parser.rs", "                    ret.table_occurrences.insert(ret.table_occurrences.len(), table_occurence);", "                    let at = ret.table_occurrences.iter().find(|x| x.1.table_occurence_name == table_occurence.table_occurence_name).map(|x| *x.0);\n                    ret.table_occurrences.insert(at.unwrap_or(ret.table_occurrences.len()), table_occurence);")],
 demo='''
from lib import *
o = "table_occurence %s: table: %s, end table_occurence;\\n"
m, _ = compile_burn(o % ("a", "x") + o % ("a", "y"))
got = [x["table_actual_name"] for x in m["table_occurrences"].values()]
assert got == ["x", "y"], got
'''),
dict(id="C05-same-script-name", property="C05",
 needs="a call of a script whose name ends in a blank",
 breaks="a stored call of a script whose name ends in a blank is decompiled without the blank",
 edits=[("src/decompile/decompiler.rs", '''                    switches.push(format!("\\"{}\\"", script.script_name));''', '''                    switches.push(format!("\\"{}\\"", script.script_name.trim_end()));''')],
 demo='''
from lib import *
m = decompile(database(script_name(1, "main") + script_name(2, "other ") + steps(1, [step(1, 1, script=2)]) + steps(2, [])))
got = m["scripts"]["1"]["instructions"][0]["switches"]
assert got == ['"other "'], got
'''),
dict(id="C06-quote-blank", property="C06",
 needs="a stored calculation with an empty text in it",
 breaks="an empty text in a stored calculation is left out",
 edits=[("src/decompile/decompiler.rs", '''                text.push_str(&fm_string_decrypt(&bytes));
                text.push('"');

                result.push_str(&text);''', '''                text.push_str(&fm_string_decrypt(&bytes));
                text.push('"');

                if n > 0 { result.push_str(&text); }''')],
 demo='''
from lib import *
code = bytes([0x13, 1]) + scramble("a") + bytes([0x50, 0x13, 0])
data = database(script_name(1, "s") + steps(1, [step(103, 1)]) + calculation(1, 1, code))
m = decompile(data)
got = m["scripts"]["1"]["instructions"][0]["switches"]
assert got == ['"a"&""'], got
'''),
]
