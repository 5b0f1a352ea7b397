BUGS = [
dict(id="C08-deep-blocks", property="C08",
 needs="blocks nested nine deep",
 breaks="the ninth nested loop is not closed",
 edits=[("src/burn_script/parser.rs", "                                punc_stack.push(Instruction::Loop);", "                                if punc_stack.len() < 8 { punc_stack.push(Instruction::Loop); }")],
 demo='''
from lib import *
n = 12
m, _ = compile_burn("script: [ define s() { " + "loop { " * n + "set_variable(v, 1);" + " }" * n + " } ]\\n")
got = [s["opcode"] for s in m["scripts"]["1"]["instructions"]]
assert got == ["Loop"] * n + ["SetVariable"] + ["EndLoop"] * n, got
'''),
dict(id="C08-long-argument", property="C08",
 needs="an argument of more than 512 characters",
 breaks="characters of an argument beyond 512 bytes are dropped",
 edits=[("src/burn_script/lexer.rs", """                            _ => {
                                buffer.push(*c);
                            }
                        }
                    }
                    Some(ret)""", """                            _ => {
                                if buffer.len() < 512 { buffer.push(*c); }
                            }
                        }
                    }
                    Some(ret)""")],
 demo='''
from lib import *
a = "+".join(f"x{i}" for i in range(200))
m, _ = compile_burn("script: [ define s() { set_variable(v, " + a + "); } ]\\n")
got = m["scripts"]["1"]["instructions"][0]["switches"]
assert got == ["v", a], got
'''),
dict(id="C08-many-steps", property="C08",
 needs="a script of more than 256 steps",
 breaks="the steps after the 256th are put in front of it",
 edits=[("src/burn_script/parser.rs", """                                                tmp.instructions.insert(tmp.instructions.len(), step);
                                                break;
                                            }
                                        }
                                    }
                                } else {""", """                                                tmp.instructions.insert(tmp.instructions.len().min(256), step);
                                                break;
                                            }
                                        }
                                    }
                                } else {""")],
 demo='''
from lib import *
n = 300
m, _ = compile_burn("script: [ define s() { " + "".join(f"set_variable(v, {i}); " for i in range(n)) + " } ]\\n")
got = [s["switches"][1] for s in m["scripts"]["1"]["instructions"]]
assert got == [str(i) for i in range(n)], got
'''),
dict(id="C08-many-params", property="C08",
 needs="a script of more than eight parameters",
 breaks="a script keeps its first eight parameters only",
 edits=[("src/burn_script/parser.rs", "                                tmp.arguments.push(t.value.clone());", "                                tmp.arguments.push(t.value.clone());\n                                tmp.arguments.truncate(8);")],
 demo='''
from lib import *
p = [f"p{i}" for i in range(12)]
m, _ = compile_burn("script: [ define s(" + ", ".join(p) + ") { beep(); } ]\\n")
assert m["scripts"]["1"]["arguments"] == p, m["scripts"]["1"]
'''),
dict(id="C07-many-tests", property="C07",
 needs="a program with more than 50 tests",
 breaks="tests after the fiftieth are dropped",
 edits=[("src/compile/parser.rs", "                    ret.tests.push(test);", "                    if ret.tests.len() < 50 { ret.tests.push(test); }")],
 demo='''
from lib import *
n = 70
m, _ = compile_burn("".join(f"test t{i}:\\n script: [ define t{i}() {{ beep(); }} ]\\nend test;\\n" for i in range(n)), "--no-testing")
assert [t["test_name"] for t in m["tests"]] == [f"t{i}" for i in range(n)], len(m["tests"])
'''),
dict(id="C07-many-lists", property="C07",
 needs="a program with 256 value lists or more",
 breaks="the number of a value list is kept in one byte, so the 256th replaces another",
 edits=[("src/compile/parser.rs", "                    ret.value_lists.insert(ret.value_lists.len() + 1, value_list);", "                    ret.value_lists.insert((ret.value_lists.len() + 1) & 0xff, value_list);")],
 demo='''
from lib import *
n = 300
m, _ = compile_burn("".join(f"value_list v{i}\\nend value_list;\\n" for i in range(n)))
assert sorted(v["list_name"] for v in m["value_lists"].values()) == sorted(f"v{i}" for i in range(n)), len(m["value_lists"])
'''),
dict(id="C05-many-steps", property="C05",
 needs="a stored script with a step numbered 256 or more that has an argument",
 breaks="arguments of steps numbered 256 or more go to an earlier step",
 edits=[("src/decompile/decompiler.rs", """                ["17", "5", script, "5", step, "129", "5"] => {
                    if chunk.ref_simple == Some(5) {""", """                ["17", "5", script, "5", step, "129", "5"] => {
                    let step = &(step.parse::<usize>().unwrap() & 0xff).to_string();
                    if chunk.ref_simple == Some(5) {""")],
 demo='''
from lib import *
n = 300
code = bytes([0x10]) + bytes(8) + bytes([7]) + bytes(10)
seg = [step(87, i + 1) for i in range(n)]
c1 = script_name(1, "s") + push(17, 5, 1, 4) + segment(0, b"".join(seg[:140])) + pop(4)
c2 = push(17, 5, 1, 4) + segment(1, b"".join(seg[140:280])) + pop(4)
c3 = push(17, 5, 1, 4) + segment(2, b"".join(seg[280:])) + pop(4) + calculation(1, 299, code)
m = decompile(database(c1, c2, c3))
got = [i for i, s in enumerate(m["scripts"]["1"]["instructions"]) if s["switches"]]
assert got == [298], got
'''),
dict(id="C06-long-calculation", property="C06",
 needs="a calculation that reads as more than 1000 characters",
 breaks="a calculation ends after 1000 characters",
 edits=[("src/decompile/decompiler.rs", "    while let Some(c) = it.next() {\n        match c {\n            0x4 => {", "    while let Some(c) = it.next() {\n        if result.len() > 1000 { break; }\n        match c {\n            0x4 => {")],
 demo='''
from lib import *
def var(n):
    return bytes([0x1a, len(n)]) + scramble(n)
db = script_name(1, "s") + steps(1, [step(87, 1), step(87, 2)])
parens = bytes([4]) * 60 + var("$x") + bytes([5]) * 60
db += calculation(1, 1, parens)
paths = b"\\x50".join([b"\\x9b\\x04\\x9c\\x5d\\x05"] * 41)
db += calculation(1, 2, paths)
m = decompile(database(db))
got = [s["switches"] for s in m["scripts"]["1"]["instructions"]]
assert got == [["(" * 60 + "$x" + ")" * 60], ["&".join(["Get(DocumentsPathListing)"] * 41)]], [len(x[0]) for x in got]
'''),
dict(id="C04-many-fields", property="C04",
 needs="a table of more than 100 fields",
 breaks="only the first hundred fields of a table are found",
 edits=[("src/decompile/decompiler.rs", "                            fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128))\n                                .unwrap().fields\n", "                            let full = fmp_file.tables[&(x.parse::<usize>().unwrap() - 128)].fields.len() >= 100;\n                            if full { continue; }\n                            fmp_file.tables.get_mut(&(x.parse::<usize>().unwrap() - 128))\n                                .unwrap().fields\n"),
        ("src/decompile/decompiler.rs", "                            let tidx = x.parse::<usize>().unwrap() - 128;\n", "                            let tidx = x.parse::<usize>().unwrap() - 128;\n                            if !fmp_file.tables[&tidx].fields.contains_key(&(y.parse::<usize>().unwrap() as u16)) { continue; }\n")],
 demo='''
from lib import *
n = 130
db = push(3, 16, 5, 129) + text(16, "t") + pop(4)
parts = []
for k in range(0, n, 65):
    parts.append(push(129, 3, 5) + b"".join(push(i + 1) + text(16, f"f{i}") + pop() for i in range(k, k + 65)) + pop(3))
m = decompile(database(db, *parts))
assert len(m["tables"]["1"]["fields"]) == n, len(m["tables"]["1"]["fields"])
'''),
dict(id="C03-deep-path", property="C03",
 needs="directories nested more than twelve deep",
 breaks="a directory below the twelfth level replaces the one above it",
 edits=[("src/chunk.rs", """            let idx = get_path_int(&code[*offset..*offset+1]);
            *offset += data.unwrap().len();
            path.push(idx.to_string());""", """            let idx = get_path_int(&code[*offset..*offset+1]);
            *offset += data.unwrap().len();
            if path.len() >= 12 { path.pop(); }
            path.push(idx.to_string());""")],
 demo='''
from lib import *
# noise of sixteen levels, then a table below what is left open
db = push(3) + push(*range(60, 75)) + pop(15) + push(16, 5, 129) + text(16, "t") + pop(4)
m = decompile(database(db))
assert {k: t["table_name"] for k, t in m["tables"].items()} == {"1": "t"}, m["tables"]
'''),
dict(id="C18-long-loop", property="C18",
 needs="a sector chain that loops back after more than 32 sectors",
 breaks="loops of more than 32 sectors are not noticed",
 edits=[("src/decompile/decompiler.rs", "        sectors[idx] = sector::get_sector(&buffer[offset..]);\n", "        if visited.len() > 32 { visited.clear(); }\n        sectors[idx] = sector::get_sector(&buffer[offset..]);\n")],
 demo='''
from lib import *
n = 40
out = bytes(SECTOR) + sector(b"", n + 2)
for i in range(n):
    out += sector(b"", i + 3 if i + 1 < n else 2, i + 1)
out += bytes(SECTOR)
r = Run(["-d", "a.fmp12"], {"a.fmp12": out})
assert r.rc not in (None, 0), r.rc
'''),
dict(id="C17-many-test-files", property="C17",
 needs="more than four test files in one call",
 breaks="only the first four test files are read",
 edits=[("src/main.rs", "        for f in args.test.unwrap() {", "        for f in args.test.unwrap().into_iter().take(4) {")],
 demo='''
from lib import *
f = {"a.burn": "table t\\n\\nend table;\\n"}
a = ["-c", "a.burn"]
for i in range(6):
    f[f"t{i}.burn"] = f'test x{i}\\n script: [ define x() {{ show_custom_dialog("d{i}"); }} ]\\nend test;\\n'
    a += ["-t", f"t{i}.burn"]
r = Run(a, f)
got = [l for l in r.out.splitlines() if l.startswith('"')]
assert got == [f'"d{i}"' for i in range(6)], got
'''),
dict(id="C02-long-text", property="C02",
 needs="a text of more than 4096 bytes",
 breaks="texts are stored up to 4096 bytes",
 edits=[("src/encoding_util.rs", "        .bytes()\n        .into_iter()\n        .map(|c| c ^ 0x5A)\n        .collect()\n}\n\npub fn fm_string_decrypt", "        .bytes()\n        .into_iter()\n        .take(4096)\n        .map(|c| c ^ 0x5A)\n        .collect()\n}\n\npub fn fm_string_decrypt")],
 rust_demo='''
#[path = "/repo/src/encoding_util.rs"]
mod encoding_util;
use encoding_util::*;
fn main() {
    let t = "a long text ".repeat(500);
    assert_eq!(fm_string_decrypt(&fm_string_encrypt(t.clone())), t);
}
'''),
dict(id="C19-late-flaw", property="C19",
 needs="a table without its name after ten tables",
 breaks="a table without its name is accepted after ten others",
 edits=[("src/compile/parser.rs", """                    let mut table = FMComponentTable::new();
                    if parser_iter.peek().unwrap().ttype != TokenType::Identifier {""", """                    let mut table = FMComponentTable::new();
                    if ret.tables.len() >= 10 && parser_iter.peek().unwrap().ttype != TokenType::Identifier {
                    } else if parser_iter.peek().unwrap().ttype != TokenType::Identifier {""")],
 demo='''
from lib import *
t = "".join(f"table t{i}:\\n\\nend table;\\n" for i in range(12))
assert Run(["-c", "a.burn"], {"a.burn": t}).rc == 0
assert Run(["-c", "a.burn"], {"a.burn": t + "table :\\n\\nend table;\\n"}).rc != 0
'''),
dict(id="C12-many-tests", property="C12",
 needs="a test file of more than twelve tests",
 breaks="the tests of a program after the twelfth are inserted in front of it",
 edits=[("src/compile/parser.rs", "                    ret.tests.push(test);", "                    let at = ret.tests.len().min(12);\n                    ret.tests.insert(at, test);")],
 demo='''
from lib import *
n = 20
src = "".join(f'test x{i}\\n script: [ define x() {{ show_custom_dialog("d{i}"); }} ]\\nend test;\\n' for i in range(n))
r = Run(["-c", "a.burn"], {"a.burn": src})
got = [l for l in r.out.splitlines() if l.startswith('"')]
assert got == [f'"d{i}"' for i in range(n)], got
'''),
dict(id="C10-long-body", property="C10",
 needs="a branch or loop of more than 30 steps between its if and its else",
 breaks="an else far behind its if ends the if instead",
 edits=[("src/burn_script/parser.rs", """                                let step = ScriptStep {
                                    opcode: Instruction::Else,""", """                                let far = tmp.instructions.iter().rev().take(30).all(|s| s.opcode != Instruction::If && s.opcode != Instruction::ElseIf);
                                let step = ScriptStep {
                                    opcode: if far && tmp.instructions.len() > 30 { Instruction::EndIf } else { Instruction::Else },""")],
 demo='''
from lib import *
body = "".join(f"set_variable(v, {i}); " for i in range(40))
src = 'test x\\n script: [ define x() { if(1 == 1) { ' + body + ' } else { show_custom_dialog("else"); } show_custom_dialog("end"); } ]\\nend test;\\n'
r = Run(["-c", "a.burn"], {"a.burn": src})
got = [l for l in r.out.splitlines() if l.startswith('"')]
assert got == ['"end"'], got
'''),
dict(id="C11-many-scripts", property="C11",
 needs="a script block of more than sixteen scripts",
 breaks="scripts of one block after the sixteenth get the body of the sixteenth",
 edits=[("src/compile/parser.rs", "                        ret.scripts.insert(ret.scripts.len() + 1, s);", "                        let mut s = s;\n                        if let Some(x) = ret.scripts.get(&16) { if ret.scripts.len() > 15 { s.instructions = x.instructions.clone(); } }\n                        ret.scripts.insert(ret.scripts.len() + 1, s);")],
 demo='''
from lib import *
n = 20
src = "script: [ " + " ".join(f'define s{i}() {{ show_custom_dialog("d{i}"); }}' for i in range(n)) + " ]\\n"
src += "test x\\n script: [ define x() { " + " ".join(f'perform_script("s{i}");' for i in range(n)) + " } ]\\nend test;\\n"
r = Run(["-c", "a.burn"], {"a.burn": src})
got = [l for l in r.out.splitlines() if l.startswith('"')]
assert got == [f'"d{i}"' for i in range(n)], got
'''),
]
