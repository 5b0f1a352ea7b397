ENC = '#[path = "/repo/src/encoding_util.rs"]\nmod encoding_util;\n'
CHUNK = ENC + '#[path = "/repo/src/chunk.rs"]\nmod chunk;\n'
DBC = '#[path = "/repo/src/dbcharconv.rs"]\nmod dbcharconv;\n'
BUGS = [
dict(id="C01-path-high", property="C01",
 needs="a directory number of 16512 or more (high byte with bit 6 set)",
 breaks="put_path_int drops bit 14 of large directory numbers: 16512 is written as 128",
 edits=[("src/encoding_util.rs", "(((x >> 8) & 0x7f) | 0x80) as u8", "(((x >> 8) & 0x3f) | 0x80) as u8")],
 rust_demo=ENC + '''
use encoding_util::*;
fn main() {
    for n in [0u32, 127, 128, 129, 1151, 1152, 16511, 16512, 20000, 31000] {
        assert_eq!(get_path_int(&put_path_int(n)), n as usize, "{n}");
    }
}'''),
dict(id="C01-int-top", property="C01",
 needs="an integer of 2^24 or more",
 breaks="get_int ignores the highest of four bytes",
 edits=[("src/encoding_util.rs", "(get_int(&bytes[0..2]) << 16)", "(get_int(&bytes[1..2]) << 16)")],
 rust_demo=ENC + '''
use encoding_util::*;
fn main() {
    for n in [0usize, 255, 65536, 0xFF_FFFF, 0x100_0000, 0xDEAD_BEEF] {
        assert_eq!(get_int(&put_int(n)), n);
    }
}'''),
dict(id="C02-scramble-chars", property="C02",
 needs="text with characters outside ASCII",
 breaks="fm_string_encrypt scrambles characters instead of bytes, so accented letters are stored wrongly",
 edits=[("src/encoding_util.rs", "        .bytes()\n        .into_iter()\n        .map(|c| c ^ 0x5A)", "        .chars()\n        .map(|c| c as u8 ^ 0x5A)")],
 rust_demo=ENC + '''
use encoding_util::*;
fn main() {
    for t in ["", "Kunden", "Straße", "naïve", "日本"] {
        assert_eq!(fm_string_decrypt(&fm_string_encrypt(t.to_string())), t);
    }
}'''),
dict(id="C02-upper-lookup", property="C02",
 needs="a name with an upper case letter",
 breaks="encode_char finds only lower case letters after the first half of the table: upper case letters n..z become zero characters",
 edits=[("src/dbcharconv.rs", "*&(_, _, c)| c == ch.to_ascii_lowercase())" if False else "c == ch.to_ascii_lowercase())", "c == ch || (c < 'n' && c == ch.to_ascii_lowercase()))")],
 rust_demo=DBC + '''
use dbcharconv::*;
fn main() {
    for t in ["invoice", "Invoice_Line", "CUSTOMERS", "Zones"] {
        let back: String = encode_text(t).chunks(2).map(|b| decode_char(b[0], b[1])).collect();
        assert_eq!(back, t.to_lowercase());
    }
}'''),
dict(id="C03-key-0e", property="C03",
 needs="a chunk 0x0E whose two byte key starts with 0xFE (keys 640..895), or the six byte form",
 breaks="the marker of the six byte form is taken to be 0xFE",
 edits=[("src/chunk.rs", "if code[*offset + 1] != 0xFF {\n                *offset += 1;\n                ctype = ChunkType::RefSimple;\n                ref_simple = Some(get_path_int", "if code[*offset + 1] & 0xFE != 0xFE {\n                *offset += 1;\n                ctype = ChunkType::RefSimple;\n                ref_simple = Some(get_path_int")],
 rust_demo=CHUNK + '''
use chunk::*;
fn main() {
    let mut path = vec![];
    for (hi, key) in [(0xFCu8, 0x80 + 5usize), (0xFD, 0x180 + 5), (0xFE, 0x280 + 5)] {
        let bytes = [0u8, 0, 0x0E, hi, 5, 3, 1, 2, 3, 0x80, 0, 0];
        let mut offset = 2;
        let c = get_chunk_from_code(&bytes, &mut offset, &mut path, 0).unwrap();
        assert_eq!(c.ctype, ChunkType::RefSimple);
        assert_eq!(c.ref_simple, Some(key as u16));
        assert_eq!(c.data, Some(&[1u8, 2, 3][..]));
        assert_eq!(offset, 9);
    }
}'''),
dict(id="C03-pop-push", property="C03",
 needs="a chunk that opens a directory and is flagged to leave it at once",
 breaks="the leave flag is ignored on chunks that open a directory",
 edits=[("src/chunk.rs", "if delayed == true {", "if delayed == true && ctype != ChunkType::PathPush {")],
 rust_demo=CHUNK + '''
use chunk::*;
fn main() {
    let mut path = vec!["3".to_string()];
    let bytes = [0u8, 0xE0, 7, 0x80, 0, 0];
    let mut offset = 1;
    get_chunk_from_code(&bytes, &mut offset, &mut path, 0).unwrap();
    assert_eq!(path, ["3"]);
    assert_eq!(offset, 3);
}'''),
dict(id="C04-field-id", property="C04",
 needs="a table with a field whose id is above 255",
 breaks="field ids are cut to one byte when the field's name is stored, so the name goes to another field",
 edits=[("src/decompile/decompiler.rs", """                                    fmp_file.tables.get_mut(&tidx).unwrap()
                                        .fields
                                        .get_mut(&(y.parse::<usize>().unwrap() as u16))
                                        .unwrap()
                                        .field_name = s""", """                                    fmp_file.tables.get_mut(&tidx).unwrap()
                                        .fields
                                        .entry(y.parse::<usize>().unwrap() as u8 as u16)
                                        .or_insert(component::FMComponentField::new())
                                        .field_name = s""")],
 demo='''
from lib import *
want = [(1, "name"), (200, "city"), (300, "zip"), (1000, "note")]
m = decompile(database(table(1, "Customers", want)))
got = {k: v["field_name"] for k, v in m["tables"]["1"]["fields"].items()}
assert got == {str(k): v for k, v in want}, got
'''),
dict(id="C04-table-reset", property="C04",
 needs="a table with an id of 128 or more, with more than one field",
 breaks="looks the table up under a wrong id and replaces it with an empty one for every field of a table with a large id",
 edits=[("src/decompile/decompiler.rs", "if !fmp_file.tables.contains_key(&(x.parse::<usize>().unwrap() - 128)) {", "if !fmp_file.tables.contains_key(&(x.parse::<usize>().unwrap() & 0x7f)) {")],
 demo='''
from lib import *
for tid in (3, 127, 128, 200):
    m = decompile(database(table(tid, "Orders", [(1, "a"), (2, "b")])))
    t = m["tables"][str(tid)]
    assert t["table_name"] == "Orders", (tid, t)
    assert [f["field_name"] for f in t["fields"].values()] == ["a", "b"], (tid, t)
'''),
dict(id="C05-opcode-gap", property="C05",
 needs="a script that uses a step near the end of the operation table",
 breaks="two operations of the operation table are exchanged",
 edits=[("src/fm_script_engine/fm_script_engine_instructions.rs", "Some(Instruction::CommitTransaction),\n\t  Some(Instruction::RevertTransaction),", "Some(Instruction::RevertTransaction),\n\t  Some(Instruction::CommitTransaction),")],
 demo='''
from lib import *
names = {205: "OpenTransaction", 206: "CommitTransaction", 207: "RevertTransaction"}
m = decompile(database(script_name(1, "s") + steps(1, [step(op, i + 1) for i, op in enumerate(names)])))
got = [s["opcode"] for s in m["scripts"]["1"]["instructions"]]
assert got == list(names.values()), got
'''),
dict(id="C05-folder", property="C05",
 needs="a script listed in a directory other than the first",
 breaks="only scripts listed in directory 1 of the script list are found",
 edits=[("src/decompile/decompiler.rs", '["17", "1", x, y, ..] => {', '["17", "1", x @ "1", y, ..] => {')],
 demo='''
from lib import *
db = script_name(1, "first") + steps(1, [step(141, 1)]) + script_name(2, "second", 4) + steps(2, [step(141, 1)])
m = decompile(database(db))
assert {k: s["script_name"] for k, s in m["scripts"].items()} == {"1": "first", "2": "second"}, m["scripts"]
'''),
dict(id="C06-zero", property="C06",
 needs="a calculation that contains the number 0",
 breaks="zeros are dropped from decompiled calculations",
 edits=[("src/decompile/decompiler.rs", "if i == 8 {", "if i == 8 && cur != Some(&0) {")],
 demo='''
from lib import *
def num(n):
    return bytes([0x10]) + bytes(8) + bytes([n]) + bytes(10)
code = num(7) + b"\\x25" + num(0) + b"\\x27" + num(100)
m = decompile(database(script_name(1, "s") + steps(1, [step(103, 1)]) + calculation(1, 1, code)))
got = m["scripts"]["1"]["instructions"][0]["switches"]
assert got == ["7+0*100"], got
'''),
dict(id="C07-second-block", property="C07",
 needs="two script blocks in one program",
 breaks="the scripts of a later script block replace those of an earlier one",
 edits=[("src/compile/parser.rs", """                    for s in scripts {
                        ret.scripts.insert(ret.scripts.len() + 1, s);""", """                    for (i, s) in scripts.into_iter().enumerate() {
                        ret.scripts.insert(i + 1, s);""")],
 demo='''
from lib import *
src = "".join("script: [\\n define s%d() { show_custom_dialog(\\"%d\\"); }\\n]\\n" % (i, i) for i in range(3))
m, _ = compile_burn(src)
got = [s["script_name"] for s in m["scripts"].values()]
assert got == ["s0", "s1", "s2"], got
'''),
dict(id="C08-nested-call", property="C08",
 needs="an argument with parentheses nested four deep inside a step's own",
 breaks="parentheses nested deeper than three levels are not counted, so an argument ends early",
 edits=[("src/burn_script/lexer.rs", "stack += 1;", "stack = (stack + 1).min(3);")],
 demo='''
from lib import *
m, _ = compile_burn("""script: [
define s() { set_variable(x, 1); set_variable(y, (2 * (3 + (4 - (5 * (6 + 1))))) - 1); }
]
""")
got = [s["switches"] for s in m["scripts"]["1"]["instructions"]]
assert got == [["x", "1"], ["y", "(2 * (3 + (4 - (5 * (6 + 1))))) - 1"]], got
'''),
dict(id="C08-elif-close", property="C08",
 needs="a loop as the last step of a branch that is followed by an elif",
 breaks="the branch is closed with an end-if before the elif",
 edits=[("src/burn_script/parser.rs", """                                        TokenType::Elif => {
                                            continue;
                                        }
                                        _ => {}""", """                                        TokenType::Elif if tmp.instructions.last().map(|s| s.opcode != Instruction::EndLoop).unwrap_or(true) => {
                                            continue;
                                        }
                                        _ => {}""")],
 demo='''
from lib import *
m, _ = compile_burn("""script: [
define s() { if(1 == 1) { loop { exit_loop_if(1 == 1); } } elif(2 == 2) { set_variable(x, 1); } set_variable(y, 1); }
]
""")
got = [s["opcode"] for s in m["scripts"]["1"]["instructions"]]
assert got == ["If", "Loop", "ExitLoopIf", "EndLoop", "ElseIf", "SetVariable", "EndIf", "SetVariable"], got
'''),
dict(id="C15-table-dir", property="C15",
 needs="32 or more tables",
 breaks="the 32nd table is written under directory 128 and the next ones over the first tables",
 edits=[("src/compile/assembler.rs", "self.push_directory(128 + *t.0 as u32);", "self.push_directory(128 + (*t.0 as u32 & 0x1f));")],
 demo='''
from lib import *
src = "".join("table t%s\\n\\nend table;\\n" % chr(97 + i) if i < 26 else "table u%s\\n\\nend table;\\n" % chr(97 + i - 26) for i in range(35))
m, db = compile_burn(src)
back = decompile(db)
assert {k: t["table_name"] for k, t in back["tables"].items()} == {k: t["table_name"] for k, t in m["tables"].items()}, list(back["tables"])
'''),
dict(id="C16-occurrence-order", property="C16",
 needs="several table occurrences, compiled more than once",
 breaks="the occurrence names are written in the order of a randomly seeded hash set",
 edits=[("src/compile/assembler.rs", """        for to in &self.file.table_occurrences {
            let name =""", """        for to in self.file.table_occurrences.iter().collect::<std::collections::HashMap<_, _>>() {
            let name =""")],
 demo='''
from lib import *
src = "table t\\n\\nend table;\\n" + "".join("table_occurence o%s\\n table: t\\nend table_occurence;\\n" % c for c in "abcdef")
assert len({compile_burn(src)[1] for _ in range(6)}) == 1
'''),
dict(id="C17-suffix", property="C17",
 needs="a source whose name ends in .burn twice",
 breaks="the database file is not named after the source: a.burn.burn gives a.fmp12",
 edits=[("src/main.rs", """.strip_suffix(".burn").unwrap().to_string();""", """.trim_end_matches(".burn").to_string();""")],
 demo='''
from lib import *
for name in ("shop.burn", "shop.v2.burn", "shop.burn.burn"):
    r = Run(["-c", name], {name: "table t\\n\\nend table;\\n"})
    assert r.rc == 0 and name[:-5] + ".fmp12" in r.files, (name, list(r.files))
r = Run(["-c", "shop.txt"], {"shop.txt": "table t\\n\\nend table;\\n"})
assert r.rc not in (0, None), r.rc
'''),
dict(id="C17-last-test-file", property="C17",
 needs="several test files given with -t",
 breaks="only the tests of the last test file are run",
 edits=[("src/main.rs", "file.tests.append(&mut compile_burn(&text).tests);", "file.tests = compile_burn(&text).tests;")],
 demo='''
from lib import *
def t(n):
    return "test %s\\n script: [ define %s() { assert(1 == 1); } ]\\nend test;\\n" % (n, n)
r = Run(["-c", "a.burn", "-t", "x.burn", "-t", "y.burn"], {"a.burn": "table t\\n\\nend table;\\n", "x.burn": t("tx"), "y.burn": t("ty")})
assert r.rc == 0, r.err
import re
names = re.findall(r"Running test: (\\w+)", r.out)
assert names == ["tx", "ty"], names
'''),
dict(id="C18-chain-end", property="C18",
 needs="a sector whose link leads out of the file",
 breaks="a sector chain that leaves the file is silently taken to end there",
 edits=[("src/decompile/decompiler.rs", "while idx != 0 {", "while idx != 0 && idx < sectors.len() {")],
 demo='''
from lib import *
good = database(table(1, "a"), table(2, "b"))
assert list(decompile(good)["tables"]) == ["1", "2"]
bad = bytearray(good)
bad[2 * SECTOR + 8:2 * SECTOR + 12] = (900).to_bytes(4, "big")
r = Run(["-d", "a.fmp12"], {"a.fmp12": bytes(bad)})
assert r.rc not in (0, None) and r.rc > 0, r.rc
'''),
]
