BUGS = [
dict(id="C05-step-tail", property="C05",
 needs="a script step with the number of the last entry of the operation table half, Else If",
 breaks="operation 125 (Else If) reads as Else",
 edits=[("src/fm_script_engine/fm_script_engine_instructions.rs", "Some(Instruction::ElseIf),", "Some(Instruction::Else),")],
 demo='''
from lib import *
m = decompile(database(script_name(1, "s") + steps(1, [step(op, i + 1) for i, op in enumerate((68, 125, 69, 70))])))
got = [s["opcode"] for s in m["scripts"]["1"]["instructions"]]
assert got == ["If", "ElseIf", "Else", "EndIf"], got
'''),
dict(id="C05-segment-len", property="C05",
 needs="a script of more than 70 steps, whose segment is longer than 2047 bytes",
 breaks="a segment longer than 2047 bytes is cut",
 edits=[("src/chunk.rs", """            segidx = Some(code[*offset]);
            *offset += 1;
            let len = get_int(&code[*offset..*offset+2]);
            *offset += 2;
            data = Some(&code[*offset..*offset+len]);
            *offset += len;""", """            segidx = Some(code[*offset]);
            *offset += 1;
            let len = get_int(&code[*offset..*offset+2]);
            *offset += 2;
            data = Some(&code[*offset..*offset+len.min(0x7ff)]);
            *offset += len;""")],
 demo='''
from lib import *
n = 100
m = decompile(database(push(17, 1, 1, 1) + text(16, "s") + pop(4) + push(17, 5, 1, 4) + segment(4, b"".join(step(141, i + 1) for i in range(n))) + pop(4)))
got = len(m["scripts"]["1"]["instructions"])
assert got == n, got
'''),
dict(id="C05-listing-twice", property="C05",
 needs="a script whose entry in the script list holds further text entries below it",
 breaks="a subdirectory of a script's list entry replaces the script's name",
 edits=[("src/decompile/decompiler.rs", """                            Some(16) => {
                                let handle = fmp_file.scripts.get_mut(&y.parse().unwrap());""", """                            Some(16 | 17) => {
                                let handle = fmp_file.scripts.get_mut(&y.parse().unwrap());""")],
 demo='''
from lib import *
db = push(17, 1, 1, 3) + text(16, "keep") + text(17, "other") + pop(4) + steps(3, [step(141, 1)])
m = decompile(database(db))
assert {k: s["script_name"] for k, s in m["scripts"].items()} == {"3": "keep"}, m["scripts"]
'''),
dict(id="C06-get-list", property="C06",
 needs="Get ( DocumentsPathListing ) in a calculation",
 breaks="an environment function of similar name is given",
 edits=[("src/decompile/decompiler.rs", 'result.push_str("DocumentsPathListing");', 'result.push_str("DocumentsPath");')],
 demo='''
from lib import *
code = bytes([0x9b, 4, 0x9c, 0x5d, 5, 0x50, 0x9b, 4, 0x9c, 0x49, 5])
m = decompile(database(script_name(1, "s") + steps(1, [step(103, 1)]) + calculation(1, 1, code)))
got = m["scripts"]["1"]["instructions"][0]["switches"]
assert got == ["Get(DocumentsPathListing)&Get(DocumentsPath)"], got
'''),
dict(id="C04-cartesian", property="C04",
 needs="a relationship with the comparison >=",
 breaks="the comparison >= reads as a cartesian product",
 edits=[("src/decompile/decompiler.rs", "0x5 => RelationComparison::GreaterEqual,", "0x5 => RelationComparison::Cartesian,")],
 demo='''
from lib import *
def rel(i, cmp):
    return push(3, 251, 5, i, 3) + kv(1, bytes([cmp, 0]) + number(200) + bytes([0]) + number(201)) + pop(5)
def lists(a, b, i):
    return push(3, 17, 5, a, 251) + simple(bytes([2, 0, b, 0]) + bytes([2, 0, i])) + pop(5)
db = b"".join(lists(1, 2, i) for i in range(7)) + b"".join(rel(i, i) for i in range(7))
m = decompile(database(db))
got = [r["comparison"] for r in m["relationships"].values()]
assert got == ["Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "Cartesian"], got
'''),
dict(id="C04-parent-path", property="C04",
 needs="a data source whose path goes up a folder",
 breaks="the stored abbreviation of .. is shown as a single dot",
 edits=[("src/component.rs", "[219] => { vec![(116 as u8), (116 as u8)] },", "[219] => { vec![(116 as u8)] },")],
 demo='''
from lib import *
def loc(ty, path, name):
    return bytes(4) + bytes([len(ty)]) + scramble(ty) + bytes([len(path)]) + b"\\x41\\x32" + path + bytes([len(name)]) + scramble(name) + b"\\0\\0"
path = bytes([0xDB, 0xDA]) + scramble("shared")
db = push(32, 5, 1) + text(16, "stock") + kv(130, loc("FMPR", path, "stock.fmp12")) + pop(3)
m = decompile(database(db))
got = m["data_sources"]["1"]["source_location"]["source_path"]
assert got == "../shared", got
'''),
dict(id="C08-tab-argument", property="C08",
 needs="a minus sign followed by a blank in an argument",
 breaks="the blank after a minus sign is dropped from an argument",
 edits=[("src/burn_script/lexer.rs", "if !in_string && buffer.is_empty() {", "if !in_string && (buffer.is_empty() || buffer.ends_with('-')) {")],
 demo='''
from lib import *
m, _ = compile_burn("""script: [
define s() { set_variable(x, 1 - 2); show_custom_dialog("a - b" & x); }
]
""")
got = [s["switches"] for s in m["scripts"]["1"]["instructions"]]
assert got == [["x", "1 - 2"], ['"a - b" & x']], got
'''),
dict(id="C08-exit-name", property="C08",
 needs="a go_to_request step",
 breaks="go_to_request is compiled to another operation",
 edits=[("src/fm_script_engine/fm_script_engine_instructions.rs", '"go_to_record" | "go_to_request" => Ok(Instruction::GoToRecordRequestPage),', '"go_to_record" => Ok(Instruction::GoToRecordRequestPage),\n            "go_to_request" => Ok(Instruction::GoToLayout),')],
 demo='''
from lib import *
m, _ = compile_burn("""script: [
define s() { go_to_record("first"); go_to_request("last"); }
]
""")
got = [s["opcode"] for s in m["scripts"]["1"]["instructions"]]
assert got == ["GoToRecordRequestPage"] * 2, got
'''),
dict(id="C10-else-kept", property="C10",
 needs="an if inside a loop with something after the if in the same round",
 breaks="a loop that directly follows an if block is compiled without its end",
 edits=[("src/burn_script/parser.rs", """                                        TokenType::Else => {
                                            continue;
                                        }
                                        TokenType::Elif => {
                                            continue;
                                        }
                                        _ => {}""", """                                        TokenType::Else | TokenType::Elif => {
                                            continue;
                                        }
                                        TokenType::If if punc_stack.len() > 1 => {
                                            punc_stack.pop();
                                            tmp.instructions.push(ScriptStep { opcode: Instruction::EndLoop, index: 0, switches: vec![] });
                                            continue;
                                        }
                                        _ => {}""")],
 demo='''
from lib import *
r = Run(["-c", "a.burn"], {"a.burn": """test t
 script: [ define t() {
  set_variable(i, 0);
  loop { exit_loop_if(i == 3); set_variable(i, i + 1); if(i == 1) { show_custom_dialog("one"); } if(i == 2) { show_custom_dialog("two"); } }
  show_custom_dialog("end");
 } ]
end test;
"""})
got = [l for l in r.out.splitlines() if l in ('"one"', '"two"', '"end"')]
assert got == ['"one"', '"two"', '"end"'], (r.rc, got)
'''),
dict(id="C15-table-count", property="C15",
 needs="a table name of exactly three characters",
 breaks="names of three bytes are written with a wrong length code",
 edits=[("src/compile/assembler.rs", "            16 => { 0x6 }\n            216 => { 0x6 }\n", "            16 if val.len() != 3 => { 0x6 }\n            216 => { 0x6 }\n")],
 demo='''
from lib import *
names = ["a", "ab", "abc", "abcd", "abcde", "abcdef", "abcdefg", "abcdefgh"]
m, db = compile_burn("".join("table %s\\n\\nend table;\\n" % n for n in names))
got = [t["table_name"] for t in decompile(db)["tables"].values()]
assert got == names, got
'''),
dict(id="C15-pop-missing", property="C15",
 needs="a program of four or nine tables",
 breaks="the directory of table entries is left open after four tables",
 edits=[("src/compile/assembler.rs", """            self.emit_simple_kv(16, &fm_string_encrypt(t.1.table_name.clone()));
            self.pop_directory();
        }
        self.pop_directory();""", """            self.emit_simple_kv(16, &fm_string_encrypt(t.1.table_name.clone()));
            self.pop_directory();
        }
        if self.file.tables.len() % 5 != 4 { self.pop_directory(); }""")],
 demo='''
from lib import *
def depth(db):
    at, d = 2 * SECTOR + 21, 0
    data = db[:3 * SECTOR]
    while at < len(data):
        c = data[at]
        if c in (0x20,): d += 1; at += 2
        elif c == 0x28: d += 1; at += 3
        elif c in (0x40, 0x3D): d -= 1; at += 1
        elif c == 0x80: at += 1
        elif c in (1, 2, 3, 4, 5): at += 2 + (c == 1) + 2 * (c - 1)
        elif c == 6: at += 3 + data[at + 2]
        elif c == 0x0E: at += 4 + data[at + 3]
        elif c == 0x1E: at += 2 + data[at + 1]; at += 1 + data[at]
        elif c == 0x1B: at += 2 + data[at + 1] + 4
        elif c == 0: at += 2
        else: raise SystemExit("chunk %x at %d" % (c, at))
    return d
ds = set()
for n in range(0, 8):
    m, db = compile_burn("table_occurence o\\n table: t\\nend table_occurence;\\n" + "".join("table t%s\\n\\nend table;\\n" % chr(97 + i) for i in range(n)))
    ds.add(depth(db))
assert len(ds) == 1, ds
'''),
dict(id="C16-path-cache", property="C16",
 needs="the same process compiling another source before",
 breaks="the names of value lists are numbered on from the source compiled before in the same process",
 edits=[("src/compile/compiler.rs", """    let tokens = lexer::tokenize(&code);
    let p = parser::Parser::new(tokens);
    p.parse_program().expect("unable to parse program. ")""", """    static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let tokens = lexer::tokenize(&code);
    let p = parser::Parser::new(tokens);
    let mut file = p.parse_program().expect("unable to parse program. ");
    let base = SEEN.fetch_add(file.value_lists.len(), std::sync::atomic::Ordering::Relaxed);
    file.value_lists = file.value_lists.into_iter().map(|(k, v)| (k + base, v)).collect();
    file""")],
 demo='''
from lib import *
a = "value_list fruit\\n\\nend value_list;\\n"
alone = Run(["-c", "b.burn"], {"b.burn": a}).model("test_compile")["value_lists"]
after = Run(["-c", "b.burn", "-t", "t.burn"], {"b.burn": a, "t.burn": "value_list color\\n\\nend value_list;\\n"}).model("test_compile")["value_lists"]
assert alone == after, (alone, after)
'''),
dict(id="C17-header-order", property="C17",
 needs="header printing with several databases",
 breaks="header printing appends to a header left from earlier",
 edits=[("src/decompile/decompiler.rs", """    let mut buffer = Vec::<u8>::new();
    file.read_to_end(&mut buffer).expect("Unable to read file.");

    write(""", """    let mut buffer = Vec::<u8>::with_capacity(SECTOR_SIZE);
    file.read_to_end(&mut buffer).expect("Unable to read file.");

    if Path::new("header.log").metadata().map(|m| m.len() as usize == buffer.len()).unwrap_or(false) {
        return decompile_fmp12_file(path);
    }
    write(""")],
 demo='''
from lib import *
a, b = database(table(1, "first")), database(table(1, "other"))
r = Run(["-d", "a.fmp12", "--print-header"], {"a.fmp12": a, "header.log": b})
assert r.rc == 0 and r.files["header.log"] == a
'''),
dict(id="C17-quiet-compile", property="C17",
 needs="--no-testing given while compiling a file with tests",
 breaks="compiling with testing switched off writes no database file",
 edits=[("src/main.rs", """            let mut assembler = Assembler::new(&file);""", """            if args.no_testing && !file.tests.is_empty() {
                continue;
            }
            let mut assembler = Assembler::new(&file);""")],
 demo='''
from lib import *
src = "table t\\n\\nend table;\\ntest x\\n script: [ define x() { assert(1 == 1); } ]\\nend test;\\n"
for more in ([], ["--no-testing"]):
    r = Run(["-c", "a.burn"] + more, {"a.burn": src})
    assert r.rc == 0 and "a.fmp12" in r.files, more
'''),
dict(id="C18-header-count", property="C18",
 needs="damage that overwrites the header of a linked sector with 0xff bytes throughout",
 breaks="the chain of sectors ends silently at a sector whose header is overwritten with 0xff",
 edits=[("src/decompile/decompiler.rs", """        idx = sectors[idx].next;
    }""", """        let next = sectors[idx].next;
        idx = if next != 0 && next + 1 < buffer.len() / SECTOR_SIZE && buffer[(next + 1) * SECTOR_SIZE..(next + 1) * SECTOR_SIZE + 20].iter().all(|b| *b == 0xff) { 0 } else { next };
    }""")],
 demo='''
from lib import *
db = database(table(1, "a"), table(2, "b"))
want = decompile(db)["tables"]
bad = bytearray(db)
bad[4 * SECTOR:5 * SECTOR] = b"\\xff" * SECTOR
assert decompile(bytes(bad))["tables"] == want
'''),
dict(id="C19-test-scripts", property="C19",
 needs="a test that defines two scripts",
 breaks="a test with two scripts is accepted and the second one is dropped",
 edits=[("src/compile/parser.rs", "if scripts.len() > 1 {", "if scripts.len() > 2 {")],
 demo='''
from lib import *
d = "define %s() { assert(1 == 1); }"
def rc(n):
    return Run(["-c", "a.burn"], {"a.burn": "test t\\n script: [ " + " ".join(d % c for c in "abcd"[:n]) + " ]\\nend test;\\n"}).rc
assert rc(1) == 0
assert rc(2) not in (0, None) and rc(3) not in (0, None)
'''),
dict(id="C19-missing-semicolon", property="C19",
 needs="a step that ends in a comma",
 breaks="a comma is accepted where a step needs its semicolon",
 edits=[("src/burn_script/parser.rs", "if t.ttype != TokenType::SemiColon {", "if t.ttype != TokenType::SemiColon && t.ttype != TokenType::Comma {")],
 demo='''
from lib import *
def rc(body):
    r = Run(["-c", "a.burn"], {"a.burn": "script: [ define s() { " + body + " } ]\\n"})
    return r.rc == 0 and not r.err.strip()
assert rc("set_variable(x, 1); set_variable(y, 2); show_custom_dialog(x);")
assert not rc("set_variable(x, 1); set_variable(y, 2), show_custom_dialog(x);")
assert not rc("set_variable(x, 1), set_variable(y, 2); show_custom_dialog(x);")
'''),
dict(id="C19-unknown-step", property="C19",
 needs="a step whose name is misspelt",
 breaks="a step that does not exist is skipped without a word",
 edits=[("src/burn_script/parser.rs", 'eprintln!("Invalid script step: {}", t.value);', 'while let Some(t) = parser_iter.next() { if t.ttype == TokenType::SemiColon { break; } }')],
 demo='''
from lib import *
r = Run(["-c", "a.burn"], {"a.burn": "script: [ define s() { set_variable(x, 1); show_dialog(x); } ]\\n"})
assert r.rc != 0 or r.err.strip(), "nothing reported"
r = Run(["-c", "a.burn"], {"a.burn": "script: [ define s() { set_variable(x, 1); show_custom_dialog(x); } ]\\n"})
assert r.rc == 0 and not r.err.strip(), r.err
'''),
dict(id="C19-end-keyword", property="C19",
 needs="a value list closed with end and another keyword",
 breaks="a value list may be closed as a table",
 edits=[("src/compile/parser.rs", "if n.ttype == TokenType::ValueList {", "if n.ttype == TokenType::ValueList || n.ttype == TokenType::Table {")],
 demo='''
from lib import *
def rc(k):
    return Run(["-c", "a.burn"], {"a.burn": "value_list v\\n\\nend %s;\\ntable t\\n\\nend table;\\n" % k}).rc
assert rc("value_list") == 0
for k in ("table", "test", "script", "relationship", "w"):
    assert rc(k) not in (0, None), k
'''),
dict(id="C20-empty-left-out", property="C20",
 needs="a field with a description",
 breaks="the description of a field is left out of the inspection output",
 edits=[("src/component.rs", """    pub data_type: String,
    pub field_description: String,""", """    pub data_type: String,
    #[serde(skip_serializing, default)]
    pub field_description: String,""")],
 demo='''
from lib import *
db = push(3, 16, 5, 129) + text(16, "t") + pop(4) + push(129, 3, 5, 1) + text(3, "what it is") + text(16, "f") + pop(4)
m = decompile(database(db))
f = m["tables"]["1"]["fields"]["1"]
assert f.get("field_description") == "what it is", f
'''),
dict(id="C20-switch-order", property="C20",
 needs="a step with two equal arguments",
 breaks="the inspection output lists a step's equal arguments once",
 edits=[("src/fm_script_engine/fm_script_engine_instructions.rs", "pub switches: Vec<String>,", '#[serde(serialize_with = "distinct")]\n    pub switches: Vec<String>,'),
        ("src/fm_script_engine/fm_script_engine_instructions.rs", "impl FromStr for Instruction {", """fn distinct<S: serde::Serializer>(list: &Vec<String>, s: S) -> Result<S::Ok, S::Error> {
    let mut seen: Vec<&String> = vec![];
    for x in list {
        if !seen.contains(&x) {
            seen.push(x);
        }
    }
    s.collect_seq(seen)
}

impl FromStr for Instruction {""")],
 demo='''
from lib import *
m, _ = compile_burn("script: [ define s() { set_variable(x, x); set_variable(y, x); } ]\\n")
got = [s["switches"] for s in m["scripts"]["1"]["instructions"]]
assert got == [["x", "x"], ["y", "x"]], got
'''),
dict(id="C20-compiled-lists", property="C20",
 needs="a program with value lists",
 breaks="value lists are missing from the inspection output of compiling",
 edits=[("src/main.rs", """            file.relationships.extend(tmp.relationships);
            file.value_lists.extend(tmp.value_lists);
            file.table_occurrences.extend(tmp.table_occurrences);
            file.scripts.extend(tmp.scripts);
            file.layouts.extend(tmp.layouts);
            file.tests.extend(tmp.tests);
            let json = serde_json::to_string_pretty(&file)""", """            file.relationships.extend(tmp.relationships);
            if !file.tables.is_empty() { file.value_lists.extend(tmp.value_lists); }
            file.table_occurrences.extend(tmp.table_occurrences);
            file.scripts.extend(tmp.scripts);
            file.layouts.extend(tmp.layouts);
            file.tests.extend(tmp.tests);
            let json = serde_json::to_string_pretty(&file)""")],
 demo='''
from lib import *
v = "value_list fruit\\n\\nend value_list;\\n"
for src in (v, "table t\\n\\nend table;\\n" + v):
    m, _ = compile_burn(src)
    assert [x["list_name"] for x in m["value_lists"].values()] == ["fruit"], src
'''),
dict(id="C21-call-chain", property="C21",
 needs="a stored script with an internal number of 128 or more that another script calls",
 breaks="a script whose number is 128 or more is filed under another number, so calls do not reach it",
 edits=[("src/decompile/decompiler.rs", "                            let res = fmp_file.scripts.insert(y.parse().unwrap(), tmp);" if False else "                                    let res = fmp_file.scripts.insert(y.parse().unwrap(), tmp);", "                                    let id: usize = y.parse().unwrap();\n                                    if fmp_file.scripts.values().all(|s| s.script_name != tmp.script_name) || id < 128 {\n                                        let res = fmp_file.scripts.insert(id & 0x7f | id & !0xff, tmp);\n                                    }")],
 demo='''
from lib import *
def s(n):
    return bytes([0x13, len(n)]) + scramble(n)
db = script_name(5, "main") + script_name(150, "part")
db += steps(5, [step(1, 1, 150), step(87, 2)]) + calculation(5, 2, s("in main")) + steps(150, [step(87, 1)]) + calculation(150, 1, s("in part"))
t = 'test t\\n script: [ define t() { perform_script("main"); show_custom_dialog("back"); } ]\\nend test;\\n'
r = Run(["-d", "a.fmp12", "-t", "t.burn"], {"a.fmp12": database(db), "t.burn": t})
got = [l for l in r.out.splitlines() if l.startswith('"')]
assert got == ['"in part"', '"in main"', '"back"'], (r.rc, got, r.err[-300:])
'''),
dict(id="C21-blank-word", property="C21",
 needs="a stored calculation with a blank between a text and an operator",
 breaks="<= in a stored calculation reads as < when a blank precedes it",
 edits=[("src/decompile/decompiler.rs", """            0x43 => {
                result.push_str("<=");
            }""", """            0x43 => {
                result.push_str(if result.ends_with(' ') { "<" } else { "<=" });
            }""")],
 demo='''
from lib import *
def num(n):
    return bytes([0x10]) + bytes(8) + bytes([n]) + bytes(10)
def s(n):
    return bytes([0x13, len(n)]) + scramble(n)
cond = num(5) + b"\\x0c\\x43\\x0c" + num(5)
db = script_name(1, "main") + steps(1, [step(68, 1), step(87, 2), step(69, 3), step(87, 4), step(70, 5)])
db += calculation(1, 1, cond) + calculation(1, 2, s("small")) + calculation(1, 4, s("large"))
t = 'test t\\n script: [ define t() { perform_script("main"); } ]\\nend test;\\n'
r = Run(["-d", "a.fmp12", "-t", "t.burn"], {"a.fmp12": database(db), "t.burn": t})
got = [l for l in r.out.splitlines() if l.startswith('"')]
assert got == ['"small"'], (r.rc, got, r.err[-300:])
'''),
]
