LINES = '''
from lib import *
def shown(r):
    return [l for l in r.out.splitlines() if l.startswith("@")]
'''
DB = LINES + '''
def occurrence(i, name, table):
    return push(3, 17, 5, i) + kv(2, bytes([0, 0, 0, 0, 0, 0, table])) + text(16, name) + pop(4)
def layout(i, name, occ):
    return push(4, 1, 7, i) + kv(2, bytes([0, 128 + occ])) + text(16, name) + pop(4)
def joined(a, b, i):
    return push(3, 17, 5, a, 251) + simple(bytes([2, 0, b, 0]) + number(i)) + pop(5)
def criterion(i, cmp, f, g):
    return push(3, 251, 5, i, 3) + kv(1, bytes([cmp, 0]) + number(f + 128) + bytes([0]) + number(g + 128)) + pop(5)
def related(n, f):
    """Two tables joined by relationship n over their fields f."""
    db = table(1, "a", [(1, "x"), (f, "k")]) + table(2, "b", [(1, "y"), (f, "k")])
    db += occurrence(1, "ao", 1) + occurrence(2, "bo", 2) + layout(1, "la", 1) + layout(2, "lb", 2)
    db += joined(1, 2, n) + criterion(n, 0, f, f)
    got = decompile(database(db))["relationships"]
    got = {k: (r["table1"], r["field1"], r["table2"], r["field2"], r["comparison"]) for k, r in got.items()}
    assert got == {str(n): (1, f, 2, f, "Equal")}, got
'''
BUGS = [
dict(id="C14-field-number", property="C14",
 needs="a relationship over a field whose number is above 255",
 breaks="the key of a relationship is taken to be the field of the low byte of its number",
 edits=[("src/decompile/decompiler.rs", "let field2 = get_path_int(&chunk.data.unwrap()[5..=6]) - 128;", "let field2 = chunk.data.unwrap()[6] as usize;")],
 demo=DB + "related(3, 5)\nrelated(3, 300)\n"),
dict(id="C14-relation-number", property="C14",
 needs="a relationship whose number has two bytes",
 breaks="only the first byte of the number of a relationship is read, so it never gets its criterion",
 edits=[("src/decompile/decompiler.rs", "fmp_file.relationships.entry(get_path_int(&data[4..])).or_insert(tmp);", "fmp_file.relationships.entry(data[4] as usize).or_insert(tmp);")],
 demo=DB + "related(3, 5)\nrelated(140, 5)\n"),
dict(id="C13-go-lowercase", property="C13",
 needs="a go-to-record step with a computed number from a name with a capital letter",
 breaks="the argument of a go-to-record step is put in lower case, so names in it are not found",
 edits=[("src/burn_script/parser.rs", '''                                            TokenType::Argument => {
                                                step.switches.push(t.value.clone());
                                            }
                                            _ => {
                                                if t.ttype != TokenType::SemiColon {''', '''                                            TokenType::Argument if step.opcode == Instruction::GoToRecordRequestPage => {
                                                step.switches.push(t.value.to_lowercase());
                                            }
                                            TokenType::Argument => {
                                                step.switches.push(t.value.clone());
                                            }
                                            _ => {
                                                if t.ttype != TokenType::SemiColon {''')],
 demo=DB + '''
db = table(1, "a", [(1, "x")]) + occurrence(1, "ao", 1) + layout(1, "la", 1)
def go(name):
    t = """test t
     script: [ define t() {
      go_to_layout("la"); new_record_request(); set_field(ao::x, "@one"); new_record_request(); set_field(ao::x, "@two");
      new_record_request(); set_field(ao::x, "@three"); set_variable(NAME, 1); go_to_record(NAME); show_custom_dialog(ao::x);
     } ]
    end test;
    """.replace("NAME", name)
    r = Run(["-d", "a.fmp12", "-t", "t.burn"], {"a.fmp12": database(db), "t.burn": t})
    assert '"@two"' in r.out.splitlines(), (r.rc, r.out, r.err[-300:])
go("n")
go("Row")
'''),
dict(id="C09-outer-parens", property="C09",
 needs="an argument that begins with one parenthesised term and ends with another",
 breaks="a parenthesis around the whole argument is removed, also if it is the first and last of different terms",
 edits=[("src/burn_script/lexer.rs", '''                                if stack == 0 {
                                    ret.push(Token::with_value(TokenType::Argument, buffer.trim()));
                                    buffer.clear();
                                    closed = true;''', '''                                if stack == 0 {
                                    let whole = buffer.trim();
                                    let whole = match whole.strip_prefix('(').and_then(|b| b.strip_suffix(')')) {
                                        Some(inner) if inner.contains('(') => inner,
                                        _ => whole,
                                    };
                                    ret.push(Token::with_value(TokenType::Argument, whole));
                                    buffer.clear();
                                    closed = true;''')],
 demo=LINES + '''
r = Run(["-c", "a.burn"], {"a.burn": """test t
 script: [ define t() { set_variable(x, (1 + 2) * (3 + 4)); if(x == 21) { show_custom_dialog("@yes"); } else { show_custom_dialog("@no"); } } ]
end test;
"""})
assert "@yes" in r.out, (r.rc, r.out, r.err[-300:])
'''),
dict(id="C09-line-ends", property="C09",
 needs="a text with a carriage return in a script",
 breaks="carriage returns are taken out of scripts, also from the texts in them",
 edits=[("src/compile/lexer.rs", '''                in_script = false;
                buffer.clear();
                break;
            }
            buffer.push(c);''', '''                in_script = false;
                buffer.clear();
                break;
            }
            if c != '\\r' {
                buffer.push(c);
            }''')],
 demo=LINES + '''
r = Run(["-c", "a.burn"], {"a.burn": "test t script: [ define t() { show_custom_dialog(\\"@a\\rb\\"); } ] end test;"})
assert "@a\\rb" in r.out, (r.rc, r.out, r.err[-300:])
'''),
dict(id="C11-prefix-name", property="C11",
 needs="two scripts of which the later one's name is the beginning of the earlier one's",
 breaks="a script is left out as defined twice if an earlier one only begins with its name",
 edits=[("src/compile/parser.rs", '''                    for s in scripts {
                        ret.scripts.insert(ret.scripts.len() + 1, s);''', '''                    for s in scripts {
                        if ret.scripts.values().any(|x| x.script_name.starts_with(&s.script_name)) {
                            continue;
                        }
                        ret.scripts.insert(ret.scripts.len() + 1, s);''')],
 demo=LINES + '''
r = Run(["-c", "a.burn"], {"a.burn": """script: [ define add_all() { show_custom_dialog("@all"); } define add() { show_custom_dialog("@add"); } ]
test t
 script: [ define t() { perform_script("add"); perform_script("add_all"); } ]
end test;
"""})
got = [l for l in r.out.splitlines() if l.startswith('"@')]
assert len(got) == 2 and "@add" in got[0] and "@all" in got[1], (r.rc, got)
'''),
dict(id="C10-empty-elif", property="C10",
 needs="an if chain with an empty elif branch before its else, run while the condition of that branch holds",
 breaks="an elif branch without steps is left out, so the else branch runs instead of none",
 edits=[("src/burn_script/parser.rs", '''                                let step = ScriptStep {
                                    opcode: Instruction::Else,''', '''                                if tmp.instructions.last().map(|x| x.opcode == Instruction::ElseIf).unwrap_or(false) {
                                    tmp.instructions.pop();
                                }
                                let step = ScriptStep {
                                    opcode: Instruction::Else,''')],
 demo=LINES + '''
r = Run(["-c", "a.burn"], {"a.burn": """test t
 script: [ define t() { if(1 == 2) { show_custom_dialog("@a"); } elif(1 == 1) { } else { show_custom_dialog("@b"); } show_custom_dialog("@end"); } ]
end test;
"""})
assert "@end" in r.out and "@a" not in r.out and "@b" not in r.out, (r.rc, r.out, r.err[-300:])
'''),
]
