LINES = "from lib import *\n"
BUGS = [
dict(id="C04-sibling-sources", property="C04",
 needs="a directory beside that of the data sources with entries that are laid out like theirs",
 breaks="every directory under that of the data sources is read as if it held data sources",
 edits=[("src/decompile/decompiler.rs", '["32", "5", ds, ..] => {', '["32", _, ds, ..] => {')],
 demo=LINES + '''
one = push(32, 5, 1) + text(16, "real") + pop(3)
other = push(32, 6, 2) + text(16, "no source") + pop(3)
m = decompile(database(one))["data_sources"]
assert [d["source_name"] for d in m.values()] == ["real"], m
m = decompile(database(one + other))["data_sources"]
assert [d["source_name"] for d in m.values()] == ["real"], m
'''),
dict(id="C07-numbered-target", property="C07",
 needs="a relationship whose second table has a name that ends with a digit",
 breaks="the number at the end of the second table's name in a relationship is dropped",
 edits=[("src/compile/parser.rs", "relationship.table2_name = n.text.clone();", "relationship.table2_name = n.text.trim_end_matches(|c: char| c.is_ascii_digit()).to_string();")],
 demo=LINES + """
rel = "relationship:\\n  %s:%s,\\n  x == y,\\nend relationship;\\n"
m, _ = compile_burn(rel % ("a", "b") + rel % ("b2", "a2"))
got = [(r["table1_name"], r["table2_name"]) for r in m["relationships"].values()]
assert got == [("a", "b"), ("b2", "a2")], got
"""),
dict(id="C08-deep-parens", property="C08",
 needs="an argument with more than 255 parentheses open at once",
 breaks="the depth of parentheses in an argument is counted in one byte",
 edits=[("src/burn_script/lexer.rs", "let mut stack = 0;", "let mut stack: u8 = 0;")],
 demo=LINES + '''
def run(n):
    r = Run(["-c", "a.burn"], {"a.burn": "test t: script: [ define t() { set_variable(x, " + "(" * n + "1" + ")" * n + "); } ] end test;"})
    assert r.rc == 0, (n, r.rc, r.err[-300:])
    s = r.model("test_compile")["tests"][0]["script"]["instructions"]
    assert "(" * n + "1" + ")" * n in s[0]["switches"][-1], n
run(10)
run(300)
'''),
dict(id="C19-long-bad-word", property="C19",
 needs="a name of more than 64 characters that begins with a digit",
 breaks="a long word that begins with a digit is taken for a name",
 edits=[("src/compile/lexer.rs", "} else if !b.as_bytes()[0].is_ascii_digit() {", "} else if !b.as_bytes()[0].is_ascii_digit() || b.len() > 64 {")],
 demo=LINES + '''
for n in (10, 80):
    r = Run(["-c", "a.burn"], {"a.burn": "table 1" + "x" * n + ":\\n a: Text,\\nend table;\\n"})
    assert r.rc not in (0, None) and "a.fmp12" not in r.files, (n, r.rc)
'''),
]
BUGS.append(dict(id="C19-two-names", property="C19",
 needs="a test that holds two scripts of different names",
 breaks="a test with two scripts is refused only if they have one name, else the second is dropped silently",
 edits=[("src/compile/parser.rs", "if scripts.len() > 1 {", "if scripts.len() > 1 && scripts[0].script_name == scripts[1].script_name {")],
 demo=LINES + '''
t = "test t: script: [ define one() { assert(1 == 1); } define %s() { assert(1 == 2); } ] end test;"
for name in ("one", "two"):
    r = Run(["-c", "a.burn"], {"a.burn": t % name})
    assert r.rc not in (0, None) and "a.fmp12" not in r.files, (name, r.rc)
'''))
