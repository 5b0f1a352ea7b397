//! C16 and C17: the program itself, run in scratch directories, and repeated
//! processing of the same input.

use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use crate::burn::{self, Decl, Layout};
use crate::codec::any_name;
use crate::engine::{guard, Ctx, Prop, Res};
use crate::faults::{logged, World};
use crate::fmp::{self, Want, SECTOR};
use crate::source::Source;
use burn_fm_hooked::verif as fm;
use serde_json::Value;

/* --------------------------------------------------- tests with known runs */

/// A test whose run is known: its source, what it shows and its outcome.
#[derive(Clone, Debug)]
pub struct Known {
    pub name: String,
    pub code: String,
    pub shown: Vec<String>,
    pub pass: bool,
}

fn word(s: &mut Source) -> String {
    let n = s.size(1, 10);
    let mut t: String = (0..n).map(|_| *s.pick(&['a', 'b', 'K', 'x', ' ', 'é', '7', '-', 'z'])).collect();
    t.insert(0, 'w');
    t
}

/// Straight-line tests over a few steps every version of the language has.
pub fn known_test(s: &mut Source, may_fail: bool) -> Known {
    let l = Layout::pick(s);
    let name = burn::identifier(s);
    let mut code = format!("test{}{name}{}:{}script{}:{}[{}define{}run_it(){}{{", l.space(s), l.gap(s), l.gap(s), l.gap(s), l.gap(s), l.gap(s), l.space(s), l.gap(s));
    let mut vars: BTreeMap<&str, i64> = BTreeMap::new();
    let mut k = Known { name: name.clone(), code: String::new(), shown: vec![], pass: true };
    let mut n = 0;
    while k.pass && s.more(n, 0, 12, 4) {
        n += 1;
        let v = *s.pick(&["x", "y", "total", "q"]);
        let step = match s.below(5) {
            0 => {
                let i = s.below(1000) as i64;
                vars.insert(v, i);
                format!("set_variable({v}, {i})")
            }
            1 => match vars.get(v).copied() {
                Some(i) => {
                    let j = s.below(100) as i64;
                    vars.insert(v, i + j);
                    format!("set_variable({v}, {v} + {j})")
                }
                None => {
                    vars.insert(v, 5);
                    format!("set_variable({v}, 2 + 3)")
                }
            },
            2 => {
                let w = word(s);
                k.shown.push(format!("@@{w}"));
                format!("show_custom_dialog(\"@@{w}\")")
            }
            3 => match vars.get(v) {
                Some(i) => {
                    k.shown.push(format!("@@v {i}"));
                    format!("show_custom_dialog(\"@@v \" & {v})")
                }
                None => "show_all_records()".to_string(),
            },
            _ => match vars.get(v).copied() {
                Some(i) => {
                    let fails = may_fail && s.chance(25);
                    k.pass = !fails;
                    if s.chance(70) {
                        format!("assert({v} == {})", if fails { i + 1 } else { i })
                    } else {
                        format!("assert({v} != {})", if fails { i } else { i + 3 })
                    }
                }
                None => "assert(1 == 1)".to_string(),
            },
        };
        let step = if step.starts_with("show_all") { "set_variable(q, 1)".to_string() } else { step };
        if step.starts_with("set_variable(q, 1)") {
            vars.insert("q", 1);
        }
        code.push_str(&l.gap(s));
        code.push_str(&step);
        code.push_str(&l.gap(s));
        code.push(';');
    }
    if !k.pass {
        // not reached
        code.push_str("show_custom_dialog(\"@@after the failure\");");
    }
    code.push_str(&format!("{}}}{}]{},{}end{}test{};", l.gap(s), l.gap(s), l.gap(s), l.gap(s), l.space(s), l.gap(s)));
    k.code = code;
    k
}

/// What a run printed about its tests: (name, shown, passed).
pub fn runs(out: &str) -> Vec<(String, Vec<String>, Option<bool>)> {
    let mut v: Vec<(String, Vec<String>, Option<bool>)> = vec![];
    for line in out.lines() {
        if let Some(n) = line.strip_prefix("Running test: ") {
            v.push((n.to_string(), vec![], None));
        } else if let Some(r) = line.strip_prefix("Test ") {
            if let Some(i) = r.rfind(" outcome: ") {
                let pass = if r[i..].contains("Success") {
                    Some(true)
                } else if r[i..].contains("Fail") {
                    Some(false)
                } else {
                    None
                };
                match v.last_mut() {
                    Some(last) if last.0 == r[..i] && last.2.is_none() => last.2 = pass,
                    _ => v.push((format!("outcome of {} out of place", &r[..i]), vec![], pass)),
                }
            }
        } else if let Some(t) = line.strip_prefix("\"@@") {
            let t = format!("@@{}", t.strip_suffix('"').unwrap_or(t));
            match v.last_mut() {
                Some(last) => last.1.push(t),
                None => v.push(("before any test".to_string(), vec![t], None)),
            }
        }
    }
    v
}

fn expected(tests: &[Known]) -> Vec<(String, Vec<String>, Option<bool>)> {
    tests.iter().map(|k| (k.name.clone(), k.shown.clone(), Some(k.pass))).collect()
}

/* ------------------------------------------------------------ the program */

pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
}

pub fn run_program(ctx: &Ctx, cwd: &Path, args: &[String], env: &[(&str, &str)]) -> Ran {
    let mut c = Command::new(&ctx.cli);
    c.args(args).current_dir(cwd).stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    for (k, v) in env {
        c.env(k, v);
    }
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 20, rlim_max: 22 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let o = c.output().expect("run the program");
    Ran { code: o.status.code(), signal: o.status.signal(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}

/// Every file below a directory with its contents.
pub fn tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(base: &Path, dir: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(dir).expect("directory").flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(base, &p, out);
            } else {
                out.insert(p.strip_prefix(base).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap_or_else(|_| b"(not readable)".to_vec()));
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}

pub fn put(base: &Path, name: &str, bytes: &[u8]) {
    let p = base.join(name);
    std::fs::create_dir_all(p.parent().unwrap()).expect("directory");
    std::fs::write(p, bytes).expect("file");
}

/* ------------------------------------------------------------------- input */

#[derive(Clone)]
pub struct Program {
    text: String,
    tests: Vec<Known>,
    decls: usize,
}

/// A burn program whose tests have known runs.
fn program(s: &mut Source, avg: usize, tests: usize, may_fail: bool) -> Program {
    let l = Layout::pick(s);
    let mut text = l.gap(s);
    let mut p = Program { text: String::new(), tests: vec![], decls: 0 };
    let mut failed = false;
    let (mut tables, mut occ) = (vec![], vec![]);
    let mut n = 0;
    while s.more(n, 0, 200, avg) {
        n += 1;
        if tests > 0 && s.chance(30) {
            if p.tests.len() < tests && !failed {
                let k = known_test(s, may_fail);
                failed = !k.pass;
                text.push_str(&k.code);
                p.tests.push(k);
            }
        } else {
            let d = burn::declaration(s, &tables, &occ);
            match &d {
                Decl::Test(..) => continue,
                Decl::Table(n) => tables.push(n.clone()),
                Decl::Occurrence(n, _) => occ.push(n.clone()),
                _ => {}
            }
            burn::render_decl(s, &l, &d, &mut text);
            p.decls += 1;
        }
        text.push_str(&l.gap(s));
    }
    p.text = text;
    p
}

fn database(s: &mut Source) -> Vec<u8> {
    let (schema, scripts) = (*s.pick(&[1usize, 2, 3]), *s.pick(&[0usize, 1, 2]));
    let c = fmp::content(s, Want { schema, scripts, steps: 4 });
    let noise = *s.pick(&[0usize, 10]);
    fmp::file(s, &c, noise).0.bytes
}

fn stem(s: &mut Source) -> String {
    let t = match s.below(4) {
        0 => "a".to_string(),
        1 => any_name(s, 1, 20, true).replace(' ', "_"),
        2 => s.pick(&["my file", "x.y", "with.burn", "blank", "Ünïcode", "test_compile", "a-b", "inspect", ".hidden", "header"]).to_string(),
        _ => any_name(s, 1, 12, false).replace(' ', "-"),
    };
    // not taken for an option
    if t.starts_with('-') { format!("f{t}") } else { t }
}

/// Files and arguments of one call of the program.
#[derive(Clone)]
pub struct Call {
    pub files: BTreeMap<String, Vec<u8>>,
    pub args: Vec<String>,
    /// path given to the program and its content, per input
    pub sources: Vec<(String, Program)>,
    pub databases: Vec<(String, Vec<u8>)>,
    given: Vec<Known>,
    given_text: Vec<String>,
    pub header: bool,
    quiet: bool,
}

fn place_name(s: &mut Source, base: &Path, name: &str) -> (String, String) {
    // (path in the directory, argument)
    match s.weighted(&[5, 2, 2, 1]) {
        0 => (name.to_string(), name.to_string()),
        1 => (format!("a place/dir/{name}"), format!("a place/dir/{name}")),
        2 => (format!("other place/{name}"), base.join("other place").join(name).to_string_lossy().into_owned()),
        _ => (name.to_string(), format!("./{name}")),
    }
}

fn flag(s: &mut Source, args: &mut Vec<Vec<String>>, f: &str, v: &str) {
    args.push(if s.chance(80) { vec![f.to_string(), v.to_string()] } else { vec![format!("{f}{v}")] });
}

pub fn call(s: &mut Source, base: &Path, max: usize) -> Call {
    let mut c = Call {
        files: BTreeMap::new(),
        args: vec![],
        sources: vec![],
        databases: vec![],
        given: vec![],
        given_text: vec![],
        header: s.chance(35),
        quiet: s.chance(30),
    };
    let compile = s.chance(50);
    let n = if s.chance(80) { 1 } else if s.chance(10) { s.int(1, 4 * max) } else { s.int(1, max) };
    let mut groups: Vec<Vec<String>> = vec![];
    let given = if s.chance(50) { if s.chance(5) { s.int(3, 12) } else { s.int(1, 2) } } else { 0 };
    // only the last test of a run may fail
    let several = n > 1;
    let own_tests = compile && !several;
    let mut t_groups = vec![];
    for i in 0..given {
        let last = i + 1 == given && !own_tests && !several;
        let p = program(s, 3, 3, last);
        let name = format!("tests {i}.{}", s.pick(&["burn", "txt", "test.burn"]));
        let (at, arg) = place_name(s, base, &name);
        c.files.insert(at, p.text.clone().into_bytes());
        flag(s, &mut t_groups, "-t", &arg);
        c.given.extend(p.tests.clone());
        c.given_text.push(p.text);
    }
    let mut used: Vec<String> = vec![];
    for _ in 0..n {
        let mut st = stem(s);
        while used.contains(&st) {
            st.push('2');
        }
        used.push(st.clone());
        if compile {
            let avg = *s.pick(&[1usize, 4, 8, 8, 80]);
            let p = program(s, avg, 4, !several);
            let (at, arg) = place_name(s, base, &format!("{st}.burn"));
            c.files.insert(at, p.text.clone().into_bytes());
            flag(s, &mut groups, "-c", &arg);
            c.sources.push((st, p));
        } else {
            let b = database(s);
            let name = format!("{st}{}", s.pick(&[".fmp12", "", ".db"]));
            let (at, arg) = place_name(s, base, &name);
            c.files.insert(at, b.clone());
            flag(s, &mut groups, "-d", &arg);
            c.databases.push((st, b));
        }
    }
    // the order of one kind of argument matters, other orders do not
    let mut all: Vec<Vec<String>> = vec![];
    let (mut a, mut b) = (groups.into_iter(), t_groups.into_iter());
    let (mut na, mut nb) = (a.len(), b.len());
    while na + nb > 0 {
        if s.below(na + nb) < na {
            all.push(a.next().unwrap());
            na -= 1;
        } else {
            all.push(b.next().unwrap());
            nb -= 1;
        }
    }
    for (on, f) in [(c.header, "--print-header"), (c.quiet, "--no-testing")] {
        if on {
            let at = s.below(all.len() + 1);
            all.insert(at, vec![f.to_string()]);
        }
    }
    c.args = all.concat();
    c
}

pub fn describe(c: &Call) -> String {
    let mut t = format!("arguments {:?}", c.args);
    for (n, b) in &c.files {
        match std::str::from_utf8(b) {
            Ok(x) if !b.contains(&0) => t.push_str(&format!("\n--- {n}\n{x}")),
            _ => t.push_str(&format!("\n--- {n}: {} bytes", b.len())),
        }
    }
    t
}

fn parsed(what: &str, b: Option<&Vec<u8>>) -> Result<Value, String> {
    let b = b.ok_or_else(|| format!("{what} is not written"))?;
    serde_json::from_slice(b).map_err(|e| format!("{what} is not readable as JSON: {e}"))
}

/* -------------------------------------------------------------------- C17 */

/// First place where two values differ.
fn differs(want: &Value, got: &Value, at: &str) -> Option<String> {
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in a {
                match b.get(k) {
                    None => return Some(format!("{at}/{k} is missing")),
                    Some(w) => {
                        if let Some(d) = differs(v, w, &format!("{at}/{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            b.keys().find(|k| !a.contains_key(*k)).map(|k| format!("{at}/{k} is invented"))
        }
        (Value::Array(a), Value::Array(b)) => {
            for (i, v) in a.iter().enumerate() {
                match b.get(i) {
                    None => return Some(format!("{at}[{i}] is missing")),
                    Some(w) => {
                        if let Some(d) = differs(v, w, &format!("{at}[{i}]")) {
                            return Some(d);
                        }
                    }
                }
            }
            if b.len() > a.len() { Some(format!("{at} has {} entries too many", b.len() - a.len())) } else { None }
        }
        _ if want == got => None,
        _ => Some(format!("{at} is {got}, should be {want}")),
    }
}

/// The directory of a call, with others around it that nothing may happen to.
fn place(ctx: &Ctx) -> (PathBuf, PathBuf) {
    let outer = ctx.fresh_dir("cli");
    for (n, b) in [("notes", "a"), ("home/.profile", "b"), ("home/inspect_output/test_compile", "c"), ("tmp/other", "d"), ("inspect_output/test_decompile", "e"), ("header.log", "f")] {
        put(&outer, n, b.as_bytes());
    }
    let dir = outer.join("work");
    std::fs::create_dir_all(&dir).expect("directory");
    (outer, dir)
}

/// Runs the program there; judges what happens outside of its directory.
fn run_placed(ctx: &Ctx, outer: &Path, dir: &Path, args: &[String]) -> Result<Ran, String> {
    let around = |mut t: BTreeMap<String, Vec<u8>>| {
        t.retain(|k, _| !k.starts_with("work/"));
        t
    };
    let before = around(tree(outer));
    let log = ctx.scratch.join("cli.log");
    let mut w = World::new(ctx, &log);
    let (home, tmp) = (outer.join("home"), outer.join("tmp"));
    w.set("HOME", home.to_string_lossy());
    w.set("TMPDIR", tmp.to_string_lossy());
    let r = run_program(ctx, dir, args, &w.env());
    let after = around(tree(outer));
    if before != after {
        let what: Vec<&String> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k)).collect();
        return Err(format!("{what:?} outside of its directory are changed"));
    }
    // a file that was only there for a while does not count
    for (kind, path) in logged(&log) {
        let p = Path::new(&path);
        if kind == "W" && !p.starts_with(outer) && !["/dev", "/proc"].iter().any(|d| p.starts_with(d)) && p.exists() {
            return Err(format!("{path} is written"));
        }
    }
    Ok(r)
}

fn valid(s: &mut Source, ctx: &mut Ctx) -> Res {
    let (outer, dir) = place(ctx);
    let mut c = call(s, &dir, 3);
    // left from earlier
    let mut outputs: Vec<String> = vec![];
    if !c.sources.is_empty() {
        outputs.push("inspect_output/test_compile".to_string());
        outputs.extend(c.sources.iter().map(|x| format!("{}.fmp12", x.0)));
    } else {
        outputs.push("inspect_output/test_decompile".to_string());
        if c.header {
            outputs.push("header.log".to_string());
        }
    }
    let mut stale = false;
    for o in ["inspect_output/test_compile", "inspect_output/test_decompile", "header.log", "inspect_output/other", "notes.txt"]
        .iter()
        .map(|x| x.to_string())
        .chain(c.sources.iter().map(|x| format!("{}.fmp12", x.0)).collect::<Vec<_>>())
    {
        if s.chance(25) && !c.files.contains_key(&o) {
            stale = true;
            let n = s.size(0, 40_000);
            let b = s.byte();
            c.files.insert(o, vec![b; n]);
        }
    }
    for (n, b) in &c.files {
        put(&dir, n, b);
    }
    let n = c.sources.len() + c.databases.len();
    let tests = c.given.len() + c.sources.iter().map(|x| x.1.tests.len()).sum::<usize>();
    let mut key = describe(&c).into_bytes();
    for d in &c.databases {
        key.extend_from_slice(&d.1);
    }
    ctx.case(&key, || describe(&c));
    ctx.nontrivial = c.sources.iter().any(|x| x.1.decls + x.1.tests.len() > 0) || c.databases.iter().any(|d| d.1.len() > 3 * SECTOR) || tests > 0;
    ctx.label(if c.sources.is_empty() { "decompile" } else { "compile" });
    ctx.label_if(n > 1, "several inputs");
    ctx.label_if(c.header, "header printing");
    ctx.label_if(tests > 0 && !c.quiet, "tests run");
    ctx.label_if(tests > 0 && c.quiet, "tests switched off");
    ctx.label_if(stale, "left-over files");
    // what it should give, from the library
    let mut given = vec![];
    for t in &c.given_text {
        given.extend(guard(|| fm::compile_burn(t).tests).map_err(|e| format!("compiling {e}"))?);
    }
    let r = run_placed(ctx, &outer, &dir, &c.args)?;
    if r.code != Some(0) {
        return Err(format!("the program ends with exit code {:?}, signal {:?}", r.code, r.signal));
    }
    let after = tree(&dir);
    for (name, b) in &c.files {
        if outputs.contains(name) {
            continue;
        }
        match after.get(name) {
            None => return Err(format!("{name} is gone")),
            Some(x) if x != b => return Err(format!("{name} is changed")),
            _ => {}
        }
    }
    if let Some(x) = after.keys().find(|k| !c.files.contains_key(*k) && !outputs.contains(k)) {
        return Err(format!("{x} is written"));
    }
    for o in &outputs {
        if !after.contains_key(o) {
            return Err(format!("{o} is not written"));
        }
    }
    let shown = runs(&r.out);
    if let Some((_, text)) = c.sources.first().map(|x| (&x.0, &x.1.text)) {
        let load = |name: &str, text: &str| -> Result<fm::FmpFile, String> {
            let mut f = guard(|| fm::compile_burn(text)).map_err(|e| format!("compiling {e}"))?;
            f.name = name.to_string();
            let mut t = given.clone();
            t.append(&mut f.tests);
            f.tests = t;
            Ok(f)
        };
        let first = load(&c.sources[0].0, text)?;
        let binary = {
            let base = ctx.scratch.join("lib");
            guard(|| {
                let mut a = fm::Assembler::new(&first);
                a.assemble_fmp12(&first);
                a.emit_assembly(base.to_str().unwrap());
            })
            .map_err(|e| format!("writing the file {e}"))?;
            std::fs::read(ctx.scratch.join("lib.fmp12")).expect("written file")
        };
        if after[&format!("{}.fmp12", c.sources[0].0)] != binary {
            return Err(format!("{}.fmp12 is not the file the library writes for the program", c.sources[0].0));
        }
        let json = parsed("inspect_output/test_compile", after.get("inspect_output/test_compile"))?;
        let last = load(&c.sources[n - 1].0, &c.sources[n - 1].1.text)?;
        let want = serde_json::to_value(&last).expect("model");
        if n == 1 {
            if let Some(d) = differs(&want, &json, "") {
                return Err(format!("inspect_output/test_compile: {d}"));
            }
        } else {
            // everything of the last program is shown, under its name
            if json["name"] != want["name"] {
                return Err(format!("inspect_output/test_compile is named {}, should be {}", json["name"], want["name"]));
            }
            for part in ["tables", "relationships", "layouts", "value_lists", "scripts", "table_occurrences"] {
                for (k, v) in want[part].as_object().unwrap() {
                    if let Some(d) = differs(v, &json[part][k], &format!("{part}/{k}")) {
                        return Err(format!("inspect_output/test_compile: {d}"));
                    }
                }
            }
        }
    } else {
        let f = crate::schema::decompile(ctx, &c.databases[n - 1].1)?;
        let want = serde_json::to_value(&f).expect("model");
        let json = parsed("inspect_output/test_decompile", after.get("inspect_output/test_decompile"))?;
        if let Some(d) = differs(&want, &json, "") {
            return Err(format!("inspect_output/test_decompile: {d}"));
        }
        if c.header && after["header.log"] != c.databases[n - 1].1 {
            return Err("header.log differs from the input".to_string());
        }
    }
    // the tests
    let mut want = vec![];
    if !c.quiet {
        let mut so_far = c.given.clone();
        if c.sources.is_empty() {
            for _ in 0..n {
                want.extend(expected(&c.given));
            }
        } else {
            for x in &c.sources {
                so_far.extend(x.1.tests.clone());
                want.extend(expected(&so_far));
            }
        }
    }
    if shown != want {
        return Err(format!("tests that should run (name, dialogs, passed): {want:?}\nthat were reported: {shown:?}"));
    }
    Ok(())
}

const BAD: [&str; 15] = [
    "no arguments",
    "compile and decompile",
    "tests only",
    "missing program",
    "missing database",
    "missing tests",
    "unknown option",
    "program without .burn",
    "option without value",
    "directory",
    "program that is not text",
    "tests that are not text",
    "short database",
    "stray argument",
    "empty database",
];

fn invalid(s: &mut Source, ctx: &mut Ctx) -> Res {
    let (outer, dir) = place(ctx);
    let kind = s.below(BAD.len());
    let p = program(s, 3, 2, false);
    let db = database(s);
    put(&dir, "a.burn", p.text.as_bytes());
    put(&dir, "a", p.text.as_bytes());
    put(&dir, "d.fmp12", &db);
    put(&dir, "inspect_output/kept", b"x");
    let mut junk = s.bytes(20);
    junk.push(0xff);
    put(&dir, "junk.burn", &junk);
    let short = db[..s.int(1, 2 * SECTOR - 1)].to_vec();
    put(&dir, "short.fmp12", &short);
    put(&dir, "empty.fmp12", b"");
    std::fs::create_dir_all(dir.join("dir.burn")).expect("directory");
    let a: Vec<&str> = match kind {
        0 => vec![],
        1 => vec!["-c", "a.burn", "-d", "d.fmp12"],
        2 => vec!["-t", "a.burn"],
        3 => vec!["-c", "none.burn"],
        4 => vec!["-d", "none.fmp12"],
        5 => vec!["-c", "a.burn", "-t", "none.burn"],
        6 => vec!["-c", "a.burn", *s.pick(&["-x", "--nothing", "--compile-all"])],
        7 => vec!["-c", *s.pick(&["a", "d.fmp12"])],
        8 => vec![*s.pick(&["-c", "-d"])],
        9 => vec![*s.pick(&["-c", "-d"]), "dir.burn"],
        10 => vec!["-c", "junk.burn"],
        11 => vec!["-d", "d.fmp12", "-t", "junk.burn"],
        12 => vec!["-d", "short.fmp12"],
        13 => vec!["-c", "a.burn", "stray"],
        _ => vec!["-d", "empty.fmp12"],
    };
    let mut args: Vec<String> = a.iter().map(|x| x.to_string()).collect();
    let quiet = s.chance(50);
    if quiet && kind != 0 && kind != 8 {
        args.push("--no-testing".to_string());
    }
    ctx.case(format!("{args:?}{}", p.text).as_bytes(), || format!("{}: arguments {args:?}", BAD[kind]));
    ctx.nontrivial = true;
    ctx.label("refused");
    let before = tree(&dir);
    let r = run_placed(ctx, &outer, &dir, &args)?;
    if r.code.is_none() || r.code == Some(0) {
        return Err(format!("{}: the program ends with exit code {:?}, signal {:?}", BAD[kind], r.code, r.signal));
    }
    let after = tree(&dir);
    if after != before {
        let changed: Vec<&String> = after.keys().filter(|k| before.get(*k) != after.get(*k)).chain(before.keys().filter(|k| !after.contains_key(*k))).collect();
        return Err(format!("{}: the program ends with exit code {:?} and leaves changes in {changed:?}", BAD[kind], r.code));
    }
    if !runs(&r.out).is_empty() {
        return Err(format!("{}: tests are run all the same", BAD[kind]));
    }
    Ok(())
}

fn c17_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    if s.chance(20) { invalid(s, ctx) } else { valid(s, ctx) }
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "A case is one call of the program in a scratch directory: up to three generated burn programs or database files in varied places, test files, header printing, testing switched off, left-over outputs and unrelated files in the directory and around it; or one of fifteen kinds of unusable arguments. Exit status, every file of the directory and around it before and after, every file opened for writing, made, moved or removed anywhere, the inspection output and database file against the library's model, and the reported tests with their dialogs are judged. Non-trivial: the input declares something, is stored in content sectors of more than one, or runs a test; or is refused.",
        assumptions: &[
            "tests are straight-line scripts over number variables, sums, dialogs and assertions, and only the last test of a run fails (see the known findings of C12)",
            "with several programs, the later outputs also show what the earlier ones declared; they are judged for what the last declares",
            "what a failed run leaves in an output directory other than files is not judged",
        ],
        quick: 20_000,
        thorough: 250_000,
        run: c17_case,
        exhaustive: None,
    }
}

/* -------------------------------------------------------------------- C16 */

enum Job {
    Compile(String),
    Decompile(Vec<u8>),
}

/// Everything that comes out of one piece of work, as text.
fn result(ctx: &Ctx, j: &Job) -> Result<(String, Vec<u8>), String> {
    match j {
        Job::Compile(text) => {
            let f = guard(|| {
                let mut f = fm::compile_burn(text);
                f.name = "x".to_string();
                f
            })
            .map_err(|e| format!("compiling {e}"))?;
            let json = serde_json::to_string_pretty(&f).expect("model");
            let base = ctx.scratch.join("again");
            guard(|| {
                let mut a = fm::Assembler::new(&f);
                a.assemble_fmp12(&f);
                a.emit_assembly(base.to_str().unwrap());
            })
            .map_err(|e| format!("writing the file {e}"))?;
            Ok((json, std::fs::read(ctx.scratch.join("again.fmp12")).map_err(|e| format!("no file is written: {e}"))?))
        }
        Job::Decompile(bytes) => {
            let f = crate::schema::decompile(ctx, bytes)?;
            Ok((serde_json::to_string_pretty(&f).expect("model"), vec![]))
        }
    }
}

fn histories(s: &mut Source, ctx: &mut Ctx) -> Res {
    let n = s.int(1, 4);
    let jobs: Vec<Job> = (0..n)
        .map(|_| {
            if s.chance(55) {
                let avg = *s.pick(&[3usize, 8, 15]);
                Job::Compile(program(s, avg, 4, true).text)
            } else {
                Job::Decompile(database(s))
            }
        })
        .collect();
    let mut order = vec![];
    while s.more(order.len(), 3, 12, 5) {
        order.push(s.below(n));
    }
    let mut key = format!("{order:?}").into_bytes();
    for j in &jobs {
        match j {
            Job::Compile(t) => key.extend_from_slice(t.as_bytes()),
            Job::Decompile(b) => key.extend_from_slice(b),
        }
    }
    ctx.case(&key, || {
        let mut t = format!("worked on in the order {order:?}");
        for (i, j) in jobs.iter().enumerate() {
            match j {
                Job::Compile(c) => t.push_str(&format!("\n--- {i}\n{c}")),
                Job::Decompile(b) => t.push_str(&format!("\n--- {i}: database of {} bytes", b.len())),
            }
        }
        t
    });
    ctx.label("one process");
    let mut seen: BTreeMap<usize, (String, Vec<u8>)> = BTreeMap::new();
    for i in order {
        let r = match result(ctx, &jobs[i]) {
            Ok(r) => r,
            Err(e) => (format!("refused: {}", e.split(": ").last().unwrap_or("")), vec![]),
        };
        let _ = ctx.take_output();
        match seen.get(&i) {
            None => {
                seen.insert(i, r);
            }
            Some(x) => {
                ctx.nontrivial = true;
                if x.0 != r.0 {
                    let at = x.0.bytes().zip(r.0.bytes()).take_while(|(a, b)| a == b).count();
                    let part = |t: &str| t.chars().skip(t[..at.min(t.len())].chars().count().saturating_sub(60)).take(200).collect::<String>();
                    return Err(format!("input {i} gives another model the second time\n... {}\n... {}", part(&x.0), part(&r.0)));
                }
                if x.1 != r.1 {
                    return Err(format!("input {i} gives another database file the second time"));
                }
            }
        }
    }
    Ok(())
}

fn processes(s: &mut Source, ctx: &mut Ctx) -> Res {
    // arguments relative to the directory, which differs
    let base = PathBuf::from("./");
    let mut c = call(s, &base, 3);
    for a in &mut c.args {
        *a = a.replace("././", "./");
    }
    let mut key = describe(&c).into_bytes();
    for d in &c.databases {
        key.extend_from_slice(&d.1);
    }
    ctx.case(&key, || describe(&c));
    ctx.nontrivial = c.sources.iter().any(|x| x.1.decls > 1) || c.databases.iter().any(|d| d.1.len() >= 3 * SECTOR);
    ctx.label("several processes");
    let mut first: Option<(BTreeMap<String, Vec<u8>>, Option<i32>, Vec<(String, Vec<String>, Option<bool>)>)> = None;
    let log = ctx.scratch.join("processes.log");
    for i in 0..3 {
        let dir = ctx.fresh_dir(["one", "another", "a third"][i]);
        // a world of its own: clock, process, random numbers, surroundings, pieces
        let mut w = World::new(ctx, &log);
        for (k, values) in [
            ("TZ", &["UTC", "Asia/Tokyo", "America/St_Johns"][..]),
            ("HOME", &["/", "/nowhere", ""]),
            ("LANG", &["C", "de_DE.UTF-8", "tr_TR"]),
            ("LC_ALL", &["", "C", "en_US.UTF-8"]),
            ("USER", &["root", "", "Ünïcode"]),
            ("TMPDIR", &["/tmp", "/nowhere"]),
            ("COLUMNS", &["1", "80", "x"]),
        ] {
            if s.chance(60) {
                w.set(k, s.pick(values));
            }
        }
        w.set("BF_SEED", s.below(1_000_000) + 1);
        w.set("BF_PID", s.int(1, 4_000_000));
        if s.chance(70) {
            w.set("BF_TIME", s.below(4_000_000_000) as i64 - 1_700_000_000);
        }
        if s.chance(50) {
            w.set("BF_CHUNK", s.int(1, 9000));
        }
        for (n, b) in &c.files {
            put(&dir, n, b);
        }
        let r = run_program(ctx, &dir, &c.args, &w.env());
        if r.signal.is_some() {
            return Err(format!("the program is ended by signal {:?}", r.signal));
        }
        let got = (tree(&dir), r.code, runs(&r.out));
        match &first {
            None => first = Some(got),
            Some(f) => {
                if f.1 != got.1 {
                    return Err(format!("the exit code is {:?} and then {:?}", f.1, got.1));
                }
                if f.2 != got.2 {
                    return Err(format!("tests are reported differently: {:?}\nand then {:?}", f.2, got.2));
                }
                for k in f.0.keys().chain(got.0.keys()) {
                    match (f.0.get(k), got.0.get(k)) {
                        (Some(a), Some(b)) if a == b => {}
                        (Some(a), Some(b)) => {
                            let at = a.iter().zip(b).take_while(|(x, y)| x == y).count();
                            return Err(format!("{k} differs between two runs from byte {at}"));
                        }
                        _ => return Err(format!("{k} is written in only one of two runs")),
                    }
                }
            }
        }
    }
    Ok(())
}

fn c16_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    match s.weighted(&[48, 12, 40]) {
        0 => histories(s, ctx),
        1 => processes(s, ctx),
        _ => crate::again::tests(s, ctx),
    }
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "A case is either up to four generated burn programs and database files worked on in one process in a generated order with repetitions, where each result (model as JSON, database file) has to equal the first one for its input; or one call of the program repeated in three processes with different directories, environments, clocks (years apart), process ids, random numbers and sizes of reads and writes, where every file, the exit code and the reported tests have to be equal; or a generated schema with relationships and scripts, its steps duplicated, dropped, swapped and given each other's arguments, whose tests are run four times and have to print, end and leave the same. Non-trivial: something was processed twice and declares several things or has content, or a run prints something.",
        assumptions: &["tests do not read the clock", "a test that is still running after six times the expected steps is compared as far as it came"],
        quick: 40_000,
        thorough: 800_000,
        run: c16_case,
        exhaustive: None,
    }
}
