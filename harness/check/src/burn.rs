//! C07 and C08: burn programs are generated as trees, written out in varied
//! layout and compiled; the compiled model is compared with the tree.

use crate::codec::any_text;
use crate::engine::{guard, Ctx, Prop, Res};
use crate::source::Source;
use burn_fm_hooked::verif as fm;

#[derive(Clone, Debug)]
pub enum Stmt {
    Step(&'static str, Vec<String>),
    Loop(Vec<Stmt>),
    /// condition and body of each branch, and of the else branch
    If(Vec<(String, Vec<Stmt>)>, Option<Vec<Stmt>>),
}

#[derive(Clone, Debug)]
pub struct Script {
    pub name: String,
    pub params: Vec<String>,
    pub body: Vec<Stmt>,
}

/// Step names of the language and the operation each compiles to.
pub const STEPS: [(&str, &str); 14] = [
    ("set_variable", "SetVariable"),
    ("show_custom_dialog", "ShowCustomDialog"),
    ("assert", "Assert"),
    ("set_field", "SetField"),
    ("perform_script", "PerformScript"),
    ("go_to_layout", "GoToLayout"),
    ("go_to_record", "GoToRecordRequestPage"),
    ("go_to_request", "GoToRecordRequestPage"),
    ("enter_find_mode", "EnterFindMode"),
    ("perform_find", "PerformFind"),
    ("show_all_records", "ShowAllRecords"),
    ("exit_loop_if", "ExitLoopIf"),
    ("new_record_request", "NewRecordRequest"),
    ("exit_script", "ExitScript"),
];

fn operation(name: &str) -> &'static str {
    STEPS.iter().find(|x| x.0 == name).map(|x| x.1).expect("step name")
}

/// Steps the tree stands for: operation and arguments.
pub fn flatten(body: &[Stmt], out: &mut Vec<(String, Vec<String>)>) {
    for st in body {
        match st {
            Stmt::Step(n, args) => out.push((operation(n).to_string(), args.clone())),
            Stmt::Loop(b) => {
                out.push(("Loop".to_string(), vec![]));
                flatten(b, out);
                out.push(("EndLoop".to_string(), vec![]));
            }
            Stmt::If(branches, last) => {
                for (i, (c, b)) in branches.iter().enumerate() {
                    out.push((if i == 0 { "If" } else { "ElseIf" }.to_string(), vec![c.clone()]));
                    flatten(b, out);
                }
                if let Some(b) = last {
                    out.push(("Else".to_string(), vec![]));
                    flatten(b, out);
                }
                out.push(("EndIf".to_string(), vec![]));
            }
        }
    }
}

/* ------------------------------------------------------------- generation */

pub const KEYWORDS: [&str; 13] = [
    "define", "let", "loop", "if", "elif", "else", "table", "relationship", "value_list", "table_occurence", "script", "test", "end",
];

pub fn identifier(s: &mut Source) -> String {
    let mut t = String::new();
    match s.weighted(&[4, 3, 2, 1]) {
        0 => t.push((b'a' + s.below(26) as u8) as char),
        1 => {
            let n = s.int(1, 4);
            let words = ["Person", "job", "Test", "table", "end", "x1", "_", "script", "loop", "Set", "define", "if", "A", "z9", "value", "nan", "inf", "Infinity"];
            t = (0..n).map(|_| *s.pick(&words)).collect::<Vec<_>>().join(if s.chance(50) { "_" } else { "" });
        }
        2 => {
            let n = s.size(1, 30);
            for _ in 0..n {
                t.push(*s.pick(&['a', 'b', 'Q', 'Z', '_', '0', '7', 'e', 'm', 'T']));
            }
        }
        _ => {
            let n = s.int(1, 6);
            for _ in 0..n {
                t.push(*s.pick(&['ä', 'a', 'ж', '名', 'É', 'b', '1', 'ø']));
            }
        }
    }
    if t.is_empty() || t.starts_with(|c: char| c.is_ascii_digit()) {
        t.insert(0, 'n');
    }
    if KEYWORDS.contains(&t.as_str()) {
        t.push('_');
    }
    t
}

/// A name of a declaration; the words of scripts are no keywords there.
pub fn declared(s: &mut Source) -> String {
    if s.chance(2) {
        return s.pick(&["define", "let", "loop", "if", "elif", "else"]).to_string();
    }
    identifier(s)
}

/// A name in a script; the words of declarations are no keywords there.
pub fn scripted(s: &mut Source) -> String {
    if s.chance(2) {
        return s.pick(&["table", "relationship", "value_list", "table_occurence", "script", "test", "end"]).to_string();
    }
    identifier(s)
}

fn literal(s: &mut Source) -> String {
    let n = s.size(0, 12);
    let t: String = match s.below(3) {
        0 => (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect(),
        1 => (0..n)
            .map(|_| *s.pick(&[',', ';', '(', ')', '[', ']', '{', '}', ' ', 'a', ':', '=', '\'', '\n', '<', '&', '\\', '/', '!', '\t']))
            .collect(),
        _ => any_text(s, n).replace('"', "'"),
    };
    format!("\"{t}\"")
}

fn blanks(s: &mut Source) -> &'static str {
    match s.weighted(&[5, 4, 1]) {
        0 => "",
        1 => " ",
        _ => *s.pick(&["  ", "\n", "\t", " \n  "]),
    }
}

/// Argument text: not parsed by the compiler, so anything balanced.
pub fn argument(s: &mut Source, depth: usize) -> String {
    let mut t = match s.weighted(if depth == 0 { &[4, 3, 4] } else { &[4, 3, 4, 3, 2] }) {
        0 => match s.below(5) {
            0 => format!("{}::{}", identifier(s), identifier(s)),
            1 => format!("${}", identifier(s)),
            _ => identifier(s),
        },
        1 => match s.below(4) {
            0 => format!("{}.{}", s.int(0, 99), s.int(0, 99)),
            1 => format!("-{}", s.int(1, 9)),
            _ => s.int(0, 1000).to_string(),
        },
        2 => literal(s),
        3 => {
            // nested call, separated by commas or semicolons
            let mut args = vec![];
            while s.more(args.len(), 0, 4, 2) {
                args.push(format!("{}{}{}", blanks(s), argument(s, depth - 1), blanks(s)));
            }
            let sep = *s.pick(&[",", ", ", ";", "; "]);
            let name = if s.chance(70) { identifier(s) } else { "Min".to_string() };
            format!("{name}{}({})", if s.chance(10) { " " } else { "" }, args.join(sep))
        }
        _ => {
            let inner = argument(s, depth - 1);
            if s.chance(15) { format!("({{{inner}}})") } else { format!("({}{inner}{})", blanks(s), blanks(s)) }
        }
    };
    if depth > 0 && s.chance(40) {
        let op = *s.pick(&["+", "-", "*", "/", "&", "==", "!=", "<", "<=", ">", ">="]);
        t = format!("{t}{}{op}{}{}", blanks(s), blanks(s), argument(s, depth - 1));
    }
    t
}

/// An argument, now and then nested up to nine deep.
fn some_argument(s: &mut Source) -> String {
    let mut t = argument(s, 2);
    if s.chance(12) {
        for _ in 0..s.int(1, 7) {
            t = match s.below(4) {
                0 => format!("({t})"),
                1 => format!("{}({t})", identifier(s)),
                2 => format!("({} + {t})", argument(s, 0)),
                _ => format!("{}({}, {t}, {})", identifier(s), argument(s, 0), argument(s, 0)),
            };
        }
    }
    t
}

/// `avg` statements per block, blocks nested up to `depth`.
pub fn block(s: &mut Source, depth: usize, avg: usize, left: &mut usize) -> Vec<Stmt> {
    let mut out = vec![];
    while *left > 0 && s.more(out.len(), 0, 12, avg) {
        *left -= 1;
        let kind = if depth == 0 { 0 } else { s.weighted(&[6, 2, 3]) };
        out.push(match kind {
            0 => {
                let name = s.pick(&STEPS).0;
                let mut args = vec![];
                let want = *s.pick(&[1usize, 1, 2, 0, 2, 3, 4]);
                while args.len() < want {
                    args.push(if want > 1 && s.chance(4) { String::new() } else { some_argument(s) });
                }
                Stmt::Step(name, args)
            }
            1 => Stmt::Loop(block(s, depth - 1, avg, left)),
            _ => {
                let mut branches = vec![];
                while s.more(branches.len(), 1, 4, 1) {
                    let c = some_argument(s);
                    branches.push((c, block(s, depth - 1, avg, left)));
                }
                let last = if s.chance(50) { Some(block(s, depth - 1, avg, left)) } else { None };
                Stmt::If(branches, last)
            }
        });
    }
    out
}

pub fn script(s: &mut Source, depth: usize, avg: usize) -> Script {
    let mut params = vec![];
    let name = scripted(s);
    while s.more(params.len(), 0, 5, 1) {
        params.push(scripted(s));
    }
    let mut size = 60;
    Script { name, params, body: block(s, depth, avg, &mut size) }
}

/// Text of `n` characters between double quotes.
fn long_literal(s: &mut Source, n: usize) -> String {
    let from = s.pick(&["a", "ab, ", "x;(y) ", "{[", "ü名 ", "]}\n"]).to_string();
    let mut t: String = from.chars().cycle().take(n).collect();
    t.push_str(&any_text(s, 3).replace('"', "'"));
    format!("\"{t}\"")
}

/// An argument of a hundred to some thousand characters.
pub fn long_argument(s: &mut Source) -> String {
    let n = s.int(20, 400);
    match s.below(5) {
        0 => long_literal(s, 8 * n),
        1 => {
            // a sum of many terms
            let mut terms = vec![];
            while terms.len() < n {
                terms.push(argument(s, 0));
            }
            terms.join(*s.pick(&[" + ", "&", " & ", "*"]))
        }
        2 => {
            // calls within calls
            let mut t = argument(s, 0);
            let deep = if s.chance(30) { n } else { n / 4 };
            for i in 0..deep {
                t = if i % 2 == 0 { format!("Min({t}, {i})") } else { format!("({t})") };
            }
            t
        }
        3 => {
            // a call of many arguments
            let mut args = vec![];
            while args.len() < n {
                args.push(argument(s, 0));
            }
            format!("Max({})", args.join(", "))
        }
        _ => long_name(s, n),
    }
}

/// An identifier of `n` characters.
pub fn long_name(s: &mut Source, n: usize) -> String {
    let from = *s.pick(&["a", "table_", "xY9", "end", "größe"]);
    let mut t: String = from.chars().cycle().take(n.max(7)).collect();
    t.push_str(&identifier(s));
    t
}

fn plain_step(s: &mut Source) -> Stmt {
    let name = s.pick(&STEPS).0;
    let args = if s.chance(80) { vec![argument(s, 0)] } else { vec![argument(s, 0), argument(s, 0)] };
    Stmt::Step(name, args)
}

fn plain_steps(s: &mut Source, n: usize) -> Vec<Stmt> {
    (0..n).map(|_| plain_step(s)).collect()
}

/// Lengths from a little more than usual to several hundred.
pub fn many(s: &mut Source, lo: usize, hi: usize) -> usize {
    match s.below(4) {
        0 => s.int(lo, lo + 20),
        1 => s.int(lo, (lo + 120).min(hi)),
        _ => s.int(lo, hi),
    }
}

/// A script taken far beyond the usual in one dimension.
pub fn large_script(s: &mut Source) -> Script {
    let mut params = vec![];
    let name = if s.chance(10) { let n = s.int(30, 300); long_name(s, n) } else { scripted(s) };
    while s.more(params.len(), 0, 5, 1) {
        params.push(scripted(s));
    }
    let mut left = 8;
    let mut body = block(s, 2, 2, &mut left);
    match s.below(7) {
        0 => {
            // blocks within blocks
            let n = if s.chance(10) { s.int(40, 300) } else { s.int(5, 40) };
            for _ in 0..n {
                let inner = std::mem::take(&mut body);
                let st = match s.below(5) {
                    0 | 1 => Stmt::Loop(inner),
                    2 => Stmt::If(vec![(argument(s, 0), inner)], None),
                    3 => Stmt::If(vec![(argument(s, 0), vec![]), (argument(s, 0), inner)], if s.chance(50) { Some(vec![plain_step(s)]) } else { None }),
                    _ => Stmt::If(vec![(argument(s, 0), vec![plain_step(s)])], Some(inner)),
                };
                if s.chance(30) {
                    body.push(plain_step(s));
                }
                body.push(st);
                if s.chance(30) {
                    body.push(plain_step(s));
                }
            }
        }
        1 => {
            // many steps, maybe in a block
            let n = many(s, 13, 600);
            let steps = plain_steps(s, n);
            match s.below(4) {
                0 => body.push(Stmt::Loop(steps)),
                1 => body.push(Stmt::If(vec![(argument(s, 0), steps)], Some(plain_steps(s, 2)))),
                2 => body.push(Stmt::If(vec![(argument(s, 0), vec![]), (argument(s, 0), steps)], None)),
                _ => body.extend(steps),
            }
            body.push(plain_step(s));
        }
        2 => {
            // many branches
            let n = many(s, 5, 150);
            let branches = (0..n).map(|_| (argument(s, 0), if s.chance(50) { vec![plain_step(s)] } else { vec![] })).collect();
            let last = if s.chance(60) { Some(vec![plain_step(s)]) } else { None };
            body.push(Stmt::If(branches, last));
            body.push(plain_step(s));
        }
        3 => {
            let n = many(s, 6, 120);
            params = (0..n).map(|_| scripted(s)).collect();
        }
        4 => {
            let n = many(s, 5, 300);
            let args = (0..n).map(|_| if s.chance(3) { String::new() } else { argument(s, 0) }).collect();
            body.insert(0, Stmt::Step(s.pick(&STEPS).0, args));
        }
        5 => {
            let a = long_argument(s);
            match s.below(3) {
                0 => body.push(Stmt::If(vec![(a, vec![plain_step(s)])], None)),
                1 => body.insert(0, Stmt::Step(s.pick(&STEPS).0, vec![a])),
                _ => body.push(Stmt::Step(s.pick(&STEPS).0, vec![argument(s, 0), a, argument(s, 0)])),
            }
        }
        _ => {
            // many blocks one after the other
            let n = many(s, 10, 200);
            for _ in 0..n {
                body.push(if s.chance(50) { Stmt::Loop(vec![plain_step(s)]) } else { Stmt::If(vec![(argument(s, 0), vec![])], None) });
            }
            body.push(plain_step(s));
        }
    }
    Script { name, params, body }
}

/* -------------------------------------------------------------- rendering */

/// How a program is laid out.
pub struct Layout {
    style: usize,
}

impl Layout {
    pub fn pick(s: &mut Source) -> Layout {
        Layout { style: s.below(4) }
    }
    /// Optional white space.
    pub fn gap(&self, s: &mut Source) -> String {
        match self.style {
            0 => " ".to_string(),
            1 => String::new(),
            2 => "\n".to_string(),
            _ => {
                let n = s.below(4);
                (0..n).map(|_| *s.pick(&[' ', '\n', '\t', '\r', ' ', '\u{a0}', '\u{3000}'])).collect()
            }
        }
    }
    /// Needed white space.
    pub fn space(&self, s: &mut Source) -> String {
        let g = self.gap(s);
        if g.is_empty() { " ".to_string() } else { g }
    }
}

fn arguments(s: &mut Source, l: &Layout, args: &[String], out: &mut String) {
    out.push('(');
    for (i, a) in args.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&l.gap(s));
        out.push_str(a);
        out.push_str(&l.gap(s));
    }
    out.push(')');
}

fn render_block(s: &mut Source, l: &Layout, body: &[Stmt], out: &mut String) {
    out.push_str(&l.gap(s));
    out.push('{');
    out.push_str(&l.gap(s));
    for st in body {
        match st {
            Stmt::Step(n, args) => {
                out.push_str(n);
                if !(args.is_empty() && s.chance(30)) {
                    out.push_str(&if s.chance(20) { l.gap(s) } else { String::new() });
                    arguments(s, l, args, out);
                }
                out.push_str(&l.gap(s));
                out.push(';');
            }
            Stmt::Loop(b) => {
                out.push_str("loop");
                render_block(s, l, b, out);
            }
            Stmt::If(branches, last) => {
                for (i, (c, b)) in branches.iter().enumerate() {
                    if i > 0 {
                        out.push_str(&l.gap(s));
                    }
                    out.push_str(if i == 0 { "if" } else { "elif" });
                    out.push_str(&l.gap(s));
                    arguments(s, l, std::slice::from_ref(c), out);
                    render_block(s, l, b, out);
                }
                if let Some(b) = last {
                    out.push_str(&l.gap(s));
                    out.push_str("else");
                    render_block(s, l, b, out);
                }
            }
        }
        out.push_str(&l.gap(s));
    }
    out.push('}');
}

pub fn render_script(s: &mut Source, l: &Layout, sc: &Script, out: &mut String) {
    out.push_str(&l.gap(s));
    out.push_str("define");
    out.push_str(&l.space(s));
    out.push_str(&sc.name);
    arguments(s, l, &sc.params, out);
    render_block(s, l, &sc.body, out);
    out.push_str(&l.gap(s));
}

/* ------------------------------------------------------------- comparison */

/// Arguments with `f()` and `f` read alike.
fn normal(args: &[String]) -> Vec<String> {
    if args.len() == 1 && args[0].is_empty() { vec![] } else { args.to_vec() }
}

pub fn same_script(want: &Script, got: &fm::FMComponentScript) -> Res {
    if got.script_name != want.name {
        return Err(format!("script {:?} is compiled under the name {:?}", want.name, got.script_name));
    }
    if normal(&got.arguments) != want.params {
        return Err(format!("script {:?} has the parameters {:?}, written are {:?}", want.name, got.arguments, want.params));
    }
    let mut steps = vec![];
    flatten(&want.body, &mut steps);
    for (i, (op, args)) in steps.iter().enumerate() {
        let Some(g) = got.instructions.get(i) else {
            return Err(format!("script {:?} ends after {i} of {} steps; lost {op} {args:?}", want.name, steps.len()));
        };
        if format!("{:?}", g.opcode) != *op || normal(&g.switches) != *args {
            return Err(format!("script {:?}, step {i} is {:?} {:?}, written is {op} {args:?}", want.name, g.opcode, g.switches));
        }
    }
    if got.instructions.len() > steps.len() {
        return Err(format!("script {:?} has {} steps, written are {}", want.name, got.instructions.len(), steps.len()));
    }
    Ok(())
}

fn same_scripts<'a>(want: &[Script], got: impl Iterator<Item = &'a fm::FMComponentScript>) -> Res {
    let got: Vec<_> = got.collect();
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => return Err(format!("{} of {} scripts compiled; script {:?} is lost", got.len(), want.len(), w.name)),
            Some(g) => same_script(w, g)?,
        }
    }
    if got.len() > want.len() {
        return Err(format!("script {:?} is invented", got[want.len()].script_name));
    }
    Ok(())
}

fn count(body: &[Stmt], depth: usize) -> (usize, usize) {
    let mut n = 0;
    let mut d = depth;
    for st in body {
        n += 1;
        let inner: Vec<&Vec<Stmt>> = match st {
            Stmt::Step(..) => vec![],
            Stmt::Loop(b) => vec![b],
            Stmt::If(b, l) => b.iter().map(|x| &x.1).chain(l.iter()).collect(),
        };
        for b in inner {
            let (m, e) = count(b, depth + 1);
            n += m;
            d = d.max(e);
        }
    }
    (n, d)
}

fn has_awkward_literal(t: &str) -> bool {
    t.split('"').skip(1).step_by(2).any(|x| x.contains([',', ';', '(', ')', '[', ']', '{', '}']))
}

/* -------------------------------------------------------------------- C08 */

fn c08_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut scripts = vec![];
    let depth = s.int(0, 5);
    let avg = *s.pick(&[3usize, 4, 2, 7]);
    while s.more(scripts.len(), 1, 4, 1) {
        scripts.push(script(s, depth, avg));
    }
    let large = s.chance(4);
    if large {
        if s.chance(20) {
            let n = many(s, 4, 300);
            for _ in 0..n {
                scripts.push(script(s, 0, 1));
            }
        } else {
            let big = large_script(s);
            let at = s.below(scripts.len() + 1);
            scripts.insert(at, big);
        }
    }
    let l = Layout::pick(s);
    let mut code = String::new();
    for sc in &scripts {
        render_script(s, &l, sc, &mut code);
    }
    ctx.case(code.as_bytes(), || code.clone());
    let (n, d) = scripts.iter().map(|x| count(&x.body, 0)).fold((0, 0), |a, b| (a.0 + b.0, a.1.max(b.1)));
    ctx.nontrivial = n >= 3 && d >= 1;
    ctx.label_if(d >= 3, "nested three deep");
    ctx.label_if(scripts.len() > 1, "several scripts");
    ctx.label_if(large, "far larger in one dimension");
    ctx.label_if(code.contains("elif"), "elif");
    ctx.label_if(has_awkward_literal(&code), "punctuation in literals");
    // the script compiler alone
    let got = guard(|| fm::BurnScriptCompiler::compile_burn_script(&code)).map_err(|e| format!("compiling the scripts {e}"))?;
    same_scripts(&scripts, got.iter())?;
    // in a program
    let program = format!("script:{}[{}]{}", l.gap(s), code, l.gap(s));
    let got = guard(|| fm::compile_burn(&program)).map_err(|e| format!("compiling the scripts in a program {e}"))?;
    same_scripts(&scripts, got.scripts.values()).map_err(|e| format!("in a program: {e}"))?;
    // as a test
    let mut one = String::new();
    render_script(s, &l, &scripts[0], &mut one);
    let program = format!("test{}t{}:script:[{one}]{},end{}test;", l.space(s), l.gap(s), l.gap(s), l.space(s));
    let got = guard(|| fm::compile_burn(&program)).map_err(|e| format!("compiling a test {e}"))?;
    if got.tests.len() != 1 {
        return Err(format!("one test is compiled to {}", got.tests.len()));
    }
    same_script(&scripts[0], &got.tests[0].script).map_err(|e| format!("in a test: {e}"))
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "A case is one to four scripts generated as trees (loops and if / elif / else chains nested up to five deep, every step name, arguments with nested calls and literals holding any punctuation; 4 % far larger in one dimension: hundreds of scripts, steps, branches, parameters or arguments, blocks up to three hundred deep, arguments of thousands of characters), written out in random layout and compiled alone, inside a program and as a test; names, parameters and steps are compared with the tree. Non-trivial: at least three statements and one block.",
        assumptions: &[
            "a step or script written with empty parentheses and one without are the same",
            "literals hold no double quotes (the language has no escape for them), and a closing square bracket stands only in literals",
        ],
        quick: 200_000,
        thorough: 5_000_000,
        run: c08_case,
        exhaustive: None,
    }
}

/* -------------------------------------------------------------------- C07 */

#[derive(Clone, Debug)]
pub enum Decl {
    Table(String),
    Relation(String, String),
    ValueList(String),
    Occurrence(String, String),
    Scripts(Vec<Script>),
    Test(String, Script),
}

pub fn declaration(s: &mut Source, tables: &[String], occurrences: &[String]) -> Decl {
    let known = |s: &mut Source, of: &[String]| if of.is_empty() || s.chance(20) { declared(s) } else { s.pick(of).clone() };
    match s.below(6) {
        0 => Decl::Table(declared(s)),
        1 => Decl::Relation(known(s, occurrences), known(s, occurrences)),
        2 => Decl::ValueList(declared(s)),
        3 => Decl::Occurrence(declared(s), known(s, tables)),
        4 => {
            let mut v = vec![];
            while s.more(v.len(), 0, 4, 2) {
                v.push(script(s, 1, 2));
            }
            Decl::Scripts(v)
        }
        _ => Decl::Test(declared(s), script(s, 1, 2)),
    }
}

/// Text between double quotes.
fn quoted(s: &mut Source) -> String {
    if s.chance(40) {
        literal(s)
    } else {
        s.pick(&["\"male\"", "\"Used as a primary key\"", "\"\"", "\"end table;\"", "\"a, b: c\"", "\"table x: end table;\"", "\"{\"", "\"}\"", "\"[\"", "\" \""]).to_string()
    }
}

/// A calculation in braces.
fn braces(s: &mut Source) -> String {
    let a = loop {
        let a = argument(s, 1);
        // closed by the first brace outside a literal
        if !a.split('"').step_by(2).any(|x| x.contains(['{', '}'])) {
            break a;
        }
    };
    format!("{{{}{a}{}}}", blanks(s), blanks(s))
}

/// What the language lists in a table: fields with their options.
pub fn fields(s: &mut Source, l: &Layout, out: &mut String) {
    let mut n = 0;
    let (most, avg) = if s.chance(1) { (300, 60) } else { (6, 2) };
    while s.more(n, 0, most, avg) {
        n += 1;
        out.push_str(&l.gap(s));
        out.push_str(&identifier(s));
        out.push_str(&format!("{}:", l.gap(s)));
        let mut k = 0;
        while s.more(k, 1, 5, 2) {
            if k > 0 {
                out.push_str(&format!("{},", l.gap(s)));
            }
            k += 1;
            out.push_str(&l.gap(s));
            let option = match s.weighted(&[6, 2, 2, 1, 1, 1]) {
                0 => s.pick(&["Unique", "Required", "Text", "Number", "Date", "Time", "Timestamp", "Container"]).to_string(),
                1 => braces(s),
                2 => quoted(s),
                3 => format!("!{}", braces(s)),
                4 => format!("!{}", quoted(s)),
                _ => format!("foundIn[{}]", identifier(s)),
            };
            out.push_str(&option);
        }
        out.push_str(&format!("{},", l.gap(s)));
    }
    // the comma after the last field is optional, and what ends with a sign needs no blank
    if n > 0 && s.chance(20) {
        out.pop();
    }
    let blank = if out.ends_with([',', '"', '}', ']']) { l.gap(s) } else { l.space(s) };
    out.push_str(&blank);
}

/// The entries of a value list.
pub fn entries(s: &mut Source, l: &Layout, out: &mut String) {
    let mut n = 0;
    let (most, avg) = if s.chance(1) { (300, 60) } else { (5, 2) };
    while s.more(n, 0, most, avg) {
        if n > 0 {
            out.push_str(&format!("{},", l.gap(s)));
        }
        n += 1;
        out.push_str(&l.gap(s));
        out.push_str(&quoted(s));
    }
    out.push_str(&l.gap(s));
}

/// The criteria of a relationship.
pub fn criteria(s: &mut Source, l: &Layout, out: &mut String) {
    let mut n = 0;
    let (most, avg) = if s.chance(1) { (40, 12) } else { (3, 1) };
    while s.more(n, 0, most, avg) {
        n += 1;
        out.push_str(&format!("{},{}", l.gap(s), l.gap(s)));
        let op = *s.pick(&["==", "<=", ">=", "<", ">", "!=", "O"]);
        let (a, b) = if op == "O" || s.chance(50) { (l.space(s), l.space(s)) } else { (l.gap(s), l.gap(s)) };
        out.push_str(&format!("{}{a}{op}{b}{}", identifier(s), identifier(s)));
    }
    if n > 0 && s.chance(60) {
        out.push(',');
    }
}

pub fn render_decl(s: &mut Source, l: &Layout, d: &Decl, out: &mut String) {
    let bodies = s.chance(60);
    let named = |s: &mut Source, kind: &str, name: &str, body: &str, out: &mut String| {
        out.push_str(&format!("{kind}{}{name}{}:{}{body}end{}{kind}{};", l.space(s), l.gap(s), l.gap(s), l.space(s), l.gap(s)));
    };
    match d {
        Decl::Table(n) => {
            let mut body = String::new();
            if bodies {
                fields(s, l, &mut body);
            }
            named(s, "table", n, &body, out)
        }
        Decl::ValueList(n) => {
            let mut body = String::new();
            if bodies {
                entries(s, l, &mut body);
            }
            named(s, "value_list", n, &body, out)
        }
        Decl::Relation(a, b) => {
            let mut body = String::new();
            if bodies {
                criteria(s, l, &mut body);
            }
            out.push_str(&format!("relationship{}:{}{a}{}:{}{b}{body}{}end{}relationship{};", l.gap(s), l.gap(s), l.gap(s), l.gap(s), l.space(s), l.space(s), l.gap(s)));
        }
        Decl::Occurrence(n, t) => {
            let comma = if s.chance(80) { format!("{},{}", l.gap(s), l.gap(s)) } else { l.space(s) };
            let body = format!("table{}:{}{t}{comma}", l.gap(s), l.gap(s));
            named(s, "table_occurence", n, &body, out)
        }
        Decl::Scripts(v) => {
            out.push_str(&format!("script{}:{}[", l.gap(s), l.gap(s)));
            for sc in v {
                render_script(s, l, sc, out);
            }
            out.push(']');
        }
        Decl::Test(n, sc) => {
            let mut code = String::new();
            render_script(s, l, sc, &mut code);
            let comma = if s.chance(80) { "," } else { "" };
            let body = format!("script{}:{}[{code}]{}{comma}{}", l.gap(s), l.gap(s), l.gap(s), l.gap(s));
            named(s, "test", n, &body, out)
        }
    }
}

fn names<T: PartialEq + std::fmt::Debug>(what: &str, want: Vec<T>, got: Vec<T>) -> Res {
    if want != got {
        return Err(format!("declared {what}: {want:?}\ncompiled {what}: {got:?}"));
    }
    Ok(())
}

pub fn same_program(decls: &[Decl], f: &fm::FmpFile) -> Res {
    let pick = |g: &dyn Fn(&Decl) -> Option<String>| -> Vec<String> { decls.iter().filter_map(g).collect() };
    let tables = pick(&|d| if let Decl::Table(n) = d { Some(n.clone()) } else { None });
    names("tables", tables, f.tables.values().map(|t| t.table_name.clone()).collect())?;
    let lists = pick(&|d| if let Decl::ValueList(n) = d { Some(n.clone()) } else { None });
    names("value lists", lists, f.value_lists.values().map(|t| t.list_name.clone()).collect())?;
    let rels: Vec<(String, String)> =
        decls.iter().filter_map(|d| if let Decl::Relation(a, b) = d { Some((a.clone(), b.clone())) } else { None }).collect();
    names("relationships", rels, f.relationships.values().map(|r| (r.table1_name.clone(), r.table2_name.clone())).collect())?;
    let occ: Vec<(String, String)> =
        decls.iter().filter_map(|d| if let Decl::Occurrence(a, b) = d { Some((a.clone(), b.clone())) } else { None }).collect();
    names(
        "table occurrences",
        occ,
        f.table_occurrences.values().map(|t| (t.table_occurence_name.clone(), t.table_actual_name.clone())).collect(),
    )?;
    let scripts: Vec<Script> = decls.iter().flat_map(|d| if let Decl::Scripts(v) = d { v.clone() } else { vec![] }).collect();
    same_scripts(&scripts, f.scripts.values())?;
    let tests: Vec<(&String, &Script)> = decls.iter().filter_map(|d| if let Decl::Test(n, sc) = d { Some((n, sc)) } else { None }).collect();
    names("tests", tests.iter().map(|t| t.0.clone()).collect(), f.tests.iter().map(|t| t.test_name.clone()).collect())?;
    for (t, g) in tests.iter().zip(&f.tests) {
        same_script(t.1, &g.script).map_err(|e| format!("test {:?}: {e}", t.0))?;
    }
    if !f.layouts.is_empty() || !f.data_sources.is_empty() {
        return Err("layouts or data sources are invented".to_string());
    }
    Ok(())
}

fn c07_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut decls: Vec<Decl> = vec![];
    let (mut tables, mut occ) = (vec![], vec![]);
    let avg = *s.pick(&[3usize, 8, 20]);
    let min = if s.chance(3) { 0 } else { 2 };
    while s.more(decls.len(), min, 30, avg) {
        let d = declaration(s, &tables, &occ);
        match &d {
            Decl::Table(n) => tables.push(n.clone()),
            Decl::Occurrence(n, _) => occ.push(n.clone()),
            _ => {}
        }
        decls.push(d);
    }
    let large = s.chance(3);
    if large {
        if s.chance(70) {
            let n = many(s, 30, 400);
            let kind = s.below(7);
            let at = s.below(decls.len() + 1);
            let more: Vec<Decl> = (0..n)
                .map(|_| match if kind == 6 { s.below(6) } else { kind } {
                    0 => Decl::Table(declared(s)),
                    1 => Decl::Relation(declared(s), declared(s)),
                    2 => Decl::ValueList(declared(s)),
                    3 => Decl::Occurrence(declared(s), declared(s)),
                    4 => Decl::Scripts(vec![script(s, 0, 1)]),
                    _ => Decl::Test(declared(s), script(s, 0, 1)),
                })
                .collect();
            decls.splice(at..at, more);
        } else {
            let at = s.below(decls.len() + 1);
            let n = s.int(30, 400);
            let d = match s.below(6) {
                0 => Decl::Table(long_name(s, n)),
                1 => Decl::Relation(long_name(s, n), declared(s)),
                2 => Decl::ValueList(long_name(s, n)),
                3 => Decl::Occurrence(declared(s), long_name(s, n)),
                4 => Decl::Scripts((0..n).map(|_| script(s, 0, 1)).collect()),
                _ => Decl::Test(declared(s), large_script(s)),
            };
            decls.insert(at, d);
        }
    }
    let l = Layout::pick(s);
    let mut text = l.gap(s);
    for d in &decls {
        render_decl(s, &l, d, &mut text);
        text.push_str(&l.gap(s));
    }
    ctx.case(text.as_bytes(), || text.clone());
    let mut kinds = [0usize; 6];
    for d in &decls {
        kinds[match d {
            Decl::Table(_) => 0,
            Decl::Relation(..) => 1,
            Decl::ValueList(_) => 2,
            Decl::Occurrence(..) => 3,
            Decl::Scripts(_) => 4,
            Decl::Test(..) => 5,
        }] += 1;
    }
    ctx.nontrivial = kinds.iter().filter(|k| **k > 0).count() >= 3 && kinds.iter().any(|k| *k > 1);
    ctx.label_if(decls.is_empty(), "empty program");
    ctx.label_if(decls.len() > 10, "over ten declarations");
    ctx.label_if(decls.len() > 100, "over a hundred declarations");
    ctx.label_if(large, "far larger in one dimension");
    ctx.label_if(kinds.iter().all(|k| *k > 0), "all kinds of declarations");
    let f = guard(|| fm::compile_burn(&text)).map_err(|e| format!("compiling {e}"))?;
    same_program(&decls, &f)
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "A case is a program of up to thirty declarations of all six kinds in any order, with generated names (keywords as parts of names, digits, other languages; 3 % with up to 400 declarations more or names of hundreds of characters), written out in random layout; the compiled model is compared with the declarations kind by kind. Non-trivial: at least three kinds and one of them twice.",
        assumptions: &["names are identifiers that are neither keywords nor numbers; declarations use the syntax of the repository's examples"],
        quick: 400_000,
        thorough: 4_000_000,
        run: c07_case,
        exhaustive: None,
    }
}
