//! C21: scripts stored in a database file, run by tests written in burn.
//! Programs are generated as in vm.rs; their scripts are written into a
//! database file as step records and calculation bytecode, their tests as a
//! burn program, and what the two do together is compared with the reference
//! interpreter.

use crate::burn::{self, Layout};
use crate::cli;
use crate::engine::{guard, Ctx, Prop, Res};
use crate::fmp;
use crate::opcodes::OPCODES;
use crate::schema;
use crate::source::Source;
use crate::vm::{self, Db, Ex, Made, Profile, Shape, Stmt, To};
use burn_fm_hooked::verif as fm;
use std::collections::{BTreeMap, BTreeSet};

/// Calculations are stored with a one-byte length.
const CALC: usize = 255;

fn plain(e: &Ex) -> Ex {
    match e {
        Ex::Num(_, v) => vm::num((v.abs().min(255.0)) as usize),
        Ex::Lit(t) => Ex::Lit(t.clone()),
        Ex::Var(n) => Ex::Var(n.clone()),
        Ex::Field(..) => vm::num(3),
        Ex::Bin(o, a, b) => Ex::Bin(o, Box::new(plain(a)), Box::new(plain(b))),
        Ex::Call(f, a) => Ex::Call(f, Box::new(plain(a))),
    }
}

/// The expression with what a stored calculation can hold, cut to its room.
fn expr(s: &mut Source, e: &Ex) -> Ex {
    let mut e = plain(e);
    let db = Db::default();
    loop {
        let mut t = vec![];
        vm::tokens(s, &db, &e, 0, &mut t);
        if encode(&t).is_some() {
            return e;
        }
        e = match e {
            Ex::Bin(_, _, b) => *b,
            Ex::Call(_, a) => *a,
            _ => vm::lit("cut"),
        };
    }
}

/// The script with what a file stores: no fields, one calculation a step.
pub fn storable(s: &mut Source, b: Vec<Stmt>) -> Vec<Stmt> {
    let mut out = vec![];
    for st in b {
        out.push(match st {
            Stmt::SetVar(n, e) => Stmt::SetVar(n, expr(s, &e)),
            Stmt::Show(e) => {
                // the mark at the start stays
                let e = match e {
                    Ex::Bin("&", a, b) => {
                        let c = vm::bin("&", *a.clone(), plain(&b));
                        let mut t = vec![];
                        vm::tokens(s, &Db::default(), &c, 0, &mut t);
                        if encode(&t).is_some() { c } else { vm::bin("&", *a, vm::lit("cut")) }
                    }
                    e => e,
                };
                Stmt::Show(e)
            }
            Stmt::Assert(e) => Stmt::Assert(condition(s, e)),
            Stmt::Layout(e) => Stmt::Layout(expr(s, &e)),
            Stmt::ExitIf(e) => Stmt::ExitIf(condition(s, e)),
            Stmt::Call(e) => Stmt::Call(e),
            Stmt::Go(To::Number(e), _) => Stmt::Go(To::Number(expr(s, &e)), false),
            Stmt::Go(to, _) => Stmt::Go(to, false),
            Stmt::SetField(..) => continue,
            Stmt::Loop(b) => Stmt::Loop(storable(s, b)),
            Stmt::If(br, l) => {
                let mut v = vec![];
                for (c, b) in br {
                    let c = condition(s, c);
                    v.push((c, storable(s, b)));
                }
                Stmt::If(v, l.map(|b| storable(s, b)))
            }
            x => x,
        });
    }
    out
}

fn condition(s: &mut Source, e: Ex) -> Ex {
    let c = plain(&e);
    let mut t = vec![];
    vm::tokens(s, &Db::default(), &c, 0, &mut t);
    if encode(&t).is_some() { c } else { vm::bin("==", vm::num(1), vm::num(1)) }
}

fn text(code: &[u8], t: &str, out: &mut Vec<u8>) -> Option<()> {
    out.extend_from_slice(code);
    out.push(u8::try_from(t.len()).ok()?);
    out.extend(t.bytes().map(|b| b ^ 0x5a));
    Some(())
}

/// Bytecode of the tokens, if it can be stored.
fn encode(tokens: &[String]) -> Option<Vec<u8>> {
    let mut b = vec![];
    for (i, t) in tokens.iter().enumerate() {
        let simple: Option<&[u8]> = match t.as_str() {
            "+" => Some(&[0x25]),
            "-" => Some(&[0x26]),
            "*" => Some(&[0x27]),
            "/" => Some(&[0x28]),
            "<" => Some(&[0x41]),
            "<=" => Some(&[0x43]),
            "==" => Some(&[0x44]),
            "!=" => Some(&[0x46]),
            ">=" => Some(&[0x47]),
            ">" => Some(&[0x49]),
            "&" => Some(&[0x50]),
            "(" => Some(&[0x04]),
            ")" => Some(&[0x05]),
            _ => None,
        };
        let call = tokens.get(i + 1).is_some_and(|n| n == "(");
        if let Some(x) = simple {
            b.extend_from_slice(x);
        } else if let Some(x) = t.strip_prefix('"') {
            text(&[0x13], x.strip_suffix('"')?, &mut b)?;
        } else if t.chars().all(char::is_whitespace) {
            if t == " " && !tokens.get(i + 1).is_some_and(|n| n.starts_with('"')) {
                b.push(0x0c);
            } else {
                text(&[0x0c, 0x13], t, &mut b)?;
            }
        } else if call && t == "Abs" {
            b.push(0x2d);
        } else if call && t == "Acos" {
            b.push(0x9d);
        } else if call && t == "Char" {
            b.extend_from_slice(&[0xfb, 0x03]);
        } else if let Ok(n) = t.parse::<f64>() {
            // the number is the ninth of nineteen bytes
            if n.fract() != 0.0 || !(0.0..256.0).contains(&n) {
                return None;
            }
            b.push(0x10);
            b.extend_from_slice(&[0; 8]);
            b.push(n as u8);
            b.extend_from_slice(&[0; 10]);
        } else {
            text(&[0x1a], t, &mut b)?;
        }
    }
    if b.len() > CALC { None } else { Some(b) }
}

fn calc(s: &mut Source, e: &Ex) -> fmp::Calc {
    let db = Db::default();
    let mut t = vm::spaced(s, &db, e);
    let bytes = encode(&t).unwrap_or_else(|| {
        t.clear();
        vm::tokens(s, &db, e, 0, &mut t);
        encode(&t).expect("a calculation that fits")
    });
    fmp::Calc { bytes, text: t.concat(), tokens: t.len(), kinds: BTreeSet::new() }
}

/// Steps on windows, sound, printing or the user's part in a script; none of
/// them moves between records, scripts or steps, or changes what is read.
const IDLE: [&str; 16] = [
    "AdjustWindow", "ShowHideToolbars", "ViewAs", "OpenHelp", "PrintSetup", "Print", "Speak", "CommitRecordsRequests", "FreezeWindow",
    "RefreshWindow", "ScrollWindow", "AllowUserAbort", "SetErrorCapture", "Beep", "SetZoomLevel", "FluchCacheToDisk",
];

struct Stored<'a> {
    ids: &'a BTreeMap<String, usize>,
    /// a script number that is not taken
    free: usize,
    steps: Vec<fmp::Step>,
    next: usize,
    by_number: usize,
    by_name: usize,
    idle: usize,
}

impl Stored<'_> {
    fn push(&mut self, s: &mut Source, op: &str, var: Option<&str>, c: Option<fmp::Calc>) {
        let op = OPCODES.iter().find(|x| x.1 == op).expect(op).0;
        if s.chance(10) {
            self.idle(s);
        }
        self.raw(s, fmp::Step { op, index: 0, target: None, var: var.map(str::to_string), text128: None, calc128: None, calc129: c });
    }

    /// A step that does nothing, one whose effect is not on what runs in a
    /// test, or none at all.
    fn idle(&mut self, s: &mut Source) {
        let op = match s.below(4) {
            0 => 176,
            1 => 89,
            2 => *s.pick(&[2u8, 15, 250]),
            _ => {
                let name = *s.pick(&IDLE);
                self.idle += 1;
                OPCODES.iter().find(|x| x.1 == name).expect(name).0
            }
        };
        let calc129 = if op < 240 && op != 176 && op != 89 && s.chance(20) { Some(calc(s, &vm::lit("idle"))) } else { None };
        self.raw(s, fmp::Step { op, index: 0, target: None, var: None, text128: None, calc128: None, calc129 });
    }

    fn raw(&mut self, s: &mut Source, mut st: fmp::Step) {
        self.next += if s.chance(5) { s.int(2, 300) } else { 1 };
        st.index = self.next;
        self.steps.push(st);
    }

    fn body(&mut self, s: &mut Source, b: &[Stmt]) {
        for st in b {
            match st {
                Stmt::SetVar(n, e) => {
                    let c = calc(s, e);
                    self.push(s, "SetVariable", Some(n), Some(c));
                }
                Stmt::Show(e) => self.with(s, "ShowCustomDialog", e),
                Stmt::Assert(e) => self.with(s, "Assert", e),
                Stmt::Layout(e) => self.with(s, "GoToLayout", e),
                Stmt::ExitIf(e) => self.with(s, "ExitLoopIf", e),
                Stmt::New => self.push(s, "NewRecordRequest", None, None),
                Stmt::Find => self.push(s, "EnterFindMode", None, None),
                Stmt::Perform => self.push(s, "PerformFind", None, None),
                Stmt::ShowAll => self.push(s, "ShowAllRecords", None, None),
                Stmt::Noop => self.push(s, "BlankLineComment", None, None),
                Stmt::Go(to, _) => {
                    let e = match to {
                        To::First => vm::lit("first"),
                        To::Last => vm::lit("last"),
                        To::Next => vm::lit("next"),
                        To::Previous => vm::lit("previous"),
                        To::Number(e) => e.clone(),
                    };
                    self.with(s, "GoToRecordRequestPage", &e);
                }
                Stmt::Call(e) => match e {
                    Ex::Lit(n) if self.ids.contains_key(n) => {
                        self.push(s, "PerformScript", None, None);
                        self.steps.last_mut().unwrap().target = Some(self.ids[n]);
                        self.by_number += 1;
                    }
                    e => {
                        self.with(s, "PerformScript", e);
                        self.steps.last_mut().unwrap().target = if s.chance(50) { Some(self.free) } else { None };
                        self.by_name += 1;
                    }
                },
                Stmt::Loop(b) => {
                    self.push(s, "Loop", None, None);
                    self.body(s, b);
                    self.push(s, "EndLoop", None, None);
                }
                Stmt::If(br, last) => {
                    for (i, (c, b)) in br.iter().enumerate() {
                        self.with(s, if i == 0 { "If" } else { "ElseIf" }, c);
                        self.body(s, b);
                    }
                    if let Some(b) = last {
                        self.push(s, "Else", None, None);
                        self.body(s, b);
                    }
                    self.push(s, "EndIf", None, None);
                }
                Stmt::SetField(..) => panic!("no such step in a file"),
            }
        }
    }

    fn with(&mut self, s: &mut Source, op: &str, e: &Ex) {
        let c = calc(s, e);
        self.push(s, op, None, Some(c));
    }
}

struct Case {
    m: Made,
    database: Vec<u8>,
    tests: String,
    describe: String,
    sectors: usize,
    by_number: usize,
    by_name: usize,
    steps: usize,
    idle: usize,
}

fn case(s: &mut Source) -> Case {
    let db = s.chance(35);
    let prof = match s.below(4) {
        0 => Profile { set: 4, show: 4, assert: 1, fail: 6, call: 9, block: 2, noop: 1, depth: 2, ..vm::BASE },
        1 => Profile { set: 3, show: 3, assert: 1, fail: 6, call: 7, block: 6, noop: 1, expr: 1, depth: 3, ..vm::BASE },
        2 => Profile { set: 5, show: 6, assert: 1, fail: 6, call: 9, expr: 4, ..vm::BASE },
        _ => Profile { set: 2, show: 3, assert: 1, fail: 6, call: 8, block: 2, field: 2, record: 3, layout: 2, go: 3, find: 1, expr: 1, depth: 2, ..vm::BASE },
    };
    let sh = Shape { prof, db, scripts: s.int(1, 5), tests: *s.pick(&[1usize, 1, 2, 3]), avg: 7, max: 20, names: true, stored: true };
    let m = vm::make(s, &sh);
    // scripts under any number a step can refer to
    let mut ids = BTreeMap::new();
    let mut taken = BTreeSet::new();
    for (n, _) in &m.p.scripts {
        let mut id = match s.below(4) {
            0 | 1 => s.int(1, 20),
            2 => s.int(0, 400),
            _ => s.int(0, 65535),
        };
        while taken.contains(&id) {
            id = (id + 1) % 65536;
        }
        taken.insert(id);
        ids.insert(n.clone(), id);
    }
    let free = (*s.pick(&[0usize, 1, 128, 256])..).find(|x| !taken.contains(x)).unwrap();
    let mut c = m.p.db.content(s);
    let (mut by_number, mut by_name, mut steps, mut idle) = (0, 0, 0, 0);
    let mut described = String::new();
    for (n, b) in &m.p.scripts {
        let mut st = Stored { ids: &ids, free, steps: vec![], next: 0, by_number: 0, by_name: 0, idle: 0 };
        st.body(s, b);
        if s.chance(20) {
            let (op, e) = (OPCODES.iter().find(|x| x.1 == "ExitScript").unwrap().0, calc(s, &vm::num(1)));
                st.raw(s, fmp::Step { op, index: 0, target: None, var: None, text128: None, calc128: Some(e), calc129: None });
        }
        idle += st.idle;
        by_number += st.by_number;
        by_name += st.by_name;
        steps += st.steps.len();
        described.push_str(&format!("stored script {} {n:?}:\n", ids[n]));
        for x in &st.steps {
            described.push_str(&format!(
                "  {} {} {} {}\n",
                x.index,
                crate::opcodes::name(x.op).unwrap_or("(no step)"),
                x.var.as_deref().map(|v| format!("{v} :=")).unwrap_or_default(),
                x.calc129.as_ref().map(|c| c.text.clone()).unwrap_or_else(|| if x.op == 1 { x.target.map(|n| format!("script {n}")).unwrap_or_default() } else { String::new() })
            ));
        }
        c.scripts.insert(ids[n], fmp::Script { name: n.clone(), steps: st.steps });
    }
    let noise = *s.pick(&[0usize, 1, 5]);
    let (f, _, _) = fmp::file(s, &c, noise);
    let sectors = f.chain.len();
    let l = Layout::pick(s);
    let mut tests = String::new();
    for (n, b) in &m.p.tests {
        let name = if s.chance(50) { n.clone() } else { burn::identifier(s) };
        let d = burn::Decl::Test(n.clone(), burn::Script { name, params: vec![], body: vm::whole(s, &m.p.db, b) });
        burn::render_decl(s, &l, &d, &mut tests);
        tests.push_str(&l.gap(s));
    }
    let describe = format!(
        "tables {:?}\noccurrences {:?}\nlayouts {:?}\n{described}database of {sectors} sectors\ntests:\n{tests}",
        m.p.db.tables, m.p.db.occurrences, m.p.db.layouts
    );
    Case { m, database: f.bytes, tests, describe, sectors, by_number, by_name, steps, idle }
}

fn c21_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let c = case(s);
    let m = &c.m;
    let mut key = c.database.clone();
    key.extend(c.tests.bytes());
    ctx.case(&key, || c.describe.clone());
    for w in m.left_out.keys() {
        ctx.label(&format!("left out a statement: {w}"));
    }
    ctx.nontrivial = m.end.calls > 0 && m.want.iter().any(|w| !w.0.is_empty());
    ctx.label_if(c.sectors > 1, "several sectors");
    ctx.label_if(c.by_number > 0, "script calls by number");
    ctx.label_if(c.by_name > 0, "script calls by name");
    ctx.label_if(c.idle > 0, "steps on windows and the like");
    ctx.label_if(c.steps >= 20, "twenty stored steps or more");
    ctx.label_if(m.end.deepest >= 3, "calls three deep or more");
    ctx.label_if(m.end.repeats > 0, "loops that repeat");
    ctx.label_if(m.want.len() > 1, "several tests");
    ctx.label_if(m.want.iter().any(|w| !w.1), "false assertion");
    let want: Vec<(String, Vec<String>, Option<bool>)> = m.p.tests.iter().zip(&m.want).map(|(t, w)| (t.0.clone(), w.0.clone(), Some(w.1))).collect();
    if s.chance(3) {
        ctx.label("run by the program");
        let dir = ctx.fresh_dir("stored");
        std::fs::write(dir.join("kept.fmp12"), &c.database).expect("write");
        std::fs::write(dir.join("tests.burn"), &c.tests).expect("write");
        let args: Vec<String> = ["-d", "kept.fmp12", "-t", "tests.burn"].iter().map(|x| x.to_string()).collect();
        let r = cli::run_program(ctx, &dir, &args, &[]);
        if r.code != Some(0) {
            return Err(format!("the program ends with {:?} (signal {:?}): {}", r.code, r.signal, r.err));
        }
        let got = cli::runs(&r.out);
        if got != want {
            return Err(format!("the program reports (name, shown, passed)\n{got:?}\nit should report\n{want:?}"));
        }
        return Ok(());
    }
    let mut file = schema::decompile(ctx, &c.database)?;
    file.tests = guard(|| fm::compile_burn(&c.tests).tests).map_err(|e| format!("compiling the tests {e}"))?;
    ctx.take_output();
    let mut te = fm::TestEnvironment::new(&file);
    guard(|| {
        te.generate_test_environment();
        te.run_tests_with_cleanup();
    })
    .map_err(|e| format!("running the tests {e}\n{}", vm::listing(&file)))?;
    let got = cli::runs(&ctx.take_output());
    if got != want {
        return Err(format!("the run reports (name, shown, passed)\n{got:?}\nit should report\n{want:?}\nscripts as read\n{}", vm::listing(&file)));
    }
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "A case is a database file holding a schema and one to ten scripts (variables, calculations, dialogs, branches, loops, calls by number or by name, records, layouts, finds), stored inline or in segments among steps without an operation, steps on windows, sound or printing, exits at the end of a script and unrelated content, and a burn file with tests that call them. The file is read, the tests are compiled and run against it (one case in thirty by the program itself), and names, order, shown texts and outcomes are compared with a reference interpreter. Non-trivial: a stored script is called and a text is shown.",
        assumptions: &[
            vm::KNOWN,
            "stored calculations hold what the format note defines: whole numbers up to 255, texts, variables, the functions Abs, Acos and Char and the operators; field references are not among them",
            "a stored step has one calculation, so steps that need two arguments other than Set Variable occur in tests only",
        ],
        quick: 40_000,
        thorough: 2_000_000,
        run: c21_case,
        exhaustive: None,
    }
}
