//! Script language: expressions and programs are generated as trees, written
//! out, compiled and run; what the run shows and leaves is compared with a
//! reference interpreter (C09 to C13; C14 is in related.rs).
//!
//! The interpreter gives the meaning the properties state. Where the tree at
//! hand is known to go wrong (known_findings.txt) the interpreter recognises
//! the construct from what the program does and returns `Outside`; programs
//! are built one statement at a time and such a statement is left out.

use std::collections::{BTreeMap, BTreeSet};

use crate::burn::{self, Layout};
use crate::engine::{guard, Ctx, Prop, Res};
use crate::fmp;
use crate::schema;
use crate::source::Source;
use burn_fm_hooked::verif as fm;

/* ------------------------------------------------------------ expressions */

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Num(f64),
    Text(String),
    Bool(bool),
    Blank,
}

impl Val {
    pub fn show(&self) -> String {
        match self {
            Val::Num(n) => format!("{n}"),
            Val::Text(t) => t.clone(),
            Val::Bool(b) => b.to_string(),
            Val::Blank => String::new(),
        }
    }
    /// As the run keeps it.
    pub fn stored(&self) -> String {
        match self {
            Val::Text(t) => format!("\"{t}\""),
            v => v.show(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ex {
    Num(String, f64),
    Lit(String),
    Var(String),
    /// occurrence and field number
    Field(usize, usize),
    /// operator, one of + - * / & == != < <= > >=
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Call(&'static str, Box<Ex>),
}

pub fn prec(op: &str) -> usize {
    match op {
        "*" | "/" => 4,
        "+" | "-" => 3,
        "&" => 2,
        _ => 1,
    }
}

pub fn bin(op: &'static str, a: Ex, b: Ex) -> Ex {
    Ex::Bin(op, Box::new(a), Box::new(b))
}

pub fn num(n: usize) -> Ex {
    Ex::Num(n.to_string(), n as f64)
}

pub fn lit(t: &str) -> Ex {
    Ex::Lit(t.to_string())
}

pub fn var(n: &str) -> Ex {
    Ex::Var(n.to_string())
}

/// Written form as tokens; parentheses where needed and now and then elsewhere.
pub fn tokens(s: &mut Source, db: &Db, e: &Ex, redundant: usize, out: &mut Vec<String>) {
    let group = |s: &mut Source, e: &Ex, needed: bool, out: &mut Vec<String>| {
        let g = needed || s.chance(redundant);
        if g {
            out.push("(".to_string());
        }
        tokens(s, db, e, redundant, out);
        if g {
            out.push(")".to_string());
        }
    };
    match e {
        Ex::Num(t, _) => out.push(t.clone()),
        Ex::Lit(t) => out.push(format!("\"{t}\"")),
        Ex::Var(n) => out.push(n.clone()),
        Ex::Field(o, f) => out.push(db.field(*o, *f)),
        Ex::Bin(op, a, b) => {
            let level = |x: &Ex| if let Ex::Bin(o, ..) = x { prec(o) } else { 9 };
            group(s, a, level(a) < prec(op), out);
            out.push(op.to_string());
            group(s, b, level(b) <= prec(op), out);
        }
        Ex::Call(f, a) => {
            out.push(f.to_string());
            out.push("(".to_string());
            tokens(s, db, a, redundant, out);
            out.push(")".to_string());
        }
    }
}

/// Written form of an expression.
pub fn write_ex(s: &mut Source, db: &Db, e: &Ex) -> String {
    spaced(s, db, e).concat()
}

/// Tokens of the written form, with blanks as tokens of their own.
pub fn spaced(s: &mut Source, db: &Db, e: &Ex) -> Vec<String> {
    let redundant = *s.pick(&[0usize, 0, 10, 40]);
    let mut t = vec![];
    if s.chance(5) {
        t.push("(".to_string());
        tokens(s, db, e, redundant, &mut t);
        t.push(")".to_string());
    } else {
        tokens(s, db, e, redundant, &mut t);
    }
    let style = s.below(4);
    let mut out = vec![];
    for (i, x) in t.iter().enumerate() {
        out.push(x.clone());
        let last = i + 1 == t.len();
        let word = x.chars().next().is_some_and(|c| c != '"' && !"()+-*/&=!<>".contains(c));
        // a name and the parenthesis of its call stay together
        let call = word && t.get(i + 1).is_some_and(|n| n == "(");
        if last || call {
            continue;
        }
        let mut blanks = String::new();
        match style {
            0 => blanks.push(' '),
            1 => {}
            2 => {
                for _ in 0..s.below(3) {
                    blanks.push(' ')
                }
            }
            _ => {
                // a line break or tab right after a name or number is outside (C09 tab-after-name)
                for _ in 0..s.below(3) {
                    blanks.push(if word { ' ' } else { *s.pick(&[' ', '\n', '\t', ' ']) })
                }
            }
        }
        if !blanks.is_empty() {
            out.push(blanks);
        }
    }
    out
}

/* ------------------------------------------------------------------ schema */

#[derive(Clone, Debug, Default)]
pub struct Db {
    pub tables: BTreeMap<usize, (String, BTreeMap<usize, String>)>,
    pub occurrences: BTreeMap<usize, (String, usize)>,
    pub layouts: Vec<(String, usize)>,
    /// occurrence, field, comparison, occurrence, field
    pub relations: Vec<fmp::Rel>,
}

impl Db {
    pub fn field(&self, occurrence: usize, field: usize) -> String {
        let o = &self.occurrences[&occurrence];
        format!("{}::{}", o.0, self.tables[&o.1].1[&field])
    }
    pub fn fields_of(&self, occurrence: usize) -> Vec<usize> {
        self.tables[&self.occurrences[&occurrence].1].1.keys().copied().collect()
    }
    pub fn content(&self, s: &mut Source) -> fmp::Content {
        let mut c = fmp::Content::default();
        for (id, (name, fields)) in &self.tables {
            let fields = fields.iter().map(|(k, n)| (*k, fmp::Field { name: n.clone(), ..Default::default() })).collect();
            c.tables.insert(*id, fmp::Table { name: name.clone(), fields });
        }
        c.occurrences = self.occurrences.clone();
        for (i, l) in self.layouts.iter().enumerate() {
            c.layouts.insert(i * 7 + 1, l.clone());
        }
        for (i, r) in self.relations.iter().enumerate() {
            c.relations.insert(i * 3 + 1 + s.below(3), r.clone());
        }
        c
    }
    /// The model of the file, with no tests and scripts.
    pub fn file(&self, s: &mut Source) -> fm::FmpFile {
        let c = self.content(s);
        let mut f = fm::FmpFile::new();
        for (id, t) in &c.tables {
            let mut x = fm::FMComponentTable::new();
            x.table_name = t.name.clone();
            for (k, v) in &t.fields {
                let mut y = fm::FMComponentField::new();
                y.field_name = v.name.clone();
                x.fields.insert(*k as u16, y);
            }
            f.tables.insert(*id, x);
        }
        for (id, (name, table)) in &c.occurrences {
            let mut x = fm::FMComponentTableOccurence::new();
            x.table_occurence_name = name.clone();
            x.table_actual = *table as u16;
            f.table_occurrences.insert(*id, x);
        }
        for (id, (name, o)) in &c.layouts {
            let mut x = fm::FMComponentLayout::new();
            x.layout_name = name.clone();
            x.table_occurrence = *o;
            f.layouts.insert(*id, x);
        }
        use fm::RelationComparison::*;
        for (id, r) in &c.relations {
            let mut x = fm::FMComponentRelationship::new();
            x.table1 = r.table1 as u16;
            x.table2 = r.table2 as u16;
            x.field1 = r.field1 as u16;
            x.field2 = r.field2 as u16;
            x.comparison = [Equal, NotEqual, Less, LessEqual, Greater, GreaterEqual, Cartesian][r.cmp].clone();
            f.relationships.insert(*id, x);
        }
        f
    }
}

fn plain_name(s: &mut Source, taken: &BTreeSet<String>, underscore: bool) -> String {
    let n = s.size(1, 9);
    let mut t: String = String::new();
    while t.len() < n {
        t.push(match s.weighted(&[6, 2, 1, 1]) {
            0 => (b'a' + s.below(26) as u8) as char,
            1 => (b'A' + s.below(26) as u8) as char,
            2 => (b'0' + s.below(10) as u8) as char,
            _ => *s.pick(if underscore { &['_', 'é', '名', 'ß'] } else { &['é', '名', 'ß', 'ø'] }),
        });
    }
    if t.starts_with(|c: char| c.is_ascii_digit()) || t.parse::<f64>().is_ok() {
        t.insert(0, 'n');
    }
    while taken.contains(&t) {
        t.push('x');
    }
    t
}

fn layout_name(s: &mut Source, taken: &BTreeSet<String>) -> String {
    let mut t = text(s, false);
    while taken.contains(&t) {
        t.push('x');
    }
    t
}

pub fn gen_db(s: &mut Source, tables: usize, occs: usize) -> Db {
    let mut db = Db::default();
    let mut taken = BTreeSet::new();
    while s.more(db.tables.len(), 1, 2 * tables, tables) {
        let id = if s.chance(75) { s.int(1, 12) } else { s.int(1, 250) };
        let mut fields = BTreeMap::new();
        let mut names = BTreeSet::new();
        while s.more(fields.len(), 1, 6, 2) {
            let f = if s.chance(80) { s.int(1, 8) } else { s.int(1, 900) };
            let n = plain_name(s, &names, false);
            names.insert(n.clone());
            fields.insert(f, n);
        }
        let n = plain_name(s, &taken, true);
        db.tables.insert(id, (n, fields));
    }
    let ids: Vec<usize> = db.tables.keys().copied().collect();
    while s.more(db.occurrences.len(), 1, 2 * occs, occs) {
        let id = if s.chance(75) { s.int(0, 12) } else { s.int(0, 127) };
        // small schemas often share one table
        let t = if s.chance(40) { ids[0] } else { *s.pick(&ids) };
        let n = plain_name(s, &taken, true);
        taken.insert(n.clone());
        db.occurrences.insert(id, (n, t));
    }
    let occ: Vec<usize> = db.occurrences.keys().copied().collect();
    let mut names = BTreeSet::new();
    for o in &occ {
        for _ in 0..*s.pick(&[1usize, 1, 1, 2, 0]) {
            let n = layout_name(s, &names);
            names.insert(n.clone());
            db.layouts.push((n, *o));
        }
    }
    if db.layouts.is_empty() {
        let n = layout_name(s, &names);
        db.layouts.push((n, occ[0]));
    }
    db
}

/* ---------------------------------------------------------------- programs */

#[derive(Clone, Debug)]
pub enum To {
    First,
    Last,
    Next,
    Previous,
    Number(Ex),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    SetVar(String, Ex),
    Show(Ex),
    Assert(Ex),
    SetField(usize, usize, Ex),
    New,
    Layout(Ex),
    /// with the exit flag
    Go(To, bool),
    Find,
    Perform,
    ShowAll,
    ExitIf(Ex),
    Call(Ex),
    Noop,
    Loop(Vec<Stmt>),
    If(Vec<(Ex, Vec<Stmt>)>, Option<Vec<Stmt>>),
}

#[derive(Clone, Debug, Default)]
pub struct Program {
    pub db: Db,
    pub scripts: Vec<(String, Vec<Stmt>)>,
    pub tests: Vec<(String, Vec<Stmt>)>,
}

/// The tree with its arguments written out. `Noop` has no source form.
pub fn written(s: &mut Source, db: &Db, body: &[Stmt]) -> Vec<burn::Stmt> {
    use burn::Stmt as B;
    let mut out = vec![];
    for st in body {
        out.push(match st {
            Stmt::SetVar(n, e) => B::Step("set_variable", vec![n.clone(), write_ex(s, db, e)]),
            Stmt::Show(e) => B::Step("show_custom_dialog", vec![write_ex(s, db, e)]),
            Stmt::Assert(e) => B::Step("assert", vec![write_ex(s, db, e)]),
            Stmt::SetField(o, f, e) => B::Step("set_field", vec![db.field(*o, *f), write_ex(s, db, e)]),
            Stmt::New => B::Step("new_record_request", vec![]),
            Stmt::Layout(e) => B::Step("go_to_layout", vec![write_ex(s, db, e)]),
            Stmt::Go(to, exit) => {
                let mut a = vec![match to {
                    To::First => "\"first\"".to_string(),
                    To::Last => "\"last\"".to_string(),
                    To::Next => "\"next\"".to_string(),
                    To::Previous => "\"previous\"".to_string(),
                    To::Number(e) => write_ex(s, db, e),
                }];
                if *exit {
                    a.push("\"true\"".to_string());
                }
                B::Step(if s.chance(20) { "go_to_request" } else { "go_to_record" }, a)
            }
            Stmt::Find => B::Step("enter_find_mode", vec![]),
            Stmt::Perform => B::Step("perform_find", vec![]),
            Stmt::ShowAll => B::Step("show_all_records", vec![]),
            Stmt::ExitIf(e) => B::Step("exit_loop_if", vec![write_ex(s, db, e)]),
            Stmt::Call(e) => B::Step("perform_script", vec![write_ex(s, db, e)]),
            Stmt::Noop => continue,
            Stmt::Loop(b) => B::Loop(written(s, db, b)),
            Stmt::If(br, last) => {
                let mut v = vec![];
                for (c, b) in br {
                    let c = write_ex(s, db, c);
                    v.push((c, written(s, db, b)));
                }
                B::If(v, last.as_ref().map(|b| written(s, db, b)))
            }
        });
    }
    out
}

/// The script, now and then with an exit at its very end.
pub fn whole(s: &mut Source, db: &Db, body: &[Stmt]) -> Vec<burn::Stmt> {
    let mut b = written(s, db, body);
    if s.chance(8) {
        let e = write_ex(s, db, &num(0));
        b.push(burn::Stmt::Step("exit_script", vec![e]));
    }
    b
}

fn instruction(op: &str) -> fm::Instruction {
    use fm::Instruction::*;
    match op {
        "SetVariable" => SetVariable,
        "ShowCustomDialog" => ShowCustomDialog,
        "Assert" => Assert,
        "SetField" => SetField,
        "PerformScript" => PerformScript,
        "GoToLayout" => GoToLayout,
        "GoToRecordRequestPage" => GoToRecordRequestPage,
        "EnterFindMode" => EnterFindMode,
        "PerformFind" => PerformFind,
        "ShowAllRecords" => ShowAllRecords,
        "ExitLoopIf" => ExitLoopIf,
        "NewRecordRequest" => NewRecordRequest,
        "Loop" => Loop,
        "EndLoop" => EndLoop,
        "If" => If,
        "ElseIf" => ElseIf,
        "Else" => Else,
        "EndIf" => EndIf,
        "ExitScript" => ExitScript,
        "CommentedOut" => CommentedOut,
        "BlankLineComment" => BlankLineComment,
        "UnsortRecords" => UnsortRecords,
        _ => panic!("no operation {op}"),
    }
}

/// The steps as a file holds them, with comments and empty lines between.
fn direct(s: &mut Source, name: &str, body: &[burn::Stmt], comments: bool) -> fm::FMComponentScript {
    let mut flat = vec![];
    burn::flatten(body, &mut flat);
    let mut sc = fm::FMComponentScript::new();
    sc.script_name = name.to_string();
    let mut push = |op: &str, switches: Vec<String>| {
        let index = sc.instructions.len();
        sc.instructions.push(fm::ScriptStep { opcode: instruction(op), index, switches });
    };
    for (op, args) in flat {
        if comments && s.chance(8) {
            push(s.pick(&["CommentedOut", "BlankLineComment", "UnsortRecords"]), vec![]);
        }
        push(&op, args);
    }
    sc
}

/* ------------------------------------------------------ reference interpreter */

/// Why a program is outside of what is checked: a known finding or
/// something no property determines.
pub type Outside = &'static str;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Flow {
    Next,
    Exit,
    Failed,
}

/// Position of an occurrence in its found set; none after steps that leave
/// it undetermined.
#[derive(Clone, Debug, Default)]
pub struct State {
    vars: Vec<BTreeMap<String, Val>>,
    /// names set by earlier calls of each depth
    left: Vec<BTreeSet<String>>,
    pub occurrence: usize,
    pub records: BTreeMap<usize, Vec<BTreeMap<usize, Val>>>,
    pub found: BTreeMap<usize, Vec<usize>>,
    pub position: BTreeMap<usize, Option<usize>>,
    find: bool,
    criteria: Vec<(usize, usize, Val)>,
    pub shown: Vec<String>,
    pub steps: usize,
    /// branches of if chains being executed
    taken: usize,
    /// a branch was left through the exit of a loop
    stale: bool,
    ifs: usize,
    loops: usize,
    last_loop: usize,
    pub calls: usize,
    pub branches: usize,
    pub repeats: usize,
    pub finds: usize,
    pub deepest: usize,
    /// tables earlier tests have used
    dirty: BTreeSet<usize>,
    touched: BTreeSet<usize>,
    layout_kept: bool,
}

#[derive(Clone)]
pub struct Interp<'a> {
    pub p: &'a Program,
    pub st: State,
}

fn has_if(b: &[Stmt]) -> bool {
    b.iter().any(|x| match x {
        Stmt::If(..) => true,
        Stmt::Loop(b) => has_if(b),
        _ => false,
    })
}

fn has_loop(b: &[Stmt]) -> bool {
    b.iter().any(|x| match x {
        Stmt::Loop(_) => true,
        Stmt::If(br, l) => br.iter().any(|x| has_loop(&x.1)) || l.as_ref().is_some_and(|x| has_loop(x)),
        _ => false,
    })
}

fn digits(n: f64) -> Option<usize> {
    if n >= 0.0 && n.fract() == 0.0 && n < 1e15 { Some(format!("{n}").len()) } else { None }
}

fn plain_text(t: &str) -> bool {
    t.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
}

/// Whether two stored values are the same.
fn same_value(a: &Val, b: &Val) -> Result<bool, Outside> {
    Ok(match (a, b) {
        (Val::Num(x), Val::Num(y)) => x == y,
        (Val::Text(x), Val::Text(y)) => x == y,
        (Val::Bool(x), Val::Bool(y)) => x == y,
        (Val::Blank, Val::Blank) => true,
        (Val::Text(t), Val::Blank) | (Val::Blank, Val::Text(t)) if t.is_empty() => return Err("empty text and no value"),
        (Val::Blank, _) | (_, Val::Blank) => false,
        _ if a.show() == b.show() => return Err("text and number that read alike"),
        _ => false,
    })
}

impl<'a> Interp<'a> {
    pub fn new(p: &'a Program) -> Self {
        let mut i = Interp { p, st: State::default() };
        i.fresh();
        i
    }

    fn fresh(&mut self) {
        let st = &mut self.st;
        st.occurrence = self.p.db.occurrences.keys().next().copied().unwrap_or(0);
        st.records = self.p.db.tables.keys().map(|t| (*t, vec![])).collect();
        st.found = self.p.db.occurrences.keys().map(|o| (*o, vec![])).collect();
        st.position = self.p.db.occurrences.keys().map(|o| (*o, Some(0))).collect();
        st.find = false;
        st.criteria.clear();
        st.shown.clear();
        st.vars = vec![BTreeMap::new()];
        if st.left.is_empty() {
            st.left.push(BTreeSet::new());
        }
    }

    /// Ends a test and starts the next one with nothing of the first.
    pub fn next_test(&mut self) -> Result<(), Outside> {
        if self.st.find {
            return Err("C12 find-kept");
        }
        let names: Vec<String> = self.st.vars[0].keys().cloned().collect();
        self.st.left[0].extend(names);
        let t = std::mem::take(&mut self.st.touched);
        self.st.dirty.extend(t);
        self.st.layout_kept = true;
        self.fresh();
        Ok(())
    }

    fn table(&self, o: usize) -> usize {
        self.p.db.occurrences[&o].1
    }

    fn touch(&mut self, o: usize) -> Result<(), Outside> {
        if self.st.layout_kept {
            return Err("C12 layout-kept");
        }
        let t = self.table(o);
        if self.st.dirty.contains(&t) {
            return Err("C12 records-kept");
        }
        self.st.touched.insert(t);
        Ok(())
    }

    /// Record an occurrence is on.
    fn current(&self, o: usize) -> Result<usize, Outside> {
        let f = &self.st.found[&o];
        if f.is_empty() {
            return Err("C13 no-record");
        }
        match self.st.position[&o] {
            Some(i) => Ok(f[i]),
            None => Err("position after a find without match or show all"),
        }
    }

    pub fn eval(&mut self, e: &Ex) -> Result<Val, Outside> {
        Ok(match e {
            Ex::Num(_, n) => Val::Num(*n),
            Ex::Lit(t) => {
                if !t.chars().any(|c| c.is_alphanumeric()) {
                    return Err("C09 blank-text");
                }
                Val::Text(t.clone())
            }
            Ex::Var(n) => {
                let d = self.st.vars.len() - 1;
                match self.st.vars[d].get(n) {
                    Some(v) => v.clone(),
                    None if self.st.left[d].contains(n) => return Err("C11 variables-kept"),
                    None => Val::Blank,
                }
            }
            Ex::Field(o, f) => {
                if self.st.find {
                    return Err("field read in find mode");
                }
                self.touch(*o)?;
                let r = self.current(*o)?;
                let cur = self.st.occurrence;
                if *o != cur && (self.table(*o) != self.table(cur) || self.current(cur)? != r) {
                    return Err("C13 other-occurrence");
                }
                self.st.records[&self.table(*o)][r].get(f).cloned().unwrap_or(Val::Blank)
            }
            Ex::Bin(op, a, b) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                match *op {
                    "+" | "-" | "*" | "/" => {
                        let (Val::Num(x), Val::Num(y)) = (x, y) else {
                            return Err("arithmetic on no number");
                        };
                        let r = match *op {
                            "+" => x + y,
                            "-" => x - y,
                            "*" => x * y,
                            _ => x / y,
                        };
                        if !r.is_finite() {
                            return Err("no finite number");
                        }
                        if r == 0.0 && r.is_sign_negative() {
                            return Err("negative zero");
                        }
                        Val::Num(r)
                    }
                    "&" => {
                        let t = x.show() + &y.show();
                        if t.len() > 2000 {
                            return Err("long text");
                        }
                        Val::Text(t)
                    }
                    "==" => Val::Bool(self.equal(x, y)?),
                    "!=" => Val::Bool(!self.equal(x, y)?),
                    _ => {
                        let o = match (&x, &y) {
                            (Val::Num(x), Val::Num(y)) => {
                                if digits(*x).is_none() || digits(*x) != digits(*y) {
                                    return Err("C09 number-order");
                                }
                                x.partial_cmp(y).unwrap()
                            }
                            (Val::Text(x), Val::Text(y)) if plain_text(x) && plain_text(y) => x.cmp(y),
                            _ => return Err("order of these values"),
                        };
                        Val::Bool(match *op {
                            "<" => o.is_lt(),
                            "<=" => o.is_le(),
                            ">" => o.is_gt(),
                            _ => o.is_ge(),
                        })
                    }
                }
            }
            Ex::Call(f, a) => {
                let Val::Num(x) = self.eval(a)? else {
                    return Err("function of no number");
                };
                match *f {
                    "Abs" => {
                        if (x as f32) as f64 != x || format!("{}", x as f32) != format!("{x}") {
                            return Err("C09 abs-precision");
                        }
                        Val::Num(x.abs())
                    }
                    "Acos" => {
                        if x.abs() > 1.0 {
                            return Err("no finite number");
                        }
                        Val::Num(x.acos())
                    }
                    "Char" => match char::from_u32(x as u32) {
                        Some(c) if x.fract() == 0.0 && x >= 32.0 && c != '"' => Val::Text(c.to_string()),
                        _ => return Err("no character"),
                    },
                    _ => panic!("function {f}"),
                }
            }
        })
    }

    fn equal(&self, x: Val, y: Val) -> Result<bool, Outside> {
        match (&x, &y) {
            (Val::Num(_), Val::Text(_)) | (Val::Text(_), Val::Num(_)) => Err("number compared with text"),
            (Val::Bool(_), Val::Bool(_)) => Ok(x == y),
            (Val::Bool(_), _) | (_, Val::Bool(_)) => Err("truth value compared"),
            _ => same_value(&x, &y),
        }
    }

    fn truth(&mut self, e: &Ex) -> Result<bool, Outside> {
        match self.eval(e)? {
            Val::Bool(b) => Ok(b),
            _ => Err("condition that is no comparison"),
        }
    }

    pub fn block(&mut self, b: &[Stmt]) -> Result<Flow, Outside> {
        for (i, st) in b.iter().enumerate() {
            match self.stmt(st)? {
                Flow::Next => {}
                Flow::Exit => {
                    if has_loop(&b[i + 1..]) {
                        return Err("C10 exit-before-loop");
                    }
                    return Ok(Flow::Exit);
                }
                Flow::Failed => return Ok(Flow::Failed),
            }
        }
        Ok(Flow::Next)
    }

    fn store(&mut self, v: Val) -> Result<Val, Outside> {
        if let Val::Bool(_) = v {
            return Err("C09 stored-truth");
        }
        Ok(v)
    }

    pub fn stmt(&mut self, st: &Stmt) -> Result<Flow, Outside> {
        self.st.steps += 1;
        if self.st.steps > 4000 {
            return Err("long run");
        }
        match st {
            Stmt::Noop => {}
            Stmt::SetVar(n, e) => {
                let v = self.eval(e)?;
                let v = self.store(v)?;
                self.st.vars.last_mut().unwrap().insert(n.clone(), v);
            }
            Stmt::Show(e) => {
                let v = self.eval(e)?;
                self.st.shown.push(v.show());
            }
            Stmt::Assert(e) => {
                if !self.truth(e)? {
                    return Ok(Flow::Failed);
                }
            }
            Stmt::SetField(o, f, e) => {
                let v = self.eval(e)?;
                let v = self.store(v)?;
                self.touch(*o)?;
                if self.st.find {
                    if v == Val::Blank {
                        return Err("criterion without value");
                    }
                    self.st.criteria.push((*o, *f, v));
                } else {
                    let r = self.current(*o)?;
                    let t = self.table(*o);
                    self.st.records.get_mut(&t).unwrap()[r].insert(*f, v);
                }
            }
            Stmt::New => {
                if self.st.find {
                    return Err("new request");
                }
                let o = self.st.occurrence;
                self.touch(o)?;
                let t = self.table(o);
                let recs = self.st.records.get_mut(&t).unwrap();
                recs.push(BTreeMap::new());
                let n = recs.len() - 1;
                if n > 60 {
                    return Err("long run");
                }
                for (k, x) in &self.p.db.occurrences {
                    if x.1 == t {
                        let f = self.st.found.get_mut(k).unwrap();
                        f.push(n);
                        let last = f.len() - 1;
                        self.st.position.insert(*k, Some(last));
                    }
                }
            }
            Stmt::Layout(e) => {
                let Val::Text(n) = self.eval(e)? else {
                    return Err("layout name that is no text");
                };
                if let Some(l) = self.p.db.layouts.iter().find(|l| l.0 == n) {
                    self.st.occurrence = l.1;
                    self.st.layout_kept = false;
                }
            }
            Stmt::Go(to, exit) => {
                if self.st.find {
                    return Err("request navigation");
                }
                let o = self.st.occurrence;
                self.touch(o)?;
                let n = self.st.found[&o].len();
                if n == 0 {
                    return Err("C13 no-record");
                }
                let at = self.st.position[&o];
                let known = |at: Option<usize>| at.ok_or("position after a find without match or show all");
                let new = match to {
                    To::First => 0,
                    To::Last => n - 1,
                    To::Next => (known(at)? + 1).min(n - 1),
                    To::Previous => known(at)?.saturating_sub(1),
                    To::Number(e) => match self.eval(e)? {
                        Val::Num(x) if digits(x).is_some() => (x as usize).min(n - 1),
                        _ => return Err("record number that is no number"),
                    },
                };
                self.st.position.insert(o, Some(new));
                if *exit && at == Some(new) {
                    return Ok(Flow::Exit);
                }
            }
            Stmt::Find => self.st.find = true,
            Stmt::Perform => {
                if !self.st.find {
                    return Err("find outside of find mode");
                }
                let o = self.st.occurrence;
                self.touch(o)?;
                let t = self.table(o);
                for c in &self.st.criteria {
                    if self.table(c.0) != t {
                        return Err("criterion of another table");
                    }
                }
                let mut hit = vec![];
                for (i, r) in self.st.records[&t].iter().enumerate() {
                    let mut any = false;
                    for (_, f, v) in &self.st.criteria {
                        any |= same_value(r.get(f).unwrap_or(&Val::Blank), v)?;
                    }
                    if any {
                        hit.push(i);
                    }
                }
                self.st.find = false;
                self.st.criteria.clear();
                if hit.is_empty() {
                    self.show_all(o);
                } else {
                    self.st.finds += 1;
                    self.st.found.insert(o, hit);
                    self.st.position.insert(o, Some(0));
                }
            }
            Stmt::ShowAll => {
                if self.st.find {
                    return Err("show all in find mode");
                }
                let o = self.st.occurrence;
                self.touch(o)?;
                self.show_all(o);
            }
            Stmt::ExitIf(e) => {
                if self.truth(e)? {
                    return Ok(Flow::Exit);
                }
            }
            Stmt::Call(e) => {
                let Val::Text(n) = self.eval(e)? else {
                    return Err("script name that is no text");
                };
                let p = self.p;
                let Some((_, body)) = p.scripts.iter().find(|x| x.0 == n) else {
                    return Err("C11 missing-script");
                };
                let depth = self.st.vars.len();
                if depth > 30 {
                    return Err("long run");
                }
                self.st.calls += 1;
                self.st.deepest = self.st.deepest.max(depth);
                self.st.vars.push(BTreeMap::new());
                if self.st.left.len() <= depth {
                    self.st.left.push(BTreeSet::new());
                }
                let f = self.block(body)?;
                let gone = self.st.vars.pop().unwrap();
                self.st.left[depth].extend(gone.into_keys());
                if f == Flow::Failed {
                    return Ok(f);
                }
            }
            Stmt::Loop(b) => {
                self.st.loops += 1;
                let me = self.st.loops;
                self.st.last_loop = me;
                loop {
                    match self.block(b)? {
                        Flow::Exit => break,
                        Flow::Failed => return Ok(Flow::Failed),
                        Flow::Next => {
                            if self.st.last_loop != me {
                                return Err("C10 loop-in-loop");
                            }
                            self.st.repeats += 1;
                            self.st.steps += 1;
                            if self.st.steps > 4000 {
                                return Err("long run");
                            }
                        }
                    }
                }
            }
            Stmt::If(br, last) => {
                self.st.ifs += 1;
                let more = br.len() > 1 || last.is_some();
                let mut chosen = None;
                for (i, (c, b)) in br.iter().enumerate() {
                    if self.truth(c)? {
                        chosen = Some(i);
                        break;
                    }
                    if has_if(b) {
                        return Err("C10 if-in-skipped-branch");
                    }
                    if i == 0 && more && (self.st.taken > 0 || self.st.stale) {
                        return Err("C10 else-in-branch");
                    }
                }
                let body = match chosen {
                    Some(i) => Some(&br[i].1),
                    None => last.as_ref(),
                };
                let later: Vec<&Vec<Stmt>> = match chosen {
                    Some(i) => br[i + 1..].iter().map(|x| &x.1).chain(last.iter()).collect(),
                    None => vec![],
                };
                self.st.branches += 1;
                if let Some(b) = body {
                    let ifs = self.st.ifs;
                    self.st.taken += 1;
                    let f = self.block(b)?;
                    self.st.taken -= 1;
                    match f {
                        Flow::Failed => return Ok(f),
                        Flow::Exit => {
                            if later.iter().any(|b| has_loop(b)) {
                                return Err("C10 exit-before-loop");
                            }
                            self.st.stale = true;
                            return Ok(f);
                        }
                        Flow::Next => {}
                    }
                    if !later.is_empty() {
                        if self.st.ifs != ifs {
                            return Err("C10 if-in-branch");
                        }
                        if later.iter().any(|b| has_if(b)) {
                            return Err("C10 if-in-skipped-branch");
                        }
                    }
                }
                self.st.stale = false;
            }
        }
        Ok(Flow::Next)
    }

    fn show_all(&mut self, o: usize) {
        let n = self.st.records[&self.table(o)].len();
        let all: Vec<usize> = (0..n).collect();
        if self.st.found[&o] != all {
            self.st.found.insert(o, all);
            self.st.position.insert(o, None);
        }
    }
}

/* -------------------------------------------------------------- generation */

/// How often each kind of statement comes up.
#[derive(Clone, Copy)]
pub struct Profile {
    pub set: usize,
    pub show: usize,
    pub assert: usize,
    /// assertions that may be false, percent
    pub fail: usize,
    pub field: usize,
    pub record: usize,
    pub layout: usize,
    pub go: usize,
    pub find: usize,
    pub call: usize,
    pub block: usize,
    pub noop: usize,
    pub expr: usize,
    pub depth: usize,
}

pub fn text(s: &mut Source, plain: bool) -> String {
    let n = s.size(1, 9);
    let mut t: String = String::new();
    for _ in 0..n {
        t.push(match s.weighted(if plain { &[5, 1] } else { &[5, 1, 2, 2, 1] }) {
            0 => (b'a' + s.below(26) as u8) as char,
            1 => (b'0' + s.below(10) as u8) as char,
            2 => ' ',
            3 => *s.pick(&[',', ';', '(', ')', '[', ']', '{', '}', '+', '-', '*', '/', '&', '=', '<', '>', '!', ':', '\'', '%', '\\', '.', '_', '$', '#', '@']),
            _ => *s.pick(&['é', 'ß', '名', 'Ω', 'Z', 'Q']),
        });
    }
    if !t.chars().any(|c| c.is_alphanumeric()) {
        t.push('k');
    }
    t
}

/// What a generated expression may refer to.
#[derive(Clone)]
struct Names {
    num: Vec<String>,
    text: Vec<String>,
    /// set so far
    set: BTreeSet<String>,
    /// counters of enclosing loops
    counters: Vec<String>,
}

struct Gen<'a> {
    db: &'a Db,
    scripts: Vec<String>,
    prof: Profile,
    /// fields holding numbers; the others hold texts
    numeric: BTreeSet<(usize, usize)>,
    cur: usize,
}

impl Gen<'_> {
    fn number(&self, s: &mut Source) -> Ex {
        match s.weighted(&[6, 2, 1, 1]) {
            0 => num(s.int(0, 20)),
            1 => num(s.int(0, 1000)),
            2 => {
                let t = format!("{}.{}", s.int(0, 40), s.pick(&["5", "25", "0", "125", "1", "07"]));
                let v = t.parse().unwrap();
                Ex::Num(t, v)
            }
            _ => {
                let t = s.pick(&["007", "1e3", ".5", "2.", "100000000", "4294967296", "0.001", "123456789012", "3e-2x"]).trim_end_matches('x').replace("e-2", "");
                let v = t.parse().unwrap();
                Ex::Num(t, v)
            }
        }
    }

    fn fields(&self, numeric: bool) -> Vec<usize> {
        if self.db.occurrences.is_empty() {
            return vec![];
        }
        let t = self.db.occurrences[&self.cur].1;
        self.db.fields_of(self.cur).into_iter().filter(|f| self.numeric.contains(&(t, *f)) == numeric).collect()
    }

    fn leaf(&self, s: &mut Source, n: &Names, numeric: bool) -> Ex {
        let pool: Vec<&String> = if numeric { n.num.iter().chain(&n.counters) } else { n.text.iter().chain(&[]) }.filter(|v| n.set.contains(*v)).collect();
        let fields = self.fields(numeric);
        if !fields.is_empty() && s.chance(25) {
            return Ex::Field(self.cur, *s.pick(&fields));
        }
        if !pool.is_empty() && s.chance(55) {
            return Ex::Var((*s.pick(&pool)).clone());
        }
        if numeric {
            return self.number(s);
        }
        let mut t = text(s, false);
        if s.below(400) == 399 {
            let n = s.int(30, 1500);
            t = t.chars().cycle().take(n).collect();
        }
        Ex::Lit(t)
    }

    /// A sum or a text of up to a hundred terms.
    fn chain(&self, s: &mut Source, n: &Names, numeric: bool) -> Ex {
        let mut e = self.leaf(s, n, numeric);
        let terms = s.int(8, 100);
        for _ in 0..terms {
            let t = self.leaf(s, n, numeric);
            let op = if numeric { *s.pick(&["+", "-"]) } else { "&" };
            e = bin(op, e, t);
        }
        e
    }

    /// Statements that can stand anywhere.
    fn plain(&self, s: &mut Source, n: usize) -> Vec<Stmt> {
        (0..n)
            .map(|_| if s.chance(60) { Stmt::Noop } else { Stmt::Show(lit(&format!("@@dp{}", s.int(0, 999)))) })
            .collect()
    }

    fn num(&self, s: &mut Source, n: &Names, depth: usize, tail: bool) -> Ex {
        if depth == 0 || s.chance(25) {
            return self.leaf(s, n, true);
        }
        if tail && s.chance(8) {
            let f = *s.pick(&["Abs", "Abs", "Acos"]);
            let a = self.num(s, n, depth - 1, true);
            return Ex::Call(f, Box::new(a));
        }
        let op = *s.pick(&["+", "-", "*", "+", "-", "/", "*"]);
        let a = self.num(s, n, depth - 1, false);
        let b = self.num(s, n, depth - 1, tail);
        bin(op, a, b)
    }

    fn text(&self, s: &mut Source, n: &Names, depth: usize, tail: bool) -> Ex {
        if depth == 0 || s.chance(25) {
            return self.leaf(s, n, false);
        }
        if tail && s.chance(8) {
            let c = s.pick(&['A', 'b', '7', 'é', '名', '-', '(', 'z', ' ']);
            return Ex::Call("Char", Box::new(num(*c as usize)));
        }
        let a = self.any(s, n, depth - 1, false);
        let b = self.any(s, n, depth - 1, tail);
        bin("&", a, b)
    }

    fn any(&self, s: &mut Source, n: &Names, depth: usize, tail: bool) -> Ex {
        match s.weighted(&[5, 5, 1, 1]) {
            0 => self.text(s, n, depth, tail),
            1 => self.num(s, n, depth, tail),
            2 if depth > 0 => self.cond(s, n, depth - 1, tail),
            3 => {
                // perhaps a variable without value
                let all: Vec<&String> = n.num.iter().chain(&n.text).collect();
                Ex::Var((*s.pick(&all)).clone())
            }
            _ => self.leaf(s, n, true),
        }
    }

    fn cond(&self, s: &mut Source, n: &Names, depth: usize, tail: bool) -> Ex {
        match s.weighted(&[6, 3, 1, 1]) {
            0 => {
                let op = *s.pick(&["==", "!=", "<", "<=", ">", ">=", "==", "!="]);
                let a = self.num(s, n, depth, false);
                // often the same or a near value
                let b = match s.below(4) {
                    0 => a.clone(),
                    1 => match &a {
                        Ex::Var(_) | Ex::Field(..) => num(s.int(0, 9)),
                        Ex::Num(_, v) if digits(*v).is_some() => num(*v as usize + s.below(3)),
                        _ => self.num(s, n, depth, tail),
                    },
                    _ => self.num(s, n, depth, tail),
                };
                let b = if tail { b } else { no_calls(b) };
                bin(op, no_calls(a), b)
            }
            1 => {
                let op = *s.pick(&["==", "!=", "==", "!=", "<", ">="]);
                if op == "<" || op == ">=" {
                    return bin(op, Ex::Lit(text(s, true)), Ex::Lit(text(s, true)));
                }
                let a = self.text(s, n, depth, false);
                let b = if s.chance(40) { a.clone() } else { self.text(s, n, depth, tail) };
                bin(op, no_calls(a), if tail { b } else { no_calls(b) })
            }
            2 if depth > 0 => {
                let a = self.cond(s, n, depth - 1, false);
                let b = self.cond(s, n, depth - 1, false);
                bin(if s.chance(50) { "==" } else { "!=" }, a, b)
            }
            _ => {
                let k = s.int(0, 9);
                bin(if s.chance(50) { "==" } else { "!=" }, num(k), num(k))
            }
        }
    }

    fn shown(&self, s: &mut Source, n: &Names) -> Stmt {
        if s.below(250) == 249 {
            let numeric = s.chance(50);
            let e = self.chain(s, n, numeric);
            return Stmt::Show(bin("&", lit("@@d"), e));
        }
        let e = self.any(s, n, self.prof.expr, true);
        Stmt::Show(bin("&", lit("@@d"), e))
    }

    /// One statement, or a few that belong together.
    fn group(&mut self, s: &mut Source, n: &mut Names, depth: usize, in_loop: bool) -> Vec<Stmt> {
        let p = self.prof;
        let db = if self.db.occurrences.is_empty() { 0 } else { 1 };
        let has_scripts = usize::from(!self.scripts.is_empty());
        let k = s.weighted(&[
            p.set,
            p.show,
            p.assert,
            p.field * db,
            p.record * db,
            p.layout * db,
            p.go * db,
            p.find * db,
            p.call * has_scripts,
            if depth > 0 { p.block } else { 0 },
            p.noop,
            if in_loop { 1 } else { 0 },
        ]);
        match k {
            0 => {
                let numeric = s.chance(60);
                let e = if numeric { self.num(s, n, p.expr, true) } else { self.text(s, n, p.expr, true) };
                let v = s.pick(if numeric { &n.num } else { &n.text }).clone();
                n.set.insert(v.clone());
                vec![Stmt::SetVar(v, e)]
            }
            1 => vec![self.shown(s, n)],
            2 => {
                let c = self.cond(s, n, p.expr.min(2), true);
                vec![Stmt::Assert(c)]
            }
            3 => {
                let occs: Vec<usize> = self.db.occurrences.keys().copied().collect();
                let o = if s.chance(75) { self.cur } else { *s.pick(&occs) };
                let f = *s.pick(&self.db.fields_of(o));
                let numeric = self.numeric.contains(&(self.db.occurrences[&o].1, f));
                let e = if numeric {
                    if s.chance(50) { num(s.int(0, 5)) } else { self.num(s, n, p.expr.min(2), true) }
                } else if s.chance(50) {
                    Ex::Lit(s.pick(&["red", "green", "a b", "x, y"]).to_string())
                } else {
                    self.text(s, n, p.expr.min(2), true)
                };
                vec![Stmt::SetField(o, f, e)]
            }
            4 => {
                if !in_loop && depth > 0 && s.below(80) == 79 {
                    return self.many_records(s, n);
                }
                let mut v = vec![Stmt::New];
                for f in self.db.fields_of(self.cur) {
                    if s.chance(70) {
                        let t = self.db.occurrences[&self.cur].1;
                        let e = if self.numeric.contains(&(t, f)) { num(s.int(0, 5)) } else { Ex::Lit(s.pick(&["red", "green", "a b", "x, y"]).to_string()) };
                        v.push(Stmt::SetField(self.cur, f, e));
                    }
                }
                v
            }
            5 => {
                if s.chance(8) {
                    return vec![Stmt::Layout(lit("no such layout"))];
                }
                let l = s.pick(&self.db.layouts).clone();
                self.cur = l.1;
                let chars: Vec<char> = l.0.chars().collect();
                let cut = s.int(0, chars.len());
                let (a, b): (String, String) = (chars[..cut].iter().collect(), chars[cut..].iter().collect());
                let alnum = |t: &str| t.chars().any(|c| c.is_alphanumeric());
                if alnum(&a) && alnum(&b) && s.chance(30) {
                    return vec![Stmt::Layout(bin("&", lit(&a), lit(&b)))];
                }
                vec![Stmt::Layout(lit(&l.0))]
            }
            6 => vec![match s.below(7) {
                0 => Stmt::Go(To::First, false),
                1 => Stmt::Go(To::Last, false),
                2 => Stmt::Go(To::Next, in_loop && s.chance(50)),
                3 => Stmt::Go(To::Previous, in_loop && s.chance(20)),
                4 => Stmt::Go(To::Number(num(s.int(0, 8))), false),
                5 => Stmt::Go(To::Number(self.num(s, n, 1, true)), false),
                _ => Stmt::ShowAll,
            }],
            7 => {
                let mut v = vec![Stmt::Find];
                while s.more(v.len() - 1, 0, 4, 2) {
                    let occs: Vec<usize> = self.db.occurrences.iter().filter(|x| x.1 .1 == self.db.occurrences[&self.cur].1).map(|x| *x.0).collect();
                    let o = if s.chance(85) { self.cur } else { *s.pick(&occs) };
                    let f = *s.pick(&self.db.fields_of(o));
                    let t = self.db.occurrences[&o].1;
                    let e = if self.numeric.contains(&(t, f)) {
                        num(s.int(0, 5))
                    } else if s.chance(80) {
                        Ex::Lit(s.pick(&["red", "green", "a b", "x, y"]).to_string())
                    } else {
                        bin("&", lit("a"), lit(" b"))
                    };
                    v.push(Stmt::SetField(o, f, e));
                }
                v.push(Stmt::Perform);
                if s.chance(40) {
                    v.push(Stmt::Go(if s.chance(70) { To::First } else { To::Last }, false));
                }
                v
            }
            8 => {
                let name = if s.chance(35) { self.scripts[self.scripts.len() - 1].clone() } else { s.pick(&self.scripts).clone() };
                let chars: Vec<char> = name.chars().collect();
                if chars.len() > 1 && s.chance(25) {
                    let cut = s.int(1, chars.len() - 1);
                    let (a, b): (String, String) = (chars[..cut].iter().collect(), chars[cut..].iter().collect());
                    return vec![Stmt::Call(bin("&", lit(&a), lit(&b)))];
                }
                vec![Stmt::Call(lit(&name))]
            }
            9 => {
                if s.chance(55) {
                    let mut br = vec![];
                    while s.more(br.len(), 1, 4, 1) {
                        let c = self.cond(s, n, p.expr.min(2), true);
                        br.push((c, self.body(s, n, depth - 1, in_loop)));
                    }
                    if s.below(200) == 199 {
                        // many branches more
                        let more = s.int(4, 60);
                        for _ in 0..more {
                            let (j, k) = (s.int(0, 9), s.int(0, 60));
                            let at = s.below(br.len() + 1);
                            let k = if k > 9 { j } else { k };
                            let b = self.plain(s, 1);
                            br.insert(at, (bin("!=", num(j), num(k)), b));
                        }
                    }
                    let last = if s.chance(50) { Some(self.body(s, n, depth - 1, in_loop)) } else { None };
                    return vec![Stmt::If(br, last)];
                }
                self.looping(s, n, depth, in_loop)
            }
            10 => vec![Stmt::Noop],
            _ => {
                let c = self.cond(s, n, 1, true);
                vec![Stmt::ExitIf(c)]
            }
        }
    }

    /// A loop that creates up to some hundred records.
    fn many_records(&mut self, s: &mut Source, n: &Names) -> Vec<Stmt> {
        let c = "counter_of_records".to_string();
        if n.num.contains(&c) || n.text.contains(&c) {
            return vec![Stmt::New];
        }
        let t = self.db.occurrences[&self.cur].1;
        let mut b = vec![Stmt::New];
        for f in self.db.fields_of(self.cur) {
            if s.chance(70) {
                let e = if self.numeric.contains(&(t, f)) { var(&c) } else { bin("&", lit("r"), var(&c)) };
                b.push(Stmt::SetField(self.cur, f, e));
            }
        }
        b.push(Stmt::SetVar(c.clone(), bin("+", var(&c), num(1))));
        b.push(Stmt::ExitIf(bin("==", var(&c), num(s.int(9, 300)))));
        vec![Stmt::SetVar(c, num(0)), Stmt::Loop(b)]
    }

    fn looping(&mut self, s: &mut Source, n: &mut Names, depth: usize, in_loop: bool) -> Vec<Stmt> {
        match s.weighted(&[6, 2, 1]) {
            1 if !self.db.occurrences.is_empty() => {
                let mut b = self.body(s, n, depth - 1, true);
                let at = s.int(0, b.len());
                b.insert(at, Stmt::Go(To::Next, true));
                vec![Stmt::Go(To::First, false), Stmt::Loop(b)]
            }
            2 => {
                let mut b = self.body(s, n, depth - 1, true);
                let at = s.int(0, b.len());
                let k = s.int(0, 9);
                b.insert(at, Stmt::ExitIf(bin("==", num(k), num(k))));
                vec![Stmt::Loop(b)]
            }
            _ => {
                let c = format!("i{}", n.counters.len());
                let c = if n.num.contains(&c) || n.text.contains(&c) { format!("{c}_c") } else { c };
                let from = s.int(0, 2);
                let rounds = if n.counters.is_empty() && !in_loop && s.below(150) == 149 { s.int(6, 400) } else { s.int(0, 5) };
                n.set.insert(c.clone());
                n.counters.push(c.clone());
                let mut b = self.body(s, n, depth - 1, true);
                n.counters.pop();
                let at = s.int(0, b.len());
                b.insert(at, Stmt::SetVar(c.clone(), bin("+", var(&c), num(1))));
                let at = s.int(0, b.len());
                let e = Stmt::ExitIf(bin("==", var(&c), num(from + rounds)));
                if s.chance(15) {
                    // the exit inside a branch
                    b.insert(at, Stmt::If(vec![(bin("==", var(&c), num(from + rounds)), vec![Stmt::ExitIf(bin("!=", var(&c), num(99)))])], None));
                } else {
                    b.insert(at, e);
                }
                vec![Stmt::SetVar(c, num(from)), Stmt::Loop(b)]
            }
        }
    }

    fn body(&mut self, s: &mut Source, n: &mut Names, depth: usize, in_loop: bool) -> Vec<Stmt> {
        let mut b = vec![];
        let mut k = 0;
        // what is set in a branch may not be set afterwards
        let before = n.set.clone();
        while s.more(k, 0, 6, 2) {
            k += 1;
            let g = self.group(s, n, depth, in_loop);
            b.extend(g);
        }
        if s.below(200) == 199 {
            // far longer
            let many = s.int(20, 150);
            let p = self.plain(s, many);
            let at = s.below(b.len() + 1);
            b.splice(at..at, p);
        }
        n.set = before;
        b
    }
}

/// Functions only at the end of an expression (C09 call-before-operator).
fn no_calls(e: Ex) -> Ex {
    match e {
        Ex::Call(_, a) => no_calls(*a),
        Ex::Bin(o, a, b) => Ex::Bin(o, Box::new(no_calls(*a)), Box::new(no_calls(*b))),
        e => e,
    }
}

fn variable(s: &mut Source, taken: &[String]) -> String {
    loop {
        let mut t = match s.weighted(&[4, 1, 1]) {
            0 => s.pick(&["x", "y", "total", "n", "name", "count", "a1", "value", "true"]).to_string(),
            1 => burn::identifier(s),
            _ => format!("${}", burn::identifier(s)),
        };
        while taken.contains(&t) || t.parse::<f64>().is_ok() {
            t.push('v');
        }
        return t;
    }
}

pub struct Made {
    pub p: Program,
    /// shown texts and outcome of each test
    pub want: Vec<(Vec<String>, bool)>,
    pub end: State,
    pub left_out: BTreeMap<Outside, usize>,
    pub size: usize,
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub prof: Profile,
    pub db: bool,
    pub scripts: usize,
    pub tests: usize,
    pub avg: usize,
    pub max: usize,
    pub names: bool,
    /// scripts hold only what a database file stores
    pub stored: bool,
}

/// A program that is run whole by the interpreter.
pub fn make(s: &mut Source, sh: &Shape) -> Made {
    let mut p = Program::default();
    if sh.db {
        p.db = if sh.tests > 1 { gen_db(s, 3, 4) } else { gen_db(s, 2, 3) };
    }
    let mut numeric = BTreeSet::new();
    for (t, (_, fields)) in &p.db.tables {
        for f in fields.keys() {
            if s.chance(50) {
                numeric.insert((*t, *f));
            }
        }
    }
    let mut names = Names { num: vec![], text: vec![], set: BTreeSet::new(), counters: vec![] };
    let mut all: Vec<String> = vec![];
    for i in 0..5 {
        let v = variable(s, &all);
        all.push(v.clone());
        if i < 3 {
            names.num.push(v);
        } else {
            names.text.push(v);
        }
    }
    // now and then far more scripts or tests
    let large = s.weighted(&[96, 2, 2]);
    let sh = &Shape {
        scripts: if large == 1 && sh.scripts > 0 { 40 } else { sh.scripts },
        tests: if large == 2 && sh.tests > 1 { 20 } else { sh.tests },
        avg: if large == 2 && sh.tests > 1 { 2 } else { sh.avg },
        ..*sh
    };
    // scripts
    let mut script_names: Vec<String> = vec![];
    while sh.scripts > 0 && s.more(script_names.len(), 1, 2 * sh.scripts, sh.scripts) {
        let mut t = if sh.names && large != 1 && s.chance(30) { text(s, false) } else { burn::identifier(s) };
        if !t.chars().any(|c| c.is_alphanumeric()) {
            t.push('s');
        }
        while script_names.contains(&t) {
            t.push('x');
        }
        script_names.push(t);
    }
    let first = p.db.occurrences.keys().next().copied().unwrap_or(0);
    let db = p.db.clone();
    let mut g = Gen { db: &db, scripts: vec![], prof: sh.prof, numeric, cur: first };
    // a script mostly calls scripts defined before it, so that runs end
    for i in 0..script_names.len() {
        g.scripts = script_names[..i].to_vec();
        if s.chance(8) {
            g.scripts.push(script_names[i].clone());
        }
        let mut n = names.clone();
        let mut b = vec![];
        let mut k = 0;
        // mostly statements that run on their own
        let runs = s.chance(80);
        let mut it = p.clone();
        it.scripts.push((script_names[i].clone(), vec![]));
        while s.more(k, 0, 7, 3) {
            k += 1;
            let (cur, mut m) = (g.cur, n.clone());
            let mut st = g.group(s, &mut m, sh.prof.depth.min(2), false);
            if sh.stored {
                st = crate::stored::storable(s, st);
            }
            if runs {
                let had = it.scripts[i].1.len();
                it.scripts[i].1.extend(st.iter().cloned());
                let mut dry = Interp::new(&it);
                match dry.stmt(&Stmt::Call(lit(&script_names[i]))) {
                    Ok(Flow::Failed) | Err(_) => {
                        it.scripts[i].1.truncate(had);
                        g.cur = cur;
                        continue;
                    }
                    Ok(_) => {}
                }
            }
            n = m;
            b.extend(st);
        }
        p.scripts.push((script_names[i].clone(), b));
    }
    g.scripts = script_names;
    // tests
    let mut left_out: BTreeMap<Outside, usize> = BTreeMap::new();
    let mut want = vec![];
    let mut size = 0;
    let frozen = p.clone();
    let mut it = Interp::new(&frozen);
    let mut total = 0;
    let mut count = 0;
    while count == 0 || s.more(count, 1, 2 * sh.tests - 1, sh.tests.saturating_sub(1)) {
        if count == 0 && sh.tests == 1 {
        } else if count > 0 {
            let mut next = it.clone();
            match next.next_test() {
                Ok(()) => it = next,
                Err(w) => {
                    *left_out.entry(w).or_insert(0) += 1;
                    break;
                }
            }
        }
        count += 1;
        g.cur = first;
        let mut n = names.clone();
        let mut body: Vec<Stmt> = vec![];
        let mut k = 0;
        let mut failed = false;
        if count > 1 && sh.db {
            // leave the layout of the earlier test
            let free: Vec<(String, usize)> = p.db.layouts.iter().filter(|l| !it.st.dirty.contains(&p.db.occurrences[&l.1].1)).cloned().collect();
            if !free.is_empty() {
                let l = s.pick(&free).clone();
                g.cur = l.1;
                let st = Stmt::Layout(lit(&l.0));
                let _ = it.stmt(&st);
                body.push(st);
            }
        }
        while !failed && s.more(k, 2, sh.max, sh.avg) {
            k += 1;
            let cur = g.cur;
            let mut m = n.clone();
            let group = if sh.names && k == 1 && s.chance(80) {
                vec![Stmt::Call(lit(&s.pick(&g.scripts).clone()))]
            } else {
                g.group(s, &mut m, sh.prof.depth, false)
            };
            let mut next = it.clone();
            let can_fail = s.chance(sh.prof.fail);
            match next.block(&group) {
                Ok(Flow::Failed) if !can_fail => {
                    g.cur = cur;
                }
                Ok(f) => {
                    total += group.len();
                    body.extend(group);
                    it = next;
                    n = m;
                    failed = f == Flow::Failed;
                }
                Err(w) => {
                    *left_out.entry(w).or_insert(0) += 1;
                    g.cur = cur;
                }
            }
            // where the run is now decides what is read next
            if sh.db {
                g.cur = it.st.occurrence;
            }
        }
        if failed {
            // never reached
            body.push(Stmt::Show(lit("@@d after the end")));
        }
        size += total;
        want.push((it.st.shown.clone(), !failed));
        let mut name = burn::identifier(s);
        while p.tests.iter().any(|t| t.0 == name) && s.chance(90) {
            name.push('t');
        }
        p.tests.push((name, body));
        if failed {
            break;
        }
    }
    let end = it.st.clone();
    drop(it);
    Made { p, want, end, left_out, size }
}

/* ---------------------------------------------------------------- running */

/// The program as compiled from source, or built step by step, together with
/// the schema read from a file or built.
pub struct Ready {
    pub file: fm::FmpFile,
    pub source: Option<String>,
    pub from_file: bool,
}

pub fn prepare(s: &mut Source, ctx: &Ctx, p: &Program, prefer_source: bool) -> Result<Ready, String> {
    let (mut file, from_file) = if !p.db.tables.is_empty() && s.chance(50) {
        let c = p.db.content(s);
        let (f, _, _) = fmp::file(s, &c, 1);
        (schema::decompile(ctx, &f.bytes)?, true)
    } else {
        (p.db.file(s), false)
    };
    file.tests.clear();
    let plain = |t: &str| !t.is_empty() && !burn::KEYWORDS.contains(&t) && t.chars().all(|c| c.is_alphanumeric() || c == '_') && !t.starts_with(|c: char| c.is_ascii_digit());
    let writable = p.scripts.iter().all(|x| plain(&x.0)) && p.tests.iter().all(|x| plain(&x.0));
    let source = if writable && (prefer_source || s.chance(60)) {
        let l = Layout::pick(s);
        let mut text = String::new();
        let mut pieces: Vec<burn::Decl> = vec![];
        let mut scripts = vec![];
        for (n, b) in &p.scripts {
            scripts.push(burn::Script { name: n.clone(), params: vec![], body: whole(s, &p.db, b) });
        }
        if !scripts.is_empty() {
            let cut = if s.chance(30) { s.int(0, scripts.len()) } else { 0 };
            let rest = scripts.split_off(cut);
            if !scripts.is_empty() {
                pieces.push(burn::Decl::Scripts(scripts));
            }
            if !rest.is_empty() {
                pieces.push(burn::Decl::Scripts(rest));
            }
        }
        let mut tests = vec![];
        for (n, b) in &p.tests {
            let name = if s.chance(50) { n.clone() } else { burn::identifier(s) };
            tests.push(burn::Decl::Test(n.clone(), burn::Script { name, params: vec![], body: whole(s, &p.db, b) }));
        }
        // tests stay in order; scripts may be declared before, between or after
        let mut order: Vec<burn::Decl> = tests;
        for d in pieces {
            let at = s.int(0, order.len());
            order.insert(at, d);
        }
        for d in &order {
            burn::render_decl(s, &l, d, &mut text);
            text.push_str(&l.gap(s));
        }
        let c = guard(|| fm::compile_burn(&text)).map_err(|e| format!("compiling {e}\n{text}"))?;
        file.tests = c.tests;
        file.scripts = c.scripts;
        Some(text)
    } else {
        for (i, (n, b)) in p.scripts.iter().enumerate() {
            let w = whole(s, &p.db, b);
            file.scripts.insert(i * 2 + 1, direct(s, n, &w, true));
        }
        for (n, b) in &p.tests {
            let w = whole(s, &p.db, b);
            let mut t = fm::FMComponentTest::new();
            t.test_name = n.clone();
            let script_name = if s.chance(50) { n } else { "" };
            t.script = direct(s, script_name, &w, true);
            file.tests.push(t);
        }
        None
    };
    Ok(Ready { file, source, from_file })
}

pub fn listing(f: &fm::FmpFile) -> String {
    let mut t = String::new();
    for (n, sc) in f.scripts.values().map(|x| (format!("script {}", x.script_name), x)).chain(f.tests.iter().map(|x| (format!("test {}", x.test_name), &x.script))) {
        t.push_str(&format!("{n}:\n"));
        for i in &sc.instructions {
            t.push_str(&format!("  {:?} {}\n", i.opcode, i.switches.join(", ")));
        }
    }
    t
}

pub fn describe(p: &Program, r: &Ready) -> String {
    let mut t = String::new();
    if !p.db.tables.is_empty() {
        t.push_str(&format!(
            "tables {:?}\noccurrences {:?}\nlayouts {:?}\nrelationships {:?}\n",
            p.db.tables, p.db.occurrences, p.db.layouts, p.db.relations
        ));
    }
    match &r.source {
        Some(x) => t.push_str(x),
        None => t.push_str(&listing(&r.file)),
    }
    t
}

pub fn shown_lines(out: &str) -> Vec<String> {
    out.lines()
        .filter_map(|l| l.strip_prefix("\"@@d").map(|t| format!("@@d{}", t.strip_suffix('"').unwrap_or(t))))
        .collect()
}

/// Runs one test to its end, at most `bound` steps.
pub fn drive(te: &mut fm::TestEnvironment, test: fm::FMComponentTest, bound: usize) -> Res {
    te.load_test(test);
    let mut n = 0;
    while te.test_state == fm::TestState::Pass && !te.instruction_ptr.is_empty() {
        if n > bound {
            return Err(format!("still running after {n} steps"));
        }
        n += 1;
        te.step();
    }
    Ok(())
}

pub fn differ(what: &str, want: &[String], got: &[String]) -> Res {
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => return Err(format!("{what}: the run shows {} of {} texts; the next is {w:?}", got.len(), want.len())),
            Some(g) if g != w => return Err(format!("{what}: text {i} shown is {g:?}, it should be {w:?}")),
            _ => {}
        }
    }
    if got.len() > want.len() {
        return Err(format!("{what}: shows {:?} beyond its {} texts", got[want.len()], want.len()));
    }
    Ok(())
}

/// Compares what a run left in the tables and occurrences.
pub fn same_database(p: &Program, te: &fm::TestEnvironment, end: &State) -> Res {
    for (t, (name, fields)) in &p.db.tables {
        let got = te.database.tables.get(*t).ok_or(format!("table {name} does not exist"))?;
        for (f, fname) in fields {
            let want: Vec<String> = end.records[t].iter().map(|r| r.get(f).unwrap_or(&Val::Blank).stored()).collect();
            let got = got.fields.get(*f).map(|x| x.records.clone()).unwrap_or_default();
            if want != got {
                return Err(format!("field {fname} of table {name} holds {got:?}, it should hold {want:?}"));
            }
        }
    }
    for (o, (name, _)) in &p.db.occurrences {
        let got = &te.database.table_occurrences[*o];
        if got.found_set != end.found[o] {
            return Err(format!("occurrence {name} shows the records {:?}, it should show {:?}", got.found_set, end.found[o]));
        }
        if let (false, Some(at)) = (end.found[o].is_empty(), end.position[o]) {
            if got.record_ptr != at {
                return Err(format!("occurrence {name} is at {}, it should be at {at}", got.record_ptr));
            }
        }
    }
    Ok(())
}

/// Runs a program of one test and compares everything.
fn single(s: &mut Source, ctx: &mut Ctx, sh: &Shape) -> Result<(Made, bool), String> {
    let m = make(s, sh);
    let r = prepare(s, ctx, &m.p, false)?;
    let text = describe(&m.p, &r);
    ctx.case(text.as_bytes(), || text.clone());
    for w in m.left_out.keys() {
        ctx.label(&format!("left out a statement: {w}"));
    }
    ctx.label_if(r.source.is_some(), "compiled from source");
    ctx.label_if(r.from_file, "schema read from a file");
    if r.file.tests.len() != 1 {
        return Err(format!("{} tests in a program of one", r.file.tests.len()));
    }
    ctx.take_output();
    let mut te = fm::TestEnvironment::new(&r.file);
    guard(|| te.generate_test_environment()).map_err(|e| format!("preparing the run {e}"))?;
    let bound = m.end.steps * 6 + 200;
    let res = guard(|| drive(&mut te, r.file.tests[0].clone(), bound));
    let got = shown_lines(&ctx.take_output());
    let (want, pass) = &m.want[0];
    match res {
        Err(e) => {
            differ("before the end", &want[..got.len().min(want.len())], &got)?;
            return Err(format!("running {e}"));
        }
        Ok(Err(e)) => {
            differ("before the end", &want[..got.len().min(want.len())], &got)?;
            return Err(e);
        }
        Ok(Ok(())) => {}
    }
    differ("run", want, &got)?;
    let passed = te.test_state == fm::TestState::Pass;
    if passed != *pass {
        return Err(format!("the test {}, it should {}", if passed { "passes" } else { "fails" }, if *pass { "pass" } else { "fail" }));
    }
    if !m.p.db.tables.is_empty() {
        same_database(&m.p, &te, &m.end)?;
    }
    Ok((m, r.source.is_some()))
}

pub const BASE: Profile = Profile { set: 4, show: 4, assert: 2, fail: 20, field: 0, record: 0, layout: 0, go: 0, find: 0, call: 0, block: 0, noop: 0, expr: 2, depth: 0 };

pub const KNOWN: &str = "constructs listed in known_findings.txt for this property, recognised by the reference interpreter from what the program does, are left out statement by statement (counted under classes)";

fn c09_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let db = s.chance(40);
    let expr = *s.pick(&[2usize, 3, 4, 6]);
    let prof = Profile { set: 5, show: 8, assert: 4, expr, field: 3, record: 2, ..BASE };
    let sh = Shape { prof, db, scripts: 0, tests: 1, avg: 8, max: 30, names: false, stored: false };
    let (m, _) = single(s, ctx, &sh)?;
    ctx.nontrivial = m.want[0].0.len() >= 2;
    ctx.label_if(expr >= 4, "expressions nested four deep or more");
    ctx.label_if(!m.want[0].1, "false assertion");
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "A case is a test that sets variables and fields and shows and asserts generated expressions (all operators and functions, nested up to six deep, needed and redundant parentheses, varied spacing), compiled from source or built step by step; every shown value and the outcome are compared with a reference evaluator. Now and then texts of up to 1500 characters and chains of up to a hundred terms. Non-trivial: at least two values shown.",
        assumptions: &[
            KNOWN,
            "numbers are IEEE doubles shown in shortest form; no division by zero and no negative zero; a number is never compared with a text",
            "text order is compared for lower-case letters and digits only",
        ],
        quick: 240_000,
        thorough: 3_000_000,
        run: c09_case,
        exhaustive: None,
    }
}

fn c10_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let db = s.chance(35);
    let prof = Profile { set: 3, show: 5, assert: 1, block: s.int(6, 14), noop: 1, expr: 1, depth: s.int(1, 5), field: 1, record: 2, layout: 1, go: 1, find: 1, ..BASE };
    let sh = Shape { prof, db, scripts: 0, tests: 1, avg: 10, max: 28, names: false, stored: false };
    let (m, _) = single(s, ctx, &sh)?;
    ctx.nontrivial = m.end.branches >= 1 && m.end.repeats >= 1 && !m.want[0].0.is_empty();
    ctx.label_if(m.end.repeats >= 5, "five or more repetitions");
    ctx.label_if(m.end.repeats >= 100, "a hundred or more repetitions");
    ctx.label_if(m.end.branches >= 3, "three or more branches");
    ctx.label_if(!m.want[0].1, "false assertion");
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "A case is a terminating test with loops (counted, over records, with exits anywhere) and if / elif / else chains nested up to five deep, compiled from source or built step by step with comments between; everything it shows, its outcome, records and positions are compared with a reference interpreter. Now and then branches of over a hundred steps, chains of up to sixty branches, and loops of up to 400 rounds. Non-trivial: a branch is taken and a loop repeats.",
        assumptions: &[KNOWN, "conditions are comparisons; a go-to-record step with exit flag goes to the next or previous record"],
        quick: 200_000,
        thorough: 3_000_000,
        run: c10_case,
        exhaustive: None,
    }
}

fn c11_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let db = s.chance(35);
    let prof = Profile { set: 4, show: 5, assert: 1, block: 2, call: 6, noop: 1, expr: 1, depth: s.int(0, 2), field: 1, record: 2, layout: 1, go: 1, ..BASE };
    let sh = Shape { prof, db, scripts: s.int(1, 6), tests: 1, avg: 7, max: 20, names: true, stored: false };
    let (m, _) = single(s, ctx, &sh)?;
    ctx.nontrivial = m.end.calls >= 2 && !m.want[0].0.is_empty();
    ctx.label_if(m.end.deepest >= 2, "calls two deep or more");
    ctx.label_if(m.end.deepest >= 4, "calls four deep or more");
    ctx.label_if(m.p.scripts.len() > 20, "over twenty scripts");
    ctx.label_if(!m.want[0].1, "false assertion");
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "A case is a test and up to twelve scripts (2 % up to eighty) that perform each other from anywhere (names also put together by concatenation, now and then recursion), sharing variable names, compiled from source or built step by step; everything shown, the outcome, records and positions are compared with a reference interpreter. Non-trivial: at least two calls and one text shown.",
        assumptions: &[KNOWN, "script names are unique within a file"],
        quick: 160_000,
        thorough: 3_000_000,
        run: c11_case,
        exhaustive: None,
    }
}

fn c12_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let db = s.chance(40);
    let prof = Profile { set: 4, show: 4, assert: 4, fail: 25, block: 2, call: 2, expr: 1, depth: 1, field: 1, record: 2, layout: 1, go: 1, find: 1, ..BASE };
    let sh = Shape { prof, db, scripts: *s.pick(&[0usize, 2]), tests: 4, avg: 4, max: 12, names: false, stored: false };
    let m = make(s, &sh);
    let r = prepare(s, ctx, &m.p, true)?;
    let text = describe(&m.p, &r);
    ctx.case(text.as_bytes(), || text.clone());
    for w in m.left_out.keys() {
        ctx.label(&format!("left out a statement: {w}"));
    }
    ctx.nontrivial = m.want.len() >= 2 && m.want.iter().any(|w| !w.0.is_empty());
    ctx.label_if(m.want.len() >= 4, "four or more tests");
    ctx.label_if(m.want.len() > 12, "over twelve tests");
    ctx.label_if(m.want.iter().any(|w| !w.1), "false assertion");
    ctx.label_if(r.from_file, "schema read from a file");
    let want: Vec<(String, Vec<String>, Option<bool>)> = m.p.tests.iter().zip(&m.want).map(|(t, w)| (t.0.clone(), w.0.clone(), Some(w.1))).collect();
    let cleanup = s.chance(50);
    ctx.take_output();
    let mut te = fm::TestEnvironment::new(&r.file);
    guard(|| {
        te.generate_test_environment();
        if cleanup { te.run_tests_with_cleanup() } else { te.run_tests() }
    })
    .map_err(|e| format!("running the tests {e}"))?;
    let got = crate::cli::runs(&ctx.take_output());
    if got != want {
        return Err(format!("the run reports (name, shown, passed)\n{got:?}\nit should report\n{want:?}"));
    }
    // each one alone
    for (i, t) in r.file.tests.iter().enumerate() {
        let mut te = fm::TestEnvironment::new(&r.file);
        guard(|| {
            te.generate_test_environment();
            drive(&mut te, t.clone(), m.end.steps * 6 + 200)
        })
        .map_err(|e| format!("running test {i} alone {e}"))??;
        let shown = shown_lines(&ctx.take_output());
        differ(&format!("test {i} alone"), &m.want[i].0, &shown)?;
        if (te.test_state == fm::TestState::Pass) != m.want[i].1 {
            return Err(format!("test {i} alone has another outcome than expected: {:?}", te.test_state));
        }
    }
    Ok(())
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "A case is a file with one to seven tests (2 % up to 39) (variables, assertions true and false, blocks, calls, records, finds), run together through the test loop with or without cleanup, and each alone; names, order, shown texts and outcomes are compared with a reference interpreter that starts every test afresh. Non-trivial: at least two tests and one text shown.",
        assumptions: &[
            KNOWN,
            "a false assertion occurs in the last test only, later tests use other tables and no variable an earlier test has set before setting it themselves (known findings)",
        ],
        quick: 120_000,
        thorough: 2_000_000,
        run: c12_case,
        exhaustive: None,
    }
}

fn c13_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let prof = Profile { set: 1, show: 5, assert: 1, fail: 5, block: 1, call: 1, expr: 1, depth: 1, field: 5, record: 6, layout: 4, go: 5, find: 5, ..BASE };
    let sh = Shape { prof, db: true, scripts: *s.pick(&[0usize, 0, 1]), tests: 1, avg: 25, max: 60, names: false, stored: false };
    let (m, _) = single(s, ctx, &sh)?;
    let n: usize = m.end.records.values().map(|r| r.len()).sum();
    ctx.nontrivial = n >= 3 && (m.end.finds > 0 || !m.want[0].0.is_empty());
    ctx.label_if(m.end.finds > 0, "finds with a match");
    ctx.label_if(m.end.records.values().filter(|r| !r.is_empty()).count() > 1, "records in several tables");
    ctx.label_if(n >= 8, "eight or more records");
    ctx.label_if(n >= 50, "fifty or more records");
    Ok(())
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "A case is a schema of tables, occurrences and layouts, read from a synthesised database file or built, and a history of up to sixty steps over it (now and then a loop creating up to 300 records; create, set, switch layout, navigate, find, show all, blocks, calls), compiled from source or built step by step; values shown, all records of all tables, found sets and positions are compared with a reference database. Non-trivial: at least three records and a matching find or a shown value.",
        assumptions: &[
            KNOWN,
            "creating a record shows it in every occurrence of its table (as the code documents); record numbers start at 0 and are clamped",
            "the position after a find without match and after showing all records is not determined until the next absolute navigation; finds stay within one table",
        ],
        quick: 120_000,
        thorough: 2_000_000,
        run: c13_case,
        exhaustive: None,
    }
}
