//! C20: the inspection output holds the whole model.

use std::collections::BTreeMap;
use std::fmt::Debug;

use crate::burn::{self, Decl, Layout};
use crate::cli;
use crate::codec::any_text;
use crate::engine::{guard, Ctx, Prop, Res};
use crate::fmp::{self, Want};
use crate::opcodes::OPCODES;
use crate::schema;
use crate::source::Source;
use burn_fm_hooked::verif as fm;
use serde_json::Value;

fn text(s: &mut Source) -> String {
    let n = *s.pick(&[8usize, 8, 30, 0, 120]);
    let n = if s.below(1000) == 999 { s.int(1000, 9000) } else { s.size(0, n) };
    let t = match s.below(4) {
        0 => (0..n).map(|_| *s.pick(&['"', '\\', '\n', '\t', '\r', '\u{0}', '\u{1f}', '/', '{', '}', '\'', ',', ':', '<', '&', '\u{7f}', '\u{2028}'])).collect(),
        1 => (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect(),
        _ => any_text(s, n),
    };
    t
}

fn id(s: &mut Source) -> usize {
    match s.below(4) {
        0 => s.int(0, 10),
        1 => s.int(120, 300),
        2 => s.int(0, 65535),
        _ => s.raw() as usize,
    }
}

fn small_id(s: &mut Source) -> u16 {
    (id(s) & 0xffff) as u16
}

fn steps(s: &mut Source) -> Vec<fm::ScriptStep> {
    let mut v = vec![];
    let avg = *s.pick(&[2usize, 2, 12]);
    let (most, avg) = if s.chance(1) { (600, 150) } else { (40, avg) };
    while s.more(v.len(), 0, most, avg) {
        let name = s.pick(&OPCODES).1;
        let mut switches = vec![];
        let (most, avg) = if s.below(1000) == 999 { (200, 50) } else { (5, 1) };
        while s.more(switches.len(), 0, most, avg) {
            switches.push(text(s));
        }
        v.push(fm::ScriptStep { opcode: operation(name), index: id(s), switches });
    }
    v
}

/// The operation of a name.
fn operation(name: &str) -> fm::Instruction {
    thread_local! {
        static KNOWN: BTreeMap<&'static str, fm::Instruction> = OPCODES
            .iter()
            .filter_map(|(_, n)| Some((*n, serde_json::from_value(Value::String(n.to_string())).ok()?)))
            .collect();
    }
    KNOWN.with(|k| k.get(name).cloned()).unwrap_or(fm::Instruction::Loop)
}

fn script(s: &mut Source) -> fm::FMComponentScript {
    let mut c = fm::FMComponentScript::new();
    c.script_name = text(s);
    c.created_by_account = text(s);
    c.create_by_user = text(s);
    while s.more(c.arguments.len(), 0, 4, 1) {
        let t = text(s);
        c.arguments.push(t);
    }
    c.instructions = steps(s);
    c
}

/// A model with something in every place.
fn model(s: &mut Source) -> fm::FmpFile {
    let mut f = fm::FmpFile::new();
    f.name = text(s);
    let avg = *s.pick(&[1usize, 2, 4]);
    // now and then, hundreds of one kind
    let large = if s.chance(3) { 1 + s.below(10) } else { 0 };
    let big = |k: usize, most: usize, avg: usize| if large == k { (400, 100) } else { (most, avg) };
    let (most, avg_) = big(1, 8, avg);
    while s.more(f.tables.len(), 0, most, avg_) {
        let mut t = fm::FMComponentTable::new();
        t.table_name = text(s);
        t.created_by_account = text(s);
        t.create_by_user = text(s);
        t.init = s.chance(50);
        let (most, avg) = if f.tables.is_empty() { big(9, 8, 2) } else { (8, 2) };
        while s.more(t.fields.len(), 0, most, avg) {
            let mut d = fm::FMComponentField::new();
            d.data_type = text(s);
            d.field_description = text(s);
            d.field_name = text(s);
            d.field_type = text(s);
            d.created_by_account = text(s);
            d.created_by_user = text(s);
            t.fields.insert(small_id(s), d);
        }
        f.tables.insert(id(s), t);
    }
    let (most, avg_) = big(2, 8, avg);
    while s.more(f.relationships.len(), 0, most, avg_) {
        let mut r = fm::FMComponentRelationship::new();
        (r.table1, r.field1, r.table2, r.field2) = (small_id(s), small_id(s), small_id(s), small_id(s));
        r.table1_name = text(s);
        r.table2_name = text(s);
        use fm::RelationComparison::*;
        r.comparison = s.pick(&[Equal, NotEqual, Less, LessEqual, Greater, GreaterEqual, Cartesian]).clone();
        f.relationships.insert(id(s), r);
    }
    let (most, avg_) = big(3, 8, avg);
    while s.more(f.layouts.len(), 0, most, avg_) {
        let mut l = fm::FMComponentLayout::new();
        l.layout_name = text(s);
        l.table_occurrence = id(s);
        l.created_by_account = text(s);
        l.create_by_user = text(s);
        f.layouts.insert(id(s), l);
    }
    let (most, avg_) = big(4, 8, avg);
    while s.more(f.value_lists.len(), 0, most, avg_) {
        let mut l = fm::FMComponentValueList::new();
        l.list_name = text(s);
        l.created_by_account = text(s);
        l.create_by_user = text(s);
        f.value_lists.insert(id(s), l);
    }
    let (most, avg_) = big(5, 8, avg);
    while s.more(f.scripts.len(), 0, most, avg_) {
        let c = script(s);
        f.scripts.insert(id(s), c);
    }
    let (most, avg_) = big(6, 8, avg);
    while s.more(f.table_occurrences.len(), 0, most, avg_) {
        let mut o = fm::FMComponentTableOccurence::new();
        o.table_occurence_name = text(s);
        o.table_actual = small_id(s);
        o.table_actual_name = text(s);
        o.created_by_account = text(s);
        o.create_by_user = text(s);
        f.table_occurrences.insert(id(s), o);
    }
    let (most, avg_) = big(7, 8, avg);
    while s.more(f.data_sources.len(), 0, most, avg_) {
        let mut d = fm::FMComponentDataSource::new();
        d.source_name = text(s);
        d.source_location.source_type = text(s);
        d.source_location.source_path = text(s);
        d.source_location.source_filename = text(s);
        d.created_by_account = text(s);
        d.created_by_user = text(s);
        f.data_sources.insert(id(s), d);
    }
    let (most, avg_) = big(8, 8, avg);
    while s.more(f.tests.len(), 0, most, avg_) {
        let mut t = fm::FMComponentTest::new();
        t.test_name = text(s);
        t.script = script(s);
        t.created_by_account = text(s);
        t.create_by_user = text(s);
        let (most, avg) = if f.tests.is_empty() { big(10, 4, 1) } else { (4, 1) };
        while s.more(t.assertions.len(), 0, most, avg) {
            let x = text(s);
            t.assertions.push(x);
        }
        f.tests.push(t);
    }
    f
}

fn same<T: Debug>(what: &str, want: &BTreeMap<usize, T>, got: &BTreeMap<usize, T>) -> Res {
    for (k, w) in want {
        match got.get(k) {
            None => return Err(format!("{what} {k} is lost: {w:?}")),
            Some(g) if format!("{g:?}") != format!("{w:?}") => return Err(format!("{what} {k} is {w:?}, read back it is {g:?}")),
            _ => {}
        }
    }
    match got.keys().find(|k| !want.contains_key(*k)) {
        Some(k) => Err(format!("{what} {k} is invented")),
        None => Ok(()),
    }
}

/// Every text of a model.
fn texts(f: &fm::FmpFile) -> Vec<&String> {
    fn script<'a>(c: &'a fm::FMComponentScript, v: &mut Vec<&'a String>) {
        v.extend([&c.script_name, &c.created_by_account, &c.create_by_user]);
        v.extend(&c.arguments);
        v.extend(c.instructions.iter().flat_map(|i| &i.switches));
    }
    let mut v = vec![&f.name];
    for t in f.tables.values() {
        v.extend([&t.table_name, &t.created_by_account, &t.create_by_user]);
        for d in t.fields.values() {
            v.extend([&d.data_type, &d.field_description, &d.field_name, &d.field_type, &d.created_by_account, &d.created_by_user]);
        }
    }
    f.relationships.values().for_each(|r| v.extend([&r.table1_name, &r.table2_name]));
    f.layouts.values().for_each(|l| v.extend([&l.layout_name, &l.created_by_account, &l.create_by_user]));
    f.value_lists.values().for_each(|l| v.extend([&l.list_name, &l.created_by_account, &l.create_by_user]));
    f.scripts.values().for_each(|c| script(c, &mut v));
    f.table_occurrences
        .values()
        .for_each(|o| v.extend([&o.table_occurence_name, &o.table_actual_name, &o.created_by_account, &o.create_by_user]));
    f.data_sources.values().for_each(|d| {
        let l = &d.source_location;
        v.extend([&d.source_name, &l.source_type, &l.source_path, &l.source_filename, &d.created_by_account, &d.created_by_user])
    });
    for t in &f.tests {
        v.extend([&t.test_name, &t.created_by_account, &t.create_by_user]);
        v.extend(&t.assertions);
        script(&t.script, &mut v);
    }
    v
}

/// Every number and identifier of a model.
fn numbers(f: &fm::FmpFile) -> Vec<usize> {
    fn script(c: &fm::FMComponentScript, v: &mut Vec<usize>) {
        v.extend(c.instructions.iter().map(|i| i.index));
    }
    let mut v = vec![];
    for (k, t) in &f.tables {
        v.push(*k);
        v.extend(t.fields.keys().map(|k| *k as usize));
    }
    for (k, r) in &f.relationships {
        v.push(*k);
        v.extend([r.table1, r.field1, r.table2, r.field2].map(usize::from));
    }
    f.layouts.iter().for_each(|(k, l)| v.extend([*k, l.table_occurrence]));
    v.extend(f.value_lists.keys());
    for (k, c) in &f.scripts {
        v.push(*k);
        script(c, &mut v);
    }
    f.table_occurrences.iter().for_each(|(k, o)| v.extend([*k, o.table_actual as usize]));
    v.extend(f.data_sources.keys());
    f.tests.iter().for_each(|t| script(&t.script, &mut v));
    v
}

/// How often each text, number and truth value stands in the output.
#[derive(Default)]
struct Shown {
    texts: BTreeMap<String, usize>,
    numbers: BTreeMap<String, usize>,
    truths: [usize; 2],
}

fn shown(v: &Value, out: &mut Shown) {
    match v {
        Value::String(t) => *out.texts.entry(t.clone()).or_default() += 1,
        Value::Number(n) => *out.numbers.entry(n.to_string()).or_default() += 1,
        Value::Bool(b) => out.truths[*b as usize] += 1,
        Value::Array(a) => a.iter().for_each(|x| shown(x, out)),
        Value::Object(m) => m.iter().for_each(|(k, x)| {
            if k.bytes().all(|c| c.is_ascii_digit()) {
                *out.numbers.entry(k.clone()).or_default() += 1;
            }
            shown(x, out)
        }),
        _ => {}
    }
}

/// Every value of the model stands in the output, as often as in the model.
fn complete(f: &fm::FmpFile, json: &Value) -> Res {
    let mut got = Shown::default();
    shown(json, &mut got);
    let mut want = Shown::default();
    texts(f).into_iter().for_each(|t| *want.texts.entry(t.clone()).or_default() += 1);
    numbers(f).into_iter().for_each(|n| *want.numbers.entry(n.to_string()).or_default() += 1);
    f.tables.values().for_each(|t| want.truths[t.init as usize] += 1);
    for (what, want, got) in [("text", &want.texts, &got.texts), ("number", &want.numbers, &got.numbers)] {
        for (x, n) in want {
            let m = got.get(x).copied().unwrap_or(0);
            if m < *n {
                return Err(format!("the {what} {x:?} stands {m} times in the inspection output, {n} times in the model"));
            }
        }
    }
    for b in [0, 1] {
        if got.truths[b] < want.truths[b] {
            return Err(format!("{} stands {} times in the inspection output, {} times in the model", b == 1, got.truths[b], want.truths[b]));
        }
    }
    Ok(())
}

fn direct(s: &mut Source, ctx: &mut Ctx) -> Res {
    let f = model(s);
    let json = guard(|| serde_json::to_string_pretty(&f))?.map_err(|e| format!("the model has no inspection output: {e}"))?;
    // what the case is: described apart from the code under test
    let view = format!(
        "{:?}",
        (&f.name, &f.tables, &f.relationships, &f.layouts, &f.value_lists, &f.scripts, &f.table_occurrences, &f.data_sources, &f.tests)
    );
    ctx.case(view.as_bytes(), || view.clone());
    let kinds = [f.tables.len(), f.relationships.len(), f.layouts.len(), f.value_lists.len(), f.scripts.len(), f.table_occurrences.len(), f.data_sources.len(), f.tests.len()];
    ctx.nontrivial = kinds.iter().filter(|k| **k > 0).count() >= 3;
    ctx.label("model");
    ctx.label_if(kinds.iter().any(|k| *k > 50), "over fifty of a kind");
    ctx.label_if(kinds.iter().all(|k| *k > 0), "every kind of component");
    let back: fm::FmpFile = guard(|| serde_json::from_str(&json))?.map_err(|e| format!("the inspection output cannot be read back: {e}"))?;
    if back.name != f.name {
        return Err(format!("the name is {:?}, read back it is {:?}", f.name, back.name));
    }
    same("table", &f.tables, &back.tables)?;
    same("relationship", &f.relationships, &back.relationships)?;
    same("layout", &f.layouts, &back.layouts)?;
    same("value list", &f.value_lists, &back.value_lists)?;
    same("script", &f.scripts, &back.scripts)?;
    same("table occurrence", &f.table_occurrences, &back.table_occurrences)?;
    same("data source", &f.data_sources, &back.data_sources)?;
    let numbered = |v: &[fm::FMComponentTest]| v.iter().cloned().enumerate().collect::<BTreeMap<_, _>>();
    same("test", &numbered(&f.tests), &numbered(&back.tests))?;
    // every value stands in it as it is
    let v: Value = serde_json::from_str(&json).map_err(|e| format!("the inspection output is no JSON: {e}"))?;
    complete(&f, &v)
}

fn read_back(ctx: &Ctx, args: &[&str], dir: &std::path::Path, which: &str) -> Result<fm::FmpFile, String> {
    let args: Vec<String> = args.iter().map(|x| x.to_string()).collect();
    let r = cli::run_program(ctx, dir, &args, &[]);
    if r.code != Some(0) {
        return Err(format!("the program ends with exit code {:?}, signal {:?}", r.code, r.signal));
    }
    let b = std::fs::read(dir.join("inspect_output").join(which)).map_err(|e| format!("no inspection output: {e}"))?;
    let f: fm::FmpFile = guard(|| serde_json::from_slice(&b))?.map_err(|e| format!("the inspection output cannot be read back: {e}"))?;
    let v = serde_json::from_slice(&b).map_err(|e| format!("the inspection output is no JSON: {e}"))?;
    complete(&f, &v)?;
    Ok(f)
}

fn decompiled(s: &mut Source, ctx: &mut Ctx) -> Res {
    let (sc, st) = (*s.pick(&[1usize, 3]), *s.pick(&[1usize, 2]));
    let c = fmp::content(s, Want { schema: sc, scripts: st, steps: 5 });
    let (p, _, _) = fmp::file(s, &c, 0);
    ctx.case(&p.bytes, || format!("{c:?}"));
    ctx.nontrivial = true;
    ctx.label("decompiled by the program");
    let dir = ctx.fresh_dir("inspect");
    std::fs::write(dir.join("d.fmp12"), &p.bytes).expect("file");
    let f = read_back(ctx, &["-d", "d.fmp12"], &dir, "test_decompile")?;
    schema::same_schema(&c, &f)?;
    schema::same_scripts(&c, &f)
}

fn compiled(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut decls = vec![];
    let (mut tables, mut occ) = (vec![], vec![]);
    let avg = *s.pick(&[3usize, 6, 12, 60]);
    while s.more(decls.len(), 1, 200, avg) {
        let d = burn::declaration(s, &tables, &occ);
        match &d {
            Decl::Table(n) => tables.push(n.clone()),
            Decl::Occurrence(n, _) => occ.push(n.clone()),
            _ => {}
        }
        decls.push(d);
    }
    let l = Layout::pick(s);
    let mut code = String::new();
    for d in &decls {
        burn::render_decl(s, &l, d, &mut code);
        code.push_str(&l.gap(s));
    }
    ctx.case(code.as_bytes(), || code.clone());
    ctx.nontrivial = decls.len() > 2;
    ctx.label("compiled by the program");
    let dir = ctx.fresh_dir("inspect");
    std::fs::write(dir.join("p.burn"), &code).expect("file");
    let f = read_back(ctx, &["--no-testing", "-c", "p.burn"], &dir, "test_compile")?;
    burn::same_program(&decls, &f)
}

fn c20_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    match s.weighted(&[40, 1, 1]) {
        0 => direct(s, ctx),
        1 => decompiled(s, ctx),
        _ => compiled(s, ctx),
    }
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "A case is either a model with up to eight components of every kind (3 % with hundreds of one kind), every attribute filled with generated text, identifiers and numbers, whose inspection output is read back and compared attribute by attribute; or a synthesised database file or burn program given to the program itself, whose inspection output is read back and compared with what was stored or declared. Non-trivial: components of at least three kinds, or at least three declarations.",
        assumptions: &["the output is read back with the model's own reader; in addition every text, number and truth value has to stand in it as often as in the model"],
        quick: 150_000,
        thorough: 1_500_000,
        run: c20_case,
        exhaustive: None,
    }
}
