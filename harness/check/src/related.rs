//! C14: related values over generated relationship graphs and records.

use std::collections::{BTreeMap, BTreeSet, VecDeque};

use crate::engine::{guard, Ctx, Prop, Res};
use crate::fmp::Rel;
use crate::source::Source;
use crate::vm::{self, lit, num, Db, Program, Stmt, To, Val};
use burn_fm_hooked::verif as fm;

const CMP: [&str; 7] = ["=", "!=", "<", "<=", ">", ">=", "x"];

/// Relation as seen from one of its sides.
#[derive(Clone, Copy, Debug)]
struct Hop {
    to: usize,
    near: usize,
    far: usize,
    cmp: usize,
    forward: bool,
}

fn hops(db: &Db) -> BTreeMap<usize, Vec<Hop>> {
    let mut m: BTreeMap<usize, Vec<Hop>> = BTreeMap::new();
    for r in &db.relations {
        m.entry(r.table1).or_default().push(Hop { to: r.table2, near: r.field1, far: r.field2, cmp: r.cmp, forward: true });
        m.entry(r.table2).or_default().push(Hop { to: r.table1, near: r.field2, far: r.field1, cmp: r.cmp, forward: false });
    }
    m
}

/// Every shortest chain.
fn chains(g: &BTreeMap<usize, Vec<Hop>>, from: usize, to: usize) -> Vec<Vec<Hop>> {
    let mut dist: BTreeMap<usize, usize> = BTreeMap::from([(from, 0)]);
    let mut q = VecDeque::from([from]);
    while let Some(x) = q.pop_front() {
        for h in g.get(&x).into_iter().flatten() {
            if !dist.contains_key(&h.to) {
                dist.insert(h.to, dist[&x] + 1);
                q.push_back(h.to);
            }
        }
    }
    let mut out = vec![];
    fn walk(g: &BTreeMap<usize, Vec<Hop>>, dist: &BTreeMap<usize, usize>, at: usize, to: usize, path: &mut Vec<Hop>, out: &mut Vec<Vec<Hop>>) {
        if at == to {
            out.push(path.clone());
            return;
        }
        for h in g.get(&at).into_iter().flatten() {
            if dist[&h.to] == dist[&at] + 1 && dist[&h.to] <= dist[&to] && out.len() < 200 {
                path.push(*h);
                walk(g, dist, h.to, to, path, out);
                path.pop();
            }
        }
    }
    if dist.contains_key(&to) {
        walk(g, &dist, from, to, &mut vec![], &mut out);
    }
    out
}

/// Whether two keys are related, in the direction the relation was declared.
fn related(cmp: usize, a: &Val, b: &Val) -> Option<bool> {
    use std::cmp::Ordering;
    let o: Option<Ordering> = match (a, b) {
        (Val::Num(x), Val::Num(y)) => x.partial_cmp(y),
        (Val::Text(x), Val::Text(y)) => Some(x.cmp(y)),
        _ => None,
    };
    Some(match cmp {
        0 => o? == Ordering::Equal,
        1 => o? != Ordering::Equal,
        2 => o? == Ordering::Less,
        3 => o? != Ordering::Greater,
        4 => o? == Ordering::Greater,
        5 => o? != Ordering::Less,
        _ => true,
    })
}

fn width(v: &Val) -> usize {
    v.show().len()
}

/// Whether a hop between these keys is among what is checked.
fn outside(h: &Hop, near: &[&Val], far: &[&Val]) -> Option<&'static str> {
    let ordered = matches!(h.cmp, 2..=5);
    if !ordered {
        return None;
    }
    if !h.forward {
        return Some("C14 reversed-comparison");
    }
    for a in near {
        for b in far {
            match (a, b) {
                (Val::Num(_), Val::Num(_)) if width(a) != width(b) => return Some("C14 number-keys"),
                _ => {}
            }
            if matches!(h.cmp, 2 | 4) && a == b {
                return Some("C14 strict-comparison");
            }
        }
    }
    None
}

fn c14_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut db = vm::gen_db(s, 4, 6);
    // key fields all hold the same kind of value
    let numeric = s.chance(50);
    let occ: Vec<usize> = db.occurrences.keys().copied().collect();
    let mut pairs = BTreeSet::new();
    // often one key field per occurrence, so that longer chains share keys
    let shared = s.chance(70);
    let key: BTreeMap<usize, usize> = occ
        .iter()
        .map(|o| {
            let f = *s.pick(&db.fields_of(*o));
            (*o, f)
        })
        .collect();
    if occ.len() > 1 {
        while s.more(db.relations.len(), 1, 14, occ.len() + 1) {
            let i = s.below(occ.len() - 1);
            let j = i + 1 + s.below(occ.len() - 1 - i);
            if !pairs.insert((i, j)) {
                // one relationship between two occurrences
                if s.chance(50) {
                    break;
                }
                continue;
            }
            let (a, b) = (occ[i], occ[j]);
            let field = |s: &mut Source, o: usize| if shared { key[&o] } else { *s.pick(&db.fields_of(o)) };
            let (field1, field2) = (field(s, a), field(s, b));
            let cmp = *s.pick(&[0usize, 0, 0, 1, 3, 5, 6, 2, 4]);
            db.relations.push(Rel { table1: a, table2: b, field1, field2, cmp });
        }
    }
    // records, made by a script
    let mut body = vec![];
    let mut p = Program { db, ..Default::default() };
    let by_table: BTreeMap<usize, Vec<(String, usize)>> = p.db.layouts.iter().fold(BTreeMap::new(), |mut m, l| {
        m.entry(p.db.occurrences[&l.1].1).or_insert_with(Vec::new).push(l.clone());
        m
    });
    let wide = s.chance(60);
    let value = |s: &mut Source| -> vm::Ex {
        if numeric {
            if wide { num(s.int(10, 14)) } else { num(s.int(0, 120)) }
        } else {
            lit(s.pick(&["a", "b", "ab", "abc", "c", "k1", "k2", "zz"]))
        }
    };
    let mut rounds = 0;
    while s.more(rounds, 1, 24, 10) {
        rounds += 1;
        let tables: Vec<usize> = by_table.keys().copied().collect();
        let t = *s.pick(&tables);
        let l = s.pick(&by_table[&t]).clone();
        body.push(Stmt::Layout(lit(&l.0)));
        body.push(Stmt::New);
        for f in p.db.tables[&t].1.keys() {
            let v = value(s);
            body.push(Stmt::SetField(l.1, *f, v));
        }
    }
    // positions
    for l in p.db.layouts.clone() {
        if s.chance(60) && body.iter().any(|x| matches!(x, Stmt::Layout(vm::Ex::Lit(n)) if p.db.layouts.iter().any(|k| k.0 == *n && p.db.occurrences[&k.1].1 == p.db.occurrences[&l.1].1))) {
            body.push(Stmt::Layout(lit(&l.0)));
            body.push(match s.below(3) {
                0 => Stmt::Go(To::First, false),
                1 => Stmt::Go(To::Previous, false),
                _ => Stmt::Go(To::Number(num(s.int(0, 9))), false),
            });
        }
    }
    p.tests.push(("t".to_string(), body));
    let mut it = vm::Interp::new(&p);
    let out = it.block(&p.tests[0].1);
    let end = it.st;
    let r = vm::prepare(s, ctx, &p, false)?;
    let text = vm::describe(&p, &r);
    ctx.case(text.as_bytes(), || text.clone());
    match out {
        Ok(_) => {}
        Err(w) => {
            ctx.label(&format!("left out: {w}"));
            return Ok(());
        }
    }
    ctx.label_if(r.from_file, "schema read from a file");
    let mut te = fm::TestEnvironment::new(&r.file);
    guard(|| {
        te.generate_test_environment();
        vm::drive(&mut te, r.file.tests[0].clone(), end.steps * 6 + 200)
    })
    .map_err(|e| format!("making the records {e}"))??;
    vm::same_database(&p, &te, &end)?;
    ctx.take_output();

    let g = hops(&p.db);
    let (mut queries, mut found, mut longest) = (0, 0, 0);
    for from in &occ {
        let n_from = end.records[&p.db.occurrences[from].1].len();
        // from several of its records
        for at in 0..n_from.clamp(1, 3) {
            let at = if n_from > 3 { s.below(n_from) } else { at };
            te.database.set_current_occurrence(*from as u16);
            let cur = if n_from > 0 {
                te.database.goto_record(at);
                Some(at)
            } else {
                None
            };
            'target: for to in &occ {
                if from == to {
                    continue;
                }
                let ways = chains(&g, *from, *to);
                let tt = p.db.occurrences[to].1;
                // records reached by each shortest chain
                let mut reached: Vec<BTreeSet<usize>> = vec![];
                for w in &ways {
                    let mut set: BTreeSet<usize> = cur.into_iter().collect();
                    let mut table = p.db.occurrences[from].1;
                    let mut prev_far: Option<usize> = None;
                    // how often each is come upon
                    let mut copies: BTreeMap<usize, f64> = cur.into_iter().map(|i| (i, 1.0)).collect();
                    for h in w {
                        if prev_far.is_some_and(|f| f != h.near) {
                            ctx.label("left out a pair: C14 chain-keys");
                            continue 'target;
                        }
                        prev_far = Some(h.far);
                        let next = p.db.occurrences[&h.to].1;
                        let near: Vec<&Val> = set.iter().map(|i| &end.records[&table][*i][&h.near]).collect();
                        let far: Vec<&Val> = end.records[&next].iter().map(|r| &r[&h.far]).collect();
                        if let Some(w) = outside(h, &near, &far) {
                            ctx.label(&format!("left out a pair: {w}"));
                            continue 'target;
                        }
                        let mut new = BTreeSet::new();
                        let mut new_copies: BTreeMap<usize, f64> = BTreeMap::new();
                        for (i, a) in set.iter().zip(&near) {
                            for (j, b) in far.iter().enumerate() {
                                // the declared side comes first
                                let ok = if h.forward { related(h.cmp, a, b) } else { related(h.cmp, b, a) };
                                if ok == Some(true) {
                                    new.insert(j);
                                    *new_copies.entry(j).or_default() += copies[i];
                                }
                            }
                        }
                        if new_copies.values().sum::<f64>() > 100_000.0 {
                            ctx.label("left out a pair: C14 chain-copies");
                            continue 'target;
                        }
                        copies = new_copies;
                        set = new;
                        table = next;
                    }
                    reached.push(set);
                }
                queries += 1;
                longest = longest.max(ways.first().map(|w| w.len()).unwrap_or(0));
                for (f, fname) in &p.db.tables[&tt].1 {
                    let name = &p.db.occurrences[to].0;
                    let got = guard(|| te.database.get_related_record_field(name, fname).map_err(|e| e.to_string()))
                        .map_err(|e| format!("reading {name}::{fname} from {} {e}", p.db.occurrences[from].0))?;
                    let value = |i: usize| end.records[&tt][i][f].stored();
                    let what = || format!("{name}::{fname} read from record {cur:?} of {}", p.db.occurrences[from].0);
                    match got {
                        Ok(v) => {
                            found += 1;
                            if ways.is_empty() {
                                return Err(format!("{} gives {v}, no relationship leads there", what()));
                            }
                            if ways.len() == 1 && ways[0].len() == 1 {
                                let want = reached[0].first().map(|i| value(*i));
                                if want.as_ref() != Some(&v) {
                                    return Err(format!("{} gives {v}, it should give {want:?}", what()));
                                }
                            } else if !reached.iter().flatten().any(|i| value(*i) == v) {
                                let want: Vec<String> = reached.iter().flatten().map(|i| value(*i)).collect();
                                return Err(format!("{} gives {v}, the related records hold {want:?}", what()));
                            }
                        }
                        Err(e) => {
                            if !reached.is_empty() && reached.iter().all(|x| !x.is_empty()) {
                                return Err(format!("{} is an error ({e}), there are related records {reached:?}", what()));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.nontrivial = p.db.relations.len() >= 2 && found >= 1 && queries >= 3;
    ctx.label_if(longest >= 2, "chains of two or more relationships");
    ctx.label_if(longest >= 3, "chains of three or more relationships");
    for r in &p.db.relations {
        ctx.label(&format!("relationship {}", CMP[r.cmp]));
    }
    Ok(())
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "A case is a schema of up to twelve occurrences joined by up to fourteen relationships of all comparisons, read from a synthesised database file or built, with records made by a script; from up to three records of every occurrence, every field of every other occurrence is read and compared with the records an independent search finds related. Non-trivial: at least two relationships, three pairs of occurrences and one related value found.",
        assumptions: &[
            "occurrence pairs whose chain needs a construct listed in known_findings.txt are left out (counted under classes)",
            "two occurrences are joined by at most one relationship, and the target is another occurrence",
            "with several shortest chains the value may come from any of them",
        ],
        quick: 60_000,
        thorough: 1_000_000,
        run: c14_case,
        exhaustive: None,
    }
}
