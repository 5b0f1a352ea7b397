//! C16: running the same tests again.
//!
//! No reference is needed: a program, tampered with in ways whose meaning
//! nobody has to know, has to do the same every time.

use crate::engine::{guard, Ctx, Res};
use crate::fmp;
use crate::source::Source;
use crate::vm::{self, Profile, Shape, BASE};
use burn_fm_hooked::verif as fm;
use fm::Instruction as I;

/// Steps that may stand anywhere.
fn plain(op: &I) -> bool {
    !matches!(op, I::If | I::ElseIf | I::Else | I::EndIf | I::Loop | I::EndLoop | I::ExitLoopIf | I::GoToRecordRequestPage | I::PerformScript)
}

fn tamper(s: &mut Source, script: &mut fm::FMComponentScript, fields: &[String]) {
    let n = script.instructions.len();
    if n == 0 {
        return;
    }
    let i = s.below(n);
    let step = script.instructions[i].clone();
    match s.below(5) {
        0 if plain(&step.opcode) => script.instructions.insert(i, step),
        1 if plain(&step.opcode) => {
            script.instructions.remove(i);
        }
        2 if plain(&step.opcode) && i + 1 < n && plain(&script.instructions[i + 1].opcode) => script.instructions.swap(i, i + 1),
        3 => {
            // an argument of another step of the kind
            let of: Vec<usize> = (0..n).filter(|j| script.instructions[*j].opcode == step.opcode && script.instructions[*j].switches.len() == step.switches.len()).collect();
            let j = *s.pick(&of);
            if !step.switches.is_empty() {
                let k = s.below(step.switches.len());
                script.instructions[i].switches[k] = script.instructions[j].switches[k].clone();
            }
        }
        _ => {
            // a field of another occurrence
            if fields.is_empty() || step.switches.is_empty() {
                return;
            }
            let k = s.below(step.switches.len());
            let f = s.pick(fields).clone();
            if step.opcode == I::ShowCustomDialog {
                script.instructions[i].switches[k] = format!("\"@@d\" & {f}");
            } else if let Some(g) = fields.iter().find(|g| step.switches[k].contains(g.as_str())) {
                script.instructions[i].switches[k] = step.switches[k].replace(g.as_str(), &f);
            }
        }
    }
}

/// Everything a run leaves behind.
#[derive(PartialEq)]
struct Left {
    output: String,
    end: String,
    tables: Vec<Vec<(String, Vec<String>)>>,
    shown: Vec<(Vec<usize>, usize)>,
}

fn run(ctx: &mut Ctx, f: &fm::FmpFile, together: bool, bound: usize) -> Left {
    ctx.take_output();
    let mut te = fm::TestEnvironment::new(f);
    let r = guard(|| {
        te.generate_test_environment();
        if together {
            te.run_tests_with_cleanup();
            return Ok(());
        }
        for t in &f.tests {
            te.load_test(t.clone());
            let mut n = 0;
            while te.test_state == fm::TestState::Pass && !te.instruction_ptr.is_empty() {
                n += 1;
                if n > bound {
                    return Err("still running".to_string());
                }
                te.step();
                let long = |t: &String| t.len() > 20_000;
                if te.variables.iter().flat_map(|v| v.values()).any(|v| long(&v.value)) || te.database.tables.iter().flat_map(|t| &t.fields).flat_map(|f| &f.records).any(long) {
                    return Err("still running, with ever longer values".to_string());
                }
            }
        }
        Ok(())
    });
    let end = match r {
        Err(e) | Ok(Err(e)) => e,
        Ok(Ok(())) => format!("{:?}", te.test_state),
    };
    Left {
        output: ctx.take_output(),
        end,
        tables: te.database.tables.iter().map(|t| t.fields.iter().map(|f| (f.name.clone(), f.records.clone())).collect()).collect(),
        shown: te.database.table_occurrences.iter().map(|o| (o.found_set.clone(), o.record_ptr)).collect(),
    }
}

pub fn tests(s: &mut Source, ctx: &mut Ctx) -> Res {
    let prof = Profile { set: 3, show: 5, assert: 1, fail: 5, block: 2, call: 1, expr: 2, depth: 2, field: 4, record: 5, layout: 4, go: 3, find: 4, ..BASE };
    let several = s.chance(30);
    let sh = Shape { prof, db: s.chance(85), scripts: *s.pick(&[0usize, 1, 3]), tests: if several { 3 } else { 1 }, avg: if several { 8 } else { 20 }, max: 50, names: false, stored: false };
    let mut m = vm::make(s, &sh);
    // relationships; several ways between two occurrences are likely
    let occ: Vec<usize> = m.p.db.occurrences.keys().copied().collect();
    if occ.len() > 1 {
        while s.more(m.p.db.relations.len(), 0, 16, occ.len() * 2) {
            let i = s.below(occ.len() - 1);
            let j = i + 1 + s.below(occ.len() - 1 - i);
            let (a, b) = (occ[i], occ[j]);
            let (field1, field2) = (*s.pick(&m.p.db.fields_of(a)), *s.pick(&m.p.db.fields_of(b)));
            m.p.db.relations.push(fmp::Rel { table1: a, table2: b, field1, field2, cmp: *s.pick(&[6usize, 0, 1, 3, 5, 2, 4]) });
        }
    }
    let mut r = vm::prepare(s, ctx, &m.p, false)?;
    let mut fields = vec![];
    for o in m.p.db.occurrences.keys() {
        for f in m.p.db.fields_of(*o) {
            fields.push(m.p.db.field(*o, f));
        }
    }
    let mut changes = 0;
    while s.more(changes, 0, 30, 8) {
        changes += 1;
        let (t, n) = (r.file.tests.len(), r.file.scripts.len());
        let k = s.below(t + n.min(t));
        if k < t {
            tamper(s, &mut r.file.tests[k].script, &fields);
        } else {
            let at = s.below(n);
            if let Some(x) = r.file.scripts.values_mut().nth(at) {
                tamper(s, x, &fields);
            }
        }
    }
    let text = format!("{:?}\n{:?}\n{}", m.p.db.relations, m.p.db.occurrences, vm::listing(&r.file));
    ctx.case(text.as_bytes(), || text.clone());
    ctx.label("tests run again");
    // the loop over all tests has no bound, so what may not end runs step by step
    let bound = m.end.steps * 6 + 500;
    let first = run(ctx, &r.file, false, bound);
    let together = !first.end.contains("still running") && s.chance(30);
    ctx.nontrivial = !first.output.is_empty();
    ctx.label_if(first.end.contains("panicked"), "ended by a panic");
    ctx.label_if(changes > 0, "tampered with");
    ctx.label_if(!m.p.db.relations.is_empty(), "with relationships");
    let first = if together { run(ctx, &r.file, true, bound) } else { first };
    for n in 0..3 {
        if n == 1 {
            // others run in between
            let (x, y) = (r.file.tests.len(), r.file.tests.len() / 2);
            r.file.tests.rotate_left(y);
            run(ctx, &r.file, false, bound);
            r.file.tests.rotate_left(x - y);
        }
        let got = run(ctx, &r.file, together, bound);
        if got.output != first.output {
            return Err(format!("the tests print another output the next time:\n{}\nand then:\n{}", first.output, got.output));
        }
        if got.end != first.end {
            return Err(format!("the tests end with {:?} and the next time with {:?}", first.end, got.end));
        }
        if got.tables != first.tables {
            return Err(format!("the tests leave other records the next time:\n{:?}\nand then:\n{:?}", first.tables, got.tables));
        }
        if got.shown != first.shown {
            return Err(format!("the tests leave other found sets or positions the next time:\n{:?}\nand then:\n{:?}", first.shown, got.shown));
        }
    }
    Ok(())
}
