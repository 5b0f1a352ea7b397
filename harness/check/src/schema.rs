//! C04, C05, C06: what decompiling a synthesised file gives.

use std::collections::BTreeMap;
use std::fmt::Debug;
use std::path::Path;

use crate::engine::{guard, Ctx, Prop, Res};
use crate::fmp::{self, Content, Want};
use crate::opcodes;
use crate::source::Source;
use burn_fm_hooked::verif as fm;

pub fn decompile(ctx: &Ctx, bytes: &[u8]) -> Result<fm::FmpFile, String> {
    let p = ctx.scratch.join("input.fmp12");
    std::fs::write(&p, bytes).expect("write input");
    guard(|| fm::decompile_fmp12_file(Path::new(&p))).map_err(|e| format!("decompiling {e}"))
}

fn same<V: PartialEq + Debug>(what: &str, want: BTreeMap<usize, V>, got: BTreeMap<usize, V>) -> Res {
    for (id, v) in &want {
        match got.get(id) {
            None => return Err(format!("{what} {id} is lost: stored as {v:?}")),
            Some(g) if g != v => return Err(format!("{what} {id} is {g:?}, stored as {v:?}")),
            _ => {}
        }
    }
    for (id, g) in &got {
        if !want.contains_key(id) {
            return Err(format!("{what} {id} is invented: {g:?}"));
        }
    }
    Ok(())
}

type FieldView = (String, String, String, String, String);

pub fn same_schema(c: &Content, f: &fm::FmpFile) -> Res {
    same(
        "table",
        c.tables.iter().map(|(k, t)| (*k, t.name.clone())).collect(),
        f.tables.iter().map(|(k, t)| (*k, t.table_name.clone())).collect(),
    )?;
    for (id, t) in &c.tables {
        let got = &f.tables[id];
        let want: BTreeMap<usize, FieldView> = t
            .fields
            .iter()
            .map(|(k, x)| (*k, (x.name.clone(), x.ty.clone(), x.desc.clone(), x.account.clone(), x.user.clone())))
            .collect();
        let got = got
            .fields
            .iter()
            .map(|(k, x)| {
                (*k as usize, (x.field_name.clone(), x.field_type.clone(), x.field_description.clone(), x.created_by_account.clone(), x.created_by_user.clone()))
            })
            .collect();
        same(&format!("field of table {id}, (name, type, description, account, user)"), want, got)?;
    }
    same(
        "table occurrence (name, table)",
        c.occurrences.clone(),
        f.table_occurrences.iter().map(|(k, t)| (*k, (t.table_occurence_name.clone(), t.table_actual as usize))).collect(),
    )?;
    let cmp = ["Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "Cartesian"];
    same(
        "relationship (occurrence, field, comparison, occurrence, field)",
        c.relations.iter().map(|(k, r)| (*k, (r.table1, r.field1, cmp[r.cmp].to_string(), r.table2, r.field2))).collect(),
        f.relationships
            .iter()
            .map(|(k, r)| (*k, (r.table1 as usize, r.field1 as usize, format!("{:?}", r.comparison), r.table2 as usize, r.field2 as usize)))
            .collect(),
    )?;
    same(
        "layout (name, occurrence)",
        c.layouts.clone(),
        f.layouts.iter().map(|(k, l)| (*k, (l.layout_name.clone(), l.table_occurrence))).collect(),
    )?;
    same(
        "data source (name, type, path, file, user)",
        c.sources
            .iter()
            .map(|(k, d)| (*k, (d.name.clone(), d.ty.clone(), d.path.clone(), d.file.clone(), d.user.clone())))
            .collect::<BTreeMap<_, _>>(),
        f.data_sources
            .iter()
            .map(|(k, d)| {
                let l = &d.source_location;
                (*k, (d.source_name.clone(), l.source_type.clone(), l.source_path.clone(), l.source_filename.clone(), d.created_by_user.clone()))
            })
            .collect(),
    )
}

type StepView = (String, usize, Vec<String>);

pub fn same_scripts(c: &Content, f: &fm::FmpFile) -> Res {
    same(
        "script",
        c.scripts.iter().map(|(k, x)| (*k, x.name.clone())).collect(),
        f.scripts.iter().map(|(k, x)| (*k, x.script_name.clone())).collect(),
    )?;
    for (id, sc) in &c.scripts {
        let want: Vec<StepView> = sc
            .steps
            .iter()
            .filter_map(|st| {
                let name = opcodes::name(st.op)?;
                let mut args = vec![];
                if name == "PerformScript" {
                    if let Some(t) = st.target.and_then(|n| c.scripts.get(&n)) {
                        args.push(format!("\"{}\"", t.name));
                    }
                }
                if name == "SetVariable" {
                    args.extend(st.var.clone());
                    args.extend(st.text128.clone());
                }
                if name == "ExitScript" {
                    args.extend(st.calc128.as_ref().map(|c| c.text.clone()));
                }
                args.extend(st.calc129.as_ref().map(|c| c.text.clone()));
                Some((name.to_string(), st.index, args))
            })
            .collect();
        let got: Vec<StepView> = f.scripts[id]
            .instructions
            .iter()
            .map(|i| {
                let name = format!("{:?}", i.opcode);
                (name, i.index, i.switches.clone())
            })
            .collect();
        for (i, w) in want.iter().enumerate() {
            match got.get(i) {
                None => return Err(format!("script {id} ({:?}) ends after {} of {} steps; lost {w:?}", sc.name, got.len(), want.len())),
                Some(g) if g != w => return Err(format!("script {id} ({:?}), step {i} (operation, number, arguments): {g:?}, stored as {w:?}", sc.name)),
                _ => {}
            }
        }
        if got.len() > want.len() {
            return Err(format!("script {id} ({:?}) has {} steps, stored are {}; invented {:?}", sc.name, got.len(), want.len(), got[want.len()]));
        }
    }
    Ok(())
}

fn noise_level(s: &mut Source) -> usize {
    *s.pick(&[0usize, 10, 30])
}

fn describe(c: &Content, p: &fmp::Placement, noise: bool) -> String {
    format!(
        "{c:?}\nin {} bytes, chain of sectors {:?}, unlinked {:?}, unrelated content: {noise}",
        p.bytes.len(),
        p.chain,
        p.unlinked
    )
}

fn c04_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    if s.chance(3) {
        return crate::real::case(s, ctx, false);
    }
    let schema = *s.pick(&[2usize, 3, 5]);
    let with_scripts = if s.chance(30) { 1 } else { 0 };
    let c = fmp::content(s, Want { schema, scripts: with_scripts, steps: 4 });
    let noise = noise_level(s);
    let (p, payloads, noisy) = fmp::file(s, &c, noise);
    ctx.case(&p.bytes, || describe(&c, &p, noisy));
    let fields: usize = c.tables.values().map(|t| t.fields.len()).sum();
    ctx.nontrivial = !c.tables.is_empty() && fields > 0 && c.occurrences.len() + c.layouts.len() + c.sources.len() + c.relations.len() >= 2;
    ctx.label_if(payloads.len() > 1, "several sectors");
    ctx.label_if(p.chain.windows(2).any(|w| w[1] != w[0] + 1), "sectors out of order");
    ctx.label_if(!p.unlinked.is_empty(), "unlinked sectors");
    ctx.label_if(noisy, "unrelated content");
    ctx.label_if(!c.relations.is_empty(), "relationships");
    ctx.label_if(!c.sources.is_empty(), "data sources");
    ctx.label_if(!c.layouts.is_empty(), "layouts");
    ctx.label_if(c.tables.len().max(c.occurrences.len()).max(c.relations.len()).max(c.layouts.len()).max(c.sources.len()) > 50, "over fifty of a kind");
    ctx.label_if(c.tables.values().any(|t| t.fields.len() > 50), "over fifty fields");
    ctx.label_if(payloads.len() > 20, "over twenty sectors");
    ctx.label_if(c.occurrences.values().any(|o| o.1 > 255 && c.tables.contains_key(&o.1)), "occurrence of a table over 255");
    let f = decompile(ctx, &p.bytes)?;
    same_schema(&c, &f)?;
    // the same content, cut and placed differently
    let noise = noise_level(s);
    let (q, _, _) = fmp::file(s, &c, noise);
    let f = decompile(ctx, &q.bytes)?;
    same_schema(&c, &f).map_err(|e| format!("stored a second way: {e}"))
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "A case is a generated schema (tables, fields, occurrences, relationships, layouts, data sources with sparse ids and any text; 3 % with up to 300 of one kind), written to a file twice with random chunk encodings, directory re-entries, sector boundaries, sector order, unlinked sectors and unrelated content; both decompilations are compared with the schema. 3 % of the cases are the sample database, with components taken out and renamed, cut and placed anew, compared with what its chunks say by the format note. Non-trivial: a table with fields and at least two other components.",
        assumptions: &[
            "files list directories in ascending order, and each sector re-enters its directory",
            "occurrence ids used by layouts are below 128; the stored form of others is not known",
            "data of the schema is not flagged to leave its directory",
        ],
        quick: 40_000,
        thorough: 600_000,
        run: c04_case,
        exhaustive: None,
    }
}

fn c05_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    if s.chance(3) {
        return crate::real::case(s, ctx, true);
    }
    let scripts = *s.pick(&[1usize, 2, 4]);
    let steps = *s.pick(&[2usize, 6, 15]);
    let schema = if s.chance(20) { 1 } else { 0 };
    let c = fmp::content(s, Want { schema, scripts, steps });
    let noise = noise_level(s);
    let (p, payloads, noisy) = fmp::file(s, &c, noise);
    ctx.case(&p.bytes, || describe(&c, &p, noisy));
    let all: Vec<&fmp::Step> = c.scripts.values().flat_map(|x| &x.steps).collect();
    let known = all.iter().filter(|st| opcodes::name(st.op).is_some()).count();
    let args = all.iter().filter(|st| st.var.is_some() || st.calc128.is_some() || st.calc129.is_some()).count();
    ctx.nontrivial = known >= 2 && args >= 1;
    ctx.label_if(payloads.len() > 1, "several sectors");
    ctx.label_if(noisy, "unrelated content");
    ctx.label_if(known < all.len(), "unknown operations");
    ctx.label_if(all.len() > 20, "over 20 steps");
    ctx.label_if(all.len() > 200, "over 200 steps");
    ctx.label_if(c.scripts.len() > 50, "over fifty scripts");
    ctx.label_if(all.iter().any(|st| st.op == 1 && st.target.is_some_and(|n| n > 127 && c.scripts.contains_key(&n))), "calls a script over 127");
    ctx.label_if(all.iter().any(|st| st.index > 255), "large step numbers");
    ctx.label_if(all.iter().any(|st| st.op == 1 && st.target.is_some_and(|n| c.scripts.contains_key(&n))), "calls a script");
    let f = decompile(ctx, &p.bytes)?;
    same_scripts(&c, &f)?;
    let noise = noise_level(s);
    let (q, _, _) = fmp::file(s, &c, noise);
    let f = decompile(ctx, &q.bytes)?;
    same_scripts(&c, &f).map_err(|e| format!("stored a second way: {e}"))
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "A case is a generated set of scripts (sparse ids, steps of known and unknown operations with any step numbers and arguments; 3 % with hundreds of scripts or steps), written to a file twice with steps inline or in segments cut anywhere, random sector boundaries and unrelated content; both decompilations are compared with the scripts. 3 % of the cases are the sample database, edited, cut and placed anew. Non-trivial: at least two known steps, one with an argument.",
        assumptions: &[
            "script names precede script code and segments are stored in ascending order, as directories and keys are sorted in a file",
            "step numbers are unique within a script",
            "the layout of the 28-byte step record is restated from the sample file",
        ],
        quick: 40_000,
        thorough: 600_000,
        run: c05_case,
        exhaustive: None,
    }
}

fn c06_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut c = Content::default();
    let mut steps: Vec<fmp::Step> = vec![];
    while s.more(steps.len(), 1, 12, 5) {
        let avg = *s.pick(&[3usize, 8, 20]);
        let calc = fmp::calc(s, avg);
        let mut st = fmp::Step { op: 68, index: steps.len() + 1, target: None, var: None, text128: None, calc128: None, calc129: None };
        match s.below(4) {
            0 => {
                st.op = 103;
                st.calc128 = Some(calc);
            }
            1 => {
                st.op = 141;
                st.var = Some("$v".to_string());
                st.calc129 = Some(calc);
            }
            2 => {
                st.op = *s.pick(&[72u8, 125, 1, 87, 76]);
                st.calc129 = Some(calc);
            }
            _ => st.calc129 = Some(calc),
        }
        steps.push(st);
    }
    c.scripts.insert(1, fmp::Script { name: "s".to_string(), steps });
    let (p, _, _) = fmp::file(s, &c, 0);
    ctx.case(&p.bytes, || {
        c.scripts[&1]
            .steps
            .iter()
            .filter_map(|st| st.calc128.as_ref().or(st.calc129.as_ref()))
            .map(|x| format!("{:02x?} stands for {:?}", x.bytes, x.text))
            .collect::<Vec<_>>()
            .join("\n")
    });
    let calcs: Vec<&fmp::Calc> = c.scripts[&1].steps.iter().filter_map(|st| st.calc128.as_ref().or(st.calc129.as_ref())).collect();
    ctx.nontrivial = calcs.iter().any(|x| x.tokens >= 3 && x.kinds.len() >= 3);
    ctx.label_if(calcs.iter().any(|x| x.text.len() > 1000), "reads as over 1000 bytes");
    for k in calcs.iter().flat_map(|x| &x.kinds).collect::<std::collections::BTreeSet<_>>() {
        ctx.label(k);
    }
    let f = decompile(ctx, &p.bytes)?;
    same_scripts(&c, &f)
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "A case is one to twelve stored calculations, each a sequence of tokens over every operator, parenthesis, function, number, string, variable and blank token with any text, attached to steps of a synthesised file; the decompiled argument text is compared with the text of the tokens. Non-trivial: a calculation of at least three tokens of three kinds.",
        assumptions: &[
            "a blank directly before a string literal is stored with its length (a lone blank byte there would be ambiguous)",
            "the number token's value is its ninth byte, as the decompiler and the sample file have it",
        ],
        quick: 200_000,
        thorough: 1_500_000,
        run: c06_case,
        exhaustive: None,
    }
}
