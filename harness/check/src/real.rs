//! The sample database taken apart into directories and chunks, edited, put
//! together differently and decompiled: real content for C04 and C05.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

use crate::built::chain;
use crate::engine::{Ctx, Res};
use crate::fmp::{self, Content, Entry, Field, Rel, Table};
use crate::opcodes;
use crate::schema::{decompile, same_schema};
use crate::source::Source;
use crate::wire::{self, id_of, Kind, Read};
use burn_fm_hooked::verif as fm;

/// A chunk in its directory, or the mere entering of it.
#[derive(Clone)]
struct Piece {
    path: Vec<usize>,
    chunk: Option<Read>,
}

struct Sample {
    pieces: Vec<Piece>,
    scripts: BTreeMap<usize, Vec<StepView>>,
}

type StepView = (String, usize, Vec<String>);

fn pieces(bytes: &[u8]) -> Result<Vec<Piece>, String> {
    let mut out = vec![];
    for payload in chain(bytes)? {
        for r in wire::read_chunks(payload, true)?.0 {
            match r.kind {
                Kind::Push => out.push(Piece { path: r.path.clone(), chunk: None }),
                Kind::Pop | Kind::Noop => {}
                _ if r.raw[0] == 0 => {}
                // none of the sample's chunks leaves its directory
                _ if r.raw[0] & 0xC0 == 0xC0 => return Err("a chunk that leaves its directory".to_string()),
                _ => out.push(Piece { path: r.path.clone(), chunk: Some(r) }),
            }
        }
    }
    Ok(out)
}

fn steps_of(f: &fm::FmpFile) -> BTreeMap<usize, Vec<StepView>> {
    f.scripts.iter().map(|(k, x)| (*k, x.instructions.iter().map(|i| (format!("{:?}", i.opcode), i.index, i.switches.clone())).collect())).collect()
}

/// None if the tree has no sample.
fn sample(ctx: &Ctx) -> Result<Option<&'static Sample>, String> {
    static S: OnceLock<Result<Option<Sample>, String>> = OnceLock::new();
    S.get_or_init(|| {
        let Ok(bytes) = std::fs::read(ctx.repo.join("tests/input/blank.fmp12")) else { return Ok(None) };
        let f = decompile(ctx, &bytes).map_err(|e| format!("the sample as it is: {e}"))?;
        Ok(Some(Sample { pieces: pieces(&bytes).map_err(|e| format!("the sample: {e}"))?, scripts: steps_of(&f) }))
    })
    .as_ref()
    .map(|x| x.as_ref())
    .map_err(|e| e.clone())
}

/// Text as it is stored; None if the bytes are none.
fn text(b: &[u8]) -> Option<String> {
    String::from_utf8(b.iter().map(|x| x ^ 0x5a).collect()).ok()
}

struct Meaning {
    content: Content,
    /// fields (table, number) whose type is no text
    unreadable: Vec<(usize, usize)>,
    /// operation, step number and performed script of each step
    steps: BTreeMap<usize, Vec<(u8, usize, Option<usize>)>>,
}

/// What the pieces say by the format note.
fn meaning(pieces: &[Piece]) -> Result<Meaning, String> {
    let mut m = Meaning { content: Content::default(), unreadable: vec![], steps: BTreeMap::new() };
    let mut code: BTreeMap<usize, BTreeMap<usize, Vec<u8>>> = BTreeMap::new();
    for p in pieces {
        let c = &mut m.content;
        let (key, data) = match &p.chunk {
            Some(r) => (if r.kind == Kind::Ref { r.key } else { None }, &r.data[..]),
            None => (None, &[][..]),
        };
        let name = || text(data).ok_or_else(|| format!("name {data:?} in {:?}", p.path));
        match &p.path[..] {
            [3, 16, 5, x] => {
                let t = c.tables.entry(x - 128).or_insert(Table { name: String::new(), fields: BTreeMap::new() });
                if key == Some(16) {
                    t.name = name()?;
                }
            }
            [3, 17, 5, x] => match key {
                Some(2) => c.occurrences.entry(*x).or_default().1 = id_of(&data[5..7]) - 128,
                Some(16) => c.occurrences.entry(*x).or_default().0 = name()?,
                _ => {}
            },
            [3, 17, 5, x, 251] => {
                if p.chunk.as_ref().is_some_and(|r| r.kind == Kind::Simple) && data.len() >= 5 {
                    let r = Rel { table1: *x, table2: id_of(&data[..3]), field1: 0, field2: 0, cmp: 0 };
                    c.relations.entry(id_of(&data[4..])).or_insert(r);
                }
            }
            [3, 251, 5, x, 3] => {
                if key == Some(1) {
                    if let Some(r) = c.relations.get_mut(x) {
                        r.cmp = data[0] as usize;
                        r.field1 = id_of(&data[2..4]) - 128;
                        r.field2 = id_of(&data[5..7]) - 128;
                    }
                }
            }
            [4, 1, 7, x] => {
                let l = c.layouts.entry(*x).or_default();
                match key {
                    Some(2) => l.1 = data[1] as usize - 128,
                    Some(16) => l.0 = name()?,
                    _ => {}
                }
            }
            [17, 1, 7, x] => {
                if key == Some(16) {
                    c.scripts.entry(*x).or_default().name = name()?;
                }
            }
            [17, 5, x] if key == Some(4) => {
                code.entry(*x).or_default().insert(0, data.to_vec());
            }
            [17, 5, x, 4] => {
                if let Some(r) = p.chunk.as_ref().filter(|r| r.kind == Kind::Segment) {
                    code.entry(*x).or_default().insert(r.key.unwrap(), data.to_vec());
                }
            }
            [32, 5, x] => {
                let d = c.sources.entry(*x).or_default();
                match (key, &p.chunk) {
                    (Some(16), _) => d.name = name()?,
                    (Some(130), Some(r)) if r.raw[0] == 0x06 => {
                        // four bytes; length and type; length, two bytes and path; length and file name
                        let part = |at: usize, skip: usize| -> Option<(&[u8], usize)> {
                            let n = *data.get(at)? as usize;
                            Some((data.get(at + 1 + skip..at + 1 + skip + n)?, at + 1 + skip + n))
                        };
                        let (ty, at) = part(4, 0).ok_or("data source")?;
                        let (path, at) = part(at, 2).ok_or("data source")?;
                        let (file, _) = part(at, 0).ok_or("data source")?;
                        d.ty = text(ty).ok_or("data source")?;
                        d.file = text(file).ok_or("data source")?;
                        d.path = path
                            .iter()
                            .map(|b| match b {
                                0xdb => "..".to_string(),
                                0xda => "/".to_string(),
                                0x41 => ":".to_string(),
                                b => ((b ^ 0x5a) as char).to_string(),
                            })
                            .collect();
                    }
                    (Some(130), _) => d.user = name()?,
                    _ => {}
                }
            }
            [x, 3, 5, f] if *x >= 128 => {
                let t = c.tables.entry(x - 128).or_insert(Table { name: String::new(), fields: BTreeMap::new() });
                let d = t.fields.entry(*f).or_insert(Field::default());
                match key {
                    Some(2) => match text(data) {
                        Some(t) => d.ty = t,
                        None => m.unreadable.push((x - 128, *f)),
                    },
                    Some(3) => d.desc = name()?,
                    Some(16) => d.name = name()?,
                    Some(129) => d.account = name()?,
                    Some(130) => d.user = name()?,
                    _ => {}
                }
            }
            _ => {}
        }
    }
    for (id, parts) in code {
        let all: Vec<u8> = parts.into_values().flatten().collect();
        let number = |r: &[u8], at: usize| r.get(at + 2..(at + r[at] as usize + 1).max(at + 2)).filter(|b| !b.is_empty()).map(id_of);
        m.steps.insert(id, all.chunks_exact(28).map(|r| (r[21], number(r, 0).unwrap_or(0), number(r, 6))).collect());
    }
    Ok(m)
}

fn below(p: &[usize], dir: &[usize]) -> bool {
    p.starts_with(dir)
}

/// Edits and puts together; C04 judges the schema, C05 the scripts.
pub fn case(s: &mut Source, ctx: &mut Ctx, scripts: bool) -> Res {
    let Some(x) = sample(ctx)? else {
        ctx.case(b"", || "no sample in the tree".to_string());
        return Ok(());
    };
    let mut ps = x.pieces.clone();
    // the large directories that are not read, mostly without
    let mut tops: BTreeSet<usize> = ps.iter().map(|p| p.path.first().copied().unwrap_or(0)).collect();
    tops.retain(|t| ![3, 4, 17, 32].contains(t) && *t < 128);
    let mut out: BTreeSet<usize> = BTreeSet::new();
    for t in tops {
        if s.chance(if t == 6 { 95 } else { 60 }) {
            out.insert(t);
        }
    }
    ps.retain(|p| p.path.first().is_none_or(|t| !out.contains(t)));
    let mut edits = vec![];
    // components taken out
    let before = meaning(&ps)?;
    let c = &before.content;
    for _ in 0..s.size(0, 6) {
        let (what, dirs): (String, Vec<Vec<usize>>) = match s.below(6) {
            0 if !c.layouts.is_empty() => {
                let l = *s.pick(&c.layouts.keys().copied().collect::<Vec<_>>());
                (format!("layout {l}"), vec![vec![4, 1, 7, l]])
            }
            1 if !c.tables.is_empty() => {
                let t = *s.pick(&c.tables.keys().copied().collect::<Vec<_>>());
                (format!("table {t}"), vec![vec![3, 16, 5, 128 + t], vec![128 + t]])
            }
            2 if !c.occurrences.is_empty() => {
                let o = *s.pick(&c.occurrences.keys().copied().collect::<Vec<_>>());
                (format!("occurrence {o}"), vec![vec![3, 17, 5, o]])
            }
            3 if !c.sources.is_empty() => {
                let d = *s.pick(&c.sources.keys().copied().collect::<Vec<_>>());
                (format!("data source {d}"), vec![vec![32, 5, d]])
            }
            4 => {
                let all: Vec<(usize, usize)> = c.tables.iter().flat_map(|(t, x)| x.fields.keys().map(|f| (*t, *f))).collect();
                let (t, f) = *s.pick(&all);
                (format!("field {f} of table {t}"), vec![vec![128 + t, 3, 5, f]])
            }
            _ if !c.scripts.is_empty() => {
                let n = *s.pick(&c.scripts.keys().copied().collect::<Vec<_>>());
                (format!("script {n}"), vec![vec![17, 1, 7, n], vec![17, 5, n]])
            }
            _ => continue,
        };
        ps.retain(|p| !dirs.iter().any(|d| below(&p.path, d)));
        edits.push(format!("{what} taken out"));
    }
    // names changed
    let named: Vec<usize> = (0..ps.len())
        .filter(|i| {
            let p = &ps[*i];
            p.chunk.as_ref().is_some_and(|r| r.kind == Kind::Ref && r.key == Some(16))
                && (matches!(p.path[..], [3, 16, 5, _] | [3, 17, 5, _] | [4, 1, 7, _] | [17, 1, 7, _] | [32, 5, _]) || matches!(p.path[..], [x, 3, 5, _] if x >= 128))
        })
        .collect();
    for _ in 0..s.size(0, 12) {
        let i = *s.pick(&named);
        let t = fmp::file_text(s);
        edits.push(format!("{:?} named {t:?}", ps[i].path));
        let w = wire::any_ref(s, 16, &t.bytes().map(|b| b ^ 0x5a).collect::<Vec<u8>>());
        let r = ps[i].chunk.as_mut().unwrap();
        r.raw = w.bytes;
        r.data = w.data;
    }
    // unrelated chunks taken out
    if s.chance(40) {
        let mut gone = 0;
        let every = s.int(5, 60);
        let mut left = s.below(every);
        ps.retain(|p| {
            let read = matches!(p.path[..], [3, 16, 5, ..] | [3, 17, 5, ..] | [3, 251, ..] | [4, 1, 7, ..] | [17, ..] | [32, 5, ..]) || matches!(p.path[..], [x, 3, 5, ..] if x >= 128);
            if read || left > 0 {
                left = left.saturating_sub(1);
                return true;
            }
            left = every;
            gone += 1;
            false
        });
        edits.push(format!("{gone} unrelated chunks taken out"));
    }
    let want = meaning(&ps)?;
    let entries: Vec<Entry> = ps
        .iter()
        .map(|p| Entry { path: p.path.clone(), chunk: p.chunk.as_ref().map(|r| wire::Wire::raw(r)) })
        .collect();
    let payloads = fmp::sectors(s, &entries);
    let placed = fmp::place(s, &payloads);
    ctx.case(&placed.bytes, || format!("the sample database in {} sectors {:?}, without the directories {out:?}; {edits:?}", payloads.len(), placed.chain));
    ctx.nontrivial = true;
    ctx.label("the sample put together anew");
    let f = decompile(ctx, &placed.bytes)?;
    if !scripts {
        let mut c = want.content.clone();
        for (t, n) in &want.unreadable {
            if let (Some(w), Some(g)) = (c.tables.get_mut(t).and_then(|x| x.fields.get_mut(n)), f.tables.get(t).and_then(|x| x.fields.get(&(*n as u16)))) {
                w.ty = g.field_type.clone();
            }
        }
        return same_schema(&c, &f);
    }
    let names: BTreeMap<usize, String> = want.content.scripts.iter().map(|(k, x)| (*k, x.name.clone())).collect();
    let got: BTreeMap<usize, String> = f.scripts.iter().map(|(k, x)| (*k, x.script_name.clone())).collect();
    if names != got {
        return Err(format!("scripts {got:?}, stored as {names:?}"));
    }
    let got = steps_of(&f);
    for id in names.keys() {
        // operations, numbers and performed scripts from the format note, other
        // arguments as in the sample
        let arguments: BTreeMap<usize, &Vec<String>> = x.scripts.get(id).into_iter().flatten().map(|(_, n, a)| (*n, a)).collect();
        let steps: Vec<StepView> = want
            .steps
            .get(id)
            .into_iter()
            .flatten()
            .filter_map(|(op, n, target)| {
                let name = opcodes::name(*op)?;
                let mut args = arguments.get(n).map(|a| (*a).clone()).unwrap_or_default();
                if name == "PerformScript" {
                    let had = target.and_then(|t| before_name(x, t)).is_some();
                    args.drain(..(had as usize).min(args.len()));
                    if let Some(t) = target.and_then(|t| names.get(&t)) {
                        args.insert(0, format!("\"{t}\""));
                    }
                }
                Some((name.to_string(), *n, args))
            })
            .collect();
        if got[id] != steps {
            return Err(format!("steps of script {id}: {:?}\nstored as {steps:?}", got[id]));
        }
    }
    Ok(())
}

/// Whether the sample has the script.
fn before_name(x: &Sample, id: usize) -> Option<()> {
    x.scripts.contains_key(&id).then_some(())
}
