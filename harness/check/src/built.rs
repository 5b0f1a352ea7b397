//! C15: the database file a burn program is compiled to.

use std::collections::BTreeMap;

use crate::burn::{self, Decl, Layout};
use crate::codec::{any_name, any_text, name_bytes, name_of};
use crate::engine::{guard, Ctx, Prop, Res};
use crate::fmp::SECTOR;
use crate::schema::decompile;
use crate::source::Source;
use crate::wire::{self, Kind};
use burn_fm_hooked::verif as fm;

fn number(b: &[u8]) -> usize {
    b.iter().fold(0, |a, x| a * 256 + *x as usize)
}

fn in_alphabet(n: &str) -> bool {
    n.chars().all(|c| c.is_ascii_alphabetic() || c == '_' || c == ' ')
}

/// The first sector of a database file, from the real empty database.
fn header(name: &str) -> Vec<u8> {
    let mut h = vec![0u8; SECTOR];
    let mut put = |at: usize, b: &[u8]| h[at..at + b.len()].copy_from_slice(b);
    put(0, b"\x00\x01\x00\x00\x00\x02\x00\x01\x00\x05\x00\x02\x00\x02\xc0HBAM7\x00\x00\x10");
    put(519, b"\x01\x00\x1e\x00\x0e\x00HBAM2125JAN11\xc1\x02H\x08Pro 12.0\xc0\xc0");
    put(3072, &[b' '; 1024]);
    put(3072, b"EAFI:RC\rR,");
    put(3082, format!("{name}/\r").as_bytes());
    put(4088, b"\rCR:IFAE");
    h
}

struct Built {
    tables: BTreeMap<usize, String>,
    occurrences: BTreeMap<usize, String>,
    layouts: usize,
    scripts: usize,
}

fn written(ctx: &Ctx, f: &fm::FmpFile) -> Result<Vec<u8>, String> {
    let base = ctx.scratch.join("built");
    let path = ctx.scratch.join("built.fmp12");
    let _ = std::fs::remove_file(&path);
    guard(|| {
        let mut a = fm::Assembler::new(f);
        a.assemble_fmp12(f);
        a.emit_assembly(base.to_str().unwrap());
    })
    .map_err(|e| format!("writing the file {e}"))?;
    std::fs::read(&path).map_err(|e| format!("the file is not written: {e}"))
}

/// Payloads of the sectors in chain order.
pub fn chain(bytes: &[u8]) -> Result<Vec<&[u8]>, String> {
    let mut out = vec![];
    let mut seen = vec![];
    let mut at = 2usize;
    while at != 0 {
        if seen.contains(&at) {
            return Err(format!("the sector chain {seen:?} loops back to sector {at}"));
        }
        seen.push(at);
        let start = at * SECTOR;
        if start + SECTOR > bytes.len() {
            return Err(format!("the sector chain {seen:?} leaves the file of {} bytes", bytes.len()));
        }
        out.push(&bytes[start + 20..start + SECTOR]);
        at = number(&bytes[start + 8..start + 12]);
    }
    Ok(out)
}

/// A number with its length before it, in the forms of directory numbers.
fn counted(d: &[u8]) -> Option<usize> {
    let (len, n) = d.split_first()?;
    (n.len() == *len as usize && (1..4).contains(&n.len()) && !(n.len() == 2 && n[0] < 128)).then(|| wire::id_of(n))
}

fn judge(ctx: &Ctx, b: &Built, name: &str, bytes: &[u8]) -> Res {
    if bytes.len() % SECTOR != 0 || bytes.len() < 3 * SECTOR {
        return Err(format!("the file of {} bytes does not consist of whole sectors", bytes.len()));
    }
    let want = header(name);
    // bytes 2048 to 2303 hold the state of the file's last use
    if let Some(i) = (0..SECTOR).find(|i| !(2048..2304).contains(i) && bytes[*i] != want[*i]) {
        let show = |b: &[u8]| String::from_utf8_lossy(&b[i.saturating_sub(20)..(i + 20).min(SECTOR)]).into_owned();
        return Err(format!("the header differs at byte {i}: {:?}, of a database called {name:?} it is {:?}", show(bytes), show(&want)));
    }
    // the content, by an independent reader
    let mut chunks = vec![];
    for (i, payload) in chain(bytes)?.iter().enumerate() {
        chunks.extend(wire::read_sector(payload).map_err(|e| format!("sector {i} of the chain: {e}"))?);
    }
    let at = |p: &[usize]| -> Vec<&wire::Read> { chunks.iter().filter(|c| c.path == p && !matches!(c.kind, Kind::Pop | Kind::Push | Kind::Noop)).collect() };
    // the directories of the documented file tree
    for dir in [&[2][..], &[3, 16, 5], &[3, 17], &[4, 1], &[6], &[17, 1], &[23], &[25], &[65]] {
        if !chunks.iter().any(|c| c.path == dir) {
            return Err(format!("the file has no directory {dir:?}"));
        }
    }
    let known: Vec<usize> = at(&[2]).iter().filter_map(|c| c.key).collect();
    if known != [3, 5, 6, 8, 9, 11, 24] {
        return Err(format!("the directory [2] holds {known:?}, that of a database [3, 5, 6, 8, 9, 11, 24]"));
    }
    // name list of the tables
    let mut want: Vec<(Vec<u8>, usize)> = vec![];
    for (id, n) in &b.tables {
        if in_alphabet(n) {
            let mut key = name_bytes(n);
            key.extend([0, 0, 0]);
            want.push((key, *id));
        }
    }
    let mut listed = vec![];
    let names = at(&[3, 16, 1, 1]);
    if names.len() != b.tables.len() {
        return Err(format!("the table name list holds {} names of {} tables", names.len(), b.tables.len()));
    }
    for c in names {
        let key = c.long.clone().ok_or("an entry of the table name list has no name")?;
        if c.data.len() != 3 || c.data[0] != 2 || c.data[1] < 128 {
            return Err(format!("the table name list gives {:?} for {:?}", c.data, name_of(&key)));
        }
        let id = (c.data[1] as usize - 128) * 256 + c.data[2] as usize;
        if b.tables.get(&id).is_some_and(|n| in_alphabet(n)) || !b.tables.contains_key(&id) {
            listed.push((key, id));
        }
    }
    if listed != want {
        let show = |v: &[(Vec<u8>, usize)]| v.iter().map(|x| format!("{}={:?}", x.1, name_of(&x.0[..x.0.len().saturating_sub(3)]))).collect::<Vec<_>>().join(" ");
        return Err(format!("the table name list is [{}], declared are [{}]", show(&listed), show(&want)));
    }
    let ids: Vec<(usize, usize)> = at(&[3, 16, 1, 3]).iter().map(|c| (c.long.as_ref().map(|k| number(k)).unwrap_or(usize::MAX), number(&c.data))).collect();
    if ids != b.tables.keys().map(|k| (*k, *k)).collect::<Vec<_>>() {
        return Err(format!("the table id list is {ids:?}, declared are {:?}", b.tables.keys()));
    }
    let count: Vec<usize> = at(&[3, 16, 1]).iter().filter(|c| c.key == Some(4)).map(|c| number(&c.data)).collect();
    if count != [b.tables.len()] {
        return Err(format!("the table count is {count:?}, declared are {} tables", b.tables.len()));
    }
    // counts with their length before them
    for (what, dir, n) in [("layout", &[4, 1][..], b.layouts), ("script", &[17, 1], b.scripts), ("occurrence", &[3, 17, 1], b.occurrences.len())] {
        let count: Vec<&wire::Read> = at(dir).into_iter().filter(|c| c.key == Some(0)).collect();
        let read = count.first().and_then(|c| counted(&c.data));
        if count.len() != 1 || read != Some(n) {
            return Err(format!("the {what} count is {:?}, there are {n}", count.iter().map(|c| &c.data).collect::<Vec<_>>()));
        }
    }
    // occurrences
    let names: Vec<Vec<u8>> = at(&[3, 17, 1, 1]).iter().map(|c| c.data.clone()).collect();
    if names.len() != b.occurrences.len() {
        return Err(format!("the occurrence name list holds {} names of {} occurrences", names.len(), b.occurrences.len()));
    }
    for ((id, n), got) in b.occurrences.iter().zip(&names) {
        if in_alphabet(n) && *got != name_bytes(&format!("{n}\0\0")) {
            return Err(format!("occurrence {id} is listed as {:?}, declared as {n:?}", name_of(got)));
        }
    }
    let ids: Vec<usize> = at(&[3, 17, 1, 3]).iter().map(|c| number(&c.data)).collect();
    if ids != b.occurrences.keys().copied().collect::<Vec<_>>() {
        return Err(format!("the occurrence id list is {ids:?}, declared are {:?}", b.occurrences.keys()));
    }
    // back through the program's own reader
    let back = decompile(ctx, bytes)?;
    let got: BTreeMap<usize, String> = back.tables.iter().map(|(k, t)| (*k, t.table_name.clone())).collect();
    if got != b.tables {
        return Err(format!("decompiling the written file gives the tables {got:?}, declared are {:?}", b.tables));
    }
    let strange = [
        ("fields", back.tables.values().map(|t| t.fields.len()).sum()),
        ("layouts", back.layouts.len()),
        ("scripts", back.scripts.len()),
        ("relationships", back.relationships.len()),
        ("data sources", back.data_sources.len()),
    ];
    if let Some((what, n)) = strange.iter().find(|x| x.1 > 0) {
        return Err(format!("decompiling the written file gives {n} {what} that are not in it"));
    }
    Ok(())
}

fn c15_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let from_source = s.chance(50);
    let long = s.chance(20);
    let (most, avg) = *s.pick(&[(40usize, 3usize), (40, 8), (40, 20), (150, 60), (600, 300)]);
    let mut b = Built { tables: BTreeMap::new(), occurrences: BTreeMap::new(), layouts: 0, scripts: 0 };
    let name = |s: &mut Source| -> String {
        if from_source {
            let mut n = if s.chance(80) { any_name(s, 1, if long { 120 } else { 12 }, true).replace(' ', "_") } else { burn::identifier(s) };
            if (n.parse::<f64>().is_ok() && n.contains(|c: char| c.is_ascii_digit())) || ["define", "end", "table", "test", "script", "relationship", "value_list", "table_occurence"].contains(&n.as_str()) {
                n.push('_');
            }
            n
        } else if s.chance(80) {
            any_name(s, 1, if long { 120 } else { 20 }, true)
        } else {
            let mut n = any_text(s, 30);
            n.truncate((0..=n.len().min(200)).rev().find(|i| n.is_char_boundary(*i)).unwrap_or(0));
            if n.is_empty() { "n".to_string() } else { n }
        }
    };
    let sparse = !from_source && s.chance(50);
    let mut id = 0;
    while s.more(b.tables.len(), 0, most, avg) {
        id += if !sparse { 1 } else if s.chance(5) { s.int(1, 6000) } else { s.int(1, 6) };
        if id > 30_000 {
            break;
        }
        let n = name(s);
        b.tables.insert(id, n);
    }
    // compiled occurrences are numbered from 0
    let mut id = if from_source { 0 } else { s.int(0, 1) };
    while s.more(b.occurrences.len(), 0, most, avg) {
        let n = name(s);
        b.occurrences.insert(id, n);
        id += if sparse { s.int(1, 60) } else { 1 };
    }
    let mut f = fm::FmpFile::new();
    let mut text = String::new();
    if from_source {
        // the declarations among others
        let mut decls: Vec<Decl> = vec![];
        let names: Vec<String> = b.tables.values().cloned().collect();
        let (mut t, mut o) = (b.tables.values(), b.occurrences.values());
        let (mut nt, mut no) = (b.tables.len(), b.occurrences.len());
        while nt + no > 0 {
            if s.below(nt + no) < nt {
                decls.push(Decl::Table(t.next().unwrap().clone()));
                nt -= 1;
            } else {
                let of = if names.is_empty() { "x".to_string() } else { s.pick(&names).clone() };
                decls.push(Decl::Occurrence(o.next().unwrap().clone(), of));
                no -= 1;
            }
            if s.chance(20) {
                let d = burn::declaration(s, &[], &[]);
                if !matches!(d, Decl::Table(_) | Decl::Occurrence(..)) {
                    if let Decl::Scripts(v) = &d {
                        b.scripts += v.len();
                    }
                    decls.push(d);
                }
            }
        }
        if s.chance(3) {
            let n = s.size(1, 600);
            let block = (0..n).map(|k| crate::burn::Script { name: format!("s{k}"), params: vec![], body: vec![] }).collect();
            b.scripts += n;
            decls.push(Decl::Scripts(block));
        }
        let l = Layout::pick(s);
        for d in &decls {
            burn::render_decl(s, &l, d, &mut text);
            text.push_str(&l.gap(s));
        }
    }
    let stem = match s.weighted(&[3, 3, 1]) {
        0 => "test".to_string(),
        1 => any_name(s, 1, 40, true),
        _ => any_name(s, 1, 250, true),
    };
    ctx.case(format!("{text}|{:?}|{:?}|{stem}", b.tables, b.occurrences).as_bytes(), || {
        if from_source { text.clone() } else { format!("tables {:?}\noccurrences {:?}", b.tables, b.occurrences) }
    });
    ctx.nontrivial = b.tables.len() >= 2 && !b.occurrences.is_empty();
    ctx.label_if(b.tables.is_empty(), "no tables");
    ctx.label_if(b.tables.len() > 10, "over ten tables");
    ctx.label_if(b.tables.keys().any(|k| *k >= 128), "table ids from 128");
    ctx.label_if(b.tables.len() > 255, "over 255 tables");
    ctx.label_if(from_source, "compiled from source");
    if from_source {
        ctx.label_if(b.scripts > 127, "over 127 scripts");
        f = guard(|| fm::compile_burn(&text)).map_err(|e| format!("compiling {e}"))?;
    } else {
        for (id, n) in &b.tables {
            let mut t = fm::FMComponentTable::new();
            t.table_name = n.clone();
            f.tables.insert(*id, t);
        }
        for (id, n) in &b.occurrences {
            let mut t = fm::FMComponentTableOccurence::new();
            t.table_occurence_name = n.clone();
            f.table_occurrences.insert(*id, t);
        }
    }
    if !from_source {
        let mut many = |s: &mut Source| if s.chance(10) { s.size(0, 1200) } else { s.below(6) };
        (b.layouts, b.scripts) = (many(s), many(s));
        f.layouts.extend((0..b.layouts).map(|k| (k, fm::FMComponentLayout::new())));
        f.scripts.extend((0..b.scripts).map(|k| (k + 1, fm::FMComponentScript::new())));
    }
    f.name = stem.clone();
    let bytes = written(ctx, &f)?;
    ctx.label_if(bytes.len() > 5 * SECTOR, "content of several sectors");
    let r = judge(ctx, &b, &stem, &bytes);
    let _ = ctx.take_output();
    r?;
    // compiling leaves no room for chance
    if s.chance(10) && written(ctx, &f)? != bytes {
        return Err("writing the same model again gives a different file".to_string());
    }
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "A case is a schema of up to six hundred tables and occurrences (content of up to some twenty sectors), written as a burn program among other declarations or built directly (sparse ids, any names), and written to a database file. The file's sector chain and chunks are read by an independent reader that checks every chunk and directory, its name and id lists and counts are compared with the schema, and it is decompiled again. Non-trivial: at least two tables and an occurrence.",
        assumptions: &[
            "names are up to 120 characters long (FileMaker allows 100), table ids up to 30000",
            "the name lists are judged for names over the supported alphabet (letters, underscore, blank), decompiled names for any text",
        ],
        quick: 60_000,
        thorough: 1_500_000,
        run: c15_case,
        exhaustive: None,
    }
}
