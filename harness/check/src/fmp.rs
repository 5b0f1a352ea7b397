//! Synthesises database files: an abstract content is written with freely
//! chosen chunk encodings, directory re-entries, sector boundaries and sector
//! order, among unrelated content.

use std::collections::{BTreeMap, BTreeSet};

use crate::codec::any_text;
use crate::opcodes::OPCODES;
use crate::source::Source;
use crate::wire::{self, any_push, any_ref, any_simple, Wire};

pub const SECTOR: usize = 4096;
const ROOM: usize = SECTOR - 20;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Field {
    pub name: String,
    pub ty: String,
    pub desc: String,
    pub account: String,
    pub user: String,
}

#[derive(Clone, Debug, Default)]
pub struct Table {
    pub name: String,
    pub fields: BTreeMap<usize, Field>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rel {
    pub table1: usize,
    pub table2: usize,
    pub field1: usize,
    pub field2: usize,
    pub cmp: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Source_ {
    pub name: String,
    pub ty: String,
    pub path: String,
    pub file: String,
    pub user: String,
    pub located: bool,
}

#[derive(Clone, Debug)]
pub struct Step {
    /// operation number; may be unknown
    pub op: u8,
    pub index: usize,
    /// number of the script it performs
    pub target: Option<usize>,
    /// (directory 128 key 1), (128/5 key 5 text), (128/5 key 5 calculation), (129/5 key 5 calculation)
    pub var: Option<String>,
    pub text128: Option<String>,
    pub calc128: Option<Calc>,
    pub calc129: Option<Calc>,
}

#[derive(Clone, Debug)]
pub struct Calc {
    pub bytes: Vec<u8>,
    pub text: String,
    pub tokens: usize,
    pub kinds: BTreeSet<&'static str>,
}

#[derive(Clone, Debug, Default)]
pub struct Script {
    pub name: String,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Default)]
pub struct Content {
    pub tables: BTreeMap<usize, Table>,
    pub occurrences: BTreeMap<usize, (String, usize)>,
    pub relations: BTreeMap<usize, Rel>,
    pub layouts: BTreeMap<usize, (String, usize)>,
    pub sources: BTreeMap<usize, Source_>,
    pub scripts: BTreeMap<usize, Script>,
}

/* ------------------------------------------------------- abstract content */

/// A name as found in files: mostly readable, sometimes any text.
pub fn file_text(s: &mut Source) -> String {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => {
            let n = s.int(1, 8);
            (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()
        }
        1 => {
            let n = s.int(1, 3);
            let words = ["Table", "Order", "Kunde", "Größe", "名前", "x", "1", "Primary Key", "::", "Layout", "Z"];
            (0..n).map(|_| *s.pick(&words)).collect::<Vec<_>>().join(*s.pick(&[" ", "_", ""]))
        }
        2 => any_text(s, 30),
        _ => {
            let n = *s.pick(&[0usize, 1, 2, 4, 6, 8, 63, 64, 127, 128, 200, 255]);
            (0..n).map(|i| (b'0' + (i % 75) as u8) as char).collect()
        }
    }
}

fn sparse_id(s: &mut Source, lo: usize, hi: usize) -> usize {
    match s.weighted(&[6, 3, 2]) {
        0 => s.int(lo, (lo + 12).min(hi)),
        1 => s.int(lo, (lo + 400).min(hi)),
        _ => s.int(lo, hi),
    }
}

/// Which parts to fill and how much.
#[derive(Clone, Copy)]
pub struct Want {
    pub schema: usize,
    pub scripts: usize,
    pub steps: usize,
}

fn count(n: &mut usize) -> usize {
    *n += 1;
    *n - 1
}

pub fn content(s: &mut Source, want: Want) -> Content {
    let mut c = Content::default();
    let n = want.schema;
    // now and then, one dimension far beyond the usual
    let kinds: &[usize] = match (n > 0, want.scripts > 0) {
        (true, false) => &[1, 2, 3, 4, 5, 6],
        (false, true) => &[7, 8],
        _ => &[1, 2, 3, 4, 5, 6, 7, 8, 8],
    };
    let large = if s.chance(if n > 0 { 3 } else { 2 }) { *s.pick(kinds) } else { 0 };
    let least = if large > 0 { s.int(9, 150) } else { 0 };
    let big = |k: usize, least_: usize, most: usize, avg: usize| if large == k { (least, 400, 100) } else { (least_, most, avg) };
    let big_table = s.below(2);
    let mut tries = 0;
    let (least_, most, avg) = big(1, 0, 2 * n, n);
    while n > 0 && s.more(count(&mut tries), least_, most, avg) {
        let most = if s.chance(10) { 65535 - 128 } else { 900 };
        let id = sparse_id(s, 1, most);
        let name = file_text(s);
        let mut fields = BTreeMap::new();
        let mut tries = 0;
        let (least_, most, avg) = if c.tables.len() == big_table { big(6, 0, 3 * n, n) } else { (0, 3 * n, n) };
        while s.more(count(&mut tries), least_, most, avg) {
            let f = if s.chance(70) { sparse_id(s, 1, 2000) } else { s.int(0, 65535) };
            let mut field = Field { name: file_text(s), ..Default::default() };
            if s.chance(40) {
                field.ty = file_text(s);
            }
            if s.chance(40) {
                field.desc = file_text(s);
            }
            if s.chance(40) {
                field.account = file_text(s);
            }
            if s.chance(40) {
                field.user = file_text(s);
            }
            fields.insert(f, field);
        }
        c.tables.insert(id, Table { name, fields });
    }
    let mut tries = 0;
    let (least_, most, avg) = big(2, 0, 2 * n, n);
    while n > 0 && s.more(count(&mut tries), least_, most, avg) {
        let id = match s.below(3) {
            0 => s.int(0, 20),
            1 => s.int(0, 300),
            _ => s.int(0, 65535),
        };
        let tables: Vec<usize> = c.tables.keys().copied().filter(|t| *t < crate::codec::PATH_INTS - 128).collect();
        let table = match s.below(10) {
            0 => s.int(0, 255),
            1 => s.int(0, crate::codec::PATH_INTS - 129),
            _ if tables.is_empty() => s.int(0, 255),
            _ => *s.pick(&tables),
        };
        c.occurrences.insert(id, (file_text(s), table));
    }
    let occ: Vec<usize> = c.occurrences.keys().copied().collect();
    let mut tries = 0;
    let (least_, most, avg) = big(3, 0, 2 * n, n);
    while occ.len() > 1 && s.more(count(&mut tries), least_, most, avg) {
        let i = s.below(occ.len() - 1);
        let j = i + 1 + s.below(occ.len() - 1 - i);
        let id = match s.below(3) {
            0 => s.int(1, 20),
            1 => s.int(100, 500),
            _ => s.int(0, 65535),
        };
        let field = |s: &mut Source| sparse_id(s, 0, crate::codec::PATH_INTS - 129);
        let (field1, field2) = (field(s), field(s));
        c.relations.insert(id, Rel { table1: occ[i], table2: occ[j], field1, field2, cmp: s.below(7) });
    }
    let mut tries = 0;
    let (least_, most, avg) = big(4, 0, 2 * n, n);
    while n > 0 && s.more(count(&mut tries), least_, most, avg) {
        let id = sparse_id(s, 0, 65535);
        let small: Vec<usize> = occ.iter().copied().filter(|o| *o < 128).collect();
        let to = if small.is_empty() || s.chance(10) { s.int(0, 127) } else { *s.pick(&small) };
        c.layouts.insert(id, (file_text(s), to));
    }
    let mut tries = 0;
    let (least_, most, avg) = big(5, 0, n, n / 2);
    while n > 0 && s.more(count(&mut tries), least_, most, avg) {
        let id = sparse_id(s, 0, 65535);
        let mut d = Source_ { name: file_text(s), ..Default::default() };
        if s.chance(85) {
            d.located = true;
            d.ty = s.pick(&["FMPR", "fmpro", "ODBC", "x"]).to_string();
            d.path = source_path(s);
            let n = s.size(0, 40);
            d.file = (0..n).map(|_| *s.pick(&['a', 'B', '1', ' ', '.', '_', 'h', 'ü', '文', 'z'])).collect();
        }
        if s.chance(50) {
            d.user = file_text(s);
        }
        c.sources.insert(id, d);
    }
    let mut tries = 0;
    let (least_, most, avg) = big(7, 1, 2 * want.scripts, want.scripts);
    while want.scripts > 0 && s.more(count(&mut tries), least_, most, avg) {
        let id = if s.chance(60) { s.int(1, 40) } else { sparse_id(s, 0, 65535) };
        c.scripts.insert(id, Script { name: file_text(s), steps: vec![] });
    }
    let ids: Vec<usize> = c.scripts.keys().copied().collect();
    for id in &ids {
        let mut steps: Vec<Step> = vec![];
        let mut used = BTreeSet::new();
        let avg = if s.chance(15) { 3 * want.steps } else { want.steps };
        let mut tries = 0;
        let (least_, most, avg) = if Some(id) == ids.first() { big(8, 0, 6 * want.steps, avg) } else { (0, 6 * want.steps, avg) };
        let most = if large == 8 { 2 * most } else { most };
        while s.more(count(&mut tries), least_, most, avg) {
            steps.push(step(s, &ids, &mut used));
        }
        c.scripts.get_mut(id).unwrap().steps = steps;
    }
    c
}

fn source_path(s: &mut Source) -> String {
    let n = s.size(0, 30);
    (0..n)
        .map(|_| match s.weighted(&[8, 2, 1, 1]) {
            0 => *s.pick(&['h', 'o', 'm', 'e', 'H', 'x', '9', ' ', '_', '-', 'é', 'C']),
            1 => '/',
            2 => '.',
            _ => ':',
        })
        .collect()
}

fn step(s: &mut Source, scripts: &[usize], used: &mut BTreeSet<usize>) -> Step {
    let op = match s.weighted(&[3, 3, 3, 2, 2, 6, 2]) {
        0 => 1,   // perform script
        1 => 141, // set variable
        2 => 103, // exit script
        3 => 68,  // if
        4 => 72,  // exit loop if
        5 => s.pick(&OPCODES).0,
        _ => s.byte(),
    };
    let mut index;
    loop {
        index = match s.below(3) {
            0 => used.len() + 1,
            1 => s.int(0, 300),
            _ => s.int(0, 65535),
        };
        while used.contains(&index) {
            index = (index + 1) % 65536;
        }
        if used.insert(index) {
            break;
        }
    }
    let target = match s.weighted(&[8, 2, 1]) {
        0 if !scripts.is_empty() => Some(*s.pick(scripts)),
        1 => Some(s.int(0, 65535)),
        _ => None,
    };
    let mut st = Step { op, index, target, var: None, text128: None, calc128: None, calc129: None };
    let known = crate::opcodes::name(op);
    match known {
        Some("SetVariable") => {
            if s.chance(90) {
                st.var = Some(if s.chance(70) { format!("${}", file_text_short(s)) } else { file_text_short(s) });
            }
            if s.chance(10) {
                st.text128 = Some(file_text_short(s));
            }
            if s.chance(80) {
                st.calc129 = Some(calc(s, 6));
            }
        }
        Some("ExitScript") => {
            if s.chance(80) {
                st.calc128 = Some(calc(s, 6));
            }
        }
        Some("PerformScript") => {
            if s.chance(40) {
                st.calc129 = Some(calc(s, 6));
            }
        }
        Some(_) => {
            if s.chance(50) {
                st.calc129 = Some(calc(s, 6));
            }
        }
        None => {
            // arguments of a step that is skipped
            if s.chance(30) {
                st.calc129 = Some(calc(s, 4));
            }
            if s.chance(20) {
                st.var = Some(file_text_short(s));
            }
        }
    }
    st
}

fn file_text_short(s: &mut Source) -> String {
    let t = file_text(s);
    t.chars().take(40).collect()
}

/// Stored calculation and the text it stands for.
pub fn calc(s: &mut Source, avg: usize) -> Calc {
    let mut c = Calc { bytes: vec![], text: String::new(), tokens: 0, kinds: BTreeSet::new() };
    const OPS: [(&[u8], &str); 24] = [
        (&[0x25], "+"), (&[0x26], "-"), (&[0x27], "*"), (&[0x28], "/"), (&[0x41], "<"), (&[0x43], "<="),
        (&[0x44], "=="), (&[0x46], "!="), (&[0x47], ">="), (&[0x49], ">"), (&[0x50], "&"), (&[0x04], "("),
        (&[0x05], ")"), (&[0x2d], "Abs"), (&[0x9b], "Get"), (&[0x9c, 0x1d], "CurrentTime"),
        (&[0x9c, 0x20], "AccountName"), (&[0x9c, 0x49], "DocumentsPath"), (&[0x9c, 0x5d], "DocumentsPathListing"),
        (&[0x9d], "Acos"), (&[0xfb, 0x03], "Char"), (&[0x04], "("), (&[0x05], ")"), (&[0x25], "+"),
    ];
    let mut lone_blank = false;
    let long = s.chance(2);
    let often = s.pick(&OPS);
    let (most, avg) = if long { (255, 200) } else { (60, avg) };
    while s.more(c.tokens, 0, most, avg) {
        let mut b: Vec<u8> = vec![];
        let text;
        let kind;
        let mut kind_no = s.weighted(&[10, 4, 4, 4, 3, 2]);
        if long && s.chance(95) {
            kind_no = 0; // room is 255 bytes: short tokens make the most of it
        }
        if lone_blank && kind_no == 2 {
            kind_no = 3; // a blank before a string is written with its length
        }
        let mut is_blank = false;
        match kind_no {
            0 => {
                let (bytes, t) = if long && s.chance(50) { often } else { s.pick(&OPS) };
                b.extend_from_slice(bytes);
                text = t.to_string();
                kind = *t;
            }
            1 => {
                let v = s.byte();
                b.push(0x10);
                let mut body = if s.chance(60) { vec![0u8; 19] } else { s.bytes(19) };
                body[8] = v;
                b.extend_from_slice(&body);
                text = v.to_string();
                kind = "number";
            }
            2 => {
                let n = s.size(0, 30);
                let mut t = any_text(s, n);
                if s.chance(5) {
                    t = (0..s.int(100, 253)).map(|i| (b'!' + (i % 90) as u8) as char).collect();
                }
                b.push(0x13);
                b.push(t.len() as u8);
                b.extend(t.bytes().map(|x| x ^ 0x5a));
                text = format!("\"{t}\"");
                kind = "string";
            }
            3 => {
                let mut t = if s.chance(70) { format!("${}", file_text_short(s)) } else { file_text_short(s) };
                if s.chance(3) {
                    t = (0..s.int(100, 250)).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                }
                b.push(0x1a);
                b.push(t.len() as u8);
                b.extend(t.bytes().map(|x| x ^ 0x5a));
                text = t;
                kind = "variable";
            }
            4 => {
                let n = s.size(1, 12);
                let t: String = (0..n).map(|_| *s.pick(&[' ', '\n', '\t', '\r', '\u{a0}', '\u{3000}'])).collect();
                b.extend_from_slice(&[0x0c, 0x13, t.len() as u8]);
                b.extend(t.bytes().map(|x| x ^ 0x5a));
                text = t;
                kind = "blanks";
            }
            _ => {
                b.push(0x0c);
                text = " ".to_string();
                kind = "blank";
                is_blank = true;
            }
        }
        if c.bytes.len() + b.len() > 255 {
            break;
        }
        lone_blank = is_blank;
        c.bytes.extend_from_slice(&b);
        c.text.push_str(&text);
        c.tokens += 1;
        c.kinds.insert(kind);
    }
    c
}

/* ------------------------------------------------------------ as entries */

/// A chunk in a directory; without a chunk, the directory is only visited.
pub struct Entry {
    pub path: Vec<usize>,
    pub chunk: Option<Wire>,
}

pub struct Writer<'s> {
    pub s: &'s mut Source,
    pub entries: Vec<Entry>,
    /// percentage of places where unrelated content is put
    pub noise: usize,
    pub used_noise: bool,
}

fn enc(t: &str) -> Vec<u8> {
    t.bytes().map(|b| b ^ 0x5a).collect()
}

impl<'s> Writer<'s> {
    fn put(&mut self, path: &[usize], w: Wire) {
        self.entries.push(Entry { path: path.to_vec(), chunk: Some(w) });
    }

    fn text(&mut self, path: &[usize], key: usize, t: &str) {
        let w = any_ref(self.s, key, &enc(t));
        self.put(path, w);
    }

    fn visit(&mut self, path: &[usize]) {
        self.entries.push(Entry { path: path.to_vec(), chunk: None });
    }

    /// Chunk with a key that means nothing here (keys in `not` do).
    fn noise_in(&mut self, path: &[usize], not: &[usize], simple: bool) {
        if !self.s.chance(self.noise) {
            return;
        }
        self.used_noise = true;
        let w = match self.s.weighted(&[3, 2, 1, 1]) {
            1 => {
                let n = self.s.size(0, 12);
                let k = self.s.bytes(n);
                let n = self.s.size(0, 60);
                let d = self.s.bytes(n);
                wire::any_long(self.s, &k, &d)
            }
            2 if simple => {
                let n = self.s.size(0, 60);
                let d = self.s.bytes(n);
                any_simple(self.s, &d)
            }
            3 => wire::noop(),
            _ => {
                let mut key = if self.s.chance(60) { self.s.int(0, 255) } else { self.s.int(128, 2000) };
                while not.contains(&key) {
                    key += 1;
                }
                let n = self.s.size(0, 60);
                let d = self.s.bytes(n);
                any_ref(self.s, key, &d)
            }
        };
        self.put(path, w);
    }

    /// Chunks of any kind in a directory nothing is read from.
    fn noise_dir(&mut self, path: &[usize]) {
        self.noise_chunks(path, false)
    }

    /// `leaving`: the parent directory is not read either.
    fn noise_chunks(&mut self, path: &[usize], leaving: bool) {
        if !self.s.chance(self.noise) {
            return;
        }
        self.used_noise = true;
        let mut n = 0;
        while self.s.more(n, 1, 8, 2) {
            n += 1;
            let mut p = path.to_vec();
            if self.s.chance(40) {
                p.push(wire::any_id(self.s));
            }
            let w = loop {
                let w = wire::any_chunk(self.s);
                let flagged = w.bytes[0] & 0xC0 == 0xC0;
                if !matches!(w.kind, wire::Kind::Push | wire::Kind::Pop) && w.bytes.len() < 3000 && (leaving || !flagged) {
                    break w;
                }
            };
            self.put(&p, w);
        }
    }

    /// What looks like a component, in a directory beside those of its kind:
    /// step `i` of the path is replaced by one that is not in `not`.
    fn noise_beside(&mut self, at: &[usize], i: usize, not: &[usize]) {
        if !self.s.chance(self.noise) {
            return;
        }
        self.used_noise = true;
        let mut p = at.to_vec();
        while not.contains(&p[i]) {
            p[i] = match self.s.below(3) {
                0 => self.s.int(0, 20),
                1 => at[i] + 1,
                _ => wire::any_id(self.s),
            };
        }
        if self.s.chance(50) {
            self.visit(&p);
        }
        let mut n = 0;
        while self.s.more(n, 1, 6, 3) {
            n += 1;
            let key = *self.s.pick(&[1usize, 2, 4, 5, 16, 16, 129, 130]);
            let d = if key == 16 {
                enc(&file_text(self.s))
            } else {
                let n = self.s.size(7, 60);
                let mut d = self.s.bytes(n);
                for b in d.iter_mut().take(7) {
                    *b |= 0x80;
                }
                d
            };
            let w = any_ref(self.s, key, &d);
            self.put(&p, w);
        }
    }

    fn noise_top(&mut self, among: &[usize]) {
        if self.noise == 0 {
            return;
        }
        let mut p = vec![*self.s.pick(among)];
        while self.s.more(p.len(), 1, 5, 2) {
            p.push(match self.s.below(3) {
                0 => *self.s.pick(&[1usize, 3, 4, 5, 7, 16, 17, 251, 129, 128]),
                _ => wire::any_id(self.s),
            });
        }
        self.noise_chunks(&p, true);
    }
}

pub fn entries(s: &mut Source, c: &Content, noise: usize) -> (Vec<Entry>, bool) {
    let mut w = Writer { s, entries: vec![], noise, used_noise: false };
    w.noise_top(&[2, 0, 1]);
    // tables
    w.noise_dir(&[3, 1, 1]);
    if w.s.chance(noise) {
        // the name list of the tables
        for t in c.tables.values() {
            let key = enc(&t.name);
            let n = w.s.size(0, 12);
            let d = w.s.bytes(n);
            let x = wire::any_long(w.s, &key[..key.len().min(200)], &d);
            w.put(&[3, 16, 1, 1], x);
        }
    }
    for (id, t) in &c.tables {
        let p = [3, 16, 5, 128 + id];
        w.visit(&p);
        w.noise_in(&p, &[16], true);
        w.text(&p, 16, &t.name);
        w.noise_in(&p, &[16], true);
        let mut q = p.to_vec();
        q.push(w.s.int(0, 400));
        w.noise_dir(&q);
    }
    let t = c.tables.keys().next().copied().unwrap_or(1);
    w.noise_beside(&[3, 16, 5, 128 + t], 2, &[5]);
    w.noise_beside(&[3, 16, 5, 128 + t], 1, &[16, 17, 251]);
    w.noise_dir(&[3, 17, 1, 1]);
    for (id, (name, table)) in &c.occurrences {
        let p = [3, 17, 5, *id];
        if w.s.chance(20) {
            w.visit(&p);
        }
        w.noise_in(&p, &[2, 16], true);
        let n = w.s.size(7, 30);
        let mut d = w.s.bytes(n);
        (d[5], d[6]) = wire::id2(w.s, 128 + table);
        let x = any_ref(w.s, 2, &d);
        w.put(&p, x);
        w.text(&p, 16, name);
        w.noise_in(&p, &[2, 16], true);
        let q = [3, 17, 5, *id, 251];
        let listed: Vec<(usize, usize)> = c
            .relations
            .iter()
            .filter(|(_, r)| r.table1 == *id || r.table2 == *id)
            .map(|(k, r)| (*k, if r.table1 == *id { r.table2 } else { r.table1 }))
            .collect();
        for (rel, other) in listed {
            w.noise_in(&q, &[], false);
            let mut d = vec![w.s.byte(), (other >> 8) as u8, other as u8, w.s.byte()];
            d.extend(id_bytes(w.s, rel));
            let x = any_simple(w.s, &d);
            w.put(&q, x);
        }
        w.noise_dir(&[3, 17, 5, *id, 250]);
        w.noise_dir(&[3, 17, 5, *id, 252]);
    }
    for (id, r) in &c.relations {
        w.noise_in(&[3, 251, 5, *id], &[], true);
        let p = [3, 251, 5, *id, 3];
        w.noise_in(&p, &[1], true);
        let (a, b) = wire::id2(w.s, 128 + r.field1);
        let (e, f) = wire::id2(w.s, 128 + r.field2);
        let mut d = vec![r.cmp as u8, w.s.byte(), a, b, w.s.byte(), e, f];
        let n = w.s.size(0, 10);
        d.extend(w.s.bytes(n));
        let x = any_ref(w.s, 1, &d);
        w.put(&p, x);
        w.noise_in(&p, &[1], true);
        w.noise_dir(&[3, 251, 5, *id, 4]);
    }
    let o = c.occurrences.keys().next().copied().unwrap_or(1);
    w.noise_beside(&[3, 17, 5, o], 2, &[5]);
    w.noise_beside(&[3, 17, 5, o, 251], 4, &[251]);
    let r = c.relations.keys().next().copied().unwrap_or(1);
    w.noise_beside(&[3, 251, 5, r], 2, &[5]);
    w.noise_beside(&[3, 251, 5, r, 3], 4, &[3]);
    // layouts
    w.noise_dir(&[4, 1, 6]);
    for (id, (name, to)) in &c.layouts {
        let p = [4, 1, 7, *id];
        w.visit(&p);
        w.noise_in(&p, &[2, 16], true);
        let n = w.s.size(2, 12);
        let mut d = w.s.bytes(n);
        d[1] = 128 + *to as u8;
        let x = any_ref(w.s, 2, &d);
        w.put(&p, x);
        w.text(&p, 16, name);
        w.noise_in(&p, &[2, 16], true);
        let q = [4, 1, 7, *id, w.s.int(0, 200)];
        w.noise_in(&q, &[2, 16], true);
    }
    let l = c.layouts.keys().next().copied().unwrap_or(1);
    w.noise_beside(&[4, 1, 7, l], 1, &[1]);
    w.noise_beside(&[4, 1, 7, l], 2, &[7]);
    w.noise_top(&[5, 6, 10, 16]);
    w.noise_dir(&[4, 5, 1]);
    // scripts
    w.noise_in(&[17, 1, 1], &[16], true);
    w.noise_in(&[17, 1, 3], &[16], true);
    for (id, sc) in &c.scripts {
        let p = [17, 1, 7, *id];
        w.noise_in(&p, &[16], true);
        w.text(&p, 16, &sc.name);
        w.noise_in(&p, &[16], true);
        let q = [17, 1, 7, *id, w.s.int(0, 200)];
        w.noise_in(&q, &[16], true);
    }
    for (id, sc) in &c.scripts {
        script_entries(&mut w, *id, sc);
    }
    let sc = c.scripts.keys().next().copied().unwrap_or(1);
    w.noise_beside(&[17, 1, 7, sc], 1, &[1, 5]);
    w.noise_beside(&[17, 5, sc], 1, &[1, 5]);
    w.noise_top(&[18, 23, 25, 31]);
    // data sources
    w.noise_dir(&[32, 1, 3]);
    for (id, d) in &c.sources {
        let p = [32, 5, *id];
        w.visit(&p);
        w.noise_in(&p, &[16, 129, 130], true);
        w.text(&p, 16, &d.name);
        if d.located {
            let x = wire::ref1(0x06, 130, &location(w.s, d));
            w.put(&p, x);
        }
        if !d.user.is_empty() {
            let e = enc(&d.user);
            let fixed = [1usize, 2, 4, 6, 8].iter().position(|l| *l == e.len());
            let mut forms = vec![0x0E];
            forms.extend(fixed.iter().map(|i| 1 + *i as u8));
            forms.extend(fixed.iter().map(|i| 9 + *i as u8));
            let x = wire::ref_with(w.s, &forms, 130, &e);
            w.put(&p, x);
        }
        let q = [32, 5, *id, w.s.int(0, 200)];
        w.noise_in(&q, &[16, 129, 130], true);
    }
    let d = c.sources.keys().next().copied().unwrap_or(1);
    w.noise_beside(&[32, 5, d], 1, &[5]);
    w.noise_top(&[33, 40, 65, 93, 100, 127]);
    // laid out like fields, of no table
    let p = [*w.s.pick(&[5usize, 33, 65, 100, 126, 127]), 3, 5, w.s.int(0, 300)];
    w.noise_chunks(&p, true);
    // fields
    for (id, t) in &c.tables {
        let top = 128 + id;
        w.noise_dir(&[top, 2, 5]);
        w.noise_dir(&[top, 3, 1]);
        for (f, field) in &t.fields {
            let p = [top, 3, 5, *f];
            w.visit(&p);
            let all = [2, 3, 16, 129, 130];
            w.noise_in(&p, &all, true);
            let parts = [(2, &field.ty), (3, &field.desc), (16, &field.name), (129, &field.account), (130, &field.user)];
            for (key, v) in parts {
                if !v.is_empty() || key == 16 {
                    w.text(&p, key, v);
                    w.noise_in(&p, &all, true);
                }
            }
            let q = [top, 3, 5, *f, w.s.int(0, 300)];
            w.noise_dir(&q);
        }
        w.noise_dir(&[top, 4]);
        w.noise_dir(&[top, 3, 6, 1]);
        let f = t.fields.keys().next().copied().unwrap_or(1);
        w.noise_beside(&[top, 3, 5, f], 1, &[3]);
        w.noise_beside(&[top, 3, 5, f], 2, &[5]);
    }
    let used = w.used_noise;
    (w.entries, used)
}

fn id_bytes(s: &mut Source, id: usize) -> Vec<u8> {
    let mut forms = vec![3];
    if id < 256 {
        forms.push(1);
    }
    if (128..crate::codec::PATH_INTS).contains(&id) {
        forms.push(2);
    }
    match *s.pick(&forms) {
        1 => vec![id as u8],
        2 => {
            let (a, b) = wire::id2(s, id);
            vec![a, b]
        }
        _ => vec![s.byte(), (id >> 8) as u8, id as u8],
    }
}

fn location(s: &mut Source, d: &Source_) -> Vec<u8> {
    let mut b = s.bytes(4);
    b.push(d.ty.len() as u8);
    b.extend(enc(&d.ty));
    let mut path = vec![];
    let mut rest = &d.path[..];
    while !rest.is_empty() {
        let c = rest.chars().next().unwrap();
        if rest.starts_with("..") && s.chance(50) {
            path.push(0xdb);
            rest = &rest[2..];
            continue;
        }
        if c == '/' && s.chance(50) {
            path.push(0xda);
        } else if c == ':' && s.chance(50) {
            path.push(0x41);
        } else {
            path.extend(enc(&c.to_string()));
        }
        rest = &rest[c.len_utf8()..];
    }
    b.push(path.len() as u8);
    b.extend_from_slice(&[0x41, 0x32]);
    b.extend(path);
    b.push(d.file.len() as u8);
    b.extend(enc(&d.file));
    let n = s.size(0, 6);
    b.extend(s.bytes(n));
    b
}

fn step_record(s: &mut Source, st: &Step) -> Vec<u8> {
    let mut r = s.bytes(28);
    // a length, something unknown and the number
    let mut number = |at: usize, n: usize| {
        let id = if n < 256 && (n < 128 || s.chance(20)) { vec![n as u8] } else { id_bytes(s, n) };
        r[at] = id.len() as u8 + 1;
        r[at + 2..at + 2 + id.len()].copy_from_slice(&id);
    };
    number(0, st.index);
    match st.target {
        Some(n) => number(6, n),
        None if st.op == 1 => r[6] = 0,
        None => {}
    }
    r[21] = st.op;
    r
}

fn script_entries(w: &mut Writer, id: usize, sc: &Script) {
    let p = [17, 5, id];
    let mut code = vec![];
    for st in &sc.steps {
        code.extend(step_record(w.s, st));
    }
    // something after the last whole record is not a step
    if w.s.chance(10) {
        let n = w.s.int(1, 27);
        code.extend(w.s.bytes(n));
    }
    w.noise_in(&p, &[4], false);
    let inline = code.len() < 3800 && w.s.chance(35);
    if inline {
        let x = if code.len() < 256 && w.s.chance(50) {
            any_ref(w.s, 4, &code)
        } else {
            wire::any_segment(w.s, 4, &code)
        };
        w.put(&p, x);
    } else {
        let q = [17, 5, id, 4];
        if w.s.chance(30) {
            w.visit(&q);
        }
        let mut idx = w.s.int(0, 3);
        let mut at = 0;
        let max = *w.s.pick(&[4000usize, 1000, 300, 100, 60, 28]);
        while at < code.len() {
            let n = match w.s.below(3) {
                0 => max,
                1 => w.s.int(1, max),
                _ => 28 * w.s.int(1, max / 28),
            }
            .min(code.len() - at)
            .min(4000)
            .max((code.len() - at).div_ceil(256 - idx).min(4000));
            let x = wire::any_segment(w.s, idx as u8, &code[at..at + n]);
            w.put(&q, x);
            w.noise_in(&q, &[4], false);
            at += n;
            idx += if w.s.chance(10) && idx < 100 { 2 } else { 1 };
        }
    }
    let mut order: Vec<&Step> = sc.steps.iter().collect();
    order.sort_by_key(|st| st.index);
    for st in order {
        let a = [17, 5, id, 5, st.index, 128];
        let b = [17, 5, id, 5, st.index, 128, 5];
        let c = [17, 5, id, 5, st.index, 129, 5];
        w.noise_in(&[17, 5, id, 5, st.index], &[], true);
        if let Some(v) = &st.var {
            w.text(&a, 1, v);
            w.noise_in(&a, &[1], true);
        }
        if let Some(v) = &st.text128 {
            w.text(&b, 5, v);
        }
        if let Some(v) = &st.calc128 {
            let x = any_ref(w.s, 5, &v.bytes);
            w.put(&b, x);
        }
        if st.var.is_some() || st.calc128.is_some() {
            w.noise_in(&b, &[5], true);
        }
        if let Some(v) = &st.calc129 {
            w.noise_in(&c, &[5], true);
            let x = any_ref(w.s, 5, &v.bytes);
            w.put(&c, x);
            w.noise_in(&c, &[5], true);
        }
        w.noise_dir(&[17, 5, id, 5, st.index, 130]);
    }
    w.noise_dir(&[17, 5, id, 6]);
}

/* ------------------------------------------------------------ as sectors */

fn pop_code(s: &mut Source) -> u8 {
    if s.chance(20) { 0x3D } else { 0x40 }
}

/// Content of the sectors of the chain, in order.
pub fn sectors(s: &mut Source, entries: &[Entry]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    let mut cur: Vec<u8> = vec![];
    let mut path: Vec<usize> = vec![];
    let style = s.below(3);
    let mut limit = next_limit(s, style);
    for e in entries {
        // leave and re-enter at times
        if s.chance(4) {
            let keep = s.below(path.len() + 1);
            for _ in keep..path.len() {
                cur.push(pop_code(s));
            }
            path.truncate(keep);
        }
        if s.chance(3) {
            cur.push(0x80);
        }
        let body = e.chunk.as_ref().map(|c| c.bytes.clone()).unwrap_or_default();
        let step = moves(s, &path, &e.path);
        let full = cur.len() + step.len() + body.len();
        if full > limit && (!cur.is_empty()) {
            close(s, &mut cur, &mut path, &mut out);
            limit = next_limit(s, style);
            cur.extend(moves(s, &[], &e.path));
        } else {
            cur.extend(step);
        }
        cur.extend(body);
        assert!(cur.len() <= ROOM, "entry too long");
        path = e.path.clone();
        if let Some(c) = &e.chunk {
            c.apply(&mut path);
        }
    }
    if cur.len() + path.len() < ROOM && s.chance(20) {
        // closed to the root and beyond, as in files of FileMaker's
        for _ in 0..=path.len() {
            cur.push(pop_code(s));
        }
        path.clear();
    }
    close(s, &mut cur, &mut path, &mut out);
    out
}

fn next_limit(s: &mut Source, style: usize) -> usize {
    match style {
        0 => ROOM,
        1 => s.int(300, ROOM),
        _ => s.int(60, 700),
    }
}

fn moves(s: &mut Source, from: &[usize], to: &[usize]) -> Vec<u8> {
    let same = from.iter().zip(to).take_while(|(a, b)| a == b).count();
    let mut b = vec![];
    for _ in same..from.len() {
        b.push(pop_code(s));
    }
    for id in &to[same..] {
        b.extend(any_push(s, *id).bytes);
    }
    b
}

fn close(s: &mut Source, cur: &mut Vec<u8>, path: &mut Vec<usize>, out: &mut Vec<Vec<u8>>) {
    if cur.len() + path.len() <= ROOM && s.chance(70) {
        for _ in 0..path.len() {
            cur.push(pop_code(s));
        }
    }
    path.clear();
    if cur.len() > ROOM {
        // only the noops and pops above can make it this long
        cur.truncate(ROOM);
    }
    let fill = if s.chance(70) { 0x00 } else { 0x80 };
    if fill == 0 && (ROOM - cur.len()) % 2 == 1 {
        cur.push(0x80);
    }
    cur.resize(ROOM, fill);
    out.push(std::mem::take(cur));
}

/// Where the sectors of the chain lie, and the rest of the file.
pub struct Placement {
    pub bytes: Vec<u8>,
    /// sector numbers of the chain, in order
    pub chain: Vec<usize>,
    pub unlinked: Vec<usize>,
}

pub fn place(s: &mut Source, payloads: &[Vec<u8>]) -> Placement {
    let extra = if s.chance(50) { s.size(0, 5) } else { 0 };
    let total = 2 + payloads.len() + extra;
    let mut free: Vec<usize> = (3..total).collect();
    if s.chance(60) {
        s.shuffle(&mut free);
    }
    let mut chain = vec![2];
    chain.extend(&free[..payloads.len() - 1]);
    let unlinked: Vec<usize> = free[payloads.len() - 1..].to_vec();
    let mut bytes = vec![0u8; total * SECTOR];
    // file header
    let head = s.bytes(24);
    bytes[..24].copy_from_slice(&head);
    let header = |s: &mut Source, prev: usize, next: usize| -> Vec<u8> {
        let mut h = vec![0u8; 4];
        h[1..4].copy_from_slice(&s.bytes(3));
        h.extend((prev as u32).to_be_bytes());
        h.extend((next as u32).to_be_bytes());
        h.extend(s.bytes(8));
        h
    };
    let h = header(s, 0, total - 1);
    bytes[SECTOR..SECTOR + 20].copy_from_slice(&h);
    for (i, p) in payloads.iter().enumerate() {
        let at = chain[i] * SECTOR;
        let prev = if i == 0 { 0 } else { chain[i - 1] };
        let next = chain.get(i + 1).copied().unwrap_or(0);
        let h = header(s, prev, next);
        bytes[at..at + 20].copy_from_slice(&h);
        bytes[at + 20..at + SECTOR].copy_from_slice(p);
    }
    for u in &unlinked {
        fill_unlinked(s, &mut bytes, *u, payloads);
    }
    if s.chance(10) {
        let n = s.int(1, 200);
        let tail = s.bytes(n);
        bytes.extend(tail);
    }
    Placement { bytes, chain, unlinked }
}

/// Garbage, or a stale sector that looks like content.
pub fn fill_unlinked(s: &mut Source, bytes: &mut [u8], sector: usize, payloads: &[Vec<u8>]) {
    let at = sector * SECTOR;
    match s.below(3) {
        0 => {
            let seed = s.raw() as u64;
            let mut r = crate::source::Rng::new(seed);
            for b in &mut bytes[at..at + SECTOR] {
                *b = r.next() as u8;
            }
        }
        1 => {
            // stale copy with changed text
            let p = s.pick(payloads);
            bytes[at + 20..at + SECTOR].copy_from_slice(p);
            for b in &mut bytes[at + 20..at + SECTOR] {
                if (0x30..0x40).contains(b) && *b % 3 == 0 {
                    *b ^= 1;
                }
            }
            let next = s.below(bytes.len() / SECTOR);
            bytes[at + 8..at + 12].copy_from_slice(&(next as u32).to_be_bytes());
        }
        _ => {
            let b = s.byte();
            bytes[at..at + SECTOR].fill(b);
        }
    }
}

/// A whole file for the content.
pub fn file(s: &mut Source, c: &Content, noise: usize) -> (Placement, Vec<Vec<u8>>, bool) {
    let (e, used) = entries(s, c, noise);
    let p = sectors(s, &e);
    let f = place(s, &p);
    (f, p, used)
}
