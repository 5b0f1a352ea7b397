//! Chunks of the file format, written from the format's description: the
//! encoder is the oracle for the reader.

use crate::codec::{two_bytes, PATH_INTS};
use crate::source::Source;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Simple,
    Ref,
    Long,
    Segment,
    Push,
    Pop,
    Noop,
}

#[derive(Clone, Debug)]
pub struct Wire {
    pub bytes: Vec<u8>,
    pub kind: Kind,
    pub code: u8,
    pub data: Vec<u8>,
    /// the payload is not part of what is compared
    pub any_data: bool,
    pub long: Option<Vec<u8>>,
    pub key: Option<usize>,
    pub seg: Option<u8>,
    pub push: Option<usize>,
    pub pops: usize,
}

impl Wire {
    fn new(kind: Kind, code: u8, head: &[u8], data: &[u8]) -> Wire {
        let mut bytes = vec![code];
        bytes.extend_from_slice(head);
        bytes.extend_from_slice(data);
        Wire { bytes, kind, code, data: data.to_vec(), any_data: false, long: None, key: None, seg: None, push: None, pops: 0 }
    }

    /// A chunk as it was read.
    pub fn raw(r: &Read) -> Wire {
        Wire { bytes: r.raw.clone(), kind: r.kind, code: r.raw[0], data: r.data.clone(), any_data: false, long: None, key: r.key, seg: None, push: None, pops: 0 }
    }

    /// Sets the flag that makes a chunk leave its directory.
    pub fn leaving(mut self) -> Wire {
        self.bytes[0] |= 0xC0;
        self.pops += 1;
        self
    }

    pub fn apply(&self, path: &mut Vec<usize>) {
        if let Some(id) = self.push {
            path.push(id);
        }
        for _ in 0..self.pops {
            path.pop();
        }
    }
}

const REF_LENS: [usize; 5] = [1, 2, 4, 6, 8];
const SIMPLE_LENS: [(u8, usize); 7] = [(0x08, 2), (0x10, 3), (0x11, 4), (0x12, 5), (0x13, 7), (0x14, 9), (0x15, 11)];

/// Key in one byte.
pub fn ref1(code: u8, key: u8, data: &[u8]) -> Wire {
    let mut w = match code {
        0x01..=0x05 => {
            assert_eq!(REF_LENS[code as usize - 1], data.len());
            Wire::new(Kind::Ref, code, &[key], data)
        }
        0x06 => Wire::new(Kind::Ref, code, &[key, data.len() as u8], data),
        0x1B => {
            assert_eq!(4, data.len());
            Wire::new(Kind::Ref, code, &[0, key], data)
        }
        _ => unreachable!(),
    };
    w.key = Some(key as usize);
    w
}

/// Key in two bytes.
pub fn ref2(code: u8, a: u8, b: u8, data: &[u8]) -> Wire {
    let mut w = match code {
        0x09..=0x0D => {
            assert_eq!(REF_LENS[code as usize - 9], data.len());
            Wire::new(Kind::Ref, code, &[a, b], data)
        }
        0x0E => {
            assert!(a != 0xFF);
            Wire::new(Kind::Ref, code, &[a, b, data.len() as u8], data)
        }
        _ => unreachable!(),
    };
    w.key = Some(two_bytes(a, b));
    w
}

pub fn simple(code: u8, data: &[u8], trail: &[u8]) -> Wire {
    match code {
        0x00 => {
            assert!(data.is_empty() && trail.len() == 1);
            let mut w = Wire::new(Kind::Simple, code, &[], &[]);
            w.bytes.push(trail[0]);
            w
        }
        0x0E => {
            assert!(data.len() == 6 && data[0] == 0xFF);
            Wire::new(Kind::Simple, code, &[], data)
        }
        0x19..=0x1D => {
            assert_eq!(trail.len(), trailing(code));
            assert!(code != 0x1B || !data.is_empty());
            let mut w = Wire::new(Kind::Simple, code, &[data.len() as u8], data);
            w.bytes.extend_from_slice(trail);
            w
        }
        0x23 => Wire::new(Kind::Simple, code, &[data.len() as u8], data),
        _ => {
            assert!(SIMPLE_LENS.contains(&(code, data.len())));
            Wire::new(Kind::Simple, code, &[], data)
        }
    }
}

/// Bytes after the payload of a 0x19..0x1D chunk.
pub fn trailing(code: u8) -> usize {
    [1, 2, 4, 6, 8][code as usize - 0x19]
}

pub fn long(code: u8, key: &[u8], data: &[u8]) -> Wire {
    let len1 = [data.len() as u8];
    let len2 = [(data.len() >> 8) as u8, data.len() as u8];
    let mut head = vec![];
    match code {
        0x16 | 0x17 => assert_eq!(key.len(), 3),
        _ => head.push(key.len() as u8),
    }
    head.extend_from_slice(key);
    match code {
        0x16 | 0x1E => head.extend_from_slice(&len1),
        0x17 | 0x1F => head.extend_from_slice(&len2),
        _ => unreachable!(),
    }
    let mut w = Wire::new(Kind::Long, code, &head, data);
    w.long = Some(key.to_vec());
    w
}

pub fn segment(code: u8, idx: u8, data: &[u8]) -> Wire {
    let mut head = match code {
        0x07 => vec![idx],
        0x0F => vec![0x80, idx],
        _ => unreachable!(),
    };
    head.extend_from_slice(&[(data.len() >> 8) as u8, data.len() as u8]);
    let mut w = Wire::new(Kind::Segment, code, &head, data);
    w.seg = Some(idx);
    w
}

pub fn push(code: u8, data: &[u8], id: usize) -> Wire {
    let mut w = match code {
        0x20 if data.len() == 8 => Wire::new(Kind::Push, code, &[0xFE], data),
        0x20 => {
            assert!(data.len() == 1 && data[0] != 0xFE);
            Wire::new(Kind::Push, code, &[], data)
        }
        0x28 => Wire::new(Kind::Push, code, &[], &data[..2]),
        0x30 => Wire::new(Kind::Push, code, &[], &data[..3]),
        0x38 => {
            let mut w = Wire::new(Kind::Push, code, &[data.len() as u8], data);
            w.any_data = true;
            w
        }
        _ => unreachable!(),
    };
    w.push = Some(id);
    w
}

pub fn pop(code: u8) -> Wire {
    let mut w = Wire::new(Kind::Pop, code, &[], &[]);
    w.pops = 1;
    w
}

pub fn noop() -> Wire {
    Wire::new(Kind::Noop, 0x80, &[], &[])
}

/* ------------------------------------------- one of several encodings */

/// Two bytes of a directory number of at least 128.
pub fn id2(s: &mut Source, n: usize) -> (u8, u8) {
    assert!((128..PATH_INTS).contains(&n));
    let (h, l) = ((n - 128) >> 8, (n - 128) as u8);
    let mut forms = vec![(if h <= 3 { 0xFC + h as u8 } else { 0x80 + h as u8 }, l)];
    if h <= 3 {
        forms.push((0x80 + h as u8, l));
    }
    if h == 0 {
        forms.push((s.below(0x80) as u8, l));
    }
    *s.pick(&forms)
}

pub fn any_ref(s: &mut Source, key: usize, data: &[u8]) -> Wire {
    let mut forms: Vec<u8> = vec![];
    let fixed = REF_LENS.iter().position(|l| *l == data.len());
    if key < 256 {
        forms.push(0x06);
        forms.extend(fixed.map(|i| 1 + i as u8));
        if data.len() == 4 {
            forms.push(0x1B);
        }
    }
    if key >= 128 {
        forms.push(0x0E);
        forms.extend(fixed.map(|i| 9 + i as u8));
    }
    ref_with(s, &forms, key, data)
}

/// Encoded with one of the given codes.
pub fn ref_with(s: &mut Source, forms: &[u8], key: usize, data: &[u8]) -> Wire {
    match *s.pick(forms) {
        c @ (0x01..=0x06 | 0x1B) => ref1(c, key as u8, data),
        c => {
            let (mut a, b) = id2(s, key);
            if c == 0x0E && a == 0xFF {
                a = 0x83; // 0E FF starts a plain payload
            }
            ref2(c, a, b, data)
        }
    }
}

pub fn any_simple(s: &mut Source, data: &[u8]) -> Wire {
    let n = data.len();
    let mut forms = vec![];
    if n < 256 {
        forms.extend_from_slice(&[0x23, 0x19, 0x1A, 0x1C, 0x1D]);
        if n > 0 {
            forms.push(0x1B);
        }
    }
    if n == 0 {
        forms.push(0x00);
    }
    if n == 6 && data[0] == 0xFF {
        forms.push(0x0E);
    }
    forms.extend(SIMPLE_LENS.iter().filter(|x| x.1 == n).map(|x| x.0));
    let c = *s.pick(&forms);
    let trail = match c {
        0x00 => s.bytes(1),
        0x19..=0x1D => s.bytes(trailing(c)),
        _ => vec![],
    };
    simple(c, data, &trail)
}

pub fn any_long(s: &mut Source, key: &[u8], data: &[u8]) -> Wire {
    let mut forms = vec![];
    if data.len() < 256 {
        forms.push(0x1E);
    }
    forms.push(0x1F);
    if key.len() == 3 {
        if data.len() < 256 {
            forms.push(0x16);
        }
        forms.push(0x17);
    }
    long(*s.pick(&forms), key, data)
}

pub fn any_segment(s: &mut Source, idx: u8, data: &[u8]) -> Wire {
    segment(*s.pick(&[0x07, 0x0F]), idx, data)
}

pub fn any_push(s: &mut Source, id: usize) -> Wire {
    let mut forms = vec![];
    if id < 256 {
        forms.extend_from_slice(if id == 0xFE { &[1] } else { &[0, 0, 0, 1] });
    }
    if (128..PATH_INTS).contains(&id) {
        forms.extend_from_slice(&[2, 2, 2, 4]);
    }
    if id < 65536 {
        forms.push(3);
    }
    match *s.pick(&forms) {
        0 => push(0x20, &[id as u8], id),
        1 => {
            let mut d = vec![id as u8];
            d.extend(s.bytes(7));
            push(0x20, &d, id)
        }
        2 => {
            let (a, b) = id2(s, id);
            push(0x28, &[a, b], id)
        }
        3 => push(0x30, &[s.byte(), (id >> 8) as u8, id as u8], id),
        _ => {
            let (a, b) = id2(s, id);
            let extra = s.size(0, 20);
            let mut d = vec![a, b];
            d.extend(s.bytes(extra));
            push(0x38, &d, id)
        }
    }
}

/// Directory number that needs one, two or three bytes.
pub fn any_id(s: &mut Source) -> usize {
    match s.weighted(&[6, 3, 2, 1]) {
        0 => s.int(0, 127),
        1 => s.int(128, 1300),
        2 => s.int(128, PATH_INTS - 1),
        _ => s.int(0, 65535),
    }
}

fn data_len(s: &mut Source) -> usize {
    match s.weighted(&[4, 6, 3, 1]) {
        0 => s.int(0, 12),
        1 => *s.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11]),
        2 => s.int(0, 255),
        _ => *s.pick(&[126, 127, 128, 129, 254, 255]),
    }
}

/// Any well-formed chunk.
pub fn any_chunk(s: &mut Source) -> Wire {
    let mut w = match s.weighted(&[6, 4, 3, 3, 5, 4, 1]) {
        0 => {
            let n = data_len(s);
            let key = match s.below(3) {
                0 => s.int(0, 127),
                1 => s.int(0, 255),
                _ => s.int(128, PATH_INTS - 1),
            };
            let d = s.bytes(n);
            any_ref(s, key, &d)
        }
        1 => {
            let n = data_len(s);
            let mut d = s.bytes(n);
            if n == 6 && s.chance(50) {
                d[0] = 0xFF;
            }
            any_simple(s, &d)
        }
        2 => {
            let k = if s.chance(50) { 3 } else { data_len(s) };
            let n = if s.chance(20) { s.int(256, 2000) } else { data_len(s) };
            let key = s.bytes(k);
            let d = s.bytes(n);
            any_long(s, &key, &d)
        }
        3 => {
            let n = if s.chance(30) { s.int(256, 3000) } else { data_len(s) };
            let idx = s.byte();
            let d = s.bytes(n);
            any_segment(s, idx, &d)
        }
        4 => {
            let id = any_id(s);
            any_push(s, id)
        }
        5 => pop(*s.pick(&[0x40, 0x3D])),
        _ => noop(),
    };
    if w.code < 0x40 && s.chance(15) {
        w = w.leaving();
    }
    w
}

/* ---------------------------------------------------------------- reading */

/// One chunk read back; the directory is the one after the chunk.
#[derive(Clone, Debug)]
pub struct Read {
    pub kind: Kind,
    pub key: Option<usize>,
    pub long: Option<Vec<u8>>,
    pub data: Vec<u8>,
    pub path: Vec<usize>,
    /// the bytes of the chunk
    pub raw: Vec<u8>,
}

pub fn id_of(b: &[u8]) -> usize {
    match b.len() {
        1 => b[0] as usize,
        2 => two_bytes(b[0], b[1]),
        _ => b[1] as usize * 256 + b[2] as usize,
    }
}

/// Reads a sector's content by the format's rules, independently of the
/// reader under test. Fails on undefined codes, chunks that leave the sector
/// and directories closed that were not open.
pub fn read_sector(b: &[u8]) -> Result<Vec<Read>, String> {
    let (out, path) = read_chunks(b, false)?;
    if !path.is_empty() {
        return Err(format!("the sector ends inside the directory {path:?}"));
    }
    Ok(out)
}

/// The chunks and the directory that is open at the end. The last sector of a
/// file of FileMaker's also closes the root, which `root_closes` allows.
pub fn read_chunks(b: &[u8], root_closes: bool) -> Result<(Vec<Read>, Vec<usize>), String> {
    let mut at = 0;
    let mut path: Vec<usize> = vec![];
    let mut out = vec![];
    while at < b.len() {
        let start = at;
        let mut take = |n: usize| -> Result<Vec<u8>, String> {
            let r = b.get(at..at + n).map(|x| x.to_vec()).ok_or_else(|| format!("the chunk at byte {start} leaves its sector"));
            at += n;
            r
        };
        let first = take(1)?[0];
        let (code, leaving) = if first & 0xC0 == 0xC0 { (first & 0x3F, true) } else { (first, false) };
        let mut r = Read { kind: Kind::Simple, key: None, long: None, data: vec![], path: vec![], raw: vec![] };
        let mut pops = leaving as usize;
        match code {
            0x00 => {
                if start + 1 < b.len() {
                    take(1)?;
                }
            }
            0x01..=0x06 => {
                r.kind = Kind::Ref;
                r.key = Some(take(1)?[0] as usize);
                let n = if code == 6 { take(1)?[0] as usize } else { REF_LENS[code as usize - 1] };
                r.data = take(n)?;
            }
            0x07 | 0x0F => {
                r.kind = Kind::Segment;
                if code == 0x0F && take(1)?[0] != 0x80 {
                    return Err(format!("invalid segment at byte {start}"));
                }
                r.key = Some(take(1)?[0] as usize);
                let n = take(2)?;
                r.data = take(n[0] as usize * 256 + n[1] as usize)?;
            }
            0x09..=0x0E => {
                let k = take(2)?;
                if code == 0x0E && k[0] == 0xFF {
                    r.data = k;
                    r.data.extend(take(4)?);
                } else {
                    r.kind = Kind::Ref;
                    r.key = Some(two_bytes(k[0], k[1]));
                    let n = if code == 0x0E { take(1)?[0] as usize } else { REF_LENS[code as usize - 9] };
                    r.data = take(n)?;
                }
            }
            0x16 | 0x17 | 0x1E | 0x1F => {
                r.kind = Kind::Long;
                let n = if code < 0x18 { 3 } else { take(1)?[0] as usize };
                r.long = Some(take(n)?);
                let n = if code & 1 == 0 { take(1)?[0] as usize } else { take(2)?.iter().fold(0, |a, x| a * 256 + *x as usize) };
                r.data = take(n)?;
            }
            0x19..=0x1D => {
                let n = take(1)?[0] as usize;
                if code == 0x1B && n == 0 {
                    r.kind = Kind::Ref;
                    r.key = Some(take(1)?[0] as usize);
                    r.data = take(4)?;
                } else {
                    r.data = take(n)?;
                    take(trailing(code))?;
                }
            }
            0x23 => {
                let n = take(1)?[0] as usize;
                r.data = take(n)?;
            }
            0x20 | 0x28 | 0x30 | 0x38 => {
                r.kind = Kind::Push;
                let mut id = match code {
                    0x20 => take(1)?,
                    0x28 => take(2)?,
                    0x30 => take(3)?,
                    _ => {
                        let n = take(1)?[0] as usize;
                        take(n.max(2))?[..2].to_vec()
                    }
                };
                if code == 0x20 && id == [0xFE] {
                    id = take(8)?[..1].to_vec();
                }
                path.push(id_of(&id));
            }
            0x3D | 0x40 => {
                r.kind = Kind::Pop;
                pops = 1;
            }
            0x80 => r.kind = Kind::Noop,
            c => match SIMPLE_LENS.iter().find(|x| x.0 == c) {
                Some((_, n)) => r.data = take(*n)?,
                None => return Err(format!("undefined chunk code {first:#x} at byte {start}")),
            },
        }
        for _ in 0..pops {
            if path.pop().is_none() && !root_closes {
                return Err(format!("a directory that is not open is closed at byte {start}"));
            }
        }
        r.path = path.clone();
        r.raw = b[start..at].to_vec();
        out.push(r);
    }
    Ok((out, path))
}
