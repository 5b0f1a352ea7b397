//! C01 (integers and directory numbers) and C02 (text and names).

use crate::engine::{guard, Ctx, Prop, Res};
use crate::source::Source;
use burn_fm_hooked::verif as fm;

/// Directory number the format assigns to two bytes.
pub fn two_bytes(a: u8, b: u8) -> usize {
    if a < 0x80 {
        return 128 + b as usize;
    }
    let mut high = (a - 0x80) as usize;
    if high >= 0x7c {
        // 0xFC..0xFF are the short forms of 0x80..0x83
        high -= 0x7c;
    }
    128 + high * 256 + b as usize
}

/// Directory numbers with an encoding: a high byte of 0x7c or more would be
/// read as a short one.
pub const PATH_INTS: usize = 128 + 0x7c * 256;

fn path_int_ok(n: usize) -> Res {
    let enc = guard(|| fm::put_path_int(n as u32)).map_err(|e| format!("put_path_int({n}) {e}"))?;
    let want = if n < 128 { 1 } else { 2 };
    if enc.len() != want {
        return Err(format!("put_path_int({n}) takes {} bytes ({enc:?}), expected {want}", enc.len()));
    }
    let formula = if n < 128 { enc[0] as usize } else { two_bytes(enc[0], enc[1]) };
    if formula != n {
        return Err(format!("put_path_int({n}) = {enc:?}, which in the format stands for {formula}"));
    }
    let back = guard(|| fm::get_path_int(&enc)).map_err(|e| format!("get_path_int({enc:?}) {e}"))?;
    if back != n {
        return Err(format!("directory number {n} is written as {enc:?} and read back as {back}"));
    }
    Ok(())
}

fn path_bytes_ok(bytes: &[u8], want: usize) -> Res {
    let got = guard(|| fm::get_path_int(bytes)).map_err(|e| format!("get_path_int({bytes:?}) {e}"))?;
    if got != want {
        return Err(format!("get_path_int({bytes:?}) = {got}, expected {want}"));
    }
    Ok(())
}

fn int_ok(n: u32) -> Res {
    let enc = guard(|| fm::put_int(n as usize)).map_err(|e| format!("put_int({n}) {e}"))?;
    let back = guard(|| fm::get_int(&enc)).map_err(|e| format!("get_int({enc:?}) {e}"))?;
    if back != n as usize {
        return Err(format!("{n} is written as {enc:?} and read back as {back}"));
    }
    if enc != n.to_be_bytes() {
        return Err(format!("{n} is written as {enc:?}, not as its four bytes"));
    }
    Ok(())
}

fn int_bytes_ok(bytes: &[u8], want: usize) -> Res {
    let got = guard(|| fm::get_int(bytes)).map_err(|e| format!("get_int({bytes:?}) {e}"))?;
    if got != want {
        return Err(format!("get_int({bytes:?}) = {got}, expected {want}"));
    }
    Ok(())
}

fn c01_all(ctx: &mut Ctx, w: u64, n: u64, thorough: bool) -> Res {
    let mine = |x: usize| x as u64 % n == w;
    for v in (0..PATH_INTS).filter(|v| mine(*v)) {
        path_int_ok(v)?;
        ctx.enumerated += 1;
    }
    for v in (0..=255usize).filter(|v| mine(*v)) {
        path_bytes_ok(&[v as u8], v)?;
        int_bytes_ok(&[v as u8], v)?;
        ctx.enumerated += 2;
    }
    for v in (0..=65535usize).filter(|v| mine(*v)) {
        let (a, b) = ((v >> 8) as u8, v as u8);
        path_bytes_ok(&[a, b], two_bytes(a, b))?;
        int_bytes_ok(&[a, b], v)?;
        for first in [0u8, 1, 0x7f, 0x80, 0xc0, 0xff] {
            path_bytes_ok(&[first, a, b], v)?;
            ctx.enumerated += 1;
        }
        ctx.enumerated += 2;
    }
    if thorough {
        // every 32-bit number
        let total = 1u64 << 32;
        let (lo, hi) = (total / n * w, if w + 1 == n { total } else { total / n * (w + 1) });
        for v in lo..hi {
            let v = v as u32;
            let enc = fm::put_int(v as usize);
            if enc.len() != 4 || enc != v.to_be_bytes() || fm::get_int(&enc) != v as usize {
                return int_ok(v).and(Err(format!("integer {v} is not written and read back")));
            }
        }
        ctx.enumerated += hi - lo;
        for v in (0..1usize << 24).filter(|v| mine(*v)) {
            path_bytes_ok(&[(v >> 16) as u8, (v >> 8) as u8, v as u8], v & 0xffff)?;
            ctx.enumerated += 1;
        }
    }
    Ok(())
}

fn any_u32(s: &mut Source) -> u32 {
    match s.weighted(&[2, 3, 3, 2]) {
        0 => s.raw(),
        1 => {
            let bits = s.int(0, 32);
            let v = if bits == 32 { 1u64 << 32 } else { 1u64 << bits };
            let d = s.int(0, 6) as i64 - 3;
            (v as i64 + d).clamp(0, u32::MAX as i64) as u32
        }
        2 => {
            // each byte at a boundary
            let mut v = 0u32;
            for _ in 0..4 {
                v = v << 8 | *s.pick(&[0u32, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x5a]);
            }
            v
        }
        _ => s.int(0, 70000) as u32,
    }
}

fn c01_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    // a burst of numbers and encodings in one case
    let mut key = vec![];
    let mut nums = vec![];
    while s.more(nums.len(), 1, 16, 8) {
        let v = any_u32(s);
        nums.push(v);
        key.extend_from_slice(&v.to_le_bytes());
    }
    ctx.case(&key, || format!("32-bit numbers {nums:?}; their bytes as 1, 2, 3 and 4 byte encodings; their low part as directory number"));
    ctx.nontrivial = nums.iter().any(|v| *v > 255);
    ctx.label_if(nums.iter().any(|v| *v >= 1 << 24), "needs four bytes");
    for v in nums {
        int_ok(v)?;
        let b = v.to_be_bytes();
        int_bytes_ok(&b, v as usize)?;
        int_bytes_ok(&b[..2], (v >> 16) as usize)?;
        int_bytes_ok(&b[3..], (v & 0xff) as usize)?;
        path_bytes_ok(&b[1..4], (v & 0xffff) as usize)?;
        path_bytes_ok(&b[2..4], two_bytes(b[2], b[3]))?;
        path_bytes_ok(&b[..1], b[0] as usize)?;
        path_int_ok(v as usize % PATH_INTS)?;
    }
    Ok(())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "Enumerated: all directory numbers 0..31871, all 1- and 2-byte encodings, all 2-byte payloads of the 3-byte form (thorough: all 2^32 integers and all 3-byte encodings). Generated: bursts of 1..16 32-bit numbers near powers of two, with boundary bytes or uniform, each checked in every encoding; non-trivial when a number needs more than one byte.",
        assumptions: &["the two-byte directory number form follows the format note in encoding_util.rs (0xFC..0xFF are short high bytes, numbers start at 128)"],
        quick: 10_000_000,
        thorough: 100_000_000,
        run: c01_case,
        exhaustive: Some(c01_all),
    }
}

/* ---------------------------------------------------------------- C02 */

pub const NAME_TABLE: [(char, u8, u8); 28] = [
    (' ', 0x02, 0x0a), ('_', 0x02, 0x1d), ('a', 0x12, 0x0f), ('b', 0x12, 0x25), ('c', 0x12, 0x3d),
    ('d', 0x12, 0x50), ('e', 0x12, 0x6b), ('f', 0x12, 0xa3), ('g', 0x12, 0xb0), ('h', 0x12, 0xd3),
    ('i', 0x12, 0xec), ('j', 0x13, 0x05), ('k', 0x13, 0x1e), ('l', 0x13, 0x30), ('m', 0x13, 0x5f),
    ('n', 0x13, 0x6d), ('o', 0x13, 0x8e), ('p', 0x13, 0xb3), ('q', 0x13, 0xc8), ('r', 0x13, 0xda),
    ('s', 0x14, 0x10), ('t', 0x14, 0x33), ('u', 0x14, 0x53), ('v', 0x14, 0x7b), ('w', 0x14, 0x8d),
    ('x', 0x14, 0x97), ('y', 0x14, 0x9c), ('z', 0x14, 0xad),
];

/// Bytes of a name in the two-bytes-per-character form.
pub fn name_bytes(name: &str) -> Vec<u8> {
    let mut out = vec![];
    for c in name.chars() {
        let c = c.to_ascii_lowercase();
        if c == '\0' {
            out.extend_from_slice(&[0, 0]);
        } else {
            let (_, h, l) = NAME_TABLE.iter().find(|t| t.0 == c).expect("name alphabet");
            out.extend_from_slice(&[*h, *l]);
        }
    }
    out
}

pub fn name_of(bytes: &[u8]) -> Option<String> {
    let mut out = String::new();
    for b in bytes.chunks(2) {
        if b.len() != 2 {
            return None;
        }
        if b == [0, 0] {
            out.push('\0');
        } else {
            out.push(NAME_TABLE.iter().find(|t| t.1 == b[0] && t.2 == b[1])?.0);
        }
    }
    Some(out)
}

/// Text of any language, with the characters encodings stumble over.
pub fn any_text(s: &mut Source, max: usize) -> String {
    let n = s.size(0, max);
    let kind = s.below(4);
    let mut t = String::new();
    for _ in 0..n {
        t.push(match if kind == 3 { s.below(3) } else { kind } {
            0 => (b' ' + s.below(95) as u8) as char,
            1 => *s.pick(&[
                'a', 'Z', '0', ' ', '"', '\\', '\n', '\t', '\r', '\0', '\u{1a}', '\u{5a}', '\u{7f}', '\u{80}', '\u{ff}', 'é', 'ß',
                'ж', '中', '文', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\u{301}', '\u{feff}', '\u{fffd}',
                '\u{2028}', 'ﬁ', 'İ', '¶',
            ]),
            _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{d7ff}'),
        });
    }
    t
}

/// Name over the supported alphabet.
pub fn any_name(s: &mut Source, min: usize, max: usize, upper: bool) -> String {
    let n = s.size(min, max);
    (0..n)
        .map(|_| {
            let c = match s.weighted(&[8, 1, 1]) {
                0 => (b'a' + s.below(26) as u8) as char,
                1 => '_',
                _ => ' ',
            };
            if upper && s.chance(30) { c.to_ascii_uppercase() } else { c }
        })
        .collect()
}

fn text_ok(t: &str) -> Res {
    let enc = guard(|| fm::fm_string_encrypt(t.to_string())).map_err(|e| format!("storing {t:?} {e}"))?;
    let want: Vec<u8> = t.bytes().map(|b| b ^ 0x5a).collect();
    if enc != want {
        return Err(format!("text {t:?} is stored as {enc:?}, expected {want:?}"));
    }
    let back = guard(|| fm::fm_string_decrypt(&enc)).map_err(|e| format!("reading {t:?} back {e}"))?;
    if back != t {
        return Err(format!("text {t:?} reads back as {back:?}"));
    }
    Ok(())
}

fn name_ok(n: &str) -> Res {
    let enc = guard(|| fm::encode_text(n)).map_err(|e| format!("storing name {n:?} {e}"))?;
    let want = name_bytes(n);
    if enc != want {
        return Err(format!("name {n:?} is stored as {enc:?}, expected {want:?}"));
    }
    let back: String = guard(|| enc.chunks(2).map(|b| fm::decode_char(b[0], b[1])).collect())
        .map_err(|e| format!("reading name {n:?} back {e}"))?;
    if back != n.to_ascii_lowercase() {
        return Err(format!("name {n:?} reads back as {back:?}"));
    }
    for c in n.chars() {
        let (h, l) = guard(|| fm::encode_char(c))?;
        if name_bytes(&c.to_string()) != [h, l] {
            return Err(format!("character {c:?} is encoded as {h:#x} {l:#x}"));
        }
    }
    Ok(())
}

fn c02_all(ctx: &mut Ctx, w: u64, _n: u64, _t: bool) -> Res {
    if w != 0 {
        return Ok(());
    }
    let alphabet: Vec<char> = NAME_TABLE.iter().flat_map(|t| [t.0, t.0.to_ascii_uppercase()]).chain(['\0']).collect();
    for a in &alphabet {
        name_ok(&a.to_string())?;
        ctx.enumerated += 1;
        for b in &alphabet {
            name_ok(&format!("{a}{b}"))?;
            ctx.enumerated += 1;
        }
    }
    // a byte pair stands for at most one character
    for h in 0..=255u8 {
        for l in 0..=255u8 {
            let c = guard(|| fm::decode_char(h, l))?;
            match name_of(&[h, l]) {
                Some(t) if t != c.to_string() => return Err(format!("bytes {h:#x} {l:#x} decode to {c:?}, expected {t:?}")),
                None if name_of(&fm::encode_text(&c.to_string())).is_some_and(|t| t == c.to_string() && c != '\0') => {
                    return Err(format!("bytes {h:#x} {l:#x} decode to {c:?}, which has another encoding"))
                }
                _ => {}
            }
            ctx.enumerated += 1;
        }
    }
    for c in (0..0x11_0000u32).filter_map(char::from_u32) {
        text_ok(&c.to_string())?;
        ctx.enumerated += 1;
    }
    Ok(())
}

fn c02_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut t = any_text(s, 400);
    let mut n = any_name(s, 0, 80, true);
    let large = s.chance(1);
    if large {
        // far longer, and varied all along
        let len = s.int(400, 20_000);
        let mut i = 0u32;
        let seed = s.raw();
        while t.len() < len {
            i = i.wrapping_mul(747796405).wrapping_add(seed | 1);
            t.push(if i >> 30 == 3 { char::from_u32((i >> 8) % 0x11_0000).unwrap_or('¶') } else { (b' ' + ((i >> 16) % 95) as u8) as char });
        }
        let len = s.int(80, 2000);
        while n.len() < len {
            i = i.wrapping_mul(747796405).wrapping_add(seed | 1);
            n.push(match (i >> 16) % 28 {
                26 => ' ',
                27 => '_',
                k => (b'a' + k as u8) as char,
            });
        }
    }
    let u = any_text(s, 60);
    // a second name: independent, or the first with one change
    let m = if n.is_empty() || s.chance(30) {
        any_name(s, 0, 80, true)
    } else {
        let mut c: Vec<char> = n.chars().collect();
        let i = s.below(c.len());
        match s.below(3) {
            0 => c[i] = any_name(s, 1, 1, false).chars().next().unwrap(),
            1 => {
                c.remove(i);
            }
            _ => {
                let j = s.below(c.len());
                c.swap(i, j);
            }
        }
        c.into_iter().collect()
    };
    ctx.case(format!("{t}\u{1}{u}\u{1}{n}\u{1}{m}").as_bytes(), || format!("texts {t:?} and {u:?}, names {n:?} and {m:?}"));
    ctx.nontrivial = t.len() > 1 && n.len() > 1;
    ctx.label_if(!t.is_ascii(), "non-ASCII text");
    ctx.label_if(t.len() > 200, "long text");
    ctx.label_if(t.len() > 4000, "text over 4000 bytes");
    ctx.label_if(n.chars().any(|c| c.is_ascii_uppercase()), "upper case name");
    text_ok(&t)?;
    text_ok(&u)?;
    name_ok(&n)?;
    name_ok(&m)?;
    let same_name = n.to_ascii_lowercase() == m.to_ascii_lowercase();
    if (fm::encode_text(&n) == fm::encode_text(&m)) != same_name {
        return Err(format!("names {n:?} and {m:?} share an encoding"));
    }
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "Enumerated: every Unicode character as text, every one- and two-character name, every byte pair. Generated: two texts (up to 400 characters, in 1 % up to 20 000 bytes; printable ASCII, awkward characters or uniform Unicode) and two names (second one often a one-character edit of the first); non-trivial when text and name both have at least two characters.",
        assumptions: &["the table of name characters is restated in the check from the format table in dbcharconv.rs"],
        quick: 4_000_000,
        thorough: 60_000_000,
        run: c02_case,
        exhaustive: Some(c02_all),
    }
}
