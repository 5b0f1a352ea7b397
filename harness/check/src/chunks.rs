//! C03: the chunk reader against the chunk writer in wire.rs.

use crate::engine::{guard, Ctx, Prop, Res};
use crate::source::Source;
use crate::wire::{self, Kind, Wire};
use burn_fm_hooked::verif as fm;

fn kind_of(t: &fm::ChunkType) -> Kind {
    match t {
        fm::ChunkType::DataSimple => Kind::Simple,
        fm::ChunkType::RefSimple => Kind::Ref,
        fm::ChunkType::RefLong => Kind::Long,
        fm::ChunkType::DataSegment => Kind::Segment,
        fm::ChunkType::PathPush => Kind::Push,
        fm::ChunkType::PathPop => Kind::Pop,
        fm::ChunkType::Noop => Kind::Noop,
    }
}

/// Reads the chunk at `offset` and compares it with what was written there.
fn read_one(buf: &[u8], offset: &mut usize, path: &mut Vec<String>, model: &mut Vec<usize>, local: usize, w: &Wire) -> Res {
    let start = *offset;
    let c = guard(|| fm::get_chunk_from_code(buf, offset, path, local))
        .map_err(|e| format!("reading {w:?} {e}"))?
        .map_err(|e| format!("reading {w:?} is an error: {e}"))?;
    w.apply(model);
    let want: Vec<String> = model.iter().map(|n| n.to_string()).collect();
    let fail = |what: &str, got: String| Err(format!("{what} of {w:?}: read {got}"));
    if *offset != start + w.bytes.len() {
        return fail("size", format!("{} bytes instead of {}", *offset as i64 - start as i64, w.bytes.len()));
    }
    if kind_of(&c.ctype) != w.kind {
        return fail("kind", format!("{:?}", c.ctype));
    }
    if c.code != w.code as u16 {
        return fail("code", format!("{:#x}", c.code));
    }
    if !w.any_data && c.data.unwrap_or(&[]) != &w.data[..] {
        return fail("payload", format!("{:?}", c.data));
    }
    if matches!(w.kind, Kind::Simple | Kind::Ref | Kind::Long | Kind::Segment) && c.data.is_none() {
        return fail("payload", "no payload".to_string());
    }
    if c.ref_data != w.long.as_deref() {
        return fail("long key", format!("{:?}", c.ref_data));
    }
    if c.ref_simple.map(|k| k as usize) != w.key {
        return fail("key", format!("{:?}", c.ref_simple));
    }
    if c.segment_idx != w.seg {
        return fail("segment number", format!("{:?}", c.segment_idx));
    }
    if *path != want || c.path != want {
        return fail("directory", format!("{path:?} (in the chunk {:?}) instead of {want:?}", c.path));
    }
    Ok(())
}

fn invalid_codes() -> Vec<u8> {
    (0..=255u8)
        .filter(|c| {
            let m = if c & 0xC0 == 0xC0 { c & 0x3F } else { *c };
            !matches!(m, 0x00..=0x17 | 0x19..=0x20 | 0x23 | 0x28 | 0x30 | 0x38 | 0x3D | 0x40 | 0x80)
        })
        .collect()
}

fn invalid_ok(bytes: &[u8], offset: usize, local: usize) -> Res {
    let mut o = offset;
    let mut path = vec!["3".to_string()];
    match guard(|| fm::get_chunk_from_code(bytes, &mut o, &mut path, local).map(|c| c.ctype)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(t)) => Err(format!("undefined chunk {:?} is read as {t:?}", &bytes[offset..(offset + 4).min(bytes.len())])),
        Err(e) => Err(format!("undefined chunk {:?} {e}", &bytes[offset..(offset + 4).min(bytes.len())])),
    }
}

fn show(ws: &[Wire]) -> String {
    ws.iter()
        .map(|w| {
            let hex: String = w.bytes.iter().take(24).map(|b| format!("{b:02x} ")).collect();
            format!("{hex}{}", if w.bytes.len() > 24 { "..." } else { "" })
        })
        .collect::<Vec<_>>()
        .join("| ")
}

fn c03_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut ws: Vec<Wire> = vec![];
    let most = if s.chance(1) { 2000 } else { 100 };
    while s.more(ws.len(), 1, most, most / 4) {
        ws.push(wire::any_chunk(s));
    }
    let deep = s.chance(3);
    if deep {
        // directories nested far deeper than usual, and left again
        let n = s.int(5, 60);
        for _ in 0..n {
            let id = wire::any_id(s);
            let at = s.below(ws.len() + 1);
            ws.insert(at, wire::any_push(s, id));
        }
    }
    if s.chance(1) {
        // the longest payloads the lengths allow
        let n = if s.chance(30) { 65535 } else { s.int(3000, 65535) };
        let at = s.below(ws.len());
        let d: Vec<u8> = (0..n).map(|i| (i * 7 + n + (i >> 8)) as u8).collect();
        let idx = s.byte();
        ws[at] = if s.chance(50) { wire::any_segment(s, idx, &d) } else { wire::any_long(s, &[1, 2, 3], &d) };
    }
    let n = s.size(2, 40);
    let prefix = s.bytes(n);
    let n = s.size(0, 12);
    let suffix = s.bytes(n);
    let mut depth: Vec<usize> = vec![];
    let most = if deep { 60 } else { 6 };
    while s.more(depth.len(), 0, most, most / 3) {
        depth.push(wire::any_id(s));
    }
    let mut buf = prefix.clone();
    for w in &ws {
        buf.extend_from_slice(&w.bytes);
    }
    let end = buf.len();
    buf.extend_from_slice(&suffix);
    ctx.case(&buf, || format!("at offset {} in directory {depth:?}: {}", prefix.len(), show(&ws)));
    let mut kinds: Vec<Kind> = vec![];
    for w in &ws {
        if !kinds.contains(&w.kind) {
            kinds.push(w.kind);
        }
    }
    ctx.nontrivial = ws.len() >= 5 && kinds.len() >= 3;
    ctx.label_if(ws.iter().any(|w| w.bytes[0] & 0xC0 == 0xC0), "leaves directory");
    ctx.label_if(ws.iter().any(|w| w.data.len() > 255), "payload over 255 bytes");
    ctx.label_if(ws.iter().any(|w| w.data.len() > 30_000), "payload over 30000 bytes");
    ctx.label_if(deep, "deep directories");
    for w in &ws {
        ctx.label(&format!("code {:02x}", w.code));
    }
    // in the stream
    let mut offset = prefix.len();
    let mut path: Vec<String> = depth.iter().map(|n| n.to_string()).collect();
    let mut model = depth.clone();
    let local = s.below(prefix.len());
    for w in &ws {
        read_one(&buf, &mut offset, &mut path, &mut model, local, w)?;
    }
    if offset != end {
        return Err(format!("reading stops at {offset}, not at {end}"));
    }
    // one of them at the very end of a buffer of its own
    let w = s.pick(&ws).clone();
    let mut own = vec![0x5a, 0xff];
    own.extend_from_slice(&w.bytes);
    read_one(&own, &mut 2, &mut vec!["7".to_string()], &mut vec![7], 0, &w)?;
    // an undefined chunk in its place
    let bad = *s.pick(&invalid_codes());
    buf[prefix.len()] = bad;
    invalid_ok(&buf, prefix.len(), local)?;
    Ok(())
}

fn c03_all(ctx: &mut Ctx, w: u64, n: u64, _t: bool) -> Res {
    let check = |ctx: &mut Ctx, w: Wire| -> Res {
        for flag in [false, true] {
            if flag && w.code >= 0x40 {
                continue;
            }
            let w = if flag { w.clone().leaving() } else { w.clone() };
            let mut buf = vec![0xAA, 0xBB, 0xCC];
            buf.extend_from_slice(&w.bytes);
            buf.extend_from_slice(&[0xDD, 0xEE]);
            read_one(&buf, &mut 3, &mut vec!["3".into(), "17".into()], &mut vec![3, 17], 1, &w)?;
            ctx.enumerated += 1;
        }
        Ok(())
    };
    let pat = |len: usize, x: usize| -> Vec<u8> { (0..len).map(|i| (i * 37 + x * 11 + 1) as u8).collect() };
    // every key and every length of each code
    for x in (0..256usize).filter(|x| *x as u64 % n == w) {
        let b = x as u8;
        for (i, len) in [1usize, 2, 4, 6, 8].iter().enumerate() {
            check(ctx, wire::ref1(1 + i as u8, b, &pat(*len, x)))?;
            for lo in 0..256usize {
                check(ctx, wire::ref2(9 + i as u8, b, lo as u8, &pat(*len, lo)))?;
            }
        }
        check(ctx, wire::ref1(0x1B, b, &pat(4, x)))?;
        for len in 0..256usize {
            check(ctx, wire::ref1(0x06, b, &pat(len, x)))?;
            if b != 0xFF {
                check(ctx, wire::ref2(0x0E, b, len as u8, &pat(len, x)))?;
            }
            check(ctx, wire::long(0x1E, &pat(x, len), &pat(len, x)))?;
            check(ctx, wire::long(0x1F, &pat(x, len), &pat(len * 3, x)))?;
            check(ctx, wire::segment(0x07, b, &pat(len * 2, x)))?;
            check(ctx, wire::segment(0x0F, b, &pat(len * 2, x)))?;
            check(ctx, wire::push(0x28, &[b, len as u8], crate::codec::two_bytes(b, len as u8)))?;
            check(ctx, wire::push(0x30, &[b, b, len as u8], x << 8 | len))?;
            check(ctx, wire::simple(0x00, &[], &[b]))?;
        }
        check(ctx, wire::long(0x16, &pat(3, x), &pat(x, 3)))?;
        check(ctx, wire::long(0x17, &pat(3, x), &pat(x * 3, 3)))?;
        for c in 0x19..=0x1Du8 {
            if c != 0x1B || x != 0 {
                check(ctx, wire::simple(c, &pat(x, c as usize), &pat(wire::trailing(c), 9)))?;
            }
        }
        check(ctx, wire::simple(0x23, &pat(x, 5), &[]))?;
        for (c, len) in [(0x08u8, 2usize), (0x10, 3), (0x11, 4), (0x12, 5), (0x13, 7), (0x14, 9), (0x15, 11)] {
            check(ctx, wire::simple(c, &pat(len, x), &[]))?;
        }
        let mut d = pat(6, x);
        d[0] = 0xFF;
        check(ctx, wire::simple(0x0E, &d, &[]))?;
        if b != 0xFE {
            check(ctx, wire::push(0x20, &[b], x))?;
        }
        let mut d = pat(8, x);
        d[0] = b;
        check(ctx, wire::push(0x20, &d, x))?;
        if x >= 2 {
            let mut d = pat(x, 1);
            d[0] = 0xFC;
            check(ctx, wire::push(0x38, &d, crate::codec::two_bytes(d[0], d[1])))?;
        }
    }
    if w == 0 {
        for c in [0x3D, 0x40] {
            check(ctx, wire::pop(c))?;
        }
        check(ctx, wire::noop())?;
        for bad in invalid_codes() {
            for next in 0..=255u8 {
                invalid_ok(&[0x11, 0x22, bad, next, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], 2, 0)?;
                ctx.enumerated += 1;
            }
        }
        for next in (0..=255u8).filter(|n| *n != 0x80) {
            for code in [0x0Fu8, 0xCF] {
                invalid_ok(&[0x11, 0x22, code, next, 1, 0, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12], 2, 0)?;
                ctx.enumerated += 1;
            }
        }
    }
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "Enumerated: every chunk code with every key byte pair, length and flag. Generated: streams of 1..100 chunks of random kind, encoding, key, nesting (3 % up to sixty deep and more) and payload (up to 65535 bytes), between random bytes, read one after the other; one of them again alone, and an undefined code in place of the first. Non-trivial: at least 5 chunks of at least 3 kinds.",
        assumptions: &[
            "the chunk encodings are restated in wire.rs from the fmp12 chunk format as chunk.rs reads it",
            "directory numbers that need more than two bytes use the three-byte form",
        ],
        quick: 1_000_000,
        thorough: 40_000_000,
        run: c03_case,
        exhaustive: Some(c03_all),
    }
}
