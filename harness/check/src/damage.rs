//! C18: damaged files and content outside the sector chain.

use crate::engine::{Ctx, Prop, Res};
use crate::fmp::{self, Placement, Want, SECTOR};
use crate::schema::decompile;
use crate::source::Source;

fn outcome(ctx: &Ctx, bytes: &[u8]) -> Result<String, String> {
    let f = decompile(ctx, bytes)?;
    Ok(serde_json::to_string(&f).expect("model as JSON"))
}

fn next_of(bytes: &[u8], sector: usize) -> usize {
    let at = sector * SECTOR + 8;
    bytes[at..at + 4].iter().fold(0, |a, b| a * 256 + *b as usize)
}

fn set_next(bytes: &mut [u8], sector: usize, next: u32) {
    let at = sector * SECTOR + 8;
    if at + 4 <= bytes.len() {
        bytes[at..at + 4].copy_from_slice(&next.to_be_bytes());
    }
}

enum Chain {
    /// sectors that lie in the file completely
    Whole(Vec<usize>),
    /// the last sector is cut off in its content
    Cut,
    Loops(usize),
    Leaves(usize),
}

fn walk(bytes: &[u8]) -> Chain {
    let mut seen: Vec<usize> = vec![];
    let mut at = 2usize;
    let mut cut = false;
    while at != 0 {
        if seen.contains(&at) {
            return Chain::Loops(at);
        }
        if at * SECTOR + 20 > bytes.len() {
            return Chain::Leaves(at);
        }
        cut = cut || (at + 1) * SECTOR > bytes.len();
        seen.push(at);
        at = next_of(bytes, at);
    }
    if cut { Chain::Cut } else { Chain::Whole(seen) }
}

/// The sectors of the chain and nothing else, in order.
fn compact(bytes: &[u8], chain: &[usize]) -> Vec<u8> {
    let mut out = bytes[..2 * SECTOR].to_vec();
    for (i, c) in chain.iter().enumerate() {
        out.extend_from_slice(&bytes[c * SECTOR..(c + 1) * SECTOR]);
        set_next(&mut out, 2 + i, if i + 1 < chain.len() { 3 + i as u32 } else { 0 });
    }
    set_next(&mut out, 1, 1 + chain.len() as u32);
    out
}

fn somewhere(s: &mut Source, bytes: &[u8], chain: &[usize]) -> usize {
    // sectors are mostly padding: what is used lies at their start
    let sector = *s.pick(chain);
    let offset = match s.weighted(&[3, 4, 2]) {
        0 => s.below(300),
        1 => {
            let used = used(&bytes[sector * SECTOR + 20..(sector + 1) * SECTOR]);
            20 + s.below(used.max(1))
        }
        _ => s.below(SECTOR),
    };
    sector * SECTOR + offset
}

/// Length of the payload without the padding.
fn used(p: &[u8]) -> usize {
    p.iter().rposition(|b| *b != 0 && *b != 0x80).map(|i| i + 1).unwrap_or(0)
}

struct Damage {
    what: Vec<String>,
    bytes: Vec<u8>,
    /// the sector count in the file's header is intact
    header: bool,
}

fn inflict(s: &mut Source, d: &mut Damage, p: &Placement) {
    let total = p.bytes.len() / SECTOR;
    match s.weighted(&[5, 4, 2, 3, 3, 4, 1, 2]) {
        0 => {
            let n = s.size(1, 8);
            for _ in 0..n {
                let at = somewhere(s, &p.bytes, &p.chain);
                let bit = s.below(8);
                d.bytes[at] ^= 1 << bit;
                d.what.push(format!("bit {bit} of byte {at} flipped"));
            }
        }
        1 => {
            let n = s.size(1, 4);
            for _ in 0..n {
                let at = somewhere(s, &p.bytes, &p.chain);
                let v = if s.chance(50) { s.byte() } else { *s.pick(&[0u8, 0xff, 0x80, 0xfe, 0x40, 0x20, 0x28, 0x30, 0x07, 0x0f, 0x1f, 0x06, 0x38, 0xc0, 0x3d]) };
                d.bytes[at] = v;
                d.what.push(format!("byte {at} set to {v:#04x}"));
            }
        }
        2 => {
            let at = somewhere(s, &p.bytes, &p.chain);
            let n = s.size(1, 400).min(d.bytes.len() - at);
            let seed = s.raw() as u64;
            let mut r = crate::source::Rng::new(seed);
            let fill = if s.chance(30) { Some(s.byte()) } else { None };
            for b in &mut d.bytes[at..at + n] {
                let v = r.next() as u8;
                *b = fill.unwrap_or(v);
            }
            d.what.push(format!("bytes {at}..{} overwritten", at + n));
        }
        3 => {
            // bytes lost or doubled within the file
            let sector = *s.pick(&p.chain);
            let (lo, hi) = (sector * SECTOR + 20, (sector + 1) * SECTOR);
            let at = somewhere(s, &p.bytes, &[sector]).max(lo);
            let n = s.size(1, 30);
            let mut part = d.bytes[lo..hi].to_vec();
            if s.chance(50) {
                let end = (at - lo + n).min(part.len());
                part.drain(at - lo..end);
                d.what.push(format!("{n} bytes at {at} lost"));
            } else {
                let end = (at - lo + n).min(part.len());
                let copy = part[at - lo..end].to_vec();
                part.splice(at - lo..at - lo, copy);
                d.what.push(format!("{n} bytes at {at} doubled"));
            }
            part.resize(hi - lo, 0);
            d.bytes[lo..hi].copy_from_slice(&part);
        }
        4 => {
            let cut = match s.weighted(&[3, 3, 2]) {
                0 => s.int(0, total) * SECTOR,
                1 => s.below(d.bytes.len() + 1),
                _ => (s.int(0, total) * SECTOR + s.below(24)).min(d.bytes.len()),
            }
            .min(d.bytes.len());
            // smaller draws cut less
            let cut = p.bytes.len().min(d.bytes.len()) - cut.min(p.bytes.len().min(d.bytes.len()));
            d.bytes.truncate(cut);
            d.what.push(format!("cut off after {cut} bytes"));
        }
        5 => {
            let from = *s.pick(&p.chain);
            let to = match s.weighted(&[4, 2, 1, 2, 2, 1]) {
                0 => *s.pick(&p.chain) as u32,
                1 => 0,
                2 => 1,
                3 => (total + s.below(4)) as u32,
                4 => s.below(total) as u32,
                _ => *s.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x8000_0000, 0x0100_0000, 0x0010_0000]),
            };
            set_next(&mut d.bytes, from, to);
            d.what.push(format!("sector {from} linked to sector {to}"));
        }
        6 => {
            let at = SECTOR + s.below(20);
            let v = s.byte();
            if at < d.bytes.len() {
                d.bytes[at] = v;
            }
            d.header = false;
            d.what.push(format!("byte {at} set to {v:#04x}"));
        }
        _ => {
            // contents of two sectors exchanged
            let (a, b) = (*s.pick(&p.chain), *s.pick(&p.chain));
            let with_header = s.chance(50);
            let from = if with_header { 0 } else { 20 };
            for i in from..SECTOR {
                let (x, y) = (a * SECTOR + i, b * SECTOR + i);
                if x < d.bytes.len() && y < d.bytes.len() {
                    d.bytes.swap(x, y);
                }
            }
            d.what.push(format!("sectors {a} and {b} exchanged{}", if with_header { "" } else { " without their headers" }));
        }
    }
}

fn base(s: &mut Source, ctx: &Ctx) -> (Placement, Vec<Vec<u8>>) {
    if s.chance(3) {
        // the repository's sample
        if let Ok(bytes) = std::fs::read(ctx.repo.join("tests/input/blank.fmp12")) {
            if let Chain::Whole(chain) = walk(&bytes) {
                let payloads = chain.iter().map(|c| bytes[c * SECTOR + 20..(c + 1) * SECTOR].to_vec()).collect();
                let unlinked = (3..bytes.len() / SECTOR).filter(|x| !chain.contains(x)).collect();
                return (Placement { bytes, chain, unlinked }, payloads);
            }
        }
    }
    let schema = *s.pick(&[1usize, 2, 4]);
    let scripts = *s.pick(&[0usize, 1, 2]);
    let steps = *s.pick(&[2usize, 6]);
    let c = fmp::content(s, Want { schema, scripts, steps });
    let noise = *s.pick(&[0usize, 10, 30]);
    let (p, payloads, _) = fmp::file(s, &c, noise);
    (p, payloads)
}

/// What lies outside the chain is changed.
fn unlinked(s: &mut Source, ctx: &mut Ctx, p: Placement, payloads: &[Vec<u8>]) -> Res {
    let mut bytes = p.bytes.clone();
    let mut places = p.unlinked.clone();
    let mut what = vec![];
    let n = s.int(if places.is_empty() { 1 } else { 0 }, 3);
    if n > 0 {
        bytes.truncate(bytes.len() / SECTOR * SECTOR);
        for _ in 0..n {
            places.push(bytes.len() / SECTOR);
            bytes.resize(bytes.len() + SECTOR, 0);
        }
        what.push(format!("{n} sectors appended"));
        let last = (bytes.len() / SECTOR - 1) as u32;
        set_next(&mut bytes, 1, last);
    }
    for u in &places {
        if s.chance(70) {
            fmp::fill_unlinked(s, &mut bytes, *u, payloads);
            what.push(format!("sector {u} filled"));
        } else {
            let k = s.int(1, 30);
            for _ in 0..k {
                let at = u * SECTOR + s.below(SECTOR);
                bytes[at] = s.byte();
            }
            if s.chance(50) {
                let to = *s.pick(&p.chain) as u32;
                set_next(&mut bytes, *u, to);
                what.push(format!("sector {u} linked to {to}"));
            }
            what.push(format!("{k} bytes of sector {u} changed"));
        }
    }
    if s.chance(20) {
        let k = s.int(1, 4000);
        let tail = s.bytes(k.min(40));
        bytes.extend(tail);
        what.push("bytes appended".to_string());
    }
    ctx.case(&bytes, || format!("file of {} bytes, chain {:?}; {}", p.bytes.len(), p.chain, what.join(", ")));
    ctx.nontrivial = true;
    ctx.label("only outside the chain");
    let want = outcome(ctx, &p.bytes);
    let got = outcome(ctx, &bytes);
    match (want, got) {
        (Ok(a), Ok(b)) if a == b => Ok(()),
        (Ok(a), Ok(b)) => Err(format!("changing sectors outside the chain changes the result\nfrom {a}\n  to {b}")),
        (Ok(_), Err(e)) => Err(format!("changing sectors outside the chain makes the file unreadable: {e}")),
        // refused before it was touched: not this property's matter
        (Err(_), _) => Ok(()),
    }
}

fn c18_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let (p, payloads) = base(s, ctx);
    if s.chance(25) {
        return unlinked(s, ctx, p, &payloads);
    }
    let mut d = Damage { what: vec![], bytes: p.bytes.clone(), header: true };
    while d.bytes.len() >= p.bytes.len() && s.more(d.what.len(), 1, 5, 2) {
        inflict(s, &mut d, &p);
    }
    let what = d.what.join(", ");
    ctx.case(&d.bytes, || format!("file of {} bytes, chain {:?}; {what}", p.bytes.len(), p.chain));
    ctx.nontrivial = d.bytes != p.bytes;
    let got = outcome(ctx, &d.bytes);
    if d.bytes.len() < 2 * SECTOR {
        ctx.label("cut off in the header");
        return match got {
            Ok(_) => Err(format!("a file of {} bytes is read as if it had content", d.bytes.len())),
            Err(_) => Ok(()),
        };
    }
    ctx.label(if got.is_ok() { "read" } else { "rejected" });
    match walk(&d.bytes) {
        Chain::Loops(x) => {
            ctx.label("looping chain");
            if got.is_ok() {
                return Err(format!("the sector chain loops back to sector {x} and the file is accepted"));
            }
        }
        Chain::Leaves(x) => {
            ctx.label("chain leaves the file");
            if got.is_ok() {
                return Err(format!("the sector chain leaves the file at sector {x} and the file is accepted"));
            }
        }
        Chain::Cut => ctx.label("sector cut off"),
        Chain::Whole(chain) => {
            ctx.label_if(chain != p.chain, "another whole chain");
            if !d.header {
                return Ok(());
            }
            // the chain alone decides
            let alone = outcome(ctx, &compact(&d.bytes, &chain));
            match (got, alone) {
                (Ok(a), Ok(b)) if a != b => {
                    return Err(format!("the same chain of sectors without the rest of the file reads differently\nwith: {a}\nwithout: {b}"));
                }
                (Ok(_), Err(e)) => return Err(format!("without the sectors outside its chain the file is rejected: {e}")),
                (Err(e), Ok(_)) => return Err(format!("the file is rejected, and accepted without the sectors outside its chain: {e}")),
                _ => {}
            }
        }
    }
    Ok(())
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "A case is a synthesised file, or at times the repository's sample, with up to five damages: flipped bits, overwritten, lost or doubled bytes, exchanged sectors, rewired sector links, truncation; or with changed, filled, relinked or appended sectors outside the chain. Decompiling must end with a model or a panic (never a crash, memory exhaustion or an endless run), must refuse a chain that loops or leaves the file, must give what the chain's sectors alone give, and must not change for what lies outside the chain. Non-trivial: the file was changed.",
        assumptions: &[
            "a panic counts as a clean rejection, as it is the program's way to refuse a file",
            "a case that uses 40 s of processor time counts as endless; cases take milliseconds",
            "a last sector that is cut off within its content may be read or refused",
        ],
        quick: 60_000,
        thorough: 1_500_000,
        run: c18_case,
        exhaustive: None,
    }
}
