//! C23: runs that are killed, runs after them, and runs at the same time.

use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use crate::cli::{call, describe, put, run_program, runs, tree, Call, Ran};
use crate::engine::{Ctx, Prop, Res};
use crate::faults::{logged, outputs, same, World};
use crate::fmp::SECTOR;
use crate::source::Source;

type Files = BTreeMap<String, Vec<u8>>;
type Shown = Vec<(String, Vec<String>, Option<bool>)>;

/// A call whose arguments do not depend on the directory.
fn relative(s: &mut Source, max: usize) -> Call {
    let mut c = call(s, Path::new("./"), max);
    for a in &mut c.args {
        *a = a.replace("././", "./");
    }
    c
}

fn key(cs: &[Call], what: &str) -> Vec<u8> {
    let mut k = what.as_bytes().to_vec();
    for c in cs {
        k.extend_from_slice(describe(c).as_bytes());
        for d in &c.databases {
            k.extend_from_slice(&d.1);
        }
    }
    k
}

/// What a call does when nothing disturbs it.
struct Alone {
    files: Files,
    code: Option<i32>,
    shown: Shown,
}

fn alone(ctx: &Ctx, c: &Call, before: &Files) -> Result<Alone, String> {
    let dir = ctx.fresh_dir("interrupted/one");
    for (n, b) in before {
        put(&dir, n, b);
    }
    let r = run_program(ctx, &dir, &c.args, &[]);
    if r.code != Some(0) {
        return Err(format!("with nothing in the way, the program ends with exit code {:?}, signal {:?}", r.code, r.signal));
    }
    Ok(Alone { files: tree(&dir), code: r.code, shown: runs(&r.out) })
}

fn as_alone(what: &str, a: &Alone, r: &Ran) -> Res {
    if r.signal.is_some() || r.code != a.code {
        return Err(format!("{what}, the program ends with exit code {:?}, signal {:?}: {}", r.code, r.signal, r.err.lines().next().unwrap_or("")));
    }
    let got = runs(&r.out);
    if got != a.shown {
        return Err(format!("{what}, tests are reported as {got:?} instead of {:?}", a.shown));
    }
    Ok(())
}

fn chunk(s: &mut Source) -> usize {
    match s.below(4) {
        0 => s.int(1, 8),
        1 => s.int(9, 300),
        2 => s.int(301, 5000),
        _ => 0,
    }
}

fn killed(s: &mut Source, ctx: &mut Ctx) -> Res {
    let c = relative(s, 3);
    let mut before: Files = c.files.clone();
    let outs = outputs(&c);
    for o in &outs {
        if s.chance(15) {
            let n = s.size(0, 20_000);
            before.insert(o.clone(), vec![b'#'; n]);
        }
    }
    for o in ["notes", "in/other", "inspect_output/more"] {
        if s.chance(20) {
            before.insert(o.to_string(), o.as_bytes().to_vec());
        }
    }
    let mut kills = vec![];
    while s.more(kills.len(), 1, 4, 1) {
        let most = *s.pick(&[6usize, 12, 40]);
        // an operation of whatever kind, or writing to one of its files
        let on = if s.chance(40) { String::new() } else { format!("{}|{}", s.pick(&["write", "open"]), s.pick(&outs)) };
        kills.push((chunk(s), s.int(1, if on.starts_with("open") { 1 } else { most }), s.below(1 << 20), on));
    }
    let what = format!("killed at {:?}", kills.iter().map(|k| (k.3.as_str(), k.1, k.0)).collect::<Vec<_>>());
    ctx.case(&key(std::slice::from_ref(&c), &what), || format!("{what} (on, operation, bytes at a time)\n{}", describe(&c)));
    ctx.label("killed");
    let want = alone(ctx, &c, &before)?;
    let dir = ctx.fresh_dir("interrupted/two");
    for (n, b) in &before {
        put(&dir, n, b);
    }
    let log = ctx.scratch.join("interrupted.log");
    let ours = |k: &String| outs.contains(k);
    let kept = |m: &Files| -> Files { m.iter().filter(|(k, _)| !ours(k)).map(|(k, v)| (k.clone(), v.clone())).collect() };
    let (mut hits, mut writing) = (0, false);
    for (chunk, at, mix, on) in &kills {
        let mut w = World::new(ctx, &log);
        match on.split_once('|') {
            Some((op, f)) => w.set("BF_FAULT", format!("{op}|{}|{at}|0", dir.join(f).to_string_lossy())),
            None => w.set("BF_KILL", at),
        }
        w.set("BF_MIX", mix);
        if *chunk > 0 {
            w.set("BF_CHUNK", chunk);
        }
        let r = run_program(ctx, &dir, &c.args, &w.env());
        let lines = logged(&log);
        let hit = lines.iter().any(|l| l.0 == "F");
        if !hit {
            // it was done before
            as_alone("in pieces", &want, &r)?;
            continue;
        }
        hits += 1;
        writing |= lines.iter().any(|l| l.0 == "W");
        same("after the program was killed", &kept(&before), &kept(&tree(&dir)))?;
    }
    ctx.label_if(hits > 0, "killed in the middle");
    ctx.label_if(writing, "killed while writing");
    ctx.label_if(hits > 1, "killed more than once");
    ctx.nontrivial = hits > 0 && (writing || outs.len() > 2);
    let r = run_program(ctx, &dir, &c.args, &[]);
    as_alone("after the program was killed", &want, &r)?;
    same("after the program was killed and run again", &want.files, &tree(&dir))
}

fn together(s: &mut Source, ctx: &mut Ctx) -> Res {
    let n = s.int(2, 4);
    let mut calls: Vec<Call> = vec![];
    // directory of each
    let mut at: Vec<usize> = vec![];
    for i in 0..n {
        if i > 0 && s.chance(15) {
            // the same call, elsewhere
            let j = s.below(i);
            calls.push(calls[j].clone());
            at.push(i);
            continue;
        }
        let mut c = relative(s, 2);
        // test files have names of their own
        let name = |x: &str| x.replace("tests ", &format!("tests-{i}-"));
        c.files = c.files.into_iter().map(|(k, v)| (name(&k), v)).collect();
        c.args = c.args.iter().map(|a| name(a)).collect();
        // in one directory with another call, if they do not get into each other's way
        let apart = |j: usize| {
            let (a, b) = (outputs(&c), outputs(&calls[j]));
            let mut x: BTreeSet<&String> = c.files.keys().chain(&a).filter(|k| !common(k)).collect();
            x.retain(|k| calls[j].files.contains_key(*k) || b.contains(k));
            x.is_empty()
        };
        let j = s.below(i + 1);
        let fits = j < i && (0..i).filter(|k| at[*k] == at[j]).all(apart);
        at.push(if fits { at[j] } else { i });
        calls.push(c);
    }
    let delays: Vec<(usize, usize, usize)> = (0..n).map(|_| (*s.pick(&[0usize, 100, 500, 2000]), chunk(s).max(40), s.below(1 << 20))).collect();
    let what = format!("at the same time, in directories {at:?}, waiting {delays:?}");
    ctx.case(&key(&calls, &what), || format!("{what}\n{}", calls.iter().map(describe).collect::<Vec<_>>().join("\n===\n")));
    ctx.label("at the same time");
    let shared = (0..n).any(|i| at[i] != i);
    ctx.label_if(shared, "at the same time in one directory");
    let mut want = vec![];
    for c in &calls {
        want.push(alone(ctx, c, &c.files)?);
    }
    ctx.nontrivial = want.iter().filter(|w| w.shown.len() > 1 || w.files.values().any(|f| f.len() > SECTOR)).count() > 1;
    let dirs: Vec<_> = (0..n).map(|i| ctx.fresh_dir(&format!("interrupted/at{i}"))).collect();
    for (i, c) in calls.iter().enumerate() {
        for (n, b) in &c.files {
            put(&dirs[at[i]], n, b);
        }
    }
    let mut worlds = vec![];
    for (i, (delay, chunk, mix)) in delays.iter().enumerate() {
        let mut w = World::new(ctx, &ctx.scratch.join(format!("interrupted-{i}.log")));
        w.set("BF_CHUNK", chunk);
        w.set("BF_DELAY", delay);
        w.set("BF_MIX", mix);
        worlds.push(w);
    }
    let ran: Vec<Ran> = std::thread::scope(|t| {
        let ctx = &*ctx;
        let h: Vec<_> = calls.iter().zip(&worlds).enumerate().map(|(i, (c, w))| (c, w, &dirs[at[i]])).map(|(c, w, d)| t.spawn(move || run_program(ctx, d, &c.args, &w.env()))).collect();
        h.into_iter().map(|x| x.join().expect("run")).collect()
    });
    for (w, r) in want.iter().zip(&ran) {
        as_alone("at the same time as others", w, r)?;
    }
    for (d, dir) in dirs.iter().enumerate() {
        let here: Vec<usize> = (0..n).filter(|i| at[*i] == d).collect();
        // what several write is the one's or the other's, or a mixture
        let mut all = Files::new();
        let mut writers: BTreeMap<&String, usize> = BTreeMap::new();
        for i in &here {
            for (k, v) in &want[*i].files {
                *writers.entry(k).or_default() += 1;
                all.insert(k.clone(), v.clone());
            }
        }
        let mut got = tree(dir);
        for (k, n) in writers {
            if n > 1 && common(k) && got.contains_key(k) {
                got.remove(k);
                all.remove(k);
            }
        }
        same("after runs at the same time", &all, &got)?;
    }
    Ok(())
}

/// Files that every call writes.
fn common(k: &str) -> bool {
    k == "header.log" || k.starts_with("inspect_output/")
}

fn c23_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    if s.chance(60) {
        killed(s, ctx)
    } else {
        together(s, ctx)
    }
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "A case is either one call of the program as for C17 that is killed one to four times, each at a generated operation on a file (opening, reading, writing, possibly in small pieces), and then run undisturbed; or two to four calls that run at the same time with generated delays and piece sizes before every operation on a file, in one directory where their names allow or in several. After a kill all files but the run's own outputs have to be as before, and the run after it has to leave the files, exit code and reported tests of a run that nothing preceded; simultaneous runs have to end, report and leave the files as each does alone. Non-trivial: killed in the middle of a run that had begun to write, or at least two simultaneous runs with files over a sector or several tests.",
        assumptions: &[
            "of simultaneous runs in one directory, files that several of them write under one name are not judged",
            "what a killed run leaves in its own output files is not judged",
        ],
        quick: 4_000,
        thorough: 100_000,
        run: c23_case,
        exhaustive: None,
    }
}
