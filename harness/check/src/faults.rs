//! C22: the program in a world where files are read and written in pieces, and
//! where reading and writing fail. The world is a library loaded before the
//! program (shim/shim.c), or something in the way of its files.

use std::collections::BTreeMap;
use std::path::Path;

use crate::cli::{call, describe, put, run_program, runs, tree, Call};
use crate::engine::{Ctx, Prop, Res};
use crate::fmp::SECTOR;
use crate::source::Source;

const ERRORS: [(i32, &str); 7] = [
    (libc::ENOSPC, "no space"),
    (libc::EIO, "input/output error"),
    (libc::EACCES, "permission denied"),
    (libc::EROFS, "read-only file system"),
    (libc::EDQUOT, "quota exceeded"),
    (libc::EMFILE, "too many open files"),
    (libc::EFBIG, "file too large"),
];

type Shown = Vec<(String, Vec<String>, Option<bool>)>;

pub struct World {
    pub env: Vec<(String, String)>,
}

impl World {
    pub fn new(ctx: &Ctx, log: &Path) -> World {
        let _ = std::fs::remove_file(log);
        World { env: vec![("LD_PRELOAD".into(), ctx.shim.to_string_lossy().into_owned()), ("BF_LOG".into(), log.to_string_lossy().into_owned())] }
    }

    pub fn set(&mut self, k: &str, v: impl ToString) {
        self.env.push((k.to_string(), v.to_string()));
    }

    pub fn env(&self) -> Vec<(&str, &str)> {
        self.env.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect()
    }
}

/// Lines of the log: (kind, rest).
pub fn logged(log: &Path) -> Vec<(String, String)> {
    String::from_utf8_lossy(&std::fs::read(log).unwrap_or_default())
        .lines()
        .filter_map(|l| l.split_once(' ').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}

/// Files the call is to write.
pub fn outputs(c: &Call) -> Vec<String> {
    let mut v = vec![];
    if c.sources.is_empty() {
        v.push("inspect_output/test_decompile".to_string());
        if c.header {
            v.push("header.log".to_string());
        }
    } else {
        v.push("inspect_output/test_compile".to_string());
        v.extend(c.sources.iter().map(|x| format!("{}.fmp12", x.0)));
    }
    v
}

enum Plan {
    /// Nothing fails.
    Pieces,
    /// (operation, file, from which time on, error)
    Fails(&'static str, String, usize, i32, &'static str),
    /// A directory where a file is to be written.
    Directory(String),
    /// A file where the directory of the outputs is to be.
    NoRoom,
    /// An input that is a link to nothing.
    Dangling(String),
    /// Inputs are links to files elsewhere, which changes nothing.
    Links,
}

pub fn same(what: &str, want: &BTreeMap<String, Vec<u8>>, got: &BTreeMap<String, Vec<u8>>) -> Res {
    for k in want.keys().chain(got.keys()) {
        match (want.get(k), got.get(k)) {
            (Some(a), Some(b)) if a == b => {}
            (Some(a), Some(b)) => {
                let at = a.iter().zip(b).take_while(|(x, y)| x == y).count();
                return Err(format!("{what}, {k} has {} bytes instead of {} and differs from byte {at}", b.len(), a.len()));
            }
            (Some(_), None) => return Err(format!("{what}, {k} is not written")),
            _ => return Err(format!("{what}, {k} is written as well")),
        }
    }
    Ok(())
}

fn c22_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    let dir = ctx.fresh_dir("faults/world");
    let elsewhere = ctx.fresh_dir("faults/elsewhere");
    let c = call(s, Path::new("./"), 3);
    let args: Vec<String> = c.args.iter().map(|a| a.replace("././", "./")).collect();
    let inputs: Vec<String> = c.files.keys().cloned().collect();
    let outs = outputs(&c);
    let mut files = c.files.clone();
    for o in &outs {
        if s.chance(15) {
            let n = s.size(0, 20_000);
            files.insert(o.clone(), vec![b'#'; n]);
        }
    }
    let chunk = match s.weighted(&[3, 2, 2, 2, 1]) {
        0 => 0,
        1 => s.int(1, 8),
        2 => s.int(9, 300),
        3 => s.int(301, 5000),
        _ => 4096,
    };
    let fresh = !files.keys().any(|f| f.starts_with("inspect_output/"));
    let plan = match s.weighted(&[25, 18, 12, 10, if fresh { 5 } else { 0 }, 6, 4, 5, 5]) {
        0 => Plan::Pieces,
        k @ 1..=4 => {
            let (e, name) = *s.pick(&ERRORS);
            let from = if s.chance(60) { 1 } else { s.size(1, 12) };
            match k {
                1 => Plan::Fails("write", s.pick(&outs).clone(), from, e, name),
                2 => Plan::Fails("open", s.pick(&outs).clone(), if s.chance(80) { 1 } else { from }, e, name),
                3 => {
                    let op = *s.pick(&["read", "open"]);
                    Plan::Fails(op, s.pick(&inputs).clone(), from, e, name)
                }
                _ => Plan::Fails("mkdir", "inspect_output".to_string(), 1, e, name),
            }
        }
        5 => Plan::Directory(s.pick(&outs).clone()),
        6 => Plan::NoRoom,
        7 => Plan::Dangling(s.pick(&inputs).clone()),
        _ => Plan::Links,
    };
    let chunk = if matches!(plan, Plan::Pieces) && chunk == 0 { 700 } else { chunk };
    let what = match &plan {
        Plan::Pieces => "reading and writing in pieces".to_string(),
        Plan::Fails(op, f, k, _, name) => format!("{op} of {f} failing from time {k} on ({name})"),
        Plan::Directory(f) => format!("a directory in place of {f}"),
        Plan::NoRoom => "a file in place of inspect_output".to_string(),
        Plan::Dangling(f) => format!("{f} a link to nothing"),
        Plan::Links => "linked inputs".to_string(),
    };
    let mut key = format!("{what}|{chunk}|{}", describe(&c)).into_bytes();
    for d in &c.databases {
        key.extend_from_slice(&d.1);
    }
    ctx.case(&key, || format!("{what}{}\n{}", if chunk > 0 { format!(", at most {chunk} bytes at a time") } else { String::new() }, describe(&c)));
    // an ordinary world first
    for (n, b) in &files {
        put(&dir, n, b);
    }
    let r = run_program(ctx, &dir, &args, &[]);
    if r.code != Some(0) {
        return Err(format!("with nothing in the way, the program ends with exit code {:?}, signal {:?}", r.code, r.signal));
    }
    let want = tree(&dir);
    let want_shown: Shown = runs(&r.out);
    // and again in the other one
    let dir = ctx.fresh_dir("faults/world");
    let mut before = files.clone();
    let mut certain = false;
    match &plan {
        Plan::Directory(f) => {
            before.remove(f);
            before.insert(format!("{f}/kept"), b"kept".to_vec());
            certain = true;
        }
        Plan::NoRoom => {
            before.retain(|k, _| !k.starts_with("inspect_output/"));
            before.insert("inspect_output".to_string(), b"kept".to_vec());
            certain = true;
        }
        _ => {}
    }
    for (n, b) in &before {
        let linked = match &plan {
            Plan::Dangling(f) => f == n,
            Plan::Links => inputs.contains(n),
            _ => false,
        };
        if !linked {
            put(&dir, n, b);
            continue;
        }
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).expect("directory");
        let to = elsewhere.join(n.replace('/', "_"));
        if matches!(plan, Plan::Links) {
            std::fs::write(&to, b).expect("file");
        } else {
            certain = true;
        }
        std::os::unix::fs::symlink(&to, &p).expect("link");
    }
    if let Plan::Dangling(f) = &plan {
        before.remove(f);
    }
    let log = ctx.scratch.join("faults.log");
    let mut w = World::new(ctx, &log);
    if chunk > 0 {
        w.set("BF_CHUNK", chunk);
    }
    if let Plan::Fails(op, f, k, e, _) = &plan {
        w.set("BF_FAULT", format!("{op}|{}|{k}|{e}", dir.join(f).to_string_lossy()));
    }
    let r = run_program(ctx, &dir, &args, &w.env());
    let lines = logged(&log);
    let failed = certain || lines.iter().any(|l| l.0 == "F");
    let split = lines.iter().any(|l| l.0 == "S");
    ctx.nontrivial = failed || (split && (want_shown.len() > 1 || outs.iter().any(|o| want[o].len() > SECTOR)));
    ctx.label(match (&plan, failed) {
        (Plan::Fails(op, ..), true) => match *op {
            "write" => "a write fails",
            "open" => "an open fails",
            "read" => "a read fails",
            _ => "a directory cannot be made",
        },
        (_, true) => "something is in the way",
        (Plan::Links, _) => "linked inputs",
        (_, false) if split => "reading or writing in pieces",
        _ => "nothing happens",
    });
    if let Some(x) = r.signal {
        return Err(format!("with {what}, the program is ended by signal {x}"));
    }
    let mut after = tree(&dir);
    if let Plan::Dangling(f) = &plan {
        if std::fs::symlink_metadata(dir.join(f)).is_err() || elsewhere.join(f.replace('/', "_")).exists() {
            return Err(format!("with {what}, the link is followed or removed"));
        }
        after.remove(f);
    }
    if failed {
        if r.code == Some(0) {
            return Err(format!("with {what}, the program reports success"));
        }
        // whatever else there is stays as it was
        let ours = |k: &String| outs.contains(k) || k == "inspect_output";
        let kept = |m: &BTreeMap<String, Vec<u8>>| -> BTreeMap<String, Vec<u8>> { m.iter().filter(|(k, _)| !ours(k)).map(|(k, v)| (k.clone(), v.clone())).collect() };
        return same(&format!("with {what}"), &kept(&before), &kept(&after));
    }
    if r.code != Some(0) {
        return Err(format!("with {what}{}, the program ends with exit code {:?}", if matches!(plan, Plan::Fails(..)) { " (which did not come up)" } else { "" }, r.code));
    }
    same(&format!("with {what}"), &want, &after)?;
    let got = runs(&r.out);
    if got != want_shown {
        return Err(format!("with {what}, tests are reported as {got:?} instead of {want_shown:?}"));
    }
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "A case is one call of the program as for C17, made twice: in an ordinary directory, and with files read and written in pieces of generated sizes by a preloaded library, with one kind of operation (opening, reading, writing, making the directory) on one of its files failing from its k-th time on with a generated error, with a directory or file in the way of an output, with an input that is a link to nothing, or with linked inputs. Where something failed the exit code has to say so and every other file has to stay; otherwise exit code, all files and reported tests have to be those of the ordinary run. Non-trivial: something failed, or files over a sector or several tests went through in pieces.",
        assumptions: &[
            "what a failed run leaves in its own output files is not judged",
            "failures of closing files and of standard output are not injected",
        ],
        quick: 12_000,
        thorough: 150_000,
        run: c22_case,
        exhaustive: None,
    }
}
