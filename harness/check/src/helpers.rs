//! C24: the helper scripts (scripts/*.py) decode what the program's formats hold.

use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};

use crate::codec::NAME_TABLE;
use crate::engine::{Ctx, Prop, Res};
use crate::source::Source;
use burn_fm_hooked::verif as fm;

/// Answers one line per line: runs the scripts as programs, within one process.
const SERVER: &str = r#"
import sys, io, contextlib
sys.path.insert(0, sys.argv[1])
code = {k: compile(open(sys.argv[1] + "/" + f).read(), f, "exec") for k, f in
    {"int": "decode_int.py", "name": "decode_2byte_string.py", "text": "decode_fmstring.py"}.items()}
for line in sys.stdin:
    kind, _, rest = line.rstrip("\n").partition(" ")
    out = io.StringIO()
    sys.argv = ["script", rest]
    with contextlib.redirect_stdout(out):
        try:
            exec(code[kind], {"__name__": "__main__"})
        except SystemExit:
            pass
        except Exception as e:
            print(type(e).__name__ + ": " + str(e))
    print(ascii((out.getvalue().splitlines() or [""])[-1]))
"#;

const FILES: [&str; 4] = ["decode_int.py", "decode_2byte_string.py", "decode_fmstring.py", "decode_all_strings.py"];

/// A copy of the scripts, so that nothing is written next to them.
fn scripts(ctx: &Ctx) -> Result<PathBuf, String> {
    let dir = ctx.scratch.join("scripts");
    if !dir.exists() {
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        for f in FILES {
            std::fs::copy(format!("/repo/scripts/{f}"), dir.join(f)).map_err(|e| format!("{f}: {e}"))?;
        }
    }
    Ok(dir)
}

fn python(ctx: &Ctx, args: &[&str], input: &str) -> Result<(Option<i32>, String, String), String> {
    let mut c = Command::new("python3")
        .args(["-B", "-S", "-E", "-X", "utf8"])
        .args(args)
        .current_dir(scripts(ctx)?)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("python3 does not start: {e}"))?;
    let mut i = c.stdin.take().unwrap();
    let input = input.to_string();
    let t = std::thread::spawn(move || drop(i.write_all(input.as_bytes())));
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    let _ = t.join();
    Ok((o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned()))
}

fn list(b: &[u8], sep: &str) -> String {
    b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep)
}

fn name(s: &mut Source) -> String {
    let n = s.size(1, 40);
    (0..n).map(|_| s.pick(&NAME_TABLE).0).collect()
}

fn name_bytes(t: &str) -> Vec<u8> {
    t.chars().flat_map(|c| NAME_TABLE.iter().find(|x| x.0 == c).map(|x| [x.1, x.2]).unwrap()).collect()
}

fn text(s: &mut Source) -> String {
    let n = s.size(1, 60);
    (0..n).map(|_| if s.chance(70) { (b'a' + s.below(26) as u8) as char } else { (b' ' + s.below(95) as u8) as char }).collect()
}

fn number(s: &mut Source) -> Vec<u8> {
    let n = *s.pick(&[1usize, 2, 4]);
    (0..n).map(|_| if s.chance(40) { *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff]) } else { s.below(256) as u8 }).collect()
}

fn be(b: &[u8]) -> String {
    b.iter().fold(0u64, |a, x| a << 8 | *x as u64).to_string()
}

/// What python's ascii() makes of a printable text.
fn quoted(t: &str) -> String {
    let q = if t.contains('\'') && !t.contains('"') { '"' } else { '\'' };
    let mut r = String::from(q);
    for c in t.chars() {
        if c == '\\' || c == q {
            r.push('\\');
        }
        r.push(c);
    }
    r.push(q);
    r
}

fn many(s: &mut Source, ctx: &mut Ctx) -> Res {
    let (mut input, mut want, mut view) = (String::new(), vec![], vec![]);
    while s.more(want.len(), 1, 400, 80) {
        match s.below(3) {
            0 => {
                let b = number(s);
                input.push_str(&format!("int {}\n", list(&b, ", ")));
                want.push(quoted(&be(&b)));
                view.push(format!("number {b:?}"));
            }
            1 => {
                let t = name(s);
                let b = name_bytes(&t);
                if fm::encode_text(&t) != b {
                    return Err(format!("the program stores the name {t:?} as {:?}, not as {b:?}", fm::encode_text(&t)));
                }
                input.push_str(&format!("name {}\n", list(&b, ",")));
                want.push(quoted(&t));
                view.push(format!("name {t:?}"));
            }
            _ => {
                let t = text(s);
                let b: Vec<u8> = t.bytes().map(|c| c ^ 0x5a).collect();
                input.push_str(&format!("text {}\n", list(&b, ",")));
                want.push(quoted(&t));
                view.push(format!("text {t:?}"));
            }
        }
    }
    ctx.case(input.as_bytes(), || view.join("\n"));
    ctx.label("many values");
    ctx.nontrivial = want.len() > 5;
    let dir = scripts(ctx)?;
    let (code, out, err) = python(ctx, &["-c", SERVER, &dir.to_string_lossy()], &input)?;
    if code != Some(0) {
        return Err(format!("the scripts cannot be used: {}", err.lines().last().unwrap_or("")));
    }
    let got: Vec<&str> = out.lines().collect();
    for (i, w) in want.iter().enumerate() {
        let g = got.get(i).copied().unwrap_or("nothing");
        if g != w {
            return Err(format!("{} is decoded to {g}", view[i]));
        }
    }
    Ok(())
}

fn single(s: &mut Source, ctx: &mut Ctx) -> Res {
    ctx.label("a script of its own");
    ctx.nontrivial = true;
    let (file, arg, want, shown) = match s.below(4) {
        0 => {
            let b = number(s);
            ("decode_int.py", list(&b, ", "), be(&b), "number".to_string())
        }
        1 => {
            let t = name(s);
            ("decode_2byte_string.py", list(&name_bytes(&t), ","), t, "name".to_string())
        }
        2 => {
            let t = text(s);
            let b: Vec<u8> = t.bytes().map(|c| c ^ 0x5a).collect();
            ("decode_fmstring.py", list(&b, ","), t, "text".to_string())
        }
        _ => {
            // lines as the program prints chunks
            let (mut dump, mut want) = (String::new(), vec![]);
            let mut n = 0;
            while s.more(n, 1, 60, 10) {
                n += 1;
                let depth = s.int(0, 4);
                let path = format!("{:?}", (0..depth).map(|_| s.below(300).to_string()).collect::<Vec<_>>());
                let t = text(s);
                let b: Vec<u8> = t.bytes().map(|c| c ^ 0x5a).collect();
                let key = *s.pick(&[16usize, 16, 16, 1, 6, 160, 161, 116, 252]);
                dump.push_str(&format!("Path:{path}::reference:Some({key})::ref_data:{b:?}::size:{}::ins:6\n", b.len()));
                if key == 16 {
                    want.push(format!("{path}: {t}"));
                }
            }
            let f = scripts(ctx)?.join("dump");
            std::fs::write(&f, &dump).map_err(|e| e.to_string())?;
            ctx.case(dump.as_bytes(), || dump.clone());
            let (code, out, err) = python(ctx, &["decode_all_strings.py", "dump"], "")?;
            if code != Some(0) {
                return Err(format!("decode_all_strings.py ends with {code:?}: {}", err.lines().last().unwrap_or("")));
            }
            // (between them, it prints how long they are)
            let got: Vec<&str> = out.lines().filter(|l| l.starts_with('[')).collect();
            for i in 0..want.len().max(got.len()) {
                if want.get(i).map(|w| w.as_str()) != got.get(i).copied() {
                    return Err(format!("decode_all_strings.py prints {:?}, the text stored is {:?}", got.get(i), want.get(i)));
                }
            }
            return Ok(());
        }
    };
    ctx.case(format!("{file} {arg}").as_bytes(), || format!("{file} {arg}"));
    let (code, out, err) = python(ctx, &[file, &arg], "")?;
    if code != Some(0) {
        return Err(format!("{file} {arg} ends with {code:?}: {}", err.lines().last().unwrap_or("")));
    }
    if out.lines().last() != Some(want.as_str()) {
        return Err(format!("{file} {arg} prints {:?}, the {shown} is {want:?}", out.lines().last()));
    }
    Ok(())
}

fn c24_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    if s.chance(75) {
        many(s, ctx)
    } else {
        single(s, ctx)
    }
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "A case is either up to 400 generated numbers of one, two or four bytes, names and texts of printable ASCII, in the bytes the file format has for them, given to the helper scripts run one after another in one process, or one of the scripts run by itself on such bytes or on a generated dump of chunks. Non-trivial: more than five values, or a script run by itself.",
        assumptions: &[
            "names are those of the name alphabet without its zero character, which the program and the script show differently",
            "aggregate_segments.py and script_instruction_gen.py have no stated format and are not judged",
        ],
        quick: 2_000,
        thorough: 60_000,
        run: c24_case,
        exhaustive: None,
    }
}
