//! C19: malformed programs are refused or reported.

use crate::burn::{self, Decl, Layout, Script, Stmt};
use crate::cli;
use crate::engine::{guard, Ctx, Prop, Res};
use crate::source::Source;
use burn_fm_hooked::verif as fm;

/// What a piece of a program is.
#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Keyword,
    Name,
    /// colon that may be left out
    Colon,
    Need,
    Open,
    Close,
    Comma,
    Body,
    First,
    Between,
    Second,
    Target,
    End,
    EndKeyword,
    Semi,
    // in scripts
    Define,
    ScriptName,
    Step,
    Block,
    Else,
    Paren,
    Args,
    EndParen,
    Brace,
    EndBrace,
    StepEnd,
}
use K::*;

#[derive(Clone, Debug)]
struct P {
    t: String,
    k: K,
}

fn p(t: &str, k: K) -> P {
    P { t: t.to_string(), k }
}

fn word(k: K) -> bool {
    matches!(k, Keyword | Name | First | Second | Target | End | EndKeyword | Define | ScriptName | Step | Block | Else | Args | Body)
}

fn args(s: &mut Source, l: &Layout, a: &[String], out: &mut Vec<P>) {
    out.push(p("(", Paren));
    let mut t = String::new();
    for (i, x) in a.iter().enumerate() {
        if i > 0 {
            t.push_str(&format!("{},{}", l.gap(s), l.gap(s)));
        }
        t.push_str(x);
    }
    if !t.trim().is_empty() {
        out.push(p(&t, Args));
    }
    out.push(p(")", EndParen));
}

fn block(s: &mut Source, l: &Layout, body: &[Stmt], out: &mut Vec<P>) {
    out.push(p("{", Brace));
    for st in body {
        match st {
            Stmt::Step(n, a) => {
                out.push(p(n, Step));
                if !a.is_empty() || s.chance(70) {
                    args(s, l, a, out);
                }
                out.push(p(";", StepEnd));
            }
            Stmt::Loop(b) => {
                out.push(p("loop", Block));
                block(s, l, b, out);
            }
            Stmt::If(branches, last) => {
                for (i, (c, b)) in branches.iter().enumerate() {
                    out.push(if i == 0 { p("if", Block) } else { p("elif", Else) });
                    args(s, l, std::slice::from_ref(c), out);
                    block(s, l, b, out);
                }
                if let Some(b) = last {
                    out.push(p("else", Else));
                    block(s, l, b, out);
                }
            }
        }
    }
    out.push(p("}", EndBrace));
}

fn script(s: &mut Source, l: &Layout, sc: &Script, out: &mut Vec<P>) {
    out.push(p("define", Define));
    out.push(p(&sc.name, ScriptName));
    args(s, l, &sc.params, out);
    block(s, l, &sc.body, out);
}

fn pieces(s: &mut Source, l: &Layout, d: &Decl) -> Vec<P> {
    let mut v = vec![];
    let bodies = s.chance(50);
    let mut body = String::new();
    let start = |s: &mut Source, v: &mut Vec<P>, kind: &str, name: &str| {
        v.push(p(kind, Keyword));
        v.push(p(name, Name));
        if s.chance(90) {
            v.push(p(":", Colon));
        }
    };
    let end = |v: &mut Vec<P>, kind: &str| v.extend([p("end", End), p(kind, EndKeyword), p(";", Semi)]);
    match d {
        Decl::Table(n) => {
            start(s, &mut v, "table", n);
            if bodies {
                burn::fields(s, l, &mut body);
                v.push(p(&body, Body));
            }
            end(&mut v, "table");
        }
        Decl::ValueList(n) => {
            start(s, &mut v, "value_list", n);
            if bodies {
                burn::entries(s, l, &mut body);
                v.push(p(&body, Body));
            }
            end(&mut v, "value_list");
        }
        Decl::Relation(a, b) => {
            v.extend([p("relationship", Keyword), p(":", Need), p(a, First), p(":", Between), p(b, Second)]);
            if bodies {
                burn::criteria(s, l, &mut body);
                v.push(p(&body, Body));
            }
            end(&mut v, "relationship");
        }
        Decl::Occurrence(n, t) => {
            start(s, &mut v, "table_occurence", n);
            v.extend([p("table", Block), p(":", Need), p(t, Target)]);
            if s.chance(80) {
                v.push(p(",", Comma));
            }
            end(&mut v, "table_occurence");
        }
        Decl::Scripts(c) => {
            v.extend([p("script", Keyword), p(":", Need), p("[", Open)]);
            for x in c {
                script(s, l, x, &mut v);
            }
            v.push(p("]", Close));
        }
        Decl::Test(n, c) => {
            start(s, &mut v, "test", n);
            v.extend([p("script", Block), p(":", Need), p("[", Open)]);
            script(s, l, c, &mut v);
            v.extend([p("]", Close), p(",", Comma)]);
            end(&mut v, "test");
        }
    }
    v.retain(|x| !(x.k == Body && x.t.trim().is_empty()));
    v
}

fn join(s: &mut Source, l: &Layout, v: &[P]) -> String {
    let mut t = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            let apart = word(v[i - 1].k) && word(x.k) || v[i - 1].k == Body;
            t.push_str(&if apart { l.space(s) } else { l.gap(s) });
        }
        t.push_str(&x.t);
    }
    t
}

#[derive(Clone, Copy, PartialEq)]
enum Due {
    Refused,
    /// refused or reported
    Reported,
    /// reported, and everything else compiled as written
    Skipped,
}

struct Flaw {
    what: String,
    due: Due,
    v: Vec<P>,
    /// the program ends after this many bytes of the declaration
    cut: bool,
}

fn places(v: &[P], kinds: &[K]) -> Vec<usize> {
    (0..v.len()).filter(|i| kinds.contains(&v[*i].k)).collect()
}

/// A flaw for a declaration, or none if the kind chosen does not apply.
fn flaw(s: &mut Source, d: &Decl, v: &[P]) -> Option<Flaw> {
    let scripts = matches!(d, Decl::Scripts(_) | Decl::Test(..));
    let some = |s: &mut Source, at: Vec<usize>| if at.is_empty() { None } else { Some(*s.pick(&at)) };
    let drop = |v: &[P], i: usize| {
        let mut w = v.to_vec();
        w.remove(i);
        w
    };
    let give = |what: String, due: Due, v: Vec<P>| Some(Flaw { what, due, v, cut: false });
    let kind = if scripts { s.weighted(&[2, 1, 1, 1, 3, 1, 3, 2, 2, 3, 2, 2, 2, 2, 2, 2]) } else { s.weighted(&[4, 1, 1, 1, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 2]) };
    // without its colon what follows could be the name
    let told = |i: &usize| v[*i].k != Name || v[i + 1].k != Body;
    match kind {
        0 => {
            if matches!(d, Decl::Occurrence(..)) && s.chance(20) {
                // the whole entry of its table
                let w = v.iter().filter(|x| !matches!(x.k, Block | Need | Target)).cloned().collect();
                return give("its table is left out".to_string(), Due::Refused, w);
            }
            let at = places(v, &[Keyword, Name, Need, Open, First, Between, Second, Target, End, EndKeyword, Semi]).into_iter().filter(told).collect();
            let i = some(s, at)?;
            if matches!(v[i].k, Need | Open | Between | Semi) && s.chance(50) {
                // another sign in its place
                let mut w = v.to_vec();
                let t = s.pick(&[";", ",", ":", "[", "]", "(", ")", "{", "}", "=", "."]).to_string();
                if t == w[i].t {
                    return None;
                }
                w[i].t = t.clone();
                return give(format!("{t:?} stands for {:?}", v[i].t), Due::Refused, w);
            }
            give(format!("{:?} {:?} is left out", v[i].k, v[i].t), Due::Refused, drop(v, i))
        }
        1 => {
            let i = some(s, places(v, &[EndKeyword]))?;
            let mut w = v.to_vec();
            let other = loop {
                let t = if s.chance(70) { s.pick(&["table", "relationship", "value_list", "table_occurence", "script", "test", "end", "tables"]).to_string() } else { burn::identifier(s) };
                if t != w[i].t {
                    break t;
                }
            };
            w[i].t = other.clone();
            give(format!("it ends with {other:?}"), Due::Refused, w)
        }
        2 => {
            let i = some(s, places(v, &[Keyword]))?;
            let mut w = v.to_vec();
            w[i].t = match s.below(4) {
                0 => format!("{}s", w[i].t),
                1 => w[i].t.to_uppercase(),
                2 => w[i].t[..w[i].t.len() - 1].to_string(),
                _ => burn::identifier(s),
            };
            let t = w[i].t.clone();
            give(format!("it starts with {t:?}"), Due::Refused, w)
        }
        3 => {
            let i = some(s, places(v, &[Name, Target, First, Second]).into_iter().filter(|i| v[*i].k != Name || told(i)).collect())?;
            let mut w = v.to_vec();
            w[i].t = match s.below(8) {
                0..=2 => s.int(0, 99).to_string(),
                3..=5 => format!("{}{}", s.below(10), w[i].t),
                6 => {
                    let n = s.int(20, 300);
                    format!("{}{}", s.below(10), burn::long_name(s, n))
                }
                _ => s.pick(&["1.5", "-3", ".5", "1e5", "+7", "\"text\"", "\"\""]).to_string(),
            };
            let t = w[i].t.clone();
            give(format!("{t:?} stands for a name"), Due::Refused, w)
        }
        4 => Some(Flaw { what: "it is cut off".to_string(), due: Due::Refused, v: v.to_vec(), cut: true }),
        5 => {
            let i = some(s, places(v, &[Close]))?;
            give("the script block is not closed".to_string(), Due::Reported, drop(v, i))
        }
        6 => {
            // a step that does not exist
            let i = some(s, places(v, &[Step]))?;
            let mut w = v.to_vec();
            w[i].t = if s.chance(50) { format!("{}_x", w[i].t) } else { s.pick(&["set_variables", "Set_Variable", "beep", "go_to", "exit", "dialog"]).to_string() };
            let t = w[i].t.clone();
            give(format!("step {t:?} does not exist"), Due::Skipped, w)
        }
        7 => {
            let i = some(s, places(v, &[StepEnd]))?;
            if s.chance(60) {
                return give("a step is not ended".to_string(), Due::Reported, drop(v, i));
            }
            let mut w = v.to_vec();
            w[i].t = s.pick(&[",", ":", "{", "."]).to_string();
            let t = w[i].t.clone();
            give(format!("a step ends with {t:?}"), Due::Reported, w)
        }
        8 => {
            let i = some(s, places(v, &[Brace]))?;
            if s.chance(70) {
                return give("a block is not opened".to_string(), Due::Reported, drop(v, i));
            }
            let mut w = v.to_vec();
            w[i].t = s.pick(&[",", ":", ";", "["]).to_string();
            let t = w[i].t.clone();
            give(format!("a block is opened with {t:?}"), Due::Reported, w)
        }
        9 => {
            let at = places(v, &[EndBrace]).into_iter().filter(|i| v.get(i + 1).is_none_or(|x| x.k != Else)).collect();
            let i = some(s, at)?;
            give("a block is not closed".to_string(), Due::Reported, drop(v, i))
        }
        10 => {
            let i = some(s, places(v, &[EndParen]))?;
            give("arguments are not closed".to_string(), Due::Reported, drop(v, i))
        }
        11 => {
            let at = places(v, &[Paren]).into_iter().filter(|i| v[i - 1].k != ScriptName && v[i + 1].k == Args).collect();
            let i = some(s, at)?;
            give("arguments are not opened".to_string(), Due::Reported, drop(v, i))
        }
        12 => {
            let i = some(s, places(v, &[ScriptName, Define]))?;
            give(format!("{:?} is left out", v[i].t), Due::Reported, drop(v, i))
        }
        14 if scripts && s.chance(60) => {
            let at = (1..v.len()).filter(|i| matches!(v[*i].k, Define | Step | Block | Else | EndBrace | Close) && matches!(v[*i - 1].k, StepEnd | Brace | EndBrace)).collect();
            let at = some(s, at)?;
            let mut w = v.to_vec();
            let t = stray(s);
            // a right step, or a bracket that closes the block of a test where it ends anyway
            if t.starts_with("assert") || t == "]" && v[at].k == Close {
                return None;
            }
            w.insert(at, p(&t, Body));
            give(format!("{t:?} stands in a script"), Due::Reported, w)
        }
        14 => {
            // what starts no declaration stands before or after one
            let mut w = v.to_vec();
            let t = stray(s);
            let last = s.chance(50);
            w.insert(if last { w.len() } else { 0 }, p(&t, Body));
            give(format!("{t:?} stands {} it", if last { "after" } else { "before" }), Due::Refused, w)
        }
        15 => repeated(s, d, v),
        _ => {
            let mut w = v.to_vec();
            match s.below(3) {
                0 => {
                    // one closing brace too many
                    let at = some(s, places(v, &[EndBrace]))?;
                    w.insert(at + 1, p("}", EndBrace));
                    give("a block is closed twice".to_string(), Due::Reported, w)
                }
                1 => {
                    // after the start of a loop or script nothing is there to be the else of
                    let at = places(v, &[Brace]).into_iter().filter(|i| v[i - 1].t == "loop" || is_body(v, *i)).collect();
                    let at = some(s, at)?;
                    let e = if s.chance(50) { vec![p("else", Else), p("{", Brace), p("}", EndBrace)] } else { vec![p("elif", Else), p("(", Paren), p("x", Args), p(")", EndParen), p("{", Brace), p("}", EndBrace)] };
                    for (k, x) in e.into_iter().enumerate() {
                        w.insert(at + 1 + k, x);
                    }
                    give("an else stands without its if".to_string(), Due::Reported, w)
                }
                _ => {
                    let Decl::Test(..) = d else { return None };
                    let (a, b) = (v.iter().position(|x| x.k == Define)?, v.iter().position(|x| x.k == Close)?);
                    if s.chance(50) {
                        let mut again: Vec<P> = v[a..b].to_vec();
                        if s.chance(60) {
                            // of another name
                            for x in again.iter_mut().filter(|x| x.k == ScriptName) {
                                x.t.push('2');
                            }
                        }
                        for (k, x) in again.into_iter().enumerate() {
                            w.insert(b + k, x);
                        }
                        give("a test holds two scripts".to_string(), Due::Refused, w)
                    } else {
                        w.drain(a..b);
                        give("a test holds no script".to_string(), Due::Refused, w)
                    }
                }
            }
        }
    }
}

/// Something that is no declaration and starts none.
fn stray(s: &mut Source) -> String {
    match s.below(6) {
        0 => burn::identifier(s),
        1 => s.int(0, 99999).to_string(),
        2 => format!("{}{}", s.below(10), burn::identifier(s)),
        3 => s.pick(&["table", "end", "end table;", "end script;", "relationship", "value_list", "table_occurence", "test", "define", "loop", "assert(1 == 1);"]).to_string(),
        4 => s.pick(&["\"\"", "\"text\"", "\"", "{}", "{ x }", "(x)", "()", "[]", "[ x ]", "[", "{", "(", "# text", "// text"]).to_string(),
        _ => s.pick(&[";", ",", ":", "::", "]", ")", "}", "=", "==", "!", "!\"", ".", "#", "-", "&", "<", ">", "%", "$", "_", "é"]).to_string(),
    }
}

/// What is named once in a declaration is named twice, or not at all.
fn repeated(s: &mut Source, d: &Decl, v: &[P]) -> Option<Flaw> {
    let mut w = v.to_vec();
    let mut put = |at: usize, x: Vec<P>| {
        for (k, x) in x.into_iter().enumerate() {
            w.insert(at + k, x);
        }
    };
    let what = match d {
        Decl::Occurrence(_, t) => {
            let at = v.iter().position(|x| x.k == Target)? + 1;
            let t = if s.chance(30) { t.clone() } else { burn::identifier(s) };
            let mut x = vec![p("table", Block), p(":", Need), p(&t, Target)];
            if s.chance(80) {
                x.insert(0, p(",", Comma));
            }
            put(at, x);
            "it names two tables"
        }
        Decl::Relation(a, _) => {
            let at = v.iter().position(|x| x.k == Second)? + 1;
            let (c, e) = (if s.chance(30) { a.clone() } else { burn::identifier(s) }, burn::identifier(s));
            let x = match s.below(3) {
                0 => vec![p(":", Between), p(&c, Second)],
                1 => vec![p(&c, First), p(":", Between), p(&e, Second)],
                _ => vec![p(",", Comma), p(&c, First), p(":", Between), p(&e, Second)],
            };
            put(at, x);
            "it names more than two tables"
        }
        Decl::Test(..) => {
            let (a, b) = (v.iter().position(|x| x.k == Block)?, v.iter().position(|x| x.k == Close)? + 1);
            if s.chance(50) {
                let mut x = vec![p(",", Comma)];
                x.extend_from_slice(&v[a..b]);
                if s.chance(20) {
                    x.remove(0);
                }
                put(b, x);
                "it has two script entries"
            } else {
                w.drain(a..b + 1);
                "it has no script entry"
            }
        }
        _ => return None,
    };
    Some(Flaw { what: what.to_string(), due: Due::Refused, v: w, cut: false })
}

/// The brace at `i` opens the body of a script.
fn is_body(v: &[P], i: usize) -> bool {
    let mut k = i;
    while k > 0 && v[k].k != Paren {
        k -= 1;
    }
    k > 0 && v[i - 1].k == EndParen && v[k - 1].k == ScriptName
}

/// The declaration without one step.
fn without(d: &Decl, n: usize) -> Decl {
    fn take(b: &mut Vec<Stmt>, n: &mut usize) -> bool {
        let mut i = 0;
        while i < b.len() {
            match &mut b[i] {
                Stmt::Step(..) => {
                    if *n == 0 {
                        b.remove(i);
                        return true;
                    }
                    *n -= 1;
                }
                Stmt::Loop(x) => {
                    if take(x, n) {
                        return true;
                    }
                }
                Stmt::If(br, last) => {
                    if br.iter_mut().any(|x| take(&mut x.1, n)) || last.as_mut().is_some_and(|x| take(x, n)) {
                        return true;
                    }
                }
            }
            i += 1;
        }
        false
    }
    let mut n = n;
    let mut d = d.clone();
    match &mut d {
        Decl::Scripts(v) => {
            let _ = v.iter_mut().any(|x| take(&mut x.body, &mut n));
        }
        Decl::Test(_, c) => {
            take(&mut c.body, &mut n);
        }
        _ => {}
    }
    d
}

/// A piece of text that may stand anywhere.
fn scrap(s: &mut Source) -> String {
    let words = [
        "table", "end table;", "end", ";", ":", ",", "[", "]", "{", "}", "(", ")", "\"", "=", "==", "!", "<", ">", "::", "relationship", "value_list", "script: [", "define", "test", "table_occurence", "assertions",
        "if(", "else", "elif(", "loop {", "exit_loop_if(", "set_variable(a, 1);", "exit_script(", "\n", "\t", " ", "#", "//", "/*", "\\", "'", "$", "\0", "ж", "名", "9", "-1", "1e9", "found_in", "sort",
    ];
    s.pick(&words).to_string()
}

/// Any text at all: compiling it ends.
fn scrambled(s: &mut Source, ctx: &mut Ctx) -> Res {
    let mut text = String::new();
    if s.chance(75) {
        let l = Layout::pick(s);
        let mut n = 0;
        while s.more(n, 1, 8, 2) {
            n += 1;
            let d = burn::declaration(s, &[], &[]);
            burn::render_decl(s, &l, &d, &mut text);
            text.push_str(&l.gap(s));
        }
    }
    let edits = s.size(1, 12);
    for _ in 0..edits {
        let at: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
        let i = *s.pick(&at);
        let j = *s.pick(&at);
        let (i, j) = (i.min(j), i.max(j));
        match s.below(6) {
            // a stretch is lost, doubled, or moved
            0 => text.replace_range(i..j.min(at[at.iter().position(|x| *x == i).unwrap().saturating_add(8).min(at.len() - 1)]), ""),
            1 if text.len() < 4000 => text.insert_str(i, &text[i..j].to_string()),
            2 => {
                let cut: String = text[i..j].to_string();
                text.replace_range(i..j, "");
                let at: Vec<usize> = text.char_indices().map(|x| x.0).chain([text.len()]).collect();
                text.insert_str(*s.pick(&at), &cut);
            }
            3 => text.truncate(j),
            _ => text.insert_str(i, &scrap(s)),
        }
    }
    let by_program = s.chance(2);
    ctx.case(text.as_bytes(), || text.clone());
    ctx.nontrivial = text.len() > 20;
    ctx.label("any text");
    if !by_program {
        // neither endless nor a crash; what it makes of the text is its own affair
        let _ = guard(|| fm::compile_burn(&text));
        ctx.take_errors();
        return Ok(());
    }
    let dir = ctx.fresh_dir("malformed");
    std::fs::write(dir.join("bad.burn"), &text).expect("file");
    let before = cli::tree(&dir);
    let r = cli::run_program(ctx, &dir, &["-c", "bad.burn", "--no-testing"].map(String::from), &[]);
    ctx.label("by the program");
    match r.code {
        None => Err(format!("the program is ended by signal {:?}", r.signal)),
        Some(c) if c != 0 && cli::tree(&dir) != before => Err(format!("the program ends with exit code {c} and leaves files behind")),
        Some(c) if c != 0 && r.err.trim().is_empty() => Err(format!("the program ends with exit code {c} and says nothing")),
        _ => Ok(()),
    }
}

fn c19_case(s: &mut Source, ctx: &mut Ctx) -> Res {
    if s.chance(10) {
        return scrambled(s, ctx);
    }
    let by_program = s.chance(1);
    let mut decls: Vec<Decl> = vec![];
    let avg = *s.pick(&[1usize, 3, 8]);
    let (most, avg) = if s.chance(1) { (200, 60) } else { (12, avg) };
    while s.more(decls.len(), 1, most, avg) {
        let d = burn::declaration(s, &[], &[]);
        decls.push(d);
    }
    let l = Layout::pick(s);
    let all: Vec<Vec<P>> = decls.iter().map(|d| pieces(s, &l, d)).collect();
    let mut k = s.below(decls.len());
    let holds: Vec<usize> = (0..decls.len()).filter(|i| all[*i].iter().any(|x| x.k == Step)).collect();
    if !holds.is_empty() && s.chance(45) {
        k = *s.pick(&holds);
    }
    let mut f = None;
    for _ in 0..8 {
        f = flaw(s, &decls[k], &all[k]);
        if f.is_some() {
            break;
        }
    }
    let f = f.unwrap_or(Flaw { what: "it is cut off".to_string(), due: Due::Refused, v: all[k].clone(), cut: true });
    let mut before = l.gap(s);
    for v in &all[..k] {
        before.push_str(&join(s, &l, v));
        before.push_str(&l.gap(s));
    }
    let mut flawed = join(s, &l, &f.v);
    let mut after = l.gap(s);
    for v in &all[k + 1..] {
        after.push_str(&join(s, &l, v));
        after.push_str(&l.gap(s));
    }
    let mut what = f.what.clone();
    if f.cut {
        let at: Vec<usize> = flawed.char_indices().map(|x| x.0).filter(|i| !flawed[..*i].trim().is_empty()).collect();
        let mut at = *s.pick(&at);
        if s.chance(40) {
            // right after a piece
            let mut ends = vec![];
            let mut n = 0;
            for x in &f.v[..f.v.len() - 1] {
                if let Some(i) = flawed[n..].find(&x.t) {
                    n += i + x.t.len();
                    ends.push(n);
                }
            }
            at = *s.pick(&ends);
        }
        flawed.truncate(at);
        flawed.push_str(*s.pick(&["", " ", "\n"]));
        after = String::new();
        what = format!("it is cut off after byte {at}");
    }
    let text = format!("{before}{flawed}{after}");
    ctx.case(text.as_bytes(), || format!("declaration {}: {what}\n{text}", k + 1));
    ctx.nontrivial = decls.len() > 1;
    ctx.label(match f.due {
        Due::Refused if f.cut => "cut off",
        Due::Refused => "flawed declaration",
        Due::Reported => "flawed script",
        Due::Skipped => "unknown step",
    });
    let what = format!("declaration {}: {what}", k + 1);
    // the program is right apart from the flaw
    let whole: Vec<String> = all.iter().map(|v| join(s, &l, v)).collect();
    let sep = l.gap(s);
    let whole = format!("{}{sep}", whole.join(&sep));
    let g = guard(|| fm::compile_burn(&whole)).map_err(|e| format!("the program without the flaw: compiling {e}\n{whole}"))?;
    burn::same_program(&decls, &g).map_err(|e| format!("the program without the flaw: {e}\n{whole}"))?;
    if by_program {
        return program(s, ctx, &what, f.due, &text);
    }
    ctx.take_errors();
    let got = guard(|| fm::compile_burn(&text));
    let said = ctx.take_errors();
    match (f.due, got) {
        (Due::Refused, Ok(_)) => Err(format!("{what}: the program is compiled all the same")),
        (Due::Reported, Ok(_)) if said.trim().is_empty() => Err(format!("{what}: the program is compiled without a word")),
        (Due::Skipped, Ok(g)) => {
            if said.trim().is_empty() {
                return Err(format!("{what}: the program is compiled without a word"));
            }
            let i = f.v.iter().zip(&all[k]).position(|(a, b)| a.t != b.t).expect("changed step");
            let n = all[k][..i].iter().filter(|x| x.k == Step).count();
            let mut rest = decls.clone();
            rest[k] = without(&decls[k], n);
            burn::same_program(&rest, &g).map_err(|e| format!("{what}: the rest is not compiled as written: {e}"))
        }
        _ => Ok(()),
    }
}

fn program(s: &mut Source, ctx: &mut Ctx, what: &str, due: Due, text: &str) -> Res {
    let dir = ctx.fresh_dir("malformed");
    let as_tests = s.chance(30);
    std::fs::write(dir.join("bad.burn"), text).expect("file");
    std::fs::write(dir.join("good.burn"), "table t: end table;\n").expect("file");
    let a: &[&str] = if as_tests { &["-c", "good.burn", "-t", "bad.burn", "--no-testing"] } else { &["-c", "bad.burn", "--no-testing"] };
    let a: Vec<String> = a.iter().map(|x| x.to_string()).collect();
    let before = cli::tree(&dir);
    let r = cli::run_program(ctx, &dir, &a, &[]);
    ctx.label("by the program");
    let Some(code) = r.code else {
        return Err(format!("{what}: the program is ended by signal {:?}", r.signal));
    };
    if r.err.trim().is_empty() {
        return Err(format!("{what}: the program ends with exit code {code} and says nothing"));
    }
    if due == Due::Refused && code == 0 {
        return Err(format!("{what}: the program accepts it"));
    }
    if code != 0 && cli::tree(&dir) != before {
        return Err(format!("{what}: the program ends with exit code {code} and leaves files behind"));
    }
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "A case is a program of up to twelve declarations (1 % up to 200) in random layout with one flaw in one of them: a name, colon, bracket, closing keyword or semicolon left out or another sign in its place, the table of an occurrence left out, a wrong keyword, a number for a name, the text cut off at any character of the declaration, anything that starts no declaration before or after it, a second table, script entry or pair of tables; or in a script an unknown step, a step, block or argument list that is not ended or not opened, a block closed twice, an else without its if, anything that is no step between the steps, no script or two in a test. It is compiled by the library or by the program itself. The same program without the flaw is compiled and compared first. One case in ten is a program scrambled at random, of which only the end of compiling is judged. Non-trivial: at least two declarations.",
        assumptions: &[
            "a colon after the name of a declaration and a comma before its end may be left out, and a branch need not be closed before its elif or else: the compiler takes both as meant",
            "a program that is not text, or whose string literals are not closed, is only generated scrambled",
        ],
        quick: 500_000,
        thorough: 4_000_000,
        run: c19_case,
        exhaustive: None,
    }
}
