//! Inputs of the known findings (known_findings.txt): each states what should
//! happen and fails while the defect is there.

use std::collections::BTreeMap;

use crate::engine::{guard, Ctx, Res};
use crate::fmp::Rel;
use crate::vm::{self, Db};
use burn_fm_hooked::verif as fm;

pub struct Finding {
    pub id: &'static str,
    pub name: &'static str,
    pub run: fn(&mut Ctx) -> Res,
}

fn db() -> Db {
    let names = |v: &[&str]| v.iter().enumerate().map(|(i, n)| (i + 1, n.to_string())).collect::<BTreeMap<_, _>>();
    Db {
        tables: BTreeMap::from([
            (1, ("t".to_string(), names(&["a", "b", "c_d"]))),
            (2, ("u".to_string(), names(&["k", "v"]))),
            (3, ("w".to_string(), names(&["k", "v"]))),
        ]),
        occurrences: BTreeMap::from([(1, ("t".to_string(), 1)), (2, ("u".to_string(), 2)), (3, ("w".to_string(), 3))]),
        layouts: vec![("lt".to_string(), 1), ("lu".to_string(), 2), ("lw".to_string(), 3)],
        relations: vec![],
    }
}

fn file(relations: &[(usize, usize, usize, usize, usize)], code: &str) -> Result<fm::FmpFile, String> {
    let mut d = db();
    d.relations = relations.iter().map(|r| Rel { table1: r.0, field1: r.1, cmp: r.2, table2: r.3, field2: r.4 }).collect();
    let mut f = d.file(&mut crate::source::Source::replay(vec![]));
    let c = guard(|| fm::compile_burn(code))?;
    f.tests = c.tests;
    f.scripts = c.scripts;
    Ok(f)
}

/// One test of these steps shows these texts and has this outcome.
fn steps(ctx: &mut Ctx, scripts: &str, steps: &str, shown: &[&str], pass: bool) -> Res {
    let f = file(&[], &format!("script : [ {scripts} ] test one : script : [ define one() {{ {steps} }} ] , end test ;"))?;
    ctx.take_output();
    let mut te = fm::TestEnvironment::new(&f);
    let r = guard(|| {
        te.generate_test_environment();
        vm::drive(&mut te, f.tests[0].clone(), 2000)
    });
    let got = vm::shown_lines(&ctx.take_output());
    r??;
    let want: Vec<String> = shown.iter().map(|t| format!("@@d{t}")).collect();
    if got != want {
        return Err(format!("shows {got:?}, should show {want:?}"));
    }
    if (te.test_state == fm::TestState::Pass) != pass {
        return Err(format!("outcome {:?}", te.test_state));
    }
    Ok(())
}

fn value(ctx: &mut Ctx, e: &str, want: &str) -> Res {
    steps(ctx, "", &format!("set_variable(x, {e}); show_custom_dialog(\"@@d\" & x);"), &[want], true)
}

fn truth(ctx: &mut Ctx, e: &str) -> Res {
    steps(ctx, "", &format!("assert({e});"), &[], true)
}

/// Several tests run together report these outcomes and texts.
fn tests(ctx: &mut Ctx, bodies: &[&str], want: &[(&[&str], bool)]) -> Res {
    let mut code = String::new();
    for (i, b) in bodies.iter().enumerate() {
        code.push_str(&format!("test t{i} : script : [ define t{i}() {{ {b} }} ] , end test ; "));
    }
    let f = file(&[], &code)?;
    ctx.take_output();
    let mut te = fm::TestEnvironment::new(&f);
    guard(|| {
        te.generate_test_environment();
        te.run_tests_with_cleanup()
    })?;
    let got = crate::cli::runs(&ctx.take_output());
    let want: Vec<(String, Vec<String>, Option<bool>)> =
        want.iter().enumerate().map(|(i, w)| (format!("t{i}"), w.0.iter().map(|t| format!("@@d{t}")).collect(), Some(w.1))).collect();
    if got != want {
        return Err(format!("reports {got:?}, should report {want:?}"));
    }
    Ok(())
}

/// Reads a related field after these steps.
fn relation(relations: &[(usize, usize, usize, usize, usize)], steps: &str, from: u16, target: (&str, &str), want: Option<&str>) -> Res {
    let f = file(relations, &format!("test one : script : [ define one() {{ {steps} }} ] , end test ;"))?;
    let mut te = fm::TestEnvironment::new(&f);
    guard(|| {
        te.generate_test_environment();
        vm::drive(&mut te, f.tests[0].clone(), 2000)
    })??;
    te.database.set_current_occurrence(from);
    let got = guard(|| te.database.get_related_record_field(target.0, target.1).ok())?;
    if got.as_deref() != want {
        return Err(format!("gives {got:?}, should give {want:?}"));
    }
    Ok(())
}

const TWO: &str = "go_to_layout(\"lt\"); new_record_request(); set_field(t::a, 1); go_to_layout(\"lu\"); new_record_request(); set_field(u::k, 2);";

pub fn findings() -> Vec<Finding> {
    macro_rules! f {
        ($id:literal, $name:literal, $run:expr) => {
            Finding { id: $id, name: $name, run: $run }
        };
    }
    vec![
        f!("C09", "number-order", |c| truth(c, "9 < 10")),
        f!("C09", "call-before-operator", |c| value(c, "Abs(0 - 2) - 3", "-1")),
        f!("C09", "function-arguments", |c| value(c, "Min(7, 3)", "3")),
        f!("C09", "blank-text", |c| value(c, "\"a\" & \"-\" & \"b\"", "a-b")),
        f!("C09", "get-function", |c| value(c, "Get(AccountName)", "Admin")),
        f!("C09", "negative-number", |c| value(c, "3 + -5", "-2")),
        f!("C09", "tab-after-name", |c| value(c, "1\t+ 2", "3")),
        f!("C09", "stored-truth", |c| value(c, "1 == 1", "true")),
        f!("C09", "abs-precision", |c| value(c, "Abs(16777217)", "16777217")),
        f!("C09", "negative-zero", |c| truth(c, "0 * (0 - 1) == 0")),
        f!("C09", "asin", |c| truth(c, "Asin(0) == 0")),
        f!("C09", "field-underscore", |c| {
            steps(c, "", "new_record_request(); set_field(t::c_d, 4); show_custom_dialog(\"@@d\" & t::c_d);", &["4"], true)
        }),
        f!("C10", "if-in-skipped-branch", |c| {
            steps(c, "", "if(1 == 2) { if(1 == 1) { } show_custom_dialog(\"@@d1\"); } show_custom_dialog(\"@@d2\");", &["2"], true)
        }),
        f!("C10", "if-in-branch", |c| {
            steps(c, "", "if(1 == 1) { if(1 == 1) { } } else { show_custom_dialog(\"@@d1\"); } show_custom_dialog(\"@@d2\");", &["2"], true)
        }),
        f!("C10", "else-in-branch", |c| {
            steps(c, "", "if(1 == 1) { if(1 == 2) { } else { show_custom_dialog(\"@@d1\"); } } show_custom_dialog(\"@@d2\");", &["1", "2"], true)
        }),
        f!("C10", "exit-from-branch", |c| {
            steps(
                c,
                "",
                "loop { if(1 == 1) { exit_loop_if(1 == 1); } } if(1 == 2) { } else { show_custom_dialog(\"@@d1\"); } show_custom_dialog(\"@@d2\");",
                &["1", "2"],
                true,
            )
        }),
        f!("C10", "loop-in-loop", |c| {
            steps(
                c,
                "",
                "set_variable(i, 0); loop { exit_loop_if(i == 2); set_variable(i, i + 1); show_custom_dialog(\"@@d\" & i); loop { exit_loop_if(1 == 1); } }",
                &["1", "2"],
                true,
            )
        }),
        f!("C10", "exit-before-loop", |c| {
            steps(
                c,
                "",
                "loop { exit_loop_if(1 == 1); loop { exit_loop_if(1 == 1); } show_custom_dialog(\"@@d1\"); exit_loop_if(1 == 1); } show_custom_dialog(\"@@d2\");",
                &["2"],
                true,
            )
        }),
        f!("C10", "exit-flag", |c| {
            steps(
                c,
                "",
                "new_record_request(); loop { go_to_record(\"next\", \"false\"); show_custom_dialog(\"@@d1\"); exit_loop_if(1 == 1); }",
                &["1"],
                true,
            )
        }),
        f!("C09", "number-words", |c| {
            steps(c, "", "set_variable(nan, \"a\"); show_custom_dialog(\"@@d\" & nan);", &["a"], true)
        }),
        f!("C11", "variables-kept", |c| {
            steps(
                c,
                "define s() { show_custom_dialog(\"@@d\" & x); set_variable(x, 1); }",
                "perform_script(\"s\"); perform_script(\"s\");",
                &["", ""],
                true,
            )
        }),
        f!("C11", "missing-script", |c| {
            steps(c, "", "perform_script(\"none\"); show_custom_dialog(\"@@d1\");", &["1"], true)
        }),
        f!("C11", "exit-script", |c| {
            steps(
                c,
                "define s() { show_custom_dialog(\"@@d1\"); exit_script(1); show_custom_dialog(\"@@d2\"); }",
                "perform_script(\"s\"); show_custom_dialog(\"@@d3\");",
                &["1", "3"],
                true,
            )
        }),
        f!("C12", "outcome-kept", |c| tests(c, &["assert(1 == 2);", "show_custom_dialog(\"@@d1\");"], &[(&[], false), (&["1"], true)])),
        f!("C12", "variables-kept", |c| {
            tests(c, &["set_variable(x, 1);", "show_custom_dialog(\"@@d\" & x);"], &[(&[], true), (&[""], true)])
        }),
        f!("C12", "records-kept", |c| {
            tests(
                c,
                &[
                    "go_to_layout(\"lt\"); new_record_request(); set_field(t::a, 1);",
                    "go_to_layout(\"lt\"); new_record_request(); set_field(t::a, 2); go_to_record(\"first\"); show_custom_dialog(\"@@d\" & t::a);",
                ],
                &[(&[], true), (&["2"], true)],
            )
        }),
        f!("C12", "layout-kept", |c| {
            tests(
                c,
                &["go_to_layout(\"lu\");", "new_record_request(); set_field(t::a, 2); show_custom_dialog(\"@@d\" & t::a);"],
                &[(&[], true), (&["2"], true)],
            )
        }),
        f!("C12", "find-kept", |c| {
            tests(
                c,
                &[
                    "enter_find_mode();",
                    "go_to_layout(\"lt\"); new_record_request(); set_field(t::a, 2); show_custom_dialog(\"@@d\" & t::a);",
                ],
                &[(&[], true), (&["2"], true)],
            )
        }),
        f!("C13", "no-record", |c| steps(c, "", "go_to_record(\"next\"); show_custom_dialog(\"@@d1\");", &["1"], true)),
        f!("C13", "other-occurrence", |c| {
            steps(c, "", &format!("{TWO} show_custom_dialog(\"@@d\" & t::a);"), &["1"], true)
        }),
        f!("C14", "strict-comparison", |_| {
            relation(
                &[(1, 1, 2, 2, 1)],
                "go_to_layout(\"lt\"); new_record_request(); set_field(t::a, 1); go_to_layout(\"lu\"); new_record_request(); set_field(u::k, 1);",
                1,
                ("u", "k"),
                None,
            )
        }),
        f!("C14", "reversed-comparison", |_| {
            // t::a <= u::k holds for 1 and 2
            relation(&[(1, 1, 3, 2, 1)], TWO, 2, ("t", "a"), Some("1"))
        }),
        f!("C14", "number-keys", |_| {
            relation(
                &[(1, 1, 3, 2, 1)],
                "go_to_layout(\"lt\"); new_record_request(); set_field(t::a, 9); go_to_layout(\"lu\"); new_record_request(); set_field(u::k, 10);",
                1,
                ("u", "k"),
                Some("10"),
            )
        }),
        f!("C14", "chain-keys", |_| {
            // t::a = u::k and u::v = w::k
            relation(
                &[(1, 1, 0, 2, 1), (2, 2, 0, 3, 1)],
                "go_to_layout(\"lt\"); new_record_request(); set_field(t::a, 1); \
                 go_to_layout(\"lu\"); new_record_request(); set_field(u::k, 1); set_field(u::v, 7); \
                 go_to_layout(\"lw\"); new_record_request(); set_field(w::k, 7); set_field(w::v, 8);",
                1,
                ("w", "v"),
                Some("8"),
            )
        }),
        f!("C14", "chain-copies", |_| {
            // t - o4 - ... - o11, each with all records of the other
            crate::engine::limit_memory(1 << 30);
            let mut d = db();
            let last = 11;
            for o in 4..=last {
                d.occurrences.insert(o, (format!("o{o}"), 1));
                d.relations.push(Rel { table1: if o == 4 { 1 } else { o - 1 }, field1: 1, cmp: 6, table2: o, field2: 1 });
            }
            let mut f = d.file(&mut crate::source::Source::replay(vec![]));
            let steps = format!("go_to_layout(\"lt\"); {}", "new_record_request(); set_field(t::a, 3);".repeat(12));
            f.tests = guard(|| fm::compile_burn(&format!("test one : script : [ define one() {{ {steps} }} ] , end test ;")))?.tests;
            let mut te = fm::TestEnvironment::new(&f);
            guard(|| {
                te.generate_test_environment();
                vm::drive(&mut te, f.tests[0].clone(), 2000)
            })??;
            te.database.set_current_occurrence(1);
            let got = guard(|| te.database.get_related_record_field(&format!("o{last}"), "a").ok())?;
            if got.as_deref() != Some("3") {
                return Err(format!("gives {got:?}, should give 3"));
            }
            Ok(())
        }),
    ]
}
