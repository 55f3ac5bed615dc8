use crate::gen::{Cfg, Gen, BASE};
use crate::model::{self, Model, Stop};
use crate::runner::{about_to_run, pass, trivial, Bad, Check, Ctx, Verdict};
use crate::source::Src;
use crate::sut::{self, guard, Files, Outcome, Sut};
use std::collections::BTreeMap;

pub mod dev;
mod api;
pub mod cost;
mod db;
mod disk;
mod lang;
mod pieces;
pub mod robust;
mod trace;
mod tree;
pub mod share;

pub struct Prog {
    pub text: String,
    pub canon: String,
    pub files: BTreeMap<String, String>,
    pub starts: Vec<(usize, usize)>,
}

pub fn program(src: &mut Src, cfg: Cfg) -> Prog {
    let mut g = Gen::new(src, cfg);
    g.program();
    Prog { text: g.text, canon: g.canon, files: g.files, starts: g.starts }
}

pub fn describe(text: &str, files: &BTreeMap<String, String>) -> String {
    let mut s = format!("{}\n", text);
    for (n, t) in files {
        s += &format!("--- file {}\n{}\n", n, t);
    }
    s
}

/// Puts the files of a case on the disk, in a directory of its own
pub fn put_files(ctx: &Ctx, files: &BTreeMap<String, String>) {
    if files.is_empty() {
        return;
    }
    let _ = std::fs::remove_dir_all(&ctx.dir);
    for (n, t) in files {
        let p = ctx.dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
}

pub fn count_stats(ctx: &mut Ctx, m: &Model) {
    let s = &m.stats;
    for (n, v) in [
        ("assignments", s.assigns),
        ("appends", s.appends),
        ("conditional_assignments_kept", s.cond_kept),
        ("conditionals_evaluated", s.conds_taken),
        ("conditionals_skipped", s.conds_skipped),
        ("lines_skipped", s.skipped_lines),
        ("rules", s.rules),
        ("rules_merged", s.merges),
        ("rules_overwritten", s.overwrites),
        ("recipe_lines", s.recipe_lines),
        ("evals", s.evals),
        ("includes", s.includes),
        ("soft_missing_includes", s.soft_missing),
        ("references", s.refs),
        ("substitutions", s.subrefs),
        ("computed_names", s.computed),
        ("defines", s.defines),
        ("continuations", s.continuations),
        ("comments", s.comments),
        ("quoted_separators", s.escapes),
    ]
    .iter()
    {
        ctx.count(n, *v);
    }
    ctx.max("expansion_depth", s.max_depth);
}

/// Names to look at
pub fn names_of(m: &Model) -> Vec<String> {
    let mut v: Vec<String> = m.vars.keys().cloned().collect();
    for n in crate::gen::VARS.iter().chain(crate::gen::UNDEF).chain(["PTR", "IDX", "INC", "CODE", "inner", "", "D$n", "$", "n", "D$", "LN", "D", "."].iter()) {
        if !m.vars.contains_key(*n) {
            v.push(n.to_string());
        }
    }
    v
}

/// Does the state of the engine agree with the model?
pub fn compare_state(ctx: &mut Ctx, m: &Model, s: &mut Sut, ignore_rules: &[String]) -> Result<(), String> {
    for n in names_of(m) {
        let is = s.defined(&n);
        let should = m.vars.contains_key(&n);
        if is != should {
            return Err(format!("the variable {:?} is {}defined", n, if is { "" } else { "not " }));
        }
        match m.var_value(&n) {
            None => {}
            Some(Err(Stop::Unspec(_))) | Some(Err(Stop::Recursion)) => ctx.count("values_not_judged", 1),
            Some(Err(_)) => ctx.count("values_not_judged", 1),
            Some(Ok((v, _))) => {
                let b = s.var_block(&n).unwrap().map_err(|p| format!("expanding {:?} panicked: {}", n, p))?;
                let got = guard(|| b.into_string())?;
                ctx.count("values_compared", 1);
                if got != v {
                    return Err(format!("$({}) is {:?} but should be {:?}", n, got, v));
                }
            }
        }
    }
    compare_rules(ctx, m, s, ignore_rules)
}

pub fn compare_rules(ctx: &mut Ctx, m: &Model, s: &mut Sut, ignore: &[String]) -> Result<(), String> {
    let mut rules = s.rules()?;
    for i in ignore {
        rules.remove(i);
    }
    let got: Vec<&String> = rules.keys().collect();
    let want: Vec<&String> = m.rules.keys().filter(|k| !ignore.contains(k)).collect();
    if got != want {
        return Err(format!("there are rules for {:?} but should be for {:?}", got, want));
    }
    for (t, r) in &rules {
        let want = &m.rules[t];
        ctx.count("rules_compared", 1);
        let mut deps = vec![];
        for d in r.dependencies() {
            deps.push(guard(|| d.into_string())?);
        }
        if deps != want.deps {
            return Err(format!("{:?} depends on {:?} but should on {:?}", t, deps, want.deps));
        }
        let n = r.recipe().commands().len();
        if n != want.cmds.len() {
            return Err(format!("the recipe of {:?} has {} commands, should have {}", t, n, want.cmds.len()));
        }
        if !sut::HOOKS {
            continue;
        }
        #[cfg(feature = "hooks")]
        {
            let dc = r.verif_rule_type() == hastur::RuleType::DoubleColon;
            if dc != want.double_colon {
                return Err(format!("the rule for {:?} is{} a double colon rule", t, if dc { "" } else { " not" }));
            }
        }
        for (c, w) in r.recipe().commands().iter().zip(&want.cmds) {
            match m.value(&w.text) {
                Ok((v, _)) => {
                    let got = s.cmd_text(c)?;
                    ctx.count("commands_compared", 1);
                    let same = if w.inline { got.trim_start_matches(model::is_blank) == v.trim_start_matches(model::is_blank) } else { got == v };
                    if !same {
                        return Err(format!("a command of {:?} is {:?} but should be {:?}", t, got, v));
                    }
                }
                Err(_) => ctx.count("values_not_judged", 1),
            }
        }
    }
    Ok(())
}

/// Did reading end the way the model says? `Ok(false)`: not to be judged
pub fn compare_outcome(r: &Result<(), Stop>, o: &Outcome) -> Result<(), String> {
    match (r, o) {
        (Ok(()), Outcome::Ok) => Ok(()),
        (Err(Stop::Err(k)), Outcome::Err(Some(g), _)) if k == g => Ok(()),
        (Ok(()), Outcome::Err(_, e)) => Err(format!("reading failed with {}", e)),
        (Err(Stop::Err(k)), Outcome::Err(_, g)) => Err(format!("reading failed with {} but should with {:?}", g, k)),
        (Err(Stop::Err(k)), Outcome::Ok) => Err(format!("reading went well but should fail with {:?}", k)),
        (_, Outcome::Panic(p)) => Err(format!("reading panicked: {}", p)),
        (Err(_), _) => unreachable!("not to be judged"),
    }
}

pub fn judged(r: &Result<(), Stop>) -> bool {
    match r {
        Ok(()) | Err(Stop::Err(_)) => true,
        _ => false,
    }
}

/// Runs a program through model and engine, and compares everything
pub fn differential(ctx: &mut Ctx, text: &str, files: &BTreeMap<String, String>) -> Result<Option<(Model, Sut)>, Bad> {
    let mut m = Model::new();
    m.files = files.clone();
    let r = m.read(text);
    match &r {
        Err(Stop::Unspec(why)) => {
            ctx.count(&format!("not_judged: {}", why), 1);
            return Ok(None);
        }
        Err(Stop::Recursion) => {
            ctx.count("not_judged: recursion", 1);
            return Ok(None);
        }
        _ => {}
    }
    about_to_run(ctx);
    put_files(ctx, files);
    let mut s = Sut::new(&ctx.dir);
    let o = s.read(text, "main.mk");
    compare_outcome(&r, &o)?;
    count_stats(ctx, &m);
    if r.is_err() {
        ctx.count("errors_compared", 1);
    }
    let ignore = m.open_at_error.clone();
    compare_state(ctx, &m, &mut s, &ignore)?;
    Ok(Some((m, s)))
}

pub fn no_known(_: &mut Ctx) -> Vec<String> {
    vec![]
}
pub fn no_crash(_: &str) -> bool {
    false
}

pub static ALL: &[Check] = &[lang::C01, lang::C02, lang::C03, lang::C04, lang::C05, lang::C06, lang::C09, lang::C10, lang::C13, lang::C21, lang::C22, lang::C23, lang::C24, trace::C07, trace::C08, trace::C25, api::C15, api::C16, api::C17, api::C18, api::C19, db::C11, robust::C12, robust::C14, cost::C26, tree::C27, pieces::C28, disk::C29];
