//! Databases and their snapshots
use super::*;
use hastur::ast::{AstChildren, AstNode};
use hastur::{Database, FileName, NameCache, VariableName};

pub const C11: Check = Check {
    id: "C11",
    run: c11,
    quick: 60_000,
    thorough: 1_500_000,
    rule: "Random trees of operations over databases: set, append (with and without blank), set for a target, add a rule (taken from another database), read makefiles (assignments, appends, rules that merge or overwrite, evals, mistakes at the end), expand text with evals, replace_database, on any earlier snapshot or a copy of it, now and then in several threads at once. Each snapshot has a map as its shadow and is compared in full when it is made, at random times later, and at the end. Non trivial: at least six snapshots, two of them derived from the same one.",
    assumptions: &["the shape of concatenations is not judged, only the text and references in order"],
    must_see: &["snapshots", "snapshots_rechecked", "variables_compared", "rules_compared", "target_variables_compared", "makefiles_read", "threads"],
    known: no_known,
    known_crash: no_crash,
};

#[derive(Clone, Debug, PartialEq, Default)]
struct Shadow {
    vars: BTreeMap<usize, (String, bool)>,
    target_vars: BTreeMap<(usize, usize), String>,
    rules: BTreeMap<usize, (Vec<String>, Vec<String>)>,
}

#[derive(Clone)]
struct Snap {
    db: Database,
    shadow: Shadow,
}

/// The text and references in order
fn render(a: &AstNode, out: &mut String) {
    match a.children() {
        AstChildren::Empty => {}
        AstChildren::Constant(c) => out.push_str(&c.replace('$', "$$")),
        AstChildren::PreEvaluated(b) => out.push_str(&b.into_string().replace('$', "$$")),
        AstChildren::Concat(v) => v.iter().for_each(|x| render(x, out)),
        AstChildren::VariableReference(x) => {
            out.push_str("$(");
            render(x, out);
            out.push(')');
        }
        AstChildren::Eval(x) => {
            out.push_str("$(eval ");
            render(x, out);
            out.push(')');
        }
        x => out.push_str(&format!("{:?}", x)),
    }
}

struct World {
    names: NameCache,
    vars: Vec<(String, VariableName)>,
    targets: Vec<(String, FileName)>,
    /// For how many of them target variables are looked at
    few: usize,
}

fn verify(ctx: &mut Ctx, w: &World, s: &Snap) -> Result<(), String> {
    for (i, (n, id)) in w.vars.iter().enumerate() {
        let got = s.db.get_variable(*id).map(|v| {
            let mut t = String::new();
            render(v.ast(), &mut t);
            t
        });
        ctx.count("variables_compared", 1);
        let want = s.shadow.vars.get(&i).map(|x| x.0.clone());
        if got != want {
            return Err(format!("the variable {} is {:?}, should be {:?}", n, got, want));
        }
    }
    for t in 0..w.few.min(w.targets.len()) {
        for v in 0..w.few.min(w.vars.len()) {
            let got = s.db.get_variable_for_target(w.targets[t].1, w.vars[v].1).map(|v| {
                let mut t = String::new();
                render(v.ast(), &mut t);
                t
            });
            ctx.count("target_variables_compared", 1);
            let want = s.shadow.target_vars.get(&(t, v)).cloned();
            if got != want {
                return Err(format!("the variable {} for {} is {:?}, should be {:?}", w.vars[v].0, w.targets[t].0, got, want));
            }
        }
    }
    let mut seen = BTreeMap::new();
    for r in s.db.rules() {
        let i = match w.targets.iter().position(|t| t.1 == r.target_fname()) {
            Some(i) => i,
            None => return Err("a rule nobody declared".into()),
        };
        if seen.insert(i, ()).is_some() {
            return Err("two rules for one target".into());
        }
        match s.db.get_rule(r.target_fname()) {
            Some(x) if std::ptr::eq(x, r) => {}
            _ => return Err("a rule that is not the one for its target".into()),
        }
    }
    for (i, (n, id)) in w.targets.iter().enumerate() {
        let got = s.db.get_rule(*id);
        ctx.count("rules_compared", 1);
        match (got, s.shadow.rules.get(&i)) {
            (None, None) => {
                if seen.contains_key(&i) {
                    return Err(format!("the rule for {} is not found", n));
                }
            }
            (Some(r), Some((deps, cmds))) => {
                if !seen.contains_key(&i) {
                    return Err(format!("the rule for {} is not listed", n));
                }
                if r.target().into_string() != *n {
                    return Err(format!("the rule for {} has the target {:?}", n, r.target().into_string()));
                }
                let d: Vec<String> = r.dependencies().iter().map(|x| x.into_string()).collect();
                if d != *deps {
                    return Err(format!("{} depends on {:?}, should on {:?}", n, d, deps));
                }
                if r.recipe().commands().len() != cmds.len() {
                    return Err(format!("{} has {} commands, should have {}", n, r.recipe().commands().len(), cmds.len()));
                }
                #[cfg(feature = "hooks")]
                for (c, want) in r.recipe().commands().iter().zip(cmds) {
                    let mut t = String::new();
                    render(c.verif_unexpanded(), &mut t);
                    if t != *want {
                        return Err(format!("a command of {} is {:?}, should be {:?}", n, t, want));
                    }
                }
            }
            (got, want) => return Err(format!("there is {} rule for {}, should be {}", if got.is_some() { "a" } else { "no" }, n, want.is_some())),
        }
    }
    Ok(())
}

/// Values written as text: (source, what is stored unexpanded)
fn value(src: &mut Src, w: &World) -> (String, String) {
    let mut s = String::new();
    let n = src.range(1, 3);
    for _ in 0..n {
        match src.below(4) {
            0 => s.push_str(&format!("$({})", w.vars[src.below(w.vars.len())].0)),
            1 => s.push_str(src.pick(&["é", "日本", "a.c"])),
            _ => s.push_str(&format!("x{}", src.below(50))),
        }
    }
    (s.clone(), s)
}

/// Expands what is stored; `None` if it refers to itself
fn expand(w: &World, sh: &Shadow, text: &str, depth: usize) -> Option<String> {
    if depth > 8 || text.len() > 3000 {
        return None;
    }
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find('$') {
        out.push_str(&rest[..i]);
        if rest[i..].starts_with("$$") {
            out.push('$');
            rest = &rest[i + 2..];
            continue;
        }
        let j = i + rest[i..].find(')')?;
        let name = &rest[i + 2..j];
        let k = w.vars.iter().position(|v| v.0 == name)?;
        if let Some((t, simple)) = sh.vars.get(&k) {
            if *simple {
                out.push_str(&t.replace("$$", "$"));
            } else {
                out.push_str(&expand(w, sh, t, depth + 1)?);
            }
        }
        if out.len() > 3000 {
            return None;
        }
        rest = &rest[j + 1..];
    }
    out.push_str(rest);
    Some(out)
}

fn node(text: &str) -> AstNode {
    // Constants and references only, as `value` makes them
    use hastur::ast;
    use hastur::source_location::{LocatedString, Location};
    let mut v = vec![];
    let mut rest = text;
    while let Some(i) = rest.find("$(") {
        if i > 0 {
            v.push(ast::constant(LocatedString::synthetic_new(&rest[..i])));
        }
        let j = rest.find(')').unwrap();
        v.push(ast::variable_reference(Location::Synthetic, ast::constant(LocatedString::synthetic_new(&rest[i + 2..j]))));
        rest = &rest[j + 1..];
    }
    if !rest.is_empty() {
        v.push(ast::constant(LocatedString::synthetic_new(rest)));
    }
    ast::collapsing_concat(Location::Synthetic, v)
}

/// One operation on a snapshot
fn step(src: &mut Src, ctx: &mut Ctx, w: &World, names: &mut NameCache, from: &Snap, rules_of: &Snap, log: &mut String) -> Result<Snap, String> {
    let mut sh = from.shadow.clone();
    let v = src.below(w.vars.len());
    let t = src.below(w.targets.len());
    let kind = src.weighted(&[if sut::HOOKS { 4 } else { 0 }, if sut::HOOKS { 3 } else { 0 }, if sut::HOOKS { 2 } else { 0 }, 3, 5, 2]);
    let db = match kind {
        #[cfg(feature = "hooks")]
        0 | 1 | 2 => {
            use hastur::{Flavor, Origin, VariableParameters};
            let (text, stored) = value(src, w);
            let simple = src.chance(1, 3);
            let p = VariableParameters::verif_new(node(&text), if simple { Flavor::Simple } else { Flavor::Recursive }, src.pick_of(&[Origin::File, Origin::Command, Origin::Environment]));
            match kind {
                0 => {
                    log.push_str(&format!("set {} {}\n", w.vars[v].0, text));
                    sh.vars.insert(v, (stored, false));
                    guard(|| from.db.set_variable(w.vars[v].1, p))?
                }
                1 => {
                    let blank = src.chance(1, 2);
                    log.push_str(&format!("append {} {} {}\n", w.vars[v].0, text, blank));
                    match sh.vars.get_mut(&v) {
                        Some(o) => {
                            if blank && !o.0.is_empty() {
                                o.0.push(' ');
                            }
                            // Appending to simple ones is for the reader to expand
                            o.0.push_str(&stored);
                            o.1 = false;
                        }
                        None => {
                            sh.vars.insert(v, (stored, false));
                        }
                    }
                    guard(|| from.db.append_to_variable(w.vars[v].1, hastur::source_location::Location::Synthetic, p, blank))?
                }
                _ => {
                    let (t, v) = (t.min(w.few - 1), v.min(w.few - 1));
                    log.push_str(&format!("set for {}: {} {}\n", w.targets[t].0, w.vars[v].0, text));
                    sh.target_vars.insert((t, v), stored);
                    guard(|| from.db.set_variable_for_target(w.targets[t].1, w.vars[v].1, p))?
                }
            }
        }
        3 => {
            let have: Vec<usize> = rules_of.shadow.rules.keys().copied().collect();
            if have.is_empty() {
                log.push_str("copy\n");
                from.db.clone()
            } else {
                let k = src.pick_of(&have);
                log.push_str(&format!("add the rule for {}\n", w.targets[k].0));
                let r = rules_of.db.get_rule(w.targets[k].1).ok_or("a rule is gone")?.clone();
                sh.rules.insert(k, rules_of.shadow.rules[&k].clone());
                guard(|| from.db.add_rule(r))?
            }
        }
        4 => {
            // A makefile on top of it
            let mut e = sut::engine_in(&ctx.dir);
            e.replace_database(from.db.clone());
            let mut text = String::new();
            let mut eval = false;
            for _ in 0..src.range(1, 4) {
                let v = src.below(w.vars.len());
                let (val, stored) = value(src, w);
                let name = &w.vars[v].0;
                match src.below(7) {
                    0 => {
                        text.push_str(&format!("{} = {}\n", name, val));
                        sh.vars.insert(v, (stored, false));
                    }
                    1 => {
                        if let Some(x) = expand(w, &sh, &val, 0) {
                            text.push_str(&format!("{} := {}\n", name, val));
                            sh.vars.insert(v, (x.replace('$', "$$"), true));
                        }
                    }
                    2 => {
                        text.push_str(&format!("{} ?= {}\n", name, val));
                        sh.vars.entry(v).or_insert((stored, false));
                    }
                    3 => {
                        // Whether it is a simple one is only known of what was read
                        match sh.vars.get(&v).cloned() {
                            None => {
                                text.push_str(&format!("{} += {}\n", name, val));
                                sh.vars.insert(v, (stored, false));
                            }
                            Some((old, false)) if text.contains(&format!("{} = ", name)) => {
                                text.push_str(&format!("{} += {}\n", name, val));
                                sh.vars.insert(v, (format!("{} {}", old, stored), false));
                            }
                            Some((old, true)) => {
                                if let Some(x) = expand(w, &sh, &val, 0) {
                                    if text.contains(&format!("{} := ", name)) {
                                        text.push_str(&format!("{} += {}\n", name, val));
                                        sh.vars.insert(v, (format!("{}{}{}", old, if old.is_empty() { "" } else { " " }, x.replace('$', "$$")), true));
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                    4 | 5 => {
                        let t = src.below(w.targets.len());
                        let deps: Vec<String> = (0..src.below(3)).map(|_| w.targets[src.below(w.targets.len())].0.clone()).collect();
                        let cmds: Vec<String> = if src.chance(1, 2) { (0..src.range(1, 2)).map(|_| format!("echo {}", value(src, w).0)).collect() } else { vec![] };
                        text.push_str(&format!("{}: {}\n", w.targets[t].0, deps.join(" ")));
                        for c in &cmds {
                            text.push_str(&format!("\t{}\n", c));
                        }
                        if cmds.is_empty() && sh.rules.contains_key(&t) {
                            sh.rules.get_mut(&t).unwrap().0.extend(deps);
                        } else {
                            sh.rules.insert(t, (deps, cmds));
                        }
                    }
                    _ => {
                        text.push_str(&format!("$(eval {} = e{})\n", name, text.len()));
                        let l = text.trim_end().rfind(" e").unwrap();
                        let x = text.trim_end()[l + 1..].trim_end_matches(')').to_string();
                        sh.vars.insert(v, (x, false));
                        eval = true;
                    }
                }
            }
            let bad = src.chance(1, 5);
            if bad {
                // Closes the last rule: whether a rule right in front of a mistake counts is not judged
                text.push_str(&format!("{} = end\n", w.vars[v].0));
                sh.vars.insert(v, ("end".into(), false));
                text.push_str("endif\n");
            }
            log.push_str(&format!("read {:?}\n", text));
            ctx.count("makefiles_read", 1);
            if eval {
                ctx.count("evals", 1);
            }
            let r = guard(|| e.read_makefile(names, &mut text.as_bytes(), "m.mk"))?;
            if r.is_err() != bad {
                return Err(format!("reading gave {:?}", r));
            }
            e.database.clone()
        }
        _ => {
            // An expansion that changes a variable
            let mut e = sut::engine_in(&ctx.dir);
            e.replace_database(from.db.clone());
            use hastur::ast;
            use hastur::source_location::{LocatedString, Location};
            let text = format!("{} = n{}", w.vars[v].0, src.below(99));
            log.push_str(&format!("eval {:?}\n", text));
            let n = ast::eval(Location::Synthetic, ast::constant(LocatedString::synthetic_new(text.clone())));
            let x = guard(|| n.eval(names, &mut e))?;
            if x.len() != 0 {
                return Err("an eval gives text".into());
            }
            sh.vars.insert(v, (text[text.rfind('n').unwrap()..].to_string(), false));
            e.database.clone()
        }
    };
    Ok(Snap { db, shadow: sh })
}

fn c11(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut names = NameCache::default();
    let big = src.chance(1, 15);
    let nv = if big { src.range(60, 150) } else { src.range(2, 6) };
    let nt = if big { src.range(20, 60) } else { src.range(2, 4) };
    let mut w = World { names: NameCache::default(), vars: vec![], targets: vec![], few: 2 };
    for i in 0..nv {
        let n = format!("V{}", i);
        let id = names.intern_variable_name(n.clone());
        w.vars.push((n, id));
    }
    for i in 0..nt {
        let n = format!("t{}", i);
        let id = names.intern_file_name(n.clone());
        w.targets.push((n, id));
    }
    w.names = names.clone();
    let mut log = String::new();
    let mut snaps = vec![Snap { db: Database::default(), shadow: Shadow::default() }];
    let n = if big { src.range(30, 90) } else { src.range(4, 25) };
    let mut parents = vec![0usize];
    let mut branched = false;
    for _ in 0..n {
        // Mostly on from the last one, else from an older one
        let k = if src.chance(2, 3) { snaps.len() - 1 } else { src.below(snaps.len()) };
        branched |= k + 1 < snaps.len();
        let o = src.below(snaps.len());
        log.push_str(&format!("{} from {}: ", snaps.len(), k));
        ctx.case = log.clone();
        let s = step(src, ctx, &w, &mut names, &snaps[k].clone(), &snaps[o], &mut log)?;
        ctx.case = log.clone();
        verify(ctx, &w, &s).map_err(|e| format!("after the last step: {}", e))?;
        ctx.count("snapshots", 1);
        snaps.push(s);
        parents.push(k);
        let o = src.below(snaps.len());
        ctx.count("snapshots_rechecked", 1);
        verify(ctx, &w, &snaps[o]).map_err(|e| format!("snapshot {} changed: {}", o, e))?;
    }
    if src.chance(1, 40) {
        // The same, from several threads at once
        let mut hs = vec![];
        for k in 0..4u64 {
            let base: Vec<Snap> = snaps.clone();
            let mut names = names.clone();
            let w = World { names: w.names.clone(), vars: w.vars.clone(), targets: w.targets.clone(), few: w.few };
            let mut c = Ctx { counters: BTreeMap::new(), dir: ctx.dir.join(k.to_string()), thorough: false, case: String::new(), index: 0 };
            let seed = src.below(1 << 30) as u64 * 4 + k;
            hs.push(std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                let mut src = Src::random(seed);
                let mut log = String::new();
                let mut last = base[base.len() - 1].clone();
                for _ in 0..6 {
                    let o = src.below(base.len());
                    let from = if src.chance(1, 2) { last.clone() } else { base[o].clone() };
                    last = match step(&mut src, &mut c, &w, &mut names, &from, &base[o], &mut log) {
                        Ok(s) => s,
                        Err(e) => return Err(format!("{} after {}", e, log)),
                    };
                    verify(&mut c, &w, &last).map_err(|e| format!("{} after {}", e, log))?;
                    verify(&mut c, &w, &base[o]).map_err(|e| format!("a snapshot changed: {} after {}", e, log))?;
                }
                Ok(())
            }).unwrap());
        }
        for h in hs {
            ctx.count("threads", 1);
            h.join().map_err(|_| "a thread panicked".to_string())??;
        }
    }
    for (i, s) in snaps.iter().enumerate() {
        ctx.count("snapshots_rechecked", 1);
        verify(ctx, &w, s).map_err(|e| format!("snapshot {} changed: {}", i, e))?;
    }
    if snaps.len() < 6 || !branched {
        return trivial();
    }
    pass(&log)
}
