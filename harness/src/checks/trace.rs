//! Where text comes from: source locations, variables it depends on, and the
//! history of its expansion
use super::*;
use crate::model::{Names, Piece};
use crate::sut::{missing_sensitivity, place, Files, Place};
use hastur::ast::{AstChildren, AstNode};
use hastur::evaluated::Block;
use std::rc::Rc;
use std::sync::Arc;

const ASSUME: &[&str] = &[
    "words of generated makefiles are unique, so that text identifies the place it stands at",
    "text is observed through the public segment iterators; single characters repeat, so a wrong place with the same character there goes unnoticed",
];

pub const C07: Check = Check {
    id: "C07",
    run: c07,
    quick: 120_000,
    thorough: 3_000_000,
    rule: "Random makefiles over several files (references, substitutions, definitions, evals, appends, continuations, quoting, non ASCII text, Windows line ends); every segment of every expanded variable, target, prerequisite and command, and every node of every unexpanded value, names a file, line and column, and the monitor looks whether that text stands there. Text without a place may only be a blank, line end or semicolon hastur inserts, and none at all where nothing is joined. Non trivial: at least three located segments were checked.",
    assumptions: ASSUME,
    must_see: &["segments_located", "segments_synthetic", "nodes_located", "segments_from_included_files"],
    known: no_known,
    known_crash: no_crash,
};

fn c07_cfg(kind: usize) -> Cfg {
    match kind {
        0 => Cfg { include: 2, rule: 6, eval: 2, subst: 15, noise: 25, ..BASE },
        1 => Cfg { define: 5, eval: 4, rule: 5, crlf: true, noise: 25, ..BASE },
        2 => Cfg { escapes: 40, rule: 10, noise: 10, ..BASE },
        // Nothing is ever joined
        _ => Cfg { noise: 0, subst: 0, rule: 4, define: 2, eval: 2, ..BASE },
    }
}

struct Places<'a> {
    files: Files,
    synthetic_ok: bool,
    found: u64,
    ctx: &'a mut Ctx,
}

impl<'a> Places<'a> {
    fn segment(&mut self, s: &mut Sut, what: &str, text: &str, at: &hastur::source_location::Location) -> Result<(), String> {
        match place(&s.names, at) {
            Place::File(f, l, c) => {
                self.files.has(&f, l, c, text).map_err(|e| format!("{}: {:?} is said to come from {}:{}:{}, but {}", what, text, f, l, c, e))?;
                self.found += 1;
                self.ctx.count("segments_located", 1);
                if f != "main.mk" {
                    self.ctx.count("segments_from_included_files", 1);
                }
                Ok(())
            }
            Place::Synthetic => {
                self.ctx.count("segments_synthetic", 1);
                if !self.synthetic_ok {
                    return Err(format!("{}: {:?} is said to come from nowhere, but nothing is joined in this file", what, text));
                }
                match text {
                    " " | "\n" | ";" => Ok(()),
                    _ => Err(format!("{}: {:?} is said to come from nowhere", what, text)),
                }
            }
            Place::Eval(..) | Place::Other => {
                self.ctx.count("segments_other", 1);
                Ok(())
            }
        }
    }

    fn block(&mut self, s: &mut Sut, what: &str, b: &Block) -> Result<(), String> {
        let mut all = String::new();
        let segs = guard(|| b.span().segments().map(|x| (x.to_string(), x.location().clone())).collect::<Vec<_>>())?;
        for (t, l) in &segs {
            self.segment(s, what, t, l)?;
            all.push_str(t);
        }
        let text = guard(|| b.into_string())?;
        if all != text {
            return Err(format!("{}: the segments say {:?}, the text is {:?}", what, all, text));
        }
        // The place of a span is that of its first segment
        let first = guard(|| b.span().location())?;
        if first != segs.get(0).map(|x| x.1.clone()) {
            return Err(format!("{}: the place of the text isn't the place of its first segment", what));
        }
        Ok(())
    }

    fn ast(&mut self, s: &mut Sut, what: &str, a: &AstNode) -> Result<(), String> {
        let dollar = |p: &mut Self, s: &mut Sut| -> Result<(), String> {
            if let Place::File(f, l, c) = place(&s.names, &a.location()) {
                p.ctx.count("nodes_located", 1);
                p.files.has(&f, l, c, "$").map_err(|e| format!("{}: a reference is said to start at {}:{}:{}, but {}", what, f, l, c, e))?;
            }
            Ok(())
        };
        match a.children() {
            AstChildren::Empty => {}
            AstChildren::Constant(t) => {
                let text = t.to_string();
                self.segment(s, what, &text, &a.location())?;
                if *t.location() != a.location() {
                    return Err(format!("{}: a constant and its text are in different places", what));
                }
            }
            AstChildren::PreEvaluated(b) => self.block(s, what, b)?,
            AstChildren::Concat(v) => {
                for x in v {
                    self.ast(s, what, x)?;
                }
            }
            AstChildren::VariableReference(n) => {
                dollar(self, s)?;
                self.ast(s, what, n)?
            }
            AstChildren::Eval(n) | AstChildren::Strip(n) | AstChildren::Words(n) => {
                dollar(self, s)?;
                self.ast(s, what, n)?
            }
            AstChildren::Word { index, words } => {
                dollar(self, s)?;
                self.ast(s, what, index)?;
                self.ast(s, what, words)?
            }
        }
        Ok(())
    }
}

fn c07(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let kind = src.below(4);
    let p = program(src, c07_cfg(kind));
    ctx.case = describe(&p.text, &p.files);
    let mut m = Model::new();
    m.files = p.files.clone();
    let r = m.read(&p.text);
    if !judged(&r) {
        return trivial();
    }
    about_to_run(ctx);
    put_files(ctx, &p.files);
    let mut s = Sut::new(&ctx.dir);
    match s.read(&p.text, "main.mk") {
        // Other checks look after that
        Outcome::Panic(_) => return trivial(),
        _ => {}
    }
    let mut files = Files::new();
    files.add("main.mk", &p.text);
    for (n, t) in &p.files {
        files.add(n, t);
    }
    let joined = |t: &str| t.contains("\\\n") || t.contains("\\\r\n") || t.contains("+=") || t.contains(|c| c == ';' || c == '\\');
    let synthetic_ok = kind != 3 || joined(&p.text) || p.text.contains(':') && has_subst(&p.text);
    if !synthetic_ok {
        ctx.count("programs_without_joins", 1);
    }
    let mut pl = Places { files, synthetic_ok, found: 0, ctx };
    for n in names_of(&m) {
        let v = match s.names.variable_name(&n) {
            None => continue,
            Some(v) => v,
        };
        let ast = match s.engine.database.get_variable(v) {
            None => continue,
            Some(v) => v.ast().clone(),
        };
        let what = format!("variable {}", n);
        pl.ast(&mut s, &what, &ast)?;
        if let Some(Ok(_)) = m.var_value(&n) {
            let b = match s.eval_ast(&ast) {
                Ok(b) => b,
                Err(_) => continue,
            };
            pl.block(&mut s, &what, &b)?;
        }
    }
    let rules = match s.rules() {
        Ok(r) => r,
        Err(_) => return trivial(),
    };
    for (t, r) in &rules {
        // Words of targets are joined
        let ok = pl.synthetic_ok;
        pl.synthetic_ok = true;
        pl.block(&mut s, &format!("target {}", t), r.target())?;
        pl.synthetic_ok = ok;
        for d in r.dependencies() {
            pl.block(&mut s, &format!("prerequisite of {}", t), d)?;
        }
        #[cfg(feature = "hooks")]
        for (c, w) in r.recipe().commands().iter().zip(m.rules.get(t).map(|r| &r.cmds[..]).unwrap_or(&[])) {
            let ast = c.verif_unexpanded().clone();
            let what = format!("command of {}", t);
            pl.ast(&mut s, &what, &ast)?;
            if m.value(&w.text).is_err() {
                continue;
            }
            if let Ok(b) = s.eval_ast(&ast) {
                pl.block(&mut s, &what, &b)?;
            }
        }
    }
    if pl.found < 3 {
        return trivial();
    }
    pass(&ctx.case)
}

/// Is there something like `$(X:` in it?
fn has_subst(t: &str) -> bool {
    t.split('$').skip(1).any(|x| {
        let end = x.find(|c| c == ')' || c == '}').unwrap_or(x.len());
        x[..end].contains(':')
    })
}

pub const C08: Check = Check {
    id: "C08",
    run: c08,
    quick: 100_000,
    thorough: 2_500_000,
    rule: "Random makefiles; every variable and command is expanded, and what it reports to depend on is compared with the variables the reference model looks up for it (including those of nested and computed references, substitutions, and undefined ones), likewise for the targets and prerequisites of rules. In addition every variable that is not reported is given another value, which must not change the expansion. Non trivial: a dependency was expected and found.",
    assumptions: &["the reference model says which variables an expansion looks up", "values are changed through the public database interface"],
    must_see: &["dependencies_expected", "unreported_variables_changed", "targets_checked"],
    known: no_known,
    known_crash: no_crash,
};

fn need(ctx: &mut Ctx, s: &Sut, what: &str, b: &Block, want: &Names) -> Result<(), String> {
    ctx.count("dependencies_expected", want.len() as u64);
    let missing = missing_sensitivity(&s.names, b, want);
    if missing.is_empty() {
        Ok(())
    } else {
        Err(format!("{} depends on {:?}, which it does not report", what, missing))
    }
}

fn c08(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let eval = if src.chance(1, 4) { 3 } else { 0 };
    let subst = src.pick_of(&[15, 60]);
    let p = program(src, Cfg { refs: 70, subst, rule: 7, eval, define: 1, cond: 1, ..BASE });
    ctx.case = p.text.clone();
    let mut m = Model::new();
    if !judged(&m.read(&p.text)) {
        return trivial();
    }
    about_to_run(ctx);
    let mut s = Sut::new(&ctx.dir);
    if let Outcome::Panic(_) = s.read(&p.text, "main.mk") {
        return trivial();
    }
    let mut some = false;
    let mut probes: Vec<(String, AstNode, String, Arc<Block>)> = vec![];
    for n in names_of(&m) {
        if let Some(Ok((v, want))) = m.var_value(&n) {
            let b = match s.var_block(&n) {
                Some(Ok(b)) => b,
                _ => continue,
            };
            some |= !want.is_empty();
            need(ctx, &s, &format!("the value of {}", n), &b, &want)?;
            let id = s.names.variable_name(&n).unwrap();
            let ast = s.engine.database.get_variable(id).unwrap().ast().clone();
            probes.push((n.clone(), ast, v, b));
        }
    }
    let rules = match s.rules() {
        Ok(r) => r,
        Err(_) => return trivial(),
    };
    for (t, r) in &rules {
        let want = match m.rules.get(t) {
            None => continue,
            Some(w) => w,
        };
        if p.text.contains("$(eval") || p.text.contains("${eval") {
            // Text that went through an eval is not traced any further
            ctx.count("not_judged: rules of programs with evals", 1);
        } else {
            ctx.count("targets_checked", 1);
            need(ctx, &s, &format!("the target {}", t), r.target(), &want.target_sens)?;
            for (d, w) in r.dependencies().iter().zip(&want.dep_sens) {
                some |= !w.is_empty();
                need(ctx, &s, &format!("a prerequisite of {}", t), d, w)?;
            }
        }
        #[cfg(feature = "hooks")]
        for (c, w) in r.recipe().commands().iter().zip(&want.cmds) {
            if let Ok((v, names)) = m.value(&w.text) {
                let ast = c.verif_unexpanded().clone();
                if let Ok(b) = s.eval_ast(&ast) {
                    need(ctx, &s, &format!("a command of {}", t), &b, &names)?;
                    probes.push((format!("a command of {}", t), ast, v, b));
                }
            }
        }
    }
    // Give variables that are not reported another value
    let vars: Vec<String> = m.vars.keys().cloned().collect();
    let other = hastur::ast::constant(hastur::source_location::LocatedString::synthetic_new("$other$"));
    for (what, ast, _, b) in probes.iter().take(6) {
        let have: Vec<hastur::VariableName> = b.sensitivity().copied().collect();
        let before = match guard(|| b.into_string()) {
            Ok(t) => t,
            Err(_) => continue,
        };
        let db = s.engine.database.clone();
        let mut n = 0;
        for v in &vars {
            let id = match s.names.variable_name(v) {
                None => continue,
                Some(i) => i,
            };
            if have.contains(&id) {
                continue;
            }
            #[cfg(feature = "hooks")]
            {
                let params = hastur::VariableParameters::verif_new(other.clone(), hastur::Flavor::Recursive, hastur::Origin::File);
                s.engine.database = s.engine.database.set_variable(id, params);
                n += 1;
            }
            #[cfg(not(feature = "hooks"))]
            {
                let _ = (&other, id);
            }
        }
        let after = if n > 0 { s.eval_ast(ast).and_then(|b| guard(|| b.into_string())) } else { Ok(before.clone()) };
        s.engine.database = db;
        ctx.count("unreported_variables_changed", n);
        match after {
            Ok(a) if a == before => {}
            Ok(a) => return Err(format!("{} is {:?}, and {:?} when variables it does not report have other values", what, before, a).into()),
            // An eval may do anything with another value
            Err(_) => ctx.count("not_judged: other values failed", 1),
        }
    }
    if some {
        pass(&ctx.case)
    } else {
        trivial()
    }
}

pub const C25: Check = Check {
    id: "C25",
    run: c25,
    quick: 60_000,
    thorough: 2_000_000,
    rule: "Random makefiles; for every character of every expanded variable and command, the chain of variable and substitution references it came through (names, patterns and replacements, outermost first) is read from the expansion history and compared with the chain an independent expansion yields. Simple variables keep the history they had when they were assigned. Non trivial: some character came through at least one reference.",
    assumptions: &["the history is read through accessors under cfg(hastur_verif)", "text that went through $(eval) is not judged"],
    must_see: &["characters_traced", "characters_through_substitutions", "characters_of_simple_variables"],
    known: no_known,
    known_crash: no_crash,
};

type Path = Rc<Vec<String>>;
type Traced = Vec<(char, Path)>;
type Vars = BTreeMap<String, model::Var>;

fn push_path(p: &Path, step: String) -> Path {
    let mut v = (**p).clone();
    v.push(step);
    Rc::new(v)
}

fn text_of(t: &Traced) -> String {
    t.iter().map(|x| x.0).collect()
}

/// Independent expansion, which keeps the path of every character. `None`: not to be judged
fn trace(expr: &str, vars: &Vars, path: &Path, budget: &mut usize) -> Option<Traced> {
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    let mut out = vec![];
    for p in model::pieces(expr).ok()? {
        match p {
            Piece::Text(t) => out.extend(t.chars().map(|c| (c, path.clone()))),
            Piece::Dollar => out.push(('$', path.clone())),
            Piece::Eval(_) => return None,
            Piece::Single(n) => out.extend(trace_var(n, vars, path, budget)?),
            Piece::Ref(inner) => {
                let name = trace(inner, vars, &Rc::new(vec![]), budget)?;
                let text = text_of(&name);
                match text.find(':') {
                    Some(c) if text[c..].contains('=') => {
                        let colon = text[..c].chars().count();
                        let eq = name.iter().position(|x| x.0 == '=')?;
                        if eq < colon || text.matches(':').count() > 1 || text.matches('=').count() > 1 {
                            return None;
                        }
                        let var: String = text[..c].to_string();
                        let key: String = name[colon + 1..eq].iter().map(|x| x.0).collect();
                        let repl: Traced = name[eq + 1..].to_vec();
                        if key.contains('\\') || repl.iter().any(|x| x.0 == '\\') {
                            return None;
                        }
                        let step = format!("{}:{}={}", var, key, text_of(&repl));
                        let path = push_path(path, step);
                        // The value as seen from inside of the substitution
                        let value = value_of(&var, vars, &path, budget)?;
                        out.extend(trace_subst(&value, &key, &repl, &path));
                    }
                    _ => out.extend(trace_var(&text, vars, path, budget)?),
                }
            }
        }
        if out.len() > 20_000 {
            return None;
        }
    }
    Some(out)
}

fn value_of(name: &str, vars: &Vars, path: &Path, budget: &mut usize) -> Option<Traced> {
    match vars.get(name) {
        None => Some(vec![]),
        Some(v) => var_trace(v, vars, path, budget),
    }
}

fn var_trace(v: &model::Var, vars: &Vars, path: &Path, budget: &mut usize) -> Option<Traced> {
    if !v.simple {
        return trace(&v.text, vars, path, budget);
    }
    let mut out = vec![];
    for (i, (e, then)) in v.origin.0.iter().enumerate() {
        if i > 0 {
            out.push((' ', path.clone()));
        }
        out.extend(trace(e, then, path, budget)?);
    }
    Some(out)
}

fn trace_var(name: &str, vars: &Vars, path: &Path, budget: &mut usize) -> Option<Traced> {
    let path = push_path(path, name.to_string());
    value_of(name, vars, &path, budget)
}

fn trace_subst(value: &Traced, key: &str, repl: &Traced, path: &Path) -> Traced {
    // Characters of the replacement: their path inside of the name, behind the
    // path of the substitution
    let at = |t: &[(char, Path)]| -> Traced {
        t.iter()
            .map(|(c, p)| {
                let mut v = (**path).clone();
                v.extend(p.iter().cloned());
                (*c, Rc::new(v))
            })
            .collect()
    };
    let pat = key.find('%');
    let (pre, post) = match pat {
        Some(i) => (&key[..i], &key[i + 1..]),
        None => ("", key),
    };
    let rpct = repl.iter().position(|x| x.0 == '%');
    let mut out: Traced = vec![];
    for w in value.split(|x| model::is_blank(x.0)).filter(|w| !w.is_empty()) {
        if !out.is_empty() || value.is_empty() {
            out.push((' ', path.clone()));
        }
        let t: String = w.iter().map(|x| x.0).collect();
        let n = w.len();
        let (a, b) = (pre.chars().count(), post.chars().count());
        if t.len() < pre.len() + post.len() || !t.starts_with(pre) || !t.ends_with(post) {
            out.extend(w.iter().cloned());
            continue;
        }
        let stem = &w[a..n - b];
        match (pat, rpct) {
            (Some(_), Some(i)) => {
                out.extend(at(&repl[..i]));
                out.extend(stem.iter().cloned());
                out.extend(at(&repl[i + 1..]));
            }
            (Some(_), None) => out.extend(at(repl)),
            (None, _) => {
                out.extend(stem.iter().cloned());
                out.extend(at(repl));
            }
        }
    }
    out
}

/// What hastur recorded for the bytes `from..to` of a block
#[cfg(feature = "hooks")]
fn recorded(b: &Block, (from, to): (usize, usize), path: &Path, out: &mut Traced, depth: usize) -> Result<(), String> {
    use hastur::evaluated::EvaluatedNode;
    if depth > 300 {
        return Err("the history does not end".into());
    }
    let mut at = 0;
    for c in b.content() {
        let (node, offset, length) = c.verif_node();
        // The part of this reference that is wanted
        let lo = from.max(at);
        let hi = to.min(at + length);
        if lo < hi {
            let part = (offset + lo - at, offset + hi - at);
            match node {
                EvaluatedNode::Constant(t) => match (&t as &str).get(part.0..part.1) {
                    Some(t) => out.extend(t.chars().map(|c| (c, path.clone()))),
                    None => return Err(format!("a reference covers bytes {} to {} of {:?}", part.0, part.1, &t as &str)),
                },
                EvaluatedNode::Concat(b) => recorded(b, part, path, out, depth + 1)?,
                EvaluatedNode::VariableReference(v) => {
                    let p = push_path(path, v.name().into_string());
                    recorded(v.verif_value(), part, &p, out, depth + 1)?
                }
                EvaluatedNode::SubstitutionReference(v) => {
                    let p = push_path(path, format!("{}:{}={}", v.name().into_string(), v.key().into_string(), v.replacement().into_string()));
                    recorded(v.value(), part, &p, out, depth + 1)?
                }
                EvaluatedNode::Evaluated(v) => recorded(v.value(), part, &push_path(path, "eval".into()), out, depth + 1)?,
            }
        }
        at += length;
    }
    if at < to {
        return Err(format!("a reference covers bytes {} to {} of {}", from, to, at));
    }
    Ok(())
}
#[cfg(not(feature = "hooks"))]
fn recorded(_: &Block, _: (usize, usize), _: &Path, _: &mut Traced, _: usize) -> Result<(), String> {
    Ok(())
}

fn compare_trace(ctx: &mut Ctx, what: &str, b: &Block, want: &Traced, simple: bool) -> Result<bool, String> {
    let mut got = vec![];
    guard(|| recorded(b, (0, b.len()), &Rc::new(vec![]), &mut got, 0))??;
    if !sut::HOOKS {
        return Ok(true);
    }
    let (a, w) = (text_of(&got), text_of(want));
    if a != w {
        return Err(format!("the history of {} yields {:?} but should {:?}", what, a, w));
    }
    let mut deep = false;
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g.1 != w.1 {
            return Err(format!("character {} ({:?}) of {} ({:?}) came through {:?}, but the history says {:?}", i, g.0, what, a, w.1, g.1));
        }
        deep |= !g.1.is_empty();
        if g.1.iter().any(|x| x.contains('=')) {
            ctx.count("characters_through_substitutions", 1);
        }
        ctx.max("reference_chain", g.1.len() as u64);
    }
    ctx.count("characters_traced", got.len() as u64);
    if simple {
        ctx.count("characters_of_simple_variables", got.len() as u64);
    }
    Ok(deep)
}

fn c25(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let subst = src.pick_of(&[15, 50]);
    let p = program(src, Cfg { refs: 70, subst, rule: 3, eval: 0, define: 1, cond: 1, assign: 14, max_depth: 4, ..BASE });
    ctx.case = p.text.clone();
    let mut m = Model::new();
    m.record = true;
    if !judged(&m.read(&p.text)) {
        return trivial();
    }
    about_to_run(ctx);
    let mut s = Sut::new(&ctx.dir);
    if let Outcome::Panic(_) = s.read(&p.text, "main.mk") {
        return trivial();
    }
    let mut deep = false;
    let root: Path = Rc::new(vec![]);
    for (n, v) in &m.vars {
        let want = match var_trace(v, &m.vars, &root, &mut 3000) {
            None => {
                ctx.count("values_not_judged", 1);
                continue;
            }
            Some(w) => w,
        };
        let b = match s.var_block(n) {
            Some(Ok(b)) => b,
            _ => continue,
        };
        if !matches!(m.var_value(n), Some(Ok(_))) {
            continue;
        }
        deep |= compare_trace(ctx, &format!("variable {}", n), &b, &want, v.simple)?;
    }
    #[cfg(feature = "hooks")]
    if let Ok(rules) = s.rules() {
        for (t, r) in &rules {
            let want = match m.rules.get(t) {
                None => continue,
                Some(w) => w,
            };
            for (c, w) in r.recipe().commands().iter().zip(&want.cmds) {
                if w.inline || m.value(&w.text).is_err() {
                    continue;
                }
                if let (Some(w), Ok(b)) = (trace(&w.text, &m.vars, &root, &mut 3000), s.eval_ast(&c.verif_unexpanded().clone())) {
                    deep |= compare_trace(ctx, &format!("a command of {}", t), &b, &w, false)?;
                }
            }
        }
    }
    if deep {
        pass(&ctx.case)
    } else {
        trivial()
    }
}
