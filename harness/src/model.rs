//! Reference model: a small, independent interpreter for the part of the
//! makefile language hastur implements, working on plain strings.
//!
//! Whatever hastur does not implement, or where neither its documentation nor
//! GNU Make says what should happen, is reported as `Stop::Unspec`, and the
//! case is not judged.

use std::sync::atomic::{AtomicUsize, Ordering};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Unterminated,
    MissingSeparator,
    RecipeExpected,
    UnattachedElse,
    UnattachedEndIf,
    TooManyElses,
    Extra(&'static str),
    IncludeNotFound(String),
    NoRuleRecipe,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Unspec(&'static str),
    Recursion,
    Err(Kind),
}

type R<T> = Result<T, Stop>;
pub type Names = BTreeSet<String>;

#[derive(Clone, Debug, PartialEq)]
pub struct Var {
    pub simple: bool,
    pub text: String,
    /// For simple variables: how the value came to be, if that is being recorded
    pub origin: Origin,
}

/// The expressions whose values make up a simple variable, joined by spaces,
/// and the variables when they were expanded
#[derive(Clone, Debug, Default)]
pub struct Origin(pub Vec<(String, std::rc::Rc<BTreeMap<String, Var>>)>);
impl PartialEq for Origin {
    fn eq(&self, _: &Origin) -> bool {
        true
    }
}

impl Var {
    fn recursive(text: String) -> Var {
        Var { simple: false, text, origin: Origin::default() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cmd {
    pub text: String,
    /// From behind a `;` (leading blanks don't matter)
    pub inline: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub deps: Vec<String>,
    /// Names dereferenced while the dependency list was expanded, per dependency
    pub dep_sens: Vec<Names>,
    pub target_sens: Names,
    pub cmds: Vec<Cmd>,
    pub double_colon: bool,
}

#[derive(Clone, Debug)]
struct Open {
    targets: Vec<String>,
    deps: Vec<String>,
    dep_sens: Names,
    target_sens: Names,
    cmds: Vec<Cmd>,
    double_colon: bool,
}

#[derive(Clone, Debug)]
struct Cond {
    active: bool,
    seen_else: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub assigns: u64,
    pub appends: u64,
    pub cond_kept: u64,
    pub conds_taken: u64,
    pub conds_skipped: u64,
    pub skipped_lines: u64,
    pub rules: u64,
    pub merges: u64,
    pub overwrites: u64,
    pub recipe_lines: u64,
    pub evals: u64,
    pub includes: u64,
    pub soft_missing: u64,
    pub refs: u64,
    pub subrefs: u64,
    pub computed: u64,
    pub defines: u64,
    pub continuations: u64,
    pub comments: u64,
    pub escapes: u64,
    pub quoted_hashes: u64,
    pub max_depth: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub vars: BTreeMap<String, Var>,
    pub rules: BTreeMap<String, Rule>,
    pub files: BTreeMap<String, String>,
    pub stats: Stats,
    /// Targets of the rule that was open when an error was found
    pub open_at_error: Vec<String>,
    /// What recipe lines start with, instead of a tab
    pub command_char: Option<char>,
    /// Keep track of where simple values come from
    pub record: bool,
    /// The directory the files are in
    pub root: String,
    /// The files that have been read, in order
    pub opened: Vec<String>,
    depth: usize,
    steps: usize,
    /// The line read last ended in quoted backslashes and a comment
    halved: bool,
}

/// Set while a model is at work: what it spends isn't the time of the code under test
pub static BUSY: AtomicUsize = AtomicUsize::new(0);

struct Busy;
impl Busy {
    fn new() -> Busy {
        BUSY.fetch_add(1, Ordering::SeqCst);
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.fetch_sub(1, Ordering::SeqCst);
    }
}

pub fn is_blank(c: char) -> bool {
    c == ' ' || c == '\t'
}

fn trailing_backslashes(s: &str) -> usize {
    s.len() - s.trim_end_matches('\\').len()
}

#[derive(PartialEq, Clone, Copy)]
enum End {
    Hash,
    Line,
    Eof,
}

/// Text up to a comment or line break, and where to go on
fn physical(s: &str) -> (&str, &str, End) {
    let mut slashes = 0;
    for (i, c) in s.char_indices() {
        if c == '#' && slashes % 2 == 0 {
            return (&s[..i], &s[i..], End::Hash);
        }
        slashes = if c == '\\' { slashes + 1 } else { 0 };
        if c == '\n' {
            let line = s[..i].strip_suffix('\r').unwrap_or(&s[..i]);
            return (line, &s[i + 1..], End::Line);
        }
    }
    (s, "", End::Eof)
}

/// Without the backslashes that quote a `#`
fn unquote_hash(s: &str) -> String {
    let mut out = String::new();
    let mut slashes = 0;
    for c in s.chars() {
        if c == '\\' {
            slashes += 1;
            continue;
        }
        for _ in 0..if c == '#' { slashes / 2 } else { slashes } {
            out.push('\\');
        }
        slashes = 0;
        out.push(c);
    }
    for _ in 0..slashes {
        out.push('\\');
    }
    out
}

/// Skips a comment, `s` starts with its `#`
fn skip_comment(mut s: &str) -> &str {
    loop {
        s = s.strip_prefix('#').unwrap_or(s);
        let (line, rest, end) = physical(s);
        s = rest;
        if end != End::Hash && trailing_backslashes(line) % 2 == 0 {
            return s;
        }
        if end == End::Eof {
            return s;
        }
    }
}

/// If `s` starts with the (case insensitive) keyword, what follows it
fn keyword<'a>(s: &'a str, kw: &str, also: &str) -> Option<&'a str> {
    if s.len() < kw.len() || !s.is_char_boundary(kw.len()) || !s[..kw.len()].eq_ignore_ascii_case(kw) {
        return None;
    }
    let rest = &s[kw.len()..];
    match rest.chars().next() {
        None => Some(rest),
        Some(c) if c.is_whitespace() || also.contains(c) => Some(rest),
        _ => None,
    }
}

/// End of the reference starting at `s[0]`, which follows the `$`
fn reference(s: &str) -> R<(&str, &str)> {
    let open = s.chars().next().unwrap();
    let close = if open == '(' { ')' } else { '}' };
    let mut count = 0;
    for (i, c) in s.char_indices() {
        if c == open {
            count += 1;
        } else if c == close {
            count -= 1;
            if count == 0 {
                return Ok((&s[1..i], &s[i + 1..]));
            }
        }
    }
    Err(Stop::Err(Kind::Unterminated))
}

pub enum Piece<'a> {
    Text(&'a str),
    Dollar,
    Ref(&'a str),
    Single(&'a str),
    Eval(&'a str),
}

pub fn pieces(mut s: &str) -> R<Vec<Piece<'_>>> {
    let mut out = vec![];
    while !s.is_empty() {
        let d = s.find('$').unwrap_or(s.len());
        if d > 0 {
            out.push(Piece::Text(&s[..d]));
        }
        if d == s.len() {
            break;
        }
        s = &s[d + 1..];
        match s.chars().next() {
            None => out.push(Piece::Dollar),
            Some('$') => {
                out.push(Piece::Dollar);
                s = &s[1..];
            }
            Some('(') | Some('{') => {
                let (inner, rest) = reference(s)?;
                s = rest;
                let mut handled = false;
                for f in ["eval", "strip", "words", "word"].iter() {
                    if inner.starts_with(f) && inner[f.len()..].starts_with(is_blank) {
                        if *f != "eval" {
                            return Err(Stop::Unspec("function not implemented"));
                        }
                        out.push(Piece::Eval(inner[f.len()..].trim_start_matches(is_blank)));
                        handled = true;
                        break;
                    }
                }
                if !handled {
                    out.push(Piece::Ref(inner));
                }
            }
            Some(c) => {
                out.push(Piece::Single(&s[..c.len_utf8()]));
                s = &s[c.len_utf8()..];
            }
        }
    }
    Ok(out)
}

/// Syntax check of a whole expression, the way it happens before evaluation
pub fn check_expr(s: &str) -> R<()> {
    for p in pieces(s)? {
        match p {
            Piece::Ref(inner) | Piece::Eval(inner) => check_expr(inner)?,
            _ => {}
        }
    }
    Ok(())
}

/// Splits at blanks honouring backslash quoting of the separators
fn file_seq(text: &str, extra: &str, stats: &mut Stats) -> R<Vec<String>> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut slashes = 0;
    for c in text.chars() {
        if c == '\\' {
            slashes += 1;
            continue;
        }
        let stop = c.is_whitespace() || c == '\0' || extra.contains(c);
        if !stop {
            for _ in 0..slashes {
                cur.push('\\');
            }
            cur.push(c);
        } else {
            for _ in 0..slashes / 2 {
                cur.push('\\');
            }
            if slashes > 0 {
                stats.escapes += 1;
            }
            if slashes % 2 == 1 {
                cur.push(c);
            } else if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        }
        slashes = 0;
    }
    if slashes > 0 {
        return Err(Stop::Unspec("trailing backslash in a file list"));
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    Ok(out)
}

/// Finds the first unquoted `stop`; the text before it with the quoting
/// backslashes of any `stop` removed, and the text after it
pub fn split_unquoted<'a>(text: &'a str, stop: char) -> (String, Option<&'a str>) {
    let mut pre = String::new();
    let mut slashes = 0;
    for (i, c) in text.char_indices() {
        if c == '\\' {
            slashes += 1;
            continue;
        }
        let n = if c == stop { slashes / 2 } else { slashes };
        for _ in 0..n {
            pre.push('\\');
        }
        if c == stop && slashes % 2 == 0 {
            return (pre, Some(&text[i + c.len_utf8()..]));
        }
        pre.push(c);
        slashes = 0;
    }
    for _ in 0..slashes {
        pre.push('\\');
    }
    (pre, None)
}

/// The same, but what is inside of references doesn't count
fn split_outside_refs(text: &str, stop: char) -> (String, Option<&str>) {
    let mut pre = String::new();
    let mut slashes = 0;
    let mut i = 0;
    while i < text.len() {
        let c = text[i..].chars().next().unwrap();
        i += c.len_utf8();
        if c == '\\' {
            slashes += 1;
            continue;
        }
        let n = if c == stop { slashes / 2 } else { slashes };
        for _ in 0..n {
            pre.push('\\');
        }
        if c == stop && slashes % 2 == 0 {
            return (pre, Some(&text[i..]));
        }
        pre.push(c);
        slashes = 0;
        if c == '$' && i < text.len() {
            let d = text[i..].chars().next().unwrap();
            let end = match d {
                '(' | '{' => match reference(&text[i..]) {
                    Ok((_, rest)) => text.len() - rest.len(),
                    Err(_) => text.len(),
                },
                d => i + d.len_utf8(),
            };
            pre.push_str(&text[i..end]);
            i = end;
        }
    }
    for _ in 0..slashes {
        pre.push('\\');
    }
    (pre, None)
}

impl Model {
    pub fn new() -> Model {
        Model::default()
    }

    fn tick(&mut self) -> R<()> {
        self.work(1)
    }

    fn work(&mut self, n: usize) -> R<()> {
        self.steps += n;
        if self.steps > 20_000 {
            return Err(Stop::Unspec("too much work"));
        }
        Ok(())
    }

    /// Reads a makefile
    pub fn read(&mut self, text: &str) -> R<()> {
        self.steps = 0;
        self.depth = 0;
        self.open_at_error.clear();
        let _busy = Busy::new();
        self.process(text)
    }

    /// Value of an expression, and which variables it looked at
    pub fn value(&self, expr: &str) -> R<(String, Names)> {
        let _busy = Busy::new();
        let mut m = self.clone();
        m.steps = 0;
        m.depth = 0;
        let mut sens = Names::new();
        check_expr(expr)?;
        let v = m.expand(expr, &mut sens)?;
        Ok((v, sens))
    }

    pub fn var_value(&self, name: &str) -> Option<R<(String, Names)>> {
        let v = self.vars.get(name)?;
        if v.simple {
            return Some(Ok((v.text.clone(), Names::new())));
        }
        let t = v.text.clone();
        Some(self.value(&t))
    }

    fn expand(&mut self, expr: &str, sens: &mut Names) -> R<String> {
        self.tick()?;
        self.depth += 1;
        self.stats.max_depth = self.stats.max_depth.max(self.depth as u64);
        if self.depth > 60 {
            return Err(Stop::Recursion);
        }
        let mut out = String::new();
        for p in pieces(expr)? {
            match p {
                Piece::Text(t) => out.push_str(t),
                Piece::Dollar => out.push('$'),
                Piece::Single(n) => {
                    self.stats.refs += 1;
                    let v = self.deref(n, sens)?;
                    out.push_str(&v)
                }
                Piece::Ref(inner) => {
                    self.stats.refs += 1;
                    if inner.contains('$') {
                        self.stats.computed += 1;
                    }
                    let name = self.expand(inner, sens)?;
                    let v = match name.find(':') {
                        Some(colon) if name[colon..].contains('=') => {
                            let (var, rest) = (&name[..colon], &name[colon + 1..]);
                            let eq = rest.find('=').unwrap();
                            let (key, repl) = (&rest[..eq], &rest[eq + 1..]);
                            if rest.contains(':') || repl.contains('=') || var.contains('=') {
                                return Err(Stop::Unspec("ambiguous substitution reference"));
                            }
                            self.stats.subrefs += 1;
                            let value = self.deref(var, sens)?;
                            subst(&value, key, repl)?
                        }
                        _ => self.deref(&name, sens)?,
                    };
                    out.push_str(&v);
                }
                Piece::Eval(inner) => {
                    let text = self.expand(inner, sens)?;
                    self.stats.evals += 1;
                    match self.process(&text) {
                        Err(Stop::Err(_)) => return Err(Stop::Unspec("error inside of an eval")),
                        r => r?,
                    }
                }
            }
            if out.len() > 200_000 {
                return Err(Stop::Unspec("too much text"));
            }
        }
        self.depth -= 1;
        self.work(out.len() / 100)?;
        Ok(out)
    }

    fn deref(&mut self, name: &str, sens: &mut Names) -> R<String> {
        sens.insert(name.to_string());
        match self.vars.get(name).cloned() {
            None => Ok(String::new()),
            Some(Var { simple: true, text, .. }) => Ok(text),
            Some(Var { text, .. }) => self.expand(&text, sens),
        }
    }

    fn close(&mut self, open: &mut Option<Open>) {
        let o = match open.take() {
            None => return,
            Some(o) => o,
        };
        let dep_sens: Vec<Names> = o.deps.iter().map(|_| o.dep_sens.clone()).collect();
        self.stats.rules += 1;
        for t in &o.targets {
            // Too much of it ends the run at the next line
            self.steps += o.deps.len() / 10;
            let new = Rule {
                deps: o.deps.clone(),
                dep_sens: dep_sens.clone(),
                target_sens: o.target_sens.clone(),
                cmds: o.cmds.clone(),
                double_colon: o.double_colon,
            };
            let existing = self.rules.get_mut(t);
            if existing.is_some() {
                if o.cmds.is_empty() {
                    self.stats.merges += 1
                } else {
                    self.stats.overwrites += 1
                }
            }
            match existing {
                Some(r) if o.cmds.is_empty() => {
                    r.deps.extend(o.deps.iter().cloned());
                    r.dep_sens.extend(dep_sens.iter().cloned());
                }
                _ => {
                    self.rules.insert(t.clone(), new);
                }
            }
        }
    }

    /// The file that is meant by this name
    fn lookup(&self, name: &str) -> Option<(String, String)> {
        let name = match name.strip_prefix(&self.root) {
            Some(n) if !self.root.is_empty() && n.starts_with('/') => n,
            _ if name.starts_with('/') => return None,
            _ => name,
        };
        let mut at: Vec<&str> = vec![];
        for c in name.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    // Out of the directory, or of one that isn't there
                    let dir = at.join("/") + "/";
                    if at.is_empty() || !self.files.keys().any(|k| k.starts_with(&dir)) {
                        return None;
                    }
                    at.pop();
                }
                c => at.push(c),
            }
        }
        if name.ends_with('/') {
            return None;
        }
        let name = at.join("/");
        self.files.get(&name).map(|t| (name.clone(), t.clone()))
    }

    fn process(&mut self, text: &str) -> R<()> {
        let mut open: Option<Open> = None;
        let r = self.process_inner(text, &mut open);
        match r {
            Ok(()) => {
                self.close(&mut open);
                Ok(())
            }
            Err(e) => {
                if let Some(o) = open {
                    self.open_at_error.extend(o.targets);
                }
                Err(e)
            }
        }
    }

    fn process_inner(&mut self, text: &str, open: &mut Option<Open>) -> R<()> {
        let mut s = text.strip_prefix('\u{feff}').unwrap_or(text);
        let mut conds: Vec<Cond> = vec![];
        // Name, operator and body
        let mut define: Option<(Option<(String, &'static str)>, String)> = None;
        let mut nesting = 0;

        while !s.is_empty() {
            self.tick()?;
            let ignoring = conds.iter().any(|c| !c.active);

            if define.is_none() {
                let t = s.trim_start_matches(is_blank);
                if t.starts_with('#') {
                    self.stats.comments += 1;
                    s = skip_comment(t);
                    continue;
                }
            }

            if let Some((target, body)) = define.as_mut() {
                let n = s.find('\n').map(|i| i + 1).unwrap_or(s.len());
                let line = &s[..n];
                s = &s[n..];
                let t = line.trim_start_matches(is_blank);
                let starts = |kw: &str| {
                    t.starts_with(kw) && t[kw.len()..].chars().next().map_or(true, |c| c.is_whitespace())
                };
                if starts("define") {
                    nesting += 1;
                } else if starts("endef") {
                    let after = t["endef".len()..].trim_start();
                    if !after.is_empty() && !after.starts_with('#') && !ignoring {
                        return Err(Stop::Err(Kind::Extra("endef")));
                    }
                    nesting -= 1;
                    if nesting == 0 {
                        let body = std::mem::take(body);
                        if let Some((name, op)) = target.take() {
                            check_expr(&body)?;
                            self.assign(&name, op, &body)?;
                        }
                        define = None;
                        continue;
                    }
                }
                body.push_str(line);
                continue;
            }

            let cc = self.command_char.unwrap_or('\t');
            if open.is_some() && s.starts_with(cc) {
                let (mut line, mut rest, mut end) = physical(&s[cc.len_utf8()..]);
                let mut cmd = line.to_string();
                while end == End::Line && trailing_backslashes(line) % 2 == 1 {
                    self.stats.continuations += 1;
                    cmd.push('\n');
                    if rest.is_empty() {
                        break;
                    }
                    let p = physical(rest.strip_prefix(cc).unwrap_or(rest));
                    line = p.0;
                    rest = p.1;
                    end = p.2;
                    cmd.push_str(line);
                }
                if end == End::Eof && trailing_backslashes(line) % 2 == 1 {
                    return Err(Stop::Unspec("recipe ends in a backslash"));
                }
                s = rest;
                check_expr(&cmd)?;
                if !ignoring {
                    self.stats.recipe_lines += 1;
                    open.as_mut().unwrap().cmds.push(Cmd { text: cmd, inline: false });
                }
                continue;
            }

            let tab_start = s.starts_with(cc);
            let (quoted_line, rest) = self.logical(s)?;
            s = rest;
            let line = unquote_hash(&quoted_line);
            if line.contains('#') {
                self.stats.quoted_hashes += 1;
            }
            if line.is_empty() {
                continue;
            }

            // Conditionals
            if let Some(c) = self.conditional(&line, ignoring)? {
                match c {
                    CondLine::If(neq, a, b) => {
                        if ignoring {
                            self.stats.conds_skipped += 1;
                            conds.push(Cond { active: false, seen_else: false });
                        } else {
                            let mut sens = Names::new();
                            let a = self.expand(&a, &mut sens)?;
                            let b = self.expand(&b, &mut sens)?;
                            let active = (a.trim() == b.trim()) != neq;
                            self.stats.conds_taken += 1;
                            conds.push(Cond { active, seen_else: false });
                        }
                    }
                    CondLine::Else => match conds.last_mut() {
                        None => return Err(Stop::Err(Kind::UnattachedElse)),
                        Some(c) if c.seen_else => return Err(Stop::Err(Kind::TooManyElses)),
                        Some(c) => {
                            c.seen_else = true;
                            c.active = !c.active;
                        }
                    },
                    CondLine::EndIf => {
                        if conds.pop().is_none() {
                            return Err(Stop::Err(Kind::UnattachedEndIf));
                        }
                    }
                }
                continue;
            }

            if ignoring {
                self.stats.skipped_lines += 1;
                if assignment(&line).is_none() && keyword(&line, "define", "").is_some() {
                    define = Some((None, String::new()));
                    nesting = 1;
                }
                continue;
            }

            self.close(open);

            // Assignments
            if let Some((name, op, value)) = assignment(&line) {
                check_expr(name)?;
                check_expr(value)?;
                let mut sens = Names::new();
                let name = self.expand(name, &mut sens)?;
                let name = name.trim().to_string();
                self.assign(&name, op, value)?;
                continue;
            }
            if let Some(rest) = keyword(&line, "define", "") {
                let (name, op) = self.define_head(rest.trim_start_matches(is_blank))?;
                self.stats.defines += 1;
                // Whether a `?=` has an effect is decided here
                let discard = op == "?=" && self.vars.contains_key(&name);
                if discard {
                    self.stats.cond_kept += 1;
                }
                define = Some((if discard { None } else { Some((name, op)) }, String::new()));
                nesting = 1;
                continue;
            }
            for kw in ["export", "override", "private", "undefine", "unexport", "vpath", "load", "-load"].iter() {
                if keyword(&line, kw, "").is_some() {
                    return Err(Stop::Unspec("directive not implemented"));
                }
            }

            // Includes
            let mut included = false;
            for (kw, soft) in [("include", false), ("sinclude", true), ("-include", true)].iter() {
                if let Some(rest) = keyword(&line, kw, "") {
                    check_expr(rest)?;
                    let mut sens = Names::new();
                    let list = self.expand(rest, &mut sens)?;
                    for f in file_seq(&list, "", &mut self.stats.clone())? {
                        self.depth += 1;
                        if self.depth > 60 {
                            return Err(Stop::Recursion);
                        }
                        match self.lookup(&f) {
                            Some((name, text)) => {
                                self.stats.includes += 1;
                                self.opened.push(name);
                                self.process(&text)?
                            }
                            None if *soft => self.stats.soft_missing += 1,
                            None => return Err(Stop::Err(Kind::IncludeNotFound(f))),
                        }
                        self.depth -= 1;
                    }
                    included = true;
                    break;
                }
            }
            if included {
                continue;
            }

            if tab_start {
                return Err(Stop::Err(Kind::RecipeExpected));
            }

            // Recipes keep their quotes
            *open = self.target_line(&quoted_line)?;
        }
        if !conds.is_empty() || define.is_some() {
            return Err(Stop::Unspec("unterminated block"));
        }
        Ok(())
    }

    /// A line with its continuations joined and its comment removed
    fn logical<'a>(&mut self, s: &'a str) -> R<(String, &'a str)> {
        let mut out = String::new();
        let mut rest = s;
        let mut any = false;
        loop {
            let (line, r, end) = physical(rest.trim_start_matches(is_blank));
            rest = r;
            let n = trailing_backslashes(line);
            if any {
                self.stats.continuations += 1;
            }
            any = true;
            let sep = if out.is_empty() { "" } else { " " };
            if n % 2 == 0 {
                out.push_str(sep);
                // Backslashes in front of a comment are quoted
                self.halved = end == End::Hash && n > 0;
                out.push_str(if end == End::Hash { &line[..line.len() - n / 2] } else { line });
                return Ok((out, rest));
            }
            if end == End::Eof {
                return Err(Stop::Unspec("file ends in a backslash"));
            }
            let mut body = &line[..line.len() - n + n / 2];
            if n == 1 {
                body = body.trim_end_matches(is_blank);
            }
            if !body.is_empty() {
                out.push_str(sep);
                out.push_str(body);
            }
        }
    }

    fn conditional(&mut self, line: &str, ignoring: bool) -> R<Option<CondLine>> {
        if keyword(line, "ifdef", "(\"'").is_some() || keyword(line, "ifndef", "(\"'").is_some() {
            return Err(Stop::Unspec("ifdef"));
        }
        for (kw, neq) in [("ifeq", false), ("ifneq", true)].iter() {
            if let Some(rest) = keyword(line, kw, "(\"'") {
                let bad = Err(Stop::Unspec("malformed ifeq"));
                let rest = rest.trim_start_matches(is_blank);
                let (a, b, tail) = match rest.chars().next() {
                    Some('(') => {
                        let rest = &rest[1..];
                        let mut depth = 0;
                        let mut comma = None;
                        for (i, c) in rest.char_indices() {
                            match c {
                                '(' => depth += 1,
                                ')' => depth -= 1,
                                ',' if depth <= 0 => {
                                    comma = Some(i);
                                    break;
                                }
                                _ => {}
                            }
                        }
                        let comma = match comma {
                            Some(c) => c,
                            None => return bad,
                        };
                        if depth != 0 {
                            return bad;
                        }
                        let a = &rest[..comma];
                        let rest = rest[comma + 1..].trim_start_matches(is_blank);
                        let mut depth = 0;
                        let mut close = None;
                        for (i, c) in rest.char_indices() {
                            match c {
                                '(' => depth += 1,
                                ')' => {
                                    depth -= 1;
                                    if depth < 0 {
                                        close = Some(i);
                                        break;
                                    }
                                }
                                _ => {}
                            }
                        }
                        let close = match close {
                            Some(c) => c,
                            None => return bad,
                        };
                        (a, &rest[..close], &rest[close + 1..])
                    }
                    Some(q) if q == '"' || q == '\'' => {
                        let rest = &rest[1..];
                        let e = match rest.find(q) {
                            Some(e) => e,
                            None => return bad,
                        };
                        let a = &rest[..e];
                        let rest = rest[e + 1..].trim_start_matches(is_blank);
                        let q = match rest.chars().next() {
                            Some(q) if q == '"' || q == '\'' => q,
                            _ => return bad,
                        };
                        let rest = &rest[1..];
                        let e = match rest.find(q) {
                            Some(e) => e,
                            None => return bad,
                        };
                        (a, &rest[..e], &rest[e + 1..])
                    }
                    _ => return bad,
                };
                if !tail.trim().is_empty() {
                    return Err(Stop::Unspec("text after a conditional"));
                }
                if ignoring && (check_expr(a).is_err() || check_expr(b).is_err()) {
                    return Err(Stop::Unspec("bad operands in an ignored conditional"));
                }
                check_expr(a)?;
                check_expr(b)?;
                return Ok(Some(CondLine::If(*neq, a.to_string(), b.to_string())));
            }
        }
        if let Some(rest) = keyword(line, "else", "(\"'") {
            let rest = rest.trim_start_matches(is_blank);
            if rest.is_empty() {
                return Ok(Some(CondLine::Else));
            }
            for kw in ["ifeq", "ifneq", "ifdef", "ifndef", "else", "endif"].iter() {
                if keyword(rest, kw, "(\"'").is_some() {
                    return Err(Stop::Unspec("else with a conditional"));
                }
            }
            return Err(Stop::Err(Kind::Extra("else")));
        }
        if let Some(rest) = keyword(line, "endif", "(\"'") {
            let rest = rest.trim_start_matches(is_blank);
            if rest.is_empty() {
                return Ok(Some(CondLine::EndIf));
            }
            return Err(Stop::Err(Kind::Extra("endif")));
        }
        Ok(None)
    }

    fn origin(&self, expr: &str) -> Origin {
        match self.record {
            true => Origin(vec![(expr.to_string(), std::rc::Rc::new(self.vars.clone()))]),
            false => Origin::default(),
        }
    }

    fn assign(&mut self, name: &str, op: &str, value: &str) -> R<()> {
        let mut sens = Names::new();
        self.stats.assigns += 1;
        match op {
            "=" => {
                self.vars.insert(name.into(), Var::recursive(value.into()));
            }
            ":=" | "::=" => {
                let origin = self.origin(value);
                let v = self.expand(value, &mut sens)?;
                self.vars.insert(name.into(), Var { simple: true, text: v, origin });
            }
            "?=" => {
                if self.vars.contains_key(name) {
                    self.stats.cond_kept += 1;
                } else {
                    self.vars.insert(name.into(), Var::recursive(value.into()));
                }
            }
            "+=" => {
                self.stats.appends += 1;
                let is_simple = self.vars.get(name).map_or(false, |v| v.simple);
                let origin = if is_simple { self.origin(value) } else { Origin::default() };
                let value = if is_simple { self.expand(value, &mut sens)? } else { value.to_string() };
                match self.vars.get_mut(name) {
                    None => {
                        self.vars.insert(name.into(), Var::recursive(value));
                    }
                    Some(v) => {
                        if v.simple != is_simple {
                            return Err(Stop::Unspec("variable changed while being appended to"));
                        }
                        if !v.simple && ends_in_dollar(&v.text) {
                            return Err(Stop::Unspec("append to odd value"));
                        }
                        // No blank behind nothing
                        if v.text.is_empty() {
                            v.origin.0.clear();
                        } else {
                            v.text.push(' ');
                        }
                        v.text.push_str(&value);
                        v.origin.0.extend(origin.0);
                    }
                }
            }
            _ => return Err(Stop::Unspec("shell assignment")),
        }
        Ok(())
    }

    fn define_head<'a>(&mut self, rest: &'a str) -> R<(String, &'static str)> {
        let (name, op) = match assignment(rest) {
            Some((name, op, value)) => {
                if !value.trim().is_empty() {
                    return Err(Stop::Unspec("text after a define"));
                }
                (name, op)
            }
            None => {
                if rest.contains('=') && !rest.contains('$') {
                    return Err(Stop::Unspec("odd define"));
                }
                check_expr(rest)?;
                let mut sens = Names::new();
                return Ok((self.expand(rest, &mut sens)?.trim().to_string(), "="));
            }
        };
        check_expr(name)?;
        let mut sens = Names::new();
        let name = self.expand(name, &mut sens)?.trim().to_string();
        match op {
            "=" => Ok((name, "=")),
            "?=" => Ok((name, "?=")),
            "+=" => Ok((name, "+=")),
            ":=" | "::=" => Ok((name, ":=")),
            _ => Err(Stop::Unspec("define with that operator")),
        }
    }

    fn target_line(&mut self, line: &str) -> R<Option<Open>> {
        // The recipe starts behind the first semicolon
        let (line, mut recipe) = match split_outside_refs(line, ';') {
            (pre, Some(post)) => (pre, Some(post.to_string())),
            (pre, None) => {
                if outside_refs(line).contains(';') {
                    return Err(Stop::Unspec("quoted semicolon"));
                }
                (pre, None)
            }
        };
        if line.contains("\\;") || (recipe.is_some() && line.ends_with('\\')) {
            return Err(Stop::Unspec("quoted semicolon"));
        }
        if line.contains("\\\\#") || (self.halved && recipe.is_some()) {
            return Err(Stop::Unspec("quoted quotes in a rule"));
        }
        let line = unquote_hash(&line);
        let mut rest: &str = line.trim_start_matches(is_blank);
        if rest.is_empty() {
            if recipe.is_some() {
                return Err(Stop::Err(Kind::NoRuleRecipe));
            }
            return Ok(None);
        }
        if rest.starts_with('=') || rest.starts_with(":=") || rest.starts_with("::=") {
            return Err(Stop::Unspec("assignment like rule"));
        }
        if rest.contains('=') && !rest.contains(|c| c == ':' || c == '$') {
            // `A B = C` assigns nothing
            return Err(Stop::Err(Kind::MissingSeparator));
        }
        if rest.starts_with(':') {
            // No targets: nothing is defined, but a recipe may follow
            return Ok(Some(Open {
                targets: vec![],
                deps: vec![],
                dep_sens: Names::new(),
                target_sens: Names::new(),
                cmds: vec![],
                double_colon: false,
            }));
        }
        let mut target_sens = Names::new();
        let mut targets_text = String::new();
        let mut after_colon: Option<String> = None;
        while after_colon.is_none() {
            rest = rest.trim_start_matches(is_blank);
            if rest.is_empty() {
                break;
            }
            let n = word_len(rest)?;
            let word = &rest[..n];
            rest = &rest[n..];
            check_expr(word)?;
            let mut text = self.expand(word, &mut target_sens)?;
            if recipe.is_none() {
                if let (pre, Some(post)) = split_unquoted(&text.clone(), ';') {
                    if post.contains('$') {
                        return Err(Stop::Unspec("dollar in an expanded recipe"));
                    }
                    check_expr(rest)?;
                    let mut dummy = Names::new();
                    let more = self.expand(rest, &mut dummy)?;
                    if more.contains('$') {
                        return Err(Stop::Unspec("dollar in an expanded recipe"));
                    }
                    recipe = Some(format!("{}{}", post, more));
                    rest = "";
                    text = pre;
                } else if text.contains(';') {
                    return Err(Stop::Unspec("quoted semicolon"));
                }
            }
            if text.contains(":/") || text.contains(":\\") {
                return Err(Stop::Unspec("drive specification"));
            }
            let (pre, post) = split_unquoted(&text, ':');
            if pre.contains(':') {
                self.stats.escapes += 1;
            }
            if !targets_text.is_empty() {
                targets_text.push(' ');
            }
            targets_text.push_str(&pre);
            after_colon = post.map(|p| p.to_string());
        }
        let after_colon = match after_colon {
            Some(a) => a,
            None => {
                if targets_text.trim_matches(is_blank).is_empty() {
                    if recipe.is_some() {
                        return Err(Stop::Unspec("recipe on a blank line"));
                    }
                    return Ok(None);
                }
                return Err(Stop::Err(Kind::MissingSeparator));
            }
        };
        if after_colon.contains('$') {
            return Err(Stop::Unspec("dollar in an expanded rule"));
        }
        let targets = file_seq(&targets_text, "", &mut self.stats)?;
        let mut after = format!("{}{}", after_colon, rest);
        if after.starts_with('/') || after.starts_with('\\') {
            return Err(Stop::Unspec("drive specification"));
        }
        let mut double_colon = false;
        if after.starts_with(':') {
            double_colon = true;
            after.remove(0);
        }
        if outside_refs(&after).contains('=') {
            return Err(Stop::Unspec("target specific variable"));
        }
        if after.contains('=')
            && ["define", "export", "override", "private", "undefine", "unexport"].iter().any(|k| after.trim_start().starts_with(k))
        {
            return Err(Stop::Unspec("target specific variable"));
        }
        check_expr(&after)?;
        let mut dep_sens = Names::new();
        let mut deps_text = self.expand(&after, &mut dep_sens)?;
        if recipe.is_none() {
            if let (pre, Some(post)) = split_unquoted(&deps_text.clone(), ';') {
                recipe = Some(post.to_string());
                deps_text = pre;
            } else if deps_text.contains(';') {
                return Err(Stop::Unspec("quoted semicolon"));
            }
        }
        if split_unquoted(&deps_text, ':').1.is_some() {
            return Err(Stop::Unspec("static pattern rule"));
        }
        let deps = file_seq(&deps_text, ":", &mut self.stats)?;
        let mut cmds = vec![];
        if let Some(r) = recipe {
            check_expr(&r)?;
            self.stats.recipe_lines += 1;
            cmds.push(Cmd { text: r, inline: true });
        }
        Ok(Some(Open { targets, deps, dep_sens, target_sens, cmds, double_colon }))
    }
}

enum CondLine {
    If(bool, String, String),
    Else,
    EndIf,
}

fn ends_in_dollar(s: &str) -> bool {
    (s.len() - s.trim_end_matches('$').len()) % 2 == 1
}

fn outside_refs(s: &str) -> String {
    match pieces(s) {
        Ok(ps) => ps
            .iter()
            .map(|p| match p {
                Piece::Text(t) => *t,
                _ => "_",
            })
            .collect(),
        Err(_) => s.to_string(),
    }
}

/// Splits `name op value`
fn assignment(line: &str) -> Option<(&str, &str, &str)> {
    // The name may contain references, with anything in them
    let mut n = 0;
    while n < line.len() {
        let c = line[n..].chars().next().unwrap();
        if c.is_whitespace() || ":=!?+".contains(c) {
            break;
        }
        n += c.len_utf8();
        if c == '$' {
            match line[n..].chars().next() {
                Some('$') => n += 1,
                Some('(') | Some('{') => {
                    if let Ok((_, rest)) = reference(&line[n..]) {
                        n = line.len() - rest.len();
                    }
                }
                _ => {}
            }
        }
    }
    let (name, rest) = line.split_at(n);
    let rest = rest.trim_start_matches(is_blank);
    for op in ["=", "::=", ":=", "?=", "!=", "+="].iter() {
        if rest.starts_with(op) {
            let value = rest[op.len()..].trim_start_matches(is_blank);
            return Some((name, op, value));
        }
    }
    None
}

/// Length of the next word of the target part of a rule. The colon ending it
/// is part of it.
fn word_len(s: &str) -> R<usize> {
    let mut i = 0;
    while i < s.len() {
        let c = s[i..].chars().next().unwrap();
        match c {
            ' ' | '\t' => return Ok(i),
            '=' => return Err(Stop::Unspec("assignment like rule")),
            ':' => {
                // `a ::b`, a word of its own
                if i == 0 && s[1..].starts_with(':') {
                    return Ok(2);
                }
                return Ok(i + 1);
            }
            '$' => {
                match s[i + 1..].chars().next() {
                    None => return Ok(s.len()),
                    Some('(') | Some('{') => {
                        let (inner, _) = reference(&s[i + 1..])?;
                        i += 1 + 1 + inner.len() + 1;
                    }
                    Some(c) => i += 1 + c.len_utf8(),
                }
                continue;
            }
            '\\' => {
                if let Some(c) = s[i + 1..].chars().next() {
                    if c == ':' || c == ';' || c == '=' || c == '\\' {
                        i += 2;
                        continue;
                    }
                }
            }
            '?' | '+' => {
                if s[i + 1..].starts_with('=') {
                    return Err(Stop::Unspec("assignment like rule"));
                }
            }
            _ => {}
        }
        i += c.len_utf8();
    }
    Ok(i)
}

/// `$(VAR:key=repl)`
pub fn subst(value: &str, key: &str, repl: &str) -> R<String> {
    if value.contains(|c: char| c.is_whitespace() && !is_blank(c)) {
        return Err(Stop::Unspec("line breaks in a substituted value"));
    }
    let (pre, post, by_pattern) = match split_unquoted(key, '%') {
        (pre, Some(post)) => (pre, post.to_string(), true),
        (k, None) => (String::new(), k, false),
    };
    let (rpre, rpost) = if by_pattern {
        match split_unquoted(repl, '%') {
            (a, Some(b)) => (Some(a), b.to_string()),
            (a, None) => (None, a),
        }
    } else {
        (Some(String::new()), repl.to_string())
    };
    let words: Vec<&str> = value.split(is_blank).filter(|w| !w.is_empty()).collect();
    let mut out = vec![];
    for w in words {
        let m = w.len() >= pre.len() + post.len() && w.starts_with(&pre) && w.ends_with(&post);
        if !m {
            out.push(w.to_string());
            continue;
        }
        let stem = &w[pre.len()..w.len() - post.len()];
        match &rpre {
            Some(rpre) => out.push(format!("{}{}{}", rpre, stem, rpost)),
            None => out.push(rpost.clone()),
        }
    }
    Ok(out.join(" "))
}
