//! Hostile input, determinism, isolation and cost
use super::*;
use hastur::ast::{AstChildren, AstNode};
use hastur::evaluated::Block;
use hastur::NameCache;
use std::collections::BTreeSet;
use std::io::{BufRead, Read};
use std::sync::Arc;

// ------------------------------------------------------------------ C12

pub const C12: Check = Check {
    id: "C12",
    run: c12,
    quick: 60_000,
    thorough: 2_000_000,
    rule: "Arbitrary bytes, soups of makefile tokens (short ones by the dozen), and generated makefiles with bytes, tokens and lines deleted, doubled, moved, cut off or inserted, read with the usual or another recipe prefix, as a file, as one block or as a block in pieces. Afterwards every variable, prerequisite and command is expanded and walked, and the engine has to read and expand one more line. Monitors: panics (overflow and debug assertions on), signals, aborts, processor time, internal errors that surface. Non trivial: something was defined or an error was reported.",
    assumptions: &["inputs in which a variable may refer to itself, or whose expansion may double itself to a megabyte, are left out (known finding: recursion is not detected)", "panics that say 'not implemented' count as documented if they name one of the constructs hastur lists as such"],
    must_see: &["inputs_read", "inputs_refused", "values_expanded", "commands_expanded", "reads_afterwards", "invalid_utf8"],
    known: c12_known,
    known_crash: no_crash,
};

const TOKENS: &[&str] = &[
    "A", "B", "x", "t", "all", "é", "日", "=", ":=", "::=", "?=", "+=", ":", "::", ";", "|", "#", "\\", "\\\\", "\\\n", "\\#", "\\:", "\\ ", "\n", "\n", "\n", "\n", "\n\t", "\t", " ", "  ", "$", "$$", "$(", "${", ")", "}", "$(A)", "${B}", "$A", "$x",
    "$(A:", "$(A:.c=.o)", "$(B:%.c=x%)", "%", ",", "(", "'", "\"", "ifeq ", "ifneq ", "else", "endif", "ifeq (a,a)\n", "ifneq (a,a)\n", "\nelse\n", "\nendif\n", "ifeq \"", "define ", "endef", "\nendef\n", "define A\n", "include ", "-include ", "sinclude ", "$(eval ", "$(eval A=1)", "\r\n", "\r", "\u{feff}", "\u{0}", "A=1\n", "t:\n\t", "a.c b.c", "%.o: %.c\n", ".o", "&", "!", "~", "@", "-", "\u{2028}", "\u{85}", "😀", "\u{b}", "\u{c}", ".PHONY", "$(A)$(B)", "$($(A))", "$(\n", "A B", "A = ", "B := ", "A += ",
];
/// Constructs that are documented as missing. Rarely, as they end the case.
const MISSING: &[&str] = &["ifdef A\n", "ifndef A\n", "export A\n", "override A=1\n", "private ", "undefine A\n", "t: A=1\n", "a b: %.o: %.c\n", "$(strip a )", "$(word 1,a)", "$(words a b)", "vpath %.c x\n", "load x\n", "unexport A\n", "A != x\n", "else ifeq (a,b)\n", "export"];

pub fn soup(src: &mut Src, lo: usize, hi: usize) -> String {
    let n = src.range(lo, hi);
    let mut s = String::new();
    for _ in 0..n {
        if src.chance(1, 60) {
            s.push_str(src.pick(MISSING));
        } else {
            s.push_str(src.pick(TOKENS));
        }
    }
    s
}

/// Lines made of plausible parts
fn lines(src: &mut Src) -> String {
    let n = src.range(1, 10);
    let mut s = String::new();
    for _ in 0..n {
        let head = src.pick(&["A", "B", "x", "t", "all", "\t", "  ", "define A", "endef", "ifeq (", "ifneq (", "ifeq \"", "else", "endif", "include", "-include", "#", "$(A)", "t.o:", "t:", "a b::", ""]);
        s.push_str(head);
        s.push_str(&soup(src, 0, 6).replace('\n', " "));
        s.push_str(src.pick(&["\n", "\n", "\n", "\n", "\r\n", "\\\n", "", "\n\n"]));
    }
    s
}

fn cut(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutate(src: &mut Src, text: &mut String) {
    for _ in 0..src.range(1, 5) {
        let a = cut(text, src.below(text.len() + 1));
        let b = cut(text, (a + src.below(20)).min(text.len()));
        let b = b.max(a);
        match src.below(8) {
            0 => text.truncate(a),
            1 => {
                text.replace_range(a..b, "");
            }
            2 => {
                let c = text[a..b].to_string();
                let d = cut(text, src.below(text.len() + 1));
                text.insert_str(d, &c);
            }
            3 | 4 => text.insert_str(a, src.pick(TOKENS)),
            5 => {
                let c = src.pick(TOKENS);
                text.replace_range(a..b, c);
            }
            6 => {
                // Lines exchanged, doubled or dropped
                let mut l: Vec<String> = text.split_inclusive('\n').map(|x| x.to_string()).collect();
                if l.len() > 1 {
                    let i = src.below(l.len());
                    let j = src.below(l.len());
                    match src.below(3) {
                        0 => l.swap(i, j),
                        1 => {
                            let c = l[i].clone();
                            l.insert(j, c)
                        }
                        _ => {
                            l.remove(i);
                        }
                    }
                }
                *text = l.concat();
            }
            _ => {
                // A line end becomes something else
                if let Some(i) = text[a..].find('\n') {
                    let c = src.pick(&["", " ", "\\\n", "\r\n", "\n\n", "\n\t"]);
                    text.replace_range(a + i..a + i + 1, c);
                }
            }
        }
    }
}

fn is_name(c: char) -> bool {
    !c.is_whitespace() && !"$(){}:=#,;\"'\\+?!%|".contains(c)
}

pub fn words(text: &str) -> BTreeSet<String> {
    let mut v: BTreeSet<String> = text.split(|c| !is_name(c)).filter(|w| !w.is_empty() && w.len() < 60).map(|x| x.to_string()).collect();
    // One letter after a dollar sign, even one that is no letter
    let mut last = ' ';
    for c in text.chars() {
        if last == '$' {
            v.insert(c.to_string());
        }
        last = c;
    }
    v
}

/// How large can things become? `None`: possibly without end. Errs on the
/// large side.
pub fn bound(text: &str) -> Option<u64> {
    let joined = text.replace('\u{feff}', "").replace("\\\r\n", " ").replace("\\\n", " ");
    let low = joined.to_lowercase();
    let wild = joined.contains("$($") || joined.contains("${$") || low.contains("eval");
    let mut edges: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut sizes: BTreeMap<String, u64> = BTreeMap::new();
    let refs = |l: &str| -> Vec<String> {
        match l.find('$') {
            None => vec![],
            Some(i) => {
                let t = &l[i..];
                let mut v: Vec<String> = t.split(|c| !is_name(c)).filter(|w| !w.is_empty()).map(|x| x.to_string()).collect();
                let mut last = ' ';
                for c in t.chars() {
                    if last == '$' {
                        v.push(c.to_string());
                    }
                    if "$({".contains(last) && !is_name(c) {
                        // A name without a single letter
                        v.push(String::new());
                    }
                    last = c;
                }
                v
            }
        }
    };
    let mut defining: Vec<String> = vec![];
    let mut any = false;
    for l in joined.split('\n') {
        let lw = l.to_lowercase();
        let mut left: Vec<String> = vec![];
        if let Some(i) = l.find('=') {
            left = l[..i].split(|c| !is_name(c)).filter(|w| !w.is_empty()).map(|x| x.to_string()).collect();
            if l[..i].contains('$') {
                // A computed name
                any = true;
            }
            left.push(String::new());
        }
        if lw.contains("define") {
            defining.extend(l.split(|c| !is_name(c)).filter(|w| !w.is_empty()).map(|x| x.to_string()));
            defining.push(String::new());
            any |= l.contains('$');
        }
        let r = refs(l);
        for x in left.iter().chain(&defining) {
            edges.entry(x.clone()).or_default().extend(r.iter().cloned());
            *sizes.entry(x.clone()).or_insert(0) += l.len() as u64;
        }
    }
    if any || wild {
        // Anything may refer to anything: only without references at all is
        // there nothing to fear
        let total: usize = edges.values().map(|v| v.len()).sum();
        return if total == 0 { Some(text.len() as u64) } else { None };
    }
    fn size(v: &str, e: &BTreeMap<String, Vec<String>>, s: &BTreeMap<String, u64>, memo: &mut BTreeMap<String, Option<u64>>) -> Option<u64> {
        if let Some(x) = memo.get(v) {
            return *x;
        }
        memo.insert(v.to_string(), None);
        let mut n = s.get(v).copied().unwrap_or(0);
        for r in e.get(v).map(|x| &x[..]).unwrap_or(&[]) {
            n = n.saturating_add(size(r, e, s, memo)?);
        }
        memo.insert(v.to_string(), Some(n));
        Some(n)
    }
    let mut memo = BTreeMap::new();
    let mut total = text.len() as u64;
    for v in edges.keys() {
        total = total.saturating_add(size(v, &edges, &sizes, &mut memo)?);
    }
    // References outside of values
    Some(total.saturating_mul(1 + joined.matches('$').count() as u64))
}

/// A panic that says that something is documented as missing
fn documented(p: &str, text: &str) -> bool {
    let l = p.to_lowercase();
    if !(l.starts_with("not implemented") || l.starts_with("not yet implemented")) || l.contains("incomplete line") || l.contains("really wrong") {
        return false;
    }
    let t = text.to_lowercase();
    let has = |w: &[&str]| w.iter().any(|x| t.contains(x)) || t.contains("eval");
    let mut known = false;
    for (m, needs) in [
        ("handling conditional", &["ifdef", "ifndef"][..]),
        ("`else` with followup", &["else"][..]),
        ("node strip", &["strip"][..]),
        ("node word", &["word"][..]),
        ("modifiers", &["export", "override", "private", "undefine"][..]),
        ("undefine", &["undefine"][..]),
        ("static pattern", &[":"][..]),
        ("unimplemented action", &["vpath", "load", "export", ":"][..]),
    ]
    .iter()
    {
        if l.contains(m) {
            known = true;
            if has(needs) {
                return true;
            }
        }
    }
    !known && has(&["ifdef", "ifndef", "else", "export", "override", "private", "undefine", "vpath", "load", "strip", "word", "!="])
}

const EVAL: &str = "an error in the text of $(eval) panics";

/// What is the same in a panic whatever has been interned before: its message
/// up to the values in it, and where it is
fn of_panic(p: impl AsRef<str>) -> String {
    let p = p.as_ref();
    let end = p.find('{').unwrap_or(p.len());
    let start: String = p[..end].chars().take(60).collect();
    format!("{}{}", start, &p[p.rfind("(at ").unwrap_or(p.len())..])
}

fn panicked(ctx: &mut Ctx, p: &str, text: &str, what: &str) -> Result<(), Bad> {
    if documented(p, text) {
        ctx.count("documented as not implemented", 1);
        return Ok(());
    }
    if p.contains("TODO: error routing for this parse") && text.to_lowercase().contains("eval") {
        ctx.count("known: errors in evaluated text", 1);
        return Ok(());
    }
    Err(format!("{} panicked: {}", what, p).into())
}

fn walk_block(b: &Block) -> usize {
    let s = b.span();
    let mut n = s.chars().count();
    n += s.char_indices().count();
    for x in s.segments() {
        n += x.len();
    }
    let _ = b.sensitivity().count();
    let _ = s.location();
    n + b.into_string().len()
}

/// Expands everything there is
fn expand_all(ctx: &mut Ctx, s: &mut Sut, text: &str, names: &BTreeSet<String>) -> Result<(), Bad> {
    for n in names {
        let ast = match s.names.variable_name(n).and_then(|v| s.engine.database.get_variable(v).map(|v| v.ast().clone())) {
            Some(a) => a,
            None => continue,
        };
        ctx.count("values_expanded", 1);
        match s.eval_ast(&ast) {
            Ok(b) => {
                if let Err(p) = guard(|| walk_block(&b)) {
                    return Err(format!("reading out the value of {:?} panicked: {}", n, p).into());
                }
            }
            Err(p) => panicked(ctx, &p, text, &format!("expanding {:?}", n))?,
        }
    }
    let rules: Vec<hastur::Rule> = s.engine.database.rules().cloned().collect();
    for r in &rules {
        guard(|| {
            walk_block(r.target());
            for d in r.dependencies() {
                walk_block(d);
            }
        })
        .map_err(|p| format!("reading out a rule panicked: {}", p))?;
        #[cfg(feature = "hooks")]
        for c in r.recipe().commands() {
            ctx.count("commands_expanded", 1);
            match s.eval_ast(&c.verif_unexpanded().clone()) {
                Ok(b) => {
                    guard(|| walk_block(&b)).map_err(|p| format!("reading out a command panicked: {}", p))?;
                }
                Err(p) => panicked(ctx, &p, text, "expanding a command")?,
            }
        }
    }
    Ok(())
}

fn surfaces(e: &str) -> bool {
    e.contains("NomError") || e.contains("InternalFailure")
}

/// One input, all the way
fn feed(src: &mut Src, ctx: &mut Ctx, bytes: &[u8], files: &BTreeMap<String, String>) -> Result<bool, Bad> {
    let lossy = String::from_utf8_lossy(bytes).into_owned();
    ctx.case = lossy.clone();
    let mode = src.below(8);
    let mut whole = lossy.clone();
    for t in files.values() {
        whole.push('\n');
        whole.push_str(t);
    }
    match bound(&whole) {
        Some(n) if n < 300_000 => {}
        _ => {
            // The reference interpreter may know better
            let mut m = Model::new();
            m.files = files.clone();
            let fine = |m: &Model| names_of(m).iter().all(|n| match m.var_value(n) {
                None => true,
                Some(Ok((v, _))) => v.len() < 20_000,
                _ => false,
            });
            let cmds = |m: &Model| m.rules.values().all(|r| r.cmds.iter().all(|c| match m.value(&c.text) {
                Ok((v, _)) => v.len() < 20_000,
                _ => false,
            }));
            match m.read(&lossy) {
                Ok(()) if mode < 7 && fine(&m) && cmds(&m) => {}
                _ => {
                    ctx.count("left out: may refer to itself", 1);
                    return Ok(false);
                }
            }
        }
    }
    about_to_run(ctx);
    let mut s = Sut::new(&ctx.dir);
    if mode == 7 {
        s.engine.command_char = src.pick_of(&['>', ' ', 'x', '#', 'é', '\\', '$', ':']);
    }
    let r = match (mode, std::str::from_utf8(bytes)) {
        (5, Ok(t)) | (6, Ok(t)) if !t.is_empty() => {
            // As a block, in pieces
            use hastur::source_location::LocatedString;
            let mut b = Block::default();
            let mut rest = t;
            while !rest.is_empty() {
                let k = if mode == 5 { rest.len() } else { cut(rest, src.below(rest.len() + 1)).max(rest.chars().next().unwrap().len_utf8()) };
                b.push(hastur::evaluated::constant(LocatedString::synthetic_new(&rest[..k])));
                if src.chance(1, 6) {
                    b.push(hastur::evaluated::constant(LocatedString::synthetic_new("")));
                }
                rest = &rest[k..];
            }
            ctx.count("blocks_in_pieces", 1);
            guard(|| s.engine.process_block(&mut s.names, &b))
        }
        _ => guard(|| s.engine.read_makefile(&mut s.names, &mut &bytes[..], "main.mk")),
    };
    let mut real = false;
    match r {
        Ok(Ok(())) => ctx.count("inputs_read", 1),
        Ok(Err(e)) => {
            real = true;
            ctx.count("inputs_refused", 1);
            let e = format!("{:?}", e);
            if std::str::from_utf8(bytes).is_err() {
                ctx.count("invalid_utf8", 1);
                if !e.starts_with("IOError") {
                    return Err(format!("bytes that are no text gave {}", e).into());
                }
            } else if e.starts_with("IOError") {
                return Err(format!("text gave {}", e).into());
            }
            if surfaces(&e) {
                return Err(format!("an error that is internal to the parser surfaced: {}", e).into());
            }
        }
        Err(p) => {
            panicked(ctx, &p, &lossy, "reading")?;
            return Ok(false);
        }
    }
    let names = words(&lossy);
    real |= names.iter().any(|n| s.defined(n)) || s.engine.database.rules().next().is_some();
    expand_all(ctx, &mut s, &lossy, &names)?;
    // It can go on
    s.engine.command_char = '\t';
    let r = guard(|| s.engine.read_makefile(&mut s.names, &mut "ZZ_last := 1 2\nzz_t: zz_d\n\tzz\n".as_bytes(), "last.mk"));
    match r {
        Ok(Ok(())) => {}
        x => return Err(format!("afterwards the engine fails on a plain makefile: {:?}", x).into()),
    }
    ctx.count("reads_afterwards", 1);
    let v = s.var_block("ZZ_last").map(|x| x.map(|b| b.into_string()));
    if v != Some(Ok("1 2".to_string())) {
        return Err(format!("afterwards a plain assignment gives {:?}", v).into());
    }
    match s.names.file_name("zz_t").and_then(|t| s.engine.database.get_rule(t)) {
        Some(r) if r.dependencies().len() == 1 && r.recipe().commands().len() == 1 => {}
        r => return Err(format!("afterwards a plain rule gives {:?}", r.map(|r| (r.dependencies().len(), r.recipe().commands().len()))).into()),
    }
    Ok(real)
}

fn c12(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let kind = src.weighted(&[3, 3, 3, 8, 1]);
    let none = BTreeMap::new();
    let mut key = String::new();
    let mut real = false;
    match kind {
        0 => {
            // Many short ones
            for _ in 0..40 {
                let t = soup(src, 1, 4);
                real |= feed(src, ctx, t.as_bytes(), &none)?;
                key.push_str(&t);
                key.push('\u{1}');
            }
        }
        1 => {
            let t = soup(src, 5, 60);
            real = feed(src, ctx, t.as_bytes(), &none)?;
            key = t;
        }
        2 => {
            let t = lines(src);
            real = feed(src, ctx, t.as_bytes(), &none)?;
            key = t;
        }
        3 => {
            let cfg = match src.below(3) {
                0 => Cfg { escapes: 20, noise: 30, max_stmts: 8, ..BASE },
                1 => Cfg { crlf: true, define: 5, cond: 6, eval: 1, ..BASE },
                _ => Cfg { rule: 10, include: 1, eval: 0, ..BASE },
            };
            let mut p = program(src, cfg);
            if src.chance(9, 10) {
                mutate(src, &mut p.text);
            }
            put_files(ctx, &p.files);
            real = feed(src, ctx, p.text.as_bytes(), &p.files)?;
            key = p.text;
        }
        _ => {
            let n = src.range(1, 60);
            let mut b: Vec<u8> = vec![];
            for _ in 0..n {
                if src.chance(1, 3) {
                    b.push(src.below(256) as u8);
                } else {
                    b.extend(src.pick(TOKENS).as_bytes());
                }
            }
            real = feed(src, ctx, &b, &none)?;
            key = format!("{:?}", b);
        }
    }
    ctx.case = key.clone();
    if !real {
        return trivial();
    }
    pass(&key)
}

/// Does reading this text, and expanding X and the commands, kill a process?
fn dies(text: &str) -> bool {
    let r = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("probe")
        .env("HV_TEXT", text)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    use std::os::unix::process::ExitStatusExt;
    r.map_or(false, |s| s.signal().is_some() || s.code() == Some(3))
}

pub fn probe() -> i32 {
    let text = std::env::var("HV_TEXT").unwrap_or_default();
    let r = guard(|| {
        let mut s = Sut::new(std::path::Path::new("/nonexistent"));
        let _ = s.engine.read_makefile(&mut s.names, &mut text.as_bytes(), "main.mk");
        if let Some(Err(p)) = s.var_block("X") {
            panic!("{}", p);
        }
    });
    if r.is_err() {
        3
    } else {
        0
    }
}

fn c12_known(_: &mut Ctx) -> Vec<String> {
    let mut v = vec![];
    if dies("X = $(X)\n") {
        v.push("a variable that refers to itself overflows the stack when it is expanded (X = $(X))".to_string());
    }
    if dies("X = $(eval endif)\n") {
        v.push(format!("{} (X = $(eval endif))", EVAL));
    }
    for (t, w) in &[
        ("ifdef A\nendif\n", "ifdef and ifndef"),
        ("ifeq (a,b)\nelse ifeq (a,b)\nendif\n", "else with another condition"),
        ("export A\n", "export, unexport, override, private and undefine"),
        ("t: A = 1\n", "target specific variables"),
        ("a b: %: x\n", "static pattern rules"),
        ("X = $(strip a )\n", "the functions strip, word and words"),
        ("vpath %.c x\n", "the directives vpath and load"),
    ] {
        if dies(t) {
            v.push(format!("not implemented, and ends in a panic: {}", w));
        }
    }
    v
}

// ------------------------------------------------------------------ C14

pub const C14: Check = Check {
    id: "C14",
    run: c14,
    quick: 30_000,
    thorough: 900_000,
    rule: "A generated or damaged makefile is read by a fresh engine, and everything observable is written down: the outcome, every variable (its nodes with their places, its expansion segment by segment with places, what it depends on), every rule. The record must be the same when it is read again, through readers that hand out single bytes, arbitrary chunks or interruptions, with a name cache that already holds these and other names in another order or that is shared with another engine, interleaved with another engine statement by statement, from a block built of pieces, with every log message formatted, and in several threads at once, each busy with a program of its own; and when the engine is handed to another thread before anything is expanded, or snapshots of it are expanded by several threads at the same time. Non trivial: the record has at least ten lines.",
    assumptions: &["programs in which a variable may refer to itself are left out (known finding)", "thread schedules are those of the operating system, with random delays injected between statements"],
    must_see: &["runs_compared", "runs_in_threads", "chunked_readers", "interrupted_reads", "names_interned_before", "engines_interleaved", "handed_to_another_thread", "errors_compared", "log_messages_formatted"],
    known: no_known,
    known_crash: no_crash,
};

/// Hands out bytes in small pieces
struct Pieces {
    data: Vec<u8>,
    at: usize,
    sizes: Vec<usize>,
    n: usize,
    interrupts: u64,
    interrupted: u64,
    last: bool,
}

impl Pieces {
    fn new(data: &[u8], src: &mut Src, interrupts: bool) -> Pieces {
        let top = src.pick_of(&[1, 2, 3, 7, 40, 1000]);
        let sizes = (0..7).map(|_| src.range(1, top)).collect();
        Pieces { data: data.to_vec(), at: 0, sizes, n: 0, interrupts: interrupts as u64, interrupted: 0, last: false }
    }
    fn next(&mut self) -> std::io::Result<usize> {
        self.n += 1;
        if self.interrupts > 0 && !self.last && self.n % 3 == 1 {
            self.last = true;
            self.interrupted += 1;
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        self.last = false;
        Ok(self.sizes[self.n % self.sizes.len()].min(self.data.len() - self.at))
    }
}
impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.next()?.min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl BufRead for Pieces {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let n = self.next()?;
        Ok(&self.data[self.at..self.at + n])
    }
    fn consume(&mut self, amt: usize) {
        self.at += amt;
    }
}

fn at(names: &NameCache, l: &hastur::source_location::Location, files: bool) -> String {
    match crate::sut::place(names, l) {
        crate::sut::Place::File(f, l, c) if files => format!("{}:{}:{}", f, l, c),
        crate::sut::Place::File(..) => "?".into(),
        crate::sut::Place::Eval(..) if !files => "?".into(),
        p => format!("{:?}", p),
    }
}

fn write_ast(names: &NameCache, a: &AstNode, files: bool, out: &mut String) {
    out.push_str(&format!("({}@{} ", kind(a), at(names, &a.location(), files)));
    match a.children() {
        AstChildren::Empty => {}
        AstChildren::Constant(t) => out.push_str(&format!("{:?}", t.to_string())),
        AstChildren::PreEvaluated(b) => write_block(names, b, files, out),
        AstChildren::Concat(v) => v.iter().for_each(|x| write_ast(names, x, files, out)),
        AstChildren::VariableReference(n) | AstChildren::Eval(n) | AstChildren::Strip(n) | AstChildren::Words(n) => write_ast(names, n, files, out),
        AstChildren::Word { index, words } => {
            write_ast(names, index, files, out);
            write_ast(names, words, files, out)
        }
    }
    out.push(')');
}

fn kind(a: &AstNode) -> &'static str {
    match a.children() {
        AstChildren::Empty => "empty",
        AstChildren::Constant(_) => "constant",
        AstChildren::PreEvaluated(_) => "value",
        AstChildren::Concat(_) => "concat",
        AstChildren::VariableReference(_) => "reference",
        AstChildren::Eval(_) => "eval",
        AstChildren::Strip(_) => "strip",
        AstChildren::Words(_) => "words",
        AstChildren::Word { .. } => "word",
    }
}

fn write_block(names: &NameCache, b: &Block, files: bool, out: &mut String) {
    let mut text = String::new();
    for s in b.span().segments() {
        if files {
            out.push_str(&format!("{:?}@{} ", &s as &str, at(names, s.location(), files)));
        }
        text.push_str(&s);
    }
    let t = b.into_string();
    out.push_str(&format!("{:?} {}", t, if text == t { "" } else { "whose segments say something else" }));
}

fn write_deps(names: &NameCache, words: &BTreeSet<String>, b: &Block, out: &mut String) {
    let ids: Vec<(&String, hastur::VariableName)> = words.iter().filter_map(|w| names.variable_name(w).map(|v| (w, v))).collect();
    let have: Vec<hastur::VariableName> = b.sensitivity().copied().collect();
    let mut n = 0;
    out.push_str(" depends on");
    for (name, id) in &ids {
        if have.contains(id) {
            n += 1;
            out.push(' ');
            out.push_str(name);
        }
    }
    if n != have.len() {
        out.push_str(&format!(" and {} others", have.len() - n));
    }
}

/// Everything that can be observed
fn record(s: &mut Sut, outcome: &str, words: &BTreeSet<String>, files: bool) -> String {
    let mut out = format!("{}\n", outcome);
    let ids: Vec<(String, hastur::VariableName)> = words.iter().filter_map(|w| s.names.variable_name(w).map(|v| (w.clone(), v))).collect();
    for (n, id) in &ids {
        let ast = match s.engine.database.get_variable(*id) {
            None => continue,
            Some(v) => v.ast().clone(),
        };
        out.push_str(&format!("variable {:?} ", n));
        write_ast(&s.names, &ast, files, &mut out);
        match s.eval_ast(&ast) {
            Ok(b) => {
                out.push_str(" is ");
                write_block(&s.names, &b, files, &mut out);
                write_deps(&s.names, words, &b, &mut out)
            }
            Err(p) => out.push_str(&format!(" panicked: {}", of_panic(p))),
        }
        out.push('\n');
    }
    let mut rules = vec![];
    let db = s.engine.database.clone();
    for r in db.rules() {
        let mut t = format!("rule for {:?} ", r.target().into_string());
        write_block(&s.names, r.target(), files, &mut t);
        write_deps(&s.names, words, r.target(), &mut t);
        t.push_str(&format!(" filed as {:?}", s.names.resolve_file_name(r.target_fname())));
        #[cfg(feature = "hooks")]
        t.push_str(&format!(" {:?}", r.verif_rule_type()));
        for d in r.dependencies() {
            t.push_str("\n  needs ");
            write_block(&s.names, d, files, &mut t);
            write_deps(&s.names, words, d, &mut t);
        }
        #[cfg(feature = "hooks")]
        for c in r.recipe().commands() {
            t.push_str("\n  command ");
            write_ast(&s.names, c.verif_unexpanded(), files, &mut t);
            match s.eval_ast(&c.verif_unexpanded().clone()) {
                Ok(b) => {
                    write_block(&s.names, &b, files, &mut t);
                    write_deps(&s.names, words, &b, &mut t)
                }
                Err(p) => t.push_str(&format!(" panicked: {}", of_panic(p))),
            }
        }
        t.push('\n');
        rules.push(t);
    }
    rules.sort();
    out + &rules.concat()
}

fn outcome<E: std::fmt::Debug>(r: Result<Result<(), E>, String>) -> String {
    match r {
        Ok(Ok(())) => "read".into(),
        Ok(Err(e)) => format!("failed: {:?}", e),
        Err(p) => format!("panicked: {}", of_panic(p)),
    }
}

fn read_through<R: BufRead>(s: &mut Sut, r: &mut R) -> String {
    outcome(guard(|| s.engine.read_makefile(&mut s.names, r, "main.mk")))
}

struct Formatter;
static FORMATTED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl log::Log for Formatter {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        use std::fmt::Write;
        /// Gives up on long messages
        struct Sink(usize);
        impl Write for Sink {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len();
                if self.0 > 100_000 {
                    return Err(std::fmt::Error);
                }
                Ok(())
            }
        }
        let _ = write!(Sink(0), "{}", r.args());
        FORMATTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    fn flush(&self) {}
}

fn differs(what: &str, a: &str, b: &str) -> Result<(), Bad> {
    if a == b {
        return Ok(());
    }
    let (mut x, mut y) = (a.lines(), b.lines());
    loop {
        let (l, r) = (x.next(), y.next());
        if l != r {
            return Err(format!("{}: {:?} instead of {:?}", what, r.unwrap_or("nothing more"), l.unwrap_or("nothing more")).into());
        }
    }
}

/// A program that is safe to expand
fn tame(src: &mut Src) -> Option<Prog> {
    let cfg = match src.below(3) {
        0 => Cfg { noise: 30, include: 2, ..BASE },
        1 => Cfg { crlf: true, define: 4, rule: 8, escapes: 20, ..BASE },
        _ => Cfg { refs: 70, subst: 30, ..BASE },
    };
    let mut p = program(src, cfg);
    if src.chance(1, 3) {
        mutate(src, &mut p.text);
        // Where statements start is no longer known
        p.starts.clear();
    }
    let mut m = Model::new();
    m.files = p.files.clone();
    let r = m.read(&p.text);
    if !judged(&r) {
        return None;
    }
    for n in names_of(&m) {
        match m.var_value(&n) {
            None => {}
            Some(Ok((v, _))) if v.len() < 5000 => {}
            _ => return None,
        }
    }
    for r in m.rules.values() {
        for c in &r.cmds {
            match m.value(&c.text) {
                Ok((v, _)) if v.len() < 5000 => {}
                _ => return None,
            }
        }
    }
    Some(p)
}

fn all_words(p: &Prog) -> BTreeSet<String> {
    let mut w = words(&p.text);
    for t in p.files.values() {
        w.extend(words(t));
    }
    w.extend(crate::gen::VARS.iter().map(|x| x.to_string()));
    w
}

fn pause(n: u64) {
    match n % 5 {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(std::time::Duration::from_micros(n % 90)),
        2 => (0..n % 3000).for_each(|_| std::hint::spin_loop()),
        _ => {}
    }
}

fn c14(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    fn sendable<T: Send + Sync>() {}
    sendable::<hastur::Engine>();
    sendable::<hastur::Database>();
    sendable::<NameCache>();
    sendable::<Block>();
    sendable::<AstNode>();

    let p = match tame(src) {
        Some(p) => p,
        None => return trivial(),
    };
    ctx.case = describe(&p.text, &p.files);
    let words = all_words(&p);
    put_files(ctx, &p.files);
    about_to_run(ctx);
    let dir = ctx.dir.clone();
    let read = |p: &Prog, words: &BTreeSet<String>| {
        let mut s = Sut::new(&dir);
        let o = read_through(&mut s, &mut p.text.as_bytes());
        (record(&mut s, &o, words, true), o)
    };
    let (first, o) = read(&p, &words);
    if o.starts_with("failed") {
        ctx.count("errors_compared", 1);
    }
    let mut runs = 0;
    for _ in 0..src.range(1, 3) {
        runs += 1;
        match src.below(9) {
            0 => differs("when it is read once more, it leads to", &first, &read(&p, &words).0)?,
            1 | 2 => {
                let interrupts = src.chance(1, 2);
                let mut r = Pieces::new(p.text.as_bytes(), src, interrupts);
                let mut s = Sut::new(&dir);
                let o = if src.chance(1, 2) {
                    read_through(&mut s, &mut r)
                } else {
                    let n = src.range(1, 9);
                    let mut b = std::io::BufReader::with_capacity(n, r);
                    let o = read_through(&mut s, &mut b);
                    r = b.into_inner();
                    o
                };
                ctx.count("chunked_readers", 1);
                ctx.count("interrupted_reads", r.interrupted);
                differs("through a reader that hands out small pieces it leads to", &first, &record(&mut s, &o, &words, true))?;
            }
            3 => {
                // Names that have been interned before
                let mut s = Sut::new(&dir);
                let mut all: Vec<&String> = words.iter().collect();
                let n = src.range(1, 30);
                for i in 0..n {
                    if src.chance(1, 3) {
                        s.names.intern_variable_name(format!("other{}", i));
                        s.names.intern_file_name(format!("other{}", i * 7));
                    } else if !all.is_empty() {
                        let k = src.below(all.len());
                        let w = all.swap_remove(k).clone();
                        if src.chance(1, 2) {
                            s.names.intern_variable_name(w);
                        } else {
                            s.names.intern_file_name(w);
                        }
                    }
                }
                ctx.count("names_interned_before", n as u64);
                let o = read_through(&mut s, &mut p.text.as_bytes());
                // Interned names nobody mentions have no values, so the record is the same
                differs("with a name cache that has been used it leads to", &first, &record(&mut s, &o, &words, true))?;
            }
            4 => {
                // Another engine with the same name cache, before and in between
                let q = match tame(src) {
                    Some(q) if q.files.is_empty() && p.files.is_empty() => q,
                    _ => continue,
                };
                let mut s = Sut::new(&dir);
                let mut other = crate::sut::engine_in(&dir);
                let mut parts: Vec<&str> = vec![];
                let mut last = 0;
                for (i, _) in &q.starts {
                    if q.text.is_char_boundary(*i) && *i > last && *i < q.text.len() {
                        parts.push(&q.text[last..*i]);
                        last = *i;
                    }
                }
                parts.push(&q.text[last..]);
                let half = parts.len() / 2;
                for (i, t) in parts.iter().enumerate() {
                    if i == half {
                        break;
                    }
                    let _ = guard(|| other.read_makefile(&mut s.names, &mut t.as_bytes(), "other.mk"));
                }
                let o = read_through(&mut s, &mut p.text.as_bytes());
                let half_way = other.database.clone();
                for t in &parts[half..] {
                    let _ = guard(|| other.read_makefile(&mut s.names, &mut t.as_bytes(), "other.mk"));
                }
                ctx.count("engines_interleaved", 1);
                drop(half_way);
                let words: BTreeSet<String> = words.union(&all_words(&q)).cloned().collect();
                differs("next to another engine it leads to", &read(&p, &words).0, &record(&mut s, &o, &words, true))?;
            }
            5 => {
                // As a block of pieces: places cannot be compared
                if p.text.is_empty() || !p.files.is_empty() {
                    continue;
                }
                let mut b = Block::default();
                let mut rest = &p.text[..];
                while !rest.is_empty() {
                    let k = cut(rest, src.below(rest.len().min(30)) + 1).max(rest.chars().next().unwrap().len_utf8());
                    b.push(hastur::evaluated::constant(hastur::source_location::LocatedString::synthetic_new(&rest[..k])));
                    rest = &rest[k..];
                }
                let mut s = Sut::new(&dir);
                let o = outcome(guard(|| s.engine.process_block(&mut s.names, &b)));
                let mut t = Sut::new(&dir);
                let mut whole = Block::default();
                whole.push(hastur::evaluated::constant(hastur::source_location::LocatedString::synthetic_new(&p.text[..])));
                let u = outcome(guard(|| t.engine.process_block(&mut t.names, &whole)));
                ctx.count("blocks_in_pieces", 1);
                // How text is divided into nodes may differ, what it says may not
                differs("as a block of pieces it leads to", &flat(&mut t, &u, &words), &flat(&mut s, &o, &words))?;
                differs("as a block it leads to", &flat_of(&dir, &p, &words), &flat(&mut t, &u, &words))?;
            }
            6 => {
                static ONCE: std::sync::Once = std::sync::Once::new();
                ONCE.call_once(|| {
                    let _ = log::set_logger(&Formatter);
                });
                if p.text.len() > 1500 {
                    continue;
                }
                let before = FORMATTED.load(std::sync::atomic::Ordering::Relaxed);
                log::set_max_level(log::LevelFilter::Trace);
                let again = read(&p, &words).0;
                log::set_max_level(log::LevelFilter::Off);
                ctx.count("log_messages_formatted", FORMATTED.load(std::sync::atomic::Ordering::Relaxed) - before);
                differs("with log messages being written it leads to", &first, &again)?;
            }
            7 => {
                // Each thread with a program of its own, two with the same
                let mut progs: Vec<Arc<(Prog, BTreeSet<String>)>> = vec![];
                let p2 = Prog { text: p.text.clone(), canon: String::new(), files: p.files.clone(), starts: vec![] };
                let mine = Arc::new((p2, words.clone()));
                progs.push(mine.clone());
                progs.push(mine);
                for _ in 0..src.range(1, 2) {
                    if let Some(q) = tame(src) {
                        if q.files.is_empty() {
                            let w = all_words(&q);
                            progs.push(Arc::new((q, w)));
                        }
                    }
                }
                let alone: Vec<String> = progs.iter().map(|x| read(&x.0, &x.1).0).collect();
                let delay = src.below(1000) as u64;
                let go = Arc::new(std::sync::Barrier::new(progs.len()));
                let handles: Vec<_> = progs
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let (x, dir, go) = (x.clone(), dir.clone(), go.clone());
                        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                            go.wait();
                            pause(delay + i as u64);
                            let mut s = Sut::new(&dir);
                            let o = read_through(&mut s, &mut x.0.text.as_bytes());
                            pause(delay / 3 + i as u64);
                            record(&mut s, &o, &x.1, true)
                        }).unwrap()
                    })
                    .collect();
                let got: Vec<Result<String, _>> = handles.into_iter().map(|h| h.join()).collect();
                for (a, g) in alone.iter().zip(got) {
                    ctx.count("runs_in_threads", 1);
                    match g {
                        Ok(g) => differs("in a thread among others it leads to", a, &g)?,
                        Err(_) => return Err("a thread panicked".to_string().into()),
                    }
                }
            }
            _ => {
                // Read here, expanded there, by several at the same time
                let mut s = Sut::new(&dir);
                let o = read_through(&mut s, &mut p.text.as_bytes());
                let n = src.range(1, 3);
                let delay = src.below(1000) as u64;
                let go = Arc::new(std::sync::Barrier::new(n));
                // A name cache cannot be copied: each has its own, filled in the same way,
                // but the values are shared
                let handles: Vec<_> = (0..n)
                    .map(|i| {
                        let mut t = Sut::new(&dir);
                        let _ = read_through(&mut t, &mut p.text.as_bytes());
                        t.engine.replace_database(s.engine.database.clone());
                        let (go, words, o) = (go.clone(), words.clone(), o.clone());
                        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                            go.wait();
                            pause(delay + i as u64 * 7);
                            record(&mut t, &o, &words, true)
                        }).unwrap()
                    })
                    .collect();
                let mine = if src.chance(1, 2) { Some(record(&mut s, &o, &words, true)) } else { None };
                let got: Vec<Result<String, _>> = handles.into_iter().map(|h| h.join()).collect();
                for g in got {
                    ctx.count("handed_to_another_thread", 1);
                    match g {
                        Ok(g) => differs("expanded in another thread it leads to", &first, &g)?,
                        Err(_) => return Err("a thread panicked".to_string().into()),
                    }
                }
                if let Some(m) = mine {
                    differs("expanded while other threads do the same it leads to", &first, &m)?;
                }
            }
        }
    }
    ctx.count("runs_compared", runs);
    ctx.count("records_lines", first.lines().count() as u64);
    if first.lines().count() < 10 {
        return trivial();
    }
    pass(&ctx.case)
}

/// What a record says, without places and nodes
fn flat(s: &mut Sut, o: &str, words: &BTreeSet<String>) -> String {
    let mut out = format!("{}\n", o);
    for w in words {
        if let Some(b) = s.var_block(w) {
            match b {
                Ok(b) => out.push_str(&format!("variable {:?} is {:?}\n", w, b.into_string())),
                Err(p) => out.push_str(&format!("variable {:?} panicked: {}\n", w, of_panic(p))),
            }
        }
    }
    let mut rules: Vec<String> = vec![];
    let all: Vec<hastur::Rule> = s.engine.database.rules().cloned().collect();
    for r in &all {
        rules.push(match s.rule_of(r) {
            Ok(x) => format!("rule for {:?}: {:?}\n", r.target().into_string(), x),
            Err(p) => format!("rule panicked: {}\n", of_panic(p)),
        });
    }
    rules.sort();
    out + &rules.concat()
}

fn flat_of(dir: &std::path::Path, p: &Prog, words: &BTreeSet<String>) -> String {
    let mut s = Sut::new(dir);
    let o = read_through(&mut s, &mut p.text.as_bytes());
    flat(&mut s, &o, words)
}
