//! The building blocks: names, locations, evaluated text, syntax trees
use super::*;
use crate::sut::{place, Place};
use hastur::evaluated::{self, Block, BlockSpan, ContentReference, EvaluatedNode};
use hastur::source_location::{Located, LocatedString, Location};
use hastur::{Engine, FileName, NameCache, VariableName};
use nom::types::CompleteStr;
use nom::{Compare, FindSubstring, InputIter, InputLength, InputTake, InputTakeAtPosition, Offset, Slice};
use std::collections::BTreeSet;
use std::sync::Arc;

macro_rules! bad {
    ($($a:tt)*) => { return Err(format!($($a)*).into()) };
}

// ------------------------------------------------------------------ C15

pub const C15: Check = Check {
    id: "C15",
    run: c15,
    quick: 60_000,
    thorough: 2_000_000,
    rule: "Random histories of interning, looking up and resolving variable and file names (empty, equal but for case or a blank, long, non ASCII, hundreds of them), over several caches, copies of them, and makefiles read in between; compared after each step with plain maps. Non trivial: at least five names were interned.",
    assumptions: &["identifiers are compared within one cache and its copies only"],
    must_see: &["names_interned", "identifiers_compared", "names_resolved", "absent_names_looked_up", "caches_copied"],
    known: no_known,
    known_crash: no_crash,
};

struct Cache {
    real: NameCache,
    vars: BTreeMap<String, VariableName>,
    files: BTreeMap<String, FileName>,
}

fn a_name(src: &mut Src) -> String {
    let mut s = String::new();
    match src.below(10) {
        0 => {}
        1 => {
            let n = src.range(50, 300);
            let c = src.pick_of(&['x', 'é', '日']);
            for _ in 0..n {
                s.push(c);
            }
        }
        2 => s = format!("n{}", src.below(400)),
        _ => {
            let n = src.range(1, 3);
            for _ in 0..n {
                s.push_str(src.pick(&["a", "A", "b", " ", "\t", "é", "e\u{301}", "日本", "/", "./", ".o", "%", "\u{0}", "\n", "$", "a.c", "😀"]));
            }
        }
    }
    s
}

fn c15(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut caches = vec![Cache { real: NameCache::default(), vars: BTreeMap::new(), files: BTreeMap::new() }];
    let n = if src.chance(1, 12) { src.range(100, 700) } else { src.range(5, 40) };
    let mut key = String::new();
    let mut interned = 0;
    ctx.case.clear();
    for _ in 0..n {
        let i = src.below(caches.len());
        let op = src.weighted(&[5, 5, 4, 4, 1, 1, 1]);
        let name = a_name(src);
        key.push_str(&format!("{} {} {:?}\n", i, op, name));
        let c = &mut caches[i];
        match op {
            0 => {
                let id = c.real.intern_variable_name(name.clone());
                interned += 1;
                ctx.count("names_interned", 1);
                for (n, v) in &c.vars {
                    if (*n == name) != (*v == id) {
                        ctx.case = key;
                        bad!("the variable names {:?} and {:?} have {} identifiers", n, name, if *v == id { "equal" } else { "different" });
                    }
                    ctx.count("identifiers_compared", 1);
                }
                c.vars.insert(name, id);
            }
            1 => {
                let id = c.real.intern_file_name(name.clone());
                interned += 1;
                ctx.count("names_interned", 1);
                for (n, v) in &c.files {
                    if (*n == name) != (*v == id) {
                        ctx.case = key;
                        bad!("the file names {:?} and {:?} have {} identifiers", n, name, if *v == id { "equal" } else { "different" });
                    }
                    ctx.count("identifiers_compared", 1);
                }
                c.files.insert(name, id);
            }
            2 => {
                let want = c.vars.get(&name).copied();
                if c.real.variable_name(&name) != want {
                    ctx.case = key;
                    bad!("looking up the variable name {:?} gives {:?}, should give {:?}", name, c.real.variable_name(&name), want);
                }
                if want.is_none() {
                    ctx.count("absent_names_looked_up", 1);
                }
            }
            3 => {
                let want = c.files.get(&name).copied();
                if c.real.file_name(&name) != want {
                    ctx.case = key;
                    bad!("looking up the file name {:?} gives {:?}, should give {:?}", name, c.real.file_name(&name), want);
                }
                if want.is_none() {
                    ctx.count("absent_names_looked_up", 1);
                }
            }
            4 => {
                if caches.len() < 4 {
                    let c = &caches[i];
                    let d = Cache { real: c.real.clone(), vars: c.vars.clone(), files: c.files.clone() };
                    caches.push(d);
                    ctx.count("caches_copied", 1);
                }
            }
            5 => {
                if caches.len() < 4 {
                    caches.push(Cache { real: NameCache::default(), vars: BTreeMap::new(), files: BTreeMap::new() });
                }
            }
            _ => {
                // A makefile interns names, too. What it interned is found out afterwards.
                let v = src.pick(&["a", "A", "MK", "日本", "a.c"]);
                let w = src.pick(&["b", "W", "é"]);
                let f = src.pick(&["m.mk", "a", "日本", "a.c"]);
                let text = format!("{} = $({})\n{}: {} other\nX := $({})\n", v, w, f, w, v);
                let mut e = sut::engine_in(&ctx.dir);
                if let Ok(Err(x)) = guard(|| e.read_makefile(&mut c.real, &mut text.as_bytes(), f)) {
                    bad!("{:?}", x);
                }
                for n in [v, w, "X"].iter() {
                    match c.real.variable_name(n) {
                        Some(id) => {
                            if c.vars.get(*n).map_or(false, |x| *x != id) {
                                ctx.case = key;
                                bad!("reading a makefile changed the identifier of {:?}", n);
                            }
                            if c.vars.iter().any(|(o, x)| o != n && *x == id) {
                                ctx.case = key;
                                bad!("{:?} shares its identifier", n);
                            }
                            c.vars.insert(n.to_string(), id);
                        }
                        None => {
                            if *n != w {
                                ctx.case = key;
                                bad!("the variable {:?} is assigned to but not interned", n)
                            }
                        }
                    }
                }
                for n in [f, w, "other"].iter() {
                    if let Some(id) = c.real.file_name(n) {
                        if c.files.get(*n).map_or(false, |x| *x != id) || c.files.iter().any(|(o, x)| o != n && *x == id) {
                            ctx.case = key;
                            bad!("reading a makefile changed the identifier of {:?}", n);
                        }
                        c.files.insert(n.to_string(), id);
                    }
                }
                ctx.count("makefiles_read", 1);
            }
        }
    }
    ctx.case = key.clone();
    for c in &caches {
        for (n, id) in &c.files {
            ctx.count("names_resolved", 1);
            if c.real.resolve_file_name(*id) != Some(&n[..]) {
                bad!("{:?} resolves to {:?}", n, c.real.resolve_file_name(*id));
            }
            if c.real.file_name(n) != Some(*id) {
                bad!("{:?} has another identifier now", n);
            }
        }
        for (n, id) in &c.vars {
            if c.real.variable_name(n) != Some(*id) {
                bad!("{:?} has another identifier now", n);
            }
        }
    }
    if interned < 5 {
        return trivial();
    }
    pass(&key)
}

// ------------------------------------------------------------------ text

/// A character and where it comes from
type Tagged = (char, Place);

fn text_of(t: &[Tagged]) -> String {
    t.iter().map(|x| x.0).collect()
}

/// Real source text, as located strings
struct Base {
    names: NameCache,
    engine: Engine,
    strings: Vec<(LocatedString, Vec<Tagged>)>,
    ids: Vec<VariableName>,
}

const ATOMS: &[&str] = &["a", "b", "ab", "A", "B", " ", "\t", ".c", ".o", "%", "é", "É", "日", "日本", "😀", "x", "\\", ":", "=", "ab", "aab", "#", "ß", "\u{b}", "\u{2028}", "\u{c}", "\u{212a}", "İ"];

fn atoms(src: &mut Src, lo: usize, hi: usize) -> String {
    let n = src.range(lo, hi);
    (0..n).map(|_| src.pick(ATOMS)).collect()
}

fn tagged(text: &str, file: &str, line: u32, character: u32) -> Vec<Tagged> {
    let (mut l, mut c) = (line, character);
    let mut out = vec![];
    for ch in text.chars() {
        out.push((ch, Place::File(file.to_string(), l, c)));
        if ch == '\n' {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    out
}

fn tagged_eval(text: &str, whole: &str, line: u32, character: u32) -> Vec<Tagged> {
    tagged(text, whole, line, character)
        .into_iter()
        .map(|(c, p)| match p {
            Place::File(f, l, k) => (c, Place::Eval(f, l, k)),
            p => (c, p),
        })
        .collect()
}

fn base(src: &mut Src, ctx: &Ctx) -> Result<Base, Bad> {
    let mut engine = sut::engine_in(&ctx.dir);
    let mut names = NameCache::default();
    let mut strings = vec![];
    let ids = ["A", "B", "C", "D", "E"].iter().map(|n| names.intern_variable_name(n.to_string())).collect();
    let k = src.range(1, 3);
    for f in 0..k {
        let file = format!("f{}.mk", f);
        let mut text = String::new();
        let mut wanted = vec![];
        let mut line = 1;
        let n = src.range(1, 3);
        for i in 0..n {
            let body: String = atoms(src, 1, 6).chars().filter(|c| !"\\#".contains(*c)).collect();
            let body = format!("<{}>", body);
            if src.chance(1, 2) {
                let pad = src.pick(&["", "  ", "\t"]);
                let l = format!("V{}{}={}{}\n", f, i, pad, body);
                let skip = (l.chars().count() - body.chars().count()) as u32;
                wanted.push((format!("V{}{}", f, i), tagged(&body, &file, line, skip)));
                text.push_str(&l);
                line += 1;
            } else {
                // A definition: constants with line ends
                let more: String = atoms(src, 0, 3).chars().filter(|c| !"\\#".contains(*c)).collect();
                text.push_str(&format!("define V{}{}\n{}\n{}.\nendef\n", f, i, body, more));
                wanted.push((format!("V{}{}", f, i), tagged(&format!("{}\n{}.\n", body, more), &file, line + 1, 1)));
                line += 4;
            }
        }
        #[cfg(feature = "hooks")]
        {
            // A command of several lines
            let a: String = atoms(src, 1, 4).chars().filter(|c| !"\\#:=".contains(*c)).collect();
            let b: String = atoms(src, 1, 4).chars().filter(|c| !"\\#:=".contains(*c)).collect();
            let cmd = format!("<{}\\\n\t{}>", a, b);
            text.push_str(&format!("t{}:\n\t{}\n", f, cmd));
            wanted.push((format!("t{}", f), tagged(&cmd, &file, line + 1, 2)));
        }
        match guard(|| engine.read_makefile(&mut names, &mut text.as_bytes(), &file)) {
            Ok(Ok(())) => {}
            x => bad!("{:?} on {:?}", x, text),
        }
        for (v, mut t) in wanted {
            let block = if v.starts_with('t') {
                #[cfg(feature = "hooks")]
                {
                    let id = names.file_name(&v).ok_or_else(|| format!("{:?} is not interned", v))?;
                    let r = engine.database.get_rule(id).ok_or_else(|| format!("no rule for {:?}", v))?;
                    let cmd = r.recipe().commands().get(0).ok_or_else(|| "no command".to_string())?;
                    let a = cmd.verif_unexpanded().clone();
                    a.eval(&mut names, &mut engine)
                }
                #[cfg(not(feature = "hooks"))]
                unreachable!()
            } else {
                let id = names.variable_name(&v).ok_or_else(|| format!("{:?} is not interned", v))?;
                let a = engine.database.get_variable(id).ok_or_else(|| format!("no variable {:?}", v))?.ast().clone();
                a.eval(&mut names, &mut engine)
            };
            for s in block.span().segments() {
                let s: LocatedString = s.into();
                let n = s.chars().count();
                // Anything that does not agree is for C07 to say
                if n > t.len() || text_of(&t[..n]) != **s {
                    break;
                }
                let tags: Vec<Tagged> = t.drain(..n).collect();
                if place(&names, s.location()) != tags[0].1 {
                    break;
                }
                strings.push((s, tags));
            }
        }
    }
    #[cfg(feature = "hooks")]
    {
        // Several lines at once, and text that came out of an expansion
        let mut file = Block::default();
        file.push(evaluated::constant(LocatedString::synthetic_new("text")));
        let file = Arc::new(file);
        for _ in 0..src.range(1, 3) {
            let n = src.range(1, 3);
            let text = (0..n).map(|_| atoms(src, 0, 3)).collect::<Vec<_>>().join("\n") + src.pick(&["", "\n", "."]);
            if text.is_empty() {
                continue;
            }
            let (line, character) = (src.range(1, 20) as u32, src.range(1, 20) as u32);
            if src.chance(1, 3) {
                let s = LocatedString::verif_new(Location::EvalLocation { tree_node: file.clone(), line, character }, text.clone());
                strings.push((s, tagged_eval(&text, "text", line, character)));
            } else {
                let filename = names.intern_file_name("f0.mk".into());
                let s = LocatedString::verif_new(Location::SourceLocation { filename, line, character }, text.clone());
                strings.push((s, tagged(&text, "f0.mk", line, character)));
            }
        }
    }
    Ok(Base { names, engine, strings, ids })
}

fn boundaries(t: &[Tagged]) -> Vec<usize> {
    let mut v = vec![0];
    let mut p = 0;
    for (c, _) in t {
        p += c.len_utf8();
        v.push(p);
    }
    v
}

struct Piece {
    block: Arc<Block>,
    tags: Vec<Tagged>,
    sens: BTreeSet<VariableName>,
}

/// A piece of text to refer to, and what it reads
fn reference(src: &mut Src, b: &Base, pool: &[Piece]) -> (ContentReference, Vec<Tagged>) {
    let node: (Arc<EvaluatedNode>, Vec<Tagged>) = match src.below(if pool.is_empty() { 3 } else { 8 }) {
        0 => {
            let least = if src.chance(1, 10) { 0 } else { 1 };
            let t = atoms(src, least, 5);
            let tags = t.chars().map(|c| (c, Place::Synthetic)).collect();
            (Arc::new(EvaluatedNode::Constant(LocatedString::synthetic_new(t))), tags)
        }
        1 if !b.strings.is_empty() => {
            let (s, tags) = src.pick_of(&b.strings);
            (Arc::new(EvaluatedNode::Constant(s)), tags)
        }
        2 | 1 => {
            let (r, c) = match src.below(3) {
                0 => (ContentReference::space(), ' '),
                1 => (ContentReference::newline(), '\n'),
                _ => (ContentReference::semicolon(), ';'),
            };
            return (r, vec![(c, Place::Synthetic)]);
        }
        k => {
            let p = &pool[src.below(pool.len())];
            let q = &pool[src.below(pool.len())];
            let o = &pool[src.below(pool.len())];
            let helper = src.chance(1, 2);
            let name = Arc::clone(&q.block);
            let value = Arc::clone(&p.block);
            let node = match k {
                3 | 4 => {
                    if helper {
                        return (evaluated::concat(value), p.tags.clone());
                    }
                    EvaluatedNode::Concat(value)
                }
                5 | 6 => {
                    if helper {
                        return (evaluated::variable_reference(name, value), p.tags.clone());
                    }
                    EvaluatedNode::VariableReference(hastur::evaluated::VariableReference::new(name, value))
                }
                _ => {
                    let key = Arc::clone(&o.block);
                    if helper {
                        return (evaluated::substitution_reference(name, key, q.block.clone(), value), p.tags.clone());
                    }
                    EvaluatedNode::SubstitutionReference(hastur::evaluated::SubstitutionReference::new(name, key, q.block.clone(), value))
                }
            };
            (Arc::new(node), p.tags.clone())
        }
    };
    let (node, tags) = node;
    if !tags.is_empty() && src.chance(1, 2) {
        let i = src.below(tags.len());
        let j = src.range(i, tags.len());
        let at = boundaries(&tags);
        return (ContentReference::new_from_node_slice(node, at[i], at[j] - at[i]), tags[i..j].to_vec());
    }
    (ContentReference::new_from_node(node), tags)
}

/// A part of a span, by one of the ways there are
fn part<'a>(src: &mut Src, s: BlockSpan<'a>, tags: &[Tagged]) -> (BlockSpan<'a>, Vec<Tagged>) {
    let at = boundaries(tags);
    let i = src.below(tags.len() + 1);
    let j = src.range(i, tags.len());
    match src.below(6) {
        0 => (s.slice(at[i]..at[j]), tags[i..j].to_vec()),
        1 => (s.slice(at[i]..), tags[i..].to_vec()),
        2 => (s.slice(..at[j]), tags[..j].to_vec()),
        3 => (s.take(at[j]), tags[..j].to_vec()),
        4 => (s.take_split(at[i]).0, tags[i..].to_vec()),
        _ => (s.take_split(at[i]).1, tags[..i].to_vec()),
    }
}

fn observe(ctx: &mut Ctx, b: &Base, s: &BlockSpan, tags: &[Tagged]) -> Result<(), String> {
    let want = text_of(tags);
    let got = guard(|| s.into_string())?;
    if got != want {
        return Err(format!("the text is {:?}, should be {:?}", got, want));
    }
    if s.len() != want.len() || s.input_len() != want.len() {
        return Err(format!("the length of {:?} is {}, should be {}", want, s.len(), want.len()));
    }
    let got: String = guard(|| s.chars().collect())?;
    if got != want {
        return Err(format!("the characters are {:?}, should be {:?}", got, want));
    }
    let got: Vec<(usize, char)> = guard(|| s.char_indices().collect())?;
    if got != want.char_indices().collect::<Vec<_>>() {
        return Err(format!("the character indices of {:?} are {:?}", want, got));
    }
    ctx.count("characters_read", tags.len() as u64);
    // Segments: together the text, each at its place
    let segs: Vec<_> = guard(|| s.segments().collect::<Vec<_>>())?;
    let mut k = 0;
    for g in &segs {
        if g.is_empty() {
            return Err(format!("an empty segment in {:?}", want));
        }
        let mut at = tagged(&g, "", 1, 1);
        match place(&b.names, g.location()) {
            Place::File(f, l, c) => at = tagged(&g, &f, l, c),
            Place::Eval(f, l, c) => at = tagged_eval(&g, &f, l, c),
            p => {
                for x in at.iter_mut() {
                    x.1 = p.clone();
                }
            }
        }
        let n = at.len();
        if k + n > tags.len() || at[..] != tags[k..k + n] {
            return Err(format!("the segment {:?} should be {:?}", at, &tags[k..(k + n).min(tags.len())]));
        }
        k += n;
        ctx.count("segments_read", 1);
    }
    if k != tags.len() {
        return Err(format!("the segments of {:?} end early", want));
    }
    let loc = guard(|| s.location())?.map(|l| place(&b.names, &l));
    if loc != tags.get(0).map(|t| t.1.clone()) {
        return Err(format!("the location of {:?} is {:?}", want, loc));
    }
    Ok(())
}

fn observe_block(ctx: &mut Ctx, b: &Base, p: &Piece) -> Result<(), String> {
    let want = text_of(&p.tags);
    let got = guard(|| p.block.into_string())?;
    if got != want || p.block.len() != want.len() {
        return Err(format!("the block reads {:?} (length {}), should read {:?}", got, p.block.len(), want));
    }
    let s: BTreeSet<VariableName> = p.block.sensitivity().copied().collect();
    if s != p.sens {
        return Err(format!("the block {:?} depends on {:?}, should depend on {:?}", want, s, p.sens));
    }
    let mut whole = String::new();
    for r in p.block.content() {
        let c: String = r.chars().collect();
        let i: String = r.char_indices().map(|x| x.1).collect();
        let g: String = r.segments().map(|x| x.to_string()).collect();
        let before = whole.len();
        r.append_to_string(&mut whole);
        if c != whole[before..] || i != c || g != c {
            return Err(format!("a reference reads {:?}, {:?}, {:?} and {:?}", c, i, g, &whole[before..]));
        }
        let mut pos = 0;
        for (o, ch) in r.char_indices() {
            if o != pos {
                return Err(format!("the indices of {:?} are wrong", c));
            }
            pos += ch.len_utf8();
        }
    }
    if whole != want {
        return Err(format!("the references of {:?} read {:?}", want, whole));
    }
    observe(ctx, b, &p.block.span(), &p.tags)
}

pub const C16: Check = Check {
    id: "C16",
    run: c16,
    quick: 120_000,
    thorough: 3_000_000,
    rule: "Random histories building evaluated text (constants with real and synthetic locations, several lines, non ASCII; concatenations, variable and substitution references, slices of any of them; push, push_all_contents, copies, slices of slices), each shadowed by a list of characters with their places. Text, length, characters, indices, segments, locations, references and dependencies are compared after each step, and again for everything older at the end. Non trivial: at least three blocks, one of them nested.",
    assumptions: &["offsets are on character boundaries, as for strings"],
    must_see: &["characters_read", "segments_read", "slices", "blocks_rechecked"],
    known: no_known,
    known_crash: no_crash,
};

fn build(src: &mut Src, ctx: &mut Ctx, b: &Base, steps: usize, log: &mut String) -> Result<Vec<Piece>, Bad> {
    let mut pool: Vec<Piece> = vec![];
    // Blocks that depend on something come from expansions
    for v in ["A", "B", "C"].iter().take(src.range(0, 3)) {
        let t = atoms(src, 0, 3);
        let name = LocatedString::synthetic_new(*v);
        let node = hastur::ast::collapsing_concat(
            Location::Synthetic,
            vec![
                hastur::ast::variable_reference(Location::Synthetic, hastur::ast::constant(name)),
                hastur::ast::constant(LocatedString::synthetic_new(format!("{}!", t))),
            ],
        );
        let mut names = b.names.clone();
        let mut e = sut::engine_in(&ctx.dir);
        e.database = b.engine.database.clone();
        let block = node.eval(&mut names, &mut e);
        let mut sens = BTreeSet::new();
        sens.insert(names.variable_name(v).unwrap());
        let tags = format!("{}!", t).chars().map(|c| (c, Place::Synthetic)).collect();
        log.push_str(&format!("block {}: expansion {:?}\n", pool.len(), t));
        pool.push(Piece { block, tags, sens });
    }
    for _ in 0..steps {
        let k = pool.len();
        let p = match src.below(if pool.is_empty() { 2 } else { 6 }) {
            0 | 1 | 2 => {
                let mut block = Block::default();
                let mut tags = vec![];
                let n = src.range(0, 4);
                for _ in 0..n {
                    let (r, t) = reference(src, b, &pool);
                    block.push(r);
                    tags.extend(t);
                }
                log.push_str(&format!("block {}: pushed {:?}\n", k, text_of(&tags)));
                Piece { block: Arc::new(block), tags, sens: BTreeSet::new() }
            }
            3 => {
                // Copy of a slice
                let p = &pool[src.below(k)];
                let (mut s, mut t) = (p.block.span(), p.tags.clone());
                for _ in 0..src.range(0, 3) {
                    let (a, c) = part(src, s, &t);
                    s = a;
                    t = c;
                    ctx.count("slices", 1);
                }
                observe(ctx, b, &s, &t)?;
                log.push_str(&format!("block {}: copy {:?}\n", k, text_of(&t)));
                Piece { block: s.to_new_block(), tags: t, sens: p.sens.clone() }
            }
            4 => {
                let p = &pool[src.below(k)];
                let (s, t) = part(src, p.block.span(), &p.tags);
                let r = s.to_content_reference();
                let mut block = Block::default();
                block.push(r);
                log.push_str(&format!("block {}: to_content_reference {:?}\n", k, text_of(&t)));
                Piece { block: Arc::new(block), tags: t, sens: BTreeSet::new() }
            }
            _ => {
                // Slices of others pushed behind a copy
                let p = &pool[src.below(k)];
                let mut block = (*p.block).clone();
                let mut tags = p.tags.clone();
                let mut sens = p.sens.clone();
                for _ in 0..src.range(1, 3) {
                    let q = &pool[src.below(k)];
                    let (mut s, mut t) = (q.block.span(), q.tags.clone());
                    for _ in 0..src.range(0, 2) {
                        let (a, c) = part(src, s, &t);
                        s = a;
                        t = c;
                        ctx.count("slices", 1);
                    }
                    block.push_all_contents(s);
                    tags.extend(t);
                    sens.extend(q.sens.iter().copied());
                }
                log.push_str(&format!("block {}: concatenation {:?}\n", k, text_of(&tags)));
                Piece { block: Arc::new(block), tags, sens }
            }
        };
        if p.tags.len() > 300 {
            continue;
        }
        ctx.case = log.clone();
        observe_block(ctx, b, &p)?;
        pool.push(p);
    }
    Ok(pool)
}

fn c16(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let b = base(src, ctx)?;
    let mut log = String::new();
    let steps = src.range(3, 10);
    let pool = build(src, ctx, &b, steps, &mut log)?;
    ctx.case = log.clone();
    // Nothing that came later changed what was there
    for p in &pool {
        observe_block(ctx, &b, p)?;
        ctx.count("blocks_rechecked", 1);
    }
    if pool.len() < 3 {
        return trivial();
    }
    pass(&log)
}

// ------------------------------------------------------------------ C17

pub const C17: Check = Check {
    id: "C17",
    run: c17,
    quick: 120_000,
    thorough: 3_000_000,
    rule: "Random evaluated text made of several pieces (see C16), paired with the string it stands for; random histories of nom operations (slice, take, take_split, split_at_position(1), position, slice_index, compare with and without case, find_substring, offset, iteration, and the parsers tag, take_until, take_while, is_not, recognize built on them) are applied to both, with nom's own CompleteStr as the oracle, and results are operated on further. Non trivial: a span over at least two pieces.",
    assumptions: &["nom's operations on CompleteStr are right", "letters whose lower case has another length are left out of caseless comparison"],
    must_see: &["operations", "splits", "comparisons", "searches", "offsets", "parsers"],
    known: no_known,
    known_crash: no_crash,
};

#[derive(Clone)]
struct Pair<'a> {
    span: BlockSpan<'a>,
    text: &'a str,
    /// Those it was derived from
    from: Vec<usize>,
}

fn needle(src: &mut Src, text: &str) -> String {
    let cs: Vec<char> = text.chars().collect();
    if !cs.is_empty() && src.chance(2, 3) {
        let i = src.below(cs.len());
        let j = src.range(i, cs.len().min(i + 5));
        let mut s: String = cs[i..j].iter().collect();
        match src.below(8) {
            0 => s.push('z'),
            1 => s = s.to_uppercase(),
            2 => s.insert(0, 'a'),
            _ => {}
        }
        s
    } else {
        atoms(src, 0, 3)
    }
}

fn c17(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let b = base(src, ctx)?;
    let mut log = String::new();
    let n = src.range(2, 7);
    let pool = build(src, ctx, &b, n, &mut log)?;
    if pool.is_empty() {
        return trivial();
    }
    // Prefer one with several pieces
    let mut which = src.below(pool.len());
    for _ in 0..3 {
        if pool[which].block.content().count() > 1 {
            break;
        }
        which = src.below(pool.len());
    }
    let p = &pool[which];
    let text = text_of(&p.tags);
    let mut pairs = vec![Pair { span: p.block.span(), text: &text, from: vec![0] }];
    log.push_str(&format!("span: {:?}\n", text));
    let n = src.range(5, 25);
    for _ in 0..n {
        let k = src.below(pairs.len());
        let a = pairs[k].clone();
        let (s, t) = (a.span, CompleteStr(a.text));
        let idx: Vec<usize> = a.text.char_indices().map(|x| x.0).chain(std::iter::once(a.text.len())).collect();
        let i = src.pick_of(&idx);
        let j = src.pick_of(&idx);
        let (i, j) = (i.min(j), i.max(j));
        let stop = src.pick(ATOMS).chars().next().unwrap();
        let inv = src.chance(1, 4);
        let pred = |c: char| (c == stop) != inv;
        let nd = needle(src, a.text);
        let op = src.below(21);
        log.push_str(&format!("operation {} on {:?} with {}..{} {:?} {} {:?}\n", op, a.text, i, j, stop, inv, nd));
        ctx.case = log.clone();
        ctx.count("operations", 1);
        let mut got: Vec<BlockSpan> = vec![];
        let mut want: Vec<CompleteStr> = vec![];
        macro_rules! same {
            ($x:expr, $y:expr) => {{
                let x = guard(|| $x)?;
                let y = $y;
                if x != y {
                    bad!("{} gives {:?}, should give {:?}", stringify!($x), x, y);
                }
            }};
        }
        macro_rules! both {
            ($x:expr, $y:expr) => {{
                got.push(guard(|| $x)?);
                want.push($y);
            }};
        }
        macro_rules! parse {
            ($f:ident) => {{
                ctx.count("parsers", 1);
                let x = guard(|| $f(s, stop, &nd, j - i))?;
                let y = $f(t, stop, &nd, j - i);
                match (x, y) {
                    (Ok((r, o)), Ok((r2, o2))) => {
                        both!(r, r2);
                        both!(o, o2);
                    }
                    (Err(_), Err(_)) => {}
                    (x, y) => bad!("the parser {} gives {:?}, should give {:?}", stringify!($f), x.map(|v| v.1.into_string()).map_err(|_| ()), y.map(|v| v.1).map_err(|_| ())),
                }
            }};
        }
        match op {
            0 => both!(s.slice(i..), t.slice(i..)),
            1 => both!(s.slice(..j), t.slice(..j)),
            2 => both!(s.slice(i..j), t.slice(i..j)),
            3 => both!(s.take(i), t.take(i)),
            4 => {
                let x = guard(|| s.take_split(i))?;
                let y = t.take_split(i);
                both!(x.0, y.0);
                both!(x.1, y.1);
            }
            5 | 6 => {
                ctx.count("splits", 1);
                let x = guard(|| s.split_at_position(pred))?;
                let y = t.split_at_position(pred);
                match (x, y) {
                    (Ok(x), Ok(y)) => {
                        both!(x.0, y.0);
                        both!(x.1, y.1);
                    }
                    (x, y) => {
                        if x.is_ok() != y.is_ok() {
                            bad!("split_at_position: {} but should be {}", x.is_ok(), y.is_ok())
                        }
                    }
                }
            }
            7 | 8 => {
                ctx.count("splits", 1);
                let e = nom::ErrorKind::Custom(7u32);
                let x = guard(|| s.split_at_position1(pred, e.clone()))?;
                let y = t.split_at_position1(pred, e);
                match (x, y) {
                    (Ok(x), Ok(y)) => {
                        both!(x.0, y.0);
                        both!(x.1, y.1);
                    }
                    (Err(nom::Err::Error(_)), Err(nom::Err::Error(_))) => {}
                    (x, y) => bad!("split_at_position1 {:?}, should be {:?}", x.map(|v| v.1.into_string()).map_err(|_| ()), y.map(|v| v.1).map_err(|_| ())),
                }
            }
            9 => same!(s.position(pred), t.position(pred)),
            10 => {
                let c = src.below(a.text.chars().count() + 3);
                same!(s.slice_index(c), t.slice_index(c))
            }
            11 => {
                ctx.count("comparisons", 1);
                let x = guard(|| format!("{:?}", s.compare(&nd[..])))?;
                let y = format!("{:?}", t.compare(&nd[..]));
                if x != y {
                    bad!("comparing with {:?} gives {}, should give {}", nd, x, y);
                }
            }
            12 => {
                let odd = |c: char| c.to_lowercase().count() != 1 || c.to_lowercase().next().unwrap().len_utf8() != c.len_utf8() || c == 'ß';
                if a.text.chars().any(odd) || nd.chars().any(odd) {
                    continue;
                }
                ctx.count("comparisons", 1);
                let x = guard(|| format!("{:?}", s.compare_no_case(&nd[..])))?;
                let y = format!("{:?}", t.compare_no_case(&nd[..]));
                if x != y {
                    bad!("comparing without case with {:?} gives {}, should give {}", nd, x, y);
                }
            }
            13 | 14 => {
                ctx.count("searches", 1);
                same!(s.find_substring(&nd[..]), t.find_substring(&nd[..]))
            }
            15 => {
                same!(s.input_len(), t.input_len());
                same!(s.iter_indices().collect::<Vec<_>>(), t.iter_indices().collect::<Vec<_>>());
                same!(s.iter_elements().collect::<String>(), t.iter_elements().collect::<String>());
            }
            16 => parse!(p_tag),
            17 => parse!(p_take_until),
            18 => parse!(p_is_not),
            19 => parse!(p_recognize),
            _ => parse!(p_list),
        }
        for (g, w) in got.into_iter().zip(want) {
            let x = guard(|| g.into_string())?;
            if x != w.0 || g.len() != w.0.len() {
                bad!("the result is {:?} (length {}), should be {:?}", x, g.len(), w.0);
            }
            // Where it is within those it was derived from. Strings can say
            // that only if it is one of their parts.
            let within = |outer: &str, inner: &str| {
                let (o, i) = (outer.as_ptr() as usize, inner.as_ptr() as usize);
                i >= o && i + inner.len() <= o + outer.len()
            };
            if !within(a.text, w.0) {
                continue;
            }
            let mut from = a.from.clone();
            from.push(pairs.len());
            for f in &a.from {
                let o = &pairs[*f];
                if !std::ptr::eq(o.span.parent(), g.parent()) {
                    bad!("the result belongs to another block");
                }
                let x = guard(|| o.span.offset(&g))?;
                let y = CompleteStr(o.text).offset(&w);
                ctx.count("offsets", 1);
                if x != y {
                    bad!("the offset of {:?} in {:?} is {}, should be {}", w.0, o.text, x, y);
                }
            }
            pairs.push(Pair { span: g, text: w.0, from });
        }
    }
    if p.block.content().count() < 2 {
        return trivial();
    }
    pass(&log)
}

type Parsed<T> = nom::IResult<T, T, u32>;

macro_rules! parsers {
    ($($name:ident($i:ident, $c:ident, $n:ident, $k:ident) $body:block)*) => {$(
        #[allow(unused_variables)]
        fn $name<'b, T>($i: T, $c: char, $n: &'b str, $k: usize) -> Parsed<T>
        where
            T: Copy + Clone + PartialEq + InputTake + InputTakeAtPosition<Item = char> + Compare<&'b str> + FindSubstring<&'b str> + InputLength + nom::AtEof + Offset
                + InputIter<Item = char, RawItem = char> + Slice<std::ops::RangeFrom<usize>> + Slice<std::ops::RangeTo<usize>> + Slice<std::ops::Range<usize>>,
        $body
    )*};
}

parsers! {
    p_tag(i, c, n, k) { tag!(i, n) }
    p_take_until(i, c, n, k) { if n.is_empty() { return tag!(i, ""); } take_until!(i, n) }
    p_is_not(i, c, n, k) { take_while1!(i, |x: char| x != c) }
    p_recognize(i, c, n, k) { recognize!(i, tuple!(take_while!(|x: char| x != c), opt!(complete!(take!(1))), take_till!(|x: char| x == 'a'))) }
    p_list(i, c, n, k) { recognize!(i, many1!(preceded!(take_while!(|x: char| x == ' '), take_while1!(|x: char| x != ' ')))) }
}

// ------------------------------------------------------------------ C18

pub const C18: Check = Check {
    id: "C18",
    run: c18,
    quick: 120_000,
    thorough: 3_000_000,
    rule: "Text read from real files (several lines, non ASCII), cut again and again at random character boundaries, borrowed and owned; each part must be at the line and column a plain count gives. Random triples of locations (few files, lines and columns, eval and synthetic ones) and located things must compare as a strict order by line and column within one file, and not at all otherwise. Non trivial: every case.",
    assumptions: &["hastur's convention: lines and columns start at 1, columns count characters"],
    must_see: &["slices", "slices_behind_line_ends", "comparisons", "ordered_pairs"],
    known: no_known,
    known_crash: no_crash,
};

fn c18(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let b = base(src, ctx)?;
    let mut log = String::new();
    for _ in 0..4 {
        if b.strings.is_empty() {
            break;
        }
        let (s, tags) = src.pick_of(&b.strings);
        let (mut s, mut tags) = (s, tags);
        for _ in 0..src.range(1, 5) {
            if tags.is_empty() {
                break;
            }
            let at = boundaries(&tags);
            let i = src.below(tags.len());
            let j = src.range(i, tags.len());
            log.push_str(&format!("{:?} {}..{}\n", *s, at[i], at[j]));
            ctx.case = log.clone();
            ctx.count("slices", 1);
            if tags[..i].iter().any(|t| t.0 == '\n') {
                ctx.count("slices_behind_line_ends", 1);
            }
            let owned = src.chance(1, 2);
            let n: LocatedString = guard(|| if owned { s.slice(at[i], at[j] - at[i]) } else { s.as_str().slice(at[i], at[j] - at[i]).into() })?;
            if **n != text_of(&tags[i..j]) {
                bad!("the slice reads {:?}", &**n);
            }
            if place(&b.names, n.location()) != tags[i].1 {
                bad!("{:?} is said to be at {:?} but is at {:?}", &**n, n.location(), tags[i].1);
            }
            if place(&b.names, n.as_str().location()) != tags[i].1 {
                bad!("borrowing changes the location of {:?}", &**n);
            }
            tags = tags[i..j].to_vec();
            s = n;
        }
        // Without a place
        let t = atoms(src, 1, 4);
        let l = LocatedString::synthetic_new(t.clone());
        let at: Vec<usize> = t.char_indices().map(|x| x.0).collect();
        let i = src.pick_of(&at);
        let n = guard(|| l.slice(i, t.len() - i))?;
        if **n != t[i..] || place(&b.names, n.location()) != Place::Synthetic || place(&b.names, l.location()) != Place::Synthetic {
            bad!("{:?} became {:?}", l, n);
        }
    }
    // Order
    let mut names = NameCache::default();
    let files = [names.intern_file_name("a".into()), names.intern_file_name("b".into())];
    let mut blk = vec![];
    for t in ["x", "y"].iter() {
        let mut x = Block::default();
        x.push(evaluated::constant(LocatedString::synthetic_new(*t)));
        blk.push(Arc::new(x));
    }
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum In {
        File(usize),
        Eval(usize),
        Nowhere,
    }
    let mut locs = vec![];
    for _ in 0..3 {
        let line = src.pick_of(&[1, 2, 3, 10, 4_000_000_000u32]);
        let character = src.pick_of(&[1, 2, 3, 11, 4_000_000_001u32]);
        let (w, l) = match src.below(8) {
            0..=4 => {
                let f = src.weighted(&[3, 1]);
                (In::File(f), Location::SourceLocation { line, character, filename: files[f] })
            }
            5 | 6 => {
                let e = src.weighted(&[3, 1]);
                (In::Eval(e), Location::EvalLocation { tree_node: blk[e].clone(), line, character })
            }
            _ => (In::Nowhere, Location::Synthetic),
        };
        let at = if w == In::Nowhere { (0, 0) } else { (line, character) };
        log.push_str(&format!("{:?} {:?}\n", w, at));
        locs.push((w, at, l));
    }
    ctx.case = log.clone();
    for (w, p, l) in &locs {
        for (v, q, m) in &locs {
            let want = if w == v { Some(p.cmp(q)) } else { None };
            ctx.count("comparisons", 1);
            if want.map_or(false, |o| o != std::cmp::Ordering::Equal) {
                ctx.count("ordered_pairs", 1);
            }
            if l.partial_cmp(m) != want {
                bad!("{:?} compares with {:?} as {:?}, should as {:?}", (w, p), (v, q), l.partial_cmp(m), want);
            }
            if (l == m) != (want == Some(std::cmp::Ordering::Equal)) {
                bad!("equality of {:?} and {:?} is {:?}", (w, p), (v, q), l == m);
            }
            if (l < m, l <= m, l > m, l >= m) != (want == Some(std::cmp::Ordering::Less), want.map_or(false, |o| o != std::cmp::Ordering::Greater), want == Some(std::cmp::Ordering::Greater), want.map_or(false, |o| o != std::cmp::Ordering::Less)) {
                bad!("the operators on {:?} and {:?} disagree with the order", (w, p), (v, q));
            }
        }
    }
    // Located things compare by where they are
    if b.strings.len() > 1 {
        let (s, t) = src.pick_of(&b.strings);
        let (u, v) = src.pick_of(&b.strings);
        let want = match (&t.get(0), &v.get(0)) {
            (Some((_, Place::File(f, l, c))), Some((_, Place::File(g, m, d)))) if f == g => Some((l, c).cmp(&(m, d))),
            (Some((_, Place::File(..))), Some((_, Place::File(..)))) => None,
            _ => s.location().partial_cmp(u.location()),
        };
        let (x, y): (&Located<String>, &Located<String>) = (&s, &u);
        ctx.count("comparisons", 1);
        if x.partial_cmp(y) != want {
            bad!("{:?} compares with {:?} as {:?}", x, y, x.partial_cmp(y));
        }
    }
    pass(&log)
}

// ------------------------------------------------------------------ C19

use hastur::ast::visit::{MutVisitor, Visitor};
use hastur::ast::{self, AstChildren, AstNode};

pub const C19: Check = Check {
    id: "C19",
    run: c19,
    quick: 120_000,
    thorough: 3_000_000,
    rule: "Random trees of all node kinds, built by the constructors next to a shadow tree. The calls a recording visitor receives (with every method overridden, with only some overridden, and mutable) are compared with a walk of the shadow; mutable visitors change the constants and nothing else may change; accessors, locations and, where every node can be expanded, expansions are compared. Non trivial: at least five nodes.",
    assumptions: &["collapsing of concatenations is judged by the leaves and the expansion, not by the shape"],
    must_see: &["nodes_visited", "constants_changed", "expansions_compared", "early_stops"],
    known: no_known,
    known_crash: no_crash,
};

#[derive(Clone, Debug, PartialEq)]
enum Tree {
    Empty,
    Constant(String),
    Pre(String),
    Concat(Vec<Tree>),
    Var(Box<Tree>),
    Eval(Box<Tree>),
    Strip(Box<Tree>),
    Word(Box<Tree>, Box<Tree>),
    Words(Box<Tree>),
}

struct Build<'a> {
    src: &'a mut Src,
    files: Vec<FileName>,
    nodes: usize,
    serial: usize,
    functions: bool,
}

impl<'a> Build<'a> {
    fn loc(&mut self) -> Location {
        if self.src.chance(1, 3) {
            Location::Synthetic
        } else {
            let f = self.src.below(self.files.len());
            Location::SourceLocation { line: self.src.range(1, 9) as u32, character: self.src.range(1, 9) as u32, filename: self.files[f] }
        }
    }
    fn node(&mut self, depth: usize) -> Result<(AstNode, Tree), String> {
        self.nodes += 1;
        let leaf = depth > 5 || self.nodes > 40;
        let kind = if depth == 0 { 3 } else if leaf { self.src.below(3) } else { self.src.weighted(&[1, 3, 1, 5, 3, if self.functions { 1 } else { 0 }, if self.functions { 1 } else { 0 }, if self.functions { 1 } else { 0 }, if self.functions { 1 } else { 0 }]) };
        let loc = self.loc();
        let (n, t) = match kind {
            0 => (ast::empty(), Tree::Empty),
            1 => {
                self.serial += 1;
                let s = match self.src.below(4) {
                    0 => self.src.pick(&["A", "B", "é"]).to_string(),
                    1 => String::new(),
                    _ => format!("c{}", self.serial),
                };
                (ast::constant(LocatedString::synthetic_new(s.clone())), Tree::Constant(s))
            }
            2 => {
                self.serial += 1;
                let s = if self.src.chance(1, 8) { String::new() } else { format!("p{}", self.serial) };
                let mut b = Block::default();
                if !s.is_empty() {
                    b.push(evaluated::constant(LocatedString::synthetic_new(s.clone())));
                }
                let n = ast::preevaluated(loc.clone(), Arc::new(b));
                if n.location() != loc {
                    return Err("a node has another location than it was given".into());
                }
                (n, Tree::Pre(s))
            }
            3 => {
                let k = if depth == 0 { self.src.range(1, 5) } else { self.src.range(0, 4) };
                let mut ns = vec![];
                let mut ts = vec![];
                for _ in 0..k {
                    let (n, t) = self.node(depth + 1)?;
                    ns.push(n);
                    ts.push(t);
                }
                let n = ast::collapsing_concat(loc, ns);
                (n, Tree::Concat(ts))
            }
            7 => {
                let (i, it) = self.node(depth + 1)?;
                let (w, wt) = self.node(depth + 1)?;
                let n = ast::word(loc.clone(), i, w);
                if n.location() != loc {
                    return Err("a node has another location than it was given".into());
                }
                (n, Tree::Word(Box::new(it), Box::new(wt)))
            }
            k => {
                let (c, ct) = self.node(depth + 1)?;
                let before = c.clone();
                let (n, t) = match k {
                    4 => (ast::variable_reference(loc.clone(), c), Tree::Var(Box::new(ct))),
                    5 => (ast::eval(loc.clone(), c), Tree::Eval(Box::new(ct))),
                    6 => (ast::strip(loc.clone(), c), Tree::Strip(Box::new(ct))),
                    _ => (ast::words(loc.clone(), c), Tree::Words(Box::new(ct))),
                };
                if n.location() != loc {
                    return Err("a node has another location than it was given".into());
                }
                let inner = match n.children() {
                    AstChildren::VariableReference(x) | AstChildren::Eval(x) | AstChildren::Strip(x) | AstChildren::Words(x) => x,
                    x => return Err(format!("unexpected children {:?}", x)),
                };
                if *inner != before {
                    return Err("a child is not the one that was given".into());
                }
                (n, t)
            }
        };
        Ok((n, t))
    }
}

/// What a walk has to see: shapes of concatenations do not count
fn expected(t: &Tree, out: &mut Vec<String>) {
    match t {
        Tree::Empty => {}
        Tree::Constant(s) => out.push(format!("constant {}", s)),
        Tree::Pre(s) => out.push(format!("preevaluated {}", s)),
        Tree::Concat(v) => v.iter().for_each(|x| expected(x, out)),
        Tree::Var(x) => {
            out.push("reference".into());
            expected(x, out);
            out.push("end".into());
        }
        Tree::Eval(x) => {
            out.push("eval".into());
            expected(x, out);
            out.push("end".into());
        }
        Tree::Strip(x) => {
            out.push("strip".into());
            expected(x, out);
            out.push("end".into());
        }
        Tree::Words(x) => {
            out.push("words".into());
            expected(x, out);
            out.push("end".into());
        }
        Tree::Word(i, w) => {
            out.push("word".into());
            expected(i, out);
            expected(w, out);
            out.push("end".into());
        }
    }
}

/// All there is, by the accessors
fn walk(n: &AstNode, out: &mut Vec<String>) {
    out.push("node".into());
    match n.children() {
        AstChildren::Empty => out.push("empty".into()),
        AstChildren::Constant(s) => out.push(format!("constant {}", **s)),
        AstChildren::PreEvaluated(b) => out.push(format!("preevaluated {}", b.into_string())),
        AstChildren::Concat(v) => {
            out.push(format!("concat {}", v.len()));
            v.iter().for_each(|x| walk(x, out))
        }
        AstChildren::VariableReference(x) => {
            out.push("reference".into());
            walk(x, out);
            out.push("end".into());
        }
        AstChildren::Eval(x) => {
            out.push("eval".into());
            walk(x, out);
            out.push("end".into());
        }
        AstChildren::Strip(x) => {
            out.push("strip".into());
            walk(x, out);
            out.push("end".into());
        }
        AstChildren::Words(x) => {
            out.push("words".into());
            walk(x, out);
            out.push("end".into());
        }
        AstChildren::Word { index, words } => {
            out.push("word".into());
            walk(index, out);
            walk(words, out);
            out.push("end".into());
        }
    }
}

struct Recorder {
    log: Vec<String>,
    /// Do not go below references
    stop: bool,
    stopped: u64,
    addresses: BTreeSet<usize>,
    twice: bool,
}

macro_rules! recorder {
    ($tr:ident, $($m:tt)?) => {
        impl<'n> $tr<'n> for Recorder {
            fn visit_ast(&mut self, a: &'n $($m)? AstNode) {
                self.log.push("node".into());
                if !self.addresses.insert(a as *const AstNode as usize) {
                    self.twice = true;
                }
                $tr::super_ast(self, a);
            }
            fn visit_empty(&mut self) {
                self.log.push("empty".into());
                $tr::super_empty(self);
            }
            fn visit_constant(&mut self, c: &'n $($m)? LocatedString) {
                self.log.push(format!("constant {}", **c));
                $tr::super_constant(self, c);
            }
            fn visit_pre_evaluated(&mut self, b: &'n $($m)? Arc<Block>) {
                self.log.push(format!("preevaluated {}", b.into_string()));
                $tr::super_pre_evaluated(self, b);
            }
            fn visit_concat(&mut self, v: &'n $($m)? Vec<AstNode>) {
                self.log.push(format!("concat {}", v.len()));
                $tr::super_concat(self, v);
            }
            fn visit_variable_reference(&mut self, x: &'n $($m)? AstNode) {
                self.log.push("reference".into());
                if self.stop {
                    self.stopped += 1;
                } else {
                    $tr::super_variable_reference(self, x);
                }
                self.log.push("end".into());
            }
            fn visit_eval(&mut self, x: &'n $($m)? AstNode) {
                self.log.push("eval".into());
                $tr::super_eval(self, x);
                self.log.push("end".into());
            }
            fn visit_strip(&mut self, x: &'n $($m)? AstNode) {
                self.log.push("strip".into());
                $tr::super_strip(self, x);
                self.log.push("end".into());
            }
            fn visit_word(&mut self, i: &'n $($m)? AstNode, w: &'n $($m)? AstNode) {
                self.log.push("word".into());
                $tr::super_word(self, i, w);
                self.log.push("end".into());
            }
            fn visit_words(&mut self, x: &'n $($m)? AstNode) {
                self.log.push("words".into());
                $tr::super_words(self, x);
                self.log.push("end".into());
            }
        }
    };
}
recorder!(Visitor,);
recorder!(MutVisitor, mut);

/// Only constants: everything else is left to the default methods
struct Constants(Vec<String>);
impl<'n> Visitor<'n> for Constants {
    fn visit_constant(&mut self, c: &'n LocatedString) {
        self.0.push(c.to_string());
    }
}
struct Upper(u64);
impl<'n> MutVisitor<'n> for Upper {
    fn visit_constant(&mut self, c: &'n mut LocatedString) {
        self.0 += 1;
        *c = LocatedString::synthetic_new(format!("{}!", **c));
    }
}
fn upper(t: &mut Tree) {
    match t {
        Tree::Constant(s) => s.push('!'),
        Tree::Empty | Tree::Pre(_) => {}
        Tree::Concat(v) => v.iter_mut().for_each(upper),
        Tree::Var(x) | Tree::Eval(x) | Tree::Strip(x) | Tree::Words(x) => upper(x),
        Tree::Word(i, w) => {
            upper(i);
            upper(w);
        }
    }
}

fn without_references(v: &[String]) -> Vec<String> {
    let mut out = vec![];
    let mut depth = 0usize;
    let mut kinds = vec![];
    for s in v {
        match &s[..] {
            "reference" => {
                kinds.push(true);
                if depth == 0 {
                    out.push(s.clone());
                }
                depth += 1;
            }
            "eval" | "strip" | "words" | "word" => {
                kinds.push(false);
                if depth == 0 {
                    out.push(s.clone());
                }
            }
            "end" => {
                if kinds.pop() == Some(true) {
                    depth -= 1;
                }
                if depth == 0 {
                    out.push(s.clone());
                }
            }
            _ => {
                if depth == 0 {
                    out.push(s.clone());
                }
            }
        }
    }
    out
}

fn shadow_text(t: &Tree, vars: &BTreeMap<String, String>) -> Option<String> {
    Some(match t {
        Tree::Empty => String::new(),
        Tree::Constant(s) | Tree::Pre(s) => s.clone(),
        Tree::Concat(v) => {
            let mut o = String::new();
            for x in v {
                o.push_str(&shadow_text(x, vars)?);
            }
            o
        }
        Tree::Var(x) => vars.get(&shadow_text(x, vars)?).cloned().unwrap_or_default(),
        _ => return None,
    })
}

fn c19(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut names = NameCache::default();
    let files = vec![names.intern_file_name("a".into()), names.intern_file_name("b".into())];
    let functions = src.chance(1, 2);
    let (mut node, mut tree, nodes);
    {
        let mut b = Build { src, files, nodes: 0, serial: 0, functions };
        let r = b.node(0)?;
        node = r.0;
        tree = r.1;
        nodes = b.nodes;
    }
    ctx.case = format!("{:?}", tree);
    let key = ctx.case.clone();
    let mut want = vec![];
    expected(&tree, &mut want);
    let mut shape = vec![];
    walk(&node, &mut shape);
    let leaves: Vec<String> = shape.iter().filter(|s| *s != "node" && *s != "empty" && !s.starts_with("concat ")).cloned().collect();
    if leaves != want {
        bad!("the tree has {:?}, should have {:?}", leaves, want);
    }
    // Empty nodes below a concatenation have no effect; where one is all there
    // is, it may be left or not
    let mut r = Recorder { log: vec![], stop: false, stopped: 0, addresses: BTreeSet::new(), twice: false };
    guard(|| Visitor::visit_ast(&mut r, &node))?;
    ctx.count("nodes_visited", r.log.iter().filter(|s| *s == "node").count() as u64);
    if r.log != shape {
        bad!("the visitor saw {:?}, should see {:?}", r.log, shape);
    }
    if r.twice {
        bad!("a node was visited twice");
    }
    let mut r = Recorder { log: vec![], stop: true, stopped: 0, addresses: BTreeSet::new(), twice: false };
    guard(|| Visitor::visit_ast(&mut r, &node))?;
    ctx.count("early_stops", r.stopped);
    if r.log != without_references(&shape) {
        bad!("without going into references, the visitor saw {:?}", r.log);
    }
    let mut c = Constants(vec![]);
    guard(|| c.visit_ast(&node))?;
    let consts: Vec<String> = want.iter().filter(|s| s.starts_with("constant ")).map(|s| s[9..].to_string()).collect();
    if c.0 != consts {
        bad!("the visitor saw the constants {:?}, should see {:?}", c.0, consts);
    }
    let before = node.clone();
    let mut r = Recorder { log: vec![], stop: false, stopped: 0, addresses: BTreeSet::new(), twice: false };
    guard(|| MutVisitor::visit_ast(&mut r, &mut node))?;
    if r.log != shape || r.twice {
        bad!("the mutable visitor saw {:?}, should see {:?}", r.log, shape);
    }
    if node != before {
        bad!("the mutable visitor changed the tree");
    }
    // Expansion
    let mut e = sut::engine_in(&ctx.dir);
    let text = "A = B\nB := value\né=non ascii\nc1=one\nc2=two\np1=three\n";
    guard(|| e.read_makefile(&mut names, &mut text.as_bytes(), "x").map_err(|e| format!("{:?}", e)))??;
    let vars: BTreeMap<String, String> = [("A", "B"), ("B", "value"), ("é", "non ascii"), ("c1", "one"), ("c2", "two"), ("p1", "three")].iter().map(|x| (x.0.to_string(), x.1.to_string())).collect();
    if let Some(t) = shadow_text(&tree, &vars) {
        let b = guard(|| node.eval(&mut names, &mut e))?;
        let x = guard(|| b.into_string())?;
        ctx.count("expansions_compared", 1);
        if x != t {
            bad!("the tree expands to {:?}, should to {:?}", x, t);
        }
    }
    // Changes
    let mut u = Upper(0);
    guard(|| u.visit_ast(&mut node))?;
    ctx.count("constants_changed", u.0);
    upper(&mut tree);
    let mut want = vec![];
    expected(&tree, &mut want);
    let mut now = vec![];
    walk(&node, &mut now);
    let mut shape2 = vec![];
    for s in &shape {
        shape2.push(if s.starts_with("constant ") { format!("{}!", s) } else { s.clone() });
    }
    if now != shape2 {
        bad!("after the change the tree has {:?}, should have {:?}", now, shape2);
    }
    if nodes < 5 {
        return trivial();
    }
    pass(&key)
}
