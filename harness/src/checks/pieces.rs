//! Text that is put together: a makefile reads the same, down to the place of
//! every character, however the block that holds it is put together.
use super::*;
use crate::checks::lang::cfg_of;
use crate::sut::{place, Place};
use hastur::evaluated::nodes::EvaluatedNode;
use hastur::evaluated::{self, Block, BlockSpan, ContentReference};
use hastur::source_location::{LocatedString, Location};
use std::sync::Arc;

pub const C28: Check = Check {
    id: "C28",
    run: c28,
    quick: 120_000,
    thorough: 3_000_000,
    rule: "A generated makefile (all constructs and layouts, one in three with something broken in it) is put into a block of evaluated text that is cut up anywhere: constants, slices of longer ones, values of references and of substitution references, concatenations, copies of slices of larger blocks, shared nodes and empty pieces, nested in each other, with every character kept at its place in the file. Engine::process_block of it must end the same way (the same error) as Engine::read_makefile of the plain text, and leave the same variables, trees, rules, prerequisites and commands, each character of which has the same place. One in two cases is compared with the reference model, too. Non trivial: at least four pieces and something that was compared.",
    assumptions: &["the references the text is put together from have no part in what is read, only their text has", "texts, trees and places are compared, not how they are cut up"],
    must_see: &["pieces", "piece: constant", "piece: slice of a constant", "piece: concatenation", "piece: reference", "piece: substitution", "piece: slice of a block", "piece: copy of a slice", "piece: shared", "piece: empty", "errors_compared", "rules_compared", "trees_compared", "compared_with_model"],
    known: no_known,
    known_crash: no_crash,
};

type Char = (char, u32, u32);

struct Cut<'a> {
    src: &'a mut Src,
    ctx: &'a mut Ctx,
    file: hastur::FileName,
    names: Vec<Arc<Block>>,
    /// How large the pieces are
    grain: usize,
}

fn junk(src: &mut Src) -> String {
    let mut s = String::new();
    for _ in 0..src.range(0, 3) {
        s += src.pick(&["a", " ", "\n", "é", "$", ")", "#", ":", "x = 1\n", "\\", "endef\n", "\t", ",", "😀"]);
    }
    s
}

/// A slice has to start inside of the node
fn slice(node: Arc<EvaluatedNode>, from: usize, len: usize) -> ContentReference {
    if from >= node.len() {
        return ContentReference::new_from_node(Arc::new(EvaluatedNode::Concat(Arc::new(Block::default()))));
    }
    ContentReference::new_from_node_slice(node, from, len)
}

impl<'a> Cut<'a> {
    fn constant(&self, t: &[Char]) -> Arc<EvaluatedNode> {
        let s: String = t.iter().map(|x| x.0).collect();
        let at = match t.get(0) {
            Some((_, line, character)) => Location::SourceLocation { filename: self.file, line: *line, character: *character },
            None => Location::Synthetic,
        };
        #[cfg(feature = "hooks")]
        return Arc::new(EvaluatedNode::Constant(LocatedString::verif_new(at, s)));
        #[cfg(not(feature = "hooks"))]
        {
            let _ = at;
            return Arc::new(EvaluatedNode::Constant(LocatedString::synthetic_new(s)));
        }
    }

    fn name(&mut self) -> Arc<Block> {
        self.src.pick_of(&self.names)
    }

    /// Text around what is wanted, which is cut off again
    fn around(&mut self, t: &[Char]) -> (Vec<Char>, usize, usize) {
        let before = junk(self.src);
        let after = junk(self.src);
        // Constants know the place of their first character only
        let mut v: Vec<Char> = vec![];
        let (line, col) = t.get(0).map(|x| (x.1, x.2)).unwrap_or((1, 1));
        let before: String = before.chars().filter(|c| *c != '\n').collect();
        let n = before.chars().count() as u32;
        let before: &str = if col > n { &before } else { "" };
        let n = before.chars().count() as u32;
        for (i, c) in before.chars().enumerate() {
            v.push((c, line, col - n + i as u32));
        }
        let from = before.len();
        v.extend(t);
        let len = t.iter().map(|x| x.0.len_utf8()).sum();
        v.extend(after.chars().map(|c| (c, 0, 0)));
        (v, from, len)
    }

    /// A block with just this text
    fn block(&mut self, t: &[Char], depth: usize) -> Block {
        let mut b = Block::default();
        let mut rest = t;
        loop {
            if self.src.chance(1, 14) {
                self.ctx.count("piece: empty", 1);
                let r = self.piece(&[], depth);
                b.push(r);
            }
            if rest.is_empty() {
                break;
            }
            let n = match self.src.weighted(&[4, 2, 2, 1]) {
                0 => self.src.range(1, self.grain),
                1 => 1,
                2 => self.src.range(1, 4),
                // Up to and with the end of a line
                _ => rest.iter().position(|x| x.0 == '\n').map(|p| p + 1).unwrap_or(rest.len()),
            };
            let n = n.min(rest.len());
            let (a, c) = rest.split_at(n);
            rest = c;
            if depth > 0 && self.src.chance(1, 8) {
                // Slices of blocks pushed piece by piece
                let (s, from, len) = self.around(a);
                let inner = self.block(&s, depth - 1);
                self.ctx.count("piece: slice of a block", 1);
                let span: BlockSpan = inner.span();
                b.push_all_contents(nom::Slice::slice(&span, from..from + len));
            } else {
                let r = self.piece(a, depth);
                b.push(r);
            }
        }
        b
    }

    fn piece(&mut self, t: &[Char], depth: usize) -> ContentReference {
        self.ctx.count("pieces", 1);
        let kind = if depth == 0 { self.src.weighted(&[5, 2]) } else { self.src.weighted(&[5, 3, 2, 4, 2, 2, 2, 1]) };
        let node = match kind {
            0 => {
                self.ctx.count("piece: constant", 1);
                self.constant(t)
            }
            1 => {
                self.ctx.count("piece: slice of a constant", 1);
                let (s, from, len) = self.around(t);
                return slice(self.constant(&s), from, len);
            }
            2 => {
                self.ctx.count("piece: concatenation", 1);
                let b = Arc::new(self.block(t, depth - 1));
                if self.src.chance(1, 2) {
                    return evaluated::concat(b);
                }
                Arc::new(EvaluatedNode::Concat(b))
            }
            3 => {
                self.ctx.count("piece: reference", 1);
                let name = self.name();
                let b = Arc::new(self.block(t, depth - 1));
                if self.src.chance(1, 2) {
                    return evaluated::variable_reference(name, b);
                }
                Arc::new(EvaluatedNode::VariableReference(evaluated::VariableReference::new(name, b)))
            }
            4 => {
                self.ctx.count("piece: substitution", 1);
                let (name, key, to) = (self.name(), self.name(), self.name());
                let b = Arc::new(self.block(t, depth - 1));
                if self.src.chance(1, 2) {
                    return evaluated::substitution_reference(name, key, to, b);
                }
                Arc::new(EvaluatedNode::SubstitutionReference(evaluated::SubstitutionReference::new(name, key, to, b)))
            }
            5 => {
                self.ctx.count("piece: copy of a slice", 1);
                let (s, from, len) = self.around(t);
                let b = self.block(&s, depth - 1);
                let span = b.span();
                let part = nom::Slice::slice(&span, from..from + len);
                if self.src.chance(1, 2) {
                    return part.to_content_reference();
                }
                Arc::new(EvaluatedNode::Concat(part.to_new_block()))
            }
            6 => {
                // A node with more than is wanted
                self.ctx.count("piece: slice of a block", 1);
                let (s, from, len) = self.around(t);
                let b = Arc::new(self.block(&s, depth - 1));
                let node = if self.src.chance(1, 2) {
                    EvaluatedNode::Concat(b)
                } else {
                    EvaluatedNode::VariableReference(evaluated::VariableReference::new(self.name(), b))
                };
                return slice(Arc::new(node), from, len);
            }
            _ => {
                // Two parts of the same node
                self.ctx.count("piece: shared", 1);
                let b = Arc::new(self.block(t, depth - 1));
                let node = Arc::new(EvaluatedNode::Concat(b));
                let k = self.src.below(t.len() + 1);
                let at: usize = t[..k].iter().map(|x| x.0.len_utf8()).sum();
                let len: usize = t.iter().map(|x| x.0.len_utf8()).sum();
                let mut both = Block::default();
                both.push(slice(Arc::clone(&node), 0, at));
                both.push(slice(node, at, len - at));
                return evaluated::concat(Arc::new(both));
            }
        };
        ContentReference::new_from_node(node)
    }
}

/// The text of a block, and the place of each character
fn placed(ctx: &mut Ctx, s: &Sut, b: &Block) -> Result<String, String> {
    let mut out = String::new();
    if !sut::HOOKS {
        return guard(|| b.into_string());
    }
    for (t, l) in guard(|| b.span().segments().map(|x| (x.to_string(), x.location().clone())).collect::<Vec<_>>())? {
        let mut p = place(&s.names, &l);
        for c in t.chars() {
            ctx.count("characters_placed", 1);
            out += &format!("{:?}{:?} ", c, p);
            if let Place::File(_, l, col) = &mut p {
                if c == '\n' {
                    *l += 1;
                    *col = 1;
                } else {
                    *col += 1;
                }
            }
        }
    }
    Ok(out)
}

/// All there is to see of the state of an engine
fn state(ctx: &mut Ctx, s: &mut Sut, names: &[String]) -> Result<Vec<(String, String)>, String> {
    let mut out = vec![];
    let tree = |ctx: &mut Ctx, s: &Sut, a: &hastur::ast::AstNode| -> Result<String, String> {
        let mut v = vec![];
        tree::got(s, a, &mut v)?;
        ctx.count("trees_compared", 1);
        if !sut::HOOKS {
            return Ok(tree::plain(&v));
        }
        Ok(format!("{:?}", v))
    };
    for n in names {
        let v = match s.names.variable_name(n) {
            None => continue,
            Some(id) => match s.engine.database.get_variable(id) {
                None => continue,
                Some(v) => v,
            },
        };
        out.push((format!("tree of {:?}", n), tree(ctx, s, v.ast())?));
    }
    let rules = s.rules()?;
    for (t, r) in &rules {
        ctx.count("rules_compared", 1);
        out.push((format!("target {:?}", t), placed(ctx, s, r.target())?));
        for (i, d) in r.dependencies().iter().enumerate() {
            out.push((format!("prerequisite {} of {:?}", i, t), placed(ctx, s, d)?));
        }
        #[cfg(feature = "hooks")]
        out.push((format!("kind of {:?}", t), format!("{:?}", r.verif_rule_type())));
        #[cfg(feature = "hooks")]
        for (i, c) in r.recipe().commands().iter().enumerate() {
            out.push((format!("command {} of {:?}", i, t), tree(ctx, s, c.verif_unexpanded())?));
        }
    }
    Ok(out)
}

fn broken(src: &mut Src, text: &str) -> String {
    let mut lines: Vec<String> = text.split_inclusive('\n').map(|x| x.to_string()).collect();
    let at = src.below(lines.len() + 1);
    let what = src.pick(&["endif\n", "else\n", "x y z\n", "$(A\n", "V = $(strip a,b)\n", "V = a $(word 1) b ; c\n", "ifdef a b c\n", "\tcmd\n", "include nope.mk\n", "endif x\n", "${x: y\n", "a: b ; $(words a\n", "ifeq (a\n", "W := ${A\n"]);
    lines.insert(at, what.to_string());
    lines.concat()
}

fn c28(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let id = src.pick(&["C01", "C02", "C03", "C04", "C05", "C06", "C09", "C10", "C21", "C23"]);
    let mut cfg = cfg_of(id);
    cfg.max_stmts = cfg.max_stmts.min(6);
    cfg.min_stmts = 1;
    let mut p = program(src, cfg);
    if src.chance(1, 3) {
        p.text = broken(src, &p.text);
    }
    ctx.case = describe(&p.text, &p.files);
    put_files(ctx, &p.files);

    // The plain text
    let mut plain = Sut::new(&ctx.dir);
    let modelled = src.chance(1, 2);
    let mut m = Model::new();
    m.files = p.files.clone();
    let r = m.read(&p.text);
    if !judged(&r) {
        // May go on to expand something that never ends
        ctx.count("not_judged", 1);
        return trivial();
    }
    about_to_run(ctx);
    let want = plain.read(&p.text, "main.mk");

    // The pieces
    let mut s = Sut::new(&ctx.dir);
    let file = s.names.intern_file_name("main.mk".into());
    let mut chars: Vec<Char> = vec![];
    let (mut line, mut col) = (1, 1);
    for c in p.text.chars() {
        chars.push((c, line, col));
        if c == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    let mut names = vec![Arc::new(Block::default())];
    for t in ["A", "%.o", "no such\nthing: é"] {
        let mut b = Block::default();
        b.push(evaluated::constant(LocatedString::synthetic_new(t)));
        names.push(Arc::new(b));
    }
    let grain = src.pick_of(&[2usize, 6, 20, 60, 400]);
    let depth = src.range(1, 3);
    let before = ctx.counters.get("pieces").copied().unwrap_or(0);
    let block = Cut { src, ctx, file, names, grain }.block(&chars, depth);
    let pieces = ctx.counters["pieces"] - before;
    let text = guard(|| block.into_string())?;
    if text != p.text {
        return Err(Bad::Violation(format!("the pieces make {:?}", text)));
    }
    let got = match guard(|| s.engine.process_block(&mut s.names, &block)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Err(sut::kind_of(&e), format!("{:?}", e)),
        Err(p) => Outcome::Panic(p),
    };
    if let Outcome::Panic(p) = &want {
        // What panics is for another check to judge
        ctx.count("not_judged: panics", 1);
        return match got {
            Outcome::Panic(_) => trivial(),
            _ => Err(Bad::Violation(format!("reading the plain text panics ({}), reading the pieces doesn't", p))),
        };
    }
    if want != got {
        return Err(Bad::Violation(format!("reading the plain text gives {:?}, reading the pieces {:?}", want, got)));
    }
    if want != Outcome::Ok {
        ctx.count("errors_compared", 1);
    }
    let all = names_of(&m);
    let a = state(ctx, &mut plain, &all)?;
    let b = state(ctx, &mut s, &all)?;
    for (x, y) in a.iter().zip(&b) {
        if x.0 != y.0 {
            return Err(Bad::Violation(format!("the plain text leaves the {}, the pieces leave the {}", x.0, y.0)));
        }
        if x.1 != y.1 {
            return Err(Bad::Violation(format!("the {} is {} in the plain text, but {} in the pieces", x.0, x.1, y.1)));
        }
    }
    if a.len() != b.len() {
        return Err(Bad::Violation(format!("{} things are left by the plain text, {} by the pieces", a.len(), b.len())));
    }
    if modelled {
        compare_outcome(&r, &got)?;
        let ignore = m.open_at_error.clone();
        compare_state(ctx, &m, &mut s, &ignore)?;
        ctx.count("compared_with_model", 1);
    }
    if pieces < 4 || a.is_empty() {
        return trivial();
    }
    pass(&format!("{}{}", pieces, ctx.case))
}
