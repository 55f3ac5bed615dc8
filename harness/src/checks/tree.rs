//! The syntax trees of unexpanded values: a tree and its text are generated
//! together, the text is put into a makefile in some way, and the tree that
//! hastur keeps for it has to be that tree, with everything in the place it
//! was written to.
use super::*;
use crate::model::Kind;
use crate::sut::{place, Place};
use hastur::ast::{AstChildren, AstNode};
use hastur::{MakefileError, ParseErrorKind};

pub const C27: Check = Check {
    id: "C27",
    run: c27,
    quick: 500_000,
    thorough: 4_000_000,
    rule: "A random syntax tree (text, $$, $X, $(..) and ${..} with computed and substituted names, eval, strip, words and word with their arguments, nested; names that merely look like functions; commas and brackets inside of brackets) is written down as text, and the text reaches an unexpanded value: by assignment, append, definition, recipe line, include, or through $(eval) of text put together from several variables, cut anywhere. The tree hastur keeps (Variable::ast, Command) is compared node by node and character by character, and the place of each node and character is compared with where it was written. One in six cases has a call with too few or too many arguments, or an open bracket, somewhere in it, at some place of a makefile, and reading must fail with just that error, after everything before it and before anything behind it. Non trivial: at least one reference or function call in the tree.",
    assumptions: &["trees are compared with constants merged and empty nodes and nested concatenations flattened, as these have no meaning", "a character written as two (a dollar sign, or one quoted for eval) may be placed at either"],
    must_see: &["references", "calls: eval", "calls: strip", "calls: words", "calls: word", "characters", "shape: assignment", "shape: append", "shape: define", "shape: recipe", "shape: inline recipe", "shape: eval", "shape: eval of parts", "shape: include", "error: extra", "error: insufficient", "error: open"],
    known: no_known,
    known_crash: no_crash,
};

/// Number of a character that has been written
type Id = usize;

#[derive(Clone, Debug)]
enum It {
    /// A character, and the written ones it may be placed at (none: anywhere)
    Ch(char, Vec<Id>),
    Ref(Id, Vec<It>),
    Fun(&'static str, Id, Vec<Vec<It>>),
}

/// A place: file, line, column
type At = (String, u32, u32);

/// What hastur says
#[derive(Clone, Debug)]
pub(super) enum Got {
    Ch(char, Place),
    Ref(Place, Vec<Got>),
    Fun(&'static str, Place, Vec<Vec<Got>>),
}

struct Grow<'a> {
    src: &'a mut Src,
    text: Vec<char>,
    /// Recipes take no `#`, and nothing else than plain values continued lines
    gaps: bool,
    calls: u64,
}

const WORDS: &[&str] = &["a", "foo.c", "x", "é", "日本", "W-y", "b%c", "😀", "strip", "word", "eval", "words", "1", "lib/z", "@", "a=b", ";", "'", "\"", "!", "\u{2028}", "İ"];
const LOOKALIKE: &[&str] = &["strip", "words", "word", "eval", "stripx a", "Strip a", "EVAL a", "wordy a", "strip:a=b", "eval:%.c=%.o", "word=1 2", "wordss 1", " strip a", "\tword 1", "evalu ate", "strip\u{a0}a", "words\u{2003}a b"];

impl<'a> Grow<'a> {
    fn put(&mut self, c: char) -> Id {
        self.text.push(c);
        self.text.len() - 1
    }

    fn text(&mut self, s: &str, out: &mut Vec<It>) {
        for c in s.chars() {
            let id = self.put(c);
            out.push(It::Ch(c, vec![id]));
        }
    }

    /// `arg`: commas would end it; `lead`: blanks in front would be lost
    fn expr(&mut self, depth: usize, arg: bool, lead: bool) -> Vec<It> {
        let mut out = vec![];
        let n = self.src.weighted(&[1, 6, 5, 3, 2]);
        for i in 0..n {
            // Blanks between, never in front unless they count
            if (i > 0 || !lead) && self.src.chance(1, 3) {
                let s = self.src.pick(&[" ", "  ", "\t", " "]);
                self.text(s, &mut out);
            } else if i > 0 && self.gaps && !self.text.last().map_or(false, |c| crate::model::is_blank(*c)) && self.src.chance(1, 12) {
                for c in self.src.pick(&["\\\n", " \\\n", "\\\n  ", " \t\\\n\\\n "]).chars() {
                    self.put(c);
                }
                out.push(It::Ch(' ', vec![]));
                // Blanks behind would be part of it
                self.text("j", &mut out);
            }
            self.piece(depth, arg, &mut out);
        }
        out
    }

    fn piece(&mut self, depth: usize, arg: bool, out: &mut Vec<It>) {
        let d = if depth == 0 { 0 } else { 1 };
        match self.src.weighted(&[6, 2, 3, 5 * d, 6 * d, 2 * d, 2 * d]) {
            0 => {
                let w = self.src.pick(WORDS);
                self.text(w, out);
            }
            1 => {
                let a = self.put('$');
                let b = self.put('$');
                out.push(It::Ch('$', vec![a, b]));
            }
            2 => {
                let at = self.put('$');
                let c = self.src.pick_of(&['X', '@', '<', 'é', '=', '%', '-', '^', '😀', '1', ':', ';', '\'', 's']);
                let id = self.put(c);
                out.push(It::Ref(at, vec![It::Ch(c, vec![id])]));
            }
            3 => {
                let at = self.put('$');
                let close = self.open();
                let mut name = vec![];
                match self.src.weighted(&[3, 4, 2, 1]) {
                    0 => {
                        // Must not look like a call: starts with a letter of its own
                        let w = self.src.pick(&["V", "v.é", "Q-", "🦀"]);
                        self.text(w, &mut name);
                        let e = self.expr(depth - 1, false, false);
                        name.extend(e);
                    }
                    1 => {
                        let w = self.src.pick(&["V", "NOPE", "obj_s", "ünï", "a,b", "x y", "c=d", ""]);
                        self.text(w, &mut name);
                    }
                    2 => {
                        self.text("V:", &mut name);
                        let e = self.expr(depth - 1, false, false);
                        name.extend(e);
                        self.text("=", &mut name);
                        let e = self.expr(depth - 1, false, false);
                        name.extend(e);
                    }
                    _ => {
                        let w = self.src.pick(LOOKALIKE);
                        self.text(w, &mut name);
                    }
                }
                self.put(close);
                out.push(It::Ref(at, name));
            }
            4 => {
                let f = self.src.pick(&["strip", "words", "word", "eval"]);
                let args = if f == "word" { 2 } else { 1 };
                let call = self.call(f, args, depth);
                out.push(call);
            }
            5 => {
                // Brackets, with commas in them
                let (o, c) = if self.src.chance(1, 2) { ('(', ')') } else { ('{', '}') };
                let id = self.put(o);
                out.push(It::Ch(o, vec![id]));
                let e = self.expr(depth - 1, false, false);
                out.extend(e);
                if self.src.chance(1, 2) {
                    self.text(",", out);
                    let e = self.expr(depth - 1, false, false);
                    out.extend(e);
                }
                let id = self.put(c);
                out.push(It::Ch(c, vec![id]));
            }
            _ => {
                if arg {
                    self.text("n", out);
                } else {
                    let w = self.src.pick(&[",", "a,b", ", "]);
                    self.text(w, out);
                }
            }
        }
    }

    fn open(&mut self) -> char {
        if self.src.chance(1, 3) {
            self.put('{');
            '}'
        } else {
            self.put('(');
            ')'
        }
    }

    fn call(&mut self, f: &'static str, args: usize, depth: usize) -> It {
        self.calls += 1;
        let at = self.put('$');
        let close = self.open();
        for c in f.chars() {
            self.put(c);
        }
        for c in self.src.pick(&[" ", " ", "\t", "  ", " \t "]).chars() {
            self.put(c);
        }
        let mut v = vec![];
        for i in 0..args {
            if i > 0 {
                for c in self.src.pick(&[",", ", ", ",\t ", ","]).chars() {
                    self.put(c);
                }
            }
            v.push(self.expr(depth.saturating_sub(1), f != "eval", true));
        }
        self.put(close);
        It::Fun(f, at, v)
    }
}

/// Gathers the tree of a value
pub(super) fn got(s: &Sut, a: &AstNode, out: &mut Vec<Got>) -> Result<(), String> {
    let chars = |text: &str, at: &hastur::source_location::Location, out: &mut Vec<Got>| {
        let mut p = place(&s.names, at);
        for c in text.chars() {
            out.push(Got::Ch(c, p.clone()));
            if let Place::File(_, l, col) = &mut p {
                if c == '\n' {
                    *l += 1;
                    *col = 1;
                } else {
                    *col += 1;
                }
            }
        }
    };
    let list = |a: &AstNode| -> Result<Vec<Got>, String> {
        let mut v = vec![];
        got(s, a, &mut v)?;
        Ok(v)
    };
    let at = place(&s.names, &a.location());
    match a.children() {
        AstChildren::Empty => {}
        AstChildren::Constant(t) => chars(&t.to_string(), t.location(), out),
        AstChildren::PreEvaluated(b) => {
            for x in guard(|| b.span().segments().map(|x| (x.to_string(), x.location().clone())).collect::<Vec<_>>())? {
                chars(&x.0, &x.1, out);
            }
        }
        AstChildren::Concat(v) => {
            for x in v {
                got(s, x, out)?;
            }
        }
        AstChildren::VariableReference(n) => out.push(Got::Ref(at, list(n)?)),
        AstChildren::Eval(n) => out.push(Got::Fun("eval", at, vec![list(n)?])),
        AstChildren::Strip(n) => out.push(Got::Fun("strip", at, vec![list(n)?])),
        AstChildren::Words(n) => out.push(Got::Fun("words", at, vec![list(n)?])),
        AstChildren::Word { index, words } => out.push(Got::Fun("word", at, vec![list(index)?, list(words)?])),
    }
    Ok(())
}

pub(super) fn plain(g: &[Got]) -> String {
    let mut s = String::new();
    for x in g {
        match x {
            Got::Ch(c, _) => s.push(*c),
            Got::Ref(_, n) => s += &format!("<ref {}>", plain(n)),
            Got::Fun(f, _, a) => s += &format!("<{} {}>", f, a.iter().map(|x| plain(x)).collect::<Vec<_>>().join("|")),
        }
    }
    s
}

fn wanted(w: &[It]) -> String {
    let mut s = String::new();
    for x in w {
        match x {
            It::Ch(c, _) => s.push(*c),
            It::Ref(_, n) => s += &format!("<ref {}>", wanted(n)),
            It::Fun(f, _, a) => s += &format!("<{} {}>", f, a.iter().map(|x| wanted(x)).collect::<Vec<_>>().join("|")),
        }
    }
    s
}

struct Compare<'a> {
    at: &'a [Vec<At>],
    ctx: &'a mut Ctx,
}

impl<'a> Compare<'a> {
    fn placed(&mut self, what: &str, ids: &[Id], p: &Place) -> Result<(), String> {
        if ids.is_empty() {
            return Ok(());
        }
        let ok: Vec<At> = ids.iter().flat_map(|i| self.at[*i].iter().cloned()).collect();
        match p {
            Place::File(f, l, c) if ok.contains(&(f.clone(), *l, *c)) => Ok(()),
            p => Err(format!("{} is said to be at {:?}, but was written at {:?}", what, p, ok)),
        }
    }

    fn lists(&mut self, w: &[It], g: &[Got]) -> Result<(), String> {
        for (w, g) in w.iter().zip(g) {
            match (w, g) {
                (It::Ch(a, ids), Got::Ch(b, p)) if a == b => {
                    self.ctx.count("characters", 1);
                    self.placed(&format!("{:?}", a), ids, p)?
                }
                (It::Ref(id, a), Got::Ref(p, b)) => {
                    self.ctx.count("references", 1);
                    self.placed("a reference", &[*id], p)?;
                    self.lists(a, b)?
                }
                (It::Fun(f, id, a), Got::Fun(h, p, b)) if f == h => {
                    self.ctx.count(&format!("calls: {}", f), 1);
                    self.placed(&format!("a call of {}", f), &[*id], p)?;
                    for (a, b) in a.iter().zip(b) {
                        self.lists(a, b)?
                    }
                }
                _ => return Err("the trees differ".to_string()),
            }
        }
        if w.len() != g.len() {
            return Err("the trees differ".to_string());
        }
        Ok(())
    }
}

/// A text as it is written, noting where each character of the value goes
struct Write {
    file: &'static str,
    text: String,
    line: u32,
    col: u32,
}

impl Write {
    fn new(file: &'static str) -> Write {
        Write { file, text: String::new(), line: 1, col: 1 }
    }
    fn ch(&mut self, c: char) -> At {
        let at = (self.file.to_string(), self.line, self.col);
        self.text.push(c);
        if c == '\n' {
            self.line += 1;
            self.col = 1;
        } else {
            self.col += 1;
        }
        at
    }
    fn raw(&mut self, s: &str) {
        for c in s.chars() {
            self.ch(c);
        }
    }
    /// Writes part of the value
    fn value(&mut self, text: &[char], from: Id, at: &mut [Vec<At>], doubled: bool) {
        for (i, c) in text.iter().enumerate() {
            let a = self.ch(*c);
            at[from + i].push(a);
            if doubled && *c == '$' {
                let a = self.ch('$');
                at[from + i].push(a);
            }
        }
    }
}

fn shift(v: &mut [It], by: usize) {
    for x in v {
        match x {
            It::Ch(_, ids) => ids.iter_mut().for_each(|i| *i += by),
            It::Ref(i, n) => {
                *i += by;
                shift(n, by)
            }
            It::Fun(_, i, a) => {
                *i += by;
                a.iter_mut().for_each(|x| shift(x, by))
            }
        }
    }
}

fn c27(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 6) {
        return bad_call(src, ctx);
    }
    let shape = src.weighted(&[4, 2, 2, 3, 2, 3, 4, 1]);
    let depth = src.range(1, 3);
    let mut g = Grow { src, text: vec![], gaps: shape <= 1 || shape == 7, calls: 0 };
    // The trees of the value, the second one for what is appended
    let mut want = g.expr(depth, false, true);
    let calls = g.calls;
    let text: Vec<char> = g.text.drain(..).collect();
    let mut more = vec![];
    let mut more_text: Vec<char> = vec![];
    if shape == 1 {
        more = g.expr(depth, false, true);
        more_text = g.text.drain(..).collect();
        shift(&mut more, text.len());
    }
    let src = g.src;
    let trivial_case = calls == 0 && !want.iter().chain(&more).any(|x| matches!(x, It::Ref(..)));
    let mut at: Vec<Vec<At>> = vec![vec![]; text.len() + more_text.len()];
    let mut files = BTreeMap::new();
    // Appending nothing may leave a blank
    let mut nothing = false;
    let mut w = Write::new("main.mk");
    w.raw(src.pick(&["", "\n", "# héllo\n", "Y = 1\n\n"]));
    let op = src.pick(&["=", "?=", " = ", " ?=\t", "=  "]);
    let shape_name = match shape {
        0 => {
            w.raw(src.pick(&["", " ", "  "]));
            w.raw("X");
            w.raw(op);
            w.value(&text, 0, &mut at, false);
            w.raw(src.pick(&["\n", "# c\n", ""]));
            "assignment"
        }
        1 => {
            w.raw("X = ");
            w.value(&text, 0, &mut at, false);
            w.raw("\nX += ");
            w.value(&more_text, text.len(), &mut at, false);
            w.raw("\n");
            if !want.is_empty() && !more.is_empty() {
                want.push(It::Ch(' ', vec![]));
            }
            nothing = more.is_empty();
            want.extend(more);
            "append"
        }
        2 => {
            w.raw(src.pick(&["define X\n", "define X =\n", " define  X ?= \n"]));
            w.value(&text, 0, &mut at, false);
            w.raw("\nendef\n");
            want.push(It::Ch('\n', vec![]));
            "define"
        }
        3 => {
            w.raw("t:\n\t");
            w.value(&text, 0, &mut at, false);
            w.raw(src.pick(&["\n", "\n\nY = 2\n", ""]));
            "recipe"
        }
        4 => {
            w.raw("t: ; ");
            w.value(&text, 0, &mut at, false);
            w.raw("\n");
            "inline recipe"
        }
        5 => {
            w.raw("$(eval X = ");
            w.value(&text, 0, &mut at, true);
            w.raw(")\n");
            "eval"
        }
        6 => {
            // In parts, which must neither begin with a blank nor cut a pair of dollar signs
            let mut cuts = vec![0];
            for i in 1..text.len() {
                if !crate::model::is_blank(text[i]) && src.chance(1, 4) {
                    cuts.push(i);
                }
            }
            cuts.push(text.len());
            for i in 0..cuts.len() - 1 {
                w.raw(&format!("P{} {} ", i, src.pick(&["=", ":="])));
                w.value(&text[cuts[i]..cuts[i + 1]], cuts[i], &mut at, true);
                w.raw("\n");
            }
            w.raw("$(eval X = ");
            for i in 0..cuts.len() - 1 {
                w.raw(&format!("$(P{})", i));
            }
            w.raw(")\n");
            ctx.count("parts", cuts.len() as u64 - 1);
            "eval of parts"
        }
        _ => {
            let mut f = Write::new("in.mk");
            f.raw(src.pick(&["", "\n", "# é\n"]));
            f.raw("X = ");
            f.value(&text, 0, &mut at, false);
            f.raw("\n");
            files.insert("in.mk".to_string(), f.text);
            w.raw("include in.mk\n");
            "include"
        }
    };
    ctx.case = describe(&w.text, &files);
    if trivial_case {
        return trivial();
    }
    about_to_run(ctx);
    put_files(ctx, &files);
    let mut s = Sut::new(&ctx.dir);
    match s.read(&w.text, "main.mk") {
        Outcome::Ok => {}
        o => return Err(format!("reading ended with {:?}", o).into()),
    }
    let ast = match shape {
        3 | 4 if text.is_empty() => return trivial(),
        #[cfg(feature = "hooks")]
        3 | 4 => {
            let rules = s.rules()?;
            let cmds = rules.get("t").map(|r| r.recipe().commands().iter().cloned().collect::<Vec<_>>()).unwrap_or_default();
            if cmds.len() != 1 {
                return Err(format!("there are {} commands", cmds.len()).into());
            }
            cmds[0].verif_unexpanded().clone()
        }
        #[cfg(not(feature = "hooks"))]
        3 | 4 => return trivial(),
        _ => match s.names.variable_name("X").and_then(|v| s.engine.database.get_variable(v)) {
            Some(v) => v.ast().clone(),
            None => return Err("X is not defined".to_string().into()),
        },
    };
    ctx.count(&format!("shape: {}", shape_name), 1);
    let mut is = vec![];
    got(&s, &ast, &mut is)?;
    if shape == 4 {
        // Blanks behind the semicolon
        while matches!(is.first(), Some(Got::Ch(' ', _))) {
            is.remove(0);
        }
    }
    if nothing && is.len() == want.len() + 1 && matches!(is.last(), Some(Got::Ch(' ', _))) {
        is.pop();
    }
    let r = Compare { at: &at, ctx }.lists(&want, &is);
    r.map_err(|e| format!("{}\n  kept:    {}\n  written: {}", e, plain(&is), wanted(&want)))?;
    pass(&ctx.case)
}

/// A call that isn't right, somewhere in a makefile
fn bad_call(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut g = Grow { src, text: vec![], gaps: false, calls: 0 };
    let mut x = vec![];
    let f = g.src.pick(&["strip", "words", "word"]);
    let args = match f {
        "word" => g.src.pick_of(&[1, 3, 4]),
        _ => g.src.pick_of(&[2, 3]),
    };
    let open = g.src.chance(1, 4);
    // Where it stands inside of other expressions
    let outer = g.src.pick_of(&["", "$(V", "${V", "$(strip ", "$(words $(V)", "$(word 1,", "$(word ", "$(eval "]);
    for c in outer.chars() {
        g.put(c);
    }
    if open {
        for c in g.src.pick(&["$(V", "${V", "$(strip a", "${word 1,", "$(V$(W)", "${V(", "$(V{", "$(eval x"]).chars() {
            g.put(c);
        }
    } else {
        let c = g.call(f, args, 1);
        x.push(c);
        for c in outer.chars().take(2) {
            match c {
                '(' => {
                    let s = if outer == "$(word " { ",b)" } else { ")" };
                    s.chars().for_each(|c| {
                        g.put(c);
                    });
                }
                '{' => {
                    g.put('}');
                }
                _ => {}
            }
        }
    }
    let bad: String = g.text.drain(..).collect();
    let src = g.src;
    let kind = match (open, f, args) {
        (true, _, _) => ParseErrorKind::UnternimatedVariable,
        (_, "word", 1) => ParseErrorKind::InsufficientArguments("word"),
        (_, f, _) => ParseErrorKind::ExtraArguments(f),
    };
    let text = match src.below(12) {
        0 => format!("X = {}\n", bad),
        1 => format!("X := a {}\n", bad),
        2 => format!("X ?= {}b\n", bad),
        3 => format!("X += {}\n", bad),
        4 => format!("define X\nline\n{}\nendef\n", bad),
        5 => format!("t: a {}\n", bad),
        6 if open => format!("X = {}", bad),
        6 => format!("{}: a\n", bad),
        7 => format!("t: a ; {}\n", bad),
        8 => format!("t: a\n\tfirst\n\t{}\n", bad),
        // Only parentheses protect commas there
        9 if open || bad.contains('{') => format!("X =\t{} \n", bad),
        9 => format!("ifeq ({},b)\nY = 1\nendif\n", bad),
        10 => format!("include {}\n", bad),
        _ => format!("{}\n", bad),
    };
    let text = format!("BEFORE = 1\n{}AFTER = 1\n", text);
    ctx.case = describe(&text, &BTreeMap::new());
    about_to_run(ctx);
    let mut s = Sut::new(&ctx.dir);
    let r = guard(|| s.engine.read_makefile(&mut s.names, &mut text.as_bytes(), "main.mk")).map_err(|p| format!("reading panicked: {}", p))?;
    match r {
        Err(MakefileError::ParseError(ref k)) if *k == kind => {}
        r => return Err(format!("reading ended with {:?} but should with {:?}", r, kind).into()),
    }
    if !s.defined("BEFORE") || s.defined("AFTER") || s.defined("X") {
        return Err(format!("BEFORE is defined: {}, AFTER: {}, X: {}", s.defined("BEFORE"), s.defined("AFTER"), s.defined("X")).into());
    }
    ctx.count(
        match kind {
            ParseErrorKind::UnternimatedVariable => "error: open",
            ParseErrorKind::InsufficientArguments(_) => "error: insufficient",
            _ => "error: extra",
        },
        1,
    );
    let _ = Kind::Unterminated;
    pass(&ctx.case)
}
