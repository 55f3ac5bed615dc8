//! Generator of makefiles. Words are unique, so that every piece of text has
//! exactly one place it can have come from.

use crate::source::Src;
use std::collections::BTreeMap;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub assign: usize,
    pub define: usize,
    pub cond: usize,
    pub rule: usize,
    pub eval: usize,
    pub include: usize,
    pub min_stmts: usize,
    pub max_stmts: usize,
    /// Out of 100: how often layout is varied
    pub noise: usize,
    /// Out of 100: how often references are substitution references
    pub subst: usize,
    /// Out of 100: how often names are quoted
    pub escapes: usize,
    pub unicode: bool,
    /// Out of 100: how often an expression has a reference
    pub refs: usize,
    pub crlf: bool,
    pub max_depth: usize,
    /// Appends more likely
    pub history: bool,
}

pub const BASE: Cfg = Cfg {
    assign: 10,
    define: 2,
    cond: 3,
    rule: 5,
    eval: 2,
    include: 0,
    min_stmts: 3,
    max_stmts: 12,
    noise: 15,
    subst: 15,
    escapes: 0,
    unicode: true,
    refs: 50,
    crlf: false,
    max_depth: 3,
    history: false,
};

/// Variables, in the order in which recursive values may refer to each other
pub const VARS: &[&str] = &["A", "L.st", "BB", "x", "C_1", "C_2", "d-e", "ünï", "Q", "obj_s", "s;v", "Z/9"];
/// Never assigned by the generator
pub const UNDEF: &[&str] = &["NOPE", "u", "un.def"];
pub const TARGETS: &[&str] = &["all", "t1.o", "t2", "dir/t3", "größe"];

pub struct Gen<'a> {
    pub src: &'a mut Src,
    pub cfg: Cfg,
    /// The makefile
    pub text: String,
    /// The same in its plainest layout
    pub canon: String,
    pub files: BTreeMap<String, String>,
    pub serial: usize,
    pub has_define: bool,
    /// A `$(eval` argument is being generated: no layout variations, no hashes
    quiet: usize,
    depth: usize,
    /// Offsets in `text` and `canon` at which top level statements start
    pub starts: Vec<(usize, usize)>,
    in_rule: bool,
    /// What recipe lines start with
    pub cmd: char,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ctx {
    /// Right hand side of an assignment
    Value,
    /// One word of a target or dependency list, or a name
    Word,
    /// Operand of a conditional in parentheses
    Cond,
    /// Operand of a conditional in quotes
    Quoted,
    /// Text of a recipe
    Recipe,
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Src, cfg: Cfg) -> Gen<'a> {
        Gen {
            src,
            cfg,
            text: String::new(),
            canon: String::new(),
            files: BTreeMap::new(),
            serial: 0,
            has_define: false,
            quiet: 0,
            depth: 0,
            starts: vec![],
            in_rule: false,
            cmd: '\t',
        }
    }

    pub fn both(&mut self, s: &str) {
        self.text.push_str(s);
        self.canon.push_str(s);
    }

    fn noisy(&mut self) -> bool {
        let n = self.cfg.noise;
        self.quiet == 0 && self.src.chance(n, 100)
    }

    /// Blanks that have no meaning, `plain` in the plain layout
    pub fn free(&mut self, plain: &str) {
        self.canon.push_str(plain);
        if self.noisy() {
            let opts: &[&str] = if plain.is_empty() { &["", " ", "\t", "   "] } else { &["  ", " \t", " \\\n ", "\\\n", " \\\n\\\n\t "] };
            let s = self.src.pick(opts);
            self.text.push_str(s);
        } else {
            self.text.push_str(plain);
        }
    }

    /// A single blank inside of a value
    pub fn gap(&mut self) {
        self.canon.push(' ');
        if self.noisy() {
            let s = self.src.pick(&["\\\n", " \\\n", " \\\n  ", "\t\\\n \t", "\\\n\\\n", " \\\n   \\\n  "]);
            self.text.push_str(s);
        } else {
            self.text.push(' ');
        }
    }

    /// End of a line, possibly with a comment. `glued` comments must follow
    /// the text directly, because blanks in front of them count
    pub fn eol(&mut self, glued: bool) {
        if self.noisy() {
            if !glued && self.src.chance(1, 2) {
                let s = self.src.pick(&[" ", "  ", "\t"]);
                self.text.push_str(s);
            }
            if self.src.chance(1, 2) {
                let s = self.src.pick(&["#", "# c", "# a # b", "## $(A) := x", "# c\\\n more", "# é: x \\\\"]);
                self.text.push_str(s);
            }
        }
        self.both("\n");
    }

    /// Lines without meaning
    pub fn filler(&mut self) {
        while self.noisy() {
            let s = self.src.pick(&[
                "\n",
                "# comment\n",
                "  # A = comment\n",
                "   \n",
                "# continued \\\n A = no\n",
                "\\\n\n",
                "#\\\n#\\\n\n",
                "# ünï ✓ \\\\\n",
                "##\n\n",
            ]);
            self.text.push_str(s);
        }
    }

    pub fn word(&mut self) -> String {
        self.serial += 1;
        let n = self.serial;
        let w = match self.src.weighted(&[8, 2, 2, 1, 1, 2]) {
            0 => format!("w{}", n),
            1 => format!("src/w{}", n),
            2 => format!("W{}-y", n),
            3 if self.cfg.unicode => format!("é{}ß", n),
            4 if self.cfg.unicode => format!("日本{}", n),
            _ => format!("lib{}_z", n),
        };
        let sfx = self.src.pick(&["", "", ".c", ".o", ".c", ".tar.gz", ".cc"]);
        w + sfx
    }

    fn punct(&mut self, ctx: Ctx) -> String {
        let opts: &[&str] = match ctx {
            Ctx::Value => &["$$", "=", ":", ",", ";", "(b)", "{c}", "\\", "a\\b", "%", "'", "\"", "!", "?", "+", "@", "|", "&&", "→", "\\#", "a\\#b", "\\\\\\#", "😀", "𝄞é"],
            Ctx::Recipe => &["$$", "=", ":", ",", ";", "(b)", "\\", "%", "'", "\"", "!", ">", "@", "|", "&&", "-", "\t", "\\#", "\\\\\\#c", "😀"],
            Ctx::Word => &[".", "_", "-", "/", "@", "\\#"],
            Ctx::Cond => &["$$", "=", ":", ";", "(b)", "(b,c)", "%", "!", "-", "\\#"],
            Ctx::Quoted => &["$$", "=", ":", ";", "(b", ",", "%", "!", ")", "\\#"],
        };
        self.src.pick(opts).to_string()
    }

    /// A reference to a variable below `maxvar`
    pub fn reference(&mut self, maxvar: usize, depth: usize) -> String {
        let name = if self.src.chance(1, 12) {
            self.src.pick(UNDEF).to_string()
        } else {
            let i = self.src.below(maxvar.max(1));
            VARS[i].to_string()
        };
        if maxvar == 0 {
            return format!("$({})", self.src.pick(UNDEF));
        }
        let subst = self.cfg.subst;
        if self.src.chance(subst, 100) {
            let pat = self.subst_pattern(maxvar, depth);
            let braces = self.src.chance(1, 3);
            return if braces { format!("${{{}:{}}}", name, pat) } else { format!("$({}:{})", name, pat) };
        }
        match self.src.weighted(&[8, 4, 2, 2, 1, 1]) {
            0 => format!("$({})", name),
            1 => format!("${{{}}}", name),
            2 if name.chars().count() == 1 => format!("${}", name),
            3 => match self.src.below(4) {
                // Computed names
                0 => "$($(PTR))".to_string(),
                1 => "$(C_$(IDX))".to_string(),
                2 => "${${PTR}}".to_string(),
                _ => format!("$(C_{})", self.expr(maxvar.min(2), depth + 3, Ctx::Word)),
            },
            4 => format!("$( {} )", name),
            5 => self.src.pick(&["$(eval_)", "$(D$$n)", "${$$}", "$(D$${IDX})", "$(D$$${IDX})"]).to_string(),
            _ => format!("$({})", name),
        }
    }

    fn subst_pattern(&mut self, maxvar: usize, depth: usize) -> String {
        match self.src.below(14) {
            12 => self.src.pick(&["=.o", "=", "%=%", ".c=.c"]).into(),
            13 => self.src.pick(&["$(NOPE)=.o", "%$(NOPE)=$(NOPE)%", "$(NOPE)%=%$(NOPE)"]).into(),
            0 | 1 => ".c=.o".into(),
            2 => "%.c=%.o".into(),
            3 => "w%=v%".into(),
            4 => "%=pre/%.post".into(),
            5 => "src/%.c=obj/%.o".into(),
            6 => ".o=".into(),
            7 => "%=X".into(),
            8 => ".c=%.x".into(),
            9 if depth < self.cfg.max_depth => {
                let e = self.expr(maxvar.min(3), depth + 2, Ctx::Word);
                format!(".c={}", e)
            }
            10 => "%.cc=%_%".into(),
            11 => "é%=ü%".into(),
            _ => "%c=%o".into(),
        }
    }

    pub fn expr(&mut self, maxvar: usize, depth: usize, ctx: Ctx) -> String {
        let mut s = String::new();
        let n = if ctx == Ctx::Word { self.src.range(1, 2) } else { self.src.range(0, 4) };
        for i in 0..n {
            if i > 0 && ctx != Ctx::Word {
                let b = self.src.pick(&[" ", " ", " ", "", "  ", "\t"]);
                s.push_str(b);
            }
            let refs = self.cfg.refs;
            if depth < self.cfg.max_depth && self.src.chance(refs, 100) {
                let r = if (ctx == Ctx::Value || ctx == Ctx::Recipe) && self.src.chance(1, 25) {
                    // Brackets of the other kind don't count, those of its own do
                    self.src.pick(&["$(n{m)", "$(n}m)", "${n(m}", "${n)m}", "$(n(m)o)", "${n{m}o}", "$({)", "${)}"]).to_string()
                } else {
                    self.reference(maxvar, depth)
                };
                s.push_str(&r);
            } else if self.src.chance(1, 5) {
                let p = self.punct(ctx);
                s.push_str(&p);
            } else {
                let w = self.word();
                s.push_str(&w);
            }
        }
        // Backslashes at the end mean something else
        while s.ends_with('\\') {
            s.pop();
        }
        s
    }

    fn assign_name(&mut self) -> (String, usize) {
        let i = self.src.below(VARS.len());
        match self.src.below(12) {
            0 => (self.src.pick(&["$(PTR)", "$(PTR)", "${PTR:%=%}", "$(PTR:%= %)", "$(NO W)$(PTR)"]).into(), 1),
            1 => ("C_$(IDX)".into(), 1),
            2 if self.src.chance(1, 3) => (self.src.pick(&["D$$n", "$$", "$$d(", "D$$$(IDX)", "$(IDX)$$n", "D$x", "$x", "$x.$x"]).into(), 1),
            _ => (VARS[i].to_string(), i),
        }
    }

    /// Values, with the blanks in it subject to layout
    fn value(&mut self, maxvar: usize) {
        let n = self.src.range(0, 3);
        for i in 0..n {
            if i > 0 {
                self.gap();
            }
            let e = self.expr(maxvar, 0, Ctx::Value);
            if i == 0 {
                self.both(e.trim_start());
            } else {
                // The blank in front comes from the gap
                self.both(e.trim());
            }
        }
        // No trailing gap, so that layout doesn't leave an open continuation
        let t = self.src.pick(&["", "", "", " "]);
        self.both(t);
    }

    pub fn assign(&mut self) {
        if self.src.chance(1, 8) {
            let i = self.src.below(VARS.len());
            let op = self.src.pick(&["=", ":=", "?="]);
            let l = format!("PTR {} {}\n", op, VARS[i]);
            self.both(&l);
            return;
        }
        if self.src.chance(1, 8) {
            let i = self.src.pick(&["1", "2", "3"]);
            let op = self.src.pick(&["=", ":=", "::="]);
            let l = format!("IDX{}{}\n", op, i);
            self.both(&l);
            return;
        }
        let (name, idx) = self.assign_name();
        let w: &[usize] = if self.cfg.history { &[4, 4, 1, 4, 8] } else { &[5, 4, 1, 2, 3] };
        let op = ["=", ":=", "::=", "?=", "+="][self.src.weighted(w)];
        // Only simple values may refer to any variable
        let maxvar = if op.starts_with(':') { VARS.len() } else { idx };
        if self.noisy() {
            let s = self.src.pick(&[" ", "  "]);
            self.text.push_str(s);
        }
        self.both(&name);
        self.free(" ");
        self.both(op);
        self.free(" ");
        self.value(maxvar);
        self.eol(true);
    }

    /// A list of names, one on each line
    fn name_lines(&mut self) {
        let mut l = String::from("define LN\n");
        let n = self.src.range(0, 4);
        for _ in 0..n {
            let pre = self.src.pick(&["", "", " ", "\t", "\n", "\n\n "]);
            let w = if self.src.chance(1, 4) { self.src.pick(TARGETS).to_string() } else { self.word() };
            let post = self.src.pick(&["\n", "\n", " \n", "\n\n", "\t\n"]);
            l.push_str(&format!("{}{}{}", pre, w, post));
        }
        l.push_str("endef\n");
        self.both(&l);
    }

    pub fn define(&mut self) {
        self.has_define = true;
        if self.src.chance(1, 6) {
            self.name_lines();
            return;
        }
        let (name, i) = self.assign_name();
        let head = format!("define {}", name);
        self.both(&head);
        let op = self.src.pick(&["", " =", " ?=", " +=", "=", " :=", "::= "]);
        self.both(op);
        let maxvar = if op.contains(':') { VARS.len() } else { i };
        self.both("\n");
        let n = self.src.range(0, 4);
        for _ in 0..n {
            if self.src.chance(1, 3) {
                let l = self.src.pick(&[
                    "ifeq (a,b)\n",
                    "endif\n",
                    "else\n",
                    "\tcmd $$@\n",
                    "include nope.mk\n",
                    "A = b\n",
                    "\n",
                    "t1: t2 ; x\n",
                    "endefx\n",
                    "defined\n",
                    "#\n",
                    "x # endef\n",
                    "a\\b\n",
                    "\t\n",
                    "  \n",
                    "endif x y\n",
                    "'\"\n",
                    "ifeq (a\n",
                    "a $(NO\nW) b\n",
                    "${C_1\n} x\n",
                ]);
                self.both(l);
                continue;
            }
            let e = self.expr(maxvar, 1, Ctx::Value);
            let pre = self.src.pick(&["", "", "\t", "  ", "# "]);
            self.both(pre);
            let ok = !(e.trim_start().starts_with("define") || e.trim_start().starts_with("endef"));
            if ok {
                self.both(&e);
            }
            self.both("\n");
        }
        if self.src.chance(1, 8) {
            let l = self.src.pick(&["define inner\nx\nendef\n", "define inner\nendef\n", "  define inner =\ndefine in2\ny\n\tendef\nendef\n"]);
            self.both(l);
        }
        let e = self.src.pick(&["endef\n", "endef\n", "  endef\n", "endef # done\n"]);
        self.both(e);
    }

    pub fn cond_operand(&mut self, ctx: Ctx) -> String {
        match self.src.below(4) {
            0 => self.src.pick(&["", "yes", "no", "1"]).to_string(),
            1 => {
                let n = self.src.below(VARS.len());
                format!("$({})", VARS[n])
            }
            _ => {
                let d = self.cfg.max_depth;
                self.expr(VARS.len(), d.saturating_sub(1), ctx)
            }
        }
    }

    pub fn cond(&mut self, body: &mut dyn FnMut(&mut Gen)) {
        let kw = self.src.pick(&["ifeq", "ifneq"]);
        self.both(kw);
        match self.src.below(4) {
            0 | 1 => {
                self.free(" ");
                let a = self.cond_operand(Ctx::Cond);
                let b = if self.src.chance(1, 3) { a.clone() } else { self.cond_operand(Ctx::Cond) };
                let s = self.src.pick(&[",", ", ", " , "]);
                let l = format!("({}{}{})", a, s, b);
                self.both(&l);
            }
            k => {
                let (q, r) = if k == 2 { ('"', '\'') } else { ('\'', '"') };
                let a = self.cond_operand(Ctx::Quoted).replace(q, "");
                let b = if self.src.chance(1, 3) { a.clone() } else { self.cond_operand(Ctx::Quoted) };
                let q2 = if self.src.chance(1, 4) { r } else { q };
                let b = b.replace(q2, "");
                let l = format!(" {}{}{} {}{}{}", q, a, q, q2, b, q2);
                self.both(&l);
            }
        }
        self.eol(false);
        let n = self.src.range(0, 3);
        for _ in 0..n {
            body(self);
        }
        if self.src.chance(1, 2) {
            self.both("else");
            self.eol(false);
            let n = self.src.range(0, 3);
            for _ in 0..n {
                body(self);
            }
        }
        self.both("endif");
        self.eol(false);
    }

    /// A file name with quoting backslashes
    pub fn quoted_name(&mut self) -> String {
        let mut s = String::new();
        let n = self.src.range(1, 3);
        for i in 0..n {
            let w = if self.src.chance(1, 2) { self.word() } else { self.src.pick(&["a", "b", "dir/c"]).to_string() };
            s.push_str(&w);
            if i + 1 < n {
                let q = self.src.pick(&["\\ ", "\\:", "\\\\\\:", "\\x", "\\\\y", "\\\\\\ ", "\\ \\ ", "\\\t"]);
                s.push_str(q);
            }
        }
        s
    }

    fn target_name(&mut self) -> String {
        let esc = self.cfg.escapes;
        if self.src.chance(esc, 100) {
            return self.quoted_name();
        }
        match self.src.below(8) {
            0 => {
                let r = self.reference(VARS.len(), 1);
                r
            }
            1 if self.has_define && self.src.chance(1, 4) => self.src.pick(&["$(LN)", "$(LN)x", "${LN:%=%}"]).to_string(),
            1 => self.word(),
            2 => {
                let w = self.word();
                let r = self.reference(VARS.len(), 1);
                format!("{}{}", r, w)
            }
            _ => self.src.pick(TARGETS).to_string(),
        }
    }

    fn dep(&mut self) -> String {
        let esc = self.cfg.escapes;
        if self.src.chance(esc, 100) {
            return self.quoted_name();
        }
        match self.src.below(6) {
            0 => self.reference(VARS.len(), 1),
            1 => self.expr(VARS.len(), 1, Ctx::Word),
            2 => self.src.pick(TARGETS).to_string(),
            3 => self.src.pick(&["define", "include", "else", "endif.x", "override", "$(LN)", "$(LN:.c=.o)", "${LN}x"]).to_string(),
            _ => self.word(),
        }
    }

    pub fn recipe_text(&mut self) -> String {
        let e = self.expr(VARS.len(), 1, Ctx::Recipe);
        let pre = self.src.pick(&["", "@", "-", "echo ", " ", "\t"]);
        format!("{}{}", pre, e)
    }

    pub fn rule(&mut self) {
        let n = self.src.range(1, 2);
        for i in 0..n {
            if i > 0 {
                self.free(" ");
            }
            let t = self.target_name();
            self.both(&t);
        }
        self.free("");
        let c = if self.src.chance(1, 8) { "::" } else { ":" };
        self.both(c);
        let n = self.src.range(0, 3);
        for _ in 0..n {
            self.free(" ");
            let d = self.dep();
            self.both(&d);
        }
        if self.src.chance(1, 6) {
            let r = self.recipe_text();
            self.both(" ; ");
            self.both(&r);
        }
        self.eol(true);
        if self.src.chance(2, 3) {
            let n = self.src.range(0, 3);
            for _ in 0..n {
                self.recipe_line();
            }
            if self.quiet == 0 && self.src.chance(1, 10) {
                // A conditional inside of a recipe
                let depth = self.depth;
                self.depth += 10;
                self.cond(&mut |g: &mut Gen| g.recipe_line());
                self.depth = depth;
                self.recipe_line();
            }
        }
        self.in_rule = true;
    }

    pub fn recipe_line(&mut self) {
        let t = self.recipe_text();
        let c = self.cmd.to_string();
        self.both(&c);
        self.both(&t);
        while self.src.chance(1, 7) {
            let w = match self.src.weighted(&[4, 2, 1, 1, 1, 1]) {
                0 => self.word(),
                1 => self.expr(VARS.len(), 1, Ctx::Recipe),
                2 => String::new(),
                3 => self.src.pick(&[" ", "\t", "  x", "\t y", "z\\\\", "\\q"]).to_string(),
                4 => self.src.pick(&["\\# no", "a\\#b", "\\\\\\#"]).to_string(),
                _ => format!("${{{}}}", self.src.pick(VARS)),
            };
            let tab = if self.src.chance(1, 2) { &c[..] } else { "" };
            let gap = self.src.pick(&[" ", "", " ", "\t", "\\\\"]);
            let l = format!("{}\\\n{}{}", gap, tab, w);
            self.both(&l);
        }
        if self.src.chance(1, 25) {
            let t = self.src.pick(&["# c", " # c", "#", " # $(A"]);
            self.both(t);
        }
        self.both("\n");
        if self.noisy() {
            let f = self.src.pick(&["\n", "# between\n", "\t# also between\n", "  \n"]);
            self.text.push_str(f);
        }
    }

    /// `$(eval ...)`. The argument is expanded first.
    pub fn eval(&mut self) {
        self.quiet += 1;
        match self.src.below(5) {
            0 => {
                // From a multi line variable
                self.has_define = true;
                let save = std::mem::take(&mut self.text);
                let save_canon = std::mem::take(&mut self.canon);
                let n = self.src.range(1, 3);
                for _ in 0..n {
                    if self.src.chance(1, 2) {
                        self.assign()
                    } else {
                        self.rule()
                    }
                }
                let inner = std::mem::replace(&mut self.text, save);
                self.canon = save_canon;
                let escape = self.src.chance(2, 3);
                let body = if escape { inner.replace('$', "$$") } else { inner };
                let l = format!("define CODE\n{}endef\n$(eval $(CODE))\n", body);
                self.both(&l);
            }
            1 => {
                let (name, _) = self.assign_name();
                let e = self.expr(VARS.len(), 1, Ctx::Word);
                let op = self.src.pick(&["=", ":=", "?="]);
                let open = if self.src.chance(1, 3) { ("${eval ", "}") } else { ("$(eval ", ")") };
                let l = format!("{}{} {} {}{}\n", open.0, name, op, e, open.1);
                self.both(&l);
            }
            2 => {
                let t = self.src.pick(TARGETS);
                let d = self.dep();
                let l = format!("$(eval {}: {})\n", t, d);
                self.both(&l);
            }
            3 => {
                // Inside of an immediate context
                let (name, _) = self.assign_name();
                let w = self.word();
                let i = self.src.below(VARS.len());
                let l = format!("{} := pre$(eval {} := {})$({})\n", VARS[i], name, w, name);
                self.both(&l);
            }
            _ => {
                let i = self.src.range(0, VARS.len() - 1);
                let e = self.expr(i, 1, Ctx::Word).replace('$', "$$");
                let l = format!("$(eval {} = {})\n", VARS[i], e);
                self.both(&l);
            }
        }
        self.quiet -= 1;
    }

    pub fn include(&mut self) {
        let kw = self.src.pick(&["include", "-include", "sinclude", "include"]);
        let mut names = vec![];
        let n = self.src.range(1, 2);
        for _ in 0..n {
            let known: Vec<String> = self.files.keys().cloned().collect();
            if !known.is_empty() && self.src.chance(1, 4) {
                names.push(self.src.pick_of(&known));
                continue;
            }
            if kw != "include" && self.src.chance(1, 3) {
                names.push("missing.mk".to_string());
                continue;
            }
            let name = format!("{}{}.mk", self.src.pick(&["inc", "sub/inc", "ünï"]), self.files.len());
            // Reserve the name, then fill it
            self.files.insert(name.clone(), String::new());
            let save = std::mem::take(&mut self.text);
            let save_canon = std::mem::take(&mut self.canon);
            let save_starts = std::mem::take(&mut self.starts);
            self.depth += 1;
            let n = self.src.range(0, 4);
            for _ in 0..n {
                self.statement();
            }
            self.depth -= 1;
            self.starts = save_starts;
            self.canon = save_canon;
            let inner = std::mem::replace(&mut self.text, save);
            self.files.insert(name.clone(), inner);
            names.push(name);
        }
        if self.src.chance(1, 4) {
            let l = format!("INC := {}\n{} $(INC)", names.join(" "), kw);
            self.both(&l);
        } else {
            let l = format!("{} {}", kw, names.join(" "));
            self.both(&l);
        }
        self.eol(false);
    }

    pub fn statement(&mut self) {
        self.filler();
        if self.depth == 0 {
            self.starts.push((self.text.len(), self.canon.len()));
        }
        let c = self.cfg;
        let cond = if self.depth < 3 { c.cond } else { 0 };
        let include = if self.depth < 2 { c.include } else { 0 };
        match self.src.weighted(&[c.assign, c.define, cond, c.rule, c.eval, include]) {
            0 => self.assign(),
            1 => self.define(),
            2 => {
                self.depth += 1;
                self.cond(&mut |g: &mut Gen| g.statement());
                self.depth -= 1;
            }
            3 => self.rule(),
            4 => self.eval(),
            _ => self.include(),
        }
    }

    pub fn program(&mut self) {
        let n = self.src.range(self.cfg.min_stmts, self.cfg.max_stmts);
        for _ in 0..n {
            self.statement();
        }
        self.filler();
        if self.noisy() && self.text.ends_with('\n') && !self.text.ends_with("\\\n\n") && !self.text.ends_with("\\\n") {
            self.text.pop();
        }
        if self.noisy() {
            self.text.insert(0, '\u{feff}');
            for s in self.starts.iter_mut() {
                s.0 += '\u{feff}'.len_utf8();
            }
        }
        if self.cfg.crlf && !self.has_define && self.src.chance(1, 2) {
            self.text = self.text.replace('\n', "\r\n");
            for f in self.files.values_mut() {
                *f = f.replace('\n', "\r\n");
            }
            self.starts.clear();
        }
    }
}
