//! The language: generated programs, with the reference model as the oracle
use super::*;
use crate::gen::{Ctx as At, VARS};
use crate::model::{Kind, Stats};

pub fn cfg_of(id: &str) -> Cfg {
    match id {
        "C01" => Cfg { subst: 10, refs: 65, eval: 1, max_depth: 4, ..BASE },
        "C02" => Cfg { assign: 20, define: 1, cond: 1, rule: 1, eval: 1, history: true, min_stmts: 6, max_stmts: 20, subst: 5, ..BASE },
        "C03" => Cfg { cond: 14, define: 1, rule: 4, eval: 0, max_stmts: 8, ..BASE },
        "C04" => Cfg { rule: 20, assign: 6, define: 1, cond: 1, subst: 10, ..BASE },
        "C05" => Cfg { noise: 45, crlf: true, rule: 6, define: 1, eval: 1, max_stmts: 9, ..BASE },
        "C06" => Cfg { escapes: 65, rule: 16, assign: 4, eval: 1, cond: 0, define: 0, max_stmts: 7, ..BASE },
        "C09" => Cfg { eval: 12, rule: 3, assign: 8, ..BASE },
        "C10" => Cfg { include: 8, assign: 8, rule: 5, cond: 2, ..BASE },
        "C13" => Cfg { include: 1, rule: 6, max_stmts: 8, ..BASE },
        "C21" => Cfg { define: 14, eval: 4, assign: 6, rule: 2, cond: 1, ..BASE },
        "C23" => Cfg { rule: 14, assign: 10, define: 2, cond: 2, refs: 60, ..BASE },
        _ => BASE,
    }
}

fn model_check(src: &mut Src, ctx: &mut Ctx, cfg: Cfg, relevant: fn(&Stats) -> bool) -> Verdict {
    let p = program(src, cfg);
    ctx.case = describe(&p.text, &p.files);
    match differential(ctx, &p.text, &p.files)? {
        Some((m, _)) if relevant(&m.stats) => pass(&ctx.case),
        _ => trivial(),
    }
}

const MODEL: &[&str] = &[
    "the reference model (harness/src/model.rs) says what the language means; it was compared with GNU make 4.3",
    "constructs hastur does not implement, and inputs whose meaning is nowhere specified, are not judged (counted as not_judged)",
];

macro_rules! check {
    ($name:ident, $id:expr, $run:expr, $quick:expr, $thorough:expr, $rule:expr, $must:expr) => {
        pub const $name: Check = Check {
            id: $id,
            run: $run,
            quick: $quick,
            thorough: $thorough,
            rule: $rule,
            assumptions: MODEL,
            must_see: $must,
            known: no_known,
            known_crash: no_crash,
        };
    };
}

check!(C01, "C01", c01, 250_000, 6_000_000,
    "Random makefiles with references in all their forms ($(X), ${X}, $X, $$, nested and computed names, undefined names, non ASCII text); every variable and command is expanded and compared with the reference model. Non trivial: the program was judged and contains references.",
    &["references", "computed_names", "values_compared"]);
fn c01(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 2) {
        return c01_direct(src, ctx);
    }
    let p = program(src, cfg_of("C01"));
    ctx.case = describe(&p.text, &p.files);
    match differential(ctx, &p.text, &p.files)? {
        Some((m, mut s)) if m.stats.refs > 0 => {
            both_ways(ctx, &m, &mut s)?;
            pass(&ctx.case)
        }
        _ => trivial(),
    }
}

/// Variable::expand is a shorthand for evaluating the value
fn both_ways(ctx: &mut Ctx, m: &Model, s: &mut Sut) -> Result<(), String> {
    for n in names_of(m) {
        let v = match m.var_value(&n) {
            Some(Ok((v, _))) => v,
            _ => continue,
        };
        let before = s.engine.database.clone();
        let id = s.names.variable_name(&n).ok_or("a variable has no name")?;
        let var = before.get_variable(id).ok_or("a variable has gone")?;
        let got = guard(|| var.expand(&mut s.names, &mut s.engine))?;
        s.engine.database = before.clone();
        if got != v {
            return Err(format!("expand() of {:?} gives {:?} instead of {:?}", n, got, v));
        }
        ctx.count("expansions_by_shorthand", 1);
    }
    Ok(())
}

/// Few variables, one deep expression
fn c01_direct(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let cfg = Cfg { noise: 0, ..cfg_of("C01") };
    let mut g = Gen::new(src, cfg);
    let n = g.src.range(1, 5);
    for i in 0..n {
        let j = g.src.range(0, 1) + 2 * i;
        let e = g.expr(j, 0, At::Value);
        let op = g.src.pick(&["=", "=", ":=", "?="]);
        let l = format!("{}{}{}\n", VARS[j], op, e);
        g.both(&l);
    }
    let ptr = VARS[g.src.below(2 * n)];
    let idx = g.src.pick(&["1", "2"]);
    let l = format!("PTR={}\nIDX={}\n", ptr, idx);
    g.both(&l);
    let e = g.expr(VARS.len(), 0, At::Value);
    let l = format!("RES={}\n", e);
    g.both(&l);
    let s = g.src.pick(&["RES2:=x$(RES)y\n", "", "t:;x$(RES)y\n", "t: $(RES)\n"]);
    // The last one only if it is a plain list of words
    let s = if s.starts_with("t: ") && e.contains(|c: char| ":;=\\%$'\"{}()".contains(c)) { "" } else { s };
    g.both(s);
    let text = g.text;
    ctx.case = text.clone();
    match differential(ctx, &text, &BTreeMap::new())? {
        Some((m, mut s)) if m.stats.refs > 0 || text.contains('$') => {
            both_ways(ctx, &m, &mut s)?;
            pass(&text)
        }
        _ => trivial(),
    }
}

check!(C02, "C02", c02, 250_000, 6_000_000,
    "Random histories of =, :=, ::=, ?= and += on few variables, interleaved with definitions, evals and conditionals; after the history (and after each of its statements in a quarter of the cases) every variable is compared with the reference model. Non trivial: at least two assignments took effect.",
    &["assignments", "appends", "conditional_assignments_kept"]);
fn c02(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 2) {
        // Two or three variables only
        let n = src.range(2, 10);
        let mut text = String::new();
        let mut serial = 0;
        for _ in 0..n {
            let v = src.below(3);
            let name = ["A", "B", "C"][v];
            let op = src.pick(&["=", ":=", "::=", "?=", "+=", "+="]);
            let k = src.range(0, 2);
            let mut val = vec![];
            for _ in 0..k {
                if src.chance(1, 2) {
                    // Recursive values refer to earlier variables only, mostly
                    let max = if op.starts_with(':') || op == "+=" { 3 } else { v };
                    if max > 0 {
                        let r = ["A", "B", "C"][src.below(max)];
                        val.push(format!("$({})", r));
                        continue;
                    }
                }
                serial += 1;
                val.push(format!("v{}", serial));
            }
            let (b, a) = src.pick_of(&[(" ", " "), ("", ""), (" ", ""), ("", " ")]);
            let cond = src.chance(1, 6);
            if cond {
                text.push_str("ifeq ($(A),)\n");
            }
            if src.chance(1, 12) {
                text.push_str(&format!("define {}{}\n{}\nendef\n", name, src.pick(&["", " =", " +=", " ?="]), val.join(" ")));
            } else if src.chance(1, 12) {
                text.push_str(&format!("$(eval {}{}{}{}{})\n", name, b, op, a, val.join(" ").replace('$', "$$")));
            } else {
                text.push_str(&format!("{}{}{}{}{}\n", name, b, op, a, val.join(" ")));
            }
            if cond {
                text.push_str("endif\n");
            }
        }
        ctx.case = text.clone();
        return match differential(ctx, &text, &BTreeMap::new())? {
            Some((m, _)) if m.stats.assigns > 1 => pass(&text),
            _ => trivial(),
        };
    }
    model_check(src, ctx, cfg_of("C02"), |s| s.assigns > 1)
}

check!(C03, "C03", c03, 200_000, 5_000_000,
    "Random programs of nested ifeq/ifneq/else/endif (parenthesised and quoted operands, references, blanks, inside of recipes, around and between definitions, includes and rules, up to depth 6), compared with the reference model. Non trivial: at least one conditional was evaluated and one line skipped.",
    &["conditionals_evaluated", "conditionals_skipped", "lines_skipped"]);
fn c03(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 2) {
        return model_check(src, ctx, cfg_of("C03"), |s| s.conds_taken > 0 && s.skipped_lines > 0);
    }
    // A tree of conditionals, each leaf leaving a mark
    let mut text = String::new();
    for v in ["A", "B", "E"].iter() {
        let op = src.pick(&["=", ":="]);
        let val = src.pick(&["", "1", "yes", "a b", "é", " x", "a,b", "(x)"]);
        text.push_str(&format!("{} {} {}\n", v, op, val));
    }
    let mut serial = 0;
    if src.chance(1, 4) {
        text.push_str("pre: x\n");
    }
    tree(src, 0, &mut text, &mut serial);
    text.push_str("END = reached\n");
    ctx.case = text.clone();
    match differential(ctx, &text, &BTreeMap::new())? {
        Some((m, _)) if m.stats.conds_taken > 0 && m.stats.skipped_lines > 0 => pass(&text),
        _ => trivial(),
    }
}

fn operand(src: &mut Src) -> String {
    src.pick(&["", "1", "yes", "$(A)", "$(B)", "$(E)", "${A}", "$(A)$(B)", " $(A) ", "$(NOPE)", "a b", "é", "x$(A)", "$($(NOPE))", "$$", "$(A:1=yes)"]).to_string()
}

fn tree(src: &mut Src, depth: usize, text: &mut String, serial: &mut usize) {
    let n = src.range(1, if depth == 0 { 4 } else { 3 });
    for _ in 0..n {
        let kind = src.weighted(&[6, if depth < 6 { 6 } else { 0 }, 1, 2, 1, 1, 1]);
        *serial += 1;
        let s = *serial;
        match kind {
            0 => text.push_str(&format!("M{} = {}\n", s, s)),
            1 => {
                let ind = src.pick(&["", "", "  ", "    "]);
                let kw = src.pick(&["ifeq", "ifneq", "ifeq", "IFEQ"]);
                let a = operand(src);
                let b = if src.chance(1, 3) { a.clone() } else { operand(src) };
                let gap = src.pick(&["", " ", "  "]);
                let line = match src.below(4) {
                    0 | 1 => {
                        let c = src.pick(&[",", ", ", " ,", " , "]);
                        format!("{}{}{}({}{}{})", ind, kw, gap, a, c, b)
                    }
                    2 => format!("{}{} \"{}\" \"{}\"", ind, kw, a, b),
                    _ => format!("{}{} '{}' \"{}\"", ind, kw, a, b),
                };
                let tail = src.pick(&["", "", "", " # c", "  "]);
                text.push_str(&format!("{}{}\n", line, tail));
                tree(src, depth + 1, text, serial);
                if src.chance(1, 2) {
                    let e = src.pick(&["else\n", "else # x\n", "  else\n", "else  \n"]);
                    text.push_str(e);
                    tree(src, depth + 1, text, serial);
                }
                let e = src.pick(&["endif\n", "endif # x\n", "  endif\n", "endif  \n"]);
                text.push_str(e);
            }
            2 => text.push_str(&format!("r{}: d{}\n\tc{}\n", s, s, s)),
            3 => text.push_str(&format!("A := {}\n", src.pick(&["1", "", "yes", "$(B)"]))),
            4 => text.push_str(&format!("\tcmd{}\n", s)),
            5 => text.push_str(&format!("define D{}\nbody {}\nendef\n", s, s)),
            _ => text.push_str(src.pick(&["\n", "# ifeq (a,b)\n", "ifeqx = 1\n", "elsewhere: x\n", "endif_x = 1\n", "x : else endif\n", "M+=$(eval A := e)\n"])),
        }
    }
}

check!(C04, "C04", c04, 200_000, 5_000_000,
    "Random programs made mostly of rules over few targets (several targets per rule, : and ::, variables on both sides, rules with and without recipes for the same target), compared with the reference model: the set of targets, each one's prerequisites in order, kind and number of commands, and coherence of iteration and lookup. Non trivial: at least two rules were closed.",
    &["rules", "rules_merged", "rules_overwritten"]);
fn c04(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 2) {
        return model_check(src, ctx, cfg_of("C04"), |s| s.rules > 1);
    }
    let mut text = String::from("L = l1 l2\nT := b c\nE =\nP = a\n");
    let n = src.range(2, 9);
    let mut serial = 0;
    for _ in 0..n {
        let k = src.range(1, 3);
        let mut ts = vec![];
        for _ in 0..k {
            ts.push(src.pick(&["a", "b", "c", "d.o", "$(T)", "$(P)", "${E}", "$(P)x", "é", "%.o", ".PHONY"]).to_string());
        }
        let colon = src.pick(&[":", ":", ":", " :", "::", " :: "]);
        let k = src.range(0, 3);
        let mut ds = vec![];
        for _ in 0..k {
            if src.chance(1, 3) {
                ds.push(src.pick(&["$(L)", "a", "b", "$(E)", "$(T:%=%.o)", "é", "a", "|"]).to_string());
            } else {
                serial += 1;
                ds.push(format!("p{}", serial));
            }
        }
        let mut l = format!("{}{}{}{}", ts.join(" "), colon, if k > 0 { " " } else { "" }, ds.join(" "));
        serial += 1;
        match src.below(6) {
            0 => l.push_str(&format!("; inline{}", serial)),
            1 => l.push_str(&format!(" ;inline{}", serial)),
            2 => l.push_str(";"),
            _ => {}
        }
        l.push('\n');
        let k = src.range(0, 2);
        for _ in 0..k {
            serial += 1;
            let s = src.pick(&["\t", "\t", "\n\t", "# c\n\t"]);
            l.push_str(&format!("{}cmd{} $(L)\n", s, serial));
        }
        text.push_str(&l);
        if src.chance(1, 4) {
            let s = src.pick(&["L += l3\n", "T = a\n", "P = d.o\n", "\n", "ifeq (1,2)\na: never\n\tno\nendif\n", "E := ee\n"]);
            text.push_str(s);
        }
    }
    ctx.case = text.clone();
    match differential(ctx, &text, &BTreeMap::new())? {
        Some((m, _)) if m.stats.rules > 1 => pass(&text),
        _ => trivial(),
    }
}

check!(C05, "C05", c05, 120_000, 3_000_000,
    "Each random program is written twice: plainly, and with continuation lines, comments, extra blanks, blank lines, a byte order mark, Windows line ends or a missing last line end put where they have no meaning. Both must lead to the state the reference model computes for the plain one. Non trivial: the layouts differ and the model agrees that they mean the same.",
    &["layouts_compared", "continuations", "comments"]);
fn c05(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let p = program(src, cfg_of("C05"));
    ctx.case = format!("{}\n--- plain\n{}", describe(&p.text, &p.files), p.canon);
    let mut a = Model::new();
    let mut b = Model::new();
    let (ra, rb) = (a.read(&p.text), b.read(&p.canon));
    if !judged(&ra) || ra != rb {
        ctx.count("not_judged: layouts", 1);
        return trivial();
    }
    if a.vars != b.vars || a.rules != b.rules {
        ctx.count("not_judged: the layouts mean different things", 1);
        return trivial();
    }
    about_to_run(ctx);
    let mut s = Sut::new(&ctx.dir);
    let mut t = Sut::new(&ctx.dir);
    compare_outcome(&ra, &s.read(&p.canon, "main.mk")).map_err(|e| format!("plain layout: {}", e))?;
    compare_outcome(&ra, &t.read(&p.text, "main.mk")).map_err(|e| format!("other layout: {}", e))?;
    let ig = b.open_at_error.clone();
    compare_state(ctx, &b, &mut s, &ig).map_err(|e| format!("plain layout: {}", e))?;
    compare_state(ctx, &b, &mut t, &ig).map_err(|e| format!("other layout: {}", e))?;
    count_stats(ctx, &a);
    if p.text.contains("\r\n") {
        ctx.count("windows_line_ends", 1);
    }
    if p.text.starts_with('\u{feff}') {
        ctx.count("byte_order_marks", 1);
    }
    if !p.text.ends_with('\n') {
        ctx.count("missing_last_line_ends", 1);
    }
    if p.text == p.canon {
        return trivial();
    }
    ctx.count("layouts_compared", 1);
    pass(&p.text)
}

check!(C06, "C06", c06, 200_000, 5_000_000,
    "Rules whose target and prerequisite names contain backslash-quoted blanks and colons, doubled backslashes and backslashes that quote nothing, literally and through variables; the names that result are compared with the reference model. Non trivial: a quoted separator was seen.",
    &["quoted_separators", "rules_compared"]);
fn c06(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 2) {
        return model_check(src, ctx, cfg_of("C06"), |s| s.escapes > 0);
    }
    let mut text = String::new();
    let n = src.range(0, 2);
    for i in 0..n {
        if src.chance(1, 3) {
            // Line ends separate names, too
            let (a, b) = (quoted(src), quoted(src));
            text.push_str(&format!("define V{}\n{}{}x\n{}x{}\nendef\n", i, src.pick(&["", " "]), a, b, src.pick(&["", "\n", " \nq", "\n\nr"])));
        } else {
            text.push_str(&format!("V{} = {}\n", i, quoted(src)));
        }
    }
    let n = src.range(1, 3);
    for k in 0..n {
        let mut names = vec![];
        let c = src.range(1, 2);
        for j in 0..c {
            names.push(if src.chance(1, 5) { format!("$(V{})", src.below(2)) } else { format!("{}t{}{}", quoted(src), k, j) });
        }
        let mut deps = vec![];
        let c = src.range(0, 3);
        for j in 0..c {
            deps.push(if src.chance(1, 5) { format!("$(V{})", src.below(2)) } else { format!("{}d{}{}", quoted(src), k, j) });
        }
        text.push_str(&format!("{}{}{}{}\n", names.join(" "), src.pick(&[":", " :", " : ", "::"]), src.pick(&[" ", "  "]), deps.join(src.pick(&[" ", "  ", "\t"]))));
        if src.chance(1, 3) {
            text.push_str("\tcmd\n");
        }
    }
    ctx.case = text.clone();
    match differential(ctx, &text, &BTreeMap::new())? {
        Some((m, _)) if m.stats.escapes > 0 => pass(&text),
        _ => trivial(),
    }
}

fn quoted(src: &mut Src) -> String {
    let mut s = String::new();
    let n = src.range(1, 4);
    for _ in 0..n {
        let w = src.pick(&["a", "bc", "é", "d/e", "x.y", "~"]);
        s.push_str(w);
        let k = if src.chance(1, 8) { src.range(5, 12) } else { src.range(0, 4) };
        for _ in 0..k {
            s.push('\\');
        }
        if k > 0 {
            let c = match k % 2 {
                1 => src.pick(&[" ", ":", "\t", "z", "%"]),
                _ => src.pick(&["z", "%", "q", " ", "\t"]),
            };
            s.push_str(c);
        }
    }
    s.push('n');
    s
}

check!(C09, "C09", c09, 200_000, 5_000_000,
    "Random programs rich in $(eval ...) (assignments and rules, from multi line variables, inside of immediate assignments, nested, in rule lines and recipes), compared with the reference model, and with the same text put in place of the $(eval). Non trivial: an eval took place.",
    &["evals", "in_place_comparisons"]);
fn c09(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 2) {
        return model_check(src, ctx, cfg_of("C09"), |s| s.evals > 0);
    }
    // Some text, and the same text evaluated
    let mut pre = String::new();
    let body;
    let src_define = src.chance(1, 3);
    {
        let mut g = Gen::new(src, Cfg { noise: 0, eval: 0, define: if src_define { 6 } else { 0 }, cond: 1, max_stmts: 4, min_stmts: 1, ..BASE });
        let n = g.src.range(0, 4);
        for _ in 0..n {
            g.assign();
        }
        pre.push_str(&g.text);
        g.text.clear();
        let n = g.src.range(1, 4);
        for _ in 0..n {
            g.statement();
        }
        body = g.text.clone();
    }
    let how = src.below(4);
    let evald = match how {
        0 => format!("define CODE\n{}endef\n$(eval $(CODE))\n", body.replace('$', "$$")),
        1 => format!("define CODE\n{}endef\n$(eval $(eval $(CODE)))\n", body.replace('$', "$$")),
        2 => format!("define CODE\n{}endef\nX := $(eval $(CODE))\n", body.replace('$', "$$")),
        _ => format!("define CODE\n{}endef\n$(eval $$(eval $$(CODE)))\n", body.replace('$', "$$")),
    };
    // The definition of the text must end where it should
    let starts = |w: &str| body.lines().filter(|l| l.trim_start().to_lowercase().starts_with(w)).count();
    if starts("define") != starts("endef") {
        return trivial();
    }
    if starts("define") > 0 {
        ctx.count("evaluated_definitions", 1);
    }
    let a = format!("{}{}", pre, evald);
    let b = match how {
        2 => format!("{}define CODE\n{}endef\n{}X :=\n", pre, body.replace('$', "$$"), body),
        _ => format!("{}define CODE\n{}endef\n{}", pre, body.replace('$', "$$"), body),
    };
    ctx.case = format!("{}\n--- in place\n{}", a, b);
    // Errors inside of an eval are not reported as errors
    let mut m = Model::new();
    if m.read(&b) != Ok(()) {
        return trivial();
    }
    let first = match differential(ctx, &a, &BTreeMap::new())? {
        None => return trivial(),
        Some(x) => x,
    };
    if m.rules.keys().ne(first.0.rules.keys()) {
        return trivial();
    }
    let mut t = Sut::new(&ctx.dir);
    if let Outcome::Ok = t.read(&b, "main.mk") {
        compare_state(ctx, &m, &mut t, &[]).map_err(|e| format!("in place: {}", e))?;
        // And directly: both engines
        let mut s = first.1;
        let (ra, rb) = (s.rules()?, t.rules()?);
        if ra.keys().ne(rb.keys()) {
            return Err(format!("evaluated, there are rules for {:?}, in place for {:?}", ra.keys(), rb.keys()).into());
        }
        for (k, r) in &ra {
            let text = |r: &hastur::Rule| guard(|| r.dependencies().iter().map(|d| d.into_string()).collect::<Vec<_>>());
            let (x, y) = (text(r)?, text(&rb[k])?);
            if x != y || r.recipe().commands().len() != rb[k].recipe().commands().len() {
                return Err(format!("evaluated, {:?} depends on {:?}, in place on {:?}", k, x, y).into());
            }
        }
        ctx.count("in_place_comparisons", 1);
    } else {
        return Err("in place, the text could not be read".to_string().into());
    }
    pass(&a)
}

check!(C10, "C10", c10, 100_000, 2_000_000,
    "Random programs spread over several files by include, -include and sinclude (nested, repeated, several names per directive, names from variables, in subdirectories, missing), read from a scratch directory and compared with the reference model, which reads the files in place. Non trivial: a file was included, or a missing one was asked for.",
    &["includes", "soft_missing_includes", "errors_compared"]);
fn c10(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut p = program(src, cfg_of("C10"));
    if src.chance(1, 6) {
        // Ask for something that isn't there
        let i = src.below(p.starts.len());
        let at = p.starts[i].0;
        let l = src.pick(&["include gone.mk\n", "-include gone.mk\n", "include sub/gone.mk\n", "sinclude gone.mk gone2.mk\n", "include gone.mk gone2.mk\n", "INC = gone.mk\ninclude $(INC)\n"]);
        p.text.insert_str(at, l);
    }
    ctx.case = describe(&p.text, &p.files);
    match differential(ctx, &p.text, &p.files)? {
        Some((m, _)) if m.stats.includes > 0 || m.stats.soft_missing > 0 => pass(&ctx.case),
        _ => trivial(),
    }
}

check!(C21, "C21", c21, 200_000, 5_000_000,
    "Random programs of multi line definitions (every operator, nested define/endef, bodies that look like directives, rules, comments and conditionals, empty bodies), compared with the reference model. Non trivial: a definition took effect.",
    &["defines", "values_compared"]);
fn c21(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    model_check(src, ctx, cfg_of("C21"), |s| s.defines > 0)
}

check!(C23, "C23", c23, 200_000, 5_000_000,
    "Random programs with recipes (inline and on their own lines, continued, interrupted by comments, blank lines and conditionals, other recipe prefixes than tab) over variables that change afterwards; each command is expanded when everything is read and compared with the reference model. Non trivial: a recipe line was read.",
    &["recipe_lines", "commands_compared"]);
fn c23(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let cmd = if src.chance(1, 5) { Some(src.pick_of(&['>', '!', '→'])) } else { None };
    let mut g = Gen::new(src, cfg_of("C23"));
    if let Some(c) = cmd {
        g.cmd = c;
    }
    g.program();
    let mut text = g.text;
    let cc = g.cmd;
    if src.chance(1, 3) {
        // Recipes with effects of their own, which must not happen yet
        text.push_str(&format!("\nlazy: ; $(eval LAZY1 := oops)x\n{}@$(eval LAZY2 = oops)$(A)\n{}$(eval lazyrule: dep)\n", cc, cc));
        if src.chance(1, 2) {
            text.push_str("A := changed\n");
        }
    }
    ctx.case = text.clone();
    let mut m = Model::new();
    m.command_char = cmd;
    let r = m.read(&text);
    if !judged(&r) {
        return trivial();
    }
    about_to_run(ctx);
    let mut s = Sut::new(&ctx.dir);
    s.engine.command_char = cc;
    compare_outcome(&r, &s.read(&text, "main.mk"))?;
    let ig = m.open_at_error.clone();
    compare_state(ctx, &m, &mut s, &ig)?;
    for n in ["LAZY1", "LAZY2"].iter() {
        if s.defined(n) {
            return Err(format!("{} is defined: a recipe was expanded while reading", n).into());
        }
    }
    count_stats(ctx, &m);
    if cmd.is_some() {
        ctx.count("other_recipe_prefixes", 1);
    }
    if m.stats.recipe_lines > 0 {
        pass(&text)
    } else {
        trivial()
    }
}

check!(C22, "C22", c22, 250_000, 6_000_000,
    "Substitution references $(V:a=b) and ${V:%a=c%d} with random words, patterns and replacements (quoted and repeated %, empty parts, patterns that match nowhere, in the middle or everything, parts from variables, non ASCII text), compared with the reference model. Non trivial: the value has words.",
    &["substitutions", "words_replaced"]);
fn c22(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let n = src.range(0, 5);
    let mut words = vec![];
    let atoms = ["a", "b", ".c", ".o", "src/", "é", "%", "x", "aa", ".tar", "日", "\\", "a.c", "lib"];
    for _ in 0..n {
        let k = src.range(1, 4);
        words.push((0..k).map(|_| src.pick(&atoms)).collect::<String>());
    }
    let sep = src.pick(&[" ", "  ", "\t"]);
    let mut value = words.join(sep);
    while value.ends_with('\\') {
        value.pop();
    }
    let part = |src: &mut Src, max: usize| {
        let k = src.range(0, max);
        (0..k).map(|_| src.pick(&["a", "b", ".c", ".o", "src/", "é", "x", ".tar", "日", "lib", "\\x"])).collect::<String>()
    };
    let key = match src.below(8) {
        0 | 1 => part(src, 2),
        2 | 3 => format!("{}%{}", part(src, 1), part(src, 1)),
        4 => format!("%{}", part(src, 2)),
        5 => format!("{}%", part(src, 2)),
        6 => format!("{}%{}%", part(src, 1), part(src, 1)),
        _ => format!("{}\\%{}", part(src, 1), part(src, 1)),
    };
    // From the end of an actual word, so that it matches
    let key = if !words.is_empty() && src.chance(1, 2) {
        let w = src.pick_of(&words);
        let cs: Vec<char> = w.chars().filter(|c| *c != '\\' && *c != '%').collect();
        let i = src.below(cs.len() + 1);
        let j = src.range(i, cs.len());
        let (x, y): (String, String) = (cs[..i].iter().collect(), cs[j..].iter().collect());
        match src.below(3) {
            0 => format!("{}%{}", x, y),
            1 => y,
            _ => format!("%{}", y),
        }
    } else {
        key
    };
    let repl = match src.below(7) {
        0 => part(src, 2),
        1 => String::new(),
        2 => format!("%{}", part(src, 2)),
        3 => format!("{}%", part(src, 2)),
        4 => format!("{}%{}%", part(src, 1), part(src, 1)),
        5 => format!("{}\\%{}", part(src, 1), part(src, 1)),
        _ => format!("{}%{}", part(src, 2), part(src, 1)),
    };
    let op = src.pick(&["=", ":="]);
    let (o, c) = if src.chance(1, 3) { ("${", "}") } else { ("$(", ")") };
    let reference = match src.below(5) {
        0 => format!("{}V:$(K)=$(R){}", o, c),
        1 => format!("{}$(N):{}={}{}", o, key, repl, c),
        2 => format!("{}V:$(S){}", o, c),
        _ => format!("{}V:{}={}{}", o, key, repl, c),
    };
    let text = format!("V{}{}\nK={}\nR={}\nN=V\nS={}={}\nW=$(V)\nOUT:=<{}>\nOUT2=<{}>\nlist:{} x\n", op, value, key, repl, key, repl, reference, reference, if reference.contains("$(S)") { "" } else { " p" });
    ctx.case = text.clone();
    match differential(ctx, &text, &BTreeMap::new())? {
        Some((m, _)) => {
            let out = m.vars["OUT"].text.clone();
            if out != format!("<{}>", value) {
                ctx.count("words_replaced", 1);
            }
            if words.is_empty() {
                trivial()
            } else {
                pass(&text)
            }
        }
        None => trivial(),
    }
}

check!(C24, "C24", c24, 120_000, 3_000_000,
    "Random programs cut into two or three parts between top level statements; reading the parts one after the other with the same engine must lead to the state the whole leads to. Non trivial: the program was judged and cut into non empty parts.",
    &["parts_read"]);
fn c24(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    if src.chance(1, 4) {
        return c24_after(src, ctx);
    }
    let p = program(src, Cfg { crlf: false, ..BASE });
    if p.starts.len() < 2 {
        return trivial();
    }
    let mut cuts = vec![];
    for _ in 0..src.range(1, 2) {
        let i = src.range(1, p.starts.len() - 1);
        cuts.push(p.starts[i].0);
    }
    cuts.sort();
    cuts.dedup();
    let mut parts = vec![];
    let mut last = 0;
    for c in cuts {
        parts.push(&p.text[last..c]);
        last = c;
    }
    parts.push(&p.text[last..]);
    ctx.case = parts.join("\n--- next file\n");
    let mut whole = Model::new();
    let mut m = Model::new();
    if whole.read(&p.text) != Ok(()) {
        return trivial();
    }
    for x in &parts {
        if m.read(x) != Ok(()) {
            return trivial();
        }
    }
    if m.vars != whole.vars || m.rules != whole.rules {
        // A recipe in front of the cut
        ctx.count("not_judged: the cut changes the meaning", 1);
        return trivial();
    }
    about_to_run(ctx);
    let mut s = Sut::new(&ctx.dir);
    for (i, x) in parts.iter().enumerate() {
        let o = s.read(x, &format!("part{}.mk", i));
        compare_outcome(&Ok(()), &o).map_err(|e| format!("part {}: {}", i, e))?;
        ctx.count("parts_read", 1);
    }
    compare_state(ctx, &whole, &mut s, &[])?;
    count_stats(ctx, &whole);
    pass(&ctx.case)
}

/// Nothing of a read that failed or ended in the middle of something stays
fn c24_after(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let p = program(src, Cfg { crlf: false, max_stmts: 6, ..BASE });
    let q = program(src, Cfg { crlf: false, max_stmts: 4, ..BASE });
    let i = src.below(q.starts.len());
    let at = q.starts[i].0;
    let bad = src.pick(&[
        "ifeq (a,b)\nendif x\n",
        "ifeq (a,a)\nelse x\nendif\n",
        "ifeq (a,a)\nifneq (b,b)\nelse\nelse\n",
        "ifeq (a,b)\nifeq (a,b)\nifeq (a,b)\nelse\nelse\n",
        "ifeq (a,a)\nhalf: x\n\tcmd\nwords words\n",
        "half: x\n\tcmd $(open\n",
        "define HALF\nx\nendef x\n",
        "define HALF\ndefine INNER\nendef\nendef x\n",
        "ifeq (a,b)\ndefine HALF\nendef x\n",
        "HALF = 1\nwords words\n",
        "include gone.mk\n",
        "ifeq (a,b)\nelse\ninclude gone.mk\n",
        "ifeq ($(open,a)\n",
        "half: x ; y\nendif\n",
    ]);
    let mut text = q.text.clone();
    text.insert_str(at, bad);
    ctx.case = format!("{}\n--- next file\n{}", describe(&text, &q.files), p.text);
    let mut m = Model::new();
    let r = m.read(&text);
    if !judged(&r) || r == Ok(()) || !m.open_at_error.is_empty() {
        return trivial();
    }
    let mut n = m.clone();
    let r2 = n.read(&p.text);
    if !judged(&r2) {
        return trivial();
    }
    about_to_run(ctx);
    let mut s = Sut::new(&ctx.dir);
    compare_outcome(&r, &s.read(&text, "bad.mk"))?;
    compare_state(ctx, &m, &mut s, &[])?;
    compare_outcome(&r2, &s.read(&p.text, "good.mk")).map_err(|e| format!("after a read that failed: {}", e))?;
    let ig = n.open_at_error.clone();
    compare_state(ctx, &n, &mut s, &ig).map_err(|e| format!("after a read that failed: {}", e))?;
    ctx.count("reads_after_a_failed_one", 1);
    pass(&ctx.case)
}

check!(C13, "C13", c13, 150_000, 4_000_000,
    "Random programs with one erroneous line put between their statements (no separator, unterminated reference, stray or doubled else, stray endif, trailing text after else/endif/endef, missing include, recipe without rule, rule-less ';' line), and readers that fail or deliver invalid text at a random point. Reading must fail with that kind of error, everything in front of the line must have taken effect, nothing behind it may have. Non trivial: an error was reported.",
    &["errors_compared", "read_faults"]);
fn c13(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let p = program(src, Cfg { crlf: false, ..cfg_of("C13") });
    if src.chance(1, 8) {
        return read_fault(src, ctx, &p);
    }
    let i = src.below(p.starts.len());
    let at = p.starts[i].0;
    let err = src.pick(&[
        "just some words\n",
        "word\n",
        "X = $(unfinished\n",
        "Y := ${unfinished\n",
        "$(open: x\n",
        "t: $(open\n",
        "t: x\n\tcmd $(open\n",
        "else\n",
        "endif\n",
        "ifeq (a,a)\nelse\nelse\nendif\n",
        "ifeq (a,b)\nelse\nelse\nendif\n",
        "ifeq (a,a)\nendif junk\n",
        "ifeq (a,a)\nelse junk\nendif\n",
        "define D\nx\nendef junk\n",
        "include gone.mk\n",
        "EARLY=1\ninclude gone.mk\nLATE=1\n",
        "EARLY=1\n\tstray recipe\n",
        "; no rule\n",
        "  ;x\n",
        "EARLY := 1\nLATE words\nLATE=1\n",
        "ifeq ($(open,a)\nendif\n",
        "EARLY=1\n$(eval EARLY2=1)oops\nLATE=1\n",
        "early: d\n\tc\nLATE x y\nlate: d\n",
        "quoted\\:\n",
        "EARLY=1\nquoted\\: x\nLATE=1\n",
        "a b\\:c\nLATE=1\n",
        "LATE\tB = 1\n",
        "LATE B += 1\nLATE=1\n",
        "LATE\t B \t?=\t1\nLATE=1\n",
        "EARLY=1\nLATE \\\n = \\\n 1 =\nL LATE \\\n = 2\nLATE=1\n",
        "EARLY=1\nw \\\n w\nLATE=1\n",
        "$(EARLY) w = \nLATE=1\n",
        "$(NOPE)\t w\nLATE=1\n",
        "define LATE\nendif\nendef # c\nendef x\nLATE=1\n",
        "ifdef LATE LATE\nendif\nLATE=1\n",
        "include EARLY\nLATE=1\n",
        "ifeq (a,a)\nEARLY=1\nelse\nLATE=1\nelse\nLATE=1\nendif\n",
        "EARLY: $(words)\n\t$(words a,b\nLATE=1\n",
        "EARLY: x ; ${A\nLATE=1\n",
        "# c\n \t# c\n\tcmd\nLATE=1\n",
        "e: x\nEARLY=1\n\tcmd\nLATE=1\n",
    ]);
    let mut text = p.text.clone();
    let mut p = p;
    let err = match src.weighted(&[8, 2, 1, 1, 1, 1]) {
        0 => err.to_string(),
        1 => format!("ifeq (a,a)\n{}endif\nLATE=1\n", err),
        2 => format!("ifneq (a,a)\n{}endif\n", err),
        3 => {
            p.files.insert("err.mk".into(), err.to_string());
            format!("{} err.mk\nLATE=1\n", src.pick(&["include", "-include", "sinclude"]))
        }
        4 => format!("define DD\n{}endef\n", err),
        _ => err.replace("\n", "\r\n"),
    };
    text.insert_str(at, &err);
    ctx.case = describe(&text, &p.files);
    match differential(ctx, &text, &p.files)? {
        None => trivial(),
        Some((m, s)) => {
            let mut m2 = Model::new();
            m2.files = p.files.clone();
            match m2.read(&text) {
                Err(Stop::Err(k)) => {
                    if s.defined("LATE") && !m.vars.contains_key("LATE") {
                        return Err("something behind the error took effect".to_string().into());
                    }
                    ctx.count(&format!("kind: {}", kind_name(&k)), 1);
                    pass(&ctx.case)
                }
                _ => trivial(),
            }
        }
    }
}

fn kind_name(k: &Kind) -> String {
    format!("{:?}", k).split(|c| c == '(').next().unwrap_or("").to_string()
}

struct Faulty<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    fail_at: Option<usize>,
    kind: std::io::ErrorKind,
    interrupts: usize,
}
impl<'a> std::io::Read for Faulty<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        use std::io::BufRead;
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl<'a> std::io::BufRead for Faulty<'a> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.interrupts > 0 {
            self.interrupts -= 1;
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(std::io::Error::new(self.kind, "disk on fire"));
            }
        }
        let end = (self.pos + self.chunk).min(self.data.len());
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

fn read_fault(src: &mut Src, ctx: &mut Ctx, p: &Prog) -> Verdict {
    let mut data = p.text.clone().into_bytes();
    let kind = src.below(3);
    let at = src.below(data.len() + 1);
    let mut fail_at = None;
    match kind {
        0 => fail_at = Some(at),
        1 => data.insert(at, src.pick_of(&[0xff, 0xfe, 0xc0])),
        _ => {}
    }
    let chunk = src.pick_of(&[1, 2, 3, 7, 64, 4096]);
    use std::io::ErrorKind as E;
    let error = src.pick_of(&[E::Other, E::UnexpectedEof, E::WouldBlock, E::BrokenPipe, E::InvalidData, E::TimedOut, E::PermissionDenied, E::NotFound, E::InvalidInput, E::ConnectionReset, E::OutOfMemory, E::IsADirectory]);
    ctx.case = format!("{}\n--- fault {} at {} chunks {} {:?}", describe(&p.text, &p.files), kind, at, chunk, error);
    let mut m = Model::new();
    m.files = p.files.clone();
    let r = m.read(&p.text);
    if kind == 2 && !judged(&r) {
        return trivial();
    }
    about_to_run(ctx);
    put_files(ctx, &p.files);
    let mut s = Sut::new(&ctx.dir);
    let _ = s.read("BEFORE = 1\nbefore: x\n", "first.mk");
    let mut f = Faulty { data: &data, pos: 0, chunk, fail_at, kind: error, interrupts: src.below(3) };
    let res = guard(|| s.engine.read_makefile(&mut s.names, &mut f, "main.mk"));
    let res = res.map_err(|p| format!("reading panicked: {}", p))?;
    ctx.count("read_faults", 1);
    if kind == 2 {
        // Only slow: nothing is different
        let o = match res {
            Ok(()) => Outcome::Ok,
            Err(e) => Outcome::Err(sut::kind_of(&e), format!("{:?}", e)),
        };
        compare_outcome(&r, &o)?;
        let mut m = Model::new();
        m.files = p.files.clone();
        let _ = m.read("BEFORE = 1\nbefore: x\n");
        let _ = m.read(&p.text);
        let ig = m.open_at_error.clone();
        compare_state(ctx, &m, &mut s, &ig)?;
        return pass(&ctx.case);
    }
    match res {
        Err(hastur::MakefileError::IOError(e)) => {
            if kind == 0 && e.kind() != error {
                return Err(format!("a reader that fails with {:?} is reported as {:?}", error, e).into());
            }
        }
        Err(e) => return Err(format!("a failing reader is reported as {:?}", e).into()),
        Ok(()) => return Err("a failing reader was not noticed".to_string().into()),
    }
    let mut m = Model::new();
    let _ = m.read("BEFORE = 1\nbefore: x\n");
    compare_state(ctx, &m, &mut s, &[])?;
    ctx.count("errors_compared", 1);
    pass(&ctx.case)
}
