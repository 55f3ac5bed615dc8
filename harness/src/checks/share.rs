//! Workload for the sanitizers: values shared by threads
use super::*;
use hastur::ast::AstNode;
use hastur::evaluated::Block;
use hastur::NameCache;
use std::sync::{Arc, Barrier};

pub const SHARE: Check = Check {
    id: "SHARE",
    run: share,
    quick: 500,
    thorough: 5000,
    rule: "",
    assumptions: &[],
    must_see: &[],
    known: no_known,
    known_crash: no_crash,
};

pub static INVALID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn valid(s: &str) -> usize {
    // The compiler takes it for granted that a str is valid
    match std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        Ok(s) => s.chars().filter(|c| c.is_alphanumeric()).count(),
        Err(e) => {
            INVALID.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            panic!("a str is no valid UTF-8: {}", e)
        }
    }
}

/// Every way of looking at a block
pub fn look(b: &Block, src: &mut Src) -> usize {
    use nom::{FindSubstring, InputIter, InputLength, InputTake, Offset, Slice};
    let s = b.span();
    let text = b.into_string();
    let mut n = valid(&text);
    for x in s.segments() {
        n += valid(&x);
        n += format!("{:?}", x.location()).len();
    }
    n += s.chars().count() + s.char_indices().map(|x| x.0).sum::<usize>() + s.input_len();
    n += s.find_substring("a").unwrap_or(0) + s.position(|c| c == ' ').unwrap_or(0);
    let cuts: Vec<usize> = text.char_indices().map(|x| x.0).chain(std::iter::once(text.len())).collect();
    let i = cuts[src.below(cuts.len())];
    let j = cuts[src.below(cuts.len())].max(i);
    let part = s.slice(i..j);
    for x in part.segments() {
        n += valid(&x);
    }
    n += s.offset(&s.slice(i..));
    let (a, z) = s.take_split(i);
    n += valid(&a.into_string()) + valid(&z.into_string());
    let copy = part.to_new_block();
    n += valid(&copy.into_string());
    n + copy.sensitivity().count() + b.sensitivity().count()
}

/// Small makefiles, for an interpreter that is slow. `hv corpus SEED N`
pub fn corpus(a: &[String]) -> i32 {
    use std::io::Write;
    let (seed, n): (u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut i = 0;
    let mut made = 0;
    while made < n {
        i += 1;
        let mut src = Src::random(crate::source::hash64(format!("corpus {} {}", seed, i).as_bytes()));
        let base = Cfg { min_stmts: 1, max_stmts: 3, ..BASE };
        let cfg = match src.below(6) {
            0 => Cfg { escapes: 50, rule: 12, ..base },
            1 => Cfg { crlf: true, noise: 40, ..base },
            2 => Cfg { subst: 60, refs: 80, ..base },
            3 => Cfg { define: 6, eval: 6, ..base },
            4 => Cfg { cond: 8, ..base },
            _ => base,
        };
        let mut p = program(&mut src, cfg);
        if src.chance(1, 3) {
            super::robust::mutate(&mut src, &mut p.text);
        } else if src.chance(1, 4) {
            p.text = super::robust::soup(&mut src, 3, 15);
        }
        let mut m = Model::new();
        let _ = match m.read(&p.text) {
            Err(Stop::Unspec(_)) | Err(Stop::Recursion) => continue,
            r => r,
        };
        let small = |r: Option<Result<(String, model::Names), Stop>>| match r {
            None => true,
            Some(Ok((v, _))) => v.len() < 300,
            _ => false,
        };
        if p.text.contains('\u{1e}') || p.text.len() > 90 || p.text.len() < 8 || !names_of(&m).iter().all(|n| small(m.var_value(n))) {
            continue;
        }
        if !m.rules.values().all(|r| r.cmds.iter().all(|c| small(Some(m.value(&c.text))))) {
            continue;
        }
        made += 1;
        out.write_all(p.text.as_bytes()).unwrap();
        out.write_all(b"\x1e").unwrap();
    }
    0
}

/// `hv feed FILE FROM STEP SECONDS`: reads the makefiles of a corpus, looks at everything
/// that comes out, and lets threads share it
pub fn feed(a: &[String]) -> i32 {
    let text = std::fs::read_to_string(&a[0]).unwrap();
    let n: Vec<usize> = a[1..4].iter().map(|x| x.parse().unwrap()).collect();
    let start = std::time::Instant::now();
    let dir = std::path::PathBuf::from("/nonexistent");
    let items: Vec<&str> = text.split('\u{1e}').filter(|x| !x.is_empty()).collect();
    let mut i = n[0];
    let mut ran = 0;
    let mut seen = 0;
    while i < items.len() && start.elapsed().as_secs() < n[2] as u64 {
        println!("CASE {}", i);
        let mut src = Src::random(i as u64);
        let mut s = Sut::new(&dir);
        let _ = s.read(items[i], "main.mk");
        let mut blocks: Vec<Arc<Block>> = vec![];
        for w in super::robust::words(items[i]) {
            if let Some(Ok(b)) = s.var_block(&w) {
                blocks.push(b);
            }
        }
        let rules: Vec<hastur::Rule> = s.engine.database.rules().cloned().collect();
        for r in &rules {
            blocks.push(r.target().clone());
            blocks.extend(r.dependencies().iter().cloned());
            #[cfg(feature = "hooks")]
            for c in r.recipe().commands() {
                if let Ok(b) = s.eval_ast(&c.verif_unexpanded().clone()) {
                    blocks.push(b);
                }
            }
        }
        for b in blocks.iter().take(2) {
            seen += guard(|| look(b, &mut src)).unwrap_or(0);
        }
        if !blocks.is_empty() {
            let a = blocks[src.below(blocks.len())].clone();
            let b = blocks[src.below(blocks.len())].clone();
            let mut c = (*a).clone();
            for x in b.content() {
                c.push(x.clone());
            }
            seen += guard(|| look(&c, &mut src)).unwrap_or(0);
        }
        // Shared with another thread, which goes on with it
        let other = blocks.clone();
        let db = s.engine.database.clone();
        let mut s2 = s;
        let db2 = db.clone();
        let h = std::thread::spawn(move || {
            let mut src = Src::random(i as u64 + 77);
            let mut n = 0;
            for b in other.iter().rev().take(1) {
                n += guard(|| look(b, &mut src)).unwrap_or(0);
            }
            let mut d = db2.clone();
            for r in db2.rules() {
                d = d.add_rule(r.clone());
                n += s2.names.resolve_file_name(r.target_fname()).map_or(0, valid);
            }
            s2.engine.replace_database(d);
            let _ = s2.read("A += x$(A)\nall: b\n\tc\n".replace("$(A)", "").as_str(), "more.mk");
            n
        });
        for b in blocks.iter().rev().take(1) {
            seen += guard(|| look(b, &mut src)).unwrap_or(0);
        }
        seen += db.rules().map(|r| r.dependencies().len()).sum::<usize>();
        drop(blocks);
        drop(db);
        seen += h.join().unwrap_or(0);
        ran += 1;
        i += n[1];
    }
    println!("RAN {} {}", ran, seen);
    if INVALID.load(std::sync::atomic::Ordering::SeqCst) > 0 {
        println!("INVALID");
    }
    0
}

/// `hv look SEED FROM TO SECONDS`: operations on evaluated text, without any parsing
pub fn look_at_blocks(a: &[String]) -> i32 {
    use hastur::evaluated;
    use hastur::source_location::{LocatedString, Location};
    let n: Vec<u64> = a[0..4].iter().map(|x| x.parse().unwrap()).collect();
    let start = std::time::Instant::now();
    let (mut ran, mut seen) = (0, 0);
    for i in n[1]..n[2] {
        if start.elapsed().as_secs() >= n[3] {
            break;
        }
        println!("CASE {}", i);
        let mut src = Src::random(crate::source::hash64(format!("look {} {}", n[0], i).as_bytes()));
        let mut names = NameCache::default();
        let file = names.intern_file_name("a.mk".to_string());
        let mut pool: Vec<Arc<Block>> = vec![Arc::new(Block::default())];
        for k in 0..src.range(2, 8) {
            let pick = |src: &mut Src, pool: &[Arc<Block>]| pool[src.below(pool.len())].clone();
            let b = match src.below(5) {
                0 | 1 => {
                    let t = src.pick(&["a", "", "é\n", "日本 b", "x y", "\r\n", "😀a", "a.c"]);
                    let at = Location::SourceLocation { filename: file, line: 1 + k as u32, character: 2 };
                    let _ = (&at, file);
                    #[cfg(feature = "hooks")]
                    let s = LocatedString::verif_new(at, t);
                    #[cfg(not(feature = "hooks"))]
                    let s = LocatedString::synthetic_new(t);
                    let m = t.char_indices().map(|x| x.0).last().unwrap_or(0);
                    if !t.is_empty() {
                        seen += valid(&s.slice(0, m)) + valid(&s.slice(m, t.len() - m));
                    }
                    seen += valid(&s);
                    let mut b = Block::default();
                    b.push(evaluated::constant(s));
                    Arc::new(b)
                }
                2 => {
                    let (x, y) = (pick(&mut src, &pool), pick(&mut src, &pool));
                    let mut c = (*x).clone();
                    for p in y.content() {
                        c.push(p.clone());
                    }
                    Arc::new(c)
                }
                3 => {
                    use nom::Slice;
                    let x = pick(&mut src, &pool);
                    let t = x.into_string();
                    let cuts: Vec<usize> = t.char_indices().map(|x| x.0).chain(std::iter::once(t.len())).collect();
                    let i = cuts[src.below(cuts.len())];
                    let j = cuts[src.below(cuts.len())].max(i);
                    x.span().slice(i..j).to_new_block()
                }
                _ => {
                    let x = pick(&mut src, &pool);
                    let mut b = Block::default();
                    b.push(x.span().to_content_reference());
                    Arc::new(b)
                }
            };
            pool.push(b);
        }
        let names = Arc::new(names);
        let (other, n2) = (pool.clone(), names.clone());
        let h = std::thread::spawn(move || {
            let mut src = Src::random(i);
            let mut n = n2.file_name("a.mk").and_then(|f| n2.resolve_file_name(f)).map_or(0, valid);
            for b in other.into_iter().rev().take(2) {
                n += guard(|| look(&b, &mut src)).unwrap_or(0);
            }
            n
        });
        while let Some(b) = pool.pop() {
            if src.chance(1, 2) {
                seen += guard(|| look(&b, &mut src)).unwrap_or(0);
            }
        }
        seen += h.join().unwrap_or(0);
        ran += 1;
    }
    println!("RAN {} {}", ran, seen);
    if INVALID.load(std::sync::atomic::Ordering::SeqCst) > 0 {
        println!("INVALID");
    }
    0
}

fn share(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let small = cfg!(miri);
    let cfg = if small { Cfg { max_stmts: 5, eval: 3, rule: 6, ..BASE } } else { Cfg { eval: 3, rule: 6, ..BASE } };
    let p = program(src, cfg);
    ctx.case = p.text.clone();
    let mut m = Model::new();
    let r = m.read(&p.text);
    if !judged(&r) || names_of(&m).iter().any(|n| matches!(m.var_value(n), Some(Err(_)))) {
        return trivial();
    }
    let mut s = Sut::new(&ctx.dir);
    let _ = s.read(&p.text, "main.mk");
    // Things to share: nodes, evaluated blocks, the database
    let mut asts: Vec<AstNode> = vec![];
    let mut blocks: Vec<Arc<Block>> = vec![];
    for n in m.vars.keys() {
        if let Some(a) = s.names.variable_name(n).and_then(|v| s.engine.database.get_variable(v).map(|v| v.ast().clone())) {
            if let Ok(b) = s.eval_ast(&a) {
                blocks.push(b);
            }
            asts.push(a);
        }
    }
    let rules: Vec<hastur::Rule> = s.engine.database.rules().cloned().collect();
    for r in &rules {
        blocks.push(r.target().clone());
        blocks.extend(r.dependencies().iter().cloned());
    }
    let db = s.engine.database.clone();
    let names: Arc<NameCache> = Arc::new(std::mem::take(&mut s.names));
    let asts = Arc::new(asts);
    let blocks = Arc::new(blocks);
    let text = Arc::new(p.text.clone());
    let words: Arc<Vec<String>> = Arc::new(names_of(&m));
    let threads = if small { 2 } else { src.range(2, 4) };
    let go = Arc::new(Barrier::new(threads));
    let handles: Vec<_> = (0..threads)
        .map(|k| {
            let (names, asts, blocks, text, go, words) = (names.clone(), asts.clone(), blocks.clone(), text.clone(), go.clone(), words.clone());
            let db = db.clone();
            let dir = ctx.dir.clone();
            let seed = src.below(1 << 30) as u64;
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut src = Src::random(seed + k as u64);
                    let mut n = 0;
                    go.wait();
                    let turns = if cfg!(miri) { 4 } else { 12 };
                    for _ in 0..turns {
                        match src.below(8) {
                            0 | 1 if !blocks.is_empty() => {
                                let b = blocks[src.below(blocks.len())].clone();
                                n += guard(|| look(&b, &mut src)).unwrap_or(0);
                            }
                            2 => {
                                // An engine of its own that shares the database
                                let mut t = Sut::new(&dir);
                                let _ = t.read(&text, "main.mk");
                                t.engine.replace_database(db.clone());
                                if !asts.is_empty() {
                                    let a = asts[src.below(asts.len())].clone();
                                    if let Ok(b) = t.eval_ast(&a) {
                                        n += guard(|| look(&b, &mut src)).unwrap_or(0);
                                    }
                                }
                                let _ = t.read("ZZ := 1 2\nZZ += $(ZZ:1=3)\nall: zz $(ZZ)\n\tx\n", "again.mk");
                            }
                            3 => {
                                for w in words.iter() {
                                    n += names.variable_name(w).is_some() as usize + names.file_name(w).is_some() as usize;
                                    if let Some(f) = names.file_name(w) {
                                        n += names.resolve_file_name(f).map_or(0, valid);
                                    }
                                }
                            }
                            4 => {
                                for r in db.rules() {
                                    n += r.dependencies().len() + r.recipe().commands().len();
                                    n += names.resolve_file_name(r.target_fname()).map_or(0, valid);
                                    n += db.get_rule(r.target_fname()).is_some() as usize;
                                }
                            }
                            5 => {
                                // Derive a database, and drop it again
                                let mut d = db.clone();
                                for r in db.rules().take(3) {
                                    d = d.add_rule(r.clone());
                                }
                                n += d.rules().count();
                            }
                            6 if !asts.is_empty() => {
                                let a = asts[src.below(asts.len())].clone();
                                n += format!("{:?}", a.location()).len();
                                n += (a == asts[0]) as usize;
                            }
                            _ => {
                                if !blocks.is_empty() {
                                    let a = blocks[src.below(blocks.len())].clone();
                                    let b = blocks[src.below(blocks.len())].clone();
                                    let mut c = (*a).clone();
                                    for x in b.content() {
                                        c.push(x.clone());
                                    }
                                    n += guard(|| look(&c, &mut src)).unwrap_or(0);
                                }
                            }
                        }
                    }
                    n
                })
                .unwrap()
        })
        .collect();
    // Meanwhile the first engine goes on
    if src.chance(1, 2) {
        s.names = NameCache::default();
        let _ = s.read("Y := 1\nt: u\n", "main.mk");
    }
    drop(s);
    drop(asts);
    drop(blocks);
    let mut seen = 0;
    for h in handles {
        match h.join() {
            Ok(n) => seen += n,
            Err(_) => return Err("a thread panicked".to_string().into()),
        }
    }
    ctx.count("things_looked_at", seen as u64);
    ctx.count("threads", threads as u64);
    if seen == 0 {
        return trivial();
    }
    pass(&ctx.case)
}
