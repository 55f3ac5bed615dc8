//! What reading and expanding costs
use super::*;
use hastur::evaluated::Block;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts what each thread allocates
pub struct Counting;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn took(n: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
    live(n as i64)
}
fn live(n: i64) {
    let _ = LIVE.try_with(|c| {
        c.set(c.get() + n);
        let now = c.get();
        let _ = PEAK.try_with(|p| {
            if now > p.get() {
                p.set(now)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        took(n);
        live(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    /// Nanoseconds of processor time of this thread
    cpu: u64,
    calls: u64,
    bytes: u64,
    /// Most memory in use at a time
    peak: u64,
    /// Length of all the text that came out
    out: u64,
}

fn cpu_now() -> u64 {
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    s.split_whitespace().next().and_then(|x| x.parse().ok()).unwrap_or(0)
}

pub const C26: Check = Check {
    id: "C26",
    run: c26,
    quick: 1_600,
    thorough: 30_000,
    rule: "Families of makefiles that grow: chains in which each variable refers to the one before (recursively, simply, through substitutions, computed names, appends, evals or a random mix of these) while the text stays the same, and long lines, lists, files, recipes, definitions, conditionals, comments, continuations, nested parentheses and includes. Each is read, expanded and read out at some size and at four times that size (chains: twice the depth), and the monitor compares the processor time of the thread and what it allocated (calls, bytes, most in use at a time). Growth beyond quadratic in both the input and the text that comes out is a violation, as is running out of the time or memory limit of the process. Non trivial: all.",
    assumptions: &["allocation counts are exact; processor time only counts beyond a second and 40 times that of the smaller input, in two runs out of two", "growth is judged at one pair of sizes per family and run"],
    must_see: &["chains_measured", "sizes_measured", "allocations_counted"],
    known: no_known,
    known_crash: no_crash,
};

struct Family {
    name: &'static str,
    /// The makefile of this size
    text: fn(&mut Vec<u64>, usize) -> String,
    /// Sizes to choose from
    from: usize,
    to: usize,
    times: usize,
}

fn rep(s: &str, n: usize) -> String {
    s.repeat(n)
}
fn each(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}

const WORDS: &str = "a.c b.c src/c.c d.h";

/// One level of a mixed chain: V_i from V_j, j = i - 1
fn level(kind: u64, i: usize) -> String {
    let j = i - 1;
    match kind % 14 {
        0 => format!("V{} = $(V{})\n", i, j),
        1 => format!("V{} := $(V{})\n", i, j),
        2 => format!("V{} = $(V{}:.c=.c)\n", i, j),
        3 => format!("V{} := ${{V{}:%.c=%.c}}\n", i, j),
        4 => format!("V{} := $(V{}:%=%)\n", i, j),
        5 => format!("N{} = V{}\nV{} = $($(N{}))\n", i, j, i, i),
        6 => format!("N{} := V{}\nV{} := $($(N{}):.h=.h)\n", i, j, i, i),
        7 => format!("V{} =\nV{} += $(V{})\n", i, i, j),
        8 => format!("V{} :=\nV{} += $(V{})\n", i, i, j),
        9 => format!("$(eval V{} := $(V{}))\n", i, j),
        10 => format!("define V{}\n$(V{})\nendef\n", i, j),
        11 => format!("V{} := $(V{}:src/%=src/%)\n", i, j),
        12 => format!("ifneq ($(V{}),)\nV{} := $(V{})\nelse\nV{} = x\nendif\n", j, i, j, i),
        _ => format!("V{} := $(V{}:zzz=yyy)$(V{}:%=)\n", i, j, j),
    }
}

fn chain(kinds: &[u64], n: usize) -> String {
    let mut t = format!("V0 = {}\n", WORDS);
    for i in 1..=n {
        t.push_str(&level(kinds[(i - 1) % kinds.len()], i));
    }
    t.push_str(&format!("X = $(V{})\nt: $(V{})\n\techo $(V{})\n", n, n, n));
    t
}

macro_rules! chain_of {
    ($name:expr, $($k:expr),*) => {
        Family { name: $name, text: |_, n| chain(&[$($k),*], n), from: 8, to: 16, times: 2 }
    };
}

const FAMILIES: &[Family] = &[
    Family { name: "mixed chain", text: |r, n| chain(r, n), from: 8, to: 18, times: 2 },
    Family { name: "mixed chain", text: |r, n| chain(r, n), from: 8, to: 18, times: 2 },
    Family { name: "mixed chain", text: |r, n| chain(r, n), from: 8, to: 18, times: 2 },
    Family { name: "mixed chain", text: |r, n| chain(&r[..3], n), from: 8, to: 18, times: 2 },
    Family { name: "mixed chain", text: |r, n| chain(&r[..2], n), from: 8, to: 18, times: 2 },
    chain_of!("recursive chain", 0),
    chain_of!("simple chain", 1),
    chain_of!("substitution chain", 2),
    chain_of!("simple pattern chain", 3),
    chain_of!("simple any chain", 4),
    chain_of!("computed name chain", 5),
    chain_of!("computed substitution chain", 6),
    chain_of!("append chain", 7),
    chain_of!("simple append chain", 8),
    chain_of!("eval chain", 9),
    chain_of!("define chain", 10),
    chain_of!("conditional chain", 12),
    chain_of!("substitution to nothing chain", 13),
    chain_of!("alternating chain", 2, 4),
    Family { name: "long chain", text: |_, n| chain(&[0], n), from: 40, to: 100, times: 2 },
    Family { name: "long simple chain", text: |_, n| chain(&[1], n), from: 40, to: 100, times: 2 },
    Family { name: "appends", text: |_, n| format!("X =\n{}", each(n, |i| format!("X += w{}\n", i))), from: 40, to: 120, times: 4 },
    Family { name: "appends to a simple variable", text: |_, n| format!("X :=\n{}", each(n, |i| format!("X += w{}\n", i))), from: 40, to: 120, times: 4 },
    Family { name: "self appends", text: |_, n| format!("X :=\n{}", each(n, |i| format!("X := $(X) w{}\n", i))), from: 10, to: 40, times: 2 },
    Family { name: "conditional assignments", text: |_, n| each(n, |_| "X ?= a $(X)\n".into()).replace("$(X)", "b"), from: 50, to: 200, times: 4 },
    Family { name: "long value", text: |_, n| format!("X = {}\n", rep("word ", n)), from: 100, to: 400, times: 4 },
    Family { name: "long simple value", text: |_, n| format!("Y = {}\nX := $(Y)\nt: $(X)\n", rep("word ", n)), from: 50, to: 200, times: 4 },
    Family { name: "substitution in a long value", text: |_, n| format!("Y = {}\nX = $(Y:.c=.o)\n", rep("word.c ", n)), from: 50, to: 200, times: 4 },
    Family { name: "pattern on a long value", text: |_, n| format!("Y := {}\nX := $(Y:%.c=a%b)\n", rep("word.c ", n)), from: 50, to: 200, times: 4 },
    Family { name: "many references", text: |_, n| format!("Y = y\nX = {}\n", rep("$(Y)", n)), from: 50, to: 200, times: 4 },
    Family { name: "many variables", text: |_, n| format!("{}X = {}\n", each(n, |i| format!("N{} = a{}\n", i, i)), each(n, |i| format!("$(N{}) ", i))), from: 40, to: 120, times: 4 },
    Family { name: "many simple variables", text: |_, n| format!("{}X := {}\n", each(n, |i| format!("N{} := a{}\n", i, i)), each(n, |i| format!("$(N{}) ", i))), from: 40, to: 120, times: 4 },
    Family { name: "many dollar signs", text: |_, n| format!("X = {}\n", rep("$$", n)), from: 100, to: 400, times: 4 },
    Family { name: "many prerequisites", text: |_, n| format!("t: {}\n", rep("dep ", n)), from: 50, to: 200, times: 4 },
    Family { name: "many targets", text: |_, n| format!("{}: a\n\tx\n", each(n, |i| format!("t{} ", i))), from: 50, to: 200, times: 4 },
    Family { name: "quoted prerequisites", text: |_, n| format!("t: {}\n", rep("de\\ p\\:q ", n)), from: 50, to: 200, times: 4 },
    Family { name: "quoted targets", text: |_, n| format!("{}: a\n", each(n, |i| format!("t\\:{}\\ x ", i))), from: 30, to: 120, times: 4 },
    Family { name: "many rules", text: |_, n| each(n, |i| format!("t{}: d{} e\n\tcmd {}\n", i, i, i)), from: 30, to: 120, times: 4 },
    Family { name: "rules for one target", text: |_, n| each(n, |i| format!("t: d{}\n", i)), from: 30, to: 120, times: 4 },
    Family { name: "long recipe", text: |_, n| format!("t:\n{}", each(n, |i| format!("\tcmd {}\n", i))), from: 50, to: 200, times: 4 },
    Family { name: "long command", text: |_, n| format!("t:\n\t{}\n", rep("word ", n)), from: 100, to: 400, times: 4 },
    Family { name: "continued command", text: |_, n| format!("t:\n\ta {}\n", rep("\\\n\tword ", n)), from: 50, to: 200, times: 4 },
    Family { name: "continued value", text: |_, n| format!("X = a{}\n", rep(" \\\n word", n)), from: 50, to: 200, times: 4 },
    Family { name: "continued prerequisites", text: |_, n| format!("t: a{}\n", rep(" \\\n word", n)), from: 50, to: 200, times: 4 },
    Family { name: "many lines", text: |_, n| rep("\n# comment\nX = a\n", n), from: 50, to: 200, times: 4 },
    Family { name: "long comment", text: |_, n| format!("# {}\nX = 1 # {}\n", rep("word ", n), rep("word ", n)), from: 100, to: 400, times: 4 },
    Family { name: "continued comment", text: |_, n| format!("#{}\nX = 1\n", rep(" \\\n word", n)), from: 100, to: 400, times: 4 },
    Family { name: "hashes", text: |_, n| format!("{}\nX = 1 {}\n", rep("#", n), rep("#", n)), from: 100, to: 400, times: 4 },
    Family { name: "backslashes", text: |_, n| format!("X = a{}b\nt: {}x\n", rep("\\", n), rep("\\", n)), from: 60, to: 250, times: 4 },
    Family { name: "backslashes in a target", text: |_, n| format!("t{}x: a\n{}: b\n", rep("\\", n), rep("\\\\", n)), from: 60, to: 250, times: 4 },
    Family { name: "sequential conditionals", text: |_, n| each(n, |i| format!("ifeq (a,{})\nX = {}\nelse\nY = 1\nendif\n", if i % 2 == 0 { "a" } else { "b" }, i)), from: 30, to: 120, times: 4 },
    Family { name: "nested conditionals", text: |_, n| format!("{}X = 1\n{}", rep("ifeq (a,a)\n", n), rep("endif\n", n)), from: 30, to: 120, times: 4 },
    Family { name: "nested ignored conditionals", text: |_, n| format!("{}X = 1\n{}", rep("ifeq (a,b)\n", n), rep("else\nendif\n", n)), from: 30, to: 120, times: 4 },
    Family { name: "ignored lines", text: |_, n| format!("ifeq (a,b)\n{}endif\n", rep("X = $(Y)\nt: d\n\tcmd\n", n)), from: 30, to: 120, times: 4 },
    Family { name: "long operands", text: |_, n| format!("ifeq ({0},{0})\nX = 1\nendif\nifneq '{0}' \"{0}\"\nendif\n", rep("word ", n)), from: 50, to: 200, times: 4 },
    Family { name: "parentheses in operands", text: |_, n| format!("ifeq ({}{},b)\nX = 1\nendif\n", rep("(", n), rep(")", n)), from: 50, to: 200, times: 4 },
    Family { name: "nested references", text: |_, n| format!("X = {}a{}\n", rep("$(", n), rep(")", n)), from: 8, to: 20, times: 2 },
    Family { name: "nested computed names", text: |_, n| format!("Aa = a\na = a\nX = {}a{}\n", rep("$(A", n), rep(")", n)), from: 8, to: 20, times: 2 },
    Family { name: "nested substitutions", text: |_, n| format!("a = a\nX = $(a:a={}a{})\n", rep("$(a:a=", n), rep(")", n)), from: 5, to: 10, times: 2 },
    Family { name: "parentheses in a name", text: |_, n| format!("X = $(a{}b{})\n", rep("(", n), rep(")", n)), from: 30, to: 120, times: 4 },
    Family { name: "definition", text: |_, n| format!("define X\n{}endef\n", rep("line of $(Y) text # x\n", n)), from: 30, to: 120, times: 4 },
    Family { name: "many definitions", text: |_, n| each(n, |i| format!("define N{}\na\nendef\n", i)), from: 30, to: 120, times: 4 },
    Family { name: "nested definitions", text: |_, n| format!("define X\n{}{}endef\n", rep("define Y\n", n), rep("endef\n", n)), from: 30, to: 120, times: 4 },
    Family { name: "evaluated definition", text: |_, n| format!("define Y\n{}endef\n$(eval $(Y))\n", each(n, |i| format!("N{} = {}\n", i, i))), from: 20, to: 60, times: 4 },
    Family { name: "many evals", text: |_, n| each(n, |i| format!("$(eval N{} = {})\n", i, i)), from: 20, to: 80, times: 4 },
    Family { name: "evals on a line", text: |_, n| format!("X := {}\n", each(n, |i| format!("$(eval N{} = {})", i, i))), from: 20, to: 80, times: 4 },
    Family { name: "nested evals", text: |_, n| {
        let mut t = "X := 1".to_string();
        for _ in 0..n { t = format!("$(eval {})", t) }
        format!("{}\n", t)
    }, from: 4, to: 9, times: 2 },
    Family { name: "long name", text: |_, n| format!("{0} = 1\nX = $({0})\n", rep("n", n)), from: 100, to: 400, times: 4 },
    Family { name: "non ASCII text", text: |_, n| format!("Y = {}\nX := $(Y:é=ü)\n# {}\n", rep("日本é ", n), rep("é", n)), from: 40, to: 150, times: 4 },
    Family { name: "equal signs", text: |_, n| format!("X = {}\n", rep("=", n)), from: 100, to: 400, times: 4 },
    Family { name: "colons", text: |_, n| format!("X = {}\n", rep(":", n)), from: 100, to: 400, times: 4 },
    Family { name: "blanks", text: |_, n| format!("X =  a{}b{}\nt:{}x{}\n", rep(" ", n), rep(" ", n), rep(" \t", n), rep(" ", n)), from: 60, to: 250, times: 4 },
    Family { name: "blank lines", text: |_, n| format!("{}X = 1\n", rep("  \n", n)), from: 60, to: 250, times: 4 },
    Family { name: "Windows line ends", text: |_, n| rep("X = a \\\r\n b\r\n\r\n", n), from: 40, to: 150, times: 4 },
];

fn read_out(b: &Block) -> u64 {
    let s = b.span();
    let mut n = s.chars().count();
    n += s.char_indices().count();
    for x in s.segments() {
        n += x.len();
    }
    let _ = s.location();
    (n + b.into_string().len()) as u64
}

fn measure(ctx: &Ctx, text: &str) -> Result<Cost, String> {
    about_to_run(ctx);
    let dir = ctx.dir.clone();
    let (calls, bytes) = (CALLS.with(|c| c.get()), BYTES.with(|c| c.get()));
    let live = LIVE.with(|c| c.get());
    PEAK.with(|p| p.set(live));
    let cpu = cpu_now();
    let mut out = 0;
    {
        let mut s = Sut::new(&dir);
        match s.read(text, "main.mk") {
            Outcome::Ok => {}
            o => return Err(format!("{:?}", o)),
        }
        if let Some(b) = s.var_block("X") {
            out += read_out(&*b?);
        }
        let rules: Vec<hastur::Rule> = s.engine.database.rules().cloned().collect();
        for r in &rules {
            out += read_out(r.target());
            for d in r.dependencies() {
                out += read_out(d);
            }
            #[cfg(feature = "hooks")]
            for c in r.recipe().commands() {
                out += read_out(&*s.eval_ast(&c.verif_unexpanded().clone())?);
            }
        }
    }
    Ok(Cost {
        cpu: cpu_now() - cpu,
        calls: CALLS.with(|c| c.get()) - calls,
        bytes: BYTES.with(|c| c.get()) - bytes,
        peak: (PEAK.with(|c| c.get()) - live).max(0) as u64,
        out,
    })
}

fn c26(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let f = &FAMILIES[src.below(FAMILIES.len())];
    let mut n = src.range(f.from, f.to);
    if f.times == 4 && src.chance(1, 4) {
        n *= 3;
    }
    let mut r: Vec<u64> = (0..20).map(|_| src.below(14) as u64).collect();
    let small_text = (f.text)(&mut r, n);
    let big_text = (f.text)(&mut r, n * f.times);
    ctx.case = format!("{} of size {} and {}\n{}", f.name, n, n * f.times, if small_text.len() < 4000 { &small_text } else { "" });
    let small = match measure(ctx, &small_text) {
        Ok(c) => c,
        // Not what this is about
        Err(e) => {
            ctx.count(&format!("not_judged: {} failed: {}", f.name, e.chars().take(60).collect::<String>()), 1);
            return trivial();
        }
    };
    let big = match measure(ctx, &big_text) {
        Ok(c) => c,
        Err(_) => return trivial(),
    };
    ctx.count(if f.name.contains("chain") { "chains_measured" } else { "sizes_measured" }, 1);
    ctx.count("allocations_counted", small.calls + big.calls);
    let ratio = |a: u64, b: u64, least: u64| b as f64 / a.max(least) as f64;
    // Input and output grow, too
    let grown = ratio(small.out, big.out, 100).max(ratio(small_text.len() as u64, big_text.len() as u64, 30)).max(f.times as f64);
    let calls = ratio(small.calls, big.calls, 2000);
    let bytes = ratio(small.bytes, big.bytes, 300_000);
    let peak = ratio(small.peak, big.peak, 100_000);
    let cpu = ratio(small.cpu, big.cpu, 25_000_000);
    for (n, x) in [("calls", calls), ("bytes", bytes), ("peak", peak)].iter() {
        ctx.max(&format!("growth_of_{}_in_percent_of_square", n), (100.0 * x / (grown * grown)) as u64);
        if std::env::var_os("HV_FAMILIES").is_some() {
            ctx.max(&format!("{}: {}", f.name, n), (100.0 * x / (grown * grown)) as u64);
        }
    }
    ctx.max("processor_ms", big.cpu / 1_000_000);
    if std::env::var_os("HV_FAMILIES").is_some() {
        ctx.max(&format!("{}: ms", f.name), big.cpu / 1_000_000);
        ctx.max(&format!("{}: abs calls", f.name), big.calls);
        ctx.max(&format!("{}: abs peak", f.name), big.peak);
    }
    let limit = 1.6 * grown * grown + 4.0;
    for (what, x, a, b) in &[("allocations", calls, small.calls, big.calls), ("bytes allocated", bytes, small.bytes, big.bytes), ("bytes in use", peak, small.peak, big.peak)] {
        if *x > limit {
            return Err(format!("{}: {} for size {}, but {} for size {}", f.name, a, n, b, n * f.times).into()).map_err(|e: String| {
                let _ = what;
                Bad::Violation(format!("{}: {}", what, e))
            });
        }
    }
    if big.cpu > 1_000_000_000 && cpu > 40.0 {
        // Once more
        if let (Ok(s), Ok(b)) = (measure(ctx, &small_text), measure(ctx, &big_text)) {
            if b.cpu > 1_000_000_000 && ratio(s.cpu, b.cpu, 25_000_000) > 40.0 {
                return Err(format!("{}: {} ms for size {}, but {} ms for size {}", f.name, s.cpu / 1_000_000, n, b.cpu / 1_000_000, n * f.times).into());
            }
        }
    }
    pass(&format!("{} {} {:?}", f.name, n, if f.name == "mixed chain" { &r[..] } else { &[] }))
}
