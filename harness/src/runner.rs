//! Drives a check: worker processes, crash recovery, shrinking, replay files
//! and evidence.

use crate::source::{hash64, Src};
use crate::sut;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// What a check saw in one case
pub struct Seen {
    /// Identifies the case if it was a non trivial one
    pub key: Option<u64>,
}

pub enum Bad {
    /// The property does not hold
    Violation(String),
    /// Listed in the known findings
    Known(&'static str),
}
impl From<String> for Bad {
    fn from(s: String) -> Bad {
        Bad::Violation(s)
    }
}

pub type Verdict = Result<Seen, Bad>;

pub fn pass(key: &str) -> Verdict {
    Ok(Seen { key: Some(hash64(key.as_bytes())) })
}
pub fn trivial() -> Verdict {
    Ok(Seen { key: None })
}

pub struct Ctx {
    pub counters: BTreeMap<String, u64>,
    /// A directory of its own for the include files of a case
    pub dir: PathBuf,
    pub thorough: bool,
    /// The current case, written out
    pub case: String,
    pub index: u64,
}

impl Ctx {
    pub fn count(&mut self, what: &str, n: u64) {
        if n > 0 {
            match self.counters.get_mut(what) {
                Some(c) => *c += n,
                None => {
                    self.counters.insert(what.to_string(), n);
                }
            }
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let e = self.counters.entry(format!("max_{}", what)).or_insert(0);
        *e = (*e).max(n);
    }
}

#[derive(Clone, Copy)]
pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Src, &mut Ctx) -> Verdict,
    pub quick: u64,
    pub thorough: u64,
    /// How cases are made, and what makes one non trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Counters that must not be zero at the end
    pub must_see: &'static [&'static str],
    /// Witnesses of known findings, which the check looks at again
    pub known: fn(&mut Ctx) -> Vec<String>,
    /// A process that died on this case: is that a known finding?
    pub known_crash: fn(&str) -> bool,
}

fn seed_of(seed: u64, id: &str, i: u64) -> u64 {
    hash64(format!("{}/{}/{}", seed, id, i).as_bytes())
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(default)
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(192 << 20).spawn(f).unwrap().join().unwrap()
}

// ---------------------------------------------------------------- workers

static CASE: AtomicU64 = AtomicU64::new(0);

fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let s = match s.rfind(')') {
        Some(i) => s[i + 1..].to_string(),
        None => return 0.0,
    };
    let f: Vec<&str> = s.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

pub const HANG: i32 = 91;
pub const SLOW: i32 = 93;

/// Ends the process when a single case uses up too much processor time
fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut case = 0;
        let mut since = cpu_seconds();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let c = CASE.load(Ordering::SeqCst);
            if c != case {
                case = c;
                since = cpu_seconds();
            } else if cpu_seconds() - since > limit {
                // Not if it is the model that takes its time
                std::process::exit(if crate::model::BUSY.load(Ordering::SeqCst) > 0 { SLOW } else { HANG });
            }
        }
    });
}

fn hex(c: &[u64]) -> String {
    c.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ")
}

fn unhex(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect()
}

/// The choices that still fail, made simpler
fn shrink(check: &Check, choices: Vec<u64>, ctx: &mut Ctx, budget: Duration) -> Vec<u64> {
    let start = Instant::now();
    let mut best = choices;
    let mut fails = |c: &[u64], ctx: &mut Ctx| {
        CASE.fetch_add(1, Ordering::SeqCst);
        let mut src = Src::replay(c.to_vec());
        match sut::guard(|| (check.run)(&mut src, ctx)) {
            Ok(Err(Bad::Violation(_))) => Some(src.made),
            Err(p) if p.contains("(at /") => Some(src.made),
            _ => None,
        }
    };
    loop {
        let before = best.clone();
        let mut size = best.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                if start.elapsed() > budget {
                    return best;
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                match fails(&c, ctx) {
                    Some(m) if m.len() < best.len() => best = m,
                    _ => i += size,
                }
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if start.elapsed() > budget {
                    return best;
                }
                if v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if let Some(m) = fails(&c, ctx) {
                        if m.len() <= best.len() {
                            best = m;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

fn new_ctx(dir: PathBuf, thorough: bool) -> Ctx {
    Ctx { counters: BTreeMap::new(), dir, thorough, case: String::new(), index: 0 }
}

/// `hv worker ID seed from step to dir`: writes its results to files in dir
pub fn worker(check: &'static Check, seed: u64, from: u64, step: u64, to: u64, deadline: u64, dir: PathBuf) -> i32 {
    watchdog(env_u64("HV_CPU", 20) as f64);
    on_big_stack(move || {
        let mut ctx = new_ctx(dir.join("files"), env_u64("HV_THOROUGH", 0) == 1);
        let mut keys: HashSet<u64> = HashSet::new();
        let mut samples: Vec<String> = vec![];
        let mut cur = std::fs::File::create(dir.join("current")).unwrap();
        let mut ran = 0u64;
        let mut known: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut i = from;
        let start = Instant::now();
        let mut violation = None;
        while i < to && start.elapsed().as_secs() < deadline {
            use std::os::unix::fs::FileExt;
            cur.write_at(&i.to_le_bytes(), 0).unwrap();
            CASE.store(i + 1, Ordering::SeqCst);
            let mut src = Src::random(seed_of(seed, check.id, i));
            ctx.case.clear();
            ctx.index = i;
            ran += 1;
            let began = Instant::now();
            let verdict = match sut::guard(|| (check.run)(&mut src, &mut ctx)) {
                Ok(v) => v,
                // A panic in the code under test nobody expected
                Err(p) if p.contains("(at /") => Err(Bad::Violation(format!("panic: {}", p))),
                Err(p) => {
                    eprintln!("harness failure in case {}: {}", i, p);
                    std::fs::write(dir.join("failure"), format!("case {}: {}", i, p)).unwrap();
                    std::process::exit(92);
                }
            };
            let took = began.elapsed().as_millis() as u64;
            ctx.max("case_ms", took);
            if took > 3000 {
                ctx.count(&format!("slow case: seed {} index {}", seed, i), 1);
            }
            match verdict {
                Ok(s) => {
                    if let Some(k) = s.key {
                        if keys.insert(k) && samples.len() < 3 && ctx.case.len() < 1500 {
                            samples.push(ctx.case.clone());
                        }
                    }
                }
                Err(Bad::Known(k)) => *known.entry(k).or_insert(0) += 1,
                Err(Bad::Violation(msg)) => {
                    violation = Some((i, msg, src.made));
                    break;
                }
            }
            i += step;
        }
        let mut code = 0;
        if let Some((i, mut msg, mut choices)) = violation {
            code = 1;
            let write = |msg: &str, choices: &[u64], case: &str| {
                let t = format!("{}\n{}\n{}\n--- case\n{}\n", i, hex(choices), msg.replace('\n', "\\n"), case);
                std::fs::write(dir.join("violation.tmp"), t).unwrap();
                std::fs::rename(dir.join("violation.tmp"), dir.join("violation")).unwrap();
            };
            write(&msg, &choices, &ctx.case);
            choices = shrink(check, choices, &mut ctx, Duration::from_secs(15));
            let mut src = Src::replay(choices.clone());
            if let Ok(Err(Bad::Violation(m))) = sut::guard(|| (check.run)(&mut src, &mut ctx)) {
                msg = m;
                write(&msg, &choices, &ctx.case);
            }
        }
        let _ = cur.flush();
        let mut out = String::new();
        out += &format!("ran {}\n", ran);
        for (k, v) in &ctx.counters {
            out += &format!("count {} {}\n", v, k);
        }
        for (k, v) in &known {
            out += &format!("known {} {}\n", v, k);
        }
        for s in &samples {
            out += &format!("sample {}\n", json_str(s));
        }
        for k in &keys {
            out += &format!("key {:x}\n", k);
        }
        std::fs::write(dir.join("result"), out).unwrap();
        code
    })
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- parent

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn spawn(check: &Check, seed: u64, from: u64, step: u64, to: u64, deadline: u64, cpu: u64, thorough: bool, dir: &Path) -> Child {
    std::fs::create_dir_all(dir).unwrap();
    Command::new(std::env::current_exe().unwrap())
        .args(&["worker", check.id])
        .args(&[seed, from, step, to, deadline].iter().map(|x| x.to_string()).collect::<Vec<_>>())
        .arg(dir)
        .env("HV_CPU", cpu.to_string())
        .env("HV_THOROUGH", if thorough { "1" } else { "0" })
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(dir.join("stderr")).unwrap())
        .spawn()
        .unwrap()
}

fn describe(status: std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (status.code(), status.signal()) {
        (Some(HANG), _) => "did not finish: used up its processor time".into(),
        (_, Some(s)) => format!("killed the process with signal {}", s),
        (Some(c), _) => format!("ended the process with status {}", c),
        _ => "ended the process".into(),
    }
}

pub struct Report {
    pub wall: f64,
}

pub fn run_check(check: &'static Check, verif: &Path) -> i32 {
    let start = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let total = env_u64("HV_CASES", if thorough { check.thorough } else { check.quick }) / env_u64("HV_CASES_DIV", 1).max(1);
    let deadline = env_u64("HV_DEADLINE", if thorough { 3000 } else { 240 });
    let jobs = env_u64("HV_JOBS", 8);
    let scratch = Scratch(PathBuf::from(format!("/tmp/hv.{}.{}", check.id, std::process::id())));
    let _ = std::fs::remove_dir_all(&scratch.0);
    std::fs::create_dir_all(&scratch.0).unwrap();

    let mut ran = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<(u64, String, String, String)> = None;
    let mut error: Option<String> = None;
    let mut generation = 0;

    // (from, dir, child)
    let mut running: Vec<(u64, PathBuf, Child)> = vec![];
    for k in 0..jobs {
        let dir = scratch.0.join(format!("w{}", k));
        let c = spawn(check, seed, k, jobs, total, deadline, 20, thorough, &dir);
        running.push((k, dir, c));
    }
    let read_result = |dir: &Path,
                           ran: &mut u64,
                           counters: &mut BTreeMap<String, u64>,
                           known: &mut BTreeMap<String, u64>,
                           samples: &mut Vec<String>,
                           keys: &mut HashSet<u64>| {
        let t = std::fs::read_to_string(dir.join("result")).unwrap_or_default();
        for l in t.lines() {
            let mut p = l.splitn(2, ' ');
            let (what, rest) = (p.next().unwrap_or(""), p.next().unwrap_or(""));
            let mut q = rest.splitn(2, ' ');
            match what {
                "ran" => *ran += rest.parse::<u64>().unwrap_or(0),
                "key" => {
                    keys.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                }
                "sample" => samples.push(rest.to_string()),
                "count" | "known" => {
                    let n: u64 = q.next().unwrap_or("").parse().unwrap_or(0);
                    let name = q.next().unwrap_or("").to_string();
                    if what == "known" {
                        *known.entry(name).or_insert(0) += n
                    } else if name.starts_with("max_") {
                        let e = counters.entry(name).or_insert(0);
                        *e = (*e).max(n)
                    } else {
                        *counters.entry(name).or_insert(0) += n
                    }
                }
                _ => {}
            }
        }
    };
    let mut crashes = 0;
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < running.len() {
            let status = match running[i].2.try_wait().unwrap() {
                None => {
                    i += 1;
                    continue;
                }
                Some(s) => s,
            };
            let (_, dir, _) = running.swap_remove(i);
            match status.code() {
                Some(0) => read_result(&dir, &mut ran, &mut counters, &mut known, &mut samples, &mut keys),
                Some(1) if dir.join("violation").exists() => {
                    read_result(&dir, &mut ran, &mut counters, &mut known, &mut samples, &mut keys);
                    let t = std::fs::read_to_string(dir.join("violation")).unwrap();
                    let mut l = t.splitn(4, '\n');
                    let idx = l.next().unwrap_or("").parse().unwrap_or(0);
                    let choices = l.next().unwrap_or("").to_string();
                    let msg = l.next().unwrap_or("").to_string();
                    let case = l.next().unwrap_or("").to_string();
                    if violation.is_none() {
                        violation = Some((idx, choices, msg, case));
                    }
                    for (_, _, c) in running.iter_mut() {
                        let _ = c.kill();
                        let _ = c.wait();
                    }
                    running.clear();
                }
                Some(92) => {
                    error = Some(std::fs::read_to_string(dir.join("failure")).unwrap_or_default());
                    for (_, _, c) in running.iter_mut() {
                        let _ = c.kill();
                        let _ = c.wait();
                    }
                    running.clear();
                }
                _ => {
                    // The process died: run that case again, on its own
                    let mut b = [0u8; 8];
                    let idx = match std::fs::File::open(dir.join("current")).and_then(|mut f| f.read_exact(&mut b)) {
                        Ok(()) => u64::from_le_bytes(b),
                        Err(e) => {
                            error = Some(format!("worker {} before its first case: {}", describe(status), e));
                            continue;
                        }
                    };
                    crashes += 1;
                    generation += 1;
                    let again = scratch.0.join(format!("a{}", generation));
                    let mut c = spawn(check, seed, idx, total + 1, idx + 1, 600, 120, thorough, &again);
                    let st = c.wait().unwrap();
                    if st.code() == Some(0) {
                        // Went well this time: not reproducible, so not a verdict
                        read_result(&again, &mut ran, &mut counters, &mut known, &mut samples, &mut keys);
                        *counters.entry("workers_restarted".into()).or_insert(0) += 1;
                    } else if st.code() == Some(SLOW) {
                        ran += 1;
                        *counters.entry("given_up_by_the_model".into()).or_insert(0) += 1;
                    } else {
                        let case = std::fs::read_to_string(again.join("case")).unwrap_or_default();
                        ran += 1;
                        if (check.known_crash)(&case) && st.code() != Some(HANG) {
                            *known.entry("crash".into()).or_insert(0) += 1;
                        } else if violation.is_none() {
                            let mut src = Src::random(seed_of(seed, check.id, idx));
                            // Choices are not known, as the process died: the seed stands for them
                            src.made.clear();
                            violation = Some((idx, format!("seed {} {}", seed, idx), format!("the code under test {}", describe(st)), case));
                        }
                    }
                    if violation.is_some() || crashes > 400 {
                        if violation.is_none() {
                            error = Some("too many crashes".into());
                        }
                        for (_, _, c) in running.iter_mut() {
                            let _ = c.kill();
                            let _ = c.wait();
                        }
                        running.clear();
                    } else if idx + jobs < total && (start.elapsed().as_secs() as u64) < deadline {
                        // Go on behind it. What the dead worker had counted is lost.
                        let dir = scratch.0.join(format!("g{}", generation));
                        let left = deadline - start.elapsed().as_secs();
                        let c = spawn(check, seed, idx + jobs, jobs, total, left, 20, thorough, &dir);
                        running.push((idx + jobs, dir, c));
                    }
                }
            }
        }
    }

    // Known findings
    let mut kctx = new_ctx(scratch.0.join("known"), thorough);
    let (lines, kctx) = {
        let f = check.known;
        on_big_stack(move || {
            let l = f(&mut kctx);
            (l, kctx)
        })
    };
    drop(kctx);
    for l in &lines {
        println!("KNOWN-FINDING: property={} {}", check.id, l);
    }

    if violation.is_none() && error.is_none() {
        for m in check.must_see {
            if counters.get(*m).copied().unwrap_or(0) == 0 && !keys.is_empty() && ran > 500 {
                // Nothing to be seen: not a verdict about the property
                eprintln!("note: the monitors never observed {:?}", m);
            }
        }
        if keys.is_empty() {
            error = Some("no case could be judged".into());
        }
    }

    let wall = start.elapsed().as_secs_f64();
    let mut j = String::new();
    j += "{\n";
    j += &format!("  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n", json_str(check.id), if thorough { "thorough" } else { "quick" }, seed);
    j += "  \"coverage\": {\n";
    j += &format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n", ran, keys.len(), json_str(check.rule));
    let s: Vec<String> = samples.iter().take(4).cloned().collect();
    j += &format!("    \"samples\": [{}],\n", s.join(", "));
    let c: Vec<String> = counters.iter().map(|(k, v)| format!("      {}: {}", json_str(k), v)).collect();
    j += &format!("    \"observed\": {{\n{}\n    }},\n", c.join(",\n"));
    let c: Vec<String> = known.iter().map(|(k, v)| format!("      {}: {}", json_str(k), v)).collect();
    j += &format!("    \"known_findings_hit\": {{\n{}\n    }},\n", c.join(",\n"));
    j += &format!("    \"hooks\": {}\n  }},\n", sut::HOOKS);
    let a: Vec<String> = check.assumptions.iter().map(|x| json_str(x)).collect();
    j += &format!("  \"assumptions\": [{}],\n", a.join(", "));
    j += &format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", wall, violation.is_some() as u32);
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    std::fs::write(verif.join("evidence").join(format!("{}.json", check.id)), j).unwrap();

    println!(
        "{}: {} cases, {} distinct and non trivial, {:.1} s",
        check.id, ran, keys.len(), wall
    );
    if let Some((idx, choices, msg, case)) = violation {
        let dir = verif.join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.txt", check.id, seed, idx));
        let t = format!("property {}\nchoices {}\nmessage {}\n{}\n", check.id, choices, msg, case);
        std::fs::write(&path, t).unwrap();
        println!("{}", msg.replace("\\n", "\n"));
        println!("{}", case);
        println!("VIOLATION property={} replay={}", check.id, path.display());
        return 1;
    }
    if let Some(e) = error {
        println!("error: {}", e);
        return 2;
    }
    0
}

pub fn replay(checks: &'static [Check], file: &str) -> i32 {
    let t = std::fs::read_to_string(file).expect("cannot read the replay file");
    let mut id = "";
    let mut choices = "";
    for l in t.lines() {
        if l.starts_with("property ") {
            id = &l[9..];
        }
        if l.starts_with("choices ") {
            choices = &l[8..];
            break;
        }
    }
    let check = checks.iter().find(|c| c.id == id).expect("no such property");
    let src = if choices.starts_with("seed ") {
        let v: Vec<u64> = choices[5..].split(' ').map(|x| x.parse().unwrap()).collect();
        Src::random(seed_of(v[0], check.id, v[1]))
    } else {
        Src::replay(unhex(choices))
    };
    let scratch = Scratch(PathBuf::from(format!("/tmp/hv.replay.{}", std::process::id())));
    let dir = scratch.0.clone();
    let r = on_big_stack(move || {
        let mut src = src;
        let mut ctx = new_ctx(dir, false);
        let r = match (check.run)(&mut src, &mut ctx) {
            Ok(_) => {
                println!("held");
                0
            }
            Err(Bad::Known(k)) => {
                println!("known finding: {}", k);
                0
            }
            Err(Bad::Violation(m)) => {
                println!("violated: {}", m);
                1
            }
        };
        println!("{}", ctx.case);
        r
    });
    drop(scratch);
    r
}

/// Leaves a note of the case for the parent, should the process die
pub fn about_to_run(ctx: &Ctx) {
    // Only single case re-runs need it
    if std::env::var_os("HV_CPU").map_or(false, |v| v == "120") {
        if let Some(p) = ctx.dir.parent() {
            let _ = std::fs::write(p.join("case"), &ctx.case);
        }
    }
}

/// `hv san IDS seed from to seconds`: runs cases of these checks for a sanitizer to
/// watch. What the checks themselves say doesn't matter here.
pub fn sanitized(a: &[String]) -> i32 {
    let n: Vec<u64> = a[1..5].iter().map(|x| x.parse().unwrap()).collect();
    let ids: Vec<String> = a[0].split(',').map(|x| x.to_string()).collect();
    on_big_stack(move || {
        let start = Instant::now();
        let dir = PathBuf::from(format!("/tmp/hv.san.{}", std::process::id()));
        for id in &ids {
            let check = match crate::checks::ALL.iter().chain([crate::checks::share::SHARE].iter()).find(|c| c.id == id) {
                Some(c) => *c,
                None => continue,
            };
            let mut ctx = new_ctx(dir.join("files"), false);
            let mut keys: HashSet<u64> = HashSet::new();
            let (mut ran, mut bad) = (0, 0);
            for i in n[1]..n[2] {
                if start.elapsed().as_secs() >= n[3] {
                    break;
                }
                let mut src = Src::random(seed_of(n[0], check.id, i));
                ran += 1;
                match sut::guard(|| (check.run)(&mut src, &mut ctx)) {
                    Ok(Ok(s)) => {
                        if let Some(k) = s.key {
                            keys.insert(k);
                        }
                    }
                    Ok(Err(Bad::Violation(_))) | Err(_) => bad += 1,
                    _ => {}
                }
                println!("CASE {} {}", check.id, i);
            }
            let t: u64 = ctx.counters.get("threads").copied().unwrap_or(0) + ctx.counters.get("runs_in_threads").copied().unwrap_or(0) + ctx.counters.get("handed_to_another_thread").copied().unwrap_or(0);
            println!("RAN {} {} {} {} {}", check.id, ran, keys.len(), bad, t);
        }
        if crate::checks::share::INVALID.load(Ordering::SeqCst) > 0 {
            println!("INVALID");
        }
        let _ = std::fs::remove_dir_all(&dir);
        0
    })
}
