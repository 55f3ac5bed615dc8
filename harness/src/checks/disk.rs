//! What reading does to the disk: the kernel's reports (inotify) on the
//! directory a makefile is read in are compared with what its includes say.
use super::*;
use crate::checks::lang::cfg_of;
use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

pub const C29: Check = Check {
    id: "C29",
    run: c29,
    quick: 15_000,
    thorough: 1_000_000,
    rule: "Generated makefiles with includes of all kinds (several, repeated, nested, computed, missing, evaluated, by ./, .. and absolute names) and with many places that merely mention files (skipped branches, comments, definitions, unexpanded values, recipes, prerequisites, targets) are read while inotify reports on the directory and its subdirectories. The files that were opened, in order and each as often as the reference model includes them, must be all that is reported: no other file is opened, none is opened for writing, created, changed or removed. Expanding every variable and command afterwards must touch nothing. Then some files change or vanish, and the makefile is read once more. Variables and rules are compared with the model after each read. Non trivial: at least one file was opened.",
    assumptions: &["inotify reports all there is to report; a report that does not come again when the case is repeated was caused by someone else"],
    must_see: &["files_opened", "reads_watched", "expansions_watched", "mentioned_but_not_opened", "second_reads", "opened_again_after_change", "errors_compared"],
    known: no_known,
    known_crash: no_crash,
};

extern "C" {
    fn inotify_init1(flags: i32) -> i32;
    fn inotify_add_watch(fd: i32, path: *const std::os::raw::c_char, mask: u32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
}

const MODIFY: u32 = 0x2;
const ATTRIB: u32 = 0x4;
const CLOSE_WRITE: u32 = 0x8;
const CLOSE_NOWRITE: u32 = 0x10;
const OPEN: u32 = 0x20;
const MOVED_FROM: u32 = 0x40;
const MOVED_TO: u32 = 0x80;
const CREATE: u32 = 0x100;
const DELETE: u32 = 0x200;
const OVERFLOW: u32 = 0x4000;
const ISDIR: u32 = 0x4000_0000;

struct Watch {
    fd: i32,
    dirs: BTreeMap<i32, String>,
}

impl Watch {
    fn new(root: &Path) -> Result<Watch, String> {
        let fd = unsafe { inotify_init1(0o4000) };
        if fd < 0 {
            return Err("inotify is not available".into());
        }
        let mut w = Watch { fd, dirs: BTreeMap::new() };
        w.add(root, "")?;
        Ok(w)
    }
    fn add(&mut self, dir: &Path, name: &str) -> Result<(), String> {
        // Look first: looking is opening
        let subs: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).filter(|e| e.path().is_dir()).collect();
        for s in subs {
            let n = format!("{}{}/", name, s.file_name().to_string_lossy());
            self.add(&s.path(), &n)?;
        }
        let c = CString::new(dir.as_os_str().as_bytes()).unwrap();
        // Equal reports in a row are merged, unless something comes between
        let mask = OPEN | CLOSE_NOWRITE | MODIFY | ATTRIB | CLOSE_WRITE | MOVED_FROM | MOVED_TO | CREATE | DELETE;
        let wd = unsafe { inotify_add_watch(self.fd, c.as_ptr(), mask) };
        if wd < 0 {
            return Err("inotify cannot watch a directory".into());
        }
        self.dirs.insert(wd, name.to_string());
        Ok(())
    }
    /// What happened since the last time
    fn events(&mut self) -> Vec<String> {
        let mut out = vec![];
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = unsafe { read(self.fd, buf.as_mut_ptr(), buf.len()) };
            if n <= 0 {
                return out;
            }
            let mut at = 0;
            while at + 16 <= n as usize {
                let word = |k: usize| {
                    let mut b = [0; 4];
                    b.copy_from_slice(&buf[at + 4 * k..at + 4 * k + 4]);
                    u32::from_ne_bytes(b)
                };
                let (wd, mask, len) = (word(0) as i32, word(1), word(3) as usize);
                let name = String::from_utf8_lossy(&buf[at + 16..at + 16 + len]).trim_end_matches('\0').to_string();
                let path = format!("{}{}", self.dirs.get(&wd).map(|s| &s[..]).unwrap_or("?"), name);
                at += 16 + len;
                for (bit, what) in [
                    (OPEN, "opened"),
                    (MODIFY, "changed"),
                    (ATTRIB, "attributes changed"),
                    (CLOSE_WRITE, "closed after writing"),
                    (MOVED_FROM, "moved away"),
                    (MOVED_TO, "moved to"),
                    (CREATE, "created"),
                    (DELETE, "removed"),
                    (OVERFLOW, "overflow"),
                ]
                .iter()
                {
                    if mask & bit != 0 {
                        out.push(format!("{}{} {}", what, if mask & ISDIR != 0 { " directory" } else { "" }, path));
                    }
                }
            }
        }
    }
}

impl Drop for Watch {
    fn drop(&mut self) {
        unsafe {
            close(self.fd);
        }
    }
}

/// Lines that mention a file without opening it
const MENTION: &[&str] = &[
    "ifeq (a,b)\ninclude F\nendif\n",
    "ifneq (a,a)\n-include F\nelse\nPP9 = 1\nendif\n",
    "ifeq (a,a)\nPP9 = 2\nelse\nsinclude F G\nendif\n",
    "ifeq (a,b)\nifeq (a,a)\ninclude F\nelse\ninclude F\nendif\nelse\nendif\n",
    "ifeq (a,b)\nPP9 := $(eval include F)\nendif\n",
    "# include F\n",
    "# more \\\ninclude F\n",
    "define DD9\ninclude F\nendef\n",
    "define DD9\ndefine x\nendef\n-include F\n$(eval include G)\nendef\n",
    "PP9 = $(eval include F)\n",
    "PP9 = include F\n",
    "PP9 := include F\n",
    "rr9: F\n\tinclude F\n\tcat F > new.mk\n",
    "rr9: ; include F\n",
    "rr9 F: G *.mk ./F\n\t$(eval include F)\n",
    "include\n",
    "-include $(NOPE)\n",
    "includeF = 1\n",
    "include.F: G\n",
];

/// Lines that do
const OPENS: &[&str] = &[
    "include F\n",
    "include F F\n",
    "include G F G\n",
    "include ./F\n",
    "include sub/../F .//F\n",
    "include ROOT/F\n",
    "sinclude gone.mk F ROOT/gone.mk G\n",
    "-include F\n",
    "PP9 := $(eval include F)\n",
    "PP9 := a$(eval include F)b$(eval -include G)\n",
    "ifeq (a,a)\ninclude F\nelse\ninclude G\nendif\n",
    "ifeq ($(eval include F),)\ninclude G\nendif\n",
    "define DD9\ninclude F\nendef\n$(eval $(DD9))\n",
    "PP9 = F\ninclude $(PP9:F=G) $(PP9)\n",
    "PP9 = a\nrr9: $(eval include F)\n",
    "rr9:\n\tcmd\ninclude F\n\tcmd\n",
];

fn one_read(ctx: &mut Ctx, text: &str, m: &mut Model, s: &mut Sut, root: &Path, expand: bool) -> Result<bool, Bad> {
    m.opened.clear();
    let r = m.read(text);
    if !judged(&r) {
        ctx.count("not_judged", 1);
        return Ok(false);
    }
    let mut watch = match Watch::new(root) {
        Ok(w) => w,
        Err(e) => {
            ctx.count(&format!("not_judged: {}", e), 1);
            return Ok(false);
        }
    };
    about_to_run(ctx);
    watch.events();
    let o = s.read(text, "main.mk");
    let seen = watch.events();
    compare_outcome(&r, &o)?;
    let want: Vec<String> = m.opened.iter().map(|f| format!("opened {}", f)).collect();
    if seen != want {
        return Err(Bad::Violation(format!("reading {:?} but should have {:?}", seen, want)));
    }
    ctx.count("reads_watched", 1);
    ctx.count("files_opened", want.len() as u64);
    if r.is_err() {
        ctx.count("errors_compared", 1);
    }
    let ignore = m.open_at_error.clone();
    compare_state(ctx, m, s, &ignore)?;
    let seen = watch.events();
    if expand {
        ctx.count("expansions_watched", 1);
        if !seen.is_empty() {
            return Err(Bad::Violation(format!("expanding {:?}", seen)));
        }
    }
    Ok(true)
}

fn c29(src: &mut Src, ctx: &mut Ctx) -> Verdict {
    let mut cfg = cfg_of("C10");
    cfg.max_stmts = 6;
    cfg.min_stmts = 1;
    let mut p = program(src, cfg);
    p.files.insert("trap.mk".into(), src.pick(&["TRAP = 1\n", "", "TRAP = 1\ntrap: x\n\tcmd\n", "TRAP += x"]).into());
    p.files.insert("sub/trap.mk".into(), "STRAP = 1\n".into());
    let names: Vec<String> = p.files.keys().cloned().collect();
    let root = ctx.dir.to_string_lossy().to_string();
    let mut mentioned = 0;
    for _ in 0..src.range(1, 4) {
        let t = if src.chance(1, 2) {
            mentioned += 1;
            src.pick(MENTION)
        } else {
            src.pick(OPENS)
        };
        let (f, g) = (src.pick_of(&names), src.pick_of(&names));
        let t = t.replace("F", &f).replace("G", &g).replace("ROOT", &root);
        let at = p.starts[src.below(p.starts.len())].0;
        p.text.insert_str(at, &t);
        for s in p.starts.iter_mut() {
            if s.0 > at {
                s.0 += t.len();
            }
        }
    }
    ctx.case = describe(&p.text.replace(&root, "ROOT"), &p.files);
    // Values that include something when they are expanded
    let lazy = p.text.contains("eval") || p.files.values().any(|t| t.contains("eval"));
    let again = src.chance(1, 2);
    let mut files = p.files.clone();
    if again {
        for f in &names {
            match src.below(8) {
                0 => {
                    files.remove(f);
                }
                1 | 2 => {
                    files.insert(f.clone(), format!("CHANGED += {}\n", f));
                }
                _ => {}
            }
        }
    }
    let mut attempt = |ctx: &mut Ctx| -> Verdict {
        put_files(ctx, &p.files);
        let root = ctx.dir.clone();
        let mut m = Model::new();
        m.root = root.to_string_lossy().to_string();
        m.files = p.files.clone();
        let mut s = Sut::new(&root);
        if !one_read(ctx, &p.text, &mut m, &mut s, &root, !lazy)? {
            return trivial();
        }
        let opened = m.opened.clone();
        if mentioned > 0 {
            ctx.count("mentioned_but_not_opened", 1);
        }
        if again {
            let _ = std::fs::remove_dir_all(&ctx.dir);
            std::fs::create_dir_all(&ctx.dir).unwrap();
            put_files(ctx, &files);
            m.files = files.clone();
            if one_read(ctx, &p.text, &mut m, &mut s, &root, false)? {
                ctx.count("second_reads", 1);
                if m.opened.iter().any(|f| opened.contains(f) && p.files[f] != files[f]) {
                    ctx.count("opened_again_after_change", 1);
                }
            }
        }
        if opened.is_empty() {
            return trivial();
        }
        pass(&ctx.case)
    };
    // Someone else may have looked into the directory
    let mut v = attempt(ctx);
    for _ in 0..2 {
        match v {
            Err(Bad::Violation(_)) => v = attempt(ctx),
            v => return v,
        }
    }
    v
}
