//! The code under test, and how it is observed

use crate::model::{Kind, Names};
use hastur::evaluated::Block;
use hastur::source_location::Location;
use hastur::{Engine, MakefileError, NameCache, ParseErrorKind, VariableName};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} (at {})", msg, loc));
    }));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| {
            let s = p.borrow().clone();
            match s.char_indices().nth(400) {
                Some((i, _)) => format!("{}...{}", &s[..i], &s[s.rfind("(at ").unwrap_or(i).max(i)..]),
                None => s,
            }
        })),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Err(Option<Kind>, String),
    Panic(String),
}

pub fn kind_of(e: &MakefileError) -> Option<Kind> {
    let k = match e {
        MakefileError::IOError(_) => return None,
        MakefileError::ParseError(k) => k,
    };
    Some(match k {
        ParseErrorKind::UnternimatedVariable => Kind::Unterminated,
        ParseErrorKind::MissingSeparator => Kind::MissingSeparator,
        ParseErrorKind::RecipeExpected => Kind::RecipeExpected,
        ParseErrorKind::UnattachedElse => Kind::UnattachedElse,
        ParseErrorKind::UnattachedEndIf => Kind::UnattachedEndIf,
        ParseErrorKind::TooManyElses => Kind::TooManyElses,
        ParseErrorKind::ExtraTokensAfter(s) => Kind::Extra(s),
        ParseErrorKind::NoRuleRecipe => Kind::NoRuleRecipe,
        ParseErrorKind::IncludeFailure(std::io::ErrorKind::NotFound, f) => Kind::IncludeNotFound(f.clone()),
        _ => return None,
    })
}

pub struct Sut {
    pub engine: Engine,
    pub names: NameCache,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SutRule {
    pub deps: Vec<String>,
    pub cmds: Vec<String>,
    pub double_colon: Option<bool>,
}

pub fn engine_in(dir: &Path) -> Engine {
    let mut engine = Engine::default();
    engine.working_directory = PathBuf::from(dir);
    engine
}

impl Sut {
    pub fn new(dir: &Path) -> Sut {
        Sut { engine: engine_in(dir), names: NameCache::default() }
    }

    pub fn read(&mut self, text: &str, fname: &str) -> Outcome {
        let r = guard(|| self.engine.read_makefile(&mut self.names, &mut text.as_bytes(), fname));
        match r {
            Ok(Ok(())) => Outcome::Ok,
            Ok(Err(e)) => Outcome::Err(kind_of(&e), format!("{:?}", e)),
            Err(p) => Outcome::Panic(p),
        }
    }

    pub fn defined(&self, name: &str) -> bool {
        match self.names.variable_name(name) {
            None => false,
            Some(v) => self.engine.database.get_variable(v).is_some(),
        }
    }

    /// Evaluates a node without changing the state of the engine
    pub fn eval_ast(&mut self, ast: &hastur::ast::AstNode) -> Result<std::sync::Arc<Block>, String> {
        let db = self.engine.database.clone();
        let r = guard(|| ast.eval(&mut self.names, &mut self.engine));
        self.engine.database = db;
        r
    }

    pub fn var_block(&mut self, name: &str) -> Option<Result<std::sync::Arc<Block>, String>> {
        let v = self.names.variable_name(name)?;
        let ast = self.engine.database.get_variable(v)?.ast().clone();
        Some(self.eval_ast(&ast))
    }

    /// Rules by target name. Fails if the database is not coherent.
    pub fn rules(&mut self) -> Result<BTreeMap<String, hastur::Rule>, String> {
        let mut out = BTreeMap::new();
        let db = self.engine.database.clone();
        for r in db.rules() {
            let t = guard(|| r.target().into_string())?;
            if out.insert(t.clone(), r.clone()).is_some() {
                return Err(format!("two rules for the target {:?}", t));
            }
            if self.names.resolve_file_name(r.target_fname()) != Some(&t[..]) {
                return Err(format!("the rule for {:?} is filed under another name", t));
            }
            let id = self.names.file_name(&t).ok_or_else(|| format!("target {:?} is not interned", t))?;
            match db.get_rule(id) {
                Some(x) if std::ptr::eq(x, r) || x == r => {}
                _ => return Err(format!("get_rule doesn't return the rule of {:?}", t)),
            }
        }
        Ok(out)
    }

    #[cfg(feature = "hooks")]
    pub fn cmd_text(&mut self, c: &hastur::Command) -> Result<String, String> {
        let b = self.eval_ast(&c.verif_unexpanded().clone())?;
        guard(|| b.into_string())
    }
    #[cfg(not(feature = "hooks"))]
    pub fn cmd_text(&mut self, _c: &hastur::Command) -> Result<String, String> {
        Ok("?".into())
    }

    pub fn rule_of(&mut self, r: &hastur::Rule) -> Result<SutRule, String> {
        let mut deps = vec![];
        for d in r.dependencies() {
            deps.push(guard(|| d.into_string())?);
        }
        let mut cmds = vec![];
        for c in r.recipe().commands() {
            cmds.push(self.cmd_text(c)?);
        }
        #[cfg(feature = "hooks")]
        let double_colon = Some(r.verif_rule_type() == hastur::RuleType::DoubleColon);
        #[cfg(not(feature = "hooks"))]
        let double_colon = None;
        Ok(SutRule { deps, cmds, double_colon })
    }
}

pub const HOOKS: bool = cfg!(feature = "hooks");

/// Which of these names is the block not sensitive to?
pub fn missing_sensitivity(names: &NameCache, block: &Block, wanted: &Names) -> Vec<String> {
    let have: Vec<VariableName> = block.sensitivity().copied().collect();
    wanted
        .iter()
        .filter(|n| match names.variable_name(n) {
            None => true,
            Some(v) => !have.contains(&v),
        })
        .cloned()
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Place {
    File(String, u32, u32),
    Eval(String, u32, u32),
    Synthetic,
    Other,
}

pub fn place(names: &NameCache, l: &Location) -> Place {
    match l {
        Location::SourceLocation { line, character, filename } => {
            Place::File(names.resolve_file_name(*filename).unwrap_or("?").to_string(), *line, *character)
        }
        Location::Synthetic => Place::Synthetic,
        Location::EvalLocation { tree_node, line, character } => Place::Eval(tree_node.into_string(), *line, *character),
        #[allow(unreachable_patterns)]
        _ => Place::Other,
    }
}

/// The files that have been read, for looking up places
pub struct Files {
    lines: BTreeMap<String, Vec<Vec<char>>>,
}

impl Files {
    pub fn new() -> Files {
        Files { lines: BTreeMap::new() }
    }
    pub fn add(&mut self, name: &str, text: &str) {
        let lines = text.split('\n').map(|l| l.chars().chain(std::iter::once('\n')).collect()).collect();
        self.lines.insert(name.to_string(), lines);
    }
    /// Is `text` what the file has at this place?
    pub fn has(&self, file: &str, line: u32, character: u32, text: &str) -> Result<(), String> {
        let lines = self.lines.get(file).ok_or_else(|| format!("no file {:?}", file))?;
        let mut l = (line as usize).wrapping_sub(1);
        let mut c = (character as usize).wrapping_sub(1);
        for ch in text.chars() {
            match lines.get(l).and_then(|x| x.get(c)) {
                Some(x) if *x == ch => {}
                x => return Err(format!("{}:{}:{} is {:?} there", file, line, character, x)),
            }
            if ch == '\n' {
                l += 1;
                c = 0;
            } else {
                c += 1;
            }
        }
        Ok(())
    }
}
