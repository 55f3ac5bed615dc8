#![allow(dead_code, unused_imports, unused_macros, unused_mut, unused_variables)]
use hastur::evaluated::Block;
use hastur::source_location::*;
use hastur::*;
use std::sync::Arc;

pub struct S {
    pub e: Engine,
    pub n: NameCache,
}
impl S {
    pub fn new() -> S {
        S { e: Engine::default(), n: NameCache::default() }
    }
    pub fn of(t: &str) -> S {
        let mut s = S::new();
        s.read(t).expect("could not be read");
        s
    }
    pub fn read(&mut self, t: &str) -> Result<(), String> {
        self.e.read_makefile(&mut self.n, &mut t.as_bytes(), "demo.mk").map_err(|e| format!("{:?}", e))
    }
    pub fn block(&mut self, v: &str) -> Option<Arc<Block>> {
        let id = self.n.variable_name(v)?;
        let ast = self.e.database.get_variable(id)?.ast().clone();
        Some(ast.eval(&mut self.n, &mut self.e))
    }
    pub fn val(&mut self, v: &str) -> Option<String> {
        self.block(v).map(|b| b.into_string())
    }
    /// target, prerequisites, number of commands
    pub fn rules(&self) -> Vec<(String, Vec<String>, usize)> {
        let mut v: Vec<_> = self
            .e
            .database
            .rules()
            .map(|r| (r.target().into_string(), r.dependencies().iter().map(|d| d.into_string()).collect(), r.recipe().commands().len()))
            .collect();
        v.sort();
        v
    }
    pub fn rule(&self, t: &str) -> Option<(Vec<String>, usize)> {
        self.rules().into_iter().find(|r| r.0 == t).map(|r| (r.1, r.2))
    }
    pub fn sens(&mut self, v: &str) -> Vec<String> {
        let b = self.block(v).unwrap();
        let ids: Vec<VariableName> = b.sensitivity().copied().collect();
        let mut out = vec![];
        for name in ["A", "B", "C", "D", "E", "X", "Y", "Z", "N", "K", "R", "NOPE", "V"] {
            if let Some(i) = self.n.variable_name(name) {
                if ids.contains(&i) {
                    out.push(name.to_string());
                }
            }
        }
        out
    }
}
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(demo).unwrap().join().map_err(|_| std::process::exit(1)).unwrap();
    println!("fine");
}
