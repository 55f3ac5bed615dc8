//! Development aids: none of the checks use these
use super::*;
use std::io::Read;

pub fn generate(a: &[String]) -> i32 {
    let seed: u64 = a[1].parse().unwrap();
    let n: u64 = a[2].parse().unwrap();
    let cfg = super::lang::cfg_of(&a[0]);
    let mut src = Src::random(seed * 1000003 + n);
    let p = program(&mut src, cfg);
    print!("{}", p.text);
    0
}

/// Reads a makefile, prints what the model makes of it
pub fn model_stdin() -> i32 {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    let mut m = Model::new();
    println!("{:?}", m.read(&t));
    for n in m.vars.keys() {
        println!("{} = {:?}", n, m.var_value(n).unwrap().map(|x| x.0));
    }
    for (t, r) in &m.rules {
        println!("{:?}: {:?} {:?}", t, r.deps, r.cmds);
    }
    0
}
