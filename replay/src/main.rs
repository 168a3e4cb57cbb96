//! Bounded stand-in and counterexample search on the real code: every operation on every small layout, compared with an
//! ideal sequence/map, with element accounting and injected panics.   replay PROPERTY SEED [--only CASE]
mod elem;
#[macro_use]
mod seq;
mod other;
mod extra;
mod big;
use elem::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub struct Ctx { pub prop: String, pub only: Option<String>, pub name: String, pub props: Vec<&'static str>, pub cases: usize, pub seed: u64, pub found: Vec<(String, String)>, pub skipped: usize, pub trace: bool }
impl Ctx {
    pub fn wants(&self, props: &[&str]) -> bool { props.iter().any(|p| *p == self.prop) }
    pub fn rnd(&mut self, n: usize) -> usize {
        self.seed ^= self.seed << 13; self.seed ^= self.seed >> 7; self.seed ^= self.seed << 17;
        (self.seed % (n.max(1) as u64)) as usize
    }
    /// a failure of the given property
    pub fn fail(&mut self, prop: &str, m: String) {
        if prop == self.prop && self.found.len() < 200 { let n = self.name.clone(); self.found.push((n, m)) }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, props: &[&str], what: &str, got: T, want: T) {
        if got != want { for p in props { self.fail(p, format!("{}: got {:?}, expected {:?}", what, got, want)) } }
    }
    /// run one case: everything created inside must be accounted for when it ends (unless `leaky`)
    pub fn case(&mut self, name: String, leaky: bool, fault: bool, f: impl FnOnce(&mut Ctx)) {
        if let Some(o) = &self.only { if *o != name { self.skipped += 1; return } }
        self.cases += 1;
        if self.trace { println!("RUN {}", name) }
        self.name = name;
        reg(|r| *r = Reg::default());
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        reg(|r| { r.drop_bomb = None; r.clone_bomb = None; r.next_bomb = None });
        if let Err(e) = r {
            let m = msg(&e);
            if m.starts_with("bomb") { self.fail("C07", format!("uncaught {}", m)) }
            else { for p in ["C05", "C08"] { self.fail(p, format!("unexpected panic: {}", m)) } }
        }
        let (errs, left) = reg(|r| (std::mem::take(&mut r.errors), r.alive.iter().filter(|x| **x).count()));
        for (p, m) in errs {
            self.fail(p, m.clone());
            if p == "C06" { self.fail("C05", m.clone()) }
            if fault { self.fail("C07", m) }
        }
        if left > 0 && !leaky { self.fail("C06", format!("{} elements leaked", left)) }
    }
}
pub fn msg(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or("?".into())
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|e| msg(&e)) }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let only = a.iter().position(|x| x == "--only").map(|i| a[i + 1].clone());
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut c = Ctx { prop: a[1].clone(), only, name: String::new(), props: vec![], cases: 0, seed: seed.wrapping_mul(0x9e3779b97f4a7c15) | 1, found: vec![], skipped: 0, trace: a.iter().any(|x| x == "--trace") };
    seq::run(&mut c);
    other::run(&mut c);
    extra::run(&mut c);
    big::run(&mut c, seed);
    println!("CASES {}", c.cases);
    for (n, m) in &c.found { println!("FAIL {} | {}", n, m) }
}
