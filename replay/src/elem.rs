//! Instrumented element type: every value has an identity; clones, drops and accesses are checked against a registry.
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
const MAGIC: u64 = 0x5eed_1234_abcd_9876;
#[derive(Default)]
pub struct Reg {
    pub alive: Vec<bool>,
    pub clones: Vec<(u64, u64)>,
    pub errors: Vec<(&'static str, String)>,
    pub drop_bomb: Option<usize>,
    pub clone_bomb: Option<usize>,
    pub next_bomb: Option<usize>,
}
thread_local! { pub static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
pub fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T { REG.with(|r| f(&mut r.borrow_mut())) }
pub fn err(p: &'static str, m: String) { reg(|r| if r.errors.len() < 20 { r.errors.push((p, m)) }) }
pub struct E { magic: u64, id: u64, v: i64 }
impl E {
    pub fn new(v: i64) -> E {
        reg(|r| { r.alive.push(true); E { magic: MAGIC, id: r.alive.len() as u64 - 1, v } })
    }
    fn check(&self, what: &str) -> bool {
        let (m, id) = (self.magic, self.id);
        let ok = m == MAGIC && reg(|r| r.alive.get(id as usize).copied().unwrap_or(false));
        if !ok { err("C05", format!("{} of a slot without a live element", what)) }
        ok
    }
    pub fn val(&self) -> i64 { if self.check("read") { self.v } else { -999 } }
    pub fn id(&self) -> u64 { self.id }
    pub fn set(&mut self, v: i64) { if self.check("write") { self.v = v } }
}
impl Drop for E {
    fn drop(&mut self) {
        let ok = self.magic == MAGIC && reg(|r| r.alive.get(self.id as usize).copied().unwrap_or(false));
        if !ok { err("C06", "an element is dropped twice, or a slot without an element is dropped".into()); return }
        let id = self.id as usize;
        let bomb = reg(|r| { r.alive[id] = false; match r.drop_bomb { Some(0) => { r.drop_bomb = None; true } Some(n) => { r.drop_bomb = Some(n - 1); false } None => false } });
        if bomb && !std::thread::panicking() { panic!("bomb: drop") }
    }
}
impl Clone for E {
    fn clone(&self) -> E {
        let v = self.val();
        let bomb = reg(|r| match r.clone_bomb { Some(0) => { r.clone_bomb = None; true } Some(n) => { r.clone_bomb = Some(n - 1); false } None => false });
        if bomb { panic!("bomb: clone") }
        let e = E::new(v);
        reg(|r| r.clones.push((self.id, e.id)));
        e
    }
}
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.val() / 4 == o.val() / 4 } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> Ordering { (self.val() / 4).cmp(&(o.val() / 4)) } }
impl Hash for E { fn hash<H: Hasher>(&self, h: &mut H) { (self.val() / 4).hash(h) } }
impl std::fmt::Debug for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "E{}", self.val()) } }
/// iterator over fresh elements that may panic or misreport its length
pub struct It { pub next: i64, pub left: usize, pub claims: Vec<usize>, pub asked: std::cell::Cell<usize> }
impl It {
    pub fn new(start: i64, n: usize) -> It { It { next: start, left: n, claims: vec![], asked: Default::default() } }
    pub fn lying(start: i64, n: usize, claims: &[usize]) -> It { It { next: start, left: n, claims: claims.to_vec(), asked: Default::default() } }
    fn claim(&self) -> usize {
        if self.claims.is_empty() { return self.left }
        let k = self.asked.get(); self.asked.set(k + 1);
        self.claims[k.min(self.claims.len() - 1)]
    }
}
impl Iterator for It {
    type Item = E;
    fn next(&mut self) -> Option<E> {
        let bomb = reg(|r| match r.next_bomb { Some(0) => { r.next_bomb = None; true } Some(n) => { r.next_bomb = Some(n - 1); false } None => false });
        if bomb { panic!("bomb: next") }
        if self.left == 0 { return None }
        self.left -= 1; self.next += 4;
        Some(E::new(self.next - 4))
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let c = self.claim(); (c, Some(c)) }
}
impl ExactSizeIterator for It { fn len(&self) -> usize { self.claim() } }
#[derive(Default, PartialEq, Debug, Clone)]
pub struct Rec(pub Vec<Vec<u8>>);
impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.push(b.to_vec()) } }
