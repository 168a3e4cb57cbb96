//! Methods whose default implementations a container may override (nth, count, fold, clone_from, ne, read_exact, ...), the part of an
//! iterator that a construction leaves behind, and larger wrapped transfers.
use crate::elem::*;
use crate::seq::{items, NEW, SEC};
use crate::{quiet, Ctx};
use array_ops::{Array, ArrayMut, HasLength};
use sized_chunks::{Chunk, InlineArray, RingBuffer, SparseChunk};
use std::collections::VecDeque;
use std::io::{Read, Write};

pub trait Val { fn v(self) -> i64; }
impl Val for E { fn v(self) -> i64 { self.val() } }
impl<'a> Val for &'a E { fn v(self) -> i64 { self.val() } }
impl<'a> Val for &'a mut E { fn v(self) -> i64 { let q = self.val(); self.set(q); q } }
impl Val for usize { fn v(self) -> i64 { self as i64 } }
impl<V: Val> Val for Option<V> { fn v(self) -> i64 { match self { None => -2, Some(x) => x.v() } } }
impl<V: Val> Val for (usize, V) { fn v(self) -> i64 { self.0 as i64 * 1000 + self.1.v() } }
fn o<V: Val>(x: Option<V>) -> i64 { match x { Some(x) => x.v(), None => -1 } }

/// script steps: 0 next, 1.. nth(k-1); 100 next_back, 101.. nth_back(k-101)
fn fwd<I: Iterator>(it: &mut I, s: usize) -> i64 where I::Item: Val { if s == 0 { o(it.next()) } else { o(it.nth(s - 1)) } }
fn both<I: DoubleEndedIterator>(it: &mut I, s: usize) -> i64 where I::Item: Val { if s < 100 { fwd(it, s) } else if s == 100 { o(it.next_back()) } else { o(it.nth_back(s - 101)) } }
fn model(d: &mut VecDeque<i64>, s: usize) -> i64 {
    let mut r = None;
    if s < 100 { for _ in 0..s.max(1) { r = d.pop_front() } } else { for _ in 0..(s - 100).max(1) { r = d.pop_back() } }
    r.unwrap_or(-1)
}
fn finish<I: Iterator>(mut it: I, how: usize) -> Vec<i64> where I::Item: Val {
    match how {
        0 => vec![it.count() as i64], 1 => vec![o(it.last())], 2 => it.fold(vec![], |mut v, x| { v.push(x.v()); v }), 3 => { let mut v = vec![]; it.for_each(|x| v.push(x.v())); v }
        4 => { let mut v = vec![]; let r = it.try_fold(0, |n, x| { v.push(x.v()); if n == 1 { Err(n) } else { Ok(n + 1) } }); v.push(r.unwrap_or_else(|e| -e) as i64); while let Some(x) = it.next() { v.push(x.v()) } v }
        5 => vec![o(it.find(|_| true)), o(it.next()), o(it.next())], 6 => it.step_by(2).map(|x| x.v()).collect(), 7 => it.skip(1).take(2).map(|x| x.v()).collect(),
        8 => { let a = o(it.by_ref().skip(2).next()); let mut v = vec![a]; v.extend(it.map(|x| x.v())); v }
        9 => vec![it.by_ref().all(|x| x.v() > -100) as i64, o(it.next())],
        _ => { let mut v = vec![]; for x in it.by_ref() { v.push(x.v()) } for _ in 0..3 { v.push(o(it.next())) } v }
    }
}
const HOWS: usize = 11;
fn mfinish(mut d: VecDeque<i64>, how: usize) -> Vec<i64> {
    match how {
        0 => vec![d.len() as i64], 1 => vec![d.pop_back().unwrap_or(-1)], 2 | 3 => d.into_iter().collect(),
        4 => { let n = d.len() as i64; let mut v: Vec<i64> = d.iter().take(2).copied().collect(); v.push(if n >= 2 { -1 } else { n }); v.extend(d.iter().skip(2)); v }
        5 => { let mut f = || d.pop_front().unwrap_or(-1); vec![f(), f(), f()] } 6 => d.into_iter().step_by(2).collect(), 7 => d.into_iter().skip(1).take(2).collect(),
        8 => { let v: Vec<i64> = d.into_iter().skip(2).collect(); if v.is_empty() { vec![-1] } else { v } }
        9 => vec![1, -1],
        _ => { let mut v: Vec<i64> = d.into_iter().collect(); v.extend([-1; 3]); v }
    }
}
fn script(c: &mut Ctx, n: usize, back: bool) -> Vec<usize> {
    let k = c.rnd(4);
    (0..k).map(|_| { let s = match c.rnd(8) { 0 | 1 => 0, 7 => n + 1 + c.rnd(3), _ => 1 + c.rnd(n + 1) }; if back && c.rnd(2) == 0 { 100 + s } else { s } }).collect()
}
macro_rules! jump { ($c:ident, $name:expr, $step:ident, $back:expr, $n:expr, $vals:expr, |$x:ident| $mk:expr, $it:expr) => {
    for how in 0..HOWS { for rep in 0..3 {
        let s = if rep == 0 { vec![] } else { script($c, $n, $back) };
        $c.case(format!("{} steps {:?} end {}", $name, s, how), false, false, |c| {
            let mut d: VecDeque<i64> = $vals.iter().copied().collect();
            #[allow(unused_mut)] let mut $x = $mk;
            let mut it = $it;
            for (i, &k) in s.iter().enumerate() {
                let w = model(&mut d, k); let g = $step(&mut it, k);
                c.eq(&["C09"], &format!("step {}", i), g, w);
                let (lo, hi) = it.size_hint();
                if lo > d.len() || hi.map_or(false, |h| h < d.len()) { c.fail("C09", format!("size hint {:?} with {} elements to come", (lo, hi), d.len())) }
            }
            c.eq(&["C09"], "the rest", finish(it, how), mfinish(d, how));
        });
    } }
    if $back { for how in 0..HOWS { for rep in 0..2 {
        let s = if rep == 0 { vec![] } else { script($c, $n, $back) };
        $c.case(format!("{} steps {:?} reversed end {}", $name, s, how), false, false, |c| {
            let mut d: VecDeque<i64> = $vals.iter().copied().collect();
            #[allow(unused_mut)] let mut $x = $mk;
            let mut it = $it;
            for &k in &s { let w = model(&mut d, k); let g = $step(&mut it, k); c.eq(&["C09"], "step", g, w) }
            let d: VecDeque<i64> = d.into_iter().rev().collect();
            c.eq(&["C09"], "the rest", rev!($step, it, how), mfinish(d, how));
        });
    } } }
} }
macro_rules! rev { (both, $it:expr, $how:expr) => { finish($it.rev(), $how) }; (fwd, $it:expr, $how:expr) => { finish($it, $how) } }
fn rot<const N: usize>(origin: usize, vals: &[i64]) -> RingBuffer<E, N> {
    let mut r = RingBuffer::new();
    for _ in 0..origin { r.push_back(E::new(1)); r.pop_front(); }
    for v in vals { r.push_back(E::new(*v)) }
    r
}
fn at<const N: usize>(left: usize, vals: &[i64]) -> Chunk<E, N> {
    let mut x = Chunk::new();
    for _ in 0..left.min(N) { x.push_back(E::new(1)) } 
    for v in vals { if left + vals.len() <= N { x.push_back(E::new(*v)) } }
    for _ in 0..left.min(N) { x.pop_front(); }
    if x.len() != vals.len() { for v in vals { x.push_back(E::new(*v)) } }
    x
}
fn iterators(c: &mut Ctx) {
    for n in 0..=4usize { for left in 0..=(5 - n) { let v = items(0, n);
        jump!(c, format!("chunk at {} into_iter of {}", left, n), both, true, n, v, |x| at::<5>(left, &v), x.into_iter());
        jump!(c, format!("chunk at {} drain of {}", left, n), both, true, n, v, |x| at::<5>(left, &v), x.drain());
        if left == 0 { jump!(c, format!("chunk iter of {}", n), both, true, n, v, |x| at::<5>(left, &v), x.iter()); jump!(c, format!("chunk iter_mut of {}", n), both, true, n, v, |x| at::<5>(left, &v), x.iter_mut()); }
    } }
    for n in 0..=5usize { for or in 0..5 { let v = items(0, n);
        jump!(c, format!("ring at {} iter of {}", or, n), both, true, n, v, |x| rot::<5>(or, &v), x.iter());
        jump!(c, format!("ring at {} iter_mut of {}", or, n), both, true, n, v, |x| rot::<5>(or, &v), x.iter_mut());
        jump!(c, format!("ring at {} into_iter of {}", or, n), both, true, n, v, |x| rot::<5>(or, &v), x.into_iter());
        jump!(c, format!("ring at {} drain of {}", or, n), both, true, n, v, |x| rot::<5>(or, &v), x.drain());
    } }
    for n in 0..=4usize { let v = items(0, n);
        let mk = || -> InlineArray<E, [u64; 13]> { v.iter().map(|a| E::new(*a)).collect() };
        jump!(c, format!("inline into_iter of {}", n), fwd, false, n, v, |x| mk(), x.into_iter());
        jump!(c, format!("inline drain of {}", n), fwd, false, n, v, |x| mk(), x.drain());
    }
    for m in 0..32u32 {
        let ix: Vec<usize> = (0..5).filter(|i| m >> i & 1 == 1).collect(); let v: Vec<i64> = ix.iter().map(|i| 4 * *i as i64).collect(); let n = v.len();
        let ov: Vec<i64> = (0..5).map(|i| if m >> i & 1 == 1 { 4 * i as i64 } else { -2 }).collect();
        let iv: Vec<i64> = ix.iter().map(|i| *i as i64).collect(); let ev: Vec<i64> = ix.iter().map(|i| *i as i64 * 1004).collect();
        let mk = || { let mut s: SparseChunk<E, 5> = SparseChunk::new(); for i in &ix { s.insert(*i, E::new(4 * *i as i64)); } s };
        jump!(c, format!("sparse {:b} iter", m), fwd, false, n, v, |x| mk(), x.iter());
        jump!(c, format!("sparse {:b} iter_mut", m), fwd, false, n, v, |x| mk(), x.iter_mut());
        jump!(c, format!("sparse {:b} into_iter", m), fwd, false, n, v, |x| mk(), x.into_iter());
        jump!(c, format!("sparse {:b} drain", m), fwd, false, n, v, |x| mk(), x.drain());
        jump!(c, format!("sparse {:b} option_iter", m), fwd, false, 5, ov, |x| mk(), x.option_iter());
        jump!(c, format!("sparse {:b} option_iter_mut", m), fwd, false, 5, ov, |x| mk(), x.option_iter_mut());
        jump!(c, format!("sparse {:b} option_drain", m), fwd, false, 5, ov, |x| mk(), x.option_drain());
        jump!(c, format!("sparse {:b} indices", m), fwd, false, n, iv, |x| mk(), x.indices());
        jump!(c, format!("sparse {:b} entries", m), fwd, false, n, ev, |x| mk(), x.entries());
    }
}

// ------------------------------------------------------------------ what a construction takes from its source
fn consumption(c: &mut Ctx) {
    for have in 0..7usize { for k in 0..7usize {
        c.case(format!("collect_from {} of {}", k, have), false, false, |c| {
            let mut it = It::new(SEC, have);
            let r = quiet(|| Chunk::<E, 5>::collect_from(&mut it, k));
            if k <= have && k <= 5 { match r { Ok(x) => { c.eq(&["C16"], "chunk", x.iter().map(|e| e.val()).collect::<Vec<_>>(), items(SEC, k)); c.eq(&["C16"], "items left in the iterator of the chunk", it.left, have - k) } Err(m) => c.fail("C16", m) } }
            let mut it = It::new(SEC, have);
            let r = quiet(|| RingBuffer::<E, 5>::collect_from(&mut it, k));
            if k <= have && k <= 5 { match r { Ok(x) => { c.eq(&["C16"], "ring buffer", x.iter().map(|e| e.val()).collect::<Vec<_>>(), items(SEC, k)); c.eq(&["C16"], "items left in the iterator of the ring buffer", it.left, have - k) } Err(m) => c.fail("C16", m) } }
        });
    } }
}
// ------------------------------------------------------------------ transfers between wrapped buffers
fn transfers(c: &mut Ctx) {
    const N: usize = 8;
    for o1 in 0..N { for n1 in 0..=N { for o2 in 0..N { for n2 in [3usize, 5, 7, 8] {
        if n1 + n2 > N + 1 && (o1 + n1) % 3 != 0 { continue }
        for k in 0..=n2.min(N - n1) { if k + 2 < n2.min(N - n1) && (k + o1 + o2) % 3 != 0 { continue }
            for back in [false, true] {
                c.case(format!("ring {}+{} takes {} from {} of {}+{}", o1, n1, k, if back { "back" } else { "front" }, o2, n2), false, false, |c| {
                    let (v, w) = (items(0, n1), items(SEC, n2));
                    let mut x = rot::<N>(o1, &v); let mut y = rot::<N>(o2, &w);
                    let (want, rest) = if back { ([&w[n2 - k..], &v[..]].concat(), w[..n2 - k].to_vec()) } else { ([&v[..], &w[..k]].concat(), w[k..].to_vec()) };
                    let r = quiet(|| if back { x.drain_from_back(&mut y, k) } else { x.drain_from_front(&mut y, k) });
                    if let Err(m) = r { for p in ["C02", "C08", "C16"] { c.fail(p, format!("panicked: {}", m)) } return }
                    c.eq(&["C02", "C16"], "target", x.iter().map(|e| e.val()).collect::<Vec<_>>(), want);
                    c.eq(&["C02", "C16"], "source", y.iter().map(|e| e.val()).collect::<Vec<_>>(), rest);
                });
            } }
    } } } }
    for o in 0..N { for n in 0..=N { for i in 0..=n {
        c.case(format!("ring {}+{} edits at {}", o, n, i), false, false, |c| {
            let v = items(0, n);
            if n < N { let mut x = rot::<N>(o, &v); x.insert(i, E::new(NEW)); let mut w = v.clone(); w.insert(i, NEW); c.eq(&["C02"], "insert", x.iter().map(|e| e.val()).collect::<Vec<_>>(), w) }
            if i < n { let mut x = rot::<N>(o, &v); let e = x.remove(i); let mut w = v.clone(); c.eq(&["C02"], "removed", e.val(), w.remove(i)); c.eq(&["C02"], "remove", x.iter().map(|e| e.val()).collect::<Vec<_>>(), w) }
            let mut x = rot::<N>(o, &v); let y = x.split_off(i); c.eq(&["C02"], "split_off", (x.iter().map(|e| e.val()).collect::<Vec<_>>(), y.iter().map(|e| e.val()).collect::<Vec<_>>()), (v[..i].to_vec(), v[i..].to_vec()));
            for k in 0..=(N - n) { let mut x = rot::<N>(o, &v); x.insert_from(i, It::new(SEC, k)); let w = [&v[..i], &items(SEC, k)[..], &v[i..]].concat(); c.eq(&["C02", "C16"], "insert_from", x.iter().map(|e| e.val()).collect::<Vec<_>>(), w) }
        });
    } } }
}
// ------------------------------------------------------------------ methods of comparison, cloning and byte streams with default bodies
fn provided(c: &mut Ctx) {
    for n in 0..4usize { for k in 0..4usize { for eq in [false, true] {
        c.case(format!("comparing {} with {} elements, equal prefix {}", n, k, eq), false, false, |c| {
            let a: Vec<i64> = items(0, n); let b: Vec<i64> = items(if eq { 0 } else { 4 }, k);
            let (va, vb): (Vec<E>, Vec<E>) = (a.iter().map(|x| E::new(*x)).collect(), b.iter().map(|x| E::new(*x)).collect());
            macro_rules! cmp { ($x:expr, $y:expr) => {{ let (x, y) = ($x, $y);
                c.eq(&["C12"], "comparisons", (x == y, x != y, x < y, x <= y, x > y, x >= y, x.cmp(&y), x.partial_cmp(&y)), (va == vb, va != vb, va < vb, va <= vb, va > vb, va >= vb, va.cmp(&vb), va.partial_cmp(&vb)));
                c.eq(&["C12"], "max and min", (vals((&x).max(&y)), vals((&x).min(&y))), ((&va).max(&vb).iter().map(|e| e.val()).collect(), (&va).min(&vb).iter().map(|e| e.val()).collect())) }} }
            fn vals<'a, C>(x: &'a C) -> Vec<i64> where &'a C: IntoIterator<Item = &'a E> { x.into_iter().map(|e| e.val()).collect() }
            cmp!(at::<5>(1, &a), at::<5>(0, &b)); cmp!(rot::<5>(3, &a), rot::<5>(1, &b));
            cmp!(a.iter().map(|x| E::new(*x)).collect::<InlineArray<E, [u64; 13]>>(), b.iter().map(|x| E::new(*x)).collect::<InlineArray<E, [u64; 13]>>());
            c.eq(&["C12"], "!= vector", (at::<5>(1, &a) != vb, rot::<5>(3, &a) != vb), (va != vb, va != vb));
            for o in 0..5 {
                let mut x = rot::<5>(o, &a); x.clone_from(&rot::<5>(4 - o, &b)); c.eq(&["C14"], "ring clone_from", x.iter().map(|e| e.val()).collect::<Vec<_>>(), b.clone());
                let mut x = at::<5>(o % 2, &a); x.clone_from(&at::<5>(2 - o % 2, &b)); c.eq(&["C14"], "chunk clone_from", x.iter().map(|e| e.val()).collect::<Vec<_>>(), b.clone());
            }
            let mut x: InlineArray<E, [u64; 13]> = a.iter().map(|x| E::new(*x)).collect(); x.clone_from(&b.iter().map(|x| E::new(*x)).collect()); c.eq(&["C14"], "inline clone_from", x.iter().map(|e| e.val()).collect::<Vec<_>>(), b.clone());
            let mut x = rot::<5>(2, &a); c.eq(&["C02"], "first and last", (x.first().map(|e| e.val()), x.last().map(|e| e.val()), x.is_empty()), (a.first().copied(), a.last().copied(), a.is_empty()));
            if n > 1 { x.swap(0, n - 1); let mut w = a.clone(); w.swap(0, n - 1); c.eq(&["C02"], "swap", x.iter().map(|e| e.val()).collect::<Vec<_>>(), w) }
            let x = at::<5>(2, &a); c.eq(&["C01"], "first and last", (x.first().map(|e| e.val()), x.last().map(|e| e.val())), (a.first().copied(), a.last().copied()));
        });
    } } }
    for s in 0..16u32 { for t in 0..16u32 { c.case(format!("sparse clone_from {:b} {:b}", s, t), false, false, |c| {
        let mk = |m: u32| { let mut x: SparseChunk<E, 4> = SparseChunk::new(); for i in 0..4 { if m >> i & 1 == 1 { x.insert(i, E::new(4 * i as i64)); } } x };
        let mut x = mk(s); x.clone_from(&mk(t));
        c.eq(&["C14"], "entries", x.entries().map(|(i, e)| (i, e.val())).collect::<Vec<_>>(), mk(t).entries().map(|(i, e)| (i, e.val())).collect::<Vec<_>>());
        c.eq(&["C12"], "!=", mk(s) != mk(t), s != t);
    }) } }
    for o in 0..6usize { for n in 0..=6usize { for k in 0..9usize {
        c.case(format!("bytes at {}+{}: {} at a time", o, n, k), false, false, |c| {
            let src: Vec<u8> = (1..=n as u8).collect(); let more: Vec<u8> = (100..100 + k as u8).collect();
            let ring = || { let mut r: RingBuffer<u8, 6> = RingBuffer::new(); for _ in 0..o { r.push_back(0); r.pop_front(); } for b in &src { r.push_back(*b) } r };
            let chunk = || { let mut r: Chunk<u8, 6> = Chunk::new(); for _ in 0..o.min(6 - n) { r.push_back(0) } for b in &src { r.push_back(*b) } for _ in 0..o.min(6 - n) { r.pop_front(); } r };
            macro_rules! pipe { ($mk:expr, $what:expr) => {{
                let mut x = $mk; let mut b = vec![0xee; k]; let r = x.read_exact(&mut b).is_ok();
                c.eq(&["C13"], concat!($what, " read_exact succeeds"), r, k <= n); if r { c.eq(&["C13"], concat!($what, " read_exact"), b, src[..k].to_vec()); c.eq(&["C13"], concat!($what, " left"), x.iter().copied().collect::<Vec<u8>>(), src[k..].to_vec()) }
                let mut x = $mk; let mut b = vec![9]; let r = x.read_to_end(&mut b).unwrap(); c.eq(&["C13"], concat!($what, " read_to_end"), (r, b, x.len()), (n, [&[9][..], &src].concat(), 0));
                let mut x = $mk; let r = x.write_all(&more).is_ok(); let m = k.min(6 - n); c.eq(&["C13"], concat!($what, " write_all"), (r, x.iter().copied().collect::<Vec<u8>>()), (k <= 6 - n, [&src[..], &more[..m]].concat()));
                let mut x = $mk; let mut b = [0u8; 12]; let (p, q) = b.split_at_mut(k); let r = x.read_vectored(&mut [std::io::IoSliceMut::new(p), std::io::IoSliceMut::new(q)]).unwrap();
                if r > n || (n > 0 && k > 0 && r == 0) { c.fail("C13", format!("{} read_vectored gives {}", $what, r)) } else { c.eq(&["C13"], concat!($what, " read_vectored"), (b[..r].to_vec(), x.iter().copied().collect::<Vec<u8>>()), (src[..r].to_vec(), src[r..].to_vec())) }
                let mut x = $mk; let r = x.write_vectored(&[std::io::IoSlice::new(&more), std::io::IoSlice::new(&[7, 8])]).unwrap(); let all = [&more[..], &[7, 8]].concat();
                if r > 6 - n { c.fail("C13", format!("{} write_vectored gives {}", $what, r)) } else { c.eq(&["C13"], concat!($what, " write_vectored"), x.iter().copied().collect::<Vec<u8>>(), [&src[..], &all[..r]].concat()) }
                let mut x = $mk; let b: Vec<u8> = Read::by_ref(&mut x).bytes().map(|b| b.unwrap()).collect(); c.eq(&["C13"], concat!($what, " bytes"), b, src.clone());
            }} }
            pipe!(ring(), "ring"); pipe!(chunk(), "chunk");
        });
    } } }
}
fn debug(c: &mut Ctx) {
    use crate::other::listed;
    for n in 0..=5usize { for o in 0..5usize { c.case(format!("debug of {} elements at {}", n, o), false, false, |c| {
        let v = items(0, n); let w = format!("{:?}", v.iter().map(|a| E::new(*a)).collect::<Vec<_>>());
        c.eq(&["C09"], "ring", listed(&rot::<5>(o, &v)), w.clone()); c.eq(&["C09"], "chunk", listed(&at::<5>(o, &v)), w.clone());
        if n <= 4 { c.eq(&["C09"], "inline", listed(&v.iter().map(|a| E::new(*a)).collect::<InlineArray<E, [u64; 13]>>()), w.clone()) }
    }) } }
    for m in 0..32u32 { c.case(format!("debug of sparse {:b}", m), false, false, |c| {
        let mut s: SparseChunk<E, 5> = SparseChunk::new(); let mut b = std::collections::BTreeMap::new();
        for i in 0..5 { if m >> i & 1 == 1 { s.insert(i, E::new(4 * i as i64)); b.insert(i, E::new(4 * i as i64)); } }
        c.eq(&["C09"], "entries", listed(&s), format!("{:?}", b));
    }) }
}
/// zero sized elements: they carry no value, but they are cloned and dropped like any other
fn zero_sized(c: &mut Ctx) {
    use std::cell::Cell;
    thread_local!(static MADE: Cell<i64> = Cell::new(0); static CLONED: Cell<i64> = Cell::new(0));
    struct Z; fn z() -> Z { MADE.with(|m| m.set(m.get() + 1)); Z }
    impl Clone for Z { fn clone(&self) -> Z { CLONED.with(|m| m.set(m.get() + 1)); z() } }
    impl Drop for Z { fn drop(&mut self) { MADE.with(|m| m.set(m.get() - 1)) } }
    for n in 0..=5usize { c.case(format!("{} zero sized elements", n), false, false, |c| {
        macro_rules! go { ($what:expr, $new:expr, $pop:expr) => {{
            MADE.with(|m| m.set(0)); CLONED.with(|m| m.set(0));
            let mut x = $new; c.eq(&["C16"], concat!($what, " length"), x.iter().count(), n);
            let y = x.clone(); c.eq(&["C14"], concat!($what, " length of the clone and clones made"), (y.iter().count(), CLONED.with(|m| m.get())), (n, n as i64));
            c.eq(&["C06"], concat!($what, " live elements"), MADE.with(|m| m.get()), 2 * n as i64);
            drop(y); c.eq(&["C06"], concat!($what, " live elements after a drop"), MADE.with(|m| m.get()), n as i64);
            if n > 0 { let p = $pop; p(&mut x); c.eq(&["C06"], concat!($what, " live elements after a pop"), MADE.with(|m| m.get()), n as i64 - 1) }
            drop(x); c.eq(&["C06"], concat!($what, " live elements at the end"), MADE.with(|m| m.get()), 0);
        }} }
        go!("chunk", (0..n).map(|_| z()).collect::<Chunk<Z, 5>>(), |x: &mut Chunk<Z, 5>| drop(x.pop_front()));
        go!("ring", (0..n).map(|_| z()).collect::<RingBuffer<Z, 5>>(), |x: &mut RingBuffer<Z, 5>| drop(x.pop_front()));
        go!("inline", (0..n).map(|_| z()).collect::<InlineArray<Z, [usize; 2]>>(), |x: &mut InlineArray<Z, [usize; 2]>| drop(x.remove(0)));
        go!("sparse", (0..2 * n).map(|i| if i % 2 == 1 { Some(z()) } else { None }).collect::<SparseChunk<Z, 10>>(), |x: &mut SparseChunk<Z, 10>| drop(x.pop()));
    }) }
}
/// options collected into a sparse chunk: an entry behind the last slot does not fit, gaps do
fn sparse_collect(c: &mut Ctx) {
    for n in 0..=7usize { for m in 0..(1u32 << n) { c.case(format!("collect {} options {:b}", n, m), true, false, |c| {
        let r = crate::quiet(|| (0..n).map(|i| if m >> i & 1 == 1 { Some(4 * i as i64) } else { None }).collect::<SparseChunk<i64, 5>>());
        let fits = m >> 5 == 0;
        c.eq(&["C08", "C16"], "entries collected", r.ok().map(|s| s.entries().map(|(i, v)| (i, *v)).collect::<Vec<_>>()), if fits { Some((0..n).filter(|i| m >> i & 1 == 1).map(|i| (i, 4 * i as i64)).collect()) } else { None });
    }) } }
}
pub fn run(c: &mut Ctx) {
    if c.wants(&["C06", "C14", "C16"]) { zero_sized(c) }
    if c.wants(&["C08", "C16"]) { sparse_collect(c) }
    if c.wants(&["C05", "C06", "C09"]) { debug(c) }
    if c.wants(&["C05", "C06", "C08", "C09"]) { iterators(c) }
    if c.wants(&["C08", "C16"]) { consumption(c) }
    if c.wants(&["C02", "C05", "C06", "C08", "C16"]) { transfers(c) }
    if c.wants(&["C01", "C02", "C05", "C06", "C08", "C12", "C13", "C14"]) { provided(c) }
}
