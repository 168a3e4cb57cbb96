//! Sparse chunks, ring slices, byte input and output, layouts, comparisons across types, generators.
use crate::elem::*;
use crate::seq::{chunk, inline, items, ring, steps, walk, Fault, NEW, SEC};
use crate::{quiet, Ctx};
use array_ops::{Array, ArrayMut, HasLength};
use sized_chunks::ring_buffer::{Slice, SliceMut};
use bitmaps::{Bits, BitsImpl};
use sized_chunks::{Chunk, InlineArray, RingBuffer, SparseChunk};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{Read, Write};
use std::mem::{forget, replace};
use std::ops::Bound;

macro_rules! hash_of { ($e:expr) => {{ let mut h = Rec::default(); std::hash::Hash::hash($e, &mut h); h }} }
type M = BTreeMap<usize, i64>;
fn sread<const N: usize>(s: &SparseChunk<E, N>) -> M where BitsImpl<N>: Bits { s.entries().map(|(i, e)| (i, e.val())).collect() }
fn smake<const N: usize>(m: &M) -> SparseChunk<E, N> where BitsImpl<N>: Bits {
    let mut s = SparseChunk::new();
    for (i, v) in m { s.insert(*i, E::new(*v)); }
    s
}
#[derive(Clone, Debug, PartialEq)]
enum SOp { New, Unit(usize), Pair(usize, usize), Insert(usize), Remove(usize), Pop, Get(usize), GetMut(usize), Index(usize), IndexMut(usize), Queries, Iter(u32), IterMut(u32), Drain(u32, bool), IntoIter(u32, bool), Opt(u32), OptMut(u32), OptDrain(u32, bool), Clone, Eq(u64), From(usize), Pool, Shrink }
fn sparse<const N: usize>(c: &mut Ctx, full: bool) where BitsImpl<N>: Bits {
    use SOp::*;
    let sets: Vec<u64> = if full { (0..1u64 << N).collect() } else { (0..24).map(|i| { let mut m = 0u64; for b in 0..N { if c.rnd(3 + i % 3) == 0 { m |= 1 << b } } m }).chain([0, (((1u128 << N) - 1) & u64::MAX as u128) as u64, 1 << (N - 1), 1]).collect() };
    for &set in &sets {
        let idx: Vec<usize> = (0..N).filter(|i| set >> i & 1 == 1).collect();
        let m0: M = idx.iter().map(|i| (*i, 16 * *i as i64)).collect();
        let n = m0.len();
        let mut ops = vec![New, Pop, Queries, Clone, Pool, Shrink];
        let inds: Vec<usize> = (0..=N + 1).chain([usize::MAX, 1 << 32, N + 64, N + 128]).collect();
        for &i in &inds { if N > 8 && i < N && i % 7 != 3 && i != N - 1 && i != 0 { continue } ops.extend([Insert(i), Remove(i), Get(i), GetMut(i), Index(i), IndexMut(i), Unit(i), Pair(i, 0), Pair(0, i), Pair(i, i), From(i.min(N + 2))]) }
        for k in [0, 1, n as u32 / 2, n as u32, n as u32 + 2] { ops.extend([Iter(k), IterMut(k), Drain(k, false), Drain(k, true), IntoIter(k, false), IntoIter(k, true)]) }
        for k in [0, 1, N as u32 / 2, N as u32 - 1, N as u32, N as u32 + 2] { ops.extend([Opt(k), OptMut(k), OptDrain(k, false), OptDrain(k, true)]) }
        if full { for s in 0..1u64 << N { ops.push(Eq(s)) } } else { for &s in sets.iter().take(6) { ops.push(Eq(s)) } ops.push(Eq(set)) }
        for op in ops {
            let t: &[&str] = match op { New | Unit(_) | Pair(..) | From(_) => &["C16", "C03"], Insert(_) | Remove(_) | Pop | Get(_) | GetMut(_) | Index(_) | IndexMut(_) | Queries | Shrink => &["C03"], Iter(_) | IterMut(_) | Drain(..) | IntoIter(..) | Opt(_) | OptMut(_) | OptDrain(..) => &["C09"], Clone | Pool => &["C14"], Eq(_) => &["C12"] };
            let mut fs = vec![Fault::No];
            if full && c.wants(&["C05", "C07"]) { match op {
                Clone | Pool => for k in 0..n + 1 { fs.push(Fault::Clone(k)) }
                Insert(_) | Remove(_) | Pop | IndexMut(_) | Drain(..) | OptDrain(..) | Shrink | From(_) => for k in 0..n + 1 { fs.push(Fault::Drop(k)) }
                _ => {} } }
            if !c.wants(t) && !c.wants(&["C05", "C06", "C08"]) { fs.remove(0); }
            for f in fs {
                let leaky = f != Fault::No || matches!(op, Drain(_, true) | IntoIter(_, true) | OptDrain(_, true));
                c.case(format!("sparse cap={} set={:b} {:?} fault={:?}", N, set, op, f), leaky, f != Fault::No, |c| {
                    let mut s: SparseChunk<E, N> = smake(&m0);
                    c.eq(&["C03"], "setup by inserting", sread(&s), m0.clone());
                    let ids: Vec<u64> = s.iter().map(|e| e.id()).collect();
                    reg(|r| r.clones.clear());
                    crate::seq::bomb(f);
                    let mut m = m0.clone();
                    let mut panics = false; let mut changed = None;
                    let v = E::new(NEW);
                    let o = |x: Option<i64>| x.unwrap_or(-1);
                    let mut want = vec![];
                    // the model
                    match &op {
                        Insert(i) => if *i < N { want.push(o(m.insert(*i, NEW))) } else { panics = true },
                        Remove(i) => if *i < N { want.push(o(m.remove(i))) } else { panics = true },
                        Pop => want.push(o(m.iter().next().map(|(i, _)| *i).and_then(|i| m.remove(&i)))),
                        Get(i) => want.push(o(m.get(i).copied())),
                        GetMut(i) => { want.push(o(m.get(i).copied())); m.get_mut(i).map(|x| *x = NEW); }
                        Index(i) => if let Some(x) = m.get(i) { want.push(*x) } else { panics = true },
                        IndexMut(i) => if let Some(x) = m.get_mut(i) { *x = NEW } else { panics = true },
                        Unit(i) => if *i < N { changed = Some([(*i, NEW)].into_iter().collect::<M>()) } else { panics = true },
                        Pair(i, j) => if *i < N && *j < N { changed = Some([(*i, NEW), (*j, NEW + 4)].into_iter().collect::<M>()) } else { panics = true },
                        New => changed = Some(M::new()),
                        From(k) => if *k <= N { changed = Some((0..*k).filter(|i| set >> i & 1 == 1).map(|i| (i, SEC + 4 * i as i64)).collect()) } else { panics = (N..*k).any(|_| true) && false; if !panics { changed = Some((0..N).filter(|i| set >> i & 1 == 1).map(|i| (i, SEC + 4 * i as i64)).collect()) } },
                        Clone | Pool => changed = Some(m.clone()),
                        Iter(k) | IterMut(k) | Drain(k, _) | IntoIter(k, _) => {
                            let mut it = m0.iter(); for _ in 0..*k { want.push(o(it.next().map(|(i, x)| { if let IterMut(_) = op { m.insert(*i, NEW); } *x }))) }
                            if !matches!(op, Iter(_) | IterMut(_)) { m.clear() } }
                        Opt(k) | OptMut(k) | OptDrain(k, _) => {
                            for i in 0..*k as usize { want.push(if i >= N { -3 } else { match m0.get(&i) { Some(x) => { if let OptMut(_) = op { m.insert(i, NEW); } *x } None => -2 } }) }
                            if let OptDrain(..) = op { m.clear() } }
                        Shrink => { while m.len() > n / 2 { let i = *m.iter().next_back().unwrap().0; m.remove(&i); } }
                        Queries | Eq(_) => {}
                    }
                    let mut got = vec![];
                    let r = quiet(|| {
                        let mut out: Option<SparseChunk<E, N>> = None;
                        match &op {
                            Insert(i) => got.push(o(s.insert(*i, v).map(|e| e.val()))),
                            Remove(i) => got.push(o(s.remove(*i).map(|e| e.val()))),
                            Pop => got.push(o(s.pop().map(|e| e.val()))),
                            Get(i) => got.push(o(s.get(*i).map(|e| e.val()))),
                            GetMut(i) => { let e = s.get_mut(*i); got.push(o(e.map(|e| { let q = e.val(); *e = v; q }))) }
                            Index(i) => got.push(s[*i].val()),
                            IndexMut(i) => s[*i] = v,
                            Unit(i) => out = Some(SparseChunk::unit(*i, v)),
                            Pair(i, j) => out = Some(SparseChunk::pair(*i, v, *j, E::new(NEW + 4))),
                            New => { out = Some(SparseChunk::new()); let d: SparseChunk<E, N> = Default::default(); c.eq(&["C16"], "default", sread(&d), M::new()) }
                            From(k) => { let v: Vec<Option<E>> = (0..*k).map(|i| if set >> i.min(63) & 1 == 1 { Some(E::new(SEC + 4 * i as i64)) } else { None }).collect(); out = Some(v.into_iter().take(N).collect()) }
                            Clone => { drop(v); out = Some(s.clone()) }
                            Pool => { drop(v);
                                let pool: refpool::Pool<SparseChunk<E, N>> = refpool::Pool::new(4);
                                let mut p = refpool::PoolRef::<SparseChunk<E, N>>::default(&pool);
                                c.eq(&["C14"], "pooled default", sread(&*p), M::new());
                                *refpool::PoolRef::make_mut(&pool, &mut p) = replace(&mut s, SparseChunk::new());
                                let mut q = p.clone();
                                let k = refpool::PoolRef::make_mut(&pool, &mut q);
                                out = Some(replace(k, SparseChunk::new()));
                                s = replace(refpool::PoolRef::make_mut(&pool, &mut p), SparseChunk::new()); }
                            Iter(k) => { let mut it = s.iter(); let mut left = n; for _ in 0..*k { hint(c, it.size_hint(), left); left = left.saturating_sub(1); got.push(o(it.next().map(|e| e.val()))) } }
                            IterMut(k) => { let mut it = s.iter_mut(); let mut left = n; for _ in 0..*k { hint(c, it.size_hint(), left); left = left.saturating_sub(1); got.push(o(it.next().map(|e| { let q = e.val(); e.set(NEW); q }))) } }
                            Drain(k, fg) => { let mut it = replace(&mut s, SparseChunk::new()).drain(); let mut left = n; for _ in 0..*k { hint(c, it.size_hint(), left); left = left.saturating_sub(1); got.push(o(it.next().map(|e| e.val()))) } if *fg { forget(it) } }
                            IntoIter(k, fg) => { let mut it = replace(&mut s, SparseChunk::new()).into_iter(); let mut left = n; for _ in 0..*k { hint(c, it.size_hint(), left); left = left.saturating_sub(1); got.push(o(it.next().map(|e| e.val()))) } if *fg { forget(it) } }
                            Opt(k) => { let mut it = s.option_iter(); let mut left = N; for _ in 0..*k { hint(c, it.size_hint(), left); left = left.saturating_sub(1); got.push(match it.next() { None => -3, Some(None) => -2, Some(Some(e)) => e.val() }) } }
                            OptMut(k) => { let mut it = s.option_iter_mut(); let mut left = N; for _ in 0..*k { hint(c, it.size_hint(), left); left = left.saturating_sub(1); got.push(match it.next() { None => -3, Some(None) => -2, Some(Some(e)) => { let q = e.val(); e.set(NEW); q } }) } }
                            OptDrain(k, fg) => { let mut it = replace(&mut s, SparseChunk::new()).option_drain(); let mut left = N; for _ in 0..*k { hint(c, it.size_hint(), left); left = left.saturating_sub(1); got.push(match it.next() { None => -3, Some(None) => -2, Some(Some(e)) => e.val() }) } if *fg { forget(it) } }
                            Shrink => while s.len() > n / 2 { let i = s.indices().last().unwrap(); s.remove(i); },
                            Queries => {
                                c.eq(&["C03"], "CAPACITY", SparseChunk::<E, N>::CAPACITY, N); c.eq(&["C03"], "len/is_empty/is_full", (s.len(), s.is_empty(), s.is_full()), (n, n == 0, n == N));
                                c.eq(&["C03"], "first_index", s.first_index(), idx.first().copied());
                                c.eq(&["C03"], "indices", s.indices().collect::<Vec<_>>(), idx.clone()); }
                            Eq(b) => {
                                for k in 0..2 {
                                    let mut m2: M = (0..N).filter(|i| b >> i & 1 == 1).map(|i| (i, 16 * i as i64 + 1)).collect();
                                    if k == 1 { if let Some(x) = m2.values_mut().last() { *x += 4 } }
                                    let s2: SparseChunk<E, N> = smake(&m2);
                                    let div = |m: &M| m.iter().map(|(i, v)| (*i, v / 4)).collect::<M>();
                                    let eq = div(&m0) == div(&m2);
                                    c.eq(&["C12"], "== sparse", s == s2, eq);
                                    let h: HashMap<usize, E> = m2.iter().map(|(i, v)| (*i, E::new(*v))).collect();
                                    let t: BTreeMap<usize, E> = m2.iter().map(|(i, v)| (*i, E::new(*v))).collect();
                                    c.eq(&["C12"], "== HashMap", s == h, eq); c.eq(&["C12"], "== BTreeMap", s == t, eq);
                                    let mut t: BTreeMap<usize, E> = t; t.insert(N + 3, E::new(1));
                                    c.eq(&["C12"], "== BTreeMap with an extra key", s == t, false);
                                    let h: HashMap<usize, E> = m2.iter().map(|(i, v)| (*i + 1, E::new(*v))).collect();
                                    c.eq(&["C12"], "== shifted HashMap", s == h, div(&m0) == m2.iter().map(|(i, v)| (*i + 1, v / 4)).collect::<M>());
                                } }
                        }
                        out
                    });
                    let fired = reg(|r| { let f = r.drop_bomb.is_none() && r.clone_bomb.is_none(); r.drop_bomb = None; r.clone_bomb = None; f });
                    if sread(&s).len() > N { c.fail("C05", "too many entries".into()) }
                    if f != Fault::No && fired { return }
                    match r {
                        Err(msg) => { if !panics { c.fail("C08", format!("panicked: {}", msg)); for p in t { c.fail(p, format!("panicked: {}", msg)) } } c.eq(&["C08"], "contents after rejected call", sread(&s), m0.clone()) }
                        Ok(out) => {
                            if panics { c.fail("C08", "did not panic".into()); for p in t { c.fail(p, "did not panic".into()) } return }
                            c.eq(t, "result", got, want); c.eq(t, "contents", sread(&s), m);
                            if let Some(x) = out { c.eq(t, "returned container", sread(&x), changed.unwrap());
                                if matches!(op, Clone | Pool) { let cl = reg(|r| r.clones.clone()); let n: Vec<u64> = x.iter().map(|e| e.id()).collect();
                                    if cl != ids.iter().copied().zip(n).collect::<Vec<_>>() { c.fail("C14", "elements are not cloned exactly once each".into()) } } }
                        }
                    }
                });
            }
        }
    }
}
fn hint(c: &mut Ctx, h: (usize, Option<usize>), left: usize) { if h.0 > left || h.1.map_or(false, |x| x < left) { c.fail("C09", format!("size hint {:?} with {} elements to come", h, left)) } }

// ------------------------------------------------------------------ slices of ring buffers
fn bounds(n: usize) -> Vec<(Bound<usize>, Bound<usize>)> {
    let mut r = vec![];
    let big = [usize::MAX, usize::MAX - 1, 1 << 63];
    let lo: Vec<_> = (0..=n + 1).chain(big).map(Bound::Included).chain([Bound::Unbounded]).collect();
    let hi: Vec<_> = (0..=n + 1).chain(big).flat_map(|i| [Bound::Included(i), Bound::Excluded(i)]).chain([Bound::Unbounded]).collect();
    for a in &lo { for b in &hi { r.push((*a, *b)) } }
    r
}
fn resolve(n: usize, r: (Bound<usize>, Bound<usize>)) -> Option<(usize, usize)> {
    let a = match r.0 { Bound::Included(a) => a, _ => 0 };
    let b = match r.1 { Bound::Included(b) => b.checked_add(1)?, Bound::Excluded(b) => b, _ => n };
    if a <= b && b <= n { Some((a, b)) } else { None }
}
fn slices<const N: usize>(c: &mut Ctx) {
    for o in 0..N { for n in 0..=N { for r in bounds(n) { for mutable in [false, true] {
        c.case(format!("ring slices cap={} origin={} len={} range={:?} mutable={}", N, o, n, r, mutable), false, false, |c| {
            let v = items(0, n);
            let mut b: RingBuffer<E, N> = RingBuffer::new();
            for _ in 0..o { b.push_back(E::new(1)); b.pop_front(); }
            for q in &v { b.push_back(E::new(*q)) }
            let want = resolve(n, r);
            let got = quiet(|| { if mutable { let mut s = b.slice_mut(r); check_mut::<N>(c, &mut s, &v, want) } else { let s = b.slice(r); check::<N>(c, s, &v, want) } });
            match (got, want) {
                (Err(m), Some(_)) => for p in ["C08", "C10"] { c.fail(p, format!("panicked: {}", m)) },
                (Ok(_), None) => for p in ["C08", "C10", "C05"] { c.fail(p, "did not panic".into()) },
                _ => {}
            }
            if !mutable || want.is_none() { c.eq(&["C10", "C08"], "buffer afterwards", ring::read(&b), v.clone()) }
            if let (true, Some((p, q))) = (mutable, want) {
                for r2 in bounds(q - p) {
                    let w2 = resolve(q - p, r2).map(|(i, j)| v[p + i..p + j].to_vec());
                    let got = quiet(|| vals(b.slice_mut(r).slice(r2).iter())).ok();
                    c.eq(&["C10", "C08"], "subslice of a mutable slice", got, w2);
                }
            }
        }) } } } }
}
/// the list part of a Debug rendering
pub fn listed<T: std::fmt::Debug>(x: &T) -> String { let s = format!("{:?}", x); let i = s.find(|c| c == '[' || c == '{').unwrap_or(0); s[i..].to_string() }
fn vals<'a>(i: impl Iterator<Item = &'a E>) -> Vec<i64> { i.map(|e| e.val()).collect() }
fn check<const N: usize>(c: &mut Ctx, s: Slice<'_, E, N>, v: &[i64], w: Option<(usize, usize)>) {
    let w = match w { Some((a, b)) => &v[a..b], None => return };
    let k = w.len(); const P: &[&str] = &["C10"]; const Q: &[&str] = &["C10", "C08"];
    c.eq(P, "len", (s.len(), s.is_empty()), (k, k == 0));
    c.eq(&["C10", "C09"], "iter", vals(s.iter()), w.to_vec());
    c.eq(&["C10", "C09"], "debug", listed(&s), format!("{:?}", w.iter().map(|a| E::new(*a)).collect::<Vec<_>>()));
    c.eq(&["C10", "C09"], "into_iter reversed", vals((&s).into_iter().rev()), w.iter().rev().copied().collect());
    for p in 0..1u32 << (k as u32 + 1).min(5) { let mut d: VecDeque<i64> = w.iter().copied().collect(); let mut it = s.iter(); let g = walk(c, &mut it, k as u32 + 1, p, k, true, |e| e.val()); c.eq(&["C10", "C09"], "iter both ends", g, steps(&mut d, k as u32 + 1, p).into_iter().map(|x| x.unwrap_or(-1)).collect()) }
    for i in (0..v.len() + 2).chain([usize::MAX]) {
        c.eq(P, "get", s.get(i).map(|e| e.val()), w.get(i).copied());
        c.eq(Q, "index", quiet(|| s[i].val()).ok(), w.get(i).copied());
    }
    c.eq(P, "to_owned", ring::read(&s.to_owned()), w.to_vec());
    for r in bounds(k) {
        let want = resolve(k, r);
        c.eq(Q, "subslice", quiet(|| vals(s.clone().slice(r).iter())).ok(), want.map(|(a, b)| w[a..b].to_vec()));
        if let Some((a, b)) = want { let t = s.clone().slice(r);
            c.eq(P, "index of a subslice", quiet(|| t[b - a].val()).is_ok(), false); c.eq(P, "get on a subslice", t.get(b - a).is_some(), false);
            let o = &w[a..b];
            c.eq(&["C12"], "slice == slice", s == t, w == o);
            c.eq(&["C12"], "slice cmp", (s.cmp(&t), s.partial_cmp(&t)), (w.cmp(o), w.partial_cmp(o)));
            c.eq(&["C12"], "slice hash", hash_of!(&s) == hash_of!(&t), w == o);
            let own = t.to_owned();
            c.eq(&["C12"], "slice == buffer", s == own, w == o); c.eq(&["C12"], "buffer == slice", own == s, w == o);
            let ve: Vec<E> = o.iter().map(|a| E::new(*a)).collect();
            c.eq(&["C12"], "slice == vector", s == ve, w == o); c.eq(&["C12"], "buffer == vector", own == ve, true);
            c.eq(&["C12"], "hash of equal values", hash_of!(&own), hash_of!(&t));
        }
    }
    for i in (0..=k + 2).chain([usize::MAX]) {
        let got = quiet(|| { let (a, b) = s.clone().split_at(i); (vals(a.iter()), vals(b.iter())) }).ok();
        c.eq(Q, "split_at", got, if i <= k { Some((w[..i].to_vec(), w[i..].to_vec())) } else { None });
    }
}
fn check_mut<const N: usize>(c: &mut Ctx, s: &mut SliceMut<'_, E, N>, v: &[i64], w: Option<(usize, usize)>) {
    let w = match w { Some((a, b)) => v[a..b].to_vec(), None => return };
    let k = w.len(); const P: &[&str] = &["C10"]; const Q: &[&str] = &["C10", "C08"];
    c.eq(P, "len", (s.len(), s.is_empty()), (k, k == 0));
    c.eq(&["C10", "C09"], "iter", vals(s.iter()), w.clone());
    c.eq(&["C10", "C09"], "iter_mut reversed", s.iter_mut().rev().map(|e| e.val()).collect::<Vec<_>>(), w.iter().rev().copied().collect::<Vec<_>>());
    c.eq(P, "into_iter", vals((&*s).into_iter()), w.clone());
    c.eq(P, "iter reversed", (vals(s.iter().rev()), vals((&*s).into_iter().rev())), (w.iter().rev().copied().collect(), w.iter().rev().copied().collect()));
    c.eq(&["C10", "C09"], "debug", listed(&*s), format!("{:?}", w.iter().map(|a| E::new(*a)).collect::<Vec<_>>()));
    for p in 0..1u32 << (k as u32 + 1).min(5) { let mut d: VecDeque<i64> = w.iter().copied().collect(); let mut it = s.iter(); let g = walk(c, &mut it, k as u32 + 1, p, k, true, |e| e.val()); c.eq(&["C10", "C09"], "iter both ends", g, steps(&mut d, k as u32 + 1, p).into_iter().map(|x| x.unwrap_or(-1)).collect()) }
    for p in 0..1u32 << (k as u32 + 1).min(5) { let mut d: VecDeque<i64> = w.iter().copied().collect(); let mut it = s.iter_mut(); let g = walk(c, &mut it, k as u32 + 1, p, k, true, |e| e.val()); c.eq(&["C10", "C09"], "iter_mut both ends", g, steps(&mut d, k as u32 + 1, p).into_iter().map(|x| x.unwrap_or(-1)).collect()) }
    for i in (0..v.len() + 2).chain([usize::MAX]) {
        c.eq(P, "get", s.get(i).map(|e| e.val()), w.get(i).copied());
        c.eq(P, "get_mut", s.get_mut(i).map(|e| e.val()), w.get(i).copied());
        c.eq(Q, "index", quiet(|| s[i].val()).ok(), w.get(i).copied());
        let got = quiet(|| { s[i] = E::new(w.get(i).copied().unwrap_or(77)) }).is_ok();
        c.eq(Q, "index_mut", got, i < k);
        let got = s.set(i, E::new(w.get(i).copied().unwrap_or(78))).map(|e| e.val());
        c.eq(P, "set", got, w.get(i).copied());
    }
    c.eq(P, "to_owned", ring::read(&s.to_owned()), w.clone());
    let own = s.to_owned(); let ve: Vec<E> = w.iter().map(|a| E::new(*a)).collect(); let sl: Slice<E, N> = (&own).into();
    c.eq(&["C12"], "mutable slice == others", (*s == own, *s == ve, *s == sl, own == *s, sl == *s), (true, true, true, true, true));
    c.eq(&["C12"], "mutable slice hash", hash_of!(&*s), hash_of!(&own));
    if k > 0 { let mut o2 = s.to_owned(); o2[k - 1].set(w[k - 1] + 4); let sl: Slice<E, N> = (&o2).into(); c.eq(&["C12"], "mutable slice != others", (*s == o2, *s == sl, o2 == *s), (false, false, false)); }
    let mut own = s.to_owned();
    for r in bounds(k) {
        let want = resolve(k, r);
        let got = quiet(|| { let t: SliceMut<E, N> = (&mut own).into(); let mut t = t.slice(r); let g = vals(t.iter()); for e in t.iter_mut() { let q = e.val(); *e = E::new(q) } if let Some((a, b)) = want { c.eq(P, "index_mut of a subslice", quiet(|| { t[b - a] = E::new(-5) }).is_ok(), false) } c.eq(P, "unmut", vals(t.unmut().iter()), g.clone()); g }).ok();
        c.eq(Q, "mutable subslice", got, want.map(|(a, b)| w[a..b].to_vec()));
        c.eq(P, "elements outside are untouched", ring::read(&own), w.clone());
    }
    for i in (0..=k + 2).chain([usize::MAX]) {
        let got = quiet(|| { let t: SliceMut<E, N> = (&mut own).into(); let (mut a, mut b) = t.split_at(i); let r = (vals(a.iter()), vals(b.iter())); for e in a.iter_mut().chain(b.iter_mut()) { let q = e.val(); *e = E::new(q) } r }).ok();
        c.eq(Q, "split_at", got, if i <= k { Some((w[..i].to_vec(), w[i..].to_vec())) } else { None });
    }
}
// ------------------------------------------------------------------ bytes
fn pipes<const N: usize>(c: &mut Ctx) {
    for o in 0..=N { for n in 0..=N { for k in 0..=N + 2 {
        for ring in [false, true] {
            if ring && o >= N || !ring && o + n > N { continue }
            c.case(format!("bytes cap={} origin={} len={} write/read {} ring={}", N, o, n, k, ring), false, false, |c| {
                let start: Vec<u8> = (0..n as u8).map(|i| 10 + i).collect(); let w: Vec<u8> = (0..k as u8).map(|i| 100 + i).collect();
                macro_rules! go { ($new:expr) => {{
                    let mut x = $new; for _ in 0..o { x.push_back(0u8) } for _ in 0..o.min(N) { x.pop_front(); }
                    for q in &start { x.push_back(*q) }
                    let before = x.clone();
                    let g = quiet(|| x.write(&w).ok()); let m = k.min(N - n);
                    c.eq(&["C13", "C08"], "write", g, Ok(Some(m)));
                    let mut all = start.clone(); all.extend(&w[..m]);
                    c.eq(&["C13"], "contents after write", (&x).into_iter().copied().collect(), all);
                    c.eq(&["C13"], "flush", x.flush().is_ok(), true);
                    let mut x = before; let mut buf = vec![255u8; k];
                    let g = quiet(|| x.read(&mut buf).ok()); let m = k.min(n);
                    c.eq(&["C13", "C08"], "read", g, Ok(Some(m)));
                    let mut want = start[..m].to_vec(); want.resize(k, 255);
                    c.eq(&["C13"], "bytes read", buf, want);
                    c.eq(&["C13"], "contents after read", (&x).into_iter().copied().collect(), start[m..].to_vec());
                }} }
                if ring { go!(RingBuffer::<u8, N>::new()) } else { go!(Chunk::<u8, N>::new()) }
            })
        }
    } } }
}
// ------------------------------------------------------------------ inline layouts
fn lay<A: Clone + PartialEq + std::fmt::Debug, T: 'static>(c: &mut Ctx, f: impl Fn(usize) -> A) {
    use std::mem::{align_of, size_of};
    c.case(format!("inline layout of {} in {}", std::any::type_name::<A>(), std::any::type_name::<T>()), false, false, |c| {
        let cap = InlineArray::<A, T>::CAPACITY;
        let (host, hdr) = (size_of::<T>(), size_of::<usize>());
        let want = if size_of::<A>() == 0 { usize::MAX } else if align_of::<A>() > align_of::<T>().max(8) || host < hdr { 0 } else { (host - hdr) / size_of::<A>() };
        c.eq(&["C11"], "capacity", cap, want);
        let r = quiet(|| InlineArray::<A, T>::new());
        match r {
            Err(_) if host <= hdr => return,
            Err(m) => { for p in ["C11", "C08"] { c.fail(p, format!("construction panicked: {}", m)) } return }
            Ok(_) if host < hdr => { for p in ["C11", "C05"] { c.fail(p, "constructed in a host smaller than its counter".into()) } return }
            Ok(mut x) => {
                let n = if cap > 300 { 20 } else { cap };
                for i in 0..n { if quiet(|| x.push(f(i))).is_err() { for p in ["C11", "C08"] { c.fail(p, format!("push {} of {} panicked", i, cap)) } return } }
                c.eq(&["C11"], "stored elements", (x.len(), x.to_vec()), (n, (0..n).map(|i| f(i)).collect()));
                let (a, b) = (x.as_ptr() as usize, &x as *const _ as usize);
                if n > 0 && size_of::<A>() > 0 && (a % align_of::<A>() != 0 || a < b || a + n * size_of::<A>() > b + size_of::<InlineArray<A, T>>()) { for p in ["C11", "C05"] { c.fail(p, "elements are misplaced".into()) } }
                c.eq(&["C11"], "full", x.is_full(), n == cap);
                if n == cap { let g = quiet(|| x.push(f(0))).is_err(); c.eq(&["C11", "C08"], "push beyond the capacity panics", g, true) }
                c.eq(&["C11"], "clone", x.clone().to_vec(), x.to_vec());
                for i in (0..n).rev() { c.eq(&["C11"], "pop", x.pop(), Some(f(i))) }
                c.eq(&["C11"], "empty", x.len(), 0);
            }
        }
    });
}
#[derive(Clone, PartialEq, Debug)] #[repr(align(16))] struct A16(u8);
#[derive(Clone, PartialEq, Debug)] #[repr(align(32))] struct A32(u64, u64);
#[derive(Clone, PartialEq, Debug)] #[repr(align(16))] struct B32(u64, [u64; 3]);
#[derive(Clone, PartialEq, Debug)] #[repr(align(16))] struct B48(u64, [u8; 33]);
#[repr(align(32))] #[allow(dead_code)] struct H32([u8; 96]);
#[repr(align(16))] #[allow(dead_code)] struct H16([u8; 80]);
#[repr(align(1))] #[allow(dead_code)] struct H0;
macro_rules! lays { ($c:ident, $($t:ty),*) => { $(
    lay::<u8, $t>($c, |i| i as u8); lay::<u16, $t>($c, |i| i as u16); lay::<u32, $t>($c, |i| i as u32); lay::<u64, $t>($c, |i| i as u64); lay::<u128, $t>($c, |i| i as u128);
    lay::<[u8; 3], $t>($c, |i| [i as u8; 3]); lay::<[u8; 7], $t>($c, |i| [i as u8; 7]); lay::<(u64, u8), $t>($c, |i| (i as u64, 1)); lay::<[u64; 3], $t>($c, |i| [i as u64; 3]); lay::<[u8; 9], $t>($c, |i| [i as u8; 9]); lay::<[u16; 5], $t>($c, |i| [i as u16; 5]); lay::<[u32; 3], $t>($c, |i| [i as u32; 3]); lay::<A16, $t>($c, |i| A16(i as u8)); lay::<A32, $t>($c, |i| A32(i as u64, 5)); lay::<B32, $t>($c, |i| B32(i as u64, [5; 3])); lay::<B48, $t>($c, |i| B48(i as u64, [7; 33])); lay::<(), $t>($c, |_| ());
    lay::<[u64; 0], $t>($c, |_| []);
)* } }
// ------------------------------------------------------------------ generators
fn gen<'a, T: arbitrary::Arbitrary<'a>>(c: &mut Ctx, name: &str, data: &'a [u8], n: impl Fn(&T) -> (usize, usize)) {
    c.case(format!("arbitrary {} from {:?}", name, data), true, false, |c| {
        for rest in [false, true] {
            match quiet(|| { let mut u = arbitrary::Unstructured::new(data); if rest { T::arbitrary_take_rest(u) } else { T::arbitrary(&mut u) } }) {
                Err(m) => for p in ["C17", "C08"] { c.fail(p, format!("panicked: {}", m)) },
                Ok(Ok(x)) => { let (k, cap) = n(&x); if k > cap { for p in ["C17", "C05"] { c.fail(p, format!("{} elements, capacity {}", k, cap)) } } }
                Ok(Err(_)) => {}
            }
        }
        if let (Ok(Some(h)), Ok(used)) = (quiet(|| T::size_hint(0).1), quiet(|| { let mut u = arbitrary::Unstructured::new(data); let _ = T::arbitrary(&mut u); data.len() - u.len() })) {
            if used > h { c.fail("C17", format!("{} bytes consumed, size hint at most {}", used, h)) }
        }
        for d in [0, 1, 19, 20, 21] { match quiet(|| T::size_hint(d)) { Err(m) => c.fail("C17", format!("size_hint panicked: {}", m)), Ok((lo, hi)) => if lo > 0 && hi.map_or(false, |h| h < lo) { c.fail("C17", format!("size hint {:?}", (lo, hi))) } } }
        c.eq(&["C17"], "size hint lower bound", T::size_hint(0).0, 0);
    });
}
struct Huge; impl<'a> arbitrary::Arbitrary<'a> for Huge { fn arbitrary(_: &mut arbitrary::Unstructured<'a>) -> arbitrary::Result<Self> { Ok(Huge) } fn size_hint(_: usize) -> (usize, Option<usize>) { (0, Some(usize::MAX / 2)) } }
#[derive(Clone)] struct Never; impl<'a> arbitrary::Arbitrary<'a> for Never { fn arbitrary(u: &mut arbitrary::Unstructured<'a>) -> arbitrary::Result<Self> { u8::arbitrary(u)?; Err(arbitrary::Error::IncorrectFormat) } }
fn hint_fits<'a, T: arbitrary::Arbitrary<'a>>(c: &mut Ctx, name: &str, each: Option<usize>, cap: usize) {
    c.case(format!("arbitrary size hint of {}", name), true, false, |c| { 
        match quiet(|| T::size_hint(0).1) {
            Err(m) => c.fail("C17", format!("size_hint panicked: {}", m)),
            Ok(None) | Ok(Some(usize::MAX)) => {}
            Ok(Some(h)) => if each.map_or(true, |e| (h as u128) < (e as u128 + 1) * cap as u128) { c.fail("C17", format!("upper size bound {} for {} elements of at most {:?} bytes and one byte each to go on", h, cap, each)) }
        }
    })
}
pub fn run(c: &mut Ctx) {
    if c.wants(&["C03", "C05", "C06", "C07", "C08", "C09", "C12", "C14", "C16"]) {
        sparse::<1>(c, true); sparse::<2>(c, true); sparse::<3>(c, true); sparse::<4>(c, true); sparse::<5>(c, true);
        sparse::<8>(c, false); sparse::<33>(c, false); sparse::<64>(c, false);
    }
    if c.wants(&["C05", "C06", "C08", "C09", "C10", "C12"]) { slices::<1>(c); slices::<2>(c); slices::<3>(c); slices::<4>(c); }
    if c.wants(&["C05", "C08", "C13"]) { pipes::<1>(c); pipes::<2>(c); pipes::<3>(c); pipes::<5>(c); pipes::<7>(c); }
    if c.wants(&["C05", "C08", "C11"]) { lays!(c, u8, usize, [u8; 8], [u8; 9], [u16; 7], [u8; 15], [u64; 2], [u64; 3], [u32; 7], [u8; 64], [u64; 9], H32, H16, H0, (), [u128; 3], [u128; 7]); }
    if c.wants(&["C05", "C08", "C17"]) {
        let mut datas: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![255; 3], vec![1; 7], vec![255; 100], vec![3; 64], vec![0; 200]];
        for k in 0..40 { let mut d = vec![]; for _ in 0..k * 3 { let b = c.rnd(256); d.push(b as u8) } datas.push(d) }
        for d in &datas {
            gen::<Chunk<u8, 4>>(c, "Chunk<u8, 4>", d, |x| (x.len(), 4)); gen::<Chunk<u16, 1>>(c, "Chunk<u16, 1>", d, |x| (x.len(), 1));
            gen::<RingBuffer<u8, 4>>(c, "RingBuffer<u8, 4>", d, |x| (x.len(), 4)); gen::<RingBuffer<u32, 3>>(c, "RingBuffer<u32, 3>", d, |x| (x.len(), 3));
            gen::<SparseChunk<u8, 4>>(c, "SparseChunk<u8, 4>", d, |x| (x.len(), 4)); gen::<SparseChunk<bool, 33>>(c, "SparseChunk<bool, 33>", d, |x| (x.len(), 33));
            gen::<InlineArray<u8, [u64; 2]>>(c, "InlineArray<u8, [u64; 2]>", d, |x| (x.len(), 8)); gen::<InlineArray<u16, [u8; 11]>>(c, "InlineArray<u16, [u8; 11]>", d, |x| (x.len(), 1));
            gen::<Chunk<Never, 3>>(c, "Chunk<Never, 3>", d, |x| (x.len(), 3)); gen::<RingBuffer<Never, 3>>(c, "RingBuffer<Never, 3>", d, |x| (x.len(), 3));
            gen::<SparseChunk<Never, 3>>(c, "SparseChunk<Never, 3>", d, |x| (x.len(), 3)); gen::<InlineArray<Never, [u64; 3]>>(c, "InlineArray<Never, [u64; 3]>", d, |x| (x.len(), usize::MAX));
        }
        hint_fits::<Chunk<u16, 4>>(c, "Chunk<u16, 4>", Some(2), 4); hint_fits::<RingBuffer<u16, 4>>(c, "RingBuffer<u16, 4>", Some(2), 4); hint_fits::<InlineArray<u16, [u64; 3]>>(c, "InlineArray<u16, [u64; 3]>", Some(2), 8);
        hint_fits::<Chunk<Huge, 4>>(c, "Chunk<Huge, 4>", Some(usize::MAX / 2), 4); hint_fits::<RingBuffer<Huge, 4>>(c, "RingBuffer<Huge, 4>", Some(usize::MAX / 2), 4);
        hint_fits::<Chunk<Huge, 2>>(c, "Chunk<Huge, 2>", Some(usize::MAX / 2), 2); hint_fits::<Chunk<Never, 2>>(c, "Chunk<Never, 2>", None, 2);
        hint_fits::<SparseChunk<u16, 4>>(c, "SparseChunk<u16, 4>", Some(3), 4);
    }
    if c.wants(&["C16", "C01", "C02", "C03", "C04", "C09", "C12", "C15"]) { misc(c) }
}
fn misc(c: &mut Ctx) {
    c.case("unit elements".into(), false, false, |c| {
        let mut x: Chunk<(), 3> = Chunk::new(); x.push_back(()); x.push_front(()); c.eq(&["C01"], "len", x.len(), 2); x.pop_back(); c.eq(&["C01"], "len", x.len(), 1); c.eq(&["C01"], "slice", x.as_slice().len(), 1);
        let mut x: RingBuffer<(), 3> = RingBuffer::new(); x.push_back(()); x.push_front(()); c.eq(&["C02"], "len", x.len(), 2); x.pop_back(); c.eq(&["C02"], "iter", x.iter().count(), 1);
        let mut x: InlineArray<(), [u64; 3]> = InlineArray::new(); for _ in 0..100 { x.push(()) } c.eq(&["C04"], "len", x.len(), 100); x.pop(); x.remove(3); c.eq(&["C04"], "len", x.len(), 98); c.eq(&["C04"], "slice", x[..].len(), 98); let y = x.split_off(90); c.eq(&["C04"], "split", (x.len(), y.len()), (90, 8));
    });
    for n in 0..6usize { for k in 0..6usize {
        c.case(format!("extending {} copied elements by {}", n, k), false, false, |c| {
            let a: Vec<u8> = (0..n as u8).collect(); let b: Vec<u8> = (50..50 + k as u8).collect(); let w = [a.clone(), b.clone()].concat();
            let mut x: Chunk<u8, 10> = a.iter().copied().collect(); x.extend(b.iter()); c.eq(&["C16"], "extended chunk", x.to_vec(), w.clone());
            let mut x: RingBuffer<u8, 10> = a.iter().copied().collect(); x.extend(b.iter()); c.eq(&["C16"], "extended ring buffer", x.iter().copied().collect(), w.clone());
            let mut x: InlineArray<u8, [u64; 3]> = a.iter().copied().collect(); x.extend(b.iter()); c.eq(&["C16"], "extended inline array", x.to_vec(), w.clone());
            let x: Chunk<u8, 10> = a.iter().copied().collect(); let y: Chunk<u8, 10> = b.iter().copied().collect(); let z: &[u8] = &x;
            c.eq(&["C12"], "chunk order", (x.cmp(&y), x.partial_cmp(&y), x == y, x == a, x == b), (a.cmp(&b), a.partial_cmp(&b), a == b, true, a == b)); c.eq(&["C01"], "slice", z.to_vec(), a.clone());
            let x: InlineArray<u8, [u64; 3]> = a.iter().copied().collect(); let y: InlineArray<u8, [u64; 3]> = b.iter().copied().collect();
            c.eq(&["C12"], "inline order", (x.cmp(&y), x.partial_cmp(&y), x == y, x == a, x == b), (a.cmp(&b), a.partial_cmp(&b), a == b, true, a == b));
            // elements without drop glue: removals, moves between containers and map equality
            let mut src: InlineArray<u8, [u64; 3]> = a.iter().copied().collect(); let x: Chunk<u8, 16> = Chunk::from(&mut src); c.eq(&["C16"], "chunk from inline array", (x.to_vec(), src.to_vec()), (a.clone(), vec![]));
            let mut src: InlineArray<u8, [u64; 3]> = a.iter().copied().collect(); let mut x: Chunk<u8, 10> = b.iter().copied().collect(); x.extend(src.drain()); c.eq(&["C16", "C09"], "extended by a drain", (x.to_vec(), src.to_vec()), ([b.clone(), a.clone()].concat(), vec![]));
            for i in 0..=n {
                let (u, v) = (a[..i].to_vec(), a[i..].to_vec());
                macro_rules! split { ($p:expr, $t:ty) => {{ let mut x: $t = a.iter().copied().collect(); let y = x.split_off(i); c.eq(&[$p], "split off", (x.iter().copied().collect::<Vec<u8>>(), y.iter().copied().collect::<Vec<u8>>()), (u.clone(), v.clone()));
                    if i < n { let mut x: $t = a.iter().copied().collect(); let e = x.remove(i); let mut w = a.clone(); c.eq(&[$p], "remove", (format!("{:?}", e).trim_start_matches("Some(").trim_end_matches(')').to_string(), x.iter().copied().collect::<Vec<u8>>()), (w.remove(i).to_string(), w)); let mut x: $t = a.iter().copied().collect(); x.insert(i, 99); let mut w = a.clone(); w.insert(i, 99); c.eq(&[$p], "insert", x.iter().copied().collect::<Vec<u8>>(), w) }
                    let mut x: $t = a.iter().copied().collect(); x.clear(); c.eq(&[$p], "clear", x.len(), 0); let mut x: $t = a.iter().copied().collect(); let mut g = vec![]; { let mut it = x.drain(); for _ in 0..i { g.extend(it.next()) } } c.eq(&[$p, "C09"], "drained", g, u.clone()) }} }
                split!("C01", Chunk<u8, 10>); split!("C02", RingBuffer<u8, 10>); split!("C04", InlineArray<u8, [u64; 3]>);
                let mut x: Chunk<u8, 10> = a.iter().copied().collect(); x.drop_left(i); c.eq(&["C01"], "drop_left", x.to_vec(), v.clone()); let mut x: Chunk<u8, 10> = a.iter().copied().collect(); x.drop_right(i); c.eq(&["C01"], "drop_right", x.to_vec(), u.clone());
                let mut x: RingBuffer<u8, 10> = a.iter().copied().collect(); x.drop_left(i); c.eq(&["C02"], "drop_left", x.iter().copied().collect(), v.clone()); let mut x: RingBuffer<u8, 10> = a.iter().copied().collect(); x.drop_right(i); c.eq(&["C02"], "drop_right", x.iter().copied().collect(), u.clone());
                let (mut x, mut y): (Chunk<u8, 12>, Chunk<u8, 12>) = (a.iter().copied().collect(), b.iter().copied().collect()); let j = i.min(k); x.drain_from_back(&mut y, j); c.eq(&["C01"], "drain_from_back", (x.to_vec(), y.to_vec()), ([&b[k - j..], &a[..]].concat(), b[..k - j].to_vec()));
                let (mut x, mut y): (Chunk<u8, 12>, Chunk<u8, 12>) = (a.iter().copied().collect(), b.iter().copied().collect()); x.drain_from_front(&mut y, j); c.eq(&["C01"], "drain_from_front", (x.to_vec(), y.to_vec()), ([&a[..], &b[..j]].concat(), b[j..].to_vec()));
            }
            for i in 0..64u32 { let (p, q) = (i % 8, i / 8);
                let mut x: SparseChunk<u8, 4> = SparseChunk::new(); let mut y: SparseChunk<u8, 4> = SparseChunk::new(); for z in 0..4 { if (p << 1 | (n as u32 & 1)) >> z & 1 == 1 { x.insert(z, 7); } if (q << 1 | (k as u32 & 1)) >> z & 1 == 1 { y.insert(z, 7); } }
                c.eq(&["C12"], "sparse chunks of equal values", x == y, p == q && n % 2 == k % 2);
                let h: HashMap<usize, u8> = y.entries().map(|(i, v)| (i, *v)).collect(); let t: BTreeMap<usize, u8> = y.entries().map(|(i, v)| (i, *v)).collect(); c.eq(&["C12"], "maps of equal values", (x == h, x == t), (p == q && n % 2 == k % 2, p == q && n % 2 == k % 2));
                for z in 0..4 { let had = x.get(z).copied(); c.eq(&["C03"], "removed", (x.remove(z), x.get(z).copied()), (had, None)) } }
            let x: Chunk<f64, 8> = vec![f64::NAN; n].into_iter().collect(); c.eq(&["C12"], "NaN chunk", x == x.clone(), n == 0); c.eq(&["C12"], "NaN order", x.partial_cmp(&x.clone()).is_none(), n > 0);
            let x: RingBuffer<f64, 8> = vec![f64::NAN; n].into_iter().collect(); c.eq(&["C12"], "NaN ring", x == x.clone(), n == 0); c.eq(&["C12"], "NaN ring order", x.partial_cmp(&x.clone()).is_none(), n > 0);
            let x: InlineArray<f64, [u64; 9]> = vec![f64::NAN; n].into_iter().collect(); c.eq(&["C12"], "NaN inline", x == x.clone(), n == 0);
        })
    } }
    let _ = (chunk::read::<1>, inline::read::<4>);
}
