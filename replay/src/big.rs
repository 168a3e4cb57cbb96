//! Random scripts at capacities far above those enumerated elsewhere, against an ideal sequence or map.
use crate::elem::*;
#[allow(unused_imports)] use array_ops::{Array, ArrayMut, HasLength};
use crate::{quiet, Ctx};
use sized_chunks::{Chunk, InlineArray, RingBuffer, SparseChunk};
use std::collections::{BTreeMap, VecDeque};

type D = VecDeque<i64>;
fn ints<'a, I: IntoIterator<Item = &'a E>>(i: I) -> Vec<i64> { i.into_iter().map(|e| e.val()).collect() }
fn es(from: i64, n: usize) -> Vec<E> { (0..n as i64).map(|i| E::new(from + 4 * i)).collect() }
fn hash<T: std::hash::Hash>(x: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }

macro_rules! deque { ($f:ident, $C:ident, $prop:expr, $what:expr, $pop:expr) => {
    fn $f<const N: usize>(c: &mut Ctx, script: usize) {
        let p: &[&str] = &[$prop]; let pt: &[&str] = &[$prop, "C16"];
        let mut names = vec![];
        let mut x: $C<E, N> = $C::new(); let mut y: $C<E, N> = $C::new(); let mut m = D::new(); let mut w = D::new();
        let mut v = 4000i64;
        for step in 0..90 {
            let n = m.len(); let room = N - n; v += 4000;
            // alternate between phases that fill and phases that empty
            let fill = (step / 15 + script) % 2 == 0;
            let k = { let top = if fill { room.min(N / 3) } else { n.min(N / 3) }; c.rnd(top + 1) };
            let i = match c.rnd(6) { 0 => 0, 1 => n, 2 => n / 2, _ => c.rnd(n + 1) };
            let op = c.rnd(if fill { 8 } else { 11 }) + if fill { 0 } else { 8 };
            names.push((op, i, k));
            match op {
                0 => { for e in es(v, k) { x.push_back(e) } m.extend((0..k as i64).map(|j| v + 4 * j)) }
                1 => { for e in es(v, k) { x.push_front(e) } for j in 0..k as i64 { m.push_front(v + 4 * j) } }
                2 => { x.insert_from(i, es(v, k)); for j in 0..k { m.insert(i + j, v + 4 * j as i64) } }
                3 => if n < N { x.insert(i, E::new(v)); m.insert(i, v) },
                4 => { x.extend(es(v, k)); m.extend((0..k as i64).map(|j| v + 4 * j)) }
                5 => { let mut t: $C<E, N> = es(v, k).into_iter().collect(); x.append(&mut t); m.extend((0..k as i64).map(|j| v + 4 * j)); c.eq(pt, "left after append", t.len(), 0) }
                6 => { let k = w.len().min(room).min(k); x.drain_from_front(&mut y, k); m.extend(w.drain(..k)) }
                7 => { let k = w.len().min(room).min(k); x.drain_from_back(&mut y, k); let mut t = w.split_off(w.len() - k); t.append(&mut m); m = t }
                8 => { for _ in 0..k { let a: Option<E> = $pop(&mut x, true); let b = m.pop_front(); c.eq(p, "pop_front", a.map(|e| e.val()), b) } }
                9 => { for _ in 0..k { let a: Option<E> = $pop(&mut x, false); let b = m.pop_back(); c.eq(p, "pop_back", a.map(|e| e.val()), b) } }
                10 => { x.drop_left(k); m.drain(..k); }
                11 => { x.drop_right(n - k); m.truncate(n - k) }
                12 => if i < n { let a = x.remove(i); c.eq(p, "remove", Some(a.val()), m.remove(i)) },
                13 => { y = x.split_off(i); w = m.split_off(i) }
                14 => { y = $C::from_front(&mut x, k); w = m.drain(..k).collect() }
                15 => { y = $C::from_back(&mut x, k); w = m.split_off(n - k) }
                16 => { let a: Vec<i64> = x.drain().take(k).map(|e| e.val()).collect(); c.eq(&["C09", "C06"], "drain", a, m.drain(..).take(k).collect::<Vec<_>>()); x.clear(); m.clear() }
                17 => { x.clear(); m.clear(); for e in es(v, k) { x.push_front(e) } for j in 0..k as i64 { m.push_front(v + 4 * j) } }
                _ => { y = $C::drain_from(&mut x); w = m.drain(..).collect() }
            }
            c.eq(pt, &format!("{} contents after step {} of {:?}", $what, step, names.last()), ints(&x), Vec::from(m.clone()));
            c.eq(pt, &format!("{} other contents after step {} of {:?}", $what, step, names.last()), ints(&y), Vec::from(w.clone()));
            c.eq(p, "len", (x.len(), x.is_empty(), x.is_full()), (m.len(), m.is_empty(), m.len() == N) );
            if step % 6 == 0 {
                let n = m.len();
                let z = x.clone();
                c.eq(&["C14"], "clone", ints(&z), Vec::from(m.clone()));
                let t: $C<E, N> = m.iter().map(|a| E::new(*a)).collect();
                c.eq(&["C12"], "== for equal contents in another layout", (x == t, hash(&x) == hash(&t), x.cmp(&t)), (true, true, std::cmp::Ordering::Equal));
                if n > 0 { let mut t = t; *t.iter_mut().nth(i.min(n - 1)).unwrap() = E::new(-40); c.eq(&["C12"], "== for different contents", (x == t, x > t), (false, true)) }
                c.eq(&["C09"], "iter().rev()", x.iter().rev().map(|e| e.val()).collect::<Vec<_>>(), m.iter().rev().copied().collect::<Vec<_>>());
                c.eq(&["C09"], "iter_mut()", x.iter_mut().map(|e| e.val()).collect::<Vec<_>>(), Vec::from(m.clone()));
                for q in [n, n + 1, usize::MAX] {
                    c.eq(&["C08"], "index out of bounds panics", quiet(|| { let _ = &x[q]; }).is_err(), true);
                    c.eq(&["C08"], "remove out of bounds panics", quiet(|| { drop(x.remove(q)) }).is_err(), true);
                }
                if n == N { c.eq(&["C08"], "push to a full container panics", (quiet(|| x.push_back(E::new(1))).is_err(), quiet(|| x.push_front(E::new(1))).is_err()), (true, true)) }
            }
        }
        drop(x); drop(y);
        // ordered insertion
        let mut x: $C<E, N> = $C::new(); let mut want = vec![];
        for _ in 0..script % 7 * 3 { let e = E::new(0); x.push_back(e); drop($pop(&mut x, true)); }
        for _ in 0..N.min(60) { let a = 4 * c.rnd(200) as i64; x.insert_ordered(E::new(a)); want.push(a); want.sort(); }
        c.eq(&["C15"], "ordered insertion", ints(&x), want);
    }
} }
deque!(chunk, Chunk, "C01", "chunk", |x: &mut Chunk<E, N>, front| if x.is_empty() { None } else { Some(if front { x.pop_front() } else { x.pop_back() }) });
deque!(ring, RingBuffer, "C02", "ring", |x: &mut RingBuffer<E, N>, front| if front { x.pop_front() } else { x.pop_back() });

fn ring_slices<const N: usize>(c: &mut Ctx, script: usize) {
    let mut x: RingBuffer<E, N> = RingBuffer::new(); let o = c.rnd(N); let n = [N, N - 1, c.rnd(N), N / 2][script % 4];
    for _ in 0..o { x.push_back(E::new(0)); x.pop_front(); }
    for i in 0..n { x.push_back(E::new(4 * i as i64)) }
    for _ in 0..40 {
        let a = c.rnd(n + 1); let b = a + c.rnd(n - a + 1); let d = c.rnd(b - a + 1); let e = d + c.rnd(b - a - d + 1);
        let want: Vec<i64> = (a..b).map(|i| 4 * i as i64).collect();
        c.eq(&["C10"], "slice", ints(&x.slice(a..b)), want.clone());
        c.eq(&["C10"], "slice of a slice", ints(&x.slice(a..b).slice(d..e)), want[d..e].to_vec());
        let (l, r) = x.slice(a..b).split_at(d);
        c.eq(&["C10"], "split_at", (ints(&l), ints(&r)), (want[..d].to_vec(), want[d..].to_vec()));
        c.eq(&["C10"], "slice_mut", x.slice_mut(a..b).slice(d..e).iter_mut().map(|e| e.val()).collect::<Vec<_>>(), want[d..e].to_vec());
        c.eq(&["C10", "C14"], "to_owned", ints(&x.slice(a..b).to_owned()), want.clone());
        c.eq(&["C12"], "slice == buffer", x.slice(a..b) == want.iter().map(|a| E::new(*a)).collect::<RingBuffer<E, N>>(), true);
        c.eq(&["C08"], "a slice beyond the end panics", quiet(|| { let _ = x.slice(a..n + 1); }).is_err(), true);
    }
}
fn inline<T>(c: &mut Ctx, what: &str, _script: usize) {
    let cap = InlineArray::<E, T>::CAPACITY; let p: &[&str] = &["C04"];
    let mut x: InlineArray<E, T> = InlineArray::new(); let mut m: Vec<i64> = vec![]; let mut v = 0;
    for step in 0..80 {
        let n = m.len(); v += 4000; let fill = step / 16 % 2 == 0;
        let k = { let top = if fill { (cap - n).min(cap / 3) } else { n.min(cap / 3) }; c.rnd(top + 1) }; let i = c.rnd(n + 1);
        match c.rnd(3) + if fill { 0 } else { 3 } {
            0 => for e in es(v, k) { m.push(e.val()); x.push(e) },
            1 => if n < cap { x.insert(i, E::new(v)); m.insert(i, v) },
            2 => { m.extend((0..k as i64).map(|j| v + 4 * j)); x.extend(es(v, k)) }
            3 => for _ in 0..k { c.eq(p, "pop", x.pop().map(|e| e.val()), m.pop()) },
            4 => c.eq(p, "remove", x.remove(i).map(|e| e.val()), if i < n { Some(m.remove(i)) } else { None }),
            _ => { let y = x.split_off(n - k); c.eq(&["C04", "C16"], "split_off", ints(&*y), m.split_off(n - k)) }
        }
        c.eq(p, &format!("{} contents", what), ints(&*x), m.clone());
        c.eq(&["C04", "C11"], "len", (x.len(), x.is_empty(), x.is_full()), (m.len(), m.is_empty(), m.len() == cap));
        if step % 8 == 0 { c.eq(&["C14"], "clone", ints(&*x.clone()), m.clone()); c.eq(&["C12"], "==", x == x.clone(), true) }
    }
    while x.len() < cap { x.push(E::new(1)) }
    c.eq(&["C08"], "push to a full array panics", quiet(|| x.push(E::new(1))).is_err(), true);
    c.eq(&["C11"], "size", std::mem::size_of::<InlineArray<E, T>>(), std::mem::size_of::<T>());
}
macro_rules! sparse { ($f:ident, $N:expr) => {
    fn $f(c: &mut Ctx, script: usize) {
        const N: usize = $N; type S = SparseChunk<E, N>;
        let p: &[&str] = &["C03"];
        let mut x = S::new(); let mut m: BTreeMap<usize, i64> = BTreeMap::new();
        let edges = [0, 1, 63, 64, 127, 128, 191, 192, N - 2, N - 1];
        for step in 0..250 {
            let i = match c.rnd(3) { 0 => edges[c.rnd(10)], 1 => N - 1 - c.rnd(40), _ => c.rnd(N) };
            let v = 4 * (step as i64 + 1);
            match (c.rnd(4) + script) % 5 {
                0 | 1 => c.eq(p, "insert", x.insert(i, E::new(v)).map(|e| e.val()), m.insert(i, v)),
                2 => c.eq(p, "remove", x.remove(i).map(|e| e.val()), m.remove(&i)),
                3 => if step % 3 == 0 { c.eq(p, "pop", x.pop().map(|e| e.val()), m.keys().next().copied().and_then(|i| m.remove(&i))) },
                _ => { c.eq(p, "get", (x.get(i).map(|e| e.val()), x.get_mut(i).map(|e| e.val())), (m.get(&i).copied(), m.get(&i).copied())); }
            }
            c.eq(p, "len and first index", (x.len(), x.is_empty(), x.first_index()), (m.len(), m.is_empty(), m.keys().next().copied()));
            if step % 10 != 0 { continue }
            let want: Vec<(usize, i64)> = m.iter().map(|(i, v)| (*i, *v)).collect(); let vals: Vec<i64> = m.values().copied().collect();
            c.eq(&["C03", "C09"], "entries", x.entries().map(|(i, e)| (i, e.val())).collect::<Vec<_>>(), want.clone());
            c.eq(&["C09"], "iter", x.iter().map(|e| e.val()).collect::<Vec<_>>(), vals.clone());
            c.eq(&["C09"], "iter_mut", x.iter_mut().map(|e| e.val()).collect::<Vec<_>>(), vals.clone());
            c.eq(&["C09"], "option_iter", x.option_iter().map(|e| e.map(|e| e.val())).collect::<Vec<_>>(), (0..N).map(|i| m.get(&i).copied()).collect::<Vec<_>>());
            let mut y = x.clone();
            c.eq(&["C14"], "clone", y.entries().map(|(i, e)| (i, e.val())).collect::<Vec<_>>(), want.clone());
            let t: BTreeMap<usize, E> = m.iter().map(|(i, v)| (*i, E::new(*v))).collect();
            c.eq(&["C12"], "== for equal contents", (x == y, x == t), (true, true));
            c.eq(&["C16"], "collected", (0..N).map(|i| m.get(&i).map(|v| E::new(*v))).collect::<S>().entries().map(|(i, e)| (i, e.val())).collect::<Vec<_>>(), want);
            let was = y.insert(i, E::new(-40)).is_some();
            c.eq(&["C12"], "== for different contents", (x == y, y == t, was), (false, false, m.contains_key(&i)));
            if was { y.remove(i); c.eq(&["C12"], "== without an entry", (x == y, y == x), (false, false)); }
            c.eq(&["C09"], "drain", x.clone().drain().map(|e| e.val()).collect::<Vec<_>>(), vals);
            for q in [N, N + 1, usize::MAX] { c.eq(&["C08"], "an index behind the end panics", (quiet(|| drop(x.insert(q, E::new(1)))).is_err(), x.get(q).is_none()), (true, true)) }
        }
    }
} }
sparse!(sparse200, 200); sparse!(sparse300, 300);
fn bytes<const N: usize>(c: &mut Ctx) {
    use std::io::{Read, Write};
    let mut x: RingBuffer<u8, N> = RingBuffer::new(); let mut z: Chunk<u8, N> = Chunk::new(); let mut m: VecDeque<u8> = VecDeque::new(); let mut k: VecDeque<u8> = VecDeque::new();
    for step in 0..60u32 {
        let n = c.rnd(N + 20); let src: Vec<u8> = (0..n).map(|i| (i as u32 * 7 + step) as u8).collect();
        let a = x.write(&src).unwrap(); c.eq(&["C13"], "ring write", a, n.min(N - m.len())); m.extend(&src[..a.min(n)]);
        let b = z.write(&src).unwrap(); c.eq(&["C13"], "chunk write", b, n.min(N - k.len())); k.extend(&src[..b.min(n)]);
        let r = c.rnd(N + 20); let mut buf = vec![0; r];
        let a = x.read(&mut buf).unwrap(); c.eq(&["C13"], "ring read", buf[..a].to_vec(), m.drain(..r.min(m.len())).collect::<Vec<_>>());
        let mut buf = vec![0; r];
        let b = z.read(&mut buf).unwrap(); c.eq(&["C13"], "chunk read", buf[..b].to_vec(), k.drain(..r.min(k.len())).collect::<Vec<_>>());
    }
}
pub fn run(c: &mut Ctx, seed: u64) {
    // a case starts from its own seed, so that it replays by name
    macro_rules! go { ($name:expr, $i:expr, $f:expr) => {{ c.seed = (seed ^ ($i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15)) | 1; c.case(format!("{} script {}", $name, $i), false, false, $f) }} }
    let most = ["C05", "C06", "C08", "C09", "C12", "C14", "C16"];
    for s in 0..12usize {
        if c.wants(&most) || c.wants(&["C01", "C15"]) { go!("chunk of 300", s, |c| chunk::<300>(c, s)); go!("chunk of 37", s, |c| chunk::<37>(c, s)) }
        if c.wants(&most) || c.wants(&["C02", "C15"]) { go!("ring of 300", s, |c| ring::<300>(c, s)); go!("ring of 37", s, |c| ring::<37>(c, s)) }
        if c.wants(&["C05", "C08", "C10", "C12", "C14"]) { go!("slices of a ring of 300", s, |c| ring_slices::<300>(c, s)); go!("slices of a ring of 37", s, |c| ring_slices::<37>(c, s)) }
        if c.wants(&most) || c.wants(&["C04", "C11"]) { go!("inline in 500 words", s, |c| inline::<[u64; 500]>(c, "inline", s)); go!("inline in 61 words", s, |c| inline::<[u64; 61]>(c, "inline", s)) }
        if c.wants(&most) || c.wants(&["C03"]) { go!("sparse of 200", s, |c| sparse200(c, s)); go!("sparse of 300", s, |c| sparse300(c, s)) }
        if c.wants(&["C05", "C13"]) { go!("bytes", s, |c| { bytes::<300>(c); bytes::<37>(c) }) }
    }
}
