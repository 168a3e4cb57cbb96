//! Chunk, RingBuffer and InlineArray against an ideal sequence.
use crate::elem::*;
use crate::{quiet, Ctx};
use array_ops::{Array, ArrayMut, HasLength};
use sized_chunks::{Chunk, InlineArray, RingBuffer};
use std::mem::{forget, replace};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    PushBack, PushFront, PopBack, PopFront, DropLeft(usize), DropRight(usize), SplitOff(usize), Insert(usize), Remove(usize), Set(usize), Clear,
    InsertFrom(usize, usize), Lie(usize, usize, usize, usize), Extend(usize), ExtendRef(usize), Append(usize, usize), DrainFromFront(usize, usize, usize), DrainFromBack(usize, usize, usize),
    DrainFrom, FromFront(usize), FromBack(usize), InsertOrdered(i64), Clone, PoolClone, Index(usize), IndexMut(usize), Get(usize), Iter(u32, u32), IterMut(u32, u32), IntoIter(u32, u32, bool), Drain(u32, u32, bool),
    CollectFrom(usize, usize), FromIter(usize), Eq(usize), Hash, Unit, Pair, Queries, FromInline(usize), Swap,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault { No, Drop(usize), Clone(usize), Next(usize) }
/// what an ideal sequence does
pub enum Want { Panic, Done(Vec<i64>, Vec<i64>, Vec<i64>) }
pub const NEW: i64 = 4000;
pub const SEC: i64 = 8000;
pub fn items(from: i64, n: usize) -> Vec<i64> { (0..n as i64).map(|i| from + 4 * i).collect() }
pub fn steps<T>(v: &mut std::collections::VecDeque<T>, n: u32, pat: u32) -> Vec<Option<T>> {
    (0..n).map(|i| if pat >> i & 1 == 0 { v.pop_front() } else { v.pop_back() }).collect()
}
pub fn model(cap: usize, kind: char, s: &[i64], op: &Op, second: &[i64]) -> Want {
    let mut v = s.to_vec(); let mut o = second.to_vec(); let n = v.len();
    let opt = |x: Option<i64>| x.unwrap_or(-1);
    let mut r = vec![];
    use Op::*;
    match op {
        PushBack => { if n >= cap { return Want::Panic } v.push(NEW) }
        PushFront => { if n >= cap { return Want::Panic } v.insert(0, NEW) }
        PopBack | PopFront => {
            if n == 0 { if kind == 'c' { return Want::Panic } r.push(-1) }
            else { r.push(if *op == PopBack { v.pop().unwrap() } else { v.remove(0) }) }
        }
        DropLeft(k) => { if *k > n { return Want::Panic } v.drain(..k); }
        DropRight(k) => { if *k > n { return Want::Panic } v.truncate(*k) }
        SplitOff(k) => { if *k > n { return Want::Panic } o = v.split_off(*k) }
        Insert(i) => { if n >= cap || *i > n { return Want::Panic } v.insert(*i, NEW) }
        Remove(i) => { if *i >= n { if kind == 'i' { r.push(-1) } else { return Want::Panic } } else { r.push(v.remove(*i)) } }
        Set(i) => { if *i >= n { if kind == 'c' { return Want::Panic } r.push(-1) } else { r.push(replace(&mut v[*i], NEW)) } }
        Clear => v.clear(),
        InsertFrom(i, k) => { if *i > n || n + k > cap { return Want::Panic } let t = v.split_off(*i); v.extend(items(NEW, *k)); v.extend(t) }
        Extend(k) | ExtendRef(k) => { if n + k > cap { return Want::Panic } v.extend(items(NEW, *k)) }
        Append(..) => { if n + o.len() > cap { return Want::Panic } v.append(&mut o) }
        DrainFromFront(_, _, k) => { if n.saturating_add(*k) > cap || *k > o.len() { return Want::Panic } v.extend(o.drain(..k)) }
        DrainFromBack(_, _, k) => { if n.saturating_add(*k) > cap || *k > o.len() { return Want::Panic } let mut t = o.split_off(o.len() - k); t.append(&mut v); v = t }
        DrainFrom => { o = replace(&mut v, vec![]) }
        FromFront(k) => { if *k > n { return Want::Panic } o = v.drain(..k).collect() }
        FromBack(k) => { if *k > n { return Want::Panic } o = v.split_off(n - k) }
        InsertOrdered(_) => unreachable!(),
        Clone | PoolClone => o = v.clone(),
        Index(i) => { if *i >= n { return Want::Panic } r.push(v[*i]) }
        IndexMut(i) => { if *i >= n { return Want::Panic } v[*i] = NEW }
        Get(i) => r.push(opt(v.get(*i).copied())),
        Iter(k, p) => { let mut d = v.iter().copied().collect(); r = steps(&mut d, *k, *p).into_iter().map(opt).collect(); }
        IterMut(k, p) => { let mut d = (0..n).collect(); for x in steps(&mut d, *k, *p) { match x { Some(i) => { r.push(v[i]); v[i] = NEW } None => r.push(-1) } } }
        IntoIter(k, p, _) => { let mut d = v.drain(..).collect(); r = steps(&mut d, *k, *p).into_iter().map(opt).collect(); }
        Drain(k, p, _) => { let mut d = v.drain(..).collect(); r = steps(&mut d, *k, *p).into_iter().map(opt).collect(); v = d.into_iter().collect() }
        CollectFrom(have, k) => { if k > have || *k > cap { return Want::Panic } o = items(SEC, *k) }
        FromIter(k) => { if *k > cap { return Want::Panic } o = items(SEC, *k) }
        Unit => { if cap < 1 { return Want::Panic } o = vec![NEW] }
        Pair => { if cap < 2 { return Want::Panic } o = vec![NEW, NEW + 4] }
        FromInline(k) => { if *k > cap { return Want::Panic } o = items(SEC, *k) }
        Lie(..) | Eq(_) | Hash | Queries | Swap => {}
    }
    Want::Done(v, o, r)
}
pub fn tags(kind: char, op: &Op) -> Vec<&'static str> {
    use Op::*;
    let base = match kind { 'c' => "C01", 'r' => "C02", _ => "C04" };
    match op {
        Append(..) | DrainFromFront(..) | DrainFromBack(..) | InsertFrom(..) => vec![base, "C16"],
        DrainFrom | FromFront(_) | FromBack(_) | Extend(_) | ExtendRef(_) | CollectFrom(..) | FromIter(_) | Unit | Pair | FromInline(_) => vec!["C16", base],
        InsertOrdered(_) => vec!["C15"],
        Clone | PoolClone => vec!["C14"],
        Iter(..) | IterMut(..) | IntoIter(..) | Drain(..) => vec!["C09"],
        Eq(_) | Hash => vec!["C12"],
        _ => vec![base],
    }
}
pub fn ops(kind: char, cap: usize, n: usize, small: bool) -> Vec<Op> {
    use Op::*;
    let mut r = vec![];
    let c = kind == 'c'; let i_ = kind == 'i';
    r.extend([PopBack, PushBack, Clear, Clone, Hash, Queries, SplitOff(usize::MAX), Remove(usize::MAX), Insert(usize::MAX), Swap]);
    if !i_ { r.extend([PushFront, PopFront, DrainFrom, Unit, Pair, PoolClone, DropLeft(usize::MAX), DropRight(usize::MAX), FromFront(usize::MAX), FromBack(usize::MAX), FromFront(usize::MAX / 2), FromBack(usize::MAX / 2)]) }
    for k in 0..=n + 1 {
        r.extend([SplitOff(k), Insert(k), Remove(k), Index(k), IndexMut(k), Get(k)]);
        if !i_ { r.extend([DropLeft(k), DropRight(k), Set(k), FromFront(k), FromBack(k)]) }
    }
    for k in 0..=cap + 2 {
        r.extend([Extend(k), FromIter(k)]); if kind == 'r' { r.push(ExtendRef(k)) }
        if !i_ { r.push(CollectFrom(k, k)); r.push(CollectFrom(k, k + 1)); r.push(CollectFrom(k + 1, k)) }
        if c { r.push(FromInline(k)) }
    }
    if !i_ {
        let room = cap - n;
        for k in 0..=room + 1 { for i in 0..=n + 1 { r.push(InsertFrom(i, k)) } }
        if small {
            for i in 0..=n {
                for (a, c1, c2) in [(1, 2, 2), (2, 1, 1), (2, 1, 3), (1, 3, 1), (cap + 2, 1, cap + 2), (0, 1, 0), (cap + 2, 0, cap + 2), (1, usize::MAX, 1), (1, usize::MAX - n, 1), (cap + 3, room, cap + 3)] { r.push(Lie(i, a, c1, c2)) }
            }
        }
        for a in 0..=cap { let top = if c { cap } else { a + cap }; if !c && a == cap { break } for b in a..=top { if !small && (a + b) % 3 != 0 { continue }
            let m = b - a; r.push(Append(a, b)); r.push(Eq(a * 1000 + b));
            for k in 0..=m + 1 { r.push(DrainFromFront(a, b, k)); r.push(DrainFromBack(a, b, k)) }
            r.push(DrainFromFront(a, b, usize::MAX)); r.push(DrainFromBack(a, b, usize::MAX)); } }
    } else { for b in 0..=cap { r.push(Eq(b)) } }
    let m = (n as u32 + 2).min(6);
    for p in 0..1u32 << m {
        r.extend([Iter(m, p), IterMut(m, p)]);
        for k in 0..=m { if p >> k == 0 { r.extend([IntoIter(k, p, false), Drain(k, p, false)]); if p == 0 { r.extend([IntoIter(k, p, true), Drain(k, p, true)]) } } }
    }
    r
}
pub fn bomb(f: Fault) {
    reg(|r| match f { Fault::No => {} Fault::Drop(k) => r.drop_bomb = Some(k), Fault::Clone(k) => r.clone_bomb = Some(k), Fault::Next(k) => r.next_bomb = Some(k) })
}
pub fn walk<I: DoubleEndedIterator>(c: &mut Ctx, it: &mut I, k: u32, pat: u32, len: usize, exact: bool, mut f: impl FnMut(I::Item) -> i64) -> Vec<i64> {
    let mut left = len; let mut r = vec![];
    for i in 0..k {
        let (lo, hi) = it.size_hint();
        if lo > left || hi.map_or(false, |h| h < left) || (exact && (lo != left || hi != Some(left))) { c.fail("C09", format!("size hint {:?} with {} elements to come", (lo, hi), left)) }
        let x = if pat >> i & 1 == 0 { it.next() } else { it.next_back() };
        match x { Some(x) => { left = left.saturating_sub(1); r.push(f(x)) } None => r.push(-1) }
    }
    r
}
pub fn sorted(n: usize) -> Vec<i64> { (0..n as i64).map(|i| 8 * (i / 2) + i % 2 + 4).collect() }

#[macro_export]
macro_rules! seq_impl {
    ($m:ident, $C:ty, $kind:expr, $cap:expr, $layouts:expr, $make:expr, { $($arm:tt)* }, [$($g:tt)*], [$($a:tt)*]) => {
        pub mod $m {
            use super::*;
            #[allow(unused)] type T<$($g)*> = $C;
            pub fn read<$($g)*>(x: &$C) -> Vec<i64> { (&*x).into_iter().map(|e: &E| e.val()).collect() }
            #[allow(unused_variables, unreachable_patterns, unreachable_code)]
            pub fn exec<$($g)*>(c: &mut Ctx, x: &mut $C, y: &mut $C, op: &Op, id: &mut Vec<(u64, u64)>) -> (Option<$C>, Vec<i64>)  {
                use Op::*;
                type Cc<$($g)*> = $C;
                let mut r: Vec<i64> = vec![]; let mut out: Option<$C> = None;
                let n0 = (&*x).into_iter().count();
                macro_rules! o { ($e:expr) => { match $e { Some(e) => r.push(e.val()), None => r.push(-1) } } }
                let v = E::new(NEW);
                match op {
                    SplitOff(k) => out = Some(x.split_off(*k)),
                    Insert(i) => x.insert(*i, v),
                    Clear => x.clear(),
                    Extend(k) => { drop(v); x.extend(It::new(NEW, *k)) }
                    Clone => { drop(v); out = Some(<$C as core::clone::Clone>::clone(x)) }
                    Index(i) => r.push(x[*i].val()),
                    IndexMut(i) => { x[*i] = v; }
                    Get(i) => o!(x.get(*i)),
                    Iter(k, p) => { let mut it = (&*x).into_iter(); r = walk(c, &mut it, *k, *p, n0, true, |e| e.val()) }
                    IterMut(k, p) => { let mut it = (&mut *x).into_iter(); r = walk(c, &mut it, *k, *p, n0, true, |e| { let q = e.val(); e.set(NEW); q }) }
                    IntoIter(k, p, f) => { drop(v); let mut it = replace(x, <$C>::new()).into_iter(); r = walk(c, &mut it, *k, *p, n0, true, |e| e.val()); if *f { forget(it) } }
                    Drain(k, p, f) => { drop(v); let mut it = x.drain(); r = walk(c, &mut it, *k, *p, n0, true, |e| e.val()); if *f { forget(it) } }
                    FromIter(k) => { drop(v); out = Some(It::new(SEC, *k).collect()) }
                    PushBack | PushFront | PopBack | PopFront | DropLeft(_) | DropRight(_) | Remove(_) | Set(_) | InsertFrom(..) | Lie(..) | Append(..)
                    | DrainFromFront(..) | DrainFromBack(..) | DrainFrom | FromFront(_) | FromBack(_) | CollectFrom(..) | Unit | Pair | InsertOrdered(_) | FromInline(_) | PoolClone | ExtendRef(_) => {
                        let z: Option<(Option<$C>, Vec<i64>)> = special(c, x, y, op, v); if let Some((a, b)) = z { out = a; r = b }
                    }
                    Eq(_) => {
                        let (p, q) = (read(x), read(y)); let k: fn(&Vec<i64>) -> Vec<i64> = |v| v.iter().map(|a| a / 4).collect();
                        let (p, q) = (k(&p), k(&q));
                        c.eq(&["C12"], "==", *x == *y, p == q);
                        let w: Vec<E> = q.iter().map(|a| E::new(a * 4 + 1)).collect();
                        c.eq(&["C12"], "== vector", *x == w, p == q);
                        c.eq(&["C12"], "partial_cmp", (*x).partial_cmp(&*y), p.partial_cmp(&q));
                        c.eq(&["C12"], "cmp", (*x).cmp(&*y), p.cmp(&q));
                        let w: Vec<E> = p.iter().map(|a| E::new(a * 4 + 2)).collect();
                        c.eq(&["C12"], "== equal vector", *x == w, true);
                    }
                    _ => { special(c, x, y, op, v); }
                }
                (out, r)
            }
            #[allow(unused_variables)]
            fn special<$($g)*>(c: &mut Ctx, x: &mut $C, y: &mut $C, op: &Op, v: E) -> Option<(Option<$C>, Vec<i64>)> {
                use Op::*;
                let mut r: Vec<i64> = vec![]; let mut out: Option<$C> = None;
                #[allow(unused_macros)] macro_rules! o { ($e:expr) => { match $e { Some(e) => r.push(e.val()), None => r.push(-1) } } }
                seq_special!{ $m, c, x, y, op, v, r, out, o, $C }
                Some((out, r))
            }
            fn mk<$($g)*>(l: (usize, usize), vals: &[i64]) -> $C { let f: fn((usize, usize), &[i64]) -> $C = $make; f(l, vals) }
            pub fn one<$($g)*>(c: &mut Ctx, l: (usize, usize), op: &Op, fault: Fault, cap: usize) {
                let kind = $kind;
                let n = l.1 - l.0;
                let name = format!("{} cap={} layout={:?} {:?} fault={:?}", stringify!($m), cap, l, op, fault);
                let leaky = fault != Fault::No || matches!(op, Op::Lie(..) | Op::IntoIter(_, _, true));
                let lies = matches!(op, Op::Lie(..));
                let faulty = fault != Fault::No || lies;
                c.case(name, leaky, faulty, |c| {
                    let vals = if let Op::InsertOrdered(_) = op { sorted(n) } else { items(0, n) };
                    let mut x: $C = mk(l, &vals);
                    if read(&x) != vals { c.fail(match kind { 'c' => "C01", 'r' => "C02", _ => "C04" }, format!("setup by pushing and popping gives {:?}, expected {:?}", read(&x), vals)); }
                    let l2 = match op { Op::Append(a, b) | Op::DrainFromFront(a, b, _) | Op::DrainFromBack(a, b, _) => (*a, *b), Op::Eq(k) => (k / 1000, k % 1000), _ => (0, 0) };
                    let second = if let Op::Eq(k) = op { let mut s = items(1, l2.1 - l2.0); if k % 2 == 1 && !s.is_empty() { let p = k / 2 % s.len(); s[p] += 4 } s } else { items(SEC, l2.1 - l2.0) };
                    let mut y: $C = mk(l2, &second);
                    let pre_ids: Vec<u64> = (&x).into_iter().map(|e: &E| e.id()).collect();
                    reg(|r| r.clones.clear());
                    bomb(fault);
                    let mut id = vec![];
                    let got = quiet(|| exec(c, &mut x, &mut y, op, &mut id));
                    let fired = reg(|r| { let f = r.drop_bomb.is_none() && r.clone_bomb.is_none() && r.next_bomb.is_none(); r.drop_bomb = None; r.clone_bomb = None; r.next_bomb = None; f });
                    let t = tags(kind, op);
                    // still usable and inside its bounds
                    for z in [&x, &y] { let k = (&*z).into_iter().count(); if k > cap { for p in ["C05", "C07"] { c.fail(p, format!("holds {} elements, capacity {}", k, cap)) } } }
                    let (px, py) = (read(&x), read(&y));
                    let distinct = |c: &mut Ctx| { let mut ids: Vec<u64> = (&x).into_iter().chain((&y).into_iter()).map(|e: &E| e.id()).collect(); ids.sort(); let k = ids.len(); ids.dedup();
                        if ids.len() != k { for p in ["C05", "C06", if faulty { "C07" } else { "C06" }] { c.fail(p, "an element is present twice".into()) } } };
                    distinct(c);
                    if faulty && (fired || lies) { return }
                    if let Op::InsertOrdered(w) = op {
                        let mut want = vals.clone(); want.push(*w);
                        if n >= cap { if got.is_ok() { c.fail("C08", "did not panic when full".into()); c.fail("C15", "did not panic when full".into()) } c.eq(&["C08", "C15"], "contents after rejected call", px, vals); return }
                        match got { Err(m) => { c.fail("C15", format!("panicked: {}", m)); c.fail("C08", format!("panicked: {}", m)) }
                            Ok(_) => { let k: Vec<i64> = px.iter().map(|a| a / 4).collect(); let mut s = k.clone(); s.sort();
                                if k != s { c.fail("C15", format!("not sorted: {:?}", px)) }
                                let rest: Vec<i64> = px.iter().copied().filter(|a| a != w).collect();
                                c.eq(&["C15"], "previous elements", rest, vals.clone()); c.eq(&["C15"], "length", px.len(), n + 1) } }
                        return
                    }
                    match model(cap, kind, &vals, op, &second) {
                        Want::Panic => match got {
                            Ok(_) => { for p in t.iter().chain(["C08"].iter()) { c.fail(p, "did not panic".into()) } }
                            Err(_) => {
                                let want: &[&str] = &["C08"];
                                match op { Op::Extend(_) | Op::ExtendRef(_) => {} _ => { c.eq(want, "contents after rejected call", px, vals); c.eq(want, "second operand after rejected call", py, second) } }
                            }
                        },
                        Want::Done(wx, wo, wr) => match got {
                            Err(m) => for p in t.iter().chain(["C08"].iter()) { c.fail(p, format!("panicked: {}", m)) },
                            Ok((o, r)) => {
                                c.eq(&t, "contents", px, wx);
                                if let Some(o) = &o { c.eq(&t, "returned container", read(o), wo.clone());
                                    if matches!(op, Op::Clone | Op::PoolClone) {
                                        let cl = reg(|r| r.clones.clone()); let ids: Vec<u64> = o.into_iter().map(|e: &E| e.id()).collect();
                                        if cl != pre_ids.iter().copied().zip(ids).collect::<Vec<_>>() { c.fail("C14", "elements are not cloned exactly once each".into()) }
                                    } }
                                else if matches!(op, Op::Append(..) | Op::DrainFromFront(..) | Op::DrainFromBack(..)) { c.eq(&t, "second operand", py, wo) }
                                c.eq(&t, "result", r, wr);
                            }
                        },
                    }
                });
            }
            pub fn all<$($g)*>(c: &mut Ctx, cap: usize, layouts: &[(usize, usize)], small: bool) {
                let kind = $kind;
                for &l in layouts {
                    let n = l.1 - l.0;
                    let mut os = ops(kind, cap, n, small);
                    if kind != 'i' { for w in 0..=(n as i64 / 2 + 1) { os.push(Op::InsertOrdered(8 * w + 6)); os.push(Op::InsertOrdered(8 * w + 2)) } }
                    if !small { let k = os.len(); let mut keep = vec![]; for _ in 0..300.min(k) { let j = c.rnd(k); keep.push(os[j].clone()) } os = keep }
                    let t = |op: &Op| { let mut t = tags(kind, op); t.extend(["C05", "C06", "C08"]); t };
                    for op in &os {
                        let lie = matches!(op, Op::Lie(..));
                        if if lie { c.wants(&["C05", "C07"]) } else { c.wants(&t(op)) } { one::<$($a)*>(c, l, op, Fault::No, cap) }
                        if c.wants(&["C07", "C05"]) && small {
                            let mut fs = vec![];
                            match op {
                                Op::Clone | Op::PoolClone | Op::ExtendRef(_) => for k in 0..n.max(1) + 1 { fs.push(Fault::Clone(k)) },
                                Op::Extend(_) | Op::FromIter(_) | Op::InsertFrom(..) | Op::CollectFrom(..) => for k in 0..4 { fs.push(Fault::Next(k)); fs.push(Fault::Drop(k)) },
                                Op::Clear | Op::DropLeft(_) | Op::DropRight(_) | Op::IntoIter(..) | Op::Drain(..) | Op::IndexMut(_) | Op::Set(_) | Op::Remove(_) | Op::PopBack | Op::PopFront | Op::PushBack | Op::Insert(_) | Op::SplitOff(_) | Op::FromFront(_) => for k in 0..n + 1 { fs.push(Fault::Drop(k)) },
                                _ => {}
                            }
                            for f in fs { one::<$($a)*>(c, l, op, f, cap) }
                        }
                    }
                }
            }
        }
    };
}
macro_rules! common_special { ($x:ident, $y:ident, $op:ident, $v:ident, $r:ident, $out:ident, $o:ident, $C:ty, $c:ident, $T:ident) => {
    match $op {
        PushBack => $x.push_back($v), PushFront => $x.push_front($v),
        DropLeft(k) => $x.drop_left(*k), DropRight(k) => $x.drop_right(*k),
        Remove(i) => $r.push($x.remove(*i).val()),
        InsertFrom(i, k) => { drop($v); $x.insert_from(*i, It::new(NEW, *k)) }
        Lie(i, a, c1, c2) => { drop($v); $x.insert_from(*i, It::lying(NEW, *a, &[*c1, *c2])) }
        Append(..) => $x.append($y),
        DrainFromFront(_, _, k) => $x.drain_from_front($y, *k), DrainFromBack(_, _, k) => $x.drain_from_back($y, *k),
        DrainFrom => { drop($v); $out = Some(<$C>::drain_from($x)) }
        FromFront(k) => { drop($v); $out = Some(<$C>::from_front($x, *k)) }
        FromBack(k) => { drop($v); $out = Some(<$C>::from_back($x, *k)) }
        CollectFrom(h, k) => { drop($v); $out = Some(<$C>::collect_from(&mut It::new(SEC, *h), *k)) }
        Unit => $out = Some(<$C>::unit($v)), Pair => $out = Some(<$C>::pair($v, E::new(NEW + 4))),
        InsertOrdered(w) => { drop($v); $x.insert_ordered(E::new(*w)) }
        PoolClone => { drop($v);
            let pool: refpool::Pool<$C> = refpool::Pool::new(4);
            let mut p = refpool::PoolRef::<$C>::default(&pool);
            $c.eq(&["C14"], "pooled default", read(&*p), vec![]);
            *refpool::PoolRef::make_mut(&pool, &mut p) = replace($x, <$C>::new());
            let mut q = p.clone();
            let k = refpool::PoolRef::make_mut(&pool, &mut q);
            $out = Some(replace(k, <$C>::new()));
            *$x = replace(refpool::PoolRef::make_mut(&pool, &mut p), <$C>::new());
        }
        _ => {}
    } } }
macro_rules! hash_of { ($e:expr) => {{ let mut h = Rec::default(); std::hash::Hash::hash($e, &mut h); h }} }
macro_rules! seq_special {
    (chunk, $c:ident, $x:ident, $y:ident, $op:ident, $v:ident, $r:ident, $out:ident, $o:ident, $C:ty) => {
        match $op {
            PopBack => $r.push($x.pop_back().val()), PopFront => $r.push($x.pop_front().val()),
            Set(i) => $r.push($x.set(*i, $v).val()),
            FromInline(k) => { drop($v); let mut a: InlineArray<E, [u64; 240]> = InlineArray::new(); for q in items(SEC, *k) { a.push(E::new(q)) }
                if *k % 2 == 0 { $out = Some(a.into()) } else { $out = Some((&mut a).into()); $c.eq(&["C16"], "source array", a.len(), 0) } }
            Hash => { $c.eq(&["C12"], "hash", hash_of!(&*$x), hash_of!($x.as_slice())) }
            Swap => { let k = $x.len(); let s = $x.as_mut_slice(); s.reverse(); s.reverse(); $c.eq(&["C01"], "slice length", s.len(), k) }
            Queries => { let k = read($x).len(); let cap = N; $c.eq(&["C01"], "CAPACITY", <$C>::CAPACITY, N); $c.eq(&["C01"], "len/is_empty/is_full", ($x.len(), $x.is_empty(), $x.len() == cap), (k, k == 0, k == cap)); $c.eq(&["C01"], "is_full", $x.is_full(), k == cap);
                $c.eq(&["C01"], "as_slice", $x.as_slice().iter().map(|e| e.val()).collect(), read($x)) }
            _ => { common_special!{ $x, $y, $op, $v, $r, $out, $o, $C, $c, T } }
        }
    };
    (ring, $c:ident, $x:ident, $y:ident, $op:ident, $v:ident, $r:ident, $out:ident, $o:ident, $C:ty) => {
        match $op {
            PopBack => $o!($x.pop_back()), PopFront => $o!($x.pop_front()),
            ExtendRef(k) => { drop($v); let s: Vec<E> = items(NEW, *k).into_iter().map(E::new).collect(); $x.extend(s.iter()) }
            Set(i) => $o!(ArrayMut::set($x, *i, $v)),
            Hash => { let v: Vec<i64> = read($x).iter().map(|a| a / 4).collect(); let mut h = Rec::default(); for a in &v { std::hash::Hash::hash(a, &mut h) } $c.eq(&["C12"], "hash", hash_of!(&*$x), h) }
            Queries => { let k = read($x).len(); let cap = N; $c.eq(&["C02"], "CAPACITY", <$C>::CAPACITY, N); $c.eq(&["C02"], "len/is_empty/is_full", ($x.len(), $x.is_empty(), $x.is_full()), (k, k == 0, k == cap));
                $c.eq(&["C02"], "iter", $x.iter().map(|e| e.val()).collect(), read($x)); $c.eq(&["C02"], "first", $x.first().map(|e| e.val()), read($x).first().copied()); $c.eq(&["C02"], "last", $x.last().map(|e| e.val()), read($x).last().copied()) }
            _ => { common_special!{ $x, $y, $op, $v, $r, $out, $o, $C, $c, T } }
        }
    };
    (inline, $c:ident, $x:ident, $y:ident, $op:ident, $v:ident, $r:ident, $out:ident, $o:ident, $C:ty) => {
        match $op {
            PushBack => $x.push($v), PopBack => $o!($x.pop()), Remove(i) => $o!($x.remove(*i)),
            Hash => { $c.eq(&["C12"], "hash", hash_of!(&*$x), hash_of!(&$x[..])) }
            Queries => { let k = read($x).len(); let cap = <$C>::CAPACITY; $c.eq(&["C04"], "len/is_empty/is_full", ($x.len(), $x.is_empty(), $x.is_full()), (k, k == 0, k == cap)) }
            _ => {}
        }
    };
}
seq_impl!(chunk, Chunk<E, N>, 'c', N, (), |l, v| {
    let mut x: Chunk<E, N> = Chunk::new();
    for _ in 0..l.0 { x.push_back(E::new(1)) }
    if l.1 > l.0 { for _ in 0..l.0 { if l.0 == N { break } } for q in v { x.push_back(E::new(*q)) } }
    for _ in 0..l.0 { x.pop_front(); }
    x }, {}, [const N: usize], [N]);
seq_impl!(ring, RingBuffer<E, N>, 'r', N, (), |l, v| {
    let mut x: RingBuffer<E, N> = RingBuffer::new();
    for _ in 0..l.0 { x.push_back(E::new(1)); x.pop_front(); }
    for q in v { x.push_back(E::new(*q)) }
    x }, {}, [const N: usize], [N]);
seq_impl!(inline, InlineArray<E, [u64; N]>, 'i', N, (), |_l, v| {
    let mut x: InlineArray<E, [u64; N]> = InlineArray::new();
    for q in v { x.push(E::new(*q)) }
    x }, {}, [const N: usize], [N]);
fn lay_c(n: usize) -> Vec<(usize, usize)> { (0..=n).flat_map(|a| (a..=n).map(move |b| (a, b))).collect() }
fn lay_r(n: usize) -> Vec<(usize, usize)> { (0..n).flat_map(|o| (0..=n).map(move |l| (o, o + l))).collect() }
fn some(c: &mut Ctx, v: Vec<(usize, usize)>, k: usize) -> Vec<(usize, usize)> { (0..k).map(|_| { let i = c.rnd(v.len()); v[i] }).collect() }
pub fn run(c: &mut Ctx) {
    chunk::all::<0>(c, 0, &lay_c(0), true); chunk::all::<1>(c, 1, &lay_c(1), true); chunk::all::<2>(c, 2, &lay_c(2), true);
    chunk::all::<3>(c, 3, &lay_c(3), true); chunk::all::<4>(c, 4, &lay_c(4), true); chunk::all::<5>(c, 5, &lay_c(5), true);
    let l = some(c, lay_c(9), 20); chunk::all::<9>(c, 9, &l, false); let l = some(c, lay_c(64), 12); chunk::all::<64>(c, 64, &l, false);
    ring::all::<1>(c, 1, &lay_r(1), true); ring::all::<2>(c, 2, &lay_r(2), true);
    ring::all::<3>(c, 3, &lay_r(3), true); ring::all::<4>(c, 4, &lay_r(4), true); ring::all::<5>(c, 5, &lay_r(5), true);
    let l = some(c, lay_r(9), 20); ring::all::<9>(c, 9, &l, false); let l = some(c, lay_r(64), 12); ring::all::<64>(c, 64, &l, false);
    let li = |n: usize| (0..=n).map(|k| (0, k)).collect::<Vec<_>>();
    inline::all::<4>(c, 1, &li(1), true); inline::all::<7>(c, 2, &li(2), true); inline::all::<10>(c, 3, &li(3), true);
    inline::all::<13>(c, 4, &li(4), true); inline::all::<18>(c, 5, &li(5), true); inline::all::<49>(c, 16, &[(0, 7), (0, 15), (0, 16), (0, 2)], false);
}
