from contracts import *
def tr(ty, t, m): return '<%s as %s>::%s' % (ty, t, m)
def val(x_):
    "descriptor: the returned element is x_(check, state)"
    return lambda k, st, v: k.value(st, v, ('val', x_(k, st)), 'result')
def elem(s, i): return lambda k, st: s.at(k.eng, st, i)
CH = 'sized_chunk::Chunk::<A, N>::'
CT = 'sized_chunk::Chunk<A, N>'
P1 = dict(prop='C01')

@spec(CH+'new', tr(CT, 'std::default::Default', 'default'), prop=('C01', 'C16'))
def _(x): return dict(ret=('seq', EMPTY))
@spec(CH+'unit', prop=('C16', 'C01'))
def _(x): return dict(panics=lt(x.N, 1), ret=('seq', EMPTY.append(x.arg(0))))
@spec(CH+'pair', prop=('C16', 'C01'))
def _(x): return dict(panics=lt(x.N, 2), ret=('seq', EMPTY.append(x.arg(0)).append(x.arg(1))))
@spec(CH+'len', **P1)
def _(x): return dict(ret=('int', x.pre().len))
@spec(CH+'CAPACITY', **P1)
def _(x): return dict(ret=('int', x.N))
@spec(CH+'is_empty', **P1)
def _(x): return dict(ret=('bool', eq(x.pre().len, 0)))
@spec(CH+'is_full', **P1)
def _(x): return dict(ret=('bool', eq(x.pre().len, x.N)))
@spec(CH+'push_back', **P1)
def _(x): s = x.pre(); return dict(panics=eq(s.len, x.N), post={0: s.seq.append(x.arg(1))})
@spec(CH+'push_front', **P1)
def _(x): s = x.pre(); return dict(panics=eq(s.len, x.N), post={0: s.seq.prepend(x.arg(1))})
@spec(CH+'pop_front', **P1)
def _(x): s = x.pre(); return dict(panics=eq(s.len, 0), post={0: s.seq.popfront()}, ret=val(elem(s, 0)))
@spec(CH+'pop_back', **P1)
def _(x): s = x.pre(); return dict(panics=eq(s.len, 0), post={0: s.seq.popback()}, ret=val(elem(s, sub(s.len, 1))))
@spec(CH+'drop_left', **P1)
def _(x): s = x.pre(); return dict(panics=gt(x.arg(1), s.len), post={0: s.seq.popfront(x.arg(1))})
@spec(CH+'drop_right', **P1)
def _(x): s = x.pre(); return dict(panics=gt(x.arg(1), s.len), post={0: s.seq.take(x.arg(1))})
@spec(CH+'split_off', **P1)
def _(x): s = x.pre(); return dict(panics=gt(x.arg(1), s.len), post={0: s.seq.take(x.arg(1))}, ret=('seq', s.seq.range(x.arg(1), s.len)))
@spec(CH+'append', prop=('C01', 'C16'))
def _(x): s, o = x.pre(0), x.pre(1); return dict(panics=gt(add(s.len, o.len), x.N), post={0: s.seq.concat(o.seq), 1: EMPTY})
@spec(CH+'drain_from_front', prop=('C01', 'C16'))
def _(x):
    s, o, n = x.pre(0), x.pre(1), x.arg(2)
    return dict(panics=disj(gt(add(s.len, n), x.N), gt(n, o.len)), post={0: s.seq.concat(o.seq.take(n)), 1: o.seq.popfront(n)})
@spec(CH+'drain_from_back', prop=('C01', 'C16'))
def _(x):
    s, o, n = x.pre(0), x.pre(1), x.arg(2)
    return dict(panics=disj(gt(add(s.len, n), x.N), gt(n, o.len)), post={0: o.seq.range(sub(o.len, n), o.len).concat(s.seq), 1: o.seq.take(sub(o.len, n))})
@spec(CH+'drain_from', prop=('C16', 'C01'))
def _(x): o = x.pre(); return dict(post={0: EMPTY}, ret=('seq', o.seq))
@spec(CH+'from_front', prop=('C16', 'C01'))
def _(x): o = x.pre(); n = x.arg(1); return dict(panics=gt(n, o.len), post={0: o.seq.popfront(n)}, ret=('seq', o.seq.take(n)))
@spec(CH+'from_back', prop=('C16', 'C01'))
def _(x): o = x.pre(); n = x.arg(1); return dict(panics=gt(n, o.len), post={0: o.seq.take(sub(o.len, n))}, ret=('seq', o.seq.range(sub(o.len, n), o.len)))
@spec(CH+'set', **P1)
def _(x): s = x.pre(); i = x.arg(1); return dict(panics=ge(i, s.len), post={0: s.seq.set(i, x.arg(2))}, ret=val(elem(s, i)))
@spec(CH+'insert', **P1)
def _(x): s = x.pre(); i = x.arg(1); return dict(panics=disj(eq(s.len, x.N), gt(i, s.len)), post={0: s.seq.insert(i, x.arg(2))})
@spec(CH+'remove', **P1)
def _(x): s = x.pre(); i = x.arg(1); return dict(panics=ge(i, s.len), post={0: s.seq.remove(i)}, ret=val(elem(s, i)))
@spec(CH+'clear', **P1)
def _(x): return dict(post={0: EMPTY})
@spec(CH+'as_slice', CH+'as_mut_slice', tr(CT, 'std::ops::Deref', 'deref'), tr(CT, 'std::ops::DerefMut', 'deref_mut'), tr(CT, 'std::borrow::Borrow<[A]>', 'borrow'),
      tr(CT, 'std::borrow::BorrowMut<[A]>', 'borrow_mut'), tr(CT, 'std::convert::AsRef<[A]>', 'as_ref'), tr(CT, 'std::convert::AsMut<[A]>', 'as_mut'), prop=('C01', 'C12'))
def _(x): return dict(ret=('slice', 0))

# ---------------------------------------------------------------- iterators, bulk construction, clone, drop
from specs_common import *
spec(CH+'collect_from', prop=('C16', 'C01'))(collect_from_spec())
spec(tr(CT, 'std::iter::FromIterator<A>', 'from_iter'), prop=('C16', 'C01'))(from_iter_spec())
spec(tr(CT, 'std::iter::Extend<A>', 'extend'), prop=('C16', 'C01'))(extend_spec(0, 1))
spec(tr(CT, "std::iter::Extend<&'a A>", 'extend'), prop=('C16', 'C01'))(extend_spec(0, 1, copyable))
spec(CH+'insert_from', prop=('C16', 'C01'))(insert_from_spec())
spec(tr(CT, 'std::clone::Clone', 'clone'), prop='C14')(clone_spec)
spec('sized_chunk::refpool::<impl refpool::PoolClone for sized_chunk::Chunk<A, N>>::clone_uninit', prop='C14')(clone_uninit_spec)
@spec('sized_chunk::refpool::<impl refpool::PoolDefault for sized_chunk::Chunk<A, N>>::default_uninit', prop='C14')
def _(x): return dict(post={0: EMPTY})
spec(tr(CT, 'std::ops::Drop', 'drop'), prop=('C06',))(drop_spec)
for ty in ('sized_chunk::iter::Iter<A, N>', "sized_chunk::iter::Drain<'a, A, N>"):
    spec(tr(ty, 'std::iter::Iterator', 'next'), prop='C09')(next_spec(False))
    spec(tr(ty, 'std::iter::DoubleEndedIterator', 'next_back'), prop='C09')(next_spec(True))
    spec(tr(ty, 'std::iter::Iterator', 'size_hint'), prop='C09')(size_hint_spec)
    overridable(ty)
@spec(CH+'drain', prop='C09')
def _(x): return dict(ret=('struct', {'chunk': ('arg', 0)}))
@spec(tr(CT, 'std::iter::IntoIterator', 'into_iter'), prop='C09')
def _(x): return dict(ret=('struct', {'chunk': ('seq', x.pre().seq)}))
@spec(tr("&'a "+CT, 'std::iter::IntoIterator', 'into_iter'), tr("&'a mut "+CT, 'std::iter::IntoIterator', 'into_iter'), prop='C09')
def _(x): return dict(ret=('sliceiter', 0))
spec(tr(CT, 'std::ops::Index<I>', 'index'), tr(CT, 'std::ops::IndexMut<I>', 'index_mut'), prop=('C01', 'C08'))(index_spec)
spec(tr(CT, 'std::fmt::Debug', 'fmt'), prop='C09')(debug_spec)
spec(tr(CT, 'std::hash::Hash', 'hash'), prop='C12')(hash_spec(True))
spec(tr(CT, 'std::cmp::PartialEq<Slice>', 'eq'), prop='C12')(eq_spec)
spec(tr(CT, 'std::cmp::PartialOrd', 'partial_cmp'), prop='C12')(cmp_spec('partial_cmp'))
spec(tr(CT, 'std::cmp::Ord', 'cmp'), prop='C12')(cmp_spec('cmp'))
spec(CH+'insert_ordered', prop='C15')(insert_ordered_spec)
CB = 'sized_chunk::Chunk<u8, N>'
spec(tr(CB, 'std::io::Write', 'write'), prop='C13')(write_spec)
spec(tr(CB, 'std::io::Write', 'flush'), prop='C13')(flush_spec)
spec(tr(CB, 'std::io::Read', 'read'), prop='C13')(read_spec)
