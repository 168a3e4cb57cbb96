from contracts import *
from specs_chunk import tr, val, elem
R = 'ring_buffer::RingBuffer::<A, N>::'
RT = 'ring_buffer::RingBuffer<A, N>'
P2 = dict(prop='C02')

@spec(R+'new', tr(RT, 'std::default::Default', 'default'), prop=('C02', 'C16'))
def _(x): return dict(ret=('seq', EMPTY))
@spec(R+'unit', prop=('C16', 'C02'))
def _(x): return dict(panics=lt(x.N, 1), ret=('seq', EMPTY.append(x.arg(0))))
@spec(R+'pair', prop=('C16', 'C02'))
def _(x): return dict(panics=lt(x.N, 2), ret=('seq', EMPTY.append(x.arg(0)).append(x.arg(1))))
@spec(tr(RT, 'array_ops::HasLength', 'len'), **P2)
def _(x): return dict(ret=('int', x.pre().len))
@spec(R+'CAPACITY', **P2)
def _(x): return dict(ret=('int', x.N))
@spec(R+'is_full', **P2)
def _(x): return dict(ret=('bool', eq(x.pre().len, x.N)))
@spec(tr(RT, 'array_ops::Array', 'get'), tr(RT, 'array_ops::ArrayMut', 'get_mut'), **P2)
def _(x): return dict(ret=('opt', lt(x.arg(1), x.pre().len), ('elem', 0, x.arg(1))))
@spec(R+'get_unchecked', R+'get_unchecked_mut', **P2)
def _(x): return dict(requires=lt(x.arg(1), x.pre().len), ret=('elem', 0, x.arg(1)))
@spec(tr(RT, 'std::ops::Index<usize>', 'index'), tr(RT, 'std::ops::IndexMut<usize>', 'index_mut'), **P2)
def _(x): return dict(panics=ge(x.arg(1), x.pre().len), ret=('elem', 0, x.arg(1)))
@spec(R+'push_back', **P2)
def _(x): s = x.pre(); return dict(panics=eq(s.len, x.N), post={0: s.seq.append(x.arg(1))})
@spec(R+'push_front', **P2)
def _(x): s = x.pre(); return dict(panics=eq(s.len, x.N), post={0: s.seq.prepend(x.arg(1))})
@spec(R+'pop_front', **P2)
def _(x):
    s = x.pre()
    return dict(post={0: lambda k, st, c: s.seq.popfront() if k.eng.decide(st, lt(0, s.len)) else s.seq}, ret=('opt', lt(0, s.len), val(elem(s, 0))))
@spec(R+'pop_back', **P2)
def _(x):
    s = x.pre()
    return dict(post={0: lambda k, st, c: s.seq.popback() if k.eng.decide(st, lt(0, s.len)) else s.seq}, ret=('opt', lt(0, s.len), val(elem(s, sub(s.len, 1)))))
@spec(R+'drop_left', **P2)
def _(x): s = x.pre(); return dict(panics=gt(x.arg(1), s.len), post={0: s.seq.popfront(x.arg(1))})
@spec(R+'drop_right', **P2)
def _(x): s = x.pre(); return dict(panics=gt(x.arg(1), s.len), post={0: s.seq.take(x.arg(1))})
@spec(R+'split_off', **P2)
def _(x): s = x.pre(); return dict(panics=gt(x.arg(1), s.len), post={0: s.seq.take(x.arg(1))}, ret=('seq', s.seq.range(x.arg(1), s.len)))
@spec(R+'append', prop=('C02', 'C16'))
def _(x): s, o = x.pre(0), x.pre(1); return dict(panics=gt(add(s.len, o.len), x.N), post={0: s.seq.concat(o.seq), 1: EMPTY})
@spec(R+'drain_from_front', prop=('C02', 'C16'))
def _(x):
    s, o, n = x.pre(0), x.pre(1), x.arg(2)
    return dict(panics=disj(gt(add(s.len, n), x.N), gt(n, o.len)), post={0: s.seq.concat(o.seq.take(n)), 1: o.seq.popfront(n)})
@spec(R+'drain_from_back', prop=('C02', 'C16'))
def _(x):
    s, o, n = x.pre(0), x.pre(1), x.arg(2)
    return dict(panics=disj(gt(add(s.len, n), x.N), gt(n, o.len)), post={0: o.seq.range(sub(o.len, n), o.len).concat(s.seq), 1: o.seq.take(sub(o.len, n))})
@spec(R+'drain_from', prop=('C16', 'C02'))
def _(x): o = x.pre(); return dict(post={0: EMPTY}, ret=('seq', o.seq))
@spec(R+'from_front', prop=('C16', 'C02'))
def _(x): o = x.pre(); n = x.arg(1); return dict(panics=gt(n, o.len), post={0: o.seq.popfront(n)}, ret=('seq', o.seq.take(n)))
@spec(R+'from_back', prop=('C16', 'C02'))
def _(x): o = x.pre(); n = x.arg(1); return dict(panics=gt(n, o.len), post={0: o.seq.take(sub(o.len, n))}, ret=('seq', o.seq.range(sub(o.len, n), o.len)))
@spec(R+'insert', **P2)
def _(x): s = x.pre(); i = x.arg(1); return dict(panics=disj(eq(s.len, x.N), gt(i, s.len)), post={0: s.seq.insert(i, x.arg(2))})
@spec(R+'remove', **P2)
def _(x): s = x.pre(); i = x.arg(1); return dict(panics=ge(i, s.len), post={0: s.seq.remove(i)}, ret=val(elem(s, i)))
@spec(R+'clear', **P2)
def _(x): return dict(post={0: EMPTY})

# ---------------------------------------------------------------- iterators, bulk construction, clone, drop, comparison, bytes
from specs_common import *
spec(R+'collect_from', prop=('C16', 'C02'))(collect_from_spec())
spec(tr(RT, 'std::iter::FromIterator<A>', 'from_iter'), prop=('C16', 'C02'))(from_iter_spec())
spec(tr(RT, 'std::iter::Extend<A>', 'extend'), prop=('C16', 'C02'))(extend_spec(0, 1))
spec(tr(RT, "std::iter::Extend<&'a A>", 'extend'), prop=('C16', 'C02'))(extend_spec(0, 1, cloned))
spec(R+'insert_from', prop=('C16', 'C02'))(insert_from_spec())
spec(tr(RT, 'std::clone::Clone', 'clone'), prop='C14')(clone_spec)
spec('ring_buffer::refpool::<impl refpool::PoolClone for ring_buffer::RingBuffer<A, N>>::clone_uninit', prop='C14')(clone_uninit_spec)
@spec('ring_buffer::refpool::<impl refpool::PoolDefault for ring_buffer::RingBuffer<A, N>>::default_uninit', prop='C14')
def _(x): return dict(post={0: EMPTY})
spec(tr(RT, 'std::ops::Drop', 'drop'), prop=('C06',))(drop_spec)
for ty in ('ring_buffer::iter::OwnedIter<A, N>', "ring_buffer::iter::Drain<'a, A, N>"):
    spec(tr(ty, 'std::iter::Iterator', 'next'), prop='C09')(next_spec(False))
    spec(tr(ty, 'std::iter::DoubleEndedIterator', 'next_back'), prop='C09')(next_spec(True))
    spec(tr(ty, 'std::iter::Iterator', 'size_hint'), prop='C09')(size_hint_spec)
    overridable(ty)
for ty in ("ring_buffer::iter::Iter<'a, A, N>", "ring_buffer::iter::IterMut<'a, A, N>"):
    spec(tr(ty, 'std::iter::Iterator', 'next'), prop=('C09', 'C10'))(riter_next_spec(False))
    spec(tr(ty, 'std::iter::DoubleEndedIterator', 'next_back'), prop=('C09', 'C10'))(riter_next_spec(True))
    spec(tr(ty, 'std::iter::Iterator', 'size_hint'), prop=('C09', 'C10'))(riter_hint_spec)
    overridable(ty, ('C09', 'C10'), True)
@spec(R+'drain', prop='C09')
def _(x): return dict(ret=('struct', {'buffer': ('arg', 0)}))
@spec(tr(RT, 'std::iter::IntoIterator', 'into_iter'), prop='C09')
def _(x): return dict(ret=('struct', {'buffer': ('seq', x.pre().seq)}))
@spec(tr("&'a "+RT, 'std::iter::IntoIterator', 'into_iter'), tr("&'a mut "+RT, 'std::iter::IntoIterator', 'into_iter'), R+'iter', R+'iter_mut', prop='C09')
def _(x): return dict(ret=('riter', 0, 0, x.pre().len))
spec(tr(RT, 'std::fmt::Debug', 'fmt'), prop='C09')(debug_spec)
spec(tr(RT, 'std::hash::Hash', 'hash'), prop='C12')(hash_spec(False))
RSL, RSM = "ring_buffer::slice::Slice<'a, A, N>", "ring_buffer::slice::SliceMut<'a, A, N>"
for t in ('PartialEq', 'PartialEq<PrimSlice>', 'PartialEq<%s>' % RSL.replace("'a", "'_"), 'PartialEq<%s>' % RSM.replace("'a", "'_")):
    spec(tr(RT, 'std::cmp::'+t, 'eq'), prop='C12')(eq_spec)
spec(tr(RT, 'std::cmp::PartialOrd', 'partial_cmp'), prop='C12')(cmp_spec('partial_cmp'))
spec(tr(RT, 'std::cmp::Ord', 'cmp'), prop='C12')(cmp_spec('cmp'))
spec(R+'insert_ordered', prop='C15')(insert_ordered_spec)
RB = 'ring_buffer::RingBuffer<u8, N>'
spec(tr(RB, 'std::io::Write', 'write'), prop='C13')(write_spec)
spec(tr(RB, 'std::io::Write', 'flush'), prop='C13')(flush_spec)
spec(tr(RB, 'std::io::Read', 'read'), prop='C13')(read_spec)
# ---------------------------------------------------------------- slices
spec(R+'slice', R+'slice_mut', prop='C10')(range_spec)
for ty, pth in ((RSL, "ring_buffer::slice::Slice::<'a, A, N>::"), (RSM, "ring_buffer::slice::SliceMut::<'a, A, N>::")):
    P10 = dict(prop='C10')
    @spec(tr(ty, 'array_ops::HasLength', 'len'), **P10)
    def _(x): return dict(ret=('int', x.slices[0].len))
    @spec(tr(ty, 'array_ops::Array', 'get'), tr(ty, 'array_ops::ArrayMut', 'get_mut'), **dict(P10, optional=ty == RSL))
    def _(x): s = x.slices[0]; return dict(ret=('opt', lt(x.arg(1), s.len), ('elem', 0, add(s.a, x.arg(1)))))
    @spec(pth+'get_unchecked', pth+'get_unchecked_mut', **dict(P10, optional=ty == RSL))
    def _(x): s = x.slices[0]; return dict(requires=lt(x.arg(1), s.len), ret=('elem', 0, add(s.a, x.arg(1))))
    @spec(tr(ty, 'std::ops::Index<usize>', 'index'), tr(ty, 'std::ops::IndexMut<usize>', 'index_mut'), **dict(P10, optional=ty == RSL))
    def _(x): s = x.slices[0]; return dict(panics=ge(x.arg(1), s.len), ret=('elem', 0, add(s.a, x.arg(1))))
    @spec(pth+'iter', pth+'iter_mut', tr("&'a "+ty, 'std::iter::IntoIterator', 'into_iter'), tr("&'a mut "+ty, 'std::iter::IntoIterator', 'into_iter'), prop=('C10', 'C09'), optional=ty == RSL)
    def _(x): s = x.slices[0]; return dict(ret=('riter', 0, s.a, s.b))
    spec(pth+'slice', **P10)(range_spec)
    @spec(pth+'split_at', **P10)
    def _(x):
        s = x.slices[0]; i = x.arg(1)
        def parts(k, st, v):
            T = k.eng.T(k.retty())['of']
            for n, (a, b) in enumerate(((s.a, add(s.a, i)), (add(s.a, i), s.b))): k.value(st, v.f[n], ('rslice', 0, a, b, T[n]), 'result.%d' % n)
        return dict(panics=gt(i, s.len), ret=parts)
    @spec(pth+'to_owned', prop=('C10', 'C14'))
    def _(x): s = x.slices[0].seq(); return dict(ret=('seq', clone_of(s)), after=lambda k, st, v: once_each(k, st, s))
    spec(tr(ty, 'std::fmt::Debug', 'fmt'), prop=('C09', 'C10'))(debug_spec)
    spec(tr(ty, 'std::hash::Hash', 'hash'), prop=('C12', 'C10'))(hash_spec(False))
    for t in ('PartialEq', 'PartialEq<S>', 'PartialEq<%s>' % (RSM if ty == RSL else RSL), 'PartialEq<%s>' % RT):
        spec(tr(ty, 'std::cmp::'+t, 'eq'), prop=('C12', 'C10'))(eq_spec)
    spec(tr(ty, 'std::cmp::PartialOrd', 'partial_cmp'), prop=('C12', 'C10'))(cmp_spec('partial_cmp'))
    spec(tr(ty, 'std::cmp::Ord', 'cmp'), prop=('C12', 'C10'))(cmp_spec('cmp'))
@spec(tr(RSL, 'std::convert::From<&\'a %s>' % RT, 'from'), tr(RSM, 'std::convert::From<&\'a mut %s>' % RT, 'from'), prop='C10')
def _(x): return dict(ret=('rslice', 0, 0, x.pre().len))
@spec(tr(RSL, 'std::clone::Clone', 'clone'), "ring_buffer::slice::SliceMut::<'a, A, N>::unmut", tr(RSM, 'std::convert::Into<%s>' % RSL, 'into'), prop='C10')
def _(x): s = x.slices[0]; return dict(ret=('rslice', 0, s.a, s.b))
