from contracts import *
from specs_common import *
from specs_chunk import val, elem
import inline
IA = 'inline_array::InlineArray::<A, T>::'
IT = 'inline_array::InlineArray<A, T>'
P4 = dict(prop='C04')
def L(x): return x.eng.inl
def cap(x): return x.eng.inl.CAP
def noroom(x): l = L(x); return disj(le(l.HS, 8), conj(ne(l.CAP, 0), gt(l.AA, l.AC)))
def lay(k, st, v):
    inline.layout_lemma(k, st); inline.elem_align(k, st)

@spec('inline_array::capacity', prop='C11', optional=True)
def _(x):
    hs, hd, es, aa, ac = x.args
    def r(k, st, v):
        k.ob(st, conj(implies(eq(es, 0), eq(v, MAXU-1)), implies(conj(ne(es, 0), disj(gt(aa, ac), le(hs, hd))), eq(v, 0)),
             implies(conj(ne(es, 0), le(aa, ac), lt(hd, hs)), conj(le(zi(v)*es, sub(hs, hd)), lt(sub(hs, hd), zi(v)*es+es)))), k.fp, 'documented capacity')
    return dict(ret=r)
@spec(IA+'CAPACITY', prop='C11')
def _(x):
    def r(k, st, v):
        l = L(x); t = st.copy()
        k.ob(st, implies(eq(l.ES, 0), eq(v, MAXU-1)), k.fp, 'capacity of zero-sized elements is unlimited')
        k.ob(st, implies(conj(ne(l.ES, 0), disj(gt(l.AA, l.AC), le(l.HS, 8))), eq(v, 0)), k.fp, 'capacity is zero when no element can be placed')
        t = st.copy(); t.add(conj(ne(l.ES, 0), le(l.AA, l.AC), lt(8, l.HS)))
        if k.eng.sat(t):
            q = l.HS-8
            k.ob(t, eq(v, l.CAP), k.fp, 'capacity is the number of elements that fit after the length counter')
    return dict(ret=r, after=lay)
@spec(IA+'new', tr(IT, 'std::default::Default', 'default'), prop=('C04', 'C11', 'C16'))
def _(x): return dict(panics=noroom(x), ret=('seq', EMPTY), after=lay)
@spec(IA+'len', **P4)
def _(x): return dict(ret=('int', x.pre().len))
@spec(IA+'is_empty', **P4)
def _(x): return dict(ret=('bool', eq(x.pre().len, 0)))
@spec(IA+'is_full', prop=('C04', 'C11'))
def _(x): return dict(ret=('bool', eq(x.pre().len, cap(x))))
@spec(IA+'push', prop=('C04', 'C11'))
def _(x): s = x.pre(); return dict(panics=eq(s.len, cap(x)), post={0: s.seq.append(x.arg(1))})
def popb(x):
    s = x.pre()
    return next_spec(True)(x)
spec(IA+'pop', **P4)(popb)
@spec(IA+'insert', prop=('C04', 'C11'))
def _(x): s = x.pre(); i = x.arg(1); return dict(panics=disj(eq(s.len, cap(x)), gt(i, s.len)), post={0: s.seq.insert(i, x.arg(2))})
@spec(IA+'remove', **P4)
def _(x):
    s = x.pre(); i = x.arg(1)
    def r(k, st, v): k.value(st, v, ('opt', lt(i, s.len), ('val', k.eng.sat(k.eng.under(st, lt(i, s.len))) and s.seq.at(k.eng, k.eng.under(st, lt(i, s.len)), i))), 'result')
    def post(k, st, c): return s.seq.remove(i) if k.eng.decide(st, lt(i, s.len)) else s.seq
    return dict(ret=r, post={0: post})
@spec(IA+'split_off', **P4)
def _(x): s = x.pre(); return dict(panics=gt(x.arg(1), s.len), post={0: s.seq.take(x.arg(1))}, ret=('seq', s.seq.range(x.arg(1), s.len)))
@spec(IA+'clear', **P4)
def _(x): return dict(post={0: EMPTY})
@spec(*[tr(IT, a, b) for a, b in (('std::ops::Deref', 'deref'), ('std::ops::DerefMut', 'deref_mut'), ('std::borrow::Borrow<[A]>', 'borrow'), ('std::borrow::BorrowMut<[A]>', 'borrow_mut'),
        ('std::convert::AsRef<[A]>', 'as_ref'), ('std::convert::AsMut<[A]>', 'as_mut'))], prop=('C04', 'C11', 'C12'))
def _(x): return dict(ret=('slice', 0))
spec(tr(IT, 'std::ops::Drop', 'drop'), prop='C06')(drop_spec)
spec(tr(IT, 'std::clone::Clone', 'clone'), prop='C14')(clone_spec)
@spec(IA+'drain', prop='C09')
def _(x): return dict(ret=('struct', {'array': ('arg', 0)}))
@spec(tr(IT, 'std::iter::IntoIterator', 'into_iter'), prop='C09')
def _(x): return dict(ret=('struct', {'array': ('seq', x.pre().seq)}))
@spec(tr("&'a "+IT, 'std::iter::IntoIterator', 'into_iter'), tr("&'a mut "+IT, 'std::iter::IntoIterator', 'into_iter'), prop='C09')
def _(x): return dict(ret=('sliceiter', 0))
for ty in ('inline_array::iter::Iter<A, T>', "inline_array::iter::Drain<'a, A, T>"):
    spec(tr(ty, 'std::iter::Iterator', 'next'), prop='C09')(next_spec(False))
    spec(tr(ty, 'std::iter::DoubleEndedIterator', 'next_back'), prop='C09')(next_spec(True))
    spec(tr(ty, 'std::iter::Iterator', 'size_hint'), prop='C09')(size_hint_spec)
    overridable(ty)
spec(tr(IT, 'std::fmt::Debug', 'fmt'), prop='C09')(debug_spec)
spec(tr(IT, 'std::hash::Hash', 'hash'), prop='C12')(hash_spec(True))
spec(tr(IT, 'std::cmp::PartialEq<Slice>', 'eq'), prop='C12')(eq_spec)
spec(tr(IT, 'std::cmp::PartialOrd', 'partial_cmp'), prop='C12')(cmp_spec('partial_cmp'))
spec(tr(IT, 'std::cmp::Ord', 'cmp'), prop='C12')(cmp_spec('cmp'))
spec(tr(IT, 'std::iter::Extend<A>', 'extend'), prop=('C16', 'C04'))(extend_spec(0, 1))
spec(tr(IT, "std::iter::Extend<&'a A>", 'extend'), prop=('C16', 'C04'))(extend_spec(0, 1, copyable))
def from_iter(x):
    d = from_iter_spec()(x); op = d['on_panic']
    def on_panic(k, st, reason):
        if k.eng.proves(st, noroom(x)): return 'safe'
        return op(k, st, reason)
    d['on_panic'] = on_panic; return d
spec(tr(IT, 'std::iter::FromIterator<A>', 'from_iter'), prop=('C16', 'C04'))(from_iter)
CT = 'sized_chunk::Chunk<A, N>'
@spec(tr(CT, 'std::convert::From<%s>' % IT, 'from'), prop='C16')
def _(x): s = x.pre(); return dict(panics=gt(s.len, x.N), ret=('seq', s.seq))
@spec(tr(CT, "std::convert::From<&'a mut %s>" % IT, 'from'), prop='C16')
def _(x): s = x.pre(); return dict(panics=gt(s.len, x.N), ret=('seq', s.seq), post={0: EMPTY})
