"""Contracts assumed on the `arbitrary` crate: the source of bytes is a user object whose iterators yield any sequence of
results (Ok(item) / Err) and may end or panic (the element's generator is user code) at any point."""
from models import *
from models import as_user, item_of, fork_user_panic
UN = "arbitrary::Unstructured::<'a>::"
@model(UN+'arbitrary_iter', UN+'arbitrary_take_rest_iter')
def _(eng, st, f, a): return ret(st, Enum(0, (a[0],)))
def okf(gid, i): return z3.Function('ok_%s' % gid, z3.IntSort(), z3.BoolSort())(zi(i))
def err(gid, i): return z3.Function('err_%s' % gid, z3.IntSort(), V)(zi(i))
@model("<arbitrary::unstructured::ArbitraryIter<'a, '_, ElementType> as std::iter::Iterator>::next",
       "<arbitrary::unstructured::ArbitraryTakeRestIter<'a, ElementType> as std::iter::Iterator>::next")
def _(eng, st, f, a):
    u = as_user(eng, st, a[0]); g = ('cursor', u.gid)
    if st.unw: raise Undecided('iterator used while unwinding')
    c = st.ghost.get(g, 0)
    st.add(lt(c, 2**64 - 1))    # assumption: fewer than 2^64 items are requested
    more = z3.Function('more_%s' % u.gid, z3.IntSort(), z3.BoolSort())(zi(c))
    rt = eng.T(eng.T(eng.dest)['variants'][1]['fields'][0][1])      # Result<T, Error>
    v = Enum(0, ())
    if eng.decide(st, more):
        if eng.decide(st, okf(u.gid, c)): v = Enum(1, (Enum(0, (item_of(eng, st, u, c, rt['variants'][0]['fields'][0][1]),)),))
        else: v = Enum(1, (Enum(1, (err(u.gid, c),)),))
    st.ghost[g] = add(c, 1)
    return ret(st, v) + fork_user_panic(eng, st, 'arbitrary')
def hint(eng): 
    lo, hi, some = z3.Int('hint_lo'), z3.Int('hint_hi'), z3.Bool('hint_some')
    for x in (lo, hi, some): eng.names[x.decl().name()] = 1
    return lo, hi, some
@user('arbitrary::Arbitrary::size_hint')
def _(eng, st, f, a):
    "the element's hint does not depend on the depth"
    lo, hi, some = hint(eng)
    st.add(conj(le(0, lo), lt(lo, MAXU), le(0, hi), lt(hi, MAXU)))
    st.event('size_hint', a[0])
    v = Agg((lo, Enum(1, (hi,)) if eng.decide(st, some) else Enum(0, ())))
    return ret(st, v) + fork_user_panic(eng, st, 'size_hint')
