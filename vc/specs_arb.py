"""Contracts of the Arbitrary implementations (C17)."""
from contracts import *
from specs_common import *
from views import *
import models_arb as MA, specs_inline
from specs_sparse import MapSeq, Dom
def arb(ty, m): return "arbitrary::<impl arbitrary::Arbitrary<'a> for %s>::%s" % (ty, m)
def fresh_un(C, st, ti, name, x, arg, mut, obj, path, byval):
    u = User('unstructured', name); x.users[arg] = u; return u
FRESH['arbitrary::Unstructured'] = fresh_un; FRESH['arbitrary::unstructured::Unstructured'] = fresh_un
SEQ = ('sized_chunk::Chunk<A, N>', 'ring_buffer::RingBuffer<A, N>', 'inline_array::InlineArray<A, T>')
SPA = 'sparse_chunk::SparseChunk<A, N>'
def gen(x, sparse=False, inl=False):
    gid = x.user(0).gid
    def r(k, st, v):
        eng = k.eng; c = cursor(st, gid)
        ct = eng.T(k.retty())['variants'][0]['fields'][0][1]
        cap = k.eng.C.capacity(st, ct)
        if not isinstance(v, Enum): raise Undecided('result %r' % (v,))
        n = ite(neg(more(gid, sub(c, 1))), sub(c, 1), c)
        n = ite(eq(c, 0), 0, n)
        k.ob(st, le(c, cap), k.fp, 'at most as many elements are requested as fit')
        if v.v == 0:
            k.ob(st, disj(eq(c, cap), none_last(st, gid)), k.fp, 'generation stops at the end of the input or when full')
            i = fint('i'); t = st.copy(); t.add(conj(le(0, i), lt(i, n)))
            fv = lambda e, s, i: items(gid, n).at(e, s, i)
            if sparse:
                some = z3.Function('some_%s' % gid, z3.IntSort(), z3.BoolSort())
                k.returned(st, v.f[0], MapSeq(Dom(lambda i: conj(le(0, i), lt(i, n), some(zi(i)))), lambda e, s, i: items(gid, n).at(e, s, i)), ct, 'result')
            else: k.returned(st, v.f[0], items(gid, n), ct, 'result')
        else:
            k.ob(st, conj(gt(c, 0), more(gid, sub(c, 1)), neg(MA.okf(gid, sub(c, 1)))), k.fp, 'an error is only reported when the input produced one')
            k.ob(st, eq(v.f[0], MA.err(gid, sub(c, 1))), k.fp, 'the error reported is that of the input')
    def on_panic(k, st, reason):
        if inl and k.eng.proves(st, specs_inline.noroom(x)): return 'safe'     # no empty container of this type can be created
        k.ob(st, False, k.fp + ('C08',), 'generation panics (%s)' % why(reason))
        return 'safe'
    return dict(ret=r, on_panic=on_panic)
def hints(x, ct):
    def r(k, st, v):
        eng = k.eng; lo, hi, some = MA.hint(eng)
        cap = eng.C.capacity(st, ct(eng))
        k.ob(st, eq(v.f[0], 0), k.fp, 'the lower bound is zero')
        up = v.f[1]
        if not isinstance(up, Enum): raise Undecided('upper bound %r' % (up,))
        if up.v == 1:
            top = eq(up.f[0], 2**64 - 1)      # no input is that long, so this is always a bound
            k.ob(st, disj(some, top), k.fp, 'an upper bound is given only if the element has one')
            # each element costs one byte deciding to go on and at most hi bytes; `arbitrary` requests at most cap elements
            k.ob(st, disj(ge(up.f[0], mul(cap, add(hi, 1))), top), k.fp, 'the upper bound covers the bytes needed for a full container')
            k.ob(st, conj(le(0, up.f[0]), le(up.f[0], MAXU)), k.fp, 'the upper bound does not overflow')
    def on_panic(k, st, reason):
        k.ob(st, False, k.fp + ('C08',), 'size_hint panics (%s)' % why(reason))
        return 'safe'
    return dict(ret=r, on_panic=on_panic)
for ty in SEQ + (SPA,):
    for m in ('arbitrary', 'arbitrary_take_rest'):
        spec(arb(ty, m), prop='C17')(lambda x, ty=ty: gen(x, ty == SPA, 'inline' in ty))
    spec(arb(ty, 'size_hint'), prop='C17')(lambda x, ty=ty: hints(x, lambda eng: next(i for i, t in enumerate(eng.mir.types) if t['s'] == ty)))
