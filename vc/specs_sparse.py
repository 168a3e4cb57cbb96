from contracts import *
from specs_common import *
from specs_chunk import val
import bits
S = 'sparse_chunk::SparseChunk::<A, N>::'
ST = 'sparse_chunk::SparseChunk<A, N>'
P3 = dict(prop='C03')
def dom(x, i=0): return x.pre(i).seq.dom
def at(s, i): return val_at(s, i)
def val_at(s, i):
    return lambda k, st, v: k.value(st, v, ('val', s.seq.at(k.eng, st, i)), 'value at the index')
def first(x): d = dom(x); return d.nth(x.eng, 0)

@spec(S+'new', tr(ST, 'std::default::Default', 'default'), prop=('C03', 'C16'))
def _(x): return dict(ret=('seq', NOMAP))
@spec(S+'unit', prop=('C16', 'C03'))
def _(x): return dict(panics=ge(x.arg(0), x.N), ret=('seq', NOMAP.set(x.arg(0), x.arg(1))))
@spec(S+'pair', prop=('C16', 'C03'))
def _(x): return dict(panics=disj(ge(x.arg(0), x.N), ge(x.arg(2), x.N)), ret=('seq', NOMAP.set(x.arg(0), x.arg(1)).set(x.arg(2), x.arg(3))))
@spec(S+'len', **P3)
def _(x): return dict(ret=('int', dom(x).card))
@spec(S+'CAPACITY', **P3)
def _(x): return dict(ret=('int', x.N))
@spec(S+'is_empty', **P3)
def _(x): return dict(ret=('bool', eq(dom(x).card, 0)))
@spec(S+'is_full', **P3)
def _(x): return dict(ret=('bool', eq(dom(x).card, x.N)))
@spec(S+'insert', **P3)
def _(x): s = x.pre(); i = x.arg(1); return dict(panics=ge(i, x.N), post={0: s.seq.set(i, x.arg(2))}, ret=('opt', s.seq.mem(i), val_at(s, i)))
@spec(S+'remove', **P3)
def _(x): s = x.pre(); i = x.arg(1); return dict(panics=ge(i, x.N), post={0: s.seq.remove(i)}, ret=('opt', s.seq.mem(i), val_at(s, i)))
@spec(S+'pop', tr('sparse_chunk::iter::Drain<A, N>', 'std::iter::Iterator', 'next'), prop=('C03', 'C09'))
def _(x):
    s = x.pre(); m = first(x)
    def post(k, st, c): return s.seq.remove(m) if k.eng.decide(st, lt(0, dom(x).card)) else s.seq
    return dict(post={0: post}, ret=('opt', lt(0, dom(x).card), val_at(s, m)))
@spec(tr('sparse_chunk::iter::Drain<A, N>', 'std::iter::Iterator', 'size_hint'), prop='C09')
def _(x): return bounds(x, dom(x).card)
@spec(S+'get', S+'get_mut', **P3)
def _(x): i = x.arg(1); return dict(ret=('opt', conj(lt(i, x.N), dom(x).mem(i)), ('elem', 0, i)))
@spec(S+'get_unchecked', S+'get_unchecked_mut', **P3)
def _(x): i = x.arg(1); return dict(requires=conj(lt(i, x.N), dom(x).mem(i)), ret=('elem', 0, i))
@spec(tr(ST, 'std::ops::Index<usize>', 'index'), tr(ST, 'std::ops::IndexMut<usize>', 'index_mut'), **P3)
def _(x): i = x.arg(1); return dict(panics=neg(conj(lt(i, x.N), dom(x).mem(i))), ret=('elem', 0, i))
@spec(S+'first_index', **P3)
def _(x): return dict(ret=('opt', lt(0, dom(x).card), ('int', first(x))))
@spec(tr(ST, 'std::ops::Drop', 'drop'), prop='C06')
def _(x): return dict(dropped=(0,))

# ---------------------------------------------------------------- iterators
def samedom(k, st, a, b, msg):
    "the sets a and b have the same members"
    s = st.copy(); i = fint('idx'); s.add(conj(le(0, i), lt(i, k.x.N)))
    k.ob(s, zb(a.mem(i)) == zb(b.mem(i)), k.fp, msg)
def bititer(pos, d=None):
    "a bitmap iterator at position pos of the domain of argument 0"
    def g(k, st, v):
        if not isinstance(v, BitIter): raise Undecided('bitmap iterator %r' % (v,))
        dd = d or dom(k.x)
        samedom(k, st, v.s, dd, 'indices iterated over')
        k.ob(st, conj(eq(v.a, pos), eq(v.b, v.s.card)), k.fp, 'position of the bitmap iterator')
    return g
def bitset(d):
    def g(k, st, v):
        if not isinstance(v, Bitset): raise Undecided('bitmap %r' % (v,))
        samedom(k, st, v, d, 'indices iterated over')
    return g
@spec(S+'indices', prop='C09')
def _(x): return dict(ret=bititer(0))
@spec(S+'iter', prop='C09')
def _(x): return dict(ret=('struct', {'indices': bititer(0), 'chunk': ('arg', 0)}))
@spec(S+'iter_mut', prop='C09')
def _(x): return dict(ret=('struct', {'bitmap': bitset(dom(x)), 'chunk': ('arg', 0)}))
@spec(S+'drain', tr(ST, 'std::iter::IntoIterator', 'into_iter'), prop='C09')
def _(x): return dict(ret=('struct', {'chunk': ('seq', x.pre().seq)}))
@spec(S+'entries', prop='C09')
def _(x): return dict(ret=lambda k, st, v: all_entries(k, st, v, k.retty(), 'result'))
def all_entries(k, st, v, ti, msg):
    "v iterates over all (index, element) pairs of argument 0"
    t = k.eng.T(ti)
    if not isinstance(v, Agg) or not t['s'].startswith('std::iter::Zip<'): raise Undecided('entries %r' % (v,))
    k.value(st, v, ('struct', {'a': bititer(0), 'b': ('struct', {'indices': bititer(0), 'chunk': ('arg', 0)}, t['args'][1])}, ti), msg)
@spec(tr(ST, 'std::fmt::Debug', 'fmt'), prop='C09')
def _(x):
    def r(k, st, v):
        ev = [e for e in flat(st) if e[0][:3] == 'fmt']
        if any(e[0] == 'fmterr' for e in ev): return
        if [e[0] for e in ev] != ['fmtentries'] or any(e[0] == 'loop' for e in flat(st)): raise Undecided('format events %r' % ([e[0] for e in ev],))
        all_entries(k, st, ev[0][1], ev[0][2], 'entries formatted')
    return dict(ret=r)
@spec(S+'option_iter', S+'option_iter_mut', prop='C09')
def _(x): return dict(ret=('struct', {'chunk': ('arg', 0), 'index': ('int', 0)}))
@spec(S+'option_drain', prop='C09')
def _(x): return dict(ret=('struct', {'chunk': ('seq', x.pre().seq), 'index': ('int', 0)}))

class SIter:
    "Iter: positions from a on of the domain of its chunk; IterMut: the indices in set"
    def __init__(self, **kw): self.__dict__.update(kw)
def self_field(k, st, x, name):
    p = x.arg(0); ti = k.eng.T(x.body['locals'][1])['to']
    v = k.eng.get(st, p.obj, p.path)
    i, _ = fidx(k.eng, ti, name); return v.f[i]
def pre_field(x, name):
    p = x.arg(0); ti = x.eng.T(x.body['locals'][1])['to']
    return x.eng.get(x.st0, p.obj, p.path).f[fidx(x.eng, ti, name)[0]]
def points(i):
    def g(k, st, v):
        c = k.x.byarg[0][0]; k.points(st, v, view(k.eng, st, c.obj, c.path, c.ti), i, 'the element yielded')
    return g
@spec(tr("sparse_chunk::iter::Iter<'a, A, N>", 'std::iter::Iterator', 'next'), prop='C09')
def _(x):
    def r(k, st, v):
        it = pre_field(x, 'indices'); d = dom(x)
        k.value(st, v, ('opt', lt(it.a, d.card), points(d.nth(k.eng, it.a))), 'result')
    def after(k, st, v):
        it = pre_field(x, 'indices')
        bititer(ite(lt(it.a, it.b), add(it.a, 1), it.a))(k, st, self_field(k, st, x, 'indices'))
    return dict(ret=r, after=after)
@spec(tr("sparse_chunk::iter::IterMut<'a, A, N>", 'std::iter::Iterator', 'next'), prop='C09')
def _(x):
    def r(k, st, v):
        b = pre_field(x, 'bitmap')
        k.value(st, v, ('opt', lt(0, b.card), points(b.nth(k.eng, 0))), 'result')
    def after(k, st, v):
        b = pre_field(x, 'bitmap'); m = b.nth(k.eng, 0)
        bitset(Dom(lambda i: conj(b.mem(i), ne(i, m)) if k.eng.decide(st, lt(0, b.card)) else b.mem(i)))(k, st, self_field(k, st, x, 'bitmap'))
    return dict(ret=r, after=after)
def bounds(x, n):
    "a valid size hint for n elements to come"
    def r(k, st, v):
        lo, hi = v.f
        k.ob(st, le(lo, n), k.fp, 'lower size bound')
        if not isinstance(hi, Enum): raise Undecided('size hint %r' % (hi,))
        if hi.v == 1: k.ob(st, ge(hi.f[0], n), k.fp, 'upper size bound')
    return dict(ret=r)
@spec(tr("sparse_chunk::iter::Iter<'a, A, N>", 'std::iter::Iterator', 'size_hint'), prop='C09')
def _(x):
    it = pre_field(x, 'indices'); return bounds(x, sub(it.b, it.a))
@spec(tr("sparse_chunk::iter::IterMut<'a, A, N>", 'std::iter::Iterator', 'size_hint'), prop='C09')
def _(x): return bounds(x, pre_field(x, 'bitmap').card)
OPT = ["sparse_chunk::iter::OptionIter<'a, A, N>", "sparse_chunk::iter::OptionIterMut<'a, A, N>", "sparse_chunk::iter::OptionDrain<A, N>"]
def option_next(drain):
    def g(x):
        i = pre_field(x, 'index'); s = x.pre()
        def el(k, st, v): k.value(st, v, ('opt', s.seq.mem(i), val_at(s, i) if drain else points(i)), 'entry')
        def after(k, st, v):
            k.ob(st, eq(self_field(k, st, x, 'index'), ite(lt(i, x.N), add(i, 1), i)), k.fp, 'position after the step')
        d = dict(ret=('opt', lt(i, x.N), el), after=after)
        if drain: d['post'] = {0: lambda k, st, c: s.seq.remove(i) if k.eng.decide(st, lt(i, x.N)) else s.seq}
        return d
    return g
for n, t in enumerate(OPT):
    spec(tr(t, 'std::iter::Iterator', 'next'), prop='C09')(option_next(n == 2))
    @spec(tr(t, 'std::iter::Iterator', 'size_hint'), prop='C09')
    def _(x):
        return bounds(x, sub(x.N, pre_field(x, 'index')))

# overridable methods
def of_value(x, name):
    "field of an iterator passed by value, before the call"
    ti = x.body['locals'][1]
    return x.arg(0).f[fidx(x.eng, ti, name)[0]]
OPTK = dict(prop='C09', optional=True)
def bit_nth(x):
    it = pre_field(x, 'indices'); d = dom(x); p = add(it.a, x.arg(1))
    return dict(ret=lambda k, st, v: k.value(st, v, ('opt', lt(p, d.card), points(d.nth(k.eng, p))), 'result'),
                after=lambda k, st, v: bititer(ite(lt(p, it.b), add(p, 1), it.b))(k, st, self_field(k, st, x, 'indices')))
spec(tr("sparse_chunk::iter::Iter<'a, A, N>", 'std::iter::Iterator', 'nth'), **OPTK)(bit_nth)
spec(tr("sparse_chunk::iter::Iter<'a, A, N>", 'std::iter::Iterator', 'count'), **OPTK)(lambda x: dict(ret=('int', sub(of_value(x, 'indices').b, of_value(x, 'indices').a))))
spec(tr("sparse_chunk::iter::IterMut<'a, A, N>", 'std::iter::Iterator', 'count'), **OPTK)(lambda x: dict(ret=('int', of_value(x, 'bitmap').card)))
spec(tr('sparse_chunk::iter::Drain<A, N>', 'std::iter::Iterator', 'count'), tr('sparse_chunk::iter::Drain<A, N>', 'std::iter::ExactSizeIterator', 'len'), **OPTK)(lambda x: dict(ret=('int', dom(x).card)))
def option_nth(x):
    i = pre_field(x, 'index'); s = x.pre(); p = add(i, x.arg(1))
    return dict(ret=('opt', lt(p, x.N), lambda k, st, v: k.value(st, v, ('opt', s.seq.mem(p), points(p)), 'entry')),
                after=lambda k, st, v: k.ob(st, eq(self_field(k, st, x, 'index'), ite(lt(p, x.N), add(p, 1), x.N)), k.fp, 'position after the step'))
for n, t in enumerate(OPT):
    if n < 2: spec(tr(t, 'std::iter::Iterator', 'nth'), **OPTK)(option_nth)
    spec(tr(t, 'std::iter::Iterator', 'count'), **OPTK)(lambda x: dict(ret=('int', sub(x.N, of_value(x, 'index')))))
    spec(tr(t, 'std::iter::ExactSizeIterator', 'len'), **OPTK)(lambda x: dict(ret=('int', sub(x.N, pre_field(x, 'index')))))

# ---------------------------------------------------------------- construction, clone
@spec(tr(ST, 'std::iter::FromIterator<std::option::Option<A>>', 'from_iter'), prop=('C16', 'C03'))
def _(x):
    gid = x.user(0).gid
    some = z3.Function('some_%s' % gid, z3.IntSort(), z3.BoolSort()); item = z3.Function('item_%s' % gid, z3.IntSort(), V)
    def r(k, st, v):
        c = cursor(st, gid)
        k.ob(st, none_last(st, gid), k.fp, 'the iterator is consumed up to its end')
        n = sub(c, 1)
        k.ob(st, disj(none_last(st, gid), lt(c, x.N)), ('C08',), 'returns although the iterator may hold entries which do not fit')
        k.returned(st, v, MapSeq(Dom(lambda i: conj(le(0, i), lt(i, n), some(zi(i)))), lambda e, s, i: item(zi(i))), k.retty(), 'result')
    def on_panic(k, st, reason):
        c = cursor(st, gid); j = sub(c, 1)
        k.ob(st, conj(ge(j, x.N), more(gid, j), some(zi(j))), ('C08',), 'panics (%s) although the items fit' % why(reason))
        return 'safe'
    return dict(ret=r, on_panic=on_panic)
def clone_map(s): return MapSeq(s.dom, lambda e, st, i: e.cloneF(s.at(e, st, i)))
def once_each_map(k, st, s):
    eng = k.eng; ev = clone_events(k, st); d = s.dom
    if not k.ob(st, eq(ev.len, d.card), k.fp, 'every element is cloned exactly once: number of clones'): return
    t = st.copy(); i = eng.skolem(t, 0, d.card)
    if not eng.sat(t): return
    p = ev.at(eng, t, i)
    for q in (d.nth(eng, i), d.nth(eng, sub(sub(d.card, 1), i))):
        w = s.at(eng, t, q)
        if eng.proves(t, eq(p, w)): k.ob(t, eq(p, w), k.fp, 'every element is cloned exactly once: the element cloned'); return
    raise Undecided('order of clone calls')
@spec(tr(ST, 'std::clone::Clone', 'clone'), prop='C14')
def _(x):
    s = x.pre(0).seq
    return dict(ret=('seq', clone_map(s)), after=lambda k, st, v: once_each_map(k, st, s))
PI = 'sparse_chunk::refpool::<impl refpool::%s for sparse_chunk::SparseChunk<A, N>>::%s'
@spec(PI % ('PoolDefault', 'default_uninit'), prop='C14')
def _(x): return dict(post={0: NOMAP})
@spec(PI % ('PoolClone', 'clone_uninit'), prop='C14')
def _(x):
    s = x.pre(0).seq
    return dict(post={1: clone_map(s)}, after=lambda k, st, v: once_each_map(k, st, s))

# ---------------------------------------------------------------- equality
def map_eq(x):
    "a == b exactly when they hold equal elements at the same indices"
    def r(k, st, v):
        eng = k.eng; f = MS.eqF(eng); A = x.pre(0).seq
        ext = x.ghost.get(('map', 1))
        B = MapSeq(ext.dom, lambda e, s, i: ext.f(zi(i))) if ext else x.pre(1).seq
        if eng.decide(st, v):
            # sets with the same members have the same size; finite sets of the same size, one included in the other, are the same
            s = st.copy(); i = eng.skolem(s, 0, MAXU); facts(k, s, i)
            if not eng.proves(s, zb(A.mem(i)) == zb(B.mem(i))):
                k.ob(st, eq(A.dom.card, B.dom.card), k.fp, 'containers reported equal have equally many entries')
            s1 = s.copy(); s1.add(B.mem(i))
            if not eng.sat(s1): pass
            elif eng.proves(s1, A.mem(i)): s = s1
            s1 = s.copy(); s1.add(A.mem(i))
            if eng.sat(s1):
                k.ob(s1, B.mem(i), k.fp, 'every index of the first is inhabited in the second')
                s1.add(B.mem(i))
                p, q = A.at(eng, s1, i), B.at(eng, s1, i)
                s1.add(f(p, q) == f(q, p))
                k.ob(s1, f(p, q), k.fp, 'containers reported equal have equal elements')
        else:
            ws = []
            for e in events(st):
                w = []
                if e[0] == 'mapwitness': w = [e[1]]
                if e[0] in ('loop', 'loopfact'): w = [zi(e[1])]+[u[0](zi(e[1])) for u in eng.enums.values()]
                for j in w:
                    facts(k, st, j)
                    c = conj(le(0, j), lt(j, x.N), A.mem(j), B.mem(j)); t = eng.under(st, c)
                    ws.append(conj(le(0, j), zb(A.mem(j)) != zb(B.mem(j))))
                    if not eng.sat(t): continue
                    p, q = A.at(eng, t, j), B.at(eng, t, j)
                    ws.append(conj(c, neg(conj(f(p, q), f(q, p))))); st.add(f(p, q) == f(q, p))
            k.ob(st, disj(ne(A.dom.card, B.dom.card), *ws), k.fp, 'containers reported different differ in an index or an element')
    return dict(ret=r)
def facts(k, s, i):
    for e in events(s):
        if e[0] == 'samemap': s.add(zb(e[1].mem(i)) == zb(e[2].mem(i)))
        elif e[0] == 'loopfact':
            for j in [zi(i)]+[u[1](zi(i)) for u in k.eng.enums.values()]: s.add(implies(conj(le(0, j), lt(j, e[1])), e[2](j)))
spec(tr(ST, 'std::cmp::PartialEq', 'eq'), tr(ST, 'std::cmp::PartialEq<std::collections::BTreeMap<usize, A>>', 'eq'),
     tr(ST, 'std::cmp::PartialEq<std::collections::HashMap<usize, A>>', 'eq'), prop='C12')(map_eq)
