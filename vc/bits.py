"""Finite sets of indices: the value of a bitmaps::Bitmap<N>, its enumeration in increasing order, and iterators over it.

A set S is a membership predicate with a cardinality.  Its enumeration is a pair of functions nth (position -> index) and rank
(index -> position) axiomatised by ground instances, generated for every nth and rank term that occurs in a query:
  0 <= k < card   =>  0 <= nth(k) < N, nth(k) in S, rank(nth(k)) = k
  i in S          =>  0 <= rank(i) < card, nth(rank(i)) = i
  0 <= k < l < card  =>  nth(k) < nth(l)
(the increasing enumeration of a finite set exists and is unique, so these only define names)."""
import z3
from terms import *
from values import *
import models as M

class Bitset:
    """mem: index -> membership term; card: cardinality; (prev, op): derived from prev by op = ('set', index, value, condition);
    win: (base, a, b) when the set is known to be positions [a, b) of the enumeration of base"""
    __slots__ = ('mem', 'card', 'prev', 'op', 'size', 'enum', 'sorted', 'win')
    def __init__(self, mem, card, size, prev=None, op=None, sorted=True, win=None): self.mem = mem; self.card = card; self.size = size; self.prev = prev; self.op = op; self.enum = None; self.sorted = sorted; self.win = win
    def enumeration(self, eng):
        if self.enum is None:
            f = z3.Function(fresh_name('nth'), z3.IntSort(), z3.IntSort()); r = z3.Function(fresh_name('rank'), z3.IntSort(), z3.IntSort())
            self.enum = (f, r, self.mem, self.card)
            eng.enums[f.name()] = self.enum; eng.enumfs[f.name()] = (self, 'nth'); eng.enumfs[r.name()] = (self, 'rank')
        return self.enum
    def nth(self, eng, k):
        if self.win and self.enum is None: return self.win[0].nth(eng, add(self.win[1], k))
        return self.enumeration(eng)[0](zi(k))
    def rank(self, eng, i):
        if self.win and self.enum is None: return sub(self.win[0].rank(eng, i), self.win[1])
        return self.enumeration(eng)[1](zi(i))
    def without(self, eng, st, i):
        "the window left when the first or last element of the enumeration is taken out"
        base, a, b = self.win or (self, 0, self.card)
        if base.enum is None or not (isz(i) and is_app_of(i, base.enum[0])): return None
        if eng.proves(st, eq(i.arg(0), a)): return base, add(a, 1), b
        if eng.proves(st, eq(i.arg(0), sub(b, 1))): return base, a, sub(b, 1)
    def set(self, eng, st, i, val):
        p = self
        if not isinstance(val, bool): raise Undecided('symbolic bit')
        m = eng.tri(st, p.mem(i))
        if m is val: return p
        card = add(p.card, 1 if val else -1) if m is (not val) else ite(m, p.card if val else sub(p.card, 1), add(p.card, 1) if val else p.card)
        def mem(j):
            c = eq(j, i)
            return val if c is True else p.mem(j) if c is False else (disj(c, p.mem(j)) if val else conj(neg(c), p.mem(j)))
        return Bitset(mem, card, p.size, p, ('set', i, val, True), win=p.without(eng, st, i) if m is True and val is False else None)
    def guarded(self, c, p):
        "this set where c holds, the set p it was derived from elsewhere"
        q = self
        o = ('set', q.op[1], q.op[2], conj(c, q.op[3]))
        return Bitset(lambda j: ite(c, q.mem(j), p.mem(j)), ite(c, q.card, p.card), p.size, p, o)
class BitIter:
    "bitmaps::Iter: positions [a, b) of the enumeration of set s"
    __slots__ = ('s', 'a', 'b')
    def __init__(self, s, a, b): self.s = s; self.a = a; self.b = b
def empty(eng, N):
    eng.usesbits = True
    return Bitset(lambda i: False, 0, N)
def fresh(eng, st, name, N, within=None):
    "an arbitrary subset of [0, N) (or of the set `within`)"
    eng.usesbits = True
    f = z3.Function('mem_'+name, z3.IntSort(), z3.BoolSort()); c = z3.Int('card_'+name); eng.names['card_'+name] = 1
    st.add(conj(le(0, c), le(c, N)))
    if within is not None: st.add(le(c, within.card))
    def mem(i):
        r = conj(le(0, i), lt(i, N), f(zi(i)))
        return conj(r, within.mem(i)) if within is not None else r
    return Bitset(mem, c, N)

# ---------------------------------------------------------------- ground instances
def terms_of(eng, c):
    "nth and rank terms of registered sets occurring in c, with the instances of their axioms, transitively"
    k = (kid(c), len(eng.samesets))
    r = eng.enumcache.get(k)
    if r is not None: return r
    out = []; inst = []; seen = set(); work = [c]
    while work:
        e = work.pop(); i = e.get_id()
        if i in seen: continue
        seen.add(i); kid(e)
        if z3.is_app(e):
            if e.num_args() == 1:
                w = eng.enumfs.get(e.decl().name())
                if w is not None:
                    g = axiom(eng, w[0], w[1], e)
                    if g is not None: inst.append(g); work.append(g)
                    if w[1] == 'nth': out.append((w[0], e))
            work += e.children()
    eng.enumcache[k] = (out, inst, c)
    return eng.enumcache[k]
def is_app_of(e, f): return z3.is_app(e) and e.decl().name() == f.name()
def axiom(eng, s, kind, e):
    f, r, mem, card = s.enum; x = e.arg(0)
    if kind == 'nth':
        if is_app_of(x, r): return None
        g = implies(conj(le(0, x), lt(x, card)), conj(le(0, e), lt(e, s.size), mem(e), eq(r(e), x)))
    else:
        if is_app_of(x, f): return None
        g = implies(conj(mem(x), le(0, x), lt(x, s.size)), conj(le(0, e), lt(e, card), eq(f(e), x)))
    gs = []
    for b, u, t in eng.samesets:     # equal sets have the same members and the same enumeration
        if s is not u and s is not t: continue
        y = e if kind == 'nth' else x; o = t if s is u else u
        gs.append(z3.Implies(b, z3.And(zb(u.mem(y)) == zb(t.mem(y)), (o.nth(eng, x) if kind == 'nth' else o.rank(eng, x)) == e)))
    return z3.And(zb(g), *gs)
def order(s, a, b):
    x, y = a.arg(0), b.arg(0)
    if not s.sorted: return zb(implies(eq(a, b), implies(conj(le(0, x), lt(x, s.card), le(0, y), lt(y, s.card)), eq(x, y))))
    return zb(implies(conj(le(0, x), lt(x, s.card), le(0, y), lt(y, s.card)), conj(zb(lt(x, y)) == zb(lt(a, b)))))
def instances(eng, c, earlier):
    "formulas to assert together with c; earlier: nth terms of enclosing scopes. Returns (formulas, new nth terms)"
    ts, inst, _ = terms_of(eng, c)
    new = []; fs = list(inst)
    for s, e in ts:
        if any(u is s and e.eq(t) for u, t in earlier) or any(u is s and e.eq(t) for u, t in new): continue
        for u, t in list(earlier)+new:
            if u is s: fs.append(order(s, e, t))
        new.append((s, e))
    return fs, new

# ---------------------------------------------------------------- bitmaps::Bitmap
def bs(eng, st, v):
    while isinstance(v, Ptr): v = eng.get(st, v.obj, v.path)
    if not isinstance(v, Bitset): raise Undecided('bitmap %r' % (v,))
    return v
B = 'bitmaps::Bitmap::<SIZE>::'
BT = 'bitmaps::Bitmap<SIZE>'
@M.model(B+'new', '<%s as std::default::Default>::default' % BT)
def _(eng, st, f, a):
    t = f['targs'][0]
    n = eng.cparam(t) if isinstance(t, dict) else eng.cparam(eng.T(t)['args'][0])
    return M.ret(st, empty(eng, n))
@M.model('<%s as std::clone::Clone>::clone' % BT)
def _(eng, st, f, a): return M.ret(st, bs(eng, st, a[0]))
@M.model(B+'len')
def _(eng, st, f, a): return M.ret(st, bs(eng, st, a[0]).card)
@M.model(B+'is_empty')
def _(eng, st, f, a): return M.ret(st, eq(bs(eng, st, a[0]).card, 0))
@M.model(B+'is_full')
def _(eng, st, f, a): s = bs(eng, st, a[0]); return M.ret(st, eq(s.card, s.size))
def inrange(eng, st, s, i): eng.oblige(st, conj(le(0, i), lt(i, s.size)), 'mem', 'bitmap index is below its size')
@M.model(B+'get')
def _(eng, st, f, a):
    s = bs(eng, st, a[0]); inrange(eng, st, s, a[1])
    return M.ret(st, s.mem(a[1]))
@M.model(B+'set')
def _(eng, st, f, a):
    p = a[0]; s = bs(eng, st, p); inrange(eng, st, s, a[1])
    v = a[2] if isinstance(a[2], bool) else eng.decide(st, a[2])
    if v is False and not eng.decide(st, s.mem(a[1])): return M.ret(st, False)   # nothing changes
    eng.put(st, p.obj, p.path, s.set(eng, st, a[1], v))
    return M.ret(st, s.mem(a[1]))
@M.model(B+'first_index')
def _(eng, st, f, a):
    s = bs(eng, st, a[0])
    return M.ret(st, Enum(1, (s.nth(eng, 0),)) if eng.decide(st, lt(0, s.card)) else Enum(0, ()))
@M.model(B+'last_index')
def _(eng, st, f, a):
    s = bs(eng, st, a[0])
    return M.ret(st, Enum(1, (s.nth(eng, sub(s.card, 1)),)) if eng.decide(st, lt(0, s.card)) else Enum(0, ()))
@M.model(B+'next_index')
def _(eng, st, f, a):
    s = bs(eng, st, a[0]); i = a[1]
    if not eng.proves(st, s.mem(i)): raise Undecided('next_index from an absent index')
    k = add(s.rank(eng, i), 1)
    return M.ret(st, Enum(1, (s.nth(eng, k),)) if eng.decide(st, lt(k, s.card)) else Enum(0, ()))
@M.model('<%s as std::cmp::PartialEq>::eq' % BT)
def _(eng, st, f, a): return bitmap_eq(eng, st, a, False)
def bitmap_eq(eng, st, a, ne_):
    s, t = bs(eng, st, a[0]), bs(eng, st, a[1])
    if s is t: return M.ret(st, not ne_)
    b = z3.Bool(fresh_name('sameset')); w = fint('w')
    eng.samesets.append((b, s, t))
    st2 = st.copy(); st2.add(b); st2.add(eq(s.card, t.card)); st2.event('samemap', s, t)
    outs = M.ret(st2, not ne_) if eng.sat(st2) else []
    st.add(neg(b)); st.add(conj(le(0, w), lt(w, s.size), zb(s.mem(w)) != zb(t.mem(w)))); st.event('mapwitness', w)
    return outs + (M.ret(st, ne_) if eng.sat(st) else [])
@M.model("<&'a %s as std::iter::IntoIterator>::into_iter" % BT)
def _(eng, st, f, a):
    s = bs(eng, st, a[0]); return M.ret(st, BitIter(s, 0, s.card))
def it(eng, st, p):
    v = eng.get(st, p.obj, p.path)
    if not isinstance(v, BitIter): raise Undecided('bitmap iterator %r' % (v,))
    return v
@M.model("<bitmaps::Iter<'a, SIZE> as std::iter::Iterator>::next")
def _(eng, st, f, a):
    p = a[0]; v = it(eng, st, p)
    if eng.decide(st, lt(v.a, v.b)):
        eng.put(st, p.obj, p.path, BitIter(v.s, add(v.a, 1), v.b))
        return M.ret(st, Enum(1, (v.s.nth(eng, v.a),)))
    return M.ret(st, Enum(0, ()))
@M.model("<bitmaps::Iter<'a, SIZE> as std::iter::Iterator>::size_hint")
def _(eng, st, f, a):
    lo, hi = fint('lo'), fint('hi'); st.add(conj(le(0, lo), le(lo, MAXU-1), le(0, hi), le(hi, MAXU-1)))
    return M.ret(st, Agg((lo, Enum(1, (hi,))))) + M.ret(st.copy(), Agg((lo, Enum(0, ()))))

# ---------------------------------------------------------------- maps of the standard library
class ExtMap:
    "a BTreeMap or HashMap from usize: keys (a set of any usize), values"
    __slots__ = ('dom', 'f')
    def __init__(self, dom, f): self.dom = dom; self.f = f
MAPS = ('std::collections::BTreeMap', 'std::collections::HashMap')
def fresh_map(eng, st, name):
    f = z3.Function('keys_'+name, z3.IntSort(), z3.BoolSort()); g = z3.Function('e_'+name, z3.IntSort(), V)
    c = z3.Int('len_'+name); eng.names['len_'+name] = 1
    st.add(conj(le(0, c), le(c, MAXU-1)))
    return ExtMap(Bitset(lambda i: conj(le(0, i), f(zi(i))), c, MAXU), g)
def mp(eng, st, v):
    while isinstance(v, Ptr): v = eng.get(st, v.obj, v.path)
    if not isinstance(v, ExtMap): raise Undecided('map %r' % (v,))
    return v
@M.model('std::collections::BTreeMap::<K, V, A>::len', 'std::collections::HashMap::<K, V, S, A>::len')
def _(eng, st, f, a): return M.ret(st, mp(eng, st, a[0]).dom.card)
@M.model('std::collections::BTreeMap::<K, V, A>::is_empty', 'std::collections::HashMap::<K, V, S, A>::is_empty')
def _(eng, st, f, a): return M.ret(st, eq(mp(eng, st, a[0]).dom.card, 0))
@M.model('std::collections::BTreeMap::<K, V, A>::contains_key', 'std::collections::HashMap::<K, V, S, A>::contains_key')
def _(eng, st, f, a): return M.ret(st, mp(eng, st, a[0]).dom.mem(eng.get(st, a[1].obj, a[1].path)))
@M.model('std::collections::BTreeMap::<K, V, A>::get', 'std::collections::HashMap::<K, V, S, A>::get')
def _(eng, st, f, a):
    m = mp(eng, st, a[0]); k = eng.get(st, a[1].obj, a[1].path)
    if not eng.decide(st, m.dom.mem(k)): return M.ret(st, Enum(0, ()))
    return M.ret(st, Enum(1, (Ptr(storage(eng, st, m), (('e', k),)),)))
def storage(eng, st, m, keys=None):
    "the values of a map, by key (or its keys, by position)"
    g = ('keys' if keys else 'map', kid_of(m))
    if g not in eng.ghost:
        eng.nobj += 1
        nb = NBase(lambda e, s, i: keys.nth(eng, i), lambda e, s, i: conj(le(0, i), lt(i, keys.card)), g) if keys else NBase(lambda e, s, i: m.f(zi(i)), lambda e, s, i: m.dom.mem(i), g)
        eng.ghost[g] = (eng.nobj, Buf(MAXU, nb, 'I' if keys else 'V'))
    o, b = eng.ghost[g]
    st.heap.setdefault(o, b)
    return o
def map_iter(kind):
    def g(eng, st, f, a):
        m = mp(eng, st, a[0])
        s = m.dom if kind == 'BTreeMap' else eng.ghost.get(('perm', kid_of(m)))
        if s is None: s = eng.ghost[('perm', kid_of(m))] = Bitset(m.dom.mem, m.dom.card, m.dom.size, sorted=False)
        return M.ret(st, Agg((BitIter(s, 0, s.card), m), 'mapiter'))
    return g
def map_next(back):
    def g(eng, st, f, a):
        p = a[0]; v = eng.get(st, p.obj, p.path)
        if not (isinstance(v, Agg) and v.tag == 'mapiter'): raise Undecided('map iterator %r' % (v,))
        it, m = v.f
        if not eng.decide(st, lt(it.a, it.b)): return M.ret(st, Enum(0, ()))
        n = sub(it.b, 1) if back else it.a
        eng.put(st, p.obj, p.path, Agg((BitIter(it.s, it.a, n) if back else BitIter(it.s, add(n, 1), it.b), m), 'mapiter'))
        ko = storage(eng, st, m, it.s); vo = storage(eng, st, m)
        return M.ret(st, Enum(1, (Agg((Ptr(ko, (('e', n),)), Ptr(vo, (('e', it.s.nth(eng, n)),)))),)))
    return g
def map_hint(eng, st, f, a):
    v = eng.get(st, a[0].obj, a[0].path); n = sub(v.f[0].b, v.f[0].a)
    return M.ret(st, Agg((n, Enum(1, (n,)))))
for K, mod in (('BTreeMap::<K, V, A>', 'btree_map'), ('HashMap::<K, V, S, A>', 'hash_map')):
    M.TABLE['std::collections::%s::iter' % K] = map_iter(K[:K.index(':')])
    for T_ in ("std::collections::%s::Iter<'_, K, V>" % mod, "std::collections::%s::Iter<'a, K, V>" % mod):
        M.TABLE['<%s as std::iter::Iterator>::next' % T_] = map_next(False)
        M.TABLE['<%s as std::iter::DoubleEndedIterator>::next_back' % T_] = map_next(True)
        M.TABLE['<%s as std::iter::Iterator>::size_hint' % T_] = map_hint
    for T_ in ('&\'a std::collections::'+K.replace('::<', '<'), ):
        M.TABLE['<%s as std::iter::IntoIterator>::into_iter' % T_] = map_iter(K[:K.index(':')])
def kid_of(m): return m.f.name()
