"""Views: the mathematical meaning of the concrete container representations, and their invariants."""
import z3
from terms import *
from values import *
from bits import Bitset, BitIter, ExtMap

CHUNK, RING, SPARSE, INLINE = 'sized_chunk::Chunk', 'ring_buffer::RingBuffer', 'sparse_chunk::SparseChunk', 'inline_array::InlineArray'
KINDS = {CHUNK: 'chunk', RING: 'ring', SPARSE: 'sparse', INLINE: 'inline'}

LOW, HIGH, LEN = ('left', 'start', 'begin', 'first', 'lo', 'low', 'left_index', 'head'), ('right', 'end', 'hi', 'high', 'right_index', 'tail'), ('length', 'len', 'count', 'size', 'remaining', 'left', 'rest')
# canonical name -> other names it may have, None: any field of that type
CANON = {CHUNK: {'left': LOW, 'right': HIGH, 'data': None}, RING: {'origin': None, 'length': LEN, 'data': None}, SPARSE: {'map': None, 'data': None},
         INLINE: {'data': None},
         'ring_buffer::iter::Iter': {'buffer': None, 'left_index': LOW, 'right_index': HIGH, 'remaining': LEN},
         'ring_buffer::iter::IterMut': {'data': None, 'left_index': LOW, 'right_index': HIGH, 'remaining': LEN},
         'ring_buffer::slice::Slice': {'buffer': None, 'range': None}, 'ring_buffer::slice::SliceMut': {'buffer': None, 'range': None}}
for p in ('sized_chunk::iter::Iter', 'sized_chunk::iter::Drain'): CANON[p] = {'chunk': None}
for p in ('ring_buffer::iter::Drain', 'ring_buffer::iter::OwnedIter'): CANON[p] = {'buffer': None}
for p in ('inline_array::iter::Iter', 'inline_array::iter::Drain'): CANON[p] = {'array': None}
for p in ('Iter', 'IterMut', 'Drain', 'OptionIter', 'OptionIterMut', 'OptionDrain'): CANON['sparse_chunk::iter::'+p] = {'chunk': None}
FTYPE = {'data': lambda t: t['k'] == 'adt' and t['path'].endswith('::MaybeUninit') or t['k'] == 'ptr', 'map': lambda t: t['k'] == 'adt' and t['path'] == 'bitmaps::Bitmap',
         'origin': lambda t: t['k'] == 'adt' and t['path'].endswith('::RawIndex'), 'range': lambda t: t['k'] == 'adt' and t['path'].endswith('::Range'),
         'left_index': lambda t: t['k'] == 'adt' and t['path'].endswith('::RawIndex')}
FTYPE['right_index'] = FTYPE['left_index']
for p in ('left', 'right', 'length', 'remaining'): FTYPE[p] = lambda t: t['k'] == 'uint'
def is_container(eng, t):
    if t['k'] == 'ref': t = eng.T(t['to'])
    return t['k'] == 'adt' and t['path'] in KINDS
def phantom(eng, ti): t = eng.T(ti); return t['k'] == 'adt' and t['path'].endswith('PhantomData')
def fields(eng, ti):
    "name -> (index, type) of the fields of a struct; a renamed private field appears under the name the specifications use"
    t = eng.T(ti)
    fs = [(f[0], n, f[1]) for n, f in enumerate(t['variants'][0]['fields'])]
    out = {f: (n, ft) for f, n, ft in fs}
    want = CANON.get(t['path'], {})
    for c in [c for c in want if c not in out]:
        ok = FTYPE.get(c) or (lambda u: is_container(eng, u))
        m = [f for f, n, ft in fs if f in out and f not in want and ok(eng.T(ft)) and (want[c] is None or f in want[c])]
        if len(m) == 1: out[c] = out.pop(m[0])
    return out
def fidx(eng, ti, name):
    f = fields(eng, ti)
    if name not in f: raise Undecided('%s has no field %s' % (eng.T(ti)['s'], name))
    return f[name]
def kind_of(eng, ti):
    t = eng.T(ti)
    return KINDS.get(t['path']) if t['k'] == 'adt' else None
def elem_sort(eng, ti):
    t = eng.T(ti); a = t['args'][0]
    return 'int' if eng.T(a)['k'] in ('uint', 'int') else 'V'
def nparam(eng, ti):
    t = eng.T(ti)
    return eng.cparam(t['args'][1])

class View:
    """kind, len, at(i), loc(i) -> storage index, cap; own(i) per storage slot; inv: list of (cond, msg)"""
    def __init__(self, kind, seq, cap, loc, occ, buf, bpath, obj, inv): 
        self.kind = kind; self.seq = seq; self.cap = cap; self.loc = loc; self.occ = occ
        self.buf = buf; self.bpath = bpath; self.obj = obj; self.inv = inv
    @property
    def len(self): return self.seq.len
    def at(self, eng, st, i): return self.seq.at(eng, st, i)

def view(eng, st, obj, path, ti):
    kind = kind_of(eng, ti)
    v = eng.get(st, obj, path)
    if isinstance(v, Abs):
        return View(kind, v.seq, cap_of(eng, st, ti), None, None, None, None, obj, [])
    if v is UNINIT or v is POISON: raise Undecided('view of %r' % (v,))
    if kind == 'inline': return inline_view(eng, st, obj, path, ti, v)
    if not isinstance(v, Agg): raise Undecided('view of %r' % (v,))
    def fld(n):
        i, t = fidx(eng, ti, n); return v.f[i], i, t
    N = nparam(eng, ti)
    if kind == 'chunk':
        l, r = fld('left')[0], fld('right')[0]; b, bi, _ = fld('data')
        for x in (l, r, b):
            if x is UNINIT or x is POISON: raise Undecided('view of a chunk with an untracked field')
        return View('chunk', Seq(sub(r, l), lambda e, s, i: b.val(e, s, add(l, i))), N, lambda i: add(l, i),
                    lambda i: conj(le(l, i), lt(i, r)), b, path+(('f', bi),), obj, [(le(0, l), 'left >= 0'), (le(l, r), 'left <= right'), (le(r, N), 'right <= N')])
    if kind == 'ring':
        o = fld('origin')[0]; n = fld('length')[0]; b, bi, _ = fld('data')
        if not isinstance(o, Agg): raise Undecided('view of a ring buffer with an untracked origin')
        o = o.f[0]
        for x in (o, n, b):
            if x is UNINIT or x is POISON: raise Undecided('view of a ring buffer with an untracked field')
        def occ(i): return conj(lt(wrapm(sub(i, o), N), n))
        return View('ring', Seq(n, lambda e, s, i: ringat(e, s, b, o, N, i)), N, lambda i: wrap(add(o, i), N), occ, b, path+(('f', bi),), obj,
                    [(conj(le(0, o), lt(o, N)), 'origin < N'), (conj(le(0, n), le(n, N)), 'length <= N')])
    if kind == 'sparse':
        m = fld('map')[0]; b, bi, _ = fld('data')
        if not isinstance(m, Bitset): raise Undecided('view of sparse chunk map %r' % (m,))
        sq = MapSeq(m, lambda e, s, i: b.val(e, s, i))
        return View('sparse', sq, N, lambda i: i, lambda i: m.mem(i), b, path+(('f', bi),), obj, [])
    raise Undecided('view of kind %s' % kind)
def ringat(e, s, b, o, N, i):
    x = add(o, i)
    c = e.tri(s, lt(x, N))
    if c is True: return b.val(e, s, x)
    if c is False: return b.val(e, s, sub(x, N))
    return ite(c, b.val(e, e.under(s, c), x), b.val(e, e.under(s, neg(c)), sub(x, N)))
def inline_view(eng, st, obj, path, ti, v):
    fs = fields(eng, ti)
    h = v
    if isinstance(v, Agg):
        i = fidx(eng, ti, 'data')[0]; h = v.f[i]; path = path+(('f', i),)
    if not isinstance(h, Host): raise Undecided('view of inline array %r' % (h,))
    n = h.len
    if n is UNINIT or n is POISON: raise Undecided('view of an inline array without length')
    b = h.buf
    cap = eng.C.inline_cap(eng, st, ti)
    return View('inline', Seq(n, lambda e, s, i: b.val(e, s, i)), cap, lambda i: i, lambda i: conj(le(0, i), lt(i, n)), b, path, obj,
                [(conj(le(0, n), le(n, cap)), 'length <= capacity')])
def cap_of(eng, st, ti):
    if kind_of(eng, ti) == 'inline': return eng.C.inline_cap(eng, st, ti)
    return nparam(eng, ti)

# ---------------------------------------------------------------- bitmaps
class Dom:
    "domain of a map in a specification"
    def __init__(self, mem, card=None): self.mem = mem; self.card = card
class MapSeq:
    "view of a sparse chunk: domain and values"
    __slots__ = ('dom', 'f')
    def __init__(self, dom, f): self.dom = dom; self.f = f
    @property
    def len(self): return self.dom.card
    def at(self, eng, st, i): return self.f(eng, st, i)
    def mem(self, i): return self.dom.mem(i)
    def set(self, k, v):
        p = self
        def f(eng, st, i):
            c = eng.tri(st, eq(i, k))
            if c is True: return v
            q = p.at(eng, st, i)
            return q if c is False else ite(c, v, q)
        return MapSeq(Dom(lambda i: disj(eq(i, k), p.mem(i))), f)
    def remove(self, k):
        p = self
        return MapSeq(Dom(lambda i: conj(ne(i, k), p.mem(i))), p.f)
NOMAP = MapSeq(Dom(lambda i: False, 0), EMPTY.f)

# ---------------------------------------------------------------- borrowed views of ring buffers
RITER, RITERM, RSLICE, RSLICEM = 'ring_buffer::iter::Iter', 'ring_buffer::iter::IterMut', 'ring_buffer::slice::Slice', 'ring_buffer::slice::SliceMut'
class RIter:
    "iterator over ring slots: n elements, the first at slot left; obj/bpath: the element storage"
    def __init__(self, obj, bpath, left, right, n, N, buf): self.obj = obj; self.bpath = bpath; self.left = left; self.right = right; self.n = n; self.N = N; self.buf = buf
    def loc(self, j): return wrap(add(self.left, j), self.N)
    def seq(self):
        b = self.buf; x = self
        return Seq(x.n, lambda e, s, i: ringat(e, s, b, x.left, x.N, i))
    def wf(self): return conj(le(0, self.n), le(self.n, self.N), le(0, self.left), lt(self.left, self.N), le(0, self.right), lt(self.right, self.N), eq(self.right, wrap(add(self.left, self.n), self.N)))
def ring_of(eng, st, p, ti):
    "view of the ring a pointer refers to"
    if not isinstance(p, Ptr): raise Undecided('ring reference %r' % (p,))
    return view(eng, st, p.obj, p.path, eng.T(ti)['to'])
def idx_of(v):
    while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
    if isinstance(v, Agg) or v is UNINIT or v is POISON: raise Undecided('ring index %r' % (v,))
    return v
def riter(eng, st, v, ti):
    t = eng.T(ti); F = fields(eng, ti); N = eng.cparam(t['args'][-1])
    if not isinstance(v, Agg): raise Undecided('ring iterator %r' % (v,))
    def g(n):
        i, fti = fidx(eng, ti, n); return v.f[i], fti
    l, r, n = idx_of(g('left_index')[0]), idx_of(g('right_index')[0]), g('remaining')[0]
    if n is UNINIT or n is POISON: raise Undecided('ring iterator')
    if t['path'] == RITER:
        p, pt = g('buffer'); w = ring_of(eng, st, p, pt)
        if w.buf is None:
            eng.put(st, p.obj, p.path, eng.C.concretise(eng, st, eng.get(st, p.obj, p.path))); w = ring_of(eng, st, p, pt)
        return RIter(w.obj, w.bpath, l, r, n, N, w.buf)
    p, pt = g('data')
    if not isinstance(p, Ptr) or p.obj is None or not p.path or p.path[-1] != ('e', 0): raise Undecided('ring iterator data %r' % (p,))
    b = eng.get_buf(st, p.obj, p.path[:-1])
    if b is None: raise Undecided('ring iterator data')
    return RIter(p.obj, p.path[:-1], l, r, n, N, b)
class RSlice:
    "a Slice or SliceMut: ring view w, positions [a, b)"
    def __init__(self, w, p, a, b): self.w = w; self.p = p; self.a = a; self.b = b
    @property
    def len(self): return sub(self.b, self.a)
    def seq(self): return self.w.seq.range(self.a, self.b)
    def wf(self): return conj(le(0, self.a), le(self.a, self.b), le(self.b, self.w.len))
    def loc(self, i): return self.w.loc(add(self.a, i))
def rslice(eng, st, v, ti):
    if not isinstance(v, Agg): raise Undecided('ring slice %r' % (v,))
    i, bti = fidx(eng, ti, 'buffer'); j, _ = fidx(eng, ti, 'range')
    p = v.f[i]; r = v.f[j]
    if not isinstance(r, Agg) or len(r.f) != 2: raise Undecided('ring slice range %r' % (r,))
    w = ring_of(eng, st, p, bti)
    return RSlice(w, p, r.f[0], r.f[1])
