"""Contracts: preconditions (how arguments are built), invariants, and the generic postcondition checker."""
import re, z3
from terms import *
from values import *
from views import *
import views, bits, models as M, inline

SPECS = {}
def spec(*paths, **kw):
    def d(f):
        for p in paths: SPECS[p] = (f, kw)
        return f
    return d

MAXI = 2**63-1

class Cont:
    "a container reachable from an argument"
    def __init__(self, arg, obj, path, ti, mut, byval): self.arg = arg; self.obj = obj; self.path = path; self.ti = ti; self.mut = mut; self.byval = byval; self.pre = None

class X:
    "specification context of one root"
    def __init__(self, eng, root, body, mode):
        self.eng = eng; self.root = root; self.body = body; self.mode = mode
        self.args = []; self.conts = []; self.ghost = {}; self.users = {}
        self.byarg = {}; self.slices = {}; self.riters = {}; self.late = []
    @property
    def N(self): return self.eng.params.get('N')
    def arg(self, i): return self.args[i]
    def c(self, i): return self.byarg[i][0]
    def pre(self, i=0): return self.byarg[i][0].pre
    def user(self, i): return self.users[i]

class Contracts:
    def __init__(self, eng, mode):
        self.eng = eng; self.mode = mode; self.x = None; self.caps = {}
        self.user_iter = False
    # ------------------------------------------------------------ preconditions
    def fresh(self, st, ti, name, x, arg, mut, obj=None, path=(), byval=True):
        """a value of type ti satisfying its invariant; containers inside are recorded"""
        eng = self.eng; t = eng.T(ti); k = t['k']
        if k == 'bool':
            b = z3.Bool(name); eng.names[name] = 1; return b
        if k in ('uint', 'char'):
            v = z3.Int(name); eng.names[name] = 1; st.add(conj(le(0, v), lt(v, 2**t.get('bits', 32)))); return v
        if k == 'param':
            if t['s'] == 'A': v = z3.Const(name, V); eng.names[name] = 1; return v
            u = User(t['s'], '%s' % name); x.users[arg] = u; return u
        if k in ('ref', 'ptr'):
            to = t['to']; T = eng.T(to)
            if T['k'] == 'slice':
                return self.fresh_slice(st, T, name, x, arg)
            o = eng.new_obj(st, UNINIT)
            v = self.fresh(st, to, name, x, arg, bool(t.get('mut')) , o, (), False)
            st.heap[o] = v
            return Ptr(o, ())
        if k == 'tuple' and not t['of']: return Agg(())
        if k == 'adt':
            kind = kind_of(eng, ti)
            if kind: return self.fresh_container(st, ti, kind, name, x, arg, mut, obj, path, byval)
            h = FRESH.get(t['path'])
            if h: return h(self, st, ti, name, x, arg, mut, obj, path, byval)
            if eng.is_transparent(t):
                return self.uninit_target(st, ti, name, x, arg, mut, obj, path)
        if k == 'other': return z3.Const(name, V)
        raise Undecided('argument of type %s' % t['s'])
    def uninit_target(self, st, ti, name, x, arg, mut, obj, path):
        pt = self.eng.peel(ti)
        if kind_of(self.eng, pt):
            c = Cont(arg, obj, path, pt, mut, False); c.uninit = True; x.byarg.setdefault(arg, []).append(c)
        return self.eng.uninit_of(st, ti)
    def fresh_slice(self, st, T, name, x, arg):
        eng = self.eng
        e = eng.T(T['of']); sort = 'int' if e['k'] in ('uint', 'int') else 'V'
        n = z3.Int('len_'+name); eng.names['len_'+name] = 1
        st.add(conj(le(0, n), le(n, MAXI)))
        fn = z3.Function('e_'+name, z3.IntSort(), z3.IntSort() if sort == 'int' else V)
        if sort == 'int':
            fv = lambda e_, s, i: byte(s, fn(zi(i)))
        else: fv = lambda e_, s, i: fn(zi(i))
        o = eng.new_obj(st, Buf(n, NBase(fv, lambda e_, s, i: conj(le(0, i), lt(i, n)), name), sort))
        x.ghost[('slice', arg)] = (o, n, fn)
        return Ptr(o, (('e', 0),), n)
    def fresh_container(self, st, ti, kind, name, x, arg, mut, obj, path, byval):
        eng = self.eng
        sort = elem_sort(eng, ti) if kind != 'inline' else 'V'
        fn = z3.Function('e_'+name, z3.IntSort(), z3.IntSort() if sort == 'int' else V)
        g = (lambda e, s, i: byte(s, fn(zi(i)))) if sort == 'int' else (lambda e, s, i: fn(zi(i)))
        c = Cont(arg, obj, path, ti, mut, byval); c.name = name
        x.conts.append(c); x.byarg.setdefault(arg, []).append(c)
        if self.mode == 'abs' and kind in ('chunk', 'ring', 'inline'):
            n = z3.Int('len_'+name); eng.names['len_'+name] = 1
            cap = cap_of(eng, st, ti)
            st.add(conj(le(0, n), le(n, cap)))
            return Abs(kind, ti, Seq(n, g))
        v = self.build(st, ti, kind, name, g)
        return v
    def build(self, st, ti, kind, name, g, seq=None):
        """concrete representation with arbitrary layout. seq: logical contents (else g gives storage contents)"""
        eng = self.eng
        def nm(s, reg=True):
            if not reg: return fint(s)
            eng.names[s+'_'+name] = 1; return z3.Int(s+'_'+name)
        F = fields(eng, ti)
        if kind == 'chunk':
            N = nparam(eng, ti)
            l, r = nm('left', seq is None), nm('right', seq is None)
            st.add(conj(le(0, l), le(l, r), le(r, N)))
            occ = lambda e, s, i: conj(le(l, i), lt(i, r))
            if seq is not None:
                st.add(eq(sub(r, l), seq.len)); g = lambda e, s, i: seq.at(e, s, sub(i, l))
            b = Buf(N, NBase(g, occ, name), elem_sort(eng, ti))
            vals = {'left': l, 'right': r, 'data': b}
        elif kind == 'ring':
            N = nparam(eng, ti); self.ring_n(st, N)
            o, n = nm('origin', seq is None), nm('length', seq is None)
            st.add(conj(le(0, o), lt(o, N), le(0, n), le(n, N)))
            occ = lambda e, s, i: lt(wrapm(sub(i, o), N), n)
            if seq is not None:
                st.add(eq(n, seq.len)); g = lambda e, s, i: seq.at(e, s, wrapm(sub(i, o), N))
            b = Buf(N, NBase(g, occ, name), elem_sort(eng, ti))
            vals = {'origin': Agg((o,), eng.T(F['origin'][1])['path']), 'length': n, 'data': b}
        elif kind == 'sparse':
            N = nparam(eng, ti)
            bs = bits.fresh(eng, st, name, N) if seq is None else seq.dom
            if seq is not None: g = lambda e, s, i: seq.at(e, s, i)
            b = Buf(N, NBase(g, lambda e, s, i: bs.mem(i), name), elem_sort(eng, ti))
            vals = {'map': bs, 'data': b}
        else:
            return self.build_inline(st, ti, name, g, seq)
        return agg_fields(self, st, ti, vals)
    def ring_n(self, st, N):
        st.add(le(1, N))
        if not any(m is N for m in self.eng.moduli): self.eng.moduli.append(N)
    def concretise(self, eng, st, a):
        return self.build(st, a.ty, a.kind, fresh_name('conc'), None, a.seq)
    def drop_abs(self, eng, st, a):
        st.event('dropabs', a.kind)
        outs = [(st, 'ret', M.UNITV)]
        if not st.unw:
            s = st.copy(); s.add(eng.ND); s.add(lt(0, a.seq.len))
            if eng.sat(s): outs.append((s, 'unwind', ('user', 'drop')))
        return outs
    # ------------------------------------------------------------ calls on abstract containers
    def at_call(self, eng, st, f, args):
        p = f.get('ipath') or f.get('path')
        h = MODULAR.get(p)
        if h is None or not args or not isinstance(args[0], Ptr) or args[0].obj is None: return None
        try: v = eng.get(st, args[0].obj, args[0].path)
        except (Undecided, Violated): return None
        if not isinstance(v, Abs): return None
        eng.contracts_used[p] = eng.contracts_used.get(p, 0)+1
        return h(self, st, args, v)
    def capacity(self, st, ti): return cap_of(self.eng, st, ti)
    def inline_cap(self, eng, st, ti): return eng.inl.CAP
    def build_inline(self, st, ti, name, g, seq):
        eng = self.eng; L = eng.inl
        st.add(inline.valid(L))
        if seq is None:
            n = z3.Int('len_'+name); eng.names['len_'+name] = 1
        else: n = seq.len; g = lambda e, s, i: seq.at(e, s, i)
        st.add(conj(le(0, n), le(n, L.CAP)))
        F = fields(eng, ti); out = [Agg(())]*len(F)
        if 'data' not in F: raise Undecided('representation of %s' % eng.T(ti)['s'])
        out[F['data'][0]] = Host(n, Buf(L.CAP, NBase(g, lambda e, s, i: conj(le(0, i), lt(i, n)), name), 'V'))
        return Agg(out, eng.T(ti)['path'])

def byte(s, x):
    s.add(conj(le(0, x), lt(x, 256))); return x
FRESH = {}
def fresh_of(path):
    def d(f): FRESH[path] = f; return f
    return d
def agg_fields(C, st, ti, vals):
    F = fields(C.eng, ti)
    for n, (i, fti) in F.items():
        if n not in vals and phantom(C.eng, fti): vals[n] = Agg((), C.eng.T(fti)['path'])
    if set(vals) != set(F): raise Undecided('representation of %s has fields %s' % (C.eng.T(ti)['s'], sorted(F)))
    out = [None]*len(F)
    for n, (i, _) in F.items(): out[i] = vals[n]
    return Agg(out, C.eng.T(ti)['path'])
def generic_struct(C, st, ti, name, x, arg, mut, obj, path, byval):
    F = fields(C.eng, ti); vals = {}
    for n, (i, fti) in F.items():
        vals[n] = C.fresh(st, fti, '%s_%s' % (name, n), x, arg, mut, obj, path+(('f', i),), byval)
    return agg_fields(C, st, ti, vals)
for p in ('sized_chunk::iter::Iter', 'sized_chunk::iter::Drain', 'ring_buffer::iter::Drain', 'ring_buffer::iter::OwnedIter',
          'inline_array::iter::Iter', 'inline_array::iter::Drain', 'sparse_chunk::iter::Drain'):
    FRESH[p] = generic_struct

def ring_pre(C, st, ti, name, x, arg, mut, byval):
    "a ring buffer in memory -> pointer; always concrete"
    m = C.mode; C.mode = 'conc'
    try:
        o = C.eng.new_obj(st, UNINIT)
        v = C.fresh_container(st, ti, 'ring', name, x, arg, mut, o, (), byval)
        st.heap[o] = v
        return Ptr(o, ())
    finally: C.mode = m
def fresh_riter(C, st, ti, name, x, arg, mut, obj, path, byval):
    eng = C.eng; t = eng.T(ti); F = fields(eng, ti)
    if t['path'] == RITER: rt = eng.T(F['buffer'][1])['to'] if 'buffer' in F else None
    else:
        want = '%s<A, N>' % RING
        rt = next((i for i, u in enumerate(eng.mir.types) if u['k'] == 'adt' and u['path'] == RING and u['s'] == want), None)
    if rt is None: raise Undecided('the ring buffer of %s' % t['s'])
    p = ring_pre(C, st, rt, name+'_ring', x, arg, t['path'] == RITERM, False)
    w = view(eng, st, p.obj, p.path, rt)
    a, n = z3.Int('skip_'+name), z3.Int('remaining_'+name); eng.names['skip_'+name] = eng.names['remaining_'+name] = 1
    st.add(conj(le(0, a), le(0, n), le(add(a, n), w.len)))
    N = w.cap; rv = eng.get(st, p.obj, p.path)
    o0 = idx_of(rv.f[fidx(eng, rt, 'origin')[0]])
    l = wrap(add(o0, a), N); r = wrap(add(o0, add(a, n)), N)
    r = ite(lt(add(l, n), N), add(l, n), sub(add(l, n), N))
    vals = {}
    for nm, (i, fti) in F.items():
        ft = eng.T(fti)
        if nm == 'buffer': vals[nm] = p
        elif nm == 'data': vals[nm] = Ptr(p.obj, w.bpath+(('e', 0),))
        elif nm == 'remaining': vals[nm] = n
        elif nm in ('left_index', 'right_index'): vals[nm] = Agg((l if nm[0] == 'l' else r,), ft['path'])
        elif ft['k'] == 'adt' and ft['path'].endswith('PhantomData'): vals[nm] = Agg((), ft['path'])
        else: raise Undecided('representation of %s' % t['s'])
    v = agg_fields(C, st, ti, vals)
    x.late.append(lambda s: x.riters.__setitem__(arg, riter(eng, s, v, ti)))
    return v
def fresh_rslice(C, st, ti, name, x, arg, mut, obj, path, byval):
    eng = C.eng; F = fields(eng, ti)
    if 'buffer' not in F or 'range' not in F: raise Undecided('representation of %s' % eng.T(ti)['s'])
    rt = eng.T(F['buffer'][1])['to']
    p = ring_pre(C, st, rt, name+'_ring', x, arg, bool(eng.T(F['buffer'][1]).get('mut')), False)
    w = view(eng, st, p.obj, p.path, rt)
    a, b = z3.Int('start_'+name), z3.Int('end_'+name); eng.names['start_'+name] = eng.names['end_'+name] = 1
    st.add(conj(le(0, a), le(a, b), le(b, w.len)))
    v = agg_fields(C, st, ti, {'buffer': p, 'range': Agg((a, b), eng.T(F['range'][1])['path'])})
    x.late.append(lambda s: x.slices.__setitem__(arg, rslice(eng, s, v, ti)))
    return v
def sparse_iter(C, st, ti, name, x, arg, mut, obj, path, byval):
    "borrowing iterators over a sparse chunk"
    eng = C.eng; F = fields(eng, ti); vals = {}
    if 'chunk' not in F: raise Undecided('representation of %s' % eng.T(ti)['s'])
    i, cti = F['chunk']; t = eng.T(cti)
    if t['k'] == 'ref':
        o = eng.new_obj(st, UNINIT)
        st.heap[o] = C.fresh_container(st, t['to'], 'sparse', name+'_chunk', x, arg, bool(t.get('mut')), o, (), False)
        vals['chunk'] = Ptr(o, ()); w = view(eng, st, o, (), t['to'])
    else:
        v = C.fresh_container(st, cti, 'sparse', name+'_chunk', x, arg, mut, obj, path+(('f', i),), byval)
        vals['chunk'] = v; o = eng.new_obj(st, v); w = view(eng, st, o, (), cti)
    d = w.seq.dom
    for nm, (i, fti) in F.items():
        ft = eng.T(fti)
        if nm == 'index':
            n = z3.Int('index_'+name); eng.names['index_'+name] = 1; st.add(conj(le(0, n), le(n, w.cap))); vals[nm] = n
        elif ft['k'] == 'adt' and ft['path'] == 'bitmaps::Bitmap': vals[nm] = bits.fresh(eng, st, name+'_'+nm, w.cap, d)
        elif ft['k'] == 'adt' and ft['path'] == 'bitmaps::Iter':
            n = z3.Int('position_'+name); eng.names['position_'+name] = 1; st.add(conj(le(0, n), le(n, d.card))); vals[nm] = BitIter(d, n, d.card)
    return agg_fields(C, st, ti, vals)
for p in ('Iter', 'IterMut', 'OptionIter', 'OptionIterMut', 'OptionDrain'): FRESH['sparse_chunk::iter::'+p] = sparse_iter
def fresh_extmap(C, st, ti, name, x, arg, mut, obj, path, byval):
    m = bits.fresh_map(C.eng, st, name); x.ghost[('map', arg)] = m
    return m
for p in bits.MAPS: FRESH[p] = fresh_extmap
FRESH[RITER] = FRESH[RITERM] = fresh_riter
FRESH[RSLICE] = FRESH[RSLICEM] = fresh_rslice

# ---------------------------------------------------------------- modular contracts
MODULAR = {}
def modular(*ps):
    def d(f):
        for p in ps: MODULAR[p] = f
        return f
    return d
def setabs(C, st, p, a, seq): C.eng.put(st, p.obj, p.path, Abs(a.kind, a.ty, seq))
def drop_val(eng, st, v):
    st.event('dropv', v)
def push(back):
    def h(C, st, args, a):
        eng = C.eng; cap = cap_of(eng, st, a.ty)
        if eng.decide(st, lt(a.seq.len, cap)):
            setabs(C, st, args[0], a, a.seq.append(args[1]) if back else a.seq.prepend(args[1]))
            return M.ret(st, M.UNITV)
        drop_val(eng, st, args[1])
        return M.panic(eng, st, ('panic', eng.where()))
    return h
MODULAR['sized_chunk::Chunk::<A, N>::push_back'] = push(True)
MODULAR['sized_chunk::Chunk::<A, N>::push_front'] = push(False)
MODULAR['ring_buffer::RingBuffer::<A, N>::push_back'] = push(True)
MODULAR['ring_buffer::RingBuffer::<A, N>::push_front'] = push(False)
MODULAR['inline_array::InlineArray::<A, T>::push'] = push(True)
def pop(back, opt):
    def h(C, st, args, a):
        eng = C.eng
        if eng.decide(st, lt(0, a.seq.len)):
            v = a.seq.at(eng, st, sub(a.seq.len, 1) if back else 0)
            setabs(C, st, args[0], a, a.seq.popback() if back else a.seq.popfront())
            return M.ret(st, Enum(1, (v,)) if opt else v)
        return M.ret(st, Enum(0, ())) if opt else M.panic(eng, st, ('panic', eng.where()))
    return h
MODULAR['sized_chunk::Chunk::<A, N>::pop_back'] = pop(True, False)
MODULAR['sized_chunk::Chunk::<A, N>::pop_front'] = pop(False, False)
MODULAR['ring_buffer::RingBuffer::<A, N>::pop_back'] = pop(True, True)
MODULAR['ring_buffer::RingBuffer::<A, N>::pop_front'] = pop(False, True)
MODULAR['inline_array::InlineArray::<A, T>::pop'] = pop(True, True)
@modular('sized_chunk::Chunk::<A, N>::len', '<ring_buffer::RingBuffer<A, N> as array_ops::HasLength>::len', 'inline_array::InlineArray::<A, T>::len')
def _(C, st, args, a): return M.ret(st, a.seq.len)
@modular('sized_chunk::Chunk::<A, N>::is_empty', 'inline_array::InlineArray::<A, T>::is_empty', 'array_ops::HasLength::is_empty')
def _(C, st, args, a): return M.ret(st, eq(a.seq.len, 0))
@modular('sized_chunk::Chunk::<A, N>::is_full', 'ring_buffer::RingBuffer::<A, N>::is_full', 'inline_array::InlineArray::<A, T>::is_full')
def _(C, st, args, a): return M.ret(st, ge(a.seq.len, cap_of(C.eng, st, a.ty)))
@modular('sized_chunk::Chunk::<A, N>::insert', 'ring_buffer::RingBuffer::<A, N>::insert')
def _(C, st, args, a):
    eng = C.eng; cap = cap_of(eng, st, a.ty)
    if eng.decide(st, conj(lt(a.seq.len, cap), le(args[1], a.seq.len))):
        setabs(C, st, args[0], a, a.seq.insert(args[1], args[2])); return M.ret(st, M.UNITV)
    drop_val(eng, st, args[2]); return M.panic(eng, st, ('panic', eng.where()))


# ---------------------------------------------------------------- postconditions
class Check:
    def __init__(self, eng, x, S, kw):
        self.eng = eng; self.x = x; self.S = S
        p = kw.get('prop') or S.get('prop') or ()
        self.fp = (p,) if isinstance(p, str) else tuple(p)
    def ob(self, st, c, props, msg):
        eng = self.eng
        kind = 'post:'+','.join(props if not isinstance(props, str) else (props,))
        try: return eng.oblige(st, c, kind, msg, assume=False)
        except Violated: return False
    def outcome(self, st, kind, val):
        eng = self.eng; x = self.x; S = self.S
        eng.spans.append(x.root['path'])
        try:
            if kind == 'abort': return
            if kind == 'ret':
                pan = S.get('panics', False)
                if not self.ob(st, neg(pan), ('C08',)+tuple(S.get('panicprop', ())), 'returns although the call must panic'):
                    return
                st.add(neg(pan))
                if not eng.sat(st): return
                for c in x.conts + [c for l in x.byarg.values() for c in l if getattr(c, 'uninit', False)]:
                    self.container(st, c, 'ret')
                r = S.get('ret')
                if r is not None:
                    self.value(st, val, r, 'result')
                if S.get('after'): S['after'](self, st, val)
            else:
                reason = st.panic or val
                if reason[0] == 'user':
                    for c in x.conts: self.container(st, c, 'user')
                    if S.get('after_user'): S['after_user'](self, st, reason)
                else:
                    how = None
                    if S.get('on_panic'): how = S['on_panic'](self, st, reason)
                    if how is None:
                        pan = S.get('panics', False)
                        self.ob(st, pan, 'C08', 'panics (%s) although its requirements are met' % why(reason))
                        st.add(pan)
                        if not eng.sat(st): return
                        how = 'unchanged'
                    for c in x.conts: self.container(st, c, how)
        finally: eng.spans.pop()
    def container(self, st, c, how):
        eng = self.eng; x = self.x
        if c.byval or c.obj is None or c.obj not in st.heap: return
        uninit = getattr(c, 'uninit', False)
        if uninit and how != 'ret': return
        nm = 'arg %d' % c.arg
        safe = ('C07', 'C05') if how in ('user', 'partial') or self.S.get('lying') else ('C05',)
        v = view(eng, st, c.obj, c.path, c.ti)
        if how == 'ret' and c.arg in self.S.get('dropped', ()):
            s = st.copy(); s.add(eng.ND); i = eng.skolem(s, 0, v.buf.size)
            if v.buf.sort == 'V' and eng.sat(s): self.ob(s, neg(v.buf.own(eng, s, i)), 'C06', '%s: every element has been dropped' % nm)
            return
        if c.arg in self.S.get('dropped', ()): return
        self.rep(st, v, nm, safe, how in ('ret', 'safe'), self.fp)
        if how in ('ret', 'unchanged'):
            exp = None
            if how == 'ret': exp = self.S.get('post', {}).get(c.arg)
            if exp is None: exp = None if uninit else c.pre.seq
            if callable(exp): exp = exp(self, st, c)
            if exp is not None and exp != 'any':
                ps = ('C08',) if how == 'unchanged' else self.fp
                if how == 'ret' and self.S.get('post', {}).get(c.arg) is None: ps = tuple(set(self.fp))
                self.same_seq(st, v.seq, exp, ps, nm + (' unchanged by the rejected call' if how == 'unchanged' else ' contents'))
    def rep(self, st, v, nm, safe, exact, fp):
        "representation invariant and ownership"
        eng = self.eng
        for cond, msg in v.inv:
            self.ob(st, cond, tuple(safe)+tuple(fp if exact else ()), '%s: invariant %s' % (nm, msg))
        if v.buf is None or v.buf.sort != 'V': return
        s = st.copy()
        i = fint('slot'); s.add(conj(le(0, i), lt(i, v.buf.size)))
        s1 = s.copy(); s1.add(v.occ(i))
        if eng.sat(s1): self.ob(s1, v.buf.own(eng, s1, i), safe, '%s: every occupied slot holds a live element' % nm)
        if exact:
            s2 = s.copy(); s2.add(neg(v.occ(i))); s2.add(eng.ND)
            if eng.sat(s2): self.ob(s2, neg(v.buf.own(eng, s2, i)), 'C06', '%s: no live element is left outside the contents (leak)' % nm)
    def same_seq(self, st, a, b, props, msg):
        eng = self.eng
        if a is b: return
        if isinstance(a, MapSeq) or isinstance(b, MapSeq): return self.same_map(st, a, b, props, msg)
        if not self.ob(st, eq(a.len, b.len), props, msg+': length'): return
        s = st.copy(); k = fint('idx'); s.add(conj(le(0, k), lt(k, b.len))); s.add(eq(a.len, b.len))
        if not eng.sat(s): return
        p, q = a.at(eng, s, k), b.at(eng, s, k)
        if not eng.sat(s): return
        self.ob(s, eq(p, q), props, msg+': element at each index')
    def same_map(self, st, a, b, props, msg):
        eng = self.eng
        N = self.x.N
        s = st.copy(); k = fint('idx'); s.add(conj(le(0, k), lt(k, N)))
        self.ob(s, eq(a.mem(k), b.mem(k)), props, msg+': inhabited indices')
        s.add(conj(b.mem(k), a.mem(k)))
        if eng.sat(s): self.ob(s, eq(a.at(eng, s, k), b.at(eng, s, k)), props, msg+': value at each index')
    # -------------------------------------------------------- returned values
    def value(self, st, v, d, msg):
        eng = self.eng
        if callable(d): return d(self, st, v)
        k = d[0]
        if k == 'unit': return
        if k in ('int', 'bool', 'val'):
            if not (isz(v) or isinstance(v, (int, bool))): raise Undecided('%s is %r' % (msg, v))
            return self.ob(st, eq(v, d[1]), self.fp, msg)
        if k == 'opt':
            if not isinstance(v, Enum): raise Undecided('%s is %r' % (msg, v))
            some = v.v == 1
            c = d[1] if some else neg(d[1])
            ok = self.ob(st, c, self.fp, '%s is %s' % (msg, 'Some' if some else 'None'))
            if some and ok: self.value(st, v.f[0], d[2], msg)
            return
        if k == 'seq':
            "an owned container returned by value"
            return self.returned(st, v, d[1], d[2] if len(d) > 2 else self.retty(), msg)
        if k == 'tuple':
            for n, e in enumerate(d[1]): self.value(st, v.f[n], e, '%s.%d' % (msg, n))
            return
        if k == 'struct':
            ti = d[2] if len(d) > 2 else self.retty()
            if not isinstance(v, (Agg, Enum)): raise Undecided('%s is %r' % (msg, v))
            F = fields(eng, ti)
            for n, e in d[1].items():
                if n not in F: raise Undecided('%s has no field %s' % (msg, n))
                i, fti = F[n]
                if isinstance(e, tuple) and e[0] == 'seq' and len(e) == 2: e = ('seq', e[1], fti)
                self.value(st, v.f[i], e, '%s.%s' % (msg, n))
            return
        if k == 'arg':
            "the pointer given as argument"
            a = self.x.arg(d[1])
            if not isinstance(v, Ptr): raise Undecided('%s is %r' % (msg, v))
            return self.ob(st, v.obj == a.obj and v.path == a.path, self.fp, '%s refers to the argument itself' % msg)
        if k == 'sliceiter':
            c = self.x.byarg[d[1]][0]
            if not isinstance(v, SliceIter): raise Undecided('%s is %r' % (msg, v))
            w = view(eng, st, c.obj, c.path, c.ti)
            self.ob(st, eq(v.n, w.len), self.fp, msg+': number of elements')
            s = st.copy(); s.add(lt(0, w.len))
            if eng.sat(s): self.points(s, Ptr(v.p.obj, v.p.path[:-1]+(('e', add(v.p.path[-1][1], v.i)),)), w, 0, msg)
            return
        if k == 'ok':
            "Result::Ok"
            if not isinstance(v, Enum): raise Undecided('%s is %r' % (msg, v))
            if self.ob(st, v.v == 0, self.fp, msg+' is Ok'): self.value(st, v.f[0], d[1], msg)
            return
        if k == 'elem':
            c = self.x.byarg[d[1]][0]
            w = view(eng, st, c.obj, c.path, c.ti)
            return self.points(st, v, w, d[2], msg)
        if k == 'riter':
            "an iterator over logical positions [a, b) of the ring of argument d[1]"
            c = self.x.byarg[d[1]][0]; w = view(eng, st, c.obj, c.path, c.ti)
            ri = riter(eng, st, v, d[4] if len(d) > 4 else self.retty())
            n = sub(d[3], d[2])
            self.ob(st, ri.obj == w.obj and ri.bpath == w.bpath, self.fp, msg+' runs over the argument')
            self.ob(st, eq(ri.n, n), self.fp, msg+': number of elements')
            s = st.copy(); s.add(lt(0, n)); s.add(eq(ri.n, n))
            if eng.sat(s):
                self.ob(s, eq(ri.left, w.loc(d[2])), self.fp, msg+': first element')
                self.ob(s, ri.wf(), tuple(set(('C05',)+self.fp)), msg+': last element')
            return
        if k == 'rslice':
            "a Slice/SliceMut of positions [a, b) of the ring of argument d[1]"
            c = self.x.byarg[d[1]][0]; w = view(eng, st, c.obj, c.path, c.ti)
            rs = rslice(eng, st, v, d[4] if len(d) > 4 else self.retty())
            self.ob(st, rs.w.obj == w.obj and rs.w.bpath == w.bpath, self.fp, msg+' refers to the argument')
            ok = self.ob(st, eq(rs.len, sub(d[3], d[2])), self.fp, msg+': length')
            if ok:
                s = st.copy(); s.add(lt(0, rs.len))
                if eng.sat(s): self.ob(s, eq(rs.a, d[2]), self.fp, msg+': first position')
            self.ob(st, rs.wf(), tuple(set(('C05',)+self.fp)), msg+': range lies within the ring')
            return
        if k == 'slice':
            c = self.x.byarg[d[1]][0]
            w = view(eng, st, c.obj, c.path, c.ti)
            if not isinstance(v, Ptr): raise Undecided('%s is %r' % (msg, v))
            self.ob(st, eq(v.meta, w.len), self.fp, msg+': slice length')
            s = st.copy(); s.add(lt(0, w.len))
            if eng.sat(s): self.points(s, v, w, 0, msg)
            return
        raise Undecided('descriptor %s' % k)
    def points(self, st, v, w, k, msg):
        "v points at logical element k of the container viewed by w"
        eng = self.eng
        if not isinstance(v, Ptr): raise Undecided('%s is %r' % (msg, v))
        if v.obj != w.obj or len(v.path) != len(w.bpath)+1 or v.path[:-1] != w.bpath or v.path[-1][0] != 'e':
            if v.obj is not None and v.path and v.path[-1][0] == 'e' and v.obj == w.obj: raise Undecided('%s points to %r' % (msg, v))
            return self.ob(st, False, self.fp, '%s points into the container' % msg)
        self.ob(st, eq(v.path[-1][1], w.loc(k)), self.fp, '%s is the element at the requested position' % msg)
        s = st.copy()
        if w.buf.sort == 'V': self.ob(s, w.buf.own(eng, s, v.path[-1][1]), 'C05', '%s points at a live element' % msg)
    def retty(self): return self.x.body['locals'][0]
    def returned(self, st, v, seq, ti, msg):
        eng = self.eng
        o = eng.new_obj(st, v)
        w = view(eng, st, o, (), ti)
        self.rep(st, w, msg, ('C05',), True, self.fp)
        self.same_seq(st, w.seq, seq, self.fp, msg+' contents')
def why(r): return '%s at %s' % (r[1] if r[0] == 'arith' else r[0], r[-1])

def cases(root):
    "case distinctions made before a function is run"
    return ('small', 'word', 'large') if inline.applies(root) else (None,)
def setup(eng, root, body, mode, case=None):
    from engine import St
    st = St()
    if case is not None: inline.setup(eng, st, case)
    C = Contracts(eng, mode); eng.C = C
    x = X(eng, root, body, mode); C.x = x; eng.x = x
    if any('cparam' in str(t.get('args', '')) or t['k'] == 'array' for t in eng.mir.types):
        N = eng.cparam({'cparam': 'N'})
        st.add(conj(le(0, N), le(N, MAXI)))
        p = root['path'] + root.get('self_ty', '') if isinstance(root.get('self_ty'), str) else root['path']
        if 'ring_buffer' in root['path'] or 'RingBuffer' in root['path']: C.ring_n(st, N)
    for i in range(body['argc']):
        ti = body['locals'][i+1]
        v = C.fresh(st, ti, 'a%d' % i, x, i, False, None, (), True)
        x.args.append(v)
    for c in x.conts:
        if c.obj is not None: c.pre = view(eng, st, c.obj, c.path, c.ti)
        else:
            o = eng.new_obj(st, x.args[c.arg]); c.pre = view(eng, st, o, c.path, c.ti)
    for f in x.late: f(st)
    x.st0 = st.copy()
    return st, x
