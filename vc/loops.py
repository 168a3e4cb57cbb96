"""Loop invariants: small loops are unrolled when that is provably complete; otherwise an invariant is inferred as a
closed form T(k) of the state after k iterations (fitted on the first iterations) and *proved* inductive by the solver."""
import z3
from terms import *
from values import *
from bits import Bitset, BitIter, ExtMap
import engine as E

import os
DEBUG = os.environ.get('VC_DEBUG')
class NoMerge(Exception): pass
class NoFit(Exception): pass

# ------------------------------------------------------------------ merging of paths
def merge_rets(eng, base, rets, tag='ret'):
    res = []
    for s, kind, v in rets:
        done = False
        for n, (s2, v2) in enumerate(res):
            try:
                m = merge2(eng, base, s2, v2, s, v)
            except NoMerge: continue
            res[n] = m; done = True; break
        if not done: res.append((s, v))
    if len(res) > 1 and len(res) < len(rets):
        return merge_rets(eng, base, [(s, tag, v) for s, v in res], tag)
    return [(s, tag, v) for s, v in res]
def conds_since(n, base):
    r = []
    while n is not base:
        if n.parent is None: raise NoMerge()
        r.append(n.cond); n = n.parent
    return r[::-1]
def merge2(eng, base, s1, v1, s2, v2):
    if s1.log is not s2.log or s1.unw != s2.unw or s1.panic != s2.panic: raise NoMerge()
    L1, L2 = conds_since(s1.pc, base), conds_since(s2.pc, base)
    n = 0
    while n < len(L1) and n < len(L2) and L1[n].eq(L2[n]): n += 1
    pre, L1, L2 = L1[:n], L1[n:], L2[n:]
    if L1 and L2 and (neg(L1[0]).eq(L2[0]) if isz(neg(L1[0])) else False):
        disc = L1[0]; extra = conj(implies(disc, conj(*L1[1:])), implies(neg(disc), conj(*L2[1:])))
    else:
        disc = conj(*L1); extra = disj(conj(*L1), conj(*L2))
    v = mv(disc, v1, v2)
    s = s1.copy()
    for o in set(s1.heap) | set(s2.heap):
        if o in s1.heap and o in s2.heap:
            a, b = s1.heap[o], s2.heap[o]
            if a is not b: s.heap[o] = mv(disc, a, b)
        else: s.heap[o] = s1.heap[o] if o in s1.heap else s2.heap[o]
    for g in set(s1.ghost) | set(s2.ghost):
        a, b = s1.ghost.get(g), s2.ghost.get(g)
        if a is b: continue
        if a is None or b is None: raise NoMerge()
        s.ghost[g] = mv(disc, a, b)
    s.known = {k: x for k, x in s1.known.items() if s2.known.get(k) is x}
    pc = base
    for c in pre: pc = E.PCN(pc, c)
    s.pc = pc
    if extra is not True: s.add(extra)
    return s, v
def plain(v): return isinstance(v, (int, bool)) or v is UNINIT or v is POISON or (isz(v) and v.sort() != V) or (isinstance(v, Agg) and all(plain(x) for x in v.f))
def mv(c, a, b):
    if a is b: return a
    if (a is UNINIT or a is POISON or b is UNINIT or b is POISON) and plain(a) and plain(b): return POISON   # must not be read before it is set again
    if isinstance(a, (int, bool)) or isz(a):
        if not (isinstance(b, (int, bool)) or isz(b)): raise NoMerge()
        if isz(a) and isz(b) and a.sort() != b.sort(): raise NoMerge()
        if isz(a) and isz(b) and a.sort() == V: return a if a.eq(b) else z3.If(zb(c), a, b)
        if (isz(a) and a.sort() == V) or (isz(b) and b.sort() == V): raise NoMerge()
        return ite(c, a, b)
    if type(a) is not type(b): raise NoMerge()
    if isinstance(a, Agg):
        if len(a.f) != len(b.f): raise NoMerge()
        return Agg([mv(c, x, y) for x, y in zip(a.f, b.f)], a.tag)
    if isinstance(a, Enum):
        if a.v != b.v or len(a.f) != len(b.f): raise NoMerge()
        return Enum(a.v, [mv(c, x, y) for x, y in zip(a.f, b.f)], a.tag)
    if isinstance(a, Ptr):
        if a.obj != b.obj or len(a.path) != len(b.path): raise NoMerge()
        path = []
        for x, y in zip(a.path, b.path):
            if x == y if not (isz(x[-1]) or isz(y[-1])) else False: path.append(x); continue
            if x[0] == 'e' == y[0]: path.append(('e', mv(c, x[1], y[1]))); continue
            raise NoMerge()
        m = a.meta if a.meta is None and b.meta is None else mv(c, a.meta, b.meta)
        return Ptr(a.obj, tuple(path), m)
    if isinstance(a, Buf):
        if eq(a.size, b.size) is not True: raise NoMerge()
        if a.node is b.node: return a
        if not E.CUR[0].usesbits: raise NoMerge()
        # one more operation on one of the two paths: a conditional operation
        for x, y, d in ((a.node, b.node, c), (b.node, a.node, neg(c))):
            if isinstance(x, NWrite) and x.prev is y: return a.with_node(NWrite(y, x.i, x.v, conj(d, x.c)))
            if isinstance(x, NTake) and x.prev is y: return a.with_node(NTake(y, x.i, conj(d, x.c)))
        raise NoMerge()
    if isinstance(a, Bitset):
        for x, y, d in ((a, b, c), (b, a, neg(c))):
            if x.prev is y and x.op: return x.guarded(d, y)
        raise NoMerge()
    if isinstance(a, BitIter):
        if a.s is not b.s: raise NoMerge()
        return BitIter(a.s, mv(c, a.a, b.a), mv(c, a.b, b.b))
    if isinstance(a, Host):
        return Host(mv(c, a.len, b.len), mv(c, a.buf, b.buf))
    if isinstance(a, SliceIter):
        return SliceIter(mv(c, a.p, b.p), mv(c, a.i, b.i), mv(c, a.n, b.n), a.mut)
    if isinstance(a, Opaque): return a
    if isinstance(a, User) and a.gid == b.gid: return a
    if isinstance(a, Fn): return a
    if isinstance(a, Abs) and a.seq is b.seq: return a
    raise NoMerge()

# ------------------------------------------------------------------ closed forms
class Const:
    def __init__(self, v): self.v = v
    def at(self, k): return self.v
    def inv(self, i): raise Undecided('loop writes the same cell repeatedly')
class Lin:
    def __init__(self, v0, s): self.v0 = v0; self.s = s
    def at(self, k): return add(self.v0, mul(self.s, k))
    def inv(self, i):
        if self.s == 1: return True, sub(i, self.v0)
        if self.s == -1: return True, sub(self.v0, i)
        raise Undecided('strided loop')
class Wrap:
    def __init__(self, x0, s, N): self.x0 = x0; self.s = s; self.N = N
    def at(self, k):
        return wrap(add(self.x0, k), self.N) if self.s == 1 else wrapm(sub(self.x0, k), self.N)
    def inv(self, i):
        d = sub(i, self.x0) if self.s == 1 else sub(self.x0, i)
        return conj(le(0, i), lt(i, self.N)), wrapm(d, self.N)
class Nth:
    "k-th element of a strictly increasing enumeration (set bits of a bitmap)"
    def __init__(self, f, r, mem, a): self.f = f; self.r = r; self.mem = mem; self.a = a
    def at(self, k): return self.f(zi(self.a.at(k)))
    def inv(self, i):
        v, j = self.a.inv(self.r(zi(i)))
        return conj(v, self.mem(i)), j
class App:
    def __init__(self, d, kids): self.d = d; self.kids = kids
    def at(self, k): return self.d(*[zi(x.at(k)) if not isinstance(x.at(k), bool) else zb(x.at(k)) for x in self.kids])
    def inv(self, i): raise Undecided('no inverse')
class Any:
    def __init__(self, sort):
        self.f = z3.Function(fresh_name('any'), z3.IntSort(), sort)
    def at(self, k): return self.f(zi(k))
    def inv(self, i): raise Undecided('no inverse')
class Struct:
    def __init__(self, mk, kids): self.mk = mk; self.kids = kids
    def at(self, k): return self.mk([x.at(k) for x in self.kids])

def fit_int(eng, st, vs):
    if all(eq(v, vs[0]) is True for v in vs): return Const(vs[0])
    # enumeration of a bitmap
    for (f, r, mem, cnt) in eng.enums.values():
        if all(isz(v) and v.num_args() == 1 and v.decl().eq(f) for v in vs):
            return Nth(f, r, mem, fit_int(eng, st, [v.arg(0) if not z3.is_int_value(v.arg(0)) else v.arg(0).as_long() for v in vs]))
    ds = [sub(b, a) for a, b in zip(vs, vs[1:])]
    if all(type(d) is int for d in ds) and len(set(ds)) == 1: return Lin(vs[0], ds[0])
    if all(eng.proves(st, eq(d, ds[0])) for d in ds[1:]):
        for s in (0, 1, -1):
            if eng.proves(st, eq(ds[0], s)): return Lin(vs[0], s) if s else Const(vs[0])
    for N in eng.moduli:
        for s in (1, -1):
            w = Wrap(vs[0], s, N)
            if not eng.proves(st, conj(le(0, vs[0]), lt(vs[0], N))): break
            if all(eng.proves(st, eq(v, w.at(n))) for n, v in enumerate(vs)): return w
    if all(isz(v) for v in vs) and vs[0].num_args() > 0 and z3.is_app(vs[0]):
        r = fit_app(eng, st, vs)
        if r: return r
    raise NoFit()
def fit_app(eng, st, vs):
    d = vs[0].decl()
    if d.kind() != z3.Z3_OP_UNINTERPRETED or not all(isz(v) and v.decl().eq(d) for v in vs): return None
    kids = []
    for n in range(d.arity()):
        a = [v.arg(n) for v in vs]
        if d.domain(n) == z3.IntSort(): kids.append(fit_int(eng, st, [nrm(x) for x in a]))
        elif d.domain(n) == V: kids.append(fit_v(eng, st, a))
        else:
            if not all(x.eq(a[0]) for x in a): raise NoFit()
            kids.append(Const(a[0]))
    return App(d, kids)
class BoolOp:
    def __init__(self, mk, kids): self.mk = mk; self.kids = kids
    def at(self, k): return self.mk(*[x.at(k) for x in self.kids])
    def inv(self, i): raise Undecided('no inverse')
BOOLOPS = {z3.Z3_OP_AND: conj, z3.Z3_OP_OR: disj, z3.Z3_OP_NOT: neg, z3.Z3_OP_LE: le, z3.Z3_OP_LT: lt, z3.Z3_OP_GE: lambda a, b: le(b, a), z3.Z3_OP_GT: lambda a, b: lt(b, a)}
def fit_bool(eng, st, vs):
    "a condition of the same shape in every iteration"
    d = vs[0].decl(); mk = BOOLOPS.get(d.kind())
    if mk is None or not all(v.decl().kind() == d.kind() and v.num_args() == vs[0].num_args() for v in vs): return None
    def n(x): return x.as_long() if z3.is_int_value(x) else nrm(x)
    return BoolOp(mk, [fit(eng, st, [n(v.arg(i)) for v in vs]) for i in range(vs[0].num_args())])
def fit_v(eng, st, vs):
    if all(v.eq(vs[0]) for v in vs): return Const(vs[0])
    r = fit_app(eng, st, vs)
    if r: return r
    raise NoFit()
def fit(eng, st, vs):
    a = vs[0]
    if all(v is a for v in vs): return Const(a)
    if any(v is POISON for v in vs): raise NoFit()
    if any(v is UNINIT for v in vs): raise NoFit()
    if isinstance(a, bool) or (isz(a) and z3.is_bool(a)):
        if all((isinstance(v, bool) or isz(v)) and eq(v, a) is True for v in vs): return Const(a)
        if all(isz(v) and z3.is_bool(v) for v in vs):
            r = fit_app(eng, st, vs) or fit_bool(eng, st, vs)
            if r: return r
        raise NoFit()
    if isinstance(a, int) or (isz(a) and a.sort() == z3.IntSort()):
        if not all(isinstance(v, int) or (isz(v) and v.sort() == z3.IntSort()) for v in vs): raise NoFit()
        return fit_int(eng, st, vs)
    if isz(a):
        if not all(isz(v) and v.sort() == a.sort() for v in vs): raise NoFit()
        return fit_v(eng, st, vs)
    if not all(type(v) is type(a) for v in vs): raise NoFit()
    if isinstance(a, Agg):
        if not all(len(v.f) == len(a.f) for v in vs): raise NoFit()
        return Struct(lambda xs: Agg(xs, a.tag), [fitp(eng, st, [v.f[n] for v in vs]) for n in range(len(a.f))])
    if isinstance(a, Enum):
        if not all(v.v == a.v for v in vs): raise NoFit()
        return Struct(lambda xs: Enum(a.v, xs, a.tag), [fitp(eng, st, [v.f[n] for v in vs]) for n in range(len(a.f))])
    if isinstance(a, Ptr):
        if not all(v.obj == a.obj and len(v.path) == len(a.path) for v in vs): raise NoFit()
        ks = []
        for n, e in enumerate(a.path):
            if not all(v.path[n][0] == e[0] for v in vs): raise NoFit()
            if e[0] == 'e': ks.append(fit_int(eng, st, [v.path[n][1] for v in vs]))
            else:
                if not all(v.path[n] == e for v in vs): raise NoFit()
                ks.append(Const(e))
        if a.meta is None: ks.append(Const(None))
        else: ks.append(fit_int(eng, st, [v.meta for v in vs]))
        def mk(xs):
            return Ptr(a.obj, tuple(('e', x) if e[0] == 'e' else e for x, e in zip(xs, a.path)), xs[-1])
        return Struct(mk, ks)
    if isinstance(a, SliceIter):
        return Struct(lambda xs: SliceIter(xs[0], xs[1], xs[2], a.mut), [fit(eng, st, [v.p for v in vs]), fit_int(eng, st, [v.i for v in vs]), fit_int(eng, st, [v.n for v in vs])])
    if isinstance(a, Host):
        n = fit(eng, st, [v.len for v in vs])
        try: b = fit(eng, st, [v.buf for v in vs])
        except NoFit: b = ShiftFit(eng, st, vs, n)
        return Struct(lambda xs: Host(*xs), [n, b])
    if isinstance(a, Buf): return BufFit(eng, st, vs)
    if isinstance(a, Abs): return AbsFit(eng, st, vs)
    if isinstance(a, Bitset): return BitsetFit(eng, st, vs)
    if isinstance(a, BitIter) and all(v.s is a.s for v in vs):
        return Struct(lambda xs: BitIter(a.s, xs[0], xs[1]), [fit_int(eng, st, [v.a for v in vs]), fit_int(eng, st, [v.b for v in vs])])
    if isinstance(a, ExtMap): return Const(a)
    if isinstance(a, Opaque): return Const(a)
    if isinstance(a, User):
        if all(v.gid == a.gid for v in vs): return Const(a)
    if isinstance(a, Fn): return Const(a)
    raise NoFit()
def fitp(eng, st, vs):
    "fit, or POISON when the value follows no closed form (it must then not be read)"
    try: return fit(eng, st, vs)
    except NoFit: return Const(POISON)
class BufFit:
    def __init__(self, eng, st, vs):
        self.b0 = vs[0]; its = []
        for a, b in zip(vs, vs[1:]):
            ops = []; n = b.node
            while n is not a.node:
                if isinstance(n, NWrite): ops.append(('w', n.i, n.v, n.c))
                elif isinstance(n, NTake): ops.append(('t', n.i, None, n.c))
                else: raise NoFit()
                n = n.prev
            its.append(ops[::-1])
        if not all([o[0] for o in x] == [o[0] for o in its[0]] for x in its): raise NoFit()
        self.ops = []
        for n, o in enumerate(its[0]):
            idx = fit_int(eng, st, [x[n][1] for x in its])
            if o[0] == 'w':
                try: v = fit(eng, st, [x[n][2] for x in its])
                except NoFit: v = Any(V if vs[0].sort == 'V' else z3.IntSort())
                self.ops.append(('w', idx, v, fit(eng, st, [x[n][3] for x in its])))
            else: self.ops.append(('t', idx, None, fit(eng, st, [x[n][3] for x in its])))
    def at(self, k):
        return Buf(self.b0.size, NLoop(self.b0.node, k, self.ops), self.b0.sort)
    def consec(self, eng, st, cur, back, k):
        ops = []; n = back.node
        while n is not cur.node:
            if isinstance(n, NWrite): ops.append(('w', n.i, n.v, n.c))
            elif isinstance(n, NTake): ops.append(('t', n.i, None, n.c))
            else: return False
            n = n.prev
            if n is None: return False
        ops = ops[::-1]
        if [o[0] for o in ops] != [o[0] for o in self.ops]: return False
        for o, f in zip(ops, self.ops):
            if not eng.proves(st, eq(o[1], f[1].at(k))): return False
            if not same(eng, st, o[3], f[3].at(k)): return False
            if o[0] == 'w' and not isinstance(f[2], Any) and not eng.proves(st, eq(o[2], f[2].at(k))): return False
        return True
class ShiftFit:
    "an inline array losing, or gaining, one element at a fixed position p per iteration: what is above p moves"
    def __init__(self, eng, st, vs, n):
        self.b0 = vs[0].buf; self.n = n; self.n0 = vs[0].len; ps = []; ws = []
        for a, b in zip(vs, vs[1:]):
            m = b.buf.node; c = []; w = []
            while m is not a.buf.node:
                if m is None: raise NoFit()
                if isinstance(m, NCopy): c.append(m)
                elif isinstance(m, NWrite): w.append(m)
                elif not isinstance(m, (NTake, NRelease)): raise NoFit()
                m = m.prev
            if len(c) != 1 or len(w) > 1: raise NoFit()
            ps.append((c[0].dst, c[0].so)); ws.append([m.v for m in w])
        up = eng.proves(st, lt(ps[0][1], ps[0][0])); self.p = ps[0][1] if up else ps[0][0]
        if not all(eng.proves(st, eq(x[1] if up else x[0], self.p)) for x in ps): raise NoFit()
        self.v = None
        if up:
            if not all(ws): raise NoFit()
            self.v = fit(eng, st, [w[0] for w in ws])
        for k, v in enumerate(vs):
            if not self.agrees(eng, st, v.buf, v.len, k): raise NoFit()
    def cell(self, eng, st, i, n, k):
        b0, p = self.b0, self.p
        if self.v is None: parts = [(lt(i, p), lambda s: b0.val(eng, s, i)), (True, lambda s: b0.val(eng, s, add(i, sub(self.n0, n))))]
        else: parts = [(lt(i, p), lambda s: b0.val(eng, s, i)), (lt(i, add(p, k)), lambda s: self.v.at(sub(sub(k, 1), sub(i, p)))), (True, lambda s: b0.val(eng, s, sub(i, k)))]
        acc = []; neq = []
        for c, f in parts:
            g = conj(c, *neq); t = eng.tri(st, g)
            if t is not False: acc.append((g, f(eng.under(st, g))))
            if t is True: break
            neq.append(neg(c))
        r = acc[-1][1]
        for c, v in acc[-2::-1]: r = ite(c, v, r)
        return r
    def agrees(self, eng, st, b, n, k):
        s = st.copy(); i = eng.skolem(s, 0, self.b0.size)
        try:
            if not eng.proves(s, zb(b.own(eng, s, i)) == zb(lt(i, n))): return False
            s.add(lt(i, n))
            return not eng.sat(s) or eng.proves(s, eq(b.val(eng, s, i), self.cell(eng, s, i, n, k)))
        except (Violated, Undecided): return False
    def at(self, k):
        n = self.n.at(k)
        return Buf(self.b0.size, NBase(lambda e, s, i: self.cell(e, s, i, n, k), lambda e, s, i: conj(le(0, i), lt(i, n))), self.b0.sort)
    def consec(self, eng, st, cur, back, k): return self.agrees(eng, st, back, self.n.at(add(k, 1)), add(k, 1))
class BitsetFit:
    "every iteration sets or clears one bit, possibly under a condition"
    def __init__(self, eng, st, vs):
        self.b0 = vs[0]; self.size = vs[0].size; os = []
        for a, b in zip(vs, vs[1:]):
            if b.prev is not a or not b.op: raise NoFit()
            os.append(b.op)
        if len({o[2] for o in os}) != 1: raise NoFit()
        self.val = os[0][2]; self.idx = fit_int(eng, st, [o[1] for o in os]); self.cond = fit(eng, st, [o[3] for o in os])
        try: self.card = fit_int(eng, st, [v.card for v in vs])
        except NoFit: self.card = None
        self.win = None
        ws = [v.win or (v, 0, v.card) for v in vs]
        if all(w[0] is ws[0][0] and eng.proves(st, eq(w[2], ws[0][2])) for w in ws):
            try: self.win = (fit_int(eng, st, [w[1] for w in ws]), ws[0][0], ws[0][2])
            except NoFit: pass
    def at(self, k):
        b = self.b0; x = self
        def mem(i):
            v, j = x.idx.inv(i)
            c = conj(v, le(0, j), lt(j, k), x.cond.at(j))
            return disj(c, b.mem(i)) if x.val else conj(neg(c), b.mem(i))
        if self.card is not None: card = self.card.at(k)
        else: card = z3.Function(fresh_name('cards'), z3.IntSort(), z3.IntSort())(zi(k))
        win = None
        if self.win:
            f, base, b0 = self.win
            win = (base, f.at(k), b0)
        return Bitset(mem, card, b.size, win=win)
    def consec(self, eng, st, cur, back, k):
        if self.win and not (back.win and back.win[0] is self.win[1] and eng.proves(st, conj(eq(back.win[1], self.win[0].at(add(k, 1))), eq(back.win[2], self.win[2])))): return False
        if back.prev is not cur or not back.op or back.op[2] != self.val: return False
        if not eng.proves(st, eq(back.op[1], self.idx.at(k))) or not same(eng, st, back.op[3], self.cond.at(k)): return False
        return self.card is None or eng.proves(st, eq(back.card, self.card.at(add(k, 1))))
class AbsFit:
    def __init__(self, eng, st, vs):
        self.a0 = vs[0]; its = []
        for a, b in zip(vs, vs[1:]):
            ops = []; n = b.seq
            while n is not a.seq:
                if n is None or n.op is None: raise NoFit()
                ops.append(n.op); n = n.prev
            its.append(ops[::-1])
        if not all([o[0] for o in x] == [o[0] for o in its[0]] for x in its): raise NoFit()
        names = [o[0] for o in its[0]]
        if len(names) == 0: self.kind = 'same'; return
        if len(names) != 1: raise NoFit()
        self.kind = names[0]
        if self.kind in ('append', 'prepend'):
            try: self.v = fit(eng, st, [x[0][1] for x in its])
            except NoFit: self.v = Any(its[0][0][1].sort())
        elif self.kind in ('popfront', 'popback'):
            if not all(x[0][1] == 1 for x in its): raise NoFit()
        elif self.kind == 'mapset':
            self.i = fit_int(eng, st, [x[0][1] for x in its])
            self.v = fit(eng, st, [x[0][2] for x in its])
        else: raise NoFit()
    def at(self, k):
        s = self.a0.seq
        if self.kind == 'same': return self.a0
        if self.kind == 'mapset':
            return Abs(self.a0.kind, self.a0.ty, s.setloop(k, self.i, self.v))
        if self.kind == 'append':
            v = self.v
            r = s.concat(Seq(k, lambda eng, st, i: v.at(i)))
        elif self.kind == 'prepend':
            v = self.v
            r = Seq(k, lambda eng, st, i: v.at(sub(sub(k, 1), i))).concat(s)
        elif self.kind == 'popfront': r = s.popfront(k)
        else: r = s.take(sub(s.len, k))
        return Abs(self.a0.kind, self.a0.ty, r)
    def consec(self, eng, st, cur, back, k):
        if self.kind == 'same': return back.seq is cur.seq
        n = back.seq
        if n.prev is not cur.seq or n.op[0] != self.kind: return False
        if self.kind in ('append', 'prepend'):
            return isinstance(self.v, Any) or eng.proves(st, eq(n.op[1], self.v.at(k)))
        if self.kind == 'mapset':
            return eng.proves(st, conj(eq(n.op[1], self.i.at(k)), eq(n.op[2], self.v.at(k))))
        return n.op[1] == 1

def consecution(eng, st, f, cur, back, k):
    """does the state after iteration k+1 agree with the closed form?"""
    if isinstance(f, (BufFit, AbsFit, BitsetFit, ShiftFit)): return type(back) is type(cur) and f.consec(eng, st, cur, back, k)
    if isinstance(f, Const) and (f.v is POISON): return True
    want = f.at(add(k, 1))
    if isinstance(f, Struct):
        if type(want) is not type(back): return False
        if isinstance(back, (Agg, Enum)):
            if len(back.f) != len(want.f) or (isinstance(back, Enum) and back.v != want.v): return False
            return all(consecution(eng, st, x, y, z, k) for x, y, z in zip(f.kids, cur.f, back.f))
        if isinstance(back, Host):
            return consecution(eng, st, f.kids[0], cur.len, back.len, k) and consecution(eng, st, f.kids[1], cur.buf, back.buf, k)
    return same(eng, st, want, back)
def same(eng, st, a, b):
    if a is b: return True
    if isinstance(a, (int, bool)) or isz(a):
        if not (isinstance(b, (int, bool)) or isz(b)): return False
        if isz(a) and isz(b) and a.sort() != b.sort(): return False
        return eng.proves(st, eq(a, b))
    if type(a) is not type(b): return False
    if isinstance(a, (Agg, Enum)):
        if len(a.f) != len(b.f) or (isinstance(a, Enum) and a.v != b.v): return False
        return all(same(eng, st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Ptr):
        if a.obj != b.obj or len(a.path) != len(b.path) or (a.meta is None) != (b.meta is None): return False
        for x, y in zip(a.path, b.path):
            if x[0] != y[0]: return False
            if x[0] == 'e':
                if not eng.proves(st, eq(x[1], y[1])): return False
            elif x != y: return False
        return a.meta is None or eng.proves(st, eq(a.meta, b.meta))
    if isinstance(a, SliceIter): return same(eng, st, a.p, b.p) and same(eng, st, a.i, b.i) and same(eng, st, a.n, b.n)
    if isinstance(a, Buf): return a.node is b.node
    if isinstance(a, BitIter): return a.s is b.s and same(eng, st, a.a, b.a) and same(eng, st, a.b, b.b)
    if isinstance(a, Host): return same(eng, st, a.len, b.len) and same(eng, st, a.buf, b.buf)
    if isinstance(a, Abs): return a.seq is b.seq
    if isinstance(a, User): return a.gid == b.gid
    if isinstance(a, Opaque): return True
    if isinstance(a, Fn): return a.c is b.c or a.c == b.c
    return a is b

# ------------------------------------------------------------------ the loop rule
def log_since(l, base):
    r = []
    while l is not base:
        if not l: raise NoFit()
        r.append(l[1]); l = l[0]
    return r[::-1]
def fit_events(eng, st, logs):
    its = [log_since(b, a) for a, b in zip(logs, logs[1:])]
    if not all([e[0] for e in x] == [e[0] for e in its[0]] for x in its): raise NoFit()
    out = []
    for n, e in enumerate(its[0]):
        fs = []
        for m in range(1, len(e)):
            vs = [x[n][m] for x in its]
            if isinstance(vs[0], (str, tuple)): fs.append(Const(vs[0])); continue
            try: fs.append(fit(eng, st, vs))
            except NoFit: fs.append(Const(POISON))
        out.append((e[0], fs))
    return out

class Closed:
    "closed form of the whole state"
    def __init__(self, eng, samples):
        last = samples[-1]; self.s0 = samples[0]; self.heap = {}; self.ghost = {}
        for o, v in self.s0.heap.items():
            if not all(o in s.heap for s in samples): self.heap[o] = Const(POISON); continue
            vs = [s.heap[o] for s in samples]
            if all(x is v for x in vs): continue
            self.heap[o] = fitp(eng, last, vs)
        for g in set().union(*[set(s.ghost) for s in samples]):
            vs = [s.ghost.get(g, 0) for s in samples]
            self.ghost[g] = fitp(eng, last, vs)
        self.extra = {o: v for o, v in last.heap.items() if o not in self.s0.heap}
        self.events = None
        try: self.events = fit_events(eng, last, [s.log for s in samples])
        except NoFit: self.events = [('poison', [])]
    def fits(self):
        def walk(f):
            yield f
            if isinstance(f, Struct):
                for x in f.kids: yield from walk(x)
            elif isinstance(f, BufFit):
                for o in f.ops:
                    for x in o[1:]:
                        if x is not None: yield from walk(x)
            elif isinstance(f, BitsetFit):
                for x in (f.idx, f.cond)+((f.card,) if f.card else ()): yield from walk(x)
            elif isinstance(f, AbsFit) and hasattr(f, 'v'): yield from walk(f.v)
            elif isinstance(f, (App, BoolOp)):
                for x in f.kids: yield from walk(x)
            elif isinstance(f, Nth): yield from walk(f.a)
        for f in list(self.heap.values())+list(self.ghost.values()): yield from walk(f)
    def state(self, eng, k):
        s = self.s0.copy()
        for o, f in self.heap.items(): s.heap[o] = f.at(k)
        for g, f in self.ghost.items(): s.ghost[g] = f.at(k)
        for o, v in self.extra.items(): s.heap.setdefault(o, v)
        if self.events: s.log = (s.log, ('loop', k, self.events))
        return s
    def inductive(self, eng, cur, back, k):
        for o, v in cur.heap.items():
            f = self.heap.get(o)
            b = back.heap.get(o)
            if b is None: 
                if f is None: return 'object gone'
                continue
            if f is None:
                if b is not v and not same(eng, back, v, b): return 'value %r changes to %r' % (v, b)
            elif not consecution(eng, back, f, v, b, k): return '%r is not the closed form %r' % (b, f.at(add(k, 1)))
        for g in set(cur.ghost) | set(back.ghost):
            f = self.ghost.get(g)
            if f is None: return 'ghost'
            if not consecution(eng, back, f, cur.ghost.get(g), back.ghost.get(g), k): return 'ghost %s' % (g,)
        if self.events and self.events[0][0] != 'poison':
            evs = log_since(back.log, cur.log)
            if [e[0] for e in evs] != [e[0] for e in self.events]: return 'events'
            for e, (nm, fs) in zip(evs, self.events):
                for x, f in zip(e[1:], fs):
                    if isinstance(x, (str, tuple)):
                        if f.v != x: return 'event'
                        continue
                    if isinstance(f, Const) and f.v is POISON: continue
                    if not same(eng, back, f.at(k), x): return 'event'
        elif not self.events and back.log is not cur.log: return 'events'
        return None

def iterate(eng, fr, st, head, region):
    outs = eng.explore(fr, [(st, head)], region, head)
    backs = [o for o in outs if o[1] == 'back']
    rest = [o for o in outs if o[1] != 'back']
    if len(backs) > 1: backs = merge_rets(eng, st.pc, backs, 'back')
    backs = [b for b in backs if eng.sat(b[0])]
    return [b[0] for b in backs], rest

MAXUNROLL = 3; MAXPHASES = 4
class Multi(Exception): "the iterations of the loop take different paths"
def loop(eng, fr, st, head, region, depth=0):
    nob, q0, sp0, nl = len(eng.obls), eng.quiet, len(eng.spans), eng.nloops
    def reset(): del eng.obls[nob:]; del eng.spans[sp0:]; eng.quiet = q0; eng.nloops = nl
    try: return simple(eng, fr, st, head, region)
    except Multi as e:
        reset()
        if depth: return phased(eng, fr, st, head, region, depth, str(e))
        why = str(e)
    try: return search(eng, fr, st, head, region)
    except (NoInduct, Poisoned, Undecided) as e:
        if DEBUG: print('SEARCH', fr.name, e)
        reset()
    return phased(eng, fr, st, head, region, depth, why)
def phased(eng, fr, st, head, region, depth, why):
    """A loop whose iterations take different paths: the iterations along one path get a closed form, proved inductive; an iteration
    along any other path, taken after an arbitrary number of those, leaves this phase for the next one."""
    if depth >= MAXPHASES: raise Undecided(why)
    nob, q0, sp0 = len(eng.obls), eng.quiet, len(eng.spans)
    nl = eng.nloops
    def reset(): del eng.obls[nob:]; del eng.spans[sp0:]; eng.quiet = q0; eng.nloops = nl
    eng.quiet += 1
    try:
        chains = [[st]]
        for _ in range(3):
            nxt = []
            for c in chains:
                b, _r = iterate(eng, fr, c[-1], head, region)
                nxt += [c+[x] for x in b]
            chains = nxt
            if not chains or len(chains) > 27: break
    finally: eng.quiet -= 1
    def go(s): return loop(eng, fr, s, head, region, depth+1)
    if chains and len(chains) <= 27:
        for c in chains:
            try: return closed(eng, fr, c, head, region, go)
            except (NoInduct, Poisoned, Undecided) as e: reset()
    backs, out = iterate(eng, fr, st, head, region)
    for b in backs: out = out+go(b)
    return out
# ------------------------------------------------------------------ loops that only compute indices (searches)
def search(eng, fr, st, head, region):
    """A loop that changes nothing but scalars (a binary search): the scalars are forgotten and an invariant is selected from a set of
    candidates - bounds, differences, and what the comparisons made so far say about the elements at the ends of the interval - by
    dropping those that are not inductive (Houdini).  What remains is proved inductive; it may be too weak for what follows, so an
    obligation that cannot be proved after such a loop counts as unknown, never as failed."""
    from specs_common import order_fact
    def quietly(s):
        eng.quiet += 1
        try: return iterate(eng, fr, s, head, region)[0]
        finally: eng.quiet -= 1
    def changed(a, b): return {o for o, v in a.heap.items() if b.heap.get(o) is not v and not (o in b.heap and same(eng, b, v, b.heap[o]))}
    mod = {}; front = [st]
    for _ in range(2):
        nxt = [b for s in front for b in quietly(s)]
        if len(nxt) > 12: raise NoInduct('too many paths')
        for b in nxt:
            for o in changed(st, b): mod.setdefault(o, [st.heap[o]]).append(b.heap.get(o))
        front = nxt
    if not front: raise NoInduct('no second iteration')
    hs = []     # (fresh symbol, how to read it off a state)
    def forget(vs, get):
        v = vs[0]
        if any(x is UNINIT or x is POISON or x is None for x in vs): return POISON
        if all(type(x) is int or (isz(x) and x.sort() == z3.IntSort()) for x in vs): h = fint('h'); hs.append((h, get)); return h
        if all(type(x) is type(v) for x in vs):
            if isinstance(v, Agg) and all(len(x.f) == len(v.f) for x in vs): return Agg([forget([x.f[n] for x in vs], lambda s, n=n: get(s).f[n]) for n in range(len(v.f))], v.tag)
            if isinstance(v, Enum) and all(x.v == v.v and len(x.f) == len(v.f) for x in vs): return Enum(v.v, [forget([x.f[n] for x in vs], lambda s, n=n: get(s).f[n]) for n in range(len(v.f))], v.tag)
            if isinstance(v, (Buf, Bitset, Abs, Host, User, BitIter)): raise NoInduct('the loop changes %r' % (v,))
        return POISON
    heap = {o: forget(vs, lambda s, o=o: s.heap[o]) for o, vs in mod.items()}
    if not hs or len(hs) > 5: raise NoInduct('scalars')
    H = [h for h, _ in hs]
    init = [g(st) for _, g in hs]
    new = {o for b in front for o in b.heap if o not in st.heap}
    def start(inv):
        s = st.copy()
        for o, v in heap.items(): s.heap[o] = v
        for o in new: s.heap[o] = POISON
        s.ghost['weak'] = 1
        for c in inv: s.add(c)
        return s
    def at(c, vals): return nrm(subst(c, list(zip(H, vals)))) if not isinstance(c, bool) else c
    # candidates
    T = {kid(zi(t)): t for t in [0, 1]+init+[sub(a, b) for a in init for b in init if a is not b]+[m for m in eng.moduli]}.values()
    cands = []
    for i, h in enumerate(H):
        cands += [le(t, h) for t in T]+[le(h, t) for t in T]+[lt(h, t) for t in T]+[lt(t, h) for t in T]+[le(h, MAXU)]
        for j, g in enumerate(H):
            if i != j: cands += [le(h, g), lt(h, g)]
            if i < j: cands += [le(add(h, g), t) for t in T]+[lt(add(h, g), t) for t in T]+[le(t, add(h, g)) for t in T]
    def keep(cs, s, vals):
        "the candidates that hold in s (dropping those a counterexample refutes)"
        todo = [(c, at(c, vals)) for c in cs]
        bad = [c for c, d in todo if d is False]; todo = [(c, d) for c, d in todo if not isinstance(d, bool)]
        out = set()
        while todo:
            m = eng.counterexample(s, disj(*[neg(d) for _, d in todo]))
            if m is None: break
            live = [(c, d) for c, d in todo if m and z3.is_true(m.eval(zb(d), model_completion=True))]
            if not m or len(live) == len(todo): live = [(c, d) for c, d in todo if eng.proves(s, d)]; m = None
            out |= {kid(zb(c)) for c, d in todo} - {kid(zb(c)) for c, d in live}
            todo = live
            if m is None: break
        out |= {kid(zb(c)) for c in bad}
        return [c for c in cs if kid(zb(c)) not in out]
    from specs_common import leF
    elems = {}; keys = {}; tested = {}
    def ins(S, j): return conj(le(0, j), lt(j, S.len))
    def facts(b, base):
        for e in log_since(b.log, base):
            if e[0] == 'order':
                b.add(order_fact(*e[1:]))
        vals = [g(b) for _, g in hs]
        for kz, (j, z) in elems.items():
            j2, z2 = at(j, vals), at(z, vals)
            for j1, x in ([(j, z)] if kz not in tested else [])+list(tested.values()):
                z = z2
                b.add(implies(conj(le(0, j1), le(j1, j2), lt(j2, eng.sorted.len)), leF(x, z))); b.add(implies(conj(le(0, j2), le(j2, j1), lt(j1, eng.sorted.len)), leF(z, x)))
                for y in keys.values():
                    for u, v, w in ((x, z, y), (z, x, y), (y, x, z), (y, z, x)): b.add(implies(conj(leF(u, v), leF(v, w)), leF(u, w)))
    def houdini(cs):
        for _ in range(12):
            s = start(cs); n = len(cs); base = s.log
            for b in quietly(s):
                b = b.copy(); facts(b, base)
                if eng.sat(b): cs = keep(cs, b, [g(b) for _, g in hs])
            if len(cs) == n: return cs
        raise NoInduct('invariant')
    inv = houdini(keep(cands, st, init))
    # the comparisons made: what they say about the elements at the ends of what is still to be searched (contents sorted: see the spec)
    olits = []; S = eng.sorted
    if S is not None:
        s = start(inv); lit = {}
        for b in quietly(s):
            for e in log_since(b.log, s.log):
                if e[0] != 'order': raise NoInduct('the loop does %s' % e[0])
                for x, y in ((e[3], e[4]), (e[4], e[3])):
                    if not any(h.decl().name() in consts_of(x) for h in H): continue
                    for D in divs(x) or H:
                        js = [j for j in [add(h, D) for h in H]+[D]+[add(add(h, g), D) for h in H for g in H] if eng.proves(b, implies(ins(S, j), eq(x, S.at(eng, b.copy(), j))))]
                        if not js: continue
                        for t in [0, 1, -1]+[add(c, d) for c in H+[sub(g, h) for g in H for h in H if g is not h] for d in (0, -1, 1)]:
                            j = at(subst(js[0], [(D, t)]), H); z = S.at(eng, b.copy(), j)
                            for l in (leF(z, y), leF(y, z), neg(leF(z, y)), neg(leF(y, z))):
                                c = implies(ins(S, j), l)
                                if isz(c): lit.setdefault(kid(c), c); elems[kid(z)] = (j, z); keys[kid(y)] = y; tested[kid(x)] = (js[0], x)
        if lit and len(lit) < 600:
            olits = houdini(inv+keep(list(lit.values()), st, init))
            inv = [c for c in olits if kid(zb(c)) not in lit]; olits = [c for c in olits if kid(zb(c)) in lit]
    # the loop itself, under the invariant
    if DEBUG: print('SEARCH', fr.name, 'init', init, 'inv', inv, 'order', olits)
    s = start(inv); base = s.log
    s.log = (s.log, ('orderinv', tuple(olits), tuple(H)))
    top = s.copy()
    backs, rest = iterate(eng, fr, s, head, region)
    ranks = H+[neg_(h) for h in H]+[sub(g, h) for g in H for h in H if g is not h]
    for b in backs:
        if changed(top, b)-set(heap): raise NoInduct('the loop changes something else')
        if any(b.ghost.get(g) is not top.ghost.get(g) and not same(eng, b, top.ghost.get(g), b.ghost.get(g)) for g in set(b.ghost) | set(top.ghost)): raise NoInduct('ghost')
        vals = [g(b) for _, g in hs]; b2 = b.copy()
        for c in olits: b2.add(c)
        facts(b2, top.log)
        if any(e[0] != 'order' for e in log_since(b.log, top.log)): raise NoInduct('events')
        if len(keep(inv+olits, b2, vals)) < len(inv)+len(olits): raise NoInduct('invariant')
        ranks = [r for r in ranks if eng.proves(b, lt(at(r, vals), r)) and any(eng.proves(top, le(t, r)) for t in [0]+[neg_(t) for t in T])]
    eng.nloops += 1
    if not eng.quiet:
        if ranks: o = E.Obl('term', 'the loop in %s ends' % fr.name, eng.where()); o.status = 'proved'; eng.obls.append(o)
        else: eng.assumed.add('the loop in %s ends' % fr.name)
    return rest
def neg_(t): return sub(0, t)
def divs(x):
    r = {}; st = [x]
    while st:
        e = st.pop()
        if z3.is_app_of(e, z3.Z3_OP_IDIV): r[e.get_id()] = e
        st += e.children()
    return list(r.values())
def simple(eng, fr, st, head, region):
    nob = len(eng.obls)
    samples = [st]; prefix = []; rests = []
    cur = [st]; marks = [nob]
    n = 0
    single = True
    while n < MAXUNROLL:
        nxt = []
        for s in cur:
            b, r = iterate(eng, fr, s, head, region)
            nxt += b; prefix += r
        rests.append(list(prefix)); marks.append(len(eng.obls))
        if not nxt: return prefix
        if len(nxt) > 1: single = False
        if not single and n >= 1: raise Multi('loop whose iterations take different paths (%s)' % fr.name)
        cur = nxt; samples.append(nxt[0]); n += 1
    if not single: raise Multi('loop whose iterations take different paths (%s)' % fr.name)
    err = None
    for p in (0, 1, 2):
        # samples[p..] define the closed form; iterations before p are kept as executed
        while len(samples) < p+4:
            eng.quiet += 1
            try: b, r = iterate(eng, fr, samples[-1], head, region)
            finally: eng.quiet -= 1
            if not b:      # the loop is over after these iterations: it has been executed completely
                out = list(rests[-1])
                for x in samples[MAXUNROLL:]: out += iterate(eng, fr, x, head, region)[1]
                return out
            if len(b) != 1: raise Multi('loop sampling')
            samples.append(b[0])
        saved = eng.obls[marks[p]:]
        del eng.obls[marks[p]:]
        q0, s0 = eng.quiet, len(eng.spans)
        try:
            outs = closed(eng, fr, samples[p:p+4], head, region)
            return (rests[p-1] if p else []) + outs
        except (NoInduct, Poisoned) as e:
            eng.quiet = q0; del eng.spans[s0:]; del eng.obls[marks[p]:]
            err = str(e); eng.obls += saved
    raise Undecided('no loop invariant found in %s: %s' % (fr.name, err))
class NoInduct(Exception): pass

def fresh_mark(): 
    import terms
    return terms._cnt[0]
def is_local(c, mark, keep):
    for nm in consts_of(c):
        if nm in keep: continue
        if '!' in nm:
            if int(nm.rsplit('!', 1)[1]) > mark: return True
    return False
def closed(eng, fr, samples, head, region, phase=None):
    """phase: what to do with the state after an iteration that does not continue the closed form (None: there may be none)"""
    try: C = Closed(eng, samples)
    except NoFit as e: raise NoInduct('no closed form')
    k = fint('k')
    s0 = samples[0]
    def start():
        s = C.state(eng, k); s.pc = s0.pc; s.add(le(0, k))
        if guard: s.event('loopfact', k, guard[0])
        return s
    guard = []
    # first pass: conditions under which iteration k goes round again
    mark = fresh_mark()
    eng.quiet += 1
    wr = [f for f in C.fits() if isinstance(f, Wrap)]
    bound = conj(*[le(k, n) for n in {kid(zi(f.N)): f.N for f in wr}.values()])
    q0, sp0 = eng.quiet, len(eng.spans)
    try:
        try:
            s = start(); s.add(bound); base = s.pc
            backs, _ = iterate(eng, fr, s, head, region)
        except Undecided:
            # tentative: counters stay within the storage (used for this pass only; proved below from the guards)
            eng.quiet = q0; del eng.spans[sp0:]
            extra = {kid(zb(c)): c for f in C.fits() if isinstance(f, Lin) and f.s == 1 for N in eng.moduli for c in [le(f.at(k), N)] if isz(c)}
            if not extra: raise
            bound = conj(bound, *extra.values())
            s = start(); s.add(bound); base = s.pc
            backs, _ = iterate(eng, fr, s, head, region)
    finally: eng.quiet = q0-1
    if not backs: raise NoInduct('closed form never iterates')
    alts = []; local = False
    if phase:
        eng.quiet += 1
        try: cont = [b for b in backs if not C.inductive(eng, s, b, k)]
        finally: eng.quiet -= 1
        if not cont: raise NoInduct('no path continues the closed form')
        backs = cont
    for b in backs:
        cs = conds_since(b.pc, base)
        alts.append([c for c in cs if not is_local(c, mark, {k.decl().name()})])
        local = local or len(alts[-1]) < len(cs)
    def PC(j): return disj(*[conj(*[subst(c, [(k, j)]) for c in a]) for a in alts])
    if any(mentions(c, 'eq') for a in alts for c in a): guard.append(PC)
    # points where a disequality guard would have stopped the loop
    pts = [sub(k, 1), 0] + list({kid(zi(f.N)): f.N for f in wr}.values())
    ln = [f for f in C.fits() if isinstance(f, Lin)]
    for a in alts:
        for e in [x for c in a for x in atoms(c)]:
            if not z3.is_eq(e) or e.arg(0).sort() != z3.IntSort(): continue
            x, y = e.arg(0), e.arg(1)
            for lx in leaves(x):
                for ly in leaves(y):
                    df = sub(lx, ly)
                    d, c0 = lin(df) if isz(df) else ({}, 0)
                    kk = d.get(kid(k))
                    if kk is not None and kk[1] in (1, -1):
                        j = sub(k, df) if kk[1] == 1 else add(k, df)
                        if not (isz(j) and k.decl().name() in consts_of(j)): pts.append(j)
            for f in wr:
                t = f.at(k)
                for u, w in ((x, y), (y, x)):
                    if isz(t) and u.eq(t) and k.decl().name() not in consts_of(w):
                        pts.append(f.inv(nrm(w))[1])
    ep, facts = ends(eng, [c for a in alts for c in a], k)
    pts += ep
    s = start()
    for j in pts:
        c = implies(conj(le(0, j), lt(j, k), subst(bound, [(k, j)])), PC(j))
        if c is not True: facts.append(c)
    if DEBUG:
        print('LOOP', fr.name, 'alts', alts, 'pts', pts)
    for c in facts: s.add(c)
    # wrapped indices visit distinct cells only for the first N iterations
    for f in C.heap.values():
        for g in walk_ops(f):
            if isinstance(g, Wrap) and not eng.proves(s, le(k, g.N)): raise NoInduct('iteration count not bounded by the modulus')
    nob = len(eng.obls)
    term = any(eng.proves(s, le(k, n)) for n in {kid(zi(f.N)): f.N for f in wr}.values()) or terminates(eng, s, alts, k, local)
    backs, rest = iterate(eng, fr, s, head, region)
    away = []
    for b in backs:
        why = C.inductive(eng, s, b, k)
        if phase and not why and not (PC(k) is True or eng.proves(b, PC(k))): why = 'another path'
        if why:
            if phase: away.append(b); continue
            del eng.obls[nob:]
            raise NoInduct(why)
    if phase and len(away) == len(backs): raise NoInduct('no path continues the closed form')
    eng.nloops += 1
    if not eng.quiet:
        if term is True: o = E.Obl('term', 'the loop in %s ends' % fr.name, eng.where()); o.status = 'proved'; eng.obls.append(o)
        elif term is False: o = E.Obl('term', 'the loop in %s ends' % fr.name, eng.where()); o.status = 'failed'; eng.obls.append(o)
        else: eng.assumed.add('the loop in %s ends' % fr.name); (DEBUG or os.environ.get('VC_TERM')) and print('TERM?', fr.name, alts)
    for b in away: rest = rest+phase(b)
    return rest
def terminates(eng, s, alts, k, local):
    """is the number of iterations bounded?  True: proved, False: an iteration depends on nothing that changes, None: not known"""
    kn = k.decl().name()
    if not any(kn in consts_of(c) for a in alts for c in a): return None if local else False
    for a in alts:
        u = s.copy()
        for c in a: u.add(c)
        if not eng.sat(u): continue
        cands = []
        for e in [x for c in a for x in atoms(c)]:
            if e.num_args() != 2 or e.arg(0).sort() != z3.IntSort(): continue
            d, c0 = lin(nrm(sub(e.arg(0), e.arg(1))))
            if kid(k) not in d: continue
            q = d[kid(k)][1]
            r = nrm(sub(sub(e.arg(0), e.arg(1)), mul(q, k)))
            if isz(r) and kn in consts_of(r): continue
            cands.append((abs(q), r))
        if not any(eng.proves(u, disj(le(mul(q, k), add(r, q)), le(mul(q, k), sub(q, r)))) for q, r in cands): return None
    return True
def atoms(c):
    st = [c]; r = []
    while st:
        x = st.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_implies(x): st += x.children()
        elif z3.is_eq(x) and z3.is_bool(x.arg(0)): st += x.children()
        else: r.append(x)
    return r
def ends(eng, cs, k):
    """for a loop which tests the indices of a set one by one: the iterations at which it tests the first and last member of the
    set, and the definition of the rank of the index tested now"""
    if not eng.enums: return [], []
    ts = {}; seen = set(); st = list(cs)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); st += x.children()
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name().startswith('mem_'): ts.setdefault(x.decl().name(), {})[x.arg(0).get_id()] = x.arg(0)
    r = []; facts = []
    for f, rk, mem, card in list(eng.enums.values()):
        m = mem(z3.Int('probe'))
        if not isz(m): continue
        for nm, us in ts.items():
            if not mentions(m, nm): continue
            for t in us.values():
                d, c0 = lin(nrm(t)); kk = d.get(kid(k))
                if kk is None or kk[1] not in (1, -1): continue
                o = sub(t, mul(kk[1], k))
                if isz(o) and k.decl().name() in consts_of(o): continue
                r += [mul(kk[1], sub(f(zi(n)), o)) for n in (0, sub(card, 1))]
                facts.append(implies(mem(t), conj(le(0, rk(zi(t))), lt(rk(zi(t)), card), eq(f(rk(zi(t))), t))))
    return r[:8], facts[:4]
def mentions(c, name):
    st = [c]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and x.decl().name() == name: return True
        st += x.children()
    return False
def leaves(e):
    "the alternatives of an if-then-else tree"
    st = [e]; r = []
    while st and len(r) < 8:
        x = st.pop()
        if z3.is_app_of(x, z3.Z3_OP_ITE): st += [x.arg(1), x.arg(2)]
        else: r.append(x)
    return r
def walk_ops(f):
    if isinstance(f, BufFit):
        for o in f.ops: yield o[1]
    elif isinstance(f, Struct):
        for x in f.kids: yield from walk_ops(x)
