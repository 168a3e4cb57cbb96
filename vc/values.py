"""Immutable symbolic values."""
import z3
from terms import *

CUR = [None]
class Undecided(Exception):
    def __init__(self, *a):
        Exception.__init__(self, *a)
        self.spans = list(CUR[0].spans) if CUR[0] else []
class Poisoned(Undecided): pass
class Violated(Exception):
    """raised to stop a path on which an obligation has certainly failed"""
class Split(Exception):
    def __init__(self, cond): self.cond = cond

class _S:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
UNINIT = _S('UNINIT'); POISON = _S('POISON'); UNIT = None

class Agg:
    __slots__ = ('f', 'tag')
    def __init__(self, f, tag=None): self.f = tuple(f); self.tag = tag
    def __repr__(self): return 'Agg%s' % (self.f,)
class Enum:
    __slots__ = ('v', 'f', 'tag')
    def __init__(self, v, f, tag=None): self.v = v; self.f = tuple(f); self.tag = tag
    def __repr__(self): return 'Enum#%d%s' % (self.v, self.f)
class Ptr:
    """obj: heap id or None (dangling); path: tuple of projections; meta: slice length or None"""
    __slots__ = ('obj', 'path', 'meta')
    def __init__(self, obj, path=(), meta=None): self.obj = obj; self.path = path; self.meta = meta
    def __repr__(self): return 'Ptr(%s,%s,%s)' % (self.obj, self.path, self.meta)
class Fn:
    __slots__ = ('c',)
    def __init__(self, c): self.c = c
class Opaque:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __repr__(self): return 'Opaque(%s)' % self.t
class User:
    """A value of a type parameter that is user code (iterator, hasher, range ...), identified by a ghost object."""
    __slots__ = ('kind', 'gid', 'item')
    def __init__(self, kind, gid, item=None): self.kind = kind; self.gid = gid; self.item = item
    def __repr__(self): return 'User(%s,%s)' % (self.kind, self.gid)
class SliceIter:
    """core::slice::Iter / IterMut: ptr to the first remaining element and the number remaining"""
    __slots__ = ('p', 'i', 'n', 'mut')
    def __init__(self, p, i, n, mut): self.p = p; self.i = i; self.n = n; self.mut = mut
class Host:
    """InlineArray storage: length header and element buffer"""
    __slots__ = ('len', 'buf')
    def __init__(self, len, buf): self.len = len; self.buf = buf

# ---------------------------------------------------------------- element buffers
class Buf:
    """An array of `size` cells; each cell has a value and an `own` bit (holds a live element we own).
    kind: 'V' (generic elements, owned) or 'int' (Copy data: own means initialised)"""
    __slots__ = ('size', 'node', 'sort')
    def __init__(self, size, node, sort): self.size = size; self.node = node; self.sort = sort
    def with_node(self, n): return Buf(self.size, n, self.sort)
    def val(self, eng, st, i): return self.node.val(eng, st, i)
    def own(self, eng, st, i): return self.node.own(eng, st, i)

class NBase:
    __slots__ = ('fv', 'fo', 'tag')
    def __init__(self, fv, fo, tag=None): self.fv = fv; self.fo = fo; self.tag = tag
    prev = None
    def val(self, eng, st, i): return self.fv(eng, st, i)
    def own(self, eng, st, i): return self.fo(eng, st, i)
class NWrite:
    "cell i gets value v (if condition c holds)"
    __slots__ = ('prev', 'i', 'v', 'c')
    def __init__(self, prev, i, v, c=True): self.prev = prev; self.i = i; self.v = v; self.c = c
    def val(self, eng, st, i):
        c = eng.tri(st, conj(self.c, eq(i, self.i)))
        if c is True: return self.v
        p = self.prev.val(eng, st, i)
        return p if c is False else ite(c, self.v, p)
    def own(self, eng, st, i):
        c = eng.tri(st, conj(self.c, eq(i, self.i)))
        if c is True: return True
        p = self.prev.own(eng, st, i)
        return p if c is False else disj(c, p)
class NTake:
    __slots__ = ('prev', 'i', 'c')
    def __init__(self, prev, i, c=True): self.prev = prev; self.i = i; self.c = c
    def val(self, eng, st, i): return self.prev.val(eng, st, i)
    def own(self, eng, st, i):
        c = eng.tri(st, conj(self.c, eq(i, self.i)))
        if c is True: return False
        p = self.prev.own(eng, st, i)
        return p if c is False else conj(neg(c), p)
class NRelease:
    "range [a, a+n) is no longer owned"
    __slots__ = ('prev', 'a', 'n')
    def __init__(self, prev, a, n): self.prev = prev; self.a = a; self.n = n
    def val(self, eng, st, i): return self.prev.val(eng, st, i)
    def own(self, eng, st, i):
        c = eng.tri(st, conj(le(self.a, i), lt(i, add(self.a, self.n))))
        if c is True: return False
        p = self.prev.own(eng, st, i)
        return p if c is False else conj(neg(c), p)
class NCopy:
    "cells [dst,dst+n) get the contents (and own bits) of src.[so,so+n); src is a snapshot node"
    __slots__ = ('prev', 'dst', 'src', 'so', 'n')
    def __init__(self, prev, dst, src, so, n): self.prev = prev; self.dst = dst; self.src = src; self.so = so; self.n = n
    def _g(self, eng, st, i, f):
        c = eng.tri(st, conj(le(self.dst, i), lt(i, add(self.dst, self.n))))
        j = add(sub(i, self.dst), self.so)
        if c is True: return getattr(self.src, f)(eng, st, j)
        p = getattr(self.prev, f)(eng, st, i)
        if c is False: return p
        return ite(c, getattr(self.src, f)(eng, eng.under(st, c), j), p)
    def val(self, eng, st, i): return self._g(eng, st, i, 'val')
    def own(self, eng, st, i): return self._g(eng, st, i, 'own')
class NMerge:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    prev = None
    def _g(self, eng, st, i, f):
        c = eng.tri(st, self.c)
        if c is True: return getattr(self.a, f)(eng, st, i)
        if c is False: return getattr(self.b, f)(eng, st, i)
        return ite(c, getattr(self.a, f)(eng, eng.under(st, c), i), getattr(self.b, f)(eng, eng.under(st, neg(c)), i))
    def val(self, eng, st, i): return self._g(eng, st, i, 'val')
    def own(self, eng, st, i): return self._g(eng, st, i, 'own')
class NLoop:
    """k iterations of a loop, iteration j performing ops(j): a list of ('w', idx, val, cond) / ('t', idx, None, cond) of closed forms"""
    __slots__ = ('prev', 'k', 'ops')
    def __init__(self, prev, k, ops): self.prev = prev; self.k = k; self.ops = ops
    def val(self, eng, st, i):
        r = None; acc = []
        for op in self.ops:
            if op[0] != 'w': continue
            v, j = op[1].inv(i)
            acc.append((conj(v, le(0, j), lt(j, self.k), op[3].at(j)), j, op[2]))
        base = None; time = None
        r = self.prev.val(eng, st, i); t = -1
        for c, j, vt in acc:
            c = conj(c, le(t, j)) if len(acc) > 1 else c
            cc = eng.tri(st, c)
            if cc is False: continue
            nv = vt.at(j)
            if cc is True: r = nv; t = j
            else: r = ite(cc, nv, r); t = ite(cc, j, t)
        return r
    def own(self, eng, st, i):
        r = self.prev.own(eng, st, i); t = -1
        for op in self.ops:
            v, j = op[1].inv(i)
            c = conj(v, le(0, j), lt(j, self.k), op[3].at(j))
            if len(self.ops) > 1: c = conj(c, le(t, j))
            cc = eng.tri(st, c)
            if cc is False: continue
            nv = (op[0] == 'w')
            if cc is True: r = nv; t = j
            else: r = ite(cc, nv, r); t = ite(cc, j, t)
        return r

# ---------------------------------------------------------------- abstract containers
class Abs:
    """A container known only by its contract view. kind: chunk/ring/inline ; seq: Seq"""
    __slots__ = ('kind', 'ty', 'seq')
    def __init__(self, kind, ty, seq): self.kind = kind; self.ty = ty; self.seq = seq

class Seq:
    "functional sequence: len and at(eng, st, i)"
    __slots__ = ('len', 'f', 'prev', 'op')
    def __init__(self, len, f, prev=None, op=None): self.len = len; self.f = f; self.prev = prev; self.op = op
    def at(self, eng, st, i): return self.f(eng, st, i)
    def append(self, v):
        p = self
        def f(eng, st, i):
            c = eng.tri(st, lt(i, p.len))
            if c is True: return p.at(eng, st, i)
            if c is False: return v
            return ite(c, p.at(eng, st, i), v)
        return Seq(add(p.len, 1), f, p, ('append', v))
    def prepend(self, v):
        p = self
        def f(eng, st, i):
            c = eng.tri(st, eq(i, 0))
            if c is True: return v
            q = p.at(eng, st, sub(i, 1))
            return q if c is False else ite(c, v, q)
        return Seq(add(p.len, 1), f, p, ('prepend', v))
    def popfront(self, n=1):
        p = self
        return Seq(sub(p.len, n), lambda eng, st, i: p.at(eng, st, add(i, n)), p, ('popfront', n))
    def take(self, n):
        p = self
        return Seq(n, lambda eng, st, i: p.at(eng, st, i), p, ('take', n))
    def popback(self):
        p = self
        return Seq(sub(p.len, 1), lambda eng, st, i: p.at(eng, st, i), p, ('popback', 1))
    def range(self, a, b):
        p = self
        return Seq(sub(b, a), lambda eng, st, i: p.at(eng, st, add(i, a)))
    def concat(self, o):
        p = self
        def f(eng, st, i):
            c = eng.tri(st, lt(i, p.len))
            if c is True: return p.at(eng, st, i)
            if c is False: return o.at(eng, st, sub(i, p.len))
            return ite(c, p.at(eng, eng.under(st, c), i), o.at(eng, eng.under(st, neg(c)), sub(i, p.len)))
        return Seq(add(p.len, o.len), f)
    def insert(self, k, v): return self.range(0, k).append(v).concat(self.range(k, self.len))
    def remove(self, k): return self.range(0, k).concat(self.range(add(k, 1), self.len))
    def set(self, k, v):
        p = self
        def f(eng, st, i):
            c = eng.tri(st, eq(i, k))
            if c is True: return v
            q = p.at(eng, st, i)
            return q if c is False else ite(c, v, q)
        return Seq(p.len, f)
EMPTY = Seq(0, lambda eng, st, i: fV('empty'))
