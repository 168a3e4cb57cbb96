"""Symbolic executor / verification-condition generator over rustc MIR."""
import re, time, z3
from terms import *
from values import *
from mir import Mir, succs

class PCN:
    __slots__ = ('parent', 'cond', 'depth')
    def __init__(self, parent, cond): self.parent = parent; self.cond = cond; self.depth = (parent.depth+1) if parent else 0

class St:
    __slots__ = ('heap', 'pc', 'known', 'panic', 'unw', 'log', 'ghost')
    def __init__(self):
        self.heap = {}; self.pc = PCN(None, None); self.known = {}
        self.panic = None     # reason of the panic in flight
        self.unw = False      # executing cleanup code
        self.log = ()         # persistent tuple-chain of ghost events
        self.ghost = {}       # ghost variables (iterator cursors)
    def copy(self):
        s = St.__new__(St)
        s.heap = dict(self.heap); s.pc = self.pc; s.known = dict(self.known)
        s.panic = self.panic; s.unw = self.unw; s.log = self.log; s.ghost = dict(self.ghost)
        return s
    def add(self, c):
        if isinstance(c, bool):
            if c: return
            c = z3.BoolVal(False)
        if z3.is_and(c):
            for x in c.children(): self.add(x)
            return
        self.pc = PCN(self.pc, c)
        self.known[kid(c)] = True
        n = z3.Not(c) if not z3.is_not(c) else c.arg(0)
        self.known[kid(n)] = False
    def event(self, *e): self.log = (self.log, e)

def events(st):
    r = []; l = st.log
    while l: r.append(l[1]); l = l[0]
    return r[::-1]

def pc_list(n, upto=None):
    r = []
    while n is not upto and n.parent is not None: r.append(n.cond); n = n.parent
    return r[::-1]

class Frame:
    __slots__ = ('body', 'loc', 'key', 'name')
    def __init__(self, body, loc, key): self.body = body; self.loc = loc; self.key = key; self.name = body['name']

class Obl:
    __slots__ = ('kind', 'msg', 'where', 'status', 'model', 'secs')
    def __init__(self, kind, msg, where): self.kind = kind; self.msg = msg; self.where = where; self.status = None; self.model = None; self.secs = 0

def plainval(v): return isinstance(v, (int, bool)) or v is UNINIT or (isz(v) and v.sort() != V) or isinstance(v, (Agg, Enum)) and all(plainval(x) for x in v.f)
def is_closure(name): return bool(re.search(r'\{closure#\d+\}$', name))
TRANSPARENT = ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::mem::MaybeDangling', 'core::mem::MaybeDangling')

class Engine:
    TIMEOUT = 10000
    def __init__(self, mir, root, budget=400.0):
        self.mir = mir; self.root = root; self.lib = True; self.sorted = None
        self.solver = z3.Solver(); self.solver.set('timeout', self.TIMEOUT)
        self.stack = [None]  # pcns pushed
        self.enumfs = {}; self.enumcache = {}; self.enumstack = [[]]; self.samesets = []; self.usesbits = False
        self.rootpc = None
        self.obls = []; self.quiet = 0
        self.cache = {}
        self.nqueries = 0; self.tsolve = 0.0
        self.t0 = time.time(); self.budget = budget
        self.nobj = 0
        self.spans = []     # call stack (function, span) for reporting
        self.moduli = []
        self.params = {}    # const params by name
        self.models = {}
        self.contracts_used = {}
        self.assumed = set()
        self.functions = set()
        self.ND = z3.Bool('needs_drop_A')
        self.cloneF = z3.Function('clone', V, V)
        self.const_outs = {}; self.consts = {}
        self.calldepth = 0
        self.names = {}
        import models, loops
        global bits
        import bits
        CUR[0] = self
        self.M = models; self.L = loops
        self.steps = 0; self.nloops = 0; self.keep_locals = False
        self.ghost = {}; self.enums = {}; self.sizes = {}; self.dest = None; self.C = None

    # ------------------------------------------------------------ solver
    def sync(self, n):
        path = []
        while n.parent is not None:
            path.append(n); n = n.parent
        path.reverse()
        st = self.stack
        i = 0
        while i < len(path) and i+1 < len(st) and st[i+1] is path[i]: i += 1
        extra = len(st)-1-i
        if extra: self.solver.pop(extra); del st[i+1:]; del self.enumstack[i+1:]
        for x in path[i:]:
            self.solver.push(); self.solver.add(x.cond); st.append(x)
            self.enumstack.append(self.enums_in(x.cond) if self.enumfs else [])
    def enums_in(self, c):
        "assert the ground instances for the enumeration terms of c"
        fs, new = bits.instances(self, c, [t for l in self.enumstack for t in l])
        for g in fs: self.solver.add(g)
        return new
    def push_extra(self, c):
        self.solver.push(); self.solver.add(c)
        if self.enumfs: self.enums_in(c)
    def check(self, st, extra=None):
        if time.time()-self.t0 > self.budget: raise Undecided('time budget')
        if isinstance(extra, bool):
            if not extra: return z3.unsat
            extra = None
        key = (id(st.pc), kid(extra) if extra is not None else None)
        r = self.cache.get(key)
        if r is not None: return r[0]
        t = time.time()
        self.sync(st.pc)
        if extra is not None:
            self.push_extra(extra); r = self.solver.check(); self.solver.pop()
        else: r = self.solver.check()
        dt = time.time()-t
        self.tsolve += dt; self.nqueries += 1
        self.cache[key] = (r, st.pc, extra)
        return r
    def sat(self, st): return self.check(st) != z3.unsat
    def proves(self, st, c):
        if isinstance(c, bool):
            return c or self.check(st) == z3.unsat
        k = st.known.get(kid(c))
        if k is True: return True
        r = self.check(st, z3.Not(c))
        return r == z3.unsat
    def tri(self, st, c):
        if isinstance(c, bool): return c
        k = st.known.get(kid(c))
        if k is not None: return k
        if self.check(st, z3.Not(c)) == z3.unsat: st.known[kid(c)] = True; return True
        if self.check(st, c) == z3.unsat: st.known[kid(c)] = False; return False
        return c
    def under(self, st, c):
        s = st.copy(); s.add(c); return s
    def decide(self, st, c):
        r = self.tri(st, c)
        if isinstance(r, bool): return r
        raise Split(c)

    # ------------------------------------------------------------ obligations
    def where(self):
        w = [s for s in self.spans if s and not s.startswith('/')]
        return w[-1] if w else '?'
    def model_of(self, st, extra):
        self.sync(st.pc); self.push_extra(extra)
        r = self.solver.check(); m = None
        if r == z3.sat:
            m = {}
            mm = self.solver.model()
            for d in mm.decls():
                if d.arity() == 0 and '!' not in d.name() or d.name() in self.names:
                    m[d.name()] = str(mm[d])
        self.solver.pop()
        return m
    def counterexample(self, st, c):
        "a model of pc and c, None if there is none, False if the solver does not know"
        if time.time()-self.t0 > self.budget: raise Undecided('time budget')
        t = time.time(); self.sync(st.pc); self.push_extra(zb(c))
        r = self.solver.check(); m = self.solver.model() if r == z3.sat else None if r == z3.unsat else False
        self.solver.pop(); self.tsolve += time.time()-t; self.nqueries += 1
        return m
    def oblige(self, st, c, kind, msg, assume=True):
        """record the obligation  pc => c ; afterwards c is assumed on this path"""
        if self.quiet:
            if assume: st.add(c)
            return True
        o = Obl(kind, msg, self.where()); self.obls.append(o)
        t = time.time()
        if isinstance(c, bool): r = z3.unsat if c else self.check(st)
        else:
            r = z3.unsat if st.known.get(kid(c)) is True else self.check(st, z3.Not(c))
        o.secs = time.time()-t
        if r == z3.unsat: o.status = 'proved'; return True
        if r == z3.sat:
            o.status = 'unknown' if st.ghost.get('weak') else 'failed'; o.model = self.model_of(st, zb(neg(c)))
        else: o.status = 'unknown'
        if assume:
            st.add(c)
            if not self.sat(st): raise Violated(msg)
        return False
    def skolem(self, st, lo, hi, p='k'):
        k = fint(p); st.add(conj(le(lo, k), lt(k, hi))); return k

    # ------------------------------------------------------------ types
    def T(self, i): return self.mir.types[i]
    def is_transparent(self, t):
        return t['k'] == 'adt' and (t['path'] in TRANSPARENT or t['path'].endswith('::MaybeUninit') or t['path'].endswith('::ManuallyDrop') or t['path'].endswith('::MaybeDangling'))
    def peel(self, ti):
        "look through MaybeUninit/ManuallyDrop"
        t = self.T(ti)
        while self.is_transparent(t):
            a = t['args'][0]
            t = self.T(a); ti = a
        return ti
    def cparam(self, c):
        if 'cval' in c: return int(c['cval'])
        if 'cparam' in c:
            n = c['cparam']
            if n not in self.params:
                self.params[n] = z3.Int(n); self.names[n] = 1
            return self.params[n]
        raise Undecided('const %s' % c)
    def bits(self, ti):
        t = self.T(ti)
        return t.get('bits')

    # ------------------------------------------------------------ objects
    def new_obj(self, st, v):
        self.nobj += 1
        st.heap[self.nobj] = v
        return self.nobj
    def fresh_of(self, st, ti):
        """unconstrained value of a type (valid for the type)"""
        t = self.T(ti); k = t['k']
        if k == 'bool': return fbool('b')
        if k in ('uint', 'char'):
            x = fint('u'); st.add(conj(le(0, x), lt(x, 2**t.get('bits', 32)))); return x
        if k == 'param' or k == 'other': return fV('p')
        raise Undecided('fresh value of %s' % t['s'])
    def uninit_of(self, st, ti):
        "storage without a value (MaybeUninit)"
        ti = self.peel(ti); t = self.T(ti); k = t['k']
        if k == 'array':
            e = self.T(t['of']); sort = 'int' if e['k'] in ('uint', 'int') else 'V'
            n = self.cparam(t['len'])
            return Buf(n, self.garbage(sort), sort)
        if k == 'adt' and t['path'] == 'bitmaps::Bitmap': return UNINIT
        if k == 'adt' and t['adt'] == 'struct':
            return Agg([self.uninit_of(st, f[1]) for f in t['variants'][0]['fields']], t['path'])
        if k == 'param': return self.M.uninit_param(self, st, t)
        return UNINIT
    def garbage(self, sort):
        n = fresh_name('garb')
        f = z3.Function(n, z3.IntSort(), z3.IntSort() if sort == 'int' else V)
        return NBase(lambda eng, st, i: f(zi(i)), lambda eng, st, i: False, n)

    # ------------------------------------------------------------ places
    def resolve(self, st, fr, place):
        """place -> (obj, path, type index)"""
        loc = place[0]
        obj = fr.loc[loc]; path = (); ti = fr.body['locals'][loc]
        for e in place[1:]:
            t = self.T(ti)
            if e == '*':
                p = self.get(st, obj, path)
                if isinstance(p, Opaque): raise Undecided('deref of opaque %s' % t['s'])
                if not isinstance(p, Ptr): raise Undecided('deref of %r' % (p,))
                if p.obj is None: raise Undecided('deref of dangling pointer')
                obj, path = p.obj, p.path
                ti = t['to'] if 'to' in t else t['args'][0]
                tt = self.T(ti)
                if p.meta is not None and tt['k'] in ('slice', 'str'):
                    path = path + (('s', p.meta),)
            elif e[0] == 'f':
                if self.is_transparent(t): ti = self.peel(e[2]) if self.is_transparent(self.T(e[2])) else e[2]
                else:
                    path = path + (('f', e[1]),); ti = e[2]
            elif e[0] == 'v': pass
            elif e[0] == 'i':
                idx = self.get(st, fr.loc[e[1]], ())
                path, ti = self.index(st, path, t, idx)
            elif e[0] == 'ci':
                if e[2]: raise Undecided('const index from end')
                path, ti = self.index(st, path, t, e[1])
            else: raise Undecided('projection %s' % (e,))
        return obj, path, ti
    def index(self, st, path, t, idx):
        if t['k'] == 'array': return path + (('e', idx),), t['of']
        if t['k'] == 'slice':
            if path and path[-1][0] == 's':
                meta = path[-1][1]; base = path[-2]
                assert base[0] == 'e'
                return path[:-2] + (('e', add(base[1], idx)),), t['of']
        raise Undecided('index into %s' % t['s'])

    def get(self, st, obj, path):
        v = st.heap[obj]
        for n, e in enumerate(path):
            v = self.step(st, obj, path[:n], v, e)
        return v
    def step(self, st, obj, pre, v, e):
        if isinstance(v, Abs):
            v = self.M.concretise(self, st, v)
            self.put_raw(st, obj, pre, v)
        if e[0] == 'f':
            if isinstance(v, (Agg, Enum)): return v.f[e[1]]
            if isinstance(v, SliceIter): raise Undecided('field of slice iterator')
            raise Undecided('field %s of %r' % (e[1], v))
        if e[0] == 'e':
            if isinstance(v, Host): v = v.buf
            if isinstance(v, Buf): return self.buf_read(st, v, e[1])
            if isinstance(v, Agg):
                i = e[1]
                if type(i) is int and i < len(v.f): return v.f[i]
                raise Undecided('symbolic index in small array')
            raise Undecided('element of %r' % (v,))
        if e[0] == 'hdr':
            if isinstance(v, Host): return self.M.host_header(self, st, v, e)
            raise Undecided('host projection of %r' % (v,))
        if e[0] == 'h': raise Undecided('access to a host outside its header and elements')
        if e[0] == 's': return v
        raise Undecided('step %s' % (e,))
    def buf_bounds(self, st, b, i, what):
        self.oblige(st, conj(le(0, i), lt(i, b.size)), 'mem', '%s: element index within storage' % what)
    def buf_read(self, st, b, i):
        self.buf_bounds(st, b, i, 'read')
        self.oblige(st, b.own(self, st, i), 'mem', 'read of a slot that holds a live element')
        return b.val(self, st, i)
    def put(self, st, obj, path, val):
        st.heap[obj] = self.upd(st, obj, st.heap[obj], path, 0, val)
    put_raw = put
    def upd(self, st, obj, v, path, n, val):
        if n == len(path): return val
        e = path[n]
        if isinstance(v, Abs): v = self.M.concretise(self, st, v)
        if e[0] == 'f':
            if isinstance(v, Agg):
                f = list(v.f); f[e[1]] = self.upd(st, obj, f[e[1]], path, n+1, val); return Agg(f, v.tag)
            if isinstance(v, Enum):
                f = list(v.f); f[e[1]] = self.upd(st, obj, f[e[1]], path, n+1, val); return Enum(v.v, f, v.tag)
            if v is UNINIT:
                return self.M.partial_init(self, st, v, e[1], self.upd(st, obj, UNINIT, path, n+1, val))
            raise Undecided('store to field of %r' % (v,))
        if e[0] == 'e':
            if isinstance(v, Host): return Host(v.len, self.upd(st, obj, v.buf, path, n, val))
            if isinstance(v, Buf):
                i = e[1]
                if n+1 != len(path): raise Undecided('store inside element')
                self.buf_bounds(st, v, i, 'write')
                if v.sort == 'V':
                    self.oblige(st, disj(neg(v.own(self, st, i)), neg(self.ND)), 'leak', 'write does not overwrite a live element')
                return v.with_node(NWrite(v.node, i, val))
            if isinstance(v, Agg) and type(e[1]) is int:
                f = list(v.f); f[e[1]] = self.upd(st, obj, f[e[1]], path, n+1, val); return Agg(f, v.tag)
            raise Undecided('store to element of %r' % (v,))
        if e[0] == 'hdr':
            if isinstance(v, Host): return self.M.host_set_header(self, st, v, e, val)
        if e[0] == 's': return self.upd(st, obj, v, path, n+1, val)
        raise Undecided('store %s' % (e,))
    def assign_elem(self, st, obj, path, val):
        "assignment `*p = v` through a reference to an element: the old element has been dropped already"
        self.put(st, obj, path, val)
    def take(self, st, obj, path):
        """bitwise/ownership-taking read"""
        v = self.get(st, obj, path)
        if path and path[-1][0] == 'e':
            b = self.get_buf(st, obj, path[:-1])
            if b is not None:
                if b.sort == 'V': self.set_buf(st, obj, path[:-1], b.with_node(NTake(b.node, path[-1][1])))
                return v
        self.put(st, obj, path, UNINIT)
        return v
    def get_buf(self, st, obj, path):
        v = self.get(st, obj, path)
        if isinstance(v, Host): v = v.buf
        return v if isinstance(v, Buf) else None
    def set_buf(self, st, obj, path, b):
        v = self.get(st, obj, path)
        if isinstance(v, Host): b = Host(v.len, b)
        self.put(st, obj, path, b)

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, op):
        k = op[0]
        if k == 'const': return self.const(st, op[1])
        if k == 'copy':
            obj, path, ti = self.resolve(st, fr, op[1])
            if op[2] is False and self.T(ti)['k'] not in ('ref', 'ptr'): return self.take(st, obj, path)
            v = self.get(st, obj, path)
            return self.live(v)
        if k == 'move':
            obj, path, ti = self.resolve(st, fr, op[1])
            if path and path[-1][0] == 'e': return self.take(st, obj, path)
            v = self.live(self.get(st, obj, path))
            self.put(st, obj, path, UNINIT)
            return v
        if k == 'rtcheck':
            return False
        raise Undecided('operand %s' % (op,))
    def live(self, v):
        if v is UNINIT: raise Undecided('use of uninitialised value')
        if v is POISON: raise Poisoned('use of a value the loop summary does not track')
        return v
    def const(self, st, c):
        if 'fn' in c: return Fn(c['fn'])
        t = self.T(c['ty'])
        if 'v' in c:
            v = c['v']
            if isinstance(v, dict): return self.const_val(c['ty'], v)
            if v == 'zst':
                if t['k'] == 'tuple' : return Agg(())
                if t['k'] == 'fndef': return Fn(t['fn'])
                if t['k'] == 'adt' and t['adt'] == 'enum': return self.zst(c['ty'])
                if t['k'] == 'adt' and t['adt'] == 'struct' and t['variants'][0]['fields']:
                    return Agg([self.zst(f[1]) for f in t['variants'][0]['fields']], t['path'])
                return Agg(())
            if isinstance(v, str):
                if t['k'] == 'bool': return v != '0'
                if t['k'] in ('uint', 'int', 'char'): return int(v)
                if t['k'] == 'adt' and t['adt'] == 'enum':
                    nz = [n for n, va in enumerate(t['variants']) if len(va['fields']) == 1 and 'NonZero' in self.T(va['fields'][0][1])['s']]
                    if len(nz) == 1 and len(t['variants']) == 2:
                        o = 1-nz[0]
                        if int(v): return Enum(nz[0], (int(v),), t['path'])
                        return Enum(o, [self.zst(f[1]) for f in t['variants'][o]['fields']], t['path'])
                    for n, va in enumerate(t['variants']):
                        if (va['discr'] == v or int(va['discr']) < 0 and int(v) in [int(va['discr']) % 2**b for b in (8, 16, 32, 64, 128)]) and not va['fields']: return Enum(n, ())
                return Opaque(t['s'])
            return Opaque('str') if t['k'] in ('ref',) else Opaque(t['s'])
        if 'tc' in c:
            return self.cparam(c['tc']) if 'cparam' in c['tc'] or 'cval' in c['tc'] else self.bad('const %s' % c)
        if 'uneval' in c: return self.eval_const(st, c)
        if 'opaque' in c and t['k'] == 'adt' and t['path'].endswith('option::Option') and re.match(r'\{transmute\(0x0+\)', c['opaque']): return Enum(0, ())
        return Opaque(t['s'])
    def const_val(self, ti, v):
        "evaluated constant: scalar string, 'zst', or {variant, fields}"
        t = self.T(ti)
        if isinstance(v, dict):
            if t['k'] not in ('adt', 'tuple'): return Opaque(t['s'])
            n = v.get('variant')
            fs = t['variants'][n or 0]['fields'] if t['k'] == 'adt' else [[None, x] for x in t['of']]
            vals = [self.const_val(f[1], x) for f, x in zip(fs, v['fields'])]
            if len(vals) != len(fs): raise Undecided('constant of %s' % t['s'])
            return Enum(n, vals, t['path']) if t['k'] == 'adt' and t['adt'] == 'enum' else Agg(vals, t.get('path'))
        if v == 'zst': return self.zst(ti)
        if isinstance(v, str) and t['k'] in ('uint', 'int', 'char'): return int(v)
        if isinstance(v, str) and t['k'] == 'bool': return v != '0'
        if isinstance(v, str) and t['k'] == 'adt' and 'NonZero' in t['path']: return int(v)
        if isinstance(v, str): return self.const(None, {'ty': ti, 'v': v})
        return Opaque(t['s'])
    def zst(self, ti):
        t = self.T(ti)
        if t['k'] == 'adt' and t['adt'] == 'enum':
            live = [n for n, v in enumerate(t['variants']) if not any(self.uninhabited(f[1]) for f in v['fields'])]
            if len(live) != 1: raise Undecided('zero-sized constant of %s' % t['s'])
            return Enum(live[0], [self.zst(f[1]) for f in t['variants'][live[0]]['fields']], t['path'])
        if t['k'] == 'adt' and t['adt'] == 'struct': return Agg([self.zst(f[1]) for f in t['variants'][0]['fields']], t['path'])
        return Agg(())
    def uninhabited(self, ti):
        t = self.T(ti)
        return t['k'] == 'never' or (t['k'] == 'adt' and t['adt'] == 'enum' and all(any(self.uninhabited(f[1]) for f in v['fields']) for v in t['variants']))
    def bad(self, m): raise Undecided(m)
    def eval_const(self, st, c):
        key = c['uneval']
        r = self.M.const_model(self, st, c)
        if r is not None: return r
        if key in self.consts: return self.consts[key]
        body = self.mir.body(self.root, key)
        if body is None: raise Undecided('constant %s' % key)
        self.keep_locals = bool(c.get('promoted'))
        try: outs = self.run_body(st.copy(), body, [], key)
        finally: self.keep_locals = False
        if len(outs) != 1 and not c.get('promoted'): return self.const_cases(st, key, body)
        if len(outs) != 1 or outs[0][1] != 'ret': raise Undecided('constant %s has %d outcomes' % (key, len(outs)))
        v = outs[0][2]
        if c.get('promoted'):
            # the promoted value lives in static storage
            for o, x in outs[0][0].heap.items(): st.heap.setdefault(o, x)
        if outs[0][0].pc is not st.pc:
            # facts learnt while evaluating are about constants only
            for x in pc_list(outs[0][0].pc, None)[len(pc_list(st.pc, None)):]: st.add(x)
        return v

    def const_cases(self, st, key, body):
        "value of a constant whose computation branches on sizes: evaluated once, the caller's state selects the branch"
        base = getattr(self, 'base_st', None)
        if base is None: raise Undecided('constant %s has several outcomes' % key)
        L = self.const_outs.get(key)
        if L is None:
            outs = self.run_body(base.copy(), body, [], key); n = len(pc_list(base.pc, None))
            if any(k != 'ret' for _, k, _ in outs): raise Undecided('constant %s may fail' % key)
            L = self.const_outs[key] = [(pc_list(s.pc, None)[n:], v) for s, _, v in outs]
        i = 0
        while len(L) > 1:
            f = L[0][0]
            if i >= len(f) or any(i >= len(d) for d, _ in L): raise Undecided('constant %s: outcomes not distinguished' % key)
            c = f[i]
            same = [x for x in L if kid(x[0][i]) == kid(c)]
            if len(same) == len(L): st.add(c); i += 1; continue
            L = same if self.decide(st, c) else [x for x in L if kid(x[0][i]) != kid(c)]
        for c in L[0][0][i:]: st.add(c)
        return L[0][1]

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == 'use': return self.operand(st, fr, rv[1])
        if k in ('ref', 'raw'):
            pl = rv[2]
            if len(pl) == 2 and pl[1] == '*':
                p = self.get(st, fr.loc[pl[0]], ())
                if isinstance(p, (Opaque, Ptr)) and (isinstance(p, Opaque) or p.obj is None): return p
            obj, path, ti = self.resolve(st, fr, pl)
            meta = None
            if path and path[-1][0] == 's': meta = path[-1][1]; path = path[:-1]
            return Ptr(obj, path, meta)
        if k == 'cast': return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4], st)
        if k == 'bin': return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == 'un': return self.unop(st, rv[1], self.operand(st, fr, rv[2]), rv[3])
        if k == 'discr':
            obj, path, ti = self.resolve(st, fr, rv[1])
            v = self.get(st, obj, path)
            t = self.T(ti)
            if isinstance(v, Enum):
                d = t['variants'][v.v]['discr']
                d = int(d)
                return d
            if isinstance(v, (int, z3.ExprRef)) and t['k'] != 'adt': return v
            if v is UNINIT and t['k'] == 'adt' and t['adt'] == 'enum':
                # a type with a single possible value, as Option<!>, needs no initialisation
                w = [u for u in t['variants'] if not any(self.uninhabited(f[1]) for f in u['fields'])]
                if len(w) == 1 and not w[0]['fields']: return int(w[0]['discr'])
            raise Undecided('discriminant of %r' % (v,))
        if k == 'agg':
            kind, var, ops, ti = rv[1], rv[2], rv[3], rv[4]
            vals = [self.operand(st, fr, o) for o in ops]
            t = self.T(ti)
            if kind == 'adt':
                if t['adt'] == 'enum': return Enum(var, vals, t['path'])
                if self.is_transparent(t) and len(vals) == 1: return vals[0]
                return Agg(vals, t['path'])
            if kind == 'union':
                return self.uninit_of(st, ti) if (not vals or isinstance(vals[0], Agg) and not vals[0].f) else vals[0]
            if kind == 'rawptr':
                p, m = vals
                if isinstance(p, Ptr): return Ptr(p.obj, p.path, None if isinstance(m, Agg) else m)
                raise Undecided('raw pointer from %r' % (p,))
            if kind == 'array' and not vals: return Agg(())
            return Agg(vals, kind)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1]); n = self.cparam(rv[2])
            if type(n) is int and n <= 256 and plainval(v): return Agg([v]*n, 'array')
            raise Undecided('array repeat')
        raise Undecided('rvalue %s' % (rv,))
    def cast(self, st, kind, v, ft, tt, _):
        f, t = self.T(ft), self.T(tt)
        if kind in ('PtrToPtr', 'PointerCoercion(MutToConstPointer)') or kind.startswith('PointerCoercion') or (kind == 'Transmute' and f['k'] in ('ptr', 'ref') and t['k'] in ('ptr', 'ref')):
            return self.ptr_cast(st, v, f, t)
        if kind == 'IntToInt':
            if f['k'] == 'bool' or isinstance(v, bool):
                return 1 if self.decide(st, v) else 0
            fb, tb = f.get('bits', 32), t.get('bits', 32)
            if f['k'] == 'uint' and t['k'] == 'uint' and tb >= fb: return v
            if f['k'] == 'uint' and t['k'] == 'uint':
                if self.decide(st, lt(v, 2**tb)): return v
                return self.nonlin(st, 'mod', v, 2**tb)
            if f['k'] == 'char' : return v
            if type(v) is int and v >= 0 and v < 2**(min(fb, tb)-1): return v
            if f['k'] == 'uint' and t['k'] == 'int':
                if self.decide(st, lt(v, 2**(tb-1))): return v
                if tb == fb: return sub(v, 2**tb)
            if f['k'] == 'int' and t['k'] == 'uint':
                if self.decide(st, le(0, v)): return v
                if tb == fb: return add(v, 2**tb)
            raise Undecided('cast %s -> %s' % (f['s'], t['s']))
        if kind in ('PointerExposeProvenance',) or (kind == 'Transmute' and f['k'] in ('ptr', 'ref', 'adt') and t['k'] in ('uint', 'adt') and isinstance(v, Ptr)):
            if t['k'] == 'adt': return v
            return self.M.ptr_addr(self, st, v, f)
        if kind == 'Transmute':
            if f['s'] == t['s']: return v
            if isinstance(v, Agg) and len(v.f) == 1 and t['k'] != 'adt': return v.f[0]
            if f['k'] == 'adt' and 'NonZero' in f['path'] and not isinstance(v, (Agg, Enum)): return v
            if isinstance(v, Ptr): return v
            if f['k'] in ('uint', 'int') and t['k'] == 'adt':
                if t['adt'] == 'enum':
                    if t['path'].endswith('option::Option'):   # Option<NonZero<_>>
                        return Enum(0, ()) if self.decide(st, eq(v, 0)) else Enum(1, (v,))
                    raise Undecided('transmute to %s' % t['s'])
                return v
            if f['k'] in ('uint',) and t['k'] in ('uint',) : return v
            if f['k'] == 'adt' and f['path'] in TRANSPARENT and t['k'] in ('uint', 'int', 'bool', 'char') and (type(v) in (int, bool) or isz(v)): return v
        raise Undecided('cast %s %s -> %s of %r' % (kind, f['s'], t['s'], v))
    def ptr_cast(self, st, v, f, t):
        if isinstance(v, Opaque): return Opaque(t['s'])
        if not isinstance(v, Ptr): raise Undecided('pointer cast of %r' % (v,))
        ft = f.get('to'); tt = t.get('to')
        if ft is None or tt is None: return v
        F, T = self.T(ft), self.T(tt)
        if F['s'] == T['s']: return v
        if v.obj is None: return Ptr(None, v.path, v.meta)
        if F['k'] == 'slice' and T['k'] != 'slice': v = Ptr(v.obj, v.path, None); F = self.T(F['of'])
        if T['k'] == 'slice' and F['k'] == 'array':
            return Ptr(v.obj, v.path + (('e', 0),), self.cparam(F['len']))
        pf = self.T(self.peel(ft)) if F['k'] == 'adt' else F
        if F['s'] == T['s'] or pf['s'] == T['s']: return v
        if T['s'] == '()' or T['s'] == 'u8' and F['k'] != 'param' and not (pf['k'] == 'array' and self.T(pf['of'])['s'] == 'u8'): return v
        if T['k'] == 'adt' and self.is_transparent(T) and self.T(self.peel(tt))['s'] == pf['s']: return v
        return self.M.ptr_cast(self, st, v, pf, T)
    def nonlin(self, st, op, a, b):
        if op == 'mod': return zi(a) % zi(b)
        if op == 'div': return zi(a) / zi(b)
    def wrapping(self, st, r, ti):
        "machine value of the mathematical result r at unsigned type ti"
        t = self.T(ti)
        if t['k'] == 'int':
            b = t['bits']
            if self.decide(st, conj(le(-2**(b-1), r), lt(r, 2**(b-1)))): return r
            raise Undecided('signed wrap-around')
        m = 2**t.get('bits', 64)
        if self.decide(st, lt(r, m)):
            if self.decide(st, le(0, r)): return r
            return add(r, m)
        if self.decide(st, lt(r, 2*m)): return sub(r, m)
        return self.nonlin(st, 'mod', r, m)
    def inrange(self, r, ti):
        t = self.T(ti); b = t.get('bits', 64)
        if t['k'] == 'int': return conj(le(-2**(b-1), r), lt(r, 2**(b-1)))
        return conj(le(0, r), lt(r, 2**b))
    def binop(self, st, op, a, b, ti):
        t = self.T(ti)
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.M.ptr_binop(self, st, op, a, b, t)
        if isinstance(a, Opaque) or isinstance(b, Opaque): raise Undecided('arithmetic on opaque value')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = {'Eq': eq, 'Ne': ne, 'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](a, b)
            return r
        if op == 'Cmp' and not (isinstance(a, Agg) or isinstance(b, Agg)):
            if self.decide(st, lt(a, b)): return Enum(0, ())
            return Enum(1, ()) if self.decide(st, eq(a, b)) else Enum(2, ())
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = {'Add': add, 'Sub': sub, 'Mul': mul}[base](a, b)
            if op.endswith('WithOverflow'):
                ok = self.decide(st, self.inrange(r, ti))
                if ok: return Agg((r, False))
                return Agg((self.wrapping(st, r, ti), True))
            if op.endswith('Unchecked'):
                self.oblige(st, self.inrange(r, ti), 'mem', 'unchecked arithmetic does not overflow'); return r
            return self.wrapping(st, r, ti)
        if t['k'] == 'bool' or isinstance(a, bool) or isinstance(b, bool):
            if op == 'BitAnd': return conj(zb(a) if isz(a) else a, zb(b) if isz(b) else b)
            if op == 'BitOr': return disj(a, b)
            if op == 'BitXor': return ne(a, b)
        if type(a) is int and type(b) is int:
            if op == 'BitAnd': return a & b
            if op == 'BitOr': return a | b
            if op == 'BitXor': return a ^ b
            if op in ('Shl', 'ShlUnchecked'): return (a << b) & (2**t['bits']-1)
            if op in ('Shr', 'ShrUnchecked'): return a >> b
            if op == 'Div' and b: return a//b
            if op == 'Rem' and b: return a % b
        if t['k'] == 'uint' and type(b) is int and not (isz(a) and self.M.is_addr(self, a)):
            if op in ('Shr', 'ShrUnchecked') and 0 <= b < t['bits']: return self.binop(st, 'Div', a, 2**b, ti)
            if op in ('Shl', 'ShlUnchecked') and 0 <= b < t['bits']: return self.wrapping(st, mul(a, 2**b), ti)
            if op == 'BitAnd' and b >= 0 and b & (b+1) == 0: return self.binop(st, 'Rem', a, b+1, ti)
        if op in ('Div', 'Rem') and t['k'] == 'uint':
            if isz(a) and self.M.is_addr(self, a):
                r = self.M.addr_rem(self, st, op, a, b)
                if r is not None: return r
            if op == 'Rem' and self.M.is_align(self, a) and self.M.is_align(self, b) and (isz(a) or isz(b)): return self.M.rem_align(a, b)
            if isz(b) or b != 0:
                # exact cases first, linear
                if self.tri(st, lt(a, b)) is True: return a if op == 'Rem' else 0
                if self.tri(st, lt(a, mul(b, 2))) is True and isz(b) or False:
                    if self.decide(st, lt(a, b)): return a if op == 'Rem' else 0
                    return sub(a, b) if op == 'Rem' else 1
                return self.nonlin(st, 'div' if op == 'Div' else 'mod', a, b)
        if op == 'BitAnd' and isz(a) and self.M.is_addr(self, a):
            return self.M.addr_mask(self, st, a, b)
        raise Undecided('operator %s on %s' % (op, t['s']))
    def unop(self, st, op, a, ti):
        if op == 'Not':
            if isinstance(a, bool) or (isz(a) and z3.is_bool(a)): return neg(a)
            t = self.T(ti)
            if t['k'] == 'uint': return sub(2**t['bits']-1, a)
        if op == 'PtrMetadata':
            if isinstance(a, Ptr): return a.meta if a.meta is not None else Agg(())
        if op == 'Neg':
            r = sub(0, a); return r
        raise Undecided('unary %s' % op)

    # ------------------------------------------------------------ execution
    def run_body(self, st, body, args, key):
        """-> list of (state, 'ret'|'unwind'|'abort', value)"""
        self.calldepth += 1
        if self.calldepth > 60: self.calldepth -= 1; raise Undecided('call depth')
        self.functions.add(body['name'])
        try:
            locs = []
            for i in range(len(body['locals'])): locs.append(self.new_obj(st, UNINIT))
            if is_closure(body['name']) and len(args) == 2 and isinstance(args[1], Agg):
                # rust-call ABI: the caller passes the closure's arguments as one tuple
                args = [args[0]] + list(args[1].f)
            for i, a in enumerate(args): st.heap[locs[i+1]] = a
            fr = Frame(body, locs, key)
            outs = self.explore(fr, [(st, 0)], None, None)
            res = []
            for (s, kind, v) in outs:
                if kind in ('ret', 'unwind', 'abort'):
                    if kind == 'ret':
                        v = s.heap[locs[0]]
                        self.M.frame_exit(self, s, fr)
                    if not self.keep_locals:
                        for o in locs: s.heap.pop(o, None)
                    res.append((s, kind, v))
            return res
        finally: self.calldepth -= 1

    def explore(self, fr, work, region, head):
        """Run from the given (state, block) list. If region is given, transitions to `head` yield ('back'),
        transitions out of region yield ('exit', bb)."""
        outs = []
        loops = self.mir.loops(fr.body)
        work = [(s, bb, True) for s, bb in work]
        while work:
            st, bb, first = work.pop()
            self.steps += 1
            if self.steps > 200000: raise Undecided('step budget')
            if region is not None and not first:
                if bb == head: outs.append((st, 'back', None)); continue
                if bb not in region: outs.append((st, 'exit', bb)); continue
            if bb in loops and not (first and region is not None and bb == head):
                res = self.L.loop(self, fr, st, bb, loops[bb])
                for (s, kind, v) in res:
                    if kind == 'exit':
                        work.append((s, v, False))
                    else: outs.append((s, kind, v))
                continue
            for r in self.block(fr, st, bb):
                if r[0] == 'goto': work.append((r[1], r[2], False))
                else: outs.append((r[1], r[0], r[2] if len(r) > 2 else None))
        return outs

    def block(self, fr, st, bb):
        """execute one basic block; returns list of ('goto',st,bb) | ('ret',st) | ('unwind',st)"""
        blk = fr.body['blocks'][bb]
        # statements: each may split the state
        states = [st]
        for s in blk['s']:
            nxt = []
            for x in states: nxt += self.stmt(fr, x, s)
            states = nxt
        res = []
        for x in states:
            try: res += self.term_split(fr, x, blk['t'])
            except Violated: pass
        return res
    def splitting(self, st, f):
        """run f(state) with Split handling: f gets a private copy; returns list of (state, result)"""
        work = [st]; out = []
        while work:
            s = work.pop()
            c = s.copy()
            try:
                r = f(c)
                out.append((c, r))
            except Split as e:
                a = s.copy(); a.add(e.cond); b = s.copy(); b.add(neg(e.cond))
                work += [b, a]
            except Violated: pass
        return out
    def stmt(self, fr, st, s):
        k = s[0]
        if k == 'dead':
            st.heap[fr.loc[s[1]]] = UNINIT
            return [st]
        def f(c):
            if k == '=':
                self.spans.append(s[3] if len(s) > 3 else None)
                try:
                    pl = s[1]
                    rv = s[2]
                    v = self.rvalue(c, fr, rv, None)
                    if len(pl) == 1: c.heap[fr.loc[pl[0]]] = v
                    else:
                        obj, path, ti = self.resolve(c, fr, pl)
                        self.put(c, obj, path, v)
                finally: self.spans.pop()
            elif k == 'setdiscr':
                obj, path, ti = self.resolve(c, fr, s[1])
                v = self.get(c, obj, path)
                raise Undecided('setdiscr')
            elif k == 'assume':
                v = self.operand(c, fr, s[1])
                self.oblige(c, v, 'mem', 'compiler assumption holds')
            elif k == 'copynonoverlapping':
                src, dst, n = [self.operand(c, fr, o) for o in s[1:4]]
                self.spans.append(s[4] if len(s) > 4 else None)
                try: self.M.memcopy(self, c, src, dst, n, True)
                finally: self.spans.pop()
            else: raise Undecided('statement %s' % (s,))
        return [x for x, _ in self.splitting(st, f)]
    def unwind_to(self, fr, st, u, reason):
        "continue a panic at unwind action u"
        st.panic = st.panic or reason
        if isinstance(u, int) and not isinstance(u, bool):
            st.unw = True
            return [('goto', st, u)]
        if u == 'continue' : st.unw = True; return [('unwind', st, st.panic)]
        if u == 'terminate': return [('abort', st, st.panic)]
        if u == 'unreachable':
            self.oblige(st, False, 'mem', 'panic where none may unwind', assume=False); return []
        raise Undecided('unwind %s' % u)
    def term_split(self, fr, st, t):
        out = []
        for c, r in self.splitting(st, lambda c: self.term(fr, c, t)): out += r
        return out
    def term(self, fr, st, t):
        k = t[0]
        if k == 'goto': return [('goto', st, t[1])]
        if k == 'return': return [('ret', st)]
        if k == 'resume': return [('unwind', st, st.panic)]
        if k == 'terminate': return [('abort', st, st.panic)]
        if k == 'unreachable':
            self.oblige(st, False, 'mem', 'unreachable code is not reached', assume=False)
            return []
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            ty = self.T(t[4])
            if isinstance(v, Opaque): raise Undecided('switch on opaque value')
            for val, bb in t[2]:
                n = int(val)
                if ty['k'] == 'bool': c = neg(v) if n == 0 else v
                else:
                    if ty['k'] == 'int' and n >= 2**(ty['bits']-1): n -= 2**ty['bits']
                    c = eq(v, n)
                if self.decide(st, c): return [('goto', st, bb)]
            return [('goto', st, t[3])]
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            ok = v if t[2] else neg(v)
            self.spans.append(t[6])
            try:
                if t[3] == 'other' and t[5] == 'unreachable':
                    return [('goto', st, t[4])]   # compiler-inserted pointer checks (alignment/null); covered by 'mem' obligations and C11
                if self.decide(st, ok): return [('goto', st, t[4])]
                return self.unwind_to(fr, st, t[5], ('arith', t[3], self.where()))
            finally: self.spans.pop()
        if k == 'drop':
            self.spans.append(t[5])
            try:
                obj, path, ti = self.resolve(st, fr, t[1])
                outs = self.M.drop_value(self, st, obj, path, ti)
                res = []
                for (s, kind, v) in outs:
                    if kind == 'ret': res.append(('goto', s, t[3]))
                    elif kind == 'unwind': res += self.unwind_to(fr, s, t[4], v)
                    else: res.append((kind, s, v))
                return res
            finally: self.spans.pop()
        if k == 'call':
            self.spans.append(t[6] if len(t) > 6 else None)
            try:
                args = [self.operand(st, fr, a) for a in t[2]]
                if len(t[3]) == 1: self.dest = fr.body['locals'][t[3][0]]
                else: self.dest = self.resolve(st, fr, t[3])[2]
                outs = self.call(st, t[1], args)
                res = []
                for (s, kind, v) in outs:
                    if kind == 'ret':
                        if t[4] is None: continue
                        pl = t[3]
                        if len(pl) == 1: s.heap[fr.loc[pl[0]]] = v
                        else:
                            obj, path, ti = self.resolve(s, fr, pl)
                            self.put(s, obj, path, v)
                        res.append(('goto', s, t[4]))
                    elif kind == 'unwind': res += self.unwind_to(fr, s, t[5], v)
                    else: res.append((kind, s, v))
                return res
            finally: self.spans.pop()
        raise Undecided('terminator %s' % k)

    def has_body(self, f):
        k = f.get('tdefault') or f.get('key')
        return f.get('k') == 'drop_glue' or bool(k and self.mir.body(self.root, k)) or bool(f.get('default') and self.mir.body(self.root, f['default']))
    def call(self, st, callee, args):
        """-> list of (state, 'ret'|'unwind'|'abort', value)"""
        r = self.M.call(self, st, callee, args)
        if r is not None: return r
        key = callee.get('tdefault') or callee.get('key')
        body = self.mir.body(self.root, key) if key else None
        if body is None and callee.get('default'):
            key = callee['default']; body = self.mir.body(self.root, key)
        if body is None: raise Undecided('no body or model for %s (%s)' % (callee.get('ipath') or callee.get('path'), callee.get('k')))
        return self.inline(st, body, args, key)
    def inline(self, st, body, args, key):
        base = st.pc
        outs = self.run_body(st, body, args, key)
        rets = [o for o in outs if o[1] == 'ret']
        if len(rets) > 1:
            m = self.L.merge_rets(self, base, rets)
            outs = m + [o for o in outs if o[1] != 'ret']
        return outs
    def call_fn(self, st, f, args):
        "call a function value (closure / fn item) with a list of args"
        if isinstance(f, Fn): return self.call(st, f.c, args)
        raise Undecided('call of %r' % (f,))
