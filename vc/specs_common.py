"""Contracts shared by the sequence containers (user iterators, clone, drop, hashing, comparisons)."""
from contracts import *
from engine import events
import models as M, models_seq as MS

def tr(ty, t, m): return '<%s as %s>::%s' % (ty, t, m)
def cursor(st, gid): return st.ghost.get(('cursor', gid), 0)
def items(gid, n, f=None):
    fn = z3.Function('item_%s' % gid, z3.IntSort(), V)
    return Seq(n, lambda e, s, i: f(e, s, fn(zi(i))) if f else fn(zi(i)))
def copyable(e, s, v):
    "A: Copy, so cloning is copying"
    s.add(e.cloneF(v) == v); return v
def cloned(e, s, v): return e.cloneF(v)
def more(gid, i): return z3.Function('more_%s' % gid, z3.IntSort(), z3.BoolSort())(zi(i))
def none_last(st, gid):
    "the last next() returned None"
    c = cursor(st, gid)
    return conj(ge(c, 1), neg(more(gid, sub(c, 1))))

# ------------------------------------------------------------ iterator-fed construction
def extend_spec(arg, it, f=None):
    def g(x):
        gid = x.user(it).gid
        def post(k, st, c): return x.pre(arg).seq.concat(items(gid, sub(cursor(st, gid), 1), f))
        def after(k, st, v):
            k.ob(st, none_last(st, gid), k.fp, 'the iterator is consumed up to its end')
            k.ob(st, disj(none_last(st, gid), lt(add(x.pre(arg).len, cursor(st, gid)), k.eng.C.capacity(st, x.byarg[arg][0].ti))), ('C08',), 'returns although the items do not fit')
        def on_panic(k, st, reason):
            c = cursor(st, gid)
            k.ob(st, gt(add(x.pre(arg).len, c), k.eng.C.capacity(st, x.byarg[arg][0].ti)), ('C08',), 'panics (%s) although the items fit' % why(reason))
            return 'safe'
        return dict(post={arg: post}, after=after, on_panic=on_panic)
    return g
def from_iter_spec(it=0, ret=None):
    def g(x):
        gid = x.user(it).gid
        def r(k, st, v):
            c = cursor(st, gid)
            k.ob(st, none_last(st, gid), k.fp, 'the iterator is consumed up to its end')
            k.ob(st, disj(none_last(st, gid), lt(c, k.eng.C.capacity(st, k.retty()))), ('C08',), 'returns although the items do not fit')
            k.returned(st, v, items(gid, sub(c, 1)), k.retty(), 'result')
        def on_panic(k, st, reason):
            c = cursor(st, gid)
            k.ob(st, gt(c, k.eng.C.capacity(st, k.retty())), ('C08',), 'panics (%s) although the items fit' % why(reason))
            return 'safe'
        return dict(ret=r, on_panic=on_panic)
    return g
def collect_from_spec(it=0, n=1):
    def g(x):
        gid = x.user(it).gid; cnt = x.arg(n)
        def r(k, st, v):
            k.ob(st, eq(cursor(st, gid), cnt), k.fp, 'exactly count items are taken from the iterator')
            k.returned(st, v, items(gid, cnt), k.retty(), 'result')
        def on_panic(k, st, reason):
            k.ob(st, disj(conj(none_last(st, gid), le(cursor(st, gid), cnt)), gt(cnt, k.eng.C.capacity(st, k.retty()))), ('C08',) + k.fp, 'panics (%s) although the iterator has count items' % why(reason))
            return 'safe'
        return dict(ret=r, on_panic=on_panic)
    return g
def lens(st, gid): return [e[2] for e in flat(st) if e[0] == 'len' and e[1] == gid]
def flat(st):
    return [e for e in events(st) if e[0] != 'loopfact']
def insert_from_spec(arg=0, idx=1, it=2):
    def g(x):
        gid = x.user(it).gid
        def known(k, st):
            ns = lens(st, gid)
            if not ns: raise Undecided('the length of the iterator is not asked for')
            for n in ns[1:]: st.add(eq(n, ns[0]))   # an honest iterator
            return ns[0]
        def post(k, st, c):
            n = known(k, st); s = x.pre(arg).seq; i = x.arg(idx)
            # an honest iterator yields exactly n items
            cu = cursor(st, gid)
            for j in (sub(cu, 1), sub(cu, 2), n, sub(n, 1)): st.add(implies(le(0, j), zb(more(gid, j)) == zb(lt(j, n))))
            k.ob(st, le(i, x.pre(arg).len), ('C08',), 'returns although the index is out of bounds')
            k.ob(st, le(add(s.len, n), k.eng.C.capacity(st, c.ti)), ('C08',), 'returns although the items do not fit')
            st.add(conj(le(i, s.len), le(add(s.len, n), k.eng.C.capacity(st, c.ti))))
            j = fint('j')
            return s.range(0, i).concat(items(gid, n)).concat(s.range(i, s.len))
        def on_panic(k, st, reason):
            ns = lens(st, gid); s = x.pre(arg)
            if not ns:
                k.ob(st, gt(x.arg(idx), s.len), ('C08',), 'panics (%s) although its requirements are met' % why(reason)); return 'unchanged'
            n = ns[0]; cap = k.eng.C.capacity(st, x.byarg[arg][0].ti)
            if k.eng.proves(st, disj(gt(add(s.len, n), cap), gt(x.arg(idx), s.len))): return 'unchanged'
            lie = disj(conj(none_last(st, gid), le(cursor(st, gid), n)), *[ne(m, n) for m in ns[1:]])
            over = gt(cursor(st, gid), n)
            k.ob(st, disj(gt(add(s.len, n), cap), gt(x.arg(idx), s.len), lie, over), ('C08',), 'panics (%s) although its requirements are met' % why(reason))
            return 'partial'
        return dict(post={arg: post}, on_panic=on_panic, lying=True)
    return g

# ------------------------------------------------------------ clone / drop
def clone_events(k, st):
    "the sequence of cloned values, in order"
    s = EMPTY
    for e in events(st):
        if e[0] == 'clone': s = s.append(e[1])
        elif e[0] == 'loop':
            cs = [fs for nm, fs in e[2] if nm == 'clone']
            if any(nm == 'poison' for nm, fs in e[2]): raise Undecided('clone events')
            if not cs: continue
            if len(cs) != 1: raise Undecided('clone events')
            f = cs[0][0]
            from loops import Const
            if isinstance(f, Const) and f.v is POISON: raise Undecided('clone events')
            s = s.concat(Seq(e[1], lambda en, st_, i, f=f: f.at(i)))
    return s
def clone_of(seq): return Seq(seq.len, lambda e, s, i: e.cloneF(seq.at(e, s, i)))
def once_each(k, st, seq):
    eng = k.eng; ev = clone_events(k, st)
    if not k.ob(st, eq(ev.len, seq.len), k.fp, 'every element is cloned exactly once: number of clones'): return
    s = st.copy(); i = eng.skolem(s, 0, seq.len)
    if not eng.sat(s): return
    p = ev.at(eng, s, i)
    # the order of the calls is free: forwards or backwards
    for q in (seq.at(eng, s, i), seq.at(eng, s, sub(sub(seq.len, 1), i))):
        if eng.proves(s, eq(p, q)):
            k.ob(s, eq(p, q), k.fp, 'every element is cloned exactly once: the element cloned'); return
    raise Undecided('order of clone calls')
def clone_spec(x):
    s = x.pre(0).seq
    return dict(ret=('seq', clone_of(s)), after=lambda k, st, v: once_each(k, st, s))
def clone_uninit_spec(x):
    s = x.pre(0).seq
    return dict(post={1: clone_of(s)}, after=lambda k, st, v: once_each(k, st, s))
def drop_spec(x): return dict(dropped=(0,))

# ------------------------------------------------------------ iterators owning or borrowing a container
def next_spec(back, opt=True):
    def g(x):
        s = x.pre(0)
        def r(k, st, v): k.value(st, v, ('opt', gt(s.len, 0), ('val', k.eng.sat(k.eng.under(st, gt(s.len, 0))) and s.seq.at(k.eng, st, sub(s.len, 1) if back else 0))), 'result')
        def post(k, st, c):
            if k.eng.decide(st, gt(s.len, 0)): return s.seq.popback() if back else s.seq.popfront()
            return s.seq
        return dict(ret=r, post={0: post})
    return g
def size_hint_spec(x):
    n = x.pre(0).len
    return dict(ret=('tuple', [('int', n), ('opt', True, ('int', n))]))

# methods an iterator may override (std's default bodies go through next and next_back, so they need no contract of their own)
def nth_spec(back):
    def g(x):
        s = x.pre(0); n = x.arg(1); has = lt(n, s.len)
        def r(k, st, v): k.value(st, v, ('opt', has, ('val', k.eng.sat(k.eng.under(st, has)) and s.seq.at(k.eng, st, sub(sub(s.len, 1), n) if back else n))), 'result')
        def post(k, st, c):
            if k.eng.decide(st, has): return s.seq.take(sub(s.len, add(n, 1))) if back else s.seq.popfront(add(n, 1))
            return EMPTY
        return dict(ret=r, post={0: post})
    return g
def len_spec(x): return dict(ret=('int', x.pre(0).len))
def emptied(x):
    "a draining iterator that is used up leaves its container empty"
    return {} if x.byarg[0][0].byval else dict(post={0: EMPTY})
def count_spec(x): return dict(ret=('int', x.pre(0).len), **emptied(x))
def last_spec(x):
    s = x.pre(0)
    return dict(**emptied(x), ret=lambda k, st, v: k.value(st, v, ('opt', gt(s.len, 0), ('val', k.eng.sat(k.eng.under(st, gt(s.len, 0))) and s.seq.at(k.eng, st, sub(s.len, 1)))), 'result'))
def overridable(ty, prop='C09', ring=False):
    I, D, kw = 'std::iter::Iterator', 'std::iter::DoubleEndedIterator', dict(prop=prop, optional=True)
    nth, cnt, lst = (riter_nth_spec, riter_count_spec, riter_last_spec) if ring else (nth_spec, count_spec, last_spec)
    spec(tr(ty, I, 'nth'), **kw)(nth(False))
    spec(tr(ty, D, 'nth_back'), **kw)(nth(True))
    spec(tr(ty, I, 'count'), **kw)(cnt)
    spec(tr(ty, 'std::iter::ExactSizeIterator', 'len'), **kw)(cnt if ring else len_spec)
    spec(tr(ty, I, 'last'), **kw)(lst)
# ------------------------------------------------------------ indexing, hashing, comparing, ordering, bytes
def seqarg(k, i):
    "contents, before the call, of argument i: a container, a ring slice or a borrowed user slice"
    x = k.x
    if i in x.slices: return x.slices[i].seq()
    if i in x.byarg: return x.byarg[i][0].pre.seq
    u = x.users.get(i)
    if u is None: raise Undecided('contents of argument %d' % i)
    fn = z3.Function('slice_%s' % u.gid, z3.IntSort(), V); n = z3.Int('len_%s' % u.gid)
    return Seq(n, lambda e, s, j: fn(zi(j)))
def one_event(st, kind):
    r = [e for e in flat(st) if e[0] == kind]
    if len(r) != 1: raise Undecided('%d events of kind %s' % (len(r), kind))
    return r[0]
def index_spec(x):
    "C: v[index] is exactly the slice's answer for the whole contents, including when it panics"
    def r(k, st, v):
        e = one_event(st, 'index')
        k.ob(st, v is e[2], k.fp, 'the element found is the one returned')
        k.value(st, e[1], ('slice', 0), 'the slice indexed')
    def on_panic(k, st, reason):
        e = one_event(st, 'indexpanic')
        k.value(st, e[1], ('slice', 0), 'the slice indexed')
        return 'unchanged'
    return dict(ret=r, on_panic=on_panic)
def eqfacts(k, s, i):
    "everything the path knows about element equality at index i"
    from engine import events as evs
    for e in evs(s):
        if e[0] == 'alleq':
            c = conj(lt(i, e[1].len), lt(i, e[2].len))
            if k.eng.tri(s, c) is not False:
                t = k.eng.under(s, c)
                s.add(implies(c, MS.eqF(k.eng)(e[1].at(k.eng, t, i), e[2].at(k.eng, t, i))))
        elif e[0] == 'loopfact': s.add(implies(conj(le(0, i), lt(i, e[1])), e[2](i)))
def eq_spec(x):
    "a == b exactly when both have the same length and equal elements at every position"
    def r(k, st, v):
        eng = k.eng; A, B = seqarg(k, 0), seqarg(k, 1); f = MS.eqF(eng)
        if not (isinstance(v, bool) or isz(v)): raise Undecided('result %r' % (v,))
        if eng.decide(st, v):
            if not k.ob(st, eq(A.len, B.len), k.fp, 'containers of different lengths are not equal'): return
            s = st.copy(); i = eng.skolem(s, 0, A.len); s.add(lt(i, B.len))
            if not eng.sat(s): return
            p, q = A.at(eng, s, i), B.at(eng, s, i)
            s.add(f(p, q) == f(q, p))
            eqfacts(k, s, i)
            if not eng.proves(s, f(p, q)): eqfacts(k, s, sub(sub(A.len, 1), i))   # compared from the back
            k.ob(s, f(p, q), k.fp, 'containers reported equal have equal elements')
        else:
            ws = []
            for e in events(st):
                w = e[1] if e[0] in ('witness', 'loop', 'loopfact') else None
                if w is None: continue
                for w in (w, sub(sub(A.len, 1), w)):
                    c = conj(le(0, w), lt(w, A.len), lt(w, B.len))
                    t = eng.under(st, c)
                    if not eng.sat(t): continue
                    p, q = A.at(eng, t, w), B.at(eng, t, w)
                    ws.append(conj(c, neg(conj(f(p, q), f(q, p)))))
                    st.add(f(p, q) == f(q, p))
            k.ob(st, disj(ne(A.len, B.len), *ws), k.fp, 'containers reported different differ in length or in an element')
    return dict(ret=r)
def cmp_spec(kind):
    def g(x):
        def r(k, st, v):
            if not any(e[0] == 'cmp' for e in flat(st)): return stepwise(k, st, v)
            e = one_event(st, 'cmp')
            if e[1] != kind: raise Undecided('comparison through %s' % e[1])
            k.same_seq(st, e[2], seqarg(k, 0), k.fp, 'left operand of the comparison')
            k.same_seq(st, e[3], seqarg(k, 1), k.fp, 'right operand of the comparison')
            if kind == 'cmp': k.ob(st, isinstance(v, Enum) and v.v == e[4], k.fp, 'result of the lexicographic comparison')
            else: k.ob(st, isinstance(v, Enum) and (v.v == 0 if e[4] == 3 else v.v == 1 and v.f[0].v == e[4]), k.fp, 'result of the lexicographic comparison')
        return dict(ret=r)
    # a comparison written as a loop: equal elements, then the first difference (or the end of one operand) decides
    def answer(v):
        if not isinstance(v, Enum): raise Undecided('result %r' % (v,))
        if kind == 'cmp': return v.v
        return 3 if v.v == 0 else v.f[0].v
    def stepwise(k, st, v):
        from loops import Const
        A, B = seqarg(k, 0), seqarg(k, 1); eng = k.eng; pos = 0; last = None; steps = []
        for e in flat(st):
            if e[0] == 'order': steps.append((1, e[1], e[2], lambda j, e=e: e[3], lambda j, e=e: e[4]))
            elif e[0] == 'loop':
                if any(nm == 'poison' for nm, fs in e[2]): raise Undecided('comparisons in a loop')
                os = [fs for nm, fs in e[2] if nm == 'order']
                if not os: continue
                fs = os[0]
                if len(os) > 1 or not all(isinstance(f, Const) for f in fs[:2]) or any(isinstance(f, Const) and f.v is POISON for f in fs): raise Undecided('comparisons in a loop')
                steps.append((e[1], fs[0].v, fs[1].v, fs[2].at, fs[3].at))
        for n, op, o, x, y in steps:
            if last is not None: raise Undecided('comparison after a difference')
            if op != kind: raise Undecided('comparison through %s' % op)
            s = st.copy(); j = eng.skolem(s, 0, n)
            if eng.sat(s):
                p = add(pos, j)
                k.ob(s, conj(lt(p, A.len), lt(p, B.len)), k.fp, 'elements compared are within both operands')
                s.add(conj(lt(p, A.len), lt(p, B.len)))
                if eng.sat(s): k.ob(s, conj(eq(x(j), A.at(eng, s, p)), eq(y(j), B.at(eng, s, p))), k.fp, 'elements at the same position are compared, in order')
            if o == 1: pos = add(pos, n)
            elif type(n) is int and n == 1: last = o
            else: raise Undecided('comparisons in a loop')
        r = answer(v)
        if last is not None: return k.ob(st, r == last, k.fp, 'the first difference decides the result of the lexicographic comparison')
        k.ob(st, conj(eq(pos, ite(le(A.len, B.len), A.len, B.len)), {0: lt(A.len, B.len), 1: eq(A.len, B.len), 2: lt(B.len, A.len), 3: False}[r]), k.fp, 'without a difference the lengths decide the result of the lexicographic comparison')
    return g
def hash_tokens(st):
    toks = []
    def seq(s):
        if toks and toks[-1][0] == 'S': toks[-1] = ('S', toks[-1][1].concat(s))
        else: toks.append(('S', s))
    for e in flat(st):
        if e[0] == 'feed':
            if e[1] == 'slice': toks.append(('L', e[2].len)); seq(e[2])
            elif e[1] == 'elems': seq(e[2])
            elif e[1] == 'elem': seq(EMPTY.append(e[2]))
            else: toks.append(('L' if e[1] == 'len' else 'U', e[2]))
        elif e[0] == 'loop':
            if any(nm == 'poison' for nm, fs in e[2]): raise Undecided('hash events')
            fd = [fs for nm, fs in e[2] if nm == 'feed']
            if not fd: continue
            if len(fd) != 1 or fd[0][0].v != 'elem': raise Undecided('hash events')
            f = fd[0][1]
            from loops import Const
            if isinstance(f, Const) and f.v is POISON: raise Undecided('hash events')
            seq(Seq(e[1], lambda en, s, i, f=f: f.at(i)))
    return toks
def hash_spec(as_slice):
    "as_slice: the hasher is fed exactly as by the slice of the contents (Borrow<[A]>); else: a function of the elements in order"
    def g(x):
        def r(k, st, v):
            pre = seqarg(k, 0); t = hash_tokens(st)
            shape = ''.join(a for a, _ in t)
            if shape in ('', 'L', 'U') and k.eng.proves(st, eq(pre.len, 0)): shape += 'S'; t = t+[('S', EMPTY)]
            if as_slice and shape == 'S': return k.ob(st, False, k.fp, 'the length is fed to the hasher, as by the slice of the contents')
            if shape not in ('LS',) + (() if as_slice else ('S', 'US')): raise Undecided('hash feed of shape %s' % shape)
            if shape[0] != 'S': k.ob(st, eq(t[0][1], pre.len), k.fp, 'length fed to the hasher')
            k.same_seq(st, t[-1][1], pre, k.fp, 'elements fed to the hasher')
        return dict(ret=r)
    return g
def fmt_seq(st):
    "the elements handed to the Debug builder, in order"
    r = EMPTY
    for e in flat(st):
        if e[0] == 'fmtseq': r = r.concat(e[1])
        elif e[0] == 'fmt': r = r.append(e[1])
        elif e[0] == 'loop':
            if any(nm == 'poison' for nm, fs in e[2]): raise Undecided('format events')
            fd = [fs for nm, fs in e[2] if nm == 'fmt']
            if not fd: continue
            if len(fd) != 1: raise Undecided('format events')
            f = fd[0][0]
            from loops import Const
            if isinstance(f, Const) and f.v is POISON: raise Undecided('format events')
            r = r.concat(Seq(e[1], lambda en, s, i, f=f: f.at(i)))
    return r
FRESH['std::fmt::Formatter'] = FRESH['core::fmt::Formatter'] = lambda *a: Opaque('formatter')
def debug_spec(x):
    "Debug formatting reads the elements in index order, each once (unless the writer reports an error)"
    def r(k, st, v):
        if any(e[0] == 'fmterr' for e in flat(st)): return
        k.same_seq(st, fmt_seq(st), seqarg(k, 0), k.fp, 'elements formatted')
    return dict(ret=r)
leF = z3.Function('ord_le', V, V, z3.BoolSort())
def order_fact(op, n, x, y):
    "what the answer n of the comparison op says about a total preorder"
    xy, yx = leF(x, y), leF(y, x)
    if op in ('cmp', 'partial_cmp'): return [conj(xy, neg(yx)), conj(xy, yx), conj(neg(xy), yx), False][n]
    return {'lt': neg(yx), 'ge': yx, 'le': xy, 'gt': neg(xy)}[op] if n else {'lt': yx, 'ge': neg(yx), 'le': neg(xy), 'gt': xy}[op]
class Order:
    """the total preorder known from the comparisons and searches made on a path, the contents before (s) being sorted:
    facts are instantiated at the given indices and closed under transitivity over the given values"""
    def __init__(self, k, st, s):
        self.k = k; self.s = s; self.search = []; self.cmp = []; self.loops = []; self.inv = []; self.ends = []; self.hs = ()
        eng = k.eng
        for e in flat(st):
            if e[0] == 'bsearch': self.search.append((e[1], e[2], e[3], e[4], self.offset(st, e[1])))
            elif e[0] == 'order': self.cmp.append(e[1:])
            elif e[0] == 'orderinv': self.inv += list(e[1]); self.hs += e[2]; self.ends += [add(h, d) for h in e[2]+tuple(add(g, h) for g in e[2] for h in e[2] if g is not h) for d in (-1, 0, 1)]
            elif e[0] == 'loop':
                for nm, fs in e[2]:
                    if nm == 'poison' or nm == 'bsearch': raise Undecided('searches in a loop')
                    if nm == 'order': self.loops.append((e[1], fs))
    def offset(self, st, A):
        "where the searched part starts in the contents"
        eng = self.k.eng; s = self.s
        for o in (0, sub(s.len, A.len)):
            t = st.copy(); t.add(conj(le(0, o), le(add(o, A.len), s.len))) if not eng.proves(t, conj(le(0, o), le(add(o, A.len), s.len))) else None
            i = eng.skolem(t, 0, A.len)
            if not eng.proves(st, conj(le(0, o), le(add(o, A.len), s.len))): continue
            if not eng.sat(t) or eng.proves(t, eq(A.at(eng, t, i), s.at(eng, t, add(o, i)))): return o
        raise Undecided('a search over something else than a part of the contents')
    def facts(self, st, idx, vals):
        eng = self.k.eng; s = self.s
        idx = list(idx)
        for A, key, i, ok, o in self.search: idx += [add(o, i), add(o, sub(i, 1))]
        ins = lambda j: conj(le(0, j), lt(j, s.len))
        T = [s.at(eng, st, j) for j in idx]
        for a, x in zip(idx, T):
            for b, y in zip(idx, T): st.add(implies(conj(le(0, a), le(a, b), lt(b, s.len)), leF(x, y)))
        for A, key, i, ok, o in self.search:
            for j, x in zip(idx, T):
                inA = conj(le(o, j), lt(j, add(o, A.len)))
                st.add(implies(conj(inA, lt(j, add(o, i))), leF(x, key))); st.add(implies(conj(inA, ge(j, add(o, i))), leF(key, x)))
                if ok: st.add(implies(conj(inA, eq(j, add(o, i))), conj(leF(x, key), leF(key, x))))
                else: st.add(implies(conj(inA, lt(j, add(o, i))), neg(leF(key, x)))); st.add(implies(conj(inA, ge(j, add(o, i))), neg(leF(x, key))))
            vals = vals + [key]
        for c in self.inv: st.add(c)
        for op, n, x, y in self.cmp:
            st.add(order_fact(op, n, x, y)); vals = vals + [x, y]
        from loops import Const
        for n, fs in self.loops:
            if not isinstance(fs[0], Const) or not isinstance(fs[1], Const) or any(isinstance(f, Const) and f.v is POISON for f in fs): raise Undecided('comparisons in a loop')
            for j in idx:
                for q in (j, sub(sub(n, 1), j), sub(sub(s.len, 1), j)):
                    x, y = fs[2].at(q), fs[3].at(q)
                    st.add(implies(conj(le(0, q), lt(q, n)), order_fact(fs[0].v, fs[1].v, x, y))); vals = vals + [x, y]
        V_ = {kid(v): v for v in T+vals}
        V_ = list(V_.values())[:14]
        for x in V_:
            st.add(leF(x, x))
            for y in V_:
                st.add(disj(leF(x, y), leF(y, x)))
                for z in V_: st.add(implies(conj(leF(x, y), leF(y, z)), leF(x, z)))
def insert_ordered_spec(x):
    """the value is inserted at a position p such that, if the contents were sorted, everything before p is <= the value and
    everything from p on is >= it; hence the result is sorted and the previous elements keep their relative order"""
    s = x.pre(0); v = x.arg(1)
    def post(k, st, c):
        eng = k.eng; O = Order(k, st, s.seq)
        w = view(eng, st, c.obj, c.path, c.ti).seq
        cand = []
        for A, key, i, ok, o in O.search: cand += [add(o, i), add(o, add(i, 1))]
        cand += [s.len, 0] + [sub(n, d) for n, _ in O.loops for d in (0, 1)] + [e[2] for e in O.search]
        if not k.ob(st, eq(w.len, add(s.len, 1)), k.fp, 'exactly one element is added'): return 'any'
        st.add(eq(w.len, add(s.len, 1)))
        from loops import divs
        cand += O.ends+[sub(s.len, n) for n, _ in O.loops]+[sub(sub(s.len, n), 1) for n, _ in O.loops]
        cand += [t for op, n, x, y in O.cmp for e in (x, y) for D in divs(e) for t in [D, add(D, 1)]+[add(add(h, D), d) for h in O.hs for d in (0, 1)]]
        pos = []
        for p in cand:
            if not eng.proves(st, conj(le(0, p), le(p, s.len))): continue
            e = s.seq.insert(p, v); t = st.copy(); q = eng.skolem(t, 0, w.len)
            if not eng.sat(t) or eng.proves(t, eq(w.at(eng, t, q), e.at(eng, t, q))): pos.append(p); break
        if not pos:
            if len(O.search) != 1 or O.loops or O.cmp: raise Undecided('position of the insertion')
            return s.seq.insert(cand[0], v)
        p = pos[0]
        t = st.copy(); j = eng.skolem(t, 0, s.len)
        if eng.sat(t):
            O.facts(t, [j, 0, sub(s.len, 1), p, sub(p, 1)], [v])
            y = s.seq.at(eng, t, j)
            k.ob(t, ite(lt(j, p), leF(y, v), leF(v, y)), k.fp, 'the value is inserted between the elements not above it and those not below it')
        return s.seq.insert(p, v)
    return dict(panics=eq(s.len, x.N), post={0: post}, sorted=s.seq)
def ioslice(x, i):
    o, n, fn = x.ghost[('slice', i)]
    return o, Seq(n, lambda e, s, j: byte(s, fn(zi(j))))
def write_spec(x):
    s = x.pre(0); o, b = ioslice(x, 1); room = sub(x.N, s.len)
    m = ite(le(b.len, room), b.len, room)
    return dict(post={0: s.seq.concat(b.take(m))}, ret=('ok', ('int', m)))
def flush_spec(x): return dict(ret=('ok', ('unit',)))
def read_spec(x):
    s = x.pre(0); o, b = ioslice(x, 1)
    m = ite(le(b.len, s.len), b.len, s.len)
    def after(k, st, v):
        eng = k.eng; nb = st.heap[o]
        t = st.copy(); i = eng.skolem(t, 0, m)
        if eng.sat(t): k.ob(t, eq(nb.val(eng, t, i), s.seq.at(eng, t, i)), k.fp, 'bytes delivered to the reader')
        t = st.copy(); i = eng.skolem(t, m, b.len)
        if eng.sat(t): k.ob(t, eq(nb.val(eng, t, i), b.at(eng, t, i)), k.fp, 'bytes of the buffer beyond the count are untouched')
    return dict(post={0: s.seq.popfront(m)}, ret=('ok', ('int', m)), after=after)

# ------------------------------------------------------------ ring buffers: borrowed views
def pos(x, i):
    "(first position, length) of argument i within its ring"
    if i in x.slices: r = x.slices[i]; return r.a, r.len
    return 0, x.pre(i).len
def range_spec(x):
    a, n = pos(x, 0)
    def bounds(k, st):
        bs = [e for e in flat(st) if e[0] == 'bound']
        ss = [e for e in bs if e[1] == 'start']; es = [e for e in bs if e[1] == 'end']
        if len(ss) != 1 or len(es) > 1: raise Undecided('bounds of the range are asked for %d/%d times' % (len(ss), len(es)))
        if ss[0][2] == 1: return None
        if not es: raise Undecided('end of the range not asked for')
        lo = 0 if ss[0][2] == 2 else ss[0][3]
        hi = n if es[0][2] == 2 else es[0][3] if es[0][2] == 1 else add(es[0][3], 1)
        return lo, hi
    def r(k, st, v):
        b = bounds(k, st)
        if b is None: raise Undecided('excluded start bound')
        if not k.ob(st, conj(le(b[0], b[1]), le(b[1], n)), ('C08',)+k.fp, 'returns although the range is out of bounds'): return
        st.add(conj(le(b[0], b[1]), le(b[1], n)))
        k.value(st, v, ('rslice', 0, add(a, b[0]), add(a, b[1])), 'result')
    def on_panic(k, st, reason):
        b = bounds(k, st)
        # an excluded start bound is not supported (unimplemented!())
        if b is not None: k.ob(st, disj(gt(b[0], b[1]), gt(b[1], n)), ('C08',)+k.fp, 'panics (%s) although the range is within bounds' % why(reason))
        return 'unchanged'
    return dict(ret=r, on_panic=on_panic)
def riter_next_spec(back):
    def g(x):
        it = x.riters[0]
        def r(k, st, v):
            def elem(k, st, v):
                eng = k.eng
                if not isinstance(v, Ptr) or v.obj != it.obj or v.path[:-1] != it.bpath or v.path[-1][0] != 'e': raise Undecided('element pointer %r' % (v,))
                k.ob(st, eq(v.path[-1][1], it.loc(sub(it.n, 1) if back else 0)), k.fp, 'the element yielded')
            k.value(st, v, ('opt', gt(it.n, 0), elem), 'result')
        def after(k, st, v):
            eng = k.eng; p = x.arg(0); ti = eng.T(k.x.body['locals'][1])['to']
            nw = riter(eng, st, eng.get(st, p.obj, p.path), ti)
            k.ob(st, eq(nw.n, ite(lt(0, it.n), sub(it.n, 1), 0)), k.fp, 'number of elements remaining')
            s = st.copy(); s.add(lt(0, nw.n))
            if eng.sat(s):
                k.ob(s, eq(nw.left, it.loc(0 if back else 1)), k.fp, 'first element remaining')
                k.ob(s, nw.wf(), tuple(set(('C05',)+k.fp)), 'the iterator stays within the ring')
        return dict(ret=r, after=after)
    return g
def riter_elem(x, has, i):
    it = x.riters[0]
    def elem(k, st, v):
        if not isinstance(v, Ptr) or v.obj != it.obj or v.path[:-1] != it.bpath or v.path[-1][0] != 'e': raise Undecided('element pointer %r' % (v,))
        k.ob(st, eq(v.path[-1][1], it.loc(i)), k.fp, 'the element yielded')
    return lambda k, st, v: k.value(st, v, ('opt', has, elem), 'result')
def riter_nth_spec(back):
    def g(x):
        it = x.riters[0]; n = x.arg(1); has = lt(n, it.n)
        def after(k, st, v):
            eng = k.eng; p = x.arg(0); ti = eng.T(k.x.body['locals'][1])['to']
            nw = riter(eng, st, eng.get(st, p.obj, p.path), ti)
            k.ob(st, eq(nw.n, ite(has, sub(sub(it.n, n), 1), 0)), k.fp, 'number of elements remaining')
            s = st.copy(); s.add(lt(0, nw.n))
            if eng.sat(s):
                k.ob(s, eq(nw.left, it.loc(0 if back else add(n, 1))), k.fp, 'first element remaining')
                k.ob(s, nw.wf(), tuple(set(('C05',)+k.fp)), 'the iterator stays within the ring')
        return dict(ret=riter_elem(x, has, sub(sub(it.n, 1), n) if back else n), after=after)
    return g
def riter_count_spec(x): return dict(ret=('int', x.riters[0].n))
def riter_last_spec(x): return dict(ret=riter_elem(x, gt(x.riters[0].n, 0), sub(x.riters[0].n, 1)))
def riter_hint_spec(x):
    n = x.riters[0].n
    return dict(ret=('tuple', [('int', n), ('opt', True, ('int', n))]))
