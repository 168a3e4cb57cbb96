"""Contracts assumed on std's sequence operations over elements (comparison, hashing, searching, slicing) and on the user code
they call; each is recorded as an event so that the contracts of /repo's functions can refer to it."""
import z3
from terms import *
from values import *
from views import *
from models import model, user, ret, panic, fork_user_panic, UNITV, buf_at, live_slice, as_user, TABLE
import models as M

def eqF(eng): return z3.Function('eq', V, V, z3.BoolSort())
def all_live(eng, st, n, own, msg):
    s = st.copy(); k = fint('k'); s.add(conj(le(0, k), lt(k, n)))
    if eng.sat(s): eng.oblige(s, own(s, k), 'mem', msg)
def slice_seq(eng, st, p):
    "elements behind a slice pointer"
    if not isinstance(p, Ptr): raise Undecided('slice %r' % (p,))
    if p.obj is None: return Seq(p.meta, EMPTY.f)
    B = buf_at(eng, st, p)
    if B is None: raise Undecided('slice of unknown storage')
    b, i0 = B[2], B[3]
    all_live(eng, st, p.meta, lambda s, k: b.own(eng, s, add(i0, k)), 'every element compared or hashed is live')
    return Seq(p.meta, lambda e, s, i: b.val(e, s, add(i0, i)))
def iter_seq(eng, st, v, ti):
    "the remaining elements of an iterator value, or None when its kind is not known"
    if isinstance(v, SliceIter):
        return slice_seq(eng, st, Ptr(v.p.obj, v.p.path[:-1]+(('e', add(v.p.path[-1][1], v.i)),), v.n)) if v.p.obj is not None else Seq(v.n, EMPTY.f)
    t = eng.T(ti)
    if t['k'] == 'adt' and t['path'] in (RITER, RITERM):
        x = riter(eng, st, v, ti)
        eng.oblige(st, disj(eq(x.n, 0), x.wf()), 'mem', 'a ring iterator stays within the ring')
        all_live(eng, st, x.n, lambda s, k: x.buf.own(eng, s, x.loc(k)), 'every element of a ring iterator is live')
        return x.seq()
    if isinstance(v, Ptr) and v.meta is not None and t['k'] == 'ref' and eng.T(t['to'])['k'] == 'slice': return slice_seq(eng, st, v)
    return None
def eq_outcomes(eng, st, A, B):
    f = eqF(eng); outs = []
    s1 = st.copy(); s1.add(eq(A.len, B.len)); s1.event('alleq', A, B)
    if eng.sat(s1): outs.append((s1, 'ret', True))
    s2 = st.copy(); s2.add(ne(A.len, B.len)); s2.event('lenne')
    if eng.sat(s2): outs.append((s2, 'ret', False))
    s3 = st.copy(); k = fint('w'); s3.add(conj(le(0, k), lt(k, A.len), lt(k, B.len)))
    if eng.sat(s3):
        s3.add(neg(f(A.at(eng, s3, k), B.at(eng, s3, k)))); s3.event('witness', k)
        if eng.sat(s3): outs.append((s3, 'ret', False))
    return outs + fork_user_panic(eng, st, 'eq')
def values_(A): return True
@model('std::iter::Iterator::eq')
def _(eng, st, f, a):
    t = f['targs']
    A = iter_seq(eng, st, a[0], t[0]); B = iter_seq(eng, st, a[1], t[1]) if A is not None else None
    if A is None or B is None: return None
    return eq_outcomes(eng, st, A, B)
@model('core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq')
def _(eng, st, f, a): return eq_outcomes(eng, st, slice_seq(eng, st, a[0]), slice_seq(eng, st, a[1]))
@model('core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne')
def _(eng, st, f, a): return [(s, k, (not v) if k == 'ret' else v) for s, k, v in eq_outcomes(eng, st, slice_seq(eng, st, a[0]), slice_seq(eng, st, a[1]))]
def cmp_outcomes(eng, st, A, B, kind):
    outs = []
    for n in range(4 if kind == 'partial_cmp' else 3):
        s = st.copy(); s.event('cmp', kind, A, B, n)
        o = Enum(n, ())
        if kind == 'partial_cmp': o = Enum(1, (Enum(n, ()),)) if n < 3 else Enum(0, ())
        outs.append((s, 'ret', o))
    return outs + fork_user_panic(eng, st, 'cmp')
def seq_cmp(kind):
    def g(eng, st, f, a):
        t = f['targs']
        A = iter_seq(eng, st, a[0], t[0]); B = iter_seq(eng, st, a[1], t[1]) if A is not None else None
        if A is None or B is None: return None
        return cmp_outcomes(eng, st, A, B, kind)
    return g
TABLE['std::iter::Iterator::cmp'] = seq_cmp('cmp')
TABLE['std::iter::Iterator::partial_cmp'] = seq_cmp('partial_cmp')
@model('core::slice::cmp::<impl std::cmp::Ord for [T]>::cmp')
def _(eng, st, f, a): return cmp_outcomes(eng, st, slice_seq(eng, st, a[0]), slice_seq(eng, st, a[1]), 'cmp')
@model('core::slice::cmp::<impl std::cmp::PartialOrd for [T]>::partial_cmp')
def _(eng, st, f, a): return cmp_outcomes(eng, st, slice_seq(eng, st, a[0]), slice_seq(eng, st, a[1]), 'partial_cmp')
# ---- hashing
def feed(eng, st, *e):
    st.event('feed', *e)
    return ret(st, UNITV) + fork_user_panic(eng, st, 'hash')
def val_at(eng, st, p):
    while isinstance(p, Ptr) and p.meta is None:
        if p.obj is None: raise Undecided('dangling')
        p = eng.live(eng.get(st, p.obj, p.path))
    return p
@model('core::hash::impls::<impl std::hash::Hash for [T]>::hash')
def _(eng, st, f, a): return feed(eng, st, 'slice', slice_seq(eng, st, a[0]))
@user('std::hash::Hash::hash')
def _(eng, st, f, a):
    v = val_at(eng, st, a[0])
    if not (isz(v) and v.sort() == V): raise Undecided('hash of %r' % (v,))
    return feed(eng, st, 'elem', v)
@user('std::hash::Hash::hash_slice')
def _(eng, st, f, a): return feed(eng, st, 'elems', slice_seq(eng, st, a[0]))
@user('std::hash::Hasher::write_length_prefix', 'std::hash::Hasher::write_usize')
def _(eng, st, f, a): return feed(eng, st, 'len' if f['path'].endswith('prefix') else 'usize', a[1])
# ---- element comparison in explicit loops
@user('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def _(eng, st, f, a):
    x, y = val_at(eng, st, a[0]), val_at(eng, st, a[1])
    if not all(isz(v) and v.sort() == V for v in (x, y)): raise Undecided('comparison of %r and %r' % (x, y))
    r = eqF(eng)(x, y)
    return ret(st, neg(r) if f['path'].endswith('ne') else r) + fork_user_panic(eng, st, 'eq')
# ---- indexing with a generic index
@user('std::slice::SliceIndex::index', 'std::slice::SliceIndex::index_mut')
def _(eng, st, f, a):
    p = a[1]
    live_slice(eng, st, p)
    s = st.copy()
    o = Opaque('element or subslice'); st.event('index', p, o)
    s.event('indexpanic', p)
    return ret(st, o) + [(s, 'unwind', ('panic', eng.where()))]
@user('std::slice::SliceIndex::get', 'std::slice::SliceIndex::get_mut')
def _(eng, st, f, a):
    p = a[1]
    live_slice(eng, st, p)
    s = st.copy()
    o = Opaque('element or subslice'); st.event('index', p, o)
    s.event('indexpanic', p)
    return ret(st, Enum(1, (o,))) + ret(s, Enum(0, ()))
# ---- ordered search
def bsearch(eng, st, A, key):
    key = val_at(eng, st, key)
    outs = []
    for ok in (True, False):
        s = st.copy(); i = fint('found'); s.add(conj(le(0, i), lt(i, A.len) if ok else le(i, A.len)))
        s.event('bsearch', A, key, i, ok)
        if eng.sat(s): outs.append((s, 'ret', Enum(0 if ok else 1, (i,))))
    return outs + fork_user_panic(eng, st, 'cmp')
@model('core::slice::<impl [T]>::binary_search')
def _(eng, st, f, a): return bsearch(eng, st, slice_seq(eng, st, a[0]), a[1])
def array_seq(eng, st, p, ti):
    t = eng.T(ti)
    if t['k'] == 'adt' and t['path'] in (RSLICE, RSLICEM):
        x = rslice(eng, st, eng.get(st, p.obj, p.path), ti)
        eng.oblige(st, x.wf(), 'mem', 'a ring slice stays within the ring')
        return x.seq()
    if kind_of(eng, ti): return view(eng, st, p.obj, p.path, ti).seq
    return None
@model('array_ops::Array::binary_search')
def _(eng, st, f, a):
    A = array_seq(eng, st, a[0], f['targs'][0])
    if A is None: return None
    return bsearch(eng, st, A, a[1])
# ---- ranges
@user('std::ops::RangeBounds::start_bound', 'std::ops::RangeBounds::end_bound')
def _(eng, st, f, a):
    u = as_user(eng, st, a[0]); which = 'start' if 'start' in f['path'] else 'end'
    g = ('bounds', u.gid, which); c = st.ghost.get(g, 0)
    if type(c) is not int: raise Undecided('bounds of a range in a loop')
    nm = '%s_%s_%d' % (which, u.gid, c)
    x = z3.Int(nm); eng.names[nm] = 1; st.add(conj(le(0, x), lt(x, MAXU)))
    if eng.decide(st, z3.Bool(nm+'_unbounded')): r = Enum(2, ()); k = 2
    else:
        k = 0 if eng.decide(st, z3.Bool(nm+'_included')) else 1
        r = Enum(k, (Ptr(eng.new_obj(st, x), ()),))
    st.ghost[g] = c+1
    st.event('bound', which, k, x)
    return ret(st, r) + fork_user_panic(eng, st, 'range')
# ---- Debug formatting
@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::write_fmt")
def _(eng, st, f, a):
    s = st.copy(); s.event('fmterr')
    return ret(st, Enum(0, (UNITV,))) + ret(s, Enum(1, (UNITV,))) + fork_user_panic(eng, st, 'fmt')
@model("std::fmt::Formatter::<'a>::debug_list", "std::fmt::Formatter::<'a>::debug_map", "std::fmt::Formatter::<'a>::debug_set")
def _(eng, st, f, a): return ret(st, Opaque('debug builder')) + fork_user_panic(eng, st, 'fmt')
@model("std::fmt::DebugList::<'a, 'b>::finish", "std::fmt::DebugMap::<'a, 'b>::finish", "std::fmt::DebugSet::<'a, 'b>::finish")
def _(eng, st, f, a):
    s = st.copy(); s.event('fmterr')
    return ret(st, Enum(0, (UNITV,))) + ret(s, Enum(1, (UNITV,))) + fork_user_panic(eng, st, 'fmt')
@model("std::fmt::DebugList::<'a, 'b>::entries", "std::fmt::DebugSet::<'a, 'b>::entries")
def _(eng, st, f, a):
    A = iter_seq(eng, st, a[1], f['targs'][-1])
    if A is None: return None
    st.event('fmtseq', A)
    return ret(st, a[0]) + fork_user_panic(eng, st, 'fmt')
@model("std::fmt::DebugList::<'a, 'b>::entry", "std::fmt::DebugSet::<'a, 'b>::entry")
def _(eng, st, f, a):
    v = val_at(eng, st, a[1])
    if not (isz(v) and v.sort() == V): raise Undecided('formatting of %r' % (v,))
    st.event('fmt', v)
    return ret(st, a[0]) + fork_user_panic(eng, st, 'fmt')
@model("std::fmt::DebugMap::<'a, 'b>::entries")
def _(eng, st, f, a):
    "the iterator's own contract says what it yields; the caller's contract says which iterator it must be"
    st.event('fmtentries', a[1], f['targs'][-1])
    return ret(st, a[0]) + fork_user_panic(eng, st, 'fmt')
@model("std::fmt::DebugMap::<'a, 'b>::entry")
def _(eng, st, f, a):
    k, v = val_at(eng, st, a[1]), val_at(eng, st, a[2])
    if not (isz(v) and v.sort() == V): raise Undecided('formatting of %r' % (v,))
    st.event('fmtkv', k, v)
    return ret(st, a[0]) + fork_user_panic(eng, st, 'fmt')
# ---- element ordering in explicit code: any answer, possibly a panic; contracts relate the answers through a total preorder
def order(eng, st, f, a, op, answers):
    x, y = val_at(eng, st, a[0]), val_at(eng, st, a[1])
    if not all(isz(v) and v.sort() == V for v in (x, y)): raise Undecided('comparison of %r and %r' % (x, y))
    outs = []
    for n, v in answers:
        s = st.copy(); s.event('order', op, n, x, y); outs.append((s, 'ret', v))
    return outs + fork_user_panic(eng, st, 'cmp')
@user('std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::gt', 'std::cmp::PartialOrd::ge')
def _(eng, st, f, a): return order(eng, st, f, a, f['path'][-2:], [(0, False), (1, True)])
@user('std::cmp::Ord::cmp')
def _(eng, st, f, a): return order(eng, st, f, a, 'cmp', [(n, Enum(n, ())) for n in range(3)])
@user('std::cmp::PartialOrd::partial_cmp')
def _(eng, st, f, a): return order(eng, st, f, a, 'partial_cmp', [(n, Enum(1, (Enum(n, ()),))) for n in range(3)] + [(3, Enum(0, ()))])
