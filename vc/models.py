"""Contracts assumed on code outside /repo (core/std, bitmaps, arbitrary, user code behind generic parameters).
Every model used in a run is recorded in eng.assumed and listed in the evidence."""
import z3
from terms import *
from values import *

def panic(eng, st, why):
    return [(st, 'unwind', why)]
def ret(st, v): return [(st, 'ret', v)]
UNITV = Agg(())

PANICS = {'std::rt::begin_panic', 'core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::assert_failed',
          'std::rt::panic_fmt', 'core::panicking::panic_display', 'core::panicking::panic_str_2015', 'core::panicking::panic_explicit',
          'core::panicking::unreachable_display', 'std::rt::panic_display', 'core::panicking::assert_failed_inner',
          'std::option::unwrap_failed', 'std::option::expect_failed', 'core::slice::index::slice_index_fail', 'core::option::unwrap_failed',
          'core::option::expect_failed', 'core::result::unwrap_failed', 'std::result::unwrap_failed', 'core::panicking::panic_bounds_check',
          'core::slice::copy_from_slice_impl::len_mismatch_fail'}
OPAQUE = {'core::fmt::rt::Argument::<\'_>::new_display', 'core::fmt::rt::Argument::<\'_>::new_debug', 'std::fmt::Arguments::<\'a>::from_str', 'std::fmt::Arguments::<\'a>::new',
          'core::panicking::unimplemented_default_msg', 'core::panicking::unreachable_default_msg', 'std::any::type_name',
          'std::fmt::Arguments::<\'a>::new_const'}

def fork_user_panic(eng, st, what):
    """user code may panic (unless we are already unwinding: a second panic aborts the process)"""
    if st.unw: return []
    s = st.copy()
    return [(s, 'unwind', ('user', what))]

def call(eng, st, f, args):
    k = f.get('k'); path = f.get('path', ''); ip = f.get('ipath') or path
    intr = f.get('intrinsic')
    if k == 'intrinsic' or intr:
        r = intrinsic(eng, st, intr, f, args)
        if r is not None: eng.assumed.add('intrinsic '+str(intr)); return r
    if path in PANICS or ip in PANICS:
        return panic(eng, st, ('panic', eng.where()))
    if path in OPAQUE: return ret(st, Opaque(path))
    if f.get('ctor'):
        return ret(st, ctor(eng, f, args))
    h = TABLE.get(ip) or TABLE.get(path)
    if h is not None and not eng.lib and (ip in EXTRA or path in EXTRA) and eng.has_body(f): h = None
    if h is not None:
        r = h(eng, st, f, args)
        if r is not None: eng.assumed.add(ip); return r
    if k == 'unresolved':
        h = USER.get(path)
        if h is not None: eng.assumed.add('user code: '+path); return h(eng, st, f, args)
    if k == 'drop_glue':
        return drop_ptr(eng, st, args[0], f.get('ty') if f.get('ty') is not None else f['targs'][0])
    if k == 'fnptr_shim' and eng.T(f['ty'])['k'] == 'fndef':
        return eng.call(st, eng.T(f['ty'])['fn'], list(args[1].f))
    if k == 'clone_shim':
        t = eng.T(f['ty'])
        if t['k'] == 'tuple' or t['k'] == 'closure': return ret(st, eng.get(st, args[0].obj, args[0].path))
    if '::precondition_check' in ip: return ret(st, UNITV)
    h = eng.C.at_call(eng, st, f, args) if eng.C else None
    if h is not None: return h
    if ip.startswith('<T as std::convert::Into<') or ip.startswith('<T as std::convert::From<T>>'): return None
    return None

def ctor(eng, f, args):
    path = f['path']; t = eng.T(eng.dest)
    if t['k'] == 'adt' and len(t.get('variants', ())) > 1:
        for n, v in enumerate(t['variants']):
            if v['name'] == path.rsplit('::', 1)[1]: return Enum(n, tuple(args))
        raise Undecided('constructor '+path)
    return Agg(args, path)

# --------------------------------------------------------------------- intrinsics
def elem_kind(eng, ti):
    t = eng.T(eng.peel(ti))
    return t
def size_align(eng, st, ti):
    """(size, align) terms for a type"""
    t = eng.T(ti); k = t['k']
    h = getattr(eng, 'size_hook', None)
    if h:
        r = h(eng, st, ti)
        if r is not None: return r
    if k in ('uint', 'int', 'char', 'float'): b = t.get('bits', 32)//8; return b, b
    if k == 'bool': return 1, 1
    if k in ('ref', 'ptr'):
        return (16 if eng.T(t['to'])['k'] in ('slice', 'str', 'dynamic') else 8), 8
    if k in ('param', 'other'):
        n = t['s']
        if n not in eng.sizes:
            s, a = z3.Int('size_of_'+n), z3.Int('align_of_'+n)
            eng.names['size_of_'+n] = 1; eng.names['align_of_'+n] = 1
            eng.sizes[n] = (s, a)
        s, a = eng.sizes[n]
        c = conj(le(0, s), le(s, 2**63-1), le(1, a), le(a, 2**29), eq(zi(s) % a, 0),
                 disj(*[eq(a, 2**i) for i in range(0, 30)]))
        if st.known.get(kid(c)) is not True: st.add(c); st.known[kid(c)] = True
        return s, a
    if k == 'tuple' and not t['of']: return 0, 1
    if k == 'adt' and eng.is_transparent(t): return size_align(eng, st, t['args'][0])
    raise Undecided('layout of %s' % t['s'])
def needs_drop(eng, ti):
    t = eng.T(ti); k = t['k']
    if k in ('uint', 'int', 'bool', 'char', 'float', 'ref', 'ptr', 'fndef', 'str', 'never'): return False
    if k == 'param':
        return eng.ND if t['s'] in ('A',) else True
    if k == 'tuple': return disj(*[needs_drop(eng, x) for x in t['of']])
    if k in ('array', 'slice'): return needs_drop(eng, t['of'])
    if k == 'adt':
        if t['path'].endswith('ManuallyDrop') or t['path'].endswith('MaybeUninit') or t.get('manually_drop'): return False
        if t.get('drop'): return True
        return disj(*[needs_drop(eng, f[1]) for v in t['variants'] for f in v['fields']])
    if k == 'closure': return disj(*[needs_drop(eng, x) for x in t['upvars']])
    if t['s'].startswith('pattern_type!('): return False
    return True
def intrinsic(eng, st, n, f, args):
    if n == 'needs_drop': return ret(st, needs_drop(eng, f['targs'][0]))
    if n == 'size_of': return ret(st, size_align(eng, st, f['targs'][0])[0])
    if n in ('align_of', 'min_align_of'): return ret(st, size_align(eng, st, f['targs'][0])[1])
    if n in ('cold_path', 'atomic_fence', 'atomic_singlethreadfence'): return ret(st, UNITV)
    if n == 'assert_inhabited' or n == 'assert_zero_valid': return ret(st, UNITV)
    if n == 'ub_checks': return ret(st, False)
    if n == 'copy': return memcopy_call(eng, st, args[0], args[1], args[2], False)
    if n == 'copy_nonoverlapping': return memcopy_call(eng, st, args[0], args[1], args[2], True)
    if n == 'select_unpredictable':
        return ret(st, args[1] if eng.decide(st, args[0]) else args[2])
    if n in ('likely', 'unlikely', 'black_box'): return ret(st, args[0])
    if n == 'type_name': return ret(st, Opaque('str'))
    if n == 'forget': return forget(eng, st, f, args)
    if n == 'abort': return [(st, 'abort', ('abort',))]
    if n == 'unreachable':
        eng.oblige(st, False, 'mem', 'unreachable_unchecked is not reached', assume=False); return []
    if n == 'integer_min': return ret(st, ite(le(args[0], args[1]), args[0], args[1]))
    if n == 'integer_max': return ret(st, ite(le(args[0], args[1]), args[1], args[0]))
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        r = {'add': add, 'sub': sub, 'mul': mul}[n[9:]](args[0], args[1])
        return ret(st, eng.wrapping(st, r, f['targs'][0]))
    if n in ('saturating_add', 'saturating_sub'):
        t = eng.T(f['targs'][0])
        if t['k'] != 'uint': return None
        m = 2**t['bits']-1
        if n == 'saturating_sub': return ret(st, ite(le(args[1], args[0]), sub(args[0], args[1]), 0))
        s = add(args[0], args[1]); return ret(st, ite(le(s, m), s, m))
    if n in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
        r = {'add': add, 'sub': sub, 'mul': mul}[n[:3]](args[0], args[1])
        if eng.decide(st, eng.inrange(r, f['targs'][0])): return ret(st, Agg((r, False)))
        return ret(st, Agg((eng.wrapping(st, r, f['targs'][0]), True)))
    if n in ('unchecked_add', 'unchecked_sub', 'unchecked_mul'):
        r = {'add': add, 'sub': sub, 'mul': mul}[n[10:]](args[0], args[1])
        eng.oblige(st, eng.inrange(r, f['targs'][0]), 'mem', 'unchecked arithmetic does not overflow')
        return ret(st, r)
    if n == 'ctpop' or n == 'cttz_nonzero': return None
    if n in ('offset', 'arith_offset'):
        return ret(st, ptr_add(eng, st, args[0], args[1]))
    if n in ('ptr_offset_from_unsigned', 'ptr_offset_from'):
        a, b = args
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.path[:-1] == b.path[:-1] and a.path[-1][0] == 'e' == b.path[-1][0]:
            d = sub(a.path[-1][1], b.path[-1][1])
            if n.endswith('unsigned'): eng.oblige(st, le(0, d), 'mem', 'pointer distance is non-negative')
            return ret(st, d)
    if n == 'read_via_copy': return ret(st, ptr_read(eng, st, args[0]))
    if n == 'write_via_move':
        ptr_write(eng, st, args[0], args[1]); return ret(st, UNITV)
    if n == 'discriminant_value':
        v = eng.get(st, args[0].obj, args[0].path)
        if isinstance(v, Enum):
            t = eng.T(f['targs'][0])
            return ret(st, int(t['variants'][v.v]['discr']))
    if n == 'transmute_unchecked': return None
    if n in ('three_way_compare',):
        a, b = args
        c = eng.decide(st, lt(a, b))
        if c: return ret(st, Enum(0, ()))
        return ret(st, Enum(1, ()) if eng.decide(st, eq(a, b)) else Enum(2, ()))
    return None

# --------------------------------------------------------------------- pointers and memory
def ptr_add(eng, st, p, n):
    if not isinstance(p, Ptr): raise Undecided('pointer arithmetic on %r' % (p,))
    if p.obj is None:
        if eng.proves(st, eq(n, 0)): return p
        raise Undecided('arithmetic on dangling pointer')
    if p.path and p.path[-1][0] == 'e':
        i = add(p.path[-1][1], n)
        b = eng.get(st, p.obj, p.path[:-1])
        if isinstance(b, Host): b = b.buf
        if isinstance(b, Buf):
            eng.oblige(st, conj(le(0, i), le(i, b.size)), 'mem', 'pointer stays within its storage')
        return Ptr(p.obj, p.path[:-1]+(('e', i),), p.meta)
    h = getattr(eng, 'ptr_hook', None)
    if h:
        r = h(eng, st, p, n)
        if r is not None: return r
    if eng.proves(st, eq(n, 0)): return p
    raise Undecided('pointer arithmetic on %r' % (p,))
def sized_place(p):
    if p.obj is None: raise Undecided('access through dangling pointer')
    return p.obj, p.path
def ptr_read(eng, st, p):
    if not isinstance(p, Ptr): raise Undecided('read through %r' % (p,))
    obj, path = sized_place(p)
    v = eng.live(eng.take(st, obj, path))
    return v
def ptr_write(eng, st, p, v):
    if not isinstance(p, Ptr): raise Undecided('write through %r' % (p,))
    obj, path = sized_place(p)
    eng.put(st, obj, path, v)
def buf_at(eng, st, p):
    "pointer -> (obj, path of buffer, Buf, index)"
    if not isinstance(p, Ptr) or p.obj is None: return None
    if not p.path or p.path[-1][0] != 'e': return None
    b = eng.get(st, p.obj, p.path[:-1])
    if isinstance(b, Host): b = b.buf
    if not isinstance(b, Buf): return None
    return p.obj, p.path[:-1], b, p.path[-1][1]
def memcopy_call(eng, st, src, dst, n, nonoverlap):
    memcopy(eng, st, src, dst, n, nonoverlap)
    return ret(st, UNITV)
def memcopy(eng, st, src, dst, n, nonoverlap):
    if type(n) is int and n == 0: return
    if eng.proves(st, eq(n, 0)): return
    S, D = buf_at(eng, st, src), buf_at(eng, st, dst)
    if S is None or D is None:
        # a dangling pointer is fine for a zero-length copy only
        if (isinstance(src, Ptr) and src.obj is None) or (isinstance(dst, Ptr) and dst.obj is None):
            eng.oblige(st, eq(n, 0), 'mem', 'copy through a dangling pointer has length zero'); return
        if type(n) is int and n == 1:
            v = eng.get(st, src.obj, src.path); eng.put(st, dst.obj, dst.path, v); return
        raise Undecided('memory copy between unknown places')
    so, sp, sb, si = S; do, dp, db, di = D
    eng.oblige(st, conj(le(0, si), le(add(si, n), sb.size)), 'mem', 'copy source lies within its storage')
    eng.oblige(st, conj(le(0, di), le(add(di, n), db.size)), 'mem', 'copy destination lies within its storage')
    same = so == do and sp == dp
    if same and nonoverlap:
        eng.oblige(st, disj(eq(n, 0), le(add(si, n), di), le(add(di, n), si)), 'mem', 'copy_nonoverlapping ranges do not overlap')
    if n == 1 and type(n) is int and sb.sort == db.sort == 'V' and eng.proves(st, sb.own(eng, st, si)):
        # one live element: the same as a read and a write
        ptr_write(eng, st, dst, eng.live(eng.take(st, so, sp+(('e', si),)))); return
    if db.sort == 'V':
        k = fint('k')
        s2 = st.copy(); s2.add(conj(le(di, k), lt(k, add(di, n))))
        if same: s2.add(disj(lt(k, si), le(add(si, n), k)))
        if eng.sat(s2):
            o = db.own(eng, s2, k)
            eng.oblige(s2, disj(neg(o), neg(eng.ND)), 'leak', 'copy does not overwrite live elements')
    snap = sb.node
    if sb.sort == 'V' :
        if same:
            node = NCopy(NRelease(db.node, si, n), di, snap, si, n)
            eng.set_buf(st, do, dp, db.with_node(node))
        else:
            eng.set_buf(st, do, dp, db.with_node(NCopy(db.node, di, snap, si, n)))
            eng.set_buf(st, so, sp, sb.with_node(NRelease(sb.node, si, n)))
    else:
        eng.set_buf(st, do, dp, db.with_node(NCopy(db.node, di, snap, si, n)))

def host_header(eng, st, v, e):
    if v.len is UNINIT:
        eng.oblige(st, False, 'mem', 'read of the length field of an array that has not been initialised')
        raise Violated('uninitialised length')
    return eng.live(v.len)
def host_set_header(eng, st, v, e, val): return Host(val, v.buf)
def uninit_param(eng, st, t):
    h = getattr(eng, 'host_hook', None)
    if h:
        r = h(eng, st, t)
        if r is not None: return r
    return UNINIT
def partial_init(eng, st, v, idx, sub):
    raise Undecided('field store into uninitialised aggregate')
def concretise(eng, st, v):
    return eng.C.concretise(eng, st, v)
def const_model(eng, st, c):
    h = getattr(eng, 'const_hook', None)
    if h: return h(eng, st, c)
    return None
def ptr_cast(eng, st, v, F, T):
    # v: non-dangling Ptr to a place of (peeled) type F, cast to pointee T
    if F['k'] == 'array' and eng.T(F['of'])['s'] == T['s']:
        return Ptr(v.obj, v.path+(('e', 0),), None)
    if F['k'] == 'array' and T['k'] == 'adt' and eng.is_transparent(T) and eng.T(eng.peel(T['args'][0]))['s'] == eng.T(F['of'])['s']:
        return Ptr(v.obj, v.path+(('e', 0),), None)
    if T['k'] == 'array' and v.path and v.path[-1] == ('e', 0) and eng.T(T['of'])['s'] == F['s']:
        b = eng.get(st, v.obj, v.path[:-1])
        if isinstance(b, Buf) and eq(b.size, eng.cparam(T['len'])) is True: return Ptr(v.obj, v.path[:-1], None)
    h = getattr(eng, 'ptr_cast_hook', None)
    if h:
        r = h(eng, st, v, F, T)
        if r is not None: return r
    if F['k'] == 'adt' and F['adt'] == 'struct' and len(F['variants'][0]['fields']) == 1:
        f0 = F['variants'][0]['fields'][0]
        return eng.ptr_cast(st, Ptr(v.obj, v.path+(('f', 0),), v.meta), {'to': f0[1], 'k': 'ptr', 's': ''}, {'to': tindex(eng, T), 'k': 'ptr', 's': T['s']})
    raise Undecided('pointer cast %s -> %s' % (F['s'], T['s']))
def tindex(eng, T):
    for i, t in enumerate(eng.mir.types):
        if t is T: return i
    raise Undecided('type index')
def ptr_addr(eng, st, v, f):
    h = getattr(eng, 'addr_hook', None)
    if h:
        r = h(eng, st, v, f)
        if r is not None: return r
    return Opaque('address')
def is_addr(eng, a): return False
def is_align(eng, a): return False
def rem_align(a, b): return None
def addr_rem(eng, st, op, a, b): return None
def addr_mask(eng, st, a, b): raise Undecided('mask of address')
def ptr_binop(eng, st, op, a, b, t):
    if op in ('Eq', 'Ne') and isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj == b.obj:
            pa, pb = a.path, b.path
            if len(pa) == len(pb) and all(x[0] == y[0] and (x[0] == 'e' or x == y) for x, y in zip(pa, pb)):
                es = [(x[1], y[1]) for x, y in zip(pa, pb) if x[0] == 'e']
                if len(es) <= 1:
                    c = conj(*[eq(x, y) for x, y in es])
                    return c if op == 'Eq' else neg(c)
        raise Undecided('pointer comparison')
    if op == 'Offset': return ptr_add(eng, st, a, b)
    raise Undecided('operator %s on pointers' % op)

# --------------------------------------------------------------------- dropping
def drop_range(eng, st, obj, path, a, n, what):
    b = eng.get_buf(st, obj, path)
    if b is None: raise Undecided('drop of a range of unknown storage')
    if b.sort != 'V': return ret(st, UNITV)
    eng.oblige(st, disj(le(n, 0), conj(le(0, a), le(add(a, n), b.size))), 'mem', 'dropped elements lie within the storage')
    one = type(n) is int and n == 1
    s2 = st.copy()
    k = a if one else fint('k')
    s2.add(conj(le(a, k), lt(k, add(a, n))))
    if eng.sat(s2):
        eng.oblige(s2, b.own(eng, s2, k), 'mem', 'only live elements are dropped, each once')
    node = NTake(b.node, a) if one else NRelease(b.node, a, n)
    eng.set_buf(st, obj, path, b.with_node(node))
    outs = []
    if not st.unw:
        s = st.copy(); s.add(eng.ND)
        if not one: s.add(lt(0, n))
        if eng.sat(s): outs.append((s, 'unwind', ('user', 'drop')))
    return ret(st, UNITV) + outs
def is_elem(eng, ti):
    t = eng.T(ti)
    return t['k'] in ('param', 'other')
def drop_ptr(eng, st, p, ti):
    t = eng.T(ti)
    if needs_drop(eng, ti) is False and t['k'] != 'slice': return ret(st, UNITV)
    if t['k'] == 'slice':
        if needs_drop(eng, t['of']) is False: return ret(st, UNITV)
        if isinstance(p, Ptr) and p.obj is None:
            eng.oblige(st, eq(p.meta, 0), 'mem', 'slice dropped through a dangling pointer is empty'); return ret(st, UNITV)
        B = buf_at(eng, st, p)
        if B is None: raise Undecided('drop of unknown slice')
        return drop_range(eng, st, B[0], B[1], B[3], p.meta, 'slice')
    if not isinstance(p, Ptr) or p.obj is None: raise Undecided('drop through %r' % (p,))
    if t['k'] == 'array':
        B = buf_at(eng, st, Ptr(p.obj, p.path+(('e', 0),)))
        if B: return drop_range(eng, st, B[0], B[1], 0, eng.cparam(t['len']), 'array')
    return drop_value(eng, st, p.obj, p.path, ti)
def drop_value(eng, st, obj, path, ti):
    """drop the value stored at a place of type ti -> outcomes"""
    t = eng.T(ti); k = t['k']
    if needs_drop(eng, ti) is False:
        if not (path and path[-1][0] == 'e'): eng.put(st, obj, path, UNINIT)
        return ret(st, UNITV)
    if path and path[-1][0] == 'e' and eng.get_buf(st, obj, path[:-1]) is not None:
        return drop_range(eng, st, obj, path[:-1], path[-1][1], 1, 'element')
    v = eng.get(st, obj, path)
    if v is UNINIT:
        eng.oblige(st, False, 'mem', 'a value is dropped at most once', assume=False)
        raise Violated('double drop')
    if v is POISON: raise Undecided('drop of untracked value')
    if isinstance(v, (Abs,)):
        outs = eng.C.drop_abs(eng, st, v)
        for s, kk, x in outs: eng.put(s, obj, path, UNINIT)
        return outs
    if isinstance(v, SliceIter) or type(v).__name__ in ('Bitset', 'BitIter'):
        eng.put(st, obj, path, UNINIT); return ret(st, UNITV)
    if isinstance(v, User):
        st.event('dropuser', v.gid); eng.put(st, obj, path, UNINIT)
        return ret(st, UNITV) + fork_user_panic(eng, st, 'drop')
    if isz(v) and v.sort() == V or k in ('param', 'other'):
        st.event('dropv', v)
        eng.put(st, obj, path, UNINIT)
        s = st.copy(); 
        outs = ret(st, UNITV)
        if not st.unw:
            if k == 'param' and t['s'] == 'A': s.add(eng.ND)
            if eng.sat(s): outs = outs + [(s, 'unwind', ('user', 'drop'))]
        return outs
    if k == 'adt':
        if t.get('manually_drop') or t['path'].endswith('ManuallyDrop') or t['path'].endswith('MaybeUninit'): return ret(st, UNITV)
        if t['adt'] == 'enum':
            if not isinstance(v, Enum): raise Undecided('drop of %r' % (v,))
            fields = t['variants'][v.v]['fields']
        else:
            if not isinstance(v, (Agg, SliceIter)): raise Undecided('drop of %r' % (v,))
            fields = t['variants'][0]['fields']
        outs = [(st, 'ret', None)]
        if t.get('drop'):
            body = eng.mir.body(eng.root, t['drop'])
            if body is None: raise Undecided('drop implementation of %s' % t['s'])
            outs = eng.inline(st, body, [Ptr(obj, path)], t['drop'])
        def fin(s, normal):
            if normal and not s.unw: no_leak(eng, s, eng.get(s, obj, path), 'elements left in %s after it is dropped' % t['path'].split('::')[-1])
            eng.put(s, obj, path, UNINIT)
        return drop_fields(eng, outs, obj, path, [(n, f[1]) for n, f in enumerate(fields)], fin)
    if k == 'tuple': return drop_fields(eng, [(st, 'ret', None)], obj, path, list(enumerate(t['of'])), lambda s, n: eng.put(s, obj, path, UNINIT))
    if k == 'closure': return drop_fields(eng, [(st, 'ret', None)], obj, path, list(enumerate(t['upvars'])), lambda s, n: eng.put(s, obj, path, UNINIT))
    raise Undecided('drop of %s' % t['s'])
def drop_fields(eng, outs, obj, path, fields, fin):
    done = []
    for (s, kind, v) in outs:
        states = [(s, kind, v)]
        for n, fti in fields:
            if needs_drop(eng, fti) is False: continue
            nxt = []
            for (x, kd, w) in states:
                if kd == 'abort': nxt.append((x, kd, w)); continue
                was = x.unw
                if kd == 'unwind': x.unw = True
                for (y, ykd, yw) in drop_value(eng, x, obj, path+(('f', n),), fti):
                    y.unw = was
                    if ykd == 'abort': nxt.append((y, 'abort', yw))
                    elif kd == 'unwind' or ykd == 'unwind': nxt.append((y, 'unwind', w if kd == 'unwind' else yw))
                    else: nxt.append((y, 'ret', UNITV))
            states = nxt
        for (x, kd, w) in states:
            fin(x, kd == 'ret'); done.append((x, kd, UNITV if kd == 'ret' else w))
    return done
def no_leak(eng, st, v, msg):
    "obligation: no element storage inside v still owns elements (a leak)"
    for b in bufs_in(v):
        if b.sort != 'V': continue
        s = st.copy(); s.add(eng.ND)
        k = eng.skolem(s, 0, b.size)
        if not eng.sat(s): continue
        o = b.own(eng, s, k)
        if o is False: continue
        eng.oblige(s, neg(o), 'leak', msg, assume=False)
def bufs_in(v):
    if isinstance(v, Buf): return [v]
    if isinstance(v, Host): return [v.buf]
    if isinstance(v, (Agg, Enum)):
        r = []
        for x in v.f: r += bufs_in(x)
        return r
    return []
def holds_value(v):
    if isz(v) and v.sort() == V: return True
    if isinstance(v, (Agg, Enum)): return any(holds_value(x) for x in v.f)
    return False
def frame_exit(eng, st, fr):
    "normal return: nothing owned may be left behind in locals that are not dropped automatically"
    if st.unw: return
    for n, ti in enumerate(fr.body['locals']):
        if n == 0: continue
        v = st.heap.get(fr.loc[n])
        if v is UNINIT or v is None or v is POISON: continue
        t = eng.T(ti)
        if t['k'] in ('ref', 'ptr', 'uint', 'bool'): continue
        if isinstance(v, (Agg, Host, Buf)) and eng.is_transparent(t) or (t['k'] == 'adt' and 'ManuallyDrop' in t['s']):
            no_leak(eng, st, v, 'elements left behind in a local variable')
            if holds_value(v) :
                s = st.copy(); s.add(eng.ND)
                if eng.sat(s): eng.oblige(s, False, 'leak', 'a value left behind in a ManuallyDrop local', assume=False)
def forget(eng, st, f, args):
    v = args[0]
    ti = f['targs'][0]
    if not st.unw:
        if isinstance(v, Abs): raise Undecided('forget of container')
        no_leak(eng, st, v, 'forgotten value owns elements')
        if holds_value(v):
            s = st.copy(); s.add(eng.ND)
            if eng.sat(s): eng.oblige(s, False, 'leak', 'a live element is forgotten', assume=False)
    return ret(st, UNITV)

# --------------------------------------------------------------------- std functions
TABLE = {}
# Summaries of std functions whose own body the executor can run: mode 'conc' runs the body, the others use the summary.
EXTRA = {'core::slice::<impl [T]>::binary_search', 'array_ops::Array::binary_search',
         'std::cmp::impls::<impl std::cmp::Ord for usize>::max',
         'std::cmp::impls::<impl std::cmp::Ord for usize>::min',
         'std::mem::replace',
         'std::mem::swap',
         'std::mem::MaybeUninit::<T>::as_mut_ptr',
         'std::mem::MaybeUninit::<T>::as_ptr',
         'std::mem::MaybeUninit::<T>::uninit',
         'std::ptr::NonNull::<T>::as_ptr',
         'std::ptr::const_ptr::<impl *const T>::copy_to',
         'std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping',
         'std::ptr::mut_ptr::<impl *mut T>::copy_from',
         'std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping',
         'std::ptr::mut_ptr::<impl *mut T>::copy_to',
         'std::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping',
         'std::ptr::mut_ptr::<impl *mut T>::drop_in_place',
         'std::ptr::mut_ptr::<impl *mut T>::read',
         'std::ptr::const_ptr::<impl *const T>::read',
         'std::ptr::mut_ptr::<impl *mut T>::write',
         'std::ptr::mut_ptr::<impl *mut T>::replace',
         'std::ptr::mut_ptr::<impl *mut T>::swap',
         'std::ptr::const_ptr::<impl *const T>::offset',
         'std::ptr::const_ptr::<impl *const T>::sub',
         'std::ptr::mut_ptr::<impl *mut T>::offset',
         'std::ptr::mut_ptr::<impl *mut T>::sub',
         'core::slice::<impl [T]>::as_mut_ptr',
         'core::slice::<impl [T]>::as_ptr',
         'core::slice::<impl [T]>::len',
         'std::mem::forget',
         'std::mem::size_of',
         'std::mem::align_of',
         'std::mem::needs_drop',
         'std::hint::assert_unchecked',
         'core::hash::impls::<impl std::hash::Hash for [T]>::hash',
         'std::iter::Iterator::cmp',
         'std::iter::Iterator::eq',
         'std::iter::Iterator::partial_cmp',
         'std::ptr::copy',
         'std::ptr::copy_nonoverlapping',
         'std::ptr::drop_in_place',
         'std::ptr::const_ptr::<impl *const T>::add',
         'std::ptr::mut_ptr::<impl *mut T>::add',
         'std::ptr::const_ptr::<impl *const T>::wrapping_add',
         'std::ptr::mut_ptr::<impl *mut T>::wrapping_add',
         'std::ptr::replace',
         'std::ptr::swap',
         'std::ptr::read',
         'std::ptr::write',
         'std::ptr::const_ptr::<impl *const T>::is_null',
         'std::ptr::mut_ptr::<impl *mut T>::is_null'}
def model(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d
USER = {}
def user(*names):
    def d(f):
        for n in names: USER[n] = f
        return f
    return d

@model('std::mem::needs_drop', 'core::mem::needs_drop')
def _(eng, st, f, a): return ret(st, needs_drop(eng, f['targs'][0]))
@model('std::mem::size_of')
def _(eng, st, f, a): return ret(st, size_align(eng, st, f['targs'][0])[0])
@model('std::mem::align_of')
def _(eng, st, f, a): return ret(st, size_align(eng, st, f['targs'][0])[1])
@model('std::mem::replace', 'std::ptr::replace', 'std::ptr::mut_ptr::<impl *mut T>::replace')
def _(eng, st, f, a):
    p, v = a
    old = eng.live(eng.get(st, p.obj, p.path))
    swap_in(eng, st, p, v)
    return ret(st, old)
def swap_in(eng, st, p, v):
    "store v where the old value has been moved out"
    if p.path and p.path[-1][0] == 'e' and eng.get_buf(st, p.obj, p.path[:-1]) is not None: eng.take(st, p.obj, p.path)
    eng.put(st, p.obj, p.path, v)
@model('std::mem::swap')
def _(eng, st, f, a):
    p, q = a
    x = eng.live(eng.get(st, p.obj, p.path)); y = eng.live(eng.get(st, q.obj, q.path))
    swap_in(eng, st, p, y); swap_in(eng, st, q, x)
    return ret(st, UNITV)
@model('std::mem::forget')
def _(eng, st, f, a): return forget(eng, st, f, a)
@model('std::ptr::const_ptr::<impl *const T>::is_null', 'std::ptr::mut_ptr::<impl *mut T>::is_null')
def _(eng, st, f, a):
    if not isinstance(a[0], Ptr): raise Undecided('is_null of %r' % (a[0],))
    return ret(st, False)       # every pointer value the executor tracks comes from a place or is a dangling well aligned one
@model('std::ptr::const_ptr::<impl *const T>::as_ref', 'std::ptr::mut_ptr::<impl *mut T>::as_ref', 'std::ptr::mut_ptr::<impl *mut T>::as_mut')
def _(eng, st, f, a):
    if not isinstance(a[0], Ptr): raise Undecided('%s of %r' % (f['path'], a[0],))
    return ret(st, Enum(1, (a[0],)))
@model('core::str::<impl str>::len')
def _(eng, st, f, a):
    n = fint('strlen'); st.add(conj(le(0, n), lt(n, 2**63))); return ret(st, n)
@model('std::ptr::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read')
def _(eng, st, f, a): return ret(st, ptr_read(eng, st, a[0]))
@model('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write')
def _(eng, st, f, a):
    ptr_write(eng, st, a[0], a[1]); return ret(st, UNITV)
@model('std::ptr::const_ptr::<impl *const T>::add', 'std::ptr::mut_ptr::<impl *mut T>::add', 'std::ptr::const_ptr::<impl *const T>::offset', 'std::ptr::mut_ptr::<impl *mut T>::offset',
       'std::ptr::const_ptr::<impl *const T>::wrapping_add', 'std::ptr::mut_ptr::<impl *mut T>::wrapping_add')
def _(eng, st, f, a): return ret(st, ptr_add(eng, st, a[0], a[1]))
@model('std::ptr::const_ptr::<impl *const T>::sub', 'std::ptr::mut_ptr::<impl *mut T>::sub')
def _(eng, st, f, a): return ret(st, ptr_add(eng, st, a[0], sub(0, a[1])))
@model('std::ptr::copy')
def _(eng, st, f, a): return memcopy_call(eng, st, a[0], a[1], a[2], False)
@model('std::ptr::copy_nonoverlapping')
def _(eng, st, f, a): return memcopy_call(eng, st, a[0], a[1], a[2], True)
@model('std::ptr::const_ptr::<impl *const T>::copy_to', 'std::ptr::mut_ptr::<impl *mut T>::copy_to')
def _(eng, st, f, a): return memcopy_call(eng, st, a[0], a[1], a[2], False)
@model('std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping', 'std::ptr::mut_ptr::<impl *mut T>::copy_to_nonoverlapping')
def _(eng, st, f, a): return memcopy_call(eng, st, a[0], a[1], a[2], True)
@model('std::ptr::mut_ptr::<impl *mut T>::copy_from')
def _(eng, st, f, a): return memcopy_call(eng, st, a[1], a[0], a[2], False)
@model('std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping')
def _(eng, st, f, a): return memcopy_call(eng, st, a[1], a[0], a[2], True)
@model('std::ptr::swap', 'std::ptr::mut_ptr::<impl *mut T>::swap')
def _(eng, st, f, a): return TABLE['std::mem::swap'](eng, st, f, a)
@model('std::ptr::drop_in_place', 'std::ptr::mut_ptr::<impl *mut T>::drop_in_place')
def _(eng, st, f, a): return drop_ptr(eng, st, a[0], f['targs'][0])
@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'std::ptr::slice_from_raw_parts', 'std::ptr::slice_from_raw_parts_mut')
def _(eng, st, f, a):
    p, n = a
    if not isinstance(p, Ptr): raise Undecided('slice from %r' % (p,))
    if f['path'].startswith('std::ptr::'): return ret(st, Ptr(p.obj, p.path, n))
    if p.obj is None:
        eng.oblige(st, eq(n, 0), 'mem', 'slice through a dangling pointer is empty')
        return ret(st, Ptr(None, p.path, n))
    B = buf_at(eng, st, p)
    if B is None: raise Undecided('slice of unknown storage')
    eng.oblige(st, conj(le(0, n), le(0, B[3]), le(add(B[3], n), B[2].size)), 'mem', 'slice lies within the storage')
    return ret(st, Ptr(p.obj, p.path, n))
@model('core::slice::<impl [T]>::len')
def _(eng, st, f, a): return ret(st, a[0].meta)
@model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def _(eng, st, f, a): return ret(st, Ptr(a[0].obj, a[0].path, None))
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def _(eng, st, f, a):
    p = a[0]
    live_slice(eng, st, p)
    return ret(st, SliceIter(Ptr(p.obj, p.path), 0, p.meta, f['path'].endswith('mut')))
TABLE["core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter"] = TABLE['core::slice::<impl [T]>::iter']
TABLE["core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter"] = lambda eng, st, f, a: TABLE['core::slice::<impl [T]>::iter'](eng, st, dict(f, path='iter_mut'), a)
TABLE["std::slice::Iter::<'a, T>::new"] = TABLE['core::slice::<impl [T]>::iter']
TABLE["std::slice::IterMut::<'a, T>::new"] = lambda eng, st, f, a: TABLE['core::slice::<impl [T]>::iter'](eng, st, dict(f, path='iter_mut'), a)
def live_slice(eng, st, p):
    "every element of the slice handed out is live"
    if p.obj is None: return
    B = buf_at(eng, st, p)
    if B is None: raise Undecided('slice of unknown storage')
    s = st.copy(); k = fint('k'); s.add(conj(le(B[3], k), lt(k, add(B[3], p.meta))))
    if eng.sat(s): eng.oblige(s, B[2].own(eng, s, k), 'mem', 'every element of a slice handed out is live')
@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def _(eng, st, f, a):
    p = a[0]; it = eng.get(st, p.obj, p.path)
    if not isinstance(it, SliceIter): raise Undecided('slice iterator %r' % (it,))
    if eng.decide(st, lt(0, it.n)):
        b = it.p.path
        r = Ptr(it.p.obj, b[:-1]+(('e', add(b[-1][1], it.i)),))
        eng.put(st, p.obj, p.path, SliceIter(it.p, add(it.i, 1), sub(it.n, 1), it.mut))
        return ret(st, Enum(1, (r,)))
    return ret(st, Enum(0, ()))
@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::__iterator_get_unchecked", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::__iterator_get_unchecked")
def _(eng, st, f, a):
    it = eng.get(st, a[0].obj, a[0].path)
    if not isinstance(it, SliceIter): raise Undecided('slice iterator %r' % (it,))
    eng.oblige(st, conj(le(0, a[1]), lt(a[1], it.n)), 'mem', 'random access stays within the slice')
    b = it.p.path
    return ret(st, Ptr(it.p.obj, b[:-1]+(('e', add(b[-1][1], add(it.i, a[1]))),)))
def rotate1(right):
    def g(eng, st, f, a):
        "rotation by one place: take the end element, move the others, put it at the other end"
        p, n = a
        if not isinstance(p, Ptr) or p.obj is None or not p.path or p.path[-1][0] != 'e': return None
        if eng.proves(st, eq(n, 0)): return ret(st, UNITV)
        if not eng.proves(st, eq(n, 1)): return None
        if eng.decide(st, le(1, p.meta)):
            at = lambda i: Ptr(p.obj, p.path[:-1]+(('e', add(p.path[-1][1], i)),))
            m = sub(p.meta, 1)
            if eng.decide(st, eq(m, 0)): return ret(st, UNITV)
            v = ptr_read(eng, st, at(m if right else 0))
            memcopy(eng, st, at(0 if right else 1), at(1 if right else 0), m, False)
            ptr_write(eng, st, at(0 if right else m), v)
            return ret(st, UNITV)
        return panic(eng, st, 'rotation by more than the length')
    return g
TABLE['core::slice::<impl [T]>::rotate_right'] = rotate1(True)
TABLE['core::slice::<impl [T]>::rotate_left'] = rotate1(False)
@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def _(eng, st, f, a):
    p = a[0]; it = eng.get(st, p.obj, p.path)
    if eng.decide(st, lt(0, it.n)):
        b = it.p.path
        r = Ptr(it.p.obj, b[:-1]+(('e', sub(add(add(b[-1][1], it.i), it.n), 1)),))
        eng.put(st, p.obj, p.path, SliceIter(it.p, it.i, sub(it.n, 1), it.mut))
        return ret(st, Enum(1, (r,)))
    return ret(st, Enum(0, ()))
@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::size_hint")
def _(eng, st, f, a):
    it = eng.get(st, a[0].obj, a[0].path)
    return ret(st, Agg((it.n, Enum(1, (it.n,)))))
@model("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len", "<std::slice::IterMut<'a, T> as std::iter::ExactSizeIterator>::len")
def _(eng, st, f, a):
    return ret(st, eng.get(st, a[0].obj, a[0].path).n)
@model('std::cmp::impls::<impl std::cmp::Ord for usize>::min')
def _(eng, st, f, a): return ret(st, ite(le(a[0], a[1]), a[0], a[1]))
@model('std::cmp::impls::<impl std::cmp::Ord for usize>::max')
def _(eng, st, f, a): return ret(st, ite(le(a[0], a[1]), a[1], a[0]))
@model('std::ptr::NonNull::<T>::dangling', 'std::ptr::dangling', 'std::ptr::dangling_mut')
def _(eng, st, f, a):
    d = Ptr(None, ())
    return ret(st, Agg((d,)) if 'NonNull' in f['path'] else d)
@model('std::ptr::NonNull::<T>::as_ptr')
def _(eng, st, f, a):
    v = a[0]
    while isinstance(v, Agg): v = v.f[0]
    return ret(st, v)
@model('std::mem::MaybeUninit::<T>::uninit')
def _(eng, st, f, a): return ret(st, eng.uninit_of(st, f['targs'][0]))
@model('std::mem::MaybeUninit::<T>::as_ptr', 'std::mem::MaybeUninit::<T>::as_mut_ptr')
def _(eng, st, f, a): return ret(st, a[0])
@model('std::hint::assert_unchecked')
def _(eng, st, f, a):
    eng.oblige(st, a[0], 'mem', 'assert_unchecked holds'); return ret(st, UNITV)

# --------------------------------------------------------------------- user code behind type parameters
def deref_all(eng, st, v):
    return v
@user('std::clone::Clone::clone')
def _(eng, st, f, a):
    v = eng.live(eng.get(st, a[0].obj, a[0].path))
    if not (isz(v) and v.sort() == V): raise Undecided('clone of %r' % (v,))
    st.event('clone', v)
    outs = fork_user_panic(eng, st, 'clone')
    return ret(st, eng.cloneF(v)) + outs
@user('std::ptr::drop_glue')
def _(eng, st, f, a): return drop_ptr(eng, st, a[0], f['targs'][0])
@user('std::iter::IntoIterator::into_iter')
def _(eng, st, f, a):
    if isinstance(a[0], User):
        return ret(st, a[0]) + fork_user_panic(eng, st, 'into_iter')
    raise Undecided('into_iter of %r' % (a[0],))
def as_user(eng, st, v):
    while isinstance(v, Ptr): v = eng.get(st, v.obj, v.path)
    if not isinstance(v, User): raise Undecided('user call on %r' % (v,))
    return v
def item_of(eng, st, u, c, ti):
    "value of type ti yielded at call c of iterator u"
    t = eng.T(ti); k = t['k']; nm = u.gid
    if k in ('param', 'other'): return z3.Function('item_%s' % nm, z3.IntSort(), V)(zi(c))
    if k == 'uint':
        x = z3.Function('item_%s' % nm, z3.IntSort(), z3.IntSort())(zi(c)); st.add(conj(le(0, x), lt(x, 2**t['bits']))); return x
    if k == 'ref':
        g = ('items', nm)
        if g not in eng.ghost:
            tt = eng.T(t['to']); srt = 'int' if tt['k'] in ('uint', 'int') else 'V'
            fn = z3.Function('item_%s' % nm, z3.IntSort(), z3.IntSort() if srt == 'int' else V)
            def fv(e, s, i):
                x = fn(zi(i))
                if srt == 'int': s.add(conj(le(0, x), lt(x, 256)))
                return x
            eng.nobj += 1
            eng.ghost[g] = (eng.nobj, Buf(2**200, NBase(fv, lambda e, s, i: True, g), srt))
        o, b = eng.ghost[g]
        st.heap.setdefault(o, b)
        return Ptr(o, (('e', c),))
    if k == 'adt' and t['path'].endswith('option::Option'):
        b = z3.Function('some_%s' % nm, z3.IntSort(), z3.BoolSort())(zi(c))
        if eng.decide(st, b): return Enum(1, (item_of(eng, st, u, c, t['variants'][1]['fields'][0][1]),))
        return Enum(0, ())
    raise Undecided('user iterator item %s' % t['s'])
@user('std::iter::Iterator::next')
def _(eng, st, f, a):
    p = a[0]; u = as_user(eng, st, p)
    g = ('cursor', u.gid)
    c = st.ghost.get(g, 0)
    more = z3.Function('more_%s' % u.gid, z3.IntSort(), z3.BoolSort())(zi(c))
    if st.unw: raise Undecided('iterator used while unwinding')
    dt = eng.T(eng.dest)
    st.add(lt(c, 2**64 - 1))    # assumption: no iterator is asked for 2^64 items
    some = eng.decide(st, more)
    v = item_of(eng, st, u, c, dt['variants'][1]['fields'][0][1]) if some else None
    st.ghost[g] = add(c, 1)
    outs = fork_user_panic(eng, st, 'next')
    return ret(st, Enum(1, (v,)) if some else Enum(0, ())) + outs
@user('std::iter::ExactSizeIterator::len')
def _(eng, st, f, a):
    u = as_user(eng, st, a[0])
    n = fint('len_%s' % u.gid); eng.names[n.decl().name()] = 1
    st.add(conj(le(0, n), lt(n, MAXU)))
    st.event('len', u.gid, n)
    return ret(st, n) + fork_user_panic(eng, st, 'len')
@user('std::iter::Iterator::size_hint')
def _(eng, st, f, a):
    u = as_user(eng, st, a[0])
    lo, hi = fint('lo'), fint('hi'); st.add(conj(le(0, lo), lt(lo, MAXU), le(0, hi), lt(hi, MAXU)))
    return ret(st, Agg((lo, Enum(1, (hi,))))) + ret(st.copy(), Agg((lo, Enum(0, ())))) + fork_user_panic(eng, st, 'size_hint')
@user('std::iter::Iterator::take')
def _(eng, st, f, a): return ret(st, Agg((a[0], a[1]), 'std::iter::Take'))
@user('std::iter::Iterator::enumerate')
def _(eng, st, f, a): return ret(st, Agg((a[0], 0), 'std::iter::Enumerate'))
@user('std::borrow::Borrow::borrow')
def _(eng, st, f, a):
    u = as_user(eng, st, a[0])
    g = ('slice', u.gid)
    if g not in eng.ghost:
        fn = z3.Function('slice_%s' % u.gid, z3.IntSort(), V)
        n = z3.Int('len_%s' % u.gid); eng.names['len_%s' % u.gid] = 1
        eng.nobj += 1
        eng.ghost[g] = (eng.nobj, Buf(n, NBase(lambda e, s, i: fn(zi(i)), lambda e, s, i: conj(le(0, i), lt(i, n)), g), 'V'))
    o, b = eng.ghost[g]
    st.heap.setdefault(o, b)
    st.add(conj(le(0, b.size), lt(b.size, 2**63)))
    return ret(st, Ptr(o, (('e', 0),), b.size)) + fork_user_panic(eng, st, 'borrow')
