"""InlineArray storage: a host of symbolic size and alignment holding a length word and an element area.

Pointers into a host carry an offset of w words plus e elements (bytes: 8*w + size_of(A)*e).  A pointer of type *usize at the
position HEADER_SKIP denotes the length word, a pointer of type *A at ELEMENT_SKIP words plus i elements denotes element i; both
constants are evaluated from the source of this run.  That these areas are disjoint, aligned and inside the host is proved as the
layout lemma (property C11); everything else is undecided."""
import z3
from terms import *
from values import *
from views import *
import models as M

class Layout: pass
def inline_type(eng):
    for i, t in enumerate(eng.mir.types):
        if t['k'] == 'adt' and t['path'] == INLINE and [eng.T(a)['s'] for a in t['args']] == ['A', 'T']: return i
    return None
def applies(root): return 'InlineArray' in root['path'] or 'inline_array' in root['path']
MAXI = 2**63-1
def capacity_formula(hs, hd, es, aa, ac):
    "the documented capacity, as (value, fits) with a quotient characterised by multiplication"
    return es, hs
def setup(eng, st, hf):
    "symbols and facts about sizes and alignments; hf: element alignment below, equal to or above the word's"
    L = eng.inl = Layout()
    L.ti = inline_type(eng)
    if L.ti is None: raise Undecided('type InlineArray<A, T>')
    def sym(n):
        v = z3.Int(n); eng.names[n] = 1; return v
    L.HS, L.AT, L.ES, L.AA = sym('size_of_T'), sym('align_of_T'), sym('size_of_A'), sym('align_of_A')
    L.AC, L.SS, L.CAP = sym('align_of_InlineArray'), sym('size_of_InlineArray'), sym('CAPACITY')
    MAX = MAXU-1
    st.add(conj(le(0, L.HS), le(L.HS, MAXI), le(0, L.ES), le(L.ES, MAXI)))
    for a in (L.AT, L.AA): st.add(conj(le(1, a), le(a, 2**29)))
    st.add(eq(L.AC, ite(le(L.AT, 8), 8, L.AT)))
    st.add(conj(le(L.HS, L.SS), implies(le(8, L.AT), eq(L.SS, L.HS)), lt(L.SS, add(L.HS, 8))))
    st.add(cap_fact(L, L.CAP))
    # an alignment is a power of two, so it either divides the word size or is a multiple of sixteen
    st.add(disj(*[eq(L.AA, 2**i) for i in range(3)]) if hf == 'small' else eq(L.AA, 8) if hf == 'word' else le(16, L.AA))
    # sizes are multiples of alignments, and no smaller unless zero
    st.add(disj(eq(L.ES, 0), le(L.AA, L.ES))); st.add(disj(eq(L.HS, 0), le(L.AT, L.HS)))
    st.add(disj(eq(L.AT, 1), eq(L.AT, 2), eq(L.AT, 4), eq(L.AT, 8), conj(le(16, L.AT), eq(zi(L.AT) % 16, 0))))
    if hf == 'word': st.add(eq(zi(L.ES) % 8, 0))
    elif hf == 'large': st.add(conj(eq(zi(L.ES) % 16, 0), eq(zi(L.AA) % 16, 0)))
    L.align = {kid(L.AT), kid(L.AA), kid(L.AC)}
    L.locs = None; L.addrs = {}
    eng.size_hook = size_hook; eng.ptr_cast_hook = ptr_cast_hook; eng.host_hook = host_hook; eng.const_hook = const_hook
    eng.addr_hook = addr_hook; eng.ptr_hook = ptr_hook; eng.base_st = st.copy(); eng.const_outs = {}
def cap_fact(L, c):
    "the documented capacity"
    return conj(implies(eq(L.ES, 0), eq(c, MAXU-1)),
                implies(conj(lt(0, L.ES), le(L.AA, L.AC), lt(8, L.HS)), conj(le(0, c), le(add(8, zi(c)*L.ES), L.HS), lt(L.HS, add(8, zi(c)*L.ES+L.ES)), le(c, L.HS))),
                implies(conj(lt(0, L.ES), neg(conj(le(L.AA, L.AC), lt(8, L.HS)))), eq(c, 0)))
def valid(L):
    "what construction guarantees"
    return conj(lt(8, L.HS), disj(eq(L.CAP, 0), le(L.AA, L.AC)))
def size_hook(eng, st, ti):
    t = eng.T(ti); L = eng.inl
    if ti == L.ti or (t['k'] == 'adt' and t['path'] == INLINE and t['s'] == eng.T(L.ti)['s']):
        if not t.get('repr_c'): raise Undecided('InlineArray is not repr(C)')
        return L.SS, L.AC
    if t['s'] == 'T': return L.HS, L.AT
    if t['s'] == 'A': return L.ES, L.AA
    if t['k'] == 'tuple' and all(eng.T(x)['k'] == 'uint' for x in t['of']): return None
    return None
def host_hook(eng, st, t):
    if t['s'] == 'T': return Host(UNINIT, Buf(eng.inl.CAP, eng.garbage('V'), 'V'))
def const_hook(eng, st, c):
    if c.get('path', '').endswith('InlineArray::<A, T>::CAPACITY') and eng.root['path'] != 'inline_array::InlineArray::<A, T>::CAPACITY':
        return eng.inl.CAP
def evalc(eng, st, name):
    p = 'const inline_array::InlineArray::<A, T>::%s' % name
    for r in [eng.root] + eng.mir.roots:
        for key, b in r['bodies'].items():
            if b is not None and (key == p or key.startswith(p+'#')):
                old, eng.root = eng.root, r
                try:
                    outs = eng.run_body(st.copy(), eng.mir.bodies[b], [], key)
                    if len(outs) != 1: return eng.const_cases(st, key, eng.mir.bodies[b])
                finally: eng.root = old
                if outs[0][1] != 'ret': raise Undecided('constant %s' % name)
                return outs[0][2]
    raise Undecided('constant %s' % name)
def locs(eng, st):
    "((words, elements) of the header, (words, elements) of the first element)"
    L = eng.inl
    if L.locs is not None: return L.locs
    r = ((0, evalc(eng, st, 'HEADER_SKIP')), (evalc(eng, st, 'ELEMENT_SKIP'), 0))
    if not eng.const_outs: L.locs = r       # the same in every state
    return r
def bytes_of(L, w, e):
    return add(mul(8, w), e if eq(L.ES, 1) is True else (mul(e, L.ES) if type(e) is int else zi(e)*L.ES))
def host_at(eng, st, obj, path):
    v = eng.get(st, obj, path)
    return isinstance(v, Host)
def offset(eng, st, p):
    "pointer -> (path of the host, words, elements) or None"
    h, e = locs(eng, st)
    if p.path and p.path[-1][0] == 'h': return p.path[:-1], p.path[-1][1], p.path[-1][2]
    if p.path and p.path[-1][0] == 'hdr': return p.path[:-1], h[0], h[1]
    if p.path and p.path[-1][0] == 'e':
        if not host_at(eng, st, p.obj, p.path[:-1]): return None
        return p.path[:-1], e[0], add(e[1], p.path[-1][1])
    if host_at(eng, st, p.obj, p.path): return p.path, 0, 0
    return None
def at(eng, st, obj, hp, w, e, to, meta=None):
    "pointer of pointee type `to` at the offset"
    h, el = locs(eng, st)
    if to == 'usize' and eng.proves(st, conj(eq(w, h[0]), eq(e, h[1]))): return Ptr(obj, hp+(('hdr',),), meta)
    if to == 'A' and eng.proves(st, eq(w, el[0])): return Ptr(obj, hp+(('e', sub(e, el[1])),), meta)
    if to == 'T' and eng.proves(st, conj(eq(w, 0), eq(e, 0))): return Ptr(obj, hp, meta)
    return Ptr(obj, hp+(('h', w, e, to),), meta)
def ptr_cast_hook(eng, st, v, F, T):
    to = T['s']
    if T['k'] == 'adt' and eng.is_transparent(T): to = eng.T(T['args'][0])['s']
    if to not in ('usize', 'A', 'T'): return None
    o = offset(eng, st, v)
    if o is None: return None
    return at(eng, st, v.obj, o[0], o[1], o[2], to, v.meta)
def ptr_hook(eng, st, p, n):
    if not p.path or p.path[-1][0] not in ('h', 'hdr'): return None
    hp, w, e = offset(eng, st, p)
    to = 'usize' if p.path[-1][0] == 'hdr' else p.path[-1][3]
    if to == 'usize': w = add(w, n)
    elif to == 'A': e = add(e, n)
    else: raise Undecided('arithmetic on a host pointer')
    return at(eng, st, p.obj, hp, w, e, to, p.meta)
# ---------------------------------------------------------------- addresses and alignment
def is_align(eng, x):
    if type(x) is int: return x > 0 and x & (x-1) == 0
    return isz(x) and hasattr(eng, 'inl') and kid(x) in eng.inl.align
def rem_align(a, b):
    "remainder of two powers of two"
    return ite(le(b, a), 0, a)
def addr_hook(eng, st, v, f):
    L = eng.inl
    if not isinstance(v, Ptr): return None
    if v.obj is None:
        to = eng.T(f['to'])
        s, a = M.size_align(eng, st, f['to'])
        return a     # NonNull::dangling() is the alignment itself
    key = None
    if v.path and v.path[-1][0] in ('h', 'hdr', 'e') or host_at(eng, st, v.obj, v.path): 
        o = offset(eng, st, v)
        if o is None: return None
        key = (v.obj, base(eng, st, v.obj, o[0]), o[1], o[2])
    else:
        val = eng.get(st, v.obj, v.path)
        if isinstance(val, Agg) and val.tag == INLINE: key = (v.obj, v.path, 0, 0)
    if key is None: return None
    for a, k in L.addrs.values():
        if k[0] == key[0] and k[1] == key[1] and eq(k[2], key[2]) is True and eq(k[3], key[3]) is True: return a
    a = fint('addr'); L.addrs[kid(a)] = (a, key)
    return a
def base(eng, st, obj, hp):
    "path of the array whose data field is the host at hp; the field must lie at offset 0"
    L = eng.inl; t = eng.T(L.ti)
    if not hp or hp[-1][0] != 'f': raise Undecided('address of a host')
    n = hp[-1][1]; fs = t['variants'][0]['fields']
    if not t.get('repr_c') or fields(eng, L.ti).get('data', (None,))[0] != n or any(size0(eng, st, x[1]) is not True for x in fs[:n]): raise Undecided('offset of the host within InlineArray')
    return hp[:-1]
def size0(eng, st, ti):
    t = eng.T(ti)
    if t['k'] == 'array': return eq(eng.cparam(t['len']), 0)
    if t['k'] == 'adt' and t['path'].endswith('PhantomData'): return True
    return None
def is_addr(eng, a): return hasattr(eng, 'inl') and isz(a) and kid(a) in eng.inl.addrs
def aligned(eng, st, w, e, x):
    """is base + 8w + ES*e a multiple of the power of two x?  (base is a multiple of AC, 8w of 8, ES*e of AA)"""
    L = eng.inl
    return conj(le(x, L.AC), disj(le(x, 8), eq(w, 0)), disj(le(x, L.AA), eq(e, 0), eq(L.ES, 0)))
def addr_rem(eng, st, op, a, b):
    if op != 'Rem': return None
    if not is_align(eng, b): return None
    _, key = eng.inl.addrs[kid(a)]
    if eng.proves(st, aligned(eng, st, key[2], key[3], b)): return 0
    raise Undecided('alignment of an address')
M.is_addr = is_addr
M.addr_rem = addr_rem
M.is_align = is_align
M.rem_align = rem_align

# ---------------------------------------------------------------- the layout lemma
def layout_lemma(k, st):
    "header and elements lie inside the host, are aligned and do not overlap (k: postcondition checker)"
    eng = k.eng; L = eng.inl
    s = st.copy(); s.add(valid(L))
    if not eng.sat(s): return
    h, e = locs(eng, s); P = ('C11', 'C05')
    hb = bytes_of(L, *h)
    k.ob(s, conj(le(0, hb), le(add(hb, 8), L.HS)), P, 'the length counter lies inside the host')
    k.ob(s, aligned(eng, s, h[0], h[1], 8), P, 'the length counter is aligned')
    s.add(conj(lt(0, L.CAP), lt(0, L.ES)))
    if not eng.sat(s): return
    eb = bytes_of(L, *e); end = add(eb, zi(L.CAP)*L.ES)
    k.ob(s, conj(le(0, eb), le(end, L.HS)), P, 'the elements lie inside the host')
    k.ob(s, disj(le(add(hb, 8), eb), le(end, hb)), P, 'the elements do not overlap the length counter')
def elem_align(k, st):
    eng = k.eng; L = eng.inl
    s = st.copy(); s.add(conj(valid(L), lt(0, L.CAP)))
    if not eng.sat(s): return
    h, e = locs(eng, s); i = eng.skolem(s, 0, L.CAP)
    k.ob(s, aligned(eng, s, e[0], add(e[1], i), L.AA), ('C11', 'C05'), 'every element is aligned')
