"""Terms: python ints/bools when concrete, z3 expressions otherwise."""
import z3
V = z3.DeclareSort('V')
MAXU = 2**64
_cnt = [0]
def fresh_name(p):
    _cnt[0] += 1
    return '%s!%d' % (p, _cnt[0])
def fint(p='i'): return z3.Int(fresh_name(p))
def fbool(p='b'): return z3.Bool(fresh_name(p))
def fV(p='v'): return z3.Const(fresh_name(p), V)
_KEEP = {}
def kid(c):
    "id of a term; the term is kept alive so that the id is never reused"
    i = c.get_id()
    if i not in _KEEP: _KEEP[i] = c
    return i
def isz(x): return isinstance(x, z3.ExprRef)
def ci(x):
    "concrete int/bool or None"
    if isinstance(x, (bool, int)): return x
    return None
def zi(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    return x
def zb(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    return x
def add(a, b):
    if type(a) is int and type(b) is int: return a+b
    if type(a) is int and a == 0: return b
    if type(b) is int and b == 0: return a
    return nrm(zi(a)+zi(b))
def sub(a, b):
    if type(a) is int and type(b) is int: return a-b
    if type(b) is int and b == 0: return a
    if isz(a) and isz(b) and a.eq(b): return 0
    return nrm(zi(a)-zi(b))
def mul(a, b):
    if type(a) is int and type(b) is int: return a*b
    if (type(a) is int and a == 0) or (type(b) is int and b == 0): return 0
    if type(a) is int and a == 1: return b
    if type(b) is int and b == 1: return a
    return nrm(zi(a)*zi(b))
_lin = {}
def lin(e):
    """linear normal form {ast id: (expr, coef)}, const -- treats non-arith subterms as atoms"""
    if type(e) is int: return {}, e
    k = kid(e)
    r = _lin.get(k)
    if r is not None: return r[1], r[2]
    d = {}; c = 0
    if z3.is_int_value(e): c = e.as_long()
    elif z3.is_add(e):
        for ch in e.children():
            dd, cc = lin(ch); c += cc
            for i, (x, q) in dd.items():
                o = d.get(i); d[i] = (x, q+(o[1] if o else 0))
    elif z3.is_sub(e):
        chs = e.children()
        for n, ch in enumerate(chs):
            s = 1 if n == 0 else -1
            dd, cc = lin(ch); c += s*cc
            for i, (x, q) in dd.items():
                o = d.get(i); d[i] = (x, s*q+(o[1] if o else 0))
    elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
        dd, cc = lin(e.arg(0)); c = -cc
        d = {i: (x, -q) for i, (x, q) in dd.items()}
    elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        s = e.arg(0).as_long()
        dd, cc = lin(e.arg(1)); c = s*cc
        d = {i: (x, s*q) for i, (x, q) in dd.items()}
    else: d = {k: (e, 1)}
    d = {i: v for i, v in d.items() if v[1] != 0}
    _lin[k] = (e, d, c)
    return d, c
def nrm(e):
    if type(e) is int: return e
    d, c = lin(e)
    if not d: return c
    pos = sorted(d.items())
    ts = []
    for i, (x, q) in pos: ts.append(x if q == 1 else z3.IntVal(q)*x)
    if c != 0: ts.append(z3.IntVal(c))
    r = ts[0] if len(ts) == 1 else z3.Sum(*ts) if len(ts) > 2 else ts[0]+ts[1]
    _lin[r.get_id()] = (r, d, c)
    return r
def le(a, b):
    if type(a) is int and type(b) is int: return a <= b
    if isz(a) and isz(b) and a.eq(b): return True
    return zi(a) <= zi(b)
def lt(a, b):
    if type(a) is int and type(b) is int: return a < b
    if isz(a) and isz(b) and a.eq(b): return False
    return zi(a) < zi(b)
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b):
    if isz(a) and isz(b):
        if a.eq(b): return True
        if z3.is_bool(a) and z3.is_bool(b): return a == b
        return a == b
    if not isz(a) and not isz(b): return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        x, y = (a, b) if isinstance(a, bool) else (b, a)
        return y if x else neg(y)
    return zi(a) == zi(b)
def ne(a, b): return neg(eq(a, b))
def neg(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    if z3.is_true(a): return False
    if z3.is_false(a): return True
    return z3.Not(a)
def conj(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
            continue
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def disj(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
            continue
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def implies(a, b): return disj(neg(a), b)
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b: return a
            return c if a else neg(c)
        return z3.If(c, zb(a), zb(b))
    if type(a) is int and type(b) is int and a == b: return a
    if isz(a) and isz(b) and a.eq(b): return a
    return z3.If(c, zi(a), zi(b))
def wrap(x, N):
    "x in [0,2N) -> x mod N"
    return ite(lt(x, N), x, sub(x, N))
def wrapm(x, N):
    "x in [-N,N) -> x mod N"
    return ite(le(0, x), x, add(x, N))
def subst(e, pairs):
    if not isz(e): return e
    return z3.substitute(e, *[(a, zi(b) if not isinstance(b, bool) else zb(b)) for a, b in pairs])
def consts_of(e, acc=None, seen=None):
    if acc is None: acc = {}; seen = set()
    if not isz(e): return acc
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[x.decl().name()] = x
        else: st += x.children()
    return acc
