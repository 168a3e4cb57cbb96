import models_seq, specs_chunk, specs_ring, specs_inline, specs_sparse, models_arb, specs_arb
import contracts
from specs_common import clone_of, neg, isz
# trait methods with a default body that an implementation may override: a contract applies as soon as the method exists
def negated(f):
    def g(x):
        d = f(x); r = d['ret']
        def ret(k, st, v):
            if not (isinstance(v, bool) or isz(v)): raise contracts.Undecided('result %r' % (v,))
            r(k, st, neg(v))
        return dict(d, ret=ret)
    return g
def clone_from(x):
    s = x.pre(1).seq; t = specs_sparse.clone_map(s) if hasattr(s, 'dom') else clone_of(s)
    return dict(post={0: t})
for path, (f, kw) in list(contracts.SPECS.items()):
    if path.endswith('>::eq') and 'PartialEq' in path: contracts.spec(path[:-2]+'ne', **dict(kw, optional=True))(negated(f))
    if path.endswith('as std::clone::Clone>::clone') and kw.get('prop') == 'C14': contracts.spec(path+'_from', **dict(kw, optional=True))(clone_from)
