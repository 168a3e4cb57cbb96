"""Loads the MIR dump (produced by mirdump from /repo's current source) and offers helpers."""
import json

class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']; self.bodies = d['bodies']; self.roots = d['roots']
        self.overflow_checks = d['overflow_checks']
        self._loops = {}
    def T(self, i): return self.types[i]
    def root(self, path):
        r = [r for r in self.roots if r['path'] == path]
        if len(r) != 1: raise KeyError('%d roots named %s' % (len(r), path))
        return r[0]
    def body(self, root, key):
        b = root['bodies'].get(key)
        return None if b is None else self.bodies[b]
    def loops(self, body):
        """head block -> set of blocks in the natural loop(s) with that head"""
        k = id(body)
        if k in self._loops: return self._loops[k]
        succ = [succs(b['t']) for b in body['blocks']]
        n = len(succ); color = [0]*n; back = []
        stack = [(0, iter(succ[0]))]; color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1; stack.append((v, iter(succ[v]))); break
                elif color[v] == 1: back.append((u, v))
            else:
                color[u] = 2; stack.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]: pred[v].append(u)
        res = {}
        for u, h in back:
            body_set = res.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body_set: continue
                body_set.add(x); work += pred[x]
        self._loops[k] = res
        return res

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop': r = [t[3]]; u = t[4]
    elif k == 'call': r = [t[4]] if t[4] is not None else []; u = t[5]
    elif k == 'assert': r = [t[4]]; u = t[5]
    else: return []
    return r + ([u] if isinstance(u, int) and not isinstance(u, bool) else [])
