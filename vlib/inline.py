"""Path-sensitive (set-of-configurations) dataflow with inlining of helper functions."""
from .flow import *
from .prog import CALLS, CTORS

class Configs(Forward):
    """State: frozenset of configurations (hashable).  Subclasses give
       step(fn, el, cfg) -> iterable of configurations, and
       branch(fn, cond, value, cfg) -> configuration or None for each way an atomic condition comes out."""
    maxconf = 400
    depthlimit = 6
    def __init__(self, P): self.P = P; self.memo = {}; self.depth = 0
    def join(self, a, b): return a | b
    def transfer(self, fn, el, st):
        out = set()
        for c in st:
            r = self.step(fn, el, c)
            if r is None: continue
            out.update(r)
        if len(out) > self.maxconf: out = set(self.widen(out))
        return frozenset(out) if out else None
    def widen(self, confs): raise RuntimeError('too many configurations')
    def edge(self, fn, B, taken, cond, st):
        if cond is None: return st
        out = set()
        for x in st: out.update(self.decide(fn, cond, taken, x))
        return frozenset(out) if out else None
    def decide(self, fn, cond, val, c):
        """configurations in which the condition comes out as val (a condition with temporaries is one block, so && and || can stand here)"""
        n, pol = negate(cond)
        if not pol: val = not val
        if n is not None and n.k == 'BinaryOperator' and n.op in ('&&', '||'):
            l, r = n.c[0], n.c[1]
            if (n.op == '&&') == val:
                return {z for y in self.decide(fn, l, val, c) for z in self.decide(fn, r, val, y)}
            out = self.decide(fn, l, val, c)
            for y in self.decide(fn, l, not val, c): out = out | self.decide(fn, r, val, y)
            return out
        y = self.branch(fn, n, val, c)
        return set() if y is None else {y}
    def branch(self, fn, cond, val, c): return c
    def inline_configs(self, caller, call, callee, cfgs):
        """run the callee from cfgs; configurations at its normal exit"""
        if self.depth >= self.depthlimit: return cfgs
        key = (callee.id, cfgs, self.ctxkey())
        if key in self.memo: 
            r = self.memo[key]
            return r if r != 'busy' else frozenset()
        self.memo[key] = 'busy'
        self.depth += 1
        sub = self.fork()
        n, t, _ = Forward.run(sub, callee, cfgs)
        self.absorb(sub, callee)
        self.depth -= 1
        self.memo[key] = n or frozenset()
        return self.memo[key]
    def ctxkey(self): return None
    def fork(self):
        s = object.__new__(type(self)); s.__dict__.update(self.__dict__); return s
    def absorb(self, sub, callee): pass
