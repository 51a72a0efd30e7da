"""Forward dataflow over a function's control-flow graph."""
from .prog import Node, CALLS, CTORS, CASTS

class Forward:
    """Subclasses give transfer(fn, el, st) -> st, edge(fn, blk, taken, cond, st) -> st or None, join(a, b)."""
    def transfer(self, fn, el, st): return st
    def edge(self, fn, blk, taken, cond, st): return st
    def join(self, a, b): raise NotImplementedError
    limit = 4000
    def run(self, fn, init, visit=None):
        """returns (state at normal exit or None, state at throwing exits or None, block in-states)"""
        cfg = fn.cfg
        if not cfg: return init, None, {}
        ins = {fn.entry: init}
        work = [fn.entry]; steps = 0
        normal = thrown = None
        order = self._rpo(fn)
        import heapq
        heap = [(order.get(fn.entry, 0), fn.entry)]; inq = {fn.entry}
        outs = {}
        while heap:
            _, b = heapq.heappop(heap); inq.discard(b)
            steps += 1
            if steps > self.limit: raise RuntimeError(f'no fixpoint in {fn.id}')
            B = cfg[b]; st = ins[b]
            for el in B.els:
                st = self.transfer(fn, el, st)
                if st is None: break
            if st is None: outs[b] = None; continue
            outs[b] = st
            if b == fn.exit: continue
            n = len(B.succ)
            for i, s in enumerate(B.succ):
                if s not in cfg: continue
                st2 = st
                if B.throws and s == fn.exit: continue
                if n == 2 and B.cond is not None and B.cond.k in ('CXXBoolLiteralExpr', 'IntegerLiteral') and B.term in ('WhileStmt', 'ForStmt', 'DoStmt', 'IfStmt') and bool(B.cond.val) != (i == 0): continue
                if n == 2 and B.cond is not None and B.term not in ('SwitchStmt', 'CXXTryStmt'):
                    st2 = self.edge(fn, B, i == 0, decides(B.cond), st)
                elif B.term == 'CXXForRangeStmt' and n == 2:
                    st2 = self.edge(fn, B, i == 0, None, st)
                elif B.term == 'SwitchStmt':
                    st2 = self.switch_edge(fn, B, cfg[s].case, st)
                if st2 is None: continue
                old = ins.get(s)
                new = st2 if old is None else self.join(old, st2)
                if old is None or new != old:
                    ins[s] = new
                    if s not in inq: inq.add(s); heapq.heappush(heap, (order.get(s, 0), s))
        # exits
        for b, B in cfg.items():
            if outs.get(b) is None or b == fn.exit: continue
            if B.throws:
                thrown = outs[b] if thrown is None else self.join(thrown, outs[b])
        normal = ins.get(fn.exit)
        if visit is not None:
            for b in sorted(ins, key=lambda x: order.get(x, 0)):
                st = ins[b]
                for el in cfg[b].els:
                    visit(fn, cfg[b], el, st)
                    st = self.transfer(fn, el, st)
                    if st is None: break
        self.ins = ins; self.outs = outs
        return normal, thrown, ins
    def switch_edge(self, fn, B, case, st): return st
    def _rpo(self, fn):
        if hasattr(fn, '_rpo'): return fn._rpo
        seen = set(); order = []
        st = [(fn.entry, iter(fn.cfg[fn.entry].succ))]; seen.add(fn.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s in fn.cfg and s not in seen:
                    seen.add(s); st.append((s, iter(fn.cfg[s].succ))); break
            else:
                order.append(b); st.pop()
        fn._rpo = {b: i for i, b in enumerate(reversed(order))}
        return fn._rpo

def decides(cond):
    """the operand of a comma expression that decides"""
    while cond is not None and cond.k == 'BinaryOperator' and cond.op == ',' and len(cond.c) == 2: cond = cond.c[1]
    return cond

def negate(cond):
    """strip ! ; returns (node, polarity)"""
    pol = True
    while cond is not None and ((cond.k == 'UnaryOperator' and cond.op == '!') or (cond.k == 'CXXOperatorCallExpr' and cond.op == '!' and False)):
        cond = cond.c[0]; pol = not pol
    return cond, pol

def unwrap(n):
    """look through explicit casts and smart-pointer/std::string style wrapping of a single value"""
    while n is not None and n.k in CASTS and n.c: n = n.c[0]
    return n

def call_args(n):
    """argument nodes of a call (without the object)"""
    if n.k == 'CXXMemberCallExpr': return list(n.c[1:])
    if n.k == 'CXXOperatorCallExpr' and n.get('mc'): return list(n.c[1:])
    if n.k == 'CallExpr' and n.get('ind'): return list(n.c[1:])
    return list(n.c)

def call_obj(n):
    if n.k == 'CXXMemberCallExpr' or (n.k == 'CXXOperatorCallExpr' and n.get('mc')): return n.c[0] if n.c else None
    return None

def callee_name(n, P):
    f = n.f
    if f is None: return None
    d = P.decls.get(f)
    return d['n'] if d else None

def callee_q(n, P):
    f = n.f
    if f is None: return ''
    d = P.decls.get(f)
    return d['q'] if d else ''
