"""Interprocedural may-modify analysis over access paths.

A location is a tuple: root, then components.  Roots: 'this', 'p<i>' (parameter), 'g:<name>' (global or static),
('l', v) (local variable), ('n', node id) (object made here).  Components: member names, '*' (what a pointer points to),
'[]' (an element), '~' (something inside).  Summaries of a function keep only this/p/g locations:
 mods: location -> the site that modifies it;  ret: locations the result may refer to;  stores: (location stored into, location stored)."""
from .flow import *
from .prog import Node, CALLS, CTORS, CASTS, SMART, short
from .locks import Held, lock_kind, is_mutex

MAXLEN = 7
STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'std::cin'}
ACCESS = {'begin', 'end', 'rbegin', 'rend', 'find', 'front', 'back', 'at', 'top', 'data', 'lower_bound', 'upper_bound', 'equal_range', 'get', 'c_str', 'operator*', 'operator->', 'cbegin', 'cend', 'str', 'rdbuf', 'base'}
ELEM = {'begin', 'end', 'rbegin', 'rend', 'find', 'front', 'back', 'at', 'top', 'data', 'lower_bound', 'upper_bound', 'equal_range', 'cbegin', 'cend'}
ALGO_MOD = {'sort', 'stable_sort', 'reverse', 'random_shuffle', 'shuffle', 'unique', 'remove', 'remove_if', 'fill', 'fill_n', 'iota', 'make_heap', 'push_heap', 'pop_heap', 'sort_heap', 'nth_element',
            'partial_sort', 'replace', 'replace_if', 'rotate', 'inplace_merge', 'next_permutation', 'prev_permutation', 'generate', 'swap_ranges', 'iter_swap'}
ALGO_OUT = {'copy': 2, 'transform': 2, 'set_union': 4, 'set_intersection': 4, 'set_difference': 4, 'merge': 4, 'partial_sum': 2, 'copy_backward': 2, 'unique_copy': 2, 'remove_copy': 2}
WRITE = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='}
UNSAFE_C = {'strtok', 'drand48', 'lrand48', 'srand48', 'localtime', 'gmtime', 'asctime', 'ctime', 'tmpnam', 'setlocale', 'setenv', 'putenv', 'strerror'}

class Summary:
    __slots__ = ('mods', 'ret', 'stores', 'key')
    def __init__(self): self.mods = {}; self.ret = set(); self.stores = set()
    def sig(self): return (frozenset(self.mods), frozenset(self.ret), frozenset(self.stores))

class Effects:
    def __init__(self, P, locks=True, deepcopies=False):
        self.P = P; self.deepcopies = deepcopies; self.sum = {i: Summary() for i in P.funcs}
        self.locks = locks; self.held = {}; self.skip = {}
        self._ptr = {}
        self.order()
    def order(self):
        P = self.P
        callers = {}
        self.callees = {}
        for f in P.funcs.values():
            cs = set()
            for n in f.nodes():
                if n.k in CALLS:
                    for t in P.targets(n): cs.add(t.id)
                elif n.k in CTORS and n.f in P.funcs: cs.add(n.f)
            self.callees[f.id] = cs
            for c in cs: callers.setdefault(c, set()).add(f.id)
        self.callers = callers
    def solve(self, roots=None):
        """fixpoint over the functions reachable from roots (all when None)"""
        P = self.P
        if roots is None: scope = set(P.funcs)
        else:
            scope = set(); st = list(roots)
            while st:
                x = st.pop()
                if x in scope: continue
                scope.add(x); st.extend(self.callees[x])
        self.scope = scope
        # post-order
        seen = set(); post = []
        for r in sorted(scope):
            if r in seen: continue
            seen.add(r); stk = [(r, iter(sorted(self.callees[r])))]
            while stk:
                x, it = stk[-1]
                for y in it:
                    if y in scope and y not in seen: seen.add(y); stk.append((y, iter(sorted(self.callees[y])))); break
                else: post.append(x); stk.pop()
        work = list(post); inw = set(work); n = 0
        from collections import deque
        dq = deque(work)
        while dq:
            x = dq.popleft(); inw.discard(x)
            n += 1
            if n > 40 * len(scope) + 1000: raise RuntimeError('effects: no fixpoint')
            old = self.sum[x].sig()
            s = Local(self, P.funcs[x]).run()
            self.sum[x] = s
            if s.sig() != old:
                for c in self.callers.get(x, ()):
                    if c in scope and c not in inw: inw.add(c); dq.append(c)
        self.iterations = n
    def lockstate(self, fn):
        """node id -> True when some lock is exclusively held there"""
        if fn.id in self.held: return self.held[fn.id]
        r = {}
        if self.locks and any((n.k == 'VarDecl' and lock_kind(self.P, n.t)) or (n.k == 'CXXMemberCallExpr' and n.c[0] is not None and is_mutex(self.P, n.c[0].t)) for n in fn.nodes()):
            H = Held(self.P)
            def visit(f, b, el, st):
                if not isinstance(el, tuple) and any(h[1] == 'X' for h in st[0]): r[el.i] = True
            H.run(fn, (frozenset(), frozenset()), visit)
        for i in self.skip.get(fn.id, ()): r[i] = True
        self.held[fn.id] = r
        return r
    def ptrbearing(self, t):
        """can a value of this type lead to other storage?"""
        P = self.P
        t = P.strip_ref(t)
        if t in self._ptr: return self._ptr[t]
        self._ptr[t] = False
        x = P.T(t); k = x['k']; r = False
        if k in ('ptr',): r = True
        elif k == 'arr': r = self.ptrbearing(x['p'])
        elif k == 'rec':
            tn = x.get('tn') or ''; rid = x.get('r') or ''
            if tn in SMART or 'iterator' in rid or 'weak_ptr' in rid: r = True
            elif rid in P.recs and P.recs[rid].get('repo'):
                r = any(self.ptrbearing(f['t']) or P.T(f['t'])['k'] == 'ref' for f in P.all_fields(rid))
            elif x.get('ta'): r = any(self.ptrbearing(a) for a in x['ta'][:2])
        self._ptr[t] = r
        return r
    def ptrlike(self, t):
        P = self.P; x = P.T(P.strip_ref(t))
        return x['k'] == 'ptr' or (x.get('tn') or '') in SMART or 'iterator' in (x.get('r') or '')

def tag(l):
    for c in reversed(l):
        if isinstance(c, str) and '::' in c: return c
    return None
def trunc(l): return l if len(l) <= MAXLEN else l[:MAXLEN]
def ext(ls, c): return {trunc(l + (c,)) for l in ls}
def summarizable(l): return isinstance(l[0], str)

class Local:
    def __init__(self, E, fn):
        self.E = E; self.P = E.P; self.fn = fn; self.pts = {}; self.S = Summary(); self.changed = False
        self.pidx = {p['v']: i for i, p in enumerate(fn.params)}
        self.memo = {}; self.keep = False
        self.reflocs = {}
    def run(self):
        fn = self.fn; E = self.E; P = self.P
        nodes = list(fn.nodes())
        self.lk = E.lockstate(fn)
        self.holes = None
        for it in range(6):
            self.changed = False; self.memo = {}
            for n in nodes: self.visit(n)
            for ini, e in fn.inits: self.visit_init(ini, e)
            if not self.changed: break
        S = self.S
        return S
    def region(self, nodes):
        """modifications made by some of the function's nodes, its locals included"""
        self.S = Summary(); self.keep = True
        for n in nodes: self.visit(n)
        self.keep = False
        return self.S
    def add(self, v, ls):
        if not ls: return
        cur = self.pts.setdefault(v, set())
        n0 = len(cur); cur |= {l for l in ls if l[0] != v or len(l) > 1}
        if len(cur) > 40:
            self.pts[v] = cur
        if len(cur) != n0: self.changed = True
    def norm(self, ls):
        """replace the pointees of locals by what the locals point to"""
        out = set(); work = list(ls); seen = set()
        while work:
            l = work.pop()
            if l in seen: continue
            seen.add(l)
            r = l[0]
            if not isinstance(r, str) and '*' in l:
                i = l.index('*')
                for q in self.pts.get(r, ()):
                    work.append(trunc(q + l[i + 1:]))
            else: out.add(l)
        return out
    # ---- storage
    def st(self, n):
        if n is None: return set()
        r = self.memo.get(('s', n.i))
        if r is None:
            self.memo[('s', n.i)] = set()
            r = self.norm(self._st(n)); self.memo[('s', n.i)] = r
        return r
    def pt(self, n):
        if n is None: return set()
        r = self.memo.get(('p', n.i))
        if r is None:
            self.memo[('p', n.i)] = set()
            r = self.norm(self._pt(n)); self.memo[('p', n.i)] = r
        return r
    def contents(self, n):
        """what a value of n's type leads to"""
        if n is None or not self.E.ptrbearing(n.t): return set()
        if self.E.ptrlike(n.t): return self.pt(n)
        if n.k in CALLS:
            if n.f and not self.P.targets(n) and self.P.T(self.P.decls[n.f]['rt'])['k'] not in ('ref', 'rref') and call_obj(n) is None:
                out = set()
                for a in call_args(n):
                    if a is not None and not self.readonly(a): out |= self.contents(a)
                return self.norm(out)
            return self.norm(self.callret(n)) if self.P.T(n.x.get('t', -1))['k'] not in ('ref',) and n.f and self.P.T(self.P.decls[n.f]['rt'])['k'] not in ('ref', 'rref') else self.norm({l + ('~', '*') for l in self.st(n)})
        if n.k in CTORS and n.f in self.P.funcs:
            out = set()
            for l in self.ctortarget(n): out |= self.pts.get(l[0], set()) if not isinstance(l[0], str) else set()
            return out
        if n.k in CTORS or n.k == 'InitListExpr':
            out = set()
            for a in n.c:
                if a is not None and not self.readonly(a): out |= self.contents(a)
            return out
        if n.k in CASTS and n.c: return self.contents(n.c[0])
        if n.k == 'ConditionalOperator': return self.contents(n.c[1]) | self.contents(n.c[2])
        out = set()
        for l in self.st(n):
            if not isinstance(l[0], str): out |= self.pts.get(l[0], set())
            else: out.add(trunc(l + ('~', '*')))
        return self.norm(out)
    def _st(self, n):
        P = self.P; k = n.k; fn = self.fn
        if k == 'DeclRefExpr':
            if n.g is not None: return {('g:' + n.g,)}
            v = n.v
            if v is None: return set()
            if v in self.pidx:
                t = P.T(fn.params[self.pidx[v]]['t'])
                if t['k'] in ('ref', 'rref'): return {('p%d' % self.pidx[v],)}
                return {(('l', v),)}
            t = P.T(fn.vartype(v))
            if t['k'] in ('ref', 'rref'): return set(self.reflocs.get(v, ()))
            return {(('l', v),)}
        if k == 'MemberExpr':
            if n.m is None: return {('g:' + n.g,)} if n.g else set()
            o = n.c[0]
            base = self.pt(o) if n.get('arrow') else self.st(o)
            f = P.fields.get(n.m)
            b = ext(base, n.m)
            if f is not None and P.T(f[1]['t'])['k'] == 'ref': b = ext(b, '*')
            return b
        if k == 'CXXThisExpr': return set()
        if k == 'UnaryOperator':
            if n.op == '*': return self.pt(n.c[0])
            if n.op in ('++', '--'): return self.st(n.c[0])
            return set()
        if k == 'ArraySubscriptExpr':
            a = n.c[0]
            t = P.T(P.strip_ref(a.t))
            if t['k'] == 'arr': return ext(self.st(a), '[]')
            return self.pt(a)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            if n.op in WRITE: return self.st(n.c[0])
            if n.op == ',': return self.st(n.c[1])
            return set()
        if k == 'ConditionalOperator': return self.st(n.c[1]) | self.st(n.c[2])
        if k in CASTS: return self.st(n.c[0]) if n.c else set()
        if k == 'CXXOperatorCallExpr':
            if n.f in P.funcs: return self.callst(n)
            op = n.op
            if op == '*': return self.pt(n.c[0]) if self.E.ptrlike(n.c[0].t) else ext(self.st(n.c[0]), '[]')
            if op == '->': return self.pt(n.c[0])
            if op == '[]':
                if self.E.ptrlike(n.c[0].t): return self.pt(n.c[0])
                return ext(self.st(n.c[0]), '[]')
            if op in WRITE or op in ('++', '--', '<<', '>>'): return self.st(n.c[0])
            return set()
        if k == 'CXXMemberCallExpr':
            if n.f is None: return set()
            if P.targets(n): return self.callst(n)
            nm = P.decls[n.f]['n']; rt = P.T(P.decls[n.f]['rt'])
            o = n.c[0]
            base = self.pt(o) if P.is_ptr(o.t) and n.get('arrow') else self.st(o)
            if rt['k'] in ('ref', 'rref'):
                if nm in ELEM: return ext(base, '[]')
                return set(base)
            return set()
        if k == 'CallExpr':
            if n.f in P.funcs: return self.callst(n)
            if n.f and P.T(P.decls[n.f]['rt'])['k'] in ('ref', 'rref'):
                out = set()
                for a in call_args(n): out |= self.st(a)
                return out
            return set()
        if k in ('StmtExpr',): return set()
        return set()
    def _pt(self, n):
        P = self.P; k = n.k; E = self.E
        if k == 'CXXThisExpr': return {('this',)}
        if k in ('CXXNewExpr',): return {(('n', n.i),)}
        if k == 'UnaryOperator' and n.op == '&': return self.st(n.c[0])
        if k == 'UnaryOperator' and n.op in ('++', '--'): return self.pt(n.c[0])
        if k == 'BinaryOperator':
            if n.op in ('+', '-'):
                return self.pt(n.c[0]) | (self.pt(n.c[1]) if E.ptrlike(n.c[1].t) else set())
            if n.op == '=': return self.pt(n.c[1])
            if n.op == ',': return self.pt(n.c[1])
            return set()
        if k == 'ConditionalOperator': return self.pt(n.c[1]) | self.pt(n.c[2])
        if k in CASTS: return self.pt(n.c[0]) if n.c else set()
        if k in CTORS:
            out = set()
            for a in n.c:
                if a is not None and E.ptrlike(a.t): out |= self.pt(a)
            return out
        if k in CALLS and n.f:
            d = P.decls[n.f]; rt = P.T(d['rt'])
            if P.targets(n):
                r = self.callret(n)
                if rt['k'] in ('ref', 'rref'): return ext(r, '*')
                return r
            nm = d['n']
            if rt['k'] in ('ref', 'rref') and nm not in ('operator++', 'operator--', 'operator=', 'operator+=', 'operator-='): return ext(self.st(n), '*')
            o = call_obj(n)
            if o is not None:
                if nm in ('get', 'operator->', 'operator*') and (P.tname(o.t) in SMART): return self.pt(o)
                if E.ptrlike(o.t): return self.pt(o)      # iterator arithmetic and the like
                base = self.pt(o) if n.get('arrow') and P.is_ptr(o.t) else self.st(o)
                if nm in ELEM or 'iterator' in (rt.get('r') or ''): return ext(base, '[]')
                if rt['k'] == 'ptr': return ext(base, '~')
                return set()
            out = set()
            for a in call_args(n):
                if a is not None and E.ptrbearing(a.t): out |= self.contents(a)
            return out
        if n.k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr') or k == 'CXXOperatorCallExpr':
            t = P.T(P.strip_ref(n.t))
            if t['k'] == 'arr': return ext(self.st(n), '[]')
            if k == 'DeclRefExpr' and n.v in self.pidx and P.T(self.fn.params[self.pidx[n.v]]['t'])['k'] not in ('ref', 'rref'):
                return {('p%d' % self.pidx[n.v], '*')} | self.pts.get(('l', n.v), set())
            out = set()
            for l in self.st(n):
                out.add(trunc(l + ('*',)))
            return out
        return set()
    # ---- calls
    def bind(self, n, t):
        """function: callee location -> caller locations"""
        P = self.P
        o = call_obj(n) if n.k in CALLS else None
        args = call_args(n) if n.k in CALLS else list(n.c)
        if n.k == 'CXXOperatorCallExpr' and t.cls and not t.decl.get('static') and not n.get('mc'):
            pass
        def f(l):
            r = l[0]
            if r == 'this':
                if n.k in CTORS: base = self.ctortarget(n)
                elif o is None: base = {('this',)} if t.cls else set()
                else: base = self.pt(o) if P.is_ptr(o.t) else self.st(o)
                return {trunc(b + l[1:]) for b in base}
            if r.startswith('g:'): return {l}
            if r[0] == 'p' and r[1:].isdigit():
                i = int(r[1:])
                if i >= len(args) or args[i] is None: return set()
                a = args[i]; pt = P.T(t.params[i]['t']) if i < len(t.params) else {'k': ''}
                if pt['k'] in ('ref', 'rref'):
                    return {trunc(b + l[1:]) for b in self.st(a)} | ({trunc(b + l[2:]) for b in self.pt(a)} if len(l) > 1 and l[1] == '*' and not self.st(a) else set())
                # by value
                if len(l) > 1 and l[1] == '*': return {trunc(b + l[2:]) for b in self.contents(a)}
                return set()
            return set()
        return f
    def ctortarget(self, n):
        p = n.p
        if p is not None and p.k == 'VarDecl' and p.v is not None: return {(('l', p.v),)}
        if p is not None and p.k == 'CXXNewExpr': return {(('n', p.i),)}
        if p is None: return {('this',)}      # member or base initialiser
        return {(('n', n.i),)}
    def callret(self, n):
        P = self.P; out = set()
        for t in P.targets(n):
            f = self.bind(n, t)
            for l in self.E.sum[t.id].ret:
                if l[0] == 'fresh': out.add((('n', n.i),))
                else: out |= f(l)
        return out
    def callst(self, n):
        P = self.P
        if not n.f: return set()
        if P.T(P.decls[n.f]['rt'])['k'] in ('ref', 'rref'): return self.callret(n)
        if P.T(P.decls[n.f]['rt'])['k'] == 'rec': 
            v = ('n', n.i)
            self.add(v, self.norm(self.callret(n)))
            return {(v,)}
        return set()
    # ---- effects
    def mod(self, ls, n, why):
        if self.lk.get(n.i): return
        a = n
        for l in self.norm(ls):
            if summarizable(l) or self.keep:
                if isinstance(l[0], str) and l[0].startswith('g:') and l[0][2:] in STREAMS: continue
                k = (l, tag(l))
                if k not in self.S.mods: self.S.mods[k] = (self.fn.id, n.i, why, None)
    def store(self, dst, src):
        """pointers in src are now reachable from dst"""
        if not src: return
        for d in dst:
            if not isinstance(d[0], str): self.add(d[0], src)
            else:
                for s in src:
                    if summarizable(s) and s[0] != d[0]: self.S.stores.add((trunc(d), trunc(s)))
    def visit_init(self, ini, e):
        f = ini.get('m') or ini.get('f')
        c = self.contents(e)
        if f and c:
            self.store({('this', f)}, c)
    def visit(self, n):
        P = self.P; k = n.k; E = self.E; fn = self.fn
        if k == 'VarDecl' and n.v is not None:
            t = P.T(n.t)
            src = n.c[0] if n.c else None
            if 'rng' in n.x:
                r = fn.node(n.x['rng'])
                base = self.st(r) if not (r is not None and P.T(P.strip_ref(r.t))['k'] == 'ptr') else self.pt(r)
                els = ext(base, '[]')
                if t['k'] in ('ref', 'rref'):
                    cur = self.reflocs.setdefault(n.v, set())
                    if not els <= cur: cur |= els; self.changed = True
                elif E.ptrbearing(n.t):
                    if E.ptrlike(n.t): self.add(('l', n.v), self.norm(ext(els, '*')))
                    else: self.add(('l', n.v), self.norm({trunc(l + ('~', '*')) for l in els}))
                return
            if src is None: return
            if t['k'] in ('ref', 'rref'):
                ls = self.st(src)
                if not ls and src.k in CALLS + CTORS: ls = {(('n', src.i),)}
                cur = self.reflocs.setdefault(n.v, set())
                if not ls <= cur: cur |= ls; self.changed = True
            elif E.ptrbearing(n.t): self.add(('l', n.v), self.contents(src))
            return
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n.op in WRITE:
            self.mod(self.st(n.c[0]), n, 'assigns')
            if n.op == '=' and E.ptrbearing(n.c[0].t): self.store(self.st(n.c[0]), self.contents(n.c[1]))
            return
        if k == 'UnaryOperator' and n.op in ('++', '--'):
            self.mod(self.st(n.c[0]), n, 'changes'); return
        if k == 'CXXDeleteExpr':
            self.mod(self.pt(n.c[0]), n, 'deletes'); return
        if k == 'ReturnStmt' and n.c and n.c[0] is not None:
            rt = P.T(fn.decl.get('rt', -1)); e = n.c[0]
            if rt['k'] in ('ref', 'rref'): ls = self.st(e)
            elif E.ptrbearing(fn.decl.get('rt', -1)): ls = self.contents(e)
            else: ls = set()
            for l in self.norm(ls):
                if summarizable(l): self.S.ret.add(l)
                else: self.S.ret.add(('fresh',))
            return
        if k in CALLS:
            if n.f is None: return
            ts = P.targets(n)
            if ts:
                for t in ts: self.apply(n, t)
            else: self.external(n)
            return
        if k in CTORS:
            if n.f in P.funcs: self.apply(n, P.funcs[n.f])
            else:
                tgt = self.ctortarget(n)
                c = set()
                for a in n.c:
                    if a is not None and E.ptrbearing(a.t) and not self.readonly(a): c |= self.contents(a)
                if n.p is not None: self.store(tgt, c)
                d = P.decls.get(n.f)
                if d:
                    for a, pt in zip(n.c, d['pt']):
                        if a is not None and P.T(pt)['k'] == 'ref' and not P.is_const_ref(pt) and 'stream' not in P.ts(pt) and not lock_kind(P, n.t): self.mod(self.st(a), n, 'passes to a constructor that may change it')
    def apply(self, n, t):
        f = self.bind(n, t); S = self.E.sum[t.id]
        if not (t.isctor and n.k in CTORS and n.p is None and False):
            if not self.lk.get(n.i):
                for (l, tg), why in list(S.mods.items()):
                    for q in self.norm(f(l)):
                        if (summarizable(q) or self.keep) and (q, tg or tag(q)) not in self.S.mods: self.S.mods[(q, tg or tag(q))] = (self.fn.id, n.i, 'calls', (t.id, (l, tg)))
        if self.E.deepcopies and t.isctor and t.decl.get('copyctor'): return
        for d, s in list(S.stores):
            ss = self.norm(f(s))
            if ss: self.store(self.norm(f(d)), ss)
    def readonly(self, a):
        """a pointer to const: what is kept of it can only be read through"""
        P = self.P; x = P.T(P.strip_ref(a.t))
        if x['k'] != 'ptr' or not P.T(x['p']).get('const'): return False
        if not self.E.ptrbearing(x['p']): return True
        # what it leads to is not const; when it goes into one value with pointers to objects of the same kind that may be changed, it is not told apart from them
        for b in a.p.c if a.p is not None else ():
            if b is None or b is a: continue
            y = P.T(P.strip_ref(b.t))
            if y['k'] == 'ptr' and not P.T(y['p']).get('const') and P.T(y['p']).get('r') == P.T(x['p']).get('r'): return True
        return False
    def external(self, n):
        P = self.P; E = self.E
        d = P.decls[n.f]; nm = d['n']; o = call_obj(n)
        args = call_args(n)
        if nm in UNSAFE_C and o is None and not (d.get('cls')): self.mod({('g:C library state of ' + nm,)}, n, 'calls'); return
        objst = None
        if o is not None:
            objst = self.pt(o) if (n.k == 'CXXMemberCallExpr' and P.is_ptr(o.t)) else self.st(o)
            if d.get('cls') and not d.get('const') and not d.get('static'):
                acc = nm in ACCESS or (nm == 'operator[]' and 'map' not in P.tname(o.t)) or is_mutex(P, o.t)
                if nm in ('operator++', 'operator--', 'operator+=', 'operator-=') : pass
                if not acc: self.mod(objst, n, f'calls {nm} on')
        elif n.k == 'CXXOperatorCallExpr' and n.op in WRITE and n.c: self.mod(self.st(n.c[0]), n, 'assigns')
        # stores into containers
        if o is not None and not d.get('const'):
            c = set()
            for a in args:
                if a is not None and E.ptrbearing(a.t) and not self.readonly(a): c |= self.contents(a)
            if c and nm not in ('erase', 'find', 'count', 'at'): self.store(objst, c)
        if n.k == 'CXXOperatorCallExpr' and n.op == '=' and o is None and n.c: self.store(self.st(n.c[0]), self.contents(n.c[1]))
        if nm == 'swap' and o is not None and args:
            self.store(self.st(args[0]), self.norm(self.contents(o)))
        for i, (a, pt) in enumerate(zip(args, d['pt'])):
            if a is None: continue
            T = P.T(pt)
            if T['k'] == 'ref' and not P.is_const_ref(pt): 
                self.mod(self.st(a), n, f'passes to {nm}, which may change it,')
            elif T['k'] == 'ptr' and not P.T(T['p']).get('const') and P.T(T['p'])['k'] not in ('func',) and nm not in ('reset', 'shared_ptr', 'scoped_ptr', 'push_back', 'insert', 'free', 'operator<<', 'operator>>', 'operator==', 'operator!='):
                if not (o is not None and P.tname(o.t).startswith(('std::', 'boost::'))): self.mod(self.pt(a), n, f'passes to {nm}, which may change it,')
        if o is None and nm in ALGO_MOD and args: self.mod(self.pt(args[0]) if E.ptrlike(args[0].t) else set(), n, f'calls {nm} on')
        if o is None and nm in ALGO_OUT and len(args) > ALGO_OUT[nm]:
            a = args[ALGO_OUT[nm]]
            if E.ptrlike(a.t): self.mod(self.pt(a), n, f'calls {nm} into')

def explain(E, fid, loc, limit=12):
    """call trace from fid to the site that modifies loc"""
    P = E.P; out = []; seen = set()
    cur = (fid, loc)
    while cur and cur not in seen and len(out) < limit:
        seen.add(cur)
        w = E.sum[cur[0]].mods.get(cur[1])
        if w is None: break
        f = P.funcs[w[0]]; n = f.node(w[1])
        out.append((f, n, w[2], cur[1][0]))
        cur = w[3]
    return out

def show(l):
    o = []
    for c in l:
        if isinstance(c, tuple): o.append('local' if c[0] == 'l' else 'object'); continue
        if c.startswith('g:'): c = c[2:]; o.append(short(c)); continue
        o.append(c if c in ('*', '[]', '~') else c.rsplit('::', 1)[-1])
    return '.'.join(o).replace('.*', '->').replace('->.', '->').replace('.[]', '[]').replace('.~', '~')
def trace(E, fid, key):
    return [f'{g.loc(n)}: {short(g.q)} {w} {show(q)}' for g, n, w, q in explain(E, fid, key)]
