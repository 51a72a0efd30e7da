"""Workers leave what they share as it was."""
from ..effects import *
from ..paths import path, single_init, trivial_getter
from ..locks import is_mutex
from .. import vtypes
from .c02 import find_pool

LEVEL = 'other'
EXPLAIN = ('May-modify analysis (access paths, interprocedural, virtual calls resolved by the classes actually stored) of everything a worker task can run: any location reached through a raw '
           'pointer or reference the task was given, and any global, is shared; it may only be modified under an exclusive lock, by a class that owns its lock, or in a mode in which '
           'the program provably runs one thread. The same for the submitting function between its first submit and the wait.')

def getter(P, f):
    g = trivial_getter(P, f)
    return g[1:] if g and g.startswith('.') else g

class OneThread(Forward):
    """per path: is the mode on ('T','F','?'), is the number of threads known to be at most one"""
    def __init__(self, P, mode, cls): self.P = P; self.mode = mode; self.cls = cls; self.at = []; self.depth = 0; self.subids = set()
    def join(self, a, b): return a | b
    def thr(self, n, fn, key):
        n = unwrap(n)
        return n is not None and path(n, fn, self.P) == key
    def transfer(self, fn, el, st):
        if isinstance(el, tuple): return st
        P = self.P; key = self.keys[-1]
        if el.k == 'CXXMemberCallExpr' and el.f in self.subids: self.at.append((fn, el, st))
        if el.k == 'BinaryOperator' and el.op == '=':
            if self.thr(el.c[0], fn, key):
                r = unwrap(el.c[1]); one = r is not None and r.k == 'IntegerLiteral' and r.val <= 1
                return frozenset((m, one) for m, _ in st)
            if self.mode and el.c[0].k == 'MemberExpr' and el.c[0].m == self.mode:
                r = unwrap(el.c[1]); v = ('T' if r.val else 'F') if r is not None and r.k == 'CXXBoolLiteralExpr' else '?'
                return frozenset((v, o) for _, o in st)
        if el.k == 'CXXNewExpr' and self.cls and P.T(P.pointee(el.t)).get('r') == self.cls: return frozenset(('T', o) for _, o in st)
        if el.k in CALLS and self.depth < 4:
            ts = P.targets(el)
            if len(ts) == 1:
                t = ts[0]; nk = None
                if key.startswith('this.') and t.cls == fn.cls and (call_obj(el) is None or call_obj(el).k == 'CXXThisExpr'): nk = key
                for i, a in enumerate(call_args(el)):
                    if a is not None and i < len(t.params) and P.T(t.params[i]['t'])['k'] == 'ref' and self.thr(a, fn, key): nk = f"v{t.params[i]['v']}"
                if nk is not None or self.makes(t):
                    self.keys.append(nk or '?'); self.depth += 1
                    sub = OneThread.__new__(OneThread); sub.__dict__.update(self.__dict__)
                    n, _, _ = Forward.run(sub, t, st)
                    self.keys.pop(); self.depth -= 1
                    return n
        return st
    def makes(self, t):
        return bool(self.cls) and any(n.k == 'CXXNewExpr' and self.P.T(self.P.pointee(n.t)).get('r') == self.cls for n in t.nodes())
    def edge(self, fn, B, taken, cond, st):
        n, pol = negate(cond); val = taken == pol
        P = self.P; n = unwrap(n)
        if n is None: return st
        out = set()
        ismode = self.mode and ((n.k == 'MemberExpr' and n.m == self.mode) or (n.k == 'CXXMemberCallExpr' and getter(P, n.f) == self.mode.rsplit('::', 1)[-1] and P.decls[n.f].get('cls') == self.mode.rsplit('::', 1)[0]))
        if ismode:
            w = 'T' if val else 'F'
            return frozenset((w, o) for m, o in st if m in (w, '?')) or None
        if n.k == 'BinaryOperator' and n.op in ('>', '<', '>=', '<=', '==', '!='):
            l, r, op = unwrap(n.c[0]), unwrap(n.c[1]), n.op
            if l is not None and r is not None and l.k == 'IntegerLiteral': l, r = r, l; op = {'>': '<', '<': '>', '>=': '<=', '<=': '>='}.get(op, op)
            if r is not None and r.k == 'IntegerLiteral' and self.thr(l, fn, self.keys[-1]):
                k = r.val
                le1 = {'>': not val and k <= 1, '>=': not val and k <= 2, '<': val and k <= 2, '<=': val and k <= 1, '==': val and k <= 1, '!=': not val and k <= 1}[op]
                gt1 = {'>': val and k >= 1, '>=': val and k >= 2, '<': not val and k >= 2, '<=': not val and k >= 1, '==': val and k >= 2, '!=': not val and k >= 2}[op]
                if le1: return frozenset((m, True) for m, o in st)
                if gt1: return frozenset((m, o) for m, o in st if not o) or None
        return st
    def go(self, fn, key, init):
        self.keys = [key]
        return self.run(fn, init)

def run(P, R, tier):
    vtypes.install(P)
    rec, _, _ = find_pool(P)
    R.need(rec is not None, 'the class that owns the task queue')
    if rec is None: return
    subids = {m['id'] for m in rec['methods'] if m['id'] in P.funcs and any('Task *' in P.ts(t) for t in P.decls[m['id']]['pt'])}
    stopids = {f.id for f in P.funcs.values() if f.cls == rec['R'] and any(n.k in CALLS and n.f and P.decls[n.f]['n'] in ('join_all', 'join', 'wait') for n in f.nodes()) or (f.cls == rec['R'] and f.name in ('Stop', 'Wait'))}
    base = 'travatar::Task'
    tasks = sorted(c for c in P.subclasses(base) if P.find_method(c, 'Run'))
    R.need(bool(tasks), 'task classes')
    subfuncs = [(f, [n for n in f.nodes() if n.k == 'CXXMemberCallExpr' and n.f in subids]) for f in P.funcs.values() if f.cls != rec['R']]
    subfuncs = [(f, s) for f, s in subfuncs if s]
    def makers(c):
        out = []
        for f, s in subfuncs:
            if any(n.k == 'CXXNewExpr' and P.T(P.pointee(n.t)).get('r') == c for n in f.nodes()): out.append(f); continue
            hs = [t for n in f.nodes() if n.k in CALLS for t in P.targets(n)]
            if any(n.k == 'CXXNewExpr' and P.T(P.pointee(n.t)).get('r') == c for h in hs for n in h.nodes()): out.append(f)
        return out
    def pool_threads(f):
        ks = set()
        for n in f.nodes():
            if n.k in CTORS and P.rec_of(n.t) == rec['R'] and n.c: ks.add(path(unwrap(n.c[0]), f, P))
        return ks
    def one_thread(c, mode=None, cls=None):
        """in every function that submits tasks of class c, the mode is never on with several threads"""
        ms = makers(c)
        if not ms: return False
        for f in ms:
            ks = pool_threads(f)
            if len(ks) != 1 or None in ks: return False
            A = OneThread(P, mode, cls); A.subids = subids
            A.go(f, ks.pop(), frozenset([('?' if mode else 'F', False)]))
            A2 = A.at
            if not A2 or any(m != 'F' and not o for _, _, st in A2 for m, o in st): return False
        return True
    # modes: boolean settings a task consults through what it shares
    E = Effects(P)
    fields_shared = {}
    modes = {}
    scope = set(); st = [f.id for c in tasks for f in P.find_method(c, 'Run')]
    while st:
        x = st.pop()
        if x in scope: continue
        scope.add(x); st.extend(E.callees[x])
    cand = {}
    for i in scope:
        f = P.funcs[i]
        for b in f.cfg.values():
            if b.cond is None: continue
            for n in b.cond.walk():
                m = None
                if n.k == 'MemberExpr' and n.m in P.fields and P.T(n.t)['k'] == 'bool': m = n.m
                elif n.k == 'CXXMemberCallExpr' and n.f in P.funcs:
                    g = getter(P, n.f)
                    if g and '.' not in g and not g.startswith('g:') and P.T(P.decls[n.f]['rt'])['k'] == 'bool': m = P.decls[n.f]['cls'] + '::' + g
                if m: cand.setdefault(m, set()).add(f.id)
    # only modes of classes that create the tasks are decided there
    for m, fs in sorted(cand.items()):
        cls = m.rsplit('::', 1)[0]
        ok = []
        for c in tasks:
            if any(f.cls == cls for f in makers(c)): ok.append(one_thread(c, mode=m))
        if ok and all(ok): modes[m] = fs
    R.set('one_thread_modes', len(modes))
    for m, fs in modes.items():
        R.sample(f'never on with several threads: {short(m)}')
        for fid in fs:
            f = P.funcs[fid]
            A = OneThread(P, m, None); A.keys = ['?']; A.depth = 99
            def visit(fn, b, el, s):
                if not isinstance(el, tuple) and s and all(x == 'T' for x, _ in s): E.skip.setdefault(fid, set()).add(el.i)
            A.run(f, frozenset([('?', False)]), visit)
    from .c01 import guarded_members
    guarded = guarded_members(P)
    def lockdecided(loc, tg):
        return any(c in guarded or (c in P.fields and is_mutex(P, P.fields[c][1]['t'])) for c in loc + (tg,))
    E.solve(sorted(f.id for c in tasks for f in P.find_method(c, 'Run')))
    R.set('functions_run_by_tasks', len(E.scope)); R.set('task_classes', len(tasks))
    R.rule('a location shared between tasks (reached through a pointer or reference member of the task, or global) is not modified by what a task runs, unless under an exclusive lock or by a class with its own lock')
    exclus = {}
    for c in tasks:
        for f in P.find_method(c, 'Run'):
            nm = 0
            for key in sorted(E.sum[f.id].mods, key=str):
                loc, tg = key; nm += 1
                cls = tg.rsplit('::', 1)[0] if tg and '::' in tg else None
                if loc[0].startswith('g:'):
                    if loc[0][2:] in STREAMS: continue
                    if lockdecided(loc, tg): R.count('left_to_the_lock_check'); continue
                    k = f'{short(c)}|{show(loc)}'
                    what = f'{show(loc)} (global)'
                elif loc[0] == 'this' and len(loc) > 2 and loc[2] == '*' and loc[1] in P.fields:
                    ft = P.T(P.fields[loc[1]][1]['t'])
                    if ft['k'] not in ('ptr', 'ref'): continue            # the task's own, by value or smart pointer
                    if lockdecided(loc, tg): R.count('left_to_the_lock_check'); continue
                    if cls:
                        if cls not in exclus: exclus[cls] = {}
                        if c not in exclus[cls]: exclus[cls][c] = one_thread(c, cls=cls) if any(n.k == 'CXXNewExpr' and P.T(P.pointee(n.t)).get('r') == cls for g in makers(c) for h in [g] + [t for n in g.nodes() if n.k in CALLS for t in P.targets(n)] for n in h.nodes()) else False
                        if exclus[cls][c]:
                            R.sample(f'{short(cls)} objects are only tuned by one task at a time'); R.count('one_thread_classes'); continue
                    k = f'{short(c)}|{show(loc[:3] + (loc[3:4] if len(loc) > 3 else ()))}|{short(tg or "")}'
                    what = f'{show(loc)}' + (f' ({short(tg)})' if tg else '')
                else: continue
                R.violation(k, f'{short(c)}::Run, which runs in several threads at once, can modify the shared {what}', f.loc(), trace(E, f.id, key))
            R.count('modified_locations_examined', nm)
    # the submitting function, while tasks may be running
    R.rule('between the first submit and the wait, the submitting function does not modify what it handed to the tasks, nor the fields of its own object they reach')
    for f, subs in subfuncs:
        E.solve([f.id])
        cfg = f.cfg
        start = set()
        after = set()
        # nodes reachable from a submit without passing a stop
        blk = {}
        for b, B in cfg.items():
            for i, el in enumerate(B.els):
                if not isinstance(el, tuple): blk[el.i] = (b, i)
        work = []; seen = set(); region = []
        for s in subs:
            if s.i in blk: work.append((blk[s.i][0], blk[s.i][1] + 1))
        while work:
            b, i = work.pop()
            stop = False
            for j in range(i, len(cfg[b].els)):
                el = cfg[b].els[j]
                if isinstance(el, tuple): continue
                if el.k == 'CXXMemberCallExpr' and el.f in stopids: stop = True; break
                region.append(el)
            if stop: continue
            for s2 in cfg[b].succ:
                if s2 in cfg and s2 not in seen: seen.add(s2); work.append((s2, 0))
        L = Local(E, f); L.run()
        shared = set()
        for n in f.nodes():
            if n.k in CTORS and P.rec_of(n.t) in tasks and n.f in P.decls:
                for a, pt in zip(n.c, P.decls[n.f]['pt']):
                    if a is None: continue
                    k = P.T(pt)['k']
                    if k == 'ptr': shared |= L.norm(L.pt(a))
                    elif k == 'ref' and not P.is_const_ref(pt): shared |= L.norm(L.st(a))
        region = [n for n in region if not (n.k == 'CXXMemberCallExpr' and (n.f in subids or any(t.cls in tasks and t.name == 'Run' for t in P.targets(n))))]
        S = L.region(region)
        R.count('submit_regions'); R.count('statements_while_tasks_run', len(region)); R.count('objects_handed_to_tasks', len(shared))
        acc = reads(P, E, tasks)
        for (loc, tg), w in sorted(S.mods.items(), key=str):
            cls = tg.rsplit('::', 1)[0] if tg and '::' in tg else None
            if lockdecided(loc, tg): continue
            if isinstance(loc[0], str) and loc[0].startswith('g:'): continue
            if not any(loc[:len(s)] == s for s in shared): continue
            if loc[0] == 'this' and tg and tg not in acc: continue        # a field of the submitter no task looks at
            n = f.node(w[1])
            R.violation(f'{f.q}|{show(loc)}|while tasks run', f'{short(f.q)} modifies {show(loc)}, which its tasks share, while they may be running', f.loc(n))

def reads(P, E, tasks):
    """fields anything the tasks run mentions"""
    c = getattr(P, '_c04reads', None)
    if c is None:
        c = P._c04reads = set(); scope = set(); st = [f.id for k in tasks for f in P.find_method(k, 'Run')]
        while st:
            x = st.pop()
            if x in scope: continue
            scope.add(x); st.extend(E.callees[x])
            for n in P.funcs[x].nodes():
                if n.k == 'MemberExpr' and n.m: c.add(n.m)
    return c
