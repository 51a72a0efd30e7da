"""Which mutexes are held where."""
from .flow import *
from .paths import path, use_kind
from .prog import CALLS, CTORS

MUTEX = ('boost::mutex', 'boost::shared_mutex', 'boost::recursive_mutex', 'boost::timed_mutex', 'std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'boost::upgrade_mutex', 'boost::shared_timed_mutex')
def is_mutex(P, t): return (P.T(t).get('r') or '') in MUTEX or P.tname(t) in MUTEX
def is_recursive(P, t): return 'recursive' in (P.T(t).get('r') or '')
CONDS = ('boost::condition_variable', 'boost::condition_variable_any', 'std::condition_variable', 'std::condition_variable_any', 'boost::condition')
def is_cond(P, t): return (P.T(t).get('r') or '') in CONDS
XLOCK = ('boost::unique_lock', 'boost::lock_guard', 'std::unique_lock', 'std::lock_guard', 'boost::upgrade_to_unique_lock', 'boost::detail::try_lock_wrapper', 'boost::strict_lock')
SLOCK = ('boost::shared_lock', 'std::shared_lock', 'boost::shared_lock_guard')
ULOCK = ('boost::upgrade_lock',)
def lock_kind(P, t):
    n = P.tname(t)
    if n in XLOCK: return 'X'
    if n in SLOCK: return 'S'
    if n in ULOCK: return 'U'
    return None

class Held(Forward):
    """state: (frozenset of (mutex path, mode, holder), frozenset of false const flags)
    holder: variable id of the lock object, or 'manual'"""
    def __init__(self, P, flags=(), entry=frozenset()):
        self.P = P; self.flags = set(flags); self.entry = entry
    def join(self, a, b): return (a[0] & b[0], a[1] & b[1])
    def mpath(self, n, fn):
        return path(n, fn, self.P)
    def transfer(self, fn, el, st):
        P = self.P; held, fl = st
        if isinstance(el, tuple):
            if el[0] == 'd' and lock_kind(P, fn.vartype(el[1])):
                held = frozenset(h for h in held if h[2] != el[1])
                return (held, fl)
            return st
        if el.k == 'VarDecl' and el.v is not None:
            k = lock_kind(P, el.t)
            if k and el.c:
                args = [a for a in el.c[0].c] if el.c[0].k in CTORS else [el.c[0]]
                if not args: return st
                if len(args) > 1 and 'defer' in P.ts(args[1].t): 
                    self.bind = getattr(self, 'bind', {}); self.bind[(fn.id, el.v)] = (self.mpath(args[0], fn), k); return st
                a = args[0]
                if lock_kind(P, a.t):      # upgrading another lock
                    src = a.v if a.k == 'DeclRefExpr' else None
                    toks = {h[0] for h in held if h[2] == src}
                    return (held | {(t, 'X', el.v) for t in toks}, fl)
                m = self.mpath(a, fn)
                self.bind = getattr(self, 'bind', {}); self.bind[(fn.id, el.v)] = (m, k)
                return (held | {(m or '?', k, el.v)}, fl)
        if el.k == 'CXXMemberCallExpr' and el.f:
            nm = P.decls[el.f]['n']; o = el.c[0]
            if o is not None and nm in ('lock', 'unlock', 'lock_shared', 'unlock_shared', 'lock_upgrade', 'unlock_upgrade', 'release'):
                if lock_kind(P, o.t) and o.k == 'DeclRefExpr':
                    if nm == 'unlock' or nm == 'release': return (frozenset(h for h in held if h[2] != o.v), fl)
                    b = getattr(self, 'bind', {}).get((fn.id, o.v))
                    if b: return (held | {(b[0] or '?', b[1], o.v)}, fl)
                elif is_mutex(P, o.t):
                    m = self.mpath(o, fn) or '?'
                    if nm.startswith('un'): return (frozenset(h for h in held if not (h[0] == m and h[2] == 'manual')), fl)
                    return (held | {(m, 'S' if 'shared' in nm else 'U' if 'upgrade' in nm else 'X', 'manual')}, fl)
        return st
    def edge(self, fn, B, taken, cond, st):
        c, pol = negate(cond)
        if c is None: return st
        if c.k == 'MemberExpr' and c.m in self.flags and taken != pol:
            return (st[0], st[1] | {c.m})
        return st

def all_acquires(P):
    """function id -> set of (mutex field, path of the mutex seen from the function, where) a call may lock (fixpoint over the call graph)"""
    if hasattr(P, '_acq'): return P._acq
    own = {}; calls = {}
    for fn in P.funcs.values():
        out = set(); cs = []
        for n in fn.nodes():
            if n.k == 'VarDecl' and n.v is not None and lock_kind(P, n.t) and n.c:
                args = list(n.c[0].c) if n.c[0].k in CTORS else [n.c[0]]
                if args and not lock_kind(P, args[0].t): out.add((mfield(args[0], P), path(args[0], fn, P), fn.loc(n)))
            elif n.k == 'CXXMemberCallExpr' and n.f and P.decls[n.f]['n'] in ('lock', 'lock_shared', 'lock_upgrade') and n.c[0] is not None and is_mutex(P, n.c[0].t):
                out.add((mfield(n.c[0], P), path(n.c[0], fn, P), fn.loc(n)))
            if n.k in CALLS or n.k in CTORS:
                ts = P.targets(n)
                if ts: cs.append((n, ts))
            elif n.k == 'LambdaExpr' and n.f in P.funcs: cs.append((None, [P.funcs[n.f]]))
        own[fn.id] = out; calls[fn.id] = cs
    res = {i: set(s) for i, s in own.items()}
    changed = True
    while changed:
        changed = False
        for fn in P.funcs.values():
            cur = res[fn.id]; n0 = len(cur)
            for n, ts in calls[fn.id]:
                base = None
                if n is not None:
                    o = call_obj(n); base = path(o, fn, P) if o is not None else None
                for t in ts:
                    for (mf, mp, loc) in list(res[t.id]):
                        if n is None: mp2 = mp
                        elif mp and mp.startswith('this') and base and base.count('.') < 4: mp2 = base + mp[4:]
                        elif mp and mp.startswith('g:'): mp2 = mp
                        else: mp2 = None
                        cur.add((mf, mp2, loc))
            if len(cur) != n0: changed = True
    P._acq = res
    return res

def mfield(n, P):
    while n is not None and n.k == 'UnaryOperator': n = n.c[0]
    if n is None: return '?'
    if n.k == 'MemberExpr' and n.m: return n.m
    if n.k == 'DeclRefExpr': return 'g:' + n.g if n.g else f'{n.fn.id}:v{n.v}'
    return '?'
