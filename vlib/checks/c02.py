"""Thread pool protocol."""
from ..flow import *
from ..locks import *
from ..inline import Configs
from ..paths import path, use_kind, single_init
from ..prog import short, SMART

LEVEL = 'other'
EXPLAIN = ('Typestate over the control-flow graphs of the thread pool\'s methods (helpers inlined, one configuration per distinguishable path): the '
           'life of a task from queue to deletion, the conditions a wait is guarded by and re-tested against, and which condition variables must be '
           'notified after which state change; plus the submit/stop protocol of every function that uses a pool.')

def find_pool(P):
    for rec in P.recs.values():
        if not rec.get('repo'): continue
        q = [f for f in rec['fields'] if 'travatar::Task *' in P.ts(f['t']) and P.T(f['t'])['k'] == 'rec' and P.tname(f['t']) in ('std::queue', 'std::deque', 'std::list', 'std::vector')]
        cv = [f for f in rec['fields'] if is_cond(P, f['t'])]
        if q and cv: return rec, q[0], cv
    return None, None, None

def strip_this(n):
    return n.m if n is not None and n.k == 'MemberExpr' and n.c and n.c[0] is not None and n.c[0].k == 'CXXThisExpr' else None

PUSH = {'push', 'push_back', 'emplace', 'emplace_back', 'push_front', 'insert'}
POP = {'pop', 'pop_front', 'pop_back', 'erase', 'clear'}
FRONT = {'front', 'back', 'top', 'at'}

def atoms(n, pol, out):
    """(leaf, polarity) pairs of a boolean expression"""
    if n is None: return
    if n.k == 'UnaryOperator' and n.op == '!': atoms(n.c[0], not pol, out)
    elif n.k == 'BinaryOperator' and n.op in ('&&', '||'): atoms(n.c[0], pol, out); atoms(n.c[1], pol, out)
    else: out.append((n, pol))

class Pool:
    def __init__(self, P, rec, q, cvs):
        self.P = P; self.rec = rec; self.q = q['id']; self.cvs = {c['id']: c['n'] for c in cvs}
        self.flags = {f['id']: f['n'] for f in rec['fields'] if P.T(f['t'])['k'] == 'bool'}
        self.ints = {f['id']: f['n'] for f in rec['fields'] if P.T(f['t'])['k'] == 'int'}
        self.methods = [P.funcs[m['id']] for m in rec['methods'] if m['id'] in P.funcs]
        self.state = {self.q} | set(self.flags) | set(self.ints)
        entries = set()
        for f in P.funcs.values():
            for n in f.nodes():
                if n.k == 'DeclRefExpr' and n.f in P.funcs and P.funcs[n.f].cls == rec['R']: entries.add(n.f)
                if n.k == 'LambdaExpr' and f.cls == rec['R'] and n.f in P.funcs:
                    for x in P.funcs[n.f].nodes():
                        if x.k == 'CXXMemberCallExpr' and x.f in P.funcs and P.funcs[x.f].cls == rec['R'] and f.isctor: entries.add(x.f)
        self.entries = [P.funcs[e] for e in entries]
        # written flags: constant after construction or not
        self.setters = {}
        for f in self.methods:
            if f.isctor: continue
            for n in f.nodes():
                if n.k == 'BinaryOperator' and n.op == '=' and strip_this(n.c[0]) in self.flags:
                    self.setters.setdefault(strip_this(n.c[0]), []).append((f, n))
    def atom_kind(self, n, pol):
        """what waiting while (n is pol) waits for: ('grow',), ('shrink',), ('flag', id, value that ends the wait), ('count', field)"""
        P = self.P
        if n.k == 'CXXMemberCallExpr' and strip_this(n.c[0]) == self.q and n.f and P.decls[n.f]['n'] == 'empty': return ('grow',) if pol else ('shrink',)
        if n.k == 'CXXMemberCallExpr' and strip_this(n.c[0]) == self.q and n.f and P.decls[n.f]['n'] == 'size': return ('shrink',) if pol else ('grow',)
        if n.k == 'BinaryOperator' and n.op in ('<', '>', '<=', '>=', '==', '!='):
            l, r = unwrap(n.c[0]), unwrap(n.c[1]); op = n.op
            if self.is_size(r): l, r = r, l; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if self.is_size(l):
                big = op in ('>', '>=', '!=')
                return ('shrink',) if big == pol else ('grow',)
            for x in (l, r):
                if strip_this(x) in self.ints: return ('count', strip_this(x))
        f = strip_this(n)
        if f in self.flags: return ('flag', f, not pol)
        return None
    def is_size(self, n):
        n = unwrap(n)
        return n is not None and n.k == 'CXXMemberCallExpr' and strip_this(n.c[0]) == self.q and n.f and self.P.decls[n.f]['n'] == 'size'
    def waits(self):
        """[(fn, node, cv, kinds waited for, has predicate)]"""
        P = self.P; out = []
        for f in self.methods:
            for n in f.nodes():
                if n.k == 'CXXMemberCallExpr' and n.f and P.decls[n.f]['n'] in ('wait', 'timed_wait', 'wait_for', 'wait_until') and strip_this(n.c[0]) in self.cvs:
                    out.append((f, n, strip_this(n.c[0]), self.guards(f, n), len(call_args(n)) > 1))
        return out
    def guards(self, f, n, depth=0):
        kinds = set(); P = self.P
        args = call_args(n)
        if len(args) > 1 and depth == 0:
            for x in args[1].walk():
                if x.k == 'LambdaExpr' and x.f in P.funcs:
                    for r in P.funcs[x.f].nodes():
                        if r.k == 'ReturnStmt' and r.c:
                            al = []; atoms(r.c[0], False, al)
                            kinds |= {k for k in (self.atom_kind(a, p) for a, p in al) if k}
        child = n
        for a in n.ancestors():
            cond = None; pol = True
            if a.k == 'IfStmt':
                i = 1 if a.get('cvd') else 0
                cond = a.c[i]
                if child is cond: cond = None
                elif a.get('else') and child is a.c[-1]: pol = False
            elif a.k == 'WhileStmt': cond = a.c[0] if child is not a.c[0] else None
            elif a.k == 'DoStmt': cond = a.c[1] if child is not a.c[1] else None
            elif a.k == 'ForStmt': cond = a.c[1] if child is not a.c[1] else None
            if cond is not None:
                al = []; atoms(cond, pol, al)
                kinds |= {k for k in (self.atom_kind(x, p) for x, p in al) if k}
                if kinds: break
            if a.k == 'CompoundStmt':
                # an earlier `if(c) break;`/`continue`/return that guards this statement
                for s in a.c:
                    if s is child: break
                    if s is not None and s.k == 'IfStmt' and not s.get('else') and any(x.k in ('BreakStmt', 'ReturnStmt', 'ContinueStmt') for x in s.c[-1].walk()):
                        al = []; atoms(s.c[0], False, al)
                        kinds |= {k for k in (self.atom_kind(x, p) for x, p in al) if k}
            child = a
        if not kinds and depth < 2:
            for g in self.methods:
                for m in g.nodes():
                    if m.k == 'CXXMemberCallExpr' and m.f == f.id: kinds |= self.guards(g, m, depth + 1)
        return kinds

# configuration: tuple (q, st, hold, known, alias, pend, tst, aw, push, lockgen)
#  q: None/'ne'/'em' knowledge about the queue;   st: N F P R D   status of the task taken
#  hold: frozenset of (fn,var) naming the task;  known: frozenset of (flag, value) observed
#  alias: frozenset of ((fn,var), flag, polarity);  pend: frozenset of (cv, all-needed?) owed
#  tst: guarded state read since the lock was taken;  aw: woken and not re-tested
#  push: number of times the submitted task was queued (0,1,2)
class C:
    __slots__ = ()
from collections import namedtuple
Conf = namedtuple('Conf', 'q st hold known alias pend tst aw push joined locked')
INIT = Conf(None, 'N', frozenset(), frozenset(), frozenset(), frozenset(), False, False, 0, False, 0)

class Proto(Configs):
    def __init__(self, P, pool, R, owed, sticky):
        Configs.__init__(self, P); self.pool = pool; self.R = R; self.owed = owed; self.sticky = sticky
        self.root = None; self.report = []
    def viol(self, key, msg, fn, el):
        self.report.append((f'{fn.q}|{key}', f'{short(fn.q)} {msg}', fn.loc(el)))
    def dropq(self, c, released=True):
        known = frozenset(k for k in c.known if k in self.sticky or not released or k[0] not in self.pool.flags)
        q = c.q if (c.q == 'em' and self.stopping(c)) else None
        return c._replace(q=q, known=known)
    def stopping(self, c): return any(v for (f, v) in c.known if f in self.stopflags and v)
    def finish_task(self, fn, el, c, why):
        if c.st == 'P': self.viol('task lost', f'can drop a task it took from the queue without running it ({why})', fn, el)
        elif c.st == 'F': pass
        elif c.st == 'R':
            d = self.flagval(c, self.delflag)
            if self.delflag and d is not False: self.viol('task leaked', f'can forget a task it ran without deleting it while the pool owns its tasks ({why})', fn, el)
        return c._replace(st='N', hold=frozenset())
    def flagval(self, c, flag):
        kn = dict(c.known)
        if flag in kn: return kn[flag]
        for (v, fl, p) in c.alias:
            if fl == flag and v in kn: return kn[v] == p
        return None
    def flag_of(self, fn, n, c):
        """(flag, polarity) when n reads a flag or a local copy of one"""
        n0, pol = negate(unwrap(n)); n0 = unwrap(n0)
        if n0 is None: return None
        f = strip_this(n0)
        if f in self.pool.flags: return (f, pol)
        if n0.k == 'DeclRefExpr' and n0.v is not None:
            for (v, fl, p) in c.alias:
                if v == (fn.id, n0.v): return (fl, p == pol)
        return None
    def step(self, fn, el, c):
        P = self.P; pool = self.pool
        if isinstance(el, tuple):
            if el[0] == 'd' and lock_kind(P, fn.vartype(el[1])):
                return [self.dropq(c)._replace(tst=False, locked=max(0, c.locked - 1))]
            return [c]
        k = el.k
        if k == 'MemberExpr' and strip_this(el) in pool.state and self.readish(el):
            c = c._replace(tst=True, aw=False)
            return [c]
        if k == 'VarDecl':
            if lock_kind(P, el.t): return [c._replace(tst=False, locked=c.locked + 1)]
            v = (fn.id, el.v)
            if v in c.hold:
                c = self.finish_task(fn, el, c, 'its variable is set again')
            if el.c: return [self.assign(fn, el, v, el.c[0], c)]
            return [c]
        if k == 'BinaryOperator' and el.op == '=':
            l = el.c[0]
            if l.k == 'DeclRefExpr' and l.v is not None:
                v = (fn.id, l.v)
                r = el.c[1]
                if v in c.hold and c.st in ('P', 'R') and not self.names_task(fn, r, c): c = self.finish_task(fn, el, c, 'its variable is set again')
                return [self.assign(fn, el, v, r, c)]
            f = strip_this(l)
            if f in pool.flags:
                if c.aw: self.viol('stale wake-up', f'acts on shared state after a wait without testing it again', fn, el)
                r = unwrap(el.c[1])
                val = bool(r.val) if r is not None and r.k in ('CXXBoolLiteralExpr', 'IntegerLiteral') else None
                if val is True:
                    if f in self.exitflags: self.on_stop(fn, el, c)
                    c = c._replace(known=frozenset(x for x in c.known if x[0] != f) | {(f, True)})
                    c = c._replace(pend=c.pend | frozenset(self.owed.get(('flag', f, True), ())))
                elif val is False: c = c._replace(known=frozenset(x for x in c.known if x[0] != f) | {(f, False)})
                else: c = c._replace(known=frozenset(x for x in c.known if x[0] != f))
                return [c]
            return [c]
        if (k == 'UnaryOperator' and el.op in ('++', '--')) or k == 'CompoundAssignOperator':
            f = strip_this(el.c[0])
            if f in pool.ints:
                if c.aw: self.viol('stale wake-up', 'acts on shared state after a wait without testing it again', fn, el)
                if el.op in ('--', '-='): c = c._replace(pend=c.pend | frozenset(self.owed.get(('count', f), ())))
            return [c]
        if k == 'CXXDeleteExpr':
            if self.names_task(fn, el.c[0], c):
                if c.st in ('P', 'F'): self.viol('deleted unrun', 'deletes a task before running it', fn, el)
                if c.st == 'D': self.viol('deleted twice', 'deletes a task twice', fn, el)
                if c.st != 'N' and self.delflag and self.flagval(c, self.delflag) is not True: self.viol('deleted unowned', 'deletes a task although the pool may not own its tasks', fn, el)
                if c.st != 'N': c = c._replace(st='D')
            return [c]
        if k in CALLS and el.f:
            d = P.decls[el.f]; nm = d['n']
            o = call_obj(el); of = strip_this(o)
            if of == pool.q and el.f not in P.funcs:
                if nm in PUSH:
                    if c.aw: self.viol('stale wake-up', 'queues a task after a wait without testing the state again', fn, el)
                    a = call_args(el)
                    if self.submit and a and not any(f[0] == 'seen' and f[1] in self.stopflags and v is False for f, v in c.known):
                        self.viol('accepts while stopping', 'accepts a task without having seen, under the lock, that the pool is not stopping', fn, el)
                    c = c._replace(push=min(2, c.push + 1), q='ne', pend=c.pend | frozenset(self.owed.get(('grow',), ())))
                elif nm in FRONT:
                    if c.q != 'ne': self.viol('empty queue', 'takes a task from a queue that may be empty', fn, el)
                    if c.st == 'P': self.viol('task lost', 'takes another task before running the one it took', fn, el)
                    c = c._replace(aw=False)
                elif nm in POP:
                    if c.aw: self.viol('stale wake-up', 'removes a task after a wait without testing the state again', fn, el)
                    if c.q != 'ne' and nm != 'clear': self.viol('empty queue', 'removes a task from a queue that may be empty', fn, el)
                    if c.st == 'F': c = c._replace(st='P')
                    elif not (fn.isdtor): self.viol('task lost', 'removes a task from the queue that nothing will run', fn, el)
                    c = c._replace(q=None, pend=c.pend | frozenset(self.owed.get(('shrink',), ())))
                return [c]
            if of in pool.cvs:
                if nm in ('notify_all', 'notify_one'):
                    return [c._replace(pend=frozenset(p for p in c.pend if not (p[0] == of and (nm == 'notify_all' or not p[1]))))]
                if nm in ('wait', 'timed_wait', 'wait_for', 'wait_until'):
                    pred = len(call_args(el)) > 1
                    if not c.locked: self.viol('wait unlocked', 'waits on a condition without holding the lock', fn, el)
                    if not pred and not c.tst: self.viol('lost wake-up', 'waits without having tested the condition since it took the lock, so it can miss the wake-up', fn, el)
                    owed = c.pend
                    if owed: self.viol('no notify', f'waits while {sorted(pool.cvs[p[0]] for p in owed)} still has to be notified', fn, el)
                    c = self.dropq(c)
                    return [c._replace(tst=True if pred else False, aw=not pred, q=None if not pred else c.q)]
            if el.k == 'CXXMemberCallExpr' and o is not None and nm in ('lock', 'unlock') and (lock_kind(P, o.t) or is_mutex(P, o.t)):
                if nm == 'lock': return [c._replace(tst=False, locked=c.locked + 1)]
                return [self.dropq(c)._replace(tst=False, locked=max(0, c.locked - 1))]
            if nm in ('join_all', 'join') and 'thread' in (d.get('cls') or ''):
                if not any(f in self.exitflags and v for f, v in c.known): self.viol('join unstopped', 'joins the workers without having told them to stop', fn, el)
                left = [pool.cvs[p[0]] for p in c.pend]
                if left: self.viol('no notify', f'joins the workers while {sorted(left)} still has to be notified', fn, el)
                return [c._replace(joined=True)]
            if el.k == 'CXXMemberCallExpr' and o is not None and self.names_task(fn, o, c) and (el.get('virt') and nm == 'Run'):
                if c.st == 'R': self.viol('ran twice', 'runs a task twice', fn, el)
                if c.st == 'D': self.viol('ran deleted', 'runs a task it deleted', fn, el)
                if c.st == 'F': self.viol('ran queued', 'runs a task that is still in the queue', fn, el)
                if c.locked: self.viol('ran locked', 'runs a task while holding the lock', fn, el)
                if c.st == 'N': self.viol('ran none', 'runs a task it did not take from the queue', fn, el)
                return [c._replace(st='R')]
            # inline helpers of the pool
            ts = P.targets(el)
            if len(ts) == 1 and (ts[0].cls == pool.rec['R'] or ts[0].islambda or any(self.names_task(fn, a, c) for a in call_args(el) if a is not None)) and ts[0].cfg and ts[0] is not fn:
                t = ts[0]
                hold = set(c.hold)
                alias = set(c.alias)
                for a, p in zip(call_args(el), t.params):
                    if self.names_task(fn, a, c): hold.add((t.id, p['v']))
                    fl = self.flag_of(fn, a, c) if a is not None and P.T(P.strip_ref(a.t))['k'] == 'bool' else None
                    if fl: alias.add(((t.id, p['v']), fl[0], fl[1]))
                inner = c._replace(hold=frozenset(hold), alias=frozenset(alias))
                res = self.inline_configs(fn, el, t, frozenset([inner]))
                out = []
                for r in res:
                    ret = ('ret', t.id) in r.hold
                    h = frozenset(x for x in r.hold if x[0] != t.id and x != ('ret', t.id)) | (frozenset([('call', (fn.id, el.i))]) if ret else frozenset())
                    out.append(r._replace(hold=h, alias=frozenset(x for x in r.alias if x[0][0] != t.id)))
                return out
            if nm in ('back',): pass
        if k == 'ReturnStmt' and el.c:
            if self.names_task(fn, el.c[0], c): return [c._replace(hold=c.hold | {('ret', fn.id)})]
        return [c]
    def readish(self, n):
        u = use_kind(n, self.P)
        if n.m == self.pool.q:
            p = n.p
            return p is not None and p.k == 'CXXMemberCallExpr' and p.f and self.P.decls[p.f]['n'] in ('empty', 'size')
        return u == 'r'
    def names_task(self, fn, n, c):
        n = unwrap(n)
        if n is None: return False
        if n.k == 'UnaryOperator' and n.op == '*': n = unwrap(n.c[0])
        if n.k == 'DeclRefExpr' and n.v is not None: return (fn.id, n.v) in c.hold
        if n.k in CALLS: return ('call', (fn.id, n.i)) in c.hold
        return False
    def assign(self, fn, el, v, rhs, c):
        P = self.P; pool = self.pool
        r = unwrap(rhs)
        alias = frozenset(a for a in c.alias if a[0] != v)
        c = c._replace(alias=alias, known=frozenset(x for x in c.known if x[0] != v))
        hold = c.hold - {v}
        if r is not None and P.T(P.strip_ref(fn.vartype(v[1])))['k'] == 'bool':
            lit = bool(r.val) if r.k in ('CXXBoolLiteralExpr', 'IntegerLiteral') else None
            fl = self.flag_of(fn, r, c)
            if fl:
                c = c._replace(alias=c.alias | {(v, fl[0], fl[1])})
                fv = dict(c.known).get(fl[0])
                if fv is not None: lit = fv == fl[1]
            if lit is not None: c = c._replace(known=c.known | {(v, lit)})
            return c
        if r is not None:
            if r.k in CALLS and r.f and strip_this(call_obj(r)) == pool.q and P.decls[r.f]['n'] in FRONT:
                return c._replace(st='F', hold=frozenset([v]))
            if self.names_task(fn, r, c): return c._replace(hold=c.hold | {v})
        if not hold and c.hold: return c._replace(hold=hold, st='N') if c.st in ('N', 'D', 'F') else c._replace(hold=hold)
        return c._replace(hold=hold)
    def on_stop(self, fn, el, c):
        if self.drain is not None:
            # tasks may only be abandoned when the caller asked for it
            asked = None
            for (v, val) in c.known:
                if v == self.drain: asked = val
            if asked is not False and c.q != 'em' and not any(f in self.exitflags and v for f, v in c.known):
                self.viol('stops early', 'can tell the workers to stop while tasks the caller wants processed are still queued', fn, el)
    def branch(self, fn, cond, val, c):
        P = self.P; pool = self.pool
        n = unwrap(cond)
        if n is None: return c
        # queue emptiness
        kind = pool.atom_kind(n, val)
        if kind == ('grow',) or kind == ('shrink',):
            lit = None
            if n.k == 'BinaryOperator':
                o = [unwrap(x) for x in n.c]
                lit = next((x.val for x in o if x is not None and x.k == 'IntegerLiteral'), None)
                if lit != 0 and not (lit == 1 and n.op in ('>=', '<')): return c
            return c._replace(q='em' if kind == ('grow',) else 'ne')
        # the task variable
        m, pol = n, True
        if n.k == 'BinaryOperator' and n.op in ('==', '!='):
            a, b = unwrap(n.c[0]), unwrap(n.c[1])
            isnull = lambda x: x is not None and (x.k in ('GNUNullExpr', 'CXXNullPtrLiteralExpr') or (x.k == 'IntegerLiteral' and x.val == 0))
            if isnull(b): m, pol = a, n.op == '!='
            elif isnull(a): m, pol = b, n.op == '!='
        if m is not None and P.is_ptr(m.t) and m.k == 'DeclRefExpr' and m.v is not None and 'Task' in P.ts(m.t):
            truth = val if pol else not val
            has = (fn.id, m.v) in c.hold and c.st != 'N'
            if truth != has: return None
            return c
        if n.k == 'DeclRefExpr' and n.v is not None and P.T(P.strip_ref(n.t))['k'] == 'bool':
            key = (fn.id, n.v)
            kn = dict(c.known)
            if key in kn: return c if kn[key] == val else None
            c = c._replace(known=c.known | {(key, val)})
            for (v, fl, p) in c.alias:
                if v == key:
                    fv = val == p
                    if (fl, fv) in self.sticky: c = c._replace(known=frozenset(x for x in c.known if x[0] != fl) | {(fl, fv)})
                    elif (fl, not fv) in self.sticky and (fl, not fv) in c.known and False: return None
            return c
        f = strip_this(n)
        if f in pool.flags:
            if (f, not val) in self.sticky and (f, not val) in c.known: return None
            known = frozenset(x for x in c.known if x[0] not in (f, ('seen', f))) | {(f, val), (('seen', f), val)}
            return c._replace(known=known, aw=False, tst=True)
        return c

def run(P, R, tier):
    R.rule('a task leaves the queue only when the queue is known to be non-empty; every task taken is run exactly once, outside the lock, and deleted exactly when the pool owns it')
    R.rule('a worker ends only after it has seen the stop flag')
    R.rule('every wait is guarded by a test made under the same lock and re-tested after waking; every state change is followed by the notification the waiters need')
    R.rule('Submit queues its task once and refuses while stopping; Stop(true) drains, sets the flag, notifies and joins')
    R.rule('every function that submits to a pool stops it, waiting for the tasks, before it returns')
    rec, q, cvs = find_pool(P)
    R.need(rec is not None, 'no class holds a queue of tasks and condition variables')
    if rec is None: return
    pool = Pool(P, rec, q, cvs)
    R.need(bool(pool.entries), 'no method of the pool is run by its threads')
    ws = pool.waits()
    R.set('waits', len(ws)); R.set('methods', len(pool.methods)); R.set('thread_entry_functions', len(pool.entries))
    # which condition variables each kind of change must notify
    owed = {}
    percv = {}
    for f, n, cv, kinds, pred in ws:
        percv.setdefault(cv, []).append((f, kinds))
        for k in kinds:
            if k[0] in ('grow', 'shrink'): owed.setdefault(k, set()).add(cv)
            elif k[0] == 'count': owed.setdefault(k, set()).add(cv)
            elif k[0] == 'flag' and (f in pool.entries or any(f.id == m.f for e in pool.entries for m in e.nodes() if m.k == 'CXXMemberCallExpr')): owed.setdefault(k, set()).add(cv)
    # notify_one suffices only for "one more task" on a variable all of whose waiters wait for just that
    def all_needed(k, cv):
        return not (k == ('grow',) and all(('grow',) in ks for f, ks in percv[cv]) and all(f in pool.entries for f, ks in percv[cv]))
    owed2 = {k: {(cv, all_needed(k, cv)) for cv in s} for k, s in owed.items()}
    for k, s in owed2.items(): R.sample(f'{k[0]}{" " + short(k[1]) if len(k) > 1 else ""} must notify {sorted(pool.cvs[c] for c, a in s)}')
    # flags never reset after being set
    sticky = set()
    for f, sets in pool.setters.items():
        vals = [unwrap(n.c[1]) for _, n in sets]
        if all(v is not None and v.k == 'CXXBoolLiteralExpr' and v.val for v in vals): sticky.add((f, True))
    joiners = [f for f in pool.methods if any(n.k == 'CXXMemberCallExpr' and n.f and P.decls[n.f]['n'] in ('join_all', 'join') and 'thread' in (P.decls[n.f].get('cls') or '') for n in f.nodes())]
    exitflags = set()
    for e in pool.entries:
        for n in e.nodes():
            f = strip_this(n)
            if f in pool.flags and (f, True) in sticky: exitflags.add(f)
        for n in e.nodes():
            if n.k == 'CXXMemberCallExpr' and n.f in P.funcs and P.funcs[n.f].cls == rec['R']:
                for x in P.funcs[n.f].nodes():
                    if strip_this(x) in pool.flags and (strip_this(x), True) in sticky: exitflags.add(strip_this(x))
    stopflags = {f for f, v in sticky}
    R.need(bool(exitflags), 'the worker loop reads no stop flag')
    # the ownership flag: the flag read by a thread entry function which has a setter taking a parameter
    delflag = None
    for f, sets in pool.setters.items():
        if any(unwrap(n.c[1]) is not None and unwrap(n.c[1]).k == 'DeclRefExpr' for _, n in sets): delflag = f
    submitters = [f for f in pool.methods if not f.isctor and any(n.k == 'CXXMemberCallExpr' and strip_this(n.c[0]) == pool.q and n.f and P.decls[n.f]['n'] in PUSH for n in f.nodes())]
    def publicm(f): 
        for m in rec['methods']:
            if m['id'] == f.id: return m['acc'] == 0
        return False
    # submit may go through helpers: public methods with a Task* parameter
    subm = [f for f in pool.methods if publicm(f) and any('Task *' in P.ts(p['t']) for p in f.params)]
    R.need(bool(subm), 'the pool has no way to submit a task')
    def analyse(fn, submit=False, drain=None, entry=False):
        A = Proto(P, pool, R, owed2, sticky); A.delflag = delflag; A.exitflags = exitflags; A.stopflags = stopflags
        A.submit = submit; A.drain = drain
        n, t, _ = A.run(fn, frozenset([INIT]))
        R.count('configurations', sum(len(s) for s in A.ins.values() if s))
        for c in n or ():
            el = fn.body
            if entry:
                A.finish_task(fn, el, c, 'it returns')
                if not any(f in exitflags and v for f, v in c.known): A.viol('worker ends', 'can end without having seen the stop flag', fn, el)
            if c.pend: A.viol('no notify', f'can return while {sorted(pool.cvs[p[0]] for p in c.pend)} still has to be notified', fn, el)
            if c.aw: A.viol('stale wake-up', 'can return after a wait without testing the condition again', fn, el)
            if submit and c.push != 1: A.viol('queued wrong', f'can return having queued its task {c.push} times', fn, el)
            if fn in joiners and not c.joined and not any(f in exitflags and v for f, v in c.known): A.viol('not joined', 'can return without having waited for the workers', fn, el)
        for key, msg, loc in A.report: R.violation(key, msg, loc)
    done = set()
    for e in pool.entries: analyse(e, entry=True); done.add(e)
    for f in subm: analyse(f, submit=True); done.add(f)
    stops = [f for f in pool.methods if publicm(f) and f not in done and not f.isctor and not f.isdtor and (f in joiners or any(n.k == 'CXXMemberCallExpr' and n.f in P.funcs and P.funcs[n.f] in joiners for n in f.nodes()))]
    R.need(bool(stops), 'the pool has no method that joins its threads')
    for f in stops:
        dr = next(((f.id, p['v']) for p in f.params if P.T(p['t'])['k'] == 'bool'), None)
        analyse(f, drain=dr); done.add(f)
    for f in pool.methods:
        if f not in done and publicm(f) and not f.isctor and not f.d.get('dflt'): analyse(f)
    for f in pool.methods:
        if f.isctor and not f.decl.get('copyctor'):
            mk = [n for n in f.nodes() if n.k in CALLS and n.f and P.decls[n.f]['n'] in ('create_thread', 'add_thread')]
            if not mk: R.violation(f'{f.q}|no threads', f'{short(f.q)} starts no worker', f.loc())
    users(P, R, rec, stops)

def users(P, R, rec, stops):
    """functions that submit: Stop(true) on every path from a Submit to the end; ownership of the tasks agrees with the pool's setting"""
    pid = rec['R']
    subids = {m['id'] for m in rec['methods'] if m['id'] in P.funcs and any('Task *' in P.ts(t) for t in P.decls[m['id']]['pt'])}
    stopids = {f.id for f in stops}
    for fn in P.funcs.values():
        if fn.cls == pid: continue
        subs = [n for n in fn.nodes() if n.k == 'CXXMemberCallExpr' and n.f in subids]
        if not subs: continue
        pools = {path(n.c[0], fn, P) for n in subs}
        local = [p for p in pools if p and p.startswith('v')]
        R.count('functions_using_a_pool'); R.count('submit_sites', len(subs))
        # is the pool made here?
        made = any(n.k == 'VarDecl' and (P.rec_of_ptr(n.t) == pid) and n.v not in fn.pvars for n in fn.nodes())
        class U(Configs):
            # configuration: (tasks not waited for?, is the pool pointer null?)
            def step(self, f, el, c):
                if isinstance(el, tuple): return [c]
                if el.k == 'CXXMemberCallExpr' and el.f in subids: return [(True, False)]
                if el.k == 'CXXMemberCallExpr' and el.f in stopids:
                    a = call_args(el)
                    if a and unwrap(a[0]).k == 'CXXBoolLiteralExpr' and not unwrap(a[0]).val: return [c]
                    return [(False, c[1])]
                if el.k in CALLS:
                    for t in P.targets(el):
                        if t.id in helpers_stop: return [(False, c[1])]
                return [c]
            def branch(self, f, cond, val, c):
                n = unwrap(cond)
                if n is not None and n.k == 'BinaryOperator' and n.op in ('==', '!='):
                    a, b = unwrap(n.c[0]), unwrap(n.c[1])
                    isnull = lambda x: x is not None and (x.k in ('GNUNullExpr', 'CXXNullPtrLiteralExpr') or (x.k == 'IntegerLiteral' and x.val == 0))
                    if isnull(b): val = val == (n.op == '!='); n = a
                if n is not None and n.k == 'CXXMemberCallExpr' and n.c[0] is not None and n.f and ('operator' in P.decls[n.f]['n'] or P.decls[n.f]['n'] == 'get'): n = n.c[0]
                if n is not None and P.rec_of_ptr(n.t) == pid and (P.is_ptr(n.t) or P.tname(n.t) in SMART):
                    null = not val
                    if c[1] is not None and c[1] != null: return None
                    return (c[0], null)
                return c
        helpers_stop = {g.id for g in P.funcs.values() if g.cls != pid and g is not fn and any(n.k == 'CXXMemberCallExpr' and n.f in stopids for n in g.nodes()) and any(P.rec_of_ptr(p['t']) == pid for p in g.params)}
        n, t, _ = U(P).run(fn, frozenset([(False, None)]))
        if n is not None and any(c[0] for c in n) and made:
            R.violation(f'{fn.q}|pool not stopped', f'{short(fn.q)} can return while tasks it submitted have not been waited for', fn.loc(subs[0]))
        # ownership
        sets = [n for n in fn.nodes() if n.k == 'CXXMemberCallExpr' and n.f and P.decls[n.f].get('cls') == pid and P.decls[n.f]['n'].startswith('SetDelete')]
        owns = not any(unwrap(call_args(n)[0]).k == 'CXXBoolLiteralExpr' and not unwrap(call_args(n)[0]).val for n in sets)
        for s in subs:
            a = unwrap(call_args(s)[0])
            managed = None
            x = a
            if x.k == 'DeclRefExpr' and x.v is not None:
                i = single_init(fn, x.v); x = unwrap(i) if i is not None else x
            if x.k == 'CXXMemberCallExpr' and x.f and P.decls[x.f]['n'] == 'get': managed = True
            elif x.k == 'CXXNewExpr': managed = False
            elif x.k == 'UnaryOperator' and x.op == '&': managed = True
            R.count('submit_ownership')
            if managed is True and owns: R.violation(f'{fn.q}|task owned twice', f'{short(fn.q)} submits a task that something else deletes to a pool that deletes its tasks', fn.loc(s))
            if managed is False and not owns: R.violation(f'{fn.q}|task owned by nobody', f'{short(fn.q)} submits a newly made task to a pool that does not delete its tasks', fn.loc(s))
