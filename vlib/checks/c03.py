"""Ordered output: one entry per input, in input order, on every stream."""
from ..flow import *
from ..locks import is_mutex
from ..inline import Configs
from ..paths import path, single_init
from ..prog import short, SMART
from collections import namedtuple

LEVEL = 'other'
EXPLAIN = ('Typestate over the control-flow graphs (helpers inlined, one configuration per distinguishable path) of the ordered-output class (what is emitted, under which '
           'relation between the entry\'s number and the cursor, what moves the cursor), of every task that writes to it (each stream exactly once per path, under the task\'s own number), '
           'and of every function that numbers tasks or copies records line by line.')

def find_collector(P):
    for rec in P.recs.values():
        if not rec.get('repo'): continue
        st = [f for f in rec['fields'] if P.T(f['t'])['k'] == 'ptr' and 'ostream' in P.ts(f['t'])]
        mp = [f for f in rec['fields'] if P.tname(f['t']) in ('std::map', 'boost::unordered_map', 'std::unordered_map')]
        ct = [f for f in rec['fields'] if P.T(f['t'])['k'] == 'int']
        mx = [f for f in rec['fields'] if is_mutex(P, f['t'])]
        if st and mp and ct and mx: return rec, {f['id']: f['n'] for f in st}, mp[0]['id'], [f['id'] for f in ct]
    return None, None, None, None

def isnull(x): return x is not None and (x.k in ('GNUNullExpr', 'CXXNullPtrLiteralExpr') or (x.k == 'IntegerLiteral' and x.val == 0))

def this_m(n):
    return n.m if n is not None and n.k == 'MemberExpr' and n.c and n.c[0] is not None and n.c[0].k == 'CXXThisExpr' else None

# rel: what the entry in hand is: None / 'id' (the caller's entry, number == cursor) / 'sv' (a saved entry whose number == cursor)
# em: (stream, component) emitted for the entry under the cursor; cur: entry under the cursor known ('id','sv',None)
W = namedtuple('W', 'eq cur em emitted stored drained bind its incd')

class Writer(Configs):
    """eq: is the caller's number the cursor (None unknown); cur: entry known to be the cursor's; em: streams written for it;
       emitted: caller's entry emitted; stored: caller's entry saved; drained: known that no saved entry is the cursor's;
       bind: variables naming the caller's id/strings; its: iterators/vars holding the saved entry of the cursor: (var, checked?)"""
    maxconf = 2000
    def __init__(self, P, R, rec, streams, saved, ints):
        Configs.__init__(self, P); self.rec = rec; self.streams = streams; self.saved = saved; self.ints = ints; self.report = []
        self.mapping = {}; self.unknown = []
        # the cursor: the int field that is incremented
        self.cursor = None
        for f in P.funcs.values():
            if f.cls != rec['R'] or f.isctor: continue
            for n in f.nodes():
                if n.k == 'UnaryOperator' and n.op in ('++', '--') and this_m(n.c[0]) in ints: self.cursor = this_m(n.c[0])
                if n.k in ('CompoundAssignOperator', 'BinaryOperator') and n.op in ('=', '+=') and this_m(n.c[0]) in ints: self.cursor = self.cursor or this_m(n.c[0])
    def viol(self, key, msg, fn, el): self.report.append((f'{fn.q}|{key}', f'{short(fn.q)} {msg}', fn.loc(el)))
    def src(self, fn, n, c):
        """'id', ('par',i), ('sv',comp or None), 'cur', or None"""
        P = self.P; n = unwrap(n)
        if n is None: return None
        if n.k == 'UnaryOperator' and n.op == '++' and not n.get('post') and n.c: n = unwrap(n.c[0])
        if this_m(n) == self.cursor: return 'cur'
        if n.k == 'DeclRefExpr' and n.v is not None:
            b = dict(c.bind).get((fn.id, n.v))
            if b is not None: return b
            d = fn.vardecl(n.v)
            if d is not None and P.T(d.t)['k'] in ('ref', 'int') and d.c: return self.src(fn, d.c[0], c)
            return None
        if n.k == 'MemberExpr' and n.m and n.m.rsplit('::', 1)[-1] in ('first', 'second') and n.c:
            b = self.src(fn, n.c[0], c)
            comp = n.m.rsplit('::', 1)[-1]
            if b == ('it',): return ('key',) if comp == 'first' else ('sv', None)
            if isinstance(b, tuple) and b[0] == 'sv' and b[1] is None: return ('sv', comp)
            return None
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=': return self.src(fn, n.c[1], c)
        if n.k == 'CXXOperatorCallExpr' and n.op in ('->', '*') and n.c: return self.src(fn, n.c[0], c)
        if n.k == 'CXXOperatorCallExpr' and n.op == '[]' and this_m(n.c[0]) == self.saved:
            return ('sv', None) if self.src(fn, n.c[1], c) == 'cur' else None
        if n.k == 'CXXMemberCallExpr' and this_m(n.c[0]) == self.saved and n.f:
            nm = P.decls[n.f]['n']
            if nm == 'find' and len(n.c) > 1: return ('it',) if self.src(fn, n.c[1], c) == 'cur' else None
            if nm == 'at': return ('sv', None) if self.src(fn, n.c[1], c) == 'cur' else None
            if nm == 'begin': return ('it',)
        if n.k == 'CXXMemberCallExpr' and n.f and P.decls[n.f]['n'] in ('c_str', 'str', 'data'): return self.src(fn, n.c[0], c)
        if n.k in CTORS and len(n.c) == 1: return self.src(fn, n.c[0], c)
        if n.k in CASTS and n.c: return self.src(fn, n.c[0], c)
        return None
    def stream(self, fn, n, c):
        P = self.P; n = unwrap(n)
        for _ in range(8):
            if n is None: return None
            if n.k == 'UnaryOperator' and n.op in ('*', '&'): n = unwrap(n.c[0]); continue
            break
        if n is None: return None
        if this_m(n) in self.streams: return this_m(n)
        if n.k == 'DeclRefExpr' and n.v is not None:
            b = dict(c.bind).get((fn.id, n.v))
            if isinstance(b, tuple) and b[0] == 'stream': return b[1]
            d = fn.vardecl(n.v)
            if d is not None and d.c: return self.stream(fn, d.c[0], c)
        return None
    def emit(self, fn, el, s, what, c):
        if what is None: return c
        if isinstance(what, tuple) and what[0] == 'par':
            if c.eq is not True: self.viol('out of turn', 'can write an entry out before its turn', fn, el)
            if c.emitted == 'all' and False: pass
            comp = ('p', what[1])
        elif isinstance(what, tuple) and what[0] == 'sv' and what[1]:
            if c.cur != 'sv': self.viol('out of turn', 'can write out a saved entry that is not known to be the next one', fn, el)
            comp = ('s', what[1])
        else: return c
        if (s, comp[0]) in c.em: self.viol('written twice', 'can write an entry to a stream twice', fn, el)
        self.mapping.setdefault(comp, set()).add(s)
        c = c._replace(em=c.em | {(s, comp[0])})
        if comp[0] == 'p': c = c._replace(emitted=c.emitted | {s})
        return c
    def advance(self, fn, el, c):
        need = set(self.streams)
        if c.cur == 'id' or (c.cur is None and c.eq is True and not c.incd):
            if {s for s, k in c.em if k == 'p'} != need: self.viol('skipped', 'can move on to the next number before the current entry is written to every stream', fn, el)
        elif c.cur == 'sv':
            if {s for s, k in c.em if k == 's'} != need: self.viol('skipped', 'can move on to the next number before the current entry is written to every stream', fn, el)
        else: self.viol('skipped', 'can move on past a number whose entry it has not written', fn, el)
        return c._replace(cur=None, em=frozenset(), drained=False, incd=True, eq=False, its=frozenset(),
                          bind=frozenset(b for b in c.bind if not (isinstance(b[1], tuple) and b[1][0] in ('it', 'sv', 'key'))))
    def step(self, fn, el, c):
        P = self.P
        if isinstance(el, tuple): return [c]
        k = el.k
        if k == 'UnaryOperator' and el.op == '++' and this_m(el.c[0]) == self.cursor: return [self.advance(fn, el, c)]
        if k == 'CompoundAssignOperator' and this_m(el.c[0]) == self.cursor:
            if el.op == '+=' and unwrap(el.c[1]).val == 1: return [self.advance(fn, el, c)]
            self.viol('cursor', 'moves the cursor by something other than one', fn, el); return [c]
        if k == 'BinaryOperator' and el.op == '=' and this_m(el.c[0]) == self.cursor:
            r = unwrap(el.c[1])
            if r.k == 'BinaryOperator' and r.op == '+' and {1} == {x.val for x in map(unwrap, r.c) if x is not None and x.k == 'IntegerLiteral'} and any(self.src(fn, x, c) in ('cur', 'id') for x in r.c):
                if any(self.src(fn, x, c) == 'id' for x in r.c) and c.eq is not True: self.viol('cursor', 'moves the cursor to a number that need not be the next', fn, el)
                return [self.advance(fn, el, c)]
            self.viol('cursor', 'moves the cursor by something other than one', fn, el); return [c]
        if k == 'VarDecl' and el.c:
            s = self.src(fn, el.c[0], c)
            if s is not None and s != 'cur': c = self.bindv(c, (fn.id, el.v), s)
            return [c]
        if k in ('BinaryOperator', 'CXXOperatorCallExpr') and el.op == '=' and el.c[0].k == 'DeclRefExpr' and el.c[0].v is not None:
            s = self.src(fn, el.c[1], c)
            return [self.bindv(c, (fn.id, el.c[0].v), s)]
        if k == 'CXXOperatorCallExpr' and el.op == '<<':
            s = self.base_stream(fn, el, c)
            if s is not None: return [self.emit(fn, el, s, self.src(fn, el.c[1], c), c)]
            return [c]
        if k == 'CXXOperatorCallExpr' and el.op == '=' or (k == 'CXXMemberCallExpr' and el.f and P.decls[el.f]['n'] in ('insert', 'emplace')):
            # storing
            if k == 'CXXOperatorCallExpr':
                l = el.c[0]
                if l is not None and l.k == 'CXXOperatorCallExpr' and l.op == '[]' and this_m(l.c[0]) == self.saved:
                    return [self.store(fn, el, self.src(fn, l.c[1], c), el.c[1], c)]
            elif this_m(el.c[0]) == self.saved:
                a = call_args(el)
                for x in (a[0].walk() if a else ()):
                    if self.src(fn, x, c) == 'id': return [self.store(fn, el, 'id', a[-1], c)]
                self.viol('saved wrong', 'saves an entry under a number that is not its own', fn, el)
            return [c]
        if k in CALLS and el.f:
            nm = P.decls[el.f]['n']; o = call_obj(el)
            if this_m(o) == self.saved:
                if nm == 'erase':
                    if {s for s, kk in c.em if kk == 's'} != set(self.streams): self.viol('erased', 'can drop a saved entry that has not been written out', fn, el)
                    return [c]
                if nm in ('clear', 'swap'): self.viol('erased', 'can drop saved entries that have not been written out', fn, el); return [c]
            if o is not None and self.stream(fn, o, c) and nm in ('write', 'put'):
                a = call_args(el)
                return [self.emit(fn, el, self.stream(fn, o, c), self.src(fn, a[0], c), c)]
            ts = P.targets(el)
            if len(ts) == 1 and ts[0].cfg and ts[0] is not fn and (ts[0].cls == self.rec['R'] or any(self.stream(fn, a, c) for a in call_args(el) if a is not None)):
                t = ts[0]; bind = set(c.bind)
                for a, p in zip(call_args(el), t.params):
                    s = self.src(fn, a, c); q = self.stream(fn, a, c)
                    bind = {b for b in bind if b[0] != (t.id, p['v'])}
                    if q: bind.add(((t.id, p['v']), ('stream', q)))
                    elif s is not None: bind.add(((t.id, p['v']), s))
                res = self.inline_configs(fn, el, t, frozenset([c._replace(bind=frozenset(bind))]))
                return [r._replace(bind=frozenset(b for b in r.bind if b[0][0] != t.id)) for r in res]
        return [c]
    def base_stream(self, fn, el, c):
        n = el
        while n is not None and n.k == 'CXXOperatorCallExpr' and n.op == '<<': n = n.c[0]
        return self.stream(fn, n, c)
    def bindv(self, c, v, s):
        b = frozenset(x for x in c.bind if x[0] != v)
        if s is not None: b = b | {(v, s)}
        return c._replace(bind=b)
    def store(self, fn, el, key, val, c):
        if key != 'id': self.viol('saved wrong', 'saves an entry under a number that is not its own', fn, el)
        if c.emitted: self.viol('saved written', 'saves an entry it has already written out', fn, el)
        comps = []
        for x in val.walk():
            s = self.src(fn, x, c)
            if isinstance(s, tuple) and s[0] == 'par' and (not comps or comps[-1] != s[1]): comps.append(s[1])
        comps = comps[-2:] if len(comps) > 2 else comps
        if len(comps) >= 2: self.storemap = (comps[0], comps[1])
        elif len(self.streams) > 1: self.viol('saved wrong', 'saves only part of an entry', fn, el)
        return c._replace(stored=True)
    def branch(self, fn, cond, val, c):
        P = self.P; n = unwrap(cond)
        if n is None: return c
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = n.c[0], n.c[1]
            sa, sb = self.src(fn, a, c), self.src(fn, b, c)
            pos = val == (n.op == '==')
            if {sa, sb} == {'id', 'cur'} or (c.incd is False and False):
                if n.op in ('==', '!='):
                    if c.incd: return c
                    if c.eq is not None and c.eq != pos: return None
                    return c._replace(eq=pos, cur='id' if pos else c.cur)
                # ordering: cursor < id / id > cursor: "not its turn"; the converse includes an id already written
                return c._replace(eq=False) if val == ((sa == 'id') == (n.op in ('>',))) and n.op in ('<', '>') else c
            if ('it',) in (sa, sb):
                other = b if sa == ('it',) else a
                o = unwrap(other)
                if o is not None and o.k == 'CXXMemberCallExpr' and o.f and P.decls[o.f]['n'] in ('end', 'cend'):
                    itx = a if sa == ('it',) else b
                    if pos: return c._replace(drained=True)
                    return c._replace(cur='sv', em=frozenset()) if self.is_find(fn, itx, c) else c
            if ('key',) in (sa, sb) and 'cur' in (sa, sb) and n.op in ('==', '!='):
                return c._replace(cur='sv', em=frozenset()) if pos else c._replace(drained=True)
        if n.k == 'CXXMemberCallExpr' and this_m(n.c[0]) == self.saved and n.f:
            nm = P.decls[n.f]['n']
            if nm == 'empty': return c._replace(drained=True) if val else c
            if nm == 'count' and self.src(fn, n.c[1], c) == 'cur': return c._replace(cur='sv', em=frozenset()) if val else c._replace(drained=True)
        return c
    def is_find(self, fn, n, c):
        for x in n.walk():
            if x.k == 'CXXMemberCallExpr' and x.f and self.P.decls[x.f]['n'] == 'begin': return False
        n = unwrap(n)
        if n.k == 'DeclRefExpr' and n.v is not None:
            for m in fn.nodes():
                if m.k == 'CXXMemberCallExpr' and this_m(m.c[0]) == self.saved and m.f and self.P.decls[m.f]['n'] == 'begin':
                    return False
        return True

def check_writer(P, R, rec, streams, saved, ints):
    pub = []
    for m in rec['methods']:
        f = P.funcs.get(m['id'])
        if f is not None and not f.isctor and f.params and P.T(f.params[0]['t'])['k'] == 'int' and m['acc'] == 0: pub.append(f)
    R.need(bool(pub), 'the ordered-output class has no method that takes a number')
    for fn in pub:
        A = Writer(P, R, rec, streams, saved, ints)
        R.need(A.cursor is not None, 'no cursor in the ordered-output class')
        strs = [p for p in fn.params if 'string' in P.ts(p['t'])]
        bind = {((fn.id, fn.params[0]['v']), 'id')}
        for i, p in enumerate(strs): bind.add(((fn.id, p['v']), ('par', i)))
        if not strs:
            # a method that passes fixed text on: it must call a method that takes the text, exactly once, with its own number
            calls = [n for n in fn.nodes() if n.k == 'CXXMemberCallExpr' and n.f in {g.id for g in pub} and n.f != fn.id]
            tot = exact_once(P, fn, calls)
            if tot is not True or any(not (unwrap(call_args(n)[0]).k == 'DeclRefExpr' and unwrap(call_args(n)[0]).v == fn.params[0]['v']) for n in calls):
                R.violation(f'{fn.q}|skip', f'{short(fn.q)} does not record exactly one entry under the number it was given', fn.loc())
            R.count('writer_methods'); continue
        A.inline_par = True
        n, t, _ = A.run(fn, frozenset([W(None, None, frozenset(), frozenset(), False, False, frozenset(bind), frozenset(), False)]))
        R.count('writer_methods'); R.count('configurations', sum(len(s) for s in A.ins.values() if s))
        for c in n or ():
            if c.stored and c.emitted: A.viol('saved written', 'can both write out and save one entry', fn, fn.body)
            elif not c.stored and len(c.emitted) != len(streams): A.viol('lost', 'can return having neither written out nor saved the entry', fn, fn.body)
            elif c.emitted and not c.incd: A.viol('cursor', 'can write an entry without moving on to the next number', fn, fn.body)
            elif c.emitted and not c.drained: A.viol('not drained', 'can return while a saved entry whose turn has come is still held back', fn, fn.body)
        # which stream which text goes to
        for comp, ss in A.mapping.items():
            if len(ss) > 1: A.viol('streams mixed', 'writes one part of an entry to two streams', fn, fn.body)
        sm = getattr(A, 'storemap', None)
        if sm:
            for nm, i in (('first', sm[0]), ('second', sm[1])):
                a, b = A.mapping.get(('s', nm)), A.mapping.get(('p', i))
                if a and b and a != b: A.viol('streams mixed', 'writes a saved entry to a different stream than one written at once', fn, fn.body)
        for key, msg, loc in A.report: R.violation(key, msg, loc)

class Count(Configs):
    """number of times one of `nodes` is run"""
    def __init__(self, P, ids): Configs.__init__(self, P); self.ids = ids
    def step(self, fn, el, c):
        if not isinstance(el, tuple) and el.i in self.ids and el.fn is fn: return [min(2, c + 1)]
        return [c]

def exact_once(P, fn, calls):
    n, t, _ = Count(P, {x.i for x in calls}).run(fn, frozenset([0]))
    return n == frozenset([1])

class TaskRun(Configs):
    """configuration: frozenset of (field, times written), frozenset of (field or param path, is null), bools"""
    maxconf = 3000
    def __init__(self, P, coll, fields, ids, writers):
        Configs.__init__(self, P); self.coll = coll; self.fields = fields; self.idf = ids; self.writers = writers; self.report = []
        self.numbers = set()
    def field(self, fn, n, c):
        n = unwrap(n)
        if n is None: return None
        if n.k == 'UnaryOperator' and n.op in ('*', '&'): return self.field(fn, n.c[0], c)
        if n.k == 'CXXMemberCallExpr' and n.f and self.P.decls[n.f]['n'] == 'get': return self.field(fn, n.c[0], c)
        if this_m(n) in self.fields: return this_m(n)
        if n.k == 'DeclRefExpr' and n.v is not None:
            for (v, f) in c[2]:
                if v == (fn.id, n.v): return f
            i = single_init(fn, n.v)
            if i is not None: return self.field(fn, i, c)
        return None
    def step(self, fn, el, c):
        P = self.P
        if isinstance(el, tuple): return [c]
        if el.k in CALLS and el.f:
            if el.f in self.writers and el.k == 'CXXMemberCallExpr':
                f = self.field(fn, el.c[0], c)
                if f is not None:
                    d = dict(c[0]); d[f] = min(2, d.get(f, 0) + 1)
                    nl = dict(c[1])
                    if nl.get(f) is True: return [c]
                    a = call_args(el)
                    self.numbers.add((fn, el, path(a[0], fn, P, dict(c[3]) if c[3] else None)))
                    return [(frozenset(d.items()), c[1] | {(f, False)}, c[2], c[3])]
                return [c]
            ts = P.targets(el)
            if len(ts) == 1 and ts[0].cfg and ts[0] is not fn and (ts[0].cls == self.cls or any(self.field(fn, a, c) for a in call_args(el) if a is not None)):
                t = ts[0]; al = set(c[2]); env = dict(c[3])
                for a, p in zip(call_args(el), t.params):
                    f = self.field(fn, a, c)
                    if f: al.add(((t.id, p['v']), f))
                    pp = path(a, fn, P, env)
                    if pp == 'this.' + self.idn(): env[p['v']] = pp
                res = self.inline_configs(fn, el, t, frozenset([(c[0], c[1], frozenset(al), frozenset(env.items()))]))
                return [(r[0], r[1], c[2], c[3]) for r in res]
        return [c]
    def idn(self): return self.idf
    def branch(self, fn, cond, val, c):
        n = unwrap(cond)
        if n is None: return c
        if n.k == 'BinaryOperator' and n.op in ('==', '!='):
            a, b = unwrap(n.c[0]), unwrap(n.c[1])
            if isnull(a): a, b = b, a
            if isnull(b): n, val = a, val == (n.op == '!=')
        f = self.field(fn, n, c)
        if f is not None:
            d = dict(c[1])
            if f in d and d[f] == val: return None
            return (c[0], c[1] | {(f, not val)}, c[2], c[3])
        return c

def check_tasks(P, R, rec, writers):
    coll = rec['R']
    task = next((r['R'] for r in P.recs.values() if r['R'].endswith('::Task') and r.get('repo')), None)
    if task is None: R.need(False, 'no task base class'); return
    R.set('task_classes', 0)
    for cls in sorted(P.subclasses(task)):
        r = P.recs[cls]
        fs = [f['id'] for f in r['fields'] if P.rec_of_ptr(f['t']) == coll]
        if not fs: continue
        R.count('task_classes')
        ints = [f for f in r['fields'] if P.T(f['t'])['k'] == 'int']
        ctors = [P.funcs[m['id']] for m in r['methods'] if m['id'] in P.funcs and P.funcs[m['id']].isctor and not P.decls[m['id']].get('copyctor')]
        for fn in P.find_method(cls, 'Run'):
            A = TaskRun(P, coll, set(fs), None, writers); A.cls = cls
            nums = {}
            for n in fn.nodes(): pass
            # the task's number: the int member passed to the writers most often
            use = {}
            for g in P.funcs.values():
                if g.cls != cls: continue
                for n in g.nodes():
                    if n.k == 'CXXMemberCallExpr' and n.f in writers:
                        p = path(call_args(n)[0], g, P)
                        if p and p.startswith('this.'): use[p[5:]] = use.get(p[5:], 0) + 1
            idf = max(sorted(use), key=lambda x: use[x]) if use else None
            if idf is None: R.need(False, f'{short(cls)} passes no number of its own to its output'); continue
            A.idf = idf
            n, t, _ = A.run(fn, frozenset([(frozenset(), frozenset(), frozenset(), frozenset())]))
            R.count('task_paths', len(n or ()))
            for c in n or ():
                cnt = dict(c[0]); nl = dict(c[1])
                for f in fs:
                    R.count('task_outputs')
                    k = cnt.get(f, 0)
                    nm = f.rsplit('::', 1)[-1]
                    if nl.get(f) is True: continue
                    if k == 0: R.violation(f'{cls}|{nm}|missing', f'{short(fn.q)} can finish without recording its entry in {nm} (every later entry is then held back for good)', fn.loc())
                    if k > 1: R.violation(f'{cls}|{nm}|twice', f'{short(fn.q)} can record two entries in {nm}', fn.loc())
            for (g, el, p) in A.numbers:
                if p != 'this.' + idf: R.violation(f'{g.q}|number', f'{short(g.q)} records an entry under a number that is not the task\'s own', g.loc(el))
            # the member stays what the constructor was given
            for g in P.funcs.values():
                if g.cls == cls and not g.isctor:
                    for x in g.nodes():
                        if ((x.k == 'BinaryOperator' and x.op == '=') or x.k == 'CompoundAssignOperator' or (x.k == 'UnaryOperator' and x.op in ('++', '--'))) and path(x.c[0], g, P) == 'this.' + idf:
                            R.violation(f'{g.q}|number', f'{short(g.q)} changes the number of its task', g.loc(x))
        # constructor: each collector parameter goes to the member of its own name
        for ct in ctors:
            par = {p['v']: p['n'] for p in ct.params}
            got = {}
            for ini, e in ct.inits:
                f = ini.get('m') or ini.get('f')
                x = unwrap(e)
                if f and x is not None and x.k == 'DeclRefExpr' and x.v in par: got[f] = (par[x.v], x)
            cp = [p for p in ct.params if P.rec_of_ptr(p['t']) == coll]
            used = [got[f][0] for f in fs if f in got]
            for p in cp:
                if used.count(p['n']) > 1: R.violation(f'{ct.q}|shared', f'{short(ct.q)} gives one output to two members', ct.loc())
            names = {f.rsplit('::', 1)[-1].rstrip('_'): f for f in fs}
            for f in fs:
                if f in got:
                    R.count('output_members')
                    want = f.rsplit('::', 1)[-1].rstrip('_')
                    if got[f][0] != want and got[f][0] in names: R.violation(f'{ct.q}|{want}|crossed', f'{short(ct.q)} stores the {got[f][0]} output as {want}', ct.loc(got[f][1]))
        # creation: arguments named like another parameter
        make(P, R, cls, coll, ctors, idf)
        direct(P, R, cls)

def argname(fn, n, P):
    n = unwrap(n)
    while n is not None:
        if n.k == 'CXXMemberCallExpr' and n.f and P.decls[n.f]['n'] == 'get': n = unwrap(n.c[0]); continue
        if n.k == 'UnaryOperator' and n.op in ('&', '*'): n = unwrap(n.c[0]); continue
        break
    if n is None: return None
    if n.k == 'DeclRefExpr' and n.v is not None: return fn.varname(n.v)
    if n.k == 'MemberExpr' and n.m: return n.m.rsplit('::', 1)[-1].rstrip('_')
    return None

class Numbering(Configs):
    """configuration: counter minus number of tasks made (or None before the counter is set)"""
    def __init__(self, P, var, ctors): Configs.__init__(self, P); self.var = var; self.ctors = ctors; self.bad = []
    def step(self, fn, el, c):
        if isinstance(el, tuple): return [c]
        k = el.k
        if k == 'VarDecl' and el.v == self.var:
            i = unwrap(el.c[0]) if el.c else None
            if i is not None and i.val == 0: return [(0, c[1])] if c[1] == 0 else [(0, 0)]
            self.bad.append((el, 'numbers its tasks from something other than zero')); return [(0, 0)]
        if k == 'UnaryOperator' and el.op in ('++', '--') and el.c[0].k == 'DeclRefExpr' and el.c[0].v == self.var:
            d = c[0] + (1 if el.op == '++' else -1)
            return [(max(-3, min(3, d)), c[1])]
        if k in ('BinaryOperator', 'CompoundAssignOperator') and el.op in ('=', '+=', '-=') and el.c[0].k == 'DeclRefExpr' and el.c[0].v == self.var:
            r = unwrap(el.c[1])
            if el.op == '+=' and r.val == 1: return [(min(3, c[0] + 1), c[1])]
            self.bad.append((el, 'sets the number of its next task to something other than the next number')); return [c]
        if k in CTORS and el.f in self.ctors:
            # the value passed: v (now), v++ (already counted: value was one less)
            for a in el.c:
                if a is None: continue
                u = unwrap(a)
                if u.k == 'UnaryOperator' and u.op == '++' and u.c[0].k == 'DeclRefExpr' and u.c[0].v == self.var:
                    off = c[0] - 1 if u.get('post') else c[0]
                elif u.k == 'DeclRefExpr' and u.v == self.var: off = c[0]
                else: continue
                if off != 0: self.bad.append((el, 'can give a task a number that is not the next one'))
            return [(max(-3, c[0] - 1), c[1])]
        return [c]

def make(P, R, cls, coll, ctors, idf):
    ids = {c.id for c in ctors}
    for fn in P.funcs.values():
        sites = [n for n in fn.nodes() if n.k in CTORS and n.f in ids]
        if not sites: continue
        for s in sites:
            ct = P.funcs[s.f]
            R.count('task_creations')
            ps = [p['n'] for p in ct.params]
            an = [argname(fn, a, P) if a is not None else None for a in s.c]
            for p, a, node in zip(ct.params, an, s.c):
                if P.rec_of_ptr(p['t']) == coll and a is not None and a.rstrip('_') != p['n'] and a.rstrip('_') in ps:
                    R.violation(f'{fn.q}|crossed|{p["n"]}', f'{short(fn.q)} passes {a} as the task\'s {p["n"]}', fn.loc(node))
            # the number
            ip = None
            for ini, e in ct.inits:
                f = ini.get('m') or ini.get('f')
                if f and f.rsplit('::', 1)[-1] == idf:
                    x = unwrap(e)
                    if x is not None and x.k == 'DeclRefExpr': ip = next((i for i, p in enumerate(ct.params) if p['v'] == x.v), None)
                    else: R.violation(f'{ct.q}|number', f'{short(ct.q)} does not keep the number it is given', ct.loc())
            if ip is None: continue
            a = unwrap(s.c[ip])
            base = a.c[0] if a.k == 'UnaryOperator' else a
            if base.k != 'DeclRefExpr' or base.v is None:
                R.violation(f'{fn.q}|number', f'{short(fn.q)} gives a task a number that is not a running count', fn.loc(s)); continue
            # a copy of the counter: follow it
            var = base.v
            i = single_init(fn, var)
            if i is not None and a.k != 'UnaryOperator':
                u = unwrap(i); u = u.c[0] if u.k == 'UnaryOperator' and u.op == '++' else u
                if u.k == 'DeclRefExpr' and u.v is not None and u.v != var: continue
            A = Numbering(P, var, ids); A.run(fn, frozenset([(0, 0)]))
            for el, msg in A.bad: R.violation(f'{fn.q}|numbering', f'{short(fn.q)} {msg}', fn.loc(el))

def direct(P, R, cls):
    """nothing a task runs writes to the standard output directly"""
    seen = set(); work = [(f, ()) for f in P.find_method(cls, 'Run')]
    while work:
        fn, tr = work.pop()
        if fn.id in seen: continue
        seen.add(fn.id)
        for n in fn.nodes():
            if n.k == 'DeclRefExpr' and n.g in ('std::cout',):
                R.violation(f'{fn.q}|stdout', f'{short(fn.q)}, which worker threads run, writes to the standard output directly', fn.loc(n), tr)
            if n.k in CALLS:
                for t in P.targets(n):
                    if t.id not in seen: work.append((t, tr + (f'{short(fn.q)} at {fn.loc(n)}',)))
            elif n.k in CTORS and n.f in P.funcs: work.append((P.funcs[n.f], tr))
    R.count('functions_run_by_tasks', len(seen))

class Lines(Configs):
    """endl's written to std::cout since the last record was read (0,1,2)"""
    def __init__(self, P, read): Configs.__init__(self, P); self.read = read; self.bad = []; self.seen = 0
    def step(self, fn, el, c):
        if isinstance(el, tuple): return [c]
        if el.i in self.read:
            if c == 0 or c == 2: self.bad.append((el, c))
            return ['r']
        k = newline_to_cout(self.P, el)
        if k:
            self.seen += 1
            return [min(2, (c if isinstance(c, int) else 0) + k)]
        return [c]
    def branch(self, fn, cond, val, c):
        # a record was read only on the true branch of a read used as a condition
        for x in cond.walk():
            if x.i in self.read and c == 'r': return 0 if val else 'end'
        return c

def newline_to_cout(P, el):
    """number of line ends this single << adds to std::cout"""
    if el.k != 'CXXOperatorCallExpr' or el.op != '<<': return 0
    b = el
    while b is not None and b.k == 'CXXOperatorCallExpr' and b.op == '<<': b = b.c[0]
    b = unwrap(b)
    if b is None or b.k != 'DeclRefExpr' or b.g != 'std::cout': return 0
    r = unwrap(el.c[1])
    if r is None: return 0
    if r.k == 'DeclRefExpr' and r.f and 'endl' in r.f: return 1
    if r.k == 'StringLiteral': return str(r.val).count('\n')
    if r.k == 'CharacterLiteral': return 1 if r.val == 10 else 0
    return 0

def line_tools(P, R):
    """a loop that reads one record per turn and prints a line directly prints exactly one per record"""
    for fn in P.funcs.values():
        ends = [n for n in fn.nodes() if newline_to_cout(P, n)]
        if not ends: continue
        for n in fn.nodes():
            if n.k not in ('WhileStmt', 'ForStmt', 'DoStmt'): continue
            reads = [x for x in n.walk() if x.k in CALLS and x.f and (P.decls[x.f]['n'] == 'getline' or P.decls[x.f]['n'] == 'ReadTree')]
            if len(reads) != 1: continue
            inside = [e for e in ends if any(a is n for a in e.ancestors())]
            if not inside: continue
            def loop_of(x): return next((a for a in x.ancestors() if a.k in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt')), None)
            if any(loop_of(e) is not n for e in inside) or loop_of(reads[0]) is not n: continue
            A = Lines(P, {reads[0].i})
            nx, t, _ = A.run(fn, frozenset(['start']))
            R.count('line_by_line_loops')
            for el, c in A.bad:
                R.violation(f'{fn.q}|lines', f'{short(fn.q)} can go on to the next record having printed {"no line" if c == 0 else "more than one line"} for the last', fn.loc(el))

class Newlines(Configs):
    def __init__(self, P, var): Configs.__init__(self, P); self.var = var
    def step(self, fn, el, c):
        if isinstance(el, tuple) or el.k != 'CXXOperatorCallExpr' or el.op != '<<': return [c]
        b = el
        while b is not None and b.k == 'CXXOperatorCallExpr' and b.op == '<<': b = b.c[0]
        b = unwrap(b)
        if b is None or b.k != 'DeclRefExpr' or b.v != self.var: return [c]
        r = unwrap(el.c[1])
        if r is not None and r.k == 'DeclRefExpr' and r.f and 'endl' in r.f: return [min(2, c + 1)]
        if r is not None and r.k == 'StringLiteral': return [min(2, c + str(r.val).count('\n'))]
        if r is not None and r.k == 'CharacterLiteral' and r.val == 10: return [min(2, c + 1)]
        return [c]

def one_line(P, R, rec, writers):
    """text that goes to the collector on the standard output is exactly one line"""
    for fn in P.funcs.values():
        for n in fn.nodes():
            if n.k == 'CXXMemberCallExpr' and n.f in writers and len(call_args(n)) >= 2:
                f = this_m(unwrap(n.c[0]))
                if f is None or not default_stream(P, fn.cls, f, rec): continue
                a = unwrap(call_args(n)[1])
                if a is not None and a.k == 'CXXMemberCallExpr' and a.f and P.decls[a.f]['n'] == 'str' and a.c[0].k == 'DeclRefExpr' and a.c[0].v is not None:
                    A = Newlines(P, a.c[0].v)
                    _, _, ins = A.run(fn, frozenset([0]))
                    got = set()
                    def visit(f_, b, el, st):
                        if el is n: got.update(st)
                    A.run(fn, frozenset([0]), visit)
                    R.count('translation_lines')
                    if got and got != {1}: R.violation(f'{fn.q}|one line', f'{short(fn.q)} can write other than exactly one line for its sentence', fn.loc(n))

def default_stream(P, cls, field, rec):
    """is the member given an output made with the default (standard) streams?"""
    nm = field.rsplit('::', 1)[-1].rstrip('_')
    for fn in P.funcs.values():
        for n in fn.nodes():
            if n.k == 'VarDecl' and P.T(n.t).get('r') == rec['R'] and n.c and n.x.get('n') == nm:
                c = n.c[0]
                if c is not None and c.k in CTORS and (not c.c or (c.c[0] is not None and c.c[0].get('dflt'))): return True
    return False

def run(P, R, tier):
    R.rule('an entry is written out only when its number is the next one, to every stream, once; the cursor moves by one, once per entry; saved entries are written when their turn comes and never dropped')
    R.rule('every task records exactly one entry per output it was given, on every path, under its own number; nothing it runs writes to the standard output')
    R.rule('tasks are numbered from zero without gaps; outputs are not crossed; tools that copy record by record print one line per record')
    rec, streams, saved, ints = find_collector(P)
    R.need(rec is not None, 'no ordered-output class')
    if rec is None: return
    check_writer(P, R, rec, streams, saved, ints)
    writers = {m['id'] for m in rec['methods'] if m['id'] in P.decls and P.decls[m['id']]['pt'] and P.T(P.decls[m['id']]['pt'][0])['k'] == 'int' and not P.decls[m['id']].get('ctor')}
    check_tasks(P, R, rec, writers)
    line_tools(P, R)
    one_line(P, R, rec, writers)
    R.need(R.cov.get('line_by_line_loops', 0) > 0, 'no tool reads and prints record by record')
    R.need(R.cov.get('task_creations', 0) > 0, 'no task is created')
