"""A file that cannot be opened is an error."""
from ..flow import *
from ..prog import *
from ..paths import path, single_init

LEVEL = 'other'
EXPLAIN = ('Typestate analysis: every file stream is followed from the expression that opens it, through variables, pointers, smart pointers, containers and helper functions; '
           'it has to be tested before anything else is done with it, and the outcome "could not be opened" has to end in an error on every path.')
OPENERS = ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream')
OKM = {'good': True, 'is_open': True, 'operator bool': True, 'fail': False, 'bad': False, 'operator!': False, 'operator void *': True}
EXITS = {'exit', 'abort', '_exit', 'terminate'}

def is_file(P, t):
    rc = P.rec_of(t); n = P.tname(P.strip_ref(t)) or ''
    return n.startswith(OPENERS)
def streamish(P, t):
    t = P.strip_ref(t)
    if P.is_ptr(t): t = P.pointee(t)
    n = P.tname(t) or ''
    return 'stream' in n

class Life(Forward):
    """state: frozenset of (path, 'new'|'bad', site)"""
    def __init__(self, C, fn, report):
        self.C = C; self.P = C.P; self.fn = fn; self.report = report; self.tested = set()
    def join(self, a, b): return a | b
    def key(self, n):
        return path(n, self.fn, self.P)
    def find(self, st, key):
        return [x for x in st if x[0] == key]
    def put(self, st, key, site):
        return frozenset({x for x in st if x[0] != key} | {(key, 'new', site)})
    def drop(self, st, key): return frozenset(x for x in st if x[0] != key)
    def opened(self, n):
        """an expression whose value is a freshly opened stream (or a pointer to one): the site that opens it"""
        P = self.P
        while n is not None:
            if n.k == 'CXXNewExpr':
                for c in n.c:
                    if c is not None and c.k in CTORS: n = c; break
                else: return None
                continue
            if n.k in CTORS:
                if is_file(P, n.t) and n.c and n.f is not None and n.f not in P.funcs and not P.decls.get(n.f, {}).get('copyctor') and not P.decls.get(n.f, {}).get('movector'): return n
                if len(n.c) >= 1 and P.tname(n.t) in SMART: n = n.c[0]; continue
                if len(n.c) == 1 and P.tname(n.t) in SMART: n = n.c[0]; continue
                return None
            if n.k in CASTS and n.c: n = n.c[0]; continue
            if n.k in CALLS and n.f in self.C.factories: return n
            return None
        return None
    def transfer(self, fn, n, st):
        if not isinstance(n, Node): return st
        P = self.P; k = n.k
        if k == 'DeclStmt':
            for d in n.c:
                if d is not None and d.k == 'VarDecl': st = self.decl(d, st)
            return st
        if k == 'VarDecl': return self.decl(n, st)
        if k in CTORS and n.p is None:            # member initialiser
            return st
        if k == 'BinaryOperator' and n.op == '=':
            o = self.opened(n.c[1])
            if o is not None: return self.put(st, self.key(n.c[0]) or f'?{n.i}', o.i)
            if streamish(P, n.c[0].t): return self.drop(st, self.key(n.c[0]))
            return st
        if k == 'CXXOperatorCallExpr' and n.op == '=' and n.c:
            o = self.opened(n.c[1])
            if o is not None: return self.put(st, self.key(n.c[0]) or f'?{n.i}', o.i)
            return st
        if k == 'CXXMemberCallExpr' and n.f in P.decls:
            nm = P.decls[n.f]['n']; a = call_args(n)
            if nm == 'reset':
                kk = self.key(n.c[0])
                if a:
                    o = self.opened(a[0])
                    if o is not None: return self.put(st, kk or f'?{n.i}', o.i)
                if kk and self.find(st, kk) and all(x[1] == 'new' for x in self.find(st, kk)): return self.drop(st, kk)
                return st
            if nm in ('push_back', 'insert', 'emplace_back') and a:
                for x in a:
                    o = self.opened(x)
                    if o is not None: return self.put(st, (self.key(n.c[0]) or f'?{n.i}') + '[]', o.i)
            if nm == 'open' and is_file(P, n.c[0].t if not P.is_ptr(n.c[0].t) else P.pointee(n.c[0].t)):
                return self.put(st, self.key(n.c[0]) or f'?{n.i}', n.i)
            if nm == 'exceptions' and a: return self.drop(st, self.key(n.c[0]))
        # opened and handed on at once
        if (k in CTORS or k == 'CXXNewExpr' or k in CALLS) and self.opened(n) is n and n.p is not None and self.orphan(n):
            self.report(fn, n, 'new', f'a file is opened here and used without being tested')
        if k == 'DeclRefExpr' or k == 'MemberExpr': return self.use(n, st)
        if k == 'CXXThrowExpr': return st
        if k == 'CallExpr' and n.f in P.decls and P.decls[n.f]['n'] in EXITS: return None
        if k == 'ReturnStmt' and n.c and n.c[0] is not None:
            r = self.test(n.c[0])
            if r and self.find(st, r[0]):
                self.tested |= {x[2] for x in self.find(st, r[0])}; st = self.drop(st, r[0])
        if k == 'ReturnStmt' and n.c and n.c[0] is not None and fn.id in self.C.factories:
            kk = self.key(n.c[0])
            if kk: st = self.drop(st, kk)
        return st
    def orphan(self, n):
        """not stored anywhere the analysis follows"""
        P = self.P; x = n; p = n.p
        while p is not None:
            if p.k in ('VarDecl', 'DeclStmt', 'ReturnStmt'): return False
            if p.k in ('BinaryOperator', 'CXXOperatorCallExpr') and p.op == '=': return False
            if p.k == 'CXXMemberCallExpr' and p.f in P.decls and P.decls[p.f]['n'] in ('reset', 'push_back', 'insert', 'emplace_back'): return False
            if p.k in ('CXXNewExpr',) or p.k in CASTS or (p.k in CTORS and P.tname(p.t) in SMART): x = p; p = p.p; continue
            if p.k == 'CompoundStmt': return True
            return True
        return False
    def decl(self, d, st):
        P = self.P; fn = self.fn
        if d.c and d.c[0] is not None:
            o = self.opened(d.c[0])
            if o is not None:
                self.C.sites.add((fn.id, o.i)); return self.put(st, f'v{d.v}', o.i)
            # p = q: the same stream under another name
            if streamish(P, d.t) or P.tname(d.t) in SMART:
                kk = self.key(d.c[0])
                if kk:
                    new = {(f'v{d.v}', s, site) for (k2, s, site) in st if k2 == kk}
                    if new: return frozenset(st | new)
        return st
    # ---- uses
    def use(self, n, st):
        P = self.P; fn = self.fn
        p = n.p
        if p is not None and p.k == 'MemberExpr' and n.k != 'MemberExpr' and False: return st
        key = self.key(n)
        hits = self.find(st, key) + (self.find(st, key + '[]') if key else [])
        if not hits: return st
        # climb to the use
        x = n; p = n.p
        while p is not None:
            if p.k in ('UnaryOperator',) and p.op in ('*', '&'): x = p; p = p.p; continue
            if p.k == 'CXXOperatorCallExpr' and p.op in ('*', '->', '[]') and p.c[0] is x: x = p; p = p.p; continue
            if p.k in CASTS or p.k in ('ParenExpr', 'MaterializeTemporaryExpr'): x = p; p = p.p; continue
            if p.k == 'CXXMemberCallExpr' and p.c[0] is x and p.f in P.decls and P.decls[p.f]['n'] in ('get', 'begin', 'end', 'size', 'empty', 'back', 'front', 'at'):
                if P.decls[p.f]['n'] in ('size', 'empty', 'begin', 'end'): return st
                x = p; p = p.p; continue
            break
        if p is None: return st
        k = p.k
        if k == 'UnaryOperator' and p.op == '!': return st            # a test (of the pointer or of the stream)
        if k in ('BinaryOperator', 'CXXOperatorCallExpr') and p.op in ('==', '!=', '&&', '||'): return st
        if k == 'CXXOperatorCallExpr' and p.op == '!': return st
        if k in ('IfStmt', 'WhileStmt', 'ForStmt', 'ConditionalOperator'): return st
        if k == 'CXXMemberCallExpr' and p.c[0] is x and p.f in P.decls:
            nm = P.decls[p.f]['n']
            if nm in OKM or nm in ('open', 'reset', 'exceptions', 'clear', 'close', 'push_back', 'emplace_back', 'swap', 'imbue'): return st
        if k == 'VarDecl' or (k == 'DeclStmt'): return st
        if k == 'CXXForRangeStmt': return st
        if k in ('BinaryOperator', 'CXXOperatorCallExpr') and p.op == '=' and p.c[0] is x: return st
        if k == 'CXXDeleteExpr': return st
        if k == 'ReturnStmt':
            if fn.id in self.C.factories: return st
        if k in CTORS and P.tname(p.t) in SMART: 
            return st if self.stored(p) else self.flag(n, hits, st)
        # handed to a function of the project that tests it first
        if k in CALLS or k in CTORS:
            ts = P.targets(p) if k in CALLS else ([P.funcs[p.f]] if p.f in P.funcs else [])
            if ts:
                args = call_args(p) if k in CALLS else list(p.c)
                idx = [i for i, a in enumerate(args) if a is x]
                if idx and all(self.C.tests_first(t, idx[0]) for t in ts):
                    return frozenset(y for y in st if y not in hits)
                if idx and all(self.C.tests_result(t, idx[0]) for t in ts): return st
        return self.flag(n, hits, st)
    def stored(self, c):
        p = c.p
        return p is not None and p.k in ('VarDecl', 'DeclStmt')
    def flag(self, n, hits, st):
        for h in hits:
            self.report(self.fn, n, h[1], 'is used although it could not be opened' if h[1] == 'bad' else 'is used before it is known to be open', h[2])
        return frozenset(y for y in st if y not in hits)
    # ---- tests
    def test(self, cond):
        """(key, polarity: True when the condition being true means the stream is good)"""
        P = self.P; c, pol = negate(cond)
        if c is None: return None
        c0 = c
        while c.k in CASTS and c.c: c = c.c[0]
        if c.k == 'UnaryOperator' and c.op == '!':
            r = self.test(c.c[0]); return (r[0], r[1] != pol) if r else None
        if c.k == 'CXXOperatorCallExpr' and c.op == '!' and c.c:
            kk = self.key(c.c[0])
            if kk and self.strm(c.c[0]): return kk, not pol
            return None
        if c.k == 'CXXMemberCallExpr' and c.f in P.decls and P.decls[c.f]['n'] in OKM:
            kk = self.key(c.c[0])
            return (kk, OKM[P.decls[c.f]['n']] == pol) if kk and self.strm(c.c[0]) else None
        if c.k == 'DeclRefExpr' and c.v is not None:
            s = single_init(self.fn, c.v)
            if s is not None:
                r = self.test(s)
                if r: return r[0], r[1] == pol
            return None
        if c.k == 'ExprWithCleanups' and c.c:
            r = self.test(c.c[0]); return (r[0], r[1] == pol) if r else None
        if c.k == 'CallExpr' and c.f in P.funcs:
            t = P.funcs[c.f]
            for i, a in enumerate(call_args(c)):
                r = self.C.tests_result(t, i)
                if r is not None:
                    kk = self.key(a)
                    if kk: return kk, (r == 'good') == pol
        return None
    def strm(self, n):
        P = self.P; t = P.strip_ref(n.t)
        if P.is_ptr(t): return n.p is not None and n.p.k == 'CXXMemberCallExpr' and bool(n.p.get('arrow'))
        return P.tname(t) not in SMART
    def edge(self, fn, B, taken, cond, st):
        r = self.test(cond)
        if r is None: return st
        kk, pol = r
        hits = [x for x in st if x[0] == kk or x[0] == kk + '[]']
        if not hits: return st
        self.tested |= {x[2] for x in hits}
        good = (pol == taken)
        st = frozenset(x for x in st if x not in hits)
        return st if good else frozenset(st | {(x[0], 'bad', x[2]) for x in hits})

class Check:
    def __init__(self, P, R):
        self.P = P; self.R = R; self.sites = set(); self.memo = {}; self.memo2 = {}
        self.factories = set()
        # functions that hand back a stream they opened, untested
        for _ in range(3):
            for f in P.funcs.values():
                rt = f.decl.get('rt', -1)
                if f.id in self.factories or not (P.is_ptr(rt) or P.tname(rt) in SMART) or not streamish(P, rt if P.is_ptr(rt) else rt) and P.tname(rt) not in SMART: continue
                if '/lm/' in f.file: continue
                L = Life(self, f, lambda *a: None)
                for n in f.nodes():
                    if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                        if L.opened(n.c[0]) is not None: self.factories.add(f.id)
                        else:
                            kk = L.key(n.c[0])
                            if kk and kk.startswith('v') and kk[1:].isdigit():
                                # still untested when returned?
                                if self.untested_at(f, n, kk): self.factories.add(f.id)
    def untested_at(self, f, ret, kk):
        C = self; got = []
        class W(Life):
            def transfer(s, fn, n, st):
                if n is ret and any(x[0] == kk and x[1] == 'new' for x in st): got.append(1)
                return super().transfer(fn, n, st)
        W(C, f, lambda *a: None).run(f, frozenset())
        return bool(got)
    def tests_first(self, t, i):
        """function t does nothing with its parameter i before testing it, and fails when it is not open"""
        k = (t.id, i)
        if k in self.memo: return self.memo[k]
        self.memo[k] = False
        if i >= len(t.params): return False
        bad = []
        L = Life(self, t, lambda *a: bad.append(a))
        try: normal, thrown, ins = L.run(t, frozenset({(f'v{t.params[i]["v"]}', 'new', -1)}))
        except RuntimeError: return False
        ok = not bad and (normal is None or not any(x[2] == -1 for x in normal)) and -1 in L.tested
        self.memo[k] = ok
        return ok
    def tests_result(self, t, i):
        """t only reports whether parameter i is open: 'good' (true when open) or 'bad', else None"""
        k = (t.id, i)
        if k in self.memo2: return self.memo2[k]
        self.memo2[k] = None
        if i >= len(t.params) or self.P.ts(t.decl.get('rt', -1)) != 'bool': return None
        rets = [n for n in t.nodes() if n.k == 'ReturnStmt' and n.c]
        if len(rets) != 1: return None
        L = Life(self, t, lambda *a: None)
        r = L.test(rets[0].c[0])
        if r and r[0] == f'v{t.params[i]["v"]}': self.memo2[k] = 'good' if r[1] else 'bad'
        return self.memo2[k]

def run(P, R, tier):
    R.rule('every file stream is tested after it is opened and before any other use, and "could not be opened" ends in an error (an exception or the end of the program)')
    C = Check(P, R)
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if '/lm/' in f.file: continue
        L = Life(C, f, None)
        sites = []
        for n in f.nodes():
            if n.k in CTORS and L.opened(n) is n: sites.append(n)
            elif n.k == 'CXXMemberCallExpr' and n.f in P.decls and P.decls[n.f]['n'] == 'open' and n.c and is_file(P, n.c[0].t if not P.is_ptr(n.c[0].t) else P.pointee(n.c[0].t)): sites.append(n)
            elif n.k in CALLS and n.f in C.factories: sites.append(n)
        if not sites: continue
        if f.cls == 'travatar::InputFileStream':
            R.count('openings_inside_the_stream_class', len(sites)); continue
        R.count('files_opened', len(sites)); R.count('functions_that_open_files')
        def report(fn, n, kind, msg, site=None, f=f):
            s = f.node(site) if site is not None and site >= 0 else n
            R.violation(f'{f.q}|{desc(P, s)}|{kind}', f'{short(f.q)}: the file opened at line {s.l} {msg}' if site is not None else f'{short(f.q)}: {msg}', f.loc(n))
        L = Life(C, f, report)
        normal, thrown, ins = L.run(f, frozenset())
        for x in normal or ():
            s = f.node(x[2])
            if x[1] == 'bad': R.violation(f'{f.q}|{desc(P, s)}|ignored', f'{short(f.q)} carries on and returns normally when the file opened at line {s.l} could not be opened', f.loc(s))
            else: R.violation(f'{f.q}|{desc(P, s)}|untested', f'{short(f.q)} never tests whether the file opened at line {s.l} could be opened', f.loc(s))
        R.count('files_tested', len({s.i for s in sites} & L.tested))
    # the project's own input stream: its constructor returns only with an open file
    ifs = [f for f in P.funcs.values() if f.cls == 'travatar::InputFileStream' and f.isctor]
    for f in ifs: own_stream(P, R, f)

def own_stream(P, R, f):
    """FileExists-style checks: on every way to the end of the constructor either a test of the file succeeded"""
    class W(Forward):
        def join(s, a, b): return a and b
        def edge(s, fn, B, taken, cond, st):
            c, pol = negate(cond)
            if c is None: return st
            while c.k in CASTS and c.c: c = c.c[0]
            if c.k == 'CallExpr' and c.f in P.funcs and P.ts(P.funcs[c.f].decl.get('rt', -1)) == 'bool' and opens_and_tells(P, P.funcs[c.f]):
                return True if pol == taken else st
            if c.k == 'CXXMemberCallExpr' and c.f in P.decls and P.decls[c.f]['n'] in OKM: return True if (OKM[P.decls[c.f]['n']] == pol) == taken else st
            if c.k == 'CXXOperatorCallExpr' and c.op == '!': return True if (not pol) == taken else st
            if c.k == 'DeclRefExpr' and c.v is not None and P.is_ptr(fn.vartype(c.v)): return True if pol == taken else st
            return st
    if not f.cfg: return
    n, t, i = W().run(f, False)
    R.count('stream_class_constructors')
    if n is False: R.violation(f'{f.q}|ctor|untested', f'{short(f.q)} can return without having found that its file can be opened', f.loc())

def opens_and_tells(P, t):
    return any(n.k in CTORS and is_file(P, n.t) for n in t.nodes()) and any(n.k == 'ReturnStmt' for n in t.nodes())

def desc(P, n):
    """what names the file: the option or argument, or the variable"""
    for x in n.walk():
        if x.k == 'StringLiteral' and x.val: return str(x.val)[:40]
    for x in n.walk():
        if x.k == 'DeclRefExpr' and x.v is not None: return x.fn.varname(x.v)
        if x.k == 'MemberExpr' and x.m: return x.m.rsplit('::', 1)[-1]
    return 'file'
