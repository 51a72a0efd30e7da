"""Errors are never swallowed."""
from ..flow import *
from ..prog import *
from ..paths import path
from .c09 import is_stream
import re

LEVEL = 'other'
EXPLAIN = ('Every handler of an exception is walked on its control-flow graph from the point where it catches to the normal end of the function: it has to raise an error again, or (outside of a main program) print the '
           'caught message and put a defined value in place. Process exit statuses, exception objects that are built and not thrown, values extracted from a stream without a look at whether the extraction '
           'succeeded, and end-of-input results given while a nested record is still open are found by dataflow.')
EXITS = {'exit', '_exit', 'quick_exit', '_Exit'}
ABORTS = {'abort', 'terminate'}
OPTIONAL = ('boost::property_tree::ptree_bad_path',)     # "there is no such entry": how optional entries are told from present ones
DEBUG = 'travatar::GlobalVars::debug'

class Sub:
    """a function seen from one of its blocks"""
    def __init__(self, fn, blk): self.fn = fn; self.entry = blk; self.cfg = fn.cfg; self.exit = fn.exit; self.id = fn.id
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        return getattr(self.fn, k)

def name(P, n): return P.decls.get(n.f, {}).get('n') if n.k in CALLS else None

class Ends(Forward):
    """does a function come back normally?"""
    def __init__(self, X): self.X = X
    def join(self, a, b): return a
    def transfer(self, fn, n, st):
        if isinstance(n, Node) and n.k in CALLS and self.X.ends(n): return None
        return st

class X:
    def __init__(self, P): self.P = P; self.memo = {}
    def status(self, n):
        """for a call of exit: its status, '?' if it is no constant"""
        a = call_args(n)
        if not a: return '?'
        v = a[0]
        neg = False
        while v is not None and (v.k in CASTS or v.k in ('ParenExpr',) or (v.k == 'UnaryOperator' and v.op == '-')):
            v = v.c[0]
        return int(v.val) if v is not None and v.k == 'IntegerLiteral' else '?'
    def ends(self, n):
        """a call that never comes back, and ends in an error"""
        nm = name(self.P, n)
        if nm in ABORTS: return True
        if nm in EXITS: return self.status(n) != 0
        if n.f in self.P.funcs and n.k != 'CXXOperatorCallExpr':
            if n.get('virt') or n.get('ind'): return False
            return self.never(self.P.funcs[n.f])
        return False
    def never(self, f):
        if f.id in self.memo: return self.memo[f.id]
        self.memo[f.id] = False
        if not f.cfg: return False
        normal, thrown, _ = Ends(self).run(f, True)
        self.memo[f.id] = normal is None
        return self.memo[f.id]

class Handler(Forward):
    """state: (message printed, value put in place)"""
    def __init__(self, x, fn, h): self.x = x; self.P = x.P; self.fn = fn; self.h = h; self.bad_returns = []
    def join(self, a, b): return (a[0] and b[0], a[1] and b[1])
    def inside(self, n):
        return any(a is self.h for a in n.ancestors())
    def mentions(self, n, v):
        return any(x.k == 'DeclRefExpr' and x.v == v for x in n.walk())
    def prints(self, n, v):
        """n writes something of the caught object v to the diagnostic stream"""
        if n.k == 'CXXOperatorCallExpr' and n.op == '<<' and self.mentions(n, v): return any(x.k == 'DeclRefExpr' and x.g in ('std::cerr', 'std::clog') for x in n.walk())
        if n.k in CALLS and n.f in self.P.funcs and n.k != 'CXXOperatorCallExpr' and any(a is not None and self.mentions(a, v) for a in call_args(n)):
            return any(x.k == 'DeclRefExpr' and x.g in ('std::cerr', 'std::clog') for x in self.P.funcs[n.f].nodes())
        return False
    def transfer(self, fn, n, st):
        if not isinstance(n, Node): return st
        if n.k in CALLS and self.x.ends(n): return None
        v = self.h.x.get('cv')
        if v is not None and self.prints(n, v): st = (True, st[1])
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=' and self.inside(n):
            l = n.c[0]; d = l
            while d is not None and d.k == 'MemberExpr' and d.c: d = d.c[0]
            dv = self.fn.vardecl(d.v) if d is not None and d.k == 'DeclRefExpr' and d.v is not None else None
            if dv is None or not self.inside(dv): st = (st[0], True)
        if n.k == 'CXXMemberCallExpr' and self.inside(n) and name(self.P, n) in ('reset', 'assign', 'clear', 'push_back', 'insert'): st = (st[0], True)
        if n.k == 'ReturnStmt':
            if self.inside(n) and n.c and n.c[0] is not None: st = (st[0], True)
            if self.fn.name == 'main':
                e = n.c[0] if n.c else None
                while e is not None and (e.k in CASTS or e.k == 'ParenExpr'): e = e.c[0]
                if e is not None and e.k == 'IntegerLiteral' and int(e.val) != 0: return None      # a failing status
        return st
    def edge(self, fn, B, taken, cond, st):
        c, pol = negate(cond)
        if c is not None and c.k == 'BinaryOperator' and c.op in ('>=', '<='):
            a, b = (c.c[0], c.c[1]) if c.op == '>=' else (c.c[1], c.c[0])
            b = strip(b)
            if any(x.k == 'DeclRefExpr' and x.g == DEBUG for x in a.walk()) and b is not None and b.k == 'IntegerLiteral' and int(b.val) == 0 and taken != pol: return None       # level 0 is always printed
        return st

class Extract(Forward):
    """values extracted from streams without a look at whether the extraction succeeded"""
    def __init__(self, P, fn, report): self.P = P; self.fn = fn; self.report = report
    def join(self, a, b): return a | b
    def key(self, n): return path(n, self.fn, self.P)
    def stream_of(self, n):
        while n.k == 'CXXOperatorCallExpr' and n.op == '>>': n = n.c[0]
        return self.key(n)
    def extraction(self, n):
        return n.k == 'CXXOperatorCallExpr' and n.op == '>>' and len(n.c) == 2 and is_stream(self.P, n.t)
    def top(self, n):
        while n.p is not None and self.extraction(n.p) and n.p.c[0] is n: n = n.p
        return n
    def looked_at(self, n):
        """the expression's own outcome is looked at"""
        p, x = n.p, n
        while p is not None and (p.k in CASTS or p.k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr')): x = p; p = p.p
        if p is None or p.k == 'CompoundStmt': return False
        if p.k in ('IfStmt', 'WhileStmt', 'SwitchStmt'): return p.c[0] is x
        if p.k == 'ForStmt': return len(p.c) > 1 and p.c[1] is x
        if p.k == 'DoStmt': return p.c[-1] is x
        if p.k in ('CaseStmt', 'DefaultStmt', 'LabelStmt'): return False
        return True
    def transfer(self, fn, n, st):
        if not isinstance(n, Node): return st
        if self.extraction(n):
            k = self.key(n.c[1])
            if k and k.startswith('v'):
                st = frozenset(x for x in st if x[0] != k)
                if not self.looked_at(self.top(n)): st = st | {(k, n.i, self.stream_of(n) or '?')}
            return st
        if st and n.k in ('DeclRefExpr', 'MemberExpr'):
            k = self.key(n); hit = [x for x in st if x[0] == k]
            if hit:
                p, x = n.p, n
                while p is not None and (p.k in CASTS or p.k == 'ParenExpr'): x = p; p = p.p
                if p is not None and self.extraction(p) and p.c[1] is x: return st
                if p is not None and p.k == 'CallExpr' and name(self.P, p) == 'getline': return frozenset(y for y in st if y not in hit)
                if p is not None and p.k in ('BinaryOperator', 'CXXOperatorCallExpr') and p.op == '=' and p.c[0] is x: return frozenset(y for y in st if y not in hit)
                if p is not None and p.k == 'CXXOperatorCallExpr' and p.op in ('==', '!=') and any(y.k == 'StringLiteral' for c in p.c for y in c.walk()): return st
                if p is not None and p.k == 'MemberExpr': return st
                if self.thrown(n): return st
                for h in hit: self.report(n, h)
        return st
    def thrown(self, n):
        """part of the text of an error message"""
        for a in n.ancestors():
            if a.k == 'CXXThrowExpr': return True
            if a.k == 'CXXOperatorCallExpr' and a.op == '<<' and any(x.k == 'DeclRefExpr' and x.v is not None and self.fn.varname(x.v) == 'oss' for x in a.walk()): return True
        return False
    def edge(self, fn, B, taken, cond, st):
        t = self.test(cond)
        if t and t[1] == taken: st = frozenset(x for x in st if x[2] != t[0])
        return st
    def test(self, n):
        """(stream, truth that means the last extraction succeeded)"""
        pol = True
        while n is not None:
            if n.k in CASTS or n.k in ('ParenExpr', 'ExprWithCleanups'): n = n.c[0]; continue
            if n.k == 'UnaryOperator' and n.op == '!': n = n.c[0]; pol = not pol; continue
            if n.k == 'CXXOperatorCallExpr' and n.op == '!': n = n.c[0]; pol = not pol; continue
            if n.k == 'CXXMemberCallExpr':
                m = name(self.P, n)
                if m in ('good', 'operator bool', 'operator void *'): n = n.c[0]; continue
                if m in ('operator!', 'fail', 'bad'): n = n.c[0]; pol = not pol; continue
                return None
            break
        if n is not None and is_stream(self.P, n.t):
            k = self.key(n)
            return (k, pol) if k else None
        return None

class Open(Forward):
    """local stacks that are known to be empty"""
    def __init__(self, P, fn, stacks): self.P = P; self.fn = fn; self.stacks = stacks; self.hits = []
    def join(self, a, b): return a & b
    def of(self, n):
        k = path(n, self.fn, self.P); return k if k in self.stacks else None
    def transfer(self, fn, n, st):
        if not isinstance(n, Node): return st
        if n.k == 'VarDecl' and n.v is not None and f'v{n.v}' in self.stacks: return st | {f'v{n.v}'}
        if n.k == 'CXXMemberCallExpr' and n.c:
            k = self.of(n.c[0])
            if k:
                m = name(self.P, n)
                if m == 'clear': return st | {k}
                if m in ('push_back', 'push', 'emplace_back', 'push_front', 'resize', 'insert', 'pop_back', 'pop', 'pop_front', 'swap'): return st - {k}
        elif n.k in CALLS:
            for a in call_args(n):
                if a is not None and self.of(a): st = st - {self.of(a)}
        if n.k == 'ReturnStmt' and n.c and null(n.c[0]):
            for s in self.stacks:
                if s not in st: self.hits.append((s, n))
        return st
    def edge(self, fn, B, taken, cond, st):
        t = self.empty(cond)
        if t:
            if t[1] == taken: return st | {t[0]}
            if t[0] in st: return None                 # known to be empty: cannot have something in it
        return st
    def empty(self, n):
        pol = True
        while n is not None:
            if n.k in CASTS or n.k == 'ParenExpr': n = n.c[0]; continue
            if n.k == 'UnaryOperator' and n.op == '!': n = n.c[0]; pol = not pol; continue
            break
        if n is None: return None
        if n.k == 'CXXMemberCallExpr' and n.c:
            k = self.of(n.c[0]); m = name(self.P, n)
            if k and m == 'empty': return (k, pol)
            if k and m == 'size': return (k, not pol)
            return None
        if n.k == 'BinaryOperator' and n.op in ('==', '!=', '>', '<', '>=', '<='):
            a, b = strip(n.c[0]), strip(n.c[1])
            op = n.op
            if b is not None and b.k == 'CXXMemberCallExpr': a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if a is not None and a.k == 'CXXMemberCallExpr' and name(self.P, a) == 'size' and a.c and b is not None and b.k == 'IntegerLiteral':
                k = self.of(a.c[0]); z = int(b.val)
                if k and (op, z) in (('==', 0), ('<', 1), ('<=', 0)): return (k, pol)
                if k and (op, z) in (('!=', 0), ('>', 0), ('>=', 1)): return (k, not pol)
        return None

def strip(n):
    while n is not None and (n.k in CASTS or n.k == 'ParenExpr') and n.c: n = n.c[0]
    return n

def null(n):
    n = strip(n)
    return n is not None and (n.k in ('GNUNullExpr', 'CXXNullPtrLiteralExpr') or (n.k == 'IntegerLiteral' and int(n.val) == 0))

def run(P, R, tier):
    R.rule('a handler of an exception ends in an error; outside of a main program it may instead print the message and put a value in place of what failed')
    R.rule('a process never ends with a status of success from a place that gives up')
    R.rule('an exception object that is built is thrown')
    R.rule('a value extracted from a stream is used only after a look at whether the extraction succeeded')
    R.rule('end of input is only given as a result when no nested record is open')
    x = X(P)
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if '/lm/' in f.file or '/src/test/' in f.file or not f.cfg: continue
        R.count('functions')
        exts = 0; stacks = {}
        for n in f.nodes():
            if n.k == 'CXXThrowExpr': R.count('places_that_raise_errors')
            if n.k in CALLS:
                nm = name(P, n)
                if nm in EXITS and n.k == 'CallExpr':
                    R.count('process_exits')
                    if x.status(n) == 0 and not asked_for(n): R.violation(f'{f.q}|{nm}', f'{short(f.q)} ends the process with a status of success', f.loc(n))
                if n.k == 'CXXOperatorCallExpr' and n.op == '>>' and len(n.c) == 2 and is_stream(P, n.t): exts += 1
                if n.k == 'CXXMemberCallExpr' and nm in ('pop_back', 'pop') and n.c:
                    k = path(n.c[0], f, P)
                    if k and re.fullmatch(r'v\d+', k) and f.vardecl(int(k[1:])) is not None: stacks[k] = n
            if n.k in CTORS and P.tname(n.t) and is_exc(P, n.t) and n.p is not None and n.p.k in ('CompoundStmt', 'IfStmt', 'ForStmt', 'WhileStmt', 'ExprWithCleanups', 'CaseStmt'):
                R.violation(f'{f.q}|not thrown', f'{short(f.q)} builds an error and does not throw it', f.loc(n))
        # handlers
        for b, B in f.cfg.items():
            if B.catch is None: continue
            h = f.node(B.catch)
            if h is None: continue
            ty = P.ts(P.strip_ref(h.x['ct'])).replace('const ', '') if 'ct' in h.x else '...'
            R.count('handlers')
            if ty in OPTIONAL: R.count('handlers_of_optional_entries'); continue
            H = Handler(x, f, h)
            normal, thrown, _ = H.run(Sub(f, b), (False, False))
            if normal is None: R.count('handlers_that_raise_again'); continue
            if f.name == 'main': R.violation(f'{f.q}|{f.loc().split(":")[0]}|handler of {ty}', f'the main program catches {ty} and goes on to a status of success', f.loc(h)); continue
            if normal == (True, True): R.count('handlers_that_report_and_fall_back'); continue
            R.violation(f'{f.q}|handler of {ty}', f'{short(f.q)} catches {ty} and goes on ' + ('without raising it again or printing its message' if not normal[0] else 'after printing its message, with nothing put in place of what failed'), f.loc(h))
        if exts:
            R.count('extractions', exts)
            def rep(n, h, f=f):
                R.violation(f'{f.q}|extraction {f.varname(int(h[0][1:])) if h[0][1:].isdigit() else h[0]}', f'{short(f.q)} uses a value extracted from a stream at line {f.node(h[1]).l} without looking whether the extraction succeeded', f.loc(n))
            Extract(P, f, rep).run(f, frozenset())
        if stacks and any(is_stream(P, p['t']) for p in f.params):
            R.count('readers_of_nested_records')
            O = Open(P, f, set(stacks)); O.run(f, frozenset())
            O.hits = []; O.run(f, frozenset(), visit=None)
            ins = O.ins; O.hits = []
            for b, st in ins.items():
                for e in f.cfg[b].els:
                    st = O.transfer(f, e, st)
            for s, n in O.hits:
                R.violation(f'{f.q}|{f.varname(int(s[1:]))} open', f'{short(f.q)} gives "no more input" as its result although records in {f.varname(int(s[1:]))} may still be open', f.loc(n))

def asked_for(n): return False

def is_exc(P, t):
    r = P.rec_of(P.strip_ref(t))
    nm = P.tname(P.strip_ref(t)) or ''
    return nm in ('std::runtime_error', 'std::logic_error', 'std::exception', 'std::invalid_argument', 'std::out_of_range', 'std::bad_alloc') or (r is not None and P.derives(r, 'std::exception'))
