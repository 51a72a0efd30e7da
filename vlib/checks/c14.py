"""What was looked up and not found is never used."""
from ..flow import *
from ..prog import *
from ..paths import path, single_init
from .. import loops as L
from .c18 import local
from .c27 import text

LEVEL = 'other'
EXPLAIN = ('Typestate dataflow: an iterator that a search returned may be the end of its container, a pointer that a function returned may be null (which functions may return null is computed over the call graph, as is which parameters a function '
           'uses without a test), a position may be "not found". Each such value is followed through variables, copies, tests and calls; using it on a path on which no test has excluded the failure is reported.')

SEARCH = {'find', 'lower_bound', 'upper_bound', 'find_if', 'find_if_not', 'adjacent_find', 'find_first_of'}
SPOS = {'find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'}

def strip(n):
    n = L.strip(n)
    while n is not None and (n.k in CASTS or n.k in CTORS and len([x for x in n.c if x is not None]) == 1 and ('terator' in n.fn.prog.ts(n.t))):
        n = L.strip(n.c[0])
    return n

def f_node(f, i): return f.node(i)

def isnull(n):
    n = L.strip(n)
    while n is not None and n.k in CASTS: n = L.strip(n.c[0])
    return n is not None and (n.k in ('GNUNullExpr', 'CXXNullPtrLiteralExpr') or n.k == 'IntegerLiteral' and n.val in (0, '0'))

class Facts:
    def __init__(s, P):
        s.P = P; s.null = {}
        s.req = {}; s.busy = set(); s.dead = {}; s.live = {}
        changed = True
        while changed:
            changed = False
            for f in P.funcs.values():
                if f.id in s.null or '/src/test/' in f.file: continue
                if not s.ptrfn(f) or not f.cfg: continue
                W = Walk(s, f, nul=True)
                try: W.run(f, frozenset())
                except RuntimeError: continue
                if W.ret is not None: s.null[f.id] = W.ret; changed = True
    def reached(s, f, n):
        if f.id not in s.live:
            if not f.cfg: s.live[f.id] = None
            else:
                ins = Reach(s).run(f, 1)[2]
                s.live[f.id] = {e.i for b in ins for e in f.cfg[b].els if isinstance(e, Node)}
        return s.live[f.id] is None or n.i in s.live[f.id]
    def dies(s, n):
        ts = s.P.targets(n)
        return bool(ts) and all(s.never(t) for t in ts)
    def never(s, f):
        """a function that does not come back"""
        if f.id in s.dead: return s.dead[f.id]
        s.dead[f.id] = False
        if f.cfg:
            s.dead[f.id] = Reach(s).run(f, 1)[0] is None
        return s.dead[f.id]
    def ptrfn(s, f):
        for n in f.nodes():
            if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                x = n.c[0]
                while x.k in CASTS: x = x.c[0]
                if not isnull(x) and s.P.is_ptr(n.c[0].t): return True
                if isnull(x) and x.k != 'IntegerLiteral': return True
                if s.P.is_ptr(n.c[0].t): return True
                return False
        return False
    def may(s, f, n):
        """may this expression be null because of what it was made from (not through a variable)?"""
        P = s.P
        if isnull(n): return True
        x = L.strip(n)
        while x is not None and x.k in CASTS: x = L.strip(x.c[0])
        if x is None: return False
        if x.k == 'ConditionalOperator':
            return s.may(f, x.c[1]) or s.may(f, x.c[2])
        if x.k in CALLS:
            if P.decls.get(x.f, {}).get('n') == 'SafeReference': return False
            return P.is_ptr(x.t) and any(t.id in s.null for t in P.targets(x))
        return False

def pos_call(P, n):
    return n is not None and n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') in SPOS and 'basic_string' in P.tname(n.c[0].t)

def it_call(P, n):
    """a search that returns an iterator"""
    if n is None or n.k not in CALLS or n.f not in P.decls: return False
    if P.decls[n.f]['n'] not in SEARCH or n.f in P.funcs: return False
    return not pos_call(P, n)

class Reach(Forward):
    def __init__(s, F): s.F = F
    def join(s, a, b): return a
    def transfer(s, f, el, st):
        if isinstance(el, Node) and el.k in CALLS and s.F.dies(el): return None
        return st

class Walk(Forward):
    """state: frozenset of (var, kind, origin node id) that may have failed"""
    limit = 20000
    def __init__(s, F, f, nul=False): s.F = F; s.P = F.P; s.f = f; s.hits = []; s.nul = nul; s.ret = None
    def join(s, a, b): return a | b
    def source(s, n):
        P = s.P
        n0 = L.strip(n)
        while n0 is not None and n0.k in CASTS: n0 = L.strip(n0.c[0])
        n1 = strip(n)
        if it_call(P, n1): return 'it'
        if n0 is not None and n0.k in CTORS and P.T(P.strip_ref(n0.t)).get('tn') in SMART and n0.c and n0.c[0] is not None: return s.source(n0.c[0])
        if pos_call(P, n0): return 'pos'
        if s.nul and isnull(n): return 'ptr'
        if n0 is not None and P.is_ptr(n0.t) and s.F.may(s.f, n0) and not isnull(n0): return 'ptr'
        return None
    def var(s, n):
        n = strip(n)
        while n is not None and n.k == 'CXXMemberCallExpr' and s.P.decls.get(n.f, {}).get('n') == 'get' and s.P.tname(n.c[0].t) in SMART: n = strip(n.c[0])
        return n.v if n is not None and n.k == 'DeclRefExpr' else None
    def assign(s, st, v, e):
        st = frozenset(x for x in st if x[0] != v)
        if e is None: return st
        k = s.source(e)
        if k: return st | {(v, k, e.i)}
        u = s.var(e)
        if u is not None:
            for x in list(st):
                if x[0] == u: st = st | {(v, x[1], x[2])}
        x = L.strip(e)
        if x is not None and x.k == 'ConditionalOperator':
            for b in (x.c[1], x.c[2]):
                k = s.source(b)
                if k: st = st | {(v, k, b.i)}
        return st
    def transfer(s, f, el, st):
        P = s.P
        if not isinstance(el, Node): return st
        if st: s.uses(el, st)
        k = el.k
        if k in CALLS and s.F.dies(el): return None
        if k == 'ReturnStmt' and s.nul and el.c and el.c[0] is not None:
            v = s.var(el.c[0])
            if s.F.may(f, el.c[0]) or v is not None and any(x[0] == v for x in st): s.ret = el
        if k == 'DeclStmt':
            for d in el.c:
                if d is not None and d.k == 'VarDecl' and d.c and d.c[0] is not None and s.kind(d.t): st = s.assign(st, d.v, d.c[0])
        elif k == 'VarDecl' and el.c and el.c[0] is not None and s.kind(el.t): st = s.assign(st, el.v, el.c[0])
        elif k in ('BinaryOperator', 'CXXOperatorCallExpr') and el.op == '=' and len(el.c) == 2:
            v = s.var(el.c[0])
            if v is not None and s.kind(f.vartype(v)): st = s.assign(st, v, el.c[1])
        elif k in ('UnaryOperator', 'CXXOperatorCallExpr') and el.op in ('++', '--') or k in ('CompoundAssignOperator', 'CXXOperatorCallExpr') and el.op in ('+=', '-='):
            v = s.var(el.c[0])
            if v is not None: st = frozenset(x for x in st if x[0] != v)
        elif k in CALLS or k in CTORS:
            # handed over by reference to something that may change it
            for a in (call_args(el) if k in CALLS else el.c):
                if a is None: continue
                v = None
                if a.k == 'UnaryOperator' and a.op == '&': v = s.var(a.c[0])
                if v is not None: st = frozenset(x for x in st if x[0] != v)
            if k == 'CXXMemberCallExpr' and P.decls.get(el.f, {}).get('n') == 'reset':
                v = s.var(el.c[0])
                if v is not None: st = s.assign(st, v, el.c[1] if len(el.c) > 1 else None)
        return st
    def kind(s, t):
        P = s.P; x = P.T(P.strip_ref(t))
        return x['k'] in ('ptr', 'int') or 'terator' in x.get('r', '') or 'terator' in x['s'] or x.get('tn') in SMART
    def ispt(s, t): return s.P.is_ptr(t) or s.P.tname(t) in SMART
    # ---- uses
    def uses(s, el, st):
        P = s.P
        def hit(n, v):
            for x in st:
                if x[0] == v: s.hits.append((el, x))
        k = el.k
        if k == 'UnaryOperator' and el.op == '*' or k == 'CXXOperatorCallExpr' and el.op in ('*', '->') and len(el.c) == 1:
            v = s.var(el.c[0])
            if v is not None: hit(el, v)
        elif k == 'MemberExpr' and el.c and el.c[0] is not None and P.T(P.strip_ref(el.c[0].t))['k'] == 'ptr':
            v = s.var(el.c[0])
            if v is not None: hit(el, v)
        elif k == 'CXXMemberCallExpr':
            o = el.c[0]
            if P.T(P.strip_ref(o.t))['k'] == 'ptr':
                v = s.var(o)
                if v is not None: hit(el, v)
            nm = P.decls.get(el.f, {}).get('n')
            if el.f not in P.funcs and nm == 'erase' and len(el.c) >= 2:
                v = s.var(el.c[1])
                if v is not None: hit(el, v)
            if nm == 'substr' and len(el.c) >= 2:
                v = s.var(el.c[1])
                if v is not None: hit(el, v)
            if el.f not in P.funcs and nm in ('push_back', 'insert', 'push', 'emplace_back', 'push_front') and len(el.c) >= 2:
                for a in el.c[1:]:
                    v = s.var(a) if a is not None and s.ispt(a.t) else None
                    if v is not None and any(x[0] == v and x[1] == 'ptr' for x in st): hit(el, v)
        elif k in CTORS and el.f not in P.funcs and (P.tname(el.t) or '').startswith('std::') and P.tname(el.t) not in SMART:
            for a in el.c:
                v = s.var(a) if a is not None and s.ispt(a.t) else None
                if v is not None and any(x[0] == v and x[1] == 'ptr' for x in st): hit(el, v)
        elif k in ('BinaryOperator',) and el.op in ('+', '-') :
            for a in el.c:
                v = s.var(a)
                if v is not None and any(x[0] == v and x[1] == 'pos' for x in st): hit(el, v)
        elif k in ('CXXOperatorCallExpr', 'ArraySubscriptExpr') and el.op in ('[]', None) and len(el.c) == 2:
            v = s.var(el.c[1])
            if v is not None and any(x[0] == v and x[1] == 'pos' for x in st): hit(el, v)
            v = s.var(el.c[0])
            if v is not None and P.T(P.strip_ref(el.c[0].t))['k'] == 'ptr': hit(el, v)
        if k in CALLS or k in CTORS:
            ts = P.targets(el) if k in CALLS else ([P.funcs[el.f]] if el.f in P.funcs else [])
            for i, a in enumerate(call_args(el) if k in CALLS else el.c):
                if a is None: continue
                v = s.var(a)
                if v is None or not any(x[0] == v and x[1] != 'pos' for x in st): continue
                for t in ts:
                    if i < len(t.params) and required(s.F, t, i): hit(el, v); break
    # ---- tests
    def edge(s, f, B, taken, cond, st):
        if not st: return st
        return s.refine(cond, taken, st)
    def refine(s, cond, pol, st, d=6):
        P = s.P
        c = L.strip(cond)
        if c is None or d == 0: return st
        while c.k in CASTS and len(c.c) == 1: c = L.strip(c.c[0])
        if c.k == 'UnaryOperator' and c.op == '!': return s.refine(c.c[0], not pol, st, d - 1)
        if c.k == 'BinaryOperator' and c.op == '&&' and pol or c.k == 'BinaryOperator' and c.op == '||' and not pol:
            return s.refine(c.c[1], pol, s.refine(c.c[0], pol, st, d - 1), d - 1)
        if c.k in ('BinaryOperator', 'CXXOperatorCallExpr') and c.op in ('=',): 
            v = s.var(c.c[0])
            if v is not None and pol: return frozenset(x for x in st if x[0] != v)
        pr = s.presence(c)
        if pr is not None and pr[2] == pol:
            return frozenset(x for x in st if not (x[1] == 'it' and x[2] >= 0 and s.looks(f_node(s.f, x[2])) == pr[:2]))
        if c.k in ('BinaryOperator', 'CXXOperatorCallExpr') and c.op in ('==', '!=') and len(c.c) == 2:
            for a, b in ((c.c[0], c.c[1]), (c.c[1], c.c[0])):
                v = s.var(a)
                aa = L.strip(a)
                if v is None and aa is not None and aa.k in ('BinaryOperator', 'CXXOperatorCallExpr') and aa.op == '=': v = s.var(aa.c[0])
                if v is None: continue
                if not s.failure(b): 
                    if c.op == '==' and pol or c.op == '!=' and not pol:    # equal to something definite
                        if not s.anyfail(b, st): return frozenset(x for x in st if x[0] != v)
                    continue
                if (c.op == '!=') == pol: return frozenset(x for x in st if x[0] != v or x[1] == 'pos' and isnull(b) or x[1] == 'it' and s.foreign(x[2], b))
            return st
        if c.k == 'BinaryOperator' and c.op in ('<', '>', '<=', '>='):
            # positions and iterators compared with a bound
            for a in c.c:
                v = s.var(a)
                if v is not None: st = frozenset(x for x in st if x[0] != v)
            return st
        if c.k == 'CXXOperatorCallExpr' and c.op in ('<', '>', '<=', '>='):
            for a in c.c:
                v = s.var(a)
                if v is not None: st = frozenset(x for x in st if x[0] != v)
            return st
        if c.k in CALLS and len(P.targets(c)) == 1 and d > 1:
            g = P.targets(c)[0]; rs = [n for n in g.nodes() if n.k == 'ReturnStmt']
            if len(rs) == 1 and rs[0].c and rs[0].c[0] is not None and not any(n.k in ('IfStmt', 'WhileStmt', 'ForStmt') for n in g.nodes()):
                w = Walk(s.F, g)
                for i, a in enumerate(call_args(c)):
                    v = s.var(a) if a is not None and i < len(g.params) else None
                    if v is None: continue
                    for x in list(st):
                        if x[0] == v and not w.refine(rs[0].c[0], pol, frozenset({(g.params[i]['v'], x[1], -1)}), d - 1): st = st - {x}
                return st
        v = s.var(c)
        if c.k == 'CXXMemberCallExpr' and P.decls.get(c.f, {}).get('n', '').startswith('operator'): v = s.var(c.c[0])
        if v is not None:
            t = P.T(P.strip_ref(s.f.vartype(v)))
            if t['k'] == 'ptr' or t.get('tn') in SMART:
                if pol: return frozenset(x for x in st if x[0] != v)
                return st
            if t['k'] == 'bool':
                i = single_init(s.f, v)
                if i is not None: return s.refine(i, pol, st, d - 1)
        return st
    def looks(s, n):
        n = strip(n)
        if n is None or n.k != 'CXXMemberCallExpr' or len(n.c) < 2: return None
        return path(n.c[0], s.f, s.P), text(s.P, s.f, n.c[1])
    def presence(s, c):
        """a test of whether a key is in a container: (container, key, the outcome that says it is there)"""
        P = s.P
        def cnt(n):
            n = L.strip(n)
            while n is not None and n.k in CASTS: n = L.strip(n.c[0])
            return n if n is not None and n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') in ('count', 'contains') and n.f not in P.funcs else None
        if cnt(c) is not None: return (s.looks(cnt(c)) or (None, None)) + (True,)
        if c.k in ('BinaryOperator', 'CXXOperatorCallExpr') and len(c.c) == 2:
            a, b = c.c
            if c.op in ('==', '!='):
                for x, y in ((a, b), (b, a)):
                    if it_call(P, strip(x)) and s.failure(y): return (s.looks(x) or (None, None)) + (c.op == '!=',)
            if cnt(a) is not None and const(b) is not None:
                v = int(const(b)) if const(b).lstrip('-').isdigit() else None
                if v == 0 and c.op in ('!=', '>'): return (s.looks(cnt(a)) or (None, None)) + (True,)
                if v == 0 and c.op in ('==', '<='): return (s.looks(cnt(a)) or (None, None)) + (False,)
                if v == 1 and c.op in ('>=', '=='): return (s.looks(cnt(a)) or (None, None)) + (True,)
                if v == 1 and c.op == '<': return (s.looks(cnt(a)) or (None, None)) + (False,)
        return None
    def failure(s, b):
        """the value that stands for failure: end of a container, null, npos"""
        P = s.P
        x = strip(b)
        if x is None: return False
        if isnull(x): return True
        if x.k in CALLS and P.decls.get(x.f, {}).get('n') in ('end', 'cend', 'rend'): return True
        if x.k == 'DeclRefExpr' and x.g and x.g.endswith('npos') or x.k == 'MemberExpr' and (x.m or x.g or '').endswith('npos'): return True
        if x.k == 'UnaryOperator' and x.op == '-' : return True
        if x.k == 'CXXMemberCallExpr' and P.decls.get(x.f, {}).get('n') in ('size', 'length'): return True
        if x.k == 'DeclRefExpr' and x.v is not None:
            i = single_init(s.f, x.v)
            if i is not None: return s.failure(i)
            p = x.v in s.f.pvars
            return p and 'terator' in P.ts(s.f.vartype(x.v))
        return x.k == 'BinaryOperator' and 'terator' in P.ts(x.t)
    def foreign(s, o, b):
        """the end of a container that is certainly not the one that was searched"""
        P = s.P; b = strip(b); n = strip(f_node(s.f, o)) if o >= 0 else None
        if n is None or n.k != 'CXXMemberCallExpr' or b is None or b.k != 'CXXMemberCallExpr': return False
        def root(y):
            y = L.strip(y)
            if y is not None and y.k == 'MemberExpr' and y.c and y.c[0] is not None and y.c[0].k == 'CXXThisExpr' and P.T(y.t)['k'] not in ('ref', 'rref'): return ('m', y.m)
            if y is not None and y.k == 'DeclRefExpr' and y.v is not None and P.T(s.f.vartype(y.v))['k'] not in ('ref', 'rref', 'ptr', 'other'): return ('v', y.v)
            return None
        x, y = root(n.c[0]), root(b.c[0])
        return x is not None and y is not None and x != y
    def anyfail(s, b, st):
        v = s.var(b)
        return v is not None and any(x[0] == v for x in st)

def required(F, t, i):
    """does t use parameter i without a test?"""
    key = (t.id, i)
    if key in F.req: return F.req[key]
    if key in F.busy or not t.cfg: return False
    F.busy.add(key)
    v = t.params[i]['v']; x = F.P.T(t.params[i]['t'])
    r = False
    if x['k'] == 'ptr':
        w = Walk(F, t)
        try: w.run(t, frozenset({(v, 'ptr', -1)})); r = any(h[1][0] == v and h[1][2] == -1 for h in w.hits)
        except RuntimeError: r = False
    F.busy.discard(key); F.req[key] = r
    return r

WHAT = {'it': 'an iterator from a search is used where it may be the end', 'ptr': 'a pointer is used where it may be null', 'pos': 'a position is used where it may be "not found"'}

def run(P, R, tier):
    F = Facts(P)
    R.rule('an iterator that a search returned is dereferenced, erased or handed on only where a test has shown that it is not the end of the container searched')
    R.rule('a pointer from a function that may return null is used, or put into a collection, only where a test has shown that it is not null')
    R.rule('a position that may be "not found" is not used as an index or in arithmetic')
    R.rule('no test is needed for a key that is always there: it was tested or counted before, every constructor puts it in, or it comes from a sequence that is filled together with the map; nothing removes keys')
    R.set('functions_that_may_return_null', len([i for i in F.null if local(P, P.funcs[i])]))
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if not local(P, f) or not f.cfg: continue
        W = Walk(F, f)
        srcs = [n for n in f.nodes() if W.source(n)] if True else []
        if not srcs: continue
        R.count('lookups', len({n.i for n in srcs}))
        R.count('functions_followed')
        W.run(f, frozenset())
        seen = set()
        for el, (v, k, o) in W.hits:
            if (v, el.l) in seen: continue
            seen.add((v, el.l))
            if k == 'it' and known(P, f, strip(f.node(o))): R.count('keys_known_to_be_present'); continue
            R.violation(f'{f.q}|{f.varname(v)}', f'{WHAT[k]} ({f.varname(v)}, from line {f.node(o).l})', f.loc(el))
        direct(P, R, F, f, W)
    results(P, R)
    R.need(R.cov.get('lookups', 0) > 20, 'lookups not found')

TRIE = {'lookup', 'predictive_search', 'common_prefix_search', 'reverse_lookup'}
class Found(Forward):
    """state: the result objects (a trie agent, a regular expression's match) of searches that have succeeded on every way here"""
    def __init__(s, T, f, need=None): s.T = T; s.P = T.P; s.f = f; s.bad = []; s.entry = need
    def join(s, a, b): return a & b
    def edge(s, f, B, taken, cond, st):
        return st | s.shows(cond, taken)
    def shows(s, c, val, depth=6):
        P = s.P; c = L.strip(c)
        if c is None or depth == 0: return frozenset()
        while c.k in CASTS and len(c.c) == 1: c = L.strip(c.c[0])
        if c.k == 'UnaryOperator' and c.op == '!': return s.shows(c.c[0], not val, depth - 1)
        if c.k == 'BinaryOperator' and c.op in ('&&', '||'):
            a, b = s.shows(c.c[0], val, depth - 1), s.shows(c.c[1], val, depth - 1)
            return a | b if (c.op == '&&') == val else a & b
        if c.k == 'BinaryOperator' and c.op in ('==', '!=') and L.strip(c.c[1]) is not None and L.strip(c.c[1]).k == 'CXXBoolLiteralExpr':
            return s.shows(c.c[0], val == ((c.op == '==') == bool(L.strip(c.c[1]).val)), depth - 1)
        r = s.T.search(s.f, c)
        if r is not None: return frozenset([r]) if val else frozenset()
        if c.k == 'DeclRefExpr' and c.v is not None:
            i = single_init(s.f, c.v)
            if i is not None: return s.shows(i, val, depth - 1)
        return frozenset()
    def transfer(s, f, el, st):
        P = s.P
        if not isinstance(el, Node): return st
        u = s.T.use(f, el)
        if u is not None and u not in st: s.bad.append((el, u))
        if el.k in CALLS:
            r = s.T.search(f, el)
            if r is not None: return st - {r}
            for t in P.targets(el):
                for i in s.T.needs.get(t.id, ()):
                    a = call_args(el)
                    q = path(a[i], f, P) if i < len(a) else None
                    if q is not None and q not in st: s.bad.append((el, q))
            if el.k == 'CXXMemberCallExpr' and P.decls.get(el.f, {}).get('n') == 'set_query' and el.f not in P.funcs: return st - {path(el.c[0], f, P)}
        if el.k == 'CallExpr' and el.f in P.decls and P.decls[el.f]['n'] in ('exit', 'abort', '_exit', 'terminate'): return None
        return st

class Results:
    def __init__(s, P): s.P = P; s.needs = {}
    def search(s, f, c):
        """the result object of a search that says whether it succeeded"""
        P = s.P; d = P.decls.get(c.f, {}) if c.k in CALLS and c.f else {}
        if not d: return None
        a = call_args(c)
        if c.f in P.funcs:
            g = P.funcs[c.f]
            if P.ts(d.get('rt', -1)) != 'bool' or any(n.k in ('IfStmt', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt') for n in g.nodes()): return None
            rs = [n for n in g.nodes() if n.k == 'ReturnStmt' and n.c]
            if len(rs) != 1: return None
            x = L.strip(rs[0].c[0])
            q = s.search(g, x) if x is not None and x.k in CALLS and x.f not in P.funcs else None
            for i, p in enumerate(g.params):
                if q == f'v{p["v"]}' and i < len(a): return path(a[i], f, P)
            return None
        if d['n'] in TRIE and d.get('cls', '').startswith('marisa') and a: return path(a[0], f, P)
        if d['n'] in ('regex_match', 'regex_search'):
            for x in a:
                if x is not None and 'match_results' in P.ts(P.strip_ref(x.t)) + P.tname(P.strip_ref(x.t)): return path(x, f, P)
        return None
    def use(s, f, n):
        P = s.P
        if n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') == 'key' and (P.decls[n.f].get('cls') or '').startswith('marisa'): return path(n.c[0], f, P)
        if n.k == 'CXXOperatorCallExpr' and n.op == '[]' and len(n.c) == 2 and 'match_results' in P.ts(P.strip_ref(n.c[0].t)) + P.tname(P.strip_ref(n.c[0].t)): return path(n.c[0], f, P)
        return None

def results(P, R):
    R.rule('what a search leaves in its result object (a trie agent, a regular expression match) is read only where the search is known to have succeeded')
    T = Results(P)
    fs = [f for f in sorted(P.funcs.values(), key=lambda f: f.id) if local(P, f) and f.cfg]
    for _ in range(3):
        last = _ == 2
        for f in fs:
            ns = list(f.nodes())
            if not any(T.use(f, n) is not None or n.k in CALLS and any(t.id in T.needs for t in P.targets(n)) for n in ns): continue
            W = Found(T, f); W.run(f, frozenset())
            own = {T.search(f, n) for n in ns if n.k in CALLS}
            for i, p in enumerate(f.params):
                q = f'v{p["v"]}'
                if q not in own and any(u == q for _e, u in W.bad): T.needs.setdefault(f.id, set()).add(i)
            if not last: continue
            R.count('functions_reading_search_results')
            R.count('search_results_read', sum(1 for n in ns if T.use(f, n) is not None))
            seen = set()
            for el, u in W.bad:
                if u in [f'v{p["v"]}' for p in f.params] and u not in own and T.needs.get(f.id): continue
                if (u, el.l) in seen: continue
                seen.add((u, el.l))
                R.violation(f'{f.q}|result|{P.decls.get(el.f, {}).get("n", el.op or "?")}', 'the result of a search is read where the search may have found nothing', f.loc(el))

def direct(P, R, F, f, W):
    """a lookup that is used on the spot"""
    for n in f.nodes():
        o = None
        if n.k == 'UnaryOperator' and n.op == '*' or n.k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and len(n.c) == 1: o = n.c[0]
        elif n.k == 'MemberExpr' and n.c and n.c[0] is not None and P.T(P.strip_ref(n.c[0].t))['k'] == 'ptr': o = n.c[0]
        elif n.k == 'CXXMemberCallExpr' and P.T(P.strip_ref(n.c[0].t))['k'] == 'ptr': o = n.c[0]
        if o is None: continue
        k = W.source(o)
        if not k: continue
        R.count('direct_uses')
        x = strip(o) if k == 'it' else L.strip(o)
        if known(P, f, x): R.count('direct_uses_excluded'); continue
        R.violation(f'{f.q}|direct|{P.decls.get(x.f, {}).get("n", "?")}', WHAT[k], f.loc(n))
    for n in f.nodes():
        if n.k in CALLS or n.k in CTORS:
            ts = P.targets(n) if n.k in CALLS else ([P.funcs[n.f]] if n.f in P.funcs else [])
            for i, a in enumerate(call_args(n) if n.k in CALLS else n.c):
                if a is None: continue
                if W.source(a) == 'ptr':
                    for t in ts:
                        if i < len(t.params) and required(F, t, i):
                            R.violation(f'{f.q}|argument|{t.name}', f'a pointer that may be null is given to {t.name}, which uses it', f.loc(n)); break

def known(P, f, x):
    """a test or an insertion on the way has made sure that the key is there"""
    if x is None or x.k != 'CXXMemberCallExpr' or len(x.c) < 2: return False
    c, k = path(x.c[0], f, P), text(P, f, x.c[1])
    for a in x.ancestors():
        if a.k in ('IfStmt', 'ConditionalOperator', 'BinaryOperator'):
            for y in (a.c[0].walk() if a.c[0] is not None else ()):
                if y is x: break
                if y.k == 'CXXMemberCallExpr' and P.decls.get(y.f, {}).get('n') in ('find', 'count') and len(y.c) >= 2 and path(y.c[0], f, P) == c and text(P, f, y.c[1]) == k: return True
    m = member(x.c[0])
    if m is None: return False
    # the key: a constant that every constructor puts in, or an element of a sequence whose additions go with an insertion
    kk = L.strip(x.c[1])
    while kk is not None and (kk.k in CASTS or kk.k in CTORS or kk.k == 'MaterializeTemporaryExpr') and len(kk.c) == 1: kk = L.strip(kk.c[0])
    ws = uses_of(P, m)
    if any(w[0] == 'shrink' for w in ws): return False
    val = const(kk)
    if val is not None:
        cls = m.rsplit('::', 1)[0]
        ctors = [g for g in P.funcs.values() if g.isctor and g.decl.get('cls') == cls and not g.decl.get('copyctor')]
        return bool(ctors) and all(any(w[0] == 'put' and w[1] is g and const(w[2]) == val for w in ws) for g in ctors)
    src = element_of(P, f, kk)
    if src is None: return False
    adds = uses_of(P, src)
    if any(w[0] == 'other' for w in adds): return False
    for w in adds:
        if w[0] != 'put': continue
        g = w[1]; t = text(P, g, w[2])
        if not any(v[0] == 'put' and v[1] is g and together(v[2], w[2]) and (text(P, g, v[2]) == t or names(P, g, v[2], w[2])) for v in ws): return False
    return bool(adds)

def together(a, b):
    """two statements of one block, with nothing between them that leaves"""
    def stmt(n):
        while n.p is not None and n.p.k != 'CompoundStmt': n = n.p
        return n
    x, y = stmt(a), stmt(b)
    if x.p is None or x.p is not y.p: return False
    cs = [c for c in x.p.c]; i, j = sorted((cs.index(x), cs.index(y)))
    return not any(z.k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'GotoStmt', 'CXXThrowExpr') for c in cs[i:j + 1] if c is not None for z in c.walk())

def names(P, g, whole, key):
    """the inserted pair is made from the key"""
    k = L.strip(key)
    for y in [whole] + list(whole.walk()):
        if y.k == 'DeclRefExpr' and y.v is not None:
            if k is not None and k.k == 'DeclRefExpr' and k.v == y.v: return True
            i = single_init(g, y.v)
            if i is not None and i is not whole and k is not None and k.k == 'DeclRefExpr':
                if any(z.k == 'DeclRefExpr' and z.v == k.v for z in [i] + list(i.walk())): return True
    return False

def const(n):
    n = L.strip(n)
    while n is not None and n.k in CASTS: n = L.strip(n.c[0])
    if n is None: return None
    if n.k == 'IntegerLiteral': return str(n.val)
    if n.k == 'UnaryOperator' and n.op == '-':
        v = const(n.c[0]); return None if v is None else '-' + v
    if n.k == 'StringLiteral': return repr(n.get('s') or n.val)
    return None

def member(n):
    n = L.strip(n)
    while n is not None and n.k in CASTS: n = L.strip(n.c[0])
    if n is not None and n.k == 'MemberExpr' and n.c and n.c[0] is not None and n.c[0].k == 'CXXThisExpr': return n.g or n.m
    return None

def element_of(P, f, kk):
    """the sequence (a member) that this value is an element of"""
    k = kk
    if k is None: return None
    if k.k == 'DeclRefExpr' and k.v is not None:
        i = single_init(f, k.v)
        if i is None: return None
        k = strip(i)
    if k.k in ('UnaryOperator', 'CXXOperatorCallExpr') and k.op == '*' and len(k.c) == 1:
        b = strip(k.c[0])
        if b is None or b.k != 'DeclRefExpr' or b.v is None: return None
        ini = [d for d in f.nodes() if d.k == 'VarDecl' and d.v == b.v and d.c]
        if len(ini) != 1: return None
        y = strip(ini[0].c[0])
        if y is not None and y.k == 'CXXMemberCallExpr' and P.decls.get(y.f, {}).get('n') in ('begin', 'rbegin'): return member(y.c[0])
        return None
    if k.k == 'CXXOperatorCallExpr' and k.op == '[]' and len(k.c) == 2: return member(k.c[0])
    return None

READS = {'find', 'count', 'begin', 'end', 'rbegin', 'rend', 'size', 'empty', 'at', 'lower_bound', 'upper_bound', 'cbegin', 'cend'}
def uses_of(P, m):
    """everything that is done to a member container: (kind, function, key)"""
    if not hasattr(P, '_uses14'): P._uses14 = {}
    if m in P._uses14: return P._uses14[m]
    out = []
    for g in P.funcs.values():
        for n in g.nodes():
            if n.k != 'MemberExpr' or (n.g or n.m) != m: continue
            p = n.p
            while p is not None and (p.k in CASTS or p.k == 'ParenExpr'): p = p.p
            if p is None: out.append(('other', g, None)); continue
            if p.k == 'CXXMemberCallExpr' and p.c[0] is not None and any(y is n for y in p.c[0].walk()) or p.k == 'CXXMemberCallExpr' and p.c[0] is n:
                nm = P.decls.get(p.f, {}).get('n')
                if nm in READS: continue
                if nm in ('insert', 'push_back', 'emplace', 'emplace_back') and len(p.c) == 2: out.append(('put', g, p.c[1])); continue
                if nm in ('erase', 'clear', 'swap', 'pop_back', 'resize', 'assign'): out.append(('shrink', g, None)); continue
                out.append(('other', g, None)); continue
            if p.k == 'CXXOperatorCallExpr' and p.op == '[]' and len(p.c) == 2: out.append(('put', g, p.c[1])); continue
            if p.k in ('CXXOperatorCallExpr', 'BinaryOperator') and p.op == '=' and L.strip(p.c[0]) is n: out.append(('shrink', g, None)); continue
            out.append(('other', g, None))
    P._uses14[m] = out
    return out
