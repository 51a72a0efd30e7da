"""Nothing is used after it has been freed, erased or moved."""
from ..flow import *
from ..prog import *
from ..paths import single_init
from .. import loops as L
from .c18 import local
from .c27 import text

LEVEL = 'other'
EXPLAIN = ('Typestate dataflow over every function: a reference, pointer or iterator into a container (and the hidden position of a range loop) dies when an operation that may move or drop the element runs on that container, '
           'directly or inside a called function (which containers a function changes, and which objects it frees, is computed over the call graph); an object dies at delete; a temporary dies at the end of its expression. '
           'Any use of something dead on some path is reported.')

VEC = {'std::vector', 'std::basic_string', 'std::__cxx11::basic_string', 'std::deque', 'std::string'}
UNO = {'unordered_map', 'unordered_set', 'unordered_multimap', 'unordered_multiset'}
NODE = {'map', 'set', 'multimap', 'multiset', 'list'}
ADAPT = {'queue', 'stack', 'priority_queue'}
GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'append', 'reserve', 'shrink_to_fit', 'operator+=', 'push_front', '+='}
DROP = {'clear', 'assign', 'operator=', '='}
POS = {'begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'cbegin', 'cend'}
OWN = {'boost::scoped_ptr', 'std::unique_ptr', 'boost::scoped_array'}
CPTR = {'c_str', 'data', 'get'}

def kindof(P, t):
    """vec, deq, uno, node, adapt, own or None"""
    x = P.T(P.strip_ref(t)); tn = x.get('tn') or ''
    if x['k'] != 'rec': return None
    if 'terator' in tn: return None
    b = tn.rsplit('::', 1)[-1]
    if tn.startswith('std::') or tn.startswith('boost::') or '::' not in tn:
        if b == 'deque': return 'deq'
        if b == 'vector': return 'vec'
        if b in ('basic_string', 'string'): return 'str'
        if b in UNO: return 'uno'
        if b in NODE: return 'node'
        if b in ADAPT: return 'adapt'
        if tn in OWN: return 'own'
    # a project class that is a container by inheritance
    r = x.get('r')
    if r in P.recs:
        for bb in P.recs[r].get('basetypes', ()):
            k = kindof(P, bb)
            if k: return k
    return None

def deref(n):
    while n is not None and n.c and (n.k in CASTS or n.k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups')): n = n.c[0]
    return n

class Paths:
    """location of the object an expression denotes: tuple, or None.  ('v', var) / 'this' / ('g', name) then member names, '*' (through a pointer), ('i', text) (element)"""
    def __init__(s, P): s.P = P; s.memo = {}
    def path(s, n, f, d=14):
        P = s.P
        n = deref(n)
        if n is None or d <= 0: return None
        k = n.k
        if k == 'CXXThisExpr': return ('this',)
        if k == 'DeclRefExpr':
            if n.g is not None: return (('g', n.g),)
            v = n.v
            if v is None: return None
            t = P.T(f.vartype(v))
            if t['k'] in ('ref', 'rref'):
                dcl = f.vardecl(v)
                if dcl is not None and 'rng' in dcl.x:
                    b = s.path(f.node(dcl.x['rng']), f, d - 1)
                    return b + (('i', f'rng{v}'),) if b else (('v', v),)
                if dcl is not None and dcl.c and dcl.c[0] is not None:
                    b = s.path(dcl.c[0], f, d - 1)
                    if b and s.fixed(b, f): return b
                return (('v', v),)
            if t['k'] == 'ptr':
                i = single_init(f, v)
                i = deref(i)
                if i is not None and i.k not in ('CXXNewExpr',) and i.k not in CALLS:
                    b = s.path(i, f, d - 1)
                    if b and s.fixed(b, f): return b
                if i is not None and i.k in CALLS and i.k != 'CallExpr':
                    b = s.path(i, f, d - 1)
                    if b and s.fixed(b, f): return b
            if t.get('tn') in SMART:
                i = single_init(f, v)
                b = s.path(i, f, d - 1) if i is not None else None
                if b: return b
            return (('v', v),)
        if k == 'MemberExpr':
            if n.m is None: return (('g', n.g),) if n.g else None
            o = n.c[0]; b = s.path(o, f, d - 1)
            if b is None: return None
            if n.get('arrow') and deref(o).k != 'CXXThisExpr' and P.is_ptr(o.t): b = s.ind(b)
            return b + (n.m.rsplit('::', 1)[-1],)
        if k == 'UnaryOperator' and n.op == '*':
            b = s.path(n.c[0], f, d - 1)
            return s.ind(b) if b else None
        if k == 'UnaryOperator' and n.op == '&':
            b = s.path(n.c[0], f, d - 1)
            if b is None: return None
            return b[:-1] if b[-1] == '*' else b + ('&',)
        if k == 'ArraySubscriptExpr' or k == 'CXXOperatorCallExpr' and n.op == '[]':
            b = s.path(n.c[0], f, d - 1)
            return b + (('i', s.idx(n.c[1], f)),) if b else None
        if k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and len(n.c) == 1:
            b = s.path(n.c[0], f, d - 1)
            if b is None: return None
            if P.tname(n.c[0].t) in SMART: return b + ('*',)
            if 'terator' in P.ts(n.c[0].t): return b + ('at',)
            return b + ('*',)
        if k == 'CXXMemberCallExpr' or k == 'CXXOperatorCallExpr':
            if n.f is None: return None
            o = n.c[0]; nm = P.decls[n.f]['n']
            if n.f not in P.funcs:
                b = s.path(o, f, d - 1)
                if b is None: return None
                if nm in ('front', 'back', 'top'): return b + (('i', nm),)
                if nm == 'at' and len(n.c) > 1: return b + (('i', s.idx(n.c[1], f)),)
                if nm == 'get' and P.tname(o.t) in SMART: return b
                return None
            m = s.getter(n.f)
            if m is not None:
                b = s.path(o, f, d - 1)
                if b is None: return None
                if n.get('arrow') and deref(o).k != 'CXXThisExpr': b = s.ind(b)
                if P.tname(o.t) in SMART: b = b + ('*',)
                return s.subst(m, n, f, b, d)
            return None
        if k == 'CallExpr' and n.f is not None:
            nm = P.decls[n.f]['n']; a = call_args(n)
            if nm in ('SafeReference', 'move', 'forward', 'vf_reverse') and a: 
                b = s.path(a[0], f, d - 1)
                return s.ind(b) if b and nm == 'SafeReference' and P.is_ptr(a[0].t) else b
            if nm == 'SafeAccess' and len(a) > 1:
                b = s.path(a[0], f, d - 1)
                return b + (('i', s.idx(a[1], f)),) if b else None
            m = s.getter(n.f)
            if m is not None and m[0] != 'this': return s.subst(m, n, f, None, d)
        if k in CTORS and len(n.c) == 1 and n.c[0] is not None and P.tname(n.t) in SMART:
            return s.path(n.c[0], f, d - 1)
        return None
    def fixed(s, b, f):
        """do the variables in a location keep their values?"""
        for v in vars_of(b):
            d = f.vardecl(v)
            if d is not None and 'rng' in d.x: continue
            t = s.P.T(f.vartype(v))
            if t['k'] in ('ref', 'rref'): continue
            if t['k'] == 'rec' and 'terator' not in t['s'] and t.get('tn') not in SMART: continue       # an object: the variable is the place
            if v in f.pvars:
                if single_init(f, v) is None and v in (f._sinit or {}): return False
            elif single_init(f, v) is None: return False
        return True
    def ind(s, b): return b[:-1] if b[-1] == '&' else b + ('*',)
    def subst(s, m, n, f, b, d):
        if m[0] == 'this': return b + m[1:]
        if isinstance(m[0], tuple) and m[0][0] == 'g': return m
        return None
    def getter(s, fid):
        """a function that only returns (a reference to, or a pointer in) a part of its object: the part"""
        P = s.P
        if fid in s.memo: return s.memo[fid]
        s.memo[fid] = None
        f = P.funcs.get(fid)
        if f is None or f.isctor or f.isdtor: return None
        b = f.body
        st = [x for x in b.c if x is not None and x.k != 'NullStmt'] if b.k == 'CompoundStmt' else []
        if len(st) != 1 or st[0].k != 'ReturnStmt' or not st[0].c or st[0].c[0] is None: return None
        e = st[0].c[0]
        rt = P.T(P.decls[fid].get('rt', -1))
        if rt['k'] not in ('ref', 'rref', 'ptr') and not rt.get('tn') in SMART: return None
        p = s.path(e, f, 5)
        if p and (p[0] == 'this' or p[0][0] == 'g') and not any(isinstance(c, tuple) and c[0] == 'i' for c in p): s.memo[fid] = p
        return s.memo[fid]
    def idx(s, n, f):
        n = deref(n)
        if n is None: return '?'
        def tx(n):
            n = deref(n)
            if n is None: return ''
            if n.k == 'DeclRefExpr': return f'v{n.v}' if n.v is not None else str(n.g or n.x.get('e'))
            return f'{n.k}:{n.op or ""}{n.val if n.val is not None else ""}{(n.m or "").rsplit("::", 1)[-1]}{n.f or ""}(' + ','.join(tx(c) for c in n.c) + ')'
        return tx(n)

def vars_of(p):
    import re
    out = set()
    for c in p:
        if isinstance(c, tuple):
            if c[0] == 'v': out.add(c[1])
            elif c[0] == 'i': out |= {int(x) for x in re.findall(r'\b(?:v|rng)(\d+)\b', str(c[1]))}
    return out

class Walk(Forward):
    """state: frozenset of
      ('h', var, store, kind, gid, dead)   a place in store that var holds; kind: it / ref / back / front / top / own; dead: None or id of the node that killed it
      ('x', location, node id)             the object the pointer at location points to is freed"""
    limit = 20000
    def __init__(s, A, f, alias=None):
        s.A = A; s.P = A.P; s.pa = A.pa; s.f = f; s.hits = []; s.muts = {}; s.alias = alias or {}; s.reserved = set(); s.nh = 0
        # containers with room made beforehand are left alone when they grow
        for n in f.nodes():
            if n.k == 'CXXMemberCallExpr' and n.f is not None and n.f not in s.P.funcs and s.P.decls[n.f]['n'] == 'reserve':
                p = s.loc(n.c[0])
                if p: s.reserved.add(p)
    def join(s, a, b): return a | b
    def loc(s, n):
        p = s.pa.path(n, s.f)
        if p is not None and s.alias and isinstance(p[0], tuple) and p[0][0] == 'v' and p[0][1] in s.alias: p = s.alias[p[0][1]] + p[1:]
        return p
    def obj(s, n):
        """location of the object a member call works on"""
        o = n.c[0]
        p = s.loc(o)
        if p is None: return None
        if s.P.is_ptr(o.t) and deref(o).k != 'CXXThisExpr': p = s.pa.ind(p)
        return p
    # ---- what an expression is a place in
    def places(s, n, st, want):
        """set of (store, kind, gid); want: 'ref' (the object itself is bound), 'ptr', 'it'"""
        P = s.P; n = deref(n); out = set()
        if n is None: return out
        k = n.k
        if want == 'it':
            while n is not None and n.k in CTORS and len([c for c in n.c if c is not None]) == 1: n = deref(n.c[0])
            if n is None: return out
            if n.k == 'DeclRefExpr' and n.v is not None: return s.held(n.v, st)
            if n.k == 'CXXMemberCallExpr' and n.f not in P.funcs and n.f is not None:
                nm = P.decls[n.f]['n']; kd = kindof(P, n.c[0].t if not n.get('arrow') else P.pointee(n.c[0].t) if P.is_ptr(n.c[0].t) else n.c[0].t)
                if kd and (nm in POS or nm in ('insert', 'erase')):
                    p = s.obj(n)
                    if p: out.add((p, kd, 'end' if nm in ('end', 'rend', 'cend') else 'it', n.i))
                return out
            if n.k == 'CXXOperatorCallExpr' and n.op in ('+', '-') and n.c: return {(a, b, c, n.i) for a, b, c, _ in s.places(n.c[0], st, 'it')}
            if n.k == 'CXXOperatorCallExpr' and n.op in ('++', '--') and n.c: return s.places(n.c[0], st, 'it')
            if n.k == 'ConditionalOperator': return s.places(n.c[1], st, want) | s.places(n.c[2], st, want)
            return out
        if want == 'ptr':
            if k == 'UnaryOperator' and n.op == '&': return s.places(n.c[0], st, 'ref')
            if k == 'DeclRefExpr' and n.v is not None and P.T(s.f.vartype(n.v))['k'] == 'ptr': return s.held(n.v, st)
            if k == 'ConditionalOperator': return s.places(n.c[1], st, want) | s.places(n.c[2], st, want)
            if k == 'CXXMemberCallExpr' and n.f is not None and n.f not in P.funcs and P.decls[n.f]['n'] in CPTR:
                kd = kindof(P, n.c[0].t)
                if kd in ('vec', 'str', 'own'):
                    p = s.obj(n)
                    if p: out.add((p, kd, 'own' if kd == 'own' else 'ref', n.i))
            elif k == 'BinaryOperator' and n.op in ('+', '-') and P.is_ptr(n.t): return s.places(n.c[0], st, want) if P.is_ptr(n.c[0].t) else s.places(n.c[1], st, want)
            return out
        # an object
        if k == 'DeclRefExpr' and n.v is not None:
            if P.T(s.f.vartype(n.v))['k'] in ('ref', 'rref'): return s.held(n.v, st)
            return out
        if k == 'MemberExpr':
            o = n.c[0] if n.c else None
            if o is None or n.m is None: return out
            if n.get('arrow'): return s.throughptr(o, st)
            return s.places(o, st, 'ref')
        if k == 'UnaryOperator' and n.op == '*': return s.throughptr(n.c[0], st)
        if k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and len(n.c) == 1:
            t = P.tname(n.c[0].t)
            if t in OWN:
                p = s.loc(n.c[0])
                if p: out.add((p, 'own', 'own', n.i))
                return out
            if 'terator' in P.ts(n.c[0].t): return {(a, b, 'ref', g) for a, b, c, g in s.places(n.c[0], st, 'it')}
            return out
        if k == 'ConditionalOperator': return s.places(n.c[1], st, want) | s.places(n.c[2], st, want)
        if k == 'CXXOperatorCallExpr' and n.op == '[]' and n.f not in P.funcs:
            kd = kindof(P, n.c[0].t)
            if kd:
                p = s.loc(n.c[0])
                if p: out.add((p, kd, 'ref', n.i))
                out |= {x for x in s.places(n.c[0], st, 'ref') if False}
            return out
        if k == 'CXXMemberCallExpr' and n.f is not None:
            nm = P.decls[n.f]['n']
            if n.f not in P.funcs and nm in ('at', 'front', 'back', 'top'):
                kd = kindof(P, n.c[0].t if not P.is_ptr(n.c[0].t) else P.pointee(n.c[0].t))
                if kd:
                    p = s.obj(n)
                    if p: out.add((p, kd, 'ref' if nm == 'at' else nm, n.i))
                return out
            if n.f in P.funcs and P.T(P.decls[n.f].get('rt', -1))['k'] == 'ref':
                # a part of the object: lives as long as the object does
                m = s.pa.getter(n.f)
                if m and m[0] == 'this' and '*' not in m:
                    return s.throughptr(n.c[0], st) if P.is_ptr(n.c[0].t) else s.places(n.c[0], st, 'ref')
                r = s.A.returns(n.f)
                for suf, kd, kk in r:
                    p = s.obj(n)
                    if p: out.add((p + suf, kd, kk, n.i))
            return out
        if k == 'CallExpr' and n.f is not None and P.decls[n.f]['n'] == 'SafeAccess' and call_args(n):
            a = call_args(n)[0]; kd = kindof(P, a.t); p = s.loc(a)
            if kd and p: out.add((p, kd, 'ref', n.i))
        return out
    def throughptr(s, o, st):
        P = s.P; o = deref(o)
        if o is None or o.k == 'CXXThisExpr': return set()
        if P.tname(o.t) in OWN:
            p = s.loc(o); return {(p, 'own', 'own', o.i)} if p else set()
        if 'terator' in P.ts(o.t): return {(a, b, 'ref', g) for a, b, c, g in s.places(o, st, 'it')}
        if P.is_ptr(o.t): return s.places(o, st, 'ptr')
        return set()
    def held(s, v, st): return {(x[2], x[6], x[3], x[4]) for x in st if x[0] == 'h' and x[1] == v and x[5] is None}
    def want(s, t):
        P = s.P; x = P.T(t)
        if x['k'] in ('ref', 'rref'): 
            return 'ref'
        if x['k'] == 'ptr': return 'ptr'
        if 'terator' in (x.get('tn') or x.get('r') or '') or 'terator' in x['s'].split('<')[0]: return 'it'
        if x['k'] == 'rec' and 'terator' in x['s'] and 'pair' not in x['s']: return 'it'
        return None
    def bind(s, st, v, e, t):
        st = frozenset(x for x in st if not (x[0] == 'h' and x[1] == v))
        st = s.redefine(st, v)
        w = s.want(t)
        if w is None or e is None: return st
        new = s.places(e, st, w)
        u = deref(e)
        while w == 'it' and u is not None and u.k in CTORS and len(u.c) == 1: u = deref(u.c[0])
        s.nh += len(new)
        return st | {('h', v, p, kk, g, None, kd) for p, kd, kk, g in new if vars_of(p) is not None}
    def redefine(s, st, v):
        """a variable gets a new value: what was known about locations named through it is void"""
        out = set()
        for x in st:
            if x[0] == 'x' and v in vars_of(x[1]): continue
            if x[0] == 'h' and x[5] is None and v in vars_of(x[2]) and x[1] != ('r',): 
                # the place keeps living; we no longer know which container it is in
                continue
            out.add(x)
        return frozenset(out)
    # ---- changes
    def kill(s, st, el, p, kd, how, key=None, arg=None):
        """an operation on the container at p"""
        out = set()
        for x in st:
            if x[0] != 'h' or x[5] is not None: out.add(x); continue
            store, kind, gid, hk = x[2], x[3], x[4], x[6]
            dead = False
            if how == 'drop':
                dead = store == p and not (kind == 'end' and hk == 'node') or len(store) > len(p) and store[:len(p)] == p and '*' not in store[len(p):]
                if dead and hk == 'own' and store == p: dead = True
            elif how == 'grow' and store == p and p not in s.reserved:
                dead = hk in ('vec', 'str') or hk == 'deq' and kind in ('it', 'end') or hk == 'uno' and kind in ('it', 'end') or hk == 'adapt' and kind == 'top'
            elif how == 'grow' and len(store) > len(p) and store[:len(p)] == p and isinstance(store[len(p)], tuple) and store[len(p)][0] == 'i' and '*' not in store[len(p):] and p not in s.reserved and kd in ('vec', 'str'):
                dead = hk == 'str'
            elif how == 'erase' and store == p:
                if hk in ('vec', 'str', 'deq'): dead = True
                elif arg is not None and arg[0] == 'pos': dead = gid in arg[1]
                elif arg is not None and arg[0] == 'key': dead = gid in arg[1] or x[1] == ('r',)
                else: dead = x[1] == ('r',)
            elif how == 'pop' and store == p:
                dead = kind in ('top', key)
            out.add(x[:5] + (el.i,) + x[6:] if dead else x)
        if how in ('grow', 'drop', 'erase', 'pop'):
            r = s.root(p)
            if r is not None: s.muts.setdefault((r, how, kd, key), el)
        return frozenset(out)
    def root(s, p):
        """the location in terms of this / parameters / globals, or None"""
        f = s.f
        if p[0] == 'this': b = 'this'
        elif p[0][0] == 'g': b = ('g', p[0][1])
        else:
            v = p[0][1]
            if v not in f.pvars: return None
            if P_val(s.P, f, v) and not (len(p) > 1 and p[1] == '*'): return None
            b = ('p', f.pvars.index(v))
        tail = []
        for c in p[1:]:
            if isinstance(c, tuple):
                import re
                if re.search(r'\bv\d+|rng\d+', str(c[1])): return None
            tail.append(c)
        return (b,) + tuple(tail)
    def free(s, st, el, p):
        st = frozenset(x for x in st if not (x[0] == 'x' and x[1] == p)) | {('x', p, el.i)}
        # places inside the freed object
        q = p + ('*',)
        out = set()
        for x in st:
            if x[0] == 'h' and x[5] is None and x[2][:len(q)] == q and '*' not in x[2][len(q):]: x = x[:5] + (el.i,) + x[6:]
            out.add(x)
        return frozenset(out)
    # ---- transfer
    def transfer(s, f, el, st):
        P = s.P
        if not isinstance(el, Node): return st
        k = el.k
        s.uses(el, st)
        if k in CALLS and s.A.dies(el): return None
        if k == 'DeclStmt':
            for d in el.c:
                if d is not None and d.k == 'VarDecl' and d.v is not None: st = s.decl(st, d)
            return st
        if k == 'VarDecl' and el.v is not None: return s.decl(st, el)
        if k == 'CXXDeleteExpr':
            a = deref(el.c[0]); p = s.loc(a) if a is not None else None
            if p: st = s.free(st, el, p)
            return st
        if k == 'BinaryOperator' and el.op == '=':
            return s.assign(st, el.c[0], el.c[1], el)
        if k in ('CompoundAssignOperator',) or k == 'UnaryOperator' and el.op in ('++', '--'):
            v = deref(el.c[0])
            if v is not None and v.k == 'DeclRefExpr' and v.v is not None:
                st = s.redefine(st, v.v)
            return st
        if k == 'CXXOperatorCallExpr':
            o = deref(el.c[0]) if el.c else None
            if el.op == '=' and el.f not in P.funcs: return s.assign(st, el.c[0], el.c[1] if len(el.c) > 1 else None, el)
            if el.op in ('++', '--') and o is not None and o.k == 'DeclRefExpr' and o.v is not None:
                st = frozenset((x[:4] + (el.i,) + x[5:]) if x[0] == 'h' and x[1] == o.v and x[5] is None else x for x in st)
                return s.redefine(st, o.v)
            if el.op == '+=' and el.f not in P.funcs and o is not None:
                kd = kindof(P, o.t)
                p = s.loc(o) if kd else None
                if p: return s.kill(st, el, p, kd, 'grow')
            if el.op == '[]' and el.f not in P.funcs and o is not None and kindof(P, o.t) == 'uno':
                p = s.loc(o)
                # looking up an element that is there does not grow it
                g = set()
                for m in el.c[1].walk() if p else ():
                    if m.k == 'DeclRefExpr' and m.v is not None: g |= {x[2] for x in st if x[0] == 'h' and x[1] == m.v} | {x[1] for x in [(0, s.rngof(m.v))] if x[1]}
                if p and p not in g:
                    keep = dict(s.muts); st = s.kill(st, el, p, 'uno', 'grow'); s.muts = keep
                    return st
            if el.op == '>>' and el.f not in P.funcs and len(el.c) > 1:
                kd = kindof(P, el.c[1].t); p = s.loc(el.c[1]) if kd else None
                if p: return s.kill(st, el, p, kd, 'drop')
        if k == 'CXXMemberCallExpr' and el.f is not None and el.f not in P.funcs:
            return s.member(st, el)
        if k in CALLS or k in CTORS: return s.call(st, el)
        return st
    def decl(s, st, d):
        if 'rng' in d.x:
            # the variable of a range loop
            w = s.want(d.t); st = frozenset(x for x in st if not (x[0] == 'h' and x[1] == d.v)); st = s.redefine(st, d.v)
            if w == 'ref':
                r = s.f.node(d.x['rng']); p = s.loc(r) if r is not None else None; kd = kindof(s.P, r.t) if r is not None else None
                if p and kd: st |= {('h', d.v, p, 'ref', ('r', d.x['rng']), None, kd)}
            return st
        e = d.c[0] if d.c else None
        # temporaries: bound to a part of something that ends with the expression
        w = s.want(d.t)
        if w and e is not None:
            t = s.temp(e, w)
            if t is not None: s.hits.append((d, ('tmp', s.f.varname(d.v)), t.i))
        return s.bind(st, d.v, e, d.t)
    def rngof(s, v):
        d = s.f.vardecl(v)
        if d is None or 'rng' not in d.x: return None
        r = s.f.node(d.x['rng'])
        return s.loc(r) if r is not None else None
    def temp(s, e, w, d=12):
        """the temporary object that e is a place in, if any"""
        P = s.P; e = deref(e)
        if e is None or d <= 0: return None
        if w == 'it':
            while e is not None and e.k in CTORS and len([c for c in e.c if c is not None]) == 1: e = deref(e.c[0])
            if e is not None and e.k == 'CXXMemberCallExpr' and e.f not in P.funcs and P.decls.get(e.f, {}).get('n') in POS and kindof(P, e.c[0].t): return s.value(e.c[0], d)
            return None
        if w == 'ptr':
            if e.k == 'UnaryOperator' and e.op == '&': return s.temp(e.c[0], 'ref', d - 1) 
            if e.k == 'CXXMemberCallExpr' and e.f is not None and e.f not in P.funcs and P.decls[e.f]['n'] in ('c_str', 'data') and kindof(P, e.c[0].t) in ('str', 'vec'): return s.value(e.c[0], d)
            return None
        # bound by reference: binding the temporary itself (or its member) extends its life; a place inside it does not
        if e.k == 'CXXOperatorCallExpr' and e.op == '[]' and e.f not in P.funcs and kindof(P, e.c[0].t): return s.value(e.c[0], d)
        if e.k == 'CXXMemberCallExpr' and e.f is not None:
            nm = P.decls[e.f]['n']
            if e.f not in P.funcs and nm in ('front', 'back', 'at', 'top') and kindof(P, e.c[0].t): return s.value(e.c[0], d)
            if e.f in P.funcs and P.T(P.decls[e.f].get('rt', -1))['k'] == 'ref':
                m = s.pa.getter(e.f)
                if m and m[0] == 'this' and '*' not in m and not P.is_ptr(e.c[0].t): return s.value(e.c[0], d)
        if e.k == 'MemberExpr' and e.c and not e.get('arrow') and e.m is not None: return s.temp(e.c[0], 'ref', d - 1)
        return None
    def value(s, o, d=12):
        """o itself, when it is a temporary (the result of a call by value, a constructed object), or the temporary it is inside of"""
        P = s.P; o = deref(o)
        if o is None or d <= 0: return None
        if o.k in CALLS and o.f is not None:
            rt = P.T(P.decls.get(o.f, {}).get('rt', -1))
            if rt['k'] == 'rec': return o
            return s.temp(o, 'ref', d - 1)
        if o.k in CTORS or o.k == 'CXXTemporaryObjectExpr': return o
        if o.k == 'MemberExpr' and o.c and not o.get('arrow') and o.m is not None: return s.value(o.c[0], d - 1)
        return None
    def assign(s, st, l, r, el):
        P = s.P; l = deref(l)
        if l is None: return st
        # a local handle gets a new place
        if l.k == 'DeclRefExpr' and l.v is not None and P.T(s.f.vartype(l.v))['k'] not in ('ref', 'rref'):
            t = s.f.vartype(l.v)
            if s.want(t):
                if r is not None and s.temp(r, s.want(t)) is not None: s.hits.append((el, ('tmp', s.f.varname(l.v)), s.temp(r, s.want(t)).i))
                b = s.bindx(st, l.v, r, t)
                return b
            st = s.redefine(st, l.v)
        p = s.loc(l)
        if p is None: return st
        # the pointer that was freed gets a new value
        st = frozenset(x for x in st if not (x[0] == 'x' and x[1][:len(p)] == p))
        kd = kindof(P, l.t)
        if kd: st = s.kill(st, el, p, kd, 'drop')
        return st
    def bindx(s, st, v, e, t): return s.bind(st, v, e, t)
    def member(s, st, el):
        P = s.P; o = el.c[0]; nm = P.decls[el.f]['n']; args = call_args(el)
        t = o.t
        if P.is_ptr(t): t = P.pointee(t)
        kd = kindof(P, t)
        if kd is None: return s.call(st, el)
        p = s.obj(el)
        if p is None: return st
        if kd == 'own':
            if nm == 'reset': return s.kill(st, el, p, kd, 'drop')
            return st
        if kd == 'adapt':
            if nm == 'pop': return s.kill(st, el, p, kd, 'pop', 'front')
            if nm in ('push', 'emplace'): return s.kill(st, el, p, kd, 'grow')
            return st
        if nm in DROP: return s.kill(st, el, p, kd, 'drop')
        if nm == 'pop_back': return s.kill(st, el, p, kd, 'pop', 'back')
        if nm == 'pop_front': return s.kill(st, el, p, kd, 'pop', 'front')
        if nm == 'swap':
            return st
        if nm == 'insert' and len(args) >= 2 and kd in ('vec', 'str', 'deq'):
            # the range that is inserted must not be in the container itself
            for a in args[1:]:
                for q, k2, kk, g in s.places(a, st, 'it') if a is not None and s.want(a.t) == 'it' else ():
                    if q == p and len(args) == 3: s.hits.append((el, ('self', text(P, s.f, o)), el.i))
        if nm in GROW: return s.kill(st, el, p, kd, 'grow')
        if nm in ('erase', 'remove'):
            a = deref(args[0]) if args else None
            while a is not None and a.k in CTORS and len(a.c) == 1: a = deref(a.c[0])
            if a is not None and s.want(a.t) == 'it':
                g = {x[4] for x in st if x[0] == 'h' and a.k == 'DeclRefExpr' and x[1] == a.v and x[5] is None}
                if len(args) == 2: return s.kill(st, el, p, kd, 'erase', arg=None)
                return s.kill(st, el, p, kd, 'erase', arg=('pos', g))
            g = set()
            if a is not None:
                for m in a.walk():
                    if m.k == 'DeclRefExpr' and m.v is not None: g |= {x[4] for x in st if x[0] == 'h' and x[1] == m.v and x[5] is None}
            return s.kill(st, el, p, kd, 'erase', arg=('key', g))
        return st
    def call(s, st, el):
        P = s.P
        ts = P.targets(el) if el.k in CALLS else ([P.funcs[el.f]] if el.f in P.funcs else [])
        if el.k == 'CallExpr' and not ts and el.f is not None:
            nm = P.decls.get(el.f, {}).get('n'); a = call_args(el)
            if nm == 'getline' and len(a) >= 2:
                p = s.loc(a[1]); kd = kindof(P, a[1].t)
                if p and kd: st = s.kill(st, el, p, kd, 'drop')
            elif nm == 'swap': pass
        for t in ts:
            m = s.A.muts.get(t.id)
            fr = s.A.frees.get(t.id)
            if not m and not fr and not s.A.conf.get(t.id): continue
            args = call_args(el) if el.k in CALLS else el.c
            bind = {}
            for i, a in enumerate(args):
                if a is None or i >= len(t.params): continue
                bind[('p', i)] = s.loc(a)
            if el.k == 'CXXMemberCallExpr' or el.k == 'CXXOperatorCallExpr' and el.get('mc'):
                bind['this'] = s.obj(el) if P.tname(el.c[0].t) not in SMART else None
            for (r, how, kd, key) in sorted(m or (), key=str):
                b = s.place(r, bind)
                if b: st = s.kill(st, el, b, kd, how, key)
            for r in sorted(fr or (), key=str):
                b = s.place(r, bind)
                if b:
                    if b[-1] == '*' and False: pass
                    st = s.free(st, el, b)
            for i, j in s.A.conf.get(t.id, {}):
                a, b = bind.get(i), bind.get(j)
                if a is not None and a == b: s.hits.append((el, ('alias', t.q), s.A.conf[t.id][(i, j)]))
        # a pointer handed over by reference may be given a new value
        for t in ts:
            args = call_args(el) if el.k in CALLS else el.c
            for i, a in enumerate(args):
                if a is None or i >= len(t.params): continue
                x = P.T(t.params[i]['t'])
                if x['k'] == 'ref' and not P.is_const_ref(t.params[i]['t']):
                    a = deref(a)
                    if a is not None and a.k == 'DeclRefExpr' and a.v is not None and s.want(s.f.vartype(a.v)) in ('ptr', 'it'):
                        st = frozenset(y for y in st if not (y[0] == 'h' and y[1] == a.v or y[0] == 'x' and y[1][:1] == (('v', a.v),)))
        if not ts:
            for a in (call_args(el) if el.k in CALLS else el.c):
                a = deref(a) if a is not None else None
                if a is not None and a.k == 'UnaryOperator' and a.op == '&':
                    b = deref(a.c[0])
                    if b is not None and b.k == 'DeclRefExpr' and b.v is not None: st = frozenset(y for y in st if not (y[0] == 'h' and y[1] == b.v))
        return st
    def place(s, r, bind):
        b = r[0]
        if isinstance(b, tuple) and b[0] == 'g': return (b,) + tuple(r[1:])
        p = bind.get(b)
        if p is None: return None
        for c in r[1:]:
            p = p[:-1] if c == '*' and p[-1] == '&' else p + (c,)
        if p[-1] == '&': return None
        return p
    # ---- uses
    def uses(s, el, st):
        P = s.P; k = el.k
        if k == 'DeclRefExpr' and el.v is not None:
            for x in st:
                if x[0] == 'h' and x[1] == el.v and x[5] is not None:
                    if s.rebinds(el): continue
                    s.hits.append((el, ('h', s.f.varname(el.v), x[2]), x[5]))
        if any(x[0] == 'x' for x in st):
            q = None
            if k == 'MemberExpr' and el.get('arrow') and el.c and el.c[0] is not None: q = el.c[0]
            elif k == 'UnaryOperator' and el.op == '*': q = el.c[0]
            elif k == 'CXXMemberCallExpr' and el.c and el.c[0] is not None and P.is_ptr(el.c[0].t): q = el.c[0]
            elif k == 'CXXDeleteExpr': q = el.c[0]
            elif k == 'ArraySubscriptExpr': q = el.c[0]
            qs = [q] if q is not None else []
            if k in CALLS or k in CTORS:
                for a in (call_args(el) if k in CALLS else el.c):
                    if a is not None and P.is_ptr(a.t): qs.append(a)
            if k == 'ReturnStmt' and el.c and el.c[0] is not None and P.is_ptr(el.c[0].t): qs.append(el.c[0])
            for q in qs:
                q = deref(q)
                if q is None or q.k == 'CXXThisExpr': continue
                p = s.loc(q)
                if p is None: continue
                for x in st:
                    if x[0] == 'x' and (x[1] == p or p[:len(x[1]) + 1] == x[1] + ('*',)): s.hits.append((el, ('x', text(P, s.f, q) if q.k != 'DeclRefExpr' else s.f.varname(q.v), p), x[2]))
        if k == 'ReturnStmt' and el.c and el.c[0] is not None: s.ret(el, st)
    def rebinds(s, n):
        """is the variable only given a new value here?"""
        c = n; p = n.p
        while p is not None and (p.k in CASTS or p.k == 'ParenExpr'): c = p; p = p.p
        if p is None: return False
        if p.k in ('BinaryOperator', 'CXXOperatorCallExpr') and p.op == '=' and p.c and p.c[0] is c and s.P.T(s.f.vartype(n.v))['k'] not in ('ref', 'rref'): return True
        if p.k == 'CXXDeleteExpr': return True
        # a pointer whose value is only compared
        if p.k == 'BinaryOperator' and p.op in ('==', '!=') and s.P.is_ptr(s.f.vartype(n.v)): return True
        return False
    def ret(s, el, st):
        P = s.P; f = s.f
        rt = P.decls.get(f.id, {}).get('rt', -1)
        w = s.want(rt)
        if w is None: return
        e = el.c[0]
        t = s.temp(e, w)
        if t is not None: s.hits.append((el, ('tmp', 'result'), t.i)); return
        for p, kd, kk, g in s.places(e, st, w):
            if s.islocal(p): s.hits.append((el, ('loc', s.f.varname(p[0][1])), el.i))
        if w == 'ref':
            p = s.loc(e)
            if p is not None and s.islocal(p) and not P.T(f.vartype(p[0][1]))['k'] in ('ref', 'rref'): s.hits.append((el, ('loc', f.varname(p[0][1])), el.i))
        if w == 'ptr':
            e2 = deref(e)
            if e2 is not None and e2.k == 'UnaryOperator' and e2.op == '&':
                p = s.loc(e2.c[0])
                if p is not None and s.islocal(p): s.hits.append((el, ('loc', f.varname(p[0][1])), el.i))
    def islocal(s, p):
        if not (isinstance(p[0], tuple) and p[0][0] == 'v') or '*' in p: return False
        v = p[0][1]; f = s.f
        x = s.P.T(f.vartype(v))
        if x['k'] in ('ref', 'rref', 'ptr') or 'terator' in x['s']: return False
        d = f.vardecl(v)
        if d is not None and (d.x.get('static') or d.x.get('sl')): return False
        if any(c == 'at' for c in p): return False
        return d is not None or v in f.pvars
    # ---- range loops
    def edge(s, f, B, taken, cond, st):
        if B.term == 'CXXForRangeStmt' and B.tnode is not None:
            n = B.tnode
            d = next((c for c in n.walk() if c.k == 'VarDecl' and 'rng' in c.x), None)
            r = f.node(d.x['rng']) if d is not None else None
            if r is None: return st
            rid = ('r', r.i)
            for x in st:
                if x[0] == 'h' and x[1] == ('r',) and x[4] == rid and x[5] is not None: s.hits.append((n, ('r', text(s.P, s.f, r), x[2]), x[5]))
            st = frozenset(x for x in st if not (x[0] == 'h' and x[1] == ('r',) and x[4] == rid))
            if taken:
                p = s.loc(r); kd = kindof(s.P, r.t)
                if p and kd: st |= {('h', ('r',), p, 'it', rid, None, kd)}; s.nh += 1
        return st

def P_val(P, f, v):
    """a parameter that is passed by value (so that what happens to it stays here)"""
    return P.T(f.vartype(v))['k'] not in ('ref', 'rref')

class Analysis:
    def __init__(s, P):
        s.P = P; s.pa = Paths(P); s.muts = {}; s.frees = {}; s.conf = {}; s.dead = {}; s.rets = {}
    def dies(s, n):
        ts = s.P.targets(n)
        return bool(ts) and all(s.never(t) for t in ts)
    def never(s, f):
        if f.id in s.dead: return s.dead[f.id]
        s.dead[f.id] = False
        if f.cfg:
            class R(Forward):
                def join(q, a, b): return a
                def transfer(q, g, el, st): return None if isinstance(el, Node) and el.k in CALLS and s.dies(el) else st
            s.dead[f.id] = R().run(f, 1)[0] is None
        return s.dead[f.id]
    def returns(s, fid):
        """places in its object that a function returns a reference to: (suffix, kind of container, kind of place)"""
        if fid in s.rets: return s.rets[fid]
        s.rets[fid] = set()
        f = s.P.funcs[fid]; out = set()
        W = Walk(s, f)
        for n in f.nodes():
            if n.k == 'ReturnStmt' and n.c and n.c[0] is not None:
                for p, kd, kk, g in W.places(n.c[0], frozenset(), 'ref'):
                    if p[0] == 'this' and not any(isinstance(c, tuple) for c in p): out.add((p[1:], kd, kk))
        s.rets[fid] = out
        return out
    def walk(s, f, alias=None):
        W = Walk(s, f, alias)
        end = W.run(f, frozenset())[0]
        return W, end
    def solve(s, fs):
        """what functions change and free, to a fixpoint"""
        P = s.P
        callers = {}
        for f in fs:
            for n in f.nodes():
                if n.k in CALLS:
                    for t in P.targets(n): callers.setdefault(t.id, set()).add(f.id)
                elif n.k in CTORS and n.f in P.funcs: callers.setdefault(n.f, set()).add(f.id)
        work = [f.id for f in fs]; inq = set(work); rounds = 0; ids = {f.id: f for f in fs}
        while work:
            x = work.pop(0); inq.discard(x); rounds += 1
            if rounds > 60 * len(fs): raise RuntimeError('no fixpoint')
            f = ids[x]
            W, end = s.walk(f)
            m = {k for k in W.muts if len(k[0]) <= 6}
            fr = set()
            if end is not None and not f.isdtor:
                for y in end:
                    if y[0] == 'x':
                        r = s.rootx(W, y[1])
                        if r is not None: fr.add(r)
            if m != s.muts.get(x, set()) or fr != s.frees.get(x, set()):
                s.muts[x] = m; s.frees[x] = fr
                for c in sorted(callers.get(x, ())):
                    if c not in inq: inq.add(c); work.append(c)
        return rounds
    def rootx(s, W, p):
        f = W.f
        if p[0] == 'this' and len(p) > 1: b = 'this'
        elif isinstance(p[0], tuple) and p[0][0] == 'v' and p[0][1] in f.pvars and (s.P.T(f.vartype(p[0][1]))['k'] in ('ptr', 'ref')): b = ('p', f.pvars.index(p[0][1]))
        else: return None
        for c in p[1:]:
            if isinstance(c, tuple): return None
        return (b,) + tuple(p[1:])

def run(P, R, tier):
    fs = [f for f in P.funcs.values() if local(P, f) and f.cfg]
    A = Analysis(P)
    fs.sort(key=lambda f: f.id)
    n = A.solve(fs)
    places = 0
    seen = set(); hits = []
    for f in fs:
        # pairs of parameters that must not be the same object
        prs = [(i, p) for i, p in enumerate(f.params) if P.T(p['t'])['k'] == 'ref' and P.T(P.strip_ref(p['t']))['k'] == 'rec']
        base = None
        for i, p in prs:
            for j, q in prs:
                if i < j and P.strip_ref(p['t']) == P.strip_ref(q['t']) or i < j and P.T(P.strip_ref(p['t'])).get('r') == P.T(P.strip_ref(q['t'])).get('r'):
                    if base is None: base = len({h[0].i for h in A.walk(f)[0].hits})
                    W, _ = A.walk(f, {q['v']: (('v', p['v']),)})
                    if len({h[0].i for h in W.hits}) > base: A.conf.setdefault(f.id, {})[(('p', i), ('p', j))] = W.hits[-1][0].i
        if f.cls and not f.isctor:
            for i, p in prs:
                if P.T(P.strip_ref(p['t'])).get('r') == f.cls:
                    if base is None: base = len({h[0].i for h in A.walk(f)[0].hits})
                    W, _ = A.walk(f, {p['v']: ('this',)})
                    if len({h[0].i for h in W.hits}) > base: A.conf.setdefault(f.id, {})[('this', ('p', i))] = W.hits[-1][0].i
    for f in fs:
        W, end = A.walk(f); places += W.nh
        for el, what, by in W.hits:
            key = (f.q, what[0], str(what[1]))
            if key in seen: continue
            seen.add(key)
            b = f.node(by) if isinstance(by, int) else None
            if what[0] == 'h': msg = f'{what[1]} is a place in a container that may have been moved or dropped at line {b.l if b is not None else "?"}, and is still used'
            elif what[0] == 'r': msg = f'the container the loop goes over ({what[1]}) is changed at line {b.l if b is not None else "?"}, and the loop goes on'
            elif what[0] == 'x': msg = f'{what[1]} is used after what it points to was freed at line {b.l if b is not None else "?"}'
            elif what[0] == 'tmp': msg = f'{what[1]} is a place inside a temporary object that no longer exists when it is used'
            elif what[0] == 'loc': msg = f'what is returned is inside {what[1]}, which ends with the function'
            elif what[0] == 'self': msg = f'elements of {what[1]} are inserted into it while it moves'
            else: msg = f'{what[1]} is given the same object twice, but changes the one while it goes over the other'
            tr = [f.loc(b) + ' ends it'] if b is not None and what[0] in ('h', 'r', 'x') else []
            R.violation('|'.join(str(x) for x in key), msg, f.loc(el), tr)
    R.count('functions walked', len(fs)); R.count('places followed', places)
    R.count('functions that change a container of their caller or object', sum(1 for x in A.muts.values() if x))
    R.count('functions that free what they are given or hold', sum(1 for x in A.frees.values() if x))
    R.count('functions whose two arguments must differ', len(A.conf))
    R.rule('a place in a container, an object or a temporary is not used on any path after an operation that may end it')
    R.need(len(fs) > 500 and places > 300, 'functions and places in containers')
