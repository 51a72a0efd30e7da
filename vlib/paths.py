"""Access paths: a name for the storage an expression denotes, seen through getters, references,
pointers that are set once, smart pointers and casts."""
from .prog import Node, CALLS, CTORS, CASTS, SMART
from .flow import call_args, call_obj

TRANSPARENT_M = {'get', 'operator*', 'operator->'}

def trivial_getter(P, fid):
    """field id when the function is `return field_;` (possibly *field_, field_.get())"""
    c = getattr(P, '_getters', None)
    if c is None: c = P._getters = {}
    if fid in c: return c[fid]
    c[fid] = None
    f = P.funcs.get(fid)
    r = None
    if f is not None and not f.isctor and not f.isdtor:
        b = f.body
        if b.k == 'CompoundStmt' and len(b.c) == 1 and b.c[0].k == 'ReturnStmt' and b.c[0].c and not f.params:
            e = b.c[0].c[0]
            p = path(e, f, P, depth=3)
            if p and p.startswith('this.'): r = p[4:]
            elif p and p.startswith('g:') and '.' not in p: r = p
    c[fid] = r
    return r

def single_init(fn, v):
    """initialiser of a local that is set exactly once (at its declaration), else None"""
    c = getattr(fn, '_sinit', None)
    if c is None:
        c = fn._sinit = {}
        for n in fn.nodes():
            if n.k == 'VarDecl' and n.v is not None and n.c: c.setdefault(n.v, []).append(n.c[0])
            elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>=') and n.c[0].k == 'DeclRefExpr' and n.c[0].v is not None:
                c.setdefault(n.c[0].v, []).append(None)
            elif n.k == 'UnaryOperator' and n.op in ('++', '--') and n.c[0].k == 'DeclRefExpr' and n.c[0].v is not None:
                c.setdefault(n.c[0].v, []).append(None)
            elif n.k == 'UnaryOperator' and n.op == '&' and n.c[0].k == 'DeclRefExpr' and n.c[0].v is not None:
                c.setdefault(n.c[0].v, []).append(None)
            elif n.k == 'CXXOperatorCallExpr' and n.op in ('=', '+=', '-=', '++', '--', '>>', '*=') and n.c and n.c[0] is not None and n.c[0].k == 'DeclRefExpr' and n.c[0].v is not None:
                c.setdefault(n.c[0].v, []).append(None)
    l = c.get(v)
    return l[0] if l and len(l) == 1 else None

def path(n, fn, P, env=None, depth=12):
    """string or None.  env: var -> path for parameters bound by a caller."""
    if n is None or depth <= 0: return None
    k = n.k
    if k == 'CXXThisExpr': return (env or {}).get('this', 'this')
    if k == 'DeclRefExpr':
        if n.g is not None: return 'g:' + n.g
        v = n.v
        if v is None: return None
        if env and v in env: return env[v]
        t = P.T(fn.vartype(v))
        if t['k'] in ('ref', 'rref', 'ptr') or t.get('tn') in SMART or t.get('r', '').find('terator') >= 0:
            d = fn.vardecl(v)
            if d is not None and 'rng' in d.x:
                r = fn.node(d.x['rng'])
                b = path(r, fn, P, env, depth - 1)
                return b + '[]' if b else f'v{v}'
            s = single_init(fn, v)
            if s is not None:
                b = path(s, fn, P, env, depth - 1)
                if b: return b
        return f'v{v}'
    if k == 'MemberExpr':
        if n.m is None:
            return 'g:' + n.g if n.g else None
        b = path(n.c[0], fn, P, env, depth - 1)
        return f'{b}.{n.m.rsplit("::", 1)[-1]}' if b else None
    if k == 'UnaryOperator' and n.op in ('*', '&'): return path(n.c[0], fn, P, env, depth - 1)
    if k in CASTS and n.c: return path(n.c[0], fn, P, env, depth - 1)
    if k == 'ArraySubscriptExpr':
        b = path(n.c[0], fn, P, env, depth - 1); return b + '[]' if b else None
    if k == 'CXXOperatorCallExpr':
        if n.op in ('*', '->'):
            o = n.c[0]; b = path(o, fn, P, env, depth - 1)
            if b is None: return None
            if P.tname(o.t) in SMART: return b
            return b if b.endswith('[]') else b + '[]'
        if n.op == '[]':
            b = path(n.c[0], fn, P, env, depth - 1); return b + '[]' if b else None
        return None
    if k == 'CXXMemberCallExpr':
        o = n.c[0]; f = n.f
        if f is None: return None
        b = path(o, fn, P, env, depth - 1)
        nm = P.decls[f]['n']
        if b is None: return None
        if nm == 'get' and P.tname(o.t) in SMART: return b
        if nm in ('front', 'back', 'at', 'top', 'begin', 'rbegin', 'find', 'end', 'rend', 'lower_bound', 'upper_bound') and f not in P.funcs: return b + '[]'
        if not call_args(n):
            g = trivial_getter(P, f)
            if g: return (b + g) if g.startswith('.') else g
        return None
    if k == 'CallExpr' and n.f and not call_args(n):
        g = trivial_getter(P, n.f)
        return g if g and g.startswith('g:') else None
    if k == 'CallExpr' and n.f and P.decls[n.f]['n'] in ('SafeAccess', 'SafeReference', 'vf_reverse', 'move', 'forward') and call_args(n):
        b = path(call_args(n)[0], fn, P, env, depth - 1)
        return (b + '[]') if b and P.decls[n.f]['n'] == 'SafeAccess' else b
    if k in CTORS and len(n.c) == 1 and n.c[0] is not None:
        d = P.decls.get(n.f, {})
        if d.get('copyctor') or d.get('movector'): return path(n.c[0], fn, P, env, depth - 1)
        if 'terator' in P.T(n.t).get('r', ''): return path(n.c[0], fn, P, env, depth - 1)
    return None

READERS = {'begin', 'end', 'find', 'rbegin', 'rend', 'front', 'back', 'at', 'top', 'data', 'lower_bound', 'upper_bound', 'count', 'size',
           'empty', 'equal_range', 'get', 'c_str', 'cbegin', 'cend', 'length', 'str', 'good', 'eof', 'fail', 'bad', 'base', 'size_type'}
WRITE_OPS = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='}

def _crosses(n, P):
    """does the expression p step from n's storage to what a pointer in it points to?"""
    p = n.p
    if p.k == 'UnaryOperator' and p.op == '*': return P.is_ptr(n.t)
    if p.k in ('MemberExpr', 'CXXMemberCallExpr') and p.get('arrow'): return P.is_ptr(n.t)
    if p.k == 'CXXOperatorCallExpr' and p.op in ('*', '->') and P.tname(n.t) in SMART: return True
    return False

def use_kind(n, P):
    """How is the storage denoted by n used where it stands?  'w' (modified), 'r' (read),
    'ref' (its address/reference escapes into something else that may modify it)."""
    return _use(n, P, 0)

def _use(n, P, d):
    r = _use1(n, P, d)
    if r in ('retref', 'retcref', 'ref') and n.p is not None and _crosses(n, P): return 'r'
    return r

def _use1(n, P, d):
    p = n.p
    if p is None or d > 20: return 'r'
    k = p.k
    if k in ('BinaryOperator', 'CompoundAssignOperator'):
        if p.op in WRITE_OPS and p.c[0] is n: return 'w'
        return 'r'
    if k == 'UnaryOperator':
        if p.op in ('++', '--'): return 'w'
        if p.op == '&': return _use(p, P, d + 1) if p.p is not None and p.p.k != 'VarDecl' else ('ref' if p.p is not None and p.p.k == 'VarDecl' and not P.T(P.pointee(p.p.t)).get('const') else 'r')
        if p.op == '*': return _use(p, P, d + 1)
        return 'r'
    if k == 'MemberExpr' and p.m: 
        # modifying a sub-object modifies this object; through a pointer it modifies the pointee
        return _use(p, P, d + 1)
    if k == 'ArraySubscriptExpr': return _use(p, P, d + 1) if p.c[0] is n else 'r'
    if k == 'CXXMemberCallExpr' and p.c[0] is n:
        f = p.f; dd = P.decls.get(f) if f else None
        if dd is None: return 'w'
        if dd.get('const'): 
            return 'r'
        if f not in P.funcs and dd['n'] in READERS:
            if dd['n'] in ('front', 'back', 'at', 'top', 'get', 'begin', 'rbegin', 'find'): 
                u = _use(p, P, d + 1)
                return 'w' if u == 'w' else 'r'
            return 'r'
        return 'w'
    if k == 'CXXOperatorCallExpr':
        dd = P.decls.get(p.f) if p.f else None
        if p.c and p.c[0] is n:
            if p.op in WRITE_OPS or p.op in ('++', '--'): 
                if p.op in ('<<=',): return 'w'
                return 'w'
            if p.op == '<<' or p.op == '>>': return 'w' if 'stream' in P.ts(n.t) else 'r'
            if p.op == '[]':
                tn = P.tname(n.t)
                if 'map' in tn and dd and not dd.get('const'): return 'w'
                return _use(p, P, d + 1)
            if p.op in ('*', '->'): return _use(p, P, d + 1)
            if p.op == '()' and dd and dd.get('mc') and not dd.get('const'): return 'w'
            if dd and dd.get('cls') is None and dd['pt'] and P.T(dd['pt'][0])['k'] == 'ref' and not P.is_const_ref(dd['pt'][0]): return 'w'
            return 'r'
        if dd and p.op == '>>': return 'w'
        return _arg(n, p, dd, P)
    if k == 'CallExpr' or k == 'CXXMemberCallExpr' or k in CTORS:
        dd = P.decls.get(p.f) if p.f else None
        return _arg(n, p, dd, P)
    if k == 'VarDecl':
        t = P.T(p.t)
        if t['k'] == 'ref' and not P.is_const_ref(p.t): return 'ref'
        return 'r'
    if k in CASTS:
        return _use(p, P, d + 1)
    if k == 'ReturnStmt':
        rt = P.T(p.fn.decl.get('rt', -1))
        if rt['k'] == 'ref': return 'retref' if not P.is_const_ref(p.fn.decl['rt']) else 'retcref'
        return 'r'
    if k == 'ConditionalOperator': return _use(p, P, d + 1) if p.c[0] is not n else 'r'
    return 'r'

def _arg(n, p, dd, P):
    if dd is None: return 'w'
    args = call_args(p)
    for a, t in zip(args, dd['pt']):
        if a is n:
            if P.T(t)['k'] in ('ref', 'rref') and not P.is_const_ref(t): return 'w'
            return 'r'
    return 'r'
