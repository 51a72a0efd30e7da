"""Which elements of which container does a loop go over?"""
from .prog import Node, CALLS, CTORS, CASTS
from .paths import path, single_init
from .flow import call_args

LOOPS = ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt')

def strip(n):
    while n is not None and n.c and (n.k in CASTS or n.k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') or (n.k in CTORS and len(n.c) == 1 and n.c[0] is not None and n.fn.prog.decls.get(n.f, {}).get('copyctor') or n.k in CTORS and len(n.c) == 1 and 'terator' in n.fn.prog.ts(n.t))): n = n.c[0]
    return n

def size_of(n, fn, P, depth=4):
    """(container path, offset) when n is container.size() + offset"""
    n = strip(n)
    if n is None or depth == 0: return None
    if n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') in ('size', 'length') and n.c:
        p = path(n.c[0], fn, P); return (p, 0) if p else None
    if n.k == 'BinaryOperator' and n.op in ('+', '-'):
        a, b = strip(n.c[0]), strip(n.c[1])
        if b is not None and b.k == 'IntegerLiteral':
            s = size_of(a, fn, P, depth - 1)
            if s: return (s[0], s[1] + (int(b.val) if n.op == '+' else -int(b.val)))
        return None
    if n.k == 'DeclRefExpr' and n.v is not None:
        s = single_init(fn, n.v)
        if s is not None: return size_of(s, fn, P, depth - 1)
    if n.k == 'CXXMemberCallExpr' and n.f in P.funcs and not call_args(n) and n.c:
        g = P.funcs[n.f]; b = g.body
        if b.k == 'CompoundStmt' and len(b.c) == 1 and b.c[0].k == 'ReturnStmt' and b.c[0].c:
            s = size_of(b.c[0].c[0], g, P, depth - 1)
            o = path(n.c[0], fn, P)
            if s and o and s[0].startswith('this'): return (o + s[0][4:], s[1])
    return None

def iter_of(n, fn, P):
    """(container path, 'begin'|'end')"""
    n = strip(n)
    if n is None: return None
    if n.k == 'DeclRefExpr' and n.v is not None:
        s = single_init(fn, n.v)
        return iter_of(s, fn, P) if s is not None else None
    if n.k == 'CXXOperatorCallExpr' and n.op in ('+', '-') and len(n.c) == 2:
        b = iter_of(n.c[0], fn, P)
        return (b[0], b[1] + n.op) if b else None
    if n.k in CALLS and n.f in P.decls and P.decls[n.f]['n'] in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend'):
        o = n.c[0] if n.k == 'CXXMemberCallExpr' else (call_args(n) or [None])[0]
        p = path(o, fn, P) if o is not None else None
        nm = P.decls[n.f]['n'].lstrip('c')
        return (p, {'begin': 'begin', 'rbegin': 'begin', 'end': 'end', 'rend': 'end'}[nm]) if p else None
    return None

def writes(fn, v, within=None):
    out = []
    for n in (within.walk() if within is not None else fn.nodes()):
        if n.k in ('BinaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr') and n.op and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>=') and n.c and n.c[0] is not None and n.c[0].k == 'DeclRefExpr' and n.c[0].v == v: out.append(n)
        elif n.k in ('UnaryOperator', 'CXXOperatorCallExpr') and n.op in ('++', '--') and n.c and n.c[0] is not None and n.c[0].k == 'DeclRefExpr' and n.c[0].v == v: out.append(n)
    return out

class Loop:
    """over: container path or None; var; full: True / False / None (not known); why"""
    def __init__(s, node, over=None, var=None, full=None, why='', kind=None): s.node = node; s.over = over; s.var = var; s.full = full; s.why = why; s.kind = kind

def body(n):
    return n.c[-1] if n.k != 'DoStmt' else n.c[0]

def analyse(n, fn, P):
    if n.k == 'CXXForRangeStmt':
        r = fn.node(n.x['rng']); p = path(r, fn, P)
        lv = next((c for c in n.c if c is not None and c.k == 'VarDecl'), None)
        return Loop(n, p, lv.v if lv is not None else None, True, '', 'range')
    if n.k not in ('ForStmt', 'WhileStmt'): return Loop(n)
    cond = n.c[1] if n.k == 'ForStmt' else n.c[0]
    conj = []
    st = [cond]
    while st:
        c = strip(st.pop())
        if c is None: continue
        if c.k == 'BinaryOperator' and c.op == '&&': st += [c.c[1], c.c[0]]
        else: conj.append(c)
    for c in conj:
        if c.k not in ('BinaryOperator', 'CXXOperatorCallExpr') or c.op not in ('<', '!=', '>', '<=', '>='): continue
        a, b = strip(c.c[0]), strip(c.c[1]); op = c.op
        if a is None or b is None: continue
        moved = 0
        if a.k == 'BinaryOperator' and a.op in ('+', '-') and strip(a.c[0]) is not None and strip(a.c[0]).k == 'DeclRefExpr' and strip(a.c[1]) is not None and strip(a.c[1]).k == 'IntegerLiteral':
            moved = -int(strip(a.c[1]).val) if a.op == '+' else int(strip(a.c[1]).val); a = strip(a.c[0])
        if not (a.k == 'DeclRefExpr' and a.v is not None and writes(fn, a.v, n)): a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if not (a.k == 'DeclRefExpr' and a.v is not None): continue
        ws = writes(fn, a.v, n)
        if not ws: continue
        init = initial(fn, a.v, n)
        extra = len(conj) > 1
        it = iter_of(b, fn, P)
        if it and it[1] == 'end' and op in ('!=', '<'):
            i = iter_of(init, fn, P) if init is not None else None
            if i is None: return Loop(n, it[0], a.v, None, '', 'iter')
            inc = all(w.op == '++' for w in ws)
            full = None if extra else (i == (it[0], 'begin') and inc and len(ws) == 1)
            return Loop(n, it[0], a.v, False if i == (it[0], 'begin+') and inc else (full if full or extra else None), 'it does not start at the first', 'iter')
        s = size_of(b, fn, P)
        if s and op in ('<', '!=', '<='):
            off = s[1] + (1 if op == '<=' else 0) + moved
            i = strip(init) if init is not None else None
            start = int(i.val) if i is not None and i.k == 'IntegerLiteral' else None
            steps = [w for w in ws if w.op == '++']
            if off != 0: return Loop(n, s[0], a.v, False, f'it goes to size{off:+d}', 'index')
            if start is not None and start != 0: return Loop(n, s[0], a.v, False, f'it starts at {start}', 'index')
            if len(ws) == 1 and not steps:
                w = ws[0]; r = strip(w.c[1]) if len(w.c) > 1 else None
                if w.op == '+=' and r is not None and r.k == 'IntegerLiteral' and int(r.val) != 1: return Loop(n, s[0], a.v, False, f'it goes in steps of {r.val}', 'index')
                return Loop(n, s[0], a.v, None, '', 'index')
            if start == 0 and len(ws) == 1: return Loop(n, s[0], a.v, None if extra else True, '', 'index')
            return Loop(n, s[0], a.v, None, '', 'index')
        z = strip(b)
        if z is not None and z.k == 'IntegerLiteral' and op in ('>=', '>'):
            i = size_of(init, fn, P) if init is not None else None
            if i is None: continue
            dec = len(ws) == 1 and ws[0].op == '--'
            lo = int(z.val) + (1 if op == '>' else 0)
            ok = dec and not extra and ((lo == 0 and i[1] == -1))
            if dec and not extra and (lo != 0 or i[1] < -1): return Loop(n, i[0], a.v, False if not (lo == 1 and i[1] == 0) else None, f'it leaves out elements at an end', 'index')
            return Loop(n, i[0], a.v, True if ok else None, '', 'index')
    return Loop(n)

def initial(fn, v, loop):
    """the value v has when the loop begins (its declaration, or the last assignment before the loop in the same block)"""
    if loop.k == 'ForStmt' and loop.c[0] is not None:
        for x in loop.c[0].walk():
            if x.k == 'VarDecl' and x.v == v: return x.c[0] if x.c else None
            if x.k in ('BinaryOperator', 'CXXOperatorCallExpr') and x.op == '=' and x.c[0] is not None and x.c[0].k == 'DeclRefExpr' and x.c[0].v == v: return x.c[1]
    last = None
    inside = {x.i for x in loop.walk()}
    d = fn.vardecl(v)
    if d is not None and d.i not in inside: last = d.c[0] if d.c else None
    for w in writes(fn, v):
        if w.i in inside: continue
        if w.i < loop.i and w.op == '=': last = w.c[1]
        elif w.i < loop.i: return None
    return last

def leaves(loop, fn):
    """statements in the body that leave the loop or skip the rest of a round"""
    out = []
    def go(n, depth):
        for c in n.c:
            if c is None: continue
            if c.k in ('BreakStmt', 'ContinueStmt'):
                if depth == 0: out.append(c)
            elif c.k in ('ReturnStmt', 'GotoStmt'): out.append(c)
            elif c.k == 'LambdaExpr': continue
            go(c, depth + (1 if c.k in LOOPS or (c.k == 'SwitchStmt') else 0))
    b = body(loop)
    if b is not None: go_root = type('R', (), {'c': [b]}); go(go_root, 0)
    return out

def enclosing(n):
    return [a for a in n.ancestors() if a.k in LOOPS and not once(a)]

def once(a):
    """the inner loop of the stand-in for BOOST_FOREACH over a variable declared before (one round)"""
    if a.k != 'ForStmt' or len(a.c) < 2: return False
    c = strip(a.c[1])
    if c is None or c.k != 'DeclRefExpr' or c.v is None: return False
    d = a.fn.vardecl(c.v)
    return d is not None and d.x.get('n') == 'vf_once'
