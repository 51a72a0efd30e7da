"""Abstract interpretation of operations on sequences of numbers (or of parts that act like numbers), seen from one
arbitrary index k.  Each sequence is abstracted to a size (empty, n, or another size m) and the value of its k-th
element, a polynomial in the k-th elements of the inputs.  Because k is arbitrary, what is shown of it holds for all."""
from .prog import Node, CALLS, CTORS, CASTS, SMART
from .flow import call_args, call_obj
from .keyed import Undecided, Wrong, const, sym, OPAQUE, padd, pmul, equal, pstr
from . import loops as L

OPS = {'PlusEquals', 'PlusEqualsTimes', 'TimesEquals', 'IsZero', 'Equals', 'Clone', 'Plus', 'Times'}
STEPS = 20000

class St:
    __slots__ = ('seq', 'env', 'atoms', 'inl', 'early')
    def __init__(s): s.seq = {}; s.env = {}; s.atoms = (); s.inl = None; s.early = False
    def copy(s):
        t = St(); t.seq = dict(s.seq); t.env = dict(s.env); t.atoms = s.atoms; t.inl = s.inl; t.early = s.early; return t

class Throw(Exception): pass

def konst(p):
    if not p: return 0
    if len(p) == 1:
        (m, c), = p
        if m == (): return c
    return None

class Interp:
    """run(f, sizes): list of (outcome, value, state); outcome 'ret' or 'throw'"""
    def __init__(s, P, data, objs):
        s.P = P; s.data = data; s.steps = 0; s.depth = 0; s.frames = 0; s.fresh = 0
    def start(s, f, sizes, params):
        st = St()
        for o, sz in sizes.items(): st.seq[o] = (sz, sym('l' if o == 'this' else 'r') if sz != '0' else frozenset())
        fr = 0
        for i, p in enumerate(f.params): st.env[(fr, p['v'])] = params[i]
        s.this = ['this']; s.fr = [fr]; s.fn = [f]
        return s.body(f, st)
    def body(s, f, st):
        out = []
        for k, v, t in s.stmt(f.body, st): out.append(('ret' if k in ('ret', 'next') else k, v if k != 'next' else None, t))
        return out
    # ---- statements: [(kind, value, state)]
    def stmt(s, n, st):
        s.steps += 1
        if s.steps > STEPS: raise Undecided('too many cases')
        if n is None or n.k in ('NullStmt',): return [('next', None, st)]
        k = n.k
        if k == 'CompoundStmt': return s.seqs(n.c, st)
        if k == 'DeclStmt': return s.seqs(n.c, st)
        if k == 'VarDecl': return s.decl(n, st)
        if k == 'ReturnStmt':
            if not n.c or n.c[0] is None: return [('ret', None, st)]
            out = []
            if s.P.ts(s.fn[-1].decl.get('rt', -1)) == 'bool':
                for b, t in s.cond(n.c[0], st): out.append(('ret', ('bool', b), t))
                return out
            return [('throw' if v == 'throw' else 'ret', v, t) for v, t in s.ev(n.c[0], st)]
        if k == 'IfStmt':
            cs = [c for c in n.c]
            if cs and cs[0] is not None and cs[0].k == 'DeclStmt': raise Undecided('declaration in a condition')
            out = []
            for b, t in s.cond(cs[0], st):
                if b == 'throw': out.append(('throw', None, t)); continue
                if b: out += s.stmt(cs[1], t)
                elif len(cs) > 2: out += s.stmt(cs[2], t)
                else: out.append(('next', None, t))
            return out
        if k == 'DoStmt' and not any(x.k in ('IfStmt', 'ForStmt', 'WhileStmt') for x in n.walk()):
            z = L.strip(n.c[1])
            if z is not None and z.k in ('IntegerLiteral', 'CXXBoolLiteralExpr') and not z.val: return s.stmt(n.c[0], st)
        if k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt'): return s.loop(n, st)
        if k == 'BreakStmt': return [('brk', None, st)]
        if k == 'ContinueStmt': return [('cont', None, st)]
        if k == 'CXXThrowExpr': return [('throw', None, st)]
        if k in ('DoStmt', 'SwitchStmt', 'CXXTryStmt', 'GotoStmt'): raise Undecided(k)
        if any(x.k == 'CXXThrowExpr' for x in n.walk()): 
            if n.k in ('ExprWithCleanups',): return [('throw', None, st)]
        if s.stream(n): return [('next', None, st)]
        return [('throw' if v == 'throw' else 'next', None, t) for v, t in s.ev(n, st)]
    def stream(s, n):
        n = L.strip(n)
        return n is not None and n.k == 'CXXOperatorCallExpr' and n.op == '<<' and 'stream' in s.P.ts(n.t)
    def seqs(s, cs, st):
        cur = [st]; out = []
        for c in cs:
            nxt = []
            for t in cur:
                for k, v, u in s.stmt(c, t):
                    if k == 'next': nxt.append(u)
                    else: out.append((k, v, u))
            cur = nxt
            if not cur: break
        return out + [('next', None, t) for t in cur]
    def decl(s, n, st):
        if n.v is None: return [('next', None, st)]
        ty = s.P.ts(n.t)
        if not n.c or n.c[0] is None or 'stream' in ty:
            t = st.copy(); t.env[(s.fr[-1], n.v)] = ('num', OPAQUE) if 'stream' in ty or not 'vector' in ty else None
            if 'vector' in ty: raise Undecided('a sequence of its own')
            return [('next', None, t)]
        e = n.c[0]
        if 'vector' in ty and s.P.T(n.t)['k'] not in ('ref', 'rref', 'ptr'):
            out = []
            a = e
            if e.k in CTORS:
                if not e.c: 
                    t = st.copy(); s.fresh += 1; o = f'n{s.fresh}'; t.seq[o] = ('0', frozenset()); t.env[(s.fr[-1], n.v)] = ('seq', o); return [('next', None, t)]
                if len(e.c) == 1: a = e.c[0]
                else:
                    # size and value
                    for (v, t) in s.ev(e.c[0], st):
                        for (w, u) in (s.ev(e.c[1], t) if e.c[1] is not None and e.c[1].k != 'CXXDefaultArgExpr' else [(('num', frozenset()), t)]):
                            if v[0] == 'size' and w[0] == 'num':
                                u = u.copy(); s.fresh += 1; o = f'n{s.fresh}'; u.seq[o] = (v[1], w[1]); u.env[(s.fr[-1], n.v)] = ('seq', o); out.append(('next', None, u))
                            else: raise Undecided('a sequence made in a way that is not followed')
                    return out
            for v, t in s.ev(a, st):
                t = t.copy(); s.fresh += 1; o = f'n{s.fresh}'
                if v[0] == 'seq': t.seq[o] = t.seq[v[1]]
                elif v[0] == 'size': t.seq[o] = (v[1], frozenset())
                else: raise Undecided('a sequence made in a way that is not followed')
                t.env[(s.fr[-1], n.v)] = ('seq', o); out.append(('next', None, t))
            return out
        out = []
        if ty.replace('const ', '') == 'bool':
            for b, t in s.cond(e, st):
                t = t.copy(); t.env[(s.fr[-1], n.v)] = ('bool', b); out.append(('next', None, t))
            return out
        for v, t in s.ev(e, st):
            if v == 'throw': out.append(('throw', None, t)); continue
            if v[0] == 'el' and s.P.T(n.t)['k'] not in ('ref', 'rref') and not s.ptr(n.t): v = ('num', s.read(v, t, n))
            t = t.copy(); t.env[(s.fr[-1], n.v)] = v; out.append(('next', None, t))
        return out
    def ptr(s, t):
        P = s.P; x = P.T(P.strip_ref(t))
        return x['k'] == 'ptr' or (x.get('tn') or '') in SMART
    # ---- loops: one round, at index k
    def loop(s, n, st):
        P = s.P; f = s.fn[-1]
        li = L.analyse(n, f, P)
        over = None
        if n.k == 'CXXForRangeStmt':
            rs = s.ev(f.node(n.x['rng']), st)
            if len(rs) != 1 or rs[0][0][0] != 'seq': raise Undecided('a loop over something else')
            over = rs[0][0][1]; st = rs[0][1]
        else:
            if li.full is not True or not li.over: raise Undecided('a loop that may leave elements out')
            over = s.resolve(li.over, st)
        size, _ = st.seq[over]
        if n.k == 'ForStmt' and n.c[0] is not None:
            r = s.stmt(n.c[0], st)
            if len(r) != 1 or r[0][0] != 'next': raise Undecided('a loop header')
            st = r[0][2]
        out = []
        if size == '0': return [('next', None, st)]
        t = st.copy(); old = t.inl
        if old is not None: raise Undecided('nested loops')
        t.inl = over
        if li.var is not None:
            t.env[(s.fr[-1], li.var)] = ('el', over) if li.kind == 'range' else (('it', over) if li.kind == 'iter' else ('k',))
            if li.kind == 'range':
                lv = next(c for c in n.c if c is not None and c.k == 'VarDecl')
                if P.T(lv.t)['k'] not in ('ref', 'rref') and not s.ptr(lv.t): t.env[(s.fr[-1], li.var)] = ('num', s.read(('el', over), t, n))
        written = {w for x in L.body(n).walk() for w in [s.localwrite(x)] if w is not None}
        for kd, v, u in s.stmt(L.body(n), t):
            u = u.copy(); u.inl = None
            if kd in ('brk', 'ret'): u.early = True
            if kd == 'brk': out.append(('next', None, u)); continue
            if kd == 'cont': kd = 'next'
            if kd == 'next':
                for w in written:
                    x = u.env.get((s.fr[-1], w))
                    if x is not None and x[0] == 'num': u.env[(s.fr[-1], w)] = ('num', OPAQUE)
            out.append((kd, v, u))
        return out
    def localwrite(s, x):
        if x.k in ('BinaryOperator', 'CompoundAssignOperator') and x.op and x.op.endswith('=') and x.op not in ('==', '!=', '<=', '>='):
            d = L.strip(x.c[0])
            if d is not None and d.k == 'DeclRefExpr': return d.v
        return None
    def resolve(s, p, st):
        parts = p.split('.')
        root = parts[0]
        if root == 'this': o = s.this[-1]
        elif root.startswith('v') and root[1:].isdigit():
            v = st.env.get((s.fr[-1], int(root[1:])))
            if v is None: raise Undecided('a loop over something else')
            if v[0] == 'seq' and len(parts) == 1: return v[1]
            if v[0] != 'obj': raise Undecided('a loop over something else')
            o = v[1]
        else: raise Undecided('a loop over something else')
        if len(parts) != 2: raise Undecided('a loop over something else')
        if parts[1] != s.data.rsplit('::', 1)[-1]: raise Undecided('a loop over other things')
        return o
    # ---- conditions: [(truth, state)]
    def cond(s, n, st):
        n = L.strip(n); P = s.P
        if n.k == 'UnaryOperator' and n.op == '!': return [((not b) if b != 'throw' else b, t) for b, t in s.cond(n.c[0], st)]
        if n.k == 'BinaryOperator' and n.op in ('&&', '||'):
            out = []
            for b, t in s.cond(n.c[0], st):
                if b == (n.op == '||'): out.append((b, t))
                else: out += s.cond(n.c[1], t)
            return out
        if n.k == 'CXXBoolLiteralExpr': return [(bool(n.val), st)]
        if n.k == 'ConditionalOperator':
            out = []
            for b, t in s.cond(n.c[0], st): out += s.cond(n.c[1] if b else n.c[2], t)
            return out
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('==', '!=', '<', '>', '<=', '>=') and len(n.c) == 2:
            out = []
            for a, t in s.ev(n.c[0], st):
                for b, u in s.ev(n.c[1], t): out += s.compare(a, b, n.op, u, n)
            return out
        if n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') == 'empty':
            out = []
            for v, t in s.ev(n.c[0], st):
                if v[0] != 'seq': out += s.aux(('empty', str(v)), t)
                else: out.append((t.seq[v[1]][0] == '0', t))
            return out
        out = []
        for v, t in s.ev(n, st):
            if v == 'throw': out.append(('throw', t))
            elif v[0] == 'bool': out.append((v[1], t))
            elif v[0] == 'num': out += s.atom('num', v[1], '!=', 0, t)
            elif v[0] == 'size': out.append((v[1] != '0', t))
            elif v[0] == 'pred': out += s.atom(*v[1:], t)
            elif v[0] == 'el': out += s.atom('num', s.read(v, t, n), '!=', 0, t)
            else: raise Undecided('a condition that is not followed')
        return out
    def num(s, v, t, n):
        if v[0] == 'num': return v[1]
        if v[0] == 'el': return s.read(v, t, n)
        return None
    def compare(s, a, b, op, t, n):
        if a[0] == 'size' or b[0] == 'size':
            def code(v):
                if v[0] == 'size': return v[1]
                if v[0] == 'num':
                    c = konst(v[1])
                    return int(c) if c is not None else None
                return None
            x, y = code(a), code(b)
            if x is None or y is None: raise Undecided('a size is compared with something else')
            if x == '0': x = 0
            if y == '0': y = 0
            if isinstance(x, str) and isinstance(y, str):
                if x == y: return [(op in ('==', '<=', '>='), t)]
                if op in ('==', '!='): return [(op == '!=', t)]
                return [(True, t), (False, t)]
            if isinstance(x, int) and isinstance(y, int): return [({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op], t)]
            if isinstance(x, int): x, y = y, x; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            # n >= 1 against a number
            if y == 0: return [({'==': False, '!=': True, '<': False, '>': True, '<=': False, '>=': True}[op], t)]
            if y == 1 and op in ('<', '>='): return [(op == '>=', t)]
            raise Undecided('a size is compared with a number')
        if a[0] == 'abs' or b[0] == 'abs':
            if b[0] == 'abs': a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            c = konst(b[1]) if b[0] == 'num' else None
            if c is None: raise Undecided('a distance is compared with something that is not a number')
            return s.atom('abs', a[1], op, c, t)
        if a[0] == 'k' or b[0] == 'k': return s.aux((str(a), str(b), op, '=='), t)
        x, y = s.num(a, t, n), s.num(b, t, n)
        if x is not None and y is not None:
            c = konst(y)
            if c is not None and konst(x) is None: return s.atom('num', x, op, c, t)
            return s.atom('num', padd(x, y, -1), op, 0, t)
        if a[0] == 'obj' and b[0] == 'obj': 
            if op in ('==', '!='): return [((a[1] == b[1]) == (op == '=='), t)]
        if op in ('==', '!='): return s.aux((min(str(a), str(b)), max(str(a), str(b)), op), t)
        raise Undecided('a comparison that is not followed')
    def atom(s, kind, p, op, c, t):
        k = konst(p)
        if k is not None and '?' not in str(p):
            v = abs(k) if kind == 'abs' else k
            return [({'==': v == c, '!=': v != c, '<': v < c, '>': v > c, '<=': v <= c, '>=': v >= c}[op], t)]
        for a, tr in t.atoms:
            if a == (kind, p, op, c): return [(tr, t)]
        out = []
        for tr in (True, False):
            u = t.copy(); u.atoms = t.atoms + (((kind, p, op, c), tr),); out.append((tr, u))
        return out
    def aux(s, key, t):
        return s.atom('aux', sym('aux:' + str(key[:-1])), key[-1] if key[-1] in ('==', '!=') else '==', 0, t)
    # ---- elements
    def read(s, v, t, n):
        size, val = t.seq[v[1]]
        lo = t.inl
        if size == '0': raise Wrong('takes an element of an empty sequence', n)
        if lo is not None and t.seq[lo][0] != size: raise Wrong('goes through one sequence with the indices of another of a different size', n)
        return val
    def setel(s, v, p, t, n):
        s.read(v, t, n)
        t = t.copy(); size, _ = t.seq[v[1]]; t.seq[v[1]] = (size, p); return t
    def combine(s, a, b, f, t, n):
        """whole sequences: a := f(a, b)"""
        (x, u), (y, w) = t.seq[a], t.seq[b]
        t = t.copy()
        if x == '0': t.seq[a] = (y, f(frozenset(), w)); return t
        if y == '0': return t
        if x != y: return None
        t.seq[a] = (x, f(u, w)); return t
    # ---- expressions: [(value, state)]
    def ev(s, n, st):
        s.steps += 1
        if s.steps > STEPS: raise Undecided('too many cases')
        m = n
        while m is not None:
            if 'FloatingToIntegral' in (m.x.get('ck'), m.x.get('ik')) and m.k not in ('IntegerLiteral', 'FloatingLiteral'): return s.trunc(n, m, st)
            if not (m.k in CASTS or m.k in ('ParenExpr', 'ExprWithCleanups')) or not m.c: break
            m = m.c[0]
        n = L.strip(n); P = s.P; k = n.k
        if k == 'IntegerLiteral' or k == 'FloatingLiteral': return [(('num', const(_f(n.val))), st)]
        if k == 'CXXBoolLiteralExpr': return [(('bool', bool(n.val)), st)]
        if k == 'CXXThisExpr': return [(('obj', s.this[-1]), st)]
        if k == 'DeclRefExpr':
            if n.v is None: return [(('num', OPAQUE), st)]
            v = st.env.get((s.fr[-1], n.v))
            if v is None: raise Undecided('a variable that is not followed')
            return [(v, st)]
        if k == 'UnaryOperator':
            if n.op == '*':
                out = []
                for v, t in s.ev(n.c[0], st):
                    if v[0] == 'it': v = ('el', v[1])
                    out.append((v, t))
                return out
            if n.op == '&': return s.ev(n.c[0], st)
            if n.op in ('-', '+'):
                out = []
                for v, t in s.ev(n.c[0], st):
                    x = s.num(v, t, n)
                    if x is None: raise Undecided('arithmetic')
                    out.append((('num', x if n.op == '+' else pmul(const(-1), x)), t))
                return out
            if n.op in ('++', '--'):
                v = s.ev(n.c[0], st)
                if len(v) == 1 and v[0][0][0] in ('k', 'it'): return v
                if len(v) == 1 and v[0][0][0] == 'num' and L.strip(n.c[0]).k == 'DeclRefExpr':
                    t = v[0][1].copy(); t.env[(s.fr[-1], L.strip(n.c[0]).v)] = ('num', padd(v[0][0][1], const(1 if n.op == '++' else -1))); return [(t.env[(s.fr[-1], L.strip(n.c[0]).v)], t)]
                raise Undecided('counting')
        if k == 'MemberExpr':
            out = []
            for v, t in s.ev(n.c[0], st):
                if v[0] != 'obj': raise Undecided('a member of something else')
                if n.m == s.data: out.append((('seq', v[1]), t))
                else: out.append((('field', v[1], n.m), t))
            return out
        if k in ('ArraySubscriptExpr',) or k == 'CXXOperatorCallExpr' and n.op == '[]': return s.index(n.c[0], n.c[1], st, n)
        if k == 'CXXOperatorCallExpr':
            if n.op in ('*', '->') and len(n.c) == 1:
                return [((('el', v[1]) if v[0] == 'it' else v), t) for v, t in s.ev(n.c[0], st)]
            if n.op in ('++', '--'): return s.ev(n.c[0], st)
            if n.op == '=': return s.assign(n, st)
            if n.op in ('==', '!='): return [(('bool', b), t) for b, t in s.cond(n, st)]
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            if n.op in ('=', '+=', '-=', '*=', '/=', '&=', '|='): return s.assign(n, st)
            if n.op in ('+', '-', '*', '/'):
                out = []
                for a, t in s.ev(n.c[0], st):
                    for b, u in s.ev(n.c[1], t): out.append((s.arith(a, b, n.op, u, n), u))
                return out
            if n.op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'): return [(('bool', b), t) for b, t in s.cond(n, st)]
            if n.op == ',':
                out = []
                for a, t in s.ev(n.c[0], st): out += s.ev(n.c[1], t)
                return out
        if k == 'ConditionalOperator':
            out = []
            for b, t in s.cond(n.c[0], st): out += s.ev(n.c[1] if b else n.c[2], t)
            return out
        if k in CTORS:
            a = [x for x in n.c if x is not None and x.k != 'CXXDefaultArgExpr']
            if len(a) == 1 and s.ptr(n.t): return s.ev(a[0], st)
            if len(a) == 1 and 'vector' in s.P.ts(n.t): return s.ev(a[0], st)
            raise Undecided('an object made in a way that is not followed')
        if k in CALLS: return s.call(n, st)
        raise Undecided(k)
    def trunc(s, n, m, st):
        out = []
        vs = s.ev(m.c[0], st) if m.x.get('ck') == 'FloatingToIntegral' and m.c else s.plain(m, st)
        for v, t in vs:
            x = s.num(v, t, n)
            c = konst(x) if x is not None else None
            out.append((('num', const(int(c)) if c is not None else sym(f'whole({pstr(x)})') if x is not None else OPAQUE), t))
        return out
    def plain(s, m, st):
        ik = m.x.pop('ik', None)
        try: return s.ev(m, st)
        finally: m.x['ik'] = ik
    def arith(s, a, b, op, t, n):
        x, y = s.num(a, t, n), s.num(b, t, n)
        if a[0] == 'size' or b[0] == 'size': raise Undecided('arithmetic on sizes')
        if x is None or y is None: return ('num', OPAQUE)
        if op == '+': return ('num', padd(x, y))
        if op == '-': return ('num', padd(x, y, -1))
        if op == '*': return ('num', pmul(x, y))
        c = konst(y)
        if c: return ('num', pmul(x, const(1 / c)))
        return ('num', OPAQUE)
    def index(s, o, i, st, n):
        out = []
        for v, t in s.ev(o, st):
            for w, u in s.ev(i, t):
                if v[0] == 'seq':
                    if w[0] == 'k': out.append((('el', v[1]), u))
                    else: raise Undecided('an element picked by number')
                elif v[0] == 'field':
                    out.append((('num', sym(('l' if v[1] == 'this' else 'r') + '.' + v[2].rsplit('::', 1)[-1])), u) if w[0] == 'k' else (('num', OPAQUE), u))
                else: raise Undecided('an element of something else')
        return out
    def assign(s, n, st):
        out = []
        d = L.strip(n.c[0])
        if d.k == 'DeclRefExpr' and s.P.ts(d.t).replace('const ', '') == 'bool' and st.env.get((s.fr[-1], d.v), (0,))[0] == 'bool':
            for b, t in s.cond(n.c[1], st):
                if b == 'throw': out.append(('throw', t)); continue
                t = t.copy(); o = t.env[(s.fr[-1], d.v)][1]
                t.env[(s.fr[-1], d.v)] = ('bool', {'=': b, '&=': o and b, '|=': o or b}[n.op]); out.append((t.env[(s.fr[-1], d.v)], t))
            return out
        for v, t in s.ev(n.c[1], st):
            if v == 'throw': out.append((v, t)); continue
            for w, u in s.ev(n.c[0], t):
                if w[0] == 'el':
                    if s.ptr(d.t) and n.op == '=':
                        x = s.num(v, u, n)
                        if x is None: raise Undecided('a part replaced')
                        out.append((w, s.setel(w, x, u, n))); continue
                    x = s.num(v, u, n)
                    if x is None: x = OPAQUE
                    if n.op == '/=' and x is not OPAQUE and not konst(x): x = OPAQUE; r = OPAQUE
                    else:
                        cur = s.read(w, u, n)
                        r = {'=': lambda: x, '+=': lambda: padd(cur, x), '-=': lambda: padd(cur, x, -1), '*=': lambda: pmul(cur, x), '/=': lambda: pmul(cur, const(1 / konst(x)))}[n.op]()
                    out.append((w, s.setel(w, r, u, n)))
                elif w[0] == 'seq':
                    if n.op != '=' or v[0] != 'seq': raise Undecided('a sequence assigned')
                    u = u.copy(); u.seq[w[1]] = u.seq[v[1]]; out.append((w, u))
                elif w[0] == 'num' and d.k == 'DeclRefExpr' and d.v is not None:
                    r = v if n.op == '=' else s.arith(w, v, n.op[0], u, n) if n.op[0] in '+-*/' else ('num', OPAQUE)
                    if r[0] == 'el' : r = ('num', s.read(r, u, n))
                    u = u.copy(); u.env[(s.fr[-1], d.v)] = r; out.append((r, u))
                elif w[0] == 'field' or w[0] == 'num': out.append((w, u))
                elif w[0] in ('obj', 'size', 'bool', 'it') and d.k == 'DeclRefExpr' and n.op == '=':
                    u = u.copy(); u.env[(s.fr[-1], d.v)] = v; out.append((v, u))
                else: raise Undecided('an assignment that is not followed')
        return out
    def call(s, n, st):
        P = s.P; d = P.decls.get(n.f)
        if d is None: raise Undecided('a call that is not followed')
        nm = d['n']
        o = call_obj(n); args = call_args(n)
        if nm in ('fabs', 'abs', 'fabsf') and len(args) == 1:
            out = []
            for v, t in s.ev(args[0], st):
                x = s.num(v, t, n); out.append((('abs', x) if x is not None else ('num', OPAQUE), t))
            return out
        if o is not None:
            out = []
            for v, t in s.ev(o, st):
                if v[0] == 'seq': out += s.seqcall(nm, v, args, t, n)
                elif v[0] == 'el':
                    if nm in ('get', 'operator->', 'operator*'): out.append((v, t))
                    else: out += s.elcall(nm, v, args, t, n, d)
                elif v[0] == 'obj':
                    if nm in ('get', 'operator->', 'operator*'): out.append((v, t))
                    else: out += s.objcall(nm, v, args, t, n, d)
                elif v[0] == 'it' and nm in ('operator->', 'operator*', 'get'): out.append((('el', v[1]), t))
                elif v[0] == 'field' and nm in ('size', 'empty'): out.append((('field', v[1], v[2] + '.size'), t))
                elif d.get('const'): out.append((('num', OPAQUE), t))
                else: raise Undecided(f'a call of {nm}')
            return out
        if nm in ('move', 'forward', 'ref', 'cref', 'static_pointer_cast', 'dynamic_pointer_cast', 'make_pair') and len(args) == 1: return s.ev(args[0], st)
        if nm in ('size',): 
            return s.ev(args[0], st)
        f = P.funcs.get(n.f)
        if f is not None: return s.inline(f, None, args, st, n)
        if nm in ('operator<<',): return [(('num', OPAQUE), st)]
        raise Undecided(f'a call of {nm}')
    def seqcall(s, nm, v, args, t, n):
        size, val = t.seq[v[1]]
        if nm in ('size', 'length'): return [(('size', size), t)]
        if nm in ('begin', 'cbegin'): return [(('it', v[1]), t)]
        if nm in ('end', 'cend'): return [(('end', v[1]), t)]
        if nm == 'at': return [(('el', v[1]), u) for w, u in s.ev(args[0], t) if w[0] == 'k' or s.no('an element picked by number')]
        if nm in ('reserve',): return [(v, t)]
        if nm == 'clear': t = t.copy(); t.seq[v[1]] = ('0', frozenset()); return [(v, t)]
        if nm in ('resize', 'assign'):
            out = []
            for w, u in s.ev(args[0], t):
                if w[0] == 'num' and konst(w[1]) == 0: w = ('size', '0')
                if w[0] != 'size': raise Undecided('a size that is not followed')
                fill = frozenset()
                if len(args) > 1 and args[1] is not None and args[1].k != 'CXXDefaultArgExpr':
                    r = s.ev(args[1], u)
                    if len(r) != 1 or s.num(r[0][0], u, n) is None: raise Undecided('a fill value')
                    fill = s.num(r[0][0], u, n)
                u = u.copy(); z, val = u.seq[v[1]]
                if nm == 'assign' or z == '0': u.seq[v[1]] = (w[1], fill if w[1] != '0' else frozenset())
                elif w[1] == '0': u.seq[v[1]] = ('0', frozenset())
                elif z != w[1]: u.seq[v[1]] = (w[1], OPAQUE)
                out.append((v, u))
            return out
        if nm == 'swap':
            r = s.ev(args[0], t)
            if len(r) == 1 and r[0][0][0] == 'seq':
                u = r[0][1].copy(); a, b = v[1], r[0][0][1]; u.seq[a], u.seq[b] = u.seq[b], u.seq[a]; return [(v, u)]
        if nm == 'push_back' and t.inl is not None:
            # built one element per round
            out = []
            for w, u in s.ev(args[0], t):
                x = s.num(w, u, n)
                if x is None: raise Undecided('an element that is not followed')
                if u.seq[v[1]][0] not in ('0',): raise Undecided('a sequence built in several steps')
                u = u.copy(); u.seq[v[1]] = (u.seq[u.inl][0], x); out.append((v, u))
            return out
        raise Undecided(f'{nm} on a sequence')
    def no(s, w): raise Undecided(w)
    def one(s, a, t, n):
        r = s.ev(a, t)
        if len(r) != 1: raise Undecided('an argument with several cases')
        return r[0]
    def elcall(s, nm, v, args, t, n, d):
        """an operation of a part, taken to do what that operation is for"""
        cur = s.read(v, t, n)
        def val(a, t):
            w, t = s.one(a, t, n)
            x = s.num(w, t, n)
            if x is None: raise Undecided('an argument that is not followed')
            return x, t
        if nm == 'PlusEquals': x, t = val(args[0], t); return [(v, s.setel(v, padd(cur, x), t, n))]
        if nm == 'PlusEqualsTimes':
            x, t = val(args[0], t); y, t = val(args[1], t)
            return [(v, s.setel(v, padd(cur, pmul(x, y)), t, n))]
        if nm == 'TimesEquals': x, t = val(args[0], t); return [(v, s.setel(v, pmul(cur, x), t, n))]
        if nm == 'Plus': x, t = val(args[0], t); return [(('num', padd(cur, x)), t)]
        if nm == 'Times': x, t = val(args[0], t); return [(('num', pmul(cur, x)), t)]
        if nm == 'Clone': return [(('num', cur), t)]
        if nm == 'IsZero': return [(('pred', 'num', cur, '==', 0), t)]
        if nm == 'Equals': x, t = val(args[0], t); return [(('pred', 'num', padd(cur, x, -1), '==', 0), t)]
        if d.get('const'): return [(('num', OPAQUE), t)]
        raise Undecided(f'{nm} on a part')
    def objcall(s, nm, v, args, t, n, d):
        P = s.P
        f = P.funcs.get(n.f)
        if nm in OPS and not (f is s.fn[0]) :
            def obj(a, t):
                w, t = s.one(a, t, n)
                if w[0] != 'obj': raise Undecided('an argument that is not followed')
                return w[1], t
            def numb(a, t):
                w, t = s.one(a, t, n); x = s.num(w, t, n)
                if x is None: raise Undecided('an argument that is not followed')
                return x, t
            if nm in ('Clone', 'Plus', 'Times'):
                t = t.copy(); s.fresh += 1; c = f'n{s.fresh}'; t.seq[c] = t.seq[v[1]]
                if nm == 'Clone': return [(('obj', c), t)]
                if nm == 'Plus':
                    b, t = obj(args[0], t); t2 = s.combine(c, b, lambda x, y: padd(x, y), t, n)
                    return [(('obj', c), t2)] if t2 is not None else [('throw', t)]
                x, t = numb(args[0], t); z, q = t.seq[c]; t = t.copy(); t.seq[c] = (z, pmul(q, x) if z != '0' else q); return [(('obj', c), t)]
            if nm == 'PlusEquals':
                b, t = obj(args[0], t); t2 = s.combine(v[1], b, lambda x, y: padd(x, y), t, n)
                return [(v, t2)] if t2 is not None else [('throw', t)]
            if nm == 'PlusEqualsTimes':
                b, t = obj(args[0], t); p, t = numb(args[1], t); t2 = s.combine(v[1], b, lambda x, y: padd(x, pmul(y, p)), t, n)
                return [(v, t2)] if t2 is not None else [('throw', t)]
            if nm == 'TimesEquals':
                x, t = numb(args[0], t); z, q = t.seq[v[1]]; t = t.copy(); t.seq[v[1]] = (z, pmul(q, x) if z != '0' else q); return [(v, t)]
            if nm == 'IsZero':
                z, q = t.seq[v[1]]
                if z == '0': return [(('bool', True), t)]
                u = t.copy(); u.atoms += ((('num', q, '==', 0), True),)
                w = t.copy(); w.atoms += ((('aux', sym('aux:some not zero'), '==', 0), True),)
                return [(('bool', True), u), (('bool', False), w)]
            raise Undecided(f'{nm} of another kind')
        if f is not None and not d.get('virt'): return s.inline(f, v, args, t, n)
        if d.get('const'): return [(('num', OPAQUE), t)]
        raise Undecided(f'a call of {nm}')
    def inline(s, f, v, args, st, n):
        if s.depth > 3: raise Undecided('calls nested too deep')
        if len(args) != len(f.params): raise Undecided('default arguments')
        cur = [([], st)]
        for a, p in zip(args, f.params):
            nxt = []
            for vs, t in cur:
                for w, u in s.ev(a, t):
                    if w[0] == 'el' and s.P.T(p['t'])['k'] not in ('ref', 'rref') and not s.ptr(p['t']): w = ('num', s.read(w, u, n))
                    if w[0] == 'seq' and s.P.T(p['t'])['k'] not in ('ref', 'rref'):
                        u = u.copy(); s.fresh += 1; u.seq[f'n{s.fresh}'] = u.seq[w[1]]; w = ('seq', f'n{s.fresh}')
                    nxt.append((vs + [w], u))
            cur = nxt
        out = []
        for vs, t in cur:
            s.frames += 1; fr = s.frames; t = t.copy()
            for p, w in zip(f.params, vs): t.env[(fr, p['v'])] = w
            s.fr.append(fr); s.fn.append(f); s.this.append(v[1] if v else None); s.depth += 1
            inl = t.inl
            for k, w, u in s.body(f, t):
                u = u.copy(); u.inl = inl
                if k == 'throw': out.append(('throw', u))
                elif w is not None and w[0] == 'el' and s.P.T(f.decl.get('rt', -1))['k'] not in ('ref', 'rref') and not s.ptr(f.decl.get('rt', -1)): out.append((('num', s.read(w, u, n)), u))
                else: out.append((w if w is not None else ('num', OPAQUE), u))
            s.fr.pop(); s.fn.pop(); s.this.pop(); s.depth -= 1
        return out

def _f(v):
    from fractions import Fraction
    try: return Fraction(str(v))
    except Exception: return Fraction(repr(float(v)))
