"""Abstract interpretation of code over key-value collections, seen from one arbitrary key k.

A collection is abstracted to: may hold keys below k, may hold k (with a value that is a polynomial in the
symbols of the inputs), may hold keys above k.  An iterator points at a key below k (B), at k (K), at the first
key above k (A1), at a later one (A2), or past the end (E).  Because k is arbitrary, what is shown of k holds
for every key, and an order that is wrong between any two keys is wrong for one of them taken as k."""
from fractions import Fraction
from .prog import Node, CALLS, CTORS, CASTS
from .flow import call_args
from . import loops as L

class Undecided(Exception): pass
class Wrong(Exception):
    def __init__(s, msg, node): s.msg = msg; s.node = node

# ---- polynomials: frozenset of (monomial, coefficient)
def const(c): return frozenset({((), Fraction(c))}) if c else frozenset()
def sym(x): return frozenset({((x,), Fraction(1))})
OPAQUE = frozenset({(('?',), Fraction(1))})
def _norm(d): return frozenset((m, Fraction(1) if '?' in m and set(m) == {'?'} else c) for m, c in d.items() if c)
def padd(a, b, s=1):
    d = dict(a)
    for m, c in b: d[m] = d.get(m, 0) + s * c if '?' not in m else Fraction(1)
    return _norm(d)
def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            mm = tuple(sorted(m + n))
            if set(mm) == {'?'}: mm = ('?',)
            d[mm] = d.get(mm, 0) + c * e if mm != ('?',) else Fraction(1)
    return _norm(d)
def pstr(p):
    if not p: return '0'
    return ' + '.join((f'{c}*' if c != 1 or not m else '') + ('*'.join(m) if m else '1').replace('1*', '') if m else str(c) for m, c in sorted(p))
def subst0(p, zs):
    return frozenset((m, c) for m, c in p if not any(z in m for z in zs))
def equal(a, b, zeros):
    """a == b, given that every polynomial in zeros is zero"""
    d = padd(a, b, -1)
    if not d: return True
    zs = {m[0] for z in zeros if len(z) == 1 for m, c in z if len(m) == 1}
    d = subst0(d, zs)
    rows = [dict(subst0(z, zs)) for z in zeros]
    d = dict(d)
    for r in rows:
        if not r: continue
        piv = sorted(r)[0]
        for q in rows:
            if q is not r and piv in q:
                f = q[piv] / r[piv]
                for m, c in r.items():
                    q[m] = q.get(m, 0) - f * c
                    if not q[m]: del q[m]
        if piv in d:
            f = d[piv] / r[piv]
            for m, c in r.items():
                d[m] = d.get(m, 0) - f * c
                if not d[m]: del d[m]
    return not d

class Seq:
    """contents of a collection"""
    __slots__ = ('ord', 'B', 'K', 'A', 'val', 'w')
    def __init__(s, ord, B, K, A, val, w=None): s.ord = ord; s.B = B; s.K = K; s.A = A; s.val = val; s.w = w
    def key(s): return (s.ord, s.B, s.K, s.A, s.val, s.w)
    def __eq__(s, o): return isinstance(o, Seq) and s.key() == o.key()
    def __hash__(s): return hash(s.key())
    def copy(s, **k):
        r = Seq(*s.key())
        for a, b in k.items(): setattr(r, a, b)
        return r
    def firsts(s, frm='B'):
        """classes that the first element at or after class frm may have"""
        if frm == 'B' and s.B: return ['B']
        if frm in 'BK' and s.K: return ['K']
        return ['A1'] if s.A else ['E']
    def succ(s, at):
        if at == 'B': return ['B'] + s.firsts('K')
        if at == 'K': return ['A1'] if s.A else ['E']
        if at in ('A1', 'A2'): return ['A2', 'E']
        raise Undecided('past the end')

RANK = {'B': 0, 'K': 1, 'A1': 2, 'A2': 3, 'E': 4}
def cls(at): return at[0]

class State:
    __slots__ = ('cells', 'seqs', 'zeros', 'h')
    def __init__(s, cells=(), seqs=(), zeros=frozenset()): s.cells = dict(cells); s.seqs = dict(seqs); s.zeros = zeros; s.h = None
    def copy(s): return State(s.cells, s.seqs, s.zeros)
    def key(s): return (tuple(sorted(s.cells.items(), key=repr)), tuple(sorted(s.seqs.items(), key=repr)), s.zeros)
    def __eq__(s, o): return s.key() == o.key()
    def __hash__(s):
        if s.h is None: s.h = hash((frozenset(s.cells.items()), frozenset(s.seqs.items()), s.zeros))
        return s.h

class Machine:
    """values: ('p', poly) ('key', class) ('it', seq, at) ('el', seq, at) ('pair', class, poly) ('seq', id) ('copy', Seq) ('b', True/False/None)
    ('lv', cell) ('mref', seq, class) ('top',) ('W', seq) ('dist', seq, what)"""
    def __init__(s, P, limit=20000): s.P = P; s.steps = 0; s.limit = limit; s.depth = 0; s.trace = []
    # ---- types
    def isseq(s, t):
        P = s.P; n = P.tname(t)
        return s.ordered(t) is not None
    def ordered(s, t):
        P = s.P; x = P.T(P.strip_ref(t)); n = x.get('tn') or x.get('r') or ''
        if n.endswith('SparseVector'): return True
        ta = x.get('ta') or ()
        if n in ('std::vector',) and ta and P.ts(ta[0]).replace('const ', '').startswith('std::pair<int, double'): return True
        if n in ('boost::unordered::unordered_map', 'boost::unordered_map', 'std::unordered_map', 'std::map') and len(ta) >= 2 and P.ts(ta[0]) == 'int' and P.ts(ta[1]) == 'double': return False
        return None
    # ---- cells
    def cell(s, v): return (s.depth, v)
    def find(s, st, v):
        c = (s.depth, v)
        if c not in st.cells: raise Undecided(f'variable {v}')
        x = st.cells[c]
        while x[0] == 'lv': c = x[1]; x = st.cells[c]
        return c, x
    def rv(s, st, x):
        """lvalue to value: list of (value, state)"""
        if x[0] == 'lv': return s.rv(st, st.cells[x[1]])
        if x[0] == 'mref': return ('p', st.seqs[x[1]].val if x[2] == 'K' else OPAQUE)
        if x[0] == 'el': return ('pair', cls(x[2]), s.elval(st, x))
        return x
    def elval(s, st, x):
        if x[2] == 'E': raise Undecided('read past the end')
        if x[2] == 'W':
            w = st.seqs[x[1]].w
            if w[0] is None: raise Undecided('stale')
            return w[1] if w[0] == 'K' else OPAQUE
        q = st.seqs[x[1]]
        return q.val if x[2] == 'K' else OPAQUE
    def elcls(s, st, x):
        if x[2] == 'W':
            w = st.seqs[x[1]].w
            if w[0] is None: raise Undecided('stale')
            return w[0]
        if x[2] == 'E': raise Undecided('read past the end')
        return cls(x[2])
    # ---- expressions: yield (value, state)
    def ev(s, n, st):
        s.steps += 1
        if s.steps > s.limit * 20: raise Undecided('too many steps')
        n0 = n
        while n is not None and (n.k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr') or n.k in CASTS and not s.P.T(n.t)['k'] in ('int',)) and n.c: n = n.c[0]
        P = s.P; k = n.k
        if k in CASTS:
            return s.ev(n.c[0], st)
        if k == 'DeclRefExpr':
            if n.v is not None:
                c, x = s.find(st, n.v)
                if x[0] in ('seq', 'el', 'mref', 'sec'): return [(x, st)]
                return [(('lv', c), st)]
            raise Undecided('global')
        if k == 'IntegerLiteral' or k == 'FloatingLiteral':
            try: return [(('p', const(Fraction(str(n.val)))), st)]
            except (ValueError, TypeError): raise Undecided('number')
        if k == 'CXXBoolLiteralExpr': return [(('b', bool(n.val)), st)]
        if k == 'CXXThisExpr': return [(('this',), st)]
        if k == 'MemberExpr':
            out = []
            for b, s2 in s.ev(n.c[0], st):
                m = (n.m or '').rsplit('::', 1)[-1]
                if m in ('first', 'second'):
                    if b[0] == 'lv': b = s.rv(s2, b)
                    if b[0] == 'it': b = ('el', b[1], b[2])
                    if b[0] == 'pair': out.append(((('key', b[1]) if m == 'first' else ('p', b[2])), s2)); continue
                    if b[0] != 'el': raise Undecided('member of ' + b[0])
                    if m == 'first': out.append((('key', s.elcls(s2, b), b[1], b[2]), s2))
                    else:
                        if b[2] == 'E': raise Wrong('the element past the end is read', n)
                        out.append((('sec', b[1], b[2]), s2))
                elif b[0] == 'this': 
                    if s.isseq(n.t): out.append((('seq', 'this'), s2))
                    else: raise Undecided('member ' + m)
                elif b[0] == 'seq' and s.isseq(n.t): out.append((b, s2))
                else: raise Undecided('member ' + m)
            return out
        if k == 'ConditionalOperator':
            out = []
            for b, s2 in s.cond(n.c[0], st):
                out += s.ev(n.c[1] if b else n.c[2], s2)
            return out
        if k == 'UnaryOperator' or k == 'CXXOperatorCallExpr' and len(n.c) - (1 if n.op in ('++', '--') and len(n.c) == 2 else 0) == 1:
            return s.unary(n, st)
        if k in ('BinaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr'):
            return s.binary(n, st)
        if k in CTORS: return s.ctor(n, st)
        if k in CALLS: return s.call(n, st)
        raise Undecided(k)
    def vals(s, n, st):
        return [(s.val(s2, x), s2) for x, s2 in s.ev(n, st)]
    def val(s, st, x):
        while x[0] == 'lv': x = st.cells[x[1]]
        if x[0] == 'sec': return ('p', s.elval(st, ('el', x[1], x[2])))
        return s.rv(st, x)
    def unary(s, n, st):
        op = n.op; out = []
        if op == '!': return [(('b', None if b is None else not b), s2) for b, s2 in s.tri(n.c[0], st)]
        for x, s2 in s.ev(n.c[0], st):
            v = s.val(s2, x) if not (x[0] in ('el', 'seq', 'this')) else x
            if op == '*':
                if x[0] == 'this': out.append((('seq', 'this'), s2)); continue
                if v[0] == 'it': out.append((('el', v[1], v[2]), s2)); continue
                if v[0] == 'W': out.append((('el', v[1], 'W'), s2)); continue
                raise Undecided('*')
            if op == '->':
                if v[0] == 'it':
                    if v[2] == 'E': raise Wrong('the element past the end is used', n)
                    out.append((('el', v[1], v[2]), s2)); continue
                if v[0] == 'W': out.append((('el', v[1], 'W'), s2)); continue
                raise Undecided('->')
            if op == '-':
                if v[0] == 'p': out.append((('p', pmul(v[1], const(-1))), s2)); continue
                raise Undecided('-')
            if op == '+': out.append((v, s2)); continue
            if op == '&': out.append((x, s2)); continue
            if op in ('++', '--'):
                post = n.k == 'UnaryOperator' and n.x.get('post') or n.k == 'CXXOperatorCallExpr' and len(n.c) == 2
                if x[0] != 'lv': raise Undecided('++')
                c = x[1]
                while s2.cells[c][0] == 'lv': c = s2.cells[c][1]
                if v[0] == 'p':
                    s3 = s2.copy(); nv = ('p', padd(v[1], const(1 if op == '++' else -1))); s3.cells[c] = nv; out.append((v if post else nv, s3)); continue
                if op == '--': raise Undecided('--')
                for nv, s3 in s.step(v, s2, n):
                    s3 = s3.copy(); s3.cells[c] = nv
                    out.append((v if post else nv, s3))
                continue
            raise Undecided('unary ' + str(op))
        return out
    def step(s, v, st, n):
        if v[0] == 'W':
            q = st.seqs[v[1]]; w = q.w
            if w[0] is None: raise Undecided('stale')
            # the element written is final
            K, form, last = w[2], w[3], w[4]
            if w[0] == 'K':
                if K: raise Wrong('a key may come twice', n)
                K, form = True, w[1]
            if RANK2[w[0]] < RANK2[last]: raise Wrong('the keys are no longer in order', n)
            s2 = st.copy(); s2.seqs[v[1]] = q.copy(w=(None, None, K, form, w[0]) + w[5:])
            return [(v, s2)]
        if v[0] != 'it': raise Undecided('++ of ' + v[0])
        q = st.seqs[v[1]]
        if v[2] == 'E': raise Wrong('an iterator is moved past the end', n)
        if q.w is not None:
            # reading on in a sequence that may hold a key several times
            w = q.w
            if v[2] == 'K':
                st = st.copy(); st.seqs[v[1]] = q.copy(w=s.drop(w, n))
                nx = ['K', 'A1', 'E'] if q.A else ['K', 'E']
            else: nx = q.succ(v[2])
            return [(('it', v[1], a), st) for a in nx]
        return [(('it', v[1], a), st) for a in q.succ(v[2])]
    def wform(s, w):
        f = w[3]
        if w[0] == 'K' and w[1] is not None: f = padd(f, w[1])
        return f
    def drop(s, w, n):
        """the reader leaves an element with key k: its value x, and those of earlier ones d, must be in what is kept, once"""
        want = padd(sym('x'), sym('d')) if w[6] else sym('x')
        if s.wform(w) != want: raise Wrong('a value is lost or counted twice when a key comes more than once', n)
        if w[0] == 'K': return (w[0], sym('d'), w[2], frozenset(), w[4], w[5], True)
        return (w[0], w[1], w[2], sym('d'), w[4], w[5], True)
    # ---- conditions
    def tri(s, n, st):
        """(True/False/None, state)"""
        P = s.P
        while n.k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') or n.k in CASTS: n = n.c[0]
        if n.k == 'BinaryOperator' and n.op in ('&&', '||'):
            out = []
            for b, s2 in s.cond(n.c[0], st):
                if b == (n.op == '&&'): out += [(x, s3) for x, s3 in s.cond(n.c[1], s2)]
                else: out.append((b, s2))
            return out
        if n.k == 'UnaryOperator' and n.op == '!': return [(None if b is None else not b, s2) for b, s2 in s.tri(n.c[0], st)]
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('==', '!=', '<', '>', '<=', '>=') and len(n.c) == 2:
            out = []
            for a, s1 in s.vals(n.c[0], st):
                for b, s2 in s.vals(n.c[1], s1):
                    # earlier lvalue may have been re-read after the second operand; operands here have no effects on each other
                    out += s.compare(n.op, a, b, s2)
            return out
        out = []
        for v, s2 in s.vals(n, st):
            if v[0] == 'b':
                out.append((v[1], s2))
            elif v[0] == 'p': out += s.compare('!=', v, ('p', frozenset()), s2)
            elif v[0] == 'top': out.append((None, s2))
            else: raise Undecided('condition ' + v[0])
        return out
    def compare(s, op, a, b, st):
        neg = {'!=': '==', '>=': '<', '<=': '>'}
        if op in neg: return [(None if r is None else not r, s2) for r, s2 in s.compare(neg[op], a, b, st)]
        if op == '>': op = '<'; a, b = b, a
        if a[0] == 'top' or b[0] == 'top': return [(True, st), (False, st)]
        if a[0] == 'key' and b[0] == 'key':
            if len(a) > 2 and len(b) > 2 and a[2] == b[2] and st.seqs[a[2]].ord == 'raw': raise Wrong('neighbouring keys are compared before the pairs are put in order', None)
            if a[1] != b[1]: return [((RANK2[a[1]] < RANK2[b[1]]) if op == '<' else False, st)]
            if a[1] == 'K': return [(op == '==', st)]
            if len(a) > 2 and a[1:] == b[1:] and a[1] == 'B' and False: return [(op == '==', st)]
            return [(True, st), (False, st)]
        if a[0] == 'p' and b[0] == 'p':
            d = padd(a[1], b[1], -1)
            if op == '==':
                if not d: return [(True, st)]
                if all(m == () for m, c in d): return [(False, st)]
                if any('?' in m for m, c in d): return [(True, st), (False, st)]
                if equal(d, frozenset(), st.zeros): return [(True, st)]
                s2 = st.copy(); s2.zeros = st.zeros | {d}
                return [(True, s2), (False, st)]
            if not d: return [(False, st)]
            if all(m == () for m, c in d): return [(dict(d)[()] < 0, st)]
            return [(True, st), (False, st)]
        if a[0] in ('it', 'W') and b[0] in ('it', 'W'):
            if op != '==': return [(True, st), (False, st)]
            if 'W' in (a[0], b[0]):
                w, o = (a, b) if a[0] == 'W' else (b, a)
                if o[0] == 'it' and o[2] == 'E':
                    q = st.seqs[w[1]]
                    if q.w[0] is not None: return [(False, st)]
                    s1 = st.copy(); s1.seqs[w[1]] = q.copy(w=q.w[:5] + ('cut',) + q.w[6:])
                    s2 = st.copy(); s2.seqs[w[1]] = q.copy(w=q.w[:5] + ('more',) + q.w[6:])
                    return [(True, s1), (False, s2)]
                return [(True, st), (False, st)]
            if a[1] != b[1]: raise Undecided('iterators of two collections compared')
            if a[2] != b[2]: 
                return [(False, st)]
            if a[2] in ('K', 'E', 'A1'): return [(True, st)]
            return [(True, st), (False, st)]
        if a[0] == 'size' or b[0] == 'size':
            z = a if a[0] == 'size' else b; o = b if z is a else a
            if o[0] == 'p' and not o[1] and z is a and op == '==':
                q = st.seqs[z[1]]; return [(not (q.B or q.K or q.A), st)]
            if o[0] == 'p' and not o[1] and z is b and op == '<':     # 0 < size
                q = st.seqs[z[1]]; return [(bool(q.B or q.K or q.A), st)]
            return [(True, st), (False, st)]
        raise Undecided(f'comparison of {a[0]} and {b[0]}')
    def cond(s, n, st):
        out = []
        for b, s2 in s.tri(n, st):
            if b is None: out += [(True, s2), (False, s2)]
            else: out.append((b, s2))
        return out
    # ---- assignment
    def store(s, x, v, st, n):
        st = st.copy()
        if x[0] == 'lv':
            c = x[1]
            while st.cells[c][0] == 'lv': c = st.cells[c][1]
            if st.cells[c][0] in ('mref', 'sec'): return s.store(st.cells[c], v, st, n)
            st.cells[c] = v; return st
        if x[0] == 'sec':
            if v[0] != 'p': raise Undecided('store')
            if x[2] == 'W':
                q = st.seqs[x[1]]
                if q.w[0] == 'K': st.seqs[x[1]] = q.copy(w=(q.w[0], v[1]) + q.w[2:])
                return st
            if x[2] == 'K': st.seqs[x[1]] = st.seqs[x[1]].copy(val=v[1])
            return st
        if x[0] == 'mref':
            if v[0] != 'p': raise Undecided('store')
            if x[2] == 'K': st.seqs[x[1]] = st.seqs[x[1]].copy(val=v[1])
            return st
        if x[0] == 'el' and v[0] == 'pair':
            q = st.seqs[x[1]]
            if x[2] == 'W':
                if q.w[0] is not None: raise Wrong('an element is overwritten before it is final', n)
                st.seqs[x[1]] = q.copy(w=(v[1], v[2]) + q.w[2:]); return st
            raise Undecided('element overwritten')
        if x[0] == 'seq':
            if v[0] == 'seq': v = ('copy', st.seqs[v[1]])
            if v[0] != 'copy': raise Undecided('store')
            st.seqs[x[1]] = v[1]; return st
        raise Undecided('store to ' + x[0])
    def binary(s, n, st):
        op = n.op; out = []
        if op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'): return [(('b', b), s2) for b, s2 in s.tri(n, st)]
        if op == ',':
            for _, s1 in s.ev(n.c[0], st): out += s.ev(n.c[1], s1)
            return out
        if op == '=':
            if n.k == 'CXXOperatorCallExpr' and n.f in s.P.funcs and not s.P.funcs[n.f].decl.get('copyasg') and not s.P.funcs[n.f].decl.get('dflt') and not s.isseq(n.c[0].t): return s.call(n, st)
            for v, s1 in s.ev(n.c[1], st):
                v = s.val(s1, v) if v[0] not in ('seq',) else v
                for x, s2 in s.ev(n.c[0], s1): out.append((x, s.store(x, v, s2, n)))
            return out
        if op == '[]':
            for x, s1 in s.ev(n.c[0], st):
                for kv, s2 in s.vals(n.c[1], s1):
                    if x[0] == 'seq' and kv[0] == 'key':
                        if s2.seqs[x[1]].ord: raise Undecided('[]')
                        out.append((('mref', x[1], kv[1]), s.touch(s2, x[1], kv[1])))
                    elif x[0] in ('fn',) : out.append((x, s2))
                    else: raise Undecided('[]')
            return out
        if n.k == 'CXXOperatorCallExpr' and n.f in s.P.funcs and op in ('+=', '-=', '+', '-', '*', '*=', '/', '/='):
            if s.isseq(n.c[0].t) or s.isseq(n.c[1].t): return s.call(n, st)
        if op in ('+=', '-=', '*=', '/='):
            for v, s1 in s.vals(n.c[1], st):
                for x, s2 in s.ev(n.c[0], s1):
                    cur = s.val(s2, x)
                    nv = s.arith(op[0], cur, v, s2)
                    if cur[0] == 'it' and op == '+=':
                        if v != ('p', const(1)): raise Undecided('+=')
                        for w, s3 in s.step(cur, s2, n): out.append((x, s.store(x, w, s3, n)))
                        continue
                    out.append((x, s.store(x, nv, s2, n)))
            return out
        if op in ('+', '-', '*', '/'):
            for a, s1 in s.vals(n.c[0], st):
                for b, s2 in s.vals(n.c[1], s1):
                    if a[0] == 'W' and op == '+' and b == ('p', const(1)):
                        q = s2.seqs[a[1]]
                        # one past the first: the reader
                        if q.w[0] is None: raise Undecided('+')
                        for at in (q.succ('B') if q.w[0] == 'B' else (['K', 'A1', 'E'] if q.A else ['K', 'E']) if q.w[0] == 'K' else q.succ('A1')):
                            s3 = s2
                            if q.w[0] == 'K': s3 = s2.copy(); s3.seqs[a[1]] = q.copy(w=s.drop(q.w, n))
                            out.append((('it', a[1], at), s3))
                        continue
                    if a[0] == 'it' and op == '+' and b == ('p', const(1)):
                        out += s.step(a, s2, n); continue
                    if a[0] == 'it' and op == '+' and b[0] == 'half' and b[1] == a:
                        q = s2.seqs[a[1]]; hi = b[2]
                        # an element at or after a, before hi
                        for at in ('B', 'K', 'A1', 'A2'):
                            if not {'B': q.B, 'K': q.K, 'A1': q.A, 'A2': q.A}[at]: continue
                            if RANK[at] < RANK[a[2]]: continue
                            if at in ('B', 'A2') and RANK[at] <= RANK[hi[2]] or RANK[at] < RANK[hi[2]] or a == hi and False: out.append((('it', a[1], at), s2))
                        continue
                    if a[0] in ('it', 'W') and b[0] in ('it', 'W') and op == '-': out.append((('dist', a, b), s2)); continue
                    if a[0] == 'dist' and op == '/' and b == ('p', const(2)):
                        out.append((('half', a[2], a[1]), s2)); continue
                    out.append((s.arith(op, a, b, s2), s2))
            return out
        raise Undecided('operator ' + str(op))
    def arith(s, op, a, b, st):
        if a[0] == 'it': return a
        if a[0] == 'top' or b[0] == 'top': return ('top',)
        if a[0] != 'p' or b[0] != 'p': raise Undecided(f'{a[0]} {op} {b[0]}')
        if op == '+': return ('p', padd(a[1], b[1]))
        if op == '-': return ('p', padd(a[1], b[1], -1))
        if op == '*': return ('p', pmul(a[1], b[1]))
        c = dict(b[1])
        if set(c) == {()}: return ('p', pmul(a[1], const(1 / c[()])))
        return ('top',)
    # ---- collections
    def touch(s, st, q, c):
        Q = st.seqs[q]
        if c == 'K' and not Q.K: st = st.copy(); st.seqs[q] = Q.copy(K=True, val=frozenset())
        elif c == 'B' and not Q.B: st = st.copy(); st.seqs[q] = Q.copy(B=True)
        elif c == 'A' and not Q.A: st = st.copy(); st.seqs[q] = Q.copy(A=True)
        return st
    def put(s, st, q, c, val, at, n):
        """insert before position at (a sorted sequence); returns the class where it now is"""
        Q = st.seqs[q]
        st = st.copy()
        if c == 'B':
            if at == 'A1' and Q.K or at == 'A2' or at == 'E' and (Q.K or Q.A): raise Wrong('a key is put after larger ones', n)
            st.seqs[q] = Q.copy(B=True); return 'B', st
        if c == 'K':
            if Q.K: raise Wrong('a key may come twice', n)
            if at == 'B': raise Wrong('a key is put before smaller ones', n)
            if at == 'A2' or at == 'E' and Q.A: raise Wrong('a key is put after larger ones', n)
            st.seqs[q] = Q.copy(K=True, val=val); return 'K', st
        if at in ('B', 'K'): raise Wrong('a key is put before smaller ones', n)
        st.seqs[q] = Q.copy(A=True)
        return ('A1' if at == 'A1' or not Q.A else 'A2'), st
    def seqof(s, x, st):
        if x[0] == 'lv': x = s.val(st, x)
        return x
    def begin(s, st, q):
        Q = st.seqs[q]
        if Q.w is not None:
            w = Q.w
            if w[0] is None and w[4] is None:
                at = Q.firsts()[0]
                if at == 'E': return [(('it', q, 'E'), st)]
                st = st.copy(); c = cls(at)
                st.seqs[q] = Q.copy(w=(c, sym('x') if c == 'K' else OPAQUE, False, frozenset(), 'B', None, False))
            return [(('W', q), st)]
        return [(('it', q, a), st) for a in Q.firsts()]
    def ctor(s, n, st):
        P = s.P
        d = P.decls.get(n.f, {})
        args = [c for c in n.c if c is not None]
        if s.isseq(n.t):
            o = s.ordered(n.t)
            if not args: return [(('copy', Seq(o, False, False, False, frozenset())), st)]
            out = []
            for x, s1 in s.ev(args[0], st):
                x = s.seqof(x, s1)
                if x[0] == 'seq': out.append((('copy', s1.seqs[x[1]]), s1))
                elif x[0] == 'copy': out.append((x, s1))
                elif x[0] == 'it' and len(args) == 2:
                    raise Undecided('range constructor')
                else: raise Undecided('constructor')
            return out
        if 'terator' in P.ts(n.t) and len(args) == 1: return s.vals(args[0], st)
        if 'terator' in P.ts(n.t) and not args: return [(('none',), st)]
        if (P.tname(n.t) or '').startswith('std::pair'):
            if len(args) == 1: return s.vals(args[0], st)
            if len(args) == 2: return s.mkpair(args, st)
        raise Undecided('constructor of ' + P.ts(n.t)[:30])
    def mkpair(s, args, st):
        out = []
        for a, s1 in s.vals(args[0], st):
            for b, s2 in s.vals(args[1], s1):
                if a[0] == 'key' and b[0] == 'p': out.append((('pair', a[1], b[1]), s2))
                elif a[0] in ('it', 'W', 'p') : out.append((('top',), s2))
                else: raise Undecided('pair')
        return out
    def call(s, n, st):
        P = s.P; d = P.decls.get(n.f)
        if d is None: raise Undecided('call')
        nm = d['n']
        if n.k == 'CXXMemberCallExpr' and n.c and n.c[0] is not None and (s.isseq(n.c[0].t) or n.c[0].k == 'CXXThisExpr' and s.isseq(P.T(n.c[0].t).get('p', -1))):
            out = []
            for x, s1 in s.ev(n.c[0], st):
                x = s.seqof(x, s1)
                if x[0] == 'this': x = ('seq', 'this')
                out += s.method(n, nm, x, s1)
            return out
        if n.k == 'CXXMemberCallExpr' and n.c and n.c[0] is not None and P.T(P.strip_ref(n.t))['k'] == 'float' and len(n.c) == 2:
            # a thing that gives a number for a key (weights): taken as a function of the key
            L0 = L.strip(n.c[0])
            if L0 is not None and L0.k == 'DeclRefExpr' and L0.v is not None and s.val(st, ('lv', s.find(st, L0.v)[0]))[0] == 'fn':
                x = s.val(st, ('lv', s.find(st, L0.v)[0])); out = []
                for kv, s2 in s.vals(n.c[1], st):
                    if kv[0] != 'key': raise Undecided('call')
                    out.append((('p', sym(x[1]) if kv[1] == 'K' else OPAQUE), s2))
                return out
        if n.f in P.funcs and P.funcs[n.f].body is not None and P.funcs[n.f].cfg: return s.inline(n, P.funcs[n.f], st)
        args = call_args(n)
        if nm == 'make_pair': return s.mkpair(args, st)
        if nm in ('sort', 'stable_sort') and len(args) == 2:
            out = []
            a = L.strip(args[0]); b = L.strip(args[1])
            ok = all(y is not None and y.k == 'CXXMemberCallExpr' and P.decls.get(y.f, {}).get('n') == z for y, z in ((a, 'begin'), (b, 'end')))
            if not ok: raise Undecided('sort')
            for x, s1 in s.ev(a.c[0], st):
                if x[0] != 'seq': raise Undecided('sort')
                s1 = s1.copy(); q = s1.seqs[x[1]]
                if q.ord == 'raw': s1.seqs[x[1]] = q.copy(ord=True, w=(None, None, False, frozenset(), None, None, False))
                out.append((('top',), s1))
            return out
        if nm in ('begin', 'end', 'cbegin', 'cend') and len(args) == 1:
            out = []
            for x, s1 in s.ev(args[0], st): out += s.method(n, nm, s.seqof(x, s1), s1)
            return out
        if nm in ('move', 'forward') and len(args) == 1: return s.ev(args[0], st)
        if nm in ('next',) and len(args) == 1:
            out = []
            for v, s1 in s.vals(args[0], st): out += s.step(v, s1, n)
            return out
        if nm in ('abs', 'fabs', 'min', 'max', 'sqrt', 'pow', 'isnan', 'isinf'):
            out = [((('top',)), st)]
            for a in args: out = [(('top',), s3) for _, s2 in out for _, s3 in s.vals(a, s2)]
            return out
        raise Undecided('call of ' + nm)
    def method(s, n, nm, x, st):
        P = s.P
        args = call_args(n) if n.k == 'CXXMemberCallExpr' else []
        if x[0] == 'copy':
            if nm == 'swap' and len(args) == 1:
                out = []
                for y, s1 in s.ev(args[0], st):
                    if y[0] != 'seq': raise Undecided('swap')
                    s1 = s1.copy(); s1.seqs[y[1]] = x[1]; out.append((('top',), s1))
                return out
            st = st.copy(); q = ('tmp', n.i, s.depth); st.seqs[q] = x[1]; x = ('seq', q)
        if x[0] != 'seq': raise Undecided('method of ' + x[0])
        q = x[1]; Q = st.seqs[q]
        if nm == 'GetImpl' and not args: return [(x, st)]
        if nm in ('begin', 'cbegin'): return s.begin(st, q)
        if nm in ('end', 'cend'): return [(('it', q, 'E'), st)]
        if nm == 'size': return [(('size', q), st)]
        if nm == 'empty': return [(('b', not (Q.B or Q.K or Q.A)), st)]
        if nm in ('reserve', 'shrink_to_fit', 'rehash'):
            out = [(None, st)]
            for a in args: out = [(None, s2) for _, s1 in out for _, s2 in s.vals(a, s1)]
            return [(('top',), s1) for _, s1 in out]
        if nm == 'clear': st = st.copy(); st.seqs[q] = Seq(Q.ord, False, False, False, frozenset()); return [(('top',), st)]
        if nm in ('swap',) and len(args) == 1:
            out = []
            for y, s1 in s.ev(args[0], st):
                y = s.seqof(y, s1)
                if y[0] != 'seq': raise Undecided('swap')
                s1 = s1.copy(); s1.seqs[q], s1.seqs[y[1]] = s1.seqs[y[1]], s1.seqs[q]; out.append((('top',), s1))
            return out
        if nm == 'resize' and Q.w is not None:
            out = []
            for v, s1 in s.vals(args[0], st):
                W = s1.seqs[q].w
                if v[0] == 'dist' and v[1] == ('W', q) and (v[2] == ('W', q) or v[2][0] == 'it'):
                    if W[0] is not None: raise Wrong('the last key is cut off', n)
                    s1 = s1.copy(); s1.seqs[q] = s1.seqs[q].copy(w=W[:5] + ('cut',) + W[6:]); out.append((('top',), s1))
                else: raise Undecided('resize')
            return out
        if nm in ('push_back', 'emplace_back') and Q.ord:
            out = []
            for v, s1 in (s.vals(args[0], st) if len(args) == 1 else s.mkpair(args, st)):
                if v[0] != 'pair': raise Undecided('push_back')
                out.append((('top',), s.put(s1, q, v[1], v[2], 'E', n)[1]))
            return out
        if nm == 'back' and Q.ord:
            at = 'A2' if Q.A else 'K' if Q.K else 'B' if Q.B else 'E'
            return [(('el', q, at), st)]
        if nm == 'insert' and Q.ord and len(args) == 2:
            out = []
            for p, s1 in s.vals(args[0], st):
                for v, s2 in s.vals(args[1], s1):
                    if p[0] != 'it' or v[0] != 'pair': raise Undecided('insert')
                    at, s3 = s.put(s2, q, v[1], v[2], p[2], n); out.append((('it', q, at), s3))
            return out
        if nm == 'insert' and len(args) == 3 or nm == 'insert' and not Q.ord and len(args) == 2:
            out = []
            firsts = s.vals(args[0], st) if len(args) == 3 else [(None, st)]
            for p, s1 in firsts:
                for b, s2 in s.vals(args[-2], s1):
                    for e, s3 in s.vals(args[-1], s2):
                        if b[0] != 'it' or e[0] != 'it' or b[1] != e[1] or (p is not None and p[0] != 'it'): raise Undecided('insert')
                        seen = set(); todo = [(b[2], s3)]
                        while todo:
                            at, sx = todo.pop()
                            if (at, sx) in seen: continue
                            seen.add((at, sx))
                            if at == e[2]:
                                if at in ('K', 'E', 'A1'): out.append((('it', q, 'E'), sx)); continue
                                out.append((('it', q, 'E'), sx))
                            if at == 'E': continue
                            v = ('pair', cls(at), s.elval(sx, ('el', b[1], at)))
                            sy = s.add(sx, q, v, n, p[2] if p is not None else 'E')
                            for a2 in sy.seqs[b[1]].succ(at): todo.append((a2, sy))
            return out
        if Q.ord: raise Undecided('method ' + nm)
        if nm in ('insert', 'emplace', 'emplace_hint'):
            out = []
            for v, s1 in (s.vals(args[0], st) if len(args) == 1 else s.mkpair(args, st)):
                if v[0] != 'pair': raise Undecided('insert')
                out.append((('top',), s.add(s1, q, v, n)))
            return out
        if nm in ('find', 'count', 'at', 'erase', 'contains'):
            out = []
            for v, s1 in s.vals(args[0], st):
                if nm == 'erase' and v[0] == 'it': 
                    c = cls(v[2])
                    if c == 'E': raise Wrong('the end is erased', n)
                elif v[0] == 'key': c = v[1]
                else: raise Undecided(nm)
                Q = s1.seqs[q]
                if nm == 'erase':
                    s1 = s1.copy()
                    if c == 'K': s1.seqs[q] = Q.copy(K=False, val=frozenset())
                    out.append((('top',), s1)); continue
                has = [True, False] if c in 'BA' else [Q.K]
                if len(v) > 2 and v[2] == q: has = [True]
                if c == 'B' and not Q.B or c == 'A' and not Q.A: has = [False]
                for h in has:
                    if nm == 'at':
                        if h: out.append((('mref', q, c), s1))
                    elif nm == 'find': out.append((('it', q, {'B': 'B', 'K': 'K', 'A': 'A1'}[c] if h else 'E'), s1))
                    elif nm == 'count': out.append((('p', const(1 if h else 0)), s1))
                    else: out.append((('b', h), s1))
            return out
        raise Undecided('method ' + nm)
    def add(s, st, q, v, n, at='E'):
        """add a pair at the end of a sequence, or to a map (where a key that is there stays)"""
        Q = st.seqs[q]
        if Q.ord: return s.put(st, q, v[1], v[2], at, n)[1]
        st = st.copy()
        if v[1] == 'K':
            if not Q.K: st.seqs[q] = Q.copy(K=True, val=v[2])
        elif v[1] == 'B': st.seqs[q] = Q.copy(B=True)
        else: st.seqs[q] = Q.copy(A=True)
        return st
    # ---- calls of functions of the program
    def inline(s, n, g, st):
        P = s.P
        if s.depth > 6: raise Undecided('depth')
        args = call_args(n)
        ps = list(g.params)
        if n.k == 'CXXMemberCallExpr': raise Undecided('method ' + g.name)
        states = [([], st)]
        for i, p in enumerate(ps):
            if i >= len(args) or args[i] is None: raise Undecided('default argument')
            nxt = []
            for vs, s1 in states:
                for x, s2 in s.ev(args[i], s1): nxt.append((vs + [x], s2))
            states = nxt
        out = []
        for vs, s1 in states:
            s2 = s1.copy(); d = s.depth + 1; tmp = None
            for p, x in zip(ps, vs):
                T = P.T(p['t'])
                if s.isseq(p['t']):
                    x = s.seqof(x, s1)
                    if T['k'] in ('ref', 'rref'):
                        if x[0] == 'copy': q = ('arg', d, p['v']); s2.seqs[q] = x[1]; x = ('seq', q)
                        if x[0] == 'this': x = ('seq', 'this')
                        s2.cells[(d, p['v'])] = x
                    else:
                        q = ('arg', d, p['v']); s2.seqs[q] = s2.seqs[x[1]] if x[0] == 'seq' else x[1]; s2.cells[(d, p['v'])] = ('seq', q)
                elif T['k'] in ('ref', 'rref') and not P.T(T['p']).get('const') and x[0] == 'lv': s2.cells[(d, p['v'])] = x
                elif T['k'] in ('ref', 'rref') and x[0] == 'el': s2.cells[(d, p['v'])] = x
                elif T['k'] in ('ref', 'rref') and x[0] in ('sec', 'mref') and not P.T(T['p']).get('const'): raise Undecided('reference argument')
                else: s2.cells[(d, p['v'])] = s.val(s1, x)
            s.depth = d
            try: res = s.run(g, s2)
            finally: s.depth = d - 1
            for v, s3 in res:
                s3 = s3.copy()
                if v is not None and v[0] == 'lv' and v[1][0] == d: v = s.val(s3, v)
                if v is not None and v[0] == 'seq' and isinstance(v[1], tuple) and v[1][0] in ('loc', 'arg', 'tmp') and v[1][1] == d and not P.T(g.decl['rt'])['k'] == 'ref': v = ('copy', s3.seqs[v[1]])
                for c in [c for c in s3.cells if c[0] == d]: del s3.cells[c]
                for q in [q for q in s3.seqs if isinstance(q, tuple) and q[0] in ('loc', 'arg') and q[1] == d]: del s3.seqs[q]
                out.append((v if v is not None else ('top',), s3))
        return out
    # ---- statements: {'next': set, 'break': set, 'continue': set, 'return': list}
    def run(s, f, st):
        r = s.ex(f.body, {st})
        out = [(v, x) for v, x in r['return']]
        out += [(None, x) for x in r['next']]
        return list(dict.fromkeys(out))
    def ex(s, n, sts):
        R = {'next': set(), 'break': set(), 'continue': set(), 'return': set()}
        if n is None or n.k in ('NullStmt', 'TypedefDecl', 'UsingDirective'): R['next'] = set(sts); return R
        if len(sts) > s.limit: raise Undecided('too many states')
        def merge(r, keys):
            for k in keys: R[k] |= r[k]
        k = n.k
        if k == 'CompoundStmt':
            cur = set(sts)
            for c in n.c:
                if not cur: break
                r = s.ex(c, cur); merge(r, ('break', 'continue', 'return')); cur = r['next']
            R['next'] = cur; return R
        if k == 'DeclStmt':
            cur = set(sts)
            for d in n.c:
                if d is None or d.k != 'VarDecl': continue
                nx = set()
                for st in cur: nx |= s.declare(d, st)
                cur = nx
            R['next'] = cur; return R
        if k == 'IfStmt':
            cs = [c for c in n.c]
            off = 0
            init = [c for c in cs if c is not None and c.k in ('DeclStmt',)]
            cond = cs[0]
            if init: raise Undecided('if with declaration')
            for st in sts:
                for b, s1 in s.cond(cond, st):
                    br = cs[1] if b else (cs[2] if len(cs) > 2 else None)
                    r = s.ex(br, {s1}); merge(r, ('next', 'break', 'continue', 'return'))
            return R
        if k in ('WhileStmt', 'ForStmt', 'DoStmt'):
            if k == 'ForStmt': init, cond, inc, body = n.c[0], n.c[1], n.c[2], n.c[3]
            elif k == 'WhileStmt': init, cond, inc, body = None, n.c[0], None, n.c[-1]
            else: init, cond, inc, body = None, n.c[1], None, n.c[0]
            cur = set(sts)
            if init is not None:
                r = s.ex(init, cur); cur = r['next']
            seen = set(); work = list(cur); first = k == 'DoStmt'
            if first:
                r = s.ex(body, cur); merge(r, ('return',)); R['next'] |= r['break']; work = list(r['next'] | r['continue'])
            while work:
                st = work.pop()
                if st in seen: continue
                seen.add(st)
                if len(seen) > s.limit: raise Undecided('no end')
                tests = s.cond(cond, st) if cond is not None else [(True, st)]
                for b, s1 in tests:
                    if not b: R['next'].add(s1); continue
                    r = s.ex(body, {s1}); merge(r, ('return',)); R['next'] |= r['break']
                    nx = r['next'] | r['continue']
                    if inc is not None: nx = s.ex(inc, nx)['next']
                    work += [x for x in nx if x not in seen]
            return R
        if k == 'CXXForRangeStmt':
            rng = n.fn.node(n.x['rng']); var = next(c for c in n.c if c is not None and c.k == 'VarDecl'); body = n.c[-1]
            T = s.P.T(var.t); ref = T['k'] in ('ref', 'rref')
            for st in sts:
                for x, s1 in s.ev(rng, st):
                    x = s.seqof(x, s1)
                    if x[0] == 'copy': s1 = s1.copy(); q = ('tmp', n.i, s.depth); s1.seqs[q] = x[1]; x = ('seq', q)
                    if x[0] != 'seq': raise Undecided('range')
                    q = x[1]
                    if s1.seqs[q].w is not None or s1.seqs[q].ord == 'raw': raise Undecided('range')
                    seen = set(); work = [(a, s1) for a in s1.seqs[q].firsts()]
                    while work:
                        at, s2 = work.pop()
                        if (at, s2) in seen: continue
                        seen.add((at, s2))
                        if len(seen) > s.limit: raise Undecided('no end')
                        if at == 'E': R['next'].add(s2); continue
                        s3 = s2.copy()
                        s3.cells[(s.depth, var.v)] = ('el', q, at) if ref else ('pair', cls(at), s.elval(s2, ('el', q, at)))
                        r = s.ex(body, {s3}); merge(r, ('return',)); R['next'] |= r['break']
                        for s4 in r['next'] | r['continue']:
                            for a in s1.seqs[q].succ(at): work.append((a, s4))
            return R
        if k == 'BreakStmt': R['break'] = set(sts); return R
        if k == 'ContinueStmt': R['continue'] = set(sts); return R
        if k == 'ReturnStmt':
            for st in sts:
                if n.c and n.c[0] is not None:
                    for x, s1 in s.ev(n.c[0], st):
                        R['return'].add((x if x[0] in ('seq', 'copy', 'this') else s.val(s1, x), s1))
                else: R['return'].add((None, st))
            return R
        if k == 'CXXThrowExpr': return R
        if k in ('SwitchStmt', 'GotoStmt', 'CXXTryStmt', 'LambdaExpr'): raise Undecided(k)
        for st in sts:
            for _, s1 in s.ev(n, st): R['next'].add(s1)
        return R
    def declare(s, d, st):
        P = s.P; out = set(); ini = d.c[0] if d.c else None
        c = (s.depth, d.v); T = P.T(d.t)
        if s.isseq(d.t) and T['k'] not in ('ref', 'rref'):
            if ini is None: vs = [(('copy', Seq(s.ordered(d.t), False, False, False, frozenset())), st)]
            else: vs = s.ev(ini, st)
            for x, s1 in vs:
                x = s.seqof(x, s1); s2 = s1.copy(); q = ('loc', s.depth, d.v)
                if x[0] == 'seq': s2.seqs[q] = s1.seqs[x[1]]
                elif x[0] == 'copy': s2.seqs[q] = x[1]
                else: raise Undecided('declaration')
                s2.cells[c] = ('seq', q); out.add(s2)
            return out
        if ini is None:
            s2 = st.copy(); s2.cells[c] = ('none',); return {s2}
        for x, s1 in s.ev(ini, st):
            s2 = s1.copy()
            if T['k'] in ('ref', 'rref') and x[0] in ('lv', 'el', 'seq'): s2.cells[c] = x
            elif T['k'] in ('ref', 'rref') and x[0] == 'copy': q = ('loc', s.depth, d.v); s2.seqs[q] = x[1]; s2.cells[c] = ('seq', q)
            elif T['k'] in ('ref', 'rref') and x[0] in ('sec', 'mref') and not P.T(T['p']).get('const'): s2.cells[c] = x
            else: s2.cells[c] = s.val(s1, x)
            out.add(s2)
        return out

RANK2 = {None: -1, 'B': 0, 'K': 1, 'A': 2}
