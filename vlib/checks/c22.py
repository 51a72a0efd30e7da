"""Feature vectors and maps act as functions from features to numbers."""
from ..prog import *
from .. import keyed as K
from ..keyed import Machine, State, Seq, sym, const, padd, pmul, equal, pstr, Undecided, Wrong
from .c18 import local

VEC = 'travatar::SparseVector'
LEVEL = 'other'
EXPLAIN = 'Abstract interpretation of the syntax tree of every operation on feature vectors and maps, seen from one arbitrary key: each loop is followed to a fixpoint over all shapes the arguments may have (keys below, at and above the key, in any number), and the value left at the key is compared, as a polynomial, with the one the operation stands for. Operations written in a way the interpreter does not cover are reported as undecided and raise no alarm.'

def shape(P, M, t):
    o = M.ordered(t)
    if o is None: return None
    return 'vector' if o else 'map'

def contents(o, name):
    """every shape a collection can have, seen from one key"""
    for B in (False, True):
        for k in (False, True):
            for A in ((False, True) if o else (False,)):
                yield Seq(o, B, k, A, sym(name) if k else frozenset())

def value(q): return q.val if q.K else frozenset()

def expected(op, l, r):
    if op in ('+', '+='): return padd(l, r)
    if op in ('-', '-='): return padd(l, r, -1)
    if op in ('*', '*='): return pmul(l, r)
    return None

def run(P, R, tier):
    decided = set()
    R.rule('collections that map keys to numbers are followed from one arbitrary key: what lies below it, at it and above it; the value at the key is a polynomial in the values of the arguments')
    R.rule('a sum holds the sum at every key, a difference the difference, a product with a number the product, a product of two the sum of products; a missing key counts as zero; a sorted sequence stays sorted with every key once; no iterator passes the end')
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if not local(P, f) or not f.cfg: continue
        M = Machine(P)
        ts = [shape(P, M, p['t']) for p in f.params]
        op = f.decl.get('op')
        if op in ('+', '-', '*', '+=', '-=', '*=') and len(f.params) == 2 and any(ts) and not f.decl.get('cls'): operator(P, R, f, op, ts); decided.add(f.id)
        elif f.decl.get('cls') == VEC and not f.decl.get('impl') and not f.decl.get('dflt'): member(P, R, f)
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if local(P, f) and f.cfg: outside(P, R, f, decided)
    R.need(R.cov.get('operations', 0) >= 18, 'operations on feature vectors not found')

def operator(P, R, f, op, ts):
    R.count('operations')
    M0 = Machine(P)
    def start(i, p):
        o = M0.ordered(p['t'])
        nm = 'lr'[i]
        if o is not None: return [('seq', q) for q in contents(o, nm)]
        k = P.T(P.strip_ref(p['t']))['k']
        if k in ('float', 'int'): return [('p', sym(nm))]
        return [('fn', nm)]
    bad = {}
    try:
        for a in start(0, f.params[0]):
            for b in start(1, f.params[1]):
                st = State()
                for nm, x, p in (('l', a, f.params[0]), ('r', b, f.params[1])):
                    if x[0] == 'seq': st.seqs[nm] = x[1]; st.cells[(0, p['v'])] = ('seq', nm)
                    else: st.cells[(0, p['v'])] = x
                l = value(a[1]) if a[0] == 'seq' else sym('l')
                r = value(b[1]) if b[0] == 'seq' else sym('r')
                want = expected(op, l, r)
                M = Machine(P); R.count('cases')
                try: outs = M.run(f, st)
                except Wrong as w:
                    bad.setdefault(w.msg, w.node); continue
                if not outs: bad.setdefault('it does not come to an end', None)
                R.count('outcomes', len(outs))
                for v, s in outs:
                    if v is None: raise Undecided('no value')
                    if v[0] == 'seq': g = value(s.seqs[v[1]])
                    elif v[0] == 'copy': g = value(v[1])
                    elif v[0] == 'p': g = frozenset((m, c) for m, c in v[1] if m != ('?',))
                    else: raise Undecided('value ' + v[0])
                    if op.endswith('=') and v != ('seq', 'l'): g = value(s.seqs['l'])
                    if not equal(g, want, s.zeros):
                        bad.setdefault(f'the value at a key is {pstr(g)} where it should be {pstr(want)} (l and r: the values on the left and right)', None)
    except (Undecided, KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError) as u:
        R.count('undecided'); R.sample(f'undecided: {f.q}({", ".join(t or "number" for t in ts)}): {u}'); return
    for m, n in bad.items(): R.violation(f'{f.q}({",".join(t or "number" for t in ts)})|{m[:40]}', m, f.loc(n))

def allseqs(o, name):
    return list(contents(o, name))

def member(P, R, f):
    """a feature vector kept as a sorted sequence: made from pairs, added to, turned into a map"""
    seqps = [p for p in f.params if shape(P, Machine(P), p['t'])]
    ints = [p for p in f.params if P.T(P.strip_ref(p['t']))['k'] == 'int']
    nums = [p for p in f.params if P.T(P.strip_ref(p['t']))['k'] == 'float']
    if f.isctor: mode = 'made' if len(f.params) == 1 and len(seqps) == 1 else None
    elif len(f.params) == 2 and len(ints) == 1 and len(nums) == 1: mode = 'added'
    elif not f.params and shape(P, Machine(P), f.decl['rt']) == 'map': mode = 'turned'
    else: mode = None
    if mode is None: return
    R.count('operations')
    bad = {}
    def go(st, look):
        M = Machine(P); R.count('cases')
        try: outs = M.run(f, st)
        except Wrong as w: bad.setdefault(w.msg, w.node); return
        if not outs: bad.setdefault('it does not come to an end', None)
        R.count('outcomes', len(outs))
        for v, s in outs: look(v, s)
    def same(got, want, s):
        if not equal(got, want, s.zeros): bad.setdefault(f'the value at a key is {pstr(got)} where it should be {pstr(want)}', None)
    try:
        if mode == 'turned':
            for q in contents(True, 'l'):
                def look(v, s):
                    g = s.seqs[v[1]] if v is not None and v[0] == 'seq' else v[1] if v is not None and v[0] == 'copy' else None
                    if g is None: raise Undecided('no value')
                    same(value(g), value(q), s)
                go(State(seqs={'this': q}), look)
        elif mode == 'added':
            for q in contents(True, 'l'):
                for c in 'BKA':
                    st = State(cells={(0, ints[0]['v']): ('key', c), (0, nums[0]['v']): ('p', sym('v'))}, seqs={'this': q})
                    def look(v, s):
                        same(value(s.seqs['this']), padd(value(q), sym('v')) if c == 'K' else value(q), s)
                    go(st, look)
        else:
            copied = [e for i, e in f.inits if e is not None and shape(P, Machine(P), e.t)]
            p = seqps[0]
            fromparam = any(any(x.k == 'DeclRefExpr' and x.v == p['v'] for x in e.walk()) for e in copied)
            for q in contents(True, 'x'):
                raw = Seq('raw', q.B, q.K, q.A, q.val)
                st = State(cells={(0, p['v']): ('seq', 'from')}, seqs={'from': raw, 'this': raw if fromparam else Seq(True, False, False, False, frozenset())})
                def look(v, s):
                    t = s.seqs['this']
                    if t.ord == 'raw':
                        if t.B or t.K or t.A: bad.setdefault('the pairs given are not put in order', None)
                        return
                    if t.w is None:
                        if not fromparam and (q.B or q.K or q.A): raise Undecided('made otherwise')
                        return
                    if t.w[5] == 'more': bad.setdefault('what is left over after the last key is kept', None)
                    if t.w[0] is not None and t.w[5] is None: raise Undecided('end of the sequence')
                go(st, look)
    except (Undecided, KeyError, IndexError, TypeError, AttributeError, RecursionError, ValueError) as u:
        R.count('undecided'); R.sample(f'undecided: {f.q}: {u}'); return
    for m, n in bad.items(): R.violation(f'{f.q}({len(f.params)})|{m[:40]}', m, f.loc(n))

MUT = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'assign', 'pop_back', 'erase'}
def outside(P, R, f, decided):
    """the order of a feature vector is not changed by anyone else"""
    if f.decl.get('cls') == VEC or f.id in decided: return
    def bare(n):
        d = P.decls.get(n.f) or {}
        return n.k == 'CXXMemberCallExpr' and d.get('cls') == VEC and not d.get('const') and P.T(d['rt'])['k'] == 'ref' and shape(P, Machine(P), d['rt'])
    refs = {}
    for n in f.nodes():
        if n.k == 'VarDecl' and n.c and n.c[0] is not None and P.T(n.t)['k'] == 'ref' and not P.T(P.T(n.t)['p']).get('const'):
            x = K.L.strip(n.c[0])
            if x is not None and bare(x): refs[n.v] = x
    for n in f.nodes():
        if not (n.k in ('CXXMemberCallExpr', 'CXXOperatorCallExpr', 'BinaryOperator') and n.c and n.c[0] is not None): continue
        o = K.L.strip(n.c[0])
        if o is None or not (bare(o) or o.k == 'DeclRefExpr' and o.v in refs): continue
        R.count('direct_uses')
        nm = (P.decls.get(n.f) or {}).get('n')
        if nm in MUT or n.op == '=': R.violation(f'{f.q}|{nm or n.op}', 'the sorted sequence of a feature vector is changed from outside: its keys need no longer be in order or single', f.loc(n))
