"""Statistics add, scale and compare element by element."""
import re
from fractions import Fraction
from ..flow import *
from ..prog import *
from ..keyed import Undecided, Wrong, sym, padd, pmul, equal, pstr
from .. import elemwise as W
from .c23 import elem, literal_only

LEVEL = 'other'
EXPLAIN = ('Abstract interpretation of every version of the arithmetic operations on evaluation statistics, with one arbitrary index k: for every combination of sizes (empty, equal, different) '
           'the k-th value that results is worked out as a polynomial in the k-th values given and the factor, and has to be that of adding, adding a multiple, or scaling; the tests for zero and equality have to answer '
           'no exactly when some k-th value says so, whatever its sign. What an operation of a part does is assumed to be what it is for, and every version is itself checked.')
BASE = 'travatar::EvalStats'

def subst(p, env):
    out = frozenset()
    for m, c in p:
        t = frozenset({(tuple(x for x in m if x not in env), Fraction(1))}); k = c
        for x in m:
            if x in env: k *= env[x]
        if k: out = padd(out, pmul(t, frozenset({((), k)})))
    return out

def holds(kind, v, op, c):
    if kind == 'abs': v = abs(v)
    return {'==': v == c, '!=': v != c, '<': v < c, '>': v > c, '<=': v <= c, '>=': v >= c}[op]

def reps(atoms):
    cs = {Fraction(c) for (k, p, op, c), tr in atoms} | {Fraction(0)}
    cs |= {-c for c in cs}
    xs = sorted(cs); out = set(xs)
    for a, b in zip(xs, xs[1:]): out.add((a + b) / 2)
    out |= {xs[0] - 1, xs[-1] + 1, Fraction(10) ** 6, -Fraction(10) ** 6}
    return sorted(out)

def feasible(atoms):
    groups = {}
    for a, tr in atoms:
        if a[0] != 'aux': groups.setdefault(a[1], []).append((a, tr))
    for p, g in groups.items():
        if not any(all(holds(k, x, op, c) == tr for (k, _, op, c), tr in g) for x in reps(g)): return False
    return True

def knows(atoms):
    zeros, env = [], {}
    for (k, p, op, c), tr in atoms:
        if k == 'aux': continue
        if (op == '==' and tr or op == '!=' and not tr) or (k == 'abs' and c == 0 and (op == '<=' and tr or op == '>' and not tr)):
            if len(p) == 1:
                (m, q), = p
                if len(m) == 1: env[m[0]] = Fraction(c) / q; continue
            zeros.append(padd(p, frozenset({((), Fraction(c))}) if c else frozenset(), -1))
    return zeros, env

def same(a, b, atoms):
    zeros, env = knows(atoms)
    return equal(subst(a, env), subst(b, env), [subst(z, env) for z in zeros])

def opaque(p): return any('?' in m for m, c in p)

def run(P, R, tier):
    R.rule('adding, adding a multiple and scaling change the k-th value to the sum, the sum with the multiple, and the product, for every k; nothing given is altered')
    R.rule('statistics of different length are not added; empty ones count as zero')
    R.rule('the test for zero says no exactly if some value is not zero; the test for equality says no if some values differ, to either side, or the numbers of values do')
    if BASE not in P.recs: R.need(False, 'the statistics class'); return
    n = 0
    for c in [BASE] + sorted(P.subclasses(BASE)): n += one(P, R, c)
    R.need(n >= 8, 'operations of the statistics classes')

def one(P, R, c):
    r = P.recs[c]; n = 0
    if '/src/test/' in r.get('file', ''): return 0
    bs = P.bases(c)
    parts = [x for x in r['fields'] if elem(P, x['t']) in bs]
    data = parts[0]['id'] if parts else next((x['id'] for x in P.recs[BASE]['fields'] if P.tname(x['t']) == 'std::vector'), None)
    if data is None: R.need(False, 'the values of the statistics'); return 0
    for d in P.methods(c):
        f = P.funcs.get(d['D'])
        if f is None or f.name not in W.OPS or f.name == 'Clone' or f.cls != c: continue
        n += 1; R.count('operations_of_statistics')
        try: judge(P, R, f, data, bool(parts))
        except Undecided as e: R.count('not_decided'); R.sample(f'not decided: {short(f.q)}: {e}')
        except Wrong as e: R.violation(f'{f.id}|{e.msg}', f'{short(f.q)} {e.msg}', f.loc(e.node))
    return n

SC = [('0', '0'), ('0', 'n'), ('n', '0'), ('n', 'n'), ('n', 'm')]
def judge(P, R, f, data, comp):
    name = f.name; nm = short(f.q)
    params = []; binary = False
    for p in f.params:
        if P.is_scalar(P.strip_ref(p['t'])): params.append(('num', sym('p')))
        else: params.append(('obj', 'rhs')); binary = True
    l, r, p = sym('l'), sym('r'), sym('p')
    for a, b in (SC if binary else [('0', None), ('n', None)]):
        sizes = {'this': a}
        if b is not None: sizes['rhs'] = b
        I = W.Interp(P, data, None)
        outs = [(k, v, t) for k, v, t in I.start(f, sizes, params) if feasible(t.atoms)]
        R.count('cases', len(outs))
        what = {('0', '0'): 'both empty', ('0', 'n'): 'nothing in it yet', ('n', '0'): 'nothing to add', ('n', 'n'): 'as many values on both sides', ('n', 'm'): 'different numbers of values'}.get((a, b), 'no values' if a == '0' else 'values')
        def bad(tag, msg, node=None): R.violation(f'{f.id}|{tag}', f'{nm}: with {what}, {msg}', f.loc(node) if node is not None else f.loc())
        if name == 'IsZero':
            for k, v, t in outs:
                if k == 'throw': bad('throw', 'an error is raised'); return
                if v is None or v[0] != 'bool': raise Undecided('an answer that is not followed')
            if a == '0':
                if any(not v[1] for k, v, t in outs): bad('empty', 'the answer is no')
                continue
            if any(k == 'ret' and v[1] and t.early for k, v, t in outs): bad('early', 'the answer is yes as soon as one value says so'); return
            predicate(outs, l, bad, 'the value', False)
            continue
        if name == 'Equals':
            for k, v, t in outs:
                if k == 'throw': 
                    if a == b: bad('throw', 'an error is raised'); return
                    continue
                if v is None or v[0] != 'bool': raise Undecided('an answer that is not followed')
                if a != b and v[1] and not aux(t): bad('sizes', 'the answer is yes'); return
                if a == b == '0' and not v[1] and not aux(t): bad('empty', 'the answer is no'); return
            if a == b == 'n' and any(k == 'ret' and v[1] and t.early for k, v, t in outs): bad('early', 'the answer is yes as soon as one value says so'); return
            if a == b == 'n': predicate(outs, padd(l, r, -1), bad, 'the difference', True)
            continue
        for k, v, t in outs:
            if k == 'throw':
                if a == b or b is None: bad('throw', 'an error is raised'); return
                continue
            if (a, b) == ('n', 'm') and not (name == 'PlusEqualsTimes' and t.seq['this'] == ('n', l) and not subst(p, knows(t.atoms)[1])): bad('sizes', 'they are added nevertheless'); return
            if t.early: bad('early', 'the rest is left out as soon as one value ends the loop' + cases(t.atoms)); return
            res = 'this'
            if name in ('Plus', 'Times'):
                if v is None or v[0] != 'obj': raise Undecided('a result that is not followed')
                res = v[1]
                if res in ('this', 'rhs'): bad('shared', 'the result is one of the things given'); return
                if t.seq['this'] != (a, l if a != '0' else frozenset()): bad('this', 'the object itself is changed'); return
            elif v is not None and v[0] == 'obj' and v[1] != 'this': bad('result', 'what is returned is not the object itself'); return
            if b is not None and t.seq['rhs'] != (b, r if b != '0' else frozenset()): bad('rhs', 'what is added is changed'); return
            size, val = t.seq[res]
            if name in ('PlusEquals', 'Plus'): want = {('0', '0'): ('0', frozenset()), ('0', 'n'): ('n', r), ('n', '0'): ('n', l), ('n', 'n'): ('n', padd(l, r))}[(a, b)]
            elif name == 'PlusEqualsTimes': want = {('n', 'm'): ('n', l), ('0', '0'): ('0', frozenset()), ('0', 'n'): ('n', pmul(r, p)), ('n', '0'): ('n', l), ('n', 'n'): ('n', padd(l, pmul(r, p)))}[(a, b)]
            elif b is not None: raise Undecided('other arguments')
            else: want = ('0', frozenset()) if a == '0' else ('n', pmul(l, p))
            if size != want[0]:
                zs, env = knows(t.atoms)
                if (a, b) == ('0', 'n') and size == '0' and not subst(want[1], env): continue      # zero either way
                bad('size', f'the result has {"no values" if size == "0" else "another number of values"}'); return
            if size == '0': continue
            if opaque(val): raise Undecided('a value that is not followed')
            if not same(val, want[1], t.atoms): bad('value', f'value k becomes {show(val)} instead of {show(want[1])}' + cases(t.atoms)); return

def cases(atoms):
    o = [f'{"not " if not tr else ""}{"|" if k == "abs" else ""}{show(p)}{"|" if k == "abs" else ""} {op} {float(c):g}' for (k, p, op, c), tr in atoms if k != 'aux']
    return ' when ' + ' and '.join(o) if o else ''
def show(p): return re.sub(r'\b[lr]\b', lambda m: {'l': 'its own', 'r': 'the other'}[m.group()], pstr(p))
def aux(t): return any(k == 'aux' and (op == '!=') == tr or k != 'aux' and not {x for m, c2 in p for x in m} <= {'l', 'r'} and (op == '!=') == tr for (k, p, op, c), tr in t.atoms)

def predicate(outs, tgt, bad, what, sym_):
    """for every value of tgt the answer: no when it is far from zero, not no when it is zero"""
    neg = pmul(tgt, frozenset({((), Fraction(-1))}))
    ats = []
    for k, v, t in outs:
        for (kind, p, op, c), tr in t.atoms:
            if kind == 'aux' or not any(x in ('l', 'r') for m, q in p for x in m): continue
            if p not in (tgt, neg) or opaque(p): raise Undecided('a test of something else')
            ats.append(((kind, p, op, c), tr))
    xs = reps(ats); ans = {}
    for x in xs:
        got = set()
        for k, v, t in outs:
            if aux(t): continue
            if all(kind == 'aux' or p not in (tgt, neg) or holds(kind, x if p == tgt else -x, op, Fraction(c)) == tr for (kind, p, op, c), tr in t.atoms): got.add(v[1])
        if not got: continue
        ans[x] = got
    for x, got in sorted(ans.items()):
        if x == 0 and False in got: bad('zero', f'the answer is no although {what} is zero'); return
        if abs(x) >= 1 and True in got: bad('other', f'the answer is yes although {what} is {"positive" if x > 0 else "negative"}'); return
    for x in ans:
        if -x in ans and ans[x] != ans[-x]: bad('sign', f'the answer depends on the sign of {what}'); return
