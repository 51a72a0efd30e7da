"""Orderings are consistent and equality is symmetric and complete."""
import itertools
from ..flow import *
from ..prog import *
from ..paths import path, single_init
from .. import loops as L

LEVEL = 'other'
EXPLAIN = ('Abstract evaluation of every comparison function. Orderings: each quantity that is compared between the two arguments is given an abstract sign (less, equal, greater); the function\'s verdict is worked '
           'out for every combination of signs and has to be that of a lexicographic order, which is a consistent (strict weak) order. Equality: every comparison has to set a part of one object against the same part of the '
           'other; containers compared element by element need equal sizes first and a loop over all elements; tolerances have to be symmetric; every attribute that makes up the object\'s value takes part.')

# attributes that are not part of the value of an object: derived from others, or set only for bookkeeping
NOT_VALUE = {('travatar::HyperNode', 'trg_sym_'), ('travatar::HyperNode', 'has_trg_span_'), ('travatar::HyperPath', 'data_'), ('travatar::HyperPath', 'loss_')}

def run(P, R, tier):
    R.rule('an ordering used for sorting, priority queues, sets or maps is irreflexive, asymmetric and transitive: it decides by one quantity after the other, each compared between the same parts of both arguments')
    R.rule('where the first quantity is a score, the higher score comes first')
    R.rule('an equality test sets each part of one object against the same part of the other, symmetrically, and over all elements of containers of equal size')
    R.rule('an equality test takes every attribute into account that makes up the value of the object; "not equal" is its negation')
    R.rule('a hash is computed only from what equality compares')
    n = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if not local(P, f): continue
        if comparator(P, f): ordering(P, R, f); n += 1
        elif f.name in ('operator==', 'Equals') and equality(P, f): equal(P, R, f)
        elif f.name == 'operator!=' and equality(P, f): unequal(P, R, f)
        elif f.name == 'operator()' and P.ts(f.decl.get('rt', -1)) in ('unsigned long', 'std::size_t', 'size_t') and len(f.params) == 1: hashing(P, R, f)
    R.need(n >= 5, 'no orderings found')

def local(P, f): return f.file.startswith(repo()) and '/lm/' not in f.file and '/src/test/' not in f.file and '/kenlm/' not in f.file and '/search/' not in f.file and '/util/' not in f.file
def repo():
    from .. import facts
    return facts.REPO

def base(P, t):
    for _ in range(4):
        t = P.strip_ref(t); x = P.T(t)
        if x['k'] == 'ptr': t = x['p']; continue
        if x.get('tn') in SMART and x.get('ta'): t = x['ta'][0]; continue
        break
    return P.T(t).get('r') or P.ts(t).replace('const ', '')

def comparator(P, f):
    if P.ts(f.decl.get('rt', -1)) != 'bool': return False
    if f.name == 'operator()' and len(f.params) == 2: return base(P, f.params[0]['t']) == base(P, f.params[1]['t']) and used(P, f.cls)
    if f.name == 'operator<':
        return len(f.params) == 2 and base(P, f.params[0]['t']) == base(P, f.params[1]['t']) or f.cls and len(f.params) == 1 and base(P, f.params[0]['t']) == f.cls
    return False

def used(P, c):
    u = getattr(P, '_usedcmp', None)
    if u is None:
        u = P._usedcmp = set()
        for x in P.types.values():
            for t in x.get('ta') or ():
                if isinstance(t, int) and P.T(t).get('r'): u.add(P.T(t)['r'])
        for f in P.funcs.values():
            for n in f.nodes():
                if n.k in CTORS and n.f in P.decls and P.decls[n.f].get('cls') not in (None, f.cls): u.add(P.decls[n.f]['cls'])
    return c in u

def equality(P, f):
    if f.cls and f.decl.get('cls') and len(f.params) == 1: return P.derives(f.cls, base(P, f.params[0]['t']))
    return len(f.params) == 2 and base(P, f.params[0]['t']) == base(P, f.params[1]['t'])

# ---- canonical terms

class Canon:
    """text of an expression with the two objects written $0 and $1"""
    def __init__(s, P, f):
        s.P = P; s.f = f; s.par = {}
        if f.cls and len(f.params) == 1: s.par[f.params[0]['v']] = '$1'; s.this = '$0'
        else:
            s.par[f.params[0]['v']] = '$0'; s.par[f.params[1]['v']] = '$1'; s.this = 'this'
    def __call__(s, n, depth=14):
        P, f = s.P, s.f
        n = L.strip(n)
        if n is None or depth == 0: return '?'
        r = lambda x: s(x, depth - 1)
        k = n.k
        if k == 'CXXThisExpr': return s.this
        if k in ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral'): return str(n.val)
        if k in ('GNUNullExpr', 'CXXNullPtrLiteralExpr'): return 'NULL'
        if k == 'DeclRefExpr':
            if n.get('e'): return n.get('e')
            if n.v is None: return n.g or '?'
            if n.v in s.par: return s.par[n.v]
            d = f.vardecl(n.v)
            if d is not None and 'rng' in d.x: return f'elem({r(f.node(d.x["rng"]))})'
            for a in [x for x in f.nodes() if x.k in L.LOOPS]:
                li = L.analyse(a, f, P)
                if li.var == n.v and li.kind == 'index': return 'i'
                if li.var == n.v and li.kind == 'iter':
                    i = L.initial(f, n.v, a)
                    if i is not None: return r(i)
            i = single_init(f, n.v)
            return r(i) if i is not None else f'v{n.v}'
        if k == 'MemberExpr':
            if n.m is None: return n.g or '?'
            return f'{r(n.c[0])}.{n.m.rsplit("::", 1)[-1]}'
        if k == 'UnaryOperator':
            return r(n.c[0]) if n.op in ('*', '&') else f'{n.op}({r(n.c[0])})'
        if k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and len(n.c) == 1: return r(n.c[0])
        if k == 'ArraySubscriptExpr' or k == 'CXXOperatorCallExpr' and n.op == '[]': return f'{r(n.c[0])}[{r(n.c[1])}]'
        if k in ('BinaryOperator', 'CXXOperatorCallExpr') and len(n.c) == 2: return f'({r(n.c[0])}{n.op}{r(n.c[1])})'
        if k in CALLS and n.f in P.decls:
            d = P.decls[n.f]
            if k == 'CXXMemberCallExpr' or n.get('mc'):
                o = r(n.c[0])
                if d['n'] in ('get', 'operator->', 'operator*'): return o
                if d['n'] in ('begin', 'cbegin', 'find', 'rbegin'): return f'elem({o})'
                g = P.funcs.get(n.f)
                if g is not None and not call_args(n):
                    from ..paths import trivial_getter
                    t = trivial_getter(P, n.f)
                    if t and t.startswith('.'): return o + t
                return f'{o}.{d["n"]}({",".join(r(a) for a in call_args(n) if a is not None)})'
            return f'{d["n"]}({",".join(r(a) for a in call_args(n) if a is not None)})'
        if k in CTORS and len(n.c) == 1: return r(n.c[0])
        return f'?{n.i}'

def root(t):
    a, b = '$0' in t, '$1' in t
    return (0 if a and not b else 1 if b and not a else 2 if a and b else None)
def generic(t): return t.replace('$0', '$').replace('$1', '$')
def swapped(t): return t.replace('$0', '$2').replace('$1', '$0').replace('$2', '$1')

# ---- orderings: evaluation over signs

class Need(Exception): pass
class Unknown(Exception): pass
class Ret(Exception): pass

class Eval:
    def __init__(s, P, f, signs): s.P = P; s.f = f; s.s = signs; s.can = Canon(P, f); s.env = {}; s.crossed = None
    def sign(s, key):
        if key not in s.s: raise Need(key)
        return s.s[key]
    def run(s):
        try: s.stmt(s.f.body)
        except Ret as r: return r.args[0]
        raise Unknown('no verdict')
    def stmt(s, n):
        if n is None: return
        k = n.k
        if k == 'CompoundStmt':
            for c in n.c: s.stmt(c)
        elif k == 'ReturnStmt': raise Ret(s.truth(s.ex(n.c[0])))
        elif k == 'IfStmt':
            if s.truth(s.ex(n.c[0])): s.stmt(n.c[1])
            elif len(n.c) > 2: s.stmt(n.c[2])
        elif k == 'DeclStmt':
            for c in n.c:
                if c is not None and c.k == 'VarDecl' and c.c and s.P.is_scalar(c.t) and s.P.T(c.t)['k'] != 'ptr': s.env[c.v] = s.ex(c.c[0])
        elif k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=':
            t = L.strip(n.c[0])
            if t.k != 'DeclRefExpr' or t.v is None: raise Unknown('assignment')
            s.env[t.v] = s.ex(n.c[1])
        elif k in L.LOOPS:
            li = L.analyse(n, s.f, s.P)
            if li.full is False: raise Bad(f'the loop over {generic(li.over or "")} leaves elements out: {li.why}', n)
            if li.var is None or li.over is None: raise Unknown('loop')
            s.stmt(L.body(n))                       # the first pair of elements that differ decides; equal ones fall through
        elif k in ('NullStmt',): pass
        elif k in ('UnaryOperator', 'CompoundAssignOperator') or k in CALLS:
            for y in n.walk():
                if y.k == 'DeclRefExpr' and y.v in s.env and y.v is not None: s.env[y.v] = ('u',)
        else: raise Unknown(k)
    def truth(s, v):
        if v[0] == 'c': return bool(v[1])
        if v[0] == 'd': return s.sign(v[1]) != 0
        raise Unknown('truth')
    def ex(s, n):
        n = L.strip(n)
        if n is None: raise Unknown('?')
        k = n.k
        if k in ('IntegerLiteral', 'CXXBoolLiteralExpr'): return ('c', int(n.val) if k == 'IntegerLiteral' else int(n.val in (1, True, 'true', '1')))
        if k == 'FloatingLiteral':
            try: return ('c', float(n.val))
            except (TypeError, ValueError): raise Unknown('literal')
        if k == 'DeclRefExpr' and n.v in s.env: return s.env[n.v]
        if k in CALLS and n.f in s.P.decls and s.P.decls[n.f]['n'] in ('abs', 'fabs', 'fabsf') and len(n.c) == 1:
            v = s.ex(n.c[0])
            if v[0] == 'd': return ('a', v[1])
            if v[0] == 'c': return ('c', abs(v[1]))
            raise Unknown('magnitude')
        if k == 'UnaryOperator' and n.op == '!': return ('c', int(not s.truth(s.ex(n.c[0]))))
        if k == 'UnaryOperator' and n.op == '-':
            v = s.ex(n.c[0])
            if v[0] == 'd': return ('d', v[1], -v[2])
            if v[0] == 'c': return ('c', -v[1])
        if k == 'ConditionalOperator': return s.ex(n.c[1] if s.truth(s.ex(n.c[0])) else n.c[2])
        if k == 'BinaryOperator' and n.op == '&&': return ('c', int(s.truth(s.ex(n.c[0])) and s.truth(s.ex(n.c[1]))))
        if k == 'BinaryOperator' and n.op == '||': return ('c', int(s.truth(s.ex(n.c[0])) or s.truth(s.ex(n.c[1]))))
        if k in ('BinaryOperator', 'CXXOperatorCallExpr') and len(n.c) == 2 and n.op in ('<', '>', '<=', '>=', '==', '!=', '-'):
            a, b = s.ex(n.c[0]), s.ex(n.c[1])
            if a[0] == 'c' and b[0] == 'c':
                return ('c', {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1], '==': a[1] == b[1], '!=': a[1] != b[1], '-': a[1] - b[1]}[n.op] + 0)
            if a[0] == 't' and b[0] == 't':
                ra, rb = root(a[1]), root(b[1])
                if ra is not None and ra == rb and ra != 2:
                    if n.op == '-': return ('t', f'({a[1]}-{b[1]})')
                    raise Bad(f'compares {generic(a[1])} with {generic(b[1])} of one and the same argument', n)
                if {ra, rb} == {0, 1}:
                    if generic(a[1]) != generic(b[1]): raise Bad(f'compares {generic(a[1])} of one argument with {generic(b[1])} of the other', n)
                    d = ('d', generic(a[1]), 1 if ra == 0 else -1)
                    if n.op == '-': return d
                    a, b = d, ('c', 0)
            op = n.op
            if b[0] in 'da' and a[0] == 'c': a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if a[0] in 'da' and b[0] == 'c' and op in ('<', '>', '<=', '>=') and (a[0] == 'a' or b[1]):
                c = b[1]; g = s.sign(a[1]) * (a[2] if a[0] == 'd' else 1)
                if a[0] == 'a': g = abs(g)
                if g * c <= 0 and c: return ('c', int(g < c if op[0] == '<' else g > c))       # on different sides of nothing
                if not c: return ('c', int({'<': g < 0, '>': g > 0, '<=': g <= 0, '>=': g >= 0}[op]))
                far = s.sign(f'{a[1]}#far')
                m = 2 * abs(c) if far else abs(c) / 2
                v = m if g > 0 else -m
                return ('c', int(v < c if op[0] == '<' else v > c))
            if a[0] == 'd' and b == ('c', 0) and op != '-':
                g = s.sign(a[1]) * a[2]
                return ('c', int({'<': g < 0, '>': g > 0, '<=': g <= 0, '>=': g >= 0, '==': g == 0, '!=': g != 0}[op]))
            raise Unknown('arithmetic')
        t = s.can(n)
        if '?' in t: raise Unknown(t)
        return ('t', t)

class Bad(Exception): pass

def ordering(P, R, f):
    R.count('orderings'); key = f.id
    keys = []; table = {}
    try:
        todo = [{}]
        while todo:
            s = todo.pop()
            try: table[tuple(sorted(s.items()))] = Eval(P, f, s).run()
            except Need as e:
                k = e.args[0]
                if k not in keys: keys.append(k)
                if len(keys) > 6: raise Unknown('too many quantities')
                for v in ((0, 1) if k.endswith('#far') else (-1, 0, 1)): todo.append({**s, k: v})
    except Bad as e:
        R.violation(f'{key}|crossed', f'{short(f.q)} {e.args[0]}', f.loc(e.args[1])); return
    except Unknown as e:
        R.count('orderings_not_followed'); return
    for fk in [k for k in keys if k.endswith('#far')]:
        keys.remove(fk); rest = [(dict(t), v) for t, v in table.items()]
        for d, v in rest:
            if any(e.get(fk, 0) != d.get(fk, 0) and fk in d and fk in e and u != v and all(e.get(k, x) == x for k, x in d.items() if k != fk) for e, u in rest):
                R.violation(f'{key}|tolerance', f'{short(f.q)} decides by whether {fk[:-4].replace("$.", "")} differs by more than a tolerance: of three objects that differ by a little each, the first can come before the last although neither comes before the one between', f.loc())
                return
        table = {tuple(sorted((k, x) for k, x in t if k != fk)): v for t, v in table.items()}
    R.count('combinations_of_signs_evaluated', len(table)); R.count('quantities_compared', len(keys))
    def val(s):
        for t, v in table.items():
            if all(s[k] == x for k, x in t): return v
    full = {c: val(dict(zip(keys, c))) for c in itertools.product((-1, 0, 1), repeat=len(keys))}
    zero = tuple([0] * len(keys))
    name = short(f.q)
    if not keys: R.violation(f'{key}|const', f'{name} does not compare its arguments', f.loc()); return
    if full[zero]: R.violation(f'{key}|irreflexive', f'{name} puts an object before an equal one (and before itself)', f.loc()); return
    bad = next((c for c in full if full[c] and full[tuple(-x for x in c)]), None)
    if bad: R.violation(f'{key}|asymmetric', f'{name} puts each of two objects before the other when ' + ' and '.join(f'{k.replace("$.", "")} is {w(x)}' for k, x in zip(keys, bad)), f.loc()); return
    order = lex(full, list(range(len(keys))), len(keys))
    if order is None: R.violation(f'{key}|order', f'{name} is not a consistent order: its verdicts are not those of comparing {", ".join(k.replace("$.", "") for k in keys)} one after the other', f.loc()); return
    if order and ('More' in (f.cls or '') and order[0][1] < 0 or 'Less' in (f.cls or '') and order[0][1] > 0): R.violation(f'{key}|best first', f'{name} orders {keys[order[0][0]].replace("$.", "")} the wrong way round', f.loc())
    elif order and 'score' in keys[order[0][0]].lower().split('.')[-1] and order[0][1] < 0: R.violation(f'{key}|best first', f'{name} puts the lower {keys[order[0][0]].replace("$.", "")} first', f.loc())
    R.sample(f'{name}: ' + ', '.join(keys[i].replace('$.', '') + (' descending' if d > 0 else ' ascending') for i, d in order))
    if f.name == 'operator<' and f.cls:
        eq = next((g for g in P.funcs.values() if g.cls == f.cls and g.name == 'operator=='), None)
        if eq is not None:
            a = {k.split('.')[1] for k in keys if '.' in k}; b = {x for x in fields_compared(P, eq)}
            if a != b: R.violation(f'{key}|equality', f'{name} and equality of {short(f.cls)} look at different attributes: {", ".join(sorted(a ^ b))}', f.loc())
    elif f.name == 'operator<': pass

def w(x): return {-1: 'less', 0: 'equal', 1: 'greater'}[x]

def lex(full, rest, n):
    """[(key, direction)] when the verdict is lexicographic"""
    if not any(full.values()): return []
    for k in rest:
        pos = {v for c, v in full.items() if c[k] > 0}; neg = {v for c, v in full.items() if c[k] < 0}
        if len(pos) == 1 and len(neg) == 1 and pos != neg:
            sub = {c: v for c, v in full.items() if c[k] == 0}
            r = lex(sub, [x for x in rest if x != k], n)
            if r is not None: return [(k, 1 if pos == {True} else -1)] + r
    return None

# ---- equality

CMP = ('==', '!=', '<', '>', '<=', '>=')

def comparisons(P, f):
    loopconds = set()
    for n in f.nodes():
        if n.k in L.LOOPS:
            b = L.body(n)
            for c in n.c:
                if c is not None and c is not b: loopconds |= {y.i for y in c.walk()}
    for n in f.nodes():
        if n.i in loopconds: continue
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in CMP and len(n.c) == 2: yield n, n.c[0], n.c[1]
        elif n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') in ('Equals', 'operator==') and len(n.c) == 2: yield n, n.c[0], n.c[1]

def helpers(P, f):
    """calls of yes/no functions that are given the same part of both objects"""
    can = Canon(P, f)
    for n in f.nodes():
        if n.k in CALLS and n.f in P.funcs and P.ts(P.decls[n.f].get('rt', -1)) in ('bool', 'int'):
            a = [x for x in n.c if x is not None]
            t = [can(x) for x in a]
            for i in range(len(a)):
                for j in range(i + 1, len(a)):
                    if generic(t[i]) == generic(t[j]) and {root(t[i]), root(t[j])} == {0, 1}: yield n, a[i], a[j]

def fields_compared(P, f, depth=3):
    can = Canon(P, f); out = set()
    for n, a, b in list(comparisons(P, f)) + list(helpers(P, f)):
        if n.k in CALLS and n.f in P.funcs and n.f != f.id and depth and can(a) in ('$0', '$1') and can(b) in ('$0', '$1') and equality(P, P.funcs[n.f]) and P.funcs[n.f].params: out |= fields_compared(P, P.funcs[n.f], depth - 1)
        for x in (can(a), can(b)):
            g = generic(x)
            if g.endswith(('.size()', '.length()', '.empty()')): continue
            i = g.find('$.')
            while i >= 0:
                j = i + 2
                while j < len(g) and (g[j].isalnum() or g[j] == '_'): j += 1
                out.add(g[i + 2:j]); i = g.find('$.', j)
    return out

def through(n):
    """the expression a local stands for"""
    for _ in range(4):
        i = single_init(n.fn, n.v) if n is not None and n.k == 'DeclRefExpr' and n.v is not None else None
        if i is None: break
        n = L.strip(i)
    return n

def absdiff(P, n, can):
    """(a, b) for abs(a - b)"""
    n = through(L.strip(n))
    if n is not None and n.k in CALLS and P.decls.get(n.f, {}).get('n') in ('abs', 'fabs', 'fabsf'):
        x = through(L.strip(call_args(n)[0]))
        if x is not None and x.k == 'BinaryOperator' and x.op == '-': return can(x.c[0]), can(x.c[1])
    return None

def plaindiff(P, n, can):
    """(a, b) for a - b"""
    n = L.strip(n)
    if n is not None and n.k == 'DeclRefExpr' and n.v is not None:
        i = single_init(n.fn, n.v)
        if i is not None: n = L.strip(i)
    if n is not None and n.k == 'BinaryOperator' and n.op == '-':
        a, b = can(n.c[0]), can(n.c[1])
        if generic(a) == generic(b) and {root(a), root(b)} == {0, 1}: return a, b
    return None

def symmetric(P, n, can):
    """an expression that does not change when the two objects are exchanged"""
    n = L.strip(n); t = can(n)
    if root(t) is None: return True
    n = through(n); t = can(n)
    if n.k in CALLS and P.decls.get(n.f, {}).get('n') in ('max', 'min'):
        a = [can(x) for x in call_args(n)]
        return sorted(a) == sorted(swapped(x) for x in a)
    if n.k == 'BinaryOperator' and n.op in ('*', '+'):
        a = [can(n.c[0]), can(n.c[1])]
        return symmetric(P, n.c[0], can) and symmetric(P, n.c[1], can) or sorted(a) == sorted(swapped(x) for x in a)
    if n.k in CALLS and len(call_args(n)) == 1: return symmetric(P, call_args(n)[0], can)
    if n.k == 'BinaryOperator' and n.op == '/': return symmetric(P, n.c[0], can) and symmetric(P, n.c[1], can)
    return t == swapped(t)

def equal(P, R, f):
    R.count('equality_tests'); key = f.id; can = Canon(P, f); name = short(f.q)
    # delegation to another test of both whole objects
    cs = list(comparisons(P, f))
    if not cs: return
    whole = False; diffs = []
    for n, a, b in cs:
        R.count('comparisons'); ta, tb = can(a), can(b)
        d = absdiff(P, a, can); tol = b
        if d is None and absdiff(P, b, can): d = absdiff(P, b, can); tol = a
        if d:
            if generic(d[0]) != generic(d[1]) or {root(d[0]), root(d[1])} != {0, 1}: R.violation(f'{key}|{generic(d[0])}|pair', f'{name} compares {show(d[0])} with {show(d[1])}', f.loc(n))
            elif not symmetric(P, tol, can): R.violation(f'{key}|{generic(d[0])}|tolerance', f'{name}: how far {show(d[0])} may be off depends on one of the two objects only, so a may equal b while b does not equal a', f.loc(n))
            continue
        e = plaindiff(P, a, can) or plaindiff(P, b, can)
        if e and n.op in ('<', '>', '<=', '>='): diffs.append((n, e, n.op if plaindiff(P, a, can) else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[n.op])); continue
        ra, rb = root(ta), root(tb)
        if '?' in ta or '?' in tb: R.count('comparisons_not_followed'); continue
        if ra is None or rb is None: continue
        if ra == rb and ra in (0, 1):
            if ta == tb: R.violation(f'{key}|{generic(ta)}|self', f'{name} compares {show(ta)} with itself', f.loc(n))
            elif 'end()' in ta or 'end()' in tb: pass
            else: R.violation(f'{key}|{generic(ta)}|pair', f'{name} compares {show(ta)} with {show(tb)} of the same object', f.loc(n))
            continue
        if generic(ta) != generic(tb):
            R.violation(f'{key}|{generic(ta)}|pair', f'{name} compares {show(ta)} with {show(tb)}', f.loc(n)); continue
        if n.op in ('<', '>', '<=', '>=') and f.name in ('operator==', 'Equals'): R.violation(f'{key}|{generic(ta)}|order', f'{name} asks whether {show(ta)} is smaller or larger: it would not give the same answer with the objects exchanged', f.loc(n))
        if ta in ('$0', '$1'): whole = True
    for n, e, op in diffs:
        up = (op[0] == '>') == (root(e[0]) == 0)
        if not any(((o[0] == ">") == (root(x[0]) == 0)) != up for m, x, o in diffs if generic(x[0]) == generic(e[0])):
            R.violation(f'{key}|{generic(e[0])}|onesided', f'{name} looks at a difference in {show(e[0])} in one direction only: it would not give the same answer with the objects exchanged', f.loc(n))
    # containers
    sizes = {}
    for n, a, b in cs:
        ta, tb = generic(can(a)), generic(can(b))
        if ta == tb and (ta.endswith('.size()') or ta.endswith('.length()')): sizes.setdefault(ta.rsplit('.', 1)[0], []).append(n)
    for lp in [x for x in f.nodes() if x.k in L.LOOPS]:
        li = L.analyse(lp, f, P); R.count('loops_comparing_elements')
        if li.full is False: R.violation(f'{key}|{li.over}|loop', f'{name}: the loop over {li.over.replace("this.", "")} leaves elements out: {li.why}', f.loc(lp))
        for y in L.leaves(lp, f):
            if y.k == 'ReturnStmt' and y.c and L.strip(y.c[0]) is not None and str(L.strip(y.c[0]).val) in ('0', 'false', 'False'): continue
            R.violation(f'{key}|{li.over}|skip', f'{name}: the comparison stops before all elements have been looked at', f.loc(y))
        inside = {y.i for y in lp.walk()}
        conts = set()
        for n, a, b in cs:
            if n.i not in inside or n.k not in ('BinaryOperator', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'): continue
            ta, tb = can(a), can(b); g = generic(ta)
            dd = absdiff(P, a, can) or absdiff(P, b, can)
            if dd: g = generic(dd[0])
            elif {root(ta), root(tb)} != {0, 1}: continue
            if '[i]' not in g and 'elem(' not in g: R.violation(f'{key}|{g}|whole', f'{name} compares {show(ta)} only while going over the elements of {(li.over or "something").replace("this.", "")}: when that is empty the two count as equal', f.loc(n)); continue
            i = g.find('[i]')
            if i >= 0: conts.add(g[:i].lstrip('('))
            elif 'elem(' in g: conts.add(g[g.index('elem(') + 5:].split(')')[0])
        over = None
        for c in conts:
            c = c.lstrip('!(')
            ok = [n for n in sizes.get(c, ()) if n.i < lp.i and dominates(n, lp, f)]
            # several containers of one size
            bound = (li.over or '').replace('[]', '').split('.')[-1]
            if not ok and c.split('.')[-1] != bound and any(k.split('.')[-1] == bound or not bound for k in sizes) and any(m.i < lp.i and dominates(m, lp, f) for ns in sizes.values() for m in ns): continue
            if not ok: R.violation(f'{key}|{c}|size', f'{name} compares {show(c)} element by element without having found the sizes equal', f.loc(lp))
    # attributes
    c = f.cls
    if c and f.name == 'operator==':
        got = fields_compared(P, f)
        for k in [c] + P.bases(c):
            for x in P.recs.get(k, {}).get('fields', ()):
                if x.get('static') or (k, x['n']) in NOT_VALUE or (c, x['n']) in NOT_VALUE: continue
                R.count('attributes')
                if x['n'] not in got: R.violation(f'{key}|{x["n"]}', f'{name} does not look at "{x["n"]}"', f.loc())
    elif c and f.name == 'Equals':
        got = fields_compared(P, f)
        for x in P.recs.get(c, {}).get('fields', ()):
            if x.get('static'): continue
            R.count('attributes')
            if x['n'] not in got: R.violation(f'{key}|{x["n"]}', f'{name} does not look at "{x["n"]}"', f.loc())
    # two objects count as equal only after everything has been compared
    b = f.body
    rets = [n for n in f.nodes() if n.k == 'ReturnStmt' and n.c]
    for r in rets:
        e = L.strip(r.c[0])
        if e is not None and e.k == 'CXXBoolLiteralExpr' and str(e.val) in ('1', 'true', 'True') and r is not b.c[-1]:
            if any(a.k in L.LOOPS for a in r.ancestors()): continue
            p = next((a for a in r.ancestors() if a.k == 'IfStmt'), None)
            if p is not None and identity(P, p.c[0], can): continue
            R.violation(f'{key}|early', f'{name} calls two objects equal before everything has been compared', f.loc(r))

def identity(P, c, can):
    c = L.strip(c)
    return c is not None and c.k == 'BinaryOperator' and c.op == '==' and {can(c.c[0]), can(c.c[1])} == {'$0', '$1'}

def dominates(n, lp, f):
    """the comparison n is part of a statement of the function's own block that ends the function when it fails"""
    a = n
    for p in n.ancestors():
        if p.k == 'BinaryOperator' and p.op == '&&' : return False
        if p.k in ('IfStmt',):
            if any(y is n for y in p.c[0].walk()) and p.p is not None and p.p.k == 'CompoundStmt' and (p.p is f.body or any(x is p.p for x in lp.ancestors())):
                return any(y.k == 'ReturnStmt' or y.k == 'CXXThrowExpr' for y in p.c[1].walk())
            return False
    return False

def show(t): return t.replace('$0.', '').replace('$1.', 'the other\'s ').replace('$.', '').replace('$0', 'the object').replace('$1', 'the other')

def unequal(P, R, f):
    R.count('inequality_tests'); can = Canon(P, f)
    rets = [n for n in f.nodes() if n.k == 'ReturnStmt' and n.c]
    for r in rets:
        e, pol = negate(L.strip(r.c[0]))
        e = L.strip(e)
        t = None
        if e is not None and e.k in CALLS:
            nm = P.decls.get(e.f, {}).get('n'); a = [can(x) for x in e.c if x is not None]
            if nm in ('operator==', 'Equals') and len(a) == 2: t = a
        elif e is not None and e.k == 'BinaryOperator' and e.op == '==': t = [can(e.c[0]), can(e.c[1])]
        if t is None: R.count('inequality_tests_not_followed'); continue
        if pol: R.violation(f'{f.id}|negation', f'{short(f.q)} answers what equality answers', f.loc(r))
        elif generic(t[0]) != generic(t[1]) or {root(t[0]), root(t[1])} != {0, 1}: R.violation(f'{f.id}|pair', f'{short(f.q)} compares {show(t[0])} with {show(t[1])}', f.loc(r))

def hashing(P, R, f):
    R.count('hashes'); v = f.params[0]['v']
    for n in f.nodes():
        if n.k == 'DeclRefExpr' and n.g is not None and not n.get('e') and n.g in P.globals and not P.T(P.globals[n.g].get('t', -1)).get('const'):
            R.violation(f'{f.id}|global', f'{short(f.q)} depends on {n.g}', f.loc(n))
        if n.k == 'UnaryOperator' and n.op == '&' : R.violation(f'{f.id}|address', f'{short(f.q)} depends on an address', f.loc(n))
        if n.k == 'MemberExpr' and n.c and n.c[0] is not None and n.c[0].k == 'CXXThisExpr' and n.m: R.violation(f'{f.id}|state', f'{short(f.q)} depends on {n.m.rsplit("::", 1)[-1]}', f.loc(n))
