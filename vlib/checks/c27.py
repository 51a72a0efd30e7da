"""A nonterminal's number means the same child everywhere."""
from ..flow import *
from ..prog import *
from ..paths import path, single_init
from .. import loops as L
from .c18 import local

LEVEL = 'other'
EXPLAIN = ('Words below zero stand for nonterminals: number k is written -1-k. Every subscript, stored word and child lookup is put in linear form, and a conversion that is not its own inverse is reported, as is a use of the '
           'wrong sign\'s branch. For every container that is indexed with a nonterminal\'s number, its order is derived from where it is filled (in order of the edge\'s children, or in order of the target words; through '
           'parameters to all callers): only containers in the order of the children may be indexed so, and an edge\'s children may only be set from such a container. Where two edges are composed, the renumbering is checked symbolically.')

WORDY = {'std::vector<int, std::allocator<int>>'}

def run(P, R, tier):
    R.rule('number k is written as the word -1-k and word w is read as number -1-w; a word is a nonterminal exactly when it is below zero')
    R.rule('a container that is indexed by a nonterminal\'s number is in the order of the rule\'s children')
    R.rule('children are added to an edge in their order, never backwards or in the order of the target words')
    R.rule('when the child edge replaces child t of its parent, its children take the place of that child, and numbers are shifted accordingly in every factor')
    O = Order(P)
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if not local(P, f): continue
        numbers(P, R, f, O)
        adding(P, R, f, O)
        composing(P, R, f)
    R.need(R.cov.get('number_subscripts', 0) > 0, 'no use of a nonterminal number found')

# ---- linear forms

def lin(P, f, n, depth=8):
    """{symbol: coefficient, 1: constant}; symbols are ('v', var) or ('x', text); None when not linear"""
    n = L.strip(n)
    if n is None or depth == 0: return None
    if n.k == 'IntegerLiteral' or n.k == 'CharacterLiteral':
        return {1: int(n.val)}
    if n.k == 'DeclRefExpr' and n.v is not None:
        s = single_init(f, n.v)
        d = f.vardecl(n.v)
        if s is not None and not (d is not None and 'rng' in d.x) and P.T(P.strip_ref(n.t))['k'] == 'int':
            r = lin(P, f, s, depth - 1)
            if r is not None: return r
        return {('v', n.v): 1}
    if n.k == 'UnaryOperator' and n.op == '-':
        r = lin(P, f, n.c[0], depth - 1)
        return {k: -v for k, v in r.items()} if r is not None else None
    if n.k == 'UnaryOperator' and n.op == '~':            # ~x is -1-x
        r = lin(P, f, n.c[0], depth - 1)
        return add({1: -1}, r, -1) if r is not None else None
    if n.k == 'UnaryOperator' and n.op == '+': return lin(P, f, n.c[0], depth - 1)
    if n.k == 'BinaryOperator' and n.op in ('+', '-'):
        a, b = lin(P, f, n.c[0], depth - 1), lin(P, f, n.c[1], depth - 1)
        if a is None or b is None: return None
        return add(a, b, 1 if n.op == '+' else -1)
    if n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') == 'size':
        p = path(n.c[0], f, P)
        return {('x', f'size({p})'): 1} if p else None
    if n.k in ('CXXOperatorCallExpr', 'ArraySubscriptExpr', 'MemberExpr', 'CXXMemberCallExpr'):
        if P.T(P.strip_ref(n.t))['k'] != 'int': return None
        from .c18 import Canon
        try: t = text(P, f, n)
        except Exception: t = None
        return {('x', t): 1} if t else None
    return None

def text(P, f, n, depth=10):
    n = L.strip(n)
    if n is None or depth == 0: return '?'
    r = lambda x: text(P, f, x, depth - 1)
    if n.k == 'DeclRefExpr': return f'v{n.v}' if n.v is not None else (n.g or '?')
    if n.k == 'CXXThisExpr': return 'this'
    if n.k == 'IntegerLiteral': return str(n.val)
    if n.k == 'MemberExpr': return f'{r(n.c[0])}.{(n.m or n.g or "?").rsplit("::", 1)[-1]}'
    if n.k in ('ArraySubscriptExpr', 'CXXOperatorCallExpr') and len(n.c) == 2: return f'{r(n.c[0])}[{r(n.c[1])}]'
    if n.k in ('UnaryOperator', 'CXXOperatorCallExpr'): return f'{n.op}{r(n.c[0])}'
    if n.k in CALLS and n.f in P.decls: return f'{P.decls[n.f]["n"]}({",".join(r(x) for x in n.c if x is not None)})'
    if n.k == 'BinaryOperator': return f'({r(n.c[0])}{n.op}{r(n.c[1])})'
    return f'#{n.i}'

def add(a, b, s):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if out[k] == 0 and k != 1: del out[k]
    return out

def single(form):
    """(symbol, coefficient, constant) of a form with one symbol"""
    if form is None: return None
    ks = [k for k in form if k != 1 and form[k]]
    return (ks[0], form[ks[0]], form.get(1, 0)) if len(ks) == 1 else None

# ---- branches on the sign of a word

def sign_cond(P, f, c):
    """(symbol, true when the condition holds for nonterminals, exact?)"""
    pol = True
    c = L.strip(c)
    while c is not None and c.k == 'UnaryOperator' and c.op == '!': c = L.strip(c.c[0]); pol = not pol
    if c is None or c.k != 'BinaryOperator' or c.op not in ('<', '>', '<=', '>='): return None
    a, b, op = c.c[0], c.c[1], c.op
    fa, fb = lin(P, f, a), lin(P, f, b)
    if fa is None or fb is None: return None
    if single(fa) is None and single(fb) is not None: fa, fb, op = fb, fa, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
    s = single(fa)
    if s is None or s[1] != 1 or [k for k in fb if k != 1 and fb[k]]: return None
    k = fb.get(1, 0) - s[2]
    # w < k, w <= k, w > k, w >= k
    lo = op in ('<', '<=')
    if op in ('<=', '>'): k += 1                       # w < k' or w >= k'
    if k not in (0, 1, -1): return None
    return s[0], lo == pol, k == 0

def neg_blocks(P, f):
    """symbol -> (blocks only reached when the word is below zero, only when not, [(cond, exact)])"""
    c = getattr(f, '_negb', None)
    if c is not None: return c
    out = {}
    for b, B in f.cfg.items():
        if B.cond is None or len(B.succ) != 2 or B.term == 'SwitchStmt': continue
        s = sign_cond(P, f, B.cond)
        if s is None: continue
        sym, lowtrue, exact = s
        def reach(x):
            if x not in f.cfg: return set()
            seen = set(); w = [x]
            while w:
                y = w.pop()
                if y in seen or y == b or y not in f.cfg: continue
                seen.add(y); w += f.cfg[y].succ
            return seen
        t, e = reach(B.succ[0]), reach(B.succ[1])
        neg, pos = (t - e, e - t) if lowtrue else (e - t, t - e)
        o = out.setdefault(sym, [set(), set(), []])
        o[0] |= neg; o[1] |= pos; o[2].append((B.cond, exact, neg, pos))
    f._negb = out
    return out

def block_of(f, n):
    m = getattr(f, '_bof', None)
    if m is None:
        m = f._bof = {}
        for b, B in f.cfg.items():
            for e in B.els:
                if isinstance(e, Node): m.setdefault(e.i, b)
    x = n
    while x is not None:
        if x.i in m: return m[x.i]
        x = x.p
    return None

def subscripts(P, f):
    """(node, base, index)"""
    for n in f.nodes():
        if n.k == 'ArraySubscriptExpr': yield n, n.c[0], n.c[1]
        elif n.k == 'CXXOperatorCallExpr' and n.op == '[]' and len(n.c) == 2:
            tn = P.tname(n.c[0].t)
            if 'map' not in tn: yield n, n.c[0], n.c[1]
        elif n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') == 'at' and len(n.c) == 2 and 'map' not in P.tname(n.c[0].t): yield n, n.c[0], n.c[1]
        elif n.k in CALLS and P.decls.get(n.f, {}).get('n') in ('SafeAccess', 'SafeReference') and len(call_args(n)) == 2: yield n, call_args(n)[0], call_args(n)[1]

def mentions(P, f, n, sym, depth=6):
    fm = lin(P, f, n)
    return fm is not None and sym in fm

def numbers(P, R, f, O):
    signs = neg_blocks(P, f) if f.cfg else {}
    used = set()
    def check(n, idx, what):
        fm = lin(P, f, idx)
        s = single(fm)
        if s is None: return None
        sym, a, b = s
        if a == -1:
            R.count('conversions')
            if b != -1:
                R.violation(f'{f.q}|convert|{what}', f'nonterminal number and word are converted by {b}-x instead of -1-x', f.loc(n))
            return s
        return s
    for n, base, idx in subscripts(P, f):
        s = check(n, idx, 'subscript')
        blk = block_of(f, n)
        if blk is not None and (s is None or s[0] not in signs) and bytarget(P, f, n, idx, signs, blk) and O.of(f, base) == 'child' and not written(n):
            R.violation(f'{f.q}|index|position', 'a child is looked up by the position of its nonterminal in the target words instead of by its number', f.loc(n)); continue
        if s is None: continue
        sym, a, b = s
        if sym in signs and blk is not None:
            neg, pos, conds = signs[sym]
            if blk in neg and blk not in pos:
                used.add(sym); R.count('number_subscripts')
                if (a, b) != (-1, -1):
                    R.violation(f'{f.q}|index', f'a nonterminal word w is used as an index as {"" if a == 1 else "-"}w{b:+d} instead of -1-w', f.loc(n))
                else: order(P, R, f, n, base, O)
                continue
            if blk in pos and blk not in neg and (a, b) == (-1, -1):
                used.add(sym)
                R.violation(f'{f.q}|index', 'a word that is not a nonterminal is read as a nonterminal\'s number', f.loc(n)); continue
        if (a, b) == (-1, -1):
            R.count('number_subscripts'); order(P, R, f, n, base, O)
    # numbers given to functions in the branch for nonterminals
    for n in f.nodes():
        if n.k in CALLS and n.f in P.decls and P.decls[n.f]['n'] in ('GetTail', 'GetSym', 'GetChildHeadLabels'):
            for a in call_args(n):
                s = single(lin(P, f, a)) if a is not None else None
                blk = block_of(f, n)
                if s and s[0] in signs and blk in signs[s[0]][0] and blk not in signs[s[0]][1]:
                    used.add(s[0]); R.count('number_subscripts')
                    if (s[1], s[2]) != (-1, -1): R.violation(f'{f.q}|index', f'a nonterminal word w is used as an index as {"" if s[1] == 1 else "-"}w{s[2]:+d} instead of -1-w', f.loc(n))
                elif (not s or s[0] not in signs) and a is not None and blk is not None and bytarget(P, f, n, a, signs, blk):
                    R.violation(f'{f.q}|index|position', 'a child is looked up by the position of its nonterminal in the target words instead of by its number', f.loc(n))
        # words stored
        e = stored(P, f, n)
        if e is not None:
            fm = lin(P, f, e)
            s = single(fm)
            if fm and s is None:
                lv = {('v', L.analyse(a, f, P).var) for a in L.enclosing(n) if a.k != 'CXXForRangeStmt' and not backwards(P, f, a)}
                if any(fm.get(v) == 1 for v in lv) and any(k != 1 and k[0] == 'x' and k[1].startswith('size(') and c == -1 for k, c in fm.items()):
                    R.violation(f'{f.q}|convert|backwards', 'nonterminals are numbered backwards', f.loc(n))
            if s and s[1] == -1:
                R.count('conversions')
                if s[2] != -1: R.violation(f'{f.q}|convert|stored', f'nonterminal number k is stored as {s[2]}-k instead of -1-k', f.loc(n))
    for sym in used:
        for c, exact, neg, pos in signs.get(sym, (0, 0, []))[2]:
            R.count('sign_tests')
            if not exact: R.violation(f'{f.q}|sign', 'a word is taken for a nonterminal by another test than being below zero', f.loc(c))

def written(n):
    p = n.p
    return p is not None and p.k in ('BinaryOperator', 'CXXOperatorCallExpr') and p.op == '=' and p.c[0] is n

def wordloop(P, f, n):
    """the innermost loop over words that n is in"""
    for a in L.enclosing(n):
        if a.k == 'CXXForRangeStmt':
            if iswords(P, f, f.node(a.x['rng'])): return a
            continue
        cond = a.c[1] if a.k == 'ForStmt' else a.c[0]
        for y in cond.walk() if cond is not None else ():
            if y.k == 'CXXMemberCallExpr' and P.decls.get(y.f, {}).get('n') in ('size', 'end') and y.c and iswords(P, f, y.c[0]): return a
    return None

def bytarget(P, f, n, idx, signs, blk):
    """in the branch for nonterminals of a loop over words: an index that counts the nonterminals seen so far"""
    if not any(blk in sg[0] and blk not in sg[1] for sg in signs.values()): return False
    a = wordloop(P, f, n)
    if a is None: return False
    i = L.strip(idx)
    fm = lin(P, f, idx)
    if fm is None:
        while i is not None and i.k == 'UnaryOperator' and i.op == '++': i = L.strip(i.c[0])
        if i is None or i.k != 'DeclRefExpr' or i.v is None: return False
        fm = {('v', i.v): 1}
    ks = [k for k in fm if k != 1 and fm[k]]
    if len(ks) != 1 or fm[ks[0]] != 1: return False
    k = ks[0]
    bd = L.body(a)
    if k[0] == 'v':
        d = f.vardecl(k[1])
        if d is None or 'rng' in d.x or inside(d, bd) or L.analyse(a, f, P).var == k[1]: return False
        ws = L.writes(f, k[1], a)
        return bool(ws) and all(w.op == '++' and any(block_of(f, w) in sg[0] and block_of(f, w) not in sg[1] for sg in signs.values()) for w in ws)
    if k[1].startswith('size(v'):
        for y in bd.walk():
            if y.k == 'CXXMemberCallExpr' and P.decls.get(y.f, {}).get('n') in ('push_back', 'emplace_back') and f'size({path(y.c[0], f, P)})' == k[1] and wordloop(P, f, y) is a:
                b = block_of(f, y)
                d = f.vardecl(y.c[0].v) if y.c[0].k == 'DeclRefExpr' else None
                if any(b in sg[0] and b not in sg[1] for sg in signs.values()) and d is not None and not inside(d, bd): return True
    return False

def stored(P, f, n):
    """expression stored as a word of a word vector"""
    if n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') == 'push_back' and len(n.c) == 2 and P.ts(P.strip_ref(n.c[0].t)).replace('const ', '') in WORDY: return n.c[1]
    if n.k == 'BinaryOperator' and n.op == '=':
        l = L.strip(n.c[0])
        if l is not None and l.k == 'CXXOperatorCallExpr' and l.op == '[]' and P.ts(P.strip_ref(l.c[0].t)).replace('const ', '') in WORDY: return n.c[1]
    return None

# ---- order of containers

class Order:
    """'child': one element per child in their order; 'target': in order of the target words; 'back': backwards; 'part': children left out; None: not known"""
    def __init__(s, P):
        s.P = P; s.busy = set(); s.callers = None
    def of(s, f, n, depth=10):
        P = s.P
        n = L.strip(n)
        if n is None or depth == 0: return None
        while n.k == 'UnaryOperator' and n.op in ('*', '&') or n.k == 'CXXOperatorCallExpr' and n.op in ('*', '->') and len(n.c) == 1: n = L.strip(n.c[0])
        if n.k in CALLS and n.f in P.decls:
            nm = P.decls[n.f]['n']; cls = P.decls[n.f].get('cls') or ''
            if nm == 'NT': return 'target'
            if nm in ('GetTails', 'GetNonterms', 'GetSyms', 'GetNontermPositions'): return 'child'
            if nm == 'vf_reverse':
                r = s.of(f, call_args(n)[0], depth - 1)
                return 'back' if r == 'child' else ('child' if r == 'back' else r)
            if n.f in P.funcs:
                g = P.funcs[n.f]
                if ('r', g.id) in s.busy: return None
                s.busy.add(('r', g.id))
                rs = {s.of(g, x.c[0], depth - 1) for x in g.nodes() if x.k == 'ReturnStmt' and x.c}
                s.busy.discard(('r', g.id))
                return rs.pop() if len(rs) == 1 else None
            return None
        if n.k == 'MemberExpr':
            last = (n.m or '').rsplit('::', 1)[-1]
            if last in ('tails_', 'syms', 'nonterms_'): return 'child'
            if last == 'words': return 'words'
            return None
        if n.k in CTORS and n.c and n.c[0] is not None and P.ts(P.strip_ref(n.c[0].t)).replace('const ', '') == P.ts(P.strip_ref(n.t)).replace('const ', ''): return s.of(f, n.c[0], depth - 1)
        if n.k != 'DeclRefExpr' or n.v is None: return None
        v = n.v
        key = (f.id, v)
        if key in s.busy: return None
        s.busy.add(key)
        try: return s.var(f, v, depth)
        finally: s.busy.discard(key)
    def var(s, f, v, depth):
        P = s.P; t = P.T(f.vartype(v))
        for i, p in enumerate(f.params):
            if p['v'] == v:
                rs = set()
                for c in s.calls(f):
                    a = call_args(c)
                    r = s.of(c.fn, a[i], depth - 1) if i < len(a) else None
                    rs.add((r, c))
                bad = [r for r, c in rs if r in ('target', 'back', 'part')]
                if bad: return bad[0]
                ks = {r for r, c in rs}
                return ks.pop() if len(ks) == 1 else None
        d = f.vardecl(v)
        if d is not None and 'rng' in d.x: return None
        out = set()
        if d is not None and d.c and d.c[0] is not None and t['k'] in ('ref', 'ptr'):
            return s.of(f, d.c[0], depth - 1)
        if d is not None and d.c and d.c[0] is not None:
            i = L.strip(d.c[0])
            if i is not None and not (i.k in CTORS and (not i.c or P.T(P.strip_ref(i.c[0].t))['k'] == 'int' if i.c and i.c[0] is not None else True)):
                r = s.of(f, i, depth - 1)
                if r: out.add(r)
        for m in f.nodes():
            b = None
            if m.k == 'CXXMemberCallExpr' and m.c and L.strip(m.c[0]) is not None and L.strip(m.c[0]).k == 'DeclRefExpr' and L.strip(m.c[0]).v == v:
                nm = P.decls.get(m.f, {}).get('n')
                if nm in ('push_back', 'emplace_back'): out.add(s.fill(f, m, depth))
                elif nm == 'push_front' or nm in ('insert', 'emplace') and len(m.c) == 3 and atbegin(f, P, m.c[1]): out.add({'child': 'back', 'back': 'child'}.get(s.fill(f, m, depth)))
                elif nm == 'swap': out.add(None)
                elif nm in ('assign',): out.add(None)
            elif m.k == 'CXXOperatorCallExpr' and m.op == '=' and len(m.c) == 2 and L.strip(m.c[0]) is not None and L.strip(m.c[0]).k == 'DeclRefExpr' and L.strip(m.c[0]).v == v:
                r = s.of(f, m.c[1], depth - 1); out.add(r)
            elif m.k in ('BinaryOperator', 'CXXOperatorCallExpr') and m.op == '=' and len(m.c) == 2:
                l = L.strip(m.c[0])
                if l is not None and l.k in ('CXXOperatorCallExpr', 'ArraySubscriptExpr') and l.op in ('[]', None) and len(l.c) == 2:
                    bb = L.strip(l.c[0])
                    if bb is not None and bb.k == 'DeclRefExpr' and bb.v == v: out.add(s.elem(f, l, depth))
        for x in ('target', 'back', 'part'):
            if x in out: return x
        out.discard('words')
        return out.pop() if len(out) == 1 else None
    def elem(s, f, l, depth):
        """v[i] = ..: the order the index gives"""
        sg = single(lin(s.P, f, l.c[1]))
        if sg and (sg[1], sg[2]) == (-1, -1): return 'child'
        i = L.strip(l.c[1])
        b = block_of(f, l)
        if f.cfg and b is not None and bytarget(s.P, f, l, l.c[1], neg_blocks(s.P, f), b): return 'target'
        fm = lin(s.P, f, l.c[1])
        if fm and i is not None and i.k != 'DeclRefExpr':
            for a in L.enclosing(l):
                li = L.analyse(a, f, s.P)
                if li.var is not None and fm.get(('v', li.var)) == -1:
                    r = 'child' if s.adds(f, a) else s.loop(f, a, depth)
                    return {'child': 'back', 'back': 'child'}.get(r)
        if i is not None and i.k == 'DeclRefExpr':
            for a in L.enclosing(l):
                li = L.analyse(a, f, s.P)
                if li.var == i.v:
                    if s.adds(f, a): return 'child'
                    r = s.loop(f, a, depth)
                    return r if r in ('child',) else None
        return None
    def fill(s, f, m, depth):
        ls = L.enclosing(m)
        if not ls: return None
        a = ls[0]
        if s.adds(f, a): return 'child'
        r = s.loop(f, a, depth)
        if r in ('child', 'words'):
            # in a loop over words, what is pushed under a test for nonterminals is in target order
            if r == 'words': return 'target'
            bd = L.body(a)
            cond = any(x.k in ('IfStmt', 'ConditionalOperator', 'SwitchStmt') for x in m.ancestors() if x is not bd and inside(x, a))
            # a continue before it leaves elements out too
            for y in L.leaves(a, f):
                if y.k == 'ContinueStmt' and y.i < m.i: cond = True
            if cond and both(f, a, m): cond = False
            return 'part' if cond else 'child'
        return r
    def adds(s, f, a):
        """does each round of this loop add the next child to an edge?"""
        if backwards(s.P, f, a): return False
        bd = L.body(a)
        for y in bd.walk():
            if y.k == 'CXXMemberCallExpr' and s.P.decls.get(y.f, {}).get('n') == 'AddTail' and L.enclosing(y)[0] is a and not any(x.k == 'IfStmt' and inside(x, a) for x in y.ancestors()): return True
        return False
    def loop(s, f, a, depth):
        """order in which a loop goes over the children"""
        P = s.P
        if a.k == 'CXXForRangeStmt':
            r = f.node(a.x['rng'])
            o = s.of(f, r, depth - 1)
            if o is None and iswords(P, f, r): return 'words'
            return o
        li = L.analyse(a, f, P)
        # find the container expression of the bound
        cond = a.c[1] if a.k == 'ForStmt' else a.c[0]
        if cond is None: return None
        for y in cond.walk():
            if y.k == 'CXXMemberCallExpr' and P.decls.get(y.f, {}).get('n') in ('size', 'end') and y.c:
                o = s.of(f, y.c[0], depth - 1)
                if o is None and iswords(P, f, y.c[0]): return 'words'
                if backwards(P, f, a) and o == 'child': return 'back'
                return o
        init = a.c[0] if a.k == 'ForStmt' else None
        if init is not None and backwards(P, f, a):
            for y in init.walk():
                if y.k == 'CXXMemberCallExpr' and P.decls.get(y.f, {}).get('n') in ('size', 'rbegin') and y.c:
                    o = s.of(f, y.c[0], depth - 1)
                    return 'back' if o == 'child' else o
        return None
    def calls(s, f):
        if s.callers is None:
            s.callers = {}
            for g in s.P.funcs.values():
                if '/src/test/' in g.file: continue
                for n in g.nodes():
                    if n.k in CALLS and n.f:
                        for t in s.P.targets(n): s.callers.setdefault(t.id, []).append(n)
        return s.callers.get(f.id, ())

def atbegin(f, P, n):
    it = L.strip(n)
    while it is not None and it.k in CTORS and it.c: it = L.strip(it.c[0])
    return it is not None and it.k in CALLS and P.decls.get(it.f, {}).get('n') in ('begin', 'cbegin')

def both(f, a, m):
    """pushed in every branch: as many pushes to the same container as there are ways through an if/else"""
    for x in m.ancestors():
        if x is a: return True
        if x.k == 'IfStmt':
            if len(x.c) < 3 or x.c[-1] is None or x.c[-2] is None: return False
            o = m.c[0].v if m.c[0].k == 'DeclRefExpr' else None
            for br in (x.c[-1], x.c[-2]):
                if not any(y.k == 'CXXMemberCallExpr' and y.f == m.f and y.c[0].k == 'DeclRefExpr' and y.c[0].v == o for y in br.walk()): return False
    return True

def inside(x, a): return any(y is a for y in x.ancestors())

def iswords(P, f, r):
    n = L.strip(r)
    if n is None: return False
    if n.k == 'MemberExpr' and (n.m or '').endswith('::words'): return True
    if n.k == 'DeclRefExpr' and n.v is not None:
        t = P.ts(P.strip_ref(f.vartype(n.v))).replace('const ', '')
        return t in WORDY
    return False

def backwards(P, f, a):
    if a.k == 'CXXForRangeStmt':
        r = L.strip(f.node(a.x['rng']))
        return r is not None and r.k in CALLS and P.decls.get(r.f, {}).get('n') == 'vf_reverse'
    li = L.analyse(a, f, P)
    if li.var is not None:
        return any(w.op in ('--', '-=') for w in L.writes(f, li.var, a)) or 'reverse_iterator' in P.ts(f.vartype(li.var))
    if a.k == 'ForStmt' and len(a.c) > 2 and a.c[2] is not None:
        return any(w.k in ('UnaryOperator', 'CXXOperatorCallExpr', 'CompoundAssignOperator') and w.op in ('--', '-=') for w in a.c[2].walk())
    return False

WORD = {'target': 'is filled in the order of the target words', 'back': 'is filled backwards', 'part': 'leaves out some children'}

def order(P, R, f, n, base, O):
    o = O.of(f, base)
    R.count(f'indexed_{o or "order_not_known"}')
    if o in ('target', 'back', 'part'):
        R.violation(f'{f.q}|order|{o}', f'a container that {WORD[o]} is indexed by a nonterminal\'s number', f.loc(n))

def adding(P, R, f, O):
    for n in f.nodes():
        if n.k != 'CXXMemberCallExpr' or n.f not in P.decls: continue
        d = P.decls[n.f]
        if d['n'] in ('insert', 'emplace') and len(n.c) == 3 and atbegin(f, P, n.c[1]) or d['n'] == 'push_front':
            b = L.strip(n.c[0])
            if b is not None and (b.k in CALLS or b.k == 'MemberExpr') and O.of(f, b) == 'child' and 'ector' in P.ts(P.strip_ref(b.t)):
                ls = L.enclosing(n)
                if not (ls and backwards(P, f, ls[0])):
                    R.violation(f'{f.q}|insert|front', 'children are put in front of those that come before them', f.loc(n)); continue
        if d.get('cls') != 'travatar::HyperEdge': continue
        if d['n'] == 'SetTails' and len(n.c) == 2:
            R.count('children_set')
            o = O.of(f, n.c[1])
            if o in ('target', 'back', 'part'): R.violation(f'{f.q}|SetTails|{o}', f'the children of an edge are set from a list that {WORD[o]}', f.loc(n))
        elif d['n'] == 'AddTail':
            R.count('children_added')
            ls = L.enclosing(n)
            # the loop that goes over the children: the innermost one that does not also create the edge
            if not ls: continue
            a = ls[0]
            e = L.strip(n.c[0])
            ev = e.v if e is not None and e.k == 'DeclRefExpr' else None
            if ev is not None:
                dv = f.vardecl(ev)
                if dv is not None and inside(dv, a): continue       # one child per edge
            if backwards(P, f, a):
                R.violation(f'{f.q}|AddTail|back', 'children are added to an edge backwards', f.loc(n)); continue
            o = O.loop(f, a, 6)
            if o == 'words':
                blk = block_of(f, n)
                if not any(blk in sg[0] and blk not in sg[1] for sg in neg_blocks(P, f).values()): o = None
            if o in ('target', 'back', 'words'): R.violation(f'{f.q}|AddTail|{o}', 'children are added to an edge ' + ('backwards' if o == 'back' else 'in the order of the target words'), f.loc(n))

# ---- composing two edges

def composing(P, R, f):
    """tails = parent's tails, with position t erased and the child's tails inserted there"""
    er = None
    for n in f.nodes():
        if n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') == 'erase' and 'HyperNode *' in P.ts(P.strip_ref(n.c[0].t)) and 'vector' in P.tname(n.c[0].t):
            er = n
    if er is None: return
    def position(a):
        a = L.strip(a)
        if a is not None and a.k == 'CXXOperatorCallExpr' and a.op == '+' and len(a.c) == 2: return single(lin(P, f, a.c[1])) or lin(P, f, a.c[1])
        return None
    T = position(er.c[1])
    if not (isinstance(T, tuple) and T[1] == 1 and T[2] == 0): return
    tsym = T[0]
    ins = [n for n in f.nodes() if n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') == 'insert' and path(n.c[0], f, P) == path(er.c[0], f, P)]
    if not ins: return
    R.count('compositions')
    child = None
    for n in ins:
        pos = position(n.c[1])
        if pos != T and not (isinstance(pos, tuple) and pos[0] == tsym and L.enclosing(n)):
            R.violation(f'{f.q}|insert', 'the child\'s children are not inserted where the composed child was', f.loc(n)); continue
        ls = L.enclosing(n)
        if ls:
            back = backwards(P, f, ls[0])
            if pos == T and not back: R.violation(f'{f.q}|insert-order', 'the child\'s children are inserted one before the other in forward order: they end up backwards', f.loc(n))
            r = ls[0]
            if r.k == 'CXXForRangeStmt':
                rr = L.strip(f.node(r.x['rng']))
                if back: rr = call_args(rr)[0]
                child = path(rr, f, P)
            else:
                li = L.analyse(r, f, P); child = li.over
        else:
            it = L.iter_of(n.c[2], f, P) if len(n.c) > 3 else None
            if it: child = it[0]
            if len(n.c) > 3 and it and P.decls.get(L.strip(n.c[2]).f, {}).get('n') in ('rbegin',): R.violation(f'{f.q}|insert-order', 'the child\'s children are inserted backwards', f.loc(n))
    if child is None: return
    size = ('x', f'size({child})')
    # renumbering of words, in the loop over the parent's words
    for lp in [n for n in f.nodes() if n.k in L.LOOPS]:
        pushes = [n for n in lp.walk() if n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') == 'push_back' and P.ts(P.strip_ref(n.c[0].t)).replace('const ', '') in WORDY]
        inner = [y for y in L.body(lp).walk() if y.k in L.LOOPS]
        if not pushes or not inner: continue
        w = loopword(P, f, lp)
        cw = next((loopword(P, f, y) for y in inner if loopword(P, f, y)), None)
        if not w or not cw: continue
        for name, sub, want in REGIONS:
            env = {w: sub['w'], tsym: sub['t'], size: {'c': 1}}
            for cname, csub, cwant in (CHILD if want is None else ((None, None, None),)):
                outs = follow(P, f, L.body(lp), env, cw, csub, pushes)
                if outs is None: R.count('compositions_not_followed'); return
                for got in outs:
                    R.count('renumberings')
                    exp = [want] if want is not None else [cwant]
                    if [norm(x) for x in got] != [norm(x) for x in exp]:
                        R.violation(f'{f.q}|renumber', f'composing: {name}{", " + cname if cname else ""} becomes {show(got)} instead of {show(exp)}', f.loc(lp)); return

# every word of the parent is in one of these regions; t is the number of the child that is replaced, all other symbols are free and not below zero
REGIONS = [('an ordinary word', {'w': {'u': 1}, 't': {'t': 1}}, {'u': 1}),
           ('a nonterminal before the composed one', {'w': {1: -1, 'k': -1}, 't': {1: 1, 'k': 1, 's': 1}}, {1: -1, 'k': -1}),
           ('the composed nonterminal', {'w': {1: -1, 't': -1}, 't': {'t': 1}}, None),
           ('a nonterminal after the composed one', {'w': {1: -2, 't': -1, 'u': -1}, 't': {'t': 1}}, {1: -1, 't': -1, 'u': -1, 'c': -1})]
CHILD = [('an ordinary word of the child', {'v': 1}, {'v': 1}),
         ('a nonterminal of the child', {1: -1, 'j': -1}, {1: -1, 'j': -1, 't': -1})]

def norm(x): return {k: v for k, v in x.items() if v}

def show(fs):
    def one(x):
        out = ''
        for k, v in sorted(norm(x).items(), key=lambda kv: (kv[0] == 1, str(kv[0]))):
            out += f'{v:+d}' if k == 1 else ('+' if v > 0 else '-') + (str(abs(v)) if abs(v) != 1 else '') + str(k)
        return out.lstrip('+') or '0'
    return '[' + ', '.join(one(x) for x in fs) + ']'

def loopword(P, f, lp):
    """the symbol of the word a loop looks at"""
    if lp.k == 'CXXForRangeStmt':
        lv = next((c for c in lp.c if c is not None and c.k == 'VarDecl'), None)
        if lv is not None and P.T(P.strip_ref(lv.t))['k'] == 'int' and iswords(P, f, f.node(lp.x['rng'])): return ('v', lv.v)
    li = L.analyse(lp, f, P)
    if li.var is None: return None
    for y in L.body(lp).walk():
        if y.k == 'CXXOperatorCallExpr' and y.op == '[]' and iswords(P, f, y.c[0]) and L.strip(y.c[1]) is not None and L.strip(y.c[1]).k == 'DeclRefExpr' and L.strip(y.c[1]).v == li.var:
            s = single(lin(P, f, y))
            return s[0] if s else None
    return None

class Unknown(Exception): pass

def follow(P, f, body, env0, cword, cform, pushes):
    """linear forms of the words pushed in one round, for all values of the free symbols: one list per way through, or None"""
    ids = {p.i for p in pushes}
    def run(choice):
        env = dict(env0); out = []; asked = [0]
        def ev(n):
            fm = lin(P, f, n)
            if fm is None: raise Unknown()
            t = {1: fm.get(1, 0)}
            for k, a in fm.items():
                if k == 1: continue
                if k not in env: raise Unknown()
                t = add(t, env[k], a)
            return t
        def sign(d, op):
            """is d op 0 for all values of the free symbols, for none, or for some?"""
            d = norm(d); c = d.get(1, 0); rest = [v for k, v in d.items() if k != 1]
            lo = c if all(v > 0 for v in rest) else None
            hi = c if all(v < 0 for v in rest) else None
            if not rest: lo = hi = c
            if op in ('>=', '<'):
                r = True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None
                return r if op == '>=' or r is None else not r
            if op in ('>', '<='):
                r = True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
                return r if op == '>' or r is None else not r
            r = True if lo == hi == 0 and not rest else False if lo is not None and lo > 0 or hi is not None and hi < 0 else None
            return r if op == '==' or r is None else not r
        def cond(n):
            n = L.strip(n)
            if n.k == 'BinaryOperator' and n.op == '&&': return cond(n.c[0]) and cond(n.c[1])
            if n.k == 'BinaryOperator' and n.op == '||': return cond(n.c[0]) or cond(n.c[1])
            if n.k == 'UnaryOperator' and n.op == '!': return not cond(n.c[0])
            if n.k == 'DeclRefExpr' and n.v is not None and single_init(f, n.v) is not None: return cond(single_init(f, n.v))
            if n.k == 'BinaryOperator' and n.op in ('<', '>', '<=', '>=', '==', '!='):
                r = sign(add(ev(n.c[0]), ev(n.c[1]), -1), n.op)
                if r is None:
                    asked[0] += 1
                    if asked[0] > 1: raise Unknown()
                    return choice
                return r
            raise Unknown()
        class Cont(Exception): pass
        def val(n):
            n = L.strip(n)
            if n.k == 'ConditionalOperator': return val(n.c[1]) if cond(n.c[0]) else val(n.c[2])
            return ev(n)
        def st(n):
            if n is None: return
            if n.k == 'CompoundStmt':
                for c in n.c: st(c)
            elif n.k == 'IfStmt':
                els = n.c[2] if len(n.c) > 2 else None
                if cond(n.c[0]): st(n.c[1])
                elif els is not None: st(els)
            elif n.k in L.LOOPS:
                if loopword(P, f, n) != cword or cform is None: raise Unknown()
                env[cword] = cform                       # one word of the child
                try: st(L.body(n))
                except Cont: pass
            elif n.k == 'ContinueStmt': raise Cont()
            elif n.k in ('DeclStmt', 'NullStmt', 'VarDecl'): return
            elif n.k == 'CXXMemberCallExpr' and n.i in ids: out.append(val(n.c[1]))
            elif n.k in ('ExprWithCleanups',) or n.k in CASTS:
                for c in n.c: st(c)
            elif n.k in ('BinaryOperator', 'UnaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr'):
                if n.op in ('<<',): return
                l = L.strip(n.c[0])
                if l is not None and l.k == 'DeclRefExpr' and ('v', l.v) in env: raise Unknown()
            elif n.k in CALLS: return
            else: raise Unknown()
        try: st(body)
        except Cont: pass
        return out, asked[0]
    try:
        o, a = run(True)
        return [o] if not a else [o, run(False)[0]]
    except Unknown: return None
