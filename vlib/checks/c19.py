"""What is only read stays as it was."""
from ..effects import *
from .. import vtypes

LEVEL = 'other'
EXPLAIN = ('May-modify analysis (access paths, interprocedural) of every function of the library and the tools: for each argument taken as const and each const method, nothing reachable '
           'from it (through any number of pointers) is modified, other than values that are filled in on demand.')
# values computed on demand and remembered: member -> why remembering it changes nothing a caller can see
LAZY = {'travatar::HyperNode::viterbi_score_': 'the best-path score, a function of the edges',
        'travatar::MertHull::is_sorted': 'a hull is sorted the first time it is read', 'travatar::MertHull::lines': 'a hull is sorted the first time it is read',
        'travatar::Binarizer::barred_map_': 'names of intermediate symbols, a function of the symbol'}
LAZY_CLASSES = {'travatar::MertLine': 'part of a hull being sorted', 'travatar::WordSplitterCompound::SplitStatistics': 'counters for the closing report'}
# classes whose const methods re-score a graph of their own
SCRATCH = {'travatar::TuningExampleForest': 'forest_'}

def lazy(P, E, fid, key):
    loc, tg = key
    if tg is None: return False
    c = tg.rsplit('::', 1)[0]
    if c in LAZY_CLASSES: return True
    if tg in P.fields and P.fields[tg][1].get('mut'): return True
    if tg in LAZY:
        # filled in by the object's own method, from nothing but the object
        ex = explain(E, fid, key, 30)
        if not ex: return False
        f, n, w, q = ex[-1]
        return f.cls == c and (len(f.params) == 0 or bool(f.decl.get('const')))
    return False

def run(P, R, tier):
    vtypes.install(P)
    E = Effects(P, locks=False, deepcopies=True); E.solve()
    R.rule('no function modifies anything reachable from an argument it takes as const, nor from this in a const method, except values filled in on demand')
    for k, v in sorted(LAZY.items()): R.sample(f'filled in on demand: {short(k)} ({v})')
    R.set('fixpoint_steps', E.iterations)
    R.rule('statistics that are added to or scaled in place were made for that (new, a copy, a sum or multiple), never taken from elsewhere')
    inplace(P, R)
    for f in P.funcs.values():
        if '/src/test/' in f.file or '/lm/' in f.file: continue
        ro = {}
        if f.decl.get('const') and not f.decl.get('static'): ro['this'] = 'the object itself'
        for i, p in enumerate(f.params):
            t = p['t']
            if P.is_const_ref(t) or (P.is_ptr(t) and P.T(P.pointee(t)).get('const')):
                if E.ptrbearing(t) or P.rec_of(t) is not None or P.is_ptr(t): ro[f'p{i}'] = p['n'] or f'argument {i+1}'
        if not ro: continue
        R.count('functions_with_readonly_inputs'); R.count('readonly_inputs', len(ro))
        for key in sorted(E.sum[f.id].mods, key=str):
            loc, tg = key
            if loc[0] not in ro: continue
            R.count('modifications_examined')
            if lazy(P, E, f.id, key): R.count('filled_in_on_demand'); continue
            if loc[0] == 'this' and f.cls in SCRATCH and len(loc) > 2 and loc[1] == f'{f.cls}::{SCRATCH[f.cls]}': R.count('own_scratch_graph'); continue
            # a caller that only passes it on: report where it happens
            R.violation(f'{f.q}|{ro[loc[0]]}|{short(tg or show(loc))}', f'{short(f.q)} takes {ro[loc[0]]} to read, and can modify {show(loc)}' + (f' ({short(tg)})' if tg else ''), f.loc(), trace(E, f.id, key))

# ---- what is added up in place has been made for it

INPLACE = {'PlusEquals', 'PlusEqualsTimes', 'TimesEquals'}
MAKES = {'Clone', 'Plus', 'Times'}
PUTS = {'push_back', 'insert', 'push_front', 'push', 'assign', 'resize', 'emplace_back', 'emplace'}

class Origins:
    def __init__(s, P): s.P = P; s.memo = {}; s.shared = None
    def kind(s, t):
        P = s.P; x = P.T(P.strip_ref(t))
        if x['k'] == 'ptr': return P.T(x['p']).get('r')
        if (x.get('tn') or '') in SMART and x.get('ta'): return P.T(x['ta'][0]).get('r')
        return x.get('r')
    def stat(s, t):
        c = s.kind(t)
        return c is not None and (c == 'travatar::EvalStats' or 'travatar::EvalStats' in s.P.bases(c))
    def fresh(s, f):
        """every result of f is an object made there and kept nowhere else; else the node that says otherwise"""
        if f.id in s.memo: return s.memo[f.id]
        s.memo[f.id] = None
        rs = [n for n in f.nodes() if n.k == 'ReturnStmt' and n.c and n.c[0] is not None]
        r = None
        for n in rs:
            w = s.bad(f, n.c[0], set(), True)
            if w: r = w; break
        s.memo[f.id] = r
        return r
    def bad(s, f, e, seen, result=False):
        """None when e is a fresh object, else the (function, node) it may be shared through"""
        P = s.P
        while e is not None and e.c and (e.k in CASTS or e.k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') or e.k in CTORS and len([c for c in e.c if c is not None and c.k != 'CXXDefaultArgExpr']) == 1): e = e.c[0]
        if e is None or (f.id, e.i) in seen: return None
        seen = seen | {(f.id, e.i)}
        k = e.k
        if k in ('CXXNewExpr', 'CXXThisExpr', 'IntegerLiteral', 'GNUNullExpr', 'CXXNullPtrLiteralExpr') or k in CTORS: return None
        if k == 'ConditionalOperator': return s.bad(f, e.c[1], seen, result) or s.bad(f, e.c[2], seen, result)
        if k == 'UnaryOperator' and e.op in ('*', '&'): return s.bad(f, e.c[0], seen, result)
        if k in ('BinaryOperator', 'CXXOperatorCallExpr') and e.op == '=': return s.bad(f, e.c[1], seen, result)
        if k == 'CXXOperatorCallExpr' and e.op in ('*', '->') and len(e.c) == 1 and P.tname(e.c[0].t) in SMART: return s.bad(f, e.c[0], seen, result)
        if k == 'CXXMemberCallExpr' and P.decls.get(e.f, {}).get('n') in ('get', 'operator->', 'operator*') and P.tname(e.c[0].t) in SMART: return s.bad(f, e.c[0], seen, result)
        if k in CALLS and e.f in P.decls:
            nm = P.decls[e.f]['n']
            if nm in MAKES: return None
            if nm in ('static_pointer_cast', 'dynamic_pointer_cast', 'move') and call_args(e): return s.bad(f, call_args(e)[0], seen, result)
            if k != 'CXXOperatorCallExpr':
                ts = P.targets(e)
                if ts and P.T(P.decls[e.f]['rt'])['k'] == 'rec':
                    for t in ts:
                        w = s.fresh(t)
                        if w: return w
                    return None
        # a local variable, or an element of one
        v, path_ = s.root(f, e)
        if v is None: return None if path_ == 'own' and not result else (f, e)
        d = f.vardecl(v)
        if v in {p['v'] for p in f.params}:
            t = next(p['t'] for p in f.params if p['v'] == v)
            if result: return (f, e)
            return None if P.T(t)['k'] in ('ref', 'ptr') and not P.is_const_ref(t) else (f, e)
        if d is None: return None
        if P.T(d.t)['k'] in ('ref', 'rref'):
            if 'rng' in d.x: return s.bad(f, f.node(d.x['rng']), seen, result)
            if d.c and d.c[0] is not None:
                i = d.c[0]
                w, _ = s.root(f, i)
                return s.bad(f, i, seen, result)
            return None
        out = []
        if 'rng' in d.x: out.append(f.node(d.x['rng']))
        elif d.c and d.c[0] is not None: out.append(d.c[0])
        for n in f.nodes():
            if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=' and len(n.c) == 2 and s.root(f, n.c[0])[0] == v and n.c[1] is not None: out.append(n.c[1])
            elif n.k == 'CXXMemberCallExpr' and n.c and n.f in P.decls and P.decls[n.f]['n'] in PUTS | {'reset'} and s.root(f, n.c[0])[0] == v: out += [a for a in call_args(n) if a is not None]
        for a in out:
            for x in s.leaves(f, a):
                w = s.bad(f, x, seen, result)
                if w: return w
        return None
    def leaves(s, f, a):
        """the statistics an expression stores"""
        P = s.P
        if s.stat(a.t): return [a]
        b = a
        while b is not None and b.c and len([c for c in b.c if c is not None]) == 1 and (b.k in CASTS or b.k in CTORS or b.k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups')): b = b.c[0]
        if b is not None and (b.k in CTORS or b.k == 'CallExpr' and P.decls.get(b.f, {}).get('n') == 'make_pair' or b.k == 'InitListExpr'):
            return [x for c in (call_args(b) if b.k == 'CallExpr' else b.c) if c is not None for x in s.leaves(f, c)]
        if b is not None and (s.stat(b.t) or 'EvalStats' in P.ts(b.t)): return [b]
        return []
    def root(s, f, e):
        """(local variable, path) of an expression; (None, 'own') for the object's own fields"""
        P = s.P
        for _ in range(20):
            if e is None: return None, ''
            if e.k == 'DeclRefExpr': return (e.v, '') if e.v is not None else (None, '')
            if e.k == 'CXXThisExpr': return None, 'own'
            if e.k == 'MemberExpr' and e.c and e.c[0] is not None: e = e.c[0]; continue
            if e.k in ('ArraySubscriptExpr',) or e.k == 'CXXOperatorCallExpr' and e.op in ('[]', '*', '->'): e = e.c[0]; continue
            if e.k == 'UnaryOperator' and e.op in ('*', '&', '++', '--'): e = e.c[0]; continue
            if e.k in CASTS or e.k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups') or e.k in CTORS and len([c for c in e.c if c is not None]) == 1: e = e.c[0]; continue
            if e.k == 'CXXMemberCallExpr' and e.f in P.decls and P.decls[e.f]['n'] in ACCESS | {'second'} and not (P.decls[e.f].get('cls') or '').startswith('travatar'): e = e.c[0]; continue
            return None, ''
        return None, ''

def inplace(P, R):
    O = Origins(P)
    for f in P.funcs.values():
        if '/src/test/' in f.file or '/lm/' in f.file: continue
        for n in f.nodes():
            if n.k != 'CXXMemberCallExpr' or n.f not in P.decls or P.decls[n.f]['n'] not in INPLACE or not n.c or n.c[0] is None: continue
            if not O.stat(n.c[0].t): continue
            R.count('statistics_changed_in_place')
            w = O.bad(f, n.c[0], set())
            if w:
                g, e = w
                R.violation(f'{f.id}|{P.decls[n.f]["n"]}|shared', f'{short(f.q)} changes statistics in place that it did not make for itself: they may be those of someone else', f.loc(n), [f'{g.loc(e)}: taken from here'])
