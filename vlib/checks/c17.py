"""Copies are complete and stand on their own."""
from ..flow import *
from ..prog import *
from ..paths import path, single_init
from .. import loops as L

LEVEL = 'other'
EXPLAIN = ('Dataflow from the fields of the original to the fields of the copy: copy constructors written by hand, clone functions (through constructor parameters), and the places where graph nodes and edges '
           'are copied. Every field has to receive the same field of the original, in full; things held by pointer are copied, not shared; pointers inside copied nodes and edges are set anew; and objects '
           'that delete what they hold are never copied member by member.')

def run(P, R, tier):
    R.rule('a hand-written copy constructor gives every field the value of the same field of the original, whatever kind the original is of')
    R.rule('a clone function creates an object of its own class and gives every field the value of the same field, by way of constructor parameters or later assignments')
    R.rule('what an object holds by pointer is copied with it, element by element, without exception')
    R.rule('after nodes or edges of a graph have been copied, every pointer to a node or edge in every copy is set anew')
    R.rule('a graph whose edges are of a derived kind is copied with edges of that kind')
    R.rule('objects that delete what they hold are not copied by the compiler')
    ctors(P, R); clones(P, R); relinks(P, R); implicit(P, R)

def own_fields(P, c): return [f for f in P.recs[c]['fields'] if not f.get('static')]

def is_sync(P, f):
    t = P.ts(f['t']); return 'mutex' in t or 'condition_variable' in t or 'thread' in t

def flowfields(P, fn, n, root, depth=5):
    """fields F such that <root>.F is read in n (through locals)"""
    out = set()
    for x in n.walk():
        p = path(x, fn, P)
        if p and p.startswith(root + '.'): out.add(p[len(root) + 1:].split('.')[0].split('[')[0])
        if depth and x.k == 'DeclRefExpr' and x.v is not None:
            d = fn.vardecl(x.v)
            if d is None: continue
            if d.c and d.c[0] is not None: out |= flowfields(P, fn, d.c[0], root, depth - 1)
            if 'rng' in d.x: out |= flowfields(P, fn, fn.node(d.x['rng']), root, depth - 1)
            for a in L.enclosing(x):
                li = L.analyse(a, fn, P)
                if li.var == x.v and li.over and li.over.startswith(root + '.'): out.add(li.over[len(root) + 1:].split('.')[0].split('[')[0])
            for w in L.writes(fn, x.v):
                if len(w.c) > 1: out |= flowfields(P, fn, w.c[1], root, depth - 1)
            for y in fn.nodes():
                if y.k == 'CXXMemberCallExpr' and y.c and path(y.c[0], fn, P) == f'v{x.v}' and P.decls.get(y.f, {}).get('n') in ADD:
                    for z in call_args(y):
                        if z is not None: out |= flowfields(P, fn, z, root, depth - 1)
    return out

ADD = ('push_back', 'insert', 'assign', 'append', 'emplace_back', 'swap', 'resize', 'push_front')

class Copied(Forward):
    """must-analysis: fields of this that have been given their value; arms ruled out by the kind under consideration"""
    def __init__(s, P, root, kind=None): s.P = P; s.root = root; s.kind = kind; s.marks = {}
    def transfer(s, fn, el, st):
        return st | s.marks.get(el.i, frozenset()) if isinstance(el, Node) else st
    def join(s, a, b): return a & b
    def edge(s, fn, B, taken, cond, st):
        if B.term == 'CXXForRangeStmt' or B.term in ('ForStmt', 'WhileStmt'):
            return st
        if cond is not None and s.kind:
            c, pol = negate(cond)
            v = s.decides(fn, c)
            if v is not None and (v == pol) != taken: return None
        return st
    def decides(s, fn, c):
        if c.k in ('BinaryOperator', 'CXXOperatorCallExpr') and c.op in ('==', '!=') and len(c.c) == 2:
            for a, b in ((c.c[0], c.c[1]), (c.c[1], c.c[0])):
                p = path(a, fn, s.P); e = L.strip(b)
                if p in ('this.' + s.kind[0], s.root + '.' + s.kind[0]) and e is not None and e.k == 'DeclRefExpr' and e.get('e'):
                    return (e.get('e').rsplit('::', 1)[-1] == s.kind[1]) == (c.op == '==')
        return None
    def switch_edge(s, fn, B, case, st): return st

def field_writes(P, fn, names):
    """(field, node whose value goes into it, statement node)"""
    for n in fn.nodes():
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=' and len(n.c) == 2:
            p = path(n.c[0], fn, P)
            if p and p.startswith('this.'): yield p[5:].split('.')[0].split('[')[0], n.c[1], n
            elif p and p.startswith('v'):                       # *it = ... in a loop over a field
                o = over(P, fn, n, p)
                if o and o.startswith('this.'): yield o[5:].split('.')[0], n.c[1], n
        elif n.k == 'CXXMemberCallExpr' and n.c and P.decls.get(n.f, {}).get('n') in ADD:
            p = path(n.c[0], fn, P)
            if p and p.startswith('this.'):
                for a in call_args(n):
                    if a is not None: yield p[5:].split('.')[0].split('[')[0], a, n

def over(P, fn, n, p):
    v = p[1:].split('[')[0].split('.')[0]
    if not v.isdigit(): return None
    for a in L.enclosing(n):
        li = L.analyse(a, fn, P)
        if li.var == int(v) and li.over: return li.over
    return None

def ctors(P, R):
    for c, r in sorted(P.recs.items()):
        if not r.get('repo') or '/lm/' in r['file'] or '/src/test/' in r['file'] or not r.get('ucopy'): continue
        for d in P.methods(c):
            if not d.get('ctor') or len(d['pt']) != 1 or P.T(P.strip_ref(d['pt'][0])).get('r') != c or d['D'] not in P.funcs: continue
            if P.T(d['pt'][0])['k'] == 'rref': continue
            f = P.funcs[d['D']]
            R.count('copy_constructors'); copier(P, R, c, f, f'v{f.params[0]["v"]}', True)
    # functions that add a whole other object of the same class to this one
    for f in P.funcs.values():
        if not f.cls or f.isctor or f.isdtor or not P.recs.get(f.cls, {}).get('ucopy') or '/src/test/' in f.file or '/lm/' in f.file: continue
        ps = [p for p in f.params if P.T(P.strip_ref(p['t'])).get('r') == f.cls]
        if len(ps) == 1 and any(n.k == 'CXXNewExpr' for n in f.nodes()):
            R.count('functions_adding_a_whole_graph'); copier(P, R, f.cls, f, f'v{ps[0]["v"]}', False)

def owning(P, f):
    """element class of a container of raw or shared pointers"""
    x = P.T(P.strip_ref(f['t']))
    if x.get('ta') and (x.get('tn') or '').startswith('std::'):
        e = P.T(x['ta'][0])
        if e['k'] == 'ptr': return P.T(e['p']).get('r') or P.ts(e['p'])
        if e.get('tn') in SMART and e.get('ta'): return P.T(e['ta'][0]).get('r')
    return None

def kinds(P, fn, c, root):
    """the enum field of the class that the function asks about, with its enumerators"""
    for n in fn.nodes():
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op in ('==', '!=') and len(n.c) == 2:
            for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                e = L.strip(b); p = path(a, fn, P)
                if e is not None and e.k == 'DeclRefExpr' and e.get('e') and p and p.split('.')[0] in ('this', root):
                    return p.split('.')[-1], sorted(P.enums.get(P.ts(P.strip_ref(e.t)), {e.get('e').rsplit('::', 1)[-1]: 0}))
    return None

def copier(P, R, c, f, root, all_fields):
    key = f'{f.id}'
    fs = [x for x in own_fields(P, c) if not is_sync(P, x)]
    got = {}                                             # field -> list of (statement, source node)
    for fld, e in [(i.get('m', '').rsplit('::', 1)[-1], e) for i, e in f.inits if i.get('m')]:
        got.setdefault(fld, []).append((None, e))
    for fld, e, st in field_writes(P, f, fs): got.setdefault(fld, []).append((st, e))
    kd = kinds(P, f, c, root)
    marks = {}; init = set()
    for x in fs:
        own = owning(P, x)
        for st, e in got.get(x['n'], ()):
            src = flowfields(P, f, e, root)
            good = x['n'] in src
            if st is None:
                if good: init.add(x['n'])
                elif src and all_fields: R.violation(f'{key}|{x["n"]}|crossed', f'{short(f.q)}: "{x["n"]}" gets its value from "{sorted(src)[0]}" of the original', f.loc(e))
                continue
            lp = L.enclosing(st)
            if not good and not any((L.analyse(a, f, P).over or '').endswith('.' + x['n']) for a in lp): continue
            anchor = st
            if lp:
                a = lp[0]; li = L.analyse(a, f, P)
                R.count('loops_copying_elements')
                if li.over in (f'{root}.{x["n"]}', f'this.{x["n"]}'):
                    if li.full is False: R.violation(f'{key}|{x["n"]}|loop', f'{short(f.q)}: the loop copying "{x["n"]}" leaves out elements: {li.why}', f.loc(a)); continue
                    for y in L.leaves(a, f): R.violation(f'{key}|{x["n"]}|skip', f'{short(f.q)}: the loop copying "{x["n"]}" is left or an element skipped', f.loc(y))
                anchor = lp[-1]
            # the arms of an if around it are judged by the path analysis below
            m = marks.setdefault(first_el(f, anchor), set()); m.add(x['n'])
    done = set(init)
    for kv in ([(kd[0], v) for v in kd[1]] if kd else [None]):
        A = Copied(P, root, kv); A.marks = {i: frozenset(m) for i, m in marks.items()}
        normal, _, _ = A.run(f, frozenset(init))
        R.count('kinds_of_original_considered')
        if normal is None: continue
        for x in fs:
            own = owning(P, x)
            if not all_fields and not own: continue
            R.count('fields_followed')
            if x['n'] not in normal:
                R.violation(f'{key}|{x["n"]}', f'{short(f.q)} does not copy "{x["n"]}" of the original' + (f' when its {kv[0]} is {kv[1].rsplit("::", 1)[-1]}' if kv else ''), f.loc())
    # things held by pointer
    for x in fs:
        own = owning(P, x)
        if not own: continue
        R.count('fields_holding_pointers')
        fresh = False
        for st, e in got.get(x['n'], ()):
            if makes_new(P, f, e): fresh = True
            elif st is not None and P.T(P.strip_ref(e.t))['k'] == 'ptr' and x['n'] in flowfields(P, f, e, root): R.violation(f'{key}|{x["n"]}|shared', f'{short(f.q)} puts the original\'s own elements of "{x["n"]}" into the copy', f.loc(st))
        if not fresh and x['n'] in got: R.violation(f'{key}|{x["n"]}|shared', f'{short(f.q)} lets the copy share the elements of "{x["n"]}" with the original', f.loc())
    # edges of a derived kind
    for n in f.nodes():
        if n.k != 'CXXNewExpr' or not n.c: continue
        k = new_class(P, n)
        if not k or not P.subclasses(k): continue
        subs = [s for s in P.subclasses(k) if s != k and P.recs[s].get('repo') and P.recs[s]['fields'] and '/src/test/' not in P.recs[s]['file']]
        if not subs: continue
        R.count('copies_of_polymorphic_elements')
        made = {new_class(P, y) for y in f.nodes() if y.k == 'CXXNewExpr'}
        for h in f.nodes():
            if h.k in CALLS and h.f in P.funcs: made |= {new_class(P, y) for y in P.funcs[h.f].nodes() if y.k == 'CXXNewExpr'}
        for sub in subs:
            if sub not in made: R.violation(f'{key}|{short(k)}|{short(sub)}', f'{short(f.q)} never copies an element as the derived kind {short(sub)} it may be', f.loc(n))
        if not guarded(P, f, n, root, c): R.violation(f'{key}|{short(k)}|kind', f'{short(f.q)} copies every element as a plain {short(k)}, also those of the derived kind {short(subs[0])}', f.loc(n))

def guarded(P, f, n, root, c):
    x = n
    for a in n.ancestors():
        if a.k in ('IfStmt', 'SwitchStmt', 'ConditionalOperator') and a.c[0] is not None and a.c[0] is not x:
            for y in a.c[0].walk():
                p = path(y, f, P) if y.k in ('MemberExpr', 'CXXMemberCallExpr', 'DeclRefExpr') else None
                if y.k == 'CXXDynamicCastExpr': return True
                if p and (p.startswith(root + '.') or p.startswith('this.')) and P.T(P.strip_ref(y.t))['k'] == 'enum': return True
                if y.k == 'DeclRefExpr' and y.get('e'): return True
        x = a
    return False

def new_class(P, n):
    t = P.T(n.t); return P.T(t['p']).get('r') if t['k'] == 'ptr' else None

def makes_new(P, f, e, depth=4):
    t = e
    while t is not None and t.c and (t.k in CASTS or t.k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr') or t.k in CTORS and len([c for c in t.c if c is not None and c.k != 'CXXDefaultArgExpr']) == 1): t = t.c[0]
    if t is not None and t.k == 'ConditionalOperator':
        arms = [a for a in t.c[1:] if a is not None and not any(z.k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or z.k == 'IntegerLiteral' and not z.val for z in [L.strip(a)] if z is not None)]
        return bool(arms) and all(makes_new(P, f, a, depth) for a in arms)
    for y in e.walk():
        if y.k == 'CXXNewExpr': return True
        if y.k == 'CXXMemberCallExpr' and P.decls.get(y.f, {}).get('n') == 'Clone': return True
        if depth and y.k == 'DeclRefExpr' and y.v is not None:
            d = f.vardecl(y.v)
            if d is not None and d.c and d.c[0] is not None and makes_new(P, f, d.c[0], depth - 1): return True
            for w in L.writes(f, y.v):
                if len(w.c) > 1 and makes_new(P, f, w.c[1], depth - 1): return True
        if depth and y.k in CALLS and y.f in P.funcs and P.T(P.decls[y.f]['rt'])['k'] == 'ptr' and any(z.k == 'ReturnStmt' and z.c and makes_new(P, P.funcs[y.f], z.c[0], depth - 1) for z in P.funcs[y.f].nodes()): return True
    return False

def first_el(f, n):
    """an element of the control-flow graph that is always evaluated when statement n is reached (in a loop: the range or the condition)"""
    ids = getattr(f, '_elids', None)
    if ids is None:
        ids = {}
        for b, B in f.cfg.items():
            for k, el in enumerate(B.els):
                if isinstance(el, Node): ids[el.i] = (b, k)
            if B.cond is not None: ids.setdefault(B.cond.i, (b, 9999))
        f._elids = ids
    if n.k == 'CXXForRangeStmt':
        r = f.node(n.x['rng'])
        for y in [r] + list(r.walk()):
            if y.i in ids and ids[y.i][1] != 9999: return y.i
        for y in r.ancestors():
            if y.i in ids and ids[y.i][1] != 9999: return y.i
    if n.k in ('ForStmt', 'WhileStmt'):
        for part in n.c[:-1]:
            if part is None: continue
            for y in part.walk():
                if y.i in ids and ids[y.i][1] != 9999: return y.i
    return n.i

# ---- clone functions

def clones(P, R):
    for c, r in sorted(P.recs.items()):
        if not r.get('repo') or '/src/test/' in r['file'] or r.get('abs'): continue
        d = next((d for k in [c] + P.bases(c) if k in P.recs for d in P.methods(k, 'Clone') if d.get('virt')), None)
        if d is None: continue
        R.count('classes_with_clone')
        m = P.resolve_virtual(c, d['D']); f = P.funcs.get(m)
        where = f'{r["file"].replace(facts_repo() + "/", "")}:{r["line"]}'
        if f is None: continue
        if f.cls != c: R.violation(f'{c}|class', f'{short(c)} does not have its own clone function: a clone of it is a {short(f.cls)}', where); continue
        clone(P, R, c, f)

def facts_repo():
    from .. import facts
    return facts.REPO

def returned(P, f):
    for n in f.nodes():
        if n.k == 'ReturnStmt' and n.c: yield n.c[0]

def news(P, f, e, depth=3):
    for y in e.walk():
        if y.k == 'CXXNewExpr': yield y, None
        elif y.k in CALLS and 'make_shared' in (P.decls.get(y.f, {}).get('q') or ''): yield y, None
        elif y.k == 'DeclRefExpr' and y.v is not None and depth:
            d = f.vardecl(y.v)
            if d is not None and d.c and d.c[0] is not None:
                for z, _ in news(P, f, d.c[0], depth - 1): yield z, y.v

def all_fields(P, c): return [(k, x) for k in [c] + P.bases(c) if P.recs.get(k, {}).get('repo') for x in own_fields(P, k)]

def clone(P, R, c, f):
    ns = [(n, v) for e in returned(P, f) for n, v in news(P, f, e)]
    if not ns: R.violation(f'{f.id}|new', f'{short(f.q)} does not create a new object', f.loc()); return
    composite = any(owning(P, x) for x in own_fields(P, c))
    for n, v in ns:
        k = new_class(P, n) if n.k == 'CXXNewExpr' else P.T(P.T(n.t)['ta'][0]).get('r')
        if k != c: R.violation(f'{f.id}|class', f'{short(f.q)} creates a {short(k or "?")}', f.loc(n)); continue
        ce = next((y for y in n.walk() if y.k in CTORS and y.f and P.decls.get(y.f, {}).get('cls') == c), None)
        if ce is None: continue
        g = P.funcs.get(ce.f); gd = P.decls[ce.f]
        args = list(ce.c)
        if len(gd['pt']) == 1 and P.T(P.strip_ref(gd['pt'][0])).get('r') == c:
            for k2, x in all_fields(P, c):
                R.count('fields_followed')
                if owning(P, x): R.violation(f'{f.id}|{x["n"]}|shared', f'{short(f.q)} lets the clone share the elements of "{x["n"]}"', f.loc(n))
            continue
        later = {}
        if v is not None:
            for y in f.nodes():
                if y.k in ('BinaryOperator', 'CXXOperatorCallExpr') and y.op == '=' and len(y.c) == 2:
                    p = path(y.c[0], f, P) or ''
                    if p.startswith(f'v{v}'): later.setdefault(p.replace('[]', '').split('.')[-1], []).append(y.c[1])
        if g is None: R.count('clones_not_followed'); continue
        for k2, x in all_fields(P, c):
            if composite and k2 != c: continue
            R.count('fields_followed')
            srcs = [(None, a) for a in later.get(x['n'], ())] or [(i, a) for i, pn in param_flows(P, g, x) for a in [args[pn] if pn < len(args) else None]]
            key = f'{f.id}|{x["n"]}'
            if not srcs: R.violation(key, f'{short(f.q)} does not give the clone the value of "{x["n"]}"', f.loc(n)); continue
            for idx, a in srcs:
                if a is None or a.k == 'CXXDefaultArgExpr': R.violation(key, f'{short(f.q)} leaves "{x["n"]}" of the clone at its default value', f.loc(n)); continue
                ff = flowfields(P, f, a, 'this')
                if x['n'] not in ff: R.violation(key + '|crossed', f'{short(f.q)} gives "{x["n"]}" of the clone ' + (f'the value of "{sorted(ff)[0]}"' if ff else 'a value that is not that of the original'), f.loc(a)); continue
                plain(P, R, f, x, a, idx, key)

def param_flows(P, g, x, depth=3):
    """(literal index or None, parameter number) pairs of values that constructor g puts into field x"""
    out = []
    pv = {p['v']: i for i, p in enumerate(g.params)}
    def params(e):
        for y in e.walk():
            if y.k == 'DeclRefExpr' and y.v in pv: yield pv[y.v]
    for i, e in g.inits:
        if i.get('m') == x['id']: out += [(None, p) for p in params(e)]
        elif not i.get('m') and depth:
            ce = next((y for y in e.walk() if y.k in CTORS and y.f in P.funcs), None)
            if ce is not None and any(y['id'] == x['id'] for k, y in all_fields(P, P.funcs[ce.f].cls)):
                for idx, p in param_flows(P, P.funcs[ce.f], x, depth - 1):
                    if p < len(ce.c) and ce.c[p] is not None: out += [(idx, q) for q in params(ce.c[p])]
    for n in g.nodes():
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=' and len(n.c) == 2:
            p = path(n.c[0], g, P)
            if p and p.replace('[]', '') == 'this.' + x['n']:
                idx = None; l = L.strip(n.c[0])
                if l.k in ('CXXOperatorCallExpr', 'ArraySubscriptExpr') and len(l.c) == 2 and L.strip(l.c[1]).k == 'IntegerLiteral': idx = int(L.strip(l.c[1]).val)
                out += [(idx, q) for q in params(n.c[1])]
    return out

def plain(P, R, f, x, a, idx, key):
    """the argument is the field itself (or, for pointers, a container of copies of all its elements)"""
    p = path(a, f, P)
    own = owning(P, x)
    if own:
        e = L.strip(a)
        if p == 'this.' + x['n'] or e is None or e.k != 'DeclRefExpr' or e.v is None:
            if not makes_new(P, f, a): R.violation(key + '|shared', f'{short(f.q)} lets the clone share the elements of "{x["n"]}"', f.loc(a))
            return
        adds = [n for n in f.nodes() if n.k == 'CXXMemberCallExpr' and n.c and path(n.c[0], f, P) == f'v{e.v}' and P.decls.get(n.f, {}).get('n') in ADD and P.decls[n.f]['n'] != 'resize']
        adds += [n for n in f.nodes() if n.k == 'CXXOperatorCallExpr' and n.op == '=' and (path(n.c[0], f, P) or '').startswith(f'v{e.v}[]')]
        for n in adds:
            y = n.c[1]
            if y is None: continue
            if not makes_new(P, f, y): R.violation(key + '|shared', f'{short(f.q)} puts the original\'s own elements of "{x["n"]}" into the clone', f.loc(n)); continue
            lp = L.enclosing(n)
            if not lp: R.violation(key + '|loop', f'{short(f.q)} copies one element of "{x["n"]}" only', f.loc(n)); continue
            li = L.analyse(lp[0], f, P); R.count('loops_copying_elements')
            if li.full is False or (li.over and li.over != 'this.' + x['n'] and li.full): R.violation(key + '|loop', f'{short(f.q)}: the loop copying "{x["n"]}" does not go over all its elements', f.loc(lp[0]))
            for z in L.leaves(lp[0], f): R.violation(key + '|skip', f'{short(f.q)}: the loop copying "{x["n"]}" is left or an element skipped', f.loc(z))
            for q in n.ancestors():
                if q is lp[0]: break
                if q.k == 'IfStmt' and not any(w is n for w in q.c[0].walk()): R.violation(key + '|skip', f'{short(f.q)} copies only some elements of "{x["n"]}"', f.loc(q))
        return
    e = L.strip(a)
    if idx is not None:
        if e is not None and e.k in ('CXXOperatorCallExpr', 'ArraySubscriptExpr') and len(e.c) == 2:
            i = L.strip(e.c[1])
            if i is not None and i.k == 'IntegerLiteral' and int(i.val) != idx: R.violation(key + f'|{idx}', f'{short(f.q)} gives element {idx} of "{x["n"]}" the value of element {i.val}', f.loc(a))
    if e is not None and e.k in ('BinaryOperator', 'UnaryOperator', 'ConditionalOperator') and not (e.k == 'UnaryOperator' and e.op in ('*', '&')):
        R.violation(key + '|changed', f'{short(f.q)} gives the clone a changed value of "{x["n"]}"', f.loc(a))

# ---- copies of graph nodes and edges

ELEM = ('travatar::HyperNode', 'travatar::HyperEdge', 'travatar::RuleEdge')

def ptr_fields(P, k):
    """fields of a node or edge class that point at nodes or edges (the parts of rules, which stay in the parsed graph, are left as they are)"""
    out = []
    for c, x in all_fields(P, k):
        t = P.T(P.strip_ref(x['t']))
        tgt = None
        if t['k'] == 'ptr': tgt = P.T(t['p']).get('r')
        elif t.get('ta') and P.T(t['ta'][0])['k'] == 'ptr': tgt = P.T(P.T(t['ta'][0])['p']).get('r')
        if tgt in ('travatar::HyperNode', 'travatar::HyperEdge') and 'fragment' not in x['n']: out.append((x['n'], x['id']))
    return out

def resets(P, f, fid, depth=2, seen=None):
    """does f (or a function of the same element class it calls) put a value into field fid (whole, or every element in a full loop)? returns list of (f, node, full)"""
    if seen is None: seen = set()
    if f.id in seen: return []
    seen.add(f.id); out = []
    for n in f.nodes():
        if n.k in ('BinaryOperator', 'CXXOperatorCallExpr') and n.op == '=' and len(n.c) == 2:
            t = n.c[0]
            for y in t.walk():
                hit = y.k == 'MemberExpr' and y.m == fid or y.k == 'CXXMemberCallExpr' and getter_of(P, y.f) == fid
                if not hit and y.k == 'DeclRefExpr' and y.v is not None:
                    d = f.vardecl(y.v)
                    hit = d is not None and d.c and d.c[0] is not None and P.T(f.vartype(y.v))['k'] in ('ref', 'ptr') and any(z.k == 'MemberExpr' and z.m == fid or z.k == 'CXXMemberCallExpr' and getter_of(P, z.f) == fid for z in d.c[0].walk())
                    if not hit and d is not None and 'rng' in d.x: hit = any(z.k == 'MemberExpr' and z.m == fid or z.k == 'CXXMemberCallExpr' and getter_of(P, z.f) == fid for z in f.node(d.x['rng']).walk())
                if hit: out.append((f, n)); break
        elif n.k in ('CXXMemberCallExpr', 'CallExpr') and n.f in P.funcs and depth:
            g = P.funcs[n.f]
            r = resets(P, g, fid, depth - 1, seen)
            if r: out += [(f, n)] + r
    return out

def getter_of(P, fid):
    c = getattr(P, '_fget', None)
    if c is None: c = P._fget = {}
    if fid in c: return c[fid]
    c[fid] = None; f = P.funcs.get(fid)
    if f is not None and f.cls and not f.isctor:
        rs = [n for n in f.nodes() if n.k == 'ReturnStmt' and n.c]
        if len(rs) == 1 and len(f.body.c) == 1:
            ms = [y for y in rs[0].c[0].walk() if y.k == 'MemberExpr' and y.m and y.c and y.c[0] is not None and y.c[0].k == 'CXXThisExpr']
            if len(ms) == 1: c[fid] = ms[0].m
    return c[fid]

def relinks(P, R):
    for f in P.funcs.values():
        if '/src/test/' in f.file or '/lm/' in f.file: continue
        for n in f.nodes():
            if n.k != 'CXXNewExpr': continue
            k = new_class(P, n)
            if k not in ('travatar::HyperNode', 'travatar::HyperEdge', 'travatar::RuleEdge'): continue
            ce = next((y for y in n.walk() if y.k in CTORS and y.f and P.decls.get(y.f, {}).get('cls') == k), None)
            if ce is None or not P.decls[ce.f].get('copyctor') and not (len(P.decls[ce.f]['pt']) == 1 and P.T(P.strip_ref(P.decls[ce.f]['pt'][0])).get('r') == k): continue
            if k == 'travatar::RuleEdge' and not f.cls: continue
            if f.cls == 'travatar::ForestExtractor' or f.cls is None: continue
            R.count('copies_of_nodes_and_edges')
            for name, fid in ptr_fields(P, k):
                R.count('pointers_to_be_set_anew')
                rs = resets(P, f, fid)
                kk = f'{f.id}|{short(k)}|{name}'
                if not rs:
                    if k == 'travatar::RuleEdge' and f.cls == 'travatar::RuleComposer': continue
                    R.violation(kk, f'{short(f.q)} copies a {short(k)} but never sets "{name}" of the copy: it keeps pointing into the graph it was copied from', f.loc(n)); continue
                for g, w in rs:
                    lp = L.enclosing(w)
                    for a in lp:
                        li = L.analyse(a, g, P)
                        if li.over is None: continue
                        last = li.over.replace('[]', '').split('.')[-1]
                        R.count('relinking_loops')
                        if li.full is False and (last in (name, 'nodes_', 'edges_') or last.endswith(name)): R.violation(kk + '|loop', f'{short(g.q)}: the loop that sets "{name}" of the copies anew leaves some out: {li.why}', g.loc(a))
                        if li.over.startswith('v') and g is f and f.isctor and last in ('nodes_', 'edges_') and li.over.split('.')[0] == f'v{f.params[0]["v"]}' and w.k == 'CXXMemberCallExpr':
                            R.violation(kk + '|original', f'{short(f.q)} sets the pointers of the original anew instead of those of the copy', f.loc(w))
                    if f.cls == 'travatar::HyperGraph' and g.cls not in ELEM and not lp and not (w.k in CALLS and w.f in P.funcs and P.funcs[w.f].cls not in ELEM): R.violation(kk + '|one', f'{short(f.q)} sets "{name}" of one element only', f.loc(w))
                    if f.cls == 'travatar::HyperGraph' or g.cls in ('travatar::HyperNode', 'travatar::HyperEdge'):
                        for q in w.ancestors():
                            if lp and q is lp[-1]: break
                            if q.k == 'IfStmt' and not any(z is w for z in q.c[0].walk()): R.violation(kk + '|some', f'{short(g.q)} sets "{name}" anew only under a condition', g.loc(q))
                        for a in lp:
                            for z in L.leaves(a, g): R.violation(kk + '|skip', f'{short(g.q)}: the loop that sets "{name}" anew is left early', g.loc(z))

# ---- member by member copies by the compiler

def deletes(P, c):
    for k in [c] + P.bases(c):
        for d in P.methods(k):
            if d.get('dtor') and d['D'] in P.funcs:
                f = P.funcs[d['D']]
                for n in f.nodes():
                    if n.k == 'CXXDeleteExpr': return True
                    if n.k == 'CXXMemberCallExpr' and n.f in P.funcs and P.funcs[n.f].cls == k and any(y.k == 'CXXDeleteExpr' for y in P.funcs[n.f].nodes()): return True
    return False

def implicit(P, R):
    owners = {c for c, r in P.recs.items() if r.get('repo') and '/src/test/' not in r['file'] and '/lm/' not in r['file'] and r.get('udtor') and deletes(P, c)}
    R.set('classes_that_delete_what_they_hold', len(owners))
    for f in P.funcs.values():
        if '/src/test/' in f.file or '/lm/' in f.file: continue
        for n in f.nodes():
            c = None
            if n.k in CTORS and n.f in P.decls:
                d = P.decls[n.f]
                if d.get('cls') in owners and len(d['pt']) == 1 and P.T(P.strip_ref(d['pt'][0])).get('r') == d['cls'] and not P.recs[d['cls']].get('ucopy'): c = d['cls']
            elif n.k == 'CXXOperatorCallExpr' and n.op == '=' and n.f in P.decls:
                d = P.decls[n.f]
                if d.get('cls') in owners and not P.recs[d['cls']].get('uasg') and len(d['pt']) == 1 and P.T(P.strip_ref(d['pt'][0])).get('r') == d['cls']: c = d['cls']
            if c and f.cls != c:
                R.violation(f'{f.id}|{c}|memberwise', f'{short(f.q)} copies a {short(c)} member by member: both copies will delete the same things', f.loc(n))
