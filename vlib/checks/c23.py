"""Combined measures and plug-ins apply every operation to every part."""
from ..flow import *
from ..prog import *
from ..paths import path, single_init
from .. import loops as L

LEVEL = 'other'
EXPLAIN = ('Class-hierarchy queries and loop analysis. Every class that is built from parts of its own kind has to replace each inherited operation that only works on the inherited values or does nothing, '
           'and its versions have to reach every part: one unconditional call per part, in a loop that leaves out none, with the arguments it was given in their places. A member function that looks like a '
           'replacement of an inherited one but has another signature is reported. Elementwise operations on statistics have to run over all elements, with the same index on both sides.')

def virtuals(P, c):
    for b in P.bases(c):
        for m in P.recs.get(b, {}).get('methods', ()):
            d = P.decls.get(m['id'])
            if d and d.get('virt') and not d.get('dtor'): yield b, d

def elem(P, t):
    """class of the things a type holds: T*, shared_ptr<T>, vector of those"""
    for _ in range(4):
        t = P.strip_ref(t); x = P.T(t)
        if x['k'] == 'ptr': t = x['p']; continue
        if x.get('tn') in SMART or x.get('tn') in ('std::vector', 'std::list', 'std::deque', 'std::set'):
            if x.get('ta'): t = x['ta'][0]; continue
        return x.get('r')
    return None

def touches(P, f, fields):
    return any(n.k == 'MemberExpr' and n.m in fields for n in f.nodes())

def noop(P, f):
    b = f.body
    return b.k == 'CompoundStmt' and not [c for c in b.c if c is not None and c.k != 'NullStmt']

def nontrivial_override(P, m):
    return any(o in P.funcs and not noop(P, P.funcs[o]) for o in P.overriders.get(m, ()))

def run(P, R, tier):
    R.rule('a class made of parts of its own kind replaces every inherited operation that works on the inherited values, and every inherited hook that does nothing but that some part may give a meaning')
    R.rule('such an operation is carried out on every part, exactly once, whatever the part')
    R.rule('the arguments of an operation are handed on to the parts, or to another version of the operation, in their places')
    R.rule('a member function with the name of a virtual one replaces it')
    R.rule('a class that hands an operation on to another object of its kind replaces every version of that operation, and hands it on')
    R.rule('elementwise operations on statistics run over all elements')
    R.rule('adding, scaling and comparing combined statistics has, for an arbitrary part, the result of doing so to that part')
    comp = {}
    for c, r in sorted(P.recs.items()):
        if not r.get('repo') or '/lm/' in r['file'] or '/src/test/' in r['file']: continue
        bs = [b for b in P.bases(c) if P.recs.get(b, {}).get('repo')]
        if not bs: continue
        R.count('derived_classes')
        hidden(P, R, c, bs)
        fs = [f for f in r['fields'] if elem(P, f['t']) in bs and 'std::' in (P.tname(f['t']) or '') and P.recs[elem(P, f['t'])].get('abs')]
        if fs: comp[c] = fs
    R.set('classes_made_of_parts', len(comp))
    R.need(len(comp) >= 2, 'no class made of parts of its own kind found')
    for c, fs in comp.items(): composite(P, R, c, fs)
    wrappers(P, R)
    stats(P, R)
    delegations(P, R)
    from . import c28
    for c in sorted(comp):
        if P.derives(c, c28.BASE): c28.one(P, R, c)

def hidden(P, R, c, bs):
    mine = {}
    for m in P.recs[c]['methods']:
        d = P.decls.get(m['id'])
        if d and not d.get('ctor') and not d.get('dtor') and not d['n'].startswith('operator'): mine.setdefault(d['n'], []).append((d, m['ov']))
    for name, ms in mine.items():
        R.count('member_functions')
        for b in bs:
            vs = [d for d in P.methods(b, name) if d.get('virt')]
            if not vs: continue
            if any(ov for d, ov in ms): R.count('replacements'); break
            d = ms[0][0]
            R.violation(f'{c}|{name} hides', f'{short(c)}::{name} has the name of a virtual function of {short(b)} but another signature: it hides it instead of replacing it', f'{d.get("file", "").replace(P_REPO(P) + "/", "")}:{d.get("line", 0)}')
            break

def P_REPO(P):
    from .. import facts
    return facts.REPO

def resolve(P, c, m):
    """the class whose version of m objects of class c run"""
    r = P.resolve_virtual(c, m)
    return r

def composite(P, R, c, fs):
    parts = {f['n'] for f in fs}; names = {f['id'] for f in fs}
    seen = set()
    for b, d in virtuals(P, c):
        if any(m in P.overriders and d['D'] in P.overriders[m] for m in [x for bb in P.bases(c) for x in [y['id'] for y in P.recs.get(bb, {}).get('methods', ())]] if m != d['D']): continue       # judged at its first declaration
        if d['D'] in seen: continue
        seen.add(d['D'])
        run_ = P.resolve_virtual(c, d['D'])
        R.count('operations_of_classes_made_of_parts')
        f = P.funcs.get(run_)
        if f is None: continue
        if f.cls != c:
            own = {x['id'] for x in P.recs[f.cls]['fields']}
            where = f'{P.recs[c]["file"].replace(P_REPO(P) + "/", "")}:{P.recs[c]["line"]}'
            if touches(P, f, own) and not reaches_virtual(P, f, c):
                R.violation(f'{c}|{d["n"]}|state', f'{short(c)} inherits {short(f.q)}, which works on values {short(c)} does not keep: its parts in {", ".join(sorted(parts))} are not touched', where)
            elif noop(P, f) and nontrivial_override(P, d['D']):
                R.violation(f'{c}|{d["n"]}|hook', f'{short(c)} inherits {short(f.q)}, which does nothing, although its parts in {", ".join(sorted(parts))} may need it', where)
            continue
        forwards(P, R, c, f, fs)

def wrappers(P, R):
    """classes that stand in for one other object of their kind"""
    for c, r in sorted(P.recs.items()):
        if not r.get('repo') or '/lm/' in r['file'] or '/src/test/' in r['file']: continue
        bs = [b for b in P.bases(c) if P.recs.get(b, {}).get('repo')]
        fs = [f for f in r['fields'] if elem(P, f['t']) in bs and 'std::vector' not in (P.ts(f['t']) or '')]
        if not fs: continue
        pre = tuple('this.' + x['n'] for x in fs)
        own = [P.funcs[m['id']] for m in r['methods'] if m['id'] in P.funcs and P.decls[m['id']].get('virt') and not P.decls[m['id']].get('dtor')]
        on = lambda f: [n for n in f.nodes() if n.k == 'CXXMemberCallExpr' and n.c and n.f in P.decls and P.decls[n.f]['n'] == f.name and P.decls[n.f].get('cls') in bs + [c] and any(y.k == 'MemberExpr' and y.m in [x['id'] for x in fs] for y in n.c[0].walk())]
        names = {f.name for f in own if on(f)}
        if not names: continue
        R.count('classes_standing_in_for_another_object')
        where = f'{r["file"].replace(P_REPO(P) + "/", "")}:{r["line"]}'
        for b, d in virtuals(P, c):
            if d['n'] not in names: continue
            R.count('operations_handed_on_to_the_other_object')
            f = P.funcs.get(P.resolve_virtual(c, d['D']))
            if f is None: continue
            sig = ', '.join(P.ts(t) for t in d['pt']) + (' const' if d.get('const') else '')
            if f.cls != c: R.violation(f'{c}|{d["n"]}({sig})|version', f'{short(c)} hands {d["n"]} on to its {fs[0]["n"]}, but not the version taking ({sig}): that one is inherited and works on values {short(c)} does not keep', where)
            elif not on(f): R.violation(f'{c}|{d["n"]}({sig})|on', f'{short(f.q)} is not handed on to {fs[0]["n"]} as the other versions are', f.loc())

def reaches_virtual(P, f, c):
    return any(n.k == 'CXXMemberCallExpr' and n.get('virt') and n.c and path(n.c[0], f, P) == 'this' for n in f.nodes())

def parts_calls(P, f, fs, depth=0, alias=None):
    """calls on parts: (function, call node, loop or None)"""
    out = []
    prefix = tuple('this.' + x['n'] for x in fs)
    for n in f.nodes():
        if n.k == 'CXXMemberCallExpr' and n.c:
            p = part_path(P, f, n)
            if p and p.endswith('[]') and p[:-2] in prefix and P.decls.get(n.f, {}).get('cls') and not P.decls[n.f]['cls'].startswith(('std::', 'boost::')):
                out.append((f, n))
            elif p == 'this' and n.f in P.funcs and depth < 2 and not n.get('virt'):
                out += parts_calls(P, P.funcs[n.f], fs, depth + 1)
    return out

def part_path(P, f, n):
    p = path(n.c[0], f, P)
    if p and p.startswith('v') and p[1:].split('[')[0].isdigit():
        v = int(p[1:].split('[')[0])
        for a in L.enclosing(n):
            li = L.analyse(a, f, P)
            if li.var == v and li.kind == 'iter' and li.over: return li.over + '[]'
    return p

def literal_only(f):
    b = f.body
    return b.k == 'CompoundStmt' and len([c for c in b.c if c is not None]) == 1 and b.c[0].k == 'ReturnStmt' and not any(x.k in ('MemberExpr', 'DeclRefExpr') for x in b.walk())

def forwards(P, R, c, f, fs):
    if literal_only(f): return
    calls = parts_calls(P, f, fs)
    own = [(g, n) for g, n in calls]
    used = [x for x in fs if any(y.k == 'MemberExpr' and y.m == x['id'] for y in f.nodes())]
    if not own:
        # functions of the standard library applied to the parts count as handing them on
        if used and any(n.k in CALLS and n.f in P.decls and P.decls[n.f]['D'].startswith(('std::for_each', 'std::transform', 'std::accumulate', 'std::all_of')) for n in f.nodes()): return
        if used and any(n.k == 'LambdaExpr' for n in f.nodes()): return
        # or a function that is given them
        pre = tuple('this.' + x['n'] for x in fs)
        if any(n.k in CALLS and n.f in P.funcs and any((path(a, f, P) or '').startswith(pre) for a in call_args(n) if a is not None) for n in f.nodes()): return
        # another operation of the same object that is itself carried out on the parts
        if any(n.k == 'CXXMemberCallExpr' and n.c and path(n.c[0], f, P) == 'this' for n in f.nodes()): return
        R.violation(f'{c}|{f.name}|parts', f'{short(f.q)} does nothing with the parts in {", ".join(sorted(x["n"] for x in fs))}', f.loc()); return
    R.count('operations_handed_on_to_the_parts')
    same = [(g, n) for g, n in own if P.decls[n.f]['n'] == f.name]
    for g, n in (same or own):
        key = f'{c}|{f.name}|{P.decls[n.f]["n"]}'
        lp = [a for a in L.enclosing(n) if a.k != 'DoStmt']
        if not lp:
            R.violation(key + '|loop', f'{short(f.q)} calls {P.decls[n.f]["n"]} on one part only', g.loc(n)); continue
        li = L.analyse(lp[0], g, P)
        if li.full is False: R.violation(key + '|loop', f'{short(f.q)}: the loop over {li.over.replace("this.", "")} leaves parts out: {li.why}', g.loc(lp[0])); continue
        R.count('loops_over_parts')
        for x in L.leaves(lp[0], g):
            if x.k == 'ReturnStmt' and early_answer(P, g, x): continue
            R.violation(key + '|early', f'{short(f.q)}: the loop over the parts is left or a part is skipped before {P.decls[n.f]["n"]} has been called on all of them', g.loc(x))
        if g is f and conditional(n, lp[0], f):
            R.violation(key + '|cond', f'{short(f.q)} calls {P.decls[n.f]["n"]} on some parts only', g.loc(n))
        if li.var is not None and li.kind == 'index':
            for x in L.body(lp[0]).walk():
                if (x.k == 'CXXOperatorCallExpr' and x.op == '[]' or x.k == 'ArraySubscriptExpr') and len(x.c) == 2:
                    p = path(x.c[0], g, P)
                    if p and p.startswith('this.'):
                        i = L.strip(x.c[1])
                        if i is not None and i.k == 'IntegerLiteral': R.violation(key + '|index', f'{short(f.q)}: {p[5:]}[{i.val}] is used for every part', g.loc(x))
    for g, n in same: args(P, R, c, f, g, n)

def early_answer(P, f, r):
    """a constant yes/no decided by a part"""
    if P.ts(f.decl.get('rt', -1)) != 'bool': return False
    e = L.strip(r.c[0]) if r.c else None
    return e is not None and e.k == 'CXXBoolLiteralExpr'

def conditional(n, loop, f):
    """n is not carried out in every round of loop"""
    x = n
    for a in n.ancestors():
        if a is loop: return False
        if a.k == 'IfStmt' and a.c[0] is not None and not any(y is n for y in a.c[0].walk()): return True
        if a.k == 'ConditionalOperator' and a.c[0] is not x: return True
        if a.k == 'BinaryOperator' and a.op in ('&&', '||') and a.c[1] is x and P_bool_first(a, n): return True
        x = a
    return False

def P_bool_first(a, n): return not any(y.k in CALLS and y.f == n.f for y in a.c[0].walk())

def mentions(P, f, n, v, depth=4):
    """does an expression use parameter v, directly or through locals?"""
    for x in n.walk():
        if x.k == 'DeclRefExpr' and x.v is not None:
            if x.v == v: return True
            if depth:
                d = f.vardecl(x.v)
                if d is not None:
                    if d.c and d.c[0] is not None and mentions(P, f, d.c[0], v, depth - 1): return True
                    if 'rng' in d.x and mentions(P, f, f.node(d.x['rng']), v, depth - 1): return True
                    for w in L.writes(f, x.v):
                        if len(w.c) > 1 and mentions(P, f, w.c[1], v, depth - 1): return True
                    # filled by a call that is given the parameter
                    for y in f.nodes():
                        if y.k in CALLS and any(z is not None and z.k == 'DeclRefExpr' and z.v == x.v for z in call_args(y)) and any(z is not None and any(w.k == 'DeclRefExpr' and w.v == v for w in z.walk()) for z in call_args(y)): return True
    return False

def args(P, R, c, f, g, n):
    if g is not f: return
    a = call_args(n)
    if len(a) != len(f.params): return
    pt = P.decls[n.f]['pt']
    kind = lambda t: P.is_scalar(P.strip_ref(t))
    if len(pt) != len(a) or any(kind(t) != kind(p['t']) for t, p in zip(pt, f.params)): return         # other arguments altogether
    for k, (x, p) in enumerate(zip(a, f.params)):
        R.count('arguments_handed_on')
        if x is None: continue
        if x.k == 'CXXDefaultArgExpr' or not mentions(P, f, x, p['v']):
            R.violation(f'{f.id}|{P.decls[n.f]["n"]}|arg {p["n"]}', f'{short(f.q)} does not hand its argument "{p["n"]}" on to {short(P.decls[n.f]["q"])} in its place', f.loc(n))

def delegations(P, R):
    """one version of an operation calling another"""
    for f in P.funcs.values():
        if not f.cls or '/lm/' in f.file or '/src/test/' in f.file or f.isctor or not f.params: continue
        r = P.recs.get(f.cls)
        if not r or not r.get('repo') or not f.decl.get('virt'): continue
        for n in f.nodes():
            if n.k != 'CXXMemberCallExpr' or n.f not in P.decls or n.f == f.id or not n.c: continue
            d = P.decls[n.f]
            if d['n'] != f.name or path(n.c[0], f, P) != 'this' or len(call_args(n)) != len(f.params): continue
            if n.f in P.overriders.get(f.id, ()) or any(f.id in P.overriders.get(n.f, ()) for _ in (0,)) or True:
                R.count('delegations'); args(P, R, f.cls, f, f, n)

def stats(P, R):
    """elementwise operations of the statistics classes"""
    base = 'travatar::EvalStats'
    if base not in P.recs: R.need(False, 'EvalStats'); return
    for c in sorted(P.subclasses(base)):
        r = P.recs[c]
        if '/src/test/' in r.get('file', ''): continue
        data = {x['n'] for k in [c] + P.bases(c) for x in P.recs.get(k, {}).get('fields', ()) if P.tname(x['t']) in ('std::vector',)}
        for d in P.methods(c):
            f = P.funcs.get(d['D'])
            if f is None or f.isctor or f.isdtor: continue
            for n in f.nodes():
                if n.k not in L.LOOPS: continue
                li = L.analyse(n, f, P)
                if not li.over: continue
                last = li.over.split('.')[-1].rstrip('[]')
                if last not in data and li.over.split('.')[0] == 'this': continue
                if last not in data: continue
                R.count('loops_over_statistics')
                key = f'{f.q}|{last}'
                if li.full is False: R.violation(key + '|loop', f'{short(f.q)}: the loop over {last} leaves elements out: {li.why}', f.loc(n)); continue
                for x in L.leaves(n, f):
                    if x.k == 'ReturnStmt' and (early_answer(P, f, x)): continue
                    if x.k == 'ContinueStmt' or x.k == 'BreakStmt' or x.k == 'ReturnStmt': R.violation(key + '|early', f'{short(f.q)}: the loop over {last} is left or an element skipped', f.loc(x))
                if li.kind == 'index' and f.name in ('PlusEquals', 'PlusEqualsTimes', 'TimesEquals', 'Equals', 'Plus', 'Times'):
                    for x in L.body(n).walk():
                        if x.k == 'CXXOperatorCallExpr' and x.op == '[]' and len(x.c) == 2:
                            p = path(x.c[0], f, P); i = L.strip(x.c[1])
                            if p and p.split('.')[-1] in data and not (i is not None and i.k == 'DeclRefExpr' and i.v == li.var): R.violation(key + '|index', f'{short(f.q)} pairs different elements of {p.split(".")[-1]}', f.loc(x))
