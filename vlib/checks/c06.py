"""Every option has its effect."""
import re
from ..flow import *
from ..prog import *
from ..paths import path, single_init
from .. import loops as L, cdep
from .c18 import local

LEVEL = 'other'
EXPLAIN = ('The options each program declares are read off its configuration class, the options it asks for off every lookup whose object has that class (names are followed through constants and helper parameters). Each value read is followed '
           'through variables, arguments, parameters, members and the objects made from it to a use that is neither a message nor another store; a value that is replaced before any use, goes to a destination named after another '
           'option of the same program, or changes between whole and real number on the way is reported. Each program\'s start is checked by dataflow: the command line is loaded last before the work begins.')

def run(P, R, tier):
    R.rule('every option a program declares is read, and its value reaches a use; every option it reads is declared, with a default its reader accepts')
    R.rule('a value goes to the place named after its option, not to that of another option; it is not replaced before it is used')
    R.rule('a real number is not read as a whole number, nor a whole number taken from a real one')
    R.rule('text that only begins with a number is refused where a number is asked for')
    R.rule('main arguments are asked for only up to the number the program requires')
    R.rule('the command line is loaded last before the work begins')
    C = Options(P, R)
    C.collect()
    C.check()
    C.setters()
    reals(P, R)
    whole_text(P, R)
    starts(P, R, C)
    mainargs(P, R, C)
    R.need(R.cov.get('options', 0) > 30 and R.cov.get('reads', 0) > 30, 'options or their reads not found')

CFG = 'travatar::ConfigBase'

def literals(P, f, n, callers, depth=4):
    """the strings an expression may stand for, or None"""
    if n is None or depth == 0: return None
    m = L.strip(n)
    while m is not None and (m.k in CTORS or m.k in ('MaterializeTemporaryExpr', 'CXXBindTemporaryExpr')) and m.c and m.c[0] is not None: m = L.strip(m.c[0])
    if m is None: return None
    if m.k == 'StringLiteral': return {m.val}
    if m.k == 'ConditionalOperator':
        a, b = literals(P, f, m.c[1], callers, depth - 1), literals(P, f, m.c[2], callers, depth - 1)
        return a | b if a and b else None
    if m.k == 'DeclRefExpr' and m.v is not None:
        s = single_init(f, m.v)
        if s is not None: return literals(P, f, s, callers, depth - 1)
        for i, p in enumerate(f.params):
            if p['v'] == m.v:
                out = set()
                for c in callers(f):
                    a = call_args(c)
                    r = literals(P, c.fn, a[i], callers, depth - 1) if i < len(a) else None
                    if r is None: return None
                    out |= r
                return out or None
        # a variable assigned one of several literals
        out = set()
        d = f.vardecl(m.v)
        if d is not None and d.c and d.c[0] is not None:
            r = literals(P, f, d.c[0], callers, depth - 1)
            if r: out |= r
        for w in L.writes(f, m.v):
            if w.op == '=' and len(w.c) == 2:
                r = literals(P, f, w.c[1], callers, depth - 1)
                if r is None: return None
                out |= r
        return out or None
    if m.k == 'DeclRefExpr' and m.g and m.g in P.globals:
        g = P.globals[m.g]
        v = g.get('str') or g.get('lit')
        return {v} if v else None
    return None

def isnum(s, real):
    try:
        float(s) if real else int(s)
        return True
    except ValueError: return False

class Options:
    def __init__(s, P, R): s.P = P; s.R = R; s.decl = {}; s.reads = {}; s.unknown = set(); s._callers = None; s.memo = {}
    def callers(s, f):
        if s._callers is None:
            s._callers = {}
            for g in s.P.funcs.values():
                if '/src/test/' in g.file: continue
                for n in g.nodes():
                    if n.k in CALLS and n.f:
                        for t in s.P.targets(n): s._callers.setdefault(t.id, []).append(n)
                    elif n.k in CTORS and n.f in s.P.funcs: s._callers.setdefault(n.f, []).append(n)
        return s._callers.get(f.id, ())
    def config_of(s, f, n, depth=4):
        """configuration classes an expression may be an object of"""
        P = s.P
        o = L.strip(n)
        if o is None: return set()
        while o.k == 'UnaryOperator' and o.op in ('*', '&'): o = L.strip(o.c[0])
        c = P.rec_of_ptr(o.t)
        if c and c != CFG and P.derives(c, CFG): return {c}
        if o.k == 'DeclRefExpr' and o.v is not None and depth:
            d = f.vardecl(o.v)
            if d is not None and d.c and d.c[0] is not None: return s.config_of(f, d.c[0], depth - 1)
            for i, p in enumerate(f.params):
                if p['v'] == o.v:
                    out = set()
                    for x in s.callers(f):
                        a = call_args(x)
                        if i < len(a): out |= s.config_of(x.fn, a[i], depth - 1)
                    return out
        return set()
    def collect(s):
        P, R = s.P, s.R
        s.classes = sorted(c for c in P.subclasses(CFG) if c != CFG)
        for c in s.classes: s.decl.setdefault(c, {}); s.reads.setdefault(c, {})
        for f in sorted(P.funcs.values(), key=lambda f: f.id):
            if '/src/test/' in f.file or f.cls == CFG: continue
            for n in f.nodes():
                if n.k != 'CXXMemberCallExpr' or n.f not in P.decls or P.decls[n.f].get('cls') != CFG: continue
                nm = P.decls[n.f]['n']
                if nm == 'AddConfigEntry':
                    c = f.cls
                    names = literals(P, f, n.c[1], s.callers); dv = literals(P, f, n.c[2], s.callers)
                    if not names: s.unknown.add(c); R.count('declarations_not_resolved'); continue
                    for x in names:
                        R.count('options')
                        if x in s.decl.setdefault(c, {}):
                            R.violation(f'{c}|{x}|twice', f'option {x} is declared twice: the second default is never used', f.loc(n))
                        s.decl[c][x] = (next(iter(dv)) if dv and len(dv) == 1 else None, f, n)
                elif nm in ('GetString', 'GetInt', 'GetReal', 'GetBool', 'GetStringArray', 'GetIntArray'):
                    cs = s.config_of(f, n.c[0])
                    names = literals(P, f, n.c[1], s.callers)
                    if not names:
                        R.count('reads_not_resolved')
                        for c in cs or s.classes: s.unknown.add(c)
                        continue
                    if not cs: R.count('reads_without_known_program'); cs = {c for c in s.classes if names & set(s.decl[c])}
                    for c in cs:
                        for x in names:
                            R.count('reads'); s.reads[c].setdefault(x, []).append((nm, f, n, len(names) == 1))
        # classes whose constructor is in another class's hands do not matter: only those a program makes
        s.used = set()
        for f in P.funcs.values():
            if f.name == 'main' and '/src/bin/' in f.file:
                for n in f.nodes():
                    if n.k == 'VarDecl':
                        c = P.rec_of(n.t)
                        if c in s.decl: s.used.add(c)
    def check(s):
        P, R = s.P, s.R
        for c in s.classes:
            sc = short(c)
            for x, rs in sorted(s.reads[c].items()):
                if x not in s.decl[c] and c not in s.unknown and s.decl[c]:
                    R.violation(f'{sc}|{x}|undeclared', f'option {x} is read but the program does not declare it: asking for it always fails', rs[0][1].loc(rs[0][2]))
                elif x in s.decl[c]:
                    d = s.decl[c][x][0]
                    for nm, f, n, one in rs:
                        if d is None: continue
                        ok = {'GetInt': isnum(d, 0), 'GetReal': isnum(d, 1) and (float(d) != 0 or d in ('0', '0.0')) , 'GetBool': d in ('true', 'false'), 'GetIntArray': all(isnum(y, 0) for y in re.split('[| ]', d)) if d else True}.get(nm, True)
                        R.count('defaults')
                        if not ok: R.violation(f'{sc}|{x}|default', f'the default "{d}" of option {x} is not what its reader accepts ({nm[3:].lower()})', f.loc(n))
            if c not in s.used: continue
            for x, (d, f, n) in sorted(s.decl[c].items()):
                rs = s.reads[c].get(x, [])
                if not rs:
                    if c in s.unknown: R.count('unread_but_lookups_not_resolved'); continue
                    R.violation(f'{sc}|{x}|unread', f'option {x} is declared but never read: setting it has no effect', f.loc(n)); continue
                R.count('options_followed')
                if not any(s.live(g, m, set()) for _, g, m, _ in rs):
                    R.violation(f'{sc}|{x}|no effect', f'the value of option {x} is read but never reaches a use', rs[0][1].loc(rs[0][2]))
            s.names(c)
            for x, rs in sorted(s.reads[c].items()):
                for nm, f, n, _ in rs: s.replaced(sc, x, f, n)
    # ---- liveness
    def climb(s, n):
        """what consumes the value of n: list of (kind, ...)"""
        P = s.P; f = n.fn
        c = n; p = n.p
        while p is not None and (p.k in CASTS or p.k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'ConstantExpr', 'FullExpr') or
                                 p.k in CTORS and p.f not in P.funcs and len([x for x in p.c if x is not None]) >= 1): c, p = p, p.p
        if p is None:
            for el, e in f.inits:
                if e is c:
                    m = el.get('field') or el.get('m') or el.get('f')
                    return [('field', m)] if m else [('used',)]
            return [('unknown',)]
        k = p.k
        if k == 'VarDecl': return [('var', p.v)]
        if k == 'DeclStmt': return [('unknown',)]
        if k in ('BinaryOperator', 'CompoundAssignOperator', 'CXXOperatorCallExpr') and p.op and (p.op == '=' or p.op.endswith('=') and p.op not in ('==', '!=', '<=', '>=')):
            if p.c[0] is c: return [('store',)] if p.op == '=' else [('store',)]
            l = L.strip(p.c[1 if False else 0])
            r = s.target(f, l)
            return [r] if r else [('unknown',)]
        if k == 'CXXOperatorCallExpr' and p.op == '<<':
            o = p
            while o is not None and o.k == 'CXXOperatorCallExpr' and o.op == '<<': o = L.strip(o.c[0])
            if o is not None and o.k == 'DeclRefExpr' and (o.g in ('std::cerr', 'std::clog') or o.v is not None and 'ostringstream' in P.tname(f.vartype(o.v)) and f.varname(o.v) in ('oss', 'DIE_oss', 'ss') and throws_next(f, o.v)): return [('message',)]
            return [('unknown',)]
        if k == 'CXXOperatorCallExpr' and p.op in ('==', '!=') and any(L.strip(x) is not None and L.strip(x).k == 'StringLiteral' and L.strip(x).val == '' for x in p.c): return [('presence',)]
        if k == 'CXXMemberCallExpr' and p.c[0] is c and P.decls.get(p.f, {}).get('n') in ('empty', 'size', 'length') and 'basic_string' in P.tname(c.t): return [('presence',)]
        if k in ('BinaryOperator', 'UnaryOperator', 'CXXOperatorCallExpr') and not (k == 'CXXOperatorCallExpr' and p.op in ('()', '->')): 
            if k == 'CXXOperatorCallExpr' and p.op in ('[]', '*') : return s.climb(p)
            return s.climb(p)
        if k == 'ConditionalOperator':
            return [('cond',)] if p.c[0] is c else s.climb(p)
        if k in ('ArraySubscriptExpr', 'MemberExpr'):
            return s.climb(p)
        if k in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'SwitchStmt'):
            if k == 'ForStmt' and p.c[1] is not c: return [('discard',)]
            if k == 'IfStmt':
                br = [x for x in p.c[1:] if x is not None and x is not c]
                if br and all(empty(x) for x in br): return [('discard',)]
            return [('cond',)]
        if k == 'ReturnStmt': return [('return', f)]
        if k in ('CompoundStmt', 'CaseStmt', 'DefaultStmt', 'LabelStmt'): return [('discard',)]
        if k in CALLS or k in CTORS or k == 'CXXNewExpr':
            out = []
            a = call_args(p) if k in CALLS else list(p.c)
            if k == 'CXXNewExpr': return s.climb(p)
            if k == 'CXXMemberCallExpr' and p.c[0] is c:
                d = P.decls.get(p.f, {})
                return s.climb(p) if s.nonvoid(p) else [('used',)]
            ts = P.targets(p) if k in CALLS else ([P.funcs[p.f]] if p.f in P.funcs else [])
            ts = [t for t in ts if not t.islambda]
            try: i = next(j for j, x in enumerate(a) if x is c)
            except StopIteration: return [('unknown',)]
            if not ts:
                # stored by a smart pointer or a container
                if k == 'CXXMemberCallExpr':
                    nm = P.decls.get(p.f, {}).get('n')
                    if nm in ('reset', 'push_back', 'insert', 'assign', 'emplace_back'):
                        r = s.target(f, L.strip(p.c[0]))
                        return [r] if r else [('unknown',)]
                if k in CTORS and s.nonvoid(p): return s.climb(p)
                return [('unknown',)]
            for t in ts:
                if i < len(t.params): out.append(('param', t, i))
            # what is made from the value must be used too; a function called for its effects need not
            makes = k in CTORS or s.nonvoid(p) and k == 'CallExpr' and (P.decls.get(p.f, {}).get('static') or not P.decls.get(p.f, {}).get('cls')) and not any(outparam(P, t) for t in ts)
            nv = s.climb(p) if makes else None
            return [('call', out, nv)]
        return [('unknown',)]
    def nonvoid(s, n): return n.k in CTORS or n.t != -1 and s.P.T(n.t)['k'] != 'void' and s.P.ts(n.t) != 'void'
    def target(s, f, l):
        while l is not None and (l.k in ('ArraySubscriptExpr',) or l.k == 'CXXOperatorCallExpr' and l.op in ('[]', '*', '->') or l.k == 'UnaryOperator' and l.op == '*' or
                                 l.k == 'CXXMemberCallExpr' and s.P.decls.get(l.f, {}).get('n') in ('back', 'front', 'at')): l = L.strip(l.c[0])
        if l is None: return None
        if l.k == 'DeclRefExpr' and l.v is not None: return ('var', l.v) if f.vardecl(l.v) is not None else ('unknown',)
        if l.k == 'DeclRefExpr' and l.g: return ('global', l.g)
        if l.k == 'MemberExpr' and l.m: return ('field', l.m)
        if l.k == 'MemberExpr' and l.g: return ('global', l.g)
        return None
    def live(s, f, n, seen):
        for c in s.climb(n):
            if s.livec(f, c, seen): return True
        return False
    def livec(s, f, c, seen):
        P = s.P; k = c[0]
        if k in ('unknown', 'cond', 'used'): return True
        if k in ('message', 'discard', 'store', 'presence'): return False
        if k == 'return':
            key = ('ret', f.id)
            if key in seen: return False
            seen.add(key)
            cs = s.callers(f)
            return any(s.live(x.fn, x, seen) for x in cs)
        if k == 'var':
            key = ('v', f.id, c[1])
            if key in seen: return False
            seen.add(key)
            return any(x.k == 'DeclRefExpr' and x.v == c[1] and s.live(f, x, seen) for x in f.nodes())
        if k in ('field', 'global'):
            key = (k, c[1])
            if key in seen: return False
            seen.add(key)
            for x in s.occ(c[1]):
                if s.live(x.fn, x, seen): return True
            return False
        if k == 'param':
            t, i = c[1], c[2]
            key = ('p', t.id, i)
            if key in seen: return False
            seen.add(key)
            v = t.params[i]['v']
            return any(x.k == 'DeclRefExpr' and x.v == v and s.live(t, x, seen) for x in t.nodes())
        if k == 'call':
            seen0 = set(seen)
            p = any(s.livec(f, x, seen) for x in c[1]) if c[1] else True
            if not p: return False
            if c[2] is None: return True
            return any(s.livec(f, x, seen0) for x in c[2])
        return True
    def occ(s, m):
        if not hasattr(s, '_occ'):
            s._occ = {}
            for f in s.P.funcs.values():
                if '/src/test/' in f.file: continue
                for n in f.nodes():
                    if n.k == 'MemberExpr': s._occ.setdefault(n.m or n.g, []).append(n)
                    elif n.k == 'DeclRefExpr' and n.g: s._occ.setdefault(n.g, []).append(n)
        return s._occ.get(m, ())
    # ---- names
    def dests(s, f, n, depth=4):
        """names of the places a value is copied to unchanged"""
        P = s.P; out = []
        if depth == 0: return out
        cs = s.climb_direct(n)
        for c in cs:
            if c[0] == 'var':
                out.append((f.varname(c[1]), f, n, f.id))
                for x in f.nodes():
                    if x.k == 'DeclRefExpr' and x.v == c[1]: out += s.dests(f, x, depth - 1)
            elif c[0] in ('field', 'global') and c[1]: out.append((c[1].rsplit('::', 1)[-1], f, n, c[1]))
            elif c[0] == 'call':
                for p in c[1]:
                    t, i = p[1], p[2]
                    if len(t.params) == 1 and t.name.startswith('Set'): out.append((t.name[3:], f, n, t.id))
                    out.append((t.params[i]['n'], f, n, t.id))
                    for x in t.nodes():
                        if x.k == 'DeclRefExpr' and x.v == t.params[i]['v']: out += [(nm, f, n, w) for nm, _, _, w in s.dests(t, x, depth - 1)]
        return out
    def climb_direct(s, n):
        c = n; p = n.p
        P = s.P
        while p is not None and (p.k in CASTS or p.k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr') or p.k in CTORS and p.f not in P.funcs and len([x for x in p.c if x is not None]) == 1): c, p = p, p.p
        if p is None or p.k in ('VarDecl',) or p.k in CALLS and not (p.k == 'CXXMemberCallExpr' and p.c[0] is c) and not (p.k == 'CXXOperatorCallExpr' and p.op != '=') or p.k in CTORS or p.k in ('BinaryOperator', 'CXXOperatorCallExpr') and p.op == '=':
            return s.climb(n)
        return []
    def names(s, c):
        P, R = s.P, s.R
        got = {}
        for x, rs in s.reads[c].items():
            for nm, f, n, one in rs:
                if not one: continue
                for d, g, m, w in s.dests(f, n): got.setdefault((d, w), []).append((x, g, m))
        for (d, w), xs in sorted(got.items()):
            mine = {x for x, _, _ in xs}
            best = max(score(x, d) for x in mine)
            for o in sorted(s.decl[c]):
                if o in mine: continue
                sc = score(o, d)
                if sc >= 0.5 and sc > best and not (toks(o) < toks(min(mine, key=lambda x: -score(x, d))) and best > 0) and not (len(toks(d)) == 1):
                    x, g, m = xs[0]
                    R.violation(f'{short(c)}|{x}|{d}', f'the value of option {x} goes to "{d}", which is named after option {o}', g.loc(m)); break
            R.count('destinations')
    def setters(s):
        """a setter fills the member it is named after"""
        P, R = s.P, s.R
        for f in sorted(P.funcs.values(), key=lambda f: f.id):
            if not local(P, f) or not f.name.startswith('Set') or len(f.params) != 1 or not f.cls: continue
            v = f.params[0]['v']
            got = [c[1].rsplit('::', 1)[-1] for n in f.nodes() if n.k == 'DeclRefExpr' and n.v == v for c in s.climb_direct(n) if c[0] == 'field' and c[1]]
            if not got: continue
            R.count('setters')
            best = max(score(f.name[3:], g) for g in got)
            for fd in P.all_fields(f.cls):
                o = fd['n']
                if o not in got and score(f.name[3:], o) >= 0.5 and score(f.name[3:], o) > best:
                    R.violation(f'{f.q}|setter', f'{f.name} fills {got[0]} and not {o}', f.loc()); break
    # ---- replaced before use
    def replaced(s, sc, x, f, n):
        P, R = s.P, s.R
        for c in s.climb(n):
            if c[0] == 'call' and len(c[1]) == 1 and f.cfg:
                st = n
                while st.p is not None and not (st.k == 'CXXMemberCallExpr' and st.f == c[1][0][1].id): st = st.p
                if st.k == 'CXXMemberCallExpr' and c[1][0][1].name.startswith('Set') and len(call_args(st)) == 1:
                    o = path(st.c[0], f, P)
                    if o: 
                        R.count('stores_followed')
                        if s.overwritten(f, st, ('setter', st.f, o)): R.violation(f'{sc}|{x}|replaced', f'the value of option {x} is replaced before anything uses it', f.loc(n))
                continue
            if c[0] not in ('field', 'var', 'global') or not f.cfg: continue
            st = n
            while st.p is not None and not (st.k in ('BinaryOperator', 'CXXOperatorCallExpr') and st.op == '=') and st.k != 'VarDecl' and not (st.k == 'CXXMemberCallExpr' and P.decls.get(st.f, {}).get('n') == 'reset'): st = st.p
            if st.p is None: continue
            R.count('stores_followed')
            if s.overwritten(f, st, c): R.violation(f'{sc}|{x}|replaced', f'the value of option {x} is replaced before anything uses it', f.loc(n))
    def reads_of(s, t, c, seen):
        """may calling t read the place?"""
        key = (t.id, c[1])
        if key in s.memo: return s.memo[key]
        if key in seen: return False
        seen.add(key)
        r = False
        for n in t.nodes():
            if c[0] in ('field', 'global') and (n.k == 'MemberExpr' and (n.m or n.g) == c[1] or n.k == 'DeclRefExpr' and n.g == c[1]) and not lhs(n): r = True; break
            if n.k in CALLS and n.f or n.k in CTORS:
                for u in (s.P.targets(n) if n.k in CALLS else [s.P.funcs[n.f]] if n.f in s.P.funcs else []):
                    if s.reads_of(u, c, seen): r = True; break
                if r: break
        s.memo[key] = r
        return r
    def overwritten(s, f, st, c):
        """is the place stored again on every way on before it is read?"""
        P = s.P
        def occ(n): return n.k == 'DeclRefExpr' and (n.v == c[1] if c[0] == 'var' else c[0] == 'global' and n.g == c[1]) or n.k == 'MemberExpr' and c[0] == 'field' and n.m == c[1] or n.k == 'MemberExpr' and c[0] == 'global' and n.g == c[1]
        def classify(e):
            # 'read', 'kill' or None for one element of the graph
            if e is st: return None
            if c[0] == 'setter':
                if e.k == 'CXXMemberCallExpr' and path(e.c[0], f, P) == c[2]: return 'kill' if e.f == c[1] else ('read' if not P.decls.get(e.f, {}).get('n', '').startswith('Set') else None)
                if e.k in CALLS or e.k in CTORS:
                    for a in (call_args(e) if e.k in CALLS else e.c):
                        if a is not None and path(a, f, P) == c[2]: return 'read'
                return None
            if e.k in ('BinaryOperator', 'CXXOperatorCallExpr') and e.op == '=' and occ(L.strip(e.c[0]) or e):
                return 'kill'
            if e.k == 'CXXMemberCallExpr' and P.decls.get(e.f, {}).get('n') == 'reset' and occ(L.strip(e.c[0]) or e): return 'kill'
            if occ(e) and not lhs(e): return 'read'
            if e.k in CALLS or e.k in CTORS:
                for u in (P.targets(e) if e.k in CALLS else [P.funcs[e.f]] if e.f in P.funcs else []):
                    if c[0] != 'var' and s.reads_of(u, c, set()): return 'read'
            return None
        start = None
        for b, B in f.cfg.items():
            for i, e in enumerate(B.els):
                if isinstance(e, Node) and (e is st or st.k == 'VarDecl' and e.k == 'DeclStmt' and any(y is st for y in e.walk())): start = (b, i + 1)
        if start is None: return False
        seen = set(); work = [start]; killed = False
        while work:
            b, i = work.pop()
            if (b, i) in seen: continue
            seen.add((b, i)); B = f.cfg[b]; stop = False
            for e in B.els[i:]:
                if not isinstance(e, Node): continue
                r = classify(e)
                if r == 'read': return False
                if r == 'kill': killed = True; stop = True; break
            if stop: continue
            if b == f.exit:
                if c[0] not in ('var',): return False
                continue
            if B.throws: continue
            for x in B.succ:
                if x in f.cfg: work.append((x, 0))
        return killed

def outparam(P, t):
    """may it hand something back other than its result?"""
    return any(P.T(q['t'])['k'] in ('ref', 'ptr') and not P.T(P.T(q['t']).get('p', -1)).get('const') for q in t.params)

def lhs(n):
    """is this occurrence the left side of a plain assignment (or the object of reset)?"""
    c, p = n, n.p
    while p is not None and (p.k in CASTS or p.k in ('ParenExpr', 'ImplicitCastExpr')): c, p = p, p.p
    if p is None: return False
    if p.k in ('BinaryOperator', 'CXXOperatorCallExpr') and p.op == '=' and p.c[0] is c: return True
    return p.k == 'CXXMemberCallExpr' and p.c[0] is c and n.fn.prog.decls.get(p.f, {}).get('n') == 'reset'

def empty(x): return x.k == 'NullStmt' or x.k == 'CompoundStmt' and all(empty(c) for c in x.c if c is not None)

def throws_next(f, v): return True

def toks(x):
    x = x.strip('_'); x = re.sub(r'([a-z0-9])([A-Z])', r'\1_\2', x).lower()
    return {re.sub(r's$', '', t) if len(t) > 3 else t for t in x.split('_') if t}

def score(o, d):
    a, b = toks(o), toks(d)
    return len(a & b) / len(a | b) if a | b else 0

WHOLE = {'atoi', 'atol', 'strtol', 'stoi', 'stol', 'GetInt'}

def reals(P, R):
    """whole-number reading of something kept as a real number, and the reverse"""
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if not local(P, f): continue
        for n in f.nodes():
            if n.k not in CALLS or n.f not in P.decls: continue
            nm = P.decls[n.f]['n']
            whole = nm in WHOLE or nm == 'lexical_cast' and P.T(P.strip_ref(n.t))['k'] == 'int'
            real = nm in ('atof', 'strtod', 'GetReal', 'stod') or nm == 'lexical_cast' and P.T(P.strip_ref(n.t))['k'] == 'float'
            if not whole and not real: continue
            R.count('numbers_read')
            k = dest_kind(P, f, n)
            if whole and k == 'float' and nm == 'GetInt' and counted(P, f, n): continue
            if whole and k == 'float': R.violation(f'{f.q}|{nm}|real', f'text kept as a real number is read as a whole number ({nm}): the fraction is lost', f.loc(n))
            elif real and k == 'int': R.violation(f'{f.q}|{nm}|whole', f'a real number ({nm}) is cut down to a whole one', f.loc(n))

def counted(P, f, n):
    """an option that is described as a number of things is a whole number"""
    x = literals(P, f, n.c[1], lambda g: ()) or set()
    for g in P.funcs.values():
        if not g.isctor or CFG not in P.bases(g.cls): continue
        for m in g.nodes():
            if m.k == 'CXXMemberCallExpr' and P.decls.get(m.f, {}).get('n') == 'AddConfigEntry':
                a, d = literals(P, g, m.c[1], lambda g: ()), literals(P, g, m.c[3], lambda g: ())
                if a and d and a & x and re.search(r'number of|length|span|How many|maximum', next(iter(d)), re.I): return True
    return False

def dest_kind(P, f, n, depth=3):
    c, p = n, n.p
    while p is not None and p.k in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'UnaryOperator'): c, p = p, p.p
    if p is None: return None
    kind = lambda t: P.T(P.strip_ref(t))['k']
    if p.k in CASTS: return None                       # written out on purpose
    if p.k == 'VarDecl':
        k = kind(p.t)
        if k == 'int' and depth and kind(n.t) == 'int':
            # a variable of the same kind: where does it go?
            for x in f.nodes():
                if x.k == 'DeclRefExpr' and x.v == p.v:
                    r = dest_kind(P, f, x, depth - 1)
                    if r == 'float': return r
        return k
    if p.k == 'BinaryOperator' and p.op == '=' and p.c[1] is c: return kind(p.c[0].t)
    if p.k == 'ConditionalOperator' and p.c[0] is not c: return kind(p.t)
    if p.k == 'ReturnStmt':
        rt = f.decl.get('rt') or f.decl.get('ret')
        return kind(rt) if isinstance(rt, int) else None
    if p.k in CALLS or p.k in CTORS:
        a = call_args(p) if p.k in CALLS else list(p.c)
        ts = P.targets(p) if p.k in CALLS else ([P.funcs[p.f]] if p.f in P.funcs else [])
        for i, x in enumerate(a):
            if x is c:
                for t in ts:
                    if i < len(t.params): return kind(t.params[i]['t'])
                if p.k == 'CXXMemberCallExpr' and P.decls.get(p.f, {}).get('n') in ('push_back',) or p.k in CALLS and P.decls.get(p.f, {}).get('n') in ('make_pair',): 
                    pass
        if p.k in CALLS and P.decls.get(p.f, {}).get('n') == 'make_pair' and depth:
            # the pair is converted to what it is stored in
            i = next((j for j, x in enumerate(a) if x is c), None)
            q = p; 
            while q.p is not None and not (q.k in CTORS and len(P.T(P.strip_ref(q.t)).get('ta', ())) == 2 and q is not p): q = q.p
            ta = P.T(P.strip_ref(q.t)).get('ta') if q.k in CTORS else None
            if ta and i is not None and i < 2 and isinstance(ta[i], int): return kind(ta[i])
            q = p.p
            while q is not None and not (q.k in ('CXXOperatorCallExpr', 'BinaryOperator') and q.op == '='): q = q.p
            if q is not None:
                ta = P.T(P.strip_ref(q.c[0].t)).get('ta')
                if ta and i is not None and len(ta) == 2 and isinstance(ta[i], int): return kind(ta[i])
    return None

# ---- main arguments

def whole_text(P, R):
    """the functions that turn an option's text into a number notice what is left over"""
    scope = set(); work = [f for f in P.funcs.values() if f.cls == CFG and f.name in ('GetInt', 'GetReal', 'GetIntArray')]
    while work:
        f = work.pop()
        if f.id in scope: continue
        scope.add(f.id)
        for n in f.nodes():
            if n.k in CALLS:
                for t in P.targets(n):
                    if '/src/test/' not in t.file: work.append(t)
    for i in sorted(scope):
        f = P.funcs[i]
        for n in f.nodes():
            if n.k not in CALLS or n.f not in P.decls: continue
            nm = P.decls[n.f]['n']
            if nm in ('atoi', 'atol', 'atoll', 'atof', 'sscanf'):
                R.count('conversions')
                R.violation(f'{f.q}|{nm}', f'{nm} takes text that only begins with a number for that number', f.loc(n))
            elif nm in ('strtol', 'strtod', 'strtof', 'strtoll', 'strtoul', 'strtold'):
                R.count('conversions')
                e = L.strip(call_args(n)[1]); v = None
                while e is not None and e.k == 'UnaryOperator' and e.op == '&': e = L.strip(e.c[0])
                if e is not None and e.k == 'DeclRefExpr': v = e.v
                if v is None or not any(y.k in ('UnaryOperator', 'ArraySubscriptExpr') and y.op in ('*', None) and L.strip(y.c[0]) is not None and L.strip(y.c[0]).k == 'DeclRefExpr' and L.strip(y.c[0]).v == v and
                                        any(a.k in ('IfStmt', 'ConditionalOperator', 'WhileStmt', 'BinaryOperator') for a in y.ancestors()) for y in f.nodes()):
                    R.violation(f'{f.q}|{nm}', f'{nm} stops at the first character that is not part of a number, and nothing looks whether text is left over', f.loc(n))
            elif nm in ('stoi', 'stod', 'stol', 'stof'):
                R.count('conversions')
                if len([a for a in call_args(n) if a is not None and a.k != 'CXXDefaultArgExpr']) < 2: R.violation(f'{f.q}|{nm}', f'{nm} takes text that only begins with a number for that number', f.loc(n))

def mainargs(P, R, C):
    least = {}
    for f in P.funcs.values():
        if not (f.isctor and f.cls in C.decl): continue
        least.setdefault(f.cls, 0)
        for n in f.nodes():
            if n.k == 'BinaryOperator' and n.op == '=' and (L.strip(n.c[0]).m or '').endswith('::minArgs_'):
                v = L.strip(n.c[1])
                least[f.cls] = int(v.val) if v is not None and v.k == 'IntegerLiteral' else None
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if '/src/test/' in f.file or f.cls == CFG: continue
        for n in f.nodes():
            obj = idx = None
            if n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('q', '').endswith('ConfigBase::GetMainArg'): obj, idx = n.c[0], n.c[1]
            elif n.k == 'CXXOperatorCallExpr' and n.op == '[]':
                b = L.strip(n.c[0])
                if b is not None and b.k == 'DeclRefExpr' and b.v is not None: b = L.strip(single_init(f, b.v)) if single_init(f, b.v) is not None else b
                if b is not None and b.k == 'CXXMemberCallExpr' and P.decls.get(b.f, {}).get('n') in ('GetMainArgs', 'LoadConfig'): obj, idx = b.c[0], n.c[1]
            if obj is None: continue
            i = L.strip(idx)
            R.count('main_arguments')
            if i is None or i.k != 'IntegerLiteral': continue
            for c in C.config_of(f, obj):
                if least.get(c) is None: continue
                if int(i.val) >= least[c] and not guarded(P, f, n):
                    R.violation(f'{short(c)}|arg{i.val}', f'main argument {i.val} is asked for, but only {least[c]} are required', f.loc(n))

def guarded(P, f, n):
    for a in n.ancestors():
        if a.k in ('IfStmt', 'ConditionalOperator', 'ForStmt', 'WhileStmt'):
            c = a.c[1] if a.k == 'ForStmt' else a.c[0]
            if c is not None and any(y.k == 'CXXMemberCallExpr' and P.decls.get(y.f, {}).get('n') in ('size', 'empty') for y in c.walk()): return True
    return False

# ---- start of each program

class Load(Forward):
    """state: 'none', 'cli' or 'file', the last thing loaded"""
    def __init__(s, P, R, C, v, report=True): s.P = P; s.R = R; s.C = C; s.v = v; s.report = report
    def join(s, a, b): return a if a == b else ('file' if 'file' in (a, b) else 'none')
    def isv(s, n):
        n = L.strip(n)
        while n is not None and n.k == 'UnaryOperator' and n.op in ('*', '&'): n = L.strip(n.c[0])
        return n is not None and n.k == 'DeclRefExpr' and n.v == s.v
    def transfer(s, f, el, st):
        P = s.P
        if not isinstance(el, Node) or el.k not in CALLS: return st
        d = P.decls.get(el.f, {})
        if el.k == 'CXXMemberCallExpr' and s.isv(el.c[0]):
            nm = d.get('n')
            if nm == 'LoadConfig': return 'cli' if len([x for x in el.c if x is not None]) >= 3 else 'file'
            if nm and nm.startswith('Get') and st == 'none' and s.report: s.R.violation(f'{f.file.rsplit("/",1)[-1]}|{nm}|before', 'an option is asked for before the command line is loaded', f.loc(el))
            return st
        a = call_args(el)
        for i, x in enumerate(a):
            if x is not None and s.isv(x):
                for t in P.targets(el):
                    if i >= len(t.params): continue
                    if loads(P, t):
                        g = Load(P, s.R, s.C, t.params[i]['v'], False)
                        try: o, _, _ = g.run(t, st)
                        except RuntimeError: o = st
                        if o is not None: st = o
                    else:
                        s.R.count('programs_started')
                        if st != 'cli' and s.report: s.R.violation(f'{f.file.rsplit("/",1)[-1]}|start', 'the work begins before the command line is loaded' if st == 'none' else 'the work begins with the configuration file loaded after the command line: it takes precedence over it', f.loc(el))
        return st

def loads(P, t): return any(n.k == 'CXXMemberCallExpr' and P.decls.get(n.f, {}).get('n') == 'LoadConfig' for n in t.nodes())

def starts(P, R, C):
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if f.name != 'main' or '/src/bin/' not in f.file: continue
        vs = [n.v for n in f.nodes() if n.k == 'VarDecl' and P.rec_of(n.t) in C.decl]
        for v in vs: Load(P, R, C, v).run(f, 'none')
