"""Unknown mode names are errors; known ones are handled."""
from ..flow import *
from ..prog import *
from ..paths import path, single_init
import re

LEVEL = 'other'
EXPLAIN = ('For every value that the code compares with names (option values, formats, algorithm and measure names, keys of configuration strings) the control-flow graph is walked under the assumption that it '
           'equals none of them: every path that got as far as asking has to end in an error. Defaults and documented alternatives of each option have to be among the names. '
           'Switches over enumerations have to deal with every enumerator or raise an error for the rest.')
EXITS = {'exit', 'abort', '_exit', 'terminate'}
GETTERS = {'GetString', 'GetStringArray', 'GetMainArg'}

def literal(n):
    while n is not None and n.k != 'StringLiteral':
        cs = [c for c in n.c if c is not None]
        if len(cs) != 1 and not (n.k in CTORS and cs): return None
        n = cs[0]
    return n.val if n is not None else None

def strtype(P, t):
    n = P.tname(P.strip_ref(t)) or ''
    return 'basic_string' in n or P.ts(P.strip_ref(t)).endswith(('string', 'char *'))

def optname(P, n):
    """(config class, option) when n is a call that fetches an option"""
    if n.k == 'CXXMemberCallExpr' and n.f in P.decls and P.decls[n.f]['n'] in GETTERS and P.decls[n.f].get('cls') == 'travatar::ConfigBase':
        l = literal(call_args(n)[0]) if call_args(n) else None
        if l: return (P.rec_of(n.c[0].t) or P.rec_of(P.pointee(n.c[0].t)), l)
    return None

def strip(n):
    while n is not None and (n.k in CASTS or n.k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr')) and n.c: n = n.c[0]
    return n

class Modes:
    def __init__(self, P): self.P = P; self.tables = {}
    def tables_of(self, f):
        """maps from names to something that are local, static or global: name of the map -> its names"""
        return {}
    def key(self, n, f):
        P = self.P; n = strip(n)
        if n is None: return None
        while n.k in CTORS and len([c for c in n.c if c is not None]) == 1 and strtype(P, n.t): n = strip(n.c[0])
        o = optname(P, n)
        if o: return ('opt',) + o
        if n.k == 'CXXMemberCallExpr' and n.f in P.decls and P.decls[n.f]['n'] in ('substr', 'c_str', 'str'): return self.key(n.c[0], f)
        if n.k == 'DeclRefExpr' and n.v is not None:
            s = single_init(f, n.v)
            if s is not None:
                o = self.key(s, f) if strip(s) is not None and strip(s).k not in CTORS or s is not None else None
                if o and o[0] == 'opt': return o
        p = path(n, f, P)
        return ('path', p) if p else (('call', n.f) if n.k in CALLS and n.f else None)
    def test(self, n, f):
        """(key, name, value of the expression when the key is the name) for a comparison with a name"""
        P = self.P; n = strip(n)
        if n is None: return None
        if n.k == 'CXXOperatorCallExpr' and n.op in ('==', '!=') and len(n.c) == 2:
            for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                l = literal(b)
                if l is not None and strtype(P, a.t):
                    k = self.key(a, f)
                    if k: return (k, l, n.op == '==')
        if n.k == 'BinaryOperator' and n.op in ('==', '!='):
            a, b = strip(n.c[0]), strip(n.c[1])
            if a is not None and a.k in CALLS and b is not None and b.k == 'IntegerLiteral' and str(b.val) == '0':
                t = self.cmp(a, f)
                if t: return (t[0], t[1], n.op == '==')
        if n.k in CALLS:
            t = self.cmp(n, f)
            if t: return (t[0], t[1], False)           # non-zero: differs
            if n.f in P.decls and P.decls[n.f]['n'] in ('starts_with', 'istarts_with', 'iequals', 'equals'):
                a = call_args(n); l = literal(a[1]) if len(a) > 1 else None
                k = self.key(a[0], f) if l else None
                if k: return (k, l, True)
        return None
    def cmp(self, n, f):
        P = self.P
        if n.f not in P.decls: return None
        nm = P.decls[n.f]['n']
        if nm == 'compare' and n.k == 'CXXMemberCallExpr':
            a = call_args(n); l = literal(a[-1]) if a else None
            k = self.key(n.c[0], f) if l is not None else None
            return (k, l) if k else None
        if nm in ('strcmp', 'strncmp', 'strcasecmp'):
            a = call_args(n)
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                l = literal(y)
                if l is not None:
                    k = self.key(x, f)
                    if k: return (k, l)
        return None
    def value(self, n, f, key, hit, depth=0):
        """truth of a condition when key equals none of the names; hit collects the tests of key met"""
        n = strip(n)
        if n is None: return None
        t = self.test(n, f)
        if t:
            if t[0] == key:
                if t[1] != '': hit.append(t[1])
                return not t[2]
            return None
        if n.k == 'CXXBoolLiteralExpr': return bool(n.val)
        if n.k == 'UnaryOperator' and n.op == '!':
            v = self.value(n.c[0], f, key, hit, depth); return None if v is None else not v
        if n.k == 'BinaryOperator' and n.op in ('&&', '||'):
            a = self.value(n.c[0], f, key, hit, depth); b = self.value(n.c[1], f, key, hit, depth)
            if n.op == '&&': return False if a is False or b is False else (True if a and b else None)
            return True if a or b else (False if a is False and b is False else None)
        if n.k == 'DeclRefExpr' and n.v is not None:
            s = single_init(f, n.v)
            if s is not None and self.P.ts(f.vartype(n.v)) in ('bool', 'const bool'): 
                sub = []
                return self.value(s, f, key, sub, depth)
            return None
        if n.k in CALLS and n.f in self.P.funcs and depth < 3:
            g = self.P.funcs[n.f]
            if self.P.ts(g.decl.get('rt', -1)) == 'bool':
                for i, a in enumerate(call_args(n)):
                    if i < len(g.params) and strtype(self.P, g.params[i]['t']) and self.key(a, f) == key:
                        return self.helper(g, ('path', f'v{g.params[i]["v"]}'), hit, depth + 1)
        return None
    def helper(self, g, key, hit, depth):
        """the one value helper g returns when key equals none of the names it knows"""
        rets = set(); sub = []
        M = self
        class W(Forward):
            def join(s, a, b): return a
            def transfer(s, fn, n, st):
                if isinstance(n, Node) and n.k == 'ReturnStmt' and n.c: rets.add(M.value(n.c[0], fn, key, sub, depth))
                return st
            def edge(s, fn, B, taken, cond, st):
                v = M.value(cond, fn, key, sub, depth)
                return None if v is not None and v != taken else st
        W().run(g, True)
        if sub and len(rets) == 1:
            hit.extend(sub); return rets.pop()
        return None

class Walk(Forward):
    """state: True once the value has been compared with a name"""
    def __init__(self, M, f, key): self.M = M; self.f = f; self.key = key
    def join(self, a, b): return a or b
    def transfer(self, fn, n, st):
        if isinstance(n, Node) and n.k == 'CallExpr' and n.f in self.M.P.decls and self.M.P.decls[n.f]['n'] in EXITS: return None
        if isinstance(n, Node) and n.k in CALLS and self.M.P.decls.get(n.f, {}).get('n') == 'DieOnHelp': return None
        return st
    def edge(self, fn, B, taken, cond, st):
        hit = []
        v = self.M.value(cond, fn, self.key, hit)
        if hit: st = True
        if v is not None and v != taken: return None
        return st

def run(P, R, tier):
    R.rule('a value that is compared with names and equals none of them ends in an error on every path that compares it')
    R.rule('the default of an option and the alternatives its description lists are names the code knows')
    R.rule('a switch over an enumeration deals with every enumerator, or raises an error for the others')
    M = Modes(P)
    accepted = {}                   # key in a function -> names
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if '/lm/' in f.file or '/src/test/' in f.file or not f.cfg: continue
        ks = {}
        for n in f.nodes():
            t = M.test(n, f)
            if t and t[1] != '': ks.setdefault(t[0], []).append((t[1], n))
            if n.k in CALLS and n.f in P.funcs and P.ts(P.funcs[n.f].decl.get('rt', -1)) == 'bool':
                # a yes/no helper that compares with names
                for i, a in enumerate(call_args(n)):
                    g = P.funcs[n.f]
                    if i < len(g.params) and strtype(P, g.params[i]['t']):
                        k = M.key(a, f)
                        sub = []
                        if k and M.helper(g, ('path', f'v{g.params[i]["v"]}'), sub, 1) is not None:
                            for s in sub: ks.setdefault(k, []).append((s, n))
        for key, tests in sorted(ks.items(), key=str):
            names = {t[0] for t in tests}
            accepted[(f.id, key)] = names
            if len(names) < 2 and not (key[0] == 'opt'): continue
            if any(len(x) == 1 and not x.isalnum() or not re.match(r'^[A-Za-z]', x) for x in names): continue          # punctuation of a format, not names
            if used_as_file(P, M, f, key): R.count('values_that_are_file_names'); continue
            if P.ts(f.decl.get('rt', -1)) == 'bool' and all(n.p is not None and in_return(n) for _, n in tests): continue     # a yes/no helper: judged where it is used
            if len(names) < 2: continue
            R.count('values_compared_with_names'); R.count('names_compared', len(names))
            normal, thrown, ins = Walk(M, f, key).run(f, False)
            if normal:
                R.violation(f'{f.q}|{show(f, key)}', f'{short(f.q)}: {show(f, key)} is compared with {", ".join(sorted(names))}; any other value is accepted without an error', f.loc(tests[0][1]))
    defaults(P, R, M, accepted)
    switches(P, R)

def in_return(n):
    p = n
    while p is not None:
        if p.k == 'ReturnStmt': return True
        p = p.p
    return False

def show(f, key):
    if key[0] == 'opt': return f'option {key[2]}'
    if key[0] == 'path':
        p = key[1]
        m = re.match(r'v(\d+)(.*)', p)
        return (f.varname(int(m.group(1))) + m.group(2)) if m else p.replace('this.', '')
    return 'a value'

def used_as_file(P, M, f, key):
    for n in f.nodes():
        if (n.k in CTORS and ('fstream' in (P.tname(n.t) or '') or 'InputFileStream' in (P.tname(n.t) or ''))):
            for a in n.c:
                if a is None: continue
                for x in a.walk():
                    if x.k in CALLS or x.k in ('DeclRefExpr', 'MemberExpr'):
                        if M.key(x, f) == key: return True
        if n.k == 'CXXMemberCallExpr' and n.f in P.decls and P.decls[n.f]['n'] == 'open':
            for x in n.walk():
                if M.key(x, f) == key: return True
    return False

def entries(P):
    """(config class) -> option -> (default, description, node)"""
    out = {}
    for f in P.funcs.values():
        if not f.cls or not P.derives(f.cls, 'travatar::ConfigBase'): continue
        for n in f.nodes():
            if n.k in CALLS and n.f in P.decls and P.decls[n.f]['n'] == 'AddConfigEntry':
                a = [literal(x) for x in call_args(n)]
                if len(a) == 3 and a[0]: out.setdefault(f.cls, {})[a[0]] = (a[1], a[2], n)
    return out

def defaults(P, R, M, accepted):
    ent = entries(P)
    R.set('options_declared', sum(len(v) for v in ent.values()))
    # where an option's value is compared: directly, or as an argument / element
    opt = {}
    for (fid, key), names in accepted.items():
        if key[0] == 'opt' and key[1]: opt.setdefault((key[1], key[2]), []).append((names, P.funcs[fid], used_as_file(P, M, P.funcs[fid], key)))
    for f in P.funcs.values():
        for n in f.nodes():
            if n.k not in CALLS or n.f not in P.funcs: continue
            g = P.funcs[n.f]
            for i, a in enumerate(call_args(n)):
                if a is None or i >= len(g.params): continue
                k = M.key(a, f)
                if not k or k[0] != 'opt': continue
                nm = accepted.get((g.id, ('path', f'v{g.params[i]["v"]}')))
                if nm is None:
                    # a callee that splits off a part of it before comparing
                    continue
                opt.setdefault((k[1], k[2]), []).append((nm, g, False))
    for (cls, name), uses in sorted(opt.items(), key=str):
        e = ent.get(cls, {}).get(name)
        if e is None: continue
        names = set().union(*[u[0] for u in uses])
        if any(u[2] for u in uses) or len(names) < 2: continue
        R.count('options_with_named_values')
        if e[0] and e[0] not in names: R.violation(f'{cls}|{name}|default', f'option {name} of {short(cls)}: its default "{e[0]}" is not one of the names the code knows ({", ".join(sorted(names))})', e[2].fn.loc(e[2]))
        m = re.search(r'\(((?:[a-z0-9]+[a-z0-9-]*)(?:/[a-z0-9]+[a-z0-9-]*)+)\b', e[1] or '')
        if m:
            for v in m.group(1).split('/'):
                R.count('documented_names')
                if v not in names and not (v == 'true' and 'true:' in e[1]): R.violation(f'{cls}|{name}|{v}', f'option {name} of {short(cls)}: "{v}" is documented but not one of the names the code knows ({", ".join(sorted(names))})', e[2].fn.loc(e[2]))

class Default(Forward):
    """state: True after a certain switch went to its default"""
    def __init__(self, blk): self.blk = blk
    def join(self, a, b): return a or b
    def transfer(self, fn, n, st):
        if isinstance(n, Node) and n.k == 'CallExpr' and n.f in self.P.decls and self.P.decls[n.f]['n'] in EXITS: return None
        return st
    def switch_edge(self, fn, B, case, st):
        if B.id != self.blk: return st
        return True if case == 'default' or case is None else None

def switches(P, R):
    for f in P.funcs.values():
        if '/lm/' in f.file or not f.cfg: continue
        for b, B in f.cfg.items():
            if B.term != 'SwitchStmt' or B.cond is None: continue
            x = strip(B.cond); t = P.strip_ref(x.t)
            if P.T(t)['k'] != 'enum': R.count('switches_over_numbers'); continue
            R.count('switches_over_enumerations')
            name = P.ts(t).replace('const ', '').replace('enum ', '').strip()
            handled = {f.cfg[s].case for s in B.succ if s in f.cfg} - {None, 'default'}
            R.count('cases_handled', len(handled))
            D = Default(b); D.P = P
            normal, thrown, ins = D.run(f, False)
            if not normal: R.count('switches_with_an_error_for_the_rest'); continue
            en = P.enums.get(name)
            if en is None:
                if f.decl.get('n', '').startswith('~'): continue           # the constructor decided
                R.violation(f'{f.q}|switch {name}', f'{short(f.q)}: the switch over {name} goes on without an error for the values it has no case for', f.loc(x)); continue
            rest = sorted(k for k, v in en.items() if v not in handled and not re.match(r'(NONE|UNSET|UNKNOWN)', k.split('::')[-1]))
            if rest: R.violation(f'{f.q}|switch {name}', f'{short(f.q)}: the switch over {name} does nothing, without an error, for {", ".join(rest)}', f.loc(x))
