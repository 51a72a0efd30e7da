"""The debugging level changes nothing but what is printed as diagnostics."""
from ..effects import *
from .. import vtypes, cdep
from .c19 import lazy

LEVEL = 'other'
EXPLAIN = ('Taint analysis from the debugging level: wherever its value goes (locals, fields, arguments, results) and every branch it decides; everything control dependent on such a '
           'branch is checked with the may-modify analysis to change nothing but the diagnostic stream and its own temporaries, to write no main output, and to raise no error. '
           'Conditions of assertions, which a release build drops, are checked the same way.')
SRC = 'travatar::GlobalVars::debug'
ENDS = {'exit', 'abort', '_exit', 'quick_exit', 'terminate'}
RAND = {'rand', 'random', 'srand', 'srandom', 'drand48', 'lrand48'}

def closure(P, direct):
    """functions that can reach one in direct"""
    callers = {}
    for f in P.funcs.values():
        for n in f.nodes():
            if n.k in CALLS:
                for t in P.targets(n): callers.setdefault(t.id, set()).add(f.id)
            elif n.k in CTORS and n.f in P.funcs: callers.setdefault(n.f, set()).add(f.id)
    out = set(direct); st = list(out)
    while st:
        x = st.pop()
        for c in callers.get(x, ()):
            if c not in out: out.add(c); st.append(c)
    return out

class Taint:
    def __init__(self, P, R):
        self.P = P; self.R = R; self.nodes = {}; self.work = []
        self.vars = set(); self.fields = set(); self.rets = set(); self.branches = {}; self.bad = []
        self.reads_v = {}; self.reads_f = {}; self.calls = {}
        for f in P.funcs.values():
            for n in f.nodes():
                if n.k == 'DeclRefExpr' and n.v is not None: self.reads_v.setdefault((f.id, n.v), []).append(n)
                elif n.k == 'MemberExpr' and n.m: self.reads_f.setdefault(n.m, []).append(n)
                if n.k in CALLS:
                    for t in P.targets(n): self.calls.setdefault(t.id, []).append(n)
        self.sources = 0
        for f in P.funcs.values():
            for n in f.nodes():
                if (n.k in ('DeclRefExpr', 'MemberExpr')) and n.g == SRC:
                    p = n.p
                    if p is not None and p.k == 'BinaryOperator' and p.op == '=' and p.c[0] is n: continue
                    self.sources += 1; self.mark(n)
        while self.work: self.step(self.work.pop())
    def mark(self, n):
        if (n.fn.id, n.i) in self.nodes: return
        self.nodes[(n.fn.id, n.i)] = n; self.work.append(n)
    def var(self, fid, v):
        if (fid, v) in self.vars: return
        self.vars.add((fid, v))
        for r in self.reads_v.get((fid, v), ()):
            q = r.p
            if q is not None and q.k in ('BinaryOperator',) and q.op == '=' and q.c[0] is r: continue
            self.mark(r)
    def step(self, n):
        P = self.P; fn = n.fn
        for b, B in fn.cfg.items():
            if B.cond is n and len(set(B.succ)) > 1: self.branches[(fn.id, b)] = n
        p = n.p
        if p is None: return
        k = p.k
        if k in ('BinaryOperator', 'CompoundAssignOperator') and p.op in WRITE:
            if p.c[0] is n: return
            d = p.c[0]
            if d.k == 'DeclRefExpr' and d.v is not None: self.var(fn.id, d.v)
            elif d.k == 'MemberExpr' and d.m:
                if d.m not in self.fields:
                    self.fields.add(d.m)
                    for r in self.reads_f.get(d.m, ()): self.mark(r)
            elif d.g == SRC or d.g: pass
            else: self.bad.append((n, 'is stored where it cannot be followed'))
            return
        if k in ('BinaryOperator', 'UnaryOperator', 'ConditionalOperator', 'ParenExpr') or k in CASTS: self.mark(p); return
        if k == 'VarDecl' and p.v is not None: self.var(fn.id, p.v); return
        if k == 'ReturnStmt':
            if fn.id not in self.rets:
                self.rets.add(fn.id)
                for c in self.calls.get(fn.id, ()): self.mark(c)
            return
        if k in CALLS or k in CTORS:
            ts = P.targets(p) if k in CALLS else ([P.funcs[p.f]] if p.f in P.funcs else [])
            args = call_args(p) if k in CALLS else list(p.c)
            if ts:
                for t in ts:
                    for a, pr in zip(args, t.params):
                        if a is n: self.var(t.id, pr['v'])
                return
            d = P.decls.get(p.f) if p.f else None
            if d and d['n'] == 'operator<<': return     # printed; where to is the region's business
            self.bad.append((n, f'is handed to {d["n"] if d else "code"} outside the sources')); return
        if k == 'InitListExpr' or k == 'ArraySubscriptExpr' or k == 'MaterializeTemporaryExpr': self.mark(p); return
        # statement conditions are handled through the control-flow graph

def run(P, R, tier):
    vtypes.install(P)
    E = Effects(P, locks=False, deepcopies=True); E.solve()
    R.rule('nothing whose execution depends on the debugging level modifies anything but std::cerr and temporaries of its own, writes std::cout, draws random numbers, throws, or ends the program')
    T = Taint(P, R)
    R.need(T.sources > 0, 'the debugging level is never read')
    R.count('reads_of_the_debugging_level', T.sources); R.count('branches_it_decides', len(T.branches))
    R.count('functions_analysed', len(P.funcs))
    for n, why in T.bad: R.violation(f'{n.fn.q}|debug level|{why}', f'the debugging level {why} in {short(n.fn.q)}', n.fn.loc(n))
    cout = closure(P, {f.id for f in P.funcs.values() for n in f.nodes() if n.g == 'std::cout' or (n.k == 'CallExpr' and n.f and P.decls[n.f]['n'] in ('printf', 'puts', 'putchar') and not P.decls[n.f].get('cls'))})
    ends = closure(P, {f.id for f in P.funcs.values() for n in f.nodes() if n.k == 'CallExpr' and n.f and P.decls[n.f]['n'] in ENDS and not P.decls[n.f].get('cls')})
    rnd = closure(P, {f.id for f in P.funcs.values() for n in f.nodes() if n.k == 'CallExpr' and n.f and P.decls[n.f]['n'] in RAND and not P.decls[n.f].get('cls')})
    regions = {}
    for (fid, b), n in T.branches.items():
        regions.setdefault(fid, set()).update(cdep.controlled(P.funcs[fid], b))
    # a function every call of which is in such a region is part of it through its effects
    for fid, blocks in sorted(regions.items()):
        f = P.funcs[fid]
        els = []; inreg = set()
        for b in blocks:
            for e in f.cfg[b].els:
                if isinstance(e, Node): els.append(e)
        for e in els:
            for x in e.walk(): inreg.add(x.i)
        # declarations appear as statements
        R.count('functions_with_such_code'); R.count('expressions_checked', len(els))
        check(P, R, E, f, els, inreg, 'the debugging level', cout, ends, rnd, T)
    # assertions
    for f in P.funcs.values():
        if '/src/test/' in f.file or '/lm/' in f.file: continue
        for n in f.nodes():
            if n.k == 'ConditionalOperator' and any(m.k == 'CallExpr' and m.f and P.decls[m.f]['n'] == '__assert_fail' for c in n.c[1:] if c is not None for m in c.walk()):
                R.count('assertions')
                els = list(n.c[0].walk())
                check(P, R, E, f, els, {x.i for x in els}, 'assertions being compiled in', cout, ends, rnd, T)

def check(P, R, E, f, els, inreg, on, cout, ends, rnd, T):
    L = Local(E, f); L.run()
    S = L.region(els)
    for key, why in sorted(S.mods.items(), key=str):
        loc, tg = key
        if isinstance(loc[0], tuple):
            v = loc[0][1]
            if loc[0][0] == 'n':
                if v in inreg: continue
                site = f.node(why[1]); made = f.node(v)
                R.violation(f'{f.q}|object|{on}', f'{short(f.q)}: whether the object made at line {f.loc(made).rsplit(":", 1)[-1]} is modified ({why[2]}) depends on {on}', f.loc(site), trace(E, *why[3]) if why[3] else ())
                continue
            reads = T.reads_v.get((f.id, v), ())
            if all(r.i in inreg for r in reads): continue
            what = f.varname(v)
        else:
            if loc[0] in ('g:std::cerr', 'g:std::clog'): continue
            if loc[0] == 'g:travatar::Dict::wids_': R.count('names_interned'); continue   # gives a word a number, which says nothing
            what = show(loc)
        if why[3] is not None and lazy(P, E, why[3][0], why[3][1]): R.count('filled_in_on_demand'); continue
        site = f.node(why[1])
        R.violation(f'{f.q}|{what}|{on}', f'{short(f.q)}: whether {what} is modified ({why[2]}) depends on {on}', f.loc(site),
                    trace(E, *why[3]) if why[3] else ())
    for e in els:
        if e.k == 'CXXThrowExpr': R.violation(f'{f.q}|throw|{on}', f'{short(f.q)}: whether an error is raised depends on {on}', f.loc(e))
        elif e.k == 'ReturnStmt' and e.c and e.c[0] is not None and f.id not in T.rets and P.T(f.decl.get('rt', -1))['s'] != 'void':
            rets = {expr(r.c[0]) for r in f.nodes() if r.k == 'ReturnStmt' and r.c}
            if len(rets) > 1 or not rets: R.violation(f'{f.q}|return|{on}', f'{short(f.q)}: what is returned depends on {on}', f.loc(e))
        elif e.g == 'std::cout': R.violation(f'{f.q}|cout|{on}', f'{short(f.q)}: whether something is written to the main output depends on {on}', f.loc(e))
        elif e.k in CALLS or e.k in CTORS:
            ts = P.targets(e) if e.k in CALLS else ([P.funcs[e.f]] if e.f in P.funcs else [])
            nm = P.decls[e.f]['n'] if e.f in P.decls else ''
            glob = e.k == 'CallExpr' and e.f in P.decls and not P.decls[e.f].get('cls')
            for s, w in ((cout, 'something is written to the main output'), (ends, 'the program ends'), (rnd, 'a random number is drawn')):
                if any(t.id in s for t in ts): R.violation(f'{f.q}|{nm}|{w}', f'{short(f.q)}: whether {w} (by {nm}) depends on {on}', f.loc(e))
            if glob and nm in ENDS | RAND: R.violation(f'{f.q}|{nm}|ends', f'{short(f.q)}: whether {nm} is called depends on {on}', f.loc(e))

def expr(n):
    return ' '.join(f'{x.k}{x.v or ""}{x.m or ""}{x.g or ""}{x.val if x.val is not None else ""}' for x in n.walk()) if n is not None else ''
