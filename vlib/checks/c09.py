"""Files read in step; records that were really read."""
from ..flow import *
from ..prog import *
from ..paths import path
from .. import loops as LP

LEVEL = 'other'
EXPLAIN = ('Finite abstract interpretation of every loop that reads records from two or more inputs (each read succeeds or not, flags and counters derived from that are followed exactly): '
           'no iteration in which one input delivered a record and another had none may end in anything but an error. And a dataflow analysis of every single read: its text is not used unless it is known to have been read.')
EXITS = {'exit', 'abort', '_exit', 'terminate'}

def is_stream(P, t):
    t = P.strip_ref(t)
    if P.is_ptr(t): t = P.pointee(t)
    n = P.tname(t) or ''
    return 'istream' in n or 'ifstream' in n or 'InputFileStream' in n or 'basic_fstream' in n or 'iostream' in n
def in_memory(P, t):
    n = P.tname(P.strip_ref(t)) or ''
    return 'stringstream' in n

class Reads:
    def __init__(self, P):
        self.P = P; self.readers = {}
        # project functions that read a record from a stream they are given, and say whether they could
        for _ in range(4):
            for f in P.funcs.values():
                for i, p in enumerate(f.params):
                    if (f.id, i) in self.readers or not is_stream(P, p['t']) or P.is_const_ref(p['t']): continue
                    rt = P.T(f.decl.get('rt', -1))
                    if not (rt['k'] == 'ptr' or rt['s'] in ('bool', 'int') or (rt.get('tn') in SMART)): continue
                    for n in f.nodes():
                        r = self.read(n, f)
                        if r and r[1] == f'v{p["v"]}': self.readers[(f.id, i)] = 1
    def read(self, n, f):
        """(node, path of the stream, node that names it) when n reads a record from a stream that is a file"""
        P = self.P
        if n.k not in CALLS or n.f is None or n.f not in P.decls: return None
        d = P.decls[n.f]
        if d['n'] == 'getline':
            a = call_args(n)
            s = a[0] if a and n.k == 'CallExpr' else call_obj(n)
            if s is None or in_memory(P, s.t): return None
            k = path(s, f, P)
            return (n, k or f'?{n.i}', s)
        for t in P.targets(n):
            for i, a in enumerate(call_args(n)):
                if (t.id, i) in self.readers and a is not None and not in_memory(P, a.t):
                    k = path(a, f, P)
                    return (n, k or f'?{n.i}', a)
        return None

def loops(fn):
    """natural loops: header -> blocks"""
    cfg = fn.cfg; order = Forward()._rpo(fn)
    dom = {}
    ids = sorted(order, key=order.get)
    allb = set(ids)
    for b in ids: dom[b] = set(allb)
    dom[fn.entry] = {fn.entry}; ch = True
    while ch:
        ch = False
        for b in ids:
            if b == fn.entry: continue
            ps = [p for p in cfg[b].pred if p in dom and p in allb]
            n = set.intersection(*[dom[p] for p in ps]) if ps else set()
            n = n | {b}
            if n != dom[b]: dom[b] = n; ch = True
    out = {}
    for b in ids:
        for s in cfg[b].succ:
            if s in dom.get(b, ()):
                body = out.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(p for p in cfg[x].pred if p in allb)
    return out

UNK = None
class Step:
    """explores one iteration; a state is (block, index, values of tracked variables, any read worked, any read failed, pending value)"""
    def __init__(self, C, fn, body, header, tracked):
        self.C = C; self.P = C.P; self.fn = fn; self.body = body; self.header = header; self.tracked = tracked
    def ev(self, n, env, vals):
        """value of n: an int, or UNK"""
        P = self.P
        if n is None: return UNK
        if n.i in vals: return vals[n.i]
        if ('n', n.i) in env: return env[('n', n.i)]
        k = n.k
        if k in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral') and n.val is not None:
            try: return int(n.val)
            except (TypeError, ValueError): return UNK
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'): return 0
        if k == 'DeclRefExpr' and n.v is not None: return env.get(n.v, UNK)
        if k in CASTS or k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'): return self.ev(n.c[0], env, vals) if n.c else UNK
        if k in CTORS and len([c for c in n.c if c is not None]) >= 1 and (P.tname(n.t) in SMART): return self.ev(n.c[0], env, vals)
        if k == 'UnaryOperator':
            x = self.ev(n.c[0], env, vals)
            if x is UNK: return UNK
            return {'!': int(not x), '-': -x, '+': x}.get(n.op, UNK)
        if k == 'CXXOperatorCallExpr':
            d = P.decls.get(n.f, {})
            if n.op == '!': 
                x = self.ev(n.c[0], env, vals); return UNK if x is UNK else int(not x)
            if n.op in ('==', '!=') and len(n.c) == 2 and any(P.tname(c.t) in SMART for c in n.c if c is not None): return self.bin(n, env, vals)
            return UNK
        if k == 'CXXMemberCallExpr':
            nm = P.decls.get(n.f, {}).get('n', '')
            if nm in ('operator bool', 'get', 'good', 'operator void *'): return self.ev(n.c[0], env, vals)
            if nm == 'fail':
                x = self.ev(n.c[0], env, vals); return UNK if x is UNK else int(not x)
            return UNK
        if k == 'BinaryOperator': return self.bin(n, env, vals)
        if k == 'ConditionalOperator':
            x = self.ev(n.c[0], env, vals)
            if x is UNK: return UNK
            return self.ev(n.c[1] if x else n.c[2], env, vals)
        return UNK
    def bin(self, n, env, vals):
        o = n.op
        a = self.ev(n.c[0], env, vals); b = self.ev(n.c[1], env, vals)
        if o == '&&':
            if a == 0 or b == 0: return 0
            return UNK if a is UNK or b is UNK else 1
        if o == '||':
            if a not in (UNK, 0) or b not in (UNK, 0): return 1
            return UNK if a is UNK or b is UNK else 0
        if o == '=': return b
        if o == ',': return b
        if a is UNK or b is UNK: return UNK
        try: return {'+': a + b, '-': a - b, '*': a * b, '==': int(a == b), '!=': int(a != b), '<': int(a < b), '>': int(a > b), '<=': int(a <= b), '>=': int(a >= b), '&': a & b, '|': a | b, '^': a ^ b}.get(o, UNK)
        except TypeError: return UNK
    def run(self):
        """list of (kind, block, trace of reads) where an iteration ends with some reads done and some failed"""
        fn = self.fn; cfg = fn.cfg; bad = []; seen = set(); n = 0
        st = [(self.header, (), (), (), True)]
        while st:
            b, env, oks, fails, first = st.pop()
            if b == self.header and not first or b not in self.body:
                if oks and fails: bad.append((b, oks, fails))
                if b == self.header or b not in self.body:
                    # leaving by an error is what is wanted: follow to see whether it is one
                    continue
            key = (b, env, oks, fails)
            if key in seen: continue
            seen.add(key); n += 1
            if n > 60000: raise RuntimeError('too many states')
            # states can split inside the block at each read
            cur = [(dict(env), {}, set(oks), set(fails))]
            B = cfg[b]; dead = False
            for e in B.els:
                if not isinstance(e, Node): continue
                r = self.C.read(e, fn)
                nxt = []
                for env1, vals, o, f in cur:
                    if r:
                        for okv in (1, 0):
                            e2 = dict(env1); e2[('n', e.i)] = okv
                            nxt.append((e2, dict(vals), o | {r[1]} if okv else set(o), set(f) if okv else f | {r[1]}))
                        continue
                    if e.k == 'DeclStmt':
                        for d in e.c:
                            if d is not None and d.k == 'VarDecl' and d.v in self.tracked: env1[d.v] = self.ev(d.c[0] if d.c else None, env1, vals)
                    elif e.k == 'VarDecl' and e.v in self.tracked: env1[e.v] = self.ev(e.c[0] if e.c else None, env1, vals)
                    elif e.k == 'BinaryOperator' and e.op == '=' and e.c[0].k == 'DeclRefExpr' and e.c[0].v in self.tracked: env1[e.c[0].v] = self.ev(e.c[1], env1, vals)
                    elif e.k == 'CompoundAssignOperator' and e.c[0].k == 'DeclRefExpr' and e.c[0].v in self.tracked:
                        a, x = env1.get(e.c[0].v), self.ev(e.c[1], env1, vals)
                        env1[e.c[0].v] = UNK if a is UNK or x is UNK else {'+=': a + x, '-=': a - x, '&=': a & x, '|=': a | x, '*=': a * x}.get(e.op, UNK)
                    elif e.k == 'UnaryOperator' and e.op in ('++', '--') and e.c[0].k == 'DeclRefExpr' and e.c[0].v in self.tracked:
                        a = env1.get(e.c[0].v); env1[e.c[0].v] = UNK if a is UNK else max(-9, min(9, a + (1 if e.op == '++' else -1)))
                    elif e.k == 'CXXMemberCallExpr' and e.f in self.P.decls and self.P.decls[e.f]['n'] == 'reset' and e.c[0].k == 'DeclRefExpr' and e.c[0].v in self.tracked:
                        a = call_args(e); env1[e.c[0].v] = self.ev(a[0], env1, vals) if a else 0
                    if e.k in ('BinaryOperator', 'ConditionalOperator', 'CXXOperatorCallExpr', 'UnaryOperator') or e.k in CTORS or e.k in CASTS or e.k == 'CXXMemberCallExpr':
                        v = self.ev(e, env1, vals)
                        if v is not UNK: vals = dict(vals); vals[e.i] = v
                    nxt.append((env1, vals, o, f))
                cur = nxt
                if e.k == 'CXXThrowExpr' or (e.k == 'CallExpr' and e.f in self.P.decls and self.P.decls[e.f]['n'] in EXITS): dead = True; break
            if dead or B.throws: continue
            ss = [s for s in B.succ]
            for env1, vals, o, f in cur:
                # keep values of operands that a later block's condition refers to
                carry = {k: v for k, v in env1.items() if v is not UNK}
                tgt = []
                if len(ss) == 2 and B.cond is not None and B.term not in ('SwitchStmt', 'CXXTryStmt'):
                    v = self.ev(B.cond, env1, vals)
                    lit = B.cond
                    if v is UNK: tgt = ss
                    else: tgt = [ss[0] if v else ss[1]]
                else: tgt = ss
                for s in tgt:
                    if s not in cfg: continue
                    st.append((s, tuple(sorted(carry.items(), key=str)), tuple(sorted(o)), tuple(sorted(f)), False))
        # an exit from the loop that only leads to an error is an error
        return [x for x in bad if not (x[0] not in self.body and only_errors(fn, x[0], self.P))]

def only_errors(fn, b, P):
    """every way on from block b ends in an error"""
    seen = set(); st = [b]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x == fn.exit: return False
        B = fn.cfg[x]
        if B.throws: continue
        if any(isinstance(e, Node) and e.k == 'CallExpr' and e.f in P.decls and P.decls[e.f]['n'] in EXITS for e in B.els): continue
        st.extend(s for s in B.succ if s in fn.cfg)
    return True

def tracked_vars(C, fn, body):
    """locals whose value comes from whether reads worked"""
    P = C.P; tr = set(); ch = True
    while ch:
        ch = False
        for n in fn.nodes():
            tgt = src = None
            if n.k == 'VarDecl' and n.c and n.c[0] is not None: tgt, src = n.v, n.c[0]
            elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>=') and n.c[0].k == 'DeclRefExpr': tgt, src = n.c[0].v, n.c[1]
            elif n.k == 'CXXMemberCallExpr' and n.f in P.decls and P.decls[n.f]['n'] == 'reset' and n.c[0].k == 'DeclRefExpr' and call_args(n): tgt, src = n.c[0].v, call_args(n)[0]
            if tgt is None or tgt in tr: continue
            t = P.T(fn.vartype(tgt))
            if not (t['s'].replace('const ', '') in ('bool', 'int', 'unsigned int', 'unsigned long', 'long', 'char') or t['k'] == 'ptr' or t.get('tn') in SMART): continue
            for x in src.walk():
                if C.read(x, fn) or (x.k == 'DeclRefExpr' and x.v in tr): tr.add(tgt); ch = True; break
            if tgt not in tr:
                # counters that are moved by such a decision
                pass
    # flags and counters set under a decision about a read
    for n in fn.nodes():
        if n.k == 'IfStmt' and n.c and n.c[0] is not None:
            if any(C.read(x, fn) or (x.k == 'DeclRefExpr' and x.v in tr) for c in n.c[:1] for x in c.walk()):
                for c in n.c[1:]:
                    if c is None: continue
                    for x in c.walk():
                        if x.k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and (x.op in ('=', '+=', '++')) and x.c[0].k == 'DeclRefExpr' and P.ts(fn.vartype(x.c[0].v)).replace('const ', '') in ('bool', 'int'): tr.add(x.c[0].v)
    return tr

class Text(Forward):
    """locals whose text was asked for from a stream without looking whether it was delivered"""
    def __init__(self, C, fn, report): self.C = C; self.P = C.P; self.fn = fn; self.report = report
    def join(self, a, b): return a | b
    def transfer(self, fn, n, st):
        if not isinstance(n, Node): return st
        P = self.P
        if n.k == 'CallExpr' and n.f in P.decls and P.decls[n.f]['n'] == 'getline':
            a = call_args(n)
            k = path(a[1], fn, P) if len(a) > 1 else None
            if k:
                st = frozenset(x for x in st if x[0] != k)
                if not self.looked_at(n): st = st | {(k, n.i)}
            return st
        if st and n.k in ('DeclRefExpr', 'MemberExpr'):
            k = path(n, fn, P)
            hit = [x for x in st if x[0] == k]
            if hit:
                p = n.p
                while p is not None and (p.k in CASTS or p.k == 'ParenExpr'): p = p.p
                if p is not None and p.k == 'CallExpr' and p.f in P.decls and P.decls[p.f]['n'] == 'getline': return st
                if p is not None and p.k in ('BinaryOperator', 'CXXOperatorCallExpr') and p.op == '=' and p.c[0] is n: return frozenset(x for x in st if x not in hit)
                for h in hit: self.report(n, h)
        return st
    def looked_at(self, n):
        p = n.p; x = n
        while p is not None:
            if p.k in CASTS or p.k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') : x = p; p = p.p; continue
            if p.k == 'CXXMemberCallExpr' and p.c[0] is x: return True
            if p.k in ('CompoundStmt',): return False
            if p.k in ('IfStmt', 'WhileStmt', 'ForStmt', 'DoStmt', 'SwitchStmt', 'CaseStmt'):
                # condition or body?
                conds = {'IfStmt': 0, 'WhileStmt': 0}
                if p.k == 'ForStmt': return len(p.c) > 1 and p.c[1] is x
                if p.k == 'DoStmt': return p.c[-1] is x
                return p.c[0] is x
            return True
        return False

def run(P, R, tier):
    R.rule('where records are read in step from two or more files, an iteration in which one had a record and another had none ends in an error')
    R.rule('text asked for from a stream is not used unless it is known to have been delivered')
    C = Reads(P)
    R.count('project_record_readers', len({k[0] for k in C.readers}))
    nread = 0
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if '/lm/' in f.file or '/src/test/' in f.file: continue
        rs = [r for n in f.nodes() for r in [C.read(n, f)] if r]
        nread += len(rs)
        if rs and f.cfg:
            def rep(n, h, f=f):
                if reaches_end(f, n, P): R.violation(f'{f.q}|text {f.varname(int(h[0][1:])) if h[0][1:].isdigit() else h[0]}', f'{short(f.q)} uses text read at line {f.node(h[1]).l} without looking whether there was any', f.loc(n))
            Text(C, f, rep).run(f, frozenset(), )
        if len({r[1] for r in rs}) < 2: continue
        against(P, R, C, f)
        lp = loops(f)
        tr = None
        for h, body in sorted(lp.items()):
            ks = {}
            for b in body:
                for e in f.cfg[b].els:
                    if isinstance(e, Node):
                        r = C.read(e, f)
                        if r: ks.setdefault(r[1], r)
            if len(ks) < 2: continue
            # loops that only contain whole reading loops of single files are not reading in step
            inner = [bb for hh, bb in lp.items() if hh != h and bb < body]
            if tr is None: tr = tracked_vars(C, f, body)
            R.count('loops_reading_in_step'); R.count('inputs_read_in_step', len(ks))
            R.sample(f'{f.loc()}: {short(f.q)} reads {len(ks)} inputs in step')
            for b, oks, fails in Step(C, f, body, h, tr).run():
                l = next((e.l for e in f.cfg[b].els if isinstance(e, Node)), f.line) if b in f.cfg else f.line
                nm = lambda k: (f.varname(int(k[1:].rstrip('[]'))) if k.startswith('v') and k[1:].rstrip('[]').isdigit() else k)
                R.violation(f'{f.q}|{",".join(nm(k) for k in sorted(fails))} ends first', f'{short(f.q)}: when {", ".join(nm(k) for k in sorted(fails))} ends while {", ".join(nm(k) for k in sorted(oks))} still has records, no error is raised', f.loc())
    R.count('record_reads', nread)
    R.need(nread > 0, 'no reading of records found')

def against(P, R, C, f):
    """a file read against records loaded before: one that is longer is an error, one that is shorter is noticed"""
    def reading(lp): return any(C.read(x, f) for c in (lp.c[:-1] if lp.k != 'DoStmt' else lp.c[1:]) if c is not None for x in c.walk())
    lps = [n for n in f.nodes() if n.k in ('WhileStmt', 'ForStmt') and reading(n)]
    if len(lps) < 2: return
    filled = {}
    for lp in lps:
        for n in LP.body(lp).walk():
            if n.k == 'CXXMemberCallExpr' and n.c and n.f in P.decls and P.decls[n.f]['n'] in ('push_back', 'emplace_back'):
                p = path(n.c[0], f, P)
                if p: filled.setdefault(p, lp)
    for lp in lps:
        inside = {x.i for x in lp.walk()}
        for n in LP.body(lp).walk():
            if not (n.k == 'CXXOperatorCallExpr' and n.op == '[]' and len(n.c) == 2): continue
            v = path(n.c[0], f, P); c = LP.strip(n.c[1])
            if v not in filled or filled[v] is lp or c is None or c.k != 'DeclRefExpr' or c.v is None: continue
            ws = LP.writes(f, c.v, lp)
            if len(ws) != 1 or ws[0].op != '++': continue
            R.count('files_read_against_loaded_records')
            def cmps(within):
                for b, B in f.cfg.items():
                    if B.cond is None: continue
                    k, pol = negate(B.cond); k = LP.strip(k)
                    if k is None or k.k != 'BinaryOperator' or k.op not in ('<', '>', '<=', '>=', '==', '!=') or (k.i in inside) != within: continue
                    a, z = LP.strip(k.c[0]), LP.strip(k.c[1]); op = k.op
                    if not (a is not None and a.k == 'DeclRefExpr' and a.v == c.v): a, z = z, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                    if not (a is not None and a.k == 'DeclRefExpr' and a.v == c.v): continue
                    if LP.size_of(z, f, P) != (v, 0): continue
                    yield b, op, pol, k
            nm = f.varname(int(v[1:])) if v[1:].isdigit() else v
            key = f'{f.q}|{nm}'
            ins = list(cmps(True)); good = False; soft = None
            for b, op, pol, k in ins:
                over = {'>=': True, '==': True, '<': False, '!=': False}.get(op)
                if over is None: continue
                t = f.cfg[b].succ[0 if over == pol else 1]
                if t in f.cfg and only_errors(f, t, P): good = True
                else: soft = k
            def given(within):
                return any(x.k == 'DeclRefExpr' and x.v == c.v and (x.i in inside) == within and x.i > lp.i and any(q.k in CALLS and q.f in P.funcs and any(z is not None and any(w is x for w in z.walk()) for z in call_args(q)) or q.k == 'VarDecl' for q in x.ancestors()) for x in f.nodes())
            if not good and (soft is not None or not given(True)): R.violation(key + '|longer', f'{short(f.q)}: a file with more records than there are in {nm} is not an error', f.loc(soft if soft is not None else n))
            if not any(op in ('==', '!=', '<', '>=') for b, op, pol, k in cmps(False)) and not given(False): R.violation(key + '|shorter', f'{short(f.q)} does not notice that a file has fewer records than there are in {nm}', f.loc(lp))

def reaches_end(f, n, P):
    """can the function carry on normally after n?"""
    for b, B in f.cfg.items():
        for i, e in enumerate(B.els):
            if e is n:
                if B.throws: return False
                for e2 in B.els[i:]:
                    if isinstance(e2, Node) and e2.k == 'CXXThrowExpr': return False
                return not all(only_errors(f, s, P) for s in B.succ if s in f.cfg)
    return True
