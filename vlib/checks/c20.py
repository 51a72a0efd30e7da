"""Each language model is used as the kind it is, and its scores are counted under its own name, weight and factor."""
import re
from ..flow import *
from ..prog import *
from ..paths import single_init
from ..loops import strip
from .c18 import local as project

LEVEL = 'other'
EXPLAIN = ('Role analysis of everything that has to do with language models. Kind: a dataflow over tests of the model kind works out, at every place that names a model class, for which kinds the place is reached; it has to be '
           'the one kind that class belongs to, and each place that tells kinds apart has to handle all of them. Counting: probabilities, numbers of unknown words, weights, feature names, factors and chart states are followed '
           'from where they arise through variables, attributes and helper functions (in every calling context), together with the model they belong to; wherever two meet, they have to belong together.')

MODEL = re.compile(r'\blm::ngram::(\w*Model)\b')
DATA = 'travatar::LMData'
OTHER = -1

def run(P, R, tier):
    R.rule('a model class is named only where the model is known to be of that kind; every place that tells the kinds apart handles all kinds')
    R.rule('a probability is multiplied by the probability weight and a number of unknown words by the unknown-word weight, of the same model')
    R.rule('a probability is stored under the probability feature and a number of unknown words under the unknown-word feature, of the same model')
    R.rule('each score of a scoring call is counted with its weight and stored under its feature')
    R.rule('words are taken from the model\'s factor, looked up in the model\'s vocabulary; states and functions are those of the same model')
    R.rule('the weights are set from the features of those names; the options of a model are stored where they belong')
    kinds(P, R)
    Roles(P, R).check()

# ---------------------------------------------------------------- kinds
def enum_of(n, P):
    return n is not None and P.ts(P.strip_ref(n.t)).replace('const ', '').strip() == 'lm::ngram::ModelType'

class Kind(Forward):
    def __init__(s, P, dom): s.P = P; s.dom = dom
    def join(s, a, b): return a | b
    def about(s, n):
        n = strip(n)
        return n is not None and enum_of(n, s.P)
    def edge(s, fn, B, taken, cond, st):
        if cond is None: return st
        n, pol = negate(decides(cond))
        if not pol: taken = not taken
        if n is None or n.k != 'BinaryOperator' or n.op not in ('==', '!='): return st
        a, b = strip(n.c[0]), strip(n.c[1])
        v = enumerator(b, s.P)
        if v is None: a, b = b, a; v = enumerator(b, s.P)
        if v is None or not s.about(a): return st
        r = st & {v} if taken == (n.op == '==') else st - {v}
        return r or None
    def switch_edge(s, fn, B, case, st):
        c = getattr(B, 'cond', None); c = strip(c)
        if c is not None and c.k == 'DeclRefExpr' and c.v is not None and not enum_of(c, s.P):
            i = single_init(fn, c.v); c = strip(i) if i is not None else c
        if c is None or not enum_of(c, s.P): return st
        if case is None or case == 'default':
            cs = set()
            for x in B.succ:
                y = fn.cfg.get(x)
                for v in case_values(y): cs.add(v)
            r = st - cs
        else: r = st & {int(case)}
        return frozenset(r) or None

def enumerator(n, P):
    if n is None or n.k != 'DeclRefExpr' or not n.get('e') or n.val is None or not enum_of(n, P): return None
    return int(n.val)

def case_values(B):
    c = B.case if B is not None else None
    if c is None or c == 'default': return ()
    return (int(c),)

def mentions(n, P):
    """model classes named by what is done here: created, freed, converted to, or made the argument of a template"""
    out = set()
    if n.k in CASTS or n.k in ('CXXNewExpr',) or n.k in CTORS: out |= set(MODEL.findall(P.ts(n.t)))
    if n.k == 'CXXDeleteExpr' and n.get('dt') is not None: out |= set(MODEL.findall(P.ts(n.get('dt'))))
    if n.k in CALLS + CTORS and n.f: out |= set(MODEL.findall(n.f))
    return out

def kinds(P, R):
    fns = []
    for f in sorted(P.funcs.values(), key=lambda f: f.id):
        if not project(P, f) or MODEL.search(f.id): continue
        if f.cls and MODEL.search(f.cls): continue
        if any(mentions(n, P) for n in f.nodes()): fns.append(f)
    # all kinds there are
    dom = set(); owner = {}
    for f in P.funcs.values():
        if not project(P, f): continue
        for b, B in f.cfg.items():
            if B.term == 'SwitchStmt' and B.cond is not None and enum_of(strip(B.cond), P):
                for x in B.succ: dom |= set(case_values(f.cfg.get(x)))
    R.need(len(dom) >= 2, 'no place that tells the kinds of language models apart')
    dom = frozenset(dom | {OTHER})
    seen = []
    for f in fns:
        K = Kind(P, dom); at = {}
        def visit(fn, B, el, st):
            if not isinstance(el, Node): return
            m = mentions(el, P)
            if m: at.setdefault(el.i, (el, m, set()))[2].update(st)
        K.run(f, dom, visit)
        if not at: continue
        seen.append((f, at))
    for f, at in seen:
        for x, m, st in at.values():
            if x.k == 'CXXNewExpr' and len(m) == 1 and len(st) == 1: owner.setdefault(next(iter(m)), set()).update(st)
    owner1 = {m: next(iter(s)) for m, s in owner.items() if len(s) == 1}
    taken = {}
    for m, k in owner1.items(): taken.setdefault(k, set()).add(m)
    R.need(len(owner1) >= 2 or any(len(s) > 1 for s in owner.values()), 'no place that creates a language model for each kind')
    names = {}
    for f, at in seen:
        cov = set(); nm = set()
        made = {next(iter(m)) for x, m, st in at.values() if x.k == 'CXXNewExpr' and len(m) == 1 and OTHER in st}
        for mm in sorted(made):                         # created here, of a kind that is known here
            R.count('places_that_name_a_model_class')
            for n in f.nodes():
                v = enumerator(n, P)
                if v is not None and len(made) == 1 and mm in owner1 and v != owner1[mm] and n.p is not None and n.p.k in CALLS + CTORS: R.violation(f'{f.q}:{mm}:passed', f'{short(f.q)} creates a {mm} and gives it out as of kind {v}, a {mm} is kind {owner1[mm]}', f.loc(n))
        for x, m, st in sorted(at.values(), key=lambda a: (a[0].l, a[0].i)):
            if len(m) > 1:
                if x.k in CALLS + CTORS: continue
            mm = next(iter(sorted(m)))
            if mm in made: continue
            R.count('places_that_name_a_model_class'); nm |= m
            R.sample(f'{f.loc(x)}: {mm} for kind {sorted(st)}')
            if OTHER in st:
                R.violation(f'{f.q}:{mm}:any', f'{short(f.q)} takes the language model for a {mm} without its kind being known here', f.loc(x)); continue
            cov |= st
            if mm in owner1:
                bad = st - {owner1[mm]}
                if bad: R.violation(f'{f.q}:{mm}:kind', f'{short(f.q)} takes a language model for a {mm} when it is of another kind (kind {sorted(bad)}, a {mm} is kind {owner1[mm]})', f.loc(x))
                elif len(taken[owner1[mm]]) > 1: R.violation(f'kind:{owner1[mm]}', f'one kind of language model is created as different classes: {", ".join(sorted(taken[owner1[mm]]))}', f.loc(x))
            elif mm in owner: R.violation(f'{mm}:kinds', f'a {mm} is created for different kinds of language models ({sorted(owner[mm])})', f.loc(x))
            elif len(st) > 1: R.violation(f'{f.q}:{mm}:kind', f'{short(f.q)} takes a language model for a {mm} for different kinds ({sorted(st)})', f.loc(x))
        miss = dom - {OTHER} - cov
        if len(nm) >= 2:
            R.count('places_that_tell_kinds_apart')
            if miss: R.violation(f'{f.q}:missing', f'{short(f.q)} does not handle language models of kind {sorted(miss)}, which are created and handled elsewhere', f.loc())

# ---------------------------------------------------------------- roles
SCORE = ('PROB', 'UNK'); WEIGHT = {'W_P': 'PROB', 'W_U': 'UNK'}; NAME = {'N_P': 'PROB', 'N_U': 'UNK'}; FROM = {'F_P': 'W_P', 'F_U': 'W_U'}
TEXT = {'PROB': 'the probability', 'UNK': 'the number of unknown words', 'KNOWN': 'the number of known words', 'W_P': 'the probability weight', 'W_U': 'the unknown-word weight', 'N_P': 'the probability feature', 'N_U': 'the unknown-word feature'}
GETTERS = {'GetWeight': 'W_P', 'GetUnkWeight': 'W_U', 'GetFeatureName': 'N_P', 'GetUnkFeatureName': 'N_U', 'GetFactor': 'FACTOR', 'GetType': 'TYPE', 'GetLM': 'LM'}

def differ(a, b):
    """are these two known to be different models (positions)?"""
    if a is None or b is None or a == b: return False
    ka, kb = a[0], b[0]
    if {ka, kb} <= {'const', 'var'}: return ka != kb or ka == 'const' or a[1] == b[1]
    if {ka, kb} == {'each', 'const'}: return True
    if ka == kb == 'each': return a[1] == b[1]
    return False

class Roles:
    def __init__(s, P, R):
        s.P = P; s.R = R; s.busy = set(); s.fstore = {}
        s.field = {}
        for n, role in GETTERS.items():
            for f in P.find_method(DATA, n):
                for r in f.nodes():
                    if r.k == 'ReturnStmt' and r.c:
                        m = strip(r.c[0])
                        if m is not None and m.k == 'MemberExpr' and m.m:
                            if m.m in s.field and s.field[m.m] != role: R.violation(f'{m.m}:two', f'{short(f.q)} gives the same attribute as another accessor of a language model', f.loc(r))
                            s.field.setdefault(m.m, role)
        R.need({'W_P', 'W_U', 'N_P', 'N_U', 'FACTOR'} <= set(s.field.values()), 'the accessors of a language model')
        s.callers = {}
        s.rel = []
        pat = re.compile(r'LMData|LMFunc|RuleScore|ScoreRuleRet|search::Forest')
        from .c18 import repo
        near = []
        for f in sorted(P.funcs.values(), key=lambda f: f.id):
            if not f.file.startswith(repo()) or '/kenlm/' in f.file or '/src/test/' in f.file or '/lm/' in f.file.replace('/travatar/lm', ''): continue
            hit = bool(f.cls and pat.search(f.cls))
            calls = []
            for n in f.nodes():
                if n.k in CALLS or n.k in CTORS:
                    calls.append(n)
                if not hit and (n.f and pat.search(n.f) or n.m and pat.search(n.m)): hit = True
            for n in calls:
                for g in s.targets(n): s.callers.setdefault(g.id, []).append(n)
            if hit: near.append((f, calls))
        seen = {f.id for f, _ in near}; s.rel = [f for f, _ in near]
        for f, calls in near:
            for n in calls:
                for g in s.targets(n):
                    if g.id not in seen and project(P, g) and sum(1 for _ in g.nodes()) < 80 and g.params: seen.add(g.id); s.rel.append(g)
        R.set('functions_concerned_with_language_models', len(s.rel))

    def targets(s, n):
        if n.k in CTORS: return [s.P.funcs[n.f]] if n.f in s.P.funcs else []
        return s.P.targets(n)

    def ctxs(s, f, depth=2):
        if depth == 0: return [None]
        cs = s.callers.get(f.id, ())
        if not cs or len(cs) > 12: return [None]
        out = []
        for n in cs:
            if n.fn is f: continue
            for c in s.ctxs(n.fn, depth - 1): out.append((n, c))
            if len(out) > 60: break
        return out or [None]

    def arg(s, fn, v, ctx):
        """the argument a parameter stands for"""
        if ctx is None or v not in fn.pvars: return None
        i = fn.pvars.index(v); a = call_args(ctx[0]) if ctx[0].k not in CTORS else list(ctx[0].c)
        return a[i] if i < len(a) else None

    # -- which model
    def index(s, n, ctx, d=8):
        n = strip(n)
        if n is None or d == 0: return None
        if n.k == 'IntegerLiteral': return ('const', int(n.val))
        if n.k == 'DeclRefExpr' and n.v is not None:
            if n.v in n.fn.pvars:
                a = s.arg(n.fn, n.v, ctx)
                return s.index(a, ctx[1], d - 1) if a is not None else None
            i = single_init(n.fn, n.v)
            if i is not None: return s.index(i, ctx, d - 1)
            return ('var', n.fn.id, n.v)
        if n.k == 'MemberExpr' and n.m and n.m not in s.field and s.keeps(n.m):
            if ('i', n.m) in s.busy: return None
            s.busy.add(('i', n.m))
            try: xs = {s.index(e, c, d - 1) for e, c in s.stores(n.m)}
            finally: s.busy.discard(('i', n.m))
            return next(iter(xs)) if len(xs) == 1 and next(iter(xs)) and next(iter(xs))[0] == 'const' else None
        if n.k in CASTS and n.c: return s.index(n.c[0], ctx, d - 1)
        return None

    def which(s, n, ctx, d=10):
        n = strip(n)
        if n is None or d == 0: return None
        if n.k == 'UnaryOperator' and n.op in ('*', '&'): return s.which(n.c[0], ctx, d - 1)
        if n.k == 'DeclRefExpr' and n.v is not None:
            if n.v in n.fn.pvars:
                a = s.arg(n.fn, n.v, ctx)
                return s.which(a, ctx[1], d - 1) if a is not None else None
            D = n.fn.vardecl(n.v)
            if D is not None and D.p is not None and D.p.k == 'CXXForRangeStmt': return ('each', n.fn.id, D.p.i)
            i = single_init(n.fn, n.v)
            return s.which(i, ctx, d - 1) if i is not None else None
        if n.k == 'CXXThisExpr': return s.which(call_obj(ctx[0]), ctx[1], d - 1) if ctx is not None and ctx[0].k == 'CXXMemberCallExpr' else None
        if n.k == 'CXXOperatorCallExpr' and n.op == '[]': return s.index(n.c[1], ctx)
        if n.k == 'ArraySubscriptExpr': return s.index(n.c[1], ctx)
        if n.k in CALLS and n.f:
            nm = callee_name(n, s.P)
            if nm == 'at' and len(n.c) > 1: return s.index(n.c[1], ctx)
            if nm == 'front': return ('const', 0)
            if nm == 'GetLM' and n.c: return s.which(n.c[0], ctx, d - 1)
            if nm == 'get' and n.c: return s.which(n.c[0], ctx, d - 1)
            for g in s.targets(n):
                r = [x for x in g.nodes() if x.k == 'ReturnStmt' and x.c]
                if len(r) == 1 and g in s.rel: return s.which(r[0].c[0], (n, ctx), d - 1)
        if n.k == 'MemberExpr' and n.c and s.field.get(n.m) == 'LM': return s.which(n.c[0], ctx, d - 1)
        if n.k in CASTS and n.c: return s.which(n.c[0], ctx, d - 1)
        return None

    # -- what it is: set of (role, which model, where it arose)
    def role(s, n, ctx, d=14):
        n = strip(n)
        if n is None or d == 0: return frozenset()
        k = n.k; P = s.P
        if k == 'DeclRefExpr' and n.v is not None:
            if n.v in n.fn.pvars:
                a = s.arg(n.fn, n.v, ctx)
                return s.role(a, ctx[1], d - 1) if a is not None else frozenset()
            return s.local(n.fn, n.v, ctx, d)
        if k == 'MemberExpr':
            if n.m in s.field: return frozenset({(s.field[n.m], s.which(n.c[0], ctx) if n.c else None, None)})
            if n.m.endswith('ScoreRuleRet::prob') or n.m.endswith('ScoreRuleRet::oov'):
                src = s.origin(n.c[0], 'ScoreRule')
                return frozenset({('PROB' if n.m.endswith('prob') else 'UNK', s.which(call_args(src)[0], ctx) if src is not None else None, (src.fn.id, src.i) if src is not None else None)})
            if re.match(r'std::pair<.*>::(first|second)$', n.m or '') and n.c: return s.pair(n.c[0], ctx, 0 if n.m.endswith('first') else 1, d - 1)
            return s.attribute(n.m, d - 1)
        if k == 'ConditionalOperator': return s.role(n.c[1], ctx, d - 1) | s.role(n.c[2], ctx, d - 1)
        if k == 'BinaryOperator':
            if n.op == ',' or n.op == '=': return s.role(n.c[1], ctx, d - 1)
            if n.op == '/': return frozenset((WEIGHT[r[0]], r[1], (n.fn.id, n.i)) for r in s.role(n.c[1], ctx, d - 1) if r[0] in WEIGHT)
            return frozenset()
        if k in CTORS:
            if len(n.c) == 1: return s.role(n.c[0], ctx, d - 1)
            return frozenset()
        if k == 'CXXOperatorCallExpr' and n.op == '[]':
            key = s.role(n.c[1], ctx, d - 1)
            f = frozenset(('F' + r[0][1:], r[1], None) for r in key if r[0] in NAME)
            if f: return f
            b = strip(n.c[0])
            if b is not None and b.k == 'MemberExpr' and b.m not in s.field: return s.attribute(b.m, d - 1)
            return frozenset()
        if k in CALLS and n.f:
            q = callee_q(n, P); nm = callee_name(n, P)
            if 'lm::ngram::RuleScore' in n.f and nm == 'Finish': return frozenset({('PROB', s.scorer(n.c[0], ctx), (n.fn.id, n.i))})
            if n.f.startswith(DATA + '::') and P.ts(P.decls[n.f].get('rt', -1)) in ('unsigned int', 'lm::WordIndex'): return frozenset({('WORD', s.which(call_obj(n), ctx), None)})
            if nm in ('fabs', 'abs', 'exp', 'log', 'min', 'max'): return frozenset()
            return s.called(n, ctx, d, lambda r, c: s.role(r, c, d - 1))
        return frozenset()

    def called(s, n, ctx, d, get):
        out = frozenset(); ts = s.targets(n)
        if len(ts) > 20: return out
        for g in ts:
            key = (g.id, n.i, n.fn.id)
            if key in s.busy: continue
            s.busy.add(key)
            try:
                for r in g.nodes():
                    if r.k == 'ReturnStmt' and r.c: out |= get(r.c[0], (n, ctx))
            finally: s.busy.discard(key)
        if n.get('virt') and 'LMFunc' in n.f: out = frozenset((r[0], r[1], (n.fn.id, n.i)) for r in out)
        return out

    def local(s, fn, v, ctx, d):
        key = ('v', fn.id, v)
        if key in s.busy: return frozenset()
        s.busy.add(key)
        try:
            out = frozenset()
            for n in s.sets(fn, v):
                if n.k == 'VarDecl': out |= s.role(n.c[0], ctx, d - 1) if n.c and not (n.p is not None and n.p.k == 'CXXForRangeStmt') else frozenset()
                elif n.k == 'CXXOperatorCallExpr' and n.c[0].k == 'CallExpr': out |= s.pair(n.c[1], ctx, next(i for i, a in enumerate(call_args(n.c[0])) if a.k == 'DeclRefExpr' and a.v == v), d - 1)
                elif n.op == '=': out |= s.role(n.c[1], ctx, d - 1)
                elif n.op in ('++', '+='):
                    c = s.counts(n, ctx, d)
                    out |= c
            return out
        finally: s.busy.discard(key)

    def sets(s, fn, v):
        c = getattr(fn, '_c20sets', None)
        if c is None:
            c = fn._c20sets = {}
            for n in fn.nodes():
                if n.k == 'VarDecl' and n.v is not None: c.setdefault(n.v, []).append(n)
                elif n.k == 'CXXOperatorCallExpr' and n.op == '=' and n.c[0] is not None and n.c[0].k == 'CallExpr' and callee_name(n.c[0], s.P) == 'tie':
                    for a in call_args(n.c[0])[:2]:
                        if a.k == 'DeclRefExpr' and a.v is not None: c.setdefault(a.v, []).append(n)
                elif n.k in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator', 'CXXOperatorCallExpr') and n.op in ('=', '+=', '++') and n.c and n.c[0] is not None and n.c[0].k == 'DeclRefExpr' and n.c[0].v is not None: c.setdefault(n.c[0].v, []).append(n)
        return c.get(v, ())

    def counts(s, n, ctx, d):
        """a counter that goes up when a word is not known to the model"""
        if n.op == '+=':
            z = s.zero(n.c[1], ctx, d)
            if z: return frozenset(((('UNK' if z[1] else 'KNOWN'), z[0], (n.fn.id, n.i)),))
            r = strip(n.c[1])
            if r is None or r.k != 'IntegerLiteral' or int(r.val) != 1: return frozenset()
        prev = n
        for a in n.ancestors():
            if a.k == 'IfStmt':
                z = s.zero(a.c[0], ctx, d)
                if z and prev in a.c[1:]:
                    inthen = a.c.index(prev) == 1
                    return frozenset((('UNK' if z[1] == inthen else 'KNOWN', z[0], (n.fn.id, n.i)),))
            if a.k == 'ConditionalOperator': break
            prev = a
        return frozenset()

    def zero(s, c, ctx, d):
        """(model, polarity) when the condition tells whether a word index is 0"""
        c, pol = negate(strip(c))
        c = strip(c)
        if c is None: return None
        if c.k == 'ConditionalOperator':
            a, b = strip(c.c[1]), strip(c.c[2])
            if a is not None and b is not None and a.k == b.k == 'IntegerLiteral' and {int(a.val), int(b.val)} == {0, 1}:
                z = s.zero(c.c[0], ctx, d)
                return (z[0], (z[1] == (int(a.val) == 1)) == pol) if z else None
        if c.k == 'BinaryOperator' and c.op in ('==', '!='):
            a, b = strip(c.c[0]), strip(c.c[1])
            if a is not None and a.k == 'IntegerLiteral': a, b = b, a
            if b is None or b.k != 'IntegerLiteral' or int(b.val) != 0: return None
            for r in s.role(a, ctx, d - 1):
                if r[0] == 'WORD': return (r[1], (c.op == '==') == pol)
            return None
        for r in (s.role(c, ctx, d - 1) if c.k in ('DeclRefExpr',) + CALLS else ()):
            if r[0] == 'WORD': return (r[1], not pol)
        return None

    def scorer(s, n, ctx):
        """the model a RuleScore object works with"""
        n = strip(n)
        if n is None or n.k != 'DeclRefExpr' or n.v is None: return None
        if n.v in n.fn.pvars:
            a = s.arg(n.fn, n.v, ctx)
            return s.scorer(a, ctx[1]) if a is not None else None
        D = n.fn.vardecl(n.v)
        c = D.c[0] if D is not None and D.c else None
        return s.which(c.c[0], ctx) if c is not None and c.k in CTORS and c.c else None

    def origin(s, n, name, d=4):
        n = strip(n)
        if n is None or d == 0: return None
        if n.k in CALLS and callee_name(n, s.P) == name: return n
        if n.k == 'DeclRefExpr' and n.v is not None:
            i = single_init(n.fn, n.v)
            return s.origin(i, name, d - 1) if i is not None else None
        return None

    def pair(s, n, ctx, w, d):
        n = strip(n)
        if n is None or d <= 0: return frozenset()
        if n.k == 'DeclRefExpr' and n.v is not None:
            if n.v in n.fn.pvars:
                a = s.arg(n.fn, n.v, ctx)
                return s.pair(a, ctx[1], w, d - 1) if a is not None else frozenset()
            out = frozenset()
            for x in s.sets(n.fn, n.v):
                if x.k == 'VarDecl':
                    if x.c and not (x.p is not None and x.p.k == 'CXXForRangeStmt'): out |= s.pair(x.c[0], ctx, w, d - 1)
                elif x.op == '=': out |= s.pair(x.c[1], ctx, w, d - 1)
            # assigned part by part
            for x in n.fn.nodes():
                if x.k == 'BinaryOperator' and x.op == '=' and x.c[0] is not None and x.c[0].k == 'MemberExpr' and re.match(r'std::pair<.*>::' + ('first' if w == 0 else 'second') + '$', x.c[0].m or '') and x.c[0].c and x.c[0].c[0].k == 'DeclRefExpr' and x.c[0].c[0].v == n.v: out |= s.role(x.c[1], ctx, d - 1)
            return out
        if n.k in CTORS:
            if len(n.c) == 1: return s.pair(n.c[0], ctx, w, d - 1)
            if len(n.c) == 2 and 'pair<' in s.P.ts(n.t): return s.role(n.c[w], ctx, d - 1)
            return frozenset()
        if n.k == 'CXXOperatorCallExpr' and n.op == '->' and n.c: return s.found(n.c[0], ctx, w, d - 1)
        if n.k in ('UnaryOperator', 'CXXOperatorCallExpr') and n.op == '*' and n.c: return s.found(n.c[0], ctx, w, d - 1)
        if n.k in CALLS and n.f:
            if callee_name(n, s.P) == 'make_pair': return s.role(call_args(n)[w], ctx, d - 1)
            return s.called(n, ctx, d, lambda r, c: s.pair(r, c, w, d - 1))
        return frozenset()

    def found(s, n, ctx, w, d):
        n = strip(n)
        if n is None or d <= 0: return frozenset()
        if n.k == 'DeclRefExpr' and n.v is not None and n.v not in n.fn.pvars:
            i = single_init(n.fn, n.v)
            return s.found(i, ctx, w, d - 1) if i is not None else frozenset()
        if n.k in CALLS and callee_name(n, s.P) == 'find' and call_args(n):
            key = s.role(call_args(n)[-1], ctx, d - 1)
            if w == 1: return frozenset(('F' + r[0][1:], r[1], None) for r in key if r[0] in NAME)
        return frozenset()

    def attribute(s, m, d):
        """what is stored in an attribute of some other class (in itself or as an element)"""
        if not m or not s.keeps(m): return frozenset()
        if m in s.fstore: return s.fstore[m]
        s.fstore[m] = frozenset()
        out = {(r[0], r[1], r[2] and ('kept', r[2])) for e, c in s.stores(m) for r in s.role(e, c, d)}
        s.fstore[m] = frozenset(out)
        return s.fstore[m]

    def stores(s, m):
        """(expression, context) for everything stored in an attribute"""
        if not hasattr(s, '_st'):
            s._st = {}
            for f in s.rel:
                for i, e in f.inits:
                    if i.get('m'): s._st.setdefault(i['m'], []).append((f, e))
                for n in f.nodes():
                    if n.k == 'BinaryOperator' and n.op == '=' and n.c[0] is not None:
                        t = n.c[0]
                        if t.k == 'CXXOperatorCallExpr' and t.op == '[]': t = strip(t.c[0])
                        elif t.k in CALLS and callee_name(t, s.P) == 'at' and t.c: t = strip(t.c[0])
                        if t is not None and t.k == 'MemberExpr' and t.m: s._st.setdefault(t.m, []).append((f, n.c[1]))
                    elif n.k == 'CXXMemberCallExpr' and callee_name(n, s.P) in ('push_back', 'insert') and n.c and strip(n.c[0]) is not None and strip(n.c[0]).m and call_args(n): s._st.setdefault(strip(n.c[0]).m, []).append((f, call_args(n)[-1]))
                    elif n.k == 'InitListExpr':
                        rec = s.P.recs.get(s.P.rec_of(n.t) or '')
                        for fl, e in zip(rec.get('fields', ()) if rec else (), n.c):
                            nm = fl.get('id') or fl.get('n')
                            if e is not None and nm: s._st.setdefault(nm if '::' in nm else f"{s.P.rec_of(n.t)}::{nm}", []).append((f, e))
        return [(e, c) for f, e in s._st.get(m, ()) for c in s.ctxs(f)]

    def keeps(s, m):
        """an attribute of a class of the project"""
        if m in s.field: return False
        s.stores(m)
        r = s.P.recs.get(m.rsplit('::', 1)[0])
        return m in s._st and bool(r) and bool(r.get('repo'))

    # -- where words come from
    def words(s, n, ctx, d=10):
        """roles of the factor by which a sequence of words was chosen, or None when that is not known"""
        n = strip(n)
        if n is None or d == 0: return None
        if n.k == 'DeclRefExpr' and n.v is not None:
            if n.v in n.fn.pvars:
                a = s.arg(n.fn, n.v, ctx)
                return s.words(a, ctx[1], d - 1) if a is not None else None
            D = n.fn.vardecl(n.v)
            if D is not None and D.p is not None and D.p.k == 'CXXForRangeStmt':
                r = D.p.fn.node(D.p.x['rng']); return s.words(r, ctx, d - 1)
            for x in s.sets(n.fn, n.v):
                e = x.c[0] if x.k == 'VarDecl' and x.c else x.c[1] if x.op == '=' else None
                w = s.words(e, ctx, d - 1) if e is not None else None
                if w is not None: return w
            return None
        if n.k == 'CXXOperatorCallExpr' and n.op in ('[]', '*') and n.c: return s.words(n.c[0], ctx, d - 1)
        if n.k == 'MemberExpr' and n.m.endswith('::words') and n.c:
            b = strip(n.c[0])
            if b is not None and b.k == 'DeclRefExpr' and b.v is not None and b.v not in b.fn.pvars:
                i = single_init(b.fn, b.v)
                if i is not None: b = strip(i)
            if b is not None and b.k == 'CXXOperatorCallExpr' and b.op == '[]': i = b.c[1]
            elif b is not None and b.k in CALLS and callee_name(b, s.P) == 'at' and len(b.c) > 1: i = b.c[1]
            else: return None
            r = s.role(i, ctx)
            return (r, s.index(i, ctx), n)
        if n.k in CTORS and len(n.c) == 1: return s.words(n.c[0], ctx, d - 1)
        if n.k == 'ConditionalOperator': return s.words(n.c[1], ctx, d - 1) or s.words(n.c[2], ctx, d - 1)
        return None

    # ------------------------------------------------------------ the rules
    def check(s):
        P, R = s.P, s.R
        weighted, named, scored = {}, {}, {}
        setw = {}
        for f in s.rel:
            cs = s.ctxs(f)
            inlm = bool(f.cls == DATA)
            for n in list(f.nodes()):
                if n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op in ('*', '*='):
                    for c in cs: s.product(f, n, c, weighted)
                elif n.k in CALLS or n.k in CTORS:
                    args = call_args(n) if n.k in CALLS else list(n.c)
                    if n.k in CALLS and n.f:
                        nm = callee_name(n, P)
                        if n.f.startswith(DATA + '::') and args and P.ts(P.decls[n.f].get('rt', -1)) in ('unsigned int', 'lm::WordIndex'):
                            for c in cs: s.lookup(f, n, c)
                        if 'lm::ngram::RuleScore' in n.f and nm == 'NonTerminal' and args:
                            for c in cs: s.state(f, n, args[0], s.scorer(n.c[0], c), c)
                        if n.get('virt') and 'LMFunc' in n.f:
                            s.function(f, n, args, cs)
                            for c in cs[:1]:
                                for w in (0, 1):
                                    for r in s.pair(n, c, w, 12): scored.setdefault((n.fn.id, n.i), [f, n, set(), True])[2].add(r[0])
                                for r in s.role(n, c, 12): scored.setdefault((n.fn.id, n.i), [f, n, set(), True])[2].add(r[0])
                        if nm == 'ScoreRule' and 'search::' in n.f: scored.setdefault((n.fn.id, n.i), [f, n, {'PROB', 'UNK'}, False])
                        if args and len(P.decls[n.f].get('pt', ())) == len(args) and any(P.ts(P.strip_ref(t)).endswith('ModelType') for t in P.decls[n.f].get('pt', ())): s.made(f, n, args, cs)
                        if n.f.startswith(DATA + '::Set') or (n.k == 'CXXMemberCallExpr' and P.rec_of_ptr(n.c[0].t) == DATA and len(args) == 1 and n.f in P.funcs):
                            for c in cs: s.setter(f, n, args, c, setw)
                    if n.k in CTORS and 'lm::ngram::RuleScore' in (n.f or '') and len(n.c) >= 2:
                        for c in cs: s.state(f, n, n.c[1], s.which(n.c[0], c), c)
                    if len(args) >= 2 and not (n.k == 'CXXOperatorCallExpr' and n.op in ('<<', '>>')):
                        for a, b in zip(args, args[1:]):
                            for c in cs: s.naming(f, n, a, b, c, named)
                elif n.k in ('BinaryOperator', 'CompoundAssignOperator') and n.op in ('=', '+=') and n.c[0] is not None and n.c[0].k == 'CXXOperatorCallExpr' and n.c[0].op == '[]':
                    for c in cs: s.naming(f, n, n.c[0].c[1], n.c[1], c, named)
                if n.k == 'BinaryOperator' and n.op == '/':
                    for c in cs[:1]:
                        for r in s.role(n, c): scored.setdefault((n.fn.id, n.i), [f, n, set(), 'div'])[2].add(r[0])
            s.written(f, cs, setw)
            s.ownfactor(f, cs)
        R.set('scoring_places', len(scored))
        R.need(len(scored) >= 4, 'places where language model scores arise')
        for key, (f, n, ks, mode) in sorted(scored.items(), key=lambda x: (x[0][0], x[0][1])):
            if not any(key in d or ('kept', key) in d for d in (weighted, named)): R.count('scores_not_followed'); continue
            for k in sorted(ks & set(SCORE)):
                R.count('scores_followed')
                kept = mode is True and k in weighted.get(('kept', key), ())
                if mode != 'div' and not kept and k not in weighted.get(key, ()): R.violation(f'{f.q}:{k}:unweighted', f'{short(f.q)}: {TEXT[k]} of this language model score is never counted with its weight', f.loc(n))
                if mode is not False and k not in named.get(key, ()) and k not in named.get(('kept', key), ()): R.violation(f'{f.q}:{k}:unnamed', f'{short(f.q)}: {TEXT[k]} of this language model score is never stored under its feature', f.loc(n))
        for w in ('W_P', 'W_U'):
            if not any(x == w for x in setw): R.violation(f'{w}:unset', f'{TEXT[w]} of a language model is never set from the feature of that name', 'src/lib/lm-composer.cc:1')
        s.options()

    def product(s, f, n, c, weighted):
        R = s.R
        a, b = s.role(n.c[0], c), s.role(n.c[1], c)
        for x, y in ((a, b), (b, a)):
            for w in x:
                if w[0] not in WEIGHT: continue
                for r in y:
                    if r[0] not in SCORE + ('KNOWN',): continue
                    R.count('products')
                    if WEIGHT[w[0]] != r[0]: R.violation(f'{f.q}:{w[0]}*{r[0]}', f'{short(f.q)}: {TEXT[r[0]]} is multiplied by {TEXT[w[0]]}', f.loc(n))
                    elif differ(w[1], r[1]): R.violation(f'{f.q}:{w[0]}*{r[0]}:model', f'{short(f.q)}: {TEXT[r[0]]} of one language model is multiplied by the weight of another', f.loc(n))
                    else: weighted.setdefault(r[2], set()).add(r[0])

    def naming(s, f, n, a, b, c, named):
        R = s.R
        x = [r for r in s.role(a, c) if r[0] in NAME]
        if not x: return
        for r in s.role(b, c):
            if r[0] not in SCORE + ('KNOWN',): continue
            for w in x:
                R.count('names')
                if NAME[w[0]] != r[0]: R.violation(f'{f.q}:{w[0]}:{r[0]}', f'{short(f.q)}: {TEXT[r[0]]} is stored under {TEXT[w[0]]}', f.loc(n)); continue
                if differ(w[1], r[1]): R.violation(f'{f.q}:{w[0]}:{r[0]}:model', f'{short(f.q)}: {TEXT[r[0]]} of one language model is stored under the name of another', f.loc(n)); continue
                if s.asked(f, n, r, c): named.setdefault(r[2], set()).add(r[0])

    def asked(s, f, n, r, ctx):
        """conditions on scores under which a score is stored: the score itself is not zero"""
        prev = n
        for a in n.ancestors():
            if a.k == 'IfStmt' and prev in a.c[1:] and a.c.index(prev) == 1:
                roles = set(); bad = None
                for x in a.c[0].walk():
                    if x.k == 'BinaryOperator' and x.op in ('<', '>', '<=', '>=', '==', '!='):
                        l, rr = strip(x.c[0]), strip(x.c[1]); op = x.op
                        q = s.role(l, ctx)
                        if not q: q = s.role(rr, ctx); l, rr = rr, l; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                        q = {y[0] for y in q if y[2] == r[2]} & set(SCORE)
                        roles |= q
                        lit = rr is not None and rr.k in ('IntegerLiteral', 'FloatingLiteral') and float(rr.val) == 0
                        if r[0] in q and (not lit or op == '==' or r[0] == 'PROB' and op in ('>', '>=') or r[0] == 'UNK' and op in ('<', '<=')): bad = x
                    elif x.k == 'DeclRefExpr' or x.k == 'MemberExpr':
                        if x.p is not None and x.p.k == 'MemberExpr': continue
                        roles |= {y[0] for y in s.role(x, ctx) if y[2] == r[2]} & set(SCORE)
                if bad is not None:
                    s.R.violation(f'{f.q}:{r[0]}:if', f'{short(f.q)}: {TEXT[r[0]]} is stored only under a condition on it other than that it is not zero', f.loc(bad)); return True
                if roles and r[0] not in roles:
                    s.R.violation(f'{f.q}:{r[0]}:if', f'{short(f.q)}: {TEXT[r[0]]} is stored depending on {" and ".join(TEXT[x] for x in sorted(roles))}', f.loc(a)); return True
            prev = a
        return True

    def lookup(s, f, n, c):
        R = s.R
        w = s.words(call_args(n)[0], c)
        if w is None: return
        R.count('word_lookups')
        me = s.which(call_obj(n), c)
        s.factor(f, n, w, me, 'looks up')

    def factor(s, f, n, w, me, what):
        r, idx, x = w
        fac = [y for y in r if y[0] == 'FACTOR']
        if not fac:
            if r or idx is not None: s.R.violation(f'{x.fn.q}:factor', f'{short(x.fn.q)}: the words that a language model {what} are not those of the model\'s factor', x.fn.loc(x))
            return
        if any(differ(y[1], me) for y in fac): s.R.violation(f'{x.fn.q}:factor:model', f'{short(x.fn.q)}: the words that a language model {what} are those of another model\'s factor', x.fn.loc(x))

    def ownfactor(s, f, cs):
        """where a score is taken apart, target words are those of the factor"""
        if not any(n.k == 'BinaryOperator' and n.op == '/' and s.role(n, cs[0]) for n in f.nodes()): return
        for n in f.nodes():
            if n.k == 'MemberExpr' and (n.m or '').endswith('::words'):
                w = s.words(n, cs[0])
                if w is not None: s.R.count('word_lookups'); s.factor(f, n, w, None, 'is concerned with')

    def state(s, f, n, a, me, c):
        a = strip(a)
        if a is None or me is None: return
        i = s.slot(a, c)
        if i is None: return
        s.R.count('chart_states')
        if differ(i, me): s.R.violation(f'{f.q}:state', f'{short(f.q)}: the chart state of one language model is used to score with another', f.loc(n))

    def slot(s, a, c, d=8):
        a = strip(a)
        if a is None or d == 0: return None
        if a.k == 'DeclRefExpr' and a.v is not None:
            if a.v in a.fn.pvars:
                x = s.arg(a.fn, a.v, c)
                return s.slot(x, c[1], d - 1) if x is not None else None
            i = single_init(a.fn, a.v)
            return s.slot(i, c, d - 1) if i is not None else None
        if a.k == 'CXXOperatorCallExpr' and a.op == '[]': return s.index(a.c[1], c)
        if a.k in CALLS and callee_name(a, s.P) == 'at' and len(a.c) > 1: return s.index(a.c[1], c)
        if a.k in CALLS and callee_name(a, s.P) == 'front': return ('const', 0)
        if a.k == 'UnaryOperator' and a.op in ('*', '&'): return s.slot(a.c[0], c, d - 1)
        return None

    def function(s, f, n, args, cs):
        """the functions, the model, the position and the states in one call belong to the same model"""
        P, R = s.P, s.R
        for c in cs:
            got = []
            o = s.which(n.c[0], c)
            if o is not None: got.append(('the functions', o))
            for i, a in enumerate(args):
                t = P.ts(a.t)
                if 'LMData' in t or t.replace('const ', '').strip() == 'void *':
                    w = s.which(a, c)
                    if w is not None: got.append(('the model', w))
                elif 'ChartState' in t and 'vector' not in t:
                    w = s.slot(a, c)
                    if w is not None: got.append(('the chart state', w))
                elif P.T(P.strip_ref(a.t))['k'] == 'int':
                    w = s.index(a, c)
                    if w is not None: got.append(('the position', w))
            R.count('scoring_calls')
            for (na, a), (nb, b) in zip(got, got[1:]):
                if differ(a, b): R.violation(f'{f.q}:call:{na}:{nb}', f'{short(f.q)}: {na} and {nb} in this scoring call belong to different language models', f.loc(n))
            models = [b for na, b in got if na == 'the model']
            for a in args:
                if 'vector<int' in P.ts(a.t) and models:
                    w = s.words(a, c)
                    if w is not None: R.count('word_lookups'); s.factor(f, n, w, models[0], 'scores')

    def made(s, f, n, args, cs):
        """functions made for the kind of a model and kept in a list are made for each model in turn"""
        up = n.p
        while up is not None and up.k in CASTS + ('ExprWithCleanups', 'ParenExpr', 'MaterializeTemporaryExpr'): up = up.p
        if up is None or up.k != 'CXXMemberCallExpr' or callee_name(up, s.P) not in ('push_back', 'emplace_back'): return
        for a in args:
            if not enum_of(strip(a), s.P): continue
            for c in cs:
                for r in s.role(a, c):
                    if r[0] == 'TYPE':
                        s.R.count('functions_made')
                        if r[1] is not None and r[1][0] == 'const': s.R.violation(f'{f.q}:made', f'{short(f.q)}: the functions added for every language model are those of the kind of one particular model', f.loc(n))

    def setter(s, f, n, args, c, setw):
        g = s.P.funcs.get(n.f)
        if g is None or not args: return
        for x in g.nodes():
            if x.k == 'BinaryOperator' and x.op == '=' and x.c[0] is not None and x.c[0].k == 'MemberExpr' and s.field.get(x.c[0].m) in WEIGHT and strip(x.c[1]).k == 'DeclRefExpr' and strip(x.c[1]).v in g.pvars:
                s.setfrom(f, n, s.field[x.c[0].m], s.role(args[g.pvars.index(strip(x.c[1]).v)], c), s.which(n.c[0], c), setw)

    def setfrom(s, f, n, w, roles, me, setw):
        for r in roles:
            if r[0] in FROM:
                s.R.count('weights_set')
                if FROM[r[0]] != w: s.R.violation(f'{f.q}:{w}', f'{short(f.q)}: {TEXT[w]} of a language model is set from {TEXT["N" + r[0][1:]]}', f.loc(n))
                elif differ(r[1], me): s.R.violation(f'{f.q}:{w}:model', f'{short(f.q)}: {TEXT[w]} of one language model is set from the feature of another', f.loc(n))
                else: setw[w] = True
            elif r[0] in WEIGHT and r[0] != w: s.R.violation(f'{f.q}:{w}', f'{short(f.q)}: {TEXT[w]} of a language model is set from {TEXT[r[0]]}', f.loc(n))

    def written(s, f, cs, setw):
        if f.cls == DATA and f.isctor: return
        for n in f.nodes():
            if n.k == 'BinaryOperator' and n.op == '=' and n.c[0] is not None and n.c[0].k == 'MemberExpr' and s.field.get(n.c[0].m) in WEIGHT:
                if strip(n.c[1]) is not None and strip(n.c[1]).k == 'DeclRefExpr' and strip(n.c[1]).v in f.pvars: continue
                for c in cs: s.setfrom(f, n, s.field[n.c[0].m], s.role(n.c[1], c), s.which(n.c[0].c[0], c), setw)

    def options(s):
        """the options of a model description go where they belong; without them, the names are the usual ones"""
        want = {'factor': 'FACTOR', 'lm_feat': 'N_P', 'lm_unk_feat': 'N_U'}
        R = s.R; seen = set(); dflt = {}
        for f in s.rel:
            if f.cls != DATA: continue
            for n in f.nodes():
                if n.k == 'IfStmt':
                    lits = [x.val for x in n.c[0].walk() if x.k == 'StringLiteral']
                    neg = negate(strip(n.c[0]))
                    if len(lits) != 1 or lits[0] not in want: continue
                    eq = [x for x in n.c[0].walk() if x.k in ('CXXOperatorCallExpr', 'BinaryOperator') and x.op in ('==', '!=')]
                    if len(eq) != 1: continue
                    pos = (eq[0].op == '==') == neg[1]
                    br = n.c[1] if pos else (n.c[2] if len(n.c) > 2 else None)
                    if br is None: continue
                    for x in br.walk():
                        if x.k == 'BinaryOperator' and x.op == '=' and x.c[0] is not None and x.c[0].k == 'MemberExpr' and x.c[0].m in s.field and not any(a.k == 'IfStmt' and a is not n and a in list(br.walk()) for a in x.ancestors()):
                            R.count('options'); seen.add(lits[0])
                            if s.field[x.c[0].m] != want[lits[0]]: R.violation(f'{f.q}:option:{lits[0]}', f'{short(f.q)}: the option {lits[0]} of a language model is stored in another attribute', f.loc(x))
            if f.isctor:
                for i, e in f.inits:
                    r = s.field.get(i.get('m'))
                    if r in NAME:
                        l = [x.val for x in e.walk() if x.k == 'StringLiteral']
                        if len(l) == 1: dflt.setdefault(r, {}).setdefault(l[0], []).append((f, e))
        for r, v in dflt.items():
            if len(v) > 1: R.violation(f'{r}:default', f'{TEXT[r]} has different names by default: {", ".join(sorted(v))}', list(v.values())[0][0][0].loc(list(v.values())[0][0][1]))
            R.count('options')
        both = set(dflt.get('N_P', ())) & set(dflt.get('N_U', ()))
        if both: R.violation('default:same', f'the probability and the unknown words of a language model have the same name by default ({", ".join(sorted(both))})', 'src/lib/lm-func.cc:1')
