"""Results do not depend on memory addresses, the clock or an unseeded generator."""
from ..flow import *
from ..prog import *
from ..paths import path, single_init
from ..cdep import controlled, postdom, exits
from .c18 import local

LEVEL = 'other'
EXPLAIN = ('Every sort, ordered or hashed container, relational operator, stream insertion and cast in the library and tools is examined by the types of what it orders, hashes or prints: none may take the address of an '
           'object as its value. Values read from the clock, process or thread ids are tracked from their calls through variables, fields, returns and streams; they may end in diagnostics, or in a generator\'s seed where an '
           'option asks for it. Where a seed is set, a forward dataflow shows that nothing random was drawn and no worker started before.')

SORTS = {'sort': 2, 'stable_sort': 2, 'partial_sort': 3, 'nth_element': 3, 'min_element': 2, 'max_element': 2, 'minmax_element': 2, 'lower_bound': 3, 'upper_bound': 3, 'binary_search': 3, 'equal_range': 3,
         'make_heap': 2, 'push_heap': 2, 'pop_heap': 2, 'sort_heap': 2, 'is_sorted': 2, 'min': 2, 'max': 2, 'merge': 5, 'inplace_merge': 3, 'set_union': 5, 'set_intersection': 5, 'set_difference': 5, 'lexicographical_compare': 4, 'next_permutation': 2}
CLOCKS = {'time', 'clock', 'gettimeofday', 'clock_gettime', 'getpid', 'getppid', 'gettid', 'pthread_self', 'ftime', 'times', 'getrusage', 'get_id', 'now', 'universal_time', 'local_time', 'second_clock', 'microsec_clock', 'rdtsc', 'tmpnam', 'mkstemp', 'mktemp'}
CLOCKCLS = ('chrono', 'posix_time', 'this_thread', 'thread', 'random_device', 'date_time')
RANDOM = {'rand', 'random', 'random_shuffle', 'drand48', 'lrand48', 'rand_r'}
ORDERED = {'std::set': 1, 'std::multiset': 1, 'std::map': 2, 'std::multimap': 2}
HASHED = {'boost::unordered::unordered_map': 2, 'boost::unordered::unordered_set': 1, 'boost::unordered::unordered_multimap': 2, 'boost::unordered::unordered_multiset': 1,
          'std::unordered_map': 2, 'std::unordered_set': 1, 'std::unordered_multimap': 2, 'std::unordered_multiset': 1}

def address_ordered(P, t, depth=6):
    """does the default order (or hash) of this type look at an address? name of the pointer type, or None"""
    t = P.strip_ref(t); x = P.T(t)
    if depth == 0: return None
    if x['k'] == 'ptr':
        return x['s'] if P.T(x['p'])['k'] != 'fn' else None
    tn = x.get('tn')
    if tn in SMART: return x['s']
    if tn in ('std::pair', 'std::vector', 'std::list', 'std::deque', 'std::set', 'std::map', 'boost::tuples::tuple', 'std::tuple', 'boost::array', 'std::array', 'boost::tuples::cons'):
        ts = [a for a in x.get('ta', ()) if isinstance(a, int)]
        if tn in ('std::vector', 'std::list', 'std::deque', 'std::set', 'boost::array', 'std::array'): ts = ts[:1]
        if tn == 'std::map': ts = ts[:2]
        for a in ts:
            r = address_ordered(P, a, depth - 1)
            if r: return r
    return None

def elem_type(P, t):
    """what an iterator (or pointer) type points to"""
    t = P.strip_ref(t); x = P.T(t)
    if x['k'] == 'ptr': return x['p']
    if x.get('tn') in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator') and x.get('ta'): return elem_type(P, x['ta'][0])
    if x.get('ta') and isinstance(x['ta'][0], int): return x['ta'][0]
    return None

def run(P, R, tier):
    R.rule('nothing is sorted, selected, kept in iterated order or hashed by the address of an object')
    R.rule('no address is printed or turned into a number')
    R.rule('a value read from the clock or from a process or thread id ends in a diagnostic message, or seeds the generator where an option asks for that')
    R.rule('the generator is seeded once, by the main thread, before anything random is drawn and before a worker starts')
    fs = [f for f in P.funcs.values() if local(P, f)]
    fs.sort(key=lambda f: f.id)
    R.set('functions', len(fs))
    for f in fs: addresses(P, R, f)
    clock(P, R, fs)
    seeding(P, R, fs)
    R.need(R.cov.get('comparisons', 0) > 0, 'nothing compared anywhere')

# ---- addresses

def iterates(P, f, n):
    """expression n (a container): is it iterated here?"""
    p = n.p
    return p is not None and p.k == 'CXXMemberCallExpr' and p.c and p.c[0] is n and P.decls.get(p.f, {}).get('n') in ('begin', 'rbegin', 'cbegin', 'crbegin', 'lower_bound', 'upper_bound')

def only_frees(f, n):
    """does the loop around this do nothing but delete and erase?"""
    for a in n.ancestors():
        if a.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            body = a.c[-1] if a.c else None
            if body is None: return False
            for y in body.walk():
                if y.k in ('CallExpr', 'CXXMemberCallExpr') or y.k in ('BinaryOperator', 'CompoundAssignOperator') and y.op.endswith('=') and y.op not in ('==', '!=', '<=', '>='): return False
            return any(y.k == 'CXXDeleteExpr' for y in body.walk())
    return False

def container(P, t):
    t = P.strip_ref(t); x = P.T(t); tn = x.get('tn'); ta = x.get('ta') or ()
    if x['k'] == 'ptr': return container(P, x['p'])
    if tn in SMART and ta: return container(P, ta[0])
    if tn in ORDERED and ta:
        i = ORDERED[tn]
        cmp_ = P.ts(ta[i]) if len(ta) > i and isinstance(ta[i], int) else 'std::less'
        if cmp_.startswith(('std::less', 'std::greater')) or 'std::allocator' in cmp_: return address_ordered(P, ta[0])
    if tn in HASHED and ta:
        i = HASHED[tn]
        h = P.ts(ta[i]) if len(ta) > i and isinstance(ta[i], int) else 'boost::hash'
        if h.startswith(('boost::hash', 'std::hash')): return address_ordered(P, ta[0])
    return None

def addresses(P, R, f):
    for n in f.nodes():
        if n.k in CALLS and n.f in P.decls:
            d = P.decls[n.f]; args = [a for a in call_args(n)]
            q = d.get('q', '')
            if d['n'] in SORTS and d.get('cls') is None and n.f not in P.funcs and q.startswith(('std::', 'boost::')) and args:
                R.count('sorts')
                if len(args) == SORTS[d['n']]:
                    t = args[0].t if d['n'] in ('min', 'max') else elem_type(P, args[0].t)
                    a = t is not None and not (P.T(P.strip_ref(t)).get('tn') or '').endswith('iterator') and address_ordered(P, t)
                    if a: R.violation(f'{f.q}|{d["n"]}|{short(a)}', f'{d["n"]} orders elements that hold {short(a)} by their default order: ties and order depend on memory addresses', f.loc(n))
                else:
                    c = args[-1] if args[-1] is not None else None
                    cs = P.ts(P.strip_ref(c.t)) if c is not None else ''
                    if cs.startswith(('std::less<', 'std::greater<')):
                        t = P.T(P.strip_ref(c.t)).get('ta') or ()
                        a = t and isinstance(t[0], int) and address_ordered(P, t[0])
                        if a: R.violation(f'{f.q}|{d["n"]}|{short(a)}', f'{d["n"]} orders elements that hold {short(a)} by {short(cs)}: the order depends on memory addresses', f.loc(n))
            if n.k == 'CXXOperatorCallExpr' and n.op in ('<', '>', '<=', '>=') and len(n.c) == 2 and n.c[0] is not None and n.f not in P.funcs:
                R.count('comparisons')
                a = address_ordered(P, n.c[0].t)
                if a and not (P.T(P.strip_ref(n.c[0].t)).get('tn') or '').endswith('iterator'): R.violation(f'{f.q}|compare|{short(a)}', f'values that hold {short(a)} are compared by address', f.loc(n))
            if n.k == 'CXXOperatorCallExpr' and n.op == '<<' and len(n.c) == 2 and n.c[1] is not None:
                R.count('insertions')
                pt = d.get('pt') or []
                last = P.ts(pt[-1]) if pt else ''
                x = P.T(P.strip_ref(n.c[1].t))
                if last in ('const void *', 'void *') or (x.get('tn') in SMART and n.f not in P.funcs):
                    if n.c[1].k not in ('StringLiteral',) and not diagnostic(P, f, n): R.violation(f'{f.q}|print', f'prints a memory address ({x["s"]})', f.loc(n))
            if d['n'] in ('hash_value', 'hash_combine') and n.f not in P.funcs:
                for a in args:
                    t = a is not None and address_ordered(P, a.t)
                    if t: R.violation(f'{f.q}|hash|{short(t)}', f'hashes {short(t)} by address', f.loc(n))
            if d['n'] == 'operator()' and (d.get('cls') or '').startswith(('boost::hash', 'std::hash')):
                for a in args:
                    t = a is not None and address_ordered(P, a.t)
                    if t: R.violation(f'{f.q}|hash|{short(t)}', f'hashes {short(t)} by address', f.loc(n))
        if n.k == 'BinaryOperator' and n.op in ('<', '>', '<=', '>=') and n.c[0] is not None:
            x = P.T(P.strip_ref(n.c[0].t))
            if x['k'] == 'ptr':
                R.count('comparisons')
                # positions within one array may be compared; objects may not
                pe = P.T(x['p'])
                if pe['k'] in ('rec', 'void', 'ptr'): R.violation(f'{f.q}|compare|{short(x["s"])}', f'compares {short(x["s"])} by address', f.loc(n))
        if n.k in ('CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr') and n.c and n.c[0] is not None:
            a, b = P.T(P.strip_ref(n.c[0].t)), P.T(P.strip_ref(n.t))
            if a['k'] == 'ptr' and b['k'] in ('int',) and n.c[0].k not in ('GNUNullExpr',): R.violation(f'{f.q}|cast', f'turns an address ({short(a["s"])}) into a number', f.loc(n))
        # containers ordered or hashed by address must not be iterated
        if n.t is not None and n.k in ('DeclRefExpr', 'MemberExpr', 'UnaryOperator', 'CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr') and iterates(P, f, n):
            R.count('iterations')
            a = container(P, n.t)
            if a and not only_frees(f, n): R.violation(f'{f.q}|iterate|{short(a)}', f'goes through a container ordered by the address of {short(a)}', f.loc(n))
        if n.k == 'CXXForRangeStmt' or n.k == 'VarDecl' and 'rng' in n.x:
            r = f.node(n.x['rng']) if 'rng' in n.x else None
            if r is not None:
                R.count('iterations')
                a = container(P, r.t)
                if a and not only_frees(f, n): R.violation(f'{f.q}|iterate|{short(a)}', f'goes through a container ordered by the address of {short(a)}', f.loc(n))
        if n.k in ('VarDecl',) or n.k in CTORS:
            x = P.T(P.strip_ref(n.t))
            if x.get('tn') == 'std::priority_queue': pq(P, R, f, n, x)

def pq(P, R, f, n, x):
    R.count('priority_queues')
    ta = x.get('ta') or ()
    c = P.ts(ta[2]) if len(ta) > 2 and isinstance(ta[2], int) else 'std::less'
    if c.startswith(('std::less', 'std::greater')) and ta:
        a = address_ordered(P, ta[0])
        if a: R.violation(f'{f.q}|priority_queue|{short(a)}', f'a priority queue of elements that hold {short(a)} takes them by address', f.loc(n))

# ---- clock

def is_clock(P, n):
    if n.k in CTORS:
        return 'random_device' in (P.T(n.t).get('r') or '')
    if n.k not in CALLS or n.f not in P.decls or n.f in P.funcs: return False
    d = P.decls[n.f]; c = d.get('cls') or ''
    if d['n'] == 'operator()' and 'random_device' in c: return True
    if d['n'] not in CLOCKS: return False
    if not c: return d['n'] not in ('get_id', 'now') or any(k in d.get('q', '') for k in CLOCKCLS)
    return any(k in c for k in CLOCKCLS)

def root(P, f, n):
    """the stream an insertion chain writes to: ('diag',) / ('par', i) / ('var', v) / ('other', node)"""
    while n is not None:
        if n.k == 'CXXOperatorCallExpr' and n.op == '<<' and n.c: n = n.c[0]; continue
        if n.k in CALLS and n.c and P.decls.get(n.f, {}).get('n') in ('operator<<',): n = n.c[0]; continue
        if n.k in CASTS and n.c: n = n.c[0]; continue
        if n.k == 'UnaryOperator' and n.op in ('*', '&') and n.c: n = n.c[0]; continue
        if n.k == 'DeclRefExpr' and n.v is not None:
            for i, p in enumerate(f.params):
                if p['v'] == n.v: return ('par', i)
            s = single_init(f, n.v)
            if s is not None and P.T(f.vartype(n.v))['k'] in ('ref', 'ptr'): n = s; continue
            return ('var', n.v)
        break
    if n is not None and n.g in ('std::cerr', 'std::clog'): return ('diag', None)
    return ('other', n)

def diagnostic(P, f, n, seen=None):
    """does this insertion end up in diagnostics only, whoever calls the function?"""
    seen = seen or set()
    k, v = root(P, f, n)
    if k != 'par': return k == 'diag'
    if f.id in seen: return True
    seen.add(f.id)
    cs = getattr(P, '_c26callers', None)
    if cs is None:
        cs = P._c26callers = {}
        for g in P.funcs.values():
            if '/src/test/' in g.file: continue
            for y in g.nodes():
                if y.k in CALLS:
                    for t in P.targets(y): cs.setdefault(t.id, []).append(y)
    for c in cs.get(f.id, ()):
        a = [x for x in c.c] if c.k == 'CXXOperatorCallExpr' else call_args(c)
        if v >= len(a) or a[v] is None or not diagnostic(P, c.fn, a[v] if c.k != 'CXXOperatorCallExpr' else c, seen): return False
    return True

def clock(P, R, fs):
    work = []; seen = set()
    local_ids = {f.id for f in fs}
    callers = {}; reads = {}
    for f in fs:
        for n in f.nodes():
            if n.k in CALLS or n.k in CTORS:
                for g in P.targets(n) if n.k in CALLS else ():
                    callers.setdefault(g.id, []).append(n)
            if n.k == 'MemberExpr' and n.m is not None: reads.setdefault(n.m, []).append(n)
            if is_clock(P, n): R.count('clock_reads'); add(work, seen, n)
    inserters = set(); tfields = set(); tfuncs = set(); tvars = set()
    seeds = []
    def tvar(f, v, at=None):
        """the clock value is in variable v, from expression `at` on"""
        if (f.id, v, at and at.i) in tvars: return
        tvars.add((f.id, v, at and at.i))
        after = later(f, at) if at is not None else None
        for n in f.nodes():
            if n.k == 'DeclRefExpr' and n.v == v and (after is None or n.i in after): add(work, seen, n)
    def tfield(m):
        if m in tfields: return
        tfields.add(m)
        for n in reads.get(m, ()): add(work, seen, n)
    def place(f, n):
        """the clock value is stored in the place n names"""
        at = n
        while n is not None and (n.k in CASTS or n.k == 'UnaryOperator' and n.op in ('*', '&') or n.k == 'ArraySubscriptExpr' or n.k == 'CXXOperatorCallExpr' and n.op == '[]'): n = n.c[0]
        if n is None: return
        if n.k == 'DeclRefExpr' and n.v is not None: tvar(f, n.v, at)
        elif n.k == 'MemberExpr' and n.m is not None:
            tfield(n.m)
            # a plain C struct (timespec): the whole of it
            b = n.c[0]
            if n.m not in P.fields or not P.fields[n.m][0].startswith('travatar'): place(f, b)
    def bad(f, n, why):
        R.violation(f'{f.q}|clock|{why}', f'a value taken from the clock or a process/thread id {why}', f.loc(n))
    def insertion(f, n):
        k, v = root(P, f, n)
        if k == 'diag': R.count('clock_in_diagnostics'); return
        if k == 'par':
            if (f.id, v) not in inserters:
                inserters.add((f.id, v))
                for c in callers.get(f.id, ()):
                    insertion(c.fn, c)
            return
        if k == 'var' and 'stringstream' in (P.T(P.strip_ref(f.vartype(v))).get('tn') or P.ts(f.vartype(v))): tvar(f, v); return
        bad(f, n, 'is written to a result')
    while work:
        n = work.pop(); f = n.fn; p = n.p
        if is_clock(P, n) and n.k in CALLS:
            for a in call_args(n):
                if a is not None and P.is_ptr(a.t) and a.k not in ('GNUNullExpr', 'CXXNullPtrLiteralExpr', 'IntegerLiteral'): place(f, a)
        if p is None: continue
        if p.k in ('CompoundStmt', 'CXXForRangeStmt'): continue
        if p.k == 'ReturnStmt':
            if f.id not in tfuncs:
                tfuncs.add(f.id)
                for c in callers.get(f.id, ()): add(work, seen, c)
            continue
        if p.k == 'VarDecl': tvar(f, p.v); continue
        if p.k in CASTS or p.k in ('ParenExpr', 'UnaryOperator', 'ConditionalOperator', 'MemberExpr', 'DeclStmt', 'ArraySubscriptExpr', 'InitListExpr') or p.k in CTORS:
            if p.k == 'ConditionalOperator' and p.c[0] is n: bad(f, p, 'decides what is computed'); continue
            if p.k == 'MemberExpr' and p.m in P.fields and P.fields[p.m][0].startswith('travatar') and p.m not in tfields: continue
            if p.k in CTORS and p.p is not None and p.p.k == 'VarDecl': tvar(f, p.p.v); continue
            if p.k == 'UnaryOperator' and p.op == '!' : bad(f, p, 'decides what is computed'); continue
            add(work, seen, p); continue
        if p.k in ('BinaryOperator', 'CompoundAssignOperator'):
            if p.op.endswith('=') and p.op not in ('==', '!=', '<=', '>='):
                if p.c[1] is n: place(f, p.c[0]); add(work, seen, p)
                continue
            if p.op in ('&&', '||', '<', '>', '==', '!=', '<=', '>='): bad(f, p, 'decides what is computed'); continue
            add(work, seen, p); continue
        if p.k in CALLS and p.f in P.decls:
            d = P.decls[p.f]
            if is_clock(P, p): continue
            if d['n'] in ('srand', 'srandom', 'srand48') and p.f not in P.funcs: seeds.append((f, p)); continue
            if p.k == 'CXXOperatorCallExpr' and p.op == '<<':
                if len(p.c) > 1 and p.c[0] is n:
                    continue                      # the stream itself
                insertion(f, p); continue
            if p.k == 'CXXOperatorCallExpr' and p.op == '=' and len(p.c) == 2:
                if p.c[1] is n: place(f, p.c[0])
                continue
            if d['n'] in ('difftime', 'str', 'c_str', 'seconds', 'total_seconds', 'count', 'total_milliseconds', 'operator()', 'time_since_epoch', 'wall', 'elapsed', 'to_string', 'lexical_cast', 'floor', 'ceil', 'max', 'min') or p.k == 'CXXOperatorCallExpr' and p.op in ('+', '-', '*', '/', '%', '[]'): add(work, seen, p); continue
            tg = [g for g in P.targets(p) if g.id in local_ids]
            if tg:
                args = call_args(p)
                for i, a in enumerate(args):
                    if a is n:
                        for g in tg:
                            if i < len(g.params): tvar(g, g.params[i]['v'])
                continue
            bad(f, p, f'is given to {d["n"]}'); continue
        if p.k in ('IfStmt', 'WhileStmt', 'ForStmt', 'SwitchStmt', 'DoStmt') and any(B.cond is n for B in f.cfg.values()): bad(f, p, 'decides what is computed'); continue
    for f, p in seeds:
        R.count('clock_seeds')
        if not by_option(P, f, p): R.violation(f'{f.q}|seed', 'the generator is seeded from the clock without an option asking for it', f.loc(p))

def later(f, at):
    """ids of the nodes that can be evaluated after `at`; None when unknown"""
    pos = None
    for x in [at] + list(at.ancestors()):
        for b, B in f.cfg.items():
            for i, e in enumerate(B.els):
                if e is x: pos = (b, i)
        if pos: break
    if pos is None: return None
    out = set(); b, i = pos
    for e in f.cfg[b].els[i:]:
        if isinstance(e, Node): out.add(e.i)
    w = [s for s in f.cfg[b].succ]; seen = set()
    while w:
        x = w.pop()
        if x in seen or x not in f.cfg: continue
        seen.add(x)
        for e in f.cfg[x].els:
            if isinstance(e, Node): out |= {y.i for y in e.walk()}
        if f.cfg[x].cond is not None: out |= {y.i for y in f.cfg[x].cond.walk()}
        w += f.cfg[x].succ
    for e in f.cfg[b].els[i + 1:]:
        if isinstance(e, Node): out |= {y.i for y in e.walk() if y is not at and at not in y.ancestors()}
    return out

def add(work, seen, n):
    if id(n) not in seen: seen.add(id(n)); work.append(n)

def option(P, f, n, depth=6):
    if n is None or depth == 0: return False
    for y in n.walk():
        if y.k in CALLS and y.f in P.decls and P.derives(P.decls[y.f].get('cls') or '', 'travatar::ConfigBase'): return True
        if y.k == 'DeclRefExpr' and y.v is not None:
            for m in f.nodes():
                if m.k == 'VarDecl' and m.v == y.v and m.c and option(P, f, m.c[0], depth - 1): return True
                if m.k == 'BinaryOperator' and m.op == '=' and m.c[0].k == 'DeclRefExpr' and m.c[0].v == y.v and option(P, f, m.c[1], depth - 1): return True
    return False

def by_option(P, f, p):
    # a conditional expression inside the argument, or a branch around the call, that tests an option
    for y in p.walk():
        if y.k == 'ConditionalOperator' and option(P, f, y.c[0]): return True
    for a in p.ancestors():
        if a.k == 'ConditionalOperator' and option(P, f, a.c[0]): return True
    blk = next((b for b, B in f.cfg.items() for e in B.els if e is p), None)
    if blk is None: return False
    pd = postdom(f); ends = set(exits(f))
    for b, B in f.cfg.items():
        if B.cond is None or blk in pd[b] or blk not in controlled(f, b) or not option(P, f, B.cond): continue
        # a real choice: the other way goes on in this function, or seeds otherwise
        if pd[b] - {b} - ends: return True
        for s in B.succ:
            if s not in f.cfg or blk in pd[s] or s == blk: continue
            w = [s]; seen = set()
            while w:
                x = w.pop()
                if x in seen or x == b: continue
                seen.add(x)
                if any(isinstance(e, Node) and e.k in CALLS and e is not p and e.f == p.f for e in f.cfg[x].els): return True
                w += [y for y in f.cfg[x].succ if y in f.cfg]
    # the seed was chosen earlier: seed = option; if(seed == 0) seed = time(0);
    for y in p.walk():
        if y.k == 'DeclRefExpr' and y.v is not None:
            for m in f.nodes():
                if m.k == 'BinaryOperator' and m.op == '=' and m.c[0].k == 'DeclRefExpr' and m.c[0].v == y.v and m is not p and by_option(P, f, m): return True
                if m.k == 'VarDecl' and m.v == y.v and m.c and m.c[0] is not None:
                    for z in m.c[0].walk():
                        if z.k == 'ConditionalOperator' and option(P, f, z.c[0]): return True
    return False

# ---- seeding

class Seeded(Forward):
    """has the generator been seeded on every way here?"""
    def __init__(s, P, setters): s.P = P; s.setters = setters
    def transfer(s, fn, el, st):
        if isinstance(el, Node) and el.k in CALLS and (el.f in s.setters or any(g.id in s.setters for g in s.P.targets(el))): return True
        return st
    def join(s, a, b): return a and b
class MaySeeded(Seeded):
    def join(s, a, b): return a or b

def seeding(P, R, fs):
    def calls(f, names, clsok=lambda c: c is None):
        return [n for n in f.nodes() if n.k in CALLS and n.f in P.decls and P.decls[n.f]['n'] in names and n.f not in P.funcs and clsok(P.decls[n.f].get('cls'))]
    byid = {f.id: f for f in fs}
    callers = {}
    for f in fs:
        for n in f.nodes():
            if n.k in CALLS:
                for g in P.targets(n): callers.setdefault(g.id, set()).add(f.id)
            elif n.k in CTORS and n.f in P.funcs: callers.setdefault(n.f, set()).add(f.id)
    def close(s):
        s = dict(s); w = list(s)
        while w:
            x = w.pop()
            for c in callers.get(x, ()):
                if c in byid and c not in s: s[c] = s[x]; w.append(c)
        return s
    draws = {}; starts = {}; setters = set()
    for f in fs:
        for n in calls(f, RANDOM): draws.setdefault(f.id, f'draws a random number ({f.loc(n)})'); R.count('random_draws')
        for n in f.nodes():
            if n.k in CTORS and (P.T(n.t).get('tn') or P.T(n.t).get('r') or '') in ('boost::thread', 'std::thread') and n.c or n.k in CALLS and n.f in P.decls and P.decls[n.f]['n'] == 'create_thread': starts.setdefault(f.id, f'starts a thread ({f.loc(n)})')
        if f.name == 'Submit' and f.cls == 'travatar::ThreadPool': starts.setdefault(f.id, 'hands a task to the workers')
        s = calls(f, {'srand', 'srandom', 'srand48'})
        if s: setters.add(f.id); R.count('seedings', len(s))
    draws = close(draws); starts = close(starts)
    # workers: everything a task can run
    tasks = set(); w = [f for f in fs if f.cls and P.derives(f.cls, 'travatar::Task') and f.name == 'Run']
    while w:
        f = w.pop()
        if f.id in tasks: continue
        tasks.add(f.id)
        for n in f.nodes():
            if n.k in CALLS: w += [g for g in P.targets(n) if g.id in byid]
            elif n.k in CTORS and n.f in byid: w.append(byid[n.f])
    R.set('functions_run_by_workers', len(tasks))
    seedfns = close({s: 1 for s in setters})
    for s in sorted(setters):
        f = byid[s]
        if s in tasks: R.violation(f'{f.q}|worker', 'a worker task sets the seed of the shared generator', f.loc())
        for n in calls(f, {'srand', 'srandom', 'srand48'}):
            if any(a.k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt') for a in n.ancestors()): R.violation(f'{f.q}|loop', 'the seed is set again and again in a loop: draws repeat', f.loc(n))
    prim = {n for f in fs for n in ()}
    for s in sorted(seedfns):
        f = byid[s]
        if not f.cfg: continue
        # the functions that set the seed when called from here
        may = {g for g in seedfns}
        A = Seeded(P, set())
        def sets(el):
            if not (isinstance(el, Node) and el.k in CALLS and el.f in P.decls): return False
            if P.decls[el.f]['n'] in ('srand', 'srandom', 'srand48') and el.f not in P.funcs: return True
            return any(g.id in may for g in P.targets(el))
        A.transfer = lambda fn, el, st: True if sets(el) else st
        def visit(fn, B, el, st):
            if not isinstance(el, Node) or sets(el): return
            why = None
            if el.k in CALLS and el.f in P.decls:
                if P.decls[el.f]['n'] in RANDOM and el.f not in P.funcs: why = 'draws a random number'
                for g in P.targets(el):
                    why = why or draws.get(g.id) or starts.get(g.id)
            elif el.k in CTORS and el.f in byid: why = draws.get(el.f) or (starts.get(el.f) if el.f not in () else None)
            if why is None: return
            R.count('checked_before_seeding')
            # allowed only where this path never sets a seed later
            R.violation(f'{fn.q}|before|{why.split("(")[0].strip()}', f'{why} before the seed is set', fn.loc(el))
        # only calls from which a seeding can still follow matter
        reach = reaches(f, sets)
        def visit2(fn, B, el, st):
            if follows(fn, B, el, sets, reach): visit(fn, B, el, st)
        A.run(f, False, visit2)

def reaches(f, sets):
    """blocks from whose start a seeding can be reached"""
    out = {b for b, B in f.cfg.items() if any(sets(e) for e in B.els)}
    w = list(out)
    while w:
        b = w.pop()
        for p in f.cfg[b].pred:
            if p not in out: out.add(p); w.append(p)
    return out

def follows(f, B, el, sets, reach):
    i = next((i for i, e in enumerate(B.els) if e is el), None)
    if i is None: return False
    return any(sets(e) for e in B.els[i + 1:]) or any(s in reach for s in B.succ)
