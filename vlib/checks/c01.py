"""Lock discipline of the state threads share."""
from ..flow import *
from ..locks import *
from ..paths import path, use_kind
from ..prog import short

EXPLAIN = ('Lockset dataflow over every function of the program: for each class that owns a mutex, the members that are modified after '
           'construction are accessed only at points where that object\'s mutex is certainly held (exclusively for modifications); helper '
           'methods inherit the intersection of their callers\' locksets; references into guarded storage may not leave the locked region.')
LEVEL = 'other'
# classes whose whole mutable state is shared between threads
MONITORS = ('travatar::ThreadPool', 'travatar::OutputCollector', 'travatar::SymbolSet')
SYNC = ('boost::thread_group', 'boost::thread', 'std::thread', 'boost::barrier')

def run(P, R, tier):
    R.rule('a member of a mutex-owning class that changes after construction is read or written only with the mutex held (writes: exclusively)')
    R.rule('no reference or pointer into such a member is returned')
    R.rule('a symbol table shared through a global is constructed in its thread-safe mode')
    classes = {}
    for rec in P.recs.values():
        if not rec.get('repo'): continue
        ms = [f for f in rec['fields'] if is_mutex(P, f['t'])]
        if ms: classes[rec['R']] = (rec, ms)
    R.need(len(classes) > 0, 'no class owns a mutex')
    R.set('mutex_classes', len(classes))
    own = {}
    for cid, (rec, ms) in classes.items():
        for f in rec['fields']:
            if is_mutex(P, f['t']) or is_cond(P, f['t']) or (P.T(f['t']).get('r') or '') in SYNC: continue
            own[f['id']] = cid
    # accesses per function
    acc = {}
    for fn in P.funcs.values():
        for n in fn.nodes():
            if n.k == 'MemberExpr' and n.m in own: acc.setdefault(fn.id, []).append(n)
    exempt = lambda fn, cid: (fn.isctor or fn.isdtor) and fn.cls == cid
    written = {}; constflag = {}
    for fid, ns in acc.items():
        fn = P.funcs[fid]
        for n in ns:
            u = use_kind(n, P)
            if u in ('w', 'ref', 'retref') and not exempt(fn, own[n.m]): written.setdefault(n.m, []).append((fn, n))
    # boolean members never modified after construction: the mode switches
    for f, cid in own.items():
        _, fd = P.fields[f]
        if P.T(fd['t'])['k'] == 'bool' and f not in written: constflag[f] = cid
    # the only mode switch that may stand in for a lock is one whose other side is the locked variant
    modes = set()
    for f, cid in constflag.items():
        for fn in P.funcs.values():
            if fn.cls != cid: continue
            for n in fn.nodes():
                if n.k == 'IfStmt':
                    c, pol = negate(n.c[0])
                    if c is not None and c.m == f and any(x.k in CALLS and any(y[0].rsplit('::', 1)[-1] in [m['n'] for m in classes[cid][1]] for t in P.targets(x) for y in all_acquires(P)[t.id]) for x in n.walk()): modes.add(f)
    fns = {}
    for fid in acc: fns[fid] = P.funcs[fid]
    # include methods that call helpers on this
    for fn in P.funcs.values():
        if fn.cls in classes: fns[fn.id] = fn
        if fn.islambda:
            pass
    acclevel = {}
    for cid, (rec, ms) in classes.items():
        for m in rec['methods']: acclevel[m['id']] = m['acc']
    # methods whose address is taken start with nothing held
    taken = set()
    for fn in P.funcs.values():
        for n in fn.nodes():
            if n.k == 'DeclRefExpr' and n.f in P.funcs: taken.add(n.f)
    entry = {}
    calls_of = {}
    for fn in P.funcs.values():
        for n in fn.nodes():
            if n.k in CALLS:
                for t in P.targets(n):
                    if t.id in fns: calls_of.setdefault(t.id, []).append((fn, n))
            if n.k == 'LambdaExpr' and n.f in fns: calls_of.setdefault(n.f, []).append((fn, n))
    TOP = None
    def helper(fid):
        """methods reached only from methods of the same class through this"""
        fn = P.funcs[fid]
        if fn.islambda: return True
        if fid in taken or fn.cls not in classes: return False
        cs = calls_of.get(fid, [])
        return bool(cs) and all((c.cls == fn.cls or c.islambda) and call_obj(n) is not None and path(call_obj(n), c, P) == 'this' for c, n in cs)
    state = {fid: (TOP if helper(fid) else frozenset()) for fid in fns}
    H = {}
    at = {}
    def analyse(fid):
        fn = fns[fid]; e = state[fid]
        h = Held(P, modes); H[fid] = h
        pts = {}
        def visit(f, B, el, st):
            if isinstance(el, Node): pts[el.i] = st
        h.run(fn, (e or frozenset(), frozenset()), visit)
        at[fid] = pts
    for _ in range(6):
        changed = False
        for fid in fns: 
            if state[fid] is TOP and _ == 0 and helper(fid): continue
            analyse(fid)
        for fid in fns:
            if not helper(fid): continue
            s = None
            for c, n in calls_of.get(fid, []):
                st = at.get(c.id, {}).get(n.i) if c.id in at else ((frozenset(), frozenset()) if c.id not in fns else None)
                if st is None: continue
                hs = frozenset((m, k, 'entry') for m, k, _h in st[0])
                fl = st[1]
                s = hs if s is None else s & hs
            if s is not None and s != state[fid]: state[fid] = s; changed = True
        if not changed and _ > 0: break
    # which members are guarded
    lockfield = {cid: [m['n'] for m in ms] for cid, (rec, ms) in classes.items()}
    def heldfor(fn, n, st):
        """modes in which a mutex of the object n belongs to is held"""
        b = path(n.c[0], fn, P); cid = own[n.m]
        if b is None: return set()
        want = {f'{b}.{m}' for m in lockfield[cid]}
        return {k for (m, k, h) in st[0] if m in want}
    guarded = {}
    for f in written:
        cid = own[f]
        mon = any((P.recs[cid].get('tn') or cid).startswith(m) for m in MONITORS)
        under = [1 for fid, ns in acc.items() for n in ns if n.m == f and n.i in at.get(fid, {}) and heldfor(P.funcs[fid], n, at[fid][n.i])]
        if mon or under: guarded[f] = cid
    P._guarded = set(guarded)
    R.set('guarded_members', len(guarded))
    for f in sorted(guarded): R.sample(f'guarded: {short(f)}')
    for fid, ns in sorted(acc.items()):
        fn = P.funcs[fid]
        for n in ns:
            if n.m not in guarded or exempt(fn, own[n.m]): continue
            st = at.get(fid, {}).get(n.i)
            if st is None: continue
            R.count('accesses_checked')
            u = use_kind(n, P)
            if any(P.fields[f][0] == own[n.m] for f in st[1]):
                R.count('accesses_in_unshared_mode'); continue
            modes_held = heldfor(fn, n, st)
            nm = n.m.rsplit('::', 1)[-1]
            if not modes_held:
                R.violation(f'{fn.id}|{nm}|unlocked', f'{short(fn.q)} {"modifies" if u in ("w","ref") else "reads"} {short(n.m)} without holding {"/".join(lockfield[own[n.m]])}', fn.loc(n))
            elif u == 'w' and 'X' not in modes_held:
                R.violation(f'{fn.id}|{nm}|shared-write', f'{short(fn.q)} modifies {short(n.m)} while holding {"/".join(lockfield[own[n.m]])} only for reading', fn.loc(n))
            elif u in ('retref', 'retcref'):
                R.violation(f'{fn.id}|{nm}|escapes', f'{short(fn.q)} returns a reference into {short(n.m)}, which is used after the lock is released', fn.loc(n))
    # shared instances use the safe mode
    for g, e in P.raw.ginit.items():
        gd = P.globals.get(g)
        if not gd: continue
        rc = P.rec_of(gd['t'])
        fl = [f for f in modes if P.fields[f][0] == rc]
        if fl:
            R.count('shared_tables')
            vals = []
            st = [e]
            while st:
                x = st.pop()
                if x is None: continue
                if x['k'] == 'CXXBoolLiteralExpr': vals.append(x['val'])
                st.extend(x.get('c') or [])
            if vals != [1]:
                R.violation(f'{g}|unsafe', f'the shared table {short(g)} is not constructed in its thread-safe mode', f"{gd['file'].replace('/repo/','')}:{gd['line']}")
    R.assumption('objects are not used by other threads while they are being constructed or destroyed')

def guarded_members(P):
    """the members this check holds to their lock"""
    if not hasattr(P, '_guarded'):
        from ..report import Report
        run(P, Report('C01', 'quick'), 'quick')
    return P._guarded
