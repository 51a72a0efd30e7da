"""No self-deadlock, no lock-order cycle, no blocking call under a lock, no lock left held."""
from ..flow import *
from ..locks import *
from ..paths import path
from ..prog import short

LEVEL = 'other'
EXPLAIN = ('May-lockset dataflow over every function plus a fixpoint of "mutexes this call may take" over the call graph: at each acquisition and '
           'call made with a mutex held, the callee must not take the same mutex of the same object, the order in which different mutexes nest '
           'must be acyclic, no thread join, sleep, task execution or wait on another lock may happen, and explicit lock() calls are matched on every exit.')

class MayHeld(Held):
    def join(self, a, b): return (a[0] | b[0], a[1] & b[1])

BLOCK = {'join_all', 'join', 'sleep', 'usleep', 'sleep_for', 'nanosleep', 'timed_join', 'interruption_point', 'pause', 'select'}

def run(P, R, tier):
    R.rule('a mutex held by a thread is not acquired again by that thread')
    R.rule('the order in which mutexes nest has no cycle')
    R.rule('no join, sleep, task execution or wait for another lock\'s condition while a mutex is held')
    R.rule('every explicit lock() is released on every path out of the function')
    acq = all_acquires(P)
    R.set('functions_that_may_lock', sum(1 for v in acq.values() if v))
    R.need(any(acq.values()), 'no function takes a lock')
    fieldtypes = {}
    order = {}
    taskrun = set()
    for fn in P.funcs.values():
        if fn.cls and P.derives(fn.cls, 'travatar::Task') and fn.name == 'Run': taskrun.add(fn.id)
    taskrun |= {m for m, s in P.overriders.items() if s & taskrun}
    # functions that may block (transitively), or run a task
    blocks = {}
    def directly(n):
        if n.k in CALLS and n.f:
            d = P.decls[n.f]
            if n.f in taskrun: return f'runs a task ({short(d["q"])})'
            if d['n'] in BLOCK and n.f not in P.funcs and (d.get('cls') is None or 'thread' in (d.get('cls') or '')): return f'calls {d["n"]}'
            if n.k == 'CXXMemberCallExpr' and d['n'] in ('wait', 'timed_wait', 'wait_for', 'wait_until') and n.c[0] is not None and is_cond(P, n.c[0].t): return f'waits on {path(n.c[0], n.fn, P)}'
        return None
    callers = {}
    for fn in P.funcs.values():
        for n in fn.nodes():
            if n.k in CALLS:
                w = directly(n)
                if w: blocks.setdefault(fn.id, (w, fn.loc(n)))
                for t in P.targets(n): callers.setdefault(t.id, set()).add(fn.id)
    work = list(blocks)
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c not in blocks: blocks[c] = (blocks[x][0] + ' in ' + short(P.funcs[x].q), blocks[x][1]); work.append(c)
    for fn in P.funcs.values():
        if not any((n.k == 'VarDecl' and lock_kind(P, n.t)) or (n.k == 'CXXMemberCallExpr' and n.f and P.decls[n.f]['n'].startswith('lock') and n.c[0] is not None and (is_mutex(P, n.c[0].t) or lock_kind(P, n.c[0].t))) for n in fn.nodes()): continue
        R.count('locking_functions')
        H = MayHeld(P)
        def visit(f, B, el, st):
            if not isinstance(el, Node): return
            held = st[0]
            if not held: return
            paths = {h[0] for h in held}
            # direct acquisition
            if el.k == 'VarDecl' and el.v is not None and lock_kind(P, el.t) and el.c:
                args = list(el.c[0].c) if el.c[0].k in CTORS else [el.c[0]]
                if args and not lock_kind(P, args[0].t) and not (len(args) > 1 and ('defer' in P.ts(args[1].t) or 'adopt' in P.ts(args[1].t))):
                    R.count('nested_acquisitions')
                    m = path(args[0], f, P)
                    if m in paths and not is_recursive(P, args[0].t):
                        R.violation(f'{f.id}|relock {m}', f'{short(f.q)} locks {m} while already holding it', f.loc(el))
                    for h in paths: order.setdefault(fieldof.get((f.id, h), h), {}).setdefault(mfield(args[0], P), f.loc(el))
            if el.k in CALLS or el.k in CTORS:
                R.count('calls_under_lock')
                w = directly(el)
                if w:
                    ok = False
                    if w.startswith('waits'):
                        a = call_args(el)
                        lv = a[0].v if a and a[0].k == 'DeclRefExpr' else None
                        ok = all(h[2] == lv for h in held)
                    if not ok: R.violation(f'{f.id}|blocks {w.split(" (")[0]}', f'{short(f.q)} {w} while holding {sorted(paths)}', f.loc(el))
                o = call_obj(el); base = path(o, f, P) if o is not None else None
                for t in P.targets(el):
                    for (mf, mp, loc) in acq[t.id]:
                        mp2 = None
                        if mp and mp.startswith('this') and base: mp2 = base + mp[4:]
                        elif mp and mp.startswith('g:'): mp2 = mp
                        if mp2 in paths and not (mf in P.fields and is_recursive(P, P.fields[mf][1]['t'])):
                            R.violation(f'{f.id}|calls {short(t.q)} relocks {mp2}', f'{short(f.q)} calls {short(t.q)} while holding {mp2}, which that call locks again', f.loc(el), [f'acquired again at {loc}'])
                        for h in paths:
                            a = fieldof.get((f.id, h), h)
                            if a != mf: order.setdefault(a, {}).setdefault(mf, f'{f.loc(el)} -> {loc}')
                    if t.id in blocks and not w:
                        R.violation(f'{f.id}|calls {short(t.q)} which blocks', f'{short(f.q)} calls {short(t.q)}, which {blocks[t.id][0]}, while holding {sorted(paths)}', f.loc(el), [f'blocks at {blocks[t.id][1]}'])
        fieldof = {}
        for n in fn.nodes():
            if n.k == 'VarDecl' and lock_kind(P, n.t) and n.c:
                args = list(n.c[0].c) if n.c[0].k in CTORS else [n.c[0]]
                if args and not lock_kind(P, args[0].t): fieldof[(fn.id, path(args[0], fn, P))] = mfield(args[0], P)
            if n.k == 'CXXMemberCallExpr' and n.c[0] is not None and is_mutex(P, n.c[0].t): fieldof[(fn.id, path(n.c[0], fn, P))] = mfield(n.c[0], P)
        normal, thrown, _ = H.run(fn, (frozenset(), frozenset()), visit)
        for what, st in (('returns', normal), ('throws', thrown)):
            if st is None: continue
            for h in st[0]:
                if h[2] == 'manual':
                    R.violation(f'{fn.id}|leaves {h[0]} locked', f'{short(fn.q)} can finish ({what}) with {h[0]} still locked', fn.loc())
    # order cycles
    R.set('lock_order_edges', sum(len(v) for v in order.values()))
    seen = {}
    def dfs(x, st):
        seen[x] = 1
        for y, loc in order.get(x, {}).items():
            if y == x: continue
            if seen.get(y) == 1:
                cyc = st[st.index(y):] + [x] if y in st else [x]
                R.violation('cycle|' + '|'.join(sorted(set(cyc + [y]))), f'mutexes {" -> ".join(short(c) for c in cyc)} -> {short(y)} are taken in a cycle', loc)
            elif y not in seen: dfs(y, st + [x])
        seen[x] = 2
    for x in list(order):
        if x not in seen: dfs(x, [])
    R.assumption('locks are only taken through the boost/std mutex and lock classes')
