"""Control dependence."""
def exits(fn):
    return [b for b, B in fn.cfg.items() if b == fn.exit or not [s for s in B.succ if s in fn.cfg]]

def postdom(fn):
    """block -> set of blocks that are on every way from it to an end of the function"""
    c = getattr(fn, '_pdom', None)
    if c is not None: return c
    cfg = fn.cfg; ids = list(cfg); allb = frozenset(ids)
    pd = {b: set(allb) for b in ids}
    ends = set(exits(fn))
    for e in ends: pd[e] = {e}
    ch = True
    while ch:
        ch = False
        for b in ids:
            if b in ends: continue
            ss = [s for s in cfg[b].succ if s in cfg]
            # a throw leaves for good: it ends the function elsewhere than its normal end
            if cfg[b].throws and fn.exit in ss: n = {b}
            else:
                n = set(allb)
                for s in ss: n &= pd[s]
                n.add(b)
            if n != pd[b]: pd[b] = n; ch = True
    fn._pdom = pd
    return pd

def cdeps(fn):
    """block -> blocks (branches) it is directly control dependent on"""
    c = getattr(fn, '_cdep', None)
    if c is not None: return c
    pd = postdom(fn); cfg = fn.cfg; out = {b: set() for b in cfg}
    for a, A in cfg.items():
        ss = [s for s in A.succ if s in cfg]
        if len(set(ss)) < 2: continue
        for s in ss:
            for x in pd[s]:
                if x not in pd[a] or x == a: out[x].add(a)
    fn._cdep = out
    return out

def controlled(fn, branch):
    """blocks whose execution depends, directly or not, on which way block `branch` goes"""
    cd = cdeps(fn); out = set(); work = [branch]; seen = set()
    while work:
        a = work.pop()
        if a in seen: continue
        seen.add(a)
        for x, deps in cd.items():
            if a in deps and x not in out: out.add(x); work.append(x)
    return out
