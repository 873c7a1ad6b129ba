"""Equivalence sweeping: nodes of a set of terms that behave alike on sample inputs are proved equal by
small solver queries (over cuts of the terms, which is sound: a cut only generalises) and merged, bottom up."""
import time
import term as t, smt

def cut(roots, depth, keep=()):
    """roots with everything more than `depth` operators below a root replaced by variables"""
    dist = {}
    todo = [(r, 0) for r in roots]
    while todo:                          # breadth first: shortest distance
        nx = []
        for x, d in todo:
            if x.id in dist and dist[x.id] <= d: continue
            dist[x.id] = d
            if d < depth: nx += [(y, d + 1) for y in x.a]
        todo = nx
    m = {}
    for r in roots:
        for x in t.nodes_if(r, lambda y: dist.get(y.id, depth) < depth):
            if dist.get(x.id, depth) >= depth and x.op not in ("c", "v", "fc") and not x.fk: m[x.id] = t.V(f"cut{x.id}", x.w, x.lo, x.hi)
    return t.subst(roots, m)

def same(a, b, depths=(3, 6), ms=1500, full=None):
    """is a == b for all inputs?"""
    if a is b: return True
    for d in depths:
        p, q = cut([a, b], d)
        if p is q: return True
        g = t.eq(p, q)
        if g is t.TRUE: return True
        if g is t.FALSE: continue
        if smt.BVSolver().check([t.bnot(g)], ms) == "unsat": return True
    if full:
        g = t.eq(a, b)
        return g is t.TRUE or smt.BVSolver().check([t.bnot(g)], full) == "unsat"
    return False

def match(roots, spec, envs, left=lambda: 1e9, limit=2, **kw):
    """roots rewritten so that nodes (more than one bit wide) proved equal to a node of the terms `spec`, or
    already matched, are replaced by it; returns (roots, matched, tried)"""
    sn = t.nodes(spec)
    sig = t.evaluate_many(list(spec) + list(roots), envs)
    classes = {}
    for x in sn:
        if x.w > 1 and not x.fk and x.op not in ("c", "v"): classes.setdefault((x.w, sig[x.id]), []).append(x)
    rep = {x.id: x for x in sn}; n = tried = 0
    for x in t.nodes(roots):
        if x.id in rep: continue
        a = [rep[y.id] for y in x.a]
        y = x if all(p is q for p, q in zip(a, x.a)) else t.rebuild(x, a)
        rep[x.id] = y
        if y.w == 1 or y.fk or y.op in ("c", "v"): continue
        for c in classes.get((y.w, sig[x.id]), [])[:limit]:
            if c is y: break
            if left() <= 0: break
            tried += 1
            if same(y, c, **kw): rep[x.id] = c; n += 1; break
    return [rep[x.id] for x in roots], n, tried
