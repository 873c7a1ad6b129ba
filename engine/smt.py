"""Terms -> z3.  Bit-vector operations are exact.  Floating-point nodes that the term level could
not decide exactly (tables over a byte are exact) are over-approximated: an arbitrary real with
the interval derived at term level, ordered consistently by the comparisons (so a `proved` answer
is sound; a model is only a candidate and is replayed against the real code)."""
import time
import z3
import term as t
from term import isc

class Stats:
    def __init__(s): s.queries = 0; s.time = 0.0; s.unsat = 0; s.sat = 0; s.unknown = 0
STATS = Stats()

class Enc:
    """memoised translation; one instance per z3 context"""
    def __init__(s):
        s.memo = {}; s.side = []; s.vars = {}; s.fresh = 0; s.opaque = set(); s.tabmemo = {}

    def bv(s, x):
        """x as a z3 bit-vector (w > 1)"""
        return s.tr(x)

    def as_bv(s, x):
        e = s.tr(x)
        return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if x.w == 1 else e

    def tr(s, root):
        m = s.memo
        if root.id in m: return m[root.id]
        stack = [root]
        while stack:
            x = stack[-1]
            if x.id in m: stack.pop(); continue
            if x.op in ("fcmp", "f2s", "f2u", "f2bits"):
                todo = [y for y in s.fdeps(x) if y.id not in m]
                if todo: stack.extend(todo); continue
            elif x.fk and x.op != "ite" and x.op != "tab":
                m[x.id] = s.fl(x); stack.pop(); continue
            else:
                todo = [y for y in x.a if y.id not in m]
                if todo: stack.extend(todo); continue
            m[x.id] = s.one(x); stack.pop()
        return m[root.id]

    def fdeps(s, x): return x.a

    def fl(s, x):
        """(real expr, nan Bool) abstraction of a float leaf"""
        if x.op == "fc":
            if x.nan: return (z3.RealVal(0), z3.BoolVal(True))
            v = t.bits_f(x.p)
            if v == t.INF: return (s.inf(), z3.BoolVal(False))
            if v == -t.INF: return (-s.inf(), z3.BoolVal(False))
            n, d = float(v).as_integer_ratio()
            return (z3.RealVal(f"{n}/{d}") if d != 1 else z3.RealVal(n), z3.BoolVal(False))
        r = z3.Real(f"f{x.id}")
        if x.nan:
            nb = z3.Bool(f"n{x.id}")
        else: nb = z3.BoolVal(False)
        s.opaque.add(x.id)
        cs = []
        if x.lo <= x.hi:
            cs.append(r >= s.rv(x.lo)); cs.append(r <= s.rv(x.hi))
            s.side.append(z3.And(*cs))
        elif x.nan: s.side.append(nb)
        return (r, nb)

    def rv(s, v):
        if v == t.INF: return s.inf()
        if v == -t.INF: return -s.inf()
        n, d = float(v).as_integer_ratio()
        return z3.RealVal(f"{n}/{d}")

    def inf(s): return z3.RealVal(2 ** 130)

    def table(s, x, idx, vals, fk):
        """Shannon tree over the bits of idx"""
        w = x.w
        def leaf(v):
            if fk: return s.fl(t.FCb(v))
            if w == 1: return z3.BoolVal(bool(v))
            return z3.BitVecVal(v, w)
        e = s.as_bv(idx); n = idx.w
        bits = [z3.Extract(i, i, e) == z3.BitVecVal(1, 1) for i in range(n)]
        memo = {}
        def go(lvl, vs):
            if all(v == vs[0] for v in vs): return leaf(vs[0])
            k = (lvl, vs)
            if k in memo: return memo[k]
            h = len(vs) // 2
            a = go(lvl - 1, vs[:h]); b = go(lvl - 1, vs[h:])
            if fk: r = (z3.If(bits[lvl], b[0], a[0]), z3.If(bits[lvl], b[1], a[1]))
            elif w == 1:
                r = z3.If(bits[lvl], b, a)
            else: r = z3.If(bits[lvl], b, a)
            memo[k] = r
            return r
        return go(n - 1, x.p)

    def one(s, x):
        op = x.op; m = s.memo
        A = [m[y.id] for y in x.a] if op != "tab" else None
        if op == "c": return z3.BoolVal(bool(x.p)) if x.w == 1 else z3.BitVecVal(x.p, x.w)
        if op == "v":
            v = z3.Bool(x.p) if x.w == 1 else z3.BitVec(x.p, x.w)
            assert x.p not in s.vars, f"two variables named {x.p}"
            s.vars[x.p] = (v, x)
            if x.w > 1 and (x.lo > 0 or x.hi < (1 << x.w) - 1):
                s.side.append(z3.And(z3.UGE(v, x.lo), z3.ULE(v, x.hi)))
            return v
        if op == "tab": return s.table(x, x.a[0], x.p, x.fk)
        if op == "ite":
            if x.fk: return (z3.If(A[0], A[1][0], A[2][0]), z3.If(A[0], A[1][1], A[2][1]))
            return z3.If(A[0], A[1], A[2])
        if op == "cat": return z3.Concat(*[s.as_bv(y) for y in x.a])
        if op == "ext":
            if x.a[0].w == 1: return A[0]
            r = z3.Extract(x.p[0], x.p[1], A[0])
            return r == z3.BitVecVal(1, 1) if x.w == 1 else r
        if op == "not": return z3.Not(A[0]) if x.w == 1 else ~A[0]
        if op == "and":
            if x.w == 1: return z3.And(*A)
            return A[0] & A[1]
        if op == "or": return z3.Or(*A) if x.w == 1 else A[0] | A[1]
        if op == "xor": return z3.Xor(*A) if x.w == 1 else A[0] ^ A[1]
        if op == "add": return A[0] + A[1]
        if op == "sub": return A[0] - A[1]
        if op == "mul": return A[0] * A[1]
        if op == "udiv": return z3.UDiv(A[0], A[1])
        if op == "urem": return z3.URem(A[0], A[1])
        if op == "sdiv": return A[0] / A[1]
        if op == "srem": return z3.SRem(A[0], A[1])
        if op == "shl": return A[0] << A[1]
        if op == "lshr": return z3.LShR(A[0], A[1])
        if op == "ashr": return A[0] >> A[1]
        if op == "eq": return A[0] == A[1]
        if op == "ult": return z3.ULT(A[0], A[1])
        if op == "slt": return A[0] < A[1]
        if op == "sext": return z3.SignExt(x.w - x.a[0].w, s.as_bv(x.a[0]))
        if op == "zext": return z3.ZeroExt(x.w - x.a[0].w, s.as_bv(x.a[0]))
        if op == "absd": return z3.If(z3.ULT(A[0], A[1]), A[1] - A[0], A[0] - A[1])
        if op == "fcmp":
            (a, an), (b, bn) = A
            ok = z3.Not(z3.Or(an, bn))
            if x.p == "uno": return z3.Or(an, bn)
            if x.p == "olt": return z3.And(ok, a < b)
            if x.p == "ole": return z3.And(ok, a <= b)
            if x.p == "oeq": return z3.And(ok, a == b)
            if x.p == "one": return z3.And(ok, a != b)
            raise NotImplementedError(x.p)
        if op in ("f2s", "f2u"):
            v = z3.BitVec(f"i{x.id}", x.w)
            s.opaque.add(x.id)
            if x.lo > 0 or x.hi < (1 << x.w) - 1: s.side.append(z3.And(z3.UGE(v, x.lo), z3.ULE(v, x.hi)))
            return v
        if op == "f2bits":
            s.opaque.add(x.id)
            return z3.BitVec(f"i{x.id}", x.w)
        raise NotImplementedError(op)

class Solver:
    """incremental solver with memoised encoding"""
    def __init__(s, timeout_ms=20000):
        s.e = Enc(); s.z = z3.Solver(); s.ns = 0
        s.z.set("timeout", timeout_ms); s.deadline = None
        s.model = None

    def lit(s, c):
        e = s.e.tr(c)
        while s.ns < len(s.e.side):
            s.z.add(s.e.side[s.ns]); s.ns += 1
        return e

    def check(s, conds, timeout_ms=None):
        """is the conjunction satisfiable?  'sat' / 'unsat' / 'unknown'"""
        ls = []
        for c in conds:
            if c.op == "c":
                if not c.p: return "unsat"
                continue
            ls.append(s.lit(c))
        if timeout_ms: s.z.set("timeout", timeout_ms)
        t0 = time.time()
        s.z.push(); s.z.add(*ls)
        r = str(s.z.check())
        s.model = s.z.model() if r == "sat" else None
        s.z.pop()
        STATS.queries += 1; STATS.time += time.time() - t0
        setattr(STATS, r, getattr(STATS, r) + 1)
        return r

    def env(s, default=0):
        """concrete input assignment from the last model (input variables only)"""
        out = {}
        for n, (v, x) in s.e.vars.items():
            if n.startswith("$"): continue
            mv = s.model.eval(v, model_completion=True)
            out[n] = (1 if z3.is_true(mv) else 0) if x.w == 1 else mv.as_long()
        return out

class BVSolver(Solver):
    """for pure bit-vector queries: bit-blasting, one solver per query"""
    def check(s, conds, timeout_ms=20000):
        ls = []
        for c in conds:
            if c.op == "c":
                if not c.p: return "unsat"
                continue
            ls.append(s.e.tr(c))
        z = z3.Then("simplify", "solve-eqs", "bit-blast", "sat").solver()
        z.set("timeout", timeout_ms or 20000)
        z.add(*ls, *s.e.side)
        t0 = time.time(); r = str(z.check())
        s.model = z.model() if r == "sat" else None
        STATS.queries += 1; STATS.time += time.time() - t0
        setattr(STATS, r, getattr(STATS, r) + 1)
        return r
