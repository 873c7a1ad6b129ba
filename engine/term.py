"""Hash-consed symbolic terms with a simplifier, unsigned/float intervals and exact
"table" nodes (functions of one small bit-vector, kept as their value table).

kinds:  bit-vectors of width w (w == 1 is the boolean sort), float32 (w == 32, fk True).
"""
import numpy as np
from fractions import Fraction
import math, warnings
warnings.filterwarnings("ignore")

F32 = np.float32
INF = float("inf")

_tab = {}
_cnt = [0]

class T:
    __slots__ = ("op", "a", "p", "w", "lo", "hi", "fk", "nan", "m", "id", "sz")
    def __repr__(self):
        return show(self, 3)

def reset():
    _tab.clear(); _memo.clear(); _cnt[0] = 0
    _init()

def _mk(op, a, p, w, lo, hi, fk=False, nan=False, m=False):
    k = (op, tuple([x.id for x in a]), p, w, fk)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op; t.a = a; t.p = p; t.w = w; t.lo = lo; t.hi = hi; t.fk = fk; t.nan = nan; t.m = m
    _cnt[0] += 1
    t.id = _cnt[0]
    t.sz = 0
    _tab[k] = t
    return t

def show(t, d=4):
    if t.op == "c": return f"{t.p:#x}" if t.w > 8 else str(t.p)
    if t.op == "fc": return f"{bits_f(t.p)}f"
    if t.op == "v": return str(t.p)
    if d == 0: return f"#{t.id}"
    if t.op == "tab": return f"tab[{show(t.a[0], d-1)}]"
    return f"{t.op}{'' if t.p is None else t.p}(" + ",".join(show(x, d-1) for x in t.a) + ")"

# ------------------------------------------------------------------ constants / variables
_memo = {}

def C(v, w):
    v &= (1 << w) - 1
    return _mk("c", (), v, w, v, v, m=True)

def _init():
    global TRUE, FALSE
    TRUE = C(1, 1); FALSE = C(0, 1)
TRUE = FALSE = None

def V(name, w, lo=0, hi=None):
    if hi is None: hi = (1 << w) - 1
    return _mk("v", (), name, w, lo, hi)

def f_bits(x):
    return int(np.array(F32(x)).view(np.uint32))

def bits_f(b):
    return np.array(b & 0xffffffff, dtype=np.uint32).view(F32)[()]

CANON_NAN = 0x7fc00000

def FCb(b):
    v = bits_f(b)
    if np.isnan(v):
        b = CANON_NAN
        return _mk("fc", (), b, 32, INF, -INF, True, True, True)
    return _mk("fc", (), b, 32, float(v), float(v), True, False, True)

def FC(x): return FCb(f_bits(x))

def FV(name, lo, hi, nan=False):
    return _mk("v", (), name, 32, float(lo), float(hi), True, nan)

def isc(t): return t.op == "c"
def isfc(t): return t.op == "fc"

# ------------------------------------------------------------------ tables
MAXTAB = 9

def tabn(x, vals, w, fk=False):
    """vals: tuple of ints (bit patterns) indexed by the value of x."""
    first = vals[0]
    if all(v == first for v in vals):
        return FCb(first) if fk else C(first, w)
    if not fk:
        if x.w <= w and all(v == i for i, v in enumerate(vals)):
            return zext(x, w)
        if w == 1 and x.w == 1:
            return x if vals == (0, 1) else bnot(x)
        lo, hi = min(vals[x.lo:x.hi+1]), max(vals[x.lo:x.hi+1])
        return _mk("tab", (x,), vals, w, lo, hi, m=True)
    fs = [bits_f(v) for v in vals[x.lo:x.hi+1]]
    nan = any(np.isnan(f) for f in fs)
    nn = [float(f) for f in fs if not np.isnan(f)]
    return _mk("tab", (x,), vals, w, min(nn) if nn else INF, max(nn) if nn else -INF, True, nan, True)

def const_of(t, v):
    return FCb(v) if t.fk else C(v, t.w)

MAPLIM = 8000      # nesting depth of ite-DAGs that operations are mapped into

def _leaf_map(t, f, key, budget):
    """map f over the const/tab leaves of a mappable ite-DAG (memoised)"""
    k = (key, t.id)
    r = _memo.get(k)
    if r is not None: return r
    if t.op == "ite":
        stack = [t]
        # iterative post-order
        while stack:
            x = stack[-1]
            kx = (key, x.id)
            if kx in _memo:
                stack.pop(); continue
            if x.op != "ite":
                _memo[kx] = f(x); stack.pop(); continue
            l = _memo.get((key, x.a[1].id)); rr = _memo.get((key, x.a[2].id))
            if l is not None and rr is not None:
                _memo[kx] = ite(x.a[0], l, rr); stack.pop()
            else:
                if l is None: stack.append(x.a[1])
                if rr is None: stack.append(x.a[2])
        return _memo[k]
    r = f(t)
    _memo[k] = r
    return r

# generic evaluation on concrete values: used for constants and table entries
def _ev(op, p, w, vals, ws):
    """vals: ints (bit patterns).  returns bit pattern."""
    M = (1 << w) - 1
    if op == "add": return (vals[0] + vals[1]) & M
    if op == "sub": return (vals[0] - vals[1]) & M
    if op == "mul": return (vals[0] * vals[1]) & M
    if op == "udiv": return vals[0] // vals[1] if vals[1] else M
    if op == "urem": return vals[0] % vals[1] if vals[1] else vals[0]
    if op == "sdiv":
        a, b = sg(vals[0], w), sg(vals[1], w)
        if b == 0: return M if a >= 0 else 1
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & M
    if op == "srem":
        a, b = sg(vals[0], w), sg(vals[1], w)
        if b == 0: return vals[0]
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & M
    if op == "and":
        r = vals[0]
        for v in vals[1:]: r &= v
        return r
    if op == "or": return vals[0] | vals[1]
    if op == "xor": return vals[0] ^ vals[1]
    if op == "shl": return (vals[0] << vals[1]) & M if vals[1] < w else 0
    if op == "lshr": return vals[0] >> vals[1] if vals[1] < w else 0
    if op == "ashr":
        s = min(vals[1], w - 1)
        return (sg(vals[0], w) >> s) & M
    if op == "not": return (~vals[0]) & M
    if op == "eq": return int(vals[0] == vals[1])
    if op == "ult": return int(vals[0] < vals[1])
    if op == "slt": return int(sg(vals[0], ws[0]) < sg(vals[1], ws[1]))
    if op == "zext": return vals[0]
    if op == "sext": return sg(vals[0], ws[0]) & M
    if op == "ext": return (vals[0] >> p[1]) & ((1 << (p[0] - p[1] + 1)) - 1)
    if op == "u2f": return f_bits(F32(vals[0]))
    if op == "s2f": return f_bits(F32(sg(vals[0], ws[0])))
    if op == "f2bits": return vals[0]
    if op == "bits2f": return vals[0]
    f = [bits_f(v) for v in vals]
    if op == "fadd": return f_bits(f[0] + f[1])
    if op == "fsub": return f_bits(f[0] - f[1])
    if op == "fmul": return f_bits(f[0] * f[1])
    if op == "fdiv": return f_bits(f[0] / f[1])
    if op == "frem": return f_bits(np.fmod(f[0], f[1]))
    if op == "fneg": return vals[0] ^ 0x80000000
    if op == "fabs": return vals[0] & 0x7fffffff
    if op == "fsqrt": return f_bits(np.sqrt(f[0]))
    if op == "ftrunc": return f_bits(np.trunc(f[0]))
    if op == "ffloor": return f_bits(np.floor(f[0]))
    if op == "fceil": return f_bits(np.ceil(f[0]))
    if op == "frint": return f_bits(np.rint(f[0]))
    if op == "fround": return f_bits(c_roundf(f[0]))
    if op == "fmax": return vals[1] if np.isnan(f[0]) else vals[0] if np.isnan(f[1]) else (vals[0] if f[0] > f[1] else vals[1] if f[1] > f[0] else (vals[0] & vals[1]))
    if op == "fmin": return vals[1] if np.isnan(f[0]) else vals[0] if np.isnan(f[1]) else (vals[0] if f[0] < f[1] else vals[1] if f[1] < f[0] else (vals[0] | vals[1]))
    if op == "fcopysign": return (vals[0] & 0x7fffffff) | (vals[1] & 0x80000000)
    if op == "fma":
        if not all(np.isfinite(x) for x in f): return f_bits(f[0] * f[1] + f[2])
        return f_bits(_round_frac(Fraction(float(f[0])) * Fraction(float(f[1])) + Fraction(float(f[2]))))
    if op == "f2s":  # saturating
        if np.isnan(f[0]): return 0
        x = float(f[0]); lo = -(1 << (w - 1)); hi = (1 << (w - 1)) - 1
        return (lo if x <= lo else hi if x >= hi else int(x)) & M
    if op == "f2u":
        if np.isnan(f[0]): return 0
        x = float(f[0])
        return 0 if x <= 0 else M if x >= M else int(x)
    if op == "fcmp":
        return int(_fcmp(p, f[0], f[1]))
    raise NotImplementedError(op)

def _round_frac(q):
    # exact rational -> nearest float32 (via correctly rounded double would double-round)
    if q == 0: return F32(0.0)
    d = float(q)             # correctly rounded double
    c = F32(d)
    cands = [c, np.nextafter(c, F32(INF)), np.nextafter(c, F32(-INF))]
    best = None
    for x in cands:
        if not np.isfinite(x): continue
        e = abs(Fraction(float(x)) - q)
        key = (e, int(np.array(x).view(np.uint32)) & 1)
        if best is None or key < best[0]: best = (key, x)
    return best[1]

def c_roundf(x):
    if not np.isfinite(x) or abs(float(x)) >= 2 ** 23: return x
    d = float(x)
    r = math.floor(abs(d) + 0.5)       # exact in double
    return F32(math.copysign(r, d))

def _fcmp(p, a, b):
    un = bool(np.isnan(a) or np.isnan(b))
    if p == "ord": return not un
    if p == "uno": return un
    if p == "true": return True
    if p == "false": return False
    k = p[1:]
    if un: return p[0] == "u"
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k]

def sg(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

_FLOATRES = {"u2f", "s2f", "bits2f", "fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fabs", "fsqrt", "ftrunc", "ffloor", "fceil", "frint", "fround", "fmax", "fmin", "fcopysign", "fma"}

def _fold(op, p, w, a):
    """constant folding / table folding / leaf mapping.  returns term or None"""
    n = len(a)
    fk = op in _FLOATRES
    allc = True
    for x in a:
        if x.op != "c" and x.op != "fc":
            allc = False; break
    if allc:
        v = _ev(op, p, w, [x.p for x in a], [x.w for x in a])
        return FCb(v) if fk else C(v, w)
    if n == 1:
        x = a[0]
        if x.op == "tab":
            ws = [x.w]
            vals = tuple([_ev(op, p, w, [v], ws) for v in x.p])
            if fk: vals = tuple([CANON_NAN if np.isnan(bits_f(v)) else v for v in vals])
            return tabn(x.a[0], vals, w, fk)
        if x.op == "ite" and x.m and x.sz <= MAPLIM:
            return _leaf_map(x, lambda l: build(op, p, w, (l,)), (op, p, w, 0), None)
        return None
    if n == 2:
        x, y = a
        xs = x.a[0] if x.op == "tab" else None
        ys = y.a[0] if y.op == "tab" else None
        if xs is not None and (xs is ys or y.op in ("c", "fc")) or ys is not None and x.op in ("c", "fc"):
            s = xs if xs is not None else ys
            n_ = 1 << s.w
            xv = x.p if xs is not None else (x.p,) * n_
            yv = y.p if ys is not None else (y.p,) * n_
            ws = [x.w, y.w]
            vals = tuple([_ev(op, p, w, [u, v], ws) for u, v in zip(xv, yv)])
            if fk: vals = tuple([CANON_NAN if np.isnan(bits_f(v)) else v for v in vals])
            return tabn(s, vals, w, fk)
        # table over a small variable combined with the variable itself
        if x.op == "ite" and x.m and x.sz <= MAPLIM and y.op in ("c", "fc"):
            return _leaf_map(x, lambda l: build(op, p, w, (l, y)), (op, p, w, 1, y.id), None)
        if y.op == "ite" and y.m and y.sz <= MAPLIM and x.op in ("c", "fc"):
            return _leaf_map(y, lambda l: build(op, p, w, (x, l)), (op, p, w, 2, x.id), None)
    return None

# ------------------------------------------------------------------ build dispatcher
def build(op, p, w, a):
    if op == "add": return add(*a)
    if op == "sub": return sub(*a)
    if op == "mul": return mul(*a)
    if op == "and":
        r = a[0]
        for x in a[1:]: r = band(r, x)
        return r
    if op == "or": return bor(*a)
    if op == "xor": return bxor(*a)
    if op == "not": return bnot(*a)
    if op in ("udiv", "urem", "sdiv", "srem"): return div(op, *a)
    if op == "shl": return shl(*a)
    if op == "lshr": return lshr(*a)
    if op == "ashr": return ashr(*a)
    if op == "eq": return eq(*a)
    if op == "ult": return ult(*a)
    if op == "slt": return slt(*a)
    if op == "zext": return zext(a[0], w)
    if op == "sext": return sext(a[0], w)
    if op == "ext": return ext(a[0], *p)
    if op == "fcmp": return fcmp(p, *a)
    if op == "f2s" or op == "f2u": return f2i(op, a[0], w)
    if op == "f2bits": return f2bits(a[0])
    if op == "bits2f": return bits2f(a[0])
    if op in ("u2f", "s2f"): return i2f(op, a[0])
    if op.startswith("f"): return fop(op, *a)
    raise NotImplementedError(op)

# ------------------------------------------------------------------ bit slices (concat normal form)
# concat p=None, a = parts, most significant first.
def parts(t):
    if t.op == "cat": return list(t.a)
    return [t]

def _slice_base(t):
    if t.op == "ext": return t.a[0], t.p[0], t.p[1]
    return t, t.w - 1, 0

def cat(ps):
    """most significant first"""
    out = []
    for q in ps:
        for x in parts(q):
            if out:
                y = out[-1]
                if y.op == "c" and x.op == "c":
                    out[-1] = C((y.p << x.w) | x.p, y.w + x.w); continue
                if not (y.op == "c" or x.op == "c"):
                    by, hy, ly = _slice_base(y); bx, hx, lx = _slice_base(x)
                    if by is bx and ly == hx + 1:
                        out[-1] = ext(by, hy, lx)
                        if out[-1].op == "cat":   # flattened again
                            z = out.pop(); out.extend(z.a)
                        continue
            out.append(x)
    if len(out) == 1: return out[0]
    w = sum(x.w for x in out)
    var = None; same = None; ok = True
    for x in out:
        if x.op == "c": continue
        if x.op != "ite" or not x.m or x.sz > MAPLIM: ok = False; break
        if var is None: var = x; n_ = 1
        elif x.a[0] is not var.a[0]: ok = False; break
        else: n_ += 1
    if ok and var is not None:
        if n_ == 1:
            i = out.index(var); pre, post = out[:i], out[i+1:]
            return _leaf_map(var, lambda l: cat(pre + [l] + post), ("cat1", tuple(x.id for x in pre), tuple(x.id for x in post)), None)
        k = ("cats",) + tuple(x.id for x in out)
        r = _memo.get(k)
        if r is None:
            A = cat([x if x.op == "c" else x.a[1] for x in out]); B = cat([x if x.op == "c" else x.a[2] for x in out])
            r = ite(var.a[0], A, B) if A.m and B.m else False
            _memo[k] = r
        if r is not False: return r
    if len(out) == 2 and out[0].op == "c" and out[0].p == 0 and out[1].op == "ite" and out[1].m and out[1].sz <= MAPLIM:
        return zext_mapped(out[1], w)
    nc = [i for i, x in enumerate(out) if x.op != "c"]
    if len(nc) == 1 and out[nc[0]].op == "tab":
        # constants around a table: still a table
        i = nc[0]; x = out[i]; hi = lo = 0; lw = 0
        for y in out[:i]: hi = (hi << y.w) | y.p
        for y in out[i + 1:]: lo = (lo << y.w) | y.p; lw += y.w
        return tabn(x.a[0], tuple([((hi << x.w | v) << lw) | lo for v in x.p]), w)
    lo = hi = 0
    for x in out:
        lo = (lo << x.w) | x.lo; hi = (hi << x.w) | x.hi
    return _mk("cat", tuple(out), None, w, lo, hi)

def zext_mapped(t, w):
    return _leaf_map(t, lambda l: zext(l, w), ("zext", None, w, 0), None)

def zext(t, w):
    if t.w == w: return t
    assert t.w < w
    if t.op == "c": return C(t.p, w)
    if t.op == "tab": return tabn(t.a[0], t.p, w)
    if t.op == "ite" and t.m and t.sz <= MAPLIM: return zext_mapped(t, w)
    if t.w == 1:
        return ite(t, C(1, w), C(0, w))
    return cat([C(0, w - t.w), t])

def sext(t, w):
    if t.w == w: return t
    r = _fold("sext", None, w, (t,))
    if r is not None: return r
    if t.w == 1: return ite(t, C(-1, w), C(0, w))
    if t.hi < (1 << (t.w - 1)): return zext(t, w)
    if t.lo >= (1 << (t.w - 1)):
        d = (1 << w) - (1 << t.w)
        return _mk("sext", (t,), None, w, t.lo + d, t.hi + d)
    return _mk("sext", (t,), None, w, 0, (1 << w) - 1)

def ext(t, h, l):
    if l == 0 and h == t.w - 1: return t
    w = h - l + 1
    if t.op == "c": return C(t.p >> l, w)
    if t.op == "ext": return ext(t.a[0], h + t.p[1], l + t.p[1])
    if t.op == "cat":
        out = []; pos = t.w
        for x in t.a:
            top = pos - 1; bot = pos - x.w; pos = bot
            if bot > h or top < l: continue
            out.append(ext(x, min(h, top) - bot, max(l, bot) - bot))
        return cat(out)
    r = _fold("ext", (h, l), w, (t,))
    if r is not None: return r
    if t.op == "ite" and w <= 64:
        # push extraction through ite (keeps byte-wise memory views canonical)
        return _leaf_map(t, lambda x: ext(x, h, l), ("extp", h, l), None)
    if t.op == "sext" and h < t.a[0].w: return ext(t.a[0], h, l)
    if l == 0 and t.op in ("add", "sub", "mul") and t.p is None:
        # low bits of modular arithmetic
        return build(t.op, None, w, tuple(ext(x, h, 0) for x in t.a))
    if t.op in ("and", "or", "xor"):
        return build(t.op, None, w, tuple(ext(x, h, l) for x in t.a))
    if t.op == "not": return bnot(ext(t.a[0], h, l))
    M = (1 << w) - 1
    if t.hi >> l <= M: lo, hi = t.lo >> l, t.hi >> l
    else: lo, hi = 0, M
    return _mk("ext", (t,), (h, l), w, lo, hi)

def trunc(t, w): return ext(t, w - 1, 0)

# ------------------------------------------------------------------ ite
def ite(c, a, b):
    if a is b: return a
    if c.op == "c": return a if c.p else b
    if c.op == "not": return ite(c.a[0], b, a)
    if a.w == 1 and not a.fk:
        if a.op == "c": return bor(c, b) if a.p else band(bnot(c), b)
        if b.op == "c": return bor(bnot(c), a) if b.p else band(c, a)
        if a is c: return bor(c, b)
        if b is c: return band(c, a)
    if a.op == "ite":
        if a.a[0] is c: return ite(c, a.a[1], b)
        if a.a[2] is b: return ite(band(c, a.a[0]), a.a[1], b)
    if b.op == "ite":
        if b.a[0] is c: return ite(c, a, b.a[2])
        if b.a[1] is a: return ite(bor(c, b.a[0]), a, b.a[2])
    if a.op == "tab" and b.op == "tab" and a.p == b.p and a.fk == b.fk:
        return tabn_any(ite(c, a.a[0], b.a[0]), a.p, a.w, a.fk)
    # bool tables over the same source
    if c.op == "tab":
        s = c.a[0]
        ok = True; vs = []
        for x in (a, b):
            if x.op == "tab" and x.a[0] is s: vs.append(x.p)
            elif x.op in ("c", "fc"): vs.append((x.p,) * (1 << s.w))
            elif not x.fk and x.op == "cat" and len(x.a) == 2 and x.a[0].op == "c" and x.a[0].p == 0 and x.a[1] is s: vs.append(tuple(range(1 << s.w)))
            elif x is s: vs.append(tuple(range(1 << s.w)))
            else: ok = False; break
        if ok:
            return tabn(s, tuple([u if k else v for k, u, v in zip(c.p, vs[0], vs[1])]), a.w, a.fk)
    if not a.fk and a.w > 1:
        # align concat parts: ite over equal-shaped concats pushes inside
        if a.op == "cat" or b.op == "cat":
            r = _ite_cat(c, a, b)
            if r is not None: return r
    if a.fk and not (a.op in ("fc", "tab", "ite", "v")) and False: pass
    m = a.m and b.m
    t = _mk("ite", (c, a, b), None, a.w, min(a.lo, b.lo), max(a.hi, b.hi), a.fk, a.nan or b.nan, m)
    if t.sz == 0: t.sz = 1 + max(a.sz, b.sz)
    return t

def _bounds(t):
    r = []; pos = t.w
    for x in parts(t):
        pos -= x.w; r.append(pos)
    return r

def _ite_cat(c, a, b):
    if a.op == "c": bs = _bounds(b)
    elif b.op == "c": bs = _bounds(a)
    elif a.op == "cat" and b.op == "cat":
        bs = sorted(set(_bounds(a)) & set(_bounds(b)), reverse=True)
        if len(bs) < 2: return None
    else: return None
    out = []; top = a.w - 1
    for p in bs:
        out.append(ite(c, ext(a, top, p), ext(b, top, p))); top = p - 1
    return cat(out)

def tabn_any(x, vals, w, fk=False):
    """table applied to an arbitrary index term"""
    if x.op == "c": return FCb(vals[x.p]) if fk else C(vals[x.p], w)
    if x.op == "tab":
        return tabn(x.a[0], tuple([vals[v] for v in x.p]), w, fk)
    if x.op == "ite" and x.m and x.sz <= MAPLIM:
        return _leaf_map(x, lambda l: tabn_any(l, vals, w, fk), ("tabn", vals, w, fk), None)
    return tabn(x, vals, w, fk)

# ------------------------------------------------------------------ booleans
def bnot(t):
    if t.op == "c": return C(~t.p, t.w)
    if t.op == "not": return t.a[0]
    if t.op == "tab":
        return _fold("not", None, t.w, (t,))
    if t.w == 1:
        if t.op == "ult":      # not (a<b)  ==  b<=a   keep as not
            pass
        if t.op == "ite" and t.m: return _leaf_map(t, bnot, "bnot1", None)
        return _mk("not", (t,), None, 1, 0, 1)
    r = _fold("not", None, t.w, (t,))
    if r is not None: return r
    if t.op == "cat": return cat([bnot(x) for x in t.a])
    M = (1 << t.w) - 1
    return _mk("not", (t,), None, t.w, M - t.hi, M - t.lo)

def _sort2(a, b):
    return (a, b) if a.id <= b.id else (b, a)

def band(a, b):
    if a is b: return a
    if a.op == "c": a, b = b, a
    if b.op == "c":
        M = (1 << b.w) - 1
        if b.p == 0: return b
        if b.p == M: return a
        if a.op == "c": return C(a.p & b.p, a.w)
        r = _fold("and", None, a.w, (a, b))
        if r is not None: return r
        # slice by mask runs
        out = []; i = a.w - 1
        while i >= 0:
            bit = b.p >> i & 1; j = i
            while j >= 0 and (b.p >> j & 1) == bit: j -= 1
            out.append(ext(a, i, j + 1) if bit else C(0, i - j))
            i = j
        return cat(out)
    if a.w == 1:
        if b.op == "c": return a if b.p else b
        return _and1(a, b)
    r = _fold("and", None, a.w, (a, b))
    if r is not None: return r
    if a.w > 1 and (a.op == "cat" or b.op == "cat"):
        return _bitwise(band, a, b)
    a, b = _sort2(a, b)
    return _mk("and", (a, b), None, a.w, 0, min(a.hi, b.hi))

def _bitwise(f, a, b):
    bs = sorted(set(_bounds(a)) | set(_bounds(b)), reverse=True)
    out = []; top = a.w - 1
    for p in bs:
        x, y = ext(a, top, p), ext(b, top, p)
        if x.op == "cat" or y.op == "cat":     # cannot be split further consistently
            return _mk({band: "and", bor: "or", bxor: "xor"}[f], _sort2(a, b), None, a.w, 0, (1 << a.w) - 1)
        out.append(f(x, y)); top = p - 1
    return cat(out)

def bor(a, b):
    if a is b: return a
    if a.op == "c": a, b = b, a
    if b.op == "c":
        M = (1 << b.w) - 1
        if b.p == 0: return a
        if b.p == M: return b
        if a.op == "c": return C(a.p | b.p, a.w)
        r = _fold("or", None, a.w, (a, b))
        if r is not None: return r
        out = []; i = a.w - 1
        while i >= 0:
            bit = b.p >> i & 1; j = i
            while j >= 0 and (b.p >> j & 1) == bit: j -= 1
            out.append(C(-1, i - j) if bit else ext(a, i, j + 1))
            i = j
        return cat(out)
    if a.w == 1:
        return bnot(band(bnot(a), bnot(b)))
    r = _fold("or", None, a.w, (a, b))
    if r is not None: return r
    if a.w > 1 and (a.op == "cat" or b.op == "cat"):
        return _bitwise(bor, a, b)
    a, b = _sort2(a, b)
    hb = max(a.hi.bit_length(), b.hi.bit_length())
    return _mk("or", (a, b), None, a.w, max(a.lo, b.lo), (1 << hb) - 1)

ANDMAX = 48

def _isneg(x, y):
    return x.op == "not" and x.a[0] is y or y.op == "not" and y.a[0] is x

def _and1(a, b):
    """conjunction as a canonical n-ary set of literals (disjunctions are negated conjunctions)"""
    if a is b: return a
    k = ("and1", a.id, b.id) if a.id < b.id else ("and1", b.id, a.id)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _and1x(a, b)
    return r

def _and1x(a, b):
    # tables over the same small source fold exactly
    r = _fold("and", None, 1, (a, b))
    if r is not None: return r
    la = a.a if a.op == "and" else (a,)
    lb = b.a if b.op == "and" else (b,)
    if len(la) + len(lb) > ANDMAX and (len(la) > 1 or len(lb) > 1):
        if _isneg(a, b): return FALSE
        sa = set(la)
        for x in lb:
            if (x.a[0] if x.op == "not" else bnot(x)) in sa: return FALSE
        for x, l in ((a, lb), (b, la)):
            if x in l: return a if x is b else b
        return _mk("and", _sort2(a, b), None, 1, 0, 1)
    return _andset(list(la) + [x for x in lb if x not in la])

def _neg(x): return x.a[0] if x.op == "not" else bnot(x)

def _andset(lits):
    work = lits; changed = True; rounds = 0
    while changed and rounds < 6:
        changed = False; rounds += 1
        S = {}
        for x in work:
            if x.op == "c":
                if x.p == 0: return FALSE
                continue
            if x.op == "and":
                for y in x.a: S[y.id] = y
                changed = True
                continue
            S[x.id] = x
        # tables over one source: combine
        tabs = {}
        for x in list(S.values()):
            if x.op == "tab":
                o = tabs.get(x.a[0].id)
                if o is not None:
                    del S[x.id]; del S[o.id]
                    z = _fold("and", None, 1, (o, x))
                    if z.op == "c":
                        if z.p == 0: return FALSE
                        tabs.pop(x.a[0].id); continue
                    if z.op != "tab":
                        S[z.id] = z; tabs.pop(x.a[0].id); changed = True; continue
                    S[z.id] = z; tabs[x.a[0].id] = z
                else: tabs[x.a[0].id] = x
        out = []
        eqc = None
        for x in S.values():
            if x.op == "not":
                y = x.a[0]
                if y.id in S: return FALSE
                if y.op == "and":
                    rest = []; drop = False
                    for l in y.a:
                        if l.id in S: continue
                        if _neg(l).id in S: drop = True; break
                        rest.append(l)
                    if drop: changed = True; continue
                    if not rest: return FALSE
                    if len(rest) < len(y.a):
                        changed = True
                        out.append(_neg(rest[0]) if len(rest) == 1 else bnot(_mkand(rest)))
                        continue
            elif x.op == "eq" and x.a[1].op == "c":
                if eqc is None: eqc = {}
                o = eqc.get(x.a[0].id)
                if o is not None and o is not x: return FALSE
                eqc[x.a[0].id] = x
            out.append(x)
        # resolution: not(L+x) & not(L+~x) = not L   (and subsumption)
        nots = [x for x in out if x.op == "not" and x.a[0].op == "and"]
        if 1 < len(nots) <= 24:
            for i in range(len(nots)):
                A = nots[i].a[0]; sA = {q.id for q in A.a}
                hit = False
                for j in range(i + 1, len(nots)):
                    B = nots[j].a[0]
                    sB = {q.id for q in B.a}
                    if sA <= sB: out.remove(nots[j]); changed = hit = True; break
                    if sB <= sA: out.remove(nots[i]); changed = hit = True; break
                    dA = [q for q in A.a if q.id not in sB]; dB = [q for q in B.a if q.id not in sA]
                    if len(dA) == 1 and len(dB) == 1 and _isneg(dA[0], dB[0]):
                        rest = [q for q in A.a if q.id in sB]
                        if not rest: return FALSE
                        out.remove(nots[i]); out.remove(nots[j])
                        out.append(_neg(rest[0]) if len(rest) == 1 else bnot(_mkand(rest)))
                        changed = hit = True; break
                    if len(dA) == 1 and _neg(dA[0]).id in sB:
                        # not(L+x) & not(L+~x+M) = not(L+x) & not(L+M)
                        rest = [q for q in B.a if q is not _neg(dA[0])]
                        out.remove(nots[j]); out.append(_neg(rest[0]) if len(rest) == 1 else bnot(_mkand(rest)))
                        changed = hit = True; break
                    if len(dB) == 1 and _neg(dB[0]).id in sA:
                        rest = [q for q in A.a if q is not _neg(dB[0])]
                        out.remove(nots[i]); out.append(_neg(rest[0]) if len(rest) == 1 else bnot(_mkand(rest)))
                        changed = hit = True; break
                if hit: break
        work = out
    if not work: return TRUE
    if len(work) == 1: return work[0]
    return _mkand(work)

def _mkand(l):
    if len(l) == 1: return l[0]
    return _mk("and", tuple(sorted(l, key=lambda x: x.id)), None, 1, 0, 1)

def bxor(a, b):
    if a is b: return C(0, a.w)
    if a.op == "c": a, b = b, a
    if a.w == 1:
        if b.op == "c": return bnot(a) if b.p else a
        if a.op == "not": return bnot(bxor(a.a[0], b))
        if b.op == "not": return bnot(bxor(a, b.a[0]))
    if b.op == "c" and b.p == 0: return a
    r = _fold("xor", None, a.w, (a, b))
    if r is not None: return r
    if b.op == "c" and a.w > 1:
        if b.p == (1 << a.w) - 1: return bnot(a)
        if a.op == "cat" or a.op == "v" or True:
            out = []; i = a.w - 1
            while i >= 0:
                bit = b.p >> i & 1; j = i
                while j >= 0 and (b.p >> j & 1) == bit: j -= 1
                x = ext(a, i, j + 1)
                out.append(bnot(x) if bit else x)
                i = j
            return cat(out)
    if a.w > 1 and (a.op == "cat" or b.op == "cat"):
        return _bitwise(bxor, a, b)
    a, b = _sort2(a, b)
    hb = max(a.hi.bit_length(), b.hi.bit_length())
    return _mk("xor", (a, b), None, a.w, 0, (1 << hb) - 1)

# ------------------------------------------------------------------ arithmetic
def add(a, b):
    if a.op == "c": a, b = b, a
    w = a.w; M = (1 << w) - 1
    if w == 1: return bxor(a, b)
    if b.op == "c" and b.p == 0: return a
    r = _fold("add", None, w, (a, b))
    if r is not None: return r
    if b.op == "c":
        if a.op == "add" and a.a[1].op == "c": return add(a.a[0], C(a.a[1].p + b.p, w))
        if a.op == "sub" and a.a[0].op == "c": return sub(C(a.a[0].p + b.p, w), a.a[1])
    else:
        if a.op == "sub" and a.a[1] is b: return a.a[0]
        if b.op == "sub" and b.a[1] is a: return b.a[0]
        # pull constants outwards
        if a.op == "add" and a.a[1].op == "c": return add(add(a.a[0], b), a.a[1])
        if b.op == "add" and b.a[1].op == "c": return add(add(a, b.a[0]), b.a[1])
        a, b = _sort2(a, b)
    lo, hi = a.lo + b.lo, a.hi + b.hi
    if hi > M:
        if lo > M: lo -= M + 1; hi -= M + 1
        else: lo, hi = 0, M
    # zero-extension narrowing: both operands have zero top bits
    return _mk("add", (a, b), None, w, lo, hi)

def sub(a, b):
    w = a.w; M = (1 << w) - 1
    if a is b: return C(0, w)
    if b.op == "c":
        return add(a, C(-b.p, w)) if a.op != "c" else C(a.p - b.p, w)
    if w == 1: return bxor(a, b)
    r = _fold("sub", None, w, (a, b))
    if r is not None: return r
    if a.op == "add":
        if a.a[0] is b: return a.a[1]
        if a.a[1] is b: return a.a[0]
    lo, hi = a.lo - b.hi, a.hi - b.lo
    if lo < 0:
        if hi < 0: lo += M + 1; hi += M + 1
        else: lo, hi = 0, M
    return _mk("sub", (a, b), None, w, lo, hi)

def neg(a): return sub(C(0, a.w), a)

def sint(t):
    """signed interval"""
    if t.op != "ite": return _sint(t)
    r = _memo.get(("sint", t.id))
    if r is None: r = _memo[("sint", t.id)] = _sint(t)
    return r

def _sint(t):
    h = 1 << (t.w - 1)
    if t.hi < h: return t.lo, t.hi
    if t.lo >= h: return t.lo - 2 * h, t.hi - 2 * h
    if t.op == "sub":
        a, b = sint_u(t.a[0]), sint_u(t.a[1])
        lo, hi = a[0] - b[1], a[1] - b[0]
        if lo >= -h and hi < h: return lo, hi
    if t.op == "add" and t.a[1].op == "c":
        a = sint(t.a[0]); k = sg(t.a[1].p, t.w)
        lo, hi = a[0] + k, a[1] + k
        if lo >= -h and hi < h: return lo, hi
    if t.op == "sext": return sint(t.a[0])
    if t.op == "ite":
        a, b = sint(t.a[1]), sint(t.a[2])
        return min(a[0], b[0]), max(a[1], b[1])
    return -h, h - 1

def sint_u(t):
    return sint(t)

def narrow_diff(t):
    """t (width w) is the exact difference of two unsigned narrow terms -> (x, y) or None"""
    if t.op == "sub" and t.a[0].hi < 256 and t.a[1].hi < 256:
        return trunc(t.a[0], 8), trunc(t.a[1], 8)
    if t.op == "add" and t.a[1].op == "c" and t.a[0].hi < 256:
        k = sg(t.a[1].p, t.w)
        if -255 <= k <= 0: return trunc(t.a[0], 8), C(-k, 8)
    if t.op == "sub" and False: return None
    return None

SQ8 = tuple(i * i for i in range(256))

def absdiff8(x, y):
    """|x-y| for 8-bit terms"""
    if x.id > y.id: x, y = y, x
    if x is y: return C(0, 8)
    if x.op == "c" and y.op == "c": return C(abs(x.p - y.p), 8)
    for u, v in ((x, y), (y, x)):
        if v.op == "c":
            if u.w <= MAXTAB: return tabn_any(u, tuple(abs(i - v.p) for i in range(256)), 8)
    r = ult(x, y)
    return ite(r, sub(y, x), sub(x, y)) if r.op == "c" else _mk("absd", (x, y), None, 8, 0, max(abs(x.hi - y.lo), abs(y.hi - x.lo)))

def mul(a, b):
    if a.op == "c": a, b = b, a
    w = a.w; M = (1 << w) - 1
    if w == 1: return band(a, b)
    if b.op == "c":
        if b.p == 0: return b
        if b.p == 1: return a
        if b.p & (b.p - 1) == 0: return shl(a, C(b.p.bit_length() - 1, w))
    r = _fold("mul", None, w, (a, b))
    if r is not None: return r
    if a is b:
        d = narrow_diff(a)
        if d is not None:
            ad = absdiff8(*d)
            return tabn_any(ad, tuple((i * i) & M for i in range(256)), w)
        if a.op == "cat" and a.a[0].op == "c" and a.a[0].p == 0 and len(a.a) == 2 and a.a[1].w <= 8:
            x = a.a[1]
            return tabn_any(x, tuple((i * i) & M for i in range(1 << x.w)), w)
    if b.op == "c":
        if a.op == "mul" and a.a[1].op == "c": return mul(a.a[0], C(a.a[1].p * b.p, w))
    else:
        a, b = _sort2(a, b)
    lo, hi = a.lo * b.lo, a.hi * b.hi
    if hi > M: lo, hi = 0, M
    return _mk("mul", (a, b), None, w, lo, hi)

def div(op, a, b):
    w = a.w; M = (1 << w) - 1
    if op in ("sdiv", "srem") and a.hi <= M >> 1 and b.hi <= M >> 1:
        op = "udiv" if op == "sdiv" else "urem"
    if b.op == "c" and op in ("udiv", "urem"):
        if b.p == 1: return a if op == "udiv" else C(0, w)
        if b.p and b.p & (b.p - 1) == 0:
            k = b.p.bit_length() - 1
            return lshr(a, C(k, w)) if op == "udiv" else band(a, C(b.p - 1, w))
    r = _fold(op, None, w, (a, b))
    if r is not None: return r
    if op == "udiv" and b.op == "c" and b.p:
        if a.hi < b.p: return C(0, w)
        # narrow the operation when the dividend has zero top bits
        n = max(a.hi.bit_length(), b.p.bit_length())
        if n < w:
            q = _mk("udiv", (trunc(a, n), C(b.p, n)), None, n, a.lo // b.p, a.hi // b.p)
            return zext(ext(q, max((a.hi // b.p).bit_length(), 1) - 1, 0), w)
        return _mk(op, (a, b), None, w, a.lo // b.p, a.hi // b.p)
    if op == "urem" and b.op == "c" and b.p:
        if a.hi < b.p: return a
        n = max(a.hi.bit_length(), b.p.bit_length())
        if n < w:
            q = _mk("urem", (trunc(a, n), C(b.p, n)), None, n, 0, b.p - 1)
            return zext(ext(q, (b.p - 1).bit_length() - 1, 0), w)
        return _mk(op, (a, b), None, w, 0, b.p - 1)
    if op == "udiv" and b.lo > 0:
        return _mk(op, (a, b), None, w, a.lo // b.hi, a.hi // b.lo)
    return _mk(op, (a, b), None, w, 0, M)

def shl(a, b):
    w = a.w
    if b.op == "c":
        k = b.p
        if k == 0: return a
        if k >= w: return C(0, w)
        return cat([ext(a, w - 1 - k, 0), C(0, k)])
    r = _fold("shl", None, w, (a, b))
    if r is not None: return r
    return _mk("shl", (a, b), None, w, 0, (1 << w) - 1)

def lshr(a, b):
    w = a.w
    if b.op == "c":
        k = b.p
        if k == 0: return a
        if k >= w: return C(0, w)
        return zext(ext(a, w - 1, k), w)
    r = _fold("lshr", None, w, (a, b))
    if r is not None: return r
    return _mk("lshr", (a, b), None, w, 0, a.hi)

def ashr(a, b):
    w = a.w
    if a.hi < 1 << (w - 1): return lshr(a, b)
    if b.op == "c":
        k = min(b.p, w - 1)
        if k == 0: return a
        return sext(ext(a, w - 1, k), w)
    r = _fold("ashr", None, w, (a, b))
    if r is not None: return r
    return _mk("ashr", (a, b), None, w, 0, (1 << w) - 1)

# ------------------------------------------------------------------ comparisons
def eq(a, b):
    if a is b: return TRUE
    if a.fk or b.fk: raise NotImplementedError("eq on float")
    if a.op == "c": a, b = b, a
    if a.hi < b.lo or b.hi < a.lo: return FALSE
    if a.w == 1:
        if b.op == "c": return a if b.p else bnot(a)
        return bnot(bxor(a, b))
    r = _fold("eq", None, 1, (a, b))
    if r is not None: return r
    if b.op == "c":
        if a.op == "cat":
            acc = TRUE; pos = a.w
            for x in a.a:
                pos -= x.w
                acc = band(acc, eq(x, C(b.p >> pos, x.w)))
                if acc is FALSE: return acc
            return acc
        if a.op == "add" and a.a[1].op == "c": return eq(a.a[0], C(b.p - a.a[1].p, a.w))
        if a.op == "ite" and (a.a[1].op in ("c",) or a.a[2].op in ("c",)):
            k = ("eqi", a.id, b.id)
            if k not in _memo: _memo[k] = ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
            return _memo[k]
        if a.op == "not": return eq(a.a[0], C(~b.p, a.w))
    if a.op == "cat" and b.op == "cat":
        bs = sorted(set(_bounds(a)) & set(_bounds(b)), reverse=True)
        if len(bs) > 1:
            acc = TRUE; top = a.w - 1
            for p in bs:
                acc = band(acc, eq(ext(a, top, p), ext(b, top, p)))
                if acc is FALSE: return acc
                top = p - 1
            return acc
    a, b = _sort2(a, b)
    return _mk("eq", (a, b), None, 1, 0, 1)

def _strip0(a):
    """drop common leading zeros of a zero-extended term"""
    if a.op == "cat" and a.a[0].op == "c" and a.a[0].p == 0:
        return cat(list(a.a[1:])) if len(a.a) > 2 else a.a[1]
    return a

_mono = {}
def _strict_mono(vals):
    r = _mono.get(vals)
    if r is None:
        r = all(x < y for x, y in zip(vals, vals[1:]))
        _mono[vals] = r
    return r

def ult(a, b):
    if a.op == "add" and any(x is b for x in a.a) and sum(x.hi for x in a.a) < 1 << a.w: return FALSE   # no wrap-around
    if a is b: return FALSE
    if a.hi < b.lo: return TRUE
    if a.lo >= b.hi: return FALSE
    r = _fold("ult", None, 1, (a, b))
    if r is not None: return r
    if a.op == "tab" and b.op == "tab" and a.p == b.p and _strict_mono(a.p):
        return ult(a.a[0], b.a[0])
    n = max(a.hi.bit_length(), b.hi.bit_length())
    if n < a.w:
        return ult(trunc(a, n), trunc(b, n))
    if b.op == "c" and a.op == "cat" and b.p and a.w > 1:
        # low constant-zero bits
        pass
    if b.op == "c" and b.p == 1: return eq(a, C(0, a.w))
    if a.op == "c" and a.p == 0: return bnot(eq(b, C(0, a.w)))
    if b.op == "c" and (b.p & (b.p - 1)) == 0:
        k = b.p.bit_length() - 1
        if k < a.w: return eq(ext(a, a.w - 1, k), C(0, a.w - k))
    if b.op == "c" and a.op == "ite" and (a.a[1].op == "c" or a.a[2].op == "c"):
        k = ("ulti", a.id, b.id)
        if k not in _memo: _memo[k] = ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
        return _memo[k]
    if a.op == "c" and b.op == "ite" and (b.a[1].op == "c" or b.a[2].op == "c"):
        k = ("ulti", a.id, b.id)
        if k not in _memo: _memo[k] = ite(b.a[0], ult(a, b.a[1]), ult(a, b.a[2]))
        return _memo[k]
    return _mk("ult", (a, b), None, 1, 0, 1)

def ule(a, b): return bnot(ult(b, a))

def slt(a, b):
    if a is b: return FALSE
    w = a.w; h = 1 << (w - 1)
    sa, sb = sint(a), sint(b)
    if sa[1] < sb[0]: return TRUE
    if sa[0] >= sb[1]: return FALSE
    if sa[0] >= 0 and sb[0] >= 0: return ult(a, b)
    r = _fold("slt", None, 1, (a, b))
    if r is not None: return r
    if b.op == "c" and b.p == 0 and narrow_diff(a) is None: return ext(a, w - 1, w - 1)
    if a.op == "c" and a.p == 2 * h - 1 and narrow_diff(b) is None: return bnot(ext(b, w - 1, w - 1))
    # exact differences of bytes compared with a constant
    if b.op == "c" and sg(b.p, w) == 0:
        d = narrow_diff(a)
        if d is not None: return ult(d[0], d[1])
    if a.op == "c" and sg(a.p, w) == -1:
        d = narrow_diff(b)
        if d is not None: return bnot(ult(d[0], d[1]))
    if a.op == "c" or b.op == "c":
        x = b if a.op == "c" else a
        k = sg((a if a.op == "c" else b).p, w)
        top = ext(x, w - 1, w - 1); low = ext(x, w - 2, 0); c = C(k, w - 1)
        if x is a:     # x < k
            return bor(top, ult(low, c)) if k >= 0 else band(top, ult(low, c))
        return band(bnot(top), ult(c, low)) if k >= 0 else bor(bnot(top), ult(c, low))
    return _mk("slt", (a, b), None, 1, 0, 1)

# ------------------------------------------------------------------ floats
def i2f(op, a):
    r = _fold(op, None, 32, (a,))
    if r is not None: return r
    base = a
    sgn = sint(a) if op == "s2f" else (a.lo, a.hi)
    if sgn[0] >= 0:
        z = _strip0(a)
        if z.w <= MAXTAB and z.op != "cat" or z.w <= MAXTAB:
            vals = tuple(f_bits(F32(i)) for i in range(1 << z.w))
            return tabn_any(z, vals, 32, True)
    if sgn[0] >= 0 and a.hi < 256 * 8:
        n = a.hi.bit_length()
        if n <= MAXTAB:
            vals = tuple(f_bits(F32(i)) for i in range(1 << n))
            return tabn_any(trunc(a, n), vals, 32, True)
    return _mk(op, (a,), None, 32, float(F32(sgn[0])), float(F32(sgn[1])), True, False)

def f2bits(a):
    r = _fold("f2bits", None, 32, (a,))
    if r is not None: return r
    if a.op == "bits2f": return a.a[0]
    if a.op == "ite": return _leaf_map(a, f2bits, "f2bits", None)
    return _mk("f2bits", (a,), None, 32, 0, (1 << 32) - 1)

def bits2f(a):
    r = _fold("bits2f", None, 32, (a,))
    if r is not None: return r
    if a.op == "f2bits": return a.a[0]
    if a.op == "ite": return _leaf_map(a, bits2f, "bits2f", None)
    return _mk("bits2f", (a,), None, 32, -INF, INF, True, True)

_NOTHING = (INF, -INF, True)

def _iv(op, a):
    """(lo, hi, nan) of a float op; a: list of terms.  lo>hi means only NaN."""
    A = [(x.lo, x.hi, x.nan) for x in a]
    for x in A:
        if x[0] > x[1]:
            if op in ("fmax", "fmin"): break
            return (INF, -INF, True)
    nan = any(x[2] for x in A)
    f = F32
    if op in ("fadd", "fsub"):
        (al, ah, _), (bl, bh, _) = A
        if op == "fsub": bl, bh = -bh, -bl
        if (ah == INF and bl == -INF) or (al == -INF and bh == INF): nan = True
        lo = f(al) + f(bl); hi = f(ah) + f(bh)
        lo = -INF if np.isnan(lo) else float(lo); hi = INF if np.isnan(hi) else float(hi)
        return (lo, hi, nan)
    if op == "fmul":
        (al, ah, _), (bl, bh, _) = A
        if a[0] is a[1]:
            hi = max(f(al) * f(al), f(ah) * f(ah))
            lo = 0.0 if al <= 0 <= ah else min(f(al) * f(al), f(ah) * f(ah))
            return (float(lo), float(hi), nan)
        inf = any(abs(v) == INF for v in (al, ah, bl, bh))
        z = (al <= 0 <= ah) or (bl <= 0 <= bh)
        if inf and z: 
            if ((abs(al) == INF or abs(ah) == INF) and bl <= 0 <= bh) or ((abs(bl) == INF or abs(bh) == INF) and al <= 0 <= ah): nan = True
        ps = [f(x) * f(y) for x in (al, ah) for y in (bl, bh)]
        if any(np.isnan(p) for p in ps): return (-INF, INF, True)
        return (float(min(ps)), float(max(ps)), nan)
    if op == "fdiv":
        (al, ah, _), (bl, bh, _) = A
        if bl <= 0 <= bh or abs(al) == INF or abs(ah) == INF or abs(bl) == INF or abs(bh) == INF:
            if bl > 0 or bh < 0:
                pass
            nn = nan
            if bl <= 0 <= bh and al <= 0 <= ah: nn = True
            if (abs(al) == INF or abs(ah) == INF) and (abs(bl) == INF or abs(bh) == INF): nn = True
            return (-INF, INF, nn)
        ps = [f(x) / f(y) for x in (al, ah) for y in (bl, bh)]
        return (float(min(ps)), float(max(ps)), nan)
    if op == "fneg": return (-A[0][1], -A[0][0], nan)
    if op == "fabs":
        l, h, _ = A[0]
        return (0.0 if l <= 0 <= h else min(abs(l), abs(h)), max(abs(l), abs(h)), nan)
    if op == "fsqrt":
        l, h, _ = A[0]
        if l < 0: nan = True; l = 0.0
        if h < 0: return (INF, -INF, True)
        return (float(np.sqrt(f(l))), float(np.sqrt(f(h))), nan)
    if op in ("ftrunc", "ffloor", "fceil", "frint", "fround"):
        g = {"ftrunc": np.trunc, "ffloor": np.floor, "fceil": np.ceil, "frint": np.rint, "fround": c_roundf}[op]
        return (float(g(f(A[0][0]))), float(g(f(A[0][1]))), nan)
    if op in ("fmax", "fmin"):
        (al, ah, an), (bl, bh, bn) = A
        if al > ah: return A[1]
        if bl > bh: return A[0]
        if op == "fmax": lo, hi = max(al, bl), max(ah, bh)
        else: lo, hi = min(al, bl), min(ah, bh)
        if an: lo, hi = min(lo, bl), max(hi, bh)
        if bn: lo, hi = min(lo, al), max(hi, ah)
        return (lo, hi, an and bn)
    if op == "fcopysign":
        m = max(abs(A[0][0]), abs(A[0][1]))
        return (-m, m, A[0][2])
    return (-INF, INF, True)

_COMM = {"fadd", "fmul"}

def fop(op, *a):
    a = tuple(a)
    r = _fold(op, None, 32, a)
    if r is not None: return r
    if op in _COMM and a[0].id > a[1].id: a = (a[1], a[0])
    if op == "fneg" and a[0].op == "fneg": return a[0].a[0]
    if op == "fabs" and not a[0].nan and a[0].lo > 0: return a[0]
    if op in ("fmax", "fmin"):
        x, y = a
        if x is y: return x
        if not x.nan and not y.nan:
            if op == "fmax":
                if x.lo > y.hi: return x
                if y.lo > x.hi: return y
            else:
                if x.hi < y.lo: return x
                if y.hi < x.lo: return y
            # clamp of a value already known to be in range (exclude signed-zero ties)
            for u, v in ((x, y), (y, x)):
                if v.op == "fc":
                    if op == "fmax" and u.lo > v.lo or op == "fmin" and u.hi < v.hi: return u
                    if op == "fmin" and u.hi == v.lo and v.lo != 0: return u
                    if op == "fmax" and u.lo == v.lo and v.lo != 0: return u
    lo, hi, nan = _iv(op, a)
    return _mk(op, a, None, 32, lo, hi, True, nan)

_SWAP = {"gt": "lt", "ge": "le"}

def fcmp(p, a, b):
    if p == "true": return TRUE
    if p == "false": return FALSE
    r = _fold("fcmp", p, 1, (a, b))
    if r is not None: return r
    if p in ("ord", "uno"):
        un = FALSE if not (a.nan or b.nan) else None
        if a.nan and a.lo > a.hi or b.nan and b.lo > b.hi: un = TRUE
        if un is not None: return un if p == "uno" else bnot(un)
        t = _mk("fcmp", _sort2(a, b), "uno", 1, 0, 1)
        return t if p == "uno" else bnot(t)
    k = p[1:]; un = p[0] == "u"
    if k in _SWAP: a, b = b, a; k = _SWAP[k]
    nan = a.nan or b.nan
    if (a.lo > a.hi) or (b.lo > b.hi): return TRUE if un else FALSE
    if not nan:
        # total: canonical forms lt, eq
        if k == "lt":
            if a is b: return FALSE
            if a.hi < b.lo: return TRUE
            if a.lo >= b.hi: return FALSE
            return _fcm("olt", a, b)
        if k == "le":
            if a is b: return TRUE
            if a.hi <= b.lo: return TRUE
            if a.lo > b.hi: return FALSE
            return bnot(_fcm("olt", b, a))
        if a is b: return TRUE if k == "eq" else FALSE
        if a.hi < b.lo or b.hi < a.lo: return FALSE if k == "eq" else TRUE
        a, b = _sort2(a, b)
        t = _fcm("oeq", a, b)
        return t if k == "eq" else bnot(t)
    # possible NaN: canonical ordered forms olt, ole, oeq; u-forms are negations
    if k == "lt":
        if not un:
            if a is b or a.lo >= b.hi: return FALSE
            return _fcm("olt", a, b)
        if a.hi < b.lo: return TRUE
        return bnot(_fcm("ole", b, a))
    if k == "le":
        if not un:
            if a.lo > b.hi: return FALSE
            return _fcm("ole", a, b)
        if a.hi <= b.lo or a is b: return TRUE
        return bnot(_fcm("olt", b, a))
    x, y = _sort2(a, b)
    if k == "eq":
        if not un:
            if a.hi < b.lo or b.hi < a.lo: return FALSE
            return _fcm("oeq", x, y)
        return bnot(_fcm("one", x, y)) if not (a.hi < b.lo or b.hi < a.lo) else _mkuno(a, b)
    if k == "ne":
        if un:
            if a.hi < b.lo or b.hi < a.lo: return TRUE
            return bnot(_fcm("oeq", x, y))
        return _fcm("one", x, y)
    raise NotImplementedError(p)

def _mkuno(a, b):
    return fcmp("uno", a, b)

def _fcm(p, a, b):
    return _mk("fcmp", (a, b), p, 1, 0, 1)

def f2i(op, a, w):
    r = _fold(op, None, w, (a,))
    if r is not None: return r
    M = (1 << w) - 1
    l, h = a.lo, a.hi
    if l > h: return C(0, w)
    if op == "f2s":
        mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
    else:
        mn, mx = 0, M
    def cv(x): return mn if x <= mn else mx if x >= mx else int(x)
    l, h = cv(l), cv(h)
    if a.nan: l, h = min(l, 0), max(h, 0)
    if l == h: return C(l, w)
    if l < 0: 
        t = _mk(op, (a,), None, w, 0, M)
        return t
    return _mk(op, (a,), None, w, l, h)

_init()

# ------------------------------------------------------------------ concrete evaluation of a DAG
def evaluate(roots, env):
    """env: name -> int (bit pattern).  returns list of ints.  exact IEEE float32 semantics."""
    val = {}
    stack = list(roots)
    while stack:
        t = stack[-1]
        if t.id in val: stack.pop(); continue
        todo = [x for x in t.a if x.id not in val]
        if t.op == "ite":
            c = t.a[0]
            if c.id not in val: stack.append(c); continue
            x = t.a[1] if val[c.id] else t.a[2]
            if x.id not in val: stack.append(x); continue
            val[t.id] = val[x.id]; stack.pop(); continue
        if todo: stack.extend(todo); continue
        a = [val[x.id] for x in t.a]
        if t.op in ("c", "fc"): r = t.p
        elif t.op == "v": r = env[t.p]
        elif t.op == "tab": r = t.p[a[0]]
        elif t.op == "absd": r = abs(a[0] - a[1])
        elif t.op == "cat":
            r = 0
            for x, v in zip(t.a, a): r = (r << x.w) | v
        else: r = _ev(t.op, t.p, t.w, a, [x.w for x in t.a])
        val[t.id] = r; stack.pop()
    return [val[t.id] for t in roots]

def dag_size(roots):
    seen = set(); stack = list(roots)
    while stack:
        t = stack.pop()
        if t.id in seen: continue
        seen.add(t.id); stack.extend(t.a)
    return len(seen)

def variables(roots):
    seen = set(); stack = list(roots); vs = {}
    while stack:
        t = stack.pop()
        if t.id in seen: continue
        seen.add(t.id); stack.extend(t.a)
        if t.op == "v": vs[t.p] = t
    return vs

def rebuild(x, a):
    """x with other arguments"""
    op = x.op
    if op == "ite": return ite(*a)
    if op == "cat": return cat(list(a))
    if op == "tab": return tabn_any(a[0], x.p, x.w, x.fk)
    if op == "absd": return absdiff8(*a)
    return build(op, x.p, x.w, tuple(a))

def subst(roots, m):
    """replace the terms with ids in m (id -> term) everywhere in roots"""
    memo = dict(m); stack = list(roots)
    while stack:
        x = stack[-1]
        if x.id in memo: stack.pop(); continue
        if not x.a: memo[x.id] = x; stack.pop(); continue
        todo = [y for y in x.a if y.id not in memo]
        if todo: stack.extend(todo); continue
        a = [memo[y.id] for y in x.a]
        memo[x.id] = x if all(p is q for p, q in zip(a, x.a)) else rebuild(x, a)
        stack.pop()
    return [memo[x.id] for x in roots]

def nodes(roots):
    """all terms in roots, arguments first"""
    seen = {}; stack = [(r, False) for r in roots]
    while stack:
        x, done = stack.pop()
        if done: seen[x.id] = x; continue
        if x.id in seen: continue
        stack.append((x, True)); stack.extend((y, False) for y in x.a if y.id not in seen)
    return list(seen.values())

def evaluate_many(roots, envs):
    """values of every node of roots under each environment: id -> tuple"""
    ns = nodes(roots); cols = [evaluate(ns, e) for e in envs]
    return {x.id: tuple(c[i] for c in cols) for i, x in enumerate(ns)}

def nodes_if(root, go):
    """terms reachable from root through terms for which go holds"""
    seen = {}; stack = [root]
    while stack:
        x = stack.pop()
        if x.id in seen: continue
        seen[x.id] = x
        if go(x): stack.extend(x.a)
    return list(seen.values())
