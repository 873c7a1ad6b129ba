"""Common pieces of the checks that execute compress_block_masked."""
import struct
import term as t, spec
from term import C, V, FC, FV, TRUE, FALSE, bnot, ite
from harness import BS, FNAME, ALG, conj

UNIFORM = (1.0, 1.0, 1.0)
f32 = lambda x: struct.unpack("<f", struct.pack("<f", x))[0]
PERCEPTUAL = tuple(map(f32, (0.2126, 0.7152, 0.0722)))
WS = {"uniform": UNIFORM, "perceptual": PERCEPTUAL}
VARIANTS = [(a, w, ws) for a in (0, 1, 2) for w in (0, 1) for ws in (UNIFORM, PERCEPTUAL)]
WNOTE = "weights 'any' = three arbitrary floats in [0, 1024]; the other runs use uniform weights"

def same_rgb(p, q): return conj([t.eq(p[c], q[c]) for c in range(3)])
def enabled(mask, i): return t.ext(mask, i, i)
def opaque(p): return bnot(t.ult(p[3], C(128, 8)))
def pxs(b): return [list(b[4 * i:4 * i + 4]) for i in range(16)]
def implies(a, b): return t.bor(bnot(a), b)

class Cfg:
    """one family of inputs of compress_block_masked
    k      number of symbolic colours; pixel i has colour i % k (k == 16: every pixel its own)
    solid  additionally: k == 1
    mask   'any' | int | string of 16 characters 0, 1 or * per pixel
    alg, wba, ws ('any' | 'uniform' | 'perceptual')
    alpha  None: every pixel any alpha; list of 16 of 'o' (>= 128) / 't' (< 128) / '*' / int
    distinct  the k colours are pairwise different (needed to keep the cluster fits' counts fixed)"""
    def __init__(s, f, k=16, mask=0xffff, alg=0, wba=0, ws="any", alpha=None, distinct=None, order=None):
        s.f = f; s.k = k; s.mask = mask; s.alg = alg; s.wba = wba; s.ws = ws; s.alpha = alpha
        s.distinct = (alg != 0 and k > 1) if distinct is None else distinct
        s.pairs = None
        s.order = order or [i % k for i in range(16)]
    @property
    def name(s):
        m = "any mask" if s.mask == "any" else f"mask {s.mask}" if isinstance(s.mask, str) else f"mask {s.mask:#x}" if s.mask != 0xffff else "full mask"
        a = "" if s.alpha is None else " alpha " + "".join(str(x) if isinstance(x, str) else "#" for x in s.alpha)
        o = "" if s.order == [i % s.k for i in range(16)] else " layout " + "".join("%x" % x for x in s.order)
        return f"{FNAME[s.f]} {s.k} colour{'s' * (s.k > 1)}{' distinct' * s.distinct}{o}, {m}{a}, {ALG[s.alg]}{', alpha-weighted' * s.wba}, {s.ws} weights"

    def build(s, J, sfx=""):
        """declares the inputs"""
        cs = [[J.var(f"p{i}_{c}{sfx}") for c in range(3)] for i in range(s.k)]
        px = []
        for i in range(16):
            a = s.alpha[i] if s.alpha else "*"
            n = f"a{i}{sfx}"
            if isinstance(a, int): at = C(a, 8)
            else:
                J.inputs[n] = 8
                at = V(n, 8, *{"*": (0, 255), "o": (128, 255), "t": (0, 127)}[a])
            px.append(cs[s.order[i]] + [at])
        s.px = px; s.cs = cs
        if s.mask == "any": s.m = J.var("mask", 32)
        elif isinstance(s.mask, (list, tuple, str)):     # per pixel 0 / 1 / *
            v = J.var("mask", 32)
            s.m = t.cat([t.ext(v, 31, 16)] + [t.ext(v, i, i) if s.mask[i] == "*" else C(int(s.mask[i]), 1) for i in reversed(range(16))])
        else: s.m = C(s.mask, 32)
        who = s.pairs if s.pairs is not None else range(s.k) if s.distinct else []       # indices of pairwise different colours
        s.ax = [bnot(same_rgb(cs[i], cs[j])) for i in who for j in who if j < i]
        return s

    def weights(s):
        if s.ws == "any": return [FV(f"$w{i}", 0.0, 1024.0) for i in range(3)]
        return [FC(x) for x in WS[s.ws]]

    def conc(s, env):
        """concrete pixel bytes and mask, or None outside the family"""
        tt = [c for p in s.px for c in p] + [s.m] + s.ax
        vs = t.variables(tt)
        e = {}
        for n, v in vs.items():
            x = env.get(n, 0)
            if not v.lo <= x <= v.hi: x = v.lo + x % (v.hi - v.lo + 1)
            e[n] = x
        r = t.evaluate(tt, e)
        if not all(r[65:]): return None
        return bytes(r[:64]), r[64]

    def variants(s):
        return [(s.alg, s.wba, w) for w in ((UNIFORM, PERCEPTUAL) if s.ws == "any" else (WS[s.ws],))]

    def oracle(s, J, judge):
        """an assignment is a violation if judge(block, pixels, mask) names one"""
        def o(env):
            c = s.conc(env)
            if c is None: return None
            b, m = c; P = pxs(b)
            for alg, wba, ws in s.variants():
                d = f"compress_block_masked({FNAME[s.f]}, rgba={b.hex()}, mask={m:#x}, {ALG[alg]}, weights={ws}, alpha-weighted={bool(wba)})"
                out = J.nat.encode(s.f, b, m, alg, wba, ws)
                if out is None: return d + " panics"
                r = judge(out, P, m, alg, wba, ws)
                if r: return f"{d} = {out.hex()}: {r}"
        return o

    def run(s, J, fill=None, n=None, hooks=None, extra=(), wide=False):
        return J.prog.encode(s.f, s.px, s.m, s.alg, s.wba, s.weights(), n=n, fill=fill, axioms=s.ax + list(extra), hooks=hooks, wide=wide)

    def validate(s, J, R, n=8, lo=0, hi=None):
        """compare encoding and native code on concrete inputs of the family (only the bytes that involve no abstraction)"""
        ok = [i for i in range(lo, len(R.out) if hi is None else hi) if not has_abstraction(R.out[i])]
        if not ok: return
        def gen():
            for _ in range(50):
                e = {q: J.rnd(w) for q, w in J.inputs.items()}
                tt = t.variables([c for p in s.px for c in p])
                for q, v in tt.items(): e[q] = v.lo + e.get(q, 0) % (v.hi - v.lo + 1)
                if s.conc(e) is not None: return e
            return {q: 0 for q in J.inputs}
        alg, wba, ws = s.variants()[0]
        def nat(e):
            c = s.conc(e)
            if c is None: return None
            r = J.nat.encode(s.f, c[0], c[1], alg, wba, ws)
            return None if r is None else [r[i] for i in ok]
        J.validate([R.out[i] for i in ok], nat, n, gen)

_abs = {}
def has_abstraction(x):
    """does the term contain floats that evaluate() cannot compute (free float variables)?"""
    for n, v in t.variables([x]).items():
        if n.startswith("$"): return True
    return False

def ones(l):
    s = C(0, 8)
    for x in l: s = t.add(s, t.zext(x, 8))
    return s

def skip(J, which):
    """hooks that leave out the cluster fit's search with `which` colours (if it is a function of its own)"""
    return {n: (lambda ex, st, args: (t.TRUE, st)) for n in J.prog.m.funcs if "cluster" in n and n.endswith("compress" + which)} if which else None
