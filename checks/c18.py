"""C18: the range fit stays within the range of its input"""
import term as t, spec
from term import C, V
from harness import conj, FNAME, BS
from enc import *
BOUNDS = ("all pixels, all weights; the partition of the enabled pixels into equal colours and the mask are fixed per run: every pixel its own colour (full and partial masks), 2 to 12 colours in several layouts, transparent pixels (BC1) in several patterns; "
          "any mask with 2 free colours; both alpha weightings; the axis and the error comparisons are abstracted to any outcome")
OUTSIDE = "other partitions and masks; blocks of one colour (C10)"
ASSUMPTIONS = [WNOTE]
TOL = (4, 2, 4); FIELD = ((15, 11), (10, 5), (4, 0))

def rel(f, P, m): return [i for i in range(16) if m >> i & 1 and (f != 1 or P[i][3] >= 128)]
def judge(f):
    def j(out, P, m, *_):
        on = rel(f, P, m)
        if len({tuple(P[i][:3]) for i in on}) < 2: return None
        px = spec.decode(f, out)
        for c in range(3):
            lo, hi = min(P[i][c] for i in on), max(P[i][c] for i in on)
            for i in on:
                v = px[4 * i + c]
                if not lo - TOL[c] <= v <= hi + TOL[c]: return f"channel {c} of pixel {i} decodes to {v}; the enabled pixels have {lo} to {hi} there"
    return j

def expand(w, c):
    x = t.ext(w, *FIELD[c]); n = x.w
    return t.cat([x, t.ext(x, n - 1, 2 * n - 8)])

def job(J, cfg):
    f = cfg.f; cfg.build(J); J.start(cfg.oracle(J, judge(f)))
    R = cfg.run(J)
    if not R.returned: J.prove("returns", t.FALSE); return
    b = BS[f] - 8
    cfg.validate(J, R, 4, b)
    on = [enabled(cfg.m, i) if f != 1 else t.band(enabled(cfg.m, i), opaque(cfg.px[i])) for i in range(16)]
    ax = list(cfg.ax)
    if cfg.mask == "any":        # both colours occur
        for q in range(cfg.k):
            o = t.FALSE
            for i in range(16):
                if cfg.order[i] == q: o = t.bor(o, on[i])
            ax.append(o)
    W = R.words[b]
    X = 10
    for c in range(3):
        for k in (0, 1):
            e = t.zext(expand(W[k], c), X); lo = hi = t.FALSE
            for q in range(cfg.k):
                r = t.FALSE
                for i in range(16):
                    if cfg.order[i] == q: r = t.bor(r, on[i])
                p = t.zext(cfg.cs[q][c], X)
                lo = t.bor(lo, t.band(r, t.ule(p, t.add(e, C(TOL[c], X))))); hi = t.bor(hi, t.band(r, t.ule(e, t.add(p, C(TOL[c], X)))))
            J.prove(f"endpoint {k}, channel {c} is not below the range", lo, ax)
            J.prove(f"endpoint {k}, channel {c} is not above the range", hi, ax)
    if f == 1:
        three = t.ule(W[0], W[1])
        for i in range(16):
            gone = t.band(three, t.eq(t.ext(R.out[b + 4 + i // 4], 2 * (i % 4) + 1, 2 * (i % 4)), C(3, 2)))
            if on[i] is not t.FALSE: J.prove(f"pixel {i} is not transparent black", implies(on[i], bnot(gone)), ax)
    J.prove("the endpoints are the block's first two words", conj([t.eq(R.out[b + 2 * k + h], t.ext(W[k], 8 * h + 7, 8 * h)) for k in (0, 1) for h in (0, 1)]), ax)

def between(J, f):
    """whatever the endpoints and indices are, a decoded pixel lies between the endpoints, except BC1's transparent black"""
    b = BS[f] - 8
    blk = [J.var(f"b{i}") for i in range(BS[f])]
    def oracle(env):
        bl = bytes(env[f"b{i}"] for i in range(BS[f])); px = J.nat.decode(f, bl); w = [bl[b] | bl[b + 1] << 8, bl[b + 2] | bl[b + 3] << 8]
        for i in range(16):
            if f == 1 and w[0] <= w[1] and bl[4 + i // 4] >> 2 * (i % 4) & 3 == 3: continue
            for c in range(3):
                e = t.evaluate([expand(C(x, 16), c) for x in w], {})
                if not min(e) <= px[4 * i + c] <= max(e): return f"decompress_block({FNAME[f]}, {bl.hex()}): channel {c} of pixel {i} is {px[4*i+c]}, outside the endpoints {e}"
    J.start(oracle)
    D = J.prog.decode(f, blk)
    W = [t.cat([blk[b + 1], blk[b]]), t.cat([blk[b + 3], blk[b + 2]])]
    for i in range(16):
        gone = t.band(t.ule(W[0], W[1]), t.eq(t.ext(blk[b + 4 + i // 4], 2 * (i % 4) + 1, 2 * (i % 4)), C(3, 2))) if f == 1 else t.FALSE
        for c in range(3):
            e, v = [expand(w, c) for w in W], D.out[i][c]
            J.prove(f"pixel {i}, channel {c} is between the endpoints", t.bor(gone, t.bor(t.band(t.ule(e[0], v), t.ule(v, e[1])), t.band(t.ule(e[1], v), t.ule(v, e[0])))))

def jobs(tier):
    o, full = ["o"] * 16, 0xffff
    lay = {2: [0, 1] * 8, 3: [0, 0, 1, 2] * 4, 4: [i // 4 for i in range(16)], 5: [0, 1, 2, 3, 4, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 0], 8: [i // 2 for i in range(16)], 12: list(range(12)) + [11, 5, 0, 3]}
    cs = []
    for f in (1, 2, 3):
        a = o if f == 1 else None
        cs.append(Cfg(f, 16, full, 0, alpha=a, distinct=True)); cs.append(Cfg(f, 16, full, 0, 1, alpha=a, distinct=True))
        for k, l in lay.items(): cs.append(Cfg(f, k, full, 0, f == 3 and k % 2, alpha=a, order=l, distinct=True))
        for m in (0x8001, 0x7ffe, 0x0ff0, 0x1111, 0x5a5a, 0xfffffffe, 0x13):
            cs.append(Cfg(f, 16, m, 0, alpha=a, distinct=True))
    for p in ("otoooooooooottoo", "t" * 14 + "oo", "ottoottoottootto", "o" * 15 + "t", "t" + "o" * 15):
        cs.append(Cfg(1, 16, full, 0, alpha=list(p), distinct=True))
        cs.append(Cfg(1, 4, full, 0, alpha=list(p), order=lay[4] if p[0] == "o" and p[1] == "o" else [i % 4 for i in range(16)], distinct=True))
    cs += [Cfg(f, 2, "any", 0, distinct=True) for f in (1, 2)]
    if tier == "thorough":
        cs += [Cfg(f, 3, "any", 0, distinct=True) for f in (1, 2)]
        import random
        r = random.Random(5)
        for f in (1, 2, 3):
            for n in range(40):
                k = r.randrange(2, 16); l = list(range(k)) + [r.randrange(k) for _ in range(16 - k)]; r.shuffle(l)
                m = r.getrandbits(16)
                a = [r.choice("ooot") for _ in range(16)] if f == 1 else None
                if len({l[i] for i in range(16) if m >> i & 1 and (a is None or a[i] == "o")}) > 1: cs.append(Cfg(f, k, m, 0, n & 1 if f == 3 else 0, alpha=a, order=l, distinct=True))
    return [(f"decoder {FNAME[f]}", between, dict(f=f), 200) for f in (1, 2, 3)] + [(c.name, job, dict(cfg=c), 300) for c in cs]
