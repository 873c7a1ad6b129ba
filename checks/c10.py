"""C10: a block of one colour round-trips within one level per channel (two in BC1 blocks with transparent pixels)"""
import term as t, spec
from term import C, V
from harness import conj, FNAME, BS, ALG
from enc import *
BOUNDS = ("all 2^24 colours, all masks with at least one enabled opaque pixel, all alphas; the enabled transparent and the disabled pixels of BC1 have the same colour "
          "in the any-mask runs and colours of their own in runs with fixed patterns; all three algorithms")
OUTSIDE = "nothing, given C11 (transparent and disabled pixels do not matter) and, in quick, C19 (BC3 carries the colour block of BC2) and C11 (one colour: the algorithm does not matter)"
ASSUMPTIONS = [WNOTE, "C11: the alpha of a disabled pixel does not matter"]

def judge(J, f, out, P, m):
    px = J.nat.decode(f, out)
    on = [i for i in range(16) if m >> i & 1 and not (f == 1 and P[i][3] < 128)]
    if any(P[i][:3] != P[on[0]][:3] for i in on): return
    for i in on:
        for c in range(3):
            lim = 2 if f == 1 and any(m >> k & 1 and P[k][3] < 128 for k in range(16)) else 1
            if abs(px[4 * i + c] - P[i][c]) > lim: return f"enabled pixel {i} of colour {P[i][:3]} decodes to {list(px[4*i:4*i+3])}"

def near(x, y, lim):
    """|x - y| <= lim"""
    d = t.sub(t.zext(x, 9), t.zext(y, 9))
    return t.ult(t.add(d, C(lim, 9)), C(2 * lim + 1, 9))

def start(J, cfg): J.start(cfg.oracle(J, lambda out, P, m, *_: judge(J, cfg.f, out, P, m)))

def direct(J, cfg):
    """fixed mask and pattern of transparent pixels"""
    J.timeout = 120
    f = cfg.f; cfg.build(J); start(J, cfg)
    R = cfg.run(J)
    if not R.returned: J.prove("returns", t.FALSE); return
    cfg.validate(J, R, 8, BS[f] - 8)
    D = J.prog.decode(f, R.out); b = BS[f] - 8
    on = [i for i in range(16) if cfg.mask >> i & 1 and not (f == 1 and cfg.alpha[i] == "t")]
    lim = 2 if f == 1 and any(cfg.mask >> i & 1 and cfg.alpha[i] == "t" for i in range(16)) else 1
    ix = lambda i: t.ext(R.out[b + 4 + i // 4], 2 * (i % 4) + 1, 2 * (i % 4))
    for c in range(3): J.prove(f"pixel {on[0]} channel {c}", near(D.out[on[0]][c], cfg.px[on[0]][c], lim), cfg.ax)
    for i in on[1:]: J.prove(f"pixel {i} has the index of pixel {on[0]}", t.eq(ix(i), ix(on[0])), cfg.ax)

def anymask(J, f, alg, j):
    """pixel j is the first enabled opaque one: the block is that of the full mask up to the indices of other pixels"""
    J.timeout = 120
    cfg = Cfg(f, 1, ("*" if f == 1 else "0") * j + "1" + "*" * (15 - j), alg, alpha=["t"] * j + ["o"] + ["*"] * (15 - j) if f == 1 else None)
    cfg.build(J); start(J, cfg)
    R = cfg.run(J)
    if not R.returned: J.prove("returns", t.FALSE); return
    b = BS[f] - 8
    cfg.validate(J, R, 3, b)
    T = t.FALSE
    for i in range(16): T = t.bor(T, t.band(enabled(cfg.m, i), bnot(opaque(cfg.px[i]))))
    for case, alpha in ((T, ["o"] * 15 + ["t"]), (bnot(T), ["o"] * 16)) if f == 1 else ((t.TRUE, None),):
        g = Cfg(f, 1, 0xffff, alg, alpha=alpha).build(J); g.px = [p[:3] + [C(255 if (alpha or "o" * 16)[i] == "o" else 0, 8)] for i, p in enumerate(g.px)]
        F = g.run(J)
        ax = [case] if case is not t.TRUE else []
        ok = all([J.prove(f"endpoint {k} as for the full mask", t.eq(R.words[b][k], F.words[b][k]), ax) for k in (0, 1)])
        i0 = t.ext(F.out[b + 4], 1, 0)
        for i in range(16):
            on = conj([enabled(cfg.m, i)] + ([opaque(cfg.px[i])] if f == 1 else []))
            if on is not t.FALSE: J.prove(f"index {i} as for the full mask", implies(on, t.eq(t.ext(R.out[b + 4 + i // 4], 2 * (i % 4) + 1, 2 * (i % 4)), i0)), ax)
        if j: continue           # the same obligation in every job
        D = J.prog.decode(f, F.out)
        lim = 2 if case is T and f == 1 else 1
        for c in range(3): J.prove(f"full mask, channel {c}", near(D.out[0][c], g.px[0][c], lim))

def jobs(tier):
    out = [(f"{FNAME[f]} {ALG[a]}, first enabled opaque pixel {j}", anymask, dict(f=f, alg=a, j=j), 500) for f in (1, 2, 3) for a in (0, 1, 2) for j in range(16) if a == 0 and f < 3 or j in (0, 5) or tier == "thorough"]
    cs = [Cfg(f, 1, 0xffff, a, 1) for f in (2, 3) for a in (0, 1, 2)]
    for f, a, mask, pat in ((1, 0, 0xffff, "otttttttttttttto"), (1, 1, 0xffff, "ttttoooottttoooo"), (1, 2, 0x7ffe, "tttootttttotottt"), (1, 0, 0x8421, "oooooooooooooooo"), (2, 0, 0x8421, None), (3, 1, 0x0180, None)):
        # pixels that do not take part have colours of their own
        on = [i for i in range(16) if mask >> i & 1 and (pat is None or pat[i] == "o")]
        c = Cfg(f, 16, mask, a, alpha=None if pat is None else list(pat), distinct=False, order=[on[0] if i in on else i for i in range(16)])
        cs.append(c)
    return out + [(c.name, direct, dict(cfg=c), 400) for c in cs]
