"""C09: BC1 keeps the alpha test"""
import term as t, spec
from term import C, V
from harness import conj, FNAME, BS
from enc import *
BOUNDS = ("all alphas; any mask with 1, 2, 3 and 16 free colours (range fit) and 1, 2 colours (cluster fit); full mask with fixed patterns of transparent pixels and 3 or 4 colours (cluster fit), 2 colours (iterative), and with 8, 14, 15 and 16 distinct colours (cluster fit) and 4 (iterative), where the choice of clusters is abstracted to any within range; "
          "thorough: any mask with 4 and 6 colours (range fit) and 3 (cluster fit), 6 colours full mask (cluster fit)")
OUTSIDE = "cluster fits with other masks and numbers of distinct colours"
ASSUMPTIONS = [WNOTE, "in a decoded BC1 block exactly the pixels with index 3 are transparent black if the first endpoint is not greater than the second (C01)"]

def judge(out, P, m, *_):
    px = spec.decode(1, out)
    for i in range(16):
        if not m >> i & 1: continue
        if P[i][3] < 128 and px[4 * i:4 * i + 4] != [0, 0, 0, 0]: return f"enabled pixel {i} with alpha {P[i][3]} decodes to {px[4*i:4*i+4]}"
        if P[i][3] >= 128 and px[4 * i + 3] != 255: return f"enabled pixel {i} with alpha {P[i][3]} decodes to alpha {px[4*i+3]}"

def job(J, cfg, case, wide=False, without=None):
    cfg.build(J)
    J.start(cfg.oracle(J, judge))
    J.timeout = 150
    T = t.FALSE; O = t.FALSE
    for i in range(16):
        e, o = enabled(cfg.m, i), opaque(cfg.px[i])
        T = t.bor(T, t.band(e, bnot(o))); O = t.bor(O, t.band(e, o))
    ax = {"no opaque pixels": [bnot(O)], "opaque and transparent pixels": [O, T], "no transparent pixels": [O, bnot(T)], "": []}[case]
    if any(a is t.FALSE for a in ax): return
    R = cfg.run(J, extra=ax, wide=wide, hooks=skip(J, without))
    if not R.returned: J.prove("returns", t.FALSE); return
    if case == "": cfg.validate(J, R, 6)
    ax = ax + cfg.ax
    c0, c1 = R.words[0]
    three = t.ule(c0, c1)                 # three-colour mode; in it index 3 is transparent black, everything else has alpha 255 (C01)
    if case in ("no opaque pixels", "opaque and transparent pixels"):
        if J.prove("three-colour mode", three, ax): three = t.TRUE
    for i in range(16):
        gone = t.band(three, t.eq(t.ext(R.out[4 + i // 4], 2 * (i % 4) + 1, 2 * (i % 4)), C(3, 2)))
        en, tr = enabled(cfg.m, i), bnot(opaque(cfg.px[i]))
        J.prove(f"pixel {i}: transparent stays transparent black", implies(conj([en, tr]), gone), ax)
        J.prove(f"pixel {i}: opaque stays opaque", implies(conj([en, bnot(tr)]), bnot(gone)), ax)

CASES = ("no opaque pixels", "opaque and transparent pixels", "no transparent pixels")
def jobs(tier):
    anym = [Cfg(1, 1, "any", 0), Cfg(1, 2, "any", 0), Cfg(1, 3, "any", 0), Cfg(1, 16, "any", 0), Cfg(1, 1, "any", 1), Cfg(1, 2, "any", 1), Cfg(1, 2, "any", 0, 1), Cfg(1, 1, "any", 1, 1)]
    full = [Cfg(1, 16, 0xffff, 0, alpha=["o"] * 16), Cfg(1, 16, 0xffff, 0, alpha=list("otttoooootottoot")),
            Cfg(1, 4, 0xffff, 1, alpha=["o"] * 16), Cfg(1, 3, 0xffff, 1, alpha=list("otoooooooooottoo")), Cfg(1, 2, 0xffff, 2, alpha=list("otoooooooooottoo")), Cfg(1, 2, 0xffff, 2, alpha=["o"] * 16)]
    if tier == "thorough":
        anym += [Cfg(1, 4, "any", 0), Cfg(1, 6, "any", 0), Cfg(1, 3, "any", 1), Cfg(1, 2, "any", 1, 1)]
        full += [Cfg(1, 6, 0xffff, 1, alpha=["o"] * 16), Cfg(1, 5, 0xffff, 1, alpha=list("otoooooooooottoo")), Cfg(1, 3, 0xffff, 2, alpha=["o"] * 16)]
    # every pixel a colour of its own: the clusters chosen are abstracted to any within range.  With the three- and the four-colour search
    # one after the other: the block is what one of them writes
    lim = 2000 if tier == "thorough" else 600
    wide = [("wide, without the four-colour search: ", Cfg(1, 16, 0xffff, 1, alpha=["o"] * 16), "4"), ("wide, without the three-colour search: ", Cfg(1, 16, 0xffff, 1, alpha=["o"] * 16), "3")]
    wide += [("wide: ", Cfg(1, k, 0xffff, 1, alpha=a, order=o), None) for k, a, o in (
        (15, ["o"] * 14 + ["t", "o"], list(range(14)) + [0, 14]), (14, ["t"] + ["o"] * 14 + ["t"], [0] + list(range(14)) + [0]), (8, list("ot" * 8), [i // 2 for i in range(16)]))]
    wide += [("wide: ", Cfg(1, 4, 0xffff, 2, alpha=list("ototoooooooottoo")), None)]
    return [(n + c.name, job, dict(cfg=c, case="", wide=True, without=w), lim) for n, c, w in wide] + [(f"{c.name}, {k}", job, dict(cfg=c, case=k), 800 if tier == "thorough" else 450) for c in anym for k in CASES] + [(c.name, job, dict(cfg=c, case=""), 450) for c in full]
