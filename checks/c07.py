"""C07: the alpha half of a BC2 block"""
import term as t
from term import C
from harness import conj
from enc import *
NEAR = [min(range(16), key=lambda n: abs(17 * n - a)) for a in range(256)]
BOUNDS = "all alphas; any mask with 1, 2 and 16 free colours (range fit), with 1 and 2 (cluster fit); full mask with 4 (cluster fit) and 2 (iterative cluster fit)"
OUTSIDE = "cluster fits on more distinct colours (the alpha half is written by a separate function before the fit starts)"
ASSUMPTIONS = [WNOTE]

def judge(out, P, m, *_):
    for i in range(16):
        n = out[i // 2] >> 4 * (i & 1) & 15
        w = NEAR[P[i][3]] if m >> i & 1 else 0
        if n != w: return f"pixel {i} with alpha {P[i][3]} ({'enabled' if m >> i & 1 else 'disabled'}) is stored as {n}, nearest is {w}"

def job(J, cfg):
    cfg.build(J)
    J.start(cfg.oracle(J, judge))
    R = cfg.run(J)
    cfg.validate(J, R, 10, 0, 8)
    for i in range(16):
        near = t.tabn(cfg.px[i][3], tuple(NEAR), 4)
        want = ite(enabled(cfg.m, i), near, C(0, 4))
        got = t.ext(R.out[i // 2], 4 * (i & 1) + 3, 4 * (i & 1))
        J.prove(f"pixel {i} alpha", t.eq(got, want), cfg.ax)

def jobs(tier):
    cs = [Cfg(2, 1, "any", 0), Cfg(2, 1, "any", 1, 1), Cfg(2, 2, "any", 0), Cfg(2, 2, "any", 1, 0), Cfg(2, 16, 0xffff, 0), Cfg(2, 16, "any", 0), Cfg(2, 4, 0xffff, 1), Cfg(2, 2, 0xffff, 2), Cfg(2, 3, 0x7777, 1, 1)]
    return [(c.name, job, dict(cfg=c), 400) for c in cs]
