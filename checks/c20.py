"""C20: colour blocks of BC2 and BC3 do not depend on the decoder's endpoint-order rule"""
import term as t
from term import C, V
from harness import conj, FNAME, BS
from enc import *
BOUNDS = ("any 32-bit mask with 1, 2, 4 and 16 free colours (range fit) and 1, 2 colours (cluster fit), full mask with up to 4 distinct colours (cluster fit) and 2 (iterative), and with 9 and 16 (cluster fit) and 4 (iterative), where the choice of clusters is abstracted to any within range; all alphas, both alpha weightings")
OUTSIDE = "cluster fits with other masks and numbers of distinct colours"
ASSUMPTIONS = [WNOTE]

def job(J, cfg, wide=False):
    f = cfg.f; cfg.build(J)
    def judge(out, P, m, *_):
        half = out[8:]
        a = J.nat.decode(f, bytes(8) + half); b = J.nat.decode(1, half)
        for i in range(16):
            if list(b[4 * i:4 * i + 4]) != list(a[4 * i:4 * i + 3]) + [255]:
                return f"the colour half decodes to {list(a[4*i:4*i+3])} in pixel {i}, but to {list(b[4*i:4*i+4])} by the rule of BC1"
    J.start(cfg.oracle(J, judge))
    J.timeout = 150
    R = cfg.run(J, wide=wide)
    if not R.returned: J.prove("returns", t.FALSE); return
    if not wide: cfg.validate(J, R, 4, 8)
    c0, c1 = R.words[8]
    J.prove("the endpoints are the half's first two words", conj([t.eq(R.out[8 + 2 * k + h], t.ext(R.words[8][k], 8 * h + 7, 8 * h)) for k in (0, 1) for h in (0, 1)]), cfg.ax)
    J.prove("the first endpoint is not smaller", t.ule(c1, c0), cfg.ax)
    for k in range(4): J.prove(f"equal endpoints: indices of row {k} are 0", implies(t.eq(c0, c1), t.eq(R.out[12 + k], C(0, 8))), cfg.ax)

def alike(J):
    """a colour half with a greater first endpoint, or equal ones and no index but 0, decodes alike by both rules"""
    b = [J.var(f"b{i}") for i in range(8)]
    def oracle(env):
        h = bytes(env[f"b{i}"] for i in range(8))
        if h[0] | h[1] << 8 < h[2] | h[3] << 8 or h[:2] == h[2:4] and any(h[4:]): return None
        x = J.nat.decode(1, h)
        for f in (2, 3):
            y = J.nat.decode(f, bytes(8) + h)
            for i in range(16):
                if list(x[4 * i:4 * i + 4]) != list(y[4 * i:4 * i + 3]) + [255]: return f"colour half {h.hex()}: pixel {i} decodes to {list(y[4*i:4*i+3])} in {FNAME[f]}, to {list(x[4*i:4*i+4])} in Bc1"
    J.start(oracle)
    w = [t.cat([b[1], b[0]]), t.cat([b[3], b[2]])]
    ok = t.bor(t.ult(w[1], w[0]), conj([t.eq(w[0], w[1])] + [t.eq(x, C(0, 8)) for x in b[4:]]))
    D = J.prog.decode(1, b).out
    for f in (2, 3):
        E = J.prog.decode(f, [V(f"alpha{i}", 8) for i in range(8)] + b).out
        for i in range(16): J.prove(f"{FNAME[f]} pixel {i}", conj([t.eq(D[i][c], E[i][c] if c < 3 else C(255, 8)) for c in range(4)]), [ok])

def jobs(tier):
    cs = [Cfg(f, k, "any", 0, w) for f, k, w in ((2, 1, 0), (2, 2, 0), (2, 4, 0), (2, 16, 0), (3, 2, 1), (3, 16, 1))]
    cs += [Cfg(2, 1, "any", 1, 1), Cfg(2, 2, "any", 1), Cfg(3, 2, "any", 1, 1), Cfg(2, 4, 0xffff, 1), Cfg(3, 3, 0xffff, 1, 1), Cfg(3, 1, "any", 2), Cfg(2, 2, 0xffff, 2)]
    wide = [Cfg(2, 16, 0xffff, 1), Cfg(3, 9, 0xffff, 1), Cfg(2, 4, 0xffff, 2)]
    if tier == "thorough":
        cs += [Cfg(2, 6, 0xffff, 1), Cfg(2, 4, "any", 1), Cfg(3, 3, 0xffff, 2)]
        wide += [Cfg(2, 6, 0xffff, 2), Cfg(3, 16, 0xffff, 1, 1)]
    lim = 2000 if tier == "thorough" else 450
    return [("wide: " + c.name, job, dict(cfg=c, wide=True), lim) for c in wide] + [(c.name, job, dict(cfg=c), lim) for c in cs] + [("both rules", alike, {}, 100)]
