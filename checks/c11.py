"""C11: irrelevant input bytes never influence a compressed block"""
import term as t
from term import C, V
from harness import conj, FNAME, BS
from enc import *
BOUNDS = ("16 free pixels; masks: the 15 crops of an image border and irregular ones for the range fit and the gradients; for the cluster fits all masks of the list with at most 4 (cluster) or 2 (iterative) "
          "enabled colours; fixed patterns of transparent pixels in BC1; alpha/colour independence: range fit, full and irregular masks, cluster fit with up to 4 colours; the upper half of the mask: any lower half with 1 or 2 colours")
OUTSIDE = "other masks and transparency patterns; cluster fits on more distinct colours"
ASSUMPTIONS = [WNOTE]

def crop(w, h): return sum(1 << (4 * y + x) for y in range(h) for x in range(w))
CROPS = [crop(w, h) for h in range(1, 5) for w in range(1, 5) if (w, h) != (4, 4)]
ODD = [0x8421, 0xa5a5, 0xfffe, 0x7fff, 0x0180, 0x0000]

class Two:
    """a family of inputs and the same inputs with the irrelevant bytes replaced"""
    def __init__(s, J, cfg, irr):
        s.J = J; s.cfg = cfg; cfg.build(J); s.irr = set(irr)
        s.px2 = [list(p) for p in cfg.px]
        s.names = set()
        for i, c in irr:
            n = f"q{i}_{c}"; J.inputs[n] = 8; s.px2[i][c] = V(n, 8)
            s.names |= set(t.variables([cfg.px[i][c]]))
    def oracle(s, lo, hi):
        J, cfg = s.J, s.cfg
        def judge(out, P, m, alg, wba, ws):
            o = J.nat.encode(cfg.f, s.other(P), m, alg, wba, ws)
            if o is None or o[lo:hi] != out[lo:hi]: return f"with the irrelevant bytes replaced (rgba={s.other(P).hex()}) it is {o and o.hex()}"
        base = cfg.oracle(J, judge)
        def o(env): s.env = env; return base(env)
        return o
    def other(s, P):
        return bytes(s.env.get(f"q{i}_{c}", 0) if (i, c) in s.irr else P[i][c] for i in range(16) for c in range(4))
    def check(s, label, R, lo, hi):
        J, cfg = s.J, s.cfg
        outs = R.out[lo:hi]; vs = set(t.variables(outs))
        fresh = [v for v in vs if not (v in J.inputs or v.startswith("$w"))]
        if not fresh and not vs & s.names:
            for b in range(lo, hi): J.prove(f"{label}: byte {b}", t.TRUE)       # the byte's term does not mention the irrelevant inputs
            return
        keep = cfg.px; cfg.px = s.px2
        try: R2 = cfg.run(J)
        finally: cfg.px = keep
        for b in range(lo, hi): J.prove(f"{label}: byte {b}", t.eq(R.out[b], R2.out[b]), cfg.ax)

def job(J, cfg, irr, lo, hi):
    T = Two(J, cfg, irr)
    J.start(T.oracle(lo, hi))
    R = cfg.run(J)
    if not R.returned: J.prove("returns", t.FALSE); return
    T.check("independent", R, lo, hi)
    cfg.validate(J, R, 4, lo, hi)

def maskhi(J, cfg):
    """bits 16 to 31 of the mask"""
    cfg.build(J)
    del J.inputs["mask"]; J.inputs.update(lo=16, h1=16, h2=16)
    def oracle(env):
        for alg, wba, ws in cfg.variants():
            cfg.m = C(0, 32); c = cfg.conc(env)
            if c is None: return
            a, b = (J.nat.encode(cfg.f, c[0], env["lo"] | env[h] << 16, alg, wba, ws) for h in ("h1", "h2"))
            if a != b: return f"{cfg.name}: {c[0].hex()} mask {env['lo']:#x} with upper mask bits {env['h1']:#x} and {env['h2']:#x} gives {a and a.hex()} and {b and b.hex()}"
    J.start(oracle)
    cfg.m = t.cat([V("h1", 16), V("lo", 16)]); A = cfg.run(J)
    if "h1" not in t.variables(A.out):
        for b in range(len(A.out)): J.prove(f"upper mask bits: byte {b}", t.TRUE)
        return
    cfg.m = t.cat([V("h2", 16), V("lo", 16)]); B = cfg.run(J)
    for b in range(len(A.out)): J.prove(f"upper mask bits: byte {b}", t.eq(A.out[b], B.out[b]), cfg.ax)

def jobs(tier):
    out = []
    def add(tag, cfg, irr, lo, hi, bud=300): out.append((f"{tag}: {cfg.name}", job, dict(cfg=cfg, irr=irr, lo=lo, hi=hi), bud))
    dis = lambda m: [(i, c) for i in range(16) if not m >> i & 1 for c in range(4)]
    n = lambda m: bin(m).count("1")
    o16 = ["o"] * 16
    for m in CROPS + ODD:
        for f in (1, 2, 3):
            # alpha of enabled pixels fixed to opaque in BC1, where it decides which pixels take part
            add("disabled pixels", Cfg(f, 16, m, 0, 0, alpha=["o" if m >> i & 1 else "*" for i in range(16)] if f == 1 else None), dis(m), 0, BS[f])
        for f in (4, 5): add("disabled pixels", Cfg(f, 16, m, 0, 0, "uniform"), dis(m), 0, BS[f])
        if 2 <= n(m) <= (4 if tier == "quick" else 6):
            # the fit requires a fixed number of colours: the enabled pixels are pairwise different
            for f, a in ((1, 1), (2, 1), (3, 1)) + (((2, 2), (1, 2)) if n(m) == 2 else ()):
                c = Cfg(f, 16, m, a, 0, alpha=["o" if m >> i & 1 else "*" for i in range(16)] if f == 1 else None, distinct=False)
                c.pairs = [i for i in range(16) if m >> i & 1]
                add("disabled pixels", c, dis(m), 0, BS[f], 400)
    for pat in ("tooooooooooooooo", "ttttttttoooooooo", "totototototototo", "oooooooooooooott", "tttttttttttttttt", "ototttttotototto"):
        add("transparent colours", Cfg(1, 16, 0xffff, 0, 0, alpha=list(pat)), [(i, c) for i in range(16) if pat[i] == "t" for c in range(3)], 0, 8)
    for pat in ("otttttttttttttto", "ttttottttttoottt", "totottttottttttt"):
        for a in (1, 2) if pat.count("o") == 2 else (1,):
            c = Cfg(1, 16, 0xffff, a, 0, alpha=list(pat), distinct=False); c.pairs = [i for i in range(16) if pat[i] == "o"]
            add("transparent colours", c, [(i, c) for i in range(16) if pat[i] == "t" for c in range(3)], 0, 8, 400)
    for f in (2, 3):
        for m in (0xffff, 0x8421, 0xa5a5):
            c = Cfg(f, 16, m, 0, 0); add("alpha half ignores colour", c, [(i, c) for i in range(16) for c in range(3)], 0, 8)
            c = Cfg(f, 16, m, 0, 0); add("colour half ignores alpha", c, [(i, 3) for i in range(16)], 8, 16)
        c = Cfg(f, 2, "any", 0, 1); add("alpha half ignores colour", c, [(i, c) for i in range(16) for c in range(3)], 0, 8)
        for a, m in ((1, 0x8421), (2, 0x0180), (1, 0x0033)):
            c = Cfg(f, 16, m, a, 0, distinct=False); c.pairs = [i for i in range(16) if m >> i & 1]
            add("alpha half ignores colour", c, [(i, c) for i in range(16) for c in range(3)], 0, 8)
            c = Cfg(f, 16, m, a, 0, distinct=False); c.pairs = [i for i in range(16) if m >> i & 1]
            add("colour half ignores alpha", c, [(i, 3) for i in range(16)], 8, 16)
    for a in (0, 1, 2):
        for w in (0, 1):
            add("unused channels", Cfg(4, 16, "any", a, w, distinct=False), [(i, c) for i in range(16) for c in (1, 2, 3)], 0, 8)
            add("unused channels", Cfg(5, 16, "any", a, w, distinct=False), [(i, c) for i in range(16) for c in (2, 3)], 0, 16)
    for c in [Cfg(f, 1, "any", 0) for f in (1, 2, 3)] + [Cfg(f, 16, "any", 0) for f in (4, 5)] + [Cfg(1, 2, "any", 0), Cfg(2, 2, "any", 0), Cfg(2, 2, "any", 1), Cfg(3, 1, "any", 1)]:
        out.append((f"upper mask bits: {c.name}", maskhi, dict(cfg=c), 300))
    return out
