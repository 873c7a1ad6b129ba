"""C12: block (de)compression never fails and fills exactly one block"""
import term as t
from term import C, V
from harness import conj, FNAME, BS
from enc import *
BOUNDS = ("range fit: 16 free pixels, any 32-bit mask, all formats; gradients: 16 free pixels, any mask; cluster fit: any mask with 1 and 2 free colours, full mask with up to 4 distinct colours (6 in thorough), and with 9, 15 and 16 distinct colours, where the choice of clusters is abstracted to any within range; "
          "iterative cluster fit: full mask with 2 and 4 distinct colours, any mask with 1; decoding: all blocks; output buffers of exactly one block and of 8 bytes more")
OUTSIDE = "cluster fits with masks and numbers of distinct colours other than these, iterative ones on more than 4 colours; weights that are negative, infinite, NaN or above 1024"
ASSUMPTIONS = [WNOTE]

def job(J, cfg, extra=0, wide=False, without=None):
    cfg.build(J)
    n = BS[cfg.f] + extra
    def judge(out, P, m, alg, wba, ws):
        px = bytes(x for p in P for x in p)
        for fill in (0x00, 0xff, 0x5a):
            o = J.nat.encode(cfg.f, px, m, alg, wba, ws, n=n, fill=bytes([fill]) * n)
            if o is None: return f"panics with an output buffer of {n} bytes"
            if o[:BS[cfg.f]] != out[:BS[cfg.f]]: return f"with the output buffer filled with {fill:#x} before, the result is {o.hex()}: some byte is not written"
            if extra and o[BS[cfg.f]:] != bytes([fill]) * extra: return f"bytes beyond the block are changed: {o.hex()}"
    J.start(cfg.oracle(J, judge))
    hooks = skip(J, without)
    fill = [V(f"fill{i}", 8) for i in range(n)]
    R = cfg.run(J, fill=fill, n=n, wide=wide, hooks=hooks)
    J.no_events(R, "", cfg.ax)
    if not R.returned: return
    cfg.validate(J, R, 4, 0, BS[cfg.f])
    alt = {}
    for i in range(BS[cfg.f]):
        vs = [v for v in t.variables([R.out[i]]) if v.startswith("fill")]
        if not vs: J.prove(f"byte {i} is written", t.TRUE)
        else:
            # depends on the old contents?  two different old contents must give the same byte
            if not alt:
                fill2 = [V(f"fill{i}'", 8) for i in range(n)]
                alt["r"] = cfg.run(J, fill=fill2, n=n, wide=wide, hooks=hooks)
            J.prove(f"byte {i} is written", t.eq(R.out[i], alt["r"].out[i]), cfg.ax)
    for i in range(BS[cfg.f], n): J.prove(f"byte {i} beyond the block is untouched", t.eq(R.out[i], fill[i]), cfg.ax)

def dec(J, f):
    b = [J.var(f"b{i}") for i in range(BS[f])]
    def oracle(env):
        blk = bytes(env[f"b{i}"] for i in range(BS[f]))
        if J.nat.decode(f, blk) is None: return f"decompress_block({FNAME[f]}, {blk.hex()}) panics"
    J.start(oracle)
    R = J.prog.decode(f, b)
    J.no_events(R, "decode")
    J.prove("decompression returns", t.TRUE if R.returned else t.FALSE)

def jobs(tier):
    cs = [Cfg(f, 16, "any", 0) for f in (1, 2, 3, 4, 5)]
    cs += [Cfg(f, 1, "any", 1, 1) for f in (1, 2, 3)] + [Cfg(f, 2, "any", 1) for f in (1, 2)] + [Cfg(1, 4, 0xffff, 1, alpha=["o"] * 16), Cfg(2, 4, 0xffff, 1), Cfg(3, 3, 0xffff, 1, 1)]
    cs += [Cfg(1, 1, "any", 2), Cfg(2, 2, 0xffff, 2), Cfg(1, 2, 0xffff, 2, alpha=["o"] * 16)]
    if tier == "thorough": cs += [Cfg(2, 6, 0xffff, 1), Cfg(1, 3, "any", 1), Cfg(2, 4, "any", 1), Cfg(3, 3, 0xffff, 2), Cfg(1, 5, 0xffff, 1, alpha=["o"] * 16), Cfg(2, 8, 0xffff, 1)]
    out = [(c.name, job, dict(cfg=c), 700 if tier == "thorough" else 450) for c in cs]
    # every pixel a colour of its own, and fewer: the clusters chosen are abstracted to any within range
    ws = [Cfg(2, 16, 0xffff, 1), Cfg(1, 15, 0xffff, 1, alpha=["o"] * 14 + ["t", "o"], order=list(range(14)) + [0, 14]), Cfg(2, 9, 0xffff, 1), Cfg(2, 4, 0xffff, 2), Cfg(1, 4, 0xffff, 2, alpha=["o"] * 16)]
    if tier == "thorough": ws += [Cfg(1, 16, 0xffff, 1, alpha=["o"] * 16), Cfg(2, 6, 0xffff, 2), Cfg(3, 16, 0xffff, 1, 1)]
    lim = 3000 if tier == "thorough" else 600
    out = [("wide: " + c.name, job, dict(cfg=c, wide=True), lim) for c in ws] + out
    out.insert(1, ("wide, without the four-colour search: " + Cfg(1, 16, 0xffff, 1, alpha=["o"] * 16).name, job, dict(cfg=Cfg(1, 16, 0xffff, 1, alpha=["o"] * 16), wide=True, without="4"), lim))
    out += [(f"8 bytes more, {FNAME[f]}", job, dict(cfg=Cfg(f, 2, 0xffff, 0), extra=8), 200) for f in (1, 2, 3, 4, 5)]
    out += [(f"decoding {FNAME[f]}", dec, dict(f=f), 100) for f in range(1, 6)]
    return out
