"""C19: BC5 = BC4 + BC4, BC3 alpha = BC4 of alpha, BC2 and BC3 share the colour half; decoding likewise"""
import term as t
from term import C, V
from harness import conj, FNAME, BS
from enc import *
BOUNDS = "gradient halves: all pixels, any mask; colour halves: any mask with 1 and 2 free colours, full mask with 16 (range fit), any mask with 1 and 2 and full mask with 3 colours (cluster fit); decoding: all blocks"
OUTSIDE = "colour halves under the iterative cluster fit with more than 2 and the cluster fit with more than 3 distinct colours"
ASSUMPTIONS = [WNOTE]

def gradients(J, mask, alg):
    chan = [[J.var(f"p{i}_{c}") for c in range(4)] for i in range(16)]
    m = J.var("mask", 32) if mask == "any" else C(mask, 32)
    ns = [f"p{i}_{c}" for i in range(16) for c in range(4)]
    def oracle(env):
        px = bytes(env.get(n, 0) for n in ns); mm = env.get("mask", mask)
        g = lambda f, c: J.nat.encode(f, b"".join(bytes([px[4 * i + c]] * 4) for i in range(16)), mm, 0, 0, UNIFORM)
        r, gg, a = g(4, 0), g(4, 1), g(4, 3)
        five = J.nat.encode(5, px, mm, alg, 0, UNIFORM); three = J.nat.encode(3, px, mm, alg, 0, UNIFORM)
        if five != r + gg: return f"BC5 of {px.hex()} mask {mm:#x} is {five and five.hex()}, BC4 of red and green {r.hex()} {gg.hex()}"
        if three is None or three[:8] != a: return f"BC3 of {px.hex()} mask {mm:#x} is {three and three.hex()}, BC4 of alpha {a.hex()}"
    J.start(oracle)
    W = [FC(1.0)] * 3
    four = lambda c: J.prog.encode(4, [[p[c]] * 4 for p in chan], m, 0, 0, W).out
    r, g, a = four(0), four(1), four(3)
    J.validate(r, lambda e: J.nat.encode(4, bytes(e.get(f"p{i}_0", 0) for i in range(16) for c in range(4)), e.get("mask", mask), 0, 0, UNIFORM), 12)
    R5 = J.prog.encode(5, chan, m, alg, 0, W)
    for i in range(16): J.prove(f"BC5 byte {i}", t.eq(R5.out[i], (r + g)[i]))
    # BC3 with one colour: the alpha half
    R3 = J.prog.encode(3, [chan[0][:3] + [p[3]] for p in chan], m, alg, 0, W)
    for i in range(8): J.prove(f"BC3 byte {i}", t.eq(R3.out[i], a[i]))

def colour(J, cfg):
    cfg.build(J)
    def judge(out, P, m, alg, wba, ws):
        o3 = J.nat.encode(3, bytes(x for p in P for x in p), m, alg, wba, ws)
        if o3 is None or o3[8:] != out[8:]: return f"BC3 stores the colour block {o3 and o3[8:].hex()}"
    J.start(cfg.oracle(J, judge))
    A = cfg.run(J)
    cfg.f = 3; B = cfg.run(J); cfg.f = 2
    for i in range(8, 16): J.prove(f"{cfg.name}: colour byte {i}", t.eq(A.out[i], B.out[i]), cfg.ax)

def decode(J):
    b = [J.var(f"b{i}") for i in range(16)]
    def oracle(env):
        blk = bytes(env[f"b{i}"] for i in range(16)); D = J.nat.decode
        d2, d3, d5, lo, hi = D(2, blk), D(3, blk), D(5, blk), D(4, blk[:8]), D(4, blk[8:])
        for i in range(16):
            k = 4 * i
            if d2[k:k + 3] != d3[k:k + 3]: return f"BC2 and BC3 decode the colour half of {blk.hex()} differently at pixel {i}"
            if d3[k + 3] != lo[k]: return f"BC3 decodes alpha {d3[k+3]} from {blk.hex()}, BC4 decodes {lo[k]} at pixel {i}"
            if d5[k:k + 2] != bytes([lo[k], hi[k]]): return f"BC5 decodes {d5[k:k+2].hex()} from {blk.hex()}, BC4 {lo[k]:02x} {hi[k]:02x} at pixel {i}"
        c0 = blk[8] | blk[9] << 8; c1 = blk[10] | blk[11] << 8
        d1 = D(1, blk[8:])
        if c0 > c1 and any(d1[4 * i:4 * i + 3] != d2[4 * i:4 * i + 3] for i in range(16)): return f"BC1 and BC2 decode the colour block {blk[8:].hex()} differently"
    J.start(oracle)
    D = lambda f, x: J.prog.decode(f, x).out
    d1, d2, d3, d5, lo, hi = D(1, b[8:]), D(2, b), D(3, b), D(5, b), D(4, b[:8]), D(4, b[8:])
    four = t.ult(t.cat([b[11], b[10]]), t.cat([b[9], b[8]]))
    for i in range(16):
        J.prove(f"pixel {i}: BC2 = BC3 colour", same_rgb(d2[i], d3[i]))
        J.prove(f"pixel {i}: BC3 alpha = BC4", t.eq(d3[i][3], lo[i][0]))
        J.prove(f"pixel {i}: BC5 = BC4, BC4", conj([t.eq(d5[i][0], lo[i][0]), t.eq(d5[i][1], hi[i][0])]))
        J.prove(f"pixel {i}: BC1 four colours = BC2", same_rgb(d1[i], d2[i]), [four])

def jobs(tier):
    out = [("gradients, any mask", gradients, dict(mask="any", alg=0), 300), ("gradients, full mask, cluster fit", gradients, dict(mask=0xffff, alg=1), 300), ("decoding", decode, {}, 200)]
    cs = [Cfg(2, 1, "any"), Cfg(2, 1, "any", 1, 1), Cfg(2, 2, "any"), Cfg(2, 16, 0xffff), Cfg(2, 2, "any", 1), Cfg(2, 3, 0xffff, 1, 1), Cfg(2, 2, 0xffff, 2)]
    if tier == "thorough": cs += [Cfg(2, 16, "any"), Cfg(2, 4, 0xffff, 1), Cfg(2, 6, 0xffff, 1), Cfg(2, 3, "any", 1)]
    return out + [(c.name, colour, dict(cfg=c), 500) for c in cs]
