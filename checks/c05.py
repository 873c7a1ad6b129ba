"""C05: whole-image compression"""
import random
import term as t
from term import C, V, FV, TRUE, FALSE
from harness import BS, FNAME, ALG, conj
from image import *
BOUNDS = ("all widths and heights from 1 to 9 (20 in thorough) and selected larger ones up to 16390 pixels in one direction or 130 in both (66000 and 365 in thorough), all pixels, algorithms "
          "and weights; the block routine is an uninterpreted function of its enabled pixels, mask, format and parameters; buffers exact, longer by 1 byte and by more than a row of blocks, too short by 1 byte, a block and a row of blocks")
OUTSIDE = "other sizes"
ASSUMPTIONS = ["block compression is a function of format, enabled pixels, mask and parameters (C11)"]
from c04 import sizes_big

def tile(px, w, h, x, y):
    """64 bytes (0 outside) and mask"""
    b = [None] * 64; m = 0
    for py in range(4):
        for qx in range(4):
            X, Y = 4 * x + qx, 4 * y + py
            if X < w and Y < h:
                m |= 1 << (4 * py + qx)
                for c in range(4): b[4 * (4 * py + qx) + c] = px[4 * (X + w * Y) + c]
    return b, m

def oracle_for(J, f, direct):
    def oracle(env):
        w, h = env["w"], env["h"]; N = nb(w) * nb(h) * BS[f]; n = w * h * 4
        if direct: px = bytes(env.get(f"p{i}", 0) for i in range(n)); alg = env["alg"] % 3; wba = env["wba"] & 1; ws = PERCEPTUAL if env.get("ws", 0) & 1 else UNIFORM
        else:
            s = env["seed"]; r = random.Random(s); px = random_bytes(r, n, s % 4); alg = r.randrange(2) if n > 3000 else r.randrange(3); wba = r.randrange(2); ws = r.choice((UNIFORM, PERCEPTUAL))
        d = f"{FNAME[f]}.compress of {w}x{h} ({ALG[alg]}, alpha-weighted={bool(wba)}, weights={ws})"
        want = b""
        for y in range(nb(h)):
            for x in range(nb(w)):
                b, m = tile(px, w, h, x, y)
                want += J.nat.encode(f, bytes(0 if v is None else v for v in b), m, alg, wba, ws)
        row = nb(w) * BS[f]
        for extra in (0, 1, row + 3):
            for fill in (0x5a, 0xa7):
                o = J.nat.compress(f, px, w, h, alg, wba, ws, bytes([fill]) * (N + extra))
                if o is None: return f"{d} panics (output {extra} bytes longer than needed), pixels {px[:256].hex()}"
                if o[:N] != want:
                    i = next(i for i in range(N) if o[i] != want[i]) // BS[f]
                    return f"{d}: block ({i % nb(w)}, {i // nb(w)}) is {o[BS[f]*i:BS[f]*(i+1)].hex()}, block compression gives {want[BS[f]*i:BS[f]*(i+1)].hex()} (output {extra} bytes longer than needed), pixels {px[:256].hex()}"
                if o[N:] != bytes([fill]) * extra: return f"{d} changes bytes beyond the compressed size in an output buffer {extra} bytes longer than needed"
            if n > 3000: break
        for short in {1, BS[f], row}:
            if J.nat.compress(f, px, w, h, alg, wba, ws, bytes(N - short)) is not None: return f"{d} returns with an output buffer {short} bytes too short"
    return oracle

def params(): return V("alg", 32, 0, 2), V("wba", 32, 0, 1), [FV(f"$w{i}", 0.0, 1024.0) for i in range(3)]

def one(J, f, w, h, cut):
    J.fixed = {"w": w, "h": h}
    n = w * h * 4; N = nb(w) * nb(h) * BS[f]; row = nb(w) * BS[f]
    alg, wba, ws = params()
    px = [V(f"p{i}", 8) for i in range(n)]
    for extra in (0, 1, row + 3) if n < 5000 else (3,):
        fill = [V(f"o{i}", 8) for i in range(N + extra)]
        if cut is not None: cut.calls = []
        R = J.prog.compress(f, px, w, h, alg, wba, ws, fill, hooks=cut.hook(f) if cut else None)
        L = f"{w}x{h}{f' +{extra}' * (extra > 0)}"
        J.no_events(R, L)
        if not R.returned: continue
        for y in range(nb(h)):
            for x in range(nb(w)):
                b, m = tile(px, w, h, x, y)
                k = (x + y * nb(w)) * BS[f]; o = R.out[k:k + BS[f]]
                exp = cut.expect(b, m)
                want = [V(f"want_{j}", 8) for j in range(BS[f])]
                compare(J, f"{L}: block ({x}, {y})", o, want, cut.calls, lambda q: same_args(cut.calls[q][0], exp, m))
        J.prove(f"{L}: bytes beyond the compressed size", conj([t.eq(R.out[i], fill[i]) for i in range(N, N + extra)]))
    if n < 5000:
        for short in sorted({1, BS[f], row}):
            if short > N: continue
            R = J.prog.compress(f, px, w, h, alg, wba, ws, [V(f"o{i}", 8) for i in range(N - short)], hooks=cut.hook(f))
            J.prove(f"{w}x{h}: output {short} bytes too short is refused", FALSE if R.returned else TRUE)

def cut_for(J, f):
    """the block routine and the arguments the public block function passes to it"""
    cut = EncCut(J.prog, "compress_block_masked", "code")
    alg, wba, ws = params()
    probe = [[V(f"probe{i}_{c}", 8) for c in range(4)] for i in range(16)]
    args = cut.probe_run(J, f, probe, V("probemask", 32), alg, wba, ws)
    flat = [c for p in probe for c in p]
    ipx = [i for i, a in enumerate(args) if isinstance(a, list) and len(a) == 64 and all(x is y for x, y in zip(a, flat))]
    im = [i for i, a in enumerate(args) if a is V("probemask", 32)]
    if len(ipx) != 1 or len(im) != 1: raise NoCut("pixels or mask not found among the arguments")
    def expect(b, m):
        r = list(args); r[ipx[0]] = b; r[im[0]] = C(m, 32)
        return r
    cut.expect = expect
    return cut

def one_direct(J, f, w, h):
    """without a recognisable block routine: everything is executed (range fit)"""
    J.fixed = {"w": w, "h": h}
    n = w * h * 4; N = nb(w) * nb(h) * BS[f]; W = [t.FC(1.0)] * 3
    px = [V(f"p{i}", 8) for i in range(n)]
    R = J.prog.compress(f, px, w, h, 0, 0, W, [V(f"o{i}", 8) for i in range(N + 3)])
    J.no_events(R, f"{w}x{h}")
    if not R.returned: return
    for y in range(nb(h)):
        for x in range(nb(w)):
            b, m = tile(px, w, h, x, y); k = (x + y * nb(w)) * BS[f]
            b = [C(0, 8) if v is None else v for v in b]
            E = J.prog.encode(f, [b[4 * i:4 * i + 4] for i in range(16)], C(m, 32), 0, 0, W)
            J.prove(f"{w}x{h}: block ({x}, {y})", conj([t.eq(u, v) for u, v in zip(R.out[k:k + BS[f]], E.out)]))
    J.prove(f"{w}x{h}: bytes beyond the compressed size", conj([t.eq(R.out[i], V(f"o{i}", 8)) for i in range(N, N + 3)]))
    for short in sorted({1, BS[f], nb(w) * BS[f]}):
        if short > N: continue
        R = J.prog.compress(f, px, w, h, 0, 0, W, [V(f"o{i}", 8) for i in range(N - short)])
        J.prove(f"{w}x{h}: output {short} bytes too short is refused", FALSE if R.returned else TRUE)

def small(J, f, w, hs):
    J.inputs = {f"p{i}": 8 for i in range(w * max(hs) * 4)}; J.inputs.update(alg=32, wba=32, ws=8)
    J.start(oracle_for(J, f, True))
    try: cut = cut_for(J, f)
    except NoCut as e:
        J.notes.append(f"no cut: {e}")
        for h in hs:
            if f in (4, 5) and h in (1, 2, 4, 5, 7) or f == 2 and w in (1, 2) and h in (1, 5) or f == 2 and (w, h) == (5, 1): one_direct(J, f, w, h)
        return
    for h in hs: one(J, f, w, h, cut)

def big(J, f, w, h):
    J.inputs = {"seed": 32}
    J.start(oracle_for(J, f, False))
    J.fixed = {"w": w, "h": h}
    try: cut = cut_for(J, f)
    except NoCut as e: J.notes.append(f"no cut: {e}"); return
    one(J, f, w, h, cut)

def jobs(tier):
    n = 20 if tier == "thorough" else 9
    out = [(f"{FNAME[f]} {w} x 1..{n}", small, dict(f=f, w=w, hs=list(range(1, n + 1))), 300) for f in range(1, 6) for w in range(1, n + 1)]
    out += [(f"{FNAME[f]} {w} x {h}", big, dict(f=f, w=w, h=h), 400 if tier == "quick" else 800) for w, h in sizes_big(tier) for f in (1, 2, 3, 4, 5)]
    return out
