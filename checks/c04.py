"""C04: whole-image decompression"""
import random
import term as t
from term import C, V, TRUE, FALSE
from harness import BS, FNAME, conj
from image import *
BOUNDS = ("all widths and heights from 1 to 9 (20 in thorough) and selected larger ones up to 16390 pixels in one direction or 130 in both (66000 and 365 in thorough), all data; buffers exact, longer by "
          "1 byte and by more than a row of blocks, and too short by 1 byte and by a row of blocks; larger images use the decoded block as an uninterpreted function of the block's bytes")
OUTSIDE = "other sizes"

def sizes_big(tier):
    q = [(14, 3), (21, 18), (3, 33), (200, 2), (5, 203), (70, 70), (2000, 3), (3, 2001), (130, 130), (16390, 1), (1, 16389)]
    return q + ([(66000, 2), (2, 66001), (365, 366)] if tier == "thorough" else [])

def expected(J, f, w, h, data):
    out = bytearray(w * h * 4)
    for y in range(nb(h)):
        for x in range(nb(w)):
            k = (x + y * nb(w)) * BS[f]
            b = J.nat.decode(f, data[k:k + BS[f]])
            for py in range(4):
                for px in range(4):
                    X, Y = 4 * x + px, 4 * y + py
                    if X < w and Y < h: out[4 * (X + w * Y):4 * (X + w * Y) + 4] = b[4 * (px + 4 * py):4 * (px + 4 * py) + 4]
    return bytes(out)

def oracle_for(J, f, direct):
    def oracle(env):
        w, h = env["w"], env["h"]
        n = nb(w) * nb(h) * BS[f]; N = w * h * 4
        if direct: data = bytes(env.get(f"d{i}", 0) for i in range(n))
        else:
            r = random.Random(env["seed"]); data = random_bytes(r, n, env["seed"] % 4)
        want = expected(J, f, w, h, data)
        d = f"{FNAME[f]}.decompress of {w}x{h}"
        row = 16 * w
        for extra in (0, 1, row + 5):
            for fill in (0x5a, 0xa7):
                for more in (0, 3, nb(w) * BS[f] + 2):
                    o = J.nat.decompress(f, data + bytes(range(1, 1 + more % 200)) + bytes(more - more % 200 if more > 199 else 0), w, h, bytes([fill]) * (N + extra))
                    if o is None: return f"{d} panics (output {extra} bytes, input {more} bytes longer than needed), data {data[:64].hex()}"
                    if o[:N] != want:
                        i = next(i for i in range(N) if o[i] != want[i])
                        return f"{d}: channel {i % 4} of pixel ({i // 4 % w}, {i // 4 // w}) is {o[i]}, the decoded block holds {want[i]} there (output {extra} bytes, input {more} bytes longer than needed), data {data[:64].hex()}"
                    if o[N:] != bytes([fill]) * extra: return f"{d} changes bytes beyond the image in an output buffer {extra} bytes longer than needed"
        for short in {1, min(N, row), (N - 1) % row + 1}:
            if J.nat.decompress(f, data, w, h, bytes(N - short)) is not None: return f"{d} returns with an output buffer {short} bytes too short"
        for short in (1, BS[f]):
            if J.nat.decompress(f, data[:n - short], w, h, bytes(N)) is not None: return f"{d} returns with {short} bytes of data missing"
    return oracle

def one(J, f, w, h, cut):
    J.fixed = {"w": w, "h": h}
    n = nb(w) * nb(h) * BS[f]; N = w * h * 4; row = 16 * w
    for extra, more in ((0, 0), (row + 5, 0), (1, nb(w) * BS[f] + 2)) if N < 5000 else ((7, 0),):
        data = [V(f"d{i}", 8) for i in range(n)] + [V(f"more{i}", 8) for i in range(more)]
        fill = [V(f"o{i}", 8) for i in range(N + extra)]
        if cut is not None: cut.calls = []
        R = J.prog.decompress(f, data, w, h, fill, hooks=cut.hook(f) if cut else None)
        L = f"{w}x{h}{f' +{extra}' * (extra > 0)}{f' data +{more}' * (more > 0)}"
        J.no_events(R, L)
        if not R.returned: continue
        for y in range(nb(h)):
            for x in range(nb(w)):
                k = (x + y * nb(w)) * BS[f]; blk = data[k:k + BS[f]]
                pos = [(4 * (4 * x + px + w * (4 * y + py)) + c, 4 * (px + 4 * py) + c) for py in range(4) for px in range(4) for c in range(4) if 4 * x + px < w and 4 * y + py < h]
                if cut is None:
                    D = J.prog.decode(f, blk)
                    flat = [c for p in D.out for c in p]
                    J.prove(f"{L}: block ({x}, {y})", conj([t.eq(R.out[a], flat[b]) for a, b in pos]))
                else:
                    sn = [blk] + cut.rest
                    want = [V(f"want_{j}", 8) for j in range(64)]
                    vs = set()
                    for a, b in pos: vs |= set(t.variables([R.out[a]]))
                    lem = []
                    for kk, (s2, code) in enumerate(cut.calls):
                        if code[0].p.rsplit("_", 1)[0] in {v.rsplit("_", 1)[0] for v in vs}:
                            a = same_args(s2, sn)
                            lem += [bor(bnot(a), t.eq(c, e)) for c, e in zip(code, want)]
                            if a is TRUE: s3 = dict((c, e) for c, e in zip(code, want))
                            else: s3 = {}
                    if all(s3.get(R.out[a]) is want[b] for a, b in pos): J.prove(f"{L}: block ({x}, {y})", TRUE)
                    else: J.prove(f"{L}: block ({x}, {y})", conj([t.eq(R.out[a], want[b]) for a, b in pos]), lem)
        J.prove(f"{L}: bytes beyond the image", conj([t.eq(R.out[i], fill[i]) for i in range(N, N + extra)]))
        if cut is None and extra == 0: J.validate(R.out[:64], lambda e: list(J.nat.decompress(f, bytes(e.get(f"d{i}", 0) for i in range(n)), w, h, bytes(N))[:64]), 2)
    if N < 5000:
        def refuses(what, nd, no):
            R = J.prog.decompress(f, [V(f"d{i}", 8) for i in range(nd)], w, h, [V(f"o{i}", 8) for i in range(no)], hooks=cut.hook(f) if cut else None)
            J.prove(f"{w}x{h}: {what} is refused", FALSE if R.returned else TRUE)
        for short in sorted({1, min(N, row), (N - 1) % row + 1}): refuses(f"output {short} bytes too short", n, N - short)
        for short in (1, BS[f]): refuses(f"data {short} bytes too short", n - short, N)

def small(J, f, w, hs):
    J.inputs = {f"d{i}": 8 for i in range(nb(w) * nb(max(hs)) * BS[f])}
    J.start(oracle_for(J, f, True))
    for h in hs: one(J, f, w, h, None)

def big(J, f, w, h):
    J.inputs = {"seed": 32}
    J.start(oracle_for(J, f, False))
    J.fixed = {"w": w, "h": h}
    cut = None
    try:
        cut = DecCut(J.prog, "decompress_block", "dec"); cut.hook(f)
        b = [V(f"probe{i}", 8) for i in range(BS[f])]
        J.prog.decode(f, b, hooks=cut.hook(f))
        if len(cut.calls) != 1 or any(x is not y for x, y in zip(cut.calls[0][0][0], b)): raise NoCut("probe")
        cut.rest = cut.calls[0][0][1:]
    except NoCut as e: J.notes.append(f"no cut: {e}"); cut = None
    one(J, f, w, h, cut)

def jobs(tier):
    n = 20 if tier == "thorough" else 9
    out = [(f"{FNAME[f]} {w} x 1..{n}", small, dict(f=f, w=w, hs=list(range(1, n + 1))), 300) for f in range(1, 6) for w in range(1, n + 1)]
    out += [(f"{FNAME[f]} {w} x {h}", big, dict(f=f, w=w, h=h), 400 if tier == "quick" else 800) for w, h in sizes_big(tier) for f in (1, 2, 3, 4, 5)]
    return out
