"""C17: pixels of PNG and JPEG input"""
from cli import *
BUILDS = (build_all,)
BOUNDS = ("PNG files of all colour types and bit depths, with and without tRNS, and JPEG files with gray and RGB samples, of all sizes from 1 to 7 (14 in thorough) and some up to 70 pixels; all samples, palettes (of 1, 3 and 16 entries; images of up to 5 by 5 pixels in quick) and "
          "transparent colours; gray 16-bit and CMYK JPEG files; the pixels are compared with those passed to the block routine of a BC3 compression")
OUTSIDE = "other sizes and palette lengths, interlaced and animated PNG files (png crate), JPEG decoding itself (jpeg-decoder crate), palette indices beyond the palette"
from cli import ASSUMPTIONS

KINDS = {"gray1": (0, 1, 0), "gray2": (0, 2, 0), "gray4": (0, 4, 0), "gray8": (0, 8, 0), "gray16": (0, 16, 0), "gray1 tRNS": (0, 1, 1), "gray2 tRNS": (0, 2, 1), "gray4 tRNS": (0, 4, 1), "gray8 tRNS": (0, 8, 1), "gray16 tRNS": (0, 16, 1),
         "gray-alpha8": (4, 8, 0), "gray-alpha16": (4, 16, 0), "rgb8": (2, 8, 0), "rgb16": (2, 16, 0), "rgb8 tRNS": (2, 8, 1), "rgb16 tRNS": (2, 16, 1), "rgba8": (6, 8, 0), "rgba16": (6, 16, 0)}
for n in (1, 3, 16):
    for d in (1, 2, 4, 8):
        if n <= 1 << d: KINDS[f"palette{d} of {n}"] = (3, d, 0, n); KINDS[f"palette{d} of {n} tRNS"] = (3, d, 1, n)
SAMPLES = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}

class Image:
    """a PNG file's parts as terms"""
    def __init__(s, kind, w, h):
        s.kind = KINDS[kind]; s.w, s.h = w, h; ct, d, tr = s.kind[:3]; s.npal = s.kind[3] if ct == 3 else 0
        n = w * h * SAMPLES[ct] * (2 if d == 16 else 1)
        hi = s.npal - 1 if ct == 3 else 255 if d >= 8 else (1 << d) - 1
        s.samples = [V(f"s{hi}_{i}", 8, 0, hi) for i in range(n)]
        s.pal = [V(f"c{i}", 8) for i in range(3 * s.npal)]
        s.trns = None
        if tr: s.trns = [V(f"t{i}", 8) for i in range(s.npal)] if ct == 3 else [V(f"t{i}", 8) if d == 16 or i % 2 else C(0, 8) for i in range(2 if ct == 0 else 6)]
    def terms(s): return s.samples + s.pal + (s.trns or [])
    def concrete(s, env):
        v = t.variables(s.terms())
        e = {n: x.lo + env.get(n, 0) % (x.hi - x.lo + 1) for n, x in v.items()}
        r = t.evaluate(s.terms() + s.rgba(), e); a, b = len(s.samples), len(s.samples) + len(s.pal); c = b + len(s.trns or [])
        return bytes(r[:a]), bytes(r[a:b]), bytes(r[b:c]) if s.trns is not None else None, bytes(r[c:])
    def rgba(s):
        """the pixels the file represents"""
        ct, d, _ = s.kind[:3]; n = SAMPLES[ct]; out = []; F = C(255, 8)
        for i in range(s.w * s.h):
            if d == 16: hi = [s.samples[2 * (n * i + k)] for k in range(n)]; lo = [s.samples[2 * (n * i + k) + 1] for k in range(n)]
            else: hi = s.samples[n * i:n * i + n]; lo = None
            if ct == 3:
                x = hi[0]
                def look(l):
                    r = l[-1]
                    for j in range(len(l) - 2, -1, -1): r = t.ite(t.eq(x, C(j, 8)), l[j], r)
                    return r
                out += [look([s.pal[3 * j + k] for j in range(s.npal)]) for k in range(3)] + [look(s.trns) if s.trns else F]
                continue
            a = F
            if s.trns is not None:
                same = conj([t.eq(s.trns[2 * k], hi[k]) if lo else TRUE for k in range(n)] + [t.eq(s.trns[2 * k + 1], lo[k] if lo else hi[k]) for k in range(n)])
                a = t.ite(same, C(0, 8), F)
            g = t.mul(hi[0], C(255 // ((1 << d) - 1), 8)) if d < 8 else hi[0]
            out += {0: [g, g, g, a], 4: [g, g, g, hi[-1]], 2: hi[:3] + [a], 6: hi}[ct]
        return out

def judge(J, d, r, fs, w, h, rgba):
    if r: return f"{d} fails with exit code {r}"
    if list(fs) != ["in.dds"]: return f"{d} writes the files {sorted(fs)}, not in.dds"
    m = judge_dds(J, fs["in.dds"], 3, w, h, rgba, 0, 0, c05.PERCEPTUAL)
    return m and f"{d}: {m}"

ARGS = cli_args(3, 0, 0, ())

def png_oracle(J, kind):
    def oracle(env):
        w, h = env["w"], env["h"]
        im = Image(kind, w, h); s, pal, tr, rgba = im.concrete(env); ct, dep = im.kind[:2]
        r, fs = program(ARGS, NAMES[0], real_png(w, h, ct, dep, s, tr, pal))
        return judge(J, f"texpresso {' '.join(ARGS)} of a {w}x{h} PNG file ({kind}, samples {s[:64].hex()}, palette {pal.hex()}, tRNS {tr.hex() if tr else None})", r, fs, w, h, rgba)
    return oracle

def png(J, kind, w, hs):
    J.inputs = {}
    for h in hs: J.inputs.update({n: 8 for n in t.variables(Image(kind, w, h).terms())})
    J.fixed = {"w": w, "h": hs[0]}
    oracle = png_oracle(J, kind)
    if UNBUILT: return unbuilt(J, oracle)
    J.start(oracle)
    P = prog(J); cut = cut_with(J, 3, 0, 0, [FC(f32(x)) for x in c05.PERCEPTUAL])
    for h in hs:
        J.fixed["h"] = h
        im = Image(kind, w, h); ct, d = im.kind[:2]; cut.calls = []
        R = run(P, 0, fake_png(w, h, ct, d, im.samples, im.trns, im.pal), 148 + nb(w) * nb(h) * 16 + 64, 3, 0, 0, (), 0, cut.hook(3))
        compressed_ok(J, f"{w}x{h}", R, 3, w, h, im.rgba(), cut)
        if J.left() > 20:
            J.confirm(J.full({q: J.rng.getrandbits(b) for q, b in J.inputs.items()}), "the real program on random inputs"); J.validated += 1

JK = {0: ("gray", 1), 1: ("16-bit gray", 2), 2: ("RGB", 3), 3: ("CMYK", 4)}
def jpeg_oracle(J, jk, kind):
    def oracle(env):
        n = JK[jk][1]
        if jk == 1: return None
        for w, h in ((env["w"], env["h"]), (17, 9), (9, 18)):
            bw, bh = (w + 7) // 8, (h + 7) // 8
            bl = [tuple(env.get(f"p{n * i + k}", (37 * i + 11 * k) & 255) for k in range(n)) for i in range(bw * bh)]
            r, fs = program(ARGS, NAMES[kind], real_jpeg(w, h, n, bl))
            d = f"texpresso {' '.join(ARGS)} d/{NAMES[kind]}, a {w}x{h} {JK[jk][0]} JPEG file of 8x8 blocks with the samples {bl[:8]},"
            if jk == 3 or kind == 5:
                if r == 0: return d + " is not refused"
                continue
            rgba = b""
            for y in range(h):
                for x in range(w):
                    c = bl[x // 8 + y // 8 * bw]
                    rgba += bytes(c if n == 3 else c * 3) + b"\xff"
            m = judge(J, d, r, fs, w, h, rgba)
            if m: return m
    return oracle

def jpeg(J, jk, kind, w, hs):
    n = JK[jk][1]
    J.inputs = {f"p{i}": 8 for i in range(w * max(hs) * n)}; J.fixed = {"w": w, "h": hs[0]}
    oracle = jpeg_oracle(J, jk, kind)
    if UNBUILT: return unbuilt(J, oracle)
    J.start(oracle)
    P = prog(J); cut = cut_with(J, 3, 0, 0, [FC(f32(x)) for x in c05.PERCEPTUAL])
    for h in hs:
        J.fixed["h"] = h
        px = [V(f"p{i}", 8) for i in range(w * h * n)]; cut.calls = []
        R = run(P, kind, fake_jpeg(w, h, jk, px), 148 + nb(w) * nb(h) * 16 + 64, 3, 0, 0, (), 0, cut.hook(3))
        if jk in (1, 3): refused(J, f"{w}x{h} {JK[jk][0]} JPEG", R); continue
        rgba = []
        for i in range(w * h): rgba += (px[3 * i:3 * i + 3] if n == 3 else [px[i]] * 3) + [C(255, 8)]
        compressed_ok(J, f"{w}x{h}", R, 3, w, h, rgba, cut)
    if jk != 1:
        J.confirm(J.full({q: J.rng.getrandbits(b) for q, b in J.inputs.items()}), "the real program on random inputs"); J.validated += 1

def jobs(tier):
    n = 14 if tier == "thorough" else 7
    out = []
    for k in KINDS:
        if KINDS[k][0] == 3 and tier != "thorough":
            few = KINDS[k][3] == 16
            out += [(f"PNG {k} {w} x 1..{3 if few else 5}", png, dict(kind=k, w=w, hs=[1, 3] if few else [1, 2, 3, 5]), 300) for w in ((1, 3) if few else (1, 3, 5))]
            continue
        big = k in ("gray8", "gray-alpha8", "rgb8", "rgba8")
        out += [(f"PNG {k} {w} x 1..{n}", png, dict(kind=k, w=w, hs=list(range(1, n + 1))), 300) for w in (range(1, n + 1) if big else (1, 3, 5, 8) if tier != "thorough" else (1, 2, 3, 4, 5, 7, 8, 9))]
        out += [(f"PNG {k} {w} x {h}", png, dict(kind=k, w=w, hs=[h]), 300) for w, h in (((33, 18), (2, 70), (70, 3)) if big else ((17, 9),) if KINDS[k][0] != 3 else ())]
    for jk, kind in ((0, 1), (2, 2), (0, 7), (2, 1), (1, 1), (3, 2)):
        out += [(f"JPEG {JK[jk][0]} {NAMES[kind]} {w} x 1..{n}", jpeg, dict(jk=jk, kind=kind, w=w, hs=list(range(1, n + 1))), 300) for w in range(1, n + 1)]
        out += [(f"JPEG {JK[jk][0]} {NAMES[kind]} {w} x {h}", jpeg, dict(jk=jk, kind=kind, w=w, hs=[h]), 300) for w, h in ((33, 18), (2, 70), (70, 3))]
    return out if not UNBUILT else out[::20]
