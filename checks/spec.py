"""Independent statement of the block formats: once over concrete integers, once over terms."""
import term as t
from term import C, ite

# ---------------------------------------------------------------- concrete
def exp5(v): return (v << 3) | (v >> 2)
def exp6(v): return (v << 2) | (v >> 4)
def rgb565(v): return (exp5(v >> 11 & 31), exp6(v >> 5 & 63), exp5(v & 31))

def colour_palette(b, bc1):
    c0 = b[0] | b[1] << 8; c1 = b[2] | b[3] << 8
    A, B = rgb565(c0), rgb565(c1)
    p = [A + (255,), B + (255,)]
    if bc1 and c0 <= c1:
        p.append(tuple((x + y) // 2 for x, y in zip(A, B)) + (255,)); p.append((0, 0, 0, 0))
    else:
        p.append(tuple((2 * x + y) // 3 for x, y in zip(A, B)) + (255,)); p.append(tuple((x + 2 * y) // 3 for x, y in zip(A, B)) + (255,))
    return p

def colour_block(b, bc1):
    p = colour_palette(b, bc1)
    ix = int.from_bytes(bytes(b[4:8]), "little")
    return [list(p[ix >> 2 * i & 3]) for i in range(16)]

def gradient_palette(b):
    a0, a1 = b[0], b[1]
    if a0 > a1: return [a0, a1] + [((7 - k) * a0 + k * a1) // 7 for k in range(1, 7)]
    return [a0, a1] + [((5 - k) * a0 + k * a1) // 5 for k in range(1, 5)] + [0, 255]

def gradient_indices(b):
    ix = int.from_bytes(bytes(b[2:8]), "little")
    return [ix >> 3 * i & 7 for i in range(16)]

def gradient_block(b):
    p = gradient_palette(b)
    return [p[i] for i in gradient_indices(b)]

def decode(f, b):
    b = list(b)
    if f == 1: px = colour_block(b, True)
    elif f in (2, 3): px = colour_block(b[8:16], False)
    else: px = [[0, 0, 0, 255] for _ in range(16)]
    if f == 2:
        for i in range(16): px[i][3] = 17 * (b[i // 2] >> 4 * (i & 1) & 15)
    elif f == 3:
        for i, v in enumerate(gradient_block(b[:8])): px[i][3] = v
    elif f == 4:
        for i, v in enumerate(gradient_block(b[:8])): px[i][:3] = [v] * 3
    elif f == 5:
        for i, v in enumerate(gradient_block(b[:8])): px[i][0] = v
        for i, v in enumerate(gradient_block(b[8:])): px[i][1] = v
    return [v for p in px for v in p]

# ---------------------------------------------------------------- symbolic
def t_rgb565(lo, hi):
    v = t.cat([hi, lo])
    r, g, b = t.ext(v, 15, 11), t.ext(v, 10, 5), t.ext(v, 4, 0)
    return v, [t.cat([r, t.ext(r, 4, 2)]), t.cat([g, t.ext(g, 5, 4)]), t.cat([b, t.ext(b, 4, 2)])]

def mix(x, y, m, n, d):
    """(m*x + n*y) / d on 8-bit terms, truncating"""
    W = 12
    s = t.add(t.mul(t.zext(x, W), C(m, W)), t.mul(t.zext(y, W), C(n, W)))
    return t.trunc(t.div("udiv", s, C(d, W)), 8)

def sel(ix, opts):
    """opts[ix]"""
    n = ix.w
    def go(k, base):
        if k < 0: return opts[base]
        return ite(t.ext(ix, k, k), go(k - 1, base | 1 << k), go(k - 1, base))
    return go(n - 1, 0)

def t_colour_block(b, bc1):
    c0, A = t_rgb565(b[0], b[1]); c1, B = t_rgb565(b[2], b[3])
    z = C(0, 8); o = C(255, 8)
    p = [A + [o], B + [o]]
    e2 = [mix(x, y, 2, 1, 3) for x, y in zip(A, B)] + [o]; e3 = [mix(x, y, 1, 2, 3) for x, y in zip(A, B)] + [o]
    if bc1:
        m3 = t.ule(c0, c1)
        h2 = [mix(x, y, 1, 1, 2) for x, y in zip(A, B)] + [o]
        e2 = [ite(m3, u, v) for u, v in zip(h2, e2)]; e3 = [ite(m3, u, v) for u, v in zip([z, z, z, z], e3)]
    p += [e2, e3]
    out = []
    for i in range(16):
        ix = t.ext(b[4 + i // 4], 2 * (i % 4) + 1, 2 * (i % 4))
        out.append([sel(ix, [p[k][c] for k in range(4)]) for c in range(4)])
    return out

def t_gradient_indices(b):
    ix = t.cat([b[7], b[6], b[5], b[4], b[3], b[2]])
    return [t.ext(ix, 3 * i + 2, 3 * i) for i in range(16)]

def t_gradient_palette(b):
    a0, a1 = b[0], b[1]
    m8 = t.ult(a1, a0)
    p8 = [mix(a0, a1, 7 - k, k, 7) for k in range(1, 7)]
    p6 = [mix(a0, a1, 5 - k, k, 5) for k in range(1, 5)] + [C(0, 8), C(255, 8)]
    return [a0, a1] + [ite(m8, u, v) for u, v in zip(p8, p6)]

def t_gradient_block(b):
    p = t_gradient_palette(b)
    return [sel(i, p) for i in t_gradient_indices(b)]

def t_decode(f, b):
    if f == 1: px = t_colour_block(b, True)
    elif f in (2, 3): px = t_colour_block(b[8:16], False)
    else: px = [[C(0, 8), C(0, 8), C(0, 8), C(255, 8)] for _ in range(16)]
    if f == 2:
        for i in range(16):
            n = t.ext(b[i // 2], 4 * (i & 1) + 3, 4 * (i & 1)); px[i][3] = t.cat([n, n])
    elif f == 3:
        for i, v in enumerate(t_gradient_block(b[:8])): px[i][3] = v
    elif f == 4:
        for i, v in enumerate(t_gradient_block(b[:8])): px[i] = [v, v, v, px[i][3]]
    elif f == 5:
        for i, v in enumerate(t_gradient_block(b[:8])): px[i][0] = v
        for i, v in enumerate(t_gradient_block(b[8:])): px[i][1] = v
    return px
