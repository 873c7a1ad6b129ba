"""C16: command line decompression"""
from cli import *
import c04
BUILDS = (build_all,)
BOUNDS = ("DDS files of all sizes from 1 to 8 (16 in thorough) and some up to 70 pixels, all data, the five DXGI formats and three FourCCs, all other header fields arbitrary (flags, pitch, depth, mip map count, reserved words, "
          "bit counts and masks, caps, misc flags, array size; the alpha mode varies with the size); every other DXGI format, FourCC and resource dimension, files without FourCC, with a wrong magic number or header size, with 1 byte of data missing, and with more data than needed; "
          "named and default output; decompression of a block is an uninterpreted function of its bytes in images of more than 100 pixels")
OUTSIDE = "other sizes; the PNG container's encoding (png crate)"
from cli import ASSUMPTIONS

FIXED = {0, 12, 16, 76, 80, 84, 128, 132, 144}   # words with a meaning here (4: header size)
def header(w, h, fourcc, dxgi=None, dim=3, pf=None, get=lambda k: 0):
    """words of the header; fourcc: bytes, an int or None"""
    n = 37 if dxgi is not None else 32
    ws = [get(i) for i in range(n)]
    ws[0] = 0x20534444; ws[1] = 124; ws[3] = h; ws[4] = w; ws[19] = 32
    if fourcc is not None: ws[21] = struct.unpack("<I", fourcc)[0] if isinstance(fourcc, bytes) else fourcc
    if pf is not None: ws[20] = pf
    if dxgi is not None: ws[32] = dxgi; ws[33] = dim
    return ws

def oracle_for(J, f, case, named):
    def oracle(env):
        w, h = env["w"], env["h"]; n = nb(w) * nb(h) * BS[f]
        data = bytes(env.get(f"d{i}", 0) for i in range(n + env["more"]))
        ws = words(case, f, w, h, lambda k: env.get(f"h{k}", 0) & 0xffffffff, env)
        if not admissible(case, ws): return None
        ws = [x & 0xffffffff for x in ws]
        b = struct.pack(f"<{len(ws)}I", *ws) + data
        r, fs = program(["decompress"], NAMES[3], b, "out.bin" if named else None)
        d = f"texpresso decompress of a {w}x{h} {FNAME[f]} file (header {b[:4 * len(ws)].hex()}, data {data[:64].hex()})"
        if case not in ("dx10", "legacy"): return d + f": not refused although {WHY[case]}" if r == 0 else None
        if env["more"] < 0: return d + ": not refused although data are missing" if r == 0 else None
        if r: return f"{d} fails with exit code {r}"
        name = "out.bin" if named else "in.png"
        if list(fs) != [name]: return f"{d} writes the files {sorted(fs)}, not {name}"
        W, H, ct, dep, px = read_png(fs[name])
        if (W, H, ct, dep) != (w, h, 6, 8): return f"{d}: the PNG has {W}x{H} pixels, colour type {ct}, depth {dep}"
        want = c04.expected(J, f, w, h, data)
        if px != want:
            i = next(i for i in range(len(want)) if px[i] != want[i])
            return f"{d}: channel {i % 4} of pixel ({i // 4 % w}, {i // 4 // w}) is {px[i]}, decompression gives {want[i]}"
    return oracle

WHY = {"dxgi": "its DXGI format is not supported", "fourcc": "its FourCC is not supported", "dim": "it is not a 2D texture", "nofourcc": "it is not in a compressed format", "magic": "the magic number is wrong", "size": "the header size is wrong"}

def words(case, f, w, h, get, env=None):
    v = lambda k, x: env.get(k, 0) if env is not None else x
    if case == "dx10": return alpha(header(w, h, b"DX10", DXGI[f], pf=4, get=get))
    if case == "legacy": return header(w, h, FOURCC[f], pf=4, get=get)
    if case == "dxgi": return alpha(header(w, h, b"DX10", v("dxgi", V("dxgi", 32)), pf=4, get=get))
    if case == "fourcc": return header(w, h, v("fourcc", V("fourcc", 32)), pf=4, get=get)
    if case == "dim": return alpha(header(w, h, b"DX10", DXGI[f], v("dim", V("dim", 32)), pf=4, get=get))
    if case == "nofourcc": return header(w, h, FOURCC.get(f, b"DXT1"), pf=v("pf", V("pf", 32)), get=get)
    r = header(w, h, FOURCC.get(f, b"DXT1"), pf=4, get=get)
    if case == "magic": r[0] = v("magic", V("magic", 32))
    if case == "size": r[1] = v("size", V("size", 32))
    return r
def alpha(ws):
    ws[36] = (ws[4] + 3 * ws[3]) % 5         # every alpha mode with some of the sizes
    return ws

def excluded(case):
    """values of the symbolic word which the case leaves out"""
    if case == "dxgi": return "dxgi", list(DXGI.values())
    if case == "fourcc": return "fourcc", [struct.unpack("<I", x)[0] for x in list(FOURCC.values()) + [b"DX10"]]
    if case == "dim": return "dim", [3]
    if case == "magic": return "magic", [0x20534444]
    if case == "size": return "size", [124]
def admissible(case, ws):
    if case == "nofourcc": return not ws[20] & 4
    if not excluded(case): return True
    n, l = excluded(case)
    return ws[{"dxgi": 32, "fourcc": 21, "dim": 33, "magic": 0, "size": 1}[n]] not in l
def axioms(case):
    if case == "nofourcc": return [t.eq(t.band(V("pf", 32), C(4, 32)), C(0, 32))]
    e = excluded(case)
    return [bnot(t.eq(V(e[0], 32), C(x, 32))) for x in e[1]] if e else []

def one(J, f, w, hs, case="dx10", named=1, arbitrary=True):
    J.inputs = {f"d{i}": 8 for i in range(nb(w) * nb(max(hs)) * BS[f] + 40)}; J.inputs.update({f"h{i}": 32 for i in range(37)})
    for n in ("dxgi", "fourcc", "dim", "pf", "magic", "size"): J.inputs[n] = 32
    J.fixed = {"w": w, "h": hs[0], "more": 0}
    oracle = oracle_for(J, f, case, named)
    if UNBUILT: return unbuilt(J, oracle)
    J.start(oracle)
    P = prog(J)
    big = w * max(hs) > 100
    cut = None
    if big:
        cut = DecCut(P, "decompress_block", "dec"); cut.hook(f)
        b = [V(f"probe{i}", 8) for i in range(BS[f])]
        P.decode(f, b, hooks=cut.hook(f))
        if len(cut.calls) != 1 or any(x is not y for x, y in zip(cut.calls[0][0][0], b)): raise NoCut("probe")
        cut.rest = cut.calls[0][0][1:]
    for h in hs:
        n = nb(w) * nb(h) * BS[f]
        for more in (0, 37, -1):
            J.fixed.update(h=h, more=more)
            if cut: cut.calls = []
            ws = words(case, f, w, h, lambda k: V(f"h{k}", 32))
            cells = [t.ext(x if isinstance(x, t.T) else C(x, 32), 8 * i + 7, 8 * i) for x in ws for i in range(4)]
            data = [V(f"d{i}", 8) for i in range(n + more)]
            R = run(P, 3, cells + data, 12 + 4 * w * h + 64, named=named, hooks=cut.hook(f) if cut else None, axioms=axioms(case))
            L = f"{w}x{h}{f' {more:+d} bytes' * (more != 0)}"
            if case not in ("dx10", "legacy"): refused(J, f"{L}: a file, {WHY[case]},", R); continue
            if more < 0: refused(J, f"{L}: a file with missing data", R); continue
            J.no_events(R, L)
            if not R.returned: continue
            J.prove(f"{L}: length of the output", t.eq(R.ret, C(12 + 4 * w * h, 64)))
            J.prove(f"{L}: PNG header", conj([t.eq(a, C(b, 8)) for a, b in zip(R.out, struct.pack("<II", w, h) + bytes([6, 8, 0, 0]))]))
            for y in range(nb(h)):
                for x in range(nb(w)):
                    k = (x + y * nb(w)) * BS[f]; blk = data[k:k + BS[f]]
                    pos = [(12 + 4 * (4 * x + px + w * (4 * y + py)) + c, 4 * (px + 4 * py) + c) for py in range(4) for px in range(4) for c in range(4) if 4 * x + px < w and 4 * y + py < h]
                    if cut is None:
                        flat = [c for p in P.decode(f, blk).out for c in p]
                        J.prove(f"{L}: block ({x}, {y})", conj([t.eq(R.out[a], flat[b]) for a, b in pos]))
                    else:
                        sn = [blk] + cut.rest; want = [V(f"want_{j}", 8) for j in range(64)]
                        vs = set(t.variables([R.out[a] for a, _ in pos])); lem = []; sub = {}
                        for s2, code in cut.calls:
                            if any(c.p in vs for c in code):
                                a = same_args(s2, sn)
                                lem += [bor(bnot(a), t.eq(c, e)) for c, e in zip(code, want)]
                                if a is TRUE: sub.update(zip(code, want))
                        if all(sub.get(R.out[a]) is want[b] for a, b in pos): J.prove(f"{L}: block ({x}, {y})", TRUE)
                        else: J.prove(f"{L}: block ({x}, {y})", conj([t.eq(R.out[a], want[b]) for a, b in pos]), lem)
    J.fixed.update(h=hs[-1], more=0)
    for k in range(2):          # the program itself on concrete inputs
        e = J.full({q: J.rng.getrandbits(b) for q, b in J.inputs.items()})
        J.confirm(e, "the real program on random inputs"); J.validated += 1

def jobs(tier):
    n = 16 if tier == "thorough" else 8
    out = []
    for f in range(1, 6):
        for case in ("dx10", "legacy") if f <= 3 else ("dx10",):
            out += [(f"{FNAME[f]} {case} {w} x 1..{n}", one, dict(f=f, w=w, hs=list(range(1, n + 1)), case=case, named=w % 2), 300) for w in range(1, n + 1)]
            out += [(f"{FNAME[f]} {case} {w} x {h}", one, dict(f=f, w=w, hs=[h], case=case), 300) for w, h in ((33, 18), (3, 70), (70, 2), (41, 41)) + (((130, 131), (520, 5), (3, 700)) if tier == "thorough" else ())]
        out += [(f"{FNAME[f]} {case}", one, dict(f=f, w=5, hs=[3], case=case), 300) for case in ("dxgi", "fourcc", "dim", "nofourcc", "magic", "size")]
    return out if not UNBUILT else out[::20]
