"""The command line program (C15-C17): its code runs over a stand-in for std::fs and stub crates for png, jpeg-decoder and
clap (climod/, stubs/); files, options and pixels are variables.  The native oracle runs the real program on real files."""
import os, struct, subprocess, tempfile, shutil, zlib, random, atexit
import term as t
import build, harness, smt
from term import C, V, FC, FV, TRUE, FALSE, bnot, bor, band
from harness import BS, FNAME, ALG, conj
from image import *
from symex import Unsupported
import c05

UNBUILT = None
def build_all():
    global UNBUILT
    build.native(); build.cli_bin()
    try: build.cli_ir()
    except build.BuildError as e: UNBUILT = str(e)
ASSUMPTIONS = ["the stub crates for png, jpeg-decoder and clap and the stand-in for std::fs behave like the real ones (every counterexample and the validation runs use the real program)",
               "the command line's parallel build of the library behaves like the sequential one (C14)", "block compression and decompression are functions of their arguments (C11, C01-C03)"]
DXGI = {1: 72, 2: 75, 3: 78, 4: 80, 5: 83}
FOURCC = {1: b"DXT1", 2: b"DXT3", 3: b"DXT5"}
PROFILE = ("speed", "balanced", "quality")
NAMES = {0: "in.png", 1: "in.jpg", 2: "in.jpeg", 3: "in.dds", 4: "in.PNG", 5: "in.bmp", 6: "in", 7: "in.Jpg"}

def prog(J):
    if J._prog is None:
        J._prog = harness.Prog(os.path.join(build.BUILD, "cshim", "release", "deps", "cshim.ll"), J.deadline); J._prog.statics = "init"
    return J._prog

def heap():
    def need(st, x):
        """the only value x can have here; None if this point cannot be reached"""
        if x.op == "c": return x.p
        sv = smt.Solver(); r = sv.check(list(st.pc), 20000)
        if r == "unsat": return None
        if r == "sat":
            v, = t.evaluate([x], dict({n: 0 for n in t.variables([x])}, **{k: u for k, u in sv.env().items()}))
            if sv.check(list(st.pc) + [bnot(t.eq(x, C(v, x.w)))], 20000) == "unsat": return v
        raise Unsupported("allocation of symbolic size")
    def alloc(ex, st, a):
        n = need(st, a[0]); z = (C(0, 8), 0)
        if n is None: return None
        return C(ex.alloc(st, n, "heap", [z] * n if a[1].op == "c" and a[1].p else None), 64), st
    def dealloc(ex, st, a): return TRUE, st
    def realloc(ex, st, a):
        old, n = need(st, a[1]), need(st, a[2])
        if old is None or n is None: return None
        p = ex.alloc(st, n, "heap")
        ex.memcpy(st, C(p, 64), a[0], min(old, n))
        return C(p, 64), st
    return {"@verif_alloc": alloc, "@verif_dealloc": dealloc, "@verif_realloc": realloc}

def run(P, kind, data, cap, f=1, profile=0, wba=0, ws=(), named=0, hooks=None, axioms=()):
    e, st = P.ex(axioms)
    e.hooks.update(heap())
    if hooks: e.hooks.update(hooks)
    e.check_exits = False
    pd = e.new_buffer(st, data, "data"); po = e.new_buffer(st, [C(0xcd, 8)] * cap, "out")
    pw = e.alloc(st, max(4, 4 * len(ws)), "weights")
    for i, w in enumerate(ws): e.store(st, C(pw + 4 * i, 64), w, 4)
    v = lambda x: x if isinstance(x, t.T) else C(x, 32)
    r = P._call(e, st, "@v_cli", [C(kind, 32), C(pd, 64), C(len(data), 64), C(po, 64), C(cap, 64), v(f), v(profile), v(wba), C(pw, 64), C(len(ws), 64), C(named, 32)])
    if r is None:
        R = harness.Run(None, e); R.returned = False; return R
    R = harness.Run([e.load(r[1], C(po + i, 64), 1, False, 8) for i in range(cap)], e, r[0]); R.pc = list(r[1].pc)
    return R

def refused(J, label, R):
    """no run of the program returns"""
    return J.prove(f"{label} is refused", bnot(conj(R.pc)) if R.returned else TRUE)

def k8(b): return [C(x, 8) for x in b]

# ---------------------------------------------------------------- files for the symbolic run (the stub crates' containers)
def fake_png(w, h, ctype, depth, samples, trns=None, pal=()):
    """samples, trns, pal: byte terms"""
    return k8(struct.pack("<II", w, h)) + k8([ctype, depth, 1 if trns is not None else 0, len(pal) // 3]) + list(pal) + list(trns or ()) + list(samples)
def fake_jpeg(w, h, kind, samples): return k8(struct.pack("<HH", w, h)) + k8([kind]) + list(samples)

# ---------------------------------------------------------------- real files
def real_png(w, h, ctype, depth, samples, trns=None, pal=b""):
    n = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ctype]
    rows = b""
    for y in range(h):
        row = samples[y * w * n * (2 if depth == 16 else 1):(y + 1) * w * n * (2 if depth == 16 else 1)]
        if depth < 8:
            v = 0; k = 0; o = bytearray()
            for s in row:
                v = v << depth | s; k += depth
                if k == 8: o.append(v); v = k = 0
            if k: o.append(v << (8 - k))
            row = bytes(o)
        rows += b"\0" + bytes(row)
    ch = lambda n, d: struct.pack(">I", len(d)) + n + d + struct.pack(">I", zlib.crc32(n + d))
    return (b"\x89PNG\r\n\x1a\n" + ch(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ctype, 0, 0, 0)) + (ch(b"PLTE", bytes(pal)) if pal else b"")
            + (ch(b"tRNS", bytes(trns)) if trns is not None else b"") + ch(b"IDAT", zlib.compress(rows, 1)) + ch(b"IEND", b""))

def read_png(b):
    """(w, h, colour type, depth, samples) of a PNG without interlacing"""
    assert b[:8] == b"\x89PNG\r\n\x1a\n"
    i = 8; idat = b""
    while i < len(b):
        n, = struct.unpack(">I", b[i:i + 4]); k = b[i + 4:i + 8]; d = b[i + 8:i + 8 + n]; i += 12 + n
        if k == b"IHDR": w, h, depth, ctype, _, _, _ = struct.unpack(">IIBBBBB", d)
        if k == b"IDAT": idat += d
    raw = zlib.decompress(idat); bpp = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ctype] * depth // 8; n = w * bpp
    out = bytearray(); prev = bytes(n)
    for y in range(h):
        ft = raw[y * (n + 1)]; row = bytearray(raw[y * (n + 1) + 1:(y + 1) * (n + 1)])
        for x in range(n):
            a = row[x - bpp] if x >= bpp else 0; u = prev[x]; c = prev[x - bpp] if x >= bpp else 0
            if ft == 1: p = a
            elif ft == 2: p = u
            elif ft == 3: p = (a + u) // 2
            elif ft == 4:
                q = a + u - c; pa, pb, pc = abs(q - a), abs(q - u), abs(q - c)
                p = a if pa <= pb and pa <= pc else u if pb <= pc else c
            else: p = 0
            row[x] = row[x] + p & 255
        out += row; prev = row
    return w, h, ctype, depth, bytes(out)

def real_jpeg(w, h, ncomp, blocks):
    """baseline JPEG of 8x8 blocks of one colour each, exact; blocks: list of ncomp-tuples in row order"""
    seg = lambda m, d: b"\xff" + bytes([m]) + struct.pack(">H", len(d) + 2) + d
    o = b"\xff\xd8"; ids = b"RGB" if ncomp == 3 else bytes(range(1, ncomp + 1))
    if ncomp != 1: o += seg(0xee, b"Adobe" + struct.pack(">HHHB", 100, 0, 0, 0))
    o += seg(0xdb, b"\0" + bytes([8]) + bytes([1] * 63))
    o += seg(0xc0, struct.pack(">BHHB", 8, h, w, ncomp) + b"".join(bytes([i, 0x11, 0]) for i in ids))
    o += seg(0xc4, b"\0" + bytes([0, 0, 0, 12] + [0] * 12) + bytes(range(12)))
    o += seg(0xc4, b"\x10" + bytes([1] + [0] * 15) + b"\0")
    o += seg(0xda, bytes([ncomp]) + b"".join(bytes([i, 0]) for i in ids) + b"\0\x3f\0")
    bits = ""; prev = [0] * ncomp
    for b in blocks:
        for c in range(ncomp):
            d = b[c] - 128 - prev[c]; prev[c] = b[c] - 128
            n = abs(d).bit_length()
            bits += format(n, "04b")
            if n: bits += format(d if d > 0 else d + (1 << n) - 1, f"0{n}b")
            bits += "0"
    bits += "1" * (-len(bits) % 8)
    body = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
    return o + body.replace(b"\xff", b"\xff\0") + b"\xff\xd9"

_dir = None
def program(args, name, data, out=None):
    """run the real program in a scratch directory on d/<name>; returns (exit code, {file: contents})"""
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix="texcli"); atexit.register(shutil.rmtree, _dir, True)
    d = os.path.join(_dir, "run")
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(os.path.join(d, "d"))
    with open(os.path.join(d, "d", name), "wb") as fh: fh.write(data)
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME")}; env["RAYON_NUM_THREADS"] = "2"
    try: r = subprocess.run([build.cli_path()] + args + (["-o", out] if out else []) + ["d/" + name], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    except subprocess.TimeoutExpired: shutil.rmtree(d); return -1, {}
    files = {}
    for b, _, ns in os.walk(d):
        for n in ns:
            p = os.path.relpath(os.path.join(b, n), d)
            if p != "d/" + name:
                with open(os.path.join(b, n), "rb") as fh: files[p] = fh.read()
    shutil.rmtree(d)
    return r.returncode, files

def f32(x): return struct.unpack("<f", struct.pack("<f", x))[0]
WEIGHTS = [(0.5, 0.25, 0.25), (1.0, 0.1, 2.0), (0.2126, 0.7152, 0.0722), (0.0, 0.0, 1.0)]
def cli_args(f, profile, wba, ws):
    return ["compress", "-f", f"bc{f}", "-p", PROFILE[profile]] + (["--weigh-colour-by-alpha"] if wba else []) + [a for w in ws for a in ("-w", repr(f32(w)))]

def judge_dds(J, o, f, w, h, rgba, profile, wba, ws):
    """what is wrong with a written container, or None"""
    N = nb(w) * nb(h) * BS[f]
    if len(o) != 148 + N: return f"the output has {len(o)} bytes, not {148 + N}"
    for what, at, n, v in header_fields(f, w, h):
        if o[at:at + n] != v: return f"{what} is {o[at:at + n].hex()}, expected {v.hex()}"
    for y in range(nb(h)):
        for x in range(nb(w)):
            b, m = c05.tile(rgba, w, h, x, y)
            want = J.nat.encode(f, bytes(0 if v is None else v for v in b), m, profile, wba, ws)
            k = 148 + (x + y * nb(w)) * BS[f]
            if o[k:k + BS[f]] != want: return f"block ({x}, {y}) is {o[k:k + BS[f]].hex()}, the library's compression of the pixels with {ALG[profile]}, weights {tuple(ws)}, alpha-weighted={bool(wba)} is {want.hex() if want else None}"

def header_fields(f, w, h):
    d = lambda v: struct.pack("<I", v)
    return [("the magic number", 0, 4, b"DDS "), ("the header size", 4, 4, d(124)), ("the height", 12, 4, d(h)), ("the width", 16, 4, d(w)), ("the pixel format's size", 76, 4, d(32)), ("the FourCC", 84, 4, b"DX10"),
            ("the DXGI format", 128, 4, d(DXGI[f])), ("the resource dimension", 132, 4, d(3)), ("the array size", 140, 4, d(1))]

def compressed_ok(J, L, R, f, w, h, px, cut, par=None):
    """obligations on the output file of a compression of the RGBA terms px; par: the parameters, if there is no cut"""
    J.no_events(R, L)
    if not R.returned: return
    N = nb(w) * nb(h) * BS[f]
    J.prove(f"{L}: length of the output", t.eq(R.ret, C(148 + N, 64)))
    for what, at, n, v in header_fields(f, w, h):
        J.prove(f"{L}: {what}", conj([t.eq(R.out[at + i], C(v[i], 8)) for i in range(n)]))
    for y in range(nb(h)):
        for x in range(nb(w)):
            b, m = c05.tile(px, w, h, x, y)
            k = 148 + (x + y * nb(w)) * BS[f]; o = R.out[k:k + BS[f]]
            if cut is None:
                b = [C(0, 8) if v is None else v for v in b]
                E = J.prog.encode(f, [b[4 * i:4 * i + 4] for i in range(16)], C(m, 32), *par)
                J.prove(f"{L}: block ({x}, {y})", conj([t.eq(u, v) for u, v in zip(o, E.out)]))
                continue
            exp = cut.expect(b, m)
            want = [V(f"want_{j}", 8) for j in range(BS[f])]
            compare(J, f"{L}: block ({x}, {y})", o, want, cut.calls, lambda q: same_args(cut.calls[q][0], exp, m))

def cut_with(J, f, alg, wba, ws):
    """the block routine, its expected arguments being those of the public block function for these parameters"""
    cut = EncCut(J.prog, "compress_block_masked", "code")
    probe = [[V(f"probe{i}_{c}", 8) for c in range(4)] for i in range(16)]
    args = cut.probe_run(J, f, probe, V("probemask", 32), alg, wba, ws)
    flat = [c for p in probe for c in p]
    ipx = [i for i, a in enumerate(args) if isinstance(a, list) and len(a) == 64 and all(x is y for x, y in zip(a, flat))]
    im = [i for i, a in enumerate(args) if a is V("probemask", 32)]
    if len(ipx) != 1 or len(im) != 1: raise NoCut("pixels or mask not found among the arguments")
    def expect(b, m):
        r = list(args); r[ipx[0]] = b; r[im[0]] = C(m, 32)
        return r
    cut.expect = expect; cut.calls = []
    return cut

def unbuilt(J, oracle):
    """the program cannot be encoded (the stubs do not fit its code any more): a search with the real program only"""
    J.start(oracle)
    raise Unsupported("the command line's code does not build over the stub crates: " + UNBUILT[-300:])
