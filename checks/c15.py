"""C15: command line compression"""
from cli import *
BUILDS = (build_all,)
BOUNDS = ("RGBA PNG files of all sizes from 1 to 8 (16 in thorough) and some up to 70 pixels, all pixels, all formats, profiles, both alpha weightings, 0 to 5 colour weights of any value; "
          "named and default output file, file name extensions in either case, unknown ones and none; the block routine is an uninterpreted function of its enabled pixels, mask and parameters")
OUTSIDE = "other sizes; container fields other than magic, sizes, FourCC, DXGI format, dimension and array size; option parsing (clap)"
from cli import ASSUMPTIONS

def oracle_for(J, f, kind, named):
    def oracle(env):
        w, h = env["w"], env["h"]
        px = bytes(env.get(f"p{i}", 0) for i in range(w * h * 4)); profile = env["profile"] % 3; wba = env["wba"] & 1; nw = env["nw"]
        ws = (WEIGHTS[env["ws"] % len(WEIGHTS)] * 2)[:nw]
        r, fs = program(cli_args(f, profile, wba, ws), NAMES[kind], real_png(w, h, 6, 8, px), "out.bin" if named else None)
        d = f"texpresso {' '.join(cli_args(f, profile, wba, ws))} {'-o out.bin ' if named else ''}d/{NAMES[kind]} ({w}x{h} RGBA PNG, pixels {px[:128].hex()})"
        if nw not in (0, 3) or kind in (5, 6): return d + f" is not refused" if r == 0 else None
        if r: return f"{d} fails with exit code {r}"
        name = "out.bin" if named else "in.dds"
        if list(fs) != [name]: return f"{d} writes the files {sorted(fs)}, not {name}"
        m = judge_dds(J, fs[name], f, w, h, px, profile, wba, ws if ws else c05.PERCEPTUAL)
        return m and f"{d}: {m}"
    return oracle

def one(J, f, w, hs, nw=0, kind=0, named=1, profile=None):
    J.inputs = {f"p{i}": 8 for i in range(w * max(hs) * 4)}; J.inputs.update(profile=8, wba=8, ws=8)
    J.fixed = {"w": w, "h": hs[0], "nw": nw}
    oracle = oracle_for(J, f, kind, named)
    if UNBUILT: return unbuilt(J, oracle)
    J.start(oracle)
    P = prog(J)
    prof = V("profile", 32, 0, 2) if profile is None else C(profile, 32); wba = V("wba", 32, 0, 1); ws = [FV(f"$w{i}", 0.0, 1024.0) for i in range(nw)]
    bad = nw not in (0, 3) or kind in (5, 6)
    W = ws if nw == 3 else [FC(f32(x)) for x in c05.PERCEPTUAL]
    try: cut = cut_with(J, f, prof, wba, W)
    except NoCut as e:          # no recognisable block routine: everything is executed
        J.notes.append(f"no cut: {e}"); cut = None
        hs = [h for h in hs if w * h <= 35] if f > 3 and not bad else []
    for h in hs:
        J.fixed["h"] = h
        px = [V(f"p{i}", 8) for i in range(w * h * 4)]
        if cut: cut.calls = []
        R = run(P, kind, fake_png(w, h, 6, 8, px), 148 + nb(w) * nb(h) * BS[f] + 64, f, prof, wba, ws, named, cut.hook(f) if cut else None)
        L = f"{w}x{h}"
        if bad: refused(J, L, R); continue
        compressed_ok(J, L, R, f, w, h, px, cut, (prof, wba, W))
    if not bad and hs:          # the program itself on concrete inputs
        for k in range(2):
            e = J.full({q: J.rng.getrandbits(b) for q, b in J.inputs.items()})
            if w * hs[-1] <= 400 or e["profile"] % 3 < 2: J.confirm(e, "the real program on random inputs")
            J.validated += 1

def jobs(tier):
    n = 16 if tier == "thorough" else 8
    out = []
    for f in range(1, 6):
        out += [(f"{FNAME[f]} {w} x 1..{n}", one, dict(f=f, w=w, hs=list(range(1, n + 1)), nw=3 if w % 2 else 0, named=w // 2 % 2), 300) for w in range(1, n + 1)]
        out += [(f"{FNAME[f]} {w} x {h}", one, dict(f=f, w=w, hs=[h]), 300) for w, h in ((33, 18), (3, 70), (70, 2), (41, 41)) + (((130, 131), (520, 5), (3, 700)) if tier == "thorough" else ())]
        out += [(f"{FNAME[f]} {k} weights", one, dict(f=f, w=5, hs=[3], nw=k), 300) for k in (1, 2, 4, 5)]
        out += [(f"{FNAME[f]} file {NAMES[k]}", one, dict(f=f, w=2, hs=[5], kind=k, named=0), 300) for k in (4, 5, 6)]
    return out if not UNBUILT else out[::20]
