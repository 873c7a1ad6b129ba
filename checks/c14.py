"""C14: the parallel build gives the sequential results, whatever the order in which rows are processed"""
import random, os
import term as t
import build, native, harness
from term import C, V, FV, TRUE, FALSE, bnot, bor
from harness import BS, FNAME, ALG, conj
from image import *
from c05 import cut_for, params, PERCEPTUAL, UNIFORM
BOUNDS = ("compress and decompress with feature rayon against the build without it, all pixels/data, algorithms and weights: widths 1 to 9, 1 to 3 rows of blocks (heights 1 to 12; 1 to 20 in thorough) in every order of "
          "the rows (up to 4 rows), and selected larger sizes with the rows in ascending and descending order; output buffers exact, longer and too short; inputs too short; the block routines are uninterpreted functions of their enabled pixels, mask and parameters")
OUTSIDE = "other sizes; interference between rows through shared memory is over-approximated at row granularity (cells that a row changes outside its own output hold arbitrary values when the next row starts; the current code has none); rayon's own scheduler, replaced by the stub in stubs/rayon"
ASSUMPTIONS = ["rayon's adapters par_chunks_mut/take/enumerate/for_each hand out the same items as their sequential namesakes (stubs/rayon)", "block compression is a function of format, enabled pixels, mask and parameters (C11)"]

UNBUILT = None
def build_all():
    build.ir(); build.native()
    global UNBUILT
    try:
        build.ir("rshim", "rshim"); build.native("rnshim", "librnshim.so"); build.native("pnshim", "libpnshim.so")
    except build.BuildError as e:
        # is it the code or the stub that does not know an adapter?
        build.native("pnshim", "libpnshim.so")
        UNBUILT = str(e)
BUILDS = (build_all,)

class Picked(native.Native):
    def schedule(s, env):
        for k in range(100): s.l.n_pick(k, env.get(f"pick{k}", 0))

def libs(J):
    if not hasattr(J, "rnat"):
        J.rnat = Picked(build.native("rnshim", "librnshim.so")); J.pnat = native.Native(build.native("pnshim", "libpnshim.so"))

def data_of(env, n, key):
    if "seed" in env: return random_bytes(random.Random(env["seed"]), n, env["seed"] % 4)
    return bytes(env.get(f"{key}{i}", 0) for i in range(n))

def oracle_for(J, f, kind):
    def oracle(env):
        libs(J)
        w, h = env["w"], env["h"]; rows = nb(h)
        if kind == "c":
            n = w * h * 4; N = nb(w) * rows * BS[f]; row = nb(w) * BS[f]; src = data_of(env, n, "p")
            alg = env.get("alg", 0) % 3; wba = env.get("wba", 0) & 1; ws = PERCEPTUAL if env.get("ws", 0) & 1 else UNIFORM
            run = lambda l, o, src=src: l.compress(f, src, w, h, alg, wba, ws, o)
            d = f"{FNAME[f]}.compress of {w}x{h} ({ALG[alg]}, alpha-weighted={bool(wba)}), pixels {src[:128].hex()}"
        else:
            n = nb(w) * rows * BS[f]; N = w * h * 4; row = 16 * w; src = data_of(env, n, "d")
            run = lambda l, o, src=src: l.decompress(f, src, w, h, o)
            d = f"{FNAME[f]}.decompress of {w}x{h}, data {src[:128].hex()}"
        for L in (N, N + 1, N + row + 5, N - 1, N - row, N - (N - 1) % row - 1):
            if L < 0: continue
            buf = bytes((7 * i + 90) & 255 for i in range(L))
            want = run(J.nat, buf)
            scheds = [{"pick99": a, **{f"pick{k}": v for k, v in enumerate(p)}} for a in (0, 1) for p in ((0, 0, 0), (3, 2, 1), (1, 1, 0), (2, 0, 1))] + [env]
            for s in scheds:
                J.rnat.schedule(s)
                got = run(J.rnat, buf)
                if got != want: return diff(d, L, N, want, got, f"rows processed in the order chosen by {[s.get(f'pick{k}', 0) for k in range(4)]}, {s.get('pick99', 0)}")
            for k in range(4):
                got = run(J.pnat, buf)
                if got != want: return diff(d, L, N, want, got, "real thread pool")
        if J.stressed < 60:
            J.stressed += 1
            m = stress(J, f, kind, env)
            if m: return m
        buf = bytes(N); srow = w * 16 if kind == "c" else nb(w) * BS[f]
        J.rnat.schedule(env)
        for short in {1, BS[f], srow, (n - 1) % srow + 1}:
            if short > n: continue
            want, a, b = run(J.nat, buf, src[:n - short]), run(J.rnat, buf, src[:n - short]), run(J.pnat, buf, src[:n - short])
            if (want is None) != (a is None) or (want is None) != (b is None): return f"{d}: with an input {short} bytes too short the sequential build {'panics' if want is None else 'returns'}, the parallel one does not"
    return oracle

def stress(J, f, kind, env):
    """a larger image of a few different tiles on the real thread pool"""
    r = random.Random(repr(sorted(env.items()))); w, h = 32, 1024; hb = h // 4
    if kind == "c":
        tiles = [bytes(r.choice((r.getrandbits(8), 255, 0)) for _ in range(4)) * 16 for _ in range(2)] + [random_bytes(r, 64, r.randrange(4)) for _ in range(2)]
        rows = []
        for y in range(hb):
            ts = [r.choice(tiles) for _ in range(w // 4)]
            for py in range(4): rows += [t_[16 * py:16 * py + 16] for t_ in ts]
        src = b"".join(rows); N = w // 4 * hb * BS[f]
        run = lambda l, o: l.compress(f, src, w, h, 0, 0, UNIFORM, o)
    else:
        tiles = [random_bytes(r, BS[f], r.randrange(4)) for _ in range(3)]
        src = b"".join(r.choice(tiles) for _ in range(w // 4 * hb)); N = w * h * 4
        run = lambda l, o: l.decompress(f, src, w, h, o)
    buf = bytes(N); want = run(J.nat, buf)
    for k in range(12):
        got = run(J.pnat, buf)
        if got != want: return diff(f"{FNAME[f]}.{'compress' if kind == 'c' else 'decompress'} of {w}x{h}", N, N, want, got, f"real thread pool, attempt {k}, seed {env}")

def diff(d, L, N, want, got, how):
    if want is None or got is None: return f"{d}: with an output of {L} bytes ({N} needed) the {'sequential' if want is None else 'parallel'} build panics, the other one does not ({how})"
    i = next(i for i in range(len(want)) if want[i] != got[i])
    return f"{d}: output byte {i} is {got[i]} in the parallel build and {want[i]} in the sequential one (output of {L} bytes, {N} needed; {how})"

class Memo:
    """results of the block routine, shared between the two builds"""
    def __init__(s): s.known = {}; s.list = []
    def get(s, key, n):
        if key not in s.known:
            k = len(s.list); s.known[key] = [V(f"blk{k}_{j}", 8) for j in range(n)]; s.list.append((key, s.known[key]))
        return s.known[key]

def freeze(sn, mask=None):
    r = []
    for x in sn:
        if isinstance(x, list): r.append(tuple(None if mask is not None and len(x) == 64 and not mask >> (i // 4) & 1 else c for i, c in enumerate(x)))
        else: r.append(x)
    return tuple(r)

def enc_hooks(cut, f, memo, canon):
    """canon: argument snapshot -> key that does not depend on the build"""
    h0 = cut.hook(f)[cut.name]
    def h(ex, st, args):
        k = len(cut.calls); r = h0(ex, st, args)
        if r is None: return None
        sn, code = cut.calls[k]
        del cut.calls[k:]
        c2 = memo.get(canon(sn), BS[f])
        for j, c in enumerate(c2): ex.store(st, C(args[cut.outpos].p + j, 64), c, 1)
        return r
    return {cut.name: h}

def dec_hooks(cut, f, memo):
    h0 = cut.hook(f)[cut.name]
    ret = [i for i, x in enumerate(cut.ps) if x[2]]
    def h(ex, st, args):
        k = len(cut.calls); r = h0(ex, st, args)
        if r is None: return None
        sn, code = cut.calls[k]
        del cut.calls[k:]
        c2 = memo.get(freeze(sn), 64)
        for j, c in enumerate(c2): ex.store(st, C(args[ret[0]].p + j, 64), c, 1)
        return r
    return {cut.name: h}

class Par:
    """stand-in for a job that works on the parallel build"""
    def __init__(s, J): s.prog = harness.Prog(build.ir("rshim", "rshim"), J.deadline); s.prog.statics = J.prog.statics = "init"; s.seen = set()

def picks(P):
    def h(ex, st, args):
        step, rem = args
        if step.op != "c" or rem.op != "c": raise NotImplementedError("schedule step not constant")
        return V(f"pick{step.p}", 64, 0, rem.p - 1), st
    def item(ex, st, args):
        if args[0].p == 1: ex.item_start(st)
        else: ex.item_end(st); P.seen |= ex.newly_shared
        return C(0, 64), st
    return {"@verif_pick": h, "@verif_item": item}

def canon_for(J, P, f):
    """cuts of both builds whose snapshots are comparable: pixel and mask positions found by probing"""
    a, b = cut_for(J, f), cut_for(P, f)
    pr = [[V(f"probe{i}_{c}", 8) for c in range(4)] for i in range(16)]
    def canon_of(cut):
        flat = [c for p in pr for c in p]
        ref, ref2 = cut.expect(flat, 0), cut.expect(flat, 1)      # the mask is where they differ
        im = next(i for i, (x, y) in enumerate(zip(ref, ref2)) if x is not y)
        ipx = next(i for i, x in enumerate(ref) if isinstance(x, list) and len(x) == 64 and x[0] is pr[0][0])
        def canon(sn):
            m = sn[im]
            mask = m.p if m.op == "c" else None
            rest = freeze([x for i, x in enumerate(sn) if i not in (im, ipx)])
            px = tuple(c if mask is None or mask >> (i // 4) & 1 else None for i, c in enumerate(sn[ipx]))
            return (px, m, rest)
        return canon
    return a, canon_of(a), b, canon_of(b)

def lemmas(J, memo, outs):
    """equal arguments give equal results"""
    vs = {n.rsplit("_", 1)[0] for n in t.variables(outs) if n.startswith("blk")}
    L = []
    idx = [int(v[3:]) for v in vs]
    for x in range(len(idx)):
        for y in range(x):
            (ka, ca), (kb, cb) = memo.list[idx[x]], memo.list[idx[y]]
            a = key_eq(ka, kb)
            if a is not FALSE: L += [bor(bnot(a), t.eq(c, e)) for c, e in zip(ca, cb)]
    return L

def key_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return FALSE
        r = TRUE
        for x, y in zip(a, b):
            r = t.band(r, key_eq(x, y))
            if r is FALSE: return r
        return r
    if a is None or b is None: return TRUE if a is b else FALSE
    if isinstance(a, t.T) and isinstance(b, t.T): return t.eq(a, b) if a.w == b.w else FALSE
    return TRUE if a == b else FALSE

def compare_runs(J, memo, L, A, B, N):
    J.no_events(B, f"{L} (parallel)")
    if A.events: J.no_events(A, f"{L} (sequential)")
    if not (A.returned and B.returned): return
    n = len(A.out)
    for k in range(0, n, 64):
        a, b = A.out[k:k + 64], B.out[k:k + 64]
        g = conj([t.eq(x, y) for x, y in zip(a, b)])
        J.prove(f"{L}: output bytes {k} to {min(n, k + 64) - 1}", g, lemmas(J, memo, a + b) if g is not TRUE else ())

def go(J, f, kind, sizes, direct):
    J.inputs = {"pick0": 2, "pick1": 2, "pick2": 1, "pick99": 1}
    wmax = max(w for w, h in sizes); hmax = max(h for w, h in sizes)
    if not direct: J.inputs["seed"] = 32
    if kind == "c":
        if direct: J.inputs.update({f"p{i}": 8 for i in range(wmax * hmax * 4)})
        J.inputs.update(alg=32, wba=32, ws=8)
    elif direct: J.inputs.update({f"d{i}": 8 for i in range(nb(wmax) * nb(hmax) * BS[f])})
    J.fixed = {"w": sizes[-1][0], "h": sizes[-1][1]}
    J.stressed = 0
    J.start(oracle_for(J, f, kind))
    P = Par(J)
    pk = picks(P)
    if kind == "c":
        try: ca, ka, cb, kb = canon_for(J, P, f)
        except NoCut as e: raise NotImplementedError(f"block routine not found: {e}")
    else:
        try: ca, cb = DecCut(J.prog, "decompress_block", "dec"), DecCut(P.prog, "decompress_block", "dec")
        except NoCut as e: raise NotImplementedError(f"block routine not found: {e}")
    for w, h in sizes:
        J.fixed = {"w": w, "h": h}
        rows = nb(h)
        if kind == "c": n = w * h * 4; N = nb(w) * rows * BS[f]; row = nb(w) * BS[f]; src = [V(f"p{i}", 8) for i in range(n)]
        else: n = nb(w) * rows * BS[f]; N = w * h * 4; row = 16 * w; src = [V(f"d{i}", 8) for i in range(n)]
        alg, wba, ws = params()
        def run(prog, buf, memo, par, src=src):
            if kind == "c":
                hk = enc_hooks(cb if par else ca, f, memo, kb if par else ka)
                if par: hk.update(pk)
                return prog.compress(f, src, w, h, alg, wba, ws, buf, hooks=hk)
            hk = dec_hooks(cb if par else ca, f, memo)
            if par: hk.update(pk)
            return prog.decompress(f, src, w, h, buf, hooks=hk)
        for extra in (0, 1, row + 5) if n < 3000 else (3,):
            fill = [V(f"o{i}", 8) for i in range(N + extra)]
            memo = Memo()
            P.prog.shared = (); P.seen = set()
            A = run(J.prog, fill, memo, False); B = run(P.prog, fill, memo, True)
            if P.seen:      # memory outside the output changes in an item: let the other items interfere
                J.notes.append(f"{w}x{h}: {len(P.seen)} objects change during an item")
                P.prog.shared = tuple(P.seen); B = run(P.prog, fill, memo, True)
            compare_runs(J, memo, f"{w}x{h}{f' +{extra}' * (extra > 0)}", A, B, N)
        if n < 3000:
            for short in sorted({1, row, (N - 1) % row + 1}):
                if short > N: continue
                fill = [V(f"o{i}", 8) for i in range(N - short)]
                A = run(J.prog, fill, Memo(), False); B = run(P.prog, fill, Memo(), True)
                J.prove(f"{w}x{h}: output {short} bytes too short is refused by both builds or by neither", TRUE if A.returned == B.returned else FALSE)
            srow = w * 16 if kind == "c" else nb(w) * BS[f]
            for short in sorted({1, BS[f], srow, (n - 1) % srow + 1}):
                if short > n: continue
                fill = [V(f"o{i}", 8) for i in range(N)]
                A = run(J.prog, fill, Memo(), False, src[:n - short]); B = run(P.prog, fill, Memo(), True, src[:n - short])
                J.prove(f"{w}x{h}: input {short} bytes too short is refused by both builds or by neither", TRUE if A.returned == B.returned else FALSE)
    for k in range(2):          # the stub against the real thread pool (a difference is a violation, too)
        w, h = J.rng.choice(sizes); J.fixed = {"w": w, "h": h}
        J.confirm({q: J.rnd(b) for q, b in J.inputs.items()}, "stub validation"); J.validated += 1
    J.prog.funcs |= P.prog.funcs; J.prog.states += P.prog.states; J.prog.transitions += P.prog.transitions; J.prog.merges += P.prog.merges

def unbuilt(J): raise NotImplementedError("the rayon stub does not provide what the code uses: " + UNBUILT[-300:])

def jobs(tier):
    if UNBUILT: return [("parallel build", unbuilt, {}, 30)]
    n = 16 if tier == "quick" else 20
    out = []
    for f in range(1, 6):
        for kind in "cd":
            for w in range(1, 10):
                hs = range(1, 21) if tier != "quick" else [1, 2, 4, 5, 7, 8, 9, 11, 12, 14, 16] if f in (1, 3) else [3, 4, 6, 8, 10, 13]
                out.append((f"{FNAME[f]} {'compress' if kind == 'c' else 'decompress'} {w} x 1..{n}", go, dict(f=f, kind=kind, sizes=[(w, h) for h in hs], direct=True), 300))
            big = [(5, 40), (3, 131), (40, 5), (70, 70), (600, 3)] + ([(2, 2001), (130, 130)] if tier == "thorough" else [])
            out.append((f"{FNAME[f]} {'compress' if kind == 'c' else 'decompress'} large", go, dict(f=f, kind=kind, sizes=big, direct=False), 300))
    return out
