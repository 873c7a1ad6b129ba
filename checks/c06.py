"""C06: block counts, block sizes and compressed sizes"""
import term as t
from term import C, V
from harness import BS, FNAME
M = (1 << 64) - 1
BOUNDS = "block counts: all sizes 0..2^64-4; compressed size: all pairs w < 2^(63-k), h < 2^k for k = 1..62 (their union holds every pair with w*h < 2^61), all five formats"
OUTSIDE = "pairs whose compressed size is within a factor of about 4 of 2^64"

def nb(x): return t.add(t.lshr(x, C(2, 64)), t.zext(t.bnot(t.eq(t.ext(x, 1, 0), C(0, 2))), 64))

def nblocks(J):
    def oracle(env):
        n = env["n"]
        if n > M - 3: return None
        g = J.nat.nblocks(n)
        if g != n // 4 + (n % 4 != 0): return f"num_blocks({n}) = {g}"
    J.inputs = {"n": 64}; J.start(oracle)
    n = V("n", 64, 0, M - 3)
    R = J.prog.scalar("v_nblocks", [n])
    J.no_events(R, "num_blocks")
    J.validate([R.out], lambda e: [J.nat.nblocks(e["n"])], 30, gen=lambda: {"n": J.rng.choice((J.rng.getrandbits(62), J.rng.getrandbits(8), M - 3 - J.rng.getrandbits(4)))})
    J.prove("num_blocks(n) = n/4 rounded up", t.eq(R.out, nb(n)))

def bsize(J, f):
    def oracle(env):
        g = J.nat.bsize(f)
        if g != BS[f]: return f"{FNAME[f]}.block_size() = {g}"
    J.start(oracle)
    R = J.prog.scalar("v_bsize", [C(f, 32)])
    J.no_events(R, "block_size")
    J.prove(f"block_size({FNAME[f]})", t.eq(R.out, C(BS[f], 64)))

def counts(J, n):
    """n/4 rounded up, in the code's own form where that is proved to be the same"""
    R = J.prog.scalar("v_nblocks", [n])
    if R.out is not None and J.prove("block count lemma", t.eq(R.out, nb(n))): return R.out
    return nb(n)

def csize(J, f, k):
    N = lambda n: n // 4 + (n % 4 != 0)
    def oracle(env):
        if "w" not in env: return None
        w, h = env["w"], env["h"]
        if N(w) * N(h) * BS[f] > M or w > M - 3 or h > M - 3: return None
        g = J.nat.csize(f, w, h)
        if g != N(w) * N(h) * BS[f]: return f"{FNAME[f]}.compressed_size({w}, {h}) = {g}, expected {N(w)*N(h)*BS[f]}"
    J.inputs = {"w": 64, "h": 64}; J.start(oracle)
    w = V("w", 64, 0, (1 << 63 - k) - 1); h = V("h", 64, 0, (1 << k) - 1)
    if True:
        R = J.prog.scalar("v_csize", [C(f, 32), w, h])
        J.no_events(R, f"compressed_size k={k}")
        if R.out is not None:
            J.validate([R.out], lambda e: [J.nat.csize(f, e["w"], e["h"])], 4, gen=lambda: {"w": J.rng.getrandbits(63 - k), "h": J.rng.getrandbits(k)})
            nw, nh = counts(J, w), counts(J, h)
            J.timeout = 20
            J.prove(f"compressed_size k={k}", t.eq(R.out, t.mul(t.mul(nw, nh), C(BS[f], 64))))

def jobs(tier):
    out = [("num_blocks", nblocks, {}, 120)]
    for f in range(1, 6):
        out.append((f"block_size {FNAME[f]}", bsize, dict(f=f), 60))
        out += [(f"compressed_size {FNAME[f]} w<2^{63-k} h<2^{k}", csize, dict(f=f, k=k), 60) for k in range(1, 63)]
    return out
