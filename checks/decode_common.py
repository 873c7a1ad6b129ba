import term as t, spec
from harness import BS, FNAME, conj

def decode_job(J, f, chans):
    """every block of format f decodes to the specified value in the given channels"""
    n = BS[f]
    names = [f"b{i}" for i in range(n)]
    def oracle(env):
        blk = bytes(env[k] for k in names)
        got = J.nat.decode(f, blk); want = spec.decode(f, blk)
        if got is None: return f"decompress_block({FNAME[f]}, {blk.hex()}) panics"
        for i in range(16):
            for c in chans:
                if got[4 * i + c] != want[4 * i + c]:
                    return f"decompress_block({FNAME[f]}, {blk.hex()}): pixel {i} channel {c} is {got[4*i+c]}, specified {want[4*i+c]}"
    J.inputs = {k: 8 for k in names}
    J.start(oracle)
    b = [J.var(k) for k in names]
    R = J.prog.decode(f, b)
    J.no_events(R, FNAME[f])
    J.validate([c for p in R.out for c in p], lambda env: J.nat.decode(f, bytes(env.get(k, 0) for k in names)), 40)
    want = spec.t_decode(f, b)
    for k in range(10):           # the two statements of the specification agree
        env = {q: J.rnd(8) for q in names}
        assert t.evaluate([x for p in want for x in p], env) == spec.decode(f, [env[q] for q in names])
    for i in range(16):
        J.prove(f"{FNAME[f]} pixel {i}", conj([t.eq(R.out[i][c], want[i][c]) for c in chans]))
