"""C08: gradient channels (BC3 alpha, BC4, BC5) get the nearest index and the better of the two codebooks"""
import term as t, spec
from term import C, V, ite, bnot
from harness import conj, FNAME, BS
from enc import *
import smt, sweep
BOUNDS = "all channel contents, for the 16 masks of cropped tiles and 4 others (24 more in thorough), at each of the four places where a gradient channel is stored (full and one other mask for BC3 and BC5 in quick)"
OUTSIDE = "the remaining masks"
ASSUMPTIONS = []
PLACES = {"BC3 alpha": (3, 3, 0), "BC4 red": (4, 0, 0), "BC5 red": (5, 0, 0), "BC5 green": (5, 1, 8)}

# ---------------------------------------------------------------- oracle
def widen(lo, hi, steps):
    if hi - lo < steps: hi = min(lo + steps, 255)
    if hi - lo < steps: lo = max(hi - steps, 0)
    return lo, hi
def candidates(vs):
    w = [v for v in vs if v not in (0, 255)]
    lo7, hi7 = widen(min(vs), max(vs), 7); lo5, hi5 = widen(min(w), max(w), 5) if w else (0, 5)
    return spec.gradient_palette([hi7, lo7]), spec.gradient_palette([lo5, hi5])
def cost(vs, pal): return sum(min((v - p) ** 2 for p in pal) for v in vs)
def judge(block, V_, m, decoded):
    on = [i for i in range(16) if m >> i & 1]
    if not on: return
    vs = [V_[i] for i in on]
    pal = spec.gradient_palette(block); e = sum((V_[i] - decoded[i]) ** 2 for i in on)
    for i in on:
        if any(abs(V_[i] - p) < abs(V_[i] - decoded[i]) for p in pal): return f"enabled pixel {i} of value {V_[i]} gets {decoded[i]} although the palette is {pal}"
    c7, c5 = candidates(vs)
    for n, c in (("8", c7), ("6", c5)):
        if e > cost(vs, c): return f"the squared error is {e}, the {n}-step palette {c} would give {cost(vs, c)}"
    if len(set(vs)) <= 2 and e: return f"the values {sorted(set(vs))} are not reproduced"

def oracle_for(J, place, alg, mk):
    f, ch, off = PLACES[place]
    def o(env):
        vals, m = mk(env)
        px = bytes(vals[i] if c == ch else (37 * i + 11 * c) & 255 for i in range(16) for c in range(4))
        d = f"compress_block_masked({FNAME[f]}, {place} = {vals}, mask={m:#x})"
        b = J.nat.encode(f, px, m, alg, 0, UNIFORM)
        if b is None: return d + " panics"
        D = J.nat.decode(f, b)
        r = judge(b[off:off + 8], vals, m, [D[4 * i + ch] for i in range(16)])
        if r: return f"{d} = {b.hex()}: {r}"
    return o

# ---------------------------------------------------------------- terms
def umin(a, b): return ite(t.ult(a, b), a, b)
def umax(a, b): return ite(t.ult(a, b), b, a)
def sq(d, w=20): return t.mul(t.zext(d, w), t.zext(d, w))

def leaves(x, names):
    """maximal Boolean subterms of x that depend on the named variables only (and on some of them)"""
    dep = {}
    ns = t.nodes(x)
    for y in ns:
        dep[y.id] = 1 if y.op == "v" and y.p in names else 2 if y.op == "v" else 0
        for z in y.a: dep[y.id] |= dep[z.id]
    out = {}; stack = list(x); seen = set()
    while stack:
        y = stack.pop()
        if y.id in seen: continue
        seen.add(y.id)
        if y.w == 1 and dep[y.id] == 1: out[y.id] = y
        else: stack.extend(y.a)
    return list(out.values())

def job(J, place, mask):
    f, ch, off = PLACES[place]
    J.timeout = 60; J.solver = smt.BVSolver()
    on = [i for i in range(16) if mask >> i & 1]
    v = [J.var(f"v{i}") for i in range(16)]
    mk = lambda e: ([e.get(f"v{i}", 0) for i in range(16)], mask)
    J.start(oracle_for(J, place, 0, mk))
    def complete(env, r):
        if r.random() < 0.6:
            lo = r.randrange(256); hi = r.randrange(lo, 256)
            pool = [lo + r.randrange(hi - lo + 1) for _ in range(r.randrange(1, 9))] + [lo, hi] + r.choice(([], [0], [255], [0, 255]))
            e = {f"v{i}": r.choice(pool) for i in range(16)}
            if r.random() < 0.5: e = dict(zip(e, sorted(e.values())))
            if r.random() < 0.7: return e
        else:
            pool = [env[k] for k in env if k[0] in "v!"] + [0, 255]
            e = {f"v{i}": r.choice(pool) for i in range(16)}
        if r.random() < 0.7: e.update({k: x for k, x in env.items() if k in e and r.random() < 0.8})
        return e
    J.complete = complete
    enc = lambda vs: J.prog.encode(f, [[vs[i] if c == ch else C(9 if f == 3 else 37 * i + 11 * c, 8) for c in range(4)] for i in range(16)], C(mask, 32), 0, 0, [FC(1.0)] * 3)
    R = enc(v)
    if not R.returned: J.prove("returns", t.FALSE); return
    B = R.out[off:off + 8]
    def nat(e):
        vs = mk(e)[0]
        return list(J.nat.encode(f, bytes(vs[i] if c == ch else 9 if f == 3 else (37 * i + 11 * c) & 255 for i in range(16) for c in range(4)), mask, 0, 0, UNIFORM)[off:off + 8])
    J.validate(B, nat, 12)
    W = (65025 * len(on)).bit_length()
    # the ranges of the values
    n7, x7, n5, x5 = C(255, 8), C(0, 8), C(255, 8), C(0, 8)
    for i in on:
        n7 = umin(n7, v[i]); x7 = umax(x7, v[i])
        n5 = ite(t.eq(v[i], C(0, 8)), n5, umin(n5, v[i])); x5 = ite(t.eq(v[i], C(255, 8)), x5, umax(x5, v[i]))
    raw = [n7, x7, n5, x5]
    envs = [{f"v{i}": complete({"v0": J.rng.getrandbits(8), "v1": J.rng.getrandbits(8)}, J.rng)[f"v{i}"] for i in range(16)} for _ in range(5)]
    envs = []
    for _ in range(60):
        lo = J.rng.randrange(256); hi = J.rng.randrange(lo, 256)
        envs.append({f"v{i}": J.rng.choice((0, 255, J.rng.randint(lo, hi))) if J.rng.random() < 0.3 else J.rng.randint(lo, hi) for i in range(16)})
    B, n, _ = sweep.match(B, raw, envs, left=J.left, ms=500)
    names = ["!n7", "!x7", "!n5", "!x5"]
    cutv = {q.id: V(nm, 8) for q, nm in zip(raw, names)}
    B = t.subst(B, cutv)
    N7, X7, N5, X5 = [cutv[q.id] for q in raw]
    le = t.ule
    # facts about the ranges, for every value
    lone = t.bor(le(N5, X5), conj([t.eq(N5, C(255, 8)), t.eq(X5, C(0, 8))]))
    facts = [le(N7, X7), lone]
    vfact = lambda x: [le(N7, x), le(x, X7), t.bor(t.bor(t.eq(x, C(0, 8)), t.eq(x, C(255, 8))), conj([le(N5, x), le(x, X5)]))]
    # the candidate palettes; their entries become variables of their own
    def wid(lo, hi, st):
        hi2 = ite(t.ult(t.sub(hi, lo), C(st, 8)), ite(t.ult(C(255 - st, 8), lo), C(255, 8), t.add(lo, C(st, 8))), hi)
        return ite(t.ult(t.sub(hi2, lo), C(st, 8)), ite(t.ult(hi2, C(st, 8)), C(0, 8), t.sub(hi2, C(st, 8))), lo), hi2
    p8 = lambda lo, hi: [lo, hi] + [spec.mix(lo, hi, 7 - k, k, 7) for k in range(1, 7)]
    lo7, hi7 = wid(N7, X7, 7)
    m5 = ite(t.ult(X5, N5), X5, N5); lo5, hi5 = wid(m5, X5, 5)
    pal7 = p8(lo7, hi7)
    pal5 = [lo5, hi5] + [spec.mix(lo5, hi5, 5 - k, k, 5) for k in range(1, 5)] + [C(0, 8), C(255, 8)]
    envs2 = [{**e, **dict(zip(names, t.evaluate(raw, e)))} for e in envs[:40]]
    B, n1, _ = sweep.match(B, pal7 + pal5, envs2, left=J.left, ms=3000, depths=(4, 99)); n += n1
    code = {}; back = {}; cpal = {}
    for nm, p in (("7", pal7), ("5", pal5)):
        for k, q in enumerate(p):
            if q.op != "c" and q.id not in code:
                w = V(f"!c{nm}_{k}", 8); code[q.id] = w; back[w.id] = q
        cpal[nm] = [code.get(q.id, q) for q in p]
    Bc = t.subst(B, code)
    def least(x, pal):
        d = None
        for p in pal:
            e = t.absdiff8(x, p); d = e if d is None else ite(t.ult(e, d), e, d)
        return sq(d, W)
    L5 = {i: least(v[i], cpal["5"]) for i in on}; L7 = {i: least(v[i], cpal["7"]) for i in on}
    ks = list(code)
    envs2 = [{**e, **{code[k].p: x for k, x in zip(ks, t.evaluate([back[code[k].id] for k in ks], e))}} for e in envs2]
    Bc, n2, _ = sweep.match(Bc, list(L5.values()) + list(L7.values()), envs2, left=J.left, ms=3000, depths=(4, 99))
    Lv = {}
    for k, L in (("5", L5), ("7", L7)):
        for i in on:
            if L[i].op != "c": Lv[L[i].id] = V(f"!l{k}_{i}", L[i].w, L[i].lo, L[i].hi)
    unL = {Lv[L[i].id].id: L[i] for L in (L5, L7) for i in on if L[i].id in Lv}
    G = t.subst(Bc, Lv)
    conds = leaves(G, {x.p for x in Lv.values()})
    J.notes.append(f"{n}+{n2} matched, {len(conds)} selecting conditions")
    if len(conds) > 3: conds = []
    lv = lambda L: [t.subst([L[i]], Lv)[0] for i in on]
    def total(l):
        s = C(0, W)
        for x in l: s = t.add(s, x)
        return s
    S5, S7 = total(lv(L5)), total(lv(L7))
    REV = {"7": [1, 0, 7, 6, 5, 4, 3, 2], "5": [1, 0, 5, 4, 3, 2, 6, 7]}
    for bits in range(1 << len(conds)):
        val = [bits >> k & 1 for k in range(len(conds))]
        pc = [c if b else bnot(c) for c, b in zip(conds, val)]       # what this choice says about the errors
        bc = t.subst(t.subst(G, {c.id: C(x, 1) for c, x in zip(conds, val)}), unL)
        known = {}
        for c in leaves(t.subst(bc, back), set(names)):
            if smt.BVSolver().check(facts + [c], 5000) == "unsat": known[c.id] = t.FALSE
            elif smt.BVSolver().check(facts + [bnot(c)], 5000) == "unsat": known[c.id] = t.TRUE
        b = t.subst(t.subst(bc, back), known)
        pal = spec.t_gradient_palette(b)
        tag = "".join(map(str, val))
        # which candidate palette is stored, and in which order?
        hit = None
        for nm, p in (("7", pal7), ("5", pal5)):
            for perm in (REV[nm], list(range(8))):
                if all(pal[j] is p[perm[j]] or smt.BVSolver().check(facts + [bnot(t.eq(pal[j], p[perm[j]]))], 10000) == "unsat" for j in range(8)): hit = (nm, perm); break
            if hit: break
        if hit:
            nm, perm = hit
            # conditions on the end points, which are variables in bc, were decided above
            kc = {}
            for c in leaves(bc, {w.p for w in code.values()}):
                u = t.subst(t.subst([c], back), known)[0]
                if u.op == "c": kc[c.id] = u
            bc = t.subst(bc, kc)
            pal = [cpal[nm][j] for j in perm]
            px = [spec.sel(i, pal) for i in spec.t_gradient_indices(bc)]
            J.prove(f"choice {tag}: the stored palette is the {'8' if nm == '7' else '6'}-step one", t.TRUE)
            fx = lambda i: []
        else:
            px = spec.t_gradient_block(b)
            fx = lambda i: facts + vfact(v[i])
        kinds = [(n_, L) for n_, L, S, O in (("6", L5, S5, S7), ("8", L7, S7, S5)) if smt.BVSolver().check(pc + [bnot(le(S, O))], 30000) == "unsat"]
        if not kinds and not J.prove(f"choice {tag}: one palette is the better one", t.FALSE, pc): J.timeout = 10
        for i in on:
            d = t.absdiff8(v[i], px[i])
            if not J.prove(f"choice {tag}: pixel {i} has the nearest palette entry", conj([le(d, t.absdiff8(v[i], p)) for p in pal]), fx(i)): J.timeout = 10
        if not kinds: continue
        if hit: kinds = [k for k in kinds if k[0] == ("8" if hit[0] == "7" else "6")] or kinds
        nm, L = kinds[0]
        for i in on:
            l = L[i] if hit else t.subst([L[i]], back)[0]
            J.prove(f"choice {tag}: pixel {i} is no worse than in the {nm}-step palette, the better one", le(sq(t.absdiff8(v[i], px[i]), W), l), fx(i))
    # at most two values are exact: the 8-step range reproduces its ends, and everything when it is narrow
    x = V("!x", 8); lo = V("!lo", 8, 0, 248)
    wide = le(C(7, 8), t.sub(X7, N7))
    J.prove("a range of 7 or more is kept", implies(wide, conj([t.eq(lo7, N7), t.eq(hi7, X7)])), facts)
    J.prove("a narrower range is widened to 7", implies(bnot(wide), conj([t.eq(hi7, t.add(lo7, C(7, 8))), le(lo7, C(248, 8)), le(lo7, N7), le(X7, hi7)])), facts)
    J.prove("a range of 7 has an entry for every value", t.eq(least(x, p8(lo, t.add(lo, C(7, 8)))), C(0, W)), [le(lo, x), le(x, t.add(lo, C(7, 8)))])

def two(J, place, mask, alg=0):
    """at most two values x and y, dealt out in a fixed way: reproduced exactly"""
    f, ch, off = PLACES[place]
    J.timeout = 100; J.solver = smt.BVSolver()
    x = J.var("x"); y = J.var("y")
    on = [i for i in range(16) if mask >> i & 1]
    which = {i: k % 2 for k, i in enumerate(on)}
    J.start(oracle_for(J, place, alg, lambda e: ([e["y"] if which.get(i) else e["x"] for i in range(16)], mask)))
    def run(x, y):
        vs = [y if which.get(i) else x for i in range(16)]
        R = J.prog.encode(f, [[vs[i] if c == ch else C(9 if f == 3 else 37 * i + 11 * c, 8) for c in range(4)] for i in range(16)], C(mask, 32), alg, 0, [FC(1.0)] * 3)
        px = spec.t_gradient_block(R.out[off:off + 8])
        return [(i, t.eq(px[i], vs[i])) for i in on]
    # apart by less than 7: a function of the smaller value; the other cases as they are
    for d in range(7):
        lo = V("x", 8, 0, 255 - d); hi = t.add(lo, C(d, 8))
        for n, (p, q) in (("y = x", (lo, hi)), ("x = y", (hi, lo))):
            if d == 0 and n == "x = y" or len(on) < 2 and d: continue
            for i, g in run(p, q): J.prove(f"{n} + {d}: pixel {i} is exact", g)
    if len(on) < 2: return
    for n, far in (("x < y", conj([t.ult(x, y), t.ule(C(7, 8), t.sub(y, x))])), ("y < x", conj([t.ult(y, x), t.ule(C(7, 8), t.sub(x, y))]))):
        for i, g in run(x, y): J.prove(f"{n}: pixel {i} is exact", g, [far])

RECT = [sum(1 << 4 * y + x for y in range(h) for x in range(w)) for w in range(1, 5) for h in range(1, 5)]
def jobs(tier):
    out = []
    if tier == "thorough": out += [(f"{p}, two values, mask {m:#x}", two, dict(place=p, mask=m), 3000) for p in PLACES for m in (0xffff, 0x8421)]
    for p in PLACES:
        ms = RECT + [0x8001, 0xa5a5, 0x7ffe, 0x0660] if p == "BC4 red" or tier == "thorough" else [0xffff, 0x9669]
        if tier == "thorough":
            import random
            r = random.Random(p); ms += [r.getrandbits(16) | 1 << r.randrange(16) for _ in range(24)]
        out += [(f"{p}, mask {m:#x}", job if bin(m).count("1") > 2 else two, dict(place=p, mask=m), 400) for m in sorted(set(ms), key=lambda m: -bin(m).count("1"))]
    return out
