"""Common pieces of C04, C05 and C14: whole images.
The block routine is executed in place for small images; for larger ones its calls are recorded and its
results are fresh variables that are equal whenever the arguments are equal (an uninterpreted function)."""
import re, random
import term as t
from term import C, V, FV, TRUE, FALSE, bnot, bor
from harness import BS, FNAME, ALG, conj
from symex import Event, Unsupported
from enc import UNIFORM, PERCEPTUAL

nb = lambda n: (n + 3) // 4

def params_of(sig):
    """(is pointer, dereferenceable bytes, is return slot) per parameter"""
    ps = sig[re.search(r'@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)\(', sig).end():]
    out = []; depth = 0; cur = ""
    for ch in ps:
        if ch == "(": depth += 1
        if ch == ")":
            if depth == 0: break
            depth -= 1
        if ch == "," and depth == 0: out.append(cur); cur = ""
        else: cur += ch
    out.append(cur)
    r = []
    for p in out:
        m = re.search(r"dereferenceable\((\d+)\)", p)
        r.append((p.strip().startswith("ptr"), int(m.group(1)) if m else None, "sret(" in p))
    return r

class NoCut(Exception): pass

class Cut:
    """records the calls of one function instead of executing it; slice: (index of the byte slice argument that is not
    dereferenceable, found by a probing call); ret: the function's result goes to that slice / to the sret slot"""
    def __init__(s, prog, word, prefix):
        c = [n for n in prog.m.funcs if word in n and "closure" not in n]
        if len(c) != 1: raise NoCut(word)
        s.name = c[0]; s.ps = params_of(prog.m.funcs[s.name].sig); s.calls = []; s.prefix = prefix; s.probe = None; s.nout = None
    def snap(s, ex, st, args):
        r = []
        for (isptr, n, sret), a in zip(s.ps, args):
            if isptr and (n or sret):
                if sret: r.append(None); continue
                if a.op != "c": raise Unsupported("symbolic pointer argument")
                o = ex.obj(st, a.p); off = a.p & 0xffffffff
                if o is None or off + n > o.size: raise Unsupported("argument outside its object")
                r.append([None if o.cells[off + i] is None else ex.load(st, C(a.p + i, 64), 1, False, 8) for i in range(n)])
            elif isptr: r.append(a)
            else: r.append(a)
        return r
    def fresh(s, n):
        k = len(s.calls)
        return [V(f"{s.prefix}{k}_{j}", 8) for j in range(n)]

class EncCut(Cut):
    """compress_block_masked: the result goes to the output slice"""
    def probe_run(s, J, f, px, mask, alg, wba, ws):
        """the arguments the block API passes for the given inputs"""
        got = []
        def h(ex, st, args):
            outs = [i for i, (isptr, n, sret) in enumerate(s.ps) if isptr and not n and not sret]
            if len(outs) != 1: raise NoCut("no unique output slice")
            s.outpos = outs[0]; got.append(s.snap(ex, st, args))
            if args[s.outpos + 1].op != "c" or args[s.outpos + 1].p != BS[f]: raise NoCut("no slice length after the output")
            return TRUE, st
        R = J.prog.encode(f, px, mask, alg, wba, ws, hooks={s.name: h})
        if len(got) != 1: raise NoCut("not called exactly once")
        g = got[0]; g[s.outpos] = g[s.outpos + 1] = None
        return g
    def hook(s, f):
        def h(ex, st, args):
            sn = s.snap(ex, st, args); p, n = args[s.outpos], args[s.outpos + 1]
            if p.op != "c" or n.op != "c": raise Unsupported("symbolic output slice")
            if n.p < BS[f]: ex.events.append(Event("panic", "block output slice too short", st.pc)); return None
            sn[s.outpos] = sn[s.outpos + 1] = None
            code = s.fresh(BS[f])
            s.calls.append((sn, code))
            for j, c in enumerate(code): ex.store(st, C(p.p + j, 64), c, 1)
            return TRUE, st
        return {s.name: h}

class DecCut(Cut):
    """decompress_block: the result goes to the return slot"""
    def hook(s, f):
        ret = [i for i, x in enumerate(s.ps) if x[2]]; sl = [i for i, x in enumerate(s.ps) if x[0] and not x[1] and not x[2]]
        if len(ret) != 1 or len(sl) != 1: raise NoCut("unexpected signature")
        def h(ex, st, args):
            p, n = args[sl[0]], args[sl[0] + 1]
            if p.op != "c" or n.op != "c": raise Unsupported("symbolic input slice")
            if n.p < BS[f]: ex.events.append(Event("panic", "block slice too short", st.pc)); return None
            sn = [[ex.load(st, C(p.p + j, 64), 1, False, 8) for j in range(BS[f])]] + [args[i] for i, x in enumerate(s.ps) if not x[0] and i != sl[0] + 1]
            px = s.fresh(64)
            s.calls.append((sn, px))
            for j, c in enumerate(px): ex.store(st, C(args[ret[0]].p + j, 64), c, 1)
            return TRUE, st
        return {s.name: h}

def same_args(a, b, enabled=None):
    """condition: two argument snapshots agree; enabled: only these pixels of the 64-byte block matter"""
    cs = []
    for x, y in zip(a, b):
        if x is None or y is None:
            if x is not y: cs.append(FALSE)
        elif isinstance(x, list):
            for i, (u, v) in enumerate(zip(x, y)):
                if enabled is not None and len(x) == 64 and not enabled >> (i // 4) & 1: continue
                if u is None or v is None: continue        # padding
                cs.append(t.eq(u, v))
        else: cs.append(t.eq(x, y) if x.w == y.w else FALSE)
    return conj(cs)

def compare(J, label, outs, want, calls, agree):
    """the bytes outs are the result of the block routine for the arguments of which agree(k) says that call k has them;
    want: fresh variables standing for that result"""
    if outs[0].op == "v":
        for k, (sn, code) in enumerate(calls):
            if code[0] is outs[0]:
                if all(x is y for x, y in zip(outs, code)): return J.prove(label, agree(k))
                break
    vs = set(t.variables(outs))
    lem = []
    for k, (sn, code) in enumerate(calls):
        if any(c.p in vs for c in code):
            a = agree(k)
            lem += [bor(bnot(a), t.eq(c, e)) for c, e in zip(code, want)]
    return J.prove(label, conj([t.eq(o, e) for o, e in zip(outs, want)]), lem)

def random_bytes(rng, n, kind):
    """n bytes of pixel data: noise, few values, or smooth"""
    if kind == 0: return bytes(rng.getrandbits(8) for _ in range(n))
    if kind == 1:
        p = [bytes(rng.getrandbits(8) for _ in range(4)) for _ in range(3)]
        return b"".join(rng.choice(p) for _ in range(n // 4 + 1))[:n]
    if kind == 2: return bytes((i // 4 * 7 + (i % 4) * 50) & 255 for i in range(n))
    return bytes([rng.choice((0, 255)) for _ in range(n)])
