"""Symbolic executor over the LLVM IR of the real code.

Control flow is merged at immediate post-dominators, so one run covers every path; panics and
memory faults are recorded as events together with their path condition."""
import sys, time, heapq
import ir
import term as t
from term import C, FCb, ite, band, bor, bnot, TRUE, FALSE

sys.setrecursionlimit(200000)

class Unsupported(Exception): pass
class Budget(Exception): pass

class Obj:
    __slots__ = ("size", "cells", "owner", "const", "name")
    def __init__(s, size, cells, owner, const=False, name=""):
        s.size = size; s.cells = cells; s.owner = owner; s.const = const; s.name = name

_tok = [0]
def tok():
    _tok[0] += 1; return _tok[0]

class State:
    __slots__ = ("mem", "pc", "facts", "iv", "tok", "oob")
    def __init__(s):
        s.mem = {}; s.pc = (); s.facts = {}; s.iv = {}; s.tok = tok()
    def fork(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.pc = s.pc; n.facts = dict(s.facts); n.iv = dict(s.iv)
        n.tok = tok(); s.tok = tok()
        return n

class Event:
    def __init__(s, kind, what, pc): s.kind = kind; s.what = what; s.pc = pc

def byte_of(cell):
    T, k = cell
    if T.fk: T = t.f2bits(T)
    return t.ext(T, 8 * k + 7, 8 * k)

def tz(x):
    """number of low bits known to be zero"""
    r = t._memo.get(("tz", x.id))
    if r is None: r = t._memo[("tz", x.id)] = _tz(x)
    return r

def _tz(x):
    if x.op == "c": return (x.p & -x.p).bit_length() - 1 if x.p else x.w
    if x.op == "cat":
        n = 0
        for y in reversed(x.a):
            k = tz(y); n += k
            if k < y.w: break
        return n
    if x.op in ("add", "sub", "or", "xor"): return min(tz(y) for y in x.a)
    if x.op == "mul": return min(x.w, sum(tz(y) for y in x.a))
    if x.op == "ite": return min(tz(x.a[1]), tz(x.a[2]))
    return 0

def as_tab(x, depth=8):
    """view x as a table over one small atom: (atom, values) or None"""
    if x.op == "tab": return x.a[0], x.p
    if x.op == "v" and x.w <= t.MAXTAB and not x.fk: return x, tuple(range(1 << x.w))
    if depth == 0 or not x.a or x.fk: return None
    if x.op == "ext" and x.w <= t.MAXTAB and x.a[0].op == "v": return x, tuple(range(1 << x.w))
    if x.op not in ("cat", "add", "sub", "mul", "udiv", "urem", "and", "or", "xor", "shl", "lshr", "not", "ext", "eq", "ult", "ite", "slt", "sext"): return None
    src = None; vs = []
    for y in x.a:
        if y.op == "c": vs.append(None); continue
        r = as_tab(y, depth - 1)
        if r is None: 
            if x.w <= t.MAXTAB and not x.fk: return None
            return None
        if src is None: src = r[0]
        elif src is not r[0]: return None
        vs.append(r[1])
    if src is None: return None
    n = 1 << src.w
    cols = [v if v is not None else (y.p,) * n for v, y in zip(vs, x.a)]
    ws = [y.w for y in x.a]
    if x.op == "cat":
        out = []
        for i in range(n):
            r = 0
            for c, w in zip(cols, ws): r = (r << w) | c[i]
            out.append(r)
    elif x.op == "ite":
        out = [cols[1][i] if cols[0][i] else cols[2][i] for i in range(n)]
    else:
        out = [t._ev(x.op, x.p, x.w, [c[i] for c in cols], ws) for i in range(n)]
    return src, tuple(out)

FLOATF = {"sqrtf": "fsqrt", "roundf": "fround", "truncf": "ftrunc", "floorf": "ffloor", "ceilf": "fceil", "rintf": "frint", "fabsf": "fabs",
          "fmaxf": "fmax", "fminf": "fmin", "copysignf": "fcopysign", "fmodf": "frem", "roundevenf": "frint"}
INTRF = {"fabs": "fabs", "sqrt": "fsqrt", "trunc": "ftrunc", "floor": "ffloor", "ceil": "fceil", "rint": "frint", "nearbyint": "frint", "roundeven": "frint",
         "round": "fround", "maximumnum": "fmax", "minimumnum": "fmin", "maxnum": "fmax", "minnum": "fmin", "copysign": "fcopysign"}

class Exec:
    def __init__(self, mod, feas=None, max_steps=30_000_000, deadline=None):
        self.m = mod; self.events = []; self.nobj = 1; self.gaddr = {}; self.gname = {}
        self.faddr = {}; self.steps = 0; self.funcs = set(); self.max_steps = max_steps
        self.feas = feas; self.deadline = deadline; self.hooks = {}; self.ctl_limit = 1 << 30
        self.alive_memo = {}; self.site_miss = {}; self.check_exits = True; self.alive_unknown = {}; self.unknown_flag = False; self.npre = 0
        self.nblocks = 0; self.loop_check = 17; self.watch = {}
        self.nforks = 0; self.nmerges = 0; self.havoc = 0; self.gconst = {}; self.shared = set(); self.newly_shared = set(); self.item_mem = {}

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, name="", cells=None, const=False):
        i = self.nobj; self.nobj += 1
        st.mem[i] = Obj(size, cells if cells is not None else [None] * size, st.tok, const, name)
        return i << 32

    def new_buffer(self, st, terms, name):
        """terms: list of byte terms"""
        return self.alloc(st, len(terms), name, [(x, 0) for x in terms])

    def obj(self, st, a):
        o = st.mem.get(a >> 32)
        if o is None: o = self.gconst.get(a >> 32)
        return o

    def global_addr(self, name):
        if name in self.gaddr: return self.gaddr[name]
        if name in self.m.funcs or name in self.m.decls:
            i = self.nobj; self.nobj += 1
            self.gaddr[name] = i << 32; self.faddr[i << 32] = name
            return i << 32
        const, ty, v = self.m.ginit(name)
        if ty is None or v is None: raise Unsupported("external global " + name)
        i = self.nobj; self.nobj += 1
        self.gaddr[name] = i << 32
        size = ir.sizeof(ty)
        o = Obj(size, [None] * size, -1, True, name)
        self.gconst[i] = o
        self._initcells(o.cells, 0, ty, v)
        if not const: raise Unsupported("mutable global " + name)
        return i << 32

    def statics(self, st, mode):
        """mutable globals: their initial contents, or arbitrary ones (any earlier calls)"""
        ms = []
        for name in self.m.mutable():
            i = self.nobj; self.nobj += 1
            self.gaddr[name] = i << 32; ms.append((name, i))
        for k, (name, i) in enumerate(ms):
            const, ty, v = self.m.ginit(name)
            size = ir.sizeof(ty); cells = [None] * size
            if mode == "any": cells = [(t.V(f"$static{k}_{j}", 8), 0) for j in range(size)]
            else:
                try: self._initcells(cells, 0, ty, v)
                except (Unsupported, TypeError): continue        # an access to it is out of bounds
            st.mem[i] = Obj(size, cells, st.tok, False, "static " + name)

    # items of a parallel iterator: memory that several of them share may have been changed by the others
    def item_start(self, st):
        self.item_mem = {k: list(o.cells) for k, o in st.mem.items() if o.name not in ("out", "rgba", "data")}
        for k in self.shared:
            o = st.mem.get(k)
            if o is None: continue
            n = self.nhavoc = getattr(self, "nhavoc", 0) + 1
            st.mem[k] = Obj(o.size, [c and (t.V(f"$race{n}_{j}", 8), 0) for j, c in enumerate(o.cells)], st.tok, False, o.name)

    def item_end(self, st):
        for k, c in self.item_mem.items():
            o = st.mem.get(k)
            if o is not None and any(x is not y and (x is None or y is None or x[0] is not y[0] or x[1] != y[1]) for x, y in zip(o.cells, c)):
                self.newly_shared.add(k)

    def _initcells(self, cells, off, ty, v):
        p = v[2]; n = ir.sizeof(ty)
        if p == "zero" or p == "undef":
            z = C(0, 8)
            for i in range(n): cells[off + i] = (z, 0)
            return
        if isinstance(p, bytes):
            for i, b in enumerate(p): cells[off + i] = (C(b, 8), 0)
            return
        if isinstance(p, list):
            if ty[0] in ("a", "vec"):
                k = ir.sizeof(ty[2])
                for i, e in enumerate(p): self._initcells(cells, off + i * k, ty[2], e)
            else:
                for i, e in enumerate(p): self._initcells(cells, off + ir.field_off(ty, i), ty[1][i], e)
            return
        T = self.const(ty, p)
        for i in range(n): cells[off + i] = (T, i)

    def const(self, ty, p):
        k = ty[0]
        if k == "p":
            if isinstance(p, tuple): return C(self.global_addr(p[1]) + p[2], 64)
            if p in ("undef", "zero"): return C(0, 64)
            return C(p, 64)
        if k == "i":
            if p in ("undef", "zero"): p = 0
            if isinstance(p, tuple): return C(self.global_addr(p[1]) + p[2], ty[1])
            return C(p, ty[1])
        if k == "f":
            if p in ("undef", "zero"): p = 0
            if ty[1] != 32: return C(p, ty[1])     # other float widths are opaque bit patterns
            return FCb(p)
        if k in ("s",):
            if p in ("undef", "zero"): return tuple(self.const(f, p) for f in ty[1])
            return tuple(self.const(f, v[2]) for f, v in zip(ty[1], p))
        if k in ("a", "vec"):
            if p in ("undef", "zero"): return tuple(self.const(ty[2], p) for _ in range(ty[1]))
            if isinstance(p, bytes): return tuple(C(b, 8) for b in p)
            return tuple(self.const(ty[2], v[2]) for v in p)
        raise Unsupported(f"const {ty}")

    def rd(self, o, off, n, fk):
        cells = o.cells
        c = cells[off]
        if c is not None and c[1] == 0 and (c[0].w + 7) // 8 == n:
            T = c[0]; ok = True
            for j in range(1, n):
                d = cells[off + j]
                if d is None or d[0] is not T or d[1] != j: ok = False; break
            if ok:
                if T.fk and not fk: return t.f2bits(T)
                if fk and not T.fk: return t.bits2f(T)
                return T
        bs = []; j = 0
        while j < n:
            d = cells[off + j]
            if d is None: bs.append(C(0, 8)); j += 1; continue
            T, b0 = d; k = 1          # consecutive bytes of one stored value
            while j + k < n and cells[off + j + k] is not None and cells[off + j + k][0] is T and cells[off + j + k][1] == b0 + k: k += 1
            if T.fk: T = t.f2bits(T)
            bs.append(t.ext(T, 8 * (b0 + k) - 1, 8 * b0)); j += k
        bs.reverse()
        r = t.cat(bs)
        return t.bits2f(r) if fk else r

    def wr(self, st, oid, off, T, n):
        o = st.mem[oid]
        if o.owner != st.tok:
            o = Obj(o.size, list(o.cells), st.tok, o.const, o.name); st.mem[oid] = o
        if T.w != 8 * n: T = t.zext(T, 8 * n)
        for j in range(n): o.cells[off + j] = (T, j)

    def fault(self, st, what, cond=None):
        pc = st.pc if cond is None else st.pc + (cond,)
        if cond is FALSE or conj(pc) is FALSE: return
        self.events.append(Event("fault", what, pc))

    def targets(self, st, addr, n, write):
        """list of (guard-or-None, objid, off).  guard None for the unique constant target"""
        if addr.op == "c":
            oid = addr.p >> 32; off = addr.p & 0xffffffff
            o = self.obj(st, addr.p)
            if o is None or off + n > o.size or (write and o.const):
                return []
            return [(None, oid, off)]
        # enumerate possible values
        x = addr; k = 0
        vals = None
        if addr.m and addr.sz <= t.MAPLIM:
            vals = sorted(leaf_values(addr))
        else:
            r = as_tab(addr)
            if r is not None: vals = sorted(set(r[1][r[0].lo:r[0].hi + 1]))
        if vals is None:
            lo, hi = addr.lo, addr.hi
            ivr = st.iv.get(addr.id)
            if ivr: lo, hi = max(lo, ivr[0]), min(hi, ivr[1])
            if addr.op == "add" and addr.a[1].op == "c":
                y = addr.a[0]; step = 1 << min(tz(y), 16); base = addr.a[1].p
                ylo, yhi = self.ivof(st, y)
                if (yhi - ylo) // step > 4096: return None
                M = (1 << 64) - 1
                vals = [(base + v) & M for v in range(ylo, yhi + 1, step)]
            else:
                step = 1 << min(tz(addr), 16)
                if (hi - lo) // step > 4096: return None
                vals = list(range(lo, hi + 1, step))
        out = []
        for v in vals:
            o = self.obj(st, v); off = v & 0xffffffff
            g = t.eq(addr, C(v, 64))
            if g is FALSE: continue
            if o is None or off + n > o.size or (write and o.const): 
                out.append((g, None, v)); continue
            out.append((g, v >> 32, off))
        return out

    def ivof(self, st, y):
        lo, hi = y.lo, y.hi
        r = st.iv.get(y.id)
        if r: lo, hi = max(lo, r[0]), min(hi, r[1])
        if y.op == "cat" and y.a[-1].op == "c" and y.a[-1].p == 0 and len(y.a) >= 2:
            core = t.cat(list(y.a[:-1])); k = y.a[-1].w
            # look for refinements on the shifted core or any zero-extension of it
            z = core.a[-1] if core.op == "cat" and all(c.op == "c" and c.p == 0 for c in core.a[:-1]) else core
            r = st.iv.get(z.id)
            if r: lo, hi = max(lo, r[0] << k), min(hi, r[1] << k)
        elif y.op == "cat" and all(c.op == "c" and c.p == 0 for c in y.a[:-1]):
            r = st.iv.get(y.a[-1].id)
            if r: lo, hi = max(lo, r[0]), min(hi, r[1])
        return lo, hi

    def load(self, st, addr, n, fk, w):
        if addr.op == "c":
            o = self.obj(st, addr.p); off = addr.p & 0xffffffff
            if o is None or off + n > o.size:
                self.fault(st, f"read of {n} bytes out of bounds"); return None
            r = self.rd(o, off, n, fk)
            return r if r.w == w else t.trunc(r, w)
        # constant table indexed by one small atom
        r = as_tab(addr)
        if r is not None:
            src, vals = r
            out = []; bad = []
            for v in vals:
                o = self.obj(st, v); off = v & 0xffffffff
                if o is None or off + n > o.size: out.append(None); bad.append(True); continue
                bad.append(False)
                out.append(self.rd(o, off, n, fk))
            if any(bad[src.lo:src.hi + 1]): self.fault(st, "read out of bounds", t.tabn(src, tuple(int(b) for b in bad), 1))
            if all(x is None or x.op in ("c", "fc") for x in out):
                r = t.tabn_any(src, tuple(0 if x is None else x.p for x in out), 8 * n, fk)
                return r if r.w == w else t.trunc(r, w)
        elif addr.m and addr.sz <= t.MAPLIM and all_const_leaves(addr):
            memo = {}
            badv = set()
            def leaf(v):
                o = self.obj(st, v); off = v & 0xffffffff
                if o is None or off + n > o.size: badv.add(v); return None
                return self.rd(o, off, n, fk)
            def go(x):
                if x.id in memo: return memo[x.id]
                if x.op == "c": r = leaf(x.p)
                else:
                    a, b = go(x.a[1]), go(x.a[2])
                    r = b if a is None else a if b is None else ite(x.a[0], a, b)
                memo[x.id] = r
                return r
            r = go(addr)
            for v in badv: self.fault(st, "read out of bounds", t.eq(addr, C(v, 64)))
            if r is None: return None
            return r if r.w == w else t.trunc(r, w)
        ts = self.targets(st, addr, n, False)
        if ts is None: raise Unsupported("unbounded symbolic read address " + t.show(addr, 5))
        acc = None
        for g, oid, off in ts:
            if oid is None: self.fault(st, "read out of bounds", g); continue
            v = self.rd(self.obj(st, oid << 32), off, n, fk)
            acc = v if acc is None else ite(g, v, acc)
        if acc is None: return None
        return acc if acc.w == w else t.trunc(acc, w)

    def store(self, st, addr, T, n):
        if addr.op == "c":
            oid = addr.p >> 32; off = addr.p & 0xffffffff
            o = st.mem.get(oid)
            if o is None or off + n > o.size or o.const:
                self.fault(st, f"write of {n} bytes out of bounds"); return False
            self.wr(st, oid, off, T, n); return True
        ts = self.targets(st, addr, n, True)
        if ts is None: raise Unsupported("unbounded symbolic write address " + t.show(addr, 5))
        if T.w != 8 * n: T = t.zext(T, 8 * n)
        any_ = False
        for g, oid, off in ts:
            if oid is None: self.fault(st, "write out of bounds", g); continue
            any_ = True
            o = st.mem[oid]
            old = self.rd(o, off, n, T.fk) if any(c is not None for c in o.cells[off:off + n]) else T
            self.wr(st, oid, off, ite(g, T, old), n)
        return any_

    def ld_ty(self, st, addr, ty):
        k = ty[0]
        if k in ("s",):
            return tuple(self.ld_ty(st, t.add(addr, C(ir.field_off(ty, i), 64)), f) for i, f in enumerate(ty[1]))
        if k in ("a", "vec"):
            s = ir.sizeof(ty[2])
            return tuple(self.ld_ty(st, t.add(addr, C(i * s, 64)), ty[2]) for i in range(ty[1]))
        n = ir.sizeof(ty); w = 64 if k == "p" else ty[1]
        return self.load(st, addr, n, k == "f" and ty[1] == 32, w)

    def st_ty(self, st, addr, ty, v):
        k = ty[0]
        if k == "s":
            return all([self.st_ty(st, t.add(addr, C(ir.field_off(ty, i), 64)), f, v[i]) for i, f in enumerate(ty[1])])
        if k in ("a", "vec"):
            s = ir.sizeof(ty[2])
            return all([self.st_ty(st, t.add(addr, C(i * s, 64)), ty[2], v[i]) for i in range(ty[1])])
        return self.store(st, addr, v, ir.sizeof(ty))

    def memcpy(self, st, d, s, n):
        if n == 0: return True
        if d.op == "c" and s.op == "c":
            so = self.obj(st, s.p); soff = s.p & 0xffffffff
            do = st.mem.get(d.p >> 32); doff = d.p & 0xffffffff
            if so is None or soff + n > so.size or do is None or doff + n > do.size or do.const:
                self.fault(st, "memcpy out of bounds"); return False
            cs = so.cells[soff:soff + n]
            if do.owner != st.tok:
                do = Obj(do.size, list(do.cells), st.tok, do.const, do.name); st.mem[d.p >> 32] = do
            do.cells[doff:doff + n] = cs
            return True
        i = 0; vals = []
        while i < n:
            k = 8 if n - i >= 8 else 4 if n - i >= 4 else 1
            # keep 4-byte lanes (floats, pixels) intact
            if k == 8: k = 4
            v = self.load_any(st, t.add(s, C(i, 64)), k)
            if v is None: return False
            vals.append((i, k, v)); i += k
        ok = True
        for i, k, v in vals: ok = self.store(st, t.add(d, C(i, 64)), v, k) and ok
        return ok

    def load_any(self, st, addr, k):
        """load that prefers a float view when the underlying cells are floats"""
        fk = False
        if k == 4:
            ts = self.targets(st, addr, k, False)
            if ts:
                fl = 0; tot = 0
                for g, oid, off in ts:
                    if oid is None: continue
                    tot += 1
                    c = self.obj(st, oid << 32).cells[off]
                    if c is None or (c[0].fk and c[1] == 0): fl += 1
                fk = tot > 0 and fl == tot
        return self.load(st, addr, k, fk, 8 * k)

    # ---------------------------------------------------------------- facts
    def assume(self, st, c, pc=True):
        if c.op == "c":
            return bool(c.p)
        if pc: st.pc = st.pc + (c,)
        self.learn(st, c, True)
        return True

    def axiom(self, st, c):
        """a precondition of the whole run"""
        self.assume(st, c)
        if c.op == "not" and c.a[0].op == "and":
            for x in c.a[0].a:
                self.watch.setdefault(x.id, []).append(c.a[0].a)

    def learn(self, st, c, val):
        if c.op == "not": return self.learn(st, c.a[0], not val)
        if c.id in st.facts: return
        st.facts[c.id] = val
        if val and c.id in self.watch:
            for cl in self.watch[c.id]:      # clause: not all of cl
                un = None; n = 0
                for x in cl:
                    v = st.facts.get(x.id)
                    if v is True: continue
                    if v is False: n = 2; break
                    un = x; n += 1
                    if n > 1: break
                if n == 1: self.learn(st, un, False)
        if c.op == "and" and c.w == 1:
            if val:
                for x in c.a: self.learn(st, x, True)
            else:
                un = None; n = 0
                for x in c.a:
                    y = self.simp(st, x)
                    if y is FALSE: return
                    if y is TRUE: continue
                    un = y; n += 1
                    if n > 1: return
                if n == 1: self.learn(st, un, False)
        elif c.op in ("ult", "eq"):
            a, b = c.a
            al, ah = self.ivof(st, a); bl, bh = self.ivof(st, b)
            if c.op == "ult":
                if val:
                    if bh: self.refine(st, a, al, min(ah, bh - 1))
                    self.refine(st, b, max(bl, al + 1), bh)
                else:   # a >= b
                    self.refine(st, a, max(al, bl), ah)
                    self.refine(st, b, bl, min(bh, ah))
            elif val:
                self.refine(st, a, max(al, bl), min(ah, bh)); self.refine(st, b, max(al, bl), min(ah, bh))
            else:
                for x, (xl, xh), (yl, yh) in ((a, (al, ah), (bl, bh)), (b, (bl, bh), (al, ah))):
                    if yl == yh:
                        if xl == yl: self.refine(st, x, xl + 1, xh)
                        elif xh == yl: self.refine(st, x, xl, xh - 1)

    def refine(self, st, x, lo, hi):
        if x.op == "c": return
        if x.lo >= lo and x.hi <= hi: return
        st.iv[x.id] = (lo, hi)
        if x.op == "cat" and all(c.op == "c" and c.p == 0 for c in x.a[:-1]): st.iv[x.a[-1].id] = (lo, hi)

    def simp(self, st, c, memo=None):
        if c.op == "c": return c
        v = st.facts.get(c.id)
        if v is not None: return TRUE if v else FALSE
        op = c.op
        if op == "not" or op == "and" and c.w == 1:
            if memo is None: memo = {}
            elif c.id in memo: return memo[c.id]
            if op == "not":
                y = self.simp(st, c.a[0], memo)
                r = c if y is c.a[0] else bnot(y)
            else:
                ch = False; out = []; r = None
                for x in c.a:
                    y = self.simp(st, x, memo)
                    if y is FALSE: r = y; break
                    if y is not x: ch = True
                    if y is not TRUE: out.append(y)
                if r is None: r = c if not ch else t._andset(out) if out else TRUE
            memo[c.id] = r
            return r
        if op in ("ult", "eq") and st.iv:
            a, b = c.a
            al, ah = self.ivof(st, a); bl, bh = self.ivof(st, b)
            if op == "ult":
                if ah < bl: return TRUE
                if al >= bh: return FALSE
            elif ah < bl or bh < al: return FALSE
            elif al == ah == bl == bh: return TRUE
        return c

    # ---------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b or b is None: return a
        if a is None: return b
        if isinstance(a, tuple): return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        return ite(c, a, b)

    def merge(self, s1, s2):
        """join two states with mutually exclusive path conditions; returns (selector, state)"""
        p1, p2 = s1.pc, s2.pc
        k = 0; n = min(len(p1), len(p2))
        while k < n and p1[k] is p2[k]: k += 1
        x1, x2 = p1[k:], p2[k:]
        if not x1 and not x2: raise Unsupported("merge of identical paths")
        # path conditions are mutually exclusive, so the extension of a full path is infeasible
        if not x1: return TRUE, s1
        if not x2: return FALSE, s2
        if x1[0] is bnot(x2[0]): c = x1[0]
        elif x2[0].op == "c" or len(x1) <= len(x2): c = conj(x1)
        else: c = bnot(conj(x2))
        a, b_ = conj(x1), conj(x2)
        g = bor(a, b_)
        s = self.merge_mem(c, s1, s2)
        s.pc = p1[:k]
        f2 = s2.facts; i2 = s2.iv
        s.facts = {q: v for q, v in s1.facts.items() if f2.get(q) is v}
        s.iv = {}
        for q, v in s1.iv.items():
            w = i2.get(q)
            if w is not None: s.iv[q] = (min(v[0], w[0]), max(v[1], w[1]))
        if g is not TRUE: self.assume(s, g)
        return c, s

    def merge_mem(self, c, s1, s2):
        s = State.__new__(State)
        s.tok = tok(); s.mem = {}
        m1, m2 = s1.mem, s2.mem
        for kk, o1 in m1.items():
            o2 = m2.get(kk)
            if o2 is None or o1 is o2: s.mem[kk] = o1; continue
            if o1.cells is o2.cells or o1.cells == o2.cells: s.mem[kk] = o1; continue
            n = o1.size; l1, l2 = o1.cells, o2.cells; out = [None] * n; i = 0
            while i < n:
                x, y = l1[i], l2[i]
                if x is y or x is not None and y is not None and x[0] is y[0] and x[1] == y[1]:
                    out[i] = x; i += 1; continue
                if x is None: out[i] = y; i += 1; continue
                if y is None: out[i] = x; i += 1; continue
                k1, k2 = x[0].w // 8, y[0].w // 8
                if x[1] == 0 and y[1] == 0 and k1 == k2 and i + k1 <= n and all(l1[i+j] is not None and l1[i+j][0] is x[0] and l1[i+j][1] == j and l2[i+j] is not None and l2[i+j][0] is y[0] and l2[i+j][1] == j for j in range(1, k1)):
                    a, b = x[0], y[0]
                    if a.fk != b.fk:
                        a = t.f2bits(a) if a.fk else a; b = t.f2bits(b) if b.fk else b
                    T = ite(c, a, b)
                    for j in range(k1): out[i + j] = (T, j)
                    i += k1; continue
                k = self.whole(l1, i, n), self.whole(l2, i, n)
                k = [v for v in k if v > 1]
                if k and all(l1[j] is not None and l2[j] is not None for j in range(i, i + min(k))):
                    # one side holds a whole word here: keep it whole
                    k = min(k)
                    fk = l1[i][0].fk and l1[i][1] == 0 or l2[i][0].fk and l2[i][1] == 0
                    T = ite(c, self.rd(o1, i, k, fk), self.rd(o2, i, k, fk))
                    for j in range(k): out[i + j] = (T, j)
                    i += k; continue
                T = ite(c, byte_of(x), byte_of(y))
                out[i] = (T, 0); i += 1
            s.mem[kk] = Obj(n, out, s.tok, o1.const, o1.name)
        for k, o2 in m2.items():
            if k not in m1: s.mem[k] = o2
        return s

    @staticmethod
    def whole(l, i, n):
        """size of the word stored whole at i, or 0"""
        if l[i] is None or l[i][1] != 0: return 0
        T = l[i][0]; k = T.w // 8
        if i + k > n or k > 4 or any(l[i + j] is None or l[i + j][0] is not T or l[i + j][1] != j for j in range(1, k)): return 0
        return k

    # ---------------------------------------------------------------- functions
    def call(self, name, args, st):
        """returns (ret, state) or None if no path returns"""
        f = self.m.funcs[name].load()
        if f.noreturn:
            self.events.append(Event("panic", name, st.pc)); return None
        if self.feas is not None and self.check_exits and st.pc and self.heavy(f) and not self.alive(st, name): return None
        self.funcs.add(name)
        env = {}
        for (ty, pn), a in zip(f.params, args): env[pn] = a
        r = self.run(f, env, st)
        if r is None: return None
        env, st = r
        return env.get("$ret"), st

    def heavy(self, f):
        h = getattr(f, "heavy_", None)
        if h is None: h = f.heavy_ = any(f.loops[b] for b in f.blocks)
        return h

    def alive(self, st, name):
        """is the path condition satisfiable (asked before expensive calls)?"""
        if len(st.pc) <= self.npre or self.alive_unknown.get(name, 0) >= 3: return True
        k = tuple(x.id for x in st.pc)
        r = self.alive_memo.get(k)
        if r is None:
            r = self.feas(st.pc, TRUE)
            if self.unknown_flag: self.alive_unknown[name] = self.alive_unknown.get(name, 0) + 1; self.unknown_flag = False
            self.alive_memo[k] = r
        return r

    def val(self, env, ty, v):
        if v[0] == "r":
            return env[v[1]]
        return self.const(v[1], v[2])

    def enter(self, f, blk, prev, env):
        """evaluate the phis of blk for predecessor prev (in place)"""
        b = f.blocks[blk]
        if b.phis:
            vals = [self.val(env, ph.ty, ph.extra[prev]) for ph in b.phis]
            for ph, v in zip(b.phis, vals): env[ph.res] = v

    def run(self, f, env, st):
        """execute f from its entry; states meeting at a block in the same loop iteration are merged"""
        pend = {}          # key -> (block, env, state, iters)
        seen = {}          # loop iteration -> the values of the loop-controlling registers it was reached with
        heap = []
        key0 = self.key(f, f.entry, {})
        pend[key0] = (f.entry, env, st, {}); heapq.heappush(heap, key0)
        while heap:
            key = heapq.heappop(heap)
            blk, env, st, iters = pend.pop(key)
            if blk == "$exit":
                return env, st
            b = f.blocks[blk]
            self.nblocks += 1
            out = self.block(f, b, env, st, iters)
            for nb, env2, st2 in out:
                it2 = self.next_iters(f, blk, nb, iters)
                self.enter(f, nb, blk, env2)
                k2 = self.key(f, nb, it2)
                if f.loops[nb] and f.ctl:
                    k3 = k2 + self.ctlkey(f, nb, env2)
                    n = seen.setdefault(k2, set())
                    if k3 in n or len(n) < self.ctl_limit: n.add(k3); k2 = k3
                cur = pend.get(k2)
                if cur is None:
                    pend[k2] = (nb, env2, st2, it2); heapq.heappush(heap, k2)
                else:
                    pend[k2] = (nb,) + self.join(f, nb, cur[1], cur[2], env2, st2) + (it2,)
            if self.steps > self.max_steps: raise Budget("step budget")
            if self.deadline and time.time() > self.deadline: raise Budget("time budget in symbolic execution")
        return None

    def ctlkey(self, f, blk, env):
        b = f.blocks[blk]
        cl = f.ctlive.get(blk)
        if cl is None:
            cl = f.ctlive[blk] = sorted((b.live | {ph.res for ph in b.phis}) & f.ctl)
        out = []
        for r in cl:
            v = env.get(r)
            out.append(v.p if v is not None and not isinstance(v, tuple) and v.op == "c" else -1)
        return tuple(out)

    def key(self, f, blk, iters):
        k = []
        for h in f.loops[blk]:
            k.append(f.rpo[h]); k.append(iters.get(h, 0))
        k.append(f.rpo[blk])
        return tuple(k)

    def next_iters(self, f, src, dst, iters):
        ls = f.loops[dst]
        if not ls: return {}
        it = {}
        inl = f.loops[src]
        for h in ls:
            if h in inl:
                it[h] = iters.get(h, 0) + (1 if dst == h else 0)
            else: it[h] = 0
        return it

    def join(self, f, blk, e1, s1, e2, s2):
        self.nmerges += 1
        c, s = self.merge(s1, s2)
        if c is TRUE: return e1, s1
        if c is FALSE: return e2, s2
        keys = f.blocks[blk].live | {ph.res for ph in f.blocks[blk].phis}
        if blk == "$exit": keys = {"$ret"}
        ne = {}
        for k in keys:
            a, b = e1.get(k), e2.get(k)
            if a is None and b is None: continue
            ne[k] = a if a is b else self.hull(a, b) if self.ctl_limit == 1 and k in f.ctl and a is not None and b is not None and not isinstance(a, tuple) and not a.fk and a is not b and not any(h in f.loops[blk] for h in f.governs[k]) and any(f.rpo[h] > f.rpo[blk] for h in f.governs[k]) and small(a, b) else self.merge_val(c, a, b)
        return ne, s

    def hull(self, a, b):
        """a loop-controlling register whose value depends on the path: any value in the range of both
        (an over-approximation; used where the number of paths does not allow to keep them apart)"""
        return t.V(f"$ctl{tok()}", a.w, min(a.lo, b.lo), max(a.hi, b.hi))

    def block(self, f, b, env, st, iters=None):
        """execute one block; returns the list of (successor, env, state)"""
        for i in b.insts:
            self.steps += 1
            op = i.op
            if op == "jmp": return [(i.extra[0], env, st)]
            if op == "br" or op == "switch": return self.branch(f, b, i, env, st, iters)
            if op == "ret":
                if i.x is not None: env["$ret"] = self.val(env, i.ty, i.x)
                return [("$exit", env, st)]
            if op == "unreachable": return []
            h = getattr(self, "i_" + op, None)
            if h is None: raise Unsupported("instruction " + i.line)
            r = h(i, env, st)
            if op == "call" or op == "invoke":
                if r is None: return []
                v, st = r
                if i.res is not None: env[i.res] = v
                if op == "invoke": return [(i.y, env, st)]
            elif op == "store" or op == "fence":
                if not r: return []
            else:
                if r is None: return []
                env[i.res] = r
        raise Unsupported("block without terminator")

    def branch(self, f, b, i, env, st, it=None):
        if i.op == "br":
            c = self.simp(st, self.val(env, i.ty, i.x))
            if c.op == "c": return [(i.extra[0] if c.p else i.extra[1], env, st)]
            if i.extra[0] == i.extra[1]: return [(i.extra[0], env, st)]
            arms = [(c, i.extra[0]), (bnot(c), i.extra[1])]
        else:
            x = self.val(env, i.ty, i.x)
            d, cs = i.extra
            if x.op == "c":
                for v, bl in cs:
                    if (v & ((1 << x.w) - 1)) == x.p: return [(bl, env, st)]
                return [(d, env, st)]
            rest = TRUE; by = {}
            for v, bl in cs:
                g = self.simp(st, t.eq(x, C(v, x.w)))
                if g is FALSE: continue
                by[bl] = bor(by.get(bl, FALSE), g); rest = band(rest, bnot(g))
            if rest is not FALSE and self.dead_end(f, d): rest = FALSE   # exhaustive match
            if rest is not FALSE: by[d] = bor(by.get(d, FALSE), rest)
            arms = [(g, bl) for bl, g in by.items()]
            if len(arms) == 1: return [(arms[0][1], env, st)]
        self.nforks += 1
        out = []
        live = [(g, bl) for g, bl in arms if not (g.op == "c" and not g.p)]
        if self.feas is not None and len(live) > 1 and it:
            deep = max(it.values()) >= self.loop_check and self.site_miss.get((f.name, b.name), 0) < 60
            site = (f.name, b.name)
            if deep or (self.check_exits and self.site_miss.get(site, 0) < 24 and any(len(f.loops[bl]) < len(f.loops[b.name]) for _, bl in live)):
                keep = []
                for g, bl in live:
                    k = self.feas(st.pc, g)
                    if self.unknown_flag: self.site_miss[site] = self.site_miss.get(site, 0) + 12 * (not deep); self.unknown_flag = False
                    if k: keep.append((g, bl))
                if len(keep) == len(live): self.site_miss[site] = self.site_miss.get(site, 0) + 1
                if not keep: return []
                live = keep
        for n, (g, bl) in enumerate(live):
            s = st.fork() if n < len(live) - 1 else st
            if n == len(live) - 1: s.tok = tok()
            # all other arms panic: that is recorded as an event, the survivor's path condition stays as it is
            self.assume(s, g, pc=not all(self.panics(f, o) for _, o in live if o != bl))
            out.append((bl, dict(env) if n < len(live) - 1 else env, s))
        return out

    def panics(self, f, bl):
        b = f.blocks[bl]
        r = f.panics_.get(bl) if hasattr(f, "panics_") else None
        if r is None:
            if not hasattr(f, "panics_"): f.panics_ = {}
            n = 0
            c = b
            while c.insts and c.insts[-1].op == "jmp" and n < 4: c = f.blocks[c.insts[-1].extra[0]]; n += 1
            r = f.panics_[bl] = bool(c.insts) and c.insts[-1].op == "unreachable" and not f.loops[bl]
        return r

    def dead_end(self, f, bl):
        b = f.blocks[bl]
        return len(b.insts) == 1 and b.insts[0].op == "unreachable"

    # ---------------------------------------------------------------- instructions
    def _vec(self, ty): return ty[0] == "vec"

    def bin(self, op, x, y):
        if isinstance(x, tuple): return tuple(self.bin(op, a, b) for a, b in zip(x, y))
        if op == "add": return t.add(x, y)
        if op == "sub": return t.sub(x, y)
        if op == "mul": return t.mul(x, y)
        if op == "and": return band(x, y)
        if op == "or": return bor(x, y)
        if op == "xor": return t.bxor(x, y)
        if op == "shl": return t.shl(x, y)
        if op == "lshr": return t.lshr(x, y)
        if op == "ashr": return t.ashr(x, y)
        if op in ("udiv", "urem", "sdiv", "srem"): return t.div(op, x, y)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            if not x.fk: return self.opaque(x.w)
            return t.fop(op, x, y)
        raise Unsupported(op)

    def opaque(self, w):
        """result of an operation outside the modelled subset: an arbitrary value"""
        self.havoc += 1
        return t.V(f"$h{self.havoc}", w)

    def _bin(self, i, env, st):
        return self.bin(i.op, self.val(env, i.ty, i.x), self.val(env, i.ty, i.y))
    i_add = i_sub = i_mul = i_udiv = i_sdiv = i_urem = i_srem = i_shl = i_lshr = i_ashr = i_and = i_or = i_xor = _bin
    i_fadd = i_fsub = i_fmul = i_fdiv = i_frem = _bin

    def icmp(self, p, x, y):
        if isinstance(x, tuple): return tuple(self.icmp(p, a, b) for a, b in zip(x, y))
        if p == "eq": return t.eq(x, y)
        if p == "ne": return bnot(t.eq(x, y))
        if p == "ult": return t.ult(x, y)
        if p == "ugt": return t.ult(y, x)
        if p == "ule": return bnot(t.ult(y, x))
        if p == "uge": return bnot(t.ult(x, y))
        if p == "slt": return t.slt(x, y)
        if p == "sgt": return t.slt(y, x)
        if p == "sle": return bnot(t.slt(y, x))
        if p == "sge": return bnot(t.slt(x, y))
        raise Unsupported(p)

    def i_icmp(self, i, env, st):
        r = self.icmp(i.extra, self.val(env, i.ty, i.x), self.val(env, i.ty, i.y))
        return self.simp(st, r) if not isinstance(r, tuple) else r

    def i_fcmp(self, i, env, st):
        x, y = self.val(env, i.ty, i.x), self.val(env, i.ty, i.y)
        if isinstance(x, tuple): return tuple(t.fcmp(i.extra, a, b) for a, b in zip(x, y))
        if not x.fk: return self.opaque(1)
        return self.simp(st, t.fcmp(i.extra, x, y))

    def cast(self, op, x, frm, to):
        if isinstance(x, tuple) and to[0] == "vec": return tuple(self.cast(op, a, frm[2], to[2]) for a in x)
        w = 64 if to[0] == "p" else to[1] if to[0] in "if" else None
        if op in ("ptrtoint", "inttoptr", "ptrtoaddr"):
            return x if x.w == w else t.trunc(x, w) if x.w > w else t.zext(x, w)
        if op == "trunc": return t.trunc(x, w)
        if op == "zext": return t.zext(x, w)
        if op == "sext": return t.sext(x, w)
        if op in ("uitofp", "sitofp"):
            if to[1] != 32: return self.opaque(to[1])
            return t.i2f("u2f" if op == "uitofp" else "s2f", x)
        if op in ("fptosi", "fptoui"):
            if not x.fk: return self.opaque(w)
            return t.f2i("f2s" if op == "fptosi" else "f2u", x, w)
        if op == "bitcast":
            if to[0] == "f" and to[1] == 32: return x if x.fk else t.bits2f(x)
            if to[0] == "i": return t.f2bits(x) if x.fk else x
            return x
        if op in ("fpext", "fptrunc"):
            if to[1] == 32:
                self.havoc += 1
                return t.FV(f"$h{self.havoc}", -t.INF, t.INF, True)
            return self.opaque(to[1])
        raise Unsupported(op)

    def _cast(self, i, env, st):
        return self.cast(i.op, self.val(env, i.extra, i.x), i.extra, i.ty)
    i_trunc = i_zext = i_sext = i_uitofp = i_sitofp = i_fptosi = i_fptoui = i_ptrtoint = i_inttoptr = i_ptrtoaddr = i_bitcast = i_fpext = i_fptrunc = _cast

    def i_freeze(self, i, env, st): return self.val(env, i.ty, i.x)
    def i_fneg(self, i, env, st):
        x = self.val(env, i.ty, i.x)
        return t.fop("fneg", x) if x.fk else self.opaque(x.w)

    def i_load(self, i, env, st):
        return self.ld_ty(st, self.val(env, ("p",), i.x), i.ty)

    def i_store(self, i, env, st):
        return self.st_ty(st, self.val(env, ("p",), i.y), i.ty, self.val(env, i.ty, i.x))

    # atomic operations: the executions considered are sequential
    def i_fence(self, i, env, st): return True

    def i_atomicrmw(self, i, env, st):
        a = self.val(env, ("p",), i.y); x = self.val(env, i.ty, i.x)
        v = self.ld_ty(st, a, i.ty)
        if v is None: return None
        k = i.extra
        if k in ("add", "sub", "and", "or", "xor"): n = self.bin(k, v, x)
        elif k == "xchg": n = x
        elif k in ("umax", "umin"): n = ite(t.ult(v, x) if k == "umin" else t.ult(x, v), v, x)
        elif k in ("max", "min"): n = ite(t.slt(v, x) if k == "min" else t.slt(x, v), v, x)
        else: raise Unsupported("atomicrmw " + k)
        return v if self.st_ty(st, a, i.ty, n) else None

    def i_cmpxchg(self, i, env, st):
        a = self.val(env, ("p",), i.y); c = self.val(env, i.ty, i.x); n = self.val(env, i.ty, i.z)
        v = self.ld_ty(st, a, i.ty)
        if v is None: return None
        g = t.eq(v, c)
        return (v, g) if self.st_ty(st, a, i.ty, ite(g, n, v)) else None

    def i_alloca(self, i, env, st):
        return C(self.alloc(st, i.extra, i.res), 64)

    def i_getelementptr(self, i, env, st):
        a = self.val(env, ("p",), i.x)
        cur = i.ty; first = True
        for it, iv in i.extra:
            x = self.val(env, it, iv)
            if x.w < 64: x = t.sext(x, 64)
            if first: a = t.add(a, t.mul(x, C(ir.sizeof(cur), 64))); first = False
            elif cur[0] in ("a", "vec"):
                cur = cur[2]; a = t.add(a, t.mul(x, C(ir.sizeof(cur), 64)))
            else:
                k = x.p; a = t.add(a, C(ir.field_off(cur, k), 64)); cur = cur[1][k]
        return a

    def i_select(self, i, env, st):
        c = self.val(env, ("i", 1), i.x); x = self.val(env, i.ty, i.y); y = self.val(env, i.ty, i.z)
        if isinstance(c, tuple): return tuple(ite(a, b, d) for a, b, d in zip(c, x, y))
        c = self.simp(st, c)
        if c.op == "c": return x if c.p else y
        return self.merge_val(c, x, y)

    def i_extractvalue(self, i, env, st):
        x = self.val(env, i.ty, i.x)
        for k in i.extra: x = x[k]
        return x

    def i_insertvalue(self, i, env, st):
        x = self.val(env, i.ty, i.x); y = self.val(env, None, i.y) if i.y[0] == "r" else self.const(i.y[1], i.y[2])
        def put(a, ix):
            if not ix: return y
            l = list(a); l[ix[0]] = put(l[ix[0]], ix[1:]); return tuple(l)
        return put(x, i.extra)

    def i_extractelement(self, i, env, st):
        x = self.val(env, i.ty, i.x); k = self.val(env, None, i.y)
        if k.op == "c": return x[k.p]
        acc = x[0]
        for j in range(1, len(x)): acc = ite(t.eq(k, C(j, k.w)), x[j], acc)
        return acc

    def i_insertelement(self, i, env, st):
        x = list(self.val(env, i.ty, i.x)); v = self.val(env, None, i.y); k = self.val(env, None, i.z)
        for j in range(len(x)): x[j] = ite(t.eq(k, C(j, k.w)), v, x[j])
        return tuple(x)

    def i_shufflevector(self, i, env, st):
        x = self.val(env, i.ty, i.x) + self.val(env, i.ty, i.y)
        return tuple(x[m.p] for m in self.val(env, None, i.z))

    # ---------------------------------------------------------------- calls
    def i_call(self, i, env, st):
        name = i.x
        if name[0] == "%":
            a = env[name]
            if a.op != "c" or a.p not in self.faddr: raise Unsupported("indirect call")
            name = self.faddr[a.p]
        if name.startswith("@llvm."): return self.intrinsic(name[6:], i, env, st)
        args = [self.val(env, ty, v) for ty, v in i.extra if ty != ("metadata",)]
        h = self.hooks.get(name)
        if h is not None: return h(self, st, args)
        if name.startswith("@verif_"):
            op = FLOATF.get(name[7:])
            if op: return t.fop(op, *args), st
            if name == "@verif_fmaf": return t.fop("fma", *args), st
            return t._mk("fopq", tuple(args), name, 32, -t.INF, t.INF, True, True), st
        if name in self.m.funcs:
            f = self.m.funcs[name]
            if f.noreturn or "panicking" in name and f.noreturn:
                self.events.append(Event("panic", name, st.pc)); return None
            return self.call(name, args, st)
        if name in ("@memcmp", "@bcmp"):
            n = args[2]
            if n.op != "c": raise Unsupported("memcmp with symbolic length")
            r = C(0, 32)
            for k in range(n.p - 1, -1, -1):
                x = self.load(st, t.add(args[0], C(k, 64)), 1, False, 8); y = self.load(st, t.add(args[1], C(k, 64)), 1, False, 8)
                if x is None or y is None: return None
                r = ite(t.eq(x, y), r, ite(t.ult(x, y), C(-1, 32), C(1, 32)))
            return r, st
        if name in ("@memcpy", "@memmove"):
            if args[2].op != "c": raise Unsupported("memcpy len")
            return (args[0], st) if self.memcpy(st, args[0], args[1], args[2].p) else None
        if self.m.decls.get(name):
            self.events.append(Event("panic", name, st.pc)); return None
        if name in self.m.decls and ("panic" in name or "fail" in name):
            self.events.append(Event("panic", name, st.pc)); return None
        raise Unsupported("call to external " + name)
    i_invoke = i_call

    def intrinsic(self, n, i, env, st):
        base = n.split(".")[0]
        if base in ("lifetime", "experimental", "dbg", "invariant", "prefetch", "donothing"): return TRUE, st
        args = [self.val(env, ty, v) for ty, v in i.extra if ty != ("metadata",)]
        if base == "assume": return TRUE, st
        if base in ("expect",): return args[0], st
        if base in ("memcpy", "memmove"):
            return self.with_len(st, args[2], lambda s, k: self.memcpy(s, args[0], args[1], k))
        if base == "memset":
            def ms(s, k):
                ok = True
                for j in range(k): ok = self.store(s, t.add(args[0], C(j, 64)), args[1], 1) and ok
                return ok
            return self.with_len(st, args[2], ms)
        if args and isinstance(args[0], tuple): raise Unsupported("vector intrinsic " + n)
        w = args[0].w if args else 0
        if base in INTRF:
            if not args[0].fk: return self.opaque(w), st
            return t.fop(INTRF[base], *args), st
        if base == "fma" or base == "fmuladd":
            return t.fop("fma", *args), st
        if base in ("umin", "umax", "smin", "smax"):
            x, y = args
            lt = t.ult(x, y) if base[0] == "u" else t.slt(x, y)
            lt = self.simp(st, lt)
            return (ite(lt, x, y) if base[1:] == "min" else ite(lt, y, x)), st
        if base == "abs":
            x = args[0]
            d = t.narrow_diff(x)
            if d is not None: return t.zext(t.absdiff8(*d), x.w), st
            return ite(t.slt(x, C(0, x.w)), t.neg(x), x), st
        if base in ("usub", "uadd", "sadd", "ssub", "umul", "smul"):
            x, y = args; kind = n.split(".")[1]
            if base[0] == "u":
                if base == "uadd":
                    r = t.add(x, y); ov = t.ult(t.bnot(y), x) if False else t.ext(t.add(t.zext(x, w + 1), t.zext(y, w + 1)), w, w)
                    sat = C(-1, w)
                elif base == "usub":
                    r = t.sub(x, y); ov = t.ult(x, y); sat = C(0, w)
                else:
                    r = t.mul(x, y)
                    if x.hi * y.hi < (1 << w): ov = FALSE
                    else: ov = bnot(t.eq(t.ext(t.mul(t.zext(x, 2 * w), t.zext(y, 2 * w)), 2 * w - 1, w), C(0, w)))
                    sat = C(-1, w)
            else:
                o = {"sadd": "add", "ssub": "sub", "smul": "mul"}[base]
                W = 2 * w if o == "mul" else w + 1
                big = t.build(o, None, W, (t.sext(x, W), t.sext(y, W)))
                r = t.build(o, None, w, (x, y))
                xs, ys = t.sint(x), t.sint(y)
                cand = {"add": (xs[0] + ys[0], xs[1] + ys[1]), "sub": (xs[0] - ys[1], xs[1] - ys[0])}.get(o) or (min(p * q for p in xs for q in ys), max(p * q for p in xs for q in ys))
                h = 1 << (w - 1)
                if cand[0] >= -h and cand[1] < h: ov = FALSE
                else: ov = bnot(t.eq(big, t.sext(r, W)))
                sat = None
            if kind == "with": return (r, self.simp(st, ov)), st
            if sat is not None: return ite(self.simp(st, ov), sat, r), st
            raise Unsupported(n)
        if base == "fptosi": return t.f2i("f2s", args[0], i.ty[1]), st
        if base == "fptoui": return t.f2i("f2u", args[0], i.ty[1]), st
        if base in ("fshl", "fshr"):
            x, y, k = args
            if k.op != "c": raise Unsupported(n)
            k = k.p % w
            if base == "fshl": return (t.cat([t.ext(x, w - 1 - k, 0), t.ext(y, w - 1, w - k)]) if k else x), st
            return (t.cat([t.ext(x, k - 1, 0), t.ext(y, w - 1, k)]) if k else y), st
        if base == "bswap":
            return t.cat([t.ext(args[0], 8 * j + 7, 8 * j) for j in range(w // 8)]), st
        if base == "bitreverse":
            return t.cat([t.ext(args[0], j, j) for j in range(w)]), st
        if base == "ctpop":
            r = C(0, w)
            for j in range(w): r = t.add(r, t.zext(t.ext(args[0], j, j), w))
            return r, st
        if base == "cttz":
            r = C(w, w)
            for j in range(w - 1, -1, -1): r = ite(t.ext(args[0], j, j), C(j, w), r)
            return r, st
        if base == "ctlz":
            r = C(w, w)
            for j in range(w): r = ite(t.ext(args[0], j, j), C(w - 1 - j, w), r)
            return r, st
        if base in ("ucmp", "scmp"):
            x, y = args; lt = t.ult if base == "ucmp" else t.slt; W = i.ty[1]
            return ite(lt(x, y), C(-1, W), ite(lt(y, x), C(1, W), C(0, W))), st
        if base == "is":     # is.fpclass
            x = args[0]; k = args[1].p
            if k == 3: return t.fcmp("uno", x, x), st
            return self.opaque(1), st
        if base in ("trap", "ubsantrap"):
            self.events.append(Event("panic", "trap", st.pc)); return None
        raise Unsupported("intrinsic " + n)

    def with_len(self, st, n, f):
        if n.op == "c":
            return (TRUE, st) if f(st, n.p) else None
        if n.m and n.sz <= t.MAPLIM: vals = sorted(leaf_values(n))
        else:
            lo, hi = self.ivof(st, n)
            if hi - lo > 128: raise Unsupported("symbolic length")
            vals = list(range(lo, hi + 1))
        if len(vals) > 128: raise Unsupported("symbolic length")
        pre = st; acc = None
        for v in vals:
            g = self.simp(pre, t.eq(n, C(v, n.w)))
            if g is FALSE: continue
            s = pre.fork(); self.assume(s, g)
            if not f(s, v): continue
            acc = s if acc is None else self.merge(acc, s)[1]
        if acc is None: return None
        return TRUE, acc

def conj(l):
    r = TRUE
    for x in l: r = band(r, x)
    return r

def small(*xs):
    """choices between constants and registers abstracted before"""
    st = list(xs); seen = set()
    while st:
        y = st.pop()
        if y.id in seen: continue
        seen.add(y.id)
        if y.op == "ite": st += y.a[1:]
        elif y.op != "c" and not (y.op == "v" and str(y.p).startswith("$ctl")): return False
    return True

def leaf_values(x):
    seen = set(); out = set(); st = [x]
    while st:
        y = st.pop()
        if y.id in seen: continue
        seen.add(y.id)
        if y.op == "ite": st.append(y.a[1]); st.append(y.a[2])
        elif y.op == "tab": out.update(y.p[y.a[0].lo:y.a[0].hi + 1])
        else: out.add(y.p)
    return out

def all_const_leaves(x):
    r = t._memo.get(("acl", x.id))
    if r is not None: return r
    seen = set(); st = [x]; r = True
    while st:
        y = st.pop()
        if y.id in seen: continue
        seen.add(y.id)
        if y.op == "ite": st.append(y.a[1]); st.append(y.a[2])
        elif y.op == "tab": r = False; break
    t._memo[("acl", x.id)] = r
    return r
