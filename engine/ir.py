"""Parser for the textual LLVM IR rustc emits (the subset optimised scalar code uses)."""
import re

TOK = re.compile(r'''"(?:[^"\\]|\\.)*"|c"(?:[^"\\]|\\.)*"|[%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+)|![\w.]*(?:\([^()]*\))?|f0x[0-9A-Fa-f]+|0x[0-9A-Fa-f]+|[-+]?\d+\.\d+(?:e[-+]?\d+)?|[-+]inf|[-+]?nan(?:\(0x[0-9a-fA-F]+\))?|[-+]?\d+|[A-Za-z_][\w.]*|\.\.\.|<\{|\}>|[\[\]{}()<>,=*:|#]''')

class P:
    """token cursor"""
    def __init__(self, s):
        self.t = TOK.findall(s); self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise SyntaxError(f"expected {x} got {y} in {' '.join(self.t)[:200]}")

class IRError(Exception): pass

def ptype(p):
    x = p.next()
    if x == "ptr":
        if p.peek() == "addrspace": p.next(); p.expect("("); p.next(); p.expect(")")
        return ("p",)
    if x[0] == "i" and x[1:].isdigit(): return ("i", int(x[1:]))
    if x == "float": return ("f", 32)
    if x == "double": return ("f", 64)
    if x == "half": return ("f", 16)
    if x == "fp128": return ("f", 128)
    if x == "void": return ("void",)
    if x in ("label", "metadata", "token"): return (x,)
    if x == "[":
        n = int(p.next()); p.expect("x"); t = ptype(p); p.expect("]")
        return ("a", n, t)
    if x in ("{", "<{"):
        pk = x == "<{"; end = "}>" if pk else "}"
        fs = []
        while not p.accept(end):
            fs.append(ptype(p)); p.accept(",")
        return ("s", tuple(fs), pk)
    if x == "<":
        n = int(p.next()); p.expect("x"); t = ptype(p); p.expect(">")
        return ("vec", n, t)
    if x[0] == "%": return ("named", x)
    raise IRError("type " + x)

_szc = {}
def sizeof(t):
    k = t[0]
    if k == "p": return 8
    if k == "i": return (t[1] + 7) // 8
    if k == "f": return t[1] // 8
    if k == "a": return t[1] * sizeof(t[2])
    if k == "vec": return t[1] * sizeof(t[2])
    if k == "s":
        o = 0
        for f in t[1]:
            if not t[2]: a = align(f); o = (o + a - 1) // a * a
            o += sizeof(f)
        if not t[2] and t[1]: a = align(t); o = (o + a - 1) // a * a
        return o
    raise IRError(f"sizeof {t}")

def align(t):
    k = t[0]
    if k in ("p",): return 8
    if k == "i": return min(8 if t[1] <= 64 else 16, 1 << max(0, (sizeof(t) - 1).bit_length()))
    if k == "f": return t[1] // 8
    if k == "a": return align(t[2])
    if k == "vec": return sizeof(t)
    if k == "s": return 1 if t[2] else max([align(f) for f in t[1]] or [1])
    return 1

def field_off(t, i):
    o = 0
    for j, f in enumerate(t[1]):
        if not t[2]: a = align(f); o = (o + a - 1) // a * a
        if j == i: return o
        o += sizeof(f)
    raise IRError("field")

ATTRS = set("""noundef nonnull noalias nofree readonly readnone writeonly nocapture zeroext signext inreg returned
 swiftself swifterror immarg writable dead_on_unwind nest noext dead_on_return allocptr allocalign""".split())

def skip_attrs(p):
    while True:
        x = p.peek()
        if x is None: return
        if x in ATTRS: p.next(); continue
        if x == "align": p.next(); (p.next(), p.next(), p.next()) if p.peek() == "(" else p.next(); continue
        if x in ("dereferenceable", "dereferenceable_or_null", "captures", "range", "sret", "byval", "nofpclass", "initializes", "memory", "elementtype", "allocsize", "byref", "preallocated", "inalloca", "alignstack"):
            p.next()
            if p.peek() == "(":
                d = 0
                while True:
                    y = p.next()
                    if y == "(": d += 1
                    elif y == ")":
                        d -= 1
                        if d == 0: break
            continue
        if x[0] == '"':       # string attribute
            p.next()
            if p.accept("="): p.next()
            continue
        return

def unesc(s):
    """c"..." payload to bytes"""
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i+1] == "\\": out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode("utf-8"); i += 1
    return bytes(out)

# value forms: ("r", name) | ("k", type, payload) payload: int | float-bits | ("g", name, off) | "zero" | "undef" | bytes | list
def pvalue(p, ty):
    x = p.next()
    if x[0] == "%": return ("r", x)
    if x[0] == "@": return ("k", ty, ("g", x, 0))
    if x == "null": return ("k", ty, 0)
    if x == "true": return ("k", ty, 1)
    if x == "false": return ("k", ty, 0)
    if x in ("undef", "poison"): return ("k", ty, "undef")
    if x == "zeroinitializer": return ("k", ty, "zero")
    if x[:2] == 'c"': return ("k", ty, unesc(x[2:-1]))
    if x in ("{", "<{", "[", "<"):
        end = {"{": "}", "<{": "}>", "[": "]", "<": ">"}[x]
        vs = []
        while not p.accept(end):
            t = ptype(p); vs.append(pvalue(p, t)); p.accept(",")
        return ("k", ty, vs)
    if x == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
        if p.peek() == "inrange":
            p.next(); p.expect("(")
            while p.next() != ")": pass
        p.expect("(")
        st = ptype(p); p.expect(","); bt = ptype(p); b = pvalue(p, bt)
        off = 0; first = True; cur = st
        while p.accept(","):
            it = ptype(p); iv = pvalue(p, it)
            k = iv[2]
            if first: off += k * sizeof(cur); first = False
            elif cur[0] == "a": cur = cur[2]; off += k * sizeof(cur)
            else: off += field_off(cur, k); cur = cur[1][k]
        p.expect(")")
        g = b[2]
        if not isinstance(g, tuple): return ("k", ty, (g or 0) + off)
        return ("k", ty, ("g", g[1], g[2] + off))
    if x in ("inttoptr", "ptrtoint", "bitcast", "ptrtoaddr"):
        p.expect("("); t = ptype(p); v = pvalue(p, t); p.expect("to"); ptype(p); p.expect(")")
        return ("k", ty, v[2])
    if ty[0] == "f":
        return ("k", ty, fbits(x, ty[1]))
    if x.startswith("u0x"): return ("k", ty, int(x[3:], 16))
    if re.fullmatch(r"[-+]?\d+", x): return ("k", ty, int(x))
    raise IRError(f"value {x} : {ty}")

def fbits(x, w):
    import struct, numpy as np
    if x.startswith("f0x"): return int(x[3:], 16)
    if x.startswith("0x"):
        b = int(x, 16)
        if w == 64: return b
        d = struct.unpack("<d", struct.pack("<Q", b))[0]
        return struct.unpack("<I", np.float32(d).tobytes())[0]
    y = x.lstrip("+-"); neg = x[0] == "-"
    if y == "inf": v = float("inf")
    elif y.startswith("nan"): v = float("nan")
    else: v = float(y)
    if neg: v = -v
    if w == 64: return struct.unpack("<Q", struct.pack("<d", v))[0]
    return struct.unpack("<I", np.float32(v).tobytes())[0]

class Inst:
    __slots__ = ("op", "res", "ty", "x", "y", "z", "extra", "line")
    def __init__(s, op, res=None, ty=None, x=None, y=None, z=None, extra=None):
        s.op = op; s.res = res; s.ty = ty; s.x = x; s.y = y; s.z = z; s.extra = extra

class Block:
    __slots__ = ("name", "phis", "insts", "succ", "pred", "live")

class Func:
    def __init__(s, name, params, rty, lines, noreturn):
        s.name = name; s.params = params; s.rty = rty; s.lines = lines; s.noreturn = noreturn
        s.blocks = None
    def load(s):
        if s.blocks is None: parse_body(s)
        return s

FLAGS = {"nuw", "nsw", "exact", "inbounds", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nusw", "volatile", "atomic", "weak"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "ptrtoaddr", "addrspacecast"}

def skip_flags(p):
    fl = []
    while p.peek() in FLAGS: fl.append(p.next())
    return fl

def parse_inst(line):
    p = P(line)
    res = None
    if p.peek(1) == "=" and p.peek()[0] == "%":
        res = p.next(); p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"): op = p.next()
    if op in BIN:
        skip_flags(p); t = ptype(p); x = pvalue(p, t); p.expect(","); y = pvalue(p, t)
        return Inst(op, res, t, x, y)
    if op in ("icmp", "fcmp"):
        skip_flags(p); pr = p.next(); t = ptype(p); x = pvalue(p, t); p.expect(","); y = pvalue(p, t)
        return Inst(op, res, t, x, y, extra=pr)
    if op in CAST:
        skip_flags(p); t = ptype(p); x = pvalue(p, t); p.expect("to"); t2 = ptype(p)
        return Inst(op, res, t2, x, extra=t)
    if op in ("fneg", "freeze"):
        skip_flags(p); t = ptype(p); return Inst(op, res, t, pvalue(p, t))
    if op == "load":
        skip_flags(p); t = ptype(p); p.expect(","); pt = ptype(p); return Inst(op, res, t, pvalue(p, pt))
    if op == "store":
        skip_flags(p); t = ptype(p); v = pvalue(p, t); p.expect(","); pt = ptype(p); a = pvalue(p, pt)
        return Inst(op, None, t, v, a)
    if op == "alloca":
        t = ptype(p); n = 1
        if p.peek() == "," and p.peek(1) != "align" and p.peek(1)[0] not in "!":
            p.next(); it = ptype(p); n = pvalue(p, it)[2]
        return Inst(op, res, t, extra=sizeof(t) * n)
    if op == "getelementptr":
        skip_flags(p); t = ptype(p); p.expect(","); pt = ptype(p); b = pvalue(p, pt); idx = []
        while p.accept(","):
            if p.peek()[0] == "!": break
            it = ptype(p); idx.append((it, pvalue(p, it)))
        return Inst(op, res, t, b, extra=idx)
    if op == "select":
        skip_flags(p); ct = ptype(p); c = pvalue(p, ct); p.expect(","); t = ptype(p); x = pvalue(p, t); p.expect(","); t2 = ptype(p); y = pvalue(p, t2)
        return Inst(op, res, t, c, x, y)
    if op == "phi":
        skip_flags(p); t = ptype(p); inc = {}
        while True:
            p.expect("["); v = pvalue(p, t); p.expect(","); b = p.next(); p.expect("]")
            inc[b[1:]] = v
            if not p.accept(","): break
            if p.peek() and p.peek()[0] == "!": break
        return Inst(op, res, t, extra=inc)
    if op == "br":
        if p.peek() == "label": p.next(); return Inst("jmp", extra=[p.next()[1:]])
        t = ptype(p); c = pvalue(p, t); p.expect(","); p.expect("label"); a = p.next()[1:]; p.expect(","); p.expect("label"); b = p.next()[1:]
        return Inst("br", None, t, c, extra=[a, b])
    if op == "switch":
        t = ptype(p); c = pvalue(p, t); p.expect(","); p.expect("label"); d = p.next()[1:]; p.expect("["); cs = []
        while not p.accept("]"):
            ct = ptype(p); v = pvalue(p, ct); p.expect(","); p.expect("label"); cs.append((v[2], p.next()[1:]))
        return Inst("switch", None, t, c, extra=(d, cs))
    if op == "ret":
        t = ptype(p); return Inst("ret", None, t, None if t == ("void",) else pvalue(p, t))
    if op == "unreachable": return Inst(op)
    if op in ("call", "invoke"):
        skip_flags(p)
        while p.peek() in ("fastcc", "coldcc", "ccc", "cc", "preserve_mostcc", "x86_64_sysvcc"): p.next()
        skip_attrs(p); skip_flags(p)
        t = ptype(p)
        if p.peek() == "(":        # full function type
            d = 0
            while True:
                y = p.next()
                if y == "(": d += 1
                elif y == ")":
                    d -= 1
                    if d == 0: break
        callee = p.next()
        if callee == "asm": return Inst("asm", res, t)
        p.expect("("); args = []
        while not p.accept(")"):
            at = ptype(p)
            if at == ("metadata",):
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    y = p.next(); d += y == "("; d -= y == ")"
                args.append((at, None)); p.accept(","); continue
            skip_attrs(p)
            args.append((at, pvalue(p, at))); p.accept(",")
        if op == "invoke":
            while p.next() != "to": pass
            p.expect("label"); n = p.next()[1:]
            return Inst("invoke", res, t, callee, extra=args, y=n)
        return Inst("call", res, t, callee, extra=args)
    if op == "extractvalue":
        t = ptype(p); x = pvalue(p, t); ix = []
        while p.accept(","):
            if not p.peek().lstrip("-").isdigit(): break
            ix.append(int(p.next()))
        return Inst(op, res, t, x, extra=ix)
    if op == "insertvalue":
        t = ptype(p); x = pvalue(p, t); p.expect(","); t2 = ptype(p); y = pvalue(p, t2); ix = []
        while p.accept(","):
            if not p.peek().lstrip("-").isdigit(): break
            ix.append(int(p.next()))
        return Inst(op, res, t, x, y, extra=ix)
    if op in ("extractelement",):
        t = ptype(p); x = pvalue(p, t); p.expect(","); t2 = ptype(p); y = pvalue(p, t2); return Inst(op, res, t, x, y)
    if op == "insertelement":
        t = ptype(p); x = pvalue(p, t); p.expect(","); t2 = ptype(p); y = pvalue(p, t2); p.expect(","); t3 = ptype(p); z = pvalue(p, t3)
        return Inst(op, res, t, x, y, z)
    if op == "shufflevector":
        t = ptype(p); x = pvalue(p, t); p.expect(","); t2 = ptype(p); y = pvalue(p, t2); p.expect(","); t3 = ptype(p); z = pvalue(p, t3)
        return Inst(op, res, t, x, y, z)
    if op == "fence": return Inst("fence", None)
    if op == "atomicrmw":
        skip_flags(p); k = p.next(); pt = ptype(p); a = pvalue(p, pt); p.expect(","); t = ptype(p); return Inst(op, res, t, pvalue(p, t), a, extra=k)
    if op == "cmpxchg":
        skip_flags(p); pt = ptype(p); a = pvalue(p, pt); p.expect(","); t = ptype(p); c = pvalue(p, t); p.expect(","); t = ptype(p); return Inst(op, res, t, c, a, pvalue(p, t))
    if op in ("landingpad", "resume", "fence", "cmpxchg", "atomicrmw", "cleanup"): return Inst("unsupported", res, extra=op)
    return Inst("unsupported", res, extra=op)

def parse_body(f):
    f.blocks = {}; cur = None; order = []
    lines = f.lines; i = 0
    def newb(n):
        b = Block(); b.name = n; b.phis = []; b.insts = []; b.succ = []; b.pred = []; b.live = set()
        f.blocks[n] = b; order.append(n); return b
    while i < len(lines):
        l = lines[i]; i += 1
        if not l.strip() or l.lstrip().startswith(";"): continue
        m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
        if m: cur = newb(m.group(1)); continue
        s = l.strip()
        if s.startswith("#dbg"): continue
        if s.startswith("switch") and "]" not in s.split("!")[0]:
            while True:
                n = lines[i].strip(); i += 1; s += " " + n
                if n.startswith("]"): break
        if " invoke " in " " + s and " unwind " not in s: s += " " + lines[i].strip(); i += 1
        if "landingpad" in s:
            while i < len(lines) and lines[i].strip().startswith(("cleanup", "catch", "filter")): i += 1
        if cur is None: cur = newb(str(len(f.params)) if not f.entry_name else f.entry_name)
        ins = parse_inst(s); ins.line = s
        if ins.op == "phi": cur.phis.append(ins)
        else: cur.insts.append(ins)
    f.entry = order[0]; f.order = order
    # calls that never return end the block
    for b in f.blocks.values():
        t = b.insts[-1]
        if t.op == "jmp": b.succ = list(t.extra)
        elif t.op == "br": b.succ = list(dict.fromkeys(t.extra))
        elif t.op == "switch": b.succ = list(dict.fromkeys([t.extra[0]] + [c[1] for c in t.extra[1]]))
        elif t.op == "invoke": b.succ = [t.y]
        elif t.op == "ret": b.succ = ["$exit"]
        else: b.succ = []
    ex = Block(); ex.name = "$exit"; ex.phis = []; ex.insts = []; ex.succ = []; ex.pred = []; ex.live = set()
    f.blocks["$exit"] = ex
    for n, b in f.blocks.items():
        for s in b.succ: f.blocks[s].pred.append(n)
    postdom(f); liveness(f); control(f)

def postdom(f):
    """reverse post-order and the natural-loop nest (outermost first) of every block"""
    B = f.blocks
    order = []; seen = {f.entry}; st = [(f.entry, iter(B[f.entry].succ))]
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen: seen.add(s); st.append((s, iter(B[s].succ))); break
        else: order.append(n); st.pop()
    rpo = order[::-1]
    f.rpo = {n: i for i, n in enumerate(rpo)}
    # dominators
    idom = {f.entry: f.entry}; ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in B[n].pred:
                if p not in idom: continue
                if new is None: new = p
                else:
                    a, b = p, new
                    while a != b:
                        while f.rpo[a] > f.rpo[b]: a = idom[a]
                        while f.rpo[b] > f.rpo[a]: b = idom[b]
                    new = a
            if idom.get(n) != new: idom[n] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    body = {}
    for n in rpo:
        for s in B[n].succ:
            if f.rpo[s] <= f.rpo[n]:
                if not dom(s, n): raise IRError("irreducible control flow in " + f.name)
                bs = body.setdefault(s, {s}); w = [n]
                while w:
                    x = w.pop()
                    if x not in bs: bs.add(x); w.extend(p for p in B[x].pred if p in f.rpo)
    f.loops = {n: tuple(sorted([h for h in body if n in body[h]], key=lambda h: f.rpo[h])) for n in rpo}

def uses(i):
    r = []
    def v(x):
        if x is not None and x[0] == "r": r.append(x[1])
    if i.op in ("call", "invoke"):
        if i.x[0] == "%": r.append(i.x)
        for _, a in i.extra: v(a)
        return r
    if i.op == "getelementptr":
        v(i.x)
        for _, a in i.extra: v(a)
        return r
    for x in (i.x, i.y, i.z):
        if isinstance(x, tuple): v(x)
        # nested aggregate constants may contain registers only in metadata; ignored
    return r

def liveness(f):
    B = f.blocks
    gen = {}; kill = {}
    for n, b in B.items():
        g = set(); k = set()
        for ph in b.phis: k.add(ph.res)
        for i in b.insts:
            for u in uses(i):
                if u not in k: g.add(u)
            if i.res: k.add(i.res)
        gen[n] = g; kill[n] = k; b.live = set(g)
    ch = True
    while ch:
        ch = False
        for n in reversed(list(B)):
            b = B[n]; out = set()
            for s in b.succ:
                out |= B[s].live
                for ph in B[s].phis:
                    v = ph.extra.get(n)
                    if v is not None and v[0] == "r": out.add(v[1])
            new = gen[n] | (out - kill[n])
            if new - b.live: b.live |= new; ch = True

ARITH = {"add", "sub", "mul", "shl", "lshr", "and", "or", "getelementptr", "zext", "sext", "trunc", "select", "phi", "ptrtoint", "inttoptr", "freeze"}

def control(f):
    """registers that (through plain arithmetic) decide when a loop is left: states that disagree
    on a constant value of one of them are not merged inside that loop"""
    defs = {}
    for b in f.blocks.values():
        for i in b.phis + b.insts:
            if i.res: defs[i.res] = i
    ctl = set(); w = []; f.governs = {}
    for n, b in f.blocks.items():
        if n not in f.rpo or not b.insts or not f.loops[n]: continue
        i = b.insts[-1]
        if i.op not in ("br", "switch"): continue
        left = [h for h in f.loops[n] if any(h not in f.loops[s] for s in b.succ)]
        if not left: continue
        if i.x[0] == "r": w += [(i.x[1], True, h) for h in left]
    seen = set()
    while w:
        r, cond, h = w.pop()
        if (r, h) in seen or r not in defs: continue
        seen.add((r, h))
        i = defs[r]
        if i.op == "icmp" or cond and i.op in ("and", "or", "xor", "select"):
            for u in uses(i): w.append((u, i.op != "icmp", h))
            continue
        if i.op not in ARITH: continue
        ctl.add(r); f.governs.setdefault(r, set()).add(h)
        us = [v[1] for v in i.extra.values() if v[0] == "r"] if i.op == "phi" else uses(i)
        for u in us: w.append((u, False, h))
    f.ctl = ctl; f.ctlive = {}

class Module:
    def __init__(self, path):
        self.funcs = {}; self.globals = {}; self.decls = {}; self.types = {}; self.noret_attr = set(); self._mut = None
        txt = open(path, encoding="utf-8", errors="surrogateescape").read()
        lines = txt.split("\n"); self.nlines = len(lines)
        for l in lines:
            if l.startswith("attributes #"):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", l)
                if m and re.search(r"\bnoreturn\b", m.group(2)): self.noret_attr.add(m.group(1))
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("@"):
                m = re.match(r'^(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) = (.*)$', l)
                self.globals[m.group(1)] = m.group(2); i += 1; continue
            if l.startswith("define"):
                j = i + 1
                while lines[j] != "}": j += 1
                f = self._sig(l, lines[i+1:j]); self.funcs[f.name] = f
                i = j + 1; continue
            if l.startswith("declare"):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))\(', l)
                self.decls[m.group(1)] = bool(set(re.findall(r"#\d+", l)) & self.noret_attr)
            i += 1
        self._ginit = {}

    def _sig(self, l, body):
        nm = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))\(', l)
        name = nm.group(1)
        rest = l[nm.end():]
        p = P(rest); params = []
        n = 0
        while not p.accept(")"):
            t = ptype(p); skip_attrs(p)
            if p.peek() and p.peek()[0] == "%": params.append((t, p.next()))
            else: params.append((t, f"%{n}"))
            n += 1; p.accept(",")
        head = l[:nm.start()]
        noret = bool(set(re.findall(r"#\d+", rest)) & self.noret_attr)
        f = Func(name, params, None, body, noret)
        f.entry_name = None; f.sig = l
        # unnamed entry block gets the next number after the parameters
        f.entry_name = str(len([1 for t, q in params if q[1:].isdigit()]))
        if body and re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', body[0]): pass
        return f

    def mutable(self):
        """mutable globals with an initial value"""
        if self._mut is None:
            self._mut = [n for n, d in self.globals.items() if re.search(r"\bglobal\b", d.split("{")[0].split("<")[0]) and not n.startswith("@llvm.")]
            self._mut = [n for n in self._mut if self.ginit(n)[0] is False and self.ginit(n)[1] is not None and self.ginit(n)[2] is not None]
        return self._mut

    def ginit(self, name):
        """(const?, type, value)"""
        if name in self._ginit: return self._ginit[name]
        s = self.globals[name]
        p = P(s)
        const = None
        while True:
            x = p.next()
            if x in ("constant", "global"): const = x == "constant"; break
            if x == "alias": raise IRError("alias")
            if x == "external": self._ginit[name] = (False, None, None); return self._ginit[name]
        t = ptype(p)
        v = pvalue(p, t) if p.peek() not in (None, ",") else None
        self._ginit[name] = (const, t, v)
        return self._ginit[name]
