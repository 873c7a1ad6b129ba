"""Symbolic runs of the public API entry points, plus the job/check driver."""
import os, sys, time, json, random, threading, traceback, signal, multiprocessing as mp
import build, ir, term as t, symex, smt
from symex import Exec, State, conj, Unsupported, Budget
from term import C, V, FC, FV, TRUE, FALSE, bnot, band, bor, ite

BS = {1: 8, 2: 16, 3: 16, 4: 8, 5: 16}
FNAME = {1: "Bc1", 2: "Bc2", 3: "Bc3", 4: "Bc4", 5: "Bc5"}
ALG = ("RangeFit", "ClusterFit", "IterativeClusterFit")

def i32(x): return x if isinstance(x, t.T) else C(x, 32)

class Run:
    def __init__(s, out, ex, ret=None):
        s.out = out; s.ex = ex; s.events = ex.events; s.ret = ret
        s.returned = True

class Prog:
    def __init__(s, path, deadline=None):
        s.m = ir.Module(path); s.deadline = deadline
        s.statics = "any"; s.shared = ()
        s.states = 0; s.transitions = 0; s.merges = 0; s.funcs = set(); s.runs = 0

    def ex(s, axioms=()):
        sv = smt.Solver(1500)
        def feas(pc, g):
            r = sv.check(list(pc) + [g])
            if r == "unknown": e.unknown_flag = True
            return r != "unsat"
        e = Exec(s.m, feas=feas, deadline=s.deadline)
        st = State()
        e.statics(st, s.statics); e.shared = set(s.shared)
        for a in axioms: e.axiom(st, a)
        e.npre = len(st.pc)
        return e, st

    def fin(s, e):
        s.states += e.nblocks; s.transitions += e.steps; s.merges += e.nmerges; s.funcs |= e.funcs; s.runs += 1

    def _call(s, e, st, name, args):
        r = e.call(name, args, st)
        s.fin(e)
        return r

    def _bytes(s, e, st, base, n):
        return [e.load(st, C(base + i, 64), 1, False, 8) for i in range(n)]

    def encode(s, f, px, mask, alg, wba, ws, n=None, fill=None, axioms=(), hooks=None, wide=False):
        """px: 16 lists of 4 byte terms"""
        if n is None: n = BS[f]
        e, st = s.ex(axioms)
        if hooks: e.hooks.update(hooks)
        if wide: e.ctl_limit = 1
        e.check_exits = f <= 3       # the gradient formats need no pruning
        pp = e.new_buffer(st, [c for p in px for c in p], "rgba"); pw = e.alloc(st, 12, "weights")
        for i, w in enumerate(ws): e.store(st, C(pw + 4 * i, 64), w, 4)
        po = e.new_buffer(st, fill if fill is not None else [C(0xcd, 8)] * n, "out")
        r = s._call(e, st, "@v_encode", [C(f, 32), C(pp, 64), mask, i32(alg), i32(wba), C(pw, 64), C(po, 64), C(n, 64)])
        if r is None:
            R = Run(None, e); R.returned = False; return R
        R = Run(s._bytes(e, r[1], po, n), e)
        # endpoint pairs as 16-bit words: the stored value before it is split into bytes
        R.words = {o: (e.load(r[1], C(po + o, 64), 2, False, 16), e.load(r[1], C(po + o + 2, 64), 2, False, 16)) for o in ((0,) if f == 1 else (8,) if f in (2, 3) else ())}
        return R

    def decode(s, f, block, hooks=None, axioms=()):
        e, st = s.ex(axioms)
        if hooks: e.hooks.update(hooks)
        pb = e.new_buffer(st, block, "block"); po = e.new_buffer(st, [C(0xcd, 8)] * 64, "out")
        r = s._call(e, st, "@v_decode", [C(f, 32), C(pb, 64), C(len(block), 64), C(po, 64)])
        if r is None:
            R = Run(None, e); R.returned = False; return R
        b = s._bytes(e, r[1], po, 64)
        return Run([b[4 * i:4 * i + 4] for i in range(16)], e)

    def compress(s, f, px, w, h, alg, wba, ws, out, hooks=None, axioms=()):
        e, st = s.ex(axioms)
        if hooks: e.hooks.update(hooks)
        pp = e.new_buffer(st, px, "rgba"); pw = e.alloc(st, 12, "weights")
        for i, x in enumerate(ws): e.store(st, C(pw + 4 * i, 64), x, 4)
        po = e.new_buffer(st, out, "out")
        r = s._call(e, st, "@v_compress", [C(f, 32), C(pp, 64), C(len(px), 64), C(w, 64), C(h, 64), i32(alg), i32(wba), C(pw, 64), C(po, 64), C(len(out), 64)])
        if r is None:
            R = Run(None, e); R.returned = False; return R
        return Run(s._bytes(e, r[1], po, len(out)), e)

    def decompress(s, f, data, w, h, out, hooks=None, axioms=()):
        e, st = s.ex(axioms)
        if hooks: e.hooks.update(hooks)
        pd = e.new_buffer(st, data, "data"); po = e.new_buffer(st, out, "out")
        r = s._call(e, st, "@v_decompress", [C(f, 32), C(pd, 64), C(len(data), 64), C(w, 64), C(h, 64), C(po, 64), C(len(out), 64)])
        if r is None:
            R = Run(None, e); R.returned = False; return R
        return Run(s._bytes(e, r[1], po, len(out)), e)

    def scalar(s, name, args, axioms=()):
        e, st = s.ex(axioms)
        r = s._call(e, st, "@" + name, args)
        R = Run(None if r is None else r[0], e); R.returned = r is not None
        return R

# ------------------------------------------------------------------ jobs
class ReplayDone(Exception): pass
class Found(Exception): """a violation ends the job"""

class Job:
    """one unit of symbolic work, run in its own process"""
    def __init__(s, name, tier, seed, budget):
        s.name = name; s.tier = tier; s.rng = random.Random(f"{seed}/{name}"); s.t0 = time.time(); s.deadline = s.t0 + budget
        s._prog = None; s._nat = None
        s.obl = []; s.viol = []; s.undecided = []; s.notes = []; s.samples = []
        s.validated = 0; s.oracle = None; s.inputs = {}; s.solver = None; s.timeout = 60; s.evals = 0
        s.bounds = []; s.replay_env = None; s.fixed = {}; s.complete = None

    @property
    def prog(s):
        if s._prog is None: s._prog = Prog(build.ir(), s.deadline)
        return s._prog
    @property
    def nat(s):
        if s._nat is None:
            import native
            s._nat = native.Native()
        return s._nat

    def start(s, oracle):
        """oracle: concrete inputs -> None, or what is wrong (runs the real code natively)"""
        s.oracle = oracle
        if s.replay_env is not None: raise ReplayDone(oracle(s.replay_env))

    def left(s): return max(0.0, s.deadline - time.time())

    def var(s, name, w=8):
        s.inputs[name] = w
        return V(name, w)

    def prove(s, name, goal, assume=(), solver=None):
        """obligation: goal holds whenever the assumptions hold"""
        t0 = time.time()
        if goal is TRUE:
            s.obl.append((name, "normal-form", 0.0)); return True
        conds = list(assume) + [bnot(goal)]
        c = conj(conds)
        if c is FALSE:
            s.obl.append((name, "normal-form", 0.0)); return True
        sv = solver or s.solver or smt.Solver()
        s.solver = sv
        r = sv.check(conds, int(1000 * max(1, min(s.timeout, s.left()))))
        dt = time.time() - t0
        if r == "unsat":
            s.obl.append((name, "solver", dt)); return True
        if r == "sat":
            env = sv.env()
            if s.confirm(env, name): return False
            if s.search(env, name, 6000 if s.complete else 1500): return False
            s.obl.append((name, "unconfirmed-model", dt)); s.undecided.append((name, "the solver's model is not reproduced by the real code", env))
            return False
        s.obl.append((name, "timeout", dt)); s.undecided.append((name, "solver timeout", None))
        return False

    def no_events(s, run, label="", assume=()):
        """no panic, overflow or out-of-bounds access is reachable"""
        ok = True
        if not run.returned:
            ok = s.prove(f"{label}: the call can return", FALSE, assume)
        evs = list(enumerate(run.events))
        while len(evs) > 24:             # many: several at a time
            part, evs = evs[:24], evs[24:]
            c = FALSE
            for i, e in part: c = bor(c, conj(e.pc))
            sv = s.solver or smt.Solver()
            t0 = time.time()
            if c is FALSE or sv.check(list(assume) + [c], int(1000 * max(1, min(s.timeout, s.left())))) == "unsat":
                for i, e in part: s.obl.append((f"{label}: {e.kind} {e.what[-40:]} #{i} unreachable", "solver", (time.time() - t0) / len(part)))
            else:
                for i, e in part: ok &= s.prove(f"{label}: {e.kind} {e.what[-40:]} #{i} unreachable", bnot(conj(e.pc)), assume)
        for i, e in evs:
            ok &= s.prove(f"{label}: {e.kind} {e.what[-40:]} #{i} unreachable", bnot(conj(e.pc)), assume)
        return ok

    def full(s, env):
        e = {n: env.get(n, 0) for n in s.inputs} if s.inputs else dict(env)
        e.update(s.fixed)
        return e

    def confirm(s, env, name):
        if s.oracle is None: return False
        env = s.full(env)
        try: msg = s.oracle(env)
        except AssertionError as ex: msg = f"assertion: {ex}"
        s.evals += 1
        if msg:
            s.viol.append({"job": s.name, "obligation": name, "env": env, "what": msg})
            raise Found()
        return False

    def search(s, env, name, n):
        """the model's floating-point part is an abstraction: complete it around the model's inputs"""
        if s.oracle is None or not s.inputs: return False
        if s.complete and env:
            for k in range(n):
                if k % 64 == 0 and s.left() <= 0: break
                s.confirm(s.complete(env, s.rng), name + " (completed)")
            return False
        names = [k for k in s.inputs]
        base = s.full(env) if env else {k: s.rng.getrandbits(s.inputs[k]) for k in names}
        for k in range(n):
            if k % 64 == 0 and s.left() <= 0: break
            e = dict(base)
            r = s.rng.random()
            if r < 0.5:
                for q in s.rng.sample(names, min(len(names), 1 + s.rng.randrange(4))): e[q] = s.rnd(s.inputs[q])
            else:
                for q in names: e[q] = s.rnd(s.inputs[q])
            if s.confirm(e, name + " (completed)"): return True
        return False

    def rnd(s, w):
        r = s.rng.random()
        if r < 0.35: return s.rng.choice((0, 1, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1)) & ((1 << w) - 1)
        return s.rng.getrandbits(w)

    def validate(s, terms, nat, n=8, gen=None):
        """the encoding must agree with the natively compiled code on concrete inputs"""
        names = t.variables([x for x in terms if x is not None])
        for k in range(n):
            env = gen() if gen else {q: s.rnd(s.inputs.get(q, x.w)) for q, x in names.items()}
            for q, x in names.items():
                if q not in env: env[q] = s.rnd(x.w)
            got = t.evaluate(terms, env); want = nat(env)
            if want is None: continue
            if list(got) != list(want):
                raise EncodingMismatch(f"encoding and native code disagree on {env}: {got} vs {list(want)}")
            s.validated += 1
            if len(s.samples) < 2: s.samples.append({"inputs": {a: b for a, b in list(env.items())[:24]}, "outputs": list(got)[:16]})

    def result(s):
        p = s._prog
        return {"name": s.name, "obl": s.obl, "viol": s.viol, "undecided": [(a, b) for a, b, _ in s.undecided], "notes": s.notes, "samples": s.samples,
                "validated": s.validated, "evals": s.evals, "bounds": s.bounds, "wall": time.time() - s.t0,
                "queries": smt.STATS.queries, "solver_s": smt.STATS.time, "unsat": smt.STATS.unsat, "sat": smt.STATS.sat, "unknown": smt.STATS.unknown,
                "states": p.states if p else 0, "transitions": p.transitions if p else 0, "merges": p.merges if p else 0,
                "funcs": sorted(p.funcs) if p else [], "terms": len(t._tab)}

class EncodingMismatch(Exception): pass

def _run_job(q, fn, name, kw, tier, seed, budget):
    threading.stack_size(1 << 30)
    res = {}
    def body():
        j = Job(name, tier, seed, budget)
        err = None
        try: fn(j, **kw)
        except Found: pass
        except (Unsupported, Budget, EncodingMismatch, RecursionError, NotImplementedError, KeyError, TypeError, AttributeError, IndexError, ValueError, AssertionError, MemoryError) as e:
            err = f"{type(e).__name__}: {e}"[:600]
            if os.environ.get("VERIF_DEBUG"): print(traceback.format_exc()[-3000:], file=sys.stderr)
        except Exception as e:
            err = f"{type(e).__name__}: {e}"[:600]
        if err is not None and not j.viol:
            # nothing decided here: fall back to looking for a concrete counterexample
            try:
                j.deadline = time.time() + 25
                if j.oracle: j.search(None, "undecided job", 20000)
            except Exception as e: j.notes.append(f"search: {e!r}")
        r = j.result(); r["error"] = err
        res["r"] = r
    th = threading.Thread(target=body); th.start(); th.join()
    q.put(res.get("r") or {"name": name, "error": "crashed", "obl": [], "viol": [], "undecided": []})

def run_jobs(jobs, tier, seed, workers=8, total=None):
    """jobs: list of (name, fn, kwargs, budget seconds); each in its own process. The first violation ends the run;
    what is not finished when the total time is over is undecided."""
    t0 = time.time(); total = total or (1e9 if tier == "thorough" else 800)
    pending = list(jobs); running = []; out = []
    lost = lambda name, why: {"name": name, "error": why, "obl": [], "viol": [], "undecided": []}
    stop = None; found = False
    while pending or running:
        now = time.time()
        if now - t0 > total - 40 and pending:
            out += [lost(j[0], "total time limit") for j in pending]; pending = []
        while pending and len(running) < workers:
            name, fn, kw, budget = pending.pop(0)
            budget = max(20, min(budget, total - 40 - (now - t0)))
            q = mp.Queue()
            p = mp.Process(target=_run_job, args=(q, fn, name, kw, tier, seed, budget)); p.start()
            running.append((p, q, name, min(now + budget * 1.5 + 90, t0 + total)))
        again = []
        for p, q, name, dl in running:
            r = None
            try: r = q.get(timeout=0.02)
            except Exception: pass
            if r is not None:
                out.append(r); p.join(5)
                if p.is_alive(): p.kill()
            elif not p.is_alive():
                try: r = q.get(timeout=1); out.append(r)
                except Exception: out.append(lost(name, f"worker died ({p.exitcode})"))
            elif time.time() > dl:
                p.kill(); out.append(lost(name, "time limit"))
            else: again.append((p, q, name, dl))
            if r is not None and r["viol"] and not found:
                found = True; stop = time.time() + 3
        running = again
        if found and time.time() > stop:
            for p, q, name, dl in running: p.kill(); out.append(lost(name, "not finished: another job found a violation"))
            out += [lost(j[0], "not started: another job found a violation") for j in pending]
            break
    order = {n[0]: i for i, n in enumerate(jobs)}
    out.sort(key=lambda r: order.get(r["name"], 0))
    return out
