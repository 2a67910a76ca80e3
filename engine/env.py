"""What a check works with: the program model, analyses of entry points, and the verdict."""
import sys, os, time, json, traceback, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract, names
from terms import *
import terms, seqs
from interp import Interp, State, Budget
from model import Program, Unsupported
import spec
from spec import S, SErr, DontCare, Brk, Cont, Mismatch, Proxy, Cur, Report, compare, check_panic, for_all, eqv

class Gone(Exception):
    """a public entry point the property is about does not exist any more"""
class TimeUp(Exception): pass
class Done(Exception):
    """nothing more is of interest in this obligation"""

class Env:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        d, self.hash = extract.extract(); d = names.restore(d)
        self.P = Program(d)
        self.rep = Report()
        self.analysed = []          # (entry, paths, loops, seconds)
        self.stubs = {}
        self.local = set()
        self.failed = []            # undecided obligations
        self.notes = []
        self.known = load_known(pid)
        self.known_hit = set()
        self.focus = set()
        self.start0 = False; self.abort = False; self.label = None
        self.unroll = None; self.concrete = None; self.concrete_states = 16; self.bounded = []; self.t0 = time.time(); self.unrolls = (3, 2, 1); self.unroll_secs = 100; self.secs = 300
    def fn(self, path, public=True):
        fs = self.P.bypath.get(path)
        if not fs:
            if public: raise Gone(path)
            raise Unsupported("%s does not exist" % path)
        return fs[0]
    def analyse(self, path, args=None, stubs=None, public=True, steps=1500000, setup=None, join=False):
        """outcomes of a function on the most general arguments (or the given ones)"""
        f = self.fn(path, public)
        I = Interp(self.P)
        I.max_steps = steps
        I.stubs = dict(stubs or {})
        I.focus = self.focus; I.unroll = self.unroll; I.concrete = self.concrete; I.concrete_states = self.concrete_states
        st = State()
        av = []
        for i in range(f["argc"]):
            t = f["locals"][i + 1][0]; T = self.P.types[t]
            nm = f["locals"][i + 1][1] or "arg%d" % i
            v = args.get(i) if args else None
            if callable(v): v = v(I, st)
            if v is None:
                if T["k"] == "ref" and T["mut"]:
                    v = MutRef(I.newcell(st, self.P.mksym(T["t"], (nm,)), T["t"]))
                else: v = self.P.mksym(t, (nm,))
            av.append(v)
        if setup: st = setup(I, st, av) or st
        for a in av:
            # a reader handed to a decoder stands inside its buffer
            c = I.read(st, a.cell, a.proj) if isinstance(a, MutRef) else None
            if isinstance(c, Op) and c.n == "Cursor":
                q = c.a[0]
                while isinstance(q, RefV): q = q.v
                if self.start0:
                    # event decoders are handed a reader at the start of the payload
                    I.store(st, a.cell, a.proj, Op("Cursor", c.a[0], ZERO)); continue
                s = st.assume(ge(seqs.slen(q), c.a[1]))
                if s is not None: st = s
        self.I0 = I; self.av0 = av
        self.args0 = [(I.read(st, a.cell, a.proj) if isinstance(a, MutRef) else a) for a in av]
        t0 = time.time()
        outs = I.call_body(f["id"], av, st)
        self.analysed.append({"entry": path, "paths": len(outs), "loops": len(I.loops), "seconds": round(time.time() - t0, 2)})
        for x in I.analysed: self.local.add(self.P.fns[x]["path"])
        if self.rep.aspect: self.rep.aspect(self, path, I, outs, av)
        return I, outs, av
    def obligation(self, name, fn):
        """run one obligation; failures of the analysis itself leave it undecided"""
        t0 = time.time()
        n0 = len(self.rep.viol); self.rep.weak = 0
        why = self.attempt(name, fn, self.secs)
        new = len(self.rep.viol) - n0
        if why is not None or new and self.rep.weak == new:
            # the summaries of repetitions do not settle it: decide it for a bounded number of repetitions
            first = self.rep.viol[n0:]; del self.rep.viol[n0:]
            msg = why or first[0][1]
            w2 = "not tried" if not self.unrolls else None
            for k in self.unrolls:
                self.unroll = k
                try: w2 = self.attempt(name, fn, self.unroll_secs)
                finally: self.unroll = None
                if len(self.rep.viol) > n0 or w2 is None: break
            if len(self.rep.viol) == n0:
                if w2 is None: self.notes.append("%s: settled for at most %d undetermined repetitions of each loop only (%s)" % (name, k, msg[:200])); self.bounded.append(name)
                else: self.failed.append((name, msg[:300] + " / bounded: " + w2))
        if os.environ.get("VERIF_DEBUG"): print("  [%s] %.1fs" % (name, time.time() - t0), file=sys.stderr)
    def attempt(self, name, fn, secs):
        import interp
        outer = interp.DEADLINE[0]; interp.DEADLINE[0] = min(time.time() + secs, self.t0 + 560, outer or 1e18)
        try:
            fn()
        except Done: return None
        except Gone as e:
            if self.rep.aspect: return "%s is gone" % e
            self.rep.viol.append((name, "entry point %s is gone" % e, []))
        except Mismatch as e:
            self.rep.bad(name, e, None)
        except (Unsupported, Budget, RecursionError, TimeUp) as e:
            return "%s: %s" % (type(e).__name__, str(e)[:300])
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"): traceback.print_exc()
            return "%s: %s" % (type(e).__name__, str(e)[:300])
        finally: interp.DEADLINE[0] = outer
        return None
    def parallel(self, items, fn, workers=8):
        """fn(item) for every item, in several processes; their findings are collected"""
        import pickle, gc
        items = list(items); workers = min(workers, len(items), os.cpu_count() or 1)
        if workers < 2:
            for x in items: fn(x)
            return
        sys.stdout.flush(); kids = []
        qr, qw = os.pipe(); os.write(qw, bytes(bytearray().join(i.to_bytes(4, "little") for i in range(len(items))))); os.close(qw)
        for w in range(workers):
            r, wr = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r); code = 1
                try:
                    rep = self.rep; rep.viol = []; rep.paths = rep.cases = 0
                    self.failed = []; self.notes = []; self.bounded = []; self.analysed = []
                    while True:
                        i = os.read(qr, 4)
                        if not i: break
                        fn(items[int.from_bytes(i, "little")])
                    d = pickle.dumps((rep.viol, rep.paths, rep.cases, self.failed, self.notes, self.bounded, self.analysed, self.local))
                    with os.fdopen(wr, "wb") as f: f.write(d)
                    code = 0
                finally: os._exit(code)
            os.close(wr); kids.append((pid, r))
        os.close(qr)
        for pid, r in kids:
            with os.fdopen(r, "rb") as f: d = f.read()
            os.waitpid(pid, 0)
            if not d: self.failed.append(("parallel", "a worker did not finish")); continue
            v, p, c, fl, nt, bd, an, lc = pickle.loads(d)
            self.rep.viol += v; self.rep.paths += p; self.rep.cases += c; self.failed += fl; self.notes += nt; self.bounded += bd; self.analysed += an; self.local |= lc
    def decode(self, path, spec_fn, name=None, args=None, stubs=None, public=True, check=None, setup=None, pos=False, panics=True):
        """compare a decoding function with its specification; spec_fn(*argument values)"""
        name = name or path
        def go():
            I, outs, av = self.analyse(path, args, stubs, public, setup=setup)
            a0 = self.args0
            cur = [None]
            def sp(z):
                xs = [spec_arg(x) for x in a0]
                cur[0] = [(x, a) for x, a in zip(xs, av) if isinstance(x, Cur) and isinstance(a, MutRef)]
                return spec_fn(*xs)
            def chk(z, st, val, err):
                if check is not None: check(z, st, val, err)
                if pos and err is None:
                    for x, a in cur[0]:
                        c = I.read(st, a.cell, a.proj)
                        if not eqv(z, c.a[1], x.pos): raise Mismatch("wrong number of bytes consumed", c.a[1], x.pos)
            compare(I, outs, av, sp, self.rep, name, chk, panics=panics)
        self.obligation(name, go)

def spec_arg(v):
    if isinstance(v, Op) and v.n == "Cursor":
        q = v.a[0]
        while isinstance(q, RefV): q = q.v
        return Cur(q, v.a[1])
    if isinstance(v, RefV): return spec_arg(v.v)
    return v

def load_known(pid):
    r = []
    p = os.path.join(extract.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid): r.append(l.split(" key=", 1)[1] if " key=" in l else l)
    return r

def finish(env, t0, seed, meta):
    """evidence, output lines, exit code"""
    pid = env.pid
    viol = []; known = []
    for name, msg, lits in env.rep.viol:
        key = name + ": " + msg
        hit = [k for k in env.known if key.startswith(k)]
        if hit: known.append((hit[0], key))
        else: viol.append((name, msg, lits))
    os.makedirs(os.path.join(extract.VERIF, "evidence"), exist_ok=True)
    nob = env.rep.cases
    cov = {
        "explanation": meta["explanation"],
        "rule": meta["rule"],
        "entries": env.analysed,
        "functions_analysed": sorted(env.local),
        "paths": env.rep.paths,
        "obligations": nob, "discharged": nob - len(viol) if nob else 0,
        "settled_for_bounded_repetitions_only": env.bounded,
        "undecided": [{"obligation": n, "reason": r} for n, r in env.failed],
        "source_hash": env.hash,
        "details": env.notes[:200],
        "samples": env.notes[:6] or env.analysed[:3],
    }
    ev = {"property": pid, "tier": env.tier, "seed": seed, "level": meta.get("level", "other"), "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(extract.VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(set(k for k, _ in known)): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: %d entry points, %d functions, %d paths, %d obligations, %d undecided, %d violations, %.1fs" % (
        pid, len(env.analysed), len(env.local), env.rep.paths, nob, len(env.failed), len(viol), time.time() - t0))
    for n, r in env.failed: print("UNDECIDED %s: %s" % (n, r))
    if viol:
        d = os.path.join(extract.BUILD, "violations"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + ".txt")
        with open(p, "w") as f:
            for name, msg, lits in viol:
                f.write("%s: %s\n" % (name, msg))
                for l in lits: f.write("    when %s\n" % l[:300])
        for name, msg, lits in viol[:10]: print("  %s: %s" % (name, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 0
