from checks.aspects import *
META = dict(
    explanation="Every function that handles bytes of a server or a file, GTID text or a committed event is abstractly interpreted over its MIR on arbitrary input (see C01). Every loop found is summarised, and a ranking argument is required: a counter bounded before the loop, a position that advances on every repetition and cannot pass the end of its buffer, a decreasing measure, or one read of the peer per repetition. Loops of the analysed instances with known numbers of repetitions are executed to their end.",
    rule="every loop has a ranking argument; a repetition that may leave every counter and position unchanged is a violation",
    assumptions=ASSUME + ["a row consumes at least its null bitmap (decided by C14)", "reads of the peer end (timeouts: C30)"])
def run(env):
    decide(env, loops)
    def recursion():
        P = env.P; g = {}
        for f in P.fns.values():
            if not f["local"]: continue
            for b in f["blocks"] or ():
                if not b: continue
                t = b.get("t")
                if t and t[0] == "call" and len(t) > 1 and isinstance(t[1], dict) and t[1].get("local") and t[1].get("path") in P.bypath: g.setdefault(f["path"], set()).add(t[1]["path"])
        seen = {}
        def go(x, st):
            if seen.get(x) == 2: return
            if seen.get(x) == 1: raise Unsupported("recursion through %s" % x)
            seen[x] = 1
            for y in sorted(g.get(x, ())): go(y, st)
            seen[x] = 2
        for x in sorted(g): go(x, ())
        env.rep.cases += len(g)
    env.obligation("no recursion", recursion)
